"""C02 division and modulo: a zero divisor or MIN / -1 stops the program, anything else is exact"""
import vf, cg, targets
from arith import *
from absint import V, mask
from targets import CELL, FORMS, TargetRunner, leaves_for, is_ref
from judge import Runner

OPS = {'TOK_SLASH': ('div', '/'), 'TOK_PERCENT': ('rem', '%')}
AOPS = {'TOK_SLASH_ASSIGN': '/=', 'TOK_PERCENT_ASSIGN': '%='}
AOP = {'TOK_SLASH_ASSIGN': 'div', 'TOK_PERCENT_ASSIGN': 'rem'}
BIGS = ['i128', 'u128', 'i256', 'u256']
FLOATS = ['float', 'f64', 'f32']


def check():
    ck = vf.Check("C02", "no path of any emitted division or modulo reaches the machine division with a divisor that may be zero (or with MIN / -1), the quotient is that of the two operands, and the division panics are raised only for those operands",
                  "All C templates for / % /= %= over integer, floating and 128/256-bit operand types and all assignment-target forms are derived from the code generator by conditional constant propagation, lowered to LLVM IR and interpreted over intervals; each sdiv/udiv/srem/urem/fdiv must be dominated by facts excluding the trapping operands.")
    c = cg.CG()
    infix(ck, c)
    compound(ck, c)
    bigs(ck, c)
    ck.floor('templates', 500)
    ck.floor('divisions', 500)
    return ck


def where_of(c, kind):
    return "code generator, expression dispatcher %s (%s)" % (c.expr_fn, kind)


def fstrip(t):
    """a widening keeps zero-ness"""
    while isinstance(t, tuple) and t[0] == 'e' and t[1] == 'fpext':
        t = t[3]
    return t


def fnonzero(st, b):
    """is the floating divisor known to differ from zero?"""
    for k, r in st.cons.items():
        if isinstance(k, tuple) and k[0] == 'e' and k[1] == 'fcmp' and r[2] == r[3]:
            pred, x, y = k[3], fstrip(k[4]), fstrip(k[5])
            if x == fstrip(b) and y == ('f', 0.0):
                if pred in ('oeq', 'ueq') and r[2] == 0 or pred in ('une', 'one') and r[2] == 1:
                    return True
    return False


def ext_leaf_nonzero(run, f, t):
    """an integer known to be non-zero, converted to floating point"""
    while isinstance(t, tuple) and t[0] == 'e' and t[1] in ('sitofp', 'uitofp', 'fpext'):
        if t[1] != 'fpext':
            return run.eng.decide_icmp(f, 'ne', t[3], 0, t[4]) is True
        t = t[3]
    return False


def fzero(st, b_leaf):
    for k, r in st.cons.items():
        if isinstance(k, tuple) and k[0] == 'e' and k[1] == 'fcmp' and r[2] == r[3]:
            pred, x, y = k[3], k[4], k[5]
            if y == ('f', 0.0) and fleaf(x) == b_leaf and (pred in ('oeq', 'ueq') and r[2] == 1 or pred in ('une', 'one') and r[2] == 0):
                return True
    return False


def fleaf(t):
    while isinstance(t, tuple) and t[0] == 'e' and t[1] in ('sitofp', 'uitofp', 'fpext', 'fptrunc', 'sext', 'zext', 'trunc'):
        t = t[3]
    return t[1] if isinstance(t, tuple) and t[0] == 's' else None


def divs_ok(ck, run, key, w, f, code):
    for ev in f.ev:
        if ev[0] == 'arith' and ev[2] in ('sdiv', 'udiv', 'srem', 'urem'):
            ck.count('divisions')
            nz, ok = ev[6]
            if not nz:
                ck.fail(key, w, "a division may be executed with a zero divisor; emitted C: %s" % code)
                return False
            if not ok:
                ck.fail(key, w, "a signed division of the smallest value by -1 is not excluded; emitted C: %s" % code)
                return False
        elif ev[0] == 'arith' and ev[2] in ('fdiv', 'frem'):
            ck.count('divisions')
            if not fnonzero(f, ev[4]) and not ext_leaf_nonzero(run, f, ev[4]):
                ck.fail(key, w, "a floating division may be executed with a zero divisor; emitted C: %s" % code)
                return False
    return True


def is_leaf_eq(run, f, name, t, val):
    """is the operand known to equal val on this path?  (through any extension of it)"""
    seen = set()
    for k in list(f.cons) + [x for r in f.rel for x in (r if isinstance(r, tuple) else ())]:
        subterms(k, seen)
    wid = WIDTH[t]
    for x in list(seen) + [('s', name, wid)]:
        if x[0] in ('s', 'e') and leaf_of(x) == name:
            m = Meaning(run.eng, f, {name: (wid, t in SIGNED)})
            r = f.cons.get(x)
            if r is None:
                continue
            want = mask(val, x[2])
            if r[2] == r[3] == want or run.eng.decide_icmp(f, 'eq', x, want, x[2]) is True:
                return True
    return False


def panic_ok(run, f, lname_, lt, rname, rt):
    pc = panic_code(f)
    if pc == 'P0078':
        return rt in WIDTH and is_leaf_eq(run, f, rname, rt, 0) or fzero(f, rname)
    if pc == 'P0079':
        mn = trange(lt)[0]
        return is_leaf_eq(run, f, rname, rt, -1) and (lt != rt or is_leaf_eq(run, f, lname_, lt, mn))
    return None


def infix(ck, c):
    H = Harness('c02')
    jobs = []
    ts = INTS + FLOATS
    for tok, (nm, sym) in OPS.items():
        for lt in ts:
            for rt in ts:
                fl = lt in FLOATS or rt in FLOATS
                if fl and (tok == 'TOK_PERCENT' or 'char' in (lt, rt)):
                    continue
                st = c.new()
                L, R = c.opaque(st, 'L', lt), c.opaque(st, 'R', rt)
                top = c.node(st, 'top', 'NODE_INFIX_EXPR', lt if lt == rt else None, infix__left=L, infix__right=R, infix__op=tok)
                key = "infix %s (%s,%s)" % (sym, lt, rt)
                n = 0
                for tpl, f in c.run(st, top):
                    n += 1
                    ck.count('templates')
                    hl = literal_hole(c, tpl, 'N:L', lt, 'L') if lt in WIDTH else 'L_' + lt
                    hr = literal_hole(c, tpl, 'N:R', rt, 'R') if rt in WIDTH else 'R_' + rt
                    H.declare(hl, CTYPE[lt], False)
                    H.declare(hr, CTYPE[rt], False)
                    code = render(tpl, {'N:L': (hl, 0, 0), 'N:R': (hr, 0, 0)})
                    fn = H.add("void @FN@(%s *out){ __auto_type r = (%s); *out = r; }" % ('double' if fl else '__int128', code))
                    jobs.append((key, fn, nm, lt, rt, code, hl, hr, fl))
                if not n:
                    ck.fail(key, c.expr_fn, "no template is emitted")
    m = H.build()
    run = Runner(m)
    for key, fn, nm, lt, rt, code, hl, hr, fl in jobs:
        w = where_of(c, 'infix')
        if fn in H.bad:
            ck.fail(key, w, "the emitted C does not compile: %s; emitted C: %s" % (H.bad[fn], code))
            continue
        res = run_out(run, fn, [x for x in ((hl, lt), (hr, rt)) if x[1] in WIDTH], 64 if fl else 128)
        judge_div(ck, run, key, w, res, nm, lt, rt, hl, hr, fl, code, (128, True))


def judge_div(ck, run, key, w, res, nm, lt, rt, hl, hr, fl, code, rd, allowed=(), T=None):
    nret = 0
    for kind, f in res:
        ck.count('paths')
        if not divs_ok(ck, run, key, w, f, code):
            return
        if kind == 'panic':
            pc = panic_code(f)
            if pc in allowed:
                continue
            ok = panic_ok(run, f, hl, lt, hr, rt)
            if ok is False or (ok is None and lt == rt):
                ck.fail(key, w, "the program stops (%s) for operands other than a zero divisor or MIN / -1; emitted C: %s" % (pc, code))
                return
            continue
        nret += 1
        if fl:
            t = f.ret
            while isinstance(t, tuple) and t[0] == 'e' and t[1] in ('fpext', 'fptrunc'):
                t = t[3]
            if not (isinstance(t, tuple) and t[0] == 'e' and t[1] == 'fdiv' and fleaf(t[3]) == hl and fleaf(t[4]) == hr):
                ck.fail(key, w, "the result is not the quotient of the two operands; emitted C: %s" % code)
                return
            continue
        lv = {hl: leaf(lt), hr: leaf(rt)}
        if isinstance(rd, dict):
            lv = leaves_for(f, lt, {hr: leaf(rt)})
            rdd = (f.x['cellw'], lt in SIGNED)
        else:
            rdd = rd
        m = Meaning(run.eng, f, lv)
        x = m.of(f.ret, *rdd)
        if x is None:
            ck.fail(key, w, "on a path that does not stop, the result may differ from the exact value: %s; emitted C: %s" % (m.why, code))
            return
        want = pleaf((nm, pleaf(hl).key(), pleaf(hr).key()))
        if not same(x[0], want):
            ck.fail(key, w, "the result is not the %s of the two operands; emitted C: %s" % ({'div': 'quotient', 'rem': 'remainder'}[nm], code))
            return
        if T is not None and not (x[1][0] >= T[0] and x[1][1] <= T[1]):
            ck.fail(key, w, "the stored result may leave the range of the type; emitted C: %s" % code)
            return
    if not nret:
        ck.fail(key, w, "no path yields a result; emitted C: %s" % code)
        return
    ck.ok(key, code)


def compound(ck, c):
    H = Harness('c02c')
    jobs = targets.compound_jobs(ck, c, H, AOPS, INTS, lambda t: [t] + [x for x in ('int', 'uint', 'i8', 'u8') if x != t])
    jobs += targets.compound_jobs(ck, c, H, {'TOK_SLASH_ASSIGN': '/='}, FLOATS, lambda t: [t, 'int'])
    m = H.build()
    tr = TargetRunner(m)
    for key, fn, tok, t, vt, hv, code, form in jobs:
        w = targets.where_target(c, form)
        if fn in H.bad:
            ck.fail(key, w, "the emitted C does not compile: %s; emitted C: %s" % (H.bad[fn], code))
            continue
        res = tr.go(fn, t, [(hv, vt)])
        if any(k == 'ret' and f.ret is None for k, f in res):
            ck.fail(key, w, "a path leaves the target without a stored value; emitted C: %s" % code)
            continue
        fl = t in FLOATS
        judge_div(ck, tr.run, key, w, res, AOP[tok], t, vt, CELL + '.0', hv, fl, code, None if fl else {}, targets.ALLOWED.get(form, ()),
                  None if fl else trange(t))


def bigs(ck, c):
    """128/256-bit: with a zero divisor every path must stop; so must MIN / -1"""
    H = Harness('c02b')
    jobs = []
    for t in BIGS:
        for tok, (nm, sym) in OPS.items():
            st = c.new()
            L, R = c.opaque(st, 'L', t), c.opaque(st, 'R', t)
            top = c.node(st, 'top', 'NODE_INFIX_EXPR', t, infix__left=L, infix__right=R, infix__op=tok)
            for tpl, f in c.run(st, top):
                if len({p[1] for p in tpl if not isinstance(p, str) and p[0] == 'E'}) < 2:
                    continue                # a literal operand is judged through its own digits at compile time
                ck.count('templates')
                hl, hr = 'L_' + t, 'R_' + t
                H.declare(hl, CTYPE[t], False)
                H.declare(hr, CTYPE[t], False)
                code = render(tpl, {'N:L': (hl, 0, 0), 'N:R': (hr, 0, 0)})
                jobs.append(("infix %s (%s)" % (sym, t), H.add("void @FN@(%s *out){ *out = (%s); }" % (CTYPE[t], code)), t, code))
        jobs += [(k, fn, t, code) for k, fn, tok, t2, vt, hv, code, form in targets.compound_jobs(ck, c, H, AOPS, [t], lambda t: [t], [x for x in FORMS if x != 'map']) if 'H_V' in code]
    m = H.build()
    tr = TargetRunner(m)
    run = tr.run
    for key, fn, t, code in jobs:
        w = where_of(c, '128/256-bit division')
        if fn in H.bad:
            ck.fail(key, w, "the emitted C does not compile: %s; emitted C: %s" % (H.bad[fn], code))
            continue
        n = 2 if t.endswith('128') else 4
        cases = [('a zero divisor', 'P0078', None, [0] * n)]
        if t[0] == 'i':
            cases.append(('MIN / -1', 'P0079', [0] * (n - 1) + [1 << 63], [(1 << 64) - 1] * n))
        good = True
        for what, pc, lv, rv in cases:
            res = tr.go_words(fn, t, lv, rv)
            ck.count('paths', len(res))
            for kind, f in res:
                if kind == 'ret':
                    ck.fail(key, w, "%s does not stop the program; emitted C: %s" % (what, code))
                    good = False
                    break
            if not any(kind == 'panic' and panic_code(f) == pc for kind, f in res):
                ck.fail(key, w, "%s never reaches the %s panic; emitted C: %s" % (what, pc, code))
                good = False
        if good:
            ck.ok(key, code)
