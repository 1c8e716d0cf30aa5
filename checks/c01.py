"""C01 integer arithmetic is exact or stops the program"""
import vf, cg, targets
from arith import *
from targets import FORMS, CELL, TargetRunner, scaffold, leaves_for, is_ref

ASG = {'TOK_PLUS_ASSIGN': 'add', 'TOK_MINUS_ASSIGN': 'sub', 'TOK_ASTERISK_ASSIGN': 'mul'}
ASYM = {'TOK_PLUS_ASSIGN': '+=', 'TOK_MINUS_ASSIGN': '-=', 'TOK_ASTERISK_ASSIGN': '*='}


def where_of(c, kind):
    return "code generator, expression dispatcher %s (%s)" % (c.expr_fn, kind)


def check():
    ck = vf.Check("C01", "every C template the code generator can emit for an integer operator yields the exact mathematical result on every path that does not stop, and stops only when that result is not representable",
                  "Conditional constant propagation of the code generator gives all C templates for each operator x operand-type pair (infix + - *, unary minus, ++ and --, and += -= *= through every assignment-target form); each template and the runtime helpers it calls are lowered to LLVM IR and interpreted over intervals with overflow-flag facts; the returned term must denote the exact polynomial of the operands.")
    c = cg.CG()
    infix(ck, c)
    prefix(ck, c)
    compound(ck, c)
    step(ck, c)
    ck.floor('templates', 1000)
    return ck


def infix(ck, c):
    H = Harness('c01')
    jobs = []
    for tok, nm in OPN.items():
        for lt in INTS:
            for rt in INTS:
                st = c.new()
                L = c.opaque(st, 'L', lt)
                R = c.opaque(st, 'R', rt)
                top = c.node(st, 'top', 'NODE_INFIX_EXPR', lt if lt == rt else None, infix__left=L, infix__right=R, infix__op=tok)
                tpls = c.run(st, top)
                key = "infix %s (%s,%s)" % (SYM[tok], lt, rt)
                if not tpls:
                    ck.fail(key, c.expr_fn, "no template is emitted")
                for tpl, f in tpls:
                    ck.count('templates')
                    hl, hr = literal_hole(c, tpl, 'N:L', lt, 'L'), literal_hole(c, tpl, 'N:R', rt, 'R')
                    H.declare(hl, CTYPE[lt], False)
                    H.declare(hr, CTYPE[rt], False)
                    code = render(tpl, {'N:L': (hl, 0, 0), 'N:R': (hr, 0, 0)})
                    fn = H.add("void @FN@(__int128 *out){ __auto_type r = (%s); *out = r; }" % code)
                    jobs.append((key, fn, nm, lt, rt, code, hl, hr))
    m = H.build()
    run = Runner(m)
    for key, fn, nm, lt, rt, code, hl, hr in jobs:
        if fn in H.bad:
            ck.fail(key, where_of(c, 'infix'), "the emitted C does not compile: %s; emitted C: %s" % (H.bad[fn], code))
            continue
        res = run_out(run, fn, [(hl, lt), (hr, rt)])
        lv = {hl: leaf(lt), hr: leaf(rt)}
        want = expected(nm, hl, hr)
        samet = lt == rt
        if judge_value(ck, run, key, where_of(c, 'infix'), res, lv, want, trange(lt) if samet else None, samet, code):
            ck.ok(key, code)
        ck.count('paths', len(res))


def prefix(ck, c):
    """unary minus on signed operands"""
    H = Harness('c01p')
    jobs = []
    for t in INTS:
        if t not in SIGNED or t == 'char':
            continue
        st = c.new()
        R = c.opaque(st, 'R', t)
        top = c.node(st, 'top', 'NODE_PREFIX_EXPR', t, prefix__right=R, prefix__op='TOK_MINUS')
        key = "prefix - (%s)" % t
        for tpl, f in c.run(st, top):
            ck.count('templates')
            if is_literal(c, tpl, 'N:R'):
                # constant: the digits of the literal, negated by the C compiler
                hr = 'lit_R_' + t
            else:
                hr = 'R_' + t
            H.declare(hr, CTYPE[t], False)
            code = render(tpl, {'N:R': (hr, 0, 0)})
            if is_literal(c, tpl, 'N:R') and 'H_' not in code:
                # emitted for a range of literal values only (kept unsigned, as the lexer read them)
                voff = ('s', 'N:R.%d' % c.L['off'][('AstNode', 'data.int_value.value')], 64)
                rs = [x.cons.get(voff) for x in c.alts[repr(tpl)]]
                if all(r is not None and r[2] > 1 << 63 for r in rs):
                    # no 64-bit negation exists; the literal must be rejected before code generation
                    ck.fail("prefix - literal above 2^63", where_of(c, 'prefix'), "the literal is replaced by %s" % code)
                    continue
                if all(r is not None and r[2] == r[3] for r in rs) and len({r[2] for r in rs}) == 1:
                    jobs.append((key, H.add("void @FN@(__int128 *out){ __auto_type r = (%s); *out = r; }" % code), t, code, rs[0][2]))
                    continue
            fn = H.add("void @FN@(__int128 *out){ __auto_type r = (%s); *out = r; }" % code)
            jobs.append((key, fn, t, code, hr))
    m = H.build()
    run = Runner(m)
    for key, fn, t, code, hr in jobs:
        if fn in H.bad:
            ck.fail(key, where_of(c, 'prefix'), "the emitted C does not compile: %s; emitted C: %s" % (H.bad[fn], code))
            continue
        if isinstance(hr, int):
            if judge_value(ck, run, key, where_of(c, 'prefix'), run_out(run, fn), {}, pconst(-hr), None, False, code):
                ck.ok(key, code)
            continue
        res = run_out(run, fn, [(hr, t)])
        want = padd(pconst(0), pleaf(hr), -1)
        if judge_value(ck, run, key, where_of(c, 'prefix'), res, {hr: leaf(t)}, want, trange(t), True, code):
            ck.ok(key, code)
        ck.count('paths', len(res))


def compound(ck, c):
    H = Harness('c01c')
    jobs = targets.compound_jobs(ck, c, H, ASYM, INTS, lambda t: [t] + [x for x in ('int', 'uint', 'i8', 'u8') if x != t])
    m = H.build()
    tr = TargetRunner(m)
    for key, fn, tok, t, vt, hv, code, form in jobs:
        nm = ASG[tok]
        w = targets.where_target(c, form)
        if fn in H.bad:
            ck.fail(key, w, "the emitted C does not compile: %s; emitted C: %s" % (H.bad[fn], code))
            continue
        judge_cell(ck, tr, key, w, tr.go(fn, t, [(hv, vt)]), t, {hv: leaf(vt)}, expected(nm, CELL + '.0', hv), t == vt, code,
                   targets.ALLOWED.get(form, ()))
        ck.count('paths')


def judge_cell(ck, tr, key, w, res, t, leaves, want, precise, code, allowed):
    """the final content of the cell is the exact value"""
    fs = []
    for k, f in res:
        if k == 'ret':
            if f.ret is None:
                ck.fail(key, w, "a path leaves the target without a stored value; emitted C: %s" % code)
                return
            fs.append((k, f))
        elif panic_code(f) not in allowed:
            fs.append((k, f))
    if not fs:
        ck.fail(key, w, "no path yields a result; emitted C: %s" % code)
        return
    for k, f in fs:
        lv = leaves_for(f, t, leaves)
        if k == 'ret':
            cw = f.x['cellw']
            if not judge_value(ck, tr.run, key, w, [(k, f)], lv, want, trange(t), False, code, (cw, t in SIGNED)):
                return
        elif precise and not out_of_range(tr.run, f, lv, want, trange(t)):
            ck.fail(key, w, "the program stops (%s) although the exact result may be representable; emitted C: %s" % (panic_code(f), code))
            return
    ck.ok(key, code)


def step(ck, c):
    """x++ and x-- on variables, fields and elements"""
    H = Harness('c01s')
    jobs = []
    for tok, nm, sym in (('TOK_INCREMENT', 'add', '++'), ('TOK_DECREMENT', 'sub', '--')):
        for form in ('label', 'refparam', 'index', 'member'):
            for t in INTS:
                st = c.new()
                T = targets.build(c, st, form, t)
                top = c.node(st, 'top', 'NODE_POSTFIX_EXPR', t, postfix__left=T, postfix__op=tok)
                key = "%s %s %s" % (form, t, sym)
                n = 0
                for tpl, f in c.run(st, top):
                    ref = is_ref(tpl)
                    if form in ('label', 'refparam') and ref != (form == 'refparam'):
                        continue
                    n += 1
                    ck.count('templates')
                    pre, post, holes = scaffold(H, form, t, ref)
                    code = render(tpl, holes)
                    fn = H.add("void @FN@(void){ %s %s; %s }" % (pre, code, post))
                    jobs.append((key, fn, nm, t, code, form))
                if not n:
                    ck.fail(key, c.expr_fn, "no template is emitted")
    m = H.build()
    tr = TargetRunner(m)
    for key, fn, nm, t, code, form in jobs:
        w = where_of(c, 'postfix on %s' % form)
        if fn in H.bad:
            ck.fail(key, w, "the emitted C does not compile: %s; emitted C: %s" % (H.bad[fn], code))
            continue
        want = padd(pleaf(CELL + '.0'), pconst(1), 1 if nm == 'add' else -1)
        judge_cell(ck, tr, key, w, tr.go(fn, t, []), t, {}, want, True, code, ('P0033',))
        ck.count('paths')
