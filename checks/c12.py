"""C12 comparisons and range membership decide the mathematical order of the operand values"""
import vf, cg, worlds
from arith import *
from absint import State

CMP = {'TOK_EQ': '==', 'TOK_NOT_EQ': '!=', 'TOK_LT': '<', 'TOK_GT': '>', 'TOK_LT_EQ': '<=', 'TOK_GT_EQ': '>='}
BIG = {'i128': (2, True), 'u128': (2, False), 'i256': (4, True), 'u256': (4, False)}
WRAP = "void @FN@(int *out){ if (%s) { *out = 1; } else { *out = 0; } }"


def where_of(c, kind):
    return "code generator, expression dispatcher %s (%s)" % (c.expr_fn, kind)


def check():
    ck = vf.Check("C12", "on every path of an emitted comparison or range-membership template, each ordering of the exact operand values that the path's branch decisions leave possible gives the path's result",
                  "All C templates for the six comparisons over all pairs of integer types and the 128/256-bit types, and for in / not_in and when-ranges, are derived from the code generator by conditional constant propagation, lowered to LLVM IR and partitioned by branch decision; the decisions are read as order facts over the exact operand values.")
    c = cg.CG()
    ints(ck, c)
    bigs(ck, c)
    ranges(ck, c)
    when(ck, c)
    ck.floor('templates', 900)
    return ck


def rel_out(run, fn, holes):
    """(outcome, state) per returning path; outcome None when not decided by the branch"""
    st = State()
    constrain(st, holes)
    run.eng.obj_kind['OUT'] = ('alloca',)
    st.mem['OUT'] = {}
    st.own.add('OUT')
    res = run.run(fn, [('p', 'OUT', 0)], st)
    out = []
    for k, f in res:
        v = run.eng.load_obj(f, run.mod, 'OUT', 0, ('i', 32), 32) if k == 'ret' else None
        out.append((k, v, f))
    return out


def ints(ck, c):
    H = Harness('c12')
    jobs = []
    for tok, op in CMP.items():
        for lt in INTS:
            for rt in INTS:
                st = c.new()
                L, R = c.opaque(st, 'L', lt), c.opaque(st, 'R', rt)
                top = c.node(st, 'top', 'NODE_INFIX_EXPR', 'bool', infix__left=L, infix__right=R, infix__op=tok)
                key = "%s (%s,%s)" % (op, lt, rt)
                tpls = c.run(st, top)
                if not tpls:
                    ck.fail(key, c.expr_fn, "no template is emitted")
                for tpl, f in tpls:
                    ck.count('templates')
                    hl, hr = literal_hole(c, tpl, 'N:L', lt, 'L'), literal_hole(c, tpl, 'N:R', rt, 'R')
                    H.declare(hl, CTYPE[lt], False)
                    H.declare(hr, CTYPE[rt], False)
                    code = render(tpl, {'N:L': (hl, 0, 0), 'N:R': (hr, 0, 0)})
                    jobs.append((key, H.add(WRAP % code), op, lt, rt, code, hl, hr))
    run = Runner(H.build())
    for key, fn, op, lt, rt, code, hl, hr in jobs:
        w = where_of(c, op)
        if fn in H.bad:
            ck.fail(key, w, "the emitted C does not compile: %s; emitted C: %s" % (H.bad[fn], code))
            continue
        res = rel_out(run, fn, [(hl, lt), (hr, rt)])
        lv = {hl: leaf(lt), hr: leaf(rt)}
        if decide(ck, run, key, w, res, lv, [(hl, hr)], lambda ws, op=op: ws[0] in worlds.HOLDS[op], code):
            ck.ok(key, code)


def decide(ck, run, key, where, res, lv, pairs, truth, code, panic_ok=None, branchy=False):
    n = 0
    for kind, v, f in res:
        if kind != 'ret':
            if panic_ok is None or not panic_ok(f):
                ck.fail(key, where, "the program may stop (%s); emitted C: %s" % (panic_code(f), code))
                return False
            continue
        n += 1
        ck.count('paths')
        if not isinstance(v, int):
            ck.fail(key, where, "the outcome of a path is not decided by its branches; emitted C: %s" % code)
            return False
        for ws in worlds.possible(run, f, lv, pairs):
            want = truth(ws)
            if want is not None and int(v) != int(want):
                d = ", ".join("%s %s %s" % (a, r, b) for (a, b), r in zip(pairs, ws))
                ck.fail(key, where, "when %s the result may be %s; emitted C: %s" % (d, v if branchy else bool(v), code))
                return False
    if not n:
        ck.fail(key, where, "no path yields a result; emitted C: %s" % code)
        return False
    return True


def bigs(ck, c):
    H = Harness('c12b')
    jobs = []
    for tok, op in CMP.items():
        for t in BIG:
            st = c.new()
            L, R = c.opaque(st, 'L', t, kinds='NODE_LABEL'), c.opaque(st, 'R', t, kinds='NODE_LABEL')
            top = c.node(st, 'top', 'NODE_INFIX_EXPR', 'bool', infix__left=L, infix__right=R, infix__op=tok)
            key = "%s (%s,%s)" % (op, t, t)
            tpls = c.run(st, top)
            if not tpls:
                ck.fail(key, c.expr_fn, "no template is emitted")
            for tpl, f in tpls:
                ck.count('templates')
                H.declare('L_' + t, CTYPE[t], False)
                H.declare('R_' + t, CTYPE[t], False)
                code = render(tpl, {'N:L': ('L_' + t, 0, 0), 'N:R': ('R_' + t, 0, 0)})
                jobs.append((key, H.add(WRAP % code), op, t, code))
    run = Runner(H.build(), loop_forks=6)
    lo = irlib_layout()
    for key, fn, op, t, code in jobs:
        w = where_of(c, op)
        if fn in H.bad:
            ck.fail(key, w, "the emitted C does not compile: %s; emitted C: %s" % (H.bad[fn], code))
            continue
        n, signed = BIG[t]
        words = lo[t]          # leaf index of each word, most significant first, with its signedness
        res = rel_out(run, fn, [])
        names = [("L_%s.%s" % (t, i), "R_%s.%s" % (t, i)) for i in words]
        lv = {}
        for k, (a, b) in enumerate(names):
            lv[a] = lv[b] = (64, signed and k == 0)

        def truth(ws, op=op):
            r = next((x for x in ws if x != '='), '=')
            return r in worlds.HOLDS[op]
        if decide(ck, run, key, w, res, lv, names, truth, code):
            ck.ok(key, code)


def irlib_layout():
    """index of each 64-bit word of the wide integer types, most significant first, from the debug information"""
    H = Harness('c12l')
    H.add("void @FN@(gray_i128 *a, gray_u128 *b, gray_i256 *c, gray_u256 *d){ (void)a; (void)b; (void)c; (void)d; }")
    di = irlib.DI(H.build())
    r = {'i256': [3, 2, 1, 0], 'u256': [3, 2, 1, 0]}
    for t in ('i128', 'u128'):
        r[t] = [di.off('gray_' + t, 'hi')[0] // 8, di.off('gray_' + t, 'lo')[0] // 8]
    return r


RTYPES = ['int', 'i8', 'i64', 'u8', 'uint', 'u64', 'u32', 'byte', 'char']


def range_jobs(ck, c, H, jobs, mk, key, xt, bt, step):
    st = c.new()
    X = c.opaque(st, 'X', xt)
    A, B = c.opaque(st, 'A', bt), c.opaque(st, 'B', bt)
    S = c.opaque(st, 'S', bt) if step else None
    rng = c.node(st, 'rng', 'NODE_RANGE_EXPR', None, range_expr__start=A, range_expr__end=B, range_expr__step=S)
    n = 0
    for tpl, code, fn in mk(st, X, rng):
        n += 1
        ck.count('templates')
        holes = {}
        for h, t in (('X', xt), ('A', bt), ('B', bt), ('S', bt)):
            nm = literal_hole(c, tpl, 'N:' + h, t, h)
            holes[h] = (nm, t)
            H.declare(nm, CTYPE[t], False)
        text = render(tpl, {'N:' + h: (nm, 0, 0) for h, (nm, t) in holes.items()})
        jobs.append((key, H.add(fn(text)), holes, step, text))
    if not n:
        ck.fail(key, c.expr_fn, "no template is emitted")


def ranges(ck, c):
    """x in range(a, b[, s]) and its negation"""
    H = Harness('c12r')
    jobs = []
    neg = {}
    for tok in ('TOK_IN', 'TOK_NOT_IN'):
        for xt in RTYPES:
            for bt in ('int', 'uint'):
                for step in (False, True):
                    key = "%s range%s (%s; %s)" % ('in' if tok == 'TOK_IN' else 'not_in', ' with step' if step else '', xt, bt)
                    neg[key] = tok == 'TOK_NOT_IN'

                    def mk(st, X, rng, tok=tok):
                        top = c.node(st, 'top', 'NODE_INFIX_EXPR', 'bool', infix__left=X, infix__right=rng, infix__op=tok)
                        for tpl, f in c.run(st, top):
                            yield tpl, None, lambda text: WRAP % text
                    range_jobs(ck, c, H, jobs, mk, key, xt, bt, step)
    run = Runner(H.build())
    for key, fn, holes, step, code in jobs:
        judge_range(ck, run, H, key, where_of(c, 'range membership'), fn, holes, step, code, neg[key])


def judge_range(ck, run, H, key, w, fn, holes, step, code, neg):
    if fn in H.bad:
        ck.fail(key, w, "the emitted C does not compile: %s; emitted C: %s" % (H.bad[fn], code))
        return
    res = rel_out(run, fn, list(holes.values()))
    lv = {nm: leaf(t) for nm, t in holes.values()}
    x, a, b, s = (holes[k][0] for k in 'XABS')
    pairs = [(x, a), (x, b)] + ([(s, 0)] if step else [])

    def truth(ws):
        if not step:
            r = ws[0] in ('>', '=') and ws[1] == '<'
        elif ws[2] == '=':
            return not 'a zero step must stop'
        elif ws[2] == '>':
            r = False if not (ws[0] in ('>', '=') and ws[1] == '<') else None
        else:
            r = False if not (ws[0] in ('<', '=') and ws[1] == '>') else None
        if r is None:
            return None          # inside the bounds: decided by the remainder, see below
        return r != neg

    def zero(f):
        lo, hi = worlds.rng(f, s, *lv[s])
        return step and panic_code(f) == 'P0090' and lo == hi == 0
    for kind, v, f in res:
        if kind == 'ret' and step and not worlds.rng(f, s, *lv[s])[0] > 0 and not worlds.rng(f, s, *lv[s])[1] < 0 and \
                0 not in f.rng(('s', s, lv[s][0]), lv[s][0])[4]:
            ck.fail(key, w, "a zero step does not stop the program; emitted C: %s" % code)
            return
        if kind == 'ret' and step:
            # membership inside the bounds needs the remainder test
            inside = [ws for ws in worlds.possible(run, f, lv, pairs) if truth(ws) is None]
            if inside and isinstance(v, int):
                rem = remainder(run, f, lv, x, a, s)
                if rem is None or rem != (bool(v) != neg):
                    ck.fail(key, w, "inside the bounds the result %s does not follow from the step; emitted C: %s" % (bool(v), code))
                    return
    if decide(ck, run, key, w, res, lv, pairs, truth, code, zero):
        ck.ok(key, code)


def remainder(run, st, lv, x, a, s):
    """truth of (x - a) % s == 0 on this path, or None when the path does not test it"""
    want = padd(pleaf(x), pleaf(a), -1).key()
    for t, r in st.cons.items():
        if t[0] == 'e' and t[1] in ('srem', 'urem'):
            w = t[2]
            m = Meaning(run.eng, st, lv)
            p, q = m.of(t[3], w, t[1] == 'srem'), m.of(t[4], w, t[1] == 'srem')
            if p is None or q is None or p[0].key() != want or q[0].key() != pleaf(s).key():
                continue
            if r[2] == r[3] == 0:
                return True
            if 0 in r[4] or r[0] > 0 or r[1] < 0 or r[2] > 0:
                return False
    return None


def when_node(c, st, xt, arms, default=True):
    """a when statement over hole X; arms: lists of value nodes, or of one range node"""
    X = c.opaque(st, 'X', xt)
    o = c.L['off']
    size = c.L['di'].sizeof('WhenCase')
    st.mem['WC'] = {}
    st.own.add('WC')
    c.eng.obj_kind['WC'] = ('heap', None)
    w = st.mem['WC']
    for i, (vals, is_range) in enumerate(arms):
        b = i * size
        w[b + o[('WhenCase', 'values')]] = (8, c.ptr_array(st, 'vals%d' % i, vals))
        w[b + o[('WhenCase', 'value_count')]] = (4, len(vals))
        w[b + o[('WhenCase', 'is_range')]] = (1, int(is_range))
        w[b + o[('WhenCase', 'body')]] = (8, c.opaque(st, 'body%d' % (i + 1)))
    f = dict(when_stmt__value=X, when_stmt__cases=('p', 'WC', 0), when_stmt__case_count=len(arms))
    f['when_stmt__default_body'] = c.opaque(st, 'body0') if default else 0
    return c.node(st, 'top', 'NODE_WHEN_STMT', None, **f)


def when_templates(c, st, top, n):
    """emitted templates in which each body has exactly one statement"""
    for tpl, f in c.run(st, top, stmt=True):
        bodies = [p[1].split(':')[1].split('.')[0] for p in tpl if p[0] == 'B' and not isinstance(p, str)]
        if sorted(bodies) == ['body%d' % i for i in range(n + 1)]:
            parts = tuple(p if isinstance(p, str) or p[0] != 'B' else
                          "*out = %s;\n" % p[1].split(':')[1].split('.')[0][4:] for p in tpl)
            c.alts[repr(parts)] = c.alts[repr(tpl)]
            yield tpl, parts


def when(ck, c):
    H = Harness('c12w')
    jobs = []
    for xt in INTS:
        for at in INTS:
            for n in (1, 2):
                if n == 2 and xt != at and not {xt, at} <= {'int', 'uint', 'i8'}:
                    continue
                st = c.new()
                if n == 1:
                    arms = [([c.opaque(st, 'A', at)], False)]
                    names = ['A']
                else:
                    arms = [([c.opaque(st, 'A', at), c.opaque(st, 'B', at)], False), ([c.opaque(st, 'C', at)], False)]
                    names = ['A', 'B', 'C']
                key = "when (%s; %s) %d arm%s" % (xt, at, n, 's' * (n > 1))
                top = when_node(c, st, xt, arms)
                k = 0
                for tpl, parts in when_templates(c, st, top, n):
                    k += 1
                    ck.count('templates')
                    holes = {}
                    for h, t in [('X', xt)] + [(h, at) for h in names]:
                        nm = literal_hole(c, tpl, 'N:' + h, t, h)
                        holes[h] = (nm, t)
                        H.declare(nm, CTYPE[t], False)
                    code = render(parts, {'N:' + h: (nm, 0, 0) for h, (nm, t) in holes.items()})
                    jobs.append((key, H.add("void @FN@(int *out){ *out = 77;\n%s}" % code), holes, names, code))
                if not k:
                    ck.fail(key, c.expr_fn, "no template is emitted")
    # range arms
    rjobs = []
    for xt in RTYPES:
        for bt in ('int', 'uint'):
            for step in (False, True):
                key = "when-range%s (%s; %s)" % (' with step' if step else '', xt, bt)

                def mk(st, X, rng, xt=xt):
                    top = when_node(c, st, xt, [([rng], True)])
                    for tpl, parts in when_templates(c, st, top, 1):
                        yield parts, None, lambda text: "void @FN@(int *out){ *out = 77;\n%s}" % text
                range_jobs(ck, c, H, rjobs, mk, key, xt, bt, step)
    run = Runner(H.build())
    for key, fn, holes, step, code in rjobs:
        judge_range(ck, run, H, key, where_of(c, 'when statement'), fn, holes, step, code, False)
    for key, fn, holes, names, code in jobs:
        w = where_of(c, 'when statement')
        if fn in H.bad:
            ck.fail(key, w, "the emitted C does not compile: %s; emitted C: %s" % (H.bad[fn], code))
            continue
        res = rel_out(run, fn, list(holes.values()))
        lv = {nm: leaf(t) for nm, t in holes.values()}
        x = holes['X'][0]

        def truth(ws, names=names):
            if len(names) == 1:
                return ws[0] == '='
            return 1 if '=' in ws[:2] else 2 if ws[2] == '=' else 0
        if decide(ck, run, key, w, res, lv, [(x, holes[h][0]) for h in names], truth, code, branchy=True):
            ck.ok(key, code)
