"""C03 bitwise operators and shifts: defined for every operand, amount range-checked, result in the operand's type"""
import vf, cg
from arith import *
from absint import mask, sgn

SHIFTS = {'TOK_BIT_SHIFT_LEFT': 'shl', 'TOK_BIT_SHIFT_RIGHT': 'shr'}
BITS = {'TOK_BIT_AND': 'and', 'TOK_BIT_OR': 'or', 'TOK_BIT_XOR': 'xor'}
NAME = {'shl': 'bit_shift_left', 'shr': 'bit_shift_right', 'and': 'bit_and', 'or': 'bit_or', 'xor': 'bit_xor', 'not': 'bit_not'}


def where_of(c, kind):
    return "code generator, expression dispatcher %s (%s)" % (c.expr_fn, kind)


def check():
    ck = vf.Check("C03", "every emitted bitwise or shift template computes the operand-typed bit operation; machine shifts are only reached with an amount below their width, and the shift panic is raised exactly for amounts outside 0..63",
                  "All C templates for bit_and, bit_or, bit_xor, bit_not and both shifts over all pairs of integer operand types are derived from the code generator by conditional constant propagation, lowered to LLVM IR and interpreted; the bits of the result term are normalised and compared with the bits the operator promises, in the left operand's type.")
    c = cg.CG()
    H = Harness('c03')
    jobs = []
    for tok, nm in list(SHIFTS.items()) + list(BITS.items()):
        for lt in INTS:
            for rt in INTS:
                st = c.new()
                L = c.opaque(st, 'L', lt)
                R = c.opaque(st, 'R', rt)
                top = c.node(st, 'top', 'NODE_INFIX_EXPR', lt, infix__left=L, infix__right=R, infix__op=tok)
                tpls = c.run(st, top)
                key = "%s (%s,%s)" % (NAME[nm], lt, rt)
                if not tpls:
                    ck.fail(key, c.expr_fn, "no template is emitted")
                for tpl, f in tpls:
                    ck.count('templates')
                    hl, hr = literal_hole(c, tpl, 'N:L', lt, 'L'), literal_hole(c, tpl, 'N:R', rt, 'R')
                    H.declare(hl, CTYPE[lt], False)
                    H.declare(hr, CTYPE[rt], False)
                    code = render(tpl, {'N:L': (hl, 0, 0), 'N:R': (hr, 0, 0)})
                    jobs.append((key, H.add("void @FN@(__int128 *out){ __auto_type r = (%s); *out = r; }" % code), nm, lt, rt, code, hl, hr))
    for t in INTS:
        st = c.new()
        R = c.opaque(st, 'R', t)
        top = c.node(st, 'top', 'NODE_PREFIX_EXPR', t, prefix__right=R, prefix__op='TOK_BIT_NOT')
        key = "bit_not (%s)" % t
        tpls = c.run(st, top)
        if not tpls:
            ck.fail(key, c.expr_fn, "no template is emitted")
        for tpl, f in tpls:
            ck.count('templates')
            hr = literal_hole(c, tpl, 'N:R', t, 'R')
            H.declare(hr, CTYPE[t], False)
            code = render(tpl, {'N:R': (hr, 0, 0)})
            jobs.append((key, H.add("void @FN@(__int128 *out){ __auto_type r = (%s); *out = r; }" % code), 'not', t, t, code, hr, hr))
    m = H.build()
    run = Runner(m)
    for key, fn, nm, lt, rt, code, hl, hr in jobs:
        w = where_of(c, NAME[nm])
        if fn in H.bad:
            ck.fail(key, w, "the emitted C does not compile: %s; emitted C: %s" % (H.bad[fn], code))
            continue
        res = run_out(run, fn, [(hl, lt), (hr, rt)])
        ck.count('paths', len(res))
        if judge(ck, run, key, w, res, nm, lt, rt, hl, hr, code):
            ck.ok(key, code)
    ck.floor('templates', 700)
    return ck


def rng_of(st, h, t):
    r = st.rng(('s', h, WIDTH[t]), WIDTH[t])
    return (r[0], r[1]) if t in SIGNED else (r[2], r[3])


def leafbits(h, t, w):
    if w <= WIDTH[t]:
        return ('low', h, w)
    return ('ext', t in SIGNED, ('low', h, WIDTH[t]), WIDTH[t], w)


def ext(sg, x, iw, w):
    return x if iw == w else ('ext', sg, x, iw, w)


def bits(run, st, t, w, leaves, tw):
    """normal form of the low w bits of term t (of width tw); raises ValueError when not understood"""
    if isinstance(t, int):
        return ('k', mask(t, w))
    if t[0] == 's':
        return ('low', t[1], w)
    op, W = t[1], t[2]
    if op == 'trunc':
        return bits(run, st, t[3], w, leaves, t[4])
    if op in ('zext', 'sext'):
        iw = t[4]
        if w <= iw:
            return bits(run, st, t[3], w, leaves, iw)
        return ext(op == 'sext', bits(run, st, t[3], iw, leaves, iw), iw, w)
    if op in ('and', 'or', 'xor'):
        a, b = bits(run, st, t[3], w, leaves, W), bits(run, st, t[4], w, leaves, W)
        return (op,) + tuple(sorted((a, b), key=repr))
    if op == 'shl':
        amount(run, st, t[4], W)
        return ('shl', bits(run, st, t[3], w, leaves, W), amt(t[4], leaves))
    if op in ('lshr', 'ashr'):
        amount(run, st, t[4], W)
        m = Meaning(run.eng, st, leaves)
        x = m.of(t[3], W, op == 'ashr')
        if x is None:
            raise ValueError(m.why)
        k = x[0].key()
        return ('shr', k, amt(t[4], leaves))
    raise ValueError("unexpected operation %s" % op)


def amount(run, st, a, W):
    if run.eng.decide_icmp(st, 'ult', a, W, W) is not True:
        raise ValueError("a %d-bit machine shift may be reached with an amount of %d or more (or negative)" % (W, W))


def amt(a, leaves):
    while isinstance(a, tuple) and a[0] == 'e' and a[1] in ('trunc', 'zext', 'sext'):
        a = a[3]
    if isinstance(a, int):
        return a
    if a[0] == 's':
        return a[1]
    raise ValueError("the shift amount is not the right operand")


def judge(ck, run, key, where, results, nm, lt, rt, hl, hr, show):
    leaves = {hl: leaf(lt), hr: leaf(rt)}
    w = WIDTH[lt]
    T = trange(lt)
    nret = 0
    for kind, f in results:
        if kind != 'ret':
            if nm not in ('shl', 'shr') or panic_code(f) != 'P0092':
                ck.fail(key, where, "the program may stop (%s) in this operation; emitted C: %s" % (panic_code(f), show))
                return False
            lo, hi = rng_of(f, hr, rt)
            if not (hi < 0 or lo > 63):
                ck.fail(key, where, "the program stops although the shift amount may be %d..%d; emitted C: %s" % (max(lo, 0), min(hi, 63), show))
                return False
            continue
        nret += 1
        lo, hi = rng_of(f, hr, rt)
        if nm in ('shl', 'shr') and (lo < 0 or hi > 63):
            ck.fail(key, where, "a shift amount outside 0..63 does not stop the program (amount may be %d..%d); emitted C: %s" % (lo, hi, show))
            return False
        try:
            t = f.ret
            iw, sg = 128, True
            if isinstance(t, tuple) and t[0] == 'e' and t[1] in ('zext', 'sext'):
                t, iw, sg = t[3], t[4], t[1] == 'sext'
            if (iw, sg) != (w, lt in SIGNED):
                m = Meaning(run.eng, f, leaves)
                lo, hi = m.ival(t, iw, sg)
                if iw < w or lo < T[0] or hi > T[1]:
                    raise ValueError("the result is not brought back to the type of the operand (%s)" % lt)
            got = bits(run, f, t, w, leaves, iw)
            if nm == 'shl':
                want = ('shl', ('low', hl, w), hr)
            elif nm == 'shr':
                want = ('shr', pleaf(hl).key(), hr)
            elif nm == 'not':
                want = ('xor',) + tuple(sorted((('low', hl, w), ('k', mask(-1, w))), key=repr))
            else:
                want = (nm,) + tuple(sorted((leafbits(hl, lt, w), leafbits(hr, rt, w)), key=repr))
            if got != want:
                raise ValueError("the result is %r instead of %r" % (got, want))
        except ValueError as ex:
            ck.fail(key, where, "%s; emitted C: %s" % (ex, show))
            return False
    if not nret:
        ck.fail(key, where, "no path yields a result; emitted C: %s" % show)
        return False
    return True
