"""Arithmetic rules over emitted templates: building constructs, judging the C they become."""
import irlib
import absint
import cg
from absint import mask, sgn
from judge import CTYPE, WIDTH, SIGNED, trange, render, Harness, Runner, Meaning, Poly, pleaf, padd, pmul, pconst
from irlib import AnalysisError

INTS = ['int', 'i64', 'i32', 'i16', 'i8', 'uint', 'u64', 'u32', 'u16', 'u8', 'byte', 'char']
OPN = {'TOK_PLUS': 'add', 'TOK_MINUS': 'sub', 'TOK_ASTERISK': 'mul'}
SYM = {'TOK_PLUS': '+', 'TOK_MINUS': '-', 'TOK_ASTERISK': '*', 'TOK_SLASH': '/', 'TOK_PERCENT': '%'}


def expected(op, x, y):
    a, b = pleaf(x), pleaf(y)
    return {'add': lambda: padd(a, b), 'sub': lambda: padd(a, b, -1), 'mul': lambda: pmul(a, b)}[op]()


def same(p, q):
    return p.key() == q.key()


def leaf_of(t):
    """the leaf symbol under extensions/truncations, or None"""
    while isinstance(t, tuple) and t[0] == 'e' and t[1] in ('sext', 'zext', 'trunc'):
        t = t[3]
    return t[1] if isinstance(t, tuple) and t[0] == 's' else None


def subterms(t, seen):
    if isinstance(t, tuple) and t and t[0] in ('e', 's') and t not in seen:
        seen.add(t)
        if t[0] == 'e':
            for x in t[3:]:
                subterms(x, seen)


def out_of_range(run, st, leaves, want, T):
    """is it proved that on this path the exact result `want` lies outside T?"""
    e = run.eng
    terms = set()
    for k in list(st.cons) + [x for r in st.rel for x in (r if isinstance(r, tuple) else ())]:
        subterms(k, terms)
    for t in terms:
        if t[0] != 'e':
            continue
        if t[1] == 'ovf':
            r = st.cons.get(t)
            if r is None or r[2] != 1:
                continue
            kind, x, y, w = t[3], t[4], t[5], t[6]
            s = kind[0] == 's'
            m = Meaning(e, st, leaves)
            a, b = m.of(x, w, s), m.of(y, w, s)
            if a is None or b is None:
                continue
            p = m.combine(kind[1:], a, b)[0]
            R = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            if same(p, want) and R[0] <= T[0] and R[1] >= T[1]:
                return True
        elif t[1] in ('add', 'sub', 'mul'):
            w = t[2]
            for s in (True, False):
                m = Meaning(e, st, leaves)
                x = m.of(t, w, s)
                if x is not None and same(x[0], want) and (x[1][0] > T[1] or x[1][1] < T[0]):
                    return True
    # an unsigned subtraction that would be negative
    ks = sorted(want.items(), key=repr)
    if len(ks) == 2 and sorted(c for _, c in ks) == [-1, 1] and T[0] == 0:
        x = [m for m, c in ks if c == 1][0]
        y = [m for m, c in ks if c == -1][0]
        for t in terms:
            for u in terms:
                if len(x) == 1 and len(y) == 1 and leaf_of(t) == x[0] and leaf_of(u) == y[0]:
                    wt = t[2]
                    if wt == u[2]:
                        mt, mu = Meaning(e, st, leaves), Meaning(e, st, leaves)
                        a, b = mt.of(t, wt, False), mu.of(u, wt, False)
                        if a and b and e.decide_icmp(st, 'ult', t, u, wt) is True:
                            return True
    # x - k with x known to be below k
    if T[0] == 0 and len(ks) == 2 and want.get((), 0) < 0:
        x = [m for m, c in ks if c == 1 and m]
        if x and len(x[0]) == 1:
            for t in terms:
                if leaf_of(t) == x[0][0]:
                    a = Meaning(e, st, leaves).of(t, t[2], False)
                    if a and a[1][1] < -want[()]:
                        return True
    return False


def panic_code(st):
    ps = [x for x in st.ev if x[0] == 'panic']
    return ps[-1][2] if ps else None


def evals(st):
    d = {}
    for x in st.ev:
        if x[0] == 'eval':
            d[x[2]] = d.get(x[2], 0) + 1
    return d


def judge_value(ck, run, key, where, results, leaves, want, T, precise, show, retread=(128, True), holes=()):
    """every returning path yields exactly `want` (inside T when given); panic paths are justified"""
    nret = 0
    for kind, f in results:
        if kind == 'ret':
            nret += 1
            m = Meaning(run.eng, f, leaves)
            x = m.of(f.ret, *retread)
            if x is None:
                ck.fail(key, where, "on a path that does not stop, the result may differ from the exact value: %s; emitted C: %s" % (m.why, show))
                return False
            if not same(x[0], want):
                ck.fail(key, where, "on a path that does not stop, the result is %s instead of %s; emitted C: %s" % (pshow(x[0]), pshow(want), show))
                return False
            if T is not None and not (x[1][0] >= T[0] and x[1][1] <= T[1]):
                ck.fail(key, where, "the result may leave the range of the type (%d..%d) without a panic; emitted C: %s" % (x[1][0], x[1][1], show))
                return False
        elif precise:
            if not out_of_range(run, f, leaves, want, T):
                ck.fail(key, where, "the program stops (%s) although the exact result may be representable; emitted C: %s" % (panic_code(f), show))
                return False
    if nret == 0:
        ck.fail(key, where, "no path yields a result; emitted C: %s" % show)
        return False
    return True


def pshow(p):
    return " + ".join("%s%s" % ("" if c == 1 else "%d*" % c, "*".join(map(str, m)) or "1") for m, c in sorted(p.items(), key=repr)) or "0"


def lname(t, side):
    return "%s_%s" % (side, t)


def leaf(t):
    return (WIDTH[t], t in SIGNED)


def is_literal(c, tpl, obj):
    """does this template arise for integer literals only at the given node?"""
    k = ('s', obj + ".kind", 32)
    lit = c.E['NODE_INT_VALUE']
    for f in c.alts[repr(tpl)]:
        r = f.cons.get(k)
        if r is None or not (r[0] == r[1] == lit):
            return False
    return True


def literal_hole(c, tpl, obj, t, side):
    """hole name for an operand of type t; literals are known to be non-negative"""
    return ("lit_" if is_literal(c, tpl, obj) else "") + lname(t, side)


def constrain(st, holes):
    """assumptions on leaves: literals are never negative (the parser reads a sign as a prefix operator)"""
    for h, t in holes:
        if h.startswith("lit_"):
            w = WIDTH[t]
            m = (1 << (w - 1)) - 1 if t in SIGNED else (1 << w) - 1
            st.cons[('s', h, w)] = (0, min(m, (1 << (w - 1)) - 1), 0, m, frozenset())
    return st


def out_value(run, st, w=128):
    """value stored through the result pointer"""
    return run.eng.load_obj(st, run.mod, 'OUT', 0, ('i', w), w)


def run_out(run, fn, holes=(), w=128):
    from absint import State
    st = State()
    constrain(st, holes)
    run.eng.obj_kind['OUT'] = ('alloca',)
    st.mem['OUT'] = {}
    st.own.add('OUT')
    res = run.run(fn, [('p', 'OUT', 0)], st)
    for k, f in res:
        if k == 'ret':
            f.ret = out_value(run, f, w)
    return res
