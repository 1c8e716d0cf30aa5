"""Order reasoning over the branch decisions recorded on a path.

The exact outcome of a comparison depends only on which of <, =, > holds between its operands.  For each path of a
lowered template the recorded decisions (icmp facts) rule worlds out; every world left must see the right result."""
import itertools
from judge import Meaning, padd
from arith import pleaf, WIDTH, SIGNED, trange

HOLDS = {'==': ('=',), '!=': ('<', '>'), '<': ('<',), '>': ('>',), '<=': ('<', '='), '>=': ('>', '=')}


def facts(run, st, leaves):
    """decisions of the path as (poly a - b, kind, truth): kind 'lt' means a < b, 'eq' means a = b as integers"""
    out = []
    for key, truth in st.rel.items():
        p, a, b = key
        if isinstance(a, int) or isinstance(b, int):
            continue
        w = a[2] if a[0] in ('e', 's') else None
        if w is None:
            continue
        for s in ((True,) if p == 'slt' else (False,) if p == 'ult' else (True, False)):
            ma, mb = Meaning(run.eng, st, leaves).of(a, w, s), Meaning(run.eng, st, leaves).of(b, w, s)
            if ma is None or mb is None:
                continue
            out.append((padd(ma[0], mb[0], -1).key(), 'eq' if p == 'eq' else 'lt', truth))
    return out


def rng(st, h, w, signed):
    r = st.rng(('s', h, w), w)
    return (r[0], r[1]) if signed else (r[2], r[3])


def possible(run, st, leaves, pairs, fs=None):
    """all worlds (one relation per pair (x, y)) compatible with the path.  leaves: name -> (width, signed); y may be an int"""
    fs = facts(run, st, leaves) if fs is None else fs
    opts = []
    for x, y in pairs:
        rx = rng(st, x, *leaves[x])
        ry = (y, y) if isinstance(y, int) else rng(st, y, *leaves[y])
        ok = []
        if rx[0] < ry[1]:
            ok.append('<')
        if rx[0] <= ry[1] and ry[0] <= rx[1]:
            ok.append('=')
        if rx[1] > ry[0]:
            ok.append('>')
        if not isinstance(y, int):
            d = padd(pleaf(x), pleaf(y), -1).key()
            n = padd(pleaf(y), pleaf(x), -1).key()
            for k, kind, truth in fs:
                for kk, wl in ((d, '<'), (n, '>')):
                    if k == kk:
                        if kind == 'eq':
                            ok = [o for o in ok if (o == '=') == truth]
                        else:
                            ok = [o for o in ok if (o == wl) == truth]
        else:
            ne = st.rng(('s', x, leaves[x][0]), leaves[x][0])[4]
            if (y & ((1 << leaves[x][0]) - 1)) in ne and '=' in ok:
                ok.remove('=')
        opts.append(ok)
    return itertools.product(*opts)
