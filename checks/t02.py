"""T02 — constants, parameters passed by value, loop variables and everything that is part of them cannot be modified.

Whole programs are built as syntax trees and given to the checker's own entry point, interpreted over all its paths.  Each program names one place
(a variable, or a field, element or value of it at any depth) whose root is either mutable or not, and does one thing that would modify the place."""
import re

import effects
import irlib
import params
import prog
import stdlib
import vf
from absint import Budget
from irlib import AnalysisError

FIELDS = {'In': [('n', 'int'), ('s', 'string'), ('xs', '[int]'), ('m', 'map[string:int]'), ('q', '^In')],
          'Out': [('i', 'In'), ('ps', '[In]'), ('mi', 'map[string:In]'), ('aa', '[[int]]'), ('p', '^In'), ('pp', '[^In]'), ('am', '[map[string:int]]'),
                  ('ma', 'map[string:[int]]')]}
TYPES = ['int', 'string', 'In', '[int]', 'map[string:int]', 'Out', '^In', '[^In]', '[In]', '[[int]]', 'map[string:In]', 'map[string:[int]]',
         '[map[string:int]]']
ARG = {'int': 'set_n', 'string': 'set_s', 'In': 'set_i', '[int]': 'set_a', 'map[string:int]': 'set_m', 'Out': 'set_o'}
SHOW = {'f': '.%s', 'i': '[0]', 'k': '["k"]', '^': '^'}


def steps(t):
    """the ways from a place of type t to a part of it: (kind, argument, type of the part, passes a pointer)"""
    if t in FIELDS:
        return [('f', f, ft, False) for f, ft in FIELDS[t]]
    if t.startswith('map['):
        return [('k', None, t[:-1].split(':', 1)[1], False)]
    if t[0] == '[':
        return [('i', None, t[1:-1], False)]
    if t[0] == '^':
        return [('^', None, t[1:], True)] + [('f', f, ft, True) for f, ft in FIELDS[t[1:]]]
    return []


def paths(t, depth):
    out = [((), t, False)]
    cur = list(out)
    for _ in range(depth):
        nxt = []
        for p, u, hop in cur:
            for k, a, w, h in steps(u):
                # a pointer taken from an element is followed with ^ only
                if h and k == 'f' and p and p[-1][0] in 'ik':
                    continue
                nxt.append((p + ((k, a),), w, hop or h))
        out += nxt
        cur = nxt
    return out


def show(root, p):
    return root + ''.join(SHOW[k] % a if k == 'f' else SHOW[k] for k, a in p)


class W:
    """one program: function f modifies one place"""

    def __init__(self, P):
        self.P = P
        P.begin()
        P.givers = {}

    def place(self, p, root='x'):
        P = self.P
        e = P.lab(root)
        for k, a in p:
            e = P.mem(e, a) if k == 'f' else P.deref(e) if k == '^' else P.idx(e, P.int(0) if k == 'i' else P.text('k'))
        return e

    def world(self):
        P = self.P
        d = [P.imports('arrays', 'maps')]
        d.append(P.struct('In', FIELDS['In'], [P.func('touch', [('self', 'In', True)], [], P.block(P.assign(P.mem('self', 'n'), P.int(1))))]))
        d.append(P.struct('Out', FIELDS['Out']))
        for t, f in ARG.items():
            d.append(P.func(f, [('v', t, True), ('w', t)], [], P.block(P.assign('v', 'w'))))
        return d

    def run(self, decls):
        P = self.P
        d = self.world() + decls
        d.append(P.func('main', [], [], P.block()))
        fs = P.run(P.program(*d))
        return [sorted(set(P.errors(f))) for f in fs]


def change(w, op, p, t):
    """the statements of the program that modify the place x+p of type t; values come from parameters"""
    P = w.P
    e = w.place(p)
    if op == '=':
        return [P.assign(e, 'v')]
    if op in ('+=', '*='):
        return [P.assign(e, P.int(2), {'+=': 'TOK_PLUS_ASSIGN', '*=': 'TOK_ASTERISK_ASSIGN'}[op])]
    if op in ('++', '--'):
        return [P.exprs(P.postfix(e, {'++': 'TOK_INCREMENT', '--': 'TOK_DECREMENT'}[op]))]
    if op == '& parameter':
        return [P.exprs(P.call(ARG[t], e, 'v'))]
    if op == '& parameter of a method':
        return [P.exprs(P.call(P.mem('In', 'touch'), e))]
    if op == 'receiver':
        return [P.exprs(P.call(P.mem(e, 'touch')))]
    if op == '& parameter of a function variable':
        return [P.var('h', None, P.mk('NODE_FUNC_REF', func_ref__function=P.lab('set_n')), False), P.exprs(P.call('h', e, 'v'))]
    if op == '& parameter of a function parameter':
        w.more = [('g', 'func(&int,int)')]
        return [P.exprs(P.call('g', e, 'v'))]
    if op == 'addr':
        return [P.var('r', None, P.call('addr', e), True)]
    if op == 'ref':
        return [P.var('r', None, P.call('ref', e), True)]
    mod, f, rest, ret = op
    a = []
    for u in rest:
        a.append({'int': lambda: P.int(1), 'string': lambda: P.text('k')}[u]())
    c = P.call(P.mem(mod, f), e, *a)
    return [P.var('r', None, c, True) if ret else P.exprs(c)]


def ops_for(t, p, lib):
    out = ['=']
    if t == 'int':
        out += ['+=', '*=', '++', '--', '& parameter of a function variable', '& parameter of a function parameter']
    if t in ARG:
        out.append('& parameter')
    if t == 'In':
        out += ['& parameter of a method'] + (['receiver'] if not p else [])
    if t == '[int]':
        out += [x for x in lib if x[0] == 'arrays']
    if t == 'map[string:int]':
        out += [x for x in lib if x[0] == 'maps']
    if t[0] != '^':
        out += ['addr', 'ref']
    return out


def opname(op):
    return op if isinstance(op, str) else '%s.%s' % op[:2]


def program(P, root, mutable, p, t, rt, op):
    w = W(P)
    w.more = []
    body = change(w, op, p, t)
    prm = [('v', t)] + w.more
    if root == 'parameter':
        prm.append(('x', rt, mutable))
    elif root == 'const':
        prm.append(('src', rt))
        body = [P.var('x', rt, 'src', mutable)] + body
    elif root == 'const ref':
        prm.append(('src', rt, True))
        body = [P.var('x', None, P.call('ref', 'src'), mutable)] + body
    elif root == 'for_each':
        prm.append(('src', '[%s]' % rt, True))
        body = [P.for_each('x', 'src', P.block(*body))]
    elif root == 'map values':
        prm.append(('src', 'map[string:%s]' % rt, True))
        body = [P.for_each('x', 'src', P.block(*body), index='key')]
    elif root == 'for':
        body = [P.for_('x', P.int(0), P.int(3), P.block(*body))]
    elif root == 'for_each index':
        prm.append(('src', '[string]', True))
        body = [P.for_each('z', 'src', P.block(*body), index='x')]
    elif root == 'map keys':
        prm.append(('src', 'map[string:int]', True))
        body = [P.for_each('x', 'src', P.block(*body))]
    elif root == 'file constant':
        return w.run([P.var('x', rt, P.int(4) if rt == 'int' else P.text('s'), mutable), P.func('f', prm, [], P.block(*body))])
    return w.run([P.func('f', prm, [], P.block(*body))])


def library():
    """functions of the collections as documented, with the arguments that follow the collection"""
    fns, _ = stdlib.documented()
    out = []
    for f in fns:
        if f.mod in ('arrays', 'maps') and f.params and (f.params[0][1].startswith('[T]') or f.params[0][1].startswith('map[K:V]')):
            rest = []
            for n, t, m, d in f.params[1:]:
                t = {'T': 'int', 'K': 'string', 'V': 'int'}.get(t, t)
                rest.append(t)
            out.append((f, rest))
    return out


def plan(thorough):
    """(root, path, type, root type, operation)"""
    full = [(f.mod, f.name, tuple(r), f.rets not in ([], ['void'])) for f, r in library() if f.params[0][2]]
    brief = [x for x in full if x[1] in ('append', 'clear', 'remove_at', 'sort_asc')]
    out = []
    for rt in ('int', 'string', 'In', 'Out', '^In', '[int]', 'map[string:int]'):
        for p, t, hop in paths(rt, 3 if thorough else 2):
            for op in ops_for(t, p, full if thorough or len(p) < 2 else brief):
                out.append(('parameter', p, t, rt, op, hop))
        for root in ('const', 'const ref', 'for_each', 'map values'):
            if root == 'map values' and rt == 'Out' or root == 'const ref' and rt[0] == '^':
                continue
            for p, t, hop in paths(rt, 2 if thorough else 1):
                for op in ops_for(t, p, brief):
                    if root == 'const ref' and op in ('addr', 'ref') and not p:
                        continue                            # a reference to a reference
                    out.append((root, p, t, rt, op, hop))
    for root, rt in (('for', 'int'), ('for_each index', 'int'), ('map keys', 'string'), ('file constant', 'int'), ('file constant', 'string')):
        for op in ops_for(rt, (), []):
            out.append((root, (), rt, rt, op, False))
    return out


ALWAYS = ('for', 'for_each index', 'map keys', 'for_each', 'map values')        # never mutable


def check():
    import os
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    ck = vf.Check("T02", "every program that modifies a constant, a parameter passed by value, a loop variable, or a field, element or value that is part of one, in any of the ways the language has, is rejected on every path of the type checker; the same program with a mutable variable is accepted",
                  "The checker's entry point is interpreted over all its paths on the syntax tree of a whole program for each combination of root, access path, type and way of modifying it. Which library functions modify their argument is computed from the C implementation (stores through the parameter, transitively) and compared with the documentation.")
    jobs = plan(thorough)

    def share(sub, i, n):
        P = prog.Prog()
        for j in jobs[i::n]:
            one(sub, P, *j)
    ck.parallel(share)
    mutators(ck)
    ck.counts['ways of modifying'] = len({opname(j[4]) for j in jobs})
    for k, n in (('programs that must be rejected', 560), ('programs that must be accepted', 480), ('ways of modifying', 20), ('library functions that write through an argument', 12),
                 ('library functions that only read a collection', 40)):
        ck.floor(k, n)
    return ck


def one(ck, P, root, p, t, rt, op, hop):
    for mutable in (False, True):
        if mutable and root in ALWAYS and not hop:
            continue
        if root in ALWAYS and not mutable and hop:
            continue
        ok = mutable or hop
        if ok and elsewhere(op, p):
            continue
        what = "%s %s: %s of %s (%s)" % ('mutable' if mutable else 'immutable', root, opname(op), show('x', p), rt)
        try:
            errs = program(P, root, mutable, p, t, rt, op)
        except (AnalysisError, Budget) as ex:
            ck.fail(what, "type checker on the program that does %s on %s where x is the %s %s" % (opname(op), show('x', p), root, rt), "not decided: %s" % ex)
            continue
        ck.count('programs that must be accepted' if ok else 'programs that must be rejected')
        where = "type checker, program: x is %s %s of type %s; %s on %s" % ('a mutable' if mutable else 'an immutable', root, rt, opname(op), show('x', p))
        if ok:
            bad = [e for e in errs if e]
            ck.expect(not bad, what, where, "the program is rejected with %s" % ', '.join(bad[0]) if bad else '')
        else:
            bad = [e for e in errs if not e]
            ck.expect(not bad, what, where, "the program is accepted: it modifies what cannot be modified")


def elsewhere(op, p):
    """what the language rejects for another reason, whoever owns the place"""
    ks = [k for k, _ in p]
    if op in ('ref', 'addr') and 'k' in ks:
        return True                         # a value of a map has no address
    if isinstance(op, str) and op.startswith('&') and ks and ks[-1] == '^':
        return True                         # p^ is not among the places a & parameter takes
    return False


def mutators(ck):
    """documented with & exactly when the implementation writes through the parameter"""
    fns, _ = stdlib.documented()
    by = {}
    for f in fns:
        by.setdefault(f.mod, {})[f.name] = f
    files = ['stdlib/%s.c' % m for m in sorted(by) if irlib_has('stdlib/%s.c' % m)] + ['runtime/array.c', 'runtime/map.c']
    E = effects.Effects(files)
    for n in sorted(E.fn):
        m = re.match(r'gray_([a-z]+)_(\w+)$', n)
        if not m or m[1] not in by:
            continue
        cand = [x for x in by[m[1]] if m[2] == x or m[2].startswith(x + '_')]
        if not cand:
            continue
        f = by[m[1]][max(cand, key=len)]
        docs = [m2 for _, t, m2, _ in f.params if t[0] == '[' or t.startswith('map')]
        if not docs:
            continue
        ps = [(ty, i) for ty, i in params.params(E.fn[n].mod, E.fn[n]) if ty.replace('const ', '') in ('GrayArray*', 'GrayMap*')]
        wr = E.writes(n)
        for (ty, i), m2 in zip(ps, docs):
            ck.count('library functions that write through an argument' if i in wr else 'library functions that only read a collection')
            ck.expect(m2 or i not in wr, "%s modifies only what it may, argument %d" % (n, i), "%s, parameter %d" % (n, i),
                      "%s writes through the collection it is given, but %s is documented to leave it alone, so that constants are passed to it" % (n, f.full))


def irlib_has(f):
    import os
    return os.path.exists(os.path.join(irlib.REPO, 'grayc/src', f))
