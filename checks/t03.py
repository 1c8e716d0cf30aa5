"""T03 — a function that returns values returns them on every way through its body, and break and continue stand only in loops.

Whole programs are built as syntax trees, one per shape of a function body, and given to the checker's own entry point, interpreted over all its
paths.  Whether the end of the body can be reached is decided by a reference semantics of the statements."""
import os

import prog
import vf
from absint import Budget
from irlib import AnalysisError

LOOPS = ('for', 'for_each', 'as_long_as', 'loop')
LEAF = ('return', 'other', 'break', 'continue')


def ends(s):
    """how the statement can end"""
    if s in LEAF:
        return {s}
    k, bs = s
    if k == 'if':
        return run(bs[0]) | {'other'}
    if k in ('if/otherwise', 'when/default', 'if/or/otherwise'):
        return set().union(*map(run, bs))
    if k == 'when':
        return run(bs[0]) | {'other'}
    e = run(bs[0])
    out = e & {'return'}
    if k != 'loop' or 'break' in e:
        out.add('other')
    return out


def run(block):
    out = set()
    for s in block:
        e = ends(s)
        out |= e - {'other'}
        if 'other' not in e:
            return out
    return out | {'other'}


def leaves(block, k):
    """statements of a kind anywhere, except inside loops when they would belong to those"""
    for s in block:
        if s == k:
            return True
        if s not in LEAF and not (k != 'return' and s[0] in LOOPS) and any(leaves(b, k) for b in s[1]):
            return True
    return False


def dead(block):
    """something stands after a statement that does not end normally"""
    for i, s in enumerate(block):
        if i + 1 < len(block) and 'other' not in ends(s):
            return True
        if s not in LEAF and any(dead(b) for b in s[1]):
            return True
    return False


def endless(block):
    """a loop that is left by nothing"""
    return any(s not in LEAF and (s[0] == 'loop' and 'return' not in ends(s) or any(endless(b) for b in s[1])) for s in block)


def show(block):
    return ' '.join(s if s in LEAF else '%s{%s}' % (s[0], ' | '.join(show(b) for b in s[1])) for s in block)


def blocks(depth, loop):
    """bodies of a construct"""
    out = [('return',), ('other',)]
    if loop:
        out += [('break',), ('continue',)]
    if depth:
        for s in compound(depth - 1, loop):
            out += [(s,), (s, 'return')]
            if loop:
                out += [(s, 'continue'), (s, 'break')]
    return out


def compound(depth, loop):
    simple = blocks(0, loop)
    out = []
    for b in blocks(depth, loop):
        out += [('if', (b,)), ('when', (b,))]
        for c in simple if depth else simple:
            out += [('if/otherwise', (b, c)), ('when/default', (b, c))]
            if depth:
                out += [('if/otherwise', (c, b)), ('when/default', (c, b))]
        if not depth:
            out += [('if/or/otherwise', (b, ('return',), ('return',))), ('if/or/otherwise', (('return',), b, ('return',))), ('if/or/otherwise', (('return',), ('return',), b))]
    for b in blocks(depth, True):
        out += [(k, (b,)) for k in LOOPS]
    return out


def bodies(thorough):
    seen = set()
    for s in compound(1, False):
        for b in ((s,), (s, 'return'), ('other', s), (s, 'other')):
            if len(b) == 2 and not thorough and len(show((s,))) > 34:
                continue
            if b not in seen:
                seen.add(b)
                yield b
    for k in ('break', 'continue'):
        for b in ((k,), (('if', ((k,),)), 'return'), (('when/default', ((k,), ('return',))), 'return'), (('loop', ((('if', (('return',),)),),)), k)):
            yield b
    # after a loop, and in a condition after it, nothing belongs to the loop any more
    inner = blocks(0, True) + [(('if', ((x,),)), y) for x in LEAF for y in LEAF] + [(('if', (('return',),)), ('if', (('break',),)))]
    for k in LOOPS:
        for b in inner:
            for stray in ('break', 'continue'):
                yield ((k, (b,)), ('if', ((stray,),)), 'return')
                yield ('other', (k, (b,)), ('when/default', (('other',), (stray,))), 'return')
            yield ((k, (b,)), ('if', (('other',),)), 'return')


def build(P, block):
    return P.block(*[statement(P, s) for s in block])


def statement(P, s):
    if s == 'return':
        return P.ret(P.int(1))
    if s == 'other':
        return P.assign('x', P.int(2))
    if s == 'break':
        return P.brk()
    if s == 'continue':
        return P.cont()
    k, bs = s
    b = [build(P, x) for x in bs]
    if k == 'if':
        return P.if_('c', b[0])
    if k == 'if/otherwise':
        return P.if_('c', b[0], b[1])
    if k == 'if/or/otherwise':
        return P.if_('c', b[0], P.if_('d', b[1], b[2]))
    if k == 'when':
        return P.when('x', [([P.int(1)], b[0])])
    if k == 'when/default':
        return P.when('x', [([P.int(1)], b[0])], b[1])
    if k == 'for':
        return P.for_('i', P.int(0), P.int(3), b[0])
    if k == 'for_each':
        return P.for_each('e', 'xs', b[0])
    if k == 'as_long_as':
        return P.while_('c', b[0])
    return P.loop(b[0])


def check():
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    ck = vf.Check("T03", "a function with a result is rejected on every path of the type checker if the end of its body can be reached, or if break or continue stand outside a loop; it is accepted if every way through it returns",
                  "The checker's entry point is interpreted over all its paths on one program per shape of a function body (statements nested two deep); the shapes whose end can be reached are found with a reference semantics of the statements.")
    jobs = list(bodies(thorough))

    def share(sub, i, n):
        P = prog.Prog()
        for b in jobs[i::n]:
            one(sub, P, b)
    ck.parallel(share)
    for k, n in (('bodies that must be rejected', 400), ('bodies that must be accepted', 60)):
        ck.floor(k, n)
    return ck


def one(ck, P, b):
    stray = [k for k in ('break', 'continue') if leaves(b, k)]
    falls = 'other' in run(b)
    if not stray and not falls and (endless(b) or not leaves(b, 'return') or dead(b) or any(s not in LEAF for s in b[:-1])):
        return                                      # an endless loop, or dead code: not judged
    what = "body %s" % show(b)
    where = "type checker, function with a result whose body is: %s" % show(b)
    try:
        P.begin()
        P.givers = {}
        errs = []
        d = [P.func('f', [('x', 'int', True), ('c', 'bool'), ('d', 'bool'), ('xs', '[int]')], ['int'], build(P, b)), P.func('main', [], [], P.block())]
        errs = [sorted(set(P.errors(f))) for f in P.run(P.program(*d))]
    except (AnalysisError, Budget) as ex:
        ck.fail(what, where, "not decided: %s" % ex)
        return
    if stray or falls:
        ck.count('bodies that must be rejected')
        ck.expect(all(errs), what, where, "the program is accepted: %s" % ("%s outside a loop" % stray[0] if stray else "the end of the body can be reached without a return"))
    else:
        ck.count('bodies that must be accepted')
        bad = [e for e in errs if e]
        ck.expect(not bad, what, where, "the program is rejected with %s" % ', '.join(bad[0]) if bad else '')
