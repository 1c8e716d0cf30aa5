"""T01 — a value is stored only where its type fits.

Whole programs are built as syntax trees and given to the checker's own entry point, interpreted over all its paths.  Each program stores a value of
one type in a place of one type, in one of the ways the language has; the verdict is compared with the type rules of the language."""
import os

import prog
import vf
from absint import Budget
from irlib import AnalysisError

INT = ['int', 'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'uint', 'i128', 'u128', 'i256', 'u256', 'byte']
FLOAT = ['float', 'f32', 'f64']
ENUM = ['E1', 'E2']
TYPES = ['int', 'i8', 'u64', 'i128', 'byte', 'float', 'bool', 'char', 'string', 'S', 'S2', 'E1', 'E2', '^S', '^S2', '^int', '[int]', '[string]', '[S]', '[S2]', '[float]',
         '[[int]]', 'map[string:int]', 'map[int:int]', 'map[string:string]', 'Error', 'nil']
MORE = ['i16', 'i32', 'u8', 'u16', 'u32', 'uint', 'u128', 'i256', 'f32', '^string', '[bool]', '[[string]]', '[^S]', '[map[string:int]]', 'map[string:S]', 'map[string:[int]]', 'map[int:string]']
CONTEXT = {'declaration': 'the declared variable', 'assignment': 'the variable', 'argument': 'the parameter', 'argument of a type function': 'the parameter',
           'argument of an instance function': 'the parameter', 'argument of a function reference': 'the parameter', 'argument of a function parameter': 'the parameter', 'second argument': 'the parameter', 'return': 'the return type', 'second return': 'the second return type',
           'struct literal': 'the field', 'field assignment': 'the field', 'nested field assignment': 'the field', 'array literal': 'the element', 'element assignment': 'the element',
           'map assignment': 'the value', 'pointer assignment': 'what the pointer points to', 'element field assignment': 'the field'}
BRIEF = ['second argument', 'second return', 'nested field assignment', 'element field assignment']


def parts(t):
    """the types a collection is made of"""
    if t[0] == '[':
        return [t[1:-1]]
    if t[:4] == 'map[':
        d = 0
        for i, c in enumerate(t[4:-1], 4):
            d += (c == '[') - (c == ']')
            if c == ':' and d == 0:
                return [t[4:i], t[i + 1:-1]]
    return None


def fits(to, frm, ctx):
    """True, False, or None where the language leaves it open (implicit conversions between the kinds of integer and between integers and enums)"""
    if to == frm:
        return True
    if to in INT + ENUM + ['bool'] and frm in INT + ENUM + ['bool'] and (to in INT or frm in INT):
        if to == 'bool' or frm == 'bool':
            return False if to == 'bool' or to in ENUM or ctx not in OPEN else None
        return None
    if to in FLOAT and frm in FLOAT:
        return None
    if to in FLOAT and frm in INT:
        return True
    if frm == 'nil':
        if to[0] == '^' or to == 'Error':
            return True if ctx in NILS else None
        return False
    a, b = parts(to), parts(frm)
    if a and b and len(a) == len(b):
        v = [fits(x, y, 'part') for x, y in zip(a, b)]
        if False in v:
            return False
        return None                                     # the kinds of integer, again
    return False


NILS = ('declaration', 'assignment', 'return', 'second return', 'struct literal', 'field assignment', 'nested field assignment', 'map assignment', 'pointer assignment', 'element field assignment')
OPEN = ('argument', 'second argument', 'argument of a type function', 'argument of an instance function', 'argument of a function reference', 'argument of a function parameter', 'map assignment', 'pointer assignment', 'nested field assignment',
        'element field assignment', 'part')


def program(P, ctx, t, u):
    P.begin()
    P.givers = {}
    d = [P.struct('S', [('n', 'int')]), P.struct('S2', [('n', 'int')]), P.enum('E1', ['A', 'B']), P.enum('E2', ['A', 'C'])]
    prm = [] if u == 'nil' else [('v', u)]
    v = P.nil() if u == 'nil' else P.lab('v')
    rets = []
    lit = lambda s, **f: P.mk('NODE_STRUCT_VALUE', struct_value__name=s, struct_value__field_names=P.strs(list(f)), struct_value__field_values=P.list(list(f.values())), struct_value__count=len(f))
    holder = lambda *fns: d.append(P.struct('H', [('n', t)], fns) if fns else P.struct('H', [('n', t)]))
    if ctx == 'declaration':
        b = [P.var('x', t, v)]
    elif ctx == 'assignment':
        prm.append(('x', t, True))
        b = [P.assign('x', v)]
    elif ctx == 'argument':
        d.append(P.func('g', [('a', t)], [], P.block()))
        b = [P.exprs(P.call('g', v))]
    elif ctx == 'argument of a function reference':
        d.append(P.func('g', [('a', t)], [], P.block()))
        b = [P.var('h', None, P.mk('NODE_FUNC_REF', func_ref__function=P.lab('g')), False), P.exprs(P.call('h', v))]
    elif ctx == 'argument of a function parameter':
        prm.append(('g', 'func(%s)' % t))
        b = [P.exprs(P.call('g', v))]
    elif ctx == 'second argument':
        d.append(P.func('g', [('z', 'int'), ('a', t)], [], P.block()))
        b = [P.exprs(P.call('g', P.int(1), v))]
    elif ctx == 'argument of a type function':
        d.append(P.struct('H', [('n', 'int')], [P.func('g', [('a', t)], [], P.block())]))
        b = [P.exprs(P.call(P.mem('H', 'g'), v))]
    elif ctx == 'argument of an instance function':
        d.append(P.struct('H', [('n', 'int')], [P.func('g', [('self', 'H'), ('a', t)], [], P.block())]))
        prm.append(('h', 'H'))
        b = [P.exprs(P.call(P.mem('h', 'g'), v))]
    elif ctx == 'return':
        rets = [t]
        b = [P.ret(v)]
    elif ctx == 'second return':
        rets = ['int', t]
        b = [P.ret(P.int(1), v)]
    elif ctx == 'struct literal':
        holder()
        b = [P.var('x', 'H', lit('H', n=v))]
    elif ctx == 'field assignment':
        holder()
        prm.append(('x', 'H', True))
        b = [P.assign(P.mem('x', 'n'), v)]
    elif ctx == 'nested field assignment':
        holder()
        d.append(P.struct('G', [('h', 'H')]))
        prm.append(('x', 'G', True))
        b = [P.assign(P.mem(P.mem('x', 'h'), 'n'), v)]
    elif ctx == 'element field assignment':
        holder()
        prm.append(('x', '[H]', True))
        b = [P.assign(P.mem(P.idx('x', P.int(0)), 'n'), v)]
    elif ctx == 'array literal':
        b = [P.var('x', '[%s]' % t, P.mk('NODE_ARRAY_VALUE', array_value__elements=P.list([v]), array_value__count=1))]
    elif ctx == 'element assignment':
        prm.append(('x', '[%s]' % t, True))
        b = [P.assign(P.idx('x', P.int(0)), v)]
    elif ctx == 'map assignment':
        prm.append(('x', 'map[string:%s]' % t, True))
        b = [P.assign(P.idx('x', P.text('k')), v)]
    elif ctx == 'pointer assignment':
        prm.append(('x', '^' + t, True))
        b = [P.assign(P.deref('x'), v)]
    d += [P.func('f', prm, rets, P.block(*b)), P.func('main', [], [], P.block())]
    return [sorted(set(P.errors(f))) for f in P.run(P.program(*d))]


def use(P, ctx, u):
    """a value of type u used where the language asks for one kind of type"""
    P.begin()
    P.givers = {}
    d = [P.struct('S', [('n', 'int')]), P.struct('S2', [('n', 'int')]), P.enum('E1', ['A', 'B']), P.enum('E2', ['A', 'C'])]
    prm = [('v', u)]
    v = P.lab('v')
    if ctx == 'condition of if':
        b = [P.if_(v, P.block())]
    elif ctx == 'condition of a loop':
        b = [P.while_(v, P.block(P.brk()))]
    elif ctx == 'operand of !':
        b = [P.var('x', 'bool', P.prefix('TOK_BANG', v))]
    elif ctx == 'operand of &&':
        b = [P.var('x', 'bool', P.infix(P.bool(True), 'TOK_AND', v))]
    elif ctx == 'operand of ||':
        b = [P.var('x', 'bool', P.infix(v, 'TOK_OR', P.bool(True)))]
    elif ctx == 'index of an array':
        prm.append(('a', '[int]'))
        b = [P.var('x', 'int', P.idx('a', v))]
    elif ctx == 'index of an assigned element':
        prm.append(('a', '[int]', True))
        b = [P.assign(P.idx('a', v), P.int(1))]
    elif ctx == 'string key of a map':
        prm.append(('m', 'map[string:int]'))
        b = [P.var('x', 'int', P.idx('m', v))]
    elif ctx == 'string key of an assigned map':
        prm.append(('m', 'map[string:int]', True))
        b = [P.assign(P.idx('m', v), P.int(1))]
    elif ctx == 'integer key of a map':
        prm.append(('m', 'map[int:int]'))
        b = [P.var('x', 'int', P.idx('m', v))]
    elif ctx == 'integer key of an assigned map':
        prm.append(('m', 'map[int:int]', True))
        b = [P.assign(P.idx('m', v), P.int(1))]
    elif ctx == 'start of a range':
        b = [P.for_('i', v, P.int(3), P.block())]
    elif ctx == 'end of a range':
        b = [P.for_('i', P.int(0), v, P.block())]
    elif ctx == 'collection of for_each':
        b = [P.for_each('i', v, P.block())]
    elif ctx == 'operand of ^':
        b = [P.exprs(P.call('print', P.deref(v)))]
    elif ctx in ('operand of - (unary)',):
        b = [P.exprs(P.call('print', P.prefix('TOK_MINUS', v)))]
    elif ctx[:11] == 'operand of ':
        op, w = {'-': ('TOK_MINUS', P.int(1)), '*': ('TOK_ASTERISK', P.int(2)), '/': ('TOK_SLASH', P.int(2)), '%': ('TOK_PERCENT', P.int(2)), '<': ('TOK_LT', P.int(2))}[ctx[11:]]
        b = [P.exprs(P.call('print', P.infix(v, op, w)))]
    elif ctx == 'increment':
        prm = [('v', u, True)]
        b = [P.exprs(P.postfix(P.lab('v'), 'TOK_INCREMENT'))]
    d += [P.func('f', prm, [], P.block(*b)), P.func('main', [], [], P.block())]
    return [sorted(set(P.errors(f))) for f in P.run(P.program(*d))]


BOOL, NUM = ['bool'], INT + FLOAT
ORD = NUM + ENUM + ['char', 'bool']
TRUTH = lambda t: t in NUM + ENUM + ['char', 'Error'] or t[0] == '^'                # tested against zero or nil
USES = {'condition of if': (BOOL, TRUTH), 'condition of a loop': (BOOL, TRUTH), 'operand of !': (BOOL, []), 'operand of &&': (BOOL, TRUTH), 'operand of ||': (BOOL, TRUTH),
        'index of an array': (['int'], INT + ENUM), 'index of an assigned element': (['int'], INT + ENUM),
        'string key of a map': (['string'], []), 'string key of an assigned map': (['string'], []),
        'integer key of a map': (['int'], INT + ENUM), 'integer key of an assigned map': (['int'], INT + ENUM),
        'start of a range': (['int'], INT), 'end of a range': (['int'], INT),
        'operand of ^': (lambda t: t[0] == '^', []),
        'operand of - (unary)': (['int', 'float'], ORD), 'operand of -': (['int', 'float'], ORD), 'operand of *': (['int', 'float'], ORD),
        'operand of /': (['int', 'float'], ORD), 'operand of %': (['int'], ORD), 'operand of <': (['int', 'float'], ORD),
        'increment': (['int'], NUM + ['char']), 'collection of for_each': (lambda t: t[0] == '[' or t == 'string', lambda t: t[:3] == 'map')}


def member(x, t):
    return x(t) if callable(x) else t in x


def check():
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    ck = vf.Check("T01", "a program that stores a value where its type does not fit is rejected on every path of the type checker; the same program with a value that fits is accepted",
                  "The checker's entry point is interpreted over all its paths on the syntax tree of a whole program for each way of storing a value and each pair of types, and on the programs that use a value of each type where one kind of type is required.")
    ty = TYPES + (MORE if thorough else [])
    short = ty if thorough else ['int', 'string', 'S', 'E1', '^S', '[int]', '[string]', 'map[string:int]', 'Error']
    to = ty if thorough else [t for t in ty if t not in ('i8', 'u64', 'S2', 'E2', '^S2', '[S2]')]          # the same as places
    jobs = [(c, t, u) for c in CONTEXT for t in (short if c in BRIEF else to) if t != 'nil' for u in (short if c in BRIEF else ty)]
    jobs = [(c, t, u, f) for c, t, u in jobs for f in (fits(t, u, c),) if f is not None]
    for c, (yes, opn) in USES.items():
        for t in ty:
            if t == 'nil' or not member(yes, t) and member(opn, t):
                continue
            jobs.append((c, None, t, member(yes, t)))

    def share(sub, i, n):
        P = prog.Prog()
        for j in jobs[i::n]:
            one(sub, P, *j)
    ck.parallel(share)
    for k, n in (('programs that must be rejected', 3000), ('programs that must be accepted', 300)):
        ck.floor(k, n)
    return ck


def one(ck, P, ctx, t, u, ok):
    if t is None:
        what = "%s as %s" % (u, ctx)
        where = "type checker, program: a value of type %s is used as %s" % (u, ctx)
    else:
        what = "%s: %s gets %s" % (ctx, t, u)
        where = "type checker, program: %s of type %s gets a value of type %s" % (CONTEXT[ctx], t, u)
    try:
        errs = program(P, ctx, t, u) if t is not None else use(P, ctx, u)
    except (AnalysisError, Budget) as ex:
        ck.fail(what, where, "not decided: %s" % ex)
        return
    ck.count('programs that must be accepted' if ok else 'programs that must be rejected')
    if ok:
        bad = [e for e in errs if e]
        ck.expect(not bad, what, where, "the program is rejected with %s" % ', '.join(bad[0]) if bad else '')
    else:
        bad = [e for e in errs if not e]
        ck.expect(not bad, what, where, "the program is accepted: the type does not fit")
