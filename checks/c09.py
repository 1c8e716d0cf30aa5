"""C09 a collection cannot be changed while for_each runs over it, and can be changed again afterwards"""
import absint
import irlib
import vf
from absint import Engine, State, V, PathEnd, Budget, is_ptr
from irlib import AnalysisError
from judge import PANICS
from params import params
import cg
from judge import Harness, Meaning, pleaf, padd, render
from loops import Loop, Template, Tracer
from access import CT
from m01 import World, EXTRA

KINDS = {'GrayArray*': ('GrayArray', 'P0034'), 'GrayMap*': ('GrayMap', 'P0035')}
KINDS1 = ('GrayArray', 'GrayMap')
WRITERS = ('memcpy', 'memmove', 'memset', 'qsort', 'llvm.memcpy', 'llvm.memmove', 'llvm.memset')


def check():
    ck = vf.Check("C09", "every operation that changes a collection first establishes that no loop runs over it; a loop marks its collection while its body runs and puts the mark back on every way out",
                  "Every function of the runtime and the array and map modules that takes a collection by address is interpreted over all its paths on a symbolic collection; for_each and the operations on collections are derived as C templates from the code generator and lowered to LLVM IR.")
    changers = runtime(ck)
    c = cg.CG()
    for x in ("stdlib/builtins.c", "stdlib/strings.c"):
        irlib.load(x)
    js = list(programs())
    ck.parallel(lambda sub, i, n: part(sub, c, js[i::n], 'c09_%d' % i))
    operations(ck, c, changers)
    for k, n in (('functions taking a collection', 70), ('functions making a collection', 17), ('functions that change a collection', 25), ('templates', 88), ('paths', 2500),
                 ('body executions with a marked collection', 6000), ('collections with the mark put back', 2000), ('operations that reach the check', 52)):
        ck.floor(k, n)
    return ck


def programs():
    for k in ('each', 'map'):
        yield Loop(k, 'ev')
        for x in ('break', 'continue', 'return'):
            yield Loop(k, 'ev', x, 'ev')
        for o in ('range', 'while', 'loop', 'chars'):
            for x in ('continue', 'break', 'return'):
                yield Loop(o, Loop(k, x, 'ev'), *(('break',) if o == 'loop' else ()))
                yield Loop(k, Loop(o, 'ev', x, *(('break',) if o == 'loop' and x == 'continue' else ())), 'ev')
        for i in ('each', 'map'):
            for x in ('continue', 'break', 'return'):
                yield Loop(k, 'ev', Loop(i, 'ev', x, 'ev'), 'ev')
                if i == k:
                    yield Loop(k, 'ev', Loop(i, 'ev', x, same=0), 'ev')
            yield Loop(k, Loop(i, Loop('each', 'return'), 'ev'))
            yield Loop(k, Loop('while', 'ev', Loop(i, 'ev', 'return')))
    for et in ('string', 'S', '[int]', 'map[string:int]'):
        yield Loop('each', 'ev', 'return', of=et, names='two')
    for kt in ('int', 'string'):
        yield Loop('map', 'ev', 'return', key=kt, names='two')


def has_return(p):
    return any(b == 'return' or isinstance(b, Loop) and has_return(b) for b in p.body)


def part(ck, c, js, tag):
    H = Harness(tag)
    H.extra = EXTRA
    work = []
    for p in js:
        w = World(c, 'local', 'string')
        st = w.st
        u = '%s_%d' % (tag, len(work))
        t = Template(c, w, H, p, u)
        top, key = t.top, p.show()
        f = 'f' + u
        if has_return(p):
            top = c.node(st, 'fn', 'NODE_FUNC_DECL', None, func_decl__name=f, func_decl__original_name=f, func_decl__params=('p', 'PRM', 0), func_decl__param_count=0,
                         func_decl__return_type_count=0, func_decl__return_types=None, func_decl__return_names=None, func_decl__body=w.block([t.top]),
                         func_decl__is_private=0, func_decl__instantiations=None, func_decl__instantiation_count=0)
            c.setcg(st, 'current_func', 8, 0)
        n = 0
        for tpl, fin in c.run(st, top, stmt=True):
            try:
                code = t.render(tpl).strip()
            except AnalysisError:
                ck.count('templates for another program shape')
                continue
            n += 1
            ck.count('templates')
            work.append((key, H.add(("%s void @FN@(void){ gray_fn_%s(); }" % (code, f)) if has_return(p) else "void @FN@(void){ %s }" % code), code, t))
        if not n:
            ck.fail(key, c.stmt_fn, "no template is emitted")
    T = Tracer(H, irlib.DI(irlib.load('stdlib/maps.c')))
    for key, fn, code, t in work:
        balance(ck, T, c, key, fn, code, t)


def balance(ck, T, c, key, fn, code, t):
    w = "code generator, statement dispatcher %s" % c.stmt_fn
    if fn in T.bad:
        return ck.fail(key, w, "the emitted C does not compile: %s; emitted C: %s" % (T.bad[fn], code[:600]))
    T.job = t
    st = State()
    lv, marks = {}, {}
    for lp in t.loops:
        if lp['kind'] in ('each', 'map'):
            o = 'OBJ:' + lp['coll']
            k = 'GrayArray' if lp['kind'] == 'each' else 'GrayMap'
            s = '%s.%d' % (o, T.off[(k, 'iterating')])
            st.cons[('s', s, 32)] = (0, 1000, 0, 1000, frozenset())      # how many loops already run over it
            lv[s] = (32, True)
            marks[lp['i']] = (o, T.off[(k, 'iterating')], s)
    bodies = rets = 0
    for kind, f in T.run.run(fn, [], T.begin(st)):
        ck.count('paths')
        for x in f.ev:
            if x[0] != 'body':
                continue
            bodies += 1
            around = t.around[x[1]]
            for i in around:
                d = delta(T, f, lv, x[3][i], marks[i][2])
                if d is None or d < 1:
                    return ck.fail(key, w, "the body of a for_each runs while its collection is not marked as being iterated; emitted C: %s" % code[:600])
                ck.count('body executions with a marked collection')
            for i in x[3]:
                if marks[i][2] not in [marks[j][2] for j in around]:
                    if delta(T, f, lv, x[3][i], marks[i][2]) != 0:
                        return ck.fail(key, w, "a collection is marked as being iterated outside of the loop over it; emitted C: %s" % code[:600])
        if kind == 'ret':
            rets += 1
            for i, (o, off, s) in marks.items():
                v = T.run.eng.load_obj(f, T.m, o, off, ('i', 32), 32)
                if delta(T, f, lv, v, s) != 0:
                    return ck.fail(key, w, "a path leaves the loop with its collection still marked (or marked less than before); emitted C: %s" % code[:600])
                ck.count('collections with the mark put back')
    if not bodies or not rets:
        return ck.fail(key, w, "no path runs the body and returns")
    ck.ok(key, code[:300])


def delta(T, f, lv, v, s):
    m = Meaning(T.run.eng, f, lv).of(v, 32, True)
    if m is None:
        return None
    d = padd(m[0], pleaf(s), -1)
    return d.get((), 0) if set(d) <= {()} else None


ARR = {'append': 'v', 'prepend': 'v', 'insert_at': 'iv', 'remove': 'v', 'remove_at': 'i', 'remove_first': '', 'remove_last': '', 'clear': '', 'fill': 'vi',
       'sort_asc': '', 'sort_desc': ''}
FIELDS = {'GrayArray': [('GrayArray', 'data', True), ('GrayArray', 'len', False), ('GrayArray', 'iterating', False)],
          'GrayMap': [('GrayMap', x, True) for x in ('keys', 'values', 'order')] + [('GrayMap', x, False) for x in ('order_len', 'iterating')]}
MAP = {'remove_key': 'k', 'clear': '', '[]=': 'kv', '[]+=': 'kv'}


def operations(ck, c, changers):
    H = Harness('c09_ops')
    H.extra = EXTRA
    work = []

    def emit(mod, f, shape, ty, key):
        w = World(c, 'local', 'string')
        st, u = w.st, 'o%d' % len(work)
        kt, vt = ty[4:-1].split(':') if mod == 'maps' else (None, ty[1:-1])
        hdr = 'GrayMap' if mod == 'maps' else 'GrayArray'
        holes = {}

        def hole(name, t, label=False):
            h = '%s_%s' % (name, u)
            H.declare(h, hdr if label else CT[t], label)
            holes['N:' + name] = "(*H_%s())" % h if label else "H_%s()" % h
            return c.opaque(st, name, w.ty(t), kinds='NODE_LABEL' if label else None)
        D = hole('D', ty, True)
        args = [hole('A%d' % i, {'v': vt, 'k': kt, 'i': 'int'}[x]) for i, x in enumerate(shape)]
        if f in ('[]=', '[]+='):
            x = c.node(st, 'ix', 'NODE_INDEX_EXPR', w.ty(vt), index_expr__left=D, index_expr__index=args[0])
            s = c.node(st, 'as', 'NODE_ASSIGN_STMT', None, assign__target=x, assign__op='TOK_ASSIGN' if f == '[]=' else 'TOK_PLUS_ASSIGN', assign__value=args[1])
        else:
            lab = c.node(st, 'mod', 'NODE_LABEL', 'NOTYPE', label__value=mod)
            fn = c.node(st, 'callee', 'NODE_MEMBER_EXPR', 'NOTYPE', member__object=lab, member__member=f)
            rt = w.ty(vt) if f in ('remove_first', 'remove_last') else 'bool' if f == 'remove_key' else 'void'
            call = c.node(st, 'call', 'NODE_CALL_EXPR', rt, call__function=fn, call__args=c.ptr_array(st, 'args', [D] + args), call__arg_count=1 + len(args))
            s = c.node(st, 'callst', 'NODE_EXPR_STMT', None, expr_stmt__expr=call)
        n = 0
        for tpl, fin in c.run(st, s, stmt=True):
            parts = [holes.get(p[1]) if not isinstance(p, str) and p[0] == 'E' else p for p in tpl]
            if None in parts:
                ck.count('templates for another program shape')
                continue
            code = render(parts, {}).strip()
            n += 1
            work.append((key, H.add("void @FN@(void){ %s }" % code), code, 'D_' + u, hdr))
        if not n:
            ck.fail(key, c.stmt_fn, "no template is emitted")
    for f, shape in ARR.items():
        for et in ('int', 'string', 'float', 'S'):
            if et == 'S' and f in ('sort_asc', 'sort_desc', 'remove', 'fill'):
                continue
            emit('arrays', f, shape, '[%s]' % et, "arrays.%s on an array of %s" % (f, et))
    for f, shape in MAP.items():
        for kt, vt in (('string', 'int'), ('int', 'string'), ('string', 'S'), ('int', 'int')):
            if f == '[]+=' and vt != 'int':
                continue
            emit('maps', f, shape, 'map[%s:%s]' % (kt, vt), "%s on a map of %s to %s" % ('m[k] = v' if f == '[]=' else 'm[k] += v' if f == '[]+=' else 'maps.' + f, kt, vt))
    T = Tracer(H, irlib.DI(irlib.load('stdlib/maps.c')))
    base = T.hook

    def hook(e, st, fr, ins, name, a):
        if name in changers:
            st.emit_ev('change', name, tuple(a))
            t = fr.fn.mod.resolve(ins.ty)
            k = st.x.get(('n', name), 0) + 1
            st.x[('n', name)] = k
            return V() if t[0] == 'void' else V(('s', 'result:%s%d' % (name, k), t[1] if t[0] == 'i' else 64))
        return base(e, st, fr, ins, name, a)
    T.run.call_hook = hook
    for key, fn, code, obj, hdr in work:
        w = "code generator, statement dispatcher %s" % c.stmt_fn
        if fn in T.bad:
            ck.fail(key, w, "the emitted C does not compile: %s; emitted C: %s" % (T.bad[fn], code[:600]))
            continue
        bad = None
        n = 0
        for kind, f in T.run.run(fn, [], T.begin(State())):
            ck.count('paths')
            if kind != 'ret':
                continue
            n += 1
            ch = [x for x in f.ev if x[0] == 'change' and any(is_ptr(p) and p[1] == 'OBJ:' + obj and p[2] == 0 for p in x[2])]
            if not ch:
                bad = "the collection is not changed through an operation of the runtime that looks at its mark of iteration"
            elif any(T.fld(T.run.eng, f, ('p', 'OBJ:' + obj, 0), kd, x, ptr) != (('p', 'OBJ:%s.%d' % (obj, T.off[(kd, x)]), 0) if ptr else ('s', 'OBJ:%s.%d' % (obj, T.off[(kd, x)]), 32))
                     for kd, x, ptr in FIELDS[hdr]):
                bad = "the collection is written to directly"
        if bad or not n:
            ck.fail(key, w, "%s; emitted C: %s" % (bad or "no path completes the operation", code[:600]))
        else:
            ck.count('operations that reach the check')
            ck.ok(key, code[:300])


def runtime(ck):
    mods = [irlib.load(x) for x in ('runtime/array.c', 'runtime/map.c', 'stdlib/arrays.c', 'stdlib/maps.c', 'runtime/runtime.c', 'stdlib/random.c')]
    COLL, MAKES = set(), {}
    for m in mods:
        for nm, fn in m.funcs.items():
            if fn.body and not fn.internal:
                if any(ty in KINDS for ty, pos in params(m, fn)):
                    COLL.add(nm)
                if fn.result in KINDS1:
                    MAKES[nm] = fn.result
    changers = set()
    for m in mods:
        if m.name.endswith('runtime.c'):
            continue
        di = irlib.DI(m)
        for nm, fn in sorted(m.funcs.items()):
            if fn.internal or not fn.body:
                continue
            for i, (ty, pos) in enumerate(params(m, fn)):
                if ty in KINDS:
                    if one(ck, mods, m, di, fn, pos, *KINDS[ty]):
                        changers.add(nm)
            if fn.result in KINDS1:
                made(ck, mods, m, di, fn, fn.result, COLL, MAKES)
    return changers


def made(ck, mods, m, di, fn, kind, COLL, MAKES):
    """a collection a function returns is not marked as being iterated, whatever collection it was made from"""
    e = Engine([m] + [x for x in mods if x is not m])
    e.loop_forks = 1
    e.max_steps = 400000
    off = di.off(kind, 'iterating')[0]
    key = "the %s %s returns" % ('array' if kind == 'GrayArray' else 'map', fn.name)

    def call(e2, st, fr, ins, name, a):
        if name in PANICS:
            raise PathEnd()
        if name == 'gray_arena_alloc':
            k = st.x.get(('n', name), 0) + 1
            st.x[('n', name)] = k
            o = 'FRESH%d' % k
            e2.obj_kind.setdefault(o, ('heap', None))
            st.x[('null', o)] = False
            return V(('p', o, 0))
        if name in MAKES and is_ptr(a[0]):
            k = st.x.get(('n', name), 0) + 1
            st.x[('n', name)] = k
            o = 'MADE:%s%d' % (name, k)
            e2.obj_kind.setdefault(o, ('lazy',))
            e2.memcpy(st, a[0], ('p', o, 0), di.sizeof(MAKES[name]))
            e2.store(st, fr, ins, 0, ('p', a[0][1], a[0][2] + di.off(MAKES[name], 'iterating')[0]), ('i', 32))
            return V()
        if name in COLL or name in ('llvm.memcpy', 'memcpy', 'memmove', 'qsort') and not isinstance(a[2] if len(a) > 2 else None, int):
            t = fr.fn.mod.resolve(ins.ty)       # changes elements, not the mark: shown for the functions of COLL on their own
            if t[0] != 'i':
                return V() if t[0] == 'void' else None
            k = st.x.get(('n', 'value'), 0) + 1
            st.x[('n', 'value')] = k
            return V(('s', 'value%d' % k, t[1]))
        return None
    e.on_call = call
    st = State()
    args = []
    for i, (ty, nm, byv) in enumerate(fn.params):
        if ty[0] == 'ptr':
            o = 'RESULT' if i == 0 else 'P%d' % i
            e.obj_kind[o] = ('lazy',)
            st.x[('null', o)] = False
            args.append(('p', o, 0))
        else:
            args.append(('s', 'arg%d' % i, ty[1] if ty[0] == 'i' else 64))
    e.start(fn.name, args, st, m)
    n = 0
    for f in e.run(st):
        n += 1
        v = e.load_obj(f, m, 'RESULT', off, ('i', 32), 32)
        if v != 0:
            return ck.fail(key, "%s in %s" % (fn.name, m.name), "on a path the collection returned carries a mark of iteration of its own: no loop will ever take it back")
    ck.count('functions making a collection')
    ck.ok(key, "%d paths" % n)


def one(ck, mods, m, di, fn, pos, kind, code):
    e = Engine([m] + [x for x in mods if x is not m])
    e.loop_forks = 1
    e.max_steps = 400000
    off = di.off(kind, 'iterating')[0]
    guard = 'COLL.%d' % off
    other = {'gray_map_set': 1, 'gray_map_remove': 0, 'gray_array_push': 1}
    first = 'COLL.%d' % (di.off('GrayArray', 'data')[0] if kind == 'GrayArray' else di.off('GrayMap', 'keys')[0])
    unmade = 'COLL.%d' % di.off('GrayMap', 'key_size')[0] if kind == 'GrayMap' else None
    key = "%s on a collection that is being iterated" % fn.name
    bad = []
    n = [0]

    def wrote(st, ptr, ins):
        if ptr == ('p', 'COLL', off):
            bad.append(ins)
            return
        if not is_ptr(ptr) or not (ptr[1] == 'COLL' or ptr[1].startswith('COLL.')):
            return
        n[0] += 1
        if e.null_known(st, ('p', first, 0)) is True or unmade and st.rng(('s', unmade, 32), 32)[2:4] == (0, 0):
            return           # a collection without storage has no elements, so no loop body runs over it
        if idle(st):
            raise PathEnd()
        bad.append(ins)

    def idle(st):
        return st.rng(('s', guard, 32), 32)[1] <= 0      # no loop runs over the collection: nothing more to show

    def call(e2, st, fr, ins, name, a):
        if name in PANICS:
            raise PathEnd()
        if idle(st):
            n[0] += 1
            raise PathEnd()
        if name in other and fr.fn.name == fn.name:
            i = other[name]
            p = a[i] if i < len(a) else None
            if is_ptr(p) and isinstance(p[2], int) and not p[1].startswith('COLL'):
                d = e2.load_obj(st, m, p[1], p[2], ('ptr',), 64)
                if not (is_ptr(d) and d[1].startswith('COLL')):
                    return V()          # changes another collection
        if name == 'gray_arena_alloc':
            k = st.x.get(('n', name), 0) + 1
            st.x[('n', name)] = k
            o = 'FRESH%d' % k
            e2.obj_kind.setdefault(o, ('heap', None))
            st.x[('null', o)] = False
            return V(('p', o, 0))
        if any(name == w or name.startswith(w + '.') for w in WRITERS) and a:
            wrote(st, a[0], ins)
            if name == 'qsort':
                return V()
        return None
    e.on_call = call
    e.on_store = lambda e2, st, fr, ins, v, ptr, ty: wrote(st, ptr, ins)
    st = State()
    args = []
    for i, (ty, nm, byv) in enumerate(fn.params):
        if i == pos:
            e.obj_kind['COLL'] = ('lazy',)
            st.x[('null', 'COLL')] = False
            args.append(('p', 'COLL', 0))
        elif ty[0] == 'ptr':
            o = 'P%d' % i
            e.obj_kind[o] = ('lazy',)
            st.x[('null', o)] = False
            args.append(('p', o, 0))
        else:
            args.append(('s', 'arg%d' % i, ty[1] if ty[0] == 'i' else 64))
    e.start(fn.name, args, st, m)
    e.run(st)
    ck.count('functions taking a collection')
    if n[0]:
        ck.count('functions that change a collection')
    if bad:
        ck.fail(key, m.where(bad[0]), "the collection is changed without having established that no for_each runs over it, or its mark of iteration is")
    else:
        ck.ok(key, "%d changes" % n[0])
    return n[0] > 0
