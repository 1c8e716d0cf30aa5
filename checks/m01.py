"""M01 what is stored in a variable outlives the scope that made it"""
import os
import re
import vf
import cg
import absint
from access import *
from judge import render, Runner, Harness
from absint import State, is_ptr, V, PathEnd, AnalysisError

EXTRA = """typedef struct { int64_t n; GrayString name; GrayArray items; GrayMap m; } GrayStruct_S;
typedef struct { GrayString name; GrayArray children; } GrayStruct_R;
typedef struct GrayStruct_N_ { GrayStruct_S s; struct GrayStruct_N_ *next; GrayArray list; GrayMap m2; GrayError *err; } GrayStruct_N;
"""
FIELDS = {'S': [('n', 'int'), ('name', 'string'), ('items', '[string]'), ('m', 'map[string:string]')],
          'R': [('name', 'string'), ('children', '[R]')],
          'N': [('s', 'S'), ('next', '^N'), ('list', '[S]'), ('m2', 'map[string:S]'), ('err', 'Error')]}
CT = {'string': 'GrayString', 'Error': 'GrayError *', 'S': 'GrayStruct_S', 'N': 'GrayStruct_N', 'R': 'GrayStruct_R', '^N': 'GrayStruct_N *', 'int': 'int64_t',
      '^string': 'GrayString *', '^S': 'GrayStruct_S *', '^[string]': 'GrayArray *'}


def ctype(t):
    return CT.get(t) or ('GrayArray' if t[0] == '[' else 'GrayMap')


class World:
    def __init__(self, c, root, ty):
        """root: how x is declared; ty: its type"""
        self.c, self.st = c, c.new()
        st = self.st
        self.n = 0
        decls = []
        o, di = c.L['off'], c.L['di']
        for s, fs in FIELDS.items():
            k = 'SF:' + s
            c.eng.obj_kind[k] = ('heap', None)
            st.mem[k] = {}
            st.own.add(k)
            for i, (f, t) in enumerate(fs):
                b = i * di.sizeof('StructField')
                st.mem[k][b + o[('StructField', 'name')]] = (8, c.cstr(st, f))
                st.mem[k][b + o[('StructField', 'type_name')]] = (8, c.cstr(st, t))
                st.mem[k][b + o[('StructField', 'default_value')]] = (8, 0)
            decls.append(c.node(st, 'decl_' + s, 'NODE_STRUCT_DECL', None, struct_decl__name=s, struct_decl__fields=('p', k, 0),
                                struct_decl__field_count=len(fs)))
        c.setcg(st, 'struct_decls', 8, c.ptr_array(st, 'decls', decls))
        c.setcg(st, 'struct_decl_count', 4, len(decls))
        np = 0
        c.eng.obj_kind['PRM'] = ('heap', None)
        st.mem['PRM'] = {}
        st.own.add('PRM')
        if root == '& parameter':
            np = 1
            st.mem['PRM'] = {o[('Param', 'name')]: (8, c.cstr(st, 'x')), o[('Param', 'mutable')]: (1, 1),
                             o[('Param', 'type_name')]: (8, c.cstr(st, ty)),
                             o[('Param', 'is_type_param')]: (1, 0), o[('Param', 'default_value')]: (8, 0)}
        self.fn = c.node(st, 'fn', 'NODE_FUNC_DECL', None, func_decl__name='f', func_decl__params=('p', 'PRM', 0), func_decl__param_count=np,
                         func_decl__return_type_count=0, func_decl__return_types=None)
        c.setcg(st, 'current_func', 8, self.fn)
        c.setcg(st, 'loop_scope_depth', 4, 0)
        if root == 'reference':
            c.setcg(st, 'ref_vars', 8, c.ptr_array(st, 'refs', [c.cstr(st, 'x')]))
            c.setcg(st, 'ref_var_count', 4, 1)
        if root == 'module variable':
            c.setcg(st, 'global_vars', 8, c.ptr_array(st, 'globs', [c.cstr(st, 'x')]))
            c.setcg(st, 'global_var_count', 4, 1)

    def ty(self, t):
        c, st = self.c, self.st
        if t[0] == '[':
            return c.mktype(st, t, 'TK_ARRAY', name=t, elem=t[1:-1])
        if t[0] == '^':
            return c.mktype(st, t, 'TK_POINTER', name=t, elem=t[1:])
        if t.startswith('map['):
            k, v = t[4:-1].split(':', 1)
            return c.mktype(st, t, 'TK_MAP', name=t, keyt=k, val=v)
        if t in FIELDS:
            return c.mktype(st, t, 'TK_STRUCT', name=t)
        return t

    def nm(self):
        self.n += 1
        return 'q%d' % self.n

    def path(self, ty, steps):
        """x followed by steps; -> (node, type)"""
        c, st = self.c, self.st
        n, t = c.node(st, 'x', 'NODE_LABEL', self.ty(ty), label__value='x'), ty
        for s in steps:
            if s == '^':
                t = t[1:]
                n = c.node(st, self.nm(), 'NODE_POSTFIX_EXPR', self.ty(t), postfix__left=n, postfix__op='TOK_CARET')
            elif s == '[]':
                key = t.startswith('map[')
                I = c.opaque(st, 'K' if key else 'I', 'string' if key else 'int')
                t = t[4:-1].split(':', 1)[1] if key else t[1:-1]
                n = c.node(st, self.nm(), 'NODE_INDEX_EXPR', self.ty(t), index_expr__left=n, index_expr__index=I)
            else:
                t = dict(FIELDS[t.lstrip('^')])[s]
                n = c.node(st, self.nm(), 'NODE_MEMBER_EXPR', self.ty(t), member__object=n, member__member=s)
        return n, t

    def block(self, stmts):
        return self.c.node(self.st, self.nm(), 'NODE_BLOCK_STMT', None, block__stmts=self.c.ptr_array(self.st, self.nm(), stmts), block__count=len(stmts))

    def wrap(self, ctx, s):
        c, st = self.c, self.st
        for k in reversed(ctx):
            b = self.block([s])
            if k == 'while':
                s = c.node(st, self.nm(), 'NODE_WHILE_STMT', None, while_stmt__condition=c.opaque(st, 'C', 'bool'), while_stmt__body=b)
            elif k == 'if':
                s = c.node(st, self.nm(), 'NODE_IF_STMT', None, if_stmt__condition=c.opaque(st, 'C', 'bool'), if_stmt__consequence=b, if_stmt__alternative=None)
            elif k in ('if/break', 'if/continue'):
                x = c.node(st, self.nm(), 'NODE_BREAK_STMT' if k == 'if/break' else 'NODE_CONTINUE_STMT', None)
                s = c.node(st, self.nm(), 'NODE_IF_STMT', None, if_stmt__condition=c.opaque(st, 'C', 'bool'), if_stmt__consequence=self.block([s, x]), if_stmt__alternative=None)
            elif k == 'else':
                s = c.node(st, self.nm(), 'NODE_IF_STMT', None, if_stmt__condition=c.opaque(st, 'C', 'bool'), if_stmt__consequence=self.block([]), if_stmt__alternative=b)
            elif k == 'loop':
                brk = c.node(st, self.nm(), 'NODE_BREAK_STMT', None)
                s = c.node(st, self.nm(), 'NODE_LOOP_STMT', None, loop_stmt__body=self.block([s, brk]))
            elif k == 'range':
                r = c.node(st, self.nm(), 'NODE_RANGE_EXPR', 'int', range_expr__start=c.opaque(st, 'I', 'int'), range_expr__end=c.opaque(st, 'I', 'int'), range_expr__step=None)
                s = c.node(st, self.nm(), 'NODE_FOR_STMT', None, for_stmt__var_name='i', for_stmt__var_type=None, for_stmt__iterable=r, for_stmt__body=b)
            elif k == 'for_each':
                s = c.node(st, self.nm(), 'NODE_FOR_EACH_STMT', None, for_each__index_name=None, for_each__var_name='e',
                           for_each__collection=c.opaque(st, 'L', self.ty('[int]'), kinds='NODE_LABEL'), for_each__body=b)
            elif k in ('when', 'when/default'):
                o, st2 = c.L['off'], st
                wc = 'WC' + self.nm()
                c.eng.obj_kind[wc] = ('heap', None)
                st.mem[wc] = {o[('WhenCase', 'values')]: (8, c.ptr_array(st, wc + 'v', [c.opaque(st, 'I', 'int')])), o[('WhenCase', 'value_count')]: (4, 1),
                              o[('WhenCase', 'is_range')]: (1, 0), o[('WhenCase', 'body')]: (8, b if k == 'when' else self.block([]))}
                st.own.add(wc)
                s = c.node(st, self.nm(), 'NODE_WHEN_STMT', None, when_stmt__value=c.opaque(st, 'I', 'int'), when_stmt__cases=('p', wc, 0), when_stmt__case_count=1,
                           when_stmt__default_body=b if k == 'when/default' else self.block([]))
            elif k == 'block':
                s = b
        return s

    def call(self, f, args):
        c, st = self.c, self.st
        mod = c.node(st, 'mod', 'NODE_LABEL', 'NOTYPE', label__value='arrays')
        fn = c.node(st, 'callee', 'NODE_MEMBER_EXPR', 'NOTYPE', member__object=mod, member__member=f)
        call = c.node(st, 'call', 'NODE_CALL_EXPR', 'void', call__function=fn, call__args=c.ptr_array(st, 'args', args), call__arg_count=len(args))
        return c.node(st, 'callst', 'NODE_EXPR_STMT', None, expr_stmt__expr=call)


# (type of x, path, the declarations of x it is tried with)
VARS = ('local', '& parameter', 'reference', 'module variable')
LOC = ('local',)
TARGETS = [
    ('string', (), VARS), ('[string]', (), VARS), ('map[string:string]', (), VARS), ('S', (), VARS), ('Error', (), ('local', '& parameter', 'module variable')),
    ('[S]', (), LOC + ('module variable',)), ('[[string]]', (), LOC), ('map[string:S]', (), LOC), ('map[string:[string]]', (), LOC), ('N', (), LOC),
    ('S', ('name',), VARS), ('S', ('items',), VARS), ('S', ('m',), VARS), ('N', ('s',), VARS), ('N', ('s', 'name'), VARS), ('N', ('s', 'items'), LOC),
    ('N', ('list',), LOC), ('N', ('m2',), LOC), ('N', ('err',), LOC + ('& parameter',)),
    ('[string]', ('[]',), VARS), ('[S]', ('[]',), VARS), ('[[string]]', ('[]',), LOC), ('[S]', ('[]', 'name'), VARS), ('S', ('items', '[]'), VARS),
    ('[[string]]', ('[]', '[]'), LOC), ('map[string:string]', ('[]',), VARS), ('map[string:S]', ('[]',), VARS), ('map[string:[string]]', ('[]',), LOC),
    ('S', ('m', '[]'), VARS), ('N', ('s', 'm', '[]'), LOC), ('N', ('m2', '[]'), LOC),
    ('^N', ('s',), LOC), ('^N', ('err',), LOC), ('^S', ('name',), LOC), ('^S', ('items',), LOC), ('^S', ('m',), LOC), ('^S', ('^',), LOC), ('^string', ('^',), LOC),
    ('^[string]', ('^',), LOC), ('^S', ('^', 'name'), LOC), ('^S', ('^', 'items'), LOC), ('^S', ('^', 'm'), LOC), ('^S', ('items', '[]'), LOC),
    ('^S', ('m', '[]'), LOC), ('^S', ('^', 'items', '[]'), LOC), ('^S', ('^', 'm', '[]'), LOC), ('^N', ('next', 's'), LOC), ('^N', ('next', 'err'), LOC),
    ('N', ('next', 's'), LOC), ('N', ('next', 's', 'name'), LOC), ('^N', ('s', 'name'), LOC), ('^N', ('list', '[]'), LOC), ('^N', ('m2', '[]'), LOC),
]
CALLS = [(t, p, r) for t, p, r in [('[string]', (), VARS), ('[S]', (), VARS), ('[[string]]', (), LOC), ('S', ('items',), VARS), ('^S', ('items',), LOC),
                                   ('^S', ('^', 'items'), LOC), ('^N', ('list',), LOC), ('map[string:[string]]', ('[]',), LOC)]]
CTX = [(), ('if',), ('while',), ('while', 'if'), ('while', 'while')]
MORE = [('else',), ('loop',), ('range',), ('for_each',), ('block',), ('if', 'while'), ('for_each', 'range'), ('loop', 'else'),
        ('while', 'if/break'), ('while', 'if/continue'), ('while', 'range', 'if/continue'), ('loop', 'if', 'if/break'), ('for_each', 'if/continue')]


# what a function returns: (its return types, how it is returned)
RET = [(('string',), 'value'), (('[string]',), 'value'), (('map[string:string]',), 'value'), (('S',), 'value'), (('Error',), 'value'),
       (('[S]',), 'value'), (('[[string]]',), 'value'), (('map[string:S]',), 'value'), (('map[string:[string]]',), 'value'),
       (('string', 'Error'), 'value'), (('S', 'Error'), 'value'), (('[S]', 'string'), 'value'), (('map[string:S]', 'Error'), 'value'), (('string', 'S', '[string]'), 'value'),
       (('[string]', 'Error'), 'or_return'), (('string',), 'named'), (('S',), 'named'), (('[string]', 'Error'), 'named'), ((), 'value')]
RCTX = CTX + [('loop',), ('range',), ('for_each',), ('range', 'if', 'while')]


def show(ty, steps):
    s = 'x'
    for k in steps:
        s += k if k == '^' else '[i]' if k == '[]' else '.' + k
    return "%s of %s" % (s, ty)


def jobs():
    for ty, steps, roots in TARGETS:
        for root in roots:
            for ctx in CTX:
                yield ('=', ty, steps, root, ctx)
    for ctx in (('while',), ('while', 'if')):
        yield ('=', 'R', (), 'local', ctx)
    yield ('return', ('R',), 'value', 'local', ())
    for ctx in MORE:
        for ty in ('string', '[S]', 'S'):
            yield ('=', ty, (), 'local', ctx)
    for ty, steps, roots in CALLS:
        for root in roots:
            for ctx in CTX:
                for f in ('append', 'insert_at', 'prepend') + (('fill',) if ty == '[string]' else ()):
                    yield (f, ty, steps, root, ctx)
    for tys, how in RET:
        for root in ('local', '& parameter'):
            for ctx in RCTX:
                if how != 'named' or ctx in RCTX[:2]:
                    yield ('return', tys, how, root, ctx)


def returns(c, tys, how, root, ctx, name, before=(), after=()):
    """a function whose body returns values of its own from inside ctx"""
    w = World(c, root, 'string')
    st, o = w.st, c.L['off']

    def strs(k, xs):
        k = 'STR:' + k
        c.eng.obj_kind[k] = ('heap', None)
        st.mem[k] = {8 * i: (8, c.cstr(st, x)) for i, x in enumerate(xs)}
        st.own.add(k)
        return ('p', k, 0)
    vals = [c.opaque(st, 'V%d' % i, w.ty(t)) for i, t in enumerate(tys)]
    names = ['r%d' % i for i in range(len(tys))]
    pre = []
    if how == 'named':
        pre = [c.node(st, 'd%d' % i, 'NODE_VAR_DECL', w.ty(t), var_decl__name=names[i], var_decl__original_name=names[i], var_decl__type_name=t,
                      var_decl__value=vals[i], var_decl__mutable=1, var_decl__is_private=0) for i, t in enumerate(tys)]
        vals = []
    elif how == 'or_return':
        vals = vals[-1:]
    r = c.node(st, 'ret', 'NODE_RETURN_STMT', None, return_stmt__values=c.ptr_array(st, 'rv', vals) if vals else None, return_stmt__count=len(vals))
    fn = c.node(st, 'fn', 'NODE_FUNC_DECL', None, func_decl__name=name, func_decl__original_name=name, func_decl__params=('p', 'PRM', 0),
                func_decl__param_count=1 if root == '& parameter' else 0, func_decl__return_type_count=len(tys), func_decl__return_types=strs('types', tys) if tys else None,
                func_decl__return_names=strs('names', names) if how == 'named' else None, func_decl__body=w.block([x(w) for x in before] + pre + ([w.wrap(ctx, r)] if how != 'falls off the end' else []) + [x(w) for x in after]),
                func_decl__is_private=0, func_decl__instantiations=None, func_decl__instantiation_count=0)
    c.setcg(st, 'current_func', 8, 0)
    return w, fn, "%s returned (%s) from inside %s of a function with %s" % (', '.join(tys) or 'nothing', how, '/'.join(ctx) or 'nothing', 'an & parameter' if root != 'local' else 'no & parameter')


def wrapper(H, types, code, tys, root, name):
    """call the emitted function and keep what it returns"""
    pre, call = '', 'gray_fn_%s(%s)' % (name, 'H_X_string()' if root == '& parameter' else '')
    hs = []
    for i, t in enumerate(tys):
        hx = 'X_%d_%s' % (i, re.sub(r'\W', '_', t))
        H.declare(hx, ctype(t), True)
        types[hx] = t
        hs.append(hx)
    H.declare('X_string', 'GrayString', True)
    types['X_string'] = 'string'
    if len(tys) > 1:
        pre = 'typedef struct { %s } GrayMulti_%s; ' % (' '.join('%s v%d;' % (ctype(t), i) for i, t in enumerate(tys)), name)
        body = 'GrayMulti_%s r = %s; ' % (name, call) + ' '.join('*H_%s() = r.v%d;' % (h, i) for i, h in enumerate(hs))
    elif tys:
        body = '*H_%s() = %s;' % (hs[0], call)
    else:
        body = call + ';'
    return "%s%s void @FN@(void){ %s }" % (pre, code.strip(), body)


def check():
    ck = vf.Check("M01", "after the scopes around an emitted store have ended, no memory of a destroyed arena can be reached from the storage that was assigned, and what is reached through a pointer, a & parameter or a module variable is in the heap arena",
                  "The C templates of assignments and of the growing array calls, for each form of target, each owning type and each nesting of blocks and loops, are derived from the code generator, lowered to LLVM IR and interpreted with arenas as abstract regions.")
    c = cg.CG()
    import irlib
    for x in ("runtime/runtime.c", "runtime/array.c", "runtime/map.c", "stdlib/builtins.c", "stdlib/strings.c"):
        irlib.load(x)
    js = list(jobs())
    runtime(ck)
    copied_keys(ck)
    ck.parallel(lambda sub, i, n: part(sub, c, js[i::n], 'm01_%d' % i))
    for k, n in (('templates', 1100), ('paths', 4000), ('pointers from storage into arenas', 20000), ('allocating paths', 60)):
        ck.floor(k, n)
    return ck


ALLOC = [("runtime/runtime.c", "gray_string_new"), ("runtime/runtime.c", "gray_error_copy"), ("runtime/runtime.c", "gray_error_new"),
         ("runtime/array.c", "gray_array_new"), ("runtime/array.c", "gray_array_from"), ("runtime/array.c", "gray_array_copy"), ("runtime/array.c", "gray_array_push"),
         ("runtime/map.c", "gray_map_new_kind"), ("runtime/map.c", "gray_map_copy"), ("runtime/map.c", "gray_map_set"), ("runtime/map.c", "gray_map_set_str"),
         ("stdlib/arrays.c", "gray_arrays_insert_at"), ("stdlib/arrays.c", "gray_arrays_prepend"), ("stdlib/arrays.c", "gray_arrays_fill")]


def scalar_helpers(m):
    """functions that compute a number and neither take memory nor write to any"""
    out = set()
    for n, f in m.funcs.items():
        if f.ret[0] == 'i' and f.body:
            ops = list(f.insts())
            slots = {('loc', i.res) for i in ops if i.op == 'alloca'}
            if all(i.op != 'store' or any(x in slots for x in i.a if isinstance(x, tuple)) for i in ops):
                out.add((n, frozenset(c for c in (callee(i) for i in ops if i.op == 'call') if c)))
    ok = {n for n, _ in out}
    while True:
        nxt = {n for n, cs in out if n in ok and all(c in ok or c.startswith('llvm.') or c in ('memcmp', 'bcmp') for c in cs)}
        if nxt == ok:
            return ok
        ok = nxt


def callee(i):
    return i.a[0][1] if i.a[0][0] == 'glob' else '?'


def runtime(ck):
    """the operations the templates above rely on take memory from the arena they are given only"""
    import irlib
    from absint import Engine
    for path, fn in ALLOC:
        m = irlib.load(path)
        if fn not in m.funcs:
            ck.fail("memory taken by " + fn, path, "anchor unresolved")
            continue
        libs = [m] + [irlib.load(x) for x in ("runtime/runtime.c", "runtime/array.c", "runtime/map.c") if x != path]
        eng = Engine(libs)
        eng.loop_forks = 1
        st = State()
        args = []
        sret = False
        arena = None
        for i, (t, nm, _) in enumerate(m.funcs[fn].params):
            if t[0] != 'ptr':
                args.append(('s', 'arg%d' % i, t[1]))
            elif i == 0 and m.funcs[fn].ret[0] == 'void' and 'sret' in m.funcs[fn].header:
                sret = True
                eng.obj_kind['RES'] = ('heap', None)
                st.mem['RES'] = {}
                st.own.add('RES')
                args.append(('p', 'RES', 0))
            elif arena is None:
                arena = 'AR:p'
                eng.obj_kind[arena] = ('lazy',)
                st.x[('null', arena)] = False
                args.append(('p', arena, 0))
            else:
                o = 'ARG%d' % i
                eng.obj_kind[o] = ('lazy',)
                if fn != 'gray_error_copy':
                    st.x[('null', o)] = False
                args.append(('p', o, 0))
        wrong = []
        pure = scalar_helpers(m)
        names = {x for _, x in ALLOC}
        sret_fns = {x for mm in libs for x, g in mm.funcs.items() if 'sret' in g.header}

        def call(e, s, fr, ins, name, a):
            if name == 'gray_arena_alloc':
                s.emit_ev('alloc', ins)
                if not (is_ptr(a[0]) and a[0][1] == 'AR:p'):
                    wrong.append("memory is taken from another arena than the one given")
                n = s.x.get(('n', 'al'), 0) + 1
                s.x[('n', 'al')] = n
                o = 'MEM<AR:p>%d' % n
                e.obj_kind.setdefault(o, ('heap', None))
                s.x[('null', o)] = False
                return V(('p', o, 0))
            if name in ('malloc', 'calloc', 'realloc', 'strdup'):
                wrong.append("memory is not taken from an arena")
            if name.startswith('gray_panic'):
                raise PathEnd()
            if name in names and len(s.frames) > 1 and name != 'gray_string_new':
                # its own obligation; here: it is given the same arena
                arena_arg = a[1] if name in sret_fns else a[0]
                if not (is_ptr(arena_arg) and arena_arg[1] == 'AR:p'):
                    wrong.append("memory is taken from another arena than the one given")
                if name not in sret_fns and m.resolve(ins.ty)[0] == 'void':
                    return V()
            if name in pure:
                t = fr.fn.mod.resolve(ins.ty)
                k = s.x.get(('n', 'pure'), 0) + 1
                s.x[('n', 'pure')] = k
                return V(('s', 'r%d' % k, t[1]))
            return None
        eng.on_call = call
        n = 0
        if os.environ.get('SHOW'):
            print(fn, flush=True)
        try:
            eng.start(fn, args, st, m)
            for f in eng.run(st):
                n += 1
                ck.count('paths of the allocating operations')
                if any(ev[0] == 'alloc' for ev in f.ev):
                    ck.count('allocating paths')
                if fn not in ('gray_map_set', 'gray_map_set_str', 'gray_array_push', 'gray_arrays_insert_at', 'gray_arrays_prepend', 'gray_arrays_fill'):
                    got = f.mem.get('RES', {}) if sret else {0: (8, f.ret)} if is_ptr(f.ret) else {0: (8, f.ret[1])} if isinstance(f.ret, tuple) and f.ret[0] == 'a' else {}
                    for o, cell in got.items():
                        if isinstance(o, int) and is_ptr(cell[1]) and not cell[1][1].startswith('MEM<AR:p>'):
                            wrong.append("the result refers to memory that was not taken from the arena given")
        except AnalysisError as ex:
            wrong.append("undecided: %s" % ex)
        if not n:
            wrong.append("no path returns")
        ck.expect(not wrong, "memory taken by " + fn, "%s: %s" % (path, fn), wrong and wrong[0])


def copied_keys(ck):
    """a copied map of two entries with string keys owns the characters of both"""
    import irlib
    from absint import Engine
    m, rt = irlib.load("runtime/map.c"), irlib.load("runtime/runtime.c")
    d = irlib.DI(m)
    mem = {f: (off, sz) for f, (off, sz, k) in d.members(d.root('GrayMap')).items()}
    src = open(os.path.join(irlib.REPO, "grayc/src/runtime/map.h")).read()
    k = re.search(r'GRAY_MAP_KEY_STRING\s*=?\s*(\d+)', src)
    if not k or 'gray_map_copy' not in m.funcs:
        return ck.fail("keys copied by gray_map_copy", "runtime/map.c", "anchor unresolved")
    eng = Engine([m, rt])
    st = State()
    st.x[('null', 'AR:p')] = False
    eng.obj_kind['AR:p'] = ('lazy',)

    def obj(o, cells):
        eng.obj_kind[o] = ('heap', None)
        st.x[('null', o)] = False
        st.mem[o] = cells
        st.own.add(o)
        return ('p', o, 0)
    sym = lambda x, b: ('s', x, b)
    kc, vc = {}, {}
    for i in range(2):
        kc[16 * i] = (8, obj('CHARS%d' % i, {}))
        kc[16 * i + 8] = (4, sym('len%d' % i, 32))
        vc[8 * i] = (8, sym('val%d' % i, 64))
    val = dict(keys=obj('KEYS', kc), values=obj('VALUES', vc), states=obj('STATES', {0: (1, 1), 1: (1, 1)}), order=obj('ORDER', {0: (4, 0), 4: (4, 1)}),
               key_size=16, value_size=8, count=2, capacity=2, order_len=2, iterating=0, key_kind=int(k.group(1)))
    srcm = obj('SRC', {mem[f][0]: (mem[f][1], v) for f, v in val.items() if f in mem})
    res = obj('RES', {})

    def call(e, s, fr, ins, name, a):
        if name == 'gray_arena_alloc':
            n = s.x.get(('n', 'al'), 0) + 1
            s.x[('n', 'al')] = n
            o = 'MEM<AR:p>%d' % n
            e.obj_kind.setdefault(o, ('heap', None))
            s.x[('null', o)] = False
            s.mem.setdefault(o, {})
            s.own.add(o)
            return V(('p', o, 0))
        return None
    eng.on_call = call
    bad, n = None, 0
    args = [res, ('p', 'AR:p', 0), srcm]
    eng.start('gray_map_copy', args, st, m)
    for f in eng.run(st):
        n += 1
        kp = f.mem['RES'].get(mem['keys'][0], (8, 0))[1]
        for i in range(2):
            v = eng.load_obj(f, m, kp[1], 16 * i, ('ptr',), 64) if is_ptr(kp) else None
            if not (is_ptr(v) and v[1].startswith('MEM<AR:p>')):
                bad = "the characters of a key still belong to the map that was copied"
    ck.expect(n and not bad, "keys copied by gray_map_copy", "runtime/map.c: gray_map_copy", bad or "no path returns")


def part(ck, c, js, tag):
    H = Harness(tag)
    H.extra = EXTRA
    work = []
    for op, ty, steps, root, ctx in js:
        holes = {'I': 'int', 'K': 'string', 'C': 'bool', 'L': '[int]'}
        if op == 'return':
            w, top, key = returns(c, ty, steps, root, ctx, 'f')
            st = w.st
            holes.update(('V%d' % i, t) for i, t in enumerate(ty))
        else:
            w = World(c, root, ty)
            st = w.st
            n, t = w.path(ty, steps)
            if op == '=':
                vt = t
                v = c.opaque(st, 'V', w.ty(t))
                s = c.node(st, 'as', 'NODE_ASSIGN_STMT', None, assign__target=n, assign__op='TOK_ASSIGN', assign__value=v)
            else:
                vt = t[1:-1]
                v = c.opaque(st, 'V', w.ty(vt))
                I = c.opaque(st, 'I', 'int')
                s = w.call(op, {'append': [n, v], 'insert_at': [n, I, v], 'prepend': [n, v], 'fill': [n, v, I]}[op])
            top = w.wrap(ctx, s)
            holes['V'] = vt
            key = "%s%s, x a %s, inside %s" % ('' if op == '=' else op + ' ', show(ty, steps), root, '/'.join(ctx) or 'nothing')
        tpls = c.run(st, top, stmt=True)
        if not tpls:
            ck.fail(key, c.stmt_fn, "no template is emitted")
        for tpl, f in tpls:
            ck.count('templates')
            mp, types = {}, {}
            for h, t in holes.items():
                hn = h if h in ('I', 'C') else 'V_' + re.sub(r'\W', '_', t)
                lv = h == 'L'
                hn = 'X_' + re.sub(r'\W', '_', t) if lv else hn
                types[hn] = t
                H.declare(hn, 'bool' if t == 'bool' else ctype(t), lv)
                mp['N:' + h] = (hn, 0, lv)
            try:
                code = render(tpl, mp).strip()
            except AnalysisError:
                ck.count('templates for another program shape')
                continue
            if op == 'return':
                body = wrapper(H, types, re.sub(r'\b(gray_fn_|GrayMulti_)f\b', r'\g<1>f%d' % len(work), code), ty, root, 'f%d' % len(work))
                local = True
            else:
                hx = 'X_' + re.sub(r'\W', '_', ty)
                H.declare(hx, ctype(ty), True)
                types[hx] = ty
                if root in ('& parameter', 'reference'):
                    body = "void @FN@(void){ %s *x = H_%s(); %s }" % (ctype(ty), hx, code)
                else:
                    body = "void @FN@(void){ %s x = *H_%s(); %s *H_%s() = x; }" % (ctype(ty), hx, code, hx)
                local = root == 'local' and '^' not in ty and 'next' not in steps
            work.append((key, H.add(body), code, local, types))
    R = Regions(H.build())
    groups = {}
    for j in work:
        groups.setdefault(j[0], []).append(j)
    for key, js in groups.items():
        live = [j for j in js if j[1] not in H.bad]
        if not live:
            ck.count('forms that no program can use (the emitted C is rejected)')
            if os.environ.get('SHOW'):
                print("rejected", key, H.bad[js[0][1]], js[0][2] if os.environ["SHOW"] == "2" else "")
            continue
        why = None
        for j in live:
            try:
                why = R.judge(ck, j)
            except AnalysisError as ex:
                why = "undecided: %s" % ex
            if why:
                ck.fail(key, "code generator, %s (%s)" % (c.stmt_fn, key), "%s; emitted C: %s" % (why, j[2]))
                break
        if not why:
            ck.ok(key, live[0][2])


class Regions:
    """arenas are regions: an object's name carries the arena it was allocated in"""

    def __init__(self, m):
        self.run = Runner(m)
        self.run.call_hook = self.hook
        self.m = m
        e = self.run.eng
        import irlib
        self.fo = {}
        self.di = irlib.DI(m)
        self.lay = {}
        for s, src in (('GrayMap', 'map'), ('GrayArray', 'array'), ('GrayError', 'runtime'), ('GrayString', 'runtime')):
            di = irlib.DI(irlib.load("runtime/%s.c" % src))
            self.lay[s] = [(f, off, sz, 'DW_TAG_pointer_type' in di.mod.md.get(di.strip(k), '')) for f, (off, sz, k) in di.members(di.root(s)).items()]

    # -- regions
    def arena(self, st, p):
        if is_ptr(p):
            return p[1]
        raise AnalysisError("an arena argument is not a pointer: %r" % (p,))

    def fresh(self, e, st, ar, what, lazy=False):
        n = st.x.get(('n', 'reg'), 0) + 1
        st.x[('n', 'reg')] = n
        o = "MEM<%s>%s%d" % (ar, what, n)
        e.obj_kind.setdefault(o, ('lazy',) if lazy else ('heap', None))
        st.x[('null', o)] = False
        if not lazy:
            st.mem.setdefault(o, {})
            st.own.add(o)
        return o

    def cur(self, e, st):
        k = self.gobj(e, st, 'gray_default_arena')
        c = st.mem[k].get(0)
        return self.arena(st, c[1])

    def gobj(self, e, st, name):
        return e.global_ptr(st, self.m, name)[1]

    def start(self):
        st = State()
        e = self.run.eng
        for g, a in (('gray_default_arena', 'AR:scope'), ('gray_heap_arena', 'AR:heap'), ('_gray_outer_arena', 'AR:none')):
            if g not in self.m.globals and g != 'gray_default_arena':
                continue
            o = self.gobj(e, st, g)
            e.obj_kind[o] = ('heap', None)
            e.obj_kind.setdefault(a, ('lazy',))
            st.x[('null', a)] = False
            st.mem[o] = {0: (8, ('p', a, 0))}
            st.own.add(o)
        return st

    def build(self, e, st, kind, ar, **given):
        """cells of a fresh container whose memory is in arena ar"""
        out = {}
        for f, off, sz, ptr in self.lay[kind]:
            if f in given:
                out[off] = (sz, given[f])
            elif ptr:
                out[off] = (8, ('p', self.fresh(e, st, ar, f), 0))
            elif sz in (1, 2, 4, 8):
                st.x[('n', 'sym')] = st.x.get(('n', 'sym'), 0) + 1
                out[off] = (sz, ('s', 'c%d' % st.x[('n', 'sym')], sz * 8))
        return out

    def put(self, st, p, cells):
        w = st.wcells(p[1])
        for o, c in cells.items():
            w[p[2] + o] = c

    def off(self, kind, f):
        return next(off for n, off, sz, ptr in self.lay[kind] if n == f)

    def rd(self, e, st, p, kind, f):
        for n, off, sz, ptr in self.lay[kind]:
            if n == f:
                return e.load_obj(st, self.m, p[1], p[2] + off, ('ptr',) if ptr else ('i', sz * 8), sz * 8)

    def copy_value(self, e, st, src, dst):
        """the bytes at src are stored at dst"""
        if st.alias.get(src[1]):
            raise AnalysisError("the content of %s is not known" % src[1])
        for o, c in list(st.mem.get(src[1], {}).items()):
            if isinstance(o, int) and o >= src[2]:
                st.wcells(dst)[o - src[2]] = c

    def sub(self, e, st, o):
        e.obj_kind.setdefault(o, ('heap', None))
        st.x[('null', o)] = False
        if o not in st.mem:
            st.mem[o] = {}
            st.own.add(o)
        return ('p', o, 0)

    def make(self, e, st, obj, off, t, path, depth=0):
        """lay out a value of Grayscale type t at obj+off; everything it refers to gets names starting with path"""
        w = st.wcells(obj)
        sym = lambda n, bits: ('s', path + '.' + n, bits)
        if t == 'int':
            w[off] = (8, sym('v', 64))
        elif t == 'Error':
            p = self.sub(e, st, path + '.err')
            w[off] = (8, p)
            for f, o, sz, ptr in self.lay['GrayError']:
                self.make(e, st, p[1], o, 'string', path + '.err.' + f, depth)
        elif t[0] == '^':
            q = path + '^' if path.startswith('OBJ:') else 'MEM<AR:heap>^' + path     # what pointers point to comes from new()
            p = self.sub(e, st, q)
            w[off] = (8, p)
            if depth < 2:
                self.make(e, st, p[1], 0, t[1:], q, depth + 1)
        elif t in FIELDS:
            for f, ft in FIELDS[t]:
                if t == 'R' and path.count('.children') > 3:
                    return
                self.make(e, st, obj, off + self.foff(t, f), ft, path + '.' + f, depth)
        else:
            kind = 'GrayString' if t == 'string' else 'GrayArray' if t[0] == '[' else 'GrayMap'
            for f, o, sz, ptr in self.lay[kind]:
                if ptr:
                    p = self.sub(e, st, path + '.' + f)
                    w[off + o] = (8, p)
                    if f == 'order':
                        st.wcells(p[1])[0] = (4, sym('slot', 32))
                else:
                    w[off + o] = (sz, 0 if f == 'iterating' else sym(f, sz * 8))
            if kind == 'GrayArray':
                self.make(e, st, path + '.data', 0, t[1:-1], path + '.data[]', depth)
            elif kind == 'GrayMap':
                k, v = t[4:-1].split(':', 1)
                self.make(e, st, path + '.keys', 0, k, path + '.keys[]', depth)
                self.make(e, st, path + '.values', 0, v, path + '.values[]', depth)

    def foff(self, t, f):
        if (t, f) not in self.fo:
            self.fo[(t, f)] = self.di.off('GrayStruct_' + t, f)[0]
        return self.fo[(t, f)]

    def grow(self, e, st, cont, kind, ar):
        """the container at cont may move its memory to arena ar"""
        for f, off, sz, ptr in self.lay[kind]:
            if ptr:
                old = e.load_obj(st, self.m, cont[1], cont[2] + off, ('ptr',), 64)
                if is_ptr(old) and old[1].startswith('MEM<%s>' % ar):
                    continue
                o = self.fresh(e, st, ar, f)
                if is_ptr(old):
                    self.copy_value(e, st, ('p', old[1], 0), o)
                st.wcells(cont[1])[cont[2] + off] = (8, ('p', o, 0))

    def hook(self, e, st, fr, ins, name, a):
        if name.startswith('llvm.threadlocal.address'):
            return V(a[0])
        if name.startswith('H_X_'):
            o = 'OBJ:' + name[2:]
            if o not in st.mem:
                self.sub(e, st, o)
                self.make(e, st, o, 0, self.job[4][name[2:]], o)
            return V(('p', o, 0))
        if name.startswith('H_V_'):
            t = self.job[4][name[2:]]
            ty = fr.fn.mod.resolve(ins.ty)
            n = st.x.get(('n', 'val'), 0) + 1
            st.x[('n', 'val')] = n
            o = 'VAL<%s>%d' % (self.cur(e, st), n)
            if ty[0] == 'void' and a and is_ptr(a[0]):
                if not isinstance(a[0][2], int):
                    raise AnalysisError("a value is not returned to a variable of its own")
                self.make(e, st, a[0][1], a[0][2], t, o)
                return V()
            self.sub(e, st, o)
            self.make(e, st, o, 0, t, o)
            if ty[0] == 'ptr' or ty[0] == 'i':
                return V(st.mem[o][0][1])
            if ty[0] == 'struct':
                return V(('a',) + tuple(st.mem[o][k][1] for k in sorted(k for k in st.mem[o] if isinstance(k, int))))
            raise AnalysisError("a value of type %s is returned in an unknown way (%r)" % (t, ty))
        if name in ('gray_map_key_at', 'gray_map_value_at'):
            p = self.rd(e, st, a[0], 'GrayMap', 'keys' if name == 'gray_map_key_at' else 'values')
            return V(('p', p[1], 0))
        if name == 'gray_string_new':
            ar = self.arena(st, a[0])
            if is_ptr(a[1]):
                self.use(st, a[1][1])
            return V(('a', ('p', self.fresh(e, st, ar, 'chars'), 0), a[2]))
        if name in ('gray_error_copy', 'gray_error_new'):
            ar = self.arena(st, a[0])
            o = self.fresh(e, st, ar, 'error')
            for f, off, sz, ptr in self.lay['GrayError']:
                st.wcells(o)[off] = (8, ('p', self.fresh(e, st, ar, 'chars'), 0))
            return V(('p', o, 0))
        if name == 'gray_array_new':
            self.put(st, a[0], self.build(e, st, 'GrayArray', self.arena(st, a[1]), len=0, iterating=0))
            return V()
        if name in ('gray_array_copy', 'gray_map_copy'):
            kind = 'GrayArray' if name == 'gray_array_copy' else 'GrayMap'
            ar = self.arena(st, a[1])
            cells = self.build(e, st, kind, ar)
            for f, off, sz, ptr in self.lay[kind]:
                v = self.rd(e, st, a[2], kind, f)
                if not ptr:
                    cells[off] = (sz, v)
                elif is_ptr(v):
                    self.use(st, v[1])
                    d = cells[off][1][1]
                    self.copy_value(e, st, ('p', v[1], 0), d)
                    if f == 'keys':        # string keys are copied with the table (obligation: gray_map_copy)
                        for o, c in list(st.mem[d].items()):
                            if isinstance(o, int) and is_ptr(c[1]):
                                st.wcells(d)[o] = (8, ('p', self.fresh(e, st, ar, 'chars'), 0))
            self.put(st, a[0], cells)
            return V()
        if name in ('gray_map_new_kind', 'gray_map_new'):
            self.put(st, a[0], self.build(e, st, 'GrayMap', self.arena(st, a[1]), count=0, order_len=0, iterating=0, key_size=a[2] if isinstance(a[2], int) else 8))
            return V()
        if name == 'gray_map_set':
            ar = self.arena(st, a[0])
            st.emit_ev('store', ins)
            self.grow(e, st, a[1], 'GrayMap', ar)
            for f, src in (('keys', a[2]), ('values', a[3])):
                t = self.rd(e, st, a[1], 'GrayMap', f)
                if is_ptr(t) and is_ptr(src):
                    self.copy_value(e, st, src, t[1])
            return V()
        if name in ('gray_array_append', 'gray_arrays_insert_at', 'gray_arrays_prepend', 'gray_arrays_fill', 'gray_array_append_raw'):
            ar = self.arena(st, a[0])
            st.emit_ev('store', ins)
            vals = [v for v in a[2:] if is_ptr(v)]
            if len(vals) != 1:
                raise AnalysisError("%s: the stored value is not recognised" % name)
            self.grow(e, st, a[1], 'GrayArray', ar)
            t = self.rd(e, st, a[1], 'GrayArray', 'data')
            self.copy_value(e, st, vals[0], t[1])
            return V()
        if name in ('gray_array_get_ptr', 'gray_map_get'):
            t = self.rd(e, st, a[0], 'GrayArray' if name == 'gray_array_get_ptr' else 'GrayMap', 'data' if name == 'gray_array_get_ptr' else 'values')
            if is_ptr(t):
                return V(('p', t[1], 0))
            raise AnalysisError("an element of an unknown container")
        if name == 'gray_array_set':
            st.emit_ev('store', ins)
            t = self.rd(e, st, a[0], 'GrayArray', 'data')
            self.copy_value(e, st, a[2], t[1])
            return V()
        if name == 'gray_arena_create':
            n = st.x.get(('n', 'arena'), 0) + 1
            st.x[('n', 'arena')] = n
            o = 'AR:inner%d' % n
            e.obj_kind.setdefault(o, ('lazy',))
            st.x[('null', o)] = False
            return V(('p', o, 0))
        if name == 'gray_scope_save' and is_ptr(a[-1]):
            st.x[('n', 'mark')] = self.arena(st, a[-1])
        if name == 'gray_scope_restore':
            if st.x.pop(('n', 'mark'), None) != self.arena(st, a[0]):
                st.emit_ev('dead', None, 'mark')
        if name == 'gray_arena_destroy':
            st.x[('dead', self.arena(st, a[0]))] = True
            return V()
        if name == 'gray_arena_alloc':
            return V(('p', self.fresh(e, st, self.arena(st, a[0]), 'block'), 0))
        if name == 'free':
            return V()
        return None

    def use(self, st, obj):
        ar = region(obj)
        if ar and st.x.get(('dead', ar)):
            st.emit_ev('dead', None, ar)

    # -- judging
    def judge(self, ck, j):
        key, fn, code, local, types = j
        self.job = j
        e = self.run.eng
        stores = []
        e.on_store = lambda e2, st, fr, ins, v, ptr, ty: stores.append(1) if is_ptr(ptr) and ptr[1].startswith('OBJ:') else None
        e.on_load = lambda e2, st, fr, ins, ptr, ty: self.use(st, ptr[1]) if is_ptr(ptr) else None
        try:
            res = self.run.run(fn, [], self.start())
        finally:
            e.on_store = e.on_load = None
        rets = 0
        for k, f in res:
            ck.count('paths')
            if any(ev[0] == 'dead' for ev in f.ev):
                return "memory of a destroyed arena is used"
            if k == 'panic':
                continue
            rets += 1
            if self.cur(e, f) != 'AR:scope':
                return "the arena in use afterwards is not the one in use before"
            why = self.reach(ck, f, local)
            if why:
                return why
        if not rets:
            return "no path succeeds"
        return None

    def reach(self, ck, f, local):
        roots = [o for o in set(f.mem) | set(f.alias) if isinstance(o, str) and o.startswith('OBJ:')]
        seen = set(roots)
        todo = list(roots)
        while todo:
            o = todo.pop()
            nxt = []
            cells = f.mem.get(o, {})
            for off, c in cells.items():
                if isinstance(off, int) and is_ptr(c[1]):
                    nxt.append(c[1][1])
            if f.alias.get(o):
                return "what is stored cannot be followed (%s)" % o
            for nm in nxt:
                ar = region(nm)
                if ar is not None:
                    ck.count('pointers from storage into arenas')
                    b = self.bad(f, ar, local)
                    if b:
                        return b
                if nm not in seen:
                    seen.add(nm)
                    todo.append(nm)
        return None

    def bad(self, f, ar, local):
        if f.x.get(('dead', ar)):
            return "the storage still points into the arena of a scope that has ended"
        if not local and ar != 'AR:heap':
            return "storage that can outlive the function points into an arena of the function"
        return None


def region(obj):
    m = re.match(r'(?:MEM|VAL)<(AR:\w+)>', obj)
    return m.group(1) if m else None
