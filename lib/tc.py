"""Interpretation of the type checker on one construct: which diagnostics it reports on every path, and which type it gives the expression.

A construct is an AST node whose sub-expressions are either unknown expressions of a given type, or concrete nodes.  The scope (the variables in
reach), the registered structs and the imports are what the world given to the checker says; everything else of the checker is interpreted."""
import re

import absint
import irlib
from absint import Engine, State, V, is_ptr, NULL
from irlib import AnalysisError
from cg import CG, layout

GLOBALS = {'int': 'TYPE_INT', 'uint': 'TYPE_UINT', 'float': 'TYPE_FLOAT', 'bool': 'TYPE_BOOL', 'char': 'TYPE_CHAR', 'byte': 'TYPE_BYTE',
           'string': 'TYPE_STRING', 'void': 'TYPE_VOID', 'nil': 'TYPE_NIL', '?': 'TYPE_UNKNOWN'}


class TC(CG):
    def __init__(self, loop_forks=2, max_paths=6000):
        self.mod = irlib.load("typechecker/typechecker.c")
        self.types = irlib.load("typechecker/types.c")
        self.L = layout(self.mod)
        self.E = self.L['enum']
        self.eng = Engine([self.mod, self.types, irlib.load("typechecker/scope.c")])
        self.eng.loop_forks = loop_forks
        self.eng.max_paths = max_paths
        self.eng.max_steps = 3000000
        self.e = self.eng
        self.emitters = set()
        self.find_anchors()
        self.eng.on_call = self.on_call
        self.first = None

    def find_anchors(self):
        E = self.E
        ex = {E[k] for k in ('NODE_INFIX_EXPR', 'NODE_PREFIX_EXPR', 'NODE_CAST_EXPR', 'NODE_CALL_EXPR', 'NODE_INDEX_EXPR', 'NODE_INT_VALUE', 'NODE_LABEL')}
        stt = {E[k] for k in ('NODE_ASSIGN_STMT', 'NODE_RETURN_STMT', 'NODE_FOR_STMT', 'NODE_IF_STMT', 'NODE_BREAK_STMT', 'NODE_VAR_DECL')}
        found = {'expr': [], 'stmt': []}
        for fn in self.mod.funcs.values():
            if len(fn.params) != 2 or not fn.body:
                continue
            for ins in fn.insts():
                if ins.op == 'switch':
                    ks = {k for k, _ in ins.a[3]}
                    r = getattr(fn, 'ret', None)
                    if ex <= ks:
                        found['expr'].append(fn.name)
                    if stt <= ks:
                        found['stmt'].append(fn.name)
        self.found = found
        ptr = [n for n in set(found['expr']) if self.mod.resolve(self.mod.funcs[n].ret)[0] == 'ptr']
        vd = [n for n in set(found['stmt']) if self.mod.resolve(self.mod.funcs[n].ret)[0] == 'void']
        if len(ptr) != 1 or len(vd) != 1:
            raise AnalysisError("anchor unresolved: dispatchers of the type checker (candidates %s)" % found)
        self.expr_fn, self.stmt_fn = ptr[0], vd[0]
        self.dispatchers = set(found['expr']) | set(found['stmt'])

    # ---------------------------------------------------------- hooks
    def on_call(self, e, st, fr, ins, name, a):
        if name in (self.expr_fn,) and len(a) == 2:
            n = a[1]
            if is_ptr(n) and ('unk', n[1]) in st.x:
                st.emit_ev('resolved', n[1])
                return V(st.x[('type', n[1])])
            return None
        if name == self.stmt_fn and len(a) == 2:
            n = a[1]
            if is_ptr(n) and ('unk', n[1]) in st.x:
                st.emit_ev('checked', n[1])
                return V()
            return None
        if name in ('diagnostic_error_count', 'diagnostic_warning_count'):
            kind = name.split('_')[1]
            return V(sum(1 for x in st.ev if x[0] == 'diag' and x[2] == kind))
        if name.startswith('diagnostic_'):
            code = e.conc(e.get_str(st, a[1])) if len(a) > 1 and is_ptr(a[1]) else None
            if code is None or not re.fullmatch(r'[EW]\d{4,5}', code):
                if name.startswith('diagnostic_error'):
                    code = 'E????'
                elif name.startswith('diagnostic_warn'):
                    code = 'W????'
                else:
                    return V(e.fresh_ret(st, fr.fn.mod, ins.ty, name) if ins.res else None)
            st.emit_ev('diag', code, 'error' if 'error' in name else 'warning')
            return V(e.fresh_ret(st, fr.fn.mod, ins.ty, name) if ins.res else None)
        if name == 'typetable_get':
            n = a[1]
            return V(st.x.get(('type', n[1]), NULL) if is_ptr(n) else NULL)
        if name == 'typetable_set':
            if is_ptr(a[1]):
                st.x[('type', a[1][1])] = a[2]
            return V()
        if name == 'qsort':
            return self.sort(e, st, fr, *a)
        if name == 'bsearch':
            return self.find(e, st, fr, *a)
        if name == 'typetable_create':
            return V(self.lazy(st, 'TYPETABLE'))
        if name == 'arena_create':
            return V(self.lazy(st, 'ARENA'))
        fn = self.mod.funcs.get(name)
        if fn is not None and fn.vararg and self.mod.resolve(fn.ret)[0] == 'ptr':
            return V(self.text(st))             # a formatted message
        if name in ('arena_strdup', 'arena_copy_string', 'arena_copy') and len(a) >= 2:
            return V(a[1])
        if name in ('xstrdup', 'strdup'):
            return V(a[0])
        return None

    def lazy(self, st, n):
        self.eng.obj_kind[n] = ('lazy',)
        st.x[('null', n)] = False
        return ('p', n, 0)

    def cmp(self, e, st, fr, f, x, y):
        r = e.subcall(st, f[1], [x, y], fr.fn.mod)
        if r is None:
            raise AnalysisError("a table of the type checker is ordered by what is not known")
        return absint.sgn(r, 32)

    def sort(self, e, st, fr, base, n, size, f):
        import functools
        if not (isinstance(n, int) and size == 8 and is_ptr(base) and isinstance(f, tuple) and f[0] == 'fn'):
            raise AnalysisError("a table that is not known is sorted")
        xs = [e.load_obj(st, fr.fn.mod, base[1], base[2] + 8 * i, ('ptr',), 64) for i in range(n)]
        c = 'SORT'
        e.obj_kind[c] = ('heap', None)

        def cmp(x, y):
            st.mem[c] = {0: (8, x), 8: (8, y)}
            st.own.add(c)
            return self.cmp(e, st, fr, f, ('p', c, 0), ('p', c, 8))
        xs.sort(key=functools.cmp_to_key(cmp))
        st.mem.pop(c, None)
        for i, x in enumerate(xs):
            e.store(st, fr, None, x, ('p', base[1], base[2] + 8 * i), ('ptr',))
        return V()

    def find(self, e, st, fr, key, base, n, size, f):
        if not (isinstance(n, int) and isinstance(size, int) and isinstance(f, tuple) and f[0] == 'fn'):
            raise AnalysisError("a table that is not known is searched")
        lo, hi = 0, n
        while lo < hi:
            mid = (lo + hi) // 2
            el = ('p', base[1], base[2] + mid * size)
            r = self.cmp(e, st, fr, f, key, el)
            if r == 0:
                return V(el)
            lo, hi = (lo, mid) if r < 0 else (mid + 1, hi)
        return V(NULL)

    def text(self, st):
        o = st.fresh_obj('TEXT')
        self.eng.obj_kind[o] = ('lazy',)
        st.x[('null', o)] = False
        return ('p', o, 0)

    # ---------------------------------------------------------- construction
    def new(self):
        """the checker as the compiler creates it"""
        if self.first is None:
            st = State()
            fs = Engine.run(self.eng, self.eng.start('typechecker_create', [self.lazy(st, 'DIAG'), self.cstr(st, 'F.gray')], st))
            if len(fs) != 1 or not is_ptr(fs[0].ret):
                raise AnalysisError("anchor unresolved: typechecker_create (%d results)" % len(fs))
            self.first = fs[0]
        st = self.first.copy()
        st.ev = ()
        self.chk = st.ret
        self.set(st, 'func_depth', 1)
        return st

    def set(self, st, f, v):
        st.wcells(self.chk[1])[self.L['off'][('TypeChecker', f)]] = (self.L['off'].size(('TypeChecker', f)), v)

    def gtype(self, st, name):
        if name in GLOBALS:
            return st, self.eng.global_ptr(st, self.types, GLOBALS[name])
        return CG.gtype(self, st, name)

    # ---------------------------------------------------------- running
    def check(self, st, node, stmt=False):
        """-> final states"""
        self.eng.start(self.stmt_fn if stmt else self.expr_fn, [self.chk, node], st)
        return self.eng.run(st)

    def errors(self, f):
        return [x[1] for x in f.ev if x[0] == 'diag' and x[2] == 'error']

    def warnings(self, f):
        return [x[1] for x in f.ev if x[0] == 'diag' and x[2] == 'warning']

    def type_of(self, f, p):
        """name of a type as the checker holds it"""
        if not is_ptr(p):
            return None
        o = self.L['off']

        def rd(fl, w):
            return self.eng.load_obj(f, self.types, p[1], p[2] + o[('GrayType', fl)], ('ptr',) if w == 64 else ('i', w), w)

        def s(fl):
            v = rd(fl, 64)
            return self.eng.conc(self.eng.get_str(f, v)) if is_ptr(v) else None
        k = rd('kind', 32)
        inv = {v: n for n, v in self.E.items() if n.startswith('TK_')}
        kn = inv.get(k, '?')
        if kn == 'TK_ARRAY':
            return '[%s]' % s('element_type')
        if kn == 'TK_MAP':
            return 'map[%s:%s]' % (s('key_type'), s('value_type'))
        if kn in ('TK_STRUCT', 'TK_ENUM', 'TK_POINTER'):
            return s('name')
        return s('name') if kn in ('TK_INT', 'TK_UINT') else kn[3:].lower()

    def var(self, st, name, typ, mutable):
        """a variable in the current scope, defined by the checker's own scope_define"""
        sc = self.eng.load_obj(st, self.mod, self.chk[1], self.L['off'][('TypeChecker', 'current_scope')], ('ptr',), 64)
        fs = Engine.run(self.eng, self.eng.start('scope_define', [sc, self.cstr(st, name), typ, int(mutable)], st))
        if len(fs) != 1:
            raise AnalysisError("scope_define does not define a variable (%d results)" % len(fs))
        return fs[0]
