"""Emission analysis: abstract interpretation of the code generator.

An abstract AST construct (operator x operand types, children unknown) is fed to the code
generator's dispatcher; the result is the set of C templates the generator can emit for that
construct, with holes for unknown sub-expressions.  Every program that contains the construct
is an instance of one of those templates.
"""
import re
import irlib
from irlib import AnalysisError
import absint
from absint import Engine, State, V, is_ptr, is_sym, PathEnd, NULL, norm_parts, tstr

class _Off:
    def __init__(self, di):
        self.di = di
        self.c = {}

    def __getitem__(self, k):
        if k not in self.c:
            self.c[k] = self.di.off(*k)
        return self.c[k][0]

    def size(self, k):
        self[k]
        return self.c[k][1]


class _Enum(dict):
    def __missing__(self, k):
        raise AnalysisError("anchor unresolved: enumerator %s" % k)


def layout(mod):
    di = irlib.DI(mod)
    return {'off': _Off(di), 'enum': _Enum(di.enums), 'di': di}


SINKS = {'append_string_to_buffer', 'append_bytes_to_buffer', 'append_format_to_buffer', 'append_char_to_buffer',
         'append_indent_to_buffer'}


class CG:
    def __init__(self, loop_forks=2, max_paths=6000):
        self.mod = irlib.load("codegen/codegen.c")
        self.L = layout(self.mod)
        self.types = irlib.load("typechecker/types.c")
        self.eng = Engine([self.mod, self.types])
        self.eng.loop_forks = loop_forks
        self.eng.max_paths = max_paths
        self.eng.max_steps = 3000000
        self.E = self.L['enum']
        self.hooks()
        self.find_anchors()
        self.n_templates = 0

    # ---------------------------------------------------------- anchors
    def find_anchors(self):
        """the expression / statement dispatchers are found by what they switch on, not by name"""
        E = self.E
        ex = {E['NODE_INFIX_EXPR'], E['NODE_PREFIX_EXPR'], E['NODE_CAST_EXPR'], E['NODE_CALL_EXPR'],
              E['NODE_INDEX_EXPR'], E['NODE_INTERPOLATED_STRING'], E['NODE_LABEL']}
        stt = {E['NODE_ASSIGN_STMT'], E['NODE_RETURN_STMT'], E['NODE_FOR_STMT'], E['NODE_IF_STMT'],
               E['NODE_BREAK_STMT'], E['NODE_VAR_DECL']}
        self.emitters = self.reach_sinks()
        found = {'expr': [], 'stmt': []}
        for fn in self.mod.funcs.values():
            if fn.name not in self.emitters or len(fn.params) != 2:
                continue
            for ins in fn.insts():
                if ins.op == 'switch':
                    ks = {k for k, _ in ins.a[3]}
                    if ex <= ks:
                        found['expr'].append(fn.name)
                    if stt <= ks:
                        found['stmt'].append(fn.name)
        for k in found:
            if len(set(found[k])) != 1:
                raise AnalysisError("anchor unresolved: %s dispatcher of the code generator (candidates %s)" % (k, found[k]))
        self.expr_fn = found['expr'][0]
        self.stmt_fn = found['stmt'][0]

    def reach_sinks(self):
        calls = {}
        for fn in self.mod.funcs.values():
            s = set()
            for ins in fn.insts():
                c = irlib.callee_name(ins)
                if c:
                    s.add(c)
            calls[fn.name] = s
        self.calls = calls
        r = set(SINKS)
        ch = True
        while ch:
            ch = False
            for f, s in calls.items():
                if f not in r and s & r:
                    r.add(f)
                    ch = True
        return r

    # ---------------------------------------------------------- hooks
    def hooks(self):
        e = self.eng
        M = e.models

        def out(st, buf, parts):
            k = (buf[1], buf[2]) if is_ptr(buf) else 'unk'
            st.out[k] = norm_parts(st.out.get(k, ()) + tuple(parts))

        def app_str(en, st, fr, ins, a):
            out(st, a[0], en.get_str(st, a[1]) or (('S', tstr(a[1])),) if is_ptr(a[1]) and en.get_str(st, a[1]) != () else ())
            return V()
        M['append_string_to_buffer'] = app_str

        def app_bytes(en, st, fr, ins, a):
            p = en.get_str(st, a[1])
            c = en.conc(p) if p is not None else None
            if c is not None and isinstance(a[2], int):
                p = (c[:a[2]],)
            elif isinstance(a[2], tuple) and a[2] not in st.x and ('lenof', a[2]) not in st.x and c is not None and False:
                pass
            out(st, a[0], p if p is not None else (('S', tstr(a[1])),))
            return V()
        M['append_bytes_to_buffer'] = app_bytes

        def app_fmt(en, st, fr, ins, a):
            f = en.conc(en.get_str(st, a[1]))
            out(st, a[0], absint.format_parts(en, st, f, a[2:]) if f is not None else (('S', 'fmt'),))
            return V()
        M['append_format_to_buffer'] = app_fmt

        vsn = M['vsnprintf']

        def vsnprintf(en, st, fr, ins, a):
            # text formatted straight into the output buffer
            o = self.L['off']
            base = o[('CodeGen', 'output')]
            if is_ptr(a[0]) and 'CG' in st.mem:
                d = en.load_obj(st, self.mod, 'CG', base + o[('Buf', 'data')], ('ptr',), 64)
                if is_ptr(d) and d[1] == a[0][1]:
                    va = st.mem.get(a[3][1], {}).get('#va') if is_ptr(a[3]) else None
                    f = en.conc(en.get_str(st, a[2]))
                    parts = absint.format_parts(en, st, f, list(va[1])) if f is not None and va and va[1] is not None else (('S', 'vfmt'),)
                    out(st, ('p', 'CG', base), parts)
                    return V(en.fresh_ret(st, fr.fn.mod, ins.ty, 'written') if ins.res else None)
            return vsn(en, st, fr, ins, a)
        M['vsnprintf'] = vsnprintf

        def app_chr(en, st, fr, ins, a):
            out(st, a[0], (chr(a[1] & 255),) if isinstance(a[1], int) else (('C', a[1]),))
            return V()
        M['append_char_to_buffer'] = app_chr

        def app_ind(en, st, fr, ins, a):
            out(st, a[0], ("    ",))
            return V()
        M['append_indent_to_buffer'] = app_ind

        def buf_len(en, st, fr, ins, a):
            return None

        def tt_get(en, st, fr, ins, a):
            n = a[1]
            if not is_ptr(n):
                return V(NULL)
            k = ('type', n[1])
            if k in st.x:
                return V(st.x[k])
            o = "T(%s)" % n[1]
            en.obj_kind.setdefault(o, ('lazy',))
            p = ('p', o, 0)
            st.x[k] = p
            return V(p)
        M['typetable_get'] = tt_get

        def bsearch(en, st, fr, ins, a):
            key, base, n, sz, cmpf = a
            if isinstance(n, int) and isinstance(sz, int) and is_ptr(base) and isinstance(cmpf, tuple) and cmpf[0] == 'fn':
                lo, hi = 0, n
                while lo < hi:
                    mid = (lo + hi) // 2
                    el = ('p', base[1], base[2] + mid * sz)
                    r = en.subcall(st, cmpf[1], [key, el], fr.fn.mod)
                    if r is None:
                        break
                    r = absint.sgn(r, 32)
                    if r == 0:
                        return V(el)
                    if r < 0:
                        hi = mid
                    else:
                        lo = mid + 1
                else:
                    return V(NULL)
                # abstract identifier: names in programs are kept apart from table entries
                if en.obj_kind.get(base[1], ('',))[0] == 'global':
                    return V(NULL)
            outl = []
            for s, t in en.fork_key(st, ('bsearch', tstr(key), tstr(base))):
                if t:
                    o = s.fresh_obj('hit')
                    en.obj_kind[o] = ('lazy',)
                    s.x[('null', o)] = False
                    outl.append((s, ('p', o, 0)))
                else:
                    outl.append((s, NULL))
            return ('forks', outl)
        M['bsearch'] = bsearch

        def qsort(en, st, fr, ins, a):
            return V()
        M['qsort'] = qsort
        e.on_call = self.on_call

    INTS = ('int', 'i8', 'i16', 'i32', 'i64', 'uint', 'u8', 'u16', 'u32', 'u64', 'byte', 'char',
            'i128', 'u128', 'i256', 'u256')
    BIG = ('i128', 'u128', 'i256', 'u256')

    def on_call(self, e, st, fr, ins, name, a):
        if name == 'resolve_bigint_type' and len(a) == 2 and is_ptr(a[1]):
            tn = st.x.get(('tname', a[1][1]))
            if tn is not None and ('cfg', a[1][1]) not in st.x:
                if tn in self.BIG:
                    return V(self.cstr(st, tn))
                return V(NULL)
        if name == 'lookup_bigint_variable' and len(a) == 2 and is_ptr(a[1]):
            # variables of a wide type are registered with their type
            node = a[1][1].rsplit('.', 1)[0]
            tn = st.x.get(('tname', node))
            if tn is not None:
                return V(self.cstr(st, tn)) if tn in self.BIG else V(NULL)
        if name in (self.expr_fn, self.stmt_fn) and len(a) == 2:
            n = a[1]
            if is_ptr(n) and ('cfg', n[1]) in st.x:
                return None
            if n == NULL:
                return None
            kind = 'E' if name == self.expr_fn else 'B'
            self.emit_hole(st, a[0], (kind, n[1] if is_ptr(n) else tstr(n)))
            return V()
        fn = self.mod.funcs.get(name)
        if fn is not None and name in self.emitters and fr is not None:
            # recursion into unknown nodes: a hole
            for (ty, nm, _), v in zip(fn.params, a):
                if ty == ('ptr',) and is_ptr(v) and st.x.get(('unk', v[1])):
                    depth = sum(1 for f in st.frames if f.fn.name == name)
                    if depth >= 1 and name not in SINKS:
                        self.emit_hole(st, a[0], ('X', name, v[1]))
                        return V(e.fresh_ret(st, fr.fn.mod, ins.ty, name) if ins.res else None)
        if fn is not None and name not in self.emitters:
            depth = sum(1 for f in st.frames if f.fn.name == name)
            if depth >= 2:
                conc = [v for v in a if is_ptr(v) and e.conc(e.get_str(st, v)) is not None]
                if not conc and ins.res is not None:
                    return V(e.fresh_ret(st, fr.fn.mod, ins.ty, name))
        return None

    def emit_hole(self, st, cgp, hole):
        k = (cgp[1], cgp[2] + self.L['off'][('CodeGen', 'output')])
        st.out[k] = norm_parts(st.out.get(k, ()) + (hole,))

    # ---------------------------------------------------------- construction
    def new(self):
        st = State()
        e = self.eng
        e.obj_kind['CG'] = ('alloca',)
        st.mem['CG'] = {}
        st.own.add('CG')
        o = self.L['off']

        def setf(f, sz, v):
            st.wcells('CG')[o[('CodeGen', f)]] = (sz, v)
        # registries of names start empty (a world adds what it needs)
        di = self.L['di']
        for f, (off, sz, k) in di.members(di.root('CodeGen')).items():
            if f == 'indent' or f.endswith('_count') and f not in ('c_header_count', 'ns_func_name_count'):
                setf(f, 4, 0)
        for f in ('wildcard_binding', 'pending_call_typed_sig', 'all_funcs', 'funcs_by_name', 'struct_decls'):
            setf(f, 8, NULL)
        for f in ('in_const_decl', 'funcs_by_name_built', 'func_field_index_built', 'has_c_imports'):
            setf(f, 1, 0)
        setf('current_var_name', 8, NULL)
        setf('current_var_type', 8, NULL)
        setf('file', 8, self.cstr(st, 'F.gray'))
        st.x[('null', 'CG.%d' % o[('CodeGen', 'type_table')])] = False
        self.e = e
        return st

    def setcg(self, st, f, sz, v):
        st.wcells('CG')[self.L['off'][('CodeGen', f)]] = (sz, v)

    def cstr(self, st, s):
        o = "C:" + s
        self.eng.obj_kind[o] = ('heap', None)
        if o not in st.mem:
            st.mem[o] = {'#str': (0, (s,) if s else ())}
        return ('p', o, 0)

    def abs_str(self, st, name):
        o = "STR:" + name
        self.eng.obj_kind.setdefault(o, ('lazy',))
        st.x[('null', o)] = False
        return ('p', o, 0)

    def gtype(self, st, name):
        """GrayType* for a Grayscale type name, through the compiler's own resolver"""
        k = 'TYPEOBJ:' + name
        if k in st.mem:
            return st, ('p', k, 0)
        sub = State()
        sub.ctr = 100000
        arg = self.cstr(sub, name)
        fs = Engine.run(self.eng, self.eng.start('type_from_name', [arg], sub))
        rs = [f for f in fs if is_ptr(f.ret)]
        if len(rs) != 1:
            raise AnalysisError("type_from_name(\"%s\") does not resolve to one type (%d)" % (name, len(rs)))
        f = rs[0]
        self.eng.obj_kind[k] = ('heap', None)
        st.mem[k] = {}
        st.own.add(k)
        o = self.L['off']
        cells = st.mem[k]
        kind = self.eng.load_obj(f, self.types, f.ret[1], f.ret[2] + o[('GrayType', 'kind')], ('i', 32), 32)
        cells[o[('GrayType', 'kind')]] = (4, kind)
        for fl in ('name', 'element_type', 'key_type', 'value_type'):
            p = self.eng.load_obj(f, self.types, f.ret[1], f.ret[2] + o[('GrayType', fl)], ('ptr',), 64)
            s = self.eng.conc(self.eng.get_str(f, p)) if is_ptr(p) else None
            cells[o[('GrayType', fl)]] = (8, self.cstr(st, s) if s is not None else NULL)
        cells[o[('GrayType', 'func_sig')]] = (8, NULL)
        return st, ('p', k, 0)

    def type_kind(self, st, name):
        _, p = self.gtype(st, name)
        return st.mem[p[1]][self.L['off'][('GrayType', 'kind')]][1]

    def mktype(self, st, key, kind, name=None, elem=None, keyt=None, val=None):
        k = 'TYPEOBJ:' + key
        self.eng.obj_kind[k] = ('heap', None)
        o = self.L['off']
        st.mem[k] = {o[('GrayType', 'kind')]: (4, self.E[kind])}
        st.own.add(k)
        for fl, v in (('name', name), ('element_type', elem), ('key_type', keyt), ('value_type', val)):
            st.mem[k][o[('GrayType', fl)]] = (8, self.cstr(st, v) if v is not None else NULL)
        st.mem[k][o[('GrayType', 'func_sig')]] = (8, NULL)
        return ('p', k, 0)

    def opaque(self, st, name, typ=None, kinds=None):
        """unknown expression node; type known if given"""
        o = "N:" + name
        self.eng.obj_kind[o] = ('lazy',)
        st.x[('null', o)] = False
        st.x[('unk', o)] = True
        self.settype(st, o, typ)
        if kinds is not None:
            ko = self.L['off'][('AstNode', 'kind')]
            if isinstance(kinds, str):
                st.wcells(o)[ko] = (4, self.E[kinds])
            else:
                allk = [v for k, v in self.E.items() if k.startswith('NODE_')]
                s = ('s', o + ".kind", 32)
                st.wcells(o)[ko] = (4, s)
                for v in allk:
                    if v not in [self.E[k] for k in kinds]:
                        self.eng._ref_rng(st, s, 'ne', v, 32)
        else:
            # an expression
            lim = self.E['NODE_WHEN_PATTERN']
            s = ('s', o + ".kind", 32)
            st.wcells(o)[self.L['off'][('AstNode', 'kind')]] = (4, s)
            ne = [self.E[k] for k in ('NODE_RANGE_EXPR', 'NODE_BLANK_IDENT')]
            tn = st.x.get(('tname', o))
            if tn in self.INTS:
                ne += [self.E[k] for k in ('NODE_FLOAT_VALUE', 'NODE_STRING_VALUE', 'NODE_INTERPOLATED_STRING',
                                           'NODE_BOOL_VALUE', 'NODE_NIL_VALUE', 'NODE_ARRAY_VALUE', 'NODE_MAP_VALUE',
                                           'NODE_STRUCT_VALUE', 'NODE_NEW_EXPR', 'NODE_FUNC_REF',
                                           'NODE_IMPLICIT_ENUM')]
                if tn not in ('char',):
                    ne.append(self.E['NODE_CHAR_VALUE'])
            st.cons[s] = (0, lim - 1, 0, lim - 1, frozenset(ne))
        return ('p', o, 0)

    def settype(self, st, o, typ):
        if typ is None:
            return
        if typ == 'NOTYPE':
            st.x[('type', o)] = NULL
            return
        if isinstance(typ, tuple):
            st.x[('type', o)] = typ
            return
        _, p = self.gtype(st, typ)
        st.x[('type', o)] = p
        st.x[('tname', o)] = typ

    def node(self, st, name, kind, typ=None, **f):
        o = "N:" + name
        self.eng.obj_kind[o] = ('heap', None)
        st.mem[o] = {}
        st.own.add(o)
        c = st.mem[o]
        c[self.L['off'][('AstNode', 'kind')]] = (4, self.E[kind])
        c[self.L['off'][('AstNode', 'token.line')]] = (4, 77)
        c[self.L['off'][('AstNode', 'token.file')]] = (8, NULL)
        for k, v in f.items():
            k = k.replace('__', '.')
            off = self.L['off'][('AstNode', 'data.' + k)]
            if isinstance(v, str):
                if v in self.E:
                    c[off] = (4, self.E[v])
                else:
                    c[off] = (8, self.cstr(st, v))
            elif isinstance(v, bool):
                c[off] = (1, int(v))
            elif isinstance(v, int):
                sz = self.L['off'].size(('AstNode', 'data.' + k))
                c[off] = (sz, v & (2 ** (8 * sz) - 1))
            elif v is None:
                c[off] = (8, NULL)
            else:
                c[off] = (8, v)
        st.x[('cfg', o)] = True
        self.settype(st, o, typ)
        return ('p', o, 0)

    def ptr_array(self, st, name, ptrs):
        o = "PA:" + name
        self.eng.obj_kind[o] = ('heap', None)
        st.mem[o] = {8 * i: (8, p) for i, p in enumerate(ptrs)}
        st.own.add(o)
        return ('p', o, 0)

    # ---------------------------------------------------------- running
    def run(self, st, node, stmt=False):
        """-> list of (template parts, final state)"""
        fn = self.stmt_fn if stmt else self.expr_fn
        self.eng.start(fn, [('p', 'CG', 0), node], st)
        fs = self.eng.run(st)
        k = ('CG', self.L['off'][('CodeGen', 'output')])
        res = []
        seen = set()
        self.alts = {}
        for f in fs:
            t = f.out.get(k, ())
            sig = repr(t)
            if sig in seen:
                self.alts[sig].append(f)
                continue
            seen.add(sig)
            self.alts[sig] = [f]
            res.append((t, f))
        self.n_templates += len(res)
        return res


def show(parts):
    out = []
    for p in parts:
        out.append(p if isinstance(p, str) else "⟨%s⟩" % ":".join(tstr(x) if not isinstance(x, str) else x for x in p[:3]))
    return "".join(out)
