"""Assignment targets: abstract AST for every target form, and the C scaffolding that observes it.

For each form the harness declares the storage the target designates, runs the emitted statement
and hands the final content of that storage to the judge.  Calls of the bounds-checked element
accessors and of the map accessors are replaced by their contracts (checked elsewhere: C04, R02):
they stop the program or designate the element cell.
"""
import absint
from absint import V, is_ptr, State, PathEnd
from arith import *
from judge import Harness, Runner

FORMS = ['label', 'refparam', 'index', 'map', 'member', 'pmember', 'deref', 'dmember']
CELL = 'ELEM'


def build(c, st, form, t):
    """target node of Grayscale type t"""
    if form == 'label':
        return c.node(st, 'T', 'NODE_LABEL', t, label__value='x')
    if form == 'refparam':
        return c.node(st, 'T', 'NODE_LABEL', t, label__value='x')
    if form == 'index':
        A = c.opaque(st, 'A', c.mktype(st, '[%s]' % t, 'TK_ARRAY', name=None, elem=t), kinds='NODE_LABEL')
        I = c.opaque(st, 'I', 'int')
        return c.node(st, 'T', 'NODE_INDEX_EXPR', t, index_expr__left=A, index_expr__index=I)
    if form == 'map':
        A = c.opaque(st, 'A', c.mktype(st, 'map[string:%s]' % t, 'TK_MAP', keyt='string', val=t), kinds='NODE_LABEL')
        I = c.opaque(st, 'I', 'string')
        return c.node(st, 'T', 'NODE_INDEX_EXPR', t, index_expr__left=A, index_expr__index=I)
    if form == 'member':
        O = c.opaque(st, 'O', c.mktype(st, 'S', 'TK_STRUCT', name='S'), kinds='NODE_LABEL')
        return c.node(st, 'T', 'NODE_MEMBER_EXPR', t, member__object=O, member__member='f')
    if form == 'pmember':
        O = c.opaque(st, 'O', c.mktype(st, '^S', 'TK_POINTER', name='^S', elem='S'), kinds='NODE_LABEL')
        return c.node(st, 'T', 'NODE_MEMBER_EXPR', t, member__object=O, member__member='f')
    if form == 'deref':
        O = c.opaque(st, 'O', c.mktype(st, '^' + t, 'TK_POINTER', name='^' + t, elem=t), kinds='NODE_LABEL')
        return c.node(st, 'T', 'NODE_POSTFIX_EXPR', t, postfix__left=O, postfix__op='TOK_CARET')
    if form == 'dmember':
        O = c.opaque(st, 'O', c.mktype(st, '^S', 'TK_POINTER', name='^S', elem='S'), kinds='NODE_LABEL')
        D = c.node(st, 'D', 'NODE_POSTFIX_EXPR', c.mktype(st, 'S', 'TK_STRUCT', name='S'), postfix__left=O, postfix__op='TOK_CARET')
        return c.node(st, 'T', 'NODE_MEMBER_EXPR', t, member__object=D, member__member='f')
    raise ValueError(form)


def is_ref(tpl):
    return '(*x)' in cg.show(tpl)


def scaffold(H, form, t, ref):
    """-> (prelude C, postlude C, {node: (hole, ctype, lvalue)})"""
    CT = CTYPE[t]
    s = "S_%s" % t
    if s not in H.extra:
        H.extra += "typedef struct { int64_t pad; %s f; } %s;\n" % (CT, s)
    if form in ('label', 'refparam'):
        h = 'cur_' + t
        H.declare(h, CT, True)
        if ref:
            return "%s *x = H_%s();" % (CT, h), "", {}
        # the variable is the cell itself
        return "%s x = *H_%s();" % (CT, h), "*H_%s() = x;" % h, {}
    if form == 'index':
        H.declare('A', 'GrayArray', True)
        H.declare('I_int', 'int64_t', False)
        return "", "", {'N:A': ('A', 0, True), 'N:I': ('I_int', 0, False)}
    if form == 'map':
        H.declare('M', 'GrayMap', True)
        H.declare('K', 'GrayString', False)
        return "", "", {'N:A': ('M', 0, True), 'N:I': ('K', 0, False)}
    if form == 'member':
        H.declare('O_' + t, s, True)
        return "", "", {'N:O': ('O_' + t, 0, True)}
    if form in ('pmember', 'dmember'):
        H.declare('pO_' + t, s + " *", False)
        return "", "", {'N:O': ('pO_' + t, 0, False)}
    if form == 'deref':
        H.declare('pD_' + t, CT + " *", False)
        return "", "", {'N:O': ('pD_' + t, 0, False)}


class TargetRunner:
    """runs a harness function with the element/map accessors replaced by their contracts"""

    def __init__(self, m, **kw):
        self.run = Runner(m, **kw)
        self.run.call_hook = self.hook
        self.t = None

    def cell(self, st):
        """the storage cell of the target, pre-loaded with the leaf `cur`"""
        return ('p', CELL, 0)

    def hook(self, e, st, fr, ins, name, a):
        if name.startswith('H_cur_') or name.startswith('H_pD_'):
            st.emit_ev('eval', ins, name[2:])
            if name.startswith('H_pD_'):
                return self.nullable(e, st)
            return V(('p', CELL, 0))
        if name.startswith('H_pO_'):
            st.emit_ev('eval', ins, name[2:])
            return self.nullable(e, st, -8)
        if name.startswith('H_O_'):
            st.emit_ev('eval', ins, name[2:])
            return V(('p', CELL, -8))
        if name == 'gray_array_get_ptr':
            st.emit_ev('get_ptr', ins, a[0], a[1])
            return self.may_panic(e, st, V(('p', CELL, 0)), 'P0033')
        if name == 'gray_array_set':
            st.emit_ev('set', ins, a[0], a[1])
            return self.may_panic(e, st, None, 'P0033', lambda s: self.copy(e, s, a[2]))
        if name == 'gray_map_get':
            st.emit_ev('map_get', ins, a[0], a[1])
            outl = [(st, ('p', CELL, 0))]
            s2 = st.copy()
            outl.append((s2, 0))
            return ('forks', outl)
        if name == 'gray_map_set':
            st.emit_ev('map_set', ins, a[1], a[2])
            self.copy(e, st, a[3])
            return V()
        return None

    def copy(self, e, st, src):
        c = st.mem.get(src[1], {}).get(src[2])
        if c is None:
            raise AnalysisError("the value handed to an element store is not initialised")
        st.wcells(CELL)[0] = c

    def nullable(self, e, st, off=0):
        s2 = st.copy()
        return ('forks', [(st, ('p', CELL, off)), (s2, 0)])

    def may_panic(self, e, st, v, code, act=None):
        s2 = st.copy()
        s2.emit_ev('panic', None, code)
        s2.ret = None
        self.run.ends.append(s2)
        if act:
            act(st)
        return v if v is not None else V()

    def go(self, fn, t, holes):
        """-> [(kind, state)]; state.ret is the final content (128-bit signed reading) of the cell"""
        st = State()
        constrain(st, [h for h in holes if h[1] in WIDTH])
        e = self.run.eng
        e.obj_kind[CELL] = ('lazy',)
        st.x[('null', CELL)] = False
        lo, hi = trange(t) if t in WIDTH else (1, 0)
        for w in (8, 16, 32, 64) if t in WIDTH else ():
            if lo >= 0:
                if hi < 1 << w:
                    st.cons[('s', CELL + '.0', w)] = (max(lo, 0) if hi < 1 << (w - 1) else -(1 << (w - 1)), hi if hi < 1 << (w - 1) else (1 << (w - 1)) - 1, lo, hi, frozenset())
            elif lo >= -(1 << (w - 1)):
                st.cons[('s', CELL + '.0', w)] = (lo, hi, 0, (1 << w) - 1, frozenset())
        res = self.run.run(fn, [], st)
        for k, f in res:
            if k == 'ret':
                c = f.mem.get(CELL, {}).get(0)
                if c is None:
                    f.ret = None
                else:
                    f.ret = c[1]
                    f.x['cellw'] = c[0] * 8
        return res


def words(vals, nm):
    return [v if v is not None else ('s', '%s.w%d' % (nm, i), 64) for i, v in enumerate(vals)]


def _go_words(self, fn, t, lv, rv):
    """run with the multi-word operands fixed: holes L_/cell = lv (None: unknown), R_/V_ = rv"""
    n = 2 if t.endswith('128') else 4
    lw = words(lv or [None] * n, 'l')
    rw = words(rv, 'r')

    def agg(ws):
        return ('a',) + tuple(ws) if n == 2 else ('a', ('a',) + tuple(ws))
    old = self.run.call_hook

    def hook(e, st, fr, ins, name, a):
        if name.startswith(('H_L_', 'H_R_', 'H_V_')):
            ws = lw if name[2] == 'L' else rw
            rt = fr.fn.mod.resolve(ins.ty)
            if rt[0] == 'struct':
                return V(agg(ws))
            # returned through memory
            st2 = st.wcells(a[0][1])
            for i, x in enumerate(ws):
                st2[a[0][2] + 8 * i] = (8, x)
            return V()
        return old(e, st, fr, ins, name, a)
    self.run.call_hook = hook
    try:
        st = State()
        e = self.run.eng
        e.obj_kind[CELL] = ('lazy',)
        e.obj_kind['OUT'] = ('alloca',)
        st.mem['OUT'] = {}
        st.own.add('OUT')
        st.x[('null', CELL)] = False
        st.mem[CELL] = {8 * i: (8, x) for i, x in enumerate(lw)}
        st.own.add(CELL)
        f = self.run.mod.funcs[fn]
        return self.run.run(fn, [('p', 'OUT', 0)] if f.params else [], st)
    finally:
        self.run.call_hook = old


TargetRunner.go_words = _go_words


def leaves_for(f, t, extra):
    """leaf table including the target's previous content"""
    d = dict(extra)
    d[CELL + '.0'] = (f.x.get('cellw', WIDTH[t]), t in SIGNED)
    return d


def compound_jobs(ck, c, H, ops, types, vts, forms=FORMS):
    """every template of every compound assignment -> [(key, fn, op token, t, vt, hole, C, form)]"""
    jobs = []
    for tok, sym in ops.items():
        for form in forms:
            for t in types:
                for vt in vts(t):
                    st = c.new()
                    V = c.opaque(st, 'V', vt)
                    T = build(c, st, form, t)
                    top = c.node(st, 'top', 'NODE_ASSIGN_STMT', None, assign__target=T, assign__op=tok, assign__value=V)
                    key = "%s %s %s %s" % (form, t, sym, vt)
                    n = 0
                    for tpl, f in c.run(st, top, stmt=True):
                        ref = is_ref(tpl)
                        if form in ('label', 'refparam') and ref != (form == 'refparam'):
                            continue
                        n += 1
                        ck.count('templates')
                        pre, post, holes = scaffold(H, form, t, ref)
                        hv = literal_hole(c, tpl, 'N:V', vt, 'V') if vt in WIDTH else 'V_' + vt
                        H.declare(hv, CTYPE[vt], False)
                        holes = dict(holes)
                        holes['N:V'] = (hv, 0, 0)
                        code = render(tpl, holes).strip()
                        fn = H.add("void @FN@(void){ %s %s %s }" % (pre, code, post))
                        jobs.append((key, fn, tok, t, vt, hv, code, form))
                    if not n:
                        ck.fail(key, c.stmt_fn, "no template is emitted")
    return jobs


def where_target(c, form):
    return "code generator, statement dispatcher %s (assignment, %s target)" % (c.stmt_fn, form)


ALLOWED = {'map': ('P0081',), 'index': ('P0033',), 'pmember': ('P0080',), 'dmember': ('P0080',), 'deref': ('P0080',)}
