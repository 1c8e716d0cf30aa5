"""Element access: abstract AST for every way of naming an element, C scaffolding, and the contracts of the accessors.

The accessors the emitted C calls (array element pointer, array element store, map lookup, map store) are replaced by
contracts that record their arguments; the contracts themselves are proved against the runtime's code by C04."""
import absint
import cg
from absint import V, is_ptr, State
from judge import Harness, Runner, CTYPE, WIDTH, SIGNED
from irlib import AnalysisError

FORMS = ['label', 'elem', 'call', 'member', 'pmember', 'dmember']
KINDS = {'label': 'NODE_LABEL', 'elem': 'NODE_INDEX_EXPR', 'call': 'NODE_CALL_EXPR'}
HDR = {'TK_ARRAY': 'GrayArray', 'TK_MAP': 'GrayMap', 'TK_STRING': 'GrayString'}
ELEMS = ['int', 'i64', 'i32', 'i16', 'i8', 'uint', 'u64', 'u32', 'u16', 'u8', 'byte', 'char', 'bool', 'float', 'f64', 'f32',
         'string', 'i128', 'u128', 'i256', 'u256', '[int]', 'map[string:int]', 'S', '^S']
CT = dict(CTYPE)
CT.update({'[int]': 'GrayArray', 'map[string:int]': 'GrayMap', 'S': 'GrayStruct_S', '^S': 'GrayStruct_S *'})


def container(c, st, form, key, kind, **kw):
    """node of the container, named A (label, element of another container, call result, field, field through a pointer)"""
    T = c.mktype(st, key, kind, name=None if kind != 'TK_STRING' else 'string', **kw)
    if form in KINDS:
        return c.opaque(st, 'A', T, kinds=KINDS[form])
    S = c.mktype(st, 'S', 'TK_STRUCT', name='S')
    P = c.mktype(st, '^S', 'TK_POINTER', name='^S', elem='S')
    if form == 'member':
        O = c.opaque(st, 'O', S, kinds='NODE_LABEL')
    elif form == 'pmember':
        O = c.opaque(st, 'O', P)
    else:
        O = c.node(st, 'D', 'NODE_POSTFIX_EXPR', S, postfix__left=c.opaque(st, 'O', P), postfix__op='TOK_CARET')
    return c.node(st, 'M', 'NODE_MEMBER_EXPR', T, member__object=O, member__member='f')


def holes_for(H, form, kind, lvalue):
    """declare the container's hole -> {node: hole}"""
    h = HDR[kind]
    if form in KINDS:
        nm = 'A%s_%s' % ('l' if lvalue else 'r', h)
        H.declare(nm, h, lvalue)
        return {'N:A': (nm, 0, lvalue)}
    s = 'GrayStruct_F' + h
    if s not in H.extra:
        H.extra += "typedef struct { int64_t pad; %s f; } %s;\n" % (h, s)
    if form == 'member':
        H.declare('O_' + h, s, True)
        return {'N:O': ('O_' + h, 0, True)}
    H.declare('pO_' + h, s + ' *', False)
    return {'N:O': ('pO_' + h, 0, False)}


STRUCT = "typedef struct { int64_t a; int32_t b; } GrayStruct_S;\n"


class AccessRunner:
    def __init__(self, m, **kw):
        self.run = Runner(m, **kw)
        self.run.call_hook = self.hook
        self.n = 0

    def hook(self, e, st, fr, ins, name, a):
        if name.startswith('H_pO_'):
            st.emit_ev('eval', ins, name[2:])
            st.x[('null', 'OBJ:' + name[2:])] = False
            e.obj_kind.setdefault('OBJ:' + name[2:], ('lazy',))
            s2 = st.copy()
            st.emit_ev('nonnil', ins)
            s2.emit_ev('nil', ins)
            return ('forks', [(st, ('p', 'OBJ:' + name[2:], 0)), (s2, 0)])
        if name.startswith('H_Ar_') and a and is_ptr(a[0]):         # returned through memory
            st.emit_ev('eval', ins, name[2:])
            o = name[2:] + '.0'
            e.obj_kind.setdefault(o, ('lazy',))
            st.wcells(a[0][1])[a[0][2]] = (8, ('p', o, 0))
            return V()
        if name == 'gray_array_get_ptr':
            st.emit_ev('acc', 'get', ins, a[0], a[1], None, len(st.ev))
            return self.stop(st, V(('p', self.cell(e, st, a[0]), 0)))
        if name == 'gray_array_set':
            st.emit_ev('acc', 'set', ins, a[0], a[1], self.content(st, a[2]))
            return self.stop(st, V())
        if name == 'gray_map_get':
            st.emit_ev('acc', 'mget', ins, a[0], self.content(st, a[1]), None)
            s2 = st.copy()
            st.emit_ev('found', ins)
            s2.emit_ev('missing', ins)
            return ('forks', [(st, ('p', self.cell(e, st, a[0]), 0)), (s2, 0)])
        if name == 'gray_map_set':
            st.emit_ev('acc', 'mset', ins, a[1], self.content(st, a[2]), self.content(st, a[3]))
            return V()
        return None

    def cell(self, e, st, arr):
        o = 'CELL'
        e.obj_kind.setdefault(o, ('lazy',))
        st.x[('null', o)] = False
        return o

    def content(self, st, p):
        """what the pointer handed to an accessor points at: ((offset, size, value)..)"""
        if not is_ptr(p):
            return None
        c = st.mem.get(p[1], {})
        return tuple(sorted(((k, v[0], v[1]) for k, v in c.items() if isinstance(k, int)), key=lambda x: x[0]))

    def stop(self, st, v):
        s2 = st.copy()
        s2.emit_ev('oob', None)
        s2.emit_ev('panic', None, 'P0033')
        s2.ret = None
        self.run.ends.append(s2)
        return v
