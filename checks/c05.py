"""C05 a nil pointer is never followed"""
import os
import vf
import cg
from access import *
from arith import panic_code
from judge import render, Runner
from absint import State, is_ptr
from c04 import ASSIGN, STEP, start

# C types of the scaffolding: S has a field of every shape a path can continue through
EXTRA = """struct GrayStruct_S_;
typedef struct { int64_t q; int32_t h; } GrayStruct_Q;
typedef struct GrayStruct_S_ { int64_t pad; int64_t f; struct GrayStruct_S_ *g; GrayStruct_Q s; int64_t *k; GrayArray arr; GrayMap map; GrayString str; } GrayStruct_S;
"""
OFF = {'f': 8, 'g': 16, 's': 24, 'k': 40, 'arr': 48}


class B:
    """builds pointer paths"""
    def __init__(self, c, st):
        self.c, self.st = c, st
        self.S = c.mktype(st, 'S', 'TK_STRUCT', name='S')
        self.Q = c.mktype(st, 'Q', 'TK_STRUCT', name='Q')
        self.P = c.mktype(st, '^S', 'TK_POINTER', name='^S', elem='S')
        self.PI = c.mktype(st, '^int', 'TK_POINTER', name='^int', elem='int')
        self.PP = c.mktype(st, '^^S', 'TK_POINTER', name='^^S', elem='^S')
        self.AP = c.mktype(st, '[^S]', 'TK_ARRAY', elem='^S')
        self.MP = c.mktype(st, 'map[string:^S]', 'TK_MAP', keyt='string', val='^S')
        self.AI = c.mktype(st, '[int]', 'TK_ARRAY', elem='int')
        self.MI = c.mktype(st, 'map[string:int]', 'TK_MAP', keyt='string', val='int')
        self.PA = c.mktype(st, '^[int]', 'TK_POINTER', name='^[int]', elem='[int]')
        self.PS = c.mktype(st, '^string', 'TK_POINTER', name='^string', elem='string')
        self.n = 0

    def nm(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def mem(self, o, f, t):
        return self.c.node(self.st, self.nm('m'), 'NODE_MEMBER_EXPR', t, member__object=o, member__member=f)

    def deref(self, o, t):
        return self.c.node(self.st, self.nm('d'), 'NODE_POSTFIX_EXPR', t, postfix__left=o, postfix__op='TOK_CARET')

    def idx(self, o, t):
        I = self.c.opaque(self.st, 'I', 'int')
        return self.c.node(self.st, self.nm('i'), 'NODE_INDEX_EXPR', t, index_expr__left=o, index_expr__index=I)

    def key(self, o, t):
        I = self.c.opaque(self.st, 'K', 'string')
        return self.c.node(self.st, self.nm('i'), 'NODE_INDEX_EXPR', t, index_expr__left=o, index_expr__index=I)

    def O(self, kind='NODE_LABEL', t=None):
        return self.c.opaque(self.st, 'O', t or self.P, kinds=kind)


# path name -> (builder, final type, hole C type, the object and offset the path designates)
PATHS = {
    'p^ (int)': (lambda b: b.deref(b.O(t=b.PI), 'int'), 'int64_t *'),
    'p.f': (lambda b: b.mem(b.O(), 'f', 'int'), 'GrayStruct_S *'),
    'p^.f': (lambda b: b.mem(b.deref(b.O(), b.S), 'f', 'int'), 'GrayStruct_S *'),
    'call().f': (lambda b: b.mem(b.O('NODE_CALL_EXPR'), 'f', 'int'), 'GrayStruct_S *'),
    'call()^.f': (lambda b: b.mem(b.deref(b.O('NODE_CALL_EXPR'), b.S), 'f', 'int'), 'GrayStruct_S *'),
    'p.g.f': (lambda b: b.mem(b.mem(b.O(), 'g', b.P), 'f', 'int'), 'GrayStruct_S *'),
    'p.g.g.f': (lambda b: b.mem(b.mem(b.mem(b.O(), 'g', b.P), 'g', b.P), 'f', 'int'), 'GrayStruct_S *'),
    'p.g^.f': (lambda b: b.mem(b.deref(b.mem(b.O(), 'g', b.P), b.S), 'f', 'int'), 'GrayStruct_S *'),
    'p^.g^.f': (lambda b: b.mem(b.deref(b.mem(b.deref(b.O(), b.S), 'g', b.P), b.S), 'f', 'int'), 'GrayStruct_S *'),
    'p^.g.f': (lambda b: b.mem(b.mem(b.deref(b.O(), b.S), 'g', b.P), 'f', 'int'), 'GrayStruct_S *'),
    'p.k^': (lambda b: b.deref(b.mem(b.O(), 'k', b.PI), 'int'), 'GrayStruct_S *'),
    'p.s.q': (lambda b: b.mem(b.mem(b.O(), 's', b.Q), 'q', 'int'), 'GrayStruct_S *'),
    'p^.s.q': (lambda b: b.mem(b.mem(b.deref(b.O(), b.S), 's', b.Q), 'q', 'int'), 'GrayStruct_S *'),
    'p.g.s.q': (lambda b: b.mem(b.mem(b.mem(b.O(), 'g', b.P), 's', b.Q), 'q', 'int'), 'GrayStruct_S *'),
    'p^^.f': (lambda b: b.mem(b.deref(b.deref(b.O(t=b.PP), b.P), b.S), 'f', 'int'), 'GrayStruct_S **'),
    'p^.f (pointer to pointer)': (lambda b: b.mem(b.deref(b.O(t=b.PP), b.P), 'f', 'int'), 'GrayStruct_S **'),
    'a[i].f': (lambda b: b.mem(b.idx(b.c.opaque(b.st, 'A', b.AP, kinds='NODE_LABEL'), b.P), 'f', 'int'), None),
    'a[i]^.f': (lambda b: b.mem(b.deref(b.idx(b.c.opaque(b.st, 'A', b.AP, kinds='NODE_LABEL'), b.P), b.S), 'f', 'int'), None),
    'a[i].g.f': (lambda b: b.mem(b.mem(b.idx(b.c.opaque(b.st, 'A', b.AP, kinds='NODE_LABEL'), b.P), 'g', b.P), 'f', 'int'), None),
    'm[k].f': (lambda b: b.mem(b.key(b.c.opaque(b.st, 'M', b.MP, kinds='NODE_LABEL'), b.P), 'f', 'int'), None),
    'm[k]^.f': (lambda b: b.mem(b.deref(b.key(b.c.opaque(b.st, 'M', b.MP, kinds='NODE_LABEL'), b.P), b.S), 'f', 'int'), None),
    's.g.f': (lambda b: b.mem(b.mem(b.c.opaque(b.st, 'V0', b.S, kinds='NODE_LABEL'), 'g', b.P), 'f', 'int'), None),
    's.g^.f': (lambda b: b.mem(b.deref(b.mem(b.c.opaque(b.st, 'V0', b.S, kinds='NODE_LABEL'), 'g', b.P), b.S), 'f', 'int'), None),
    's.g.g.f': (lambda b: b.mem(b.mem(b.mem(b.c.opaque(b.st, 'V0', b.S, kinds='NODE_LABEL'), 'g', b.P), 'g', b.P), 'f', 'int'), None),
    'p.g (pointer)': (lambda b: b.mem(b.O(), 'g', b.P), 'GrayStruct_S *'),
    'p^ (struct)': (lambda b: b.deref(b.O(), b.S), 'GrayStruct_S *'),
    'p.arr[i]': (lambda b: b.idx(b.mem(b.O(), 'arr', b.c.mktype(b.st, '[int]', 'TK_ARRAY', elem='int')), 'int'), 'GrayStruct_S *'),
    'p^.arr[i]': (lambda b: b.idx(b.mem(b.deref(b.O(), b.S), 'arr', b.c.mktype(b.st, '[int]', 'TK_ARRAY', elem='int')), 'int'), 'GrayStruct_S *'),
    'p.g.arr[i]': (lambda b: b.idx(b.mem(b.mem(b.O(), 'g', b.P), 'arr', b.c.mktype(b.st, '[int]', 'TK_ARRAY', elem='int')), 'int'), 'GrayStruct_S *'),
    'p.map[k]': (lambda b: b.key(b.mem(b.O(), 'map', b.c.mktype(b.st, 'map[string:int]', 'TK_MAP', keyt='string', val='int')), 'int'), 'GrayStruct_S *'),
    'p.str[i]': (lambda b: b.idx(b.mem(b.O(), 'str', 'string'), 'char'), 'GrayStruct_S *'),
    'p.arr (whole)': (lambda b: b.mem(b.O(), 'arr', b.AI), 'GrayStruct_S *'),
    'p.str (whole)': (lambda b: b.mem(b.O(), 'str', 'string'), 'GrayStruct_S *'),
    'p.map (whole)': (lambda b: b.mem(b.O(), 'map', b.MI), 'GrayStruct_S *'),
    'p^.arr (whole)': (lambda b: b.mem(b.deref(b.O(), b.S), 'arr', b.AI), 'GrayStruct_S *'),
    'p^.str (whole)': (lambda b: b.mem(b.deref(b.O(), b.S), 'str', 'string'), 'GrayStruct_S *'),
    'p.g.arr (whole)': (lambda b: b.mem(b.mem(b.O(), 'g', b.P), 'arr', b.AI), 'GrayStruct_S *'),
    'p.g.str (whole)': (lambda b: b.mem(b.mem(b.O(), 'g', b.P), 'str', 'string'), 'GrayStruct_S *'),
    'p.g^.str (whole)': (lambda b: b.mem(b.deref(b.mem(b.O(), 'g', b.P), b.S), 'str', 'string'), 'GrayStruct_S *'),
    'p^ (string)': (lambda b: b.deref(b.O(t=b.PS), 'string'), 'GrayString *'),
    'p^ (array)': (lambda b: b.deref(b.O(t=b.PA), b.AI), 'GrayArray *'),
}
WHOLE = {'arr': ('GrayArray', lambda b: b.AI), 'str': ('GrayString', lambda b: 'string'), 'map': ('GrayMap', lambda b: b.MI)}
RT = {'p.g (pointer)': 'GrayStruct_S *', 'p^ (struct)': 'GrayStruct_S', 'p.str[i]': 'int32_t', 'p^ (string)': 'GrayString', 'p^ (array)': 'GrayArray'}
RT.update({p: {'arr': 'GrayArray', 'str': 'GrayString', 'map': 'GrayMap'}[p[:-8].rsplit('.', 1)[1]] for p in PATHS if p.endswith('(whole)')})




def check():
    ck = vf.Check("C05", "on every path of every emitted pointer access, each load or store through a pointer of the program is preceded by a test of that very pointer, whose nil branch stops the program, and a path on which no pointer is nil is not stopped",
                  "All C templates for reading, assigning, compound-assigning, stepping and taking the address of storage reached through pointer variables, fields, elements and call results (chains up to three pointers) are derived from the code generator, lowered to LLVM IR and interpreted with every pointer of the program possibly nil.")
    c = cg.CG()
    H = Harness('c05')
    H.extra = EXTRA
    jobs = []
    for pn, (mk, hty) in PATHS.items():
        for act in ['read', 'addr', '=', 'append', '+=', '-=', '/=', '++', '--']:
            whole = RT.get(pn) in ('GrayArray', 'GrayString', 'GrayMap')
            if pn in RT and act not in ('read', '=') + (('append',) if RT[pn] == 'GrayArray' else ()):
                continue
            if not whole and act == 'append':
                continue
            if pn == 'p.str[i]' and act != 'read':
                continue
            st = c.new()
            b = B(c, st)
            n = mk(b)
            ty = RT.get(pn, 'int64_t')
            stmt = False
            V = None
            if act == 'read':
                top = n
            elif act == 'addr':
                fnode = c.node(st, 'fn', 'NODE_LABEL', 'NOTYPE', label__value='addr')
                top = c.node(st, 'top', 'NODE_CALL_EXPR', b.PI, call__function=fnode, call__args=c.ptr_array(st, 'args', [n]), call__arg_count=1)
            elif act == 'append':
                V = c.opaque(st, 'V', 'int')
                mod = c.node(st, 'mod', 'NODE_LABEL', 'NOTYPE', label__value='arrays')
                fnode = c.node(st, 'fn', 'NODE_MEMBER_EXPR', 'NOTYPE', member__object=mod, member__member='append')
                call = c.node(st, 'call', 'NODE_CALL_EXPR', 'void', call__function=fnode, call__args=c.ptr_array(st, 'args', [n, V]), call__arg_count=2)
                top = c.node(st, 'top', 'NODE_EXPR_STMT', None, expr_stmt__expr=call)
                stmt = True
            elif act in ASSIGN:
                V = c.opaque(st, 'V', 'int' if pn not in RT else {'GrayArray': b.AI, 'GrayMap': b.MI, 'GrayString': 'string', 'GrayStruct_S *': b.P}.get(RT[pn], b.S))
                top = c.node(st, 'top', 'NODE_ASSIGN_STMT', None, assign__target=n, assign__op=ASSIGN[act], assign__value=V)
                stmt = True
            else:
                top = c.node(st, 'top', 'NODE_POSTFIX_EXPR', 'int', postfix__left=n, postfix__op=STEP[act])
            key = "%s %s" % (act, pn)
            tpls = c.run(st, top, stmt=stmt)
            if not tpls:
                ck.fail(key, c.stmt_fn if stmt else c.expr_fn, "no template is emitted")
            for tpl, f in tpls:
                ck.count('templates')
                hs = {}
                if hty:
                    hn = 'pO_' + hty.replace(' ', '').replace('*', 'P')
                    H.declare(hn, hty, False)
                    hs['N:O'] = (hn, 0, False)
                H.declare('Al_GrayArray', 'GrayArray', True)
                H.declare('Al_GrayMap', 'GrayMap', True)
                H.declare('Sv', 'GrayStruct_S', True)
                H.declare('I', 'int64_t', False)
                H.declare('K', 'GrayString', False)
                vty = 'int64_t' if act == 'append' else ty
                vn = 'V' + vty.replace(' ', '').replace('*', 'P')
                H.declare(vn, vty, False)
                hs.update({'N:A': ('Al_GrayArray', 0, True), 'N:M': ('Al_GrayMap', 0, True), 'N:V0': ('Sv', 0, True), 'N:I': ('I', 0, False),
                           'N:K': ('K', 0, False), 'N:V': (vn, 0, False)})
                try:
                    code = render(tpl, hs).strip()
                except AnalysisError:
                    ck.count('templates for another program shape')
                    continue
                rt = ty + ' *' if act == 'addr' else ty
                body = code if stmt else "*o = %s;" % code if act in ('read', 'addr') else code + ";"
                jobs.append((key, H.add("void @FN@(%s *o){ %s }" % (rt, body)), code, act))
    R = NilRunner(H.build())
    groups = {}
    for j in jobs:
        groups.setdefault(j[0], []).append(j)
    for key, js in groups.items():
        live = [j for j in js if j[1] not in H.bad]
        if not live:
            ck.count('forms that no program can use (the emitted C is rejected)')
            if os.environ.get('C05_SHOW'):
                print('rejected', key, H.bad[js[0][1]])
            continue
        why = None
        for j in live:
            why = R.judge(ck, j)
            if why:
                ck.fail(key, "code generator, %s (%s)" % (c.stmt_fn if j[3] in ASSIGN else c.expr_fn, key), "%s; emitted C: %s" % (why, j[2]))
                break
        if not why:
            ck.ok(key, live[0][2])
    ck.floor('templates', 210)
    ck.floor('paths', 400)
    ck.floor('pointer accesses', 250)
    return ck


class NilRunner:
    def __init__(self, m):
        self.run = Runner(m)
        self.run.call_hook = self.hook
        self.cur = None

    def pointer(self, name):
        """objects the program's own pointers point to: unknown whether nil until tested"""
        if not name.startswith(('OBJ:pO_', 'OBJ:Sv.', 'CELL.')):
            return False
        last = name.rsplit('.', 1)[-1]
        return not last.isdigit() or int(last) < OFF['arr']        # beyond: storage of containers, never nil by itself

    def hook(self, e, st, fr, ins, name, a):
        if name.startswith(('llvm.memcpy', 'llvm.memmove')) or name in ('memcpy', 'memmove'):
            for p in a[:2]:
                if is_ptr(p):
                    self.touch(st, p[1])
            return None
        if name in ('gray_array_get_ptr', 'gray_array_set', 'gray_map_get', 'gray_map_set'):
            arr = a[1] if name == 'gray_map_set' else a[0]
            if is_ptr(arr):
                self.touch(st, arr[1])
            if name == 'gray_array_get_ptr' or name == 'gray_map_get':
                e.obj_kind.setdefault('CELL', ('lazy',))
                st.x[('null', 'CELL')] = False
                if name == 'gray_map_get':
                    s2 = st.copy()
                    s2.emit_ev('missing', None)
                    return ('forks', [(st, ('p', 'CELL', 0)), (s2, 0)])
                return V(('p', 'CELL', 0))
            return V()
        return None

    def touch(self, st, obj):
        if self.pointer(obj):
            k = st.x.get(('null', obj))
            self.n += 1
            if k is not False:
                st.emit_ev('unchecked', None, obj)

    def judge(self, ck, j):
        key, fn, code, act = j
        e = self.run.eng
        self.n = 0

        def mem(st, ptr):
            if is_ptr(ptr):
                self.touch(st, ptr[1])
        nulls = []
        e.on_load = lambda e2, st, fr, ins, ptr, ty: mem(st, ptr)
        e.on_store = lambda e2, st, fr, ins, v, ptr, ty: mem(st, ptr)
        e.on_nullderef = lambda e2, st: nulls.append(st)
        try:
            res = self.run.run(fn, [('p', 'OUT', 0)], start(self))
        finally:
            e.on_load = e.on_store = e.on_nullderef = None
        ck.count('pointer accesses', self.n)
        if nulls:
            return "a nil pointer is followed"
        rets = 0
        for k, f in res:
            ck.count('paths')
            if any(ev[0] == 'unchecked' for ev in f.ev):
                return "memory is reached through a pointer that was not tested"
            nil = [o[1] for o, v in f.x.items() if isinstance(o, tuple) and o[0] == 'null' and v is True and self.pointer(o[1])]
            if k == 'panic':
                pc = panic_code(f)
                if pc == 'P0080' and not nil:
                    return "the program is stopped although no pointer is nil"
                if pc is None:
                    return "the program may stop for no stated reason"
                if pc != 'P0080' and nil:
                    return "a nil pointer is reported as something else (%s)" % pc
                continue
            rets += 1
        if act == 'addr' and any(self.pointer(p[1]) and f.x.get(('null', p[1])) is not False for k, f in res if k == 'ret' for p in out_ptr(f)):
            return "an address is formed through a pointer that was not tested"
        if not rets:
            return "no path succeeds"
        if not self.n and act != 'addr':
            return "the storage is never accessed"
        return None


def out_ptr(f):
    return [v[1] for k, v in f.mem.get('OUT', {}).items() if isinstance(k, int) and is_ptr(v[1])]
