"""C04 indexing and map lookup reach exactly the selected element or stop the program"""
import vf
import cg
import worlds
from access import *
from arith import leaf, panic_code
from judge import render, Meaning
from absint import State, is_ptr, is_sym

ASSIGN = {'=': 'TOK_ASSIGN', '+=': 'TOK_PLUS_ASSIGN', '-=': 'TOK_MINUS_ASSIGN', '*=': 'TOK_ASTERISK_ASSIGN',
          '/=': 'TOK_SLASH_ASSIGN', '%=': 'TOK_PERCENT_ASSIGN'}
SIZES = {t: {'i128': 16, 'u128': 16, 'i256': 32, 'u256': 32, 'string': 16, '[int]': 24, 'map[string:int]': 56, 'S': 16, '^S': 8, 'float': 8, 'f64': 8, 'f32': 4, 'bool': 1}.get(t, (WIDTH.get(t, 0) // 8)) for t in ELEMS}
STEP = {'++': 'TOK_INCREMENT', '--': 'TOK_DECREMENT'}
IDX = ['int', 'i64', 'i32', 'i16', 'i8', 'uint', 'u64', 'u32', 'u16', 'u8', 'byte']
NUM = [t for t in ELEMS if t in WIDTH and t not in ('bool', 'char') or t in ('float', 'f64', 'f32', 'i128', 'u128', 'i256', 'u256')]


def check():
    ck = vf.Check("C04", "in every emitted element access the container and the index (or key) handed to the bounds-checked accessor are exactly the program's, nothing else touches the element storage, and an absent element stops the program; the accessors compare the whole index with both bounds before forming the address",
                  "All C templates for reading, assigning, compound-assigning and stepping an element of an array, map or string, named by a variable, an element, a call or a field (direct or through a pointer), are derived from the code generator, lowered to LLVM IR and interpreted with the runtime's accessors replaced by their contracts; the contracts are proved on the runtime's IR.")
    c = cg.CG()
    arrays(ck, c)
    maps(ck, c)
    strings(ck, c)
    contracts(ck)
    ck.floor('templates', 600)
    ck.floor('access paths', 1500)
    ck.floor('contract paths', 6)
    return ck


def top_node(c, st, act, n, t, vt):
    if act == 'read':
        return n, False, None
    if act in ASSIGN:
        V = c.opaque(st, 'V', vt if isinstance(vt, tuple) else vt)
        return c.node(st, 'top', 'NODE_ASSIGN_STMT', None, assign__target=n, assign__op=ASSIGN[act], assign__value=V), True, V
    return c.node(st, 'top', 'NODE_POSTFIX_EXPR', t, postfix__left=n, postfix__op=STEP[act]), False, None


def jobs_for(ck, c, H, kind, key, kw, et, it, form, act, jobs):
    st = c.new()
    A = container(c, st, form, key, kind, **kw)
    I = c.opaque(st, 'I', it)
    etype = et if et in CTYPE else resolved(c, st, et)
    n = c.node(st, 'T', 'NODE_INDEX_EXPR', etype, index_expr__left=A, index_expr__index=I)
    top, stmt, V = top_node(c, st, act, n, etype, etype)
    name = "%s %s of %s[%s]" % (act, form, key, it)
    seen = 0
    for tpl, f in c.run(st, top, stmt=stmt):
        ck.count('templates')
        seen += 1
        last = None
        for lv in (True, False):
            try:
                hs = dict(holes_for(H, form, kind, lv))
            except AnalysisError:
                continue
            hi = 'I_' + it
            H.declare(hi, CTYPE[it], False)
            hs['N:I'] = (hi, 0, 0)
            if V:
                hv = 'V_' + CT[et].replace(' ', '').replace('*', 'P')
                H.declare(hv, CT[et], False)
                hs['N:V'] = (hv, 0, 0)
            try:
                text = render(tpl, hs)
            except AnalysisError as e:
                # a template for a field reached through something the harness did not build
                last = None
                break
            code = text.strip()
            body = code if stmt else ("%s;" % code if act != 'read' else "*o = %s;" % code)
            fn = H.add("void @FN@(%s *o){ %s }" % (CT[et], body))
            jobs.append((name, fn, kind, form, act, et, it, code, lv))
            if form not in KINDS:
                break
    if not seen:
        ck.fail(name, c.stmt_fn if stmt else c.expr_fn, "no template is emitted")


def resolved(c, st, et):
    if et == '[int]':
        return c.mktype(st, '[int]', 'TK_ARRAY', elem='int')
    if et == 'map[string:int]':
        return c.mktype(st, 'map[string:int]', 'TK_MAP', keyt='string', val='int')
    if et == 'S':
        return c.mktype(st, 'S', 'TK_STRUCT', name='S')
    return c.mktype(st, '^S', 'TK_POINTER', name='^S', elem='S')


def run_jobs(ck, c, H, jobs, judge):
    H.extra = STRUCT + H.extra
    R = AccessRunner(H.build())
    R.harness_sizes = SIZES
    groups = {}
    for j in jobs:
        groups.setdefault(j[0], []).append(j)
    for name, js in groups.items():
        live = [j for j in js if j[1] not in H.bad]
        where = "code generator, %s (%s)" % (c.stmt_fn if js[0][4] in ASSIGN else c.expr_fn, name)
        if not live:
            ck.count('forms that no program can use (the emitted C is rejected)')
            continue
        good = True
        for j in live:
            why = judge(ck, R, j)
            if why:
                ck.fail(name, where, "%s; emitted C: %s" % (why, j[7]))
                good = False
                break
        if good:
            ck.ok(name, live[0][7])


def start(R):
    st = State()
    e = R.run.eng
    e.obj_kind['OUT'] = ('alloca',)
    st.mem['OUT'] = {}
    st.own.add('OUT')
    return st


TOUCH = []


def paths(R, fn):
    """run one template; -> [(kind, state)], with stray accesses to element storage recorded as ('stray', ..) events"""
    e = R.run.eng

    def mem(e2, st, fr, ins, ptr):
        if is_ptr(ptr):
            o = ptr[1]
            if o.startswith('A') and o.split('.')[0] in ('Ar_GrayArray', 'Ar_GrayMap') or \
                    ('OBJ:' in o and '.' in o.split('OBJ:')[1]):
                st.emit_ev('stray', ins, o)

    def ld(e2, st, fr, ins, ptr, ty):
        mem(e2, st, fr, ins, ptr)

    def sto(e2, st, fr, ins, v, ptr, ty):
        mem(e2, st, fr, ins, ptr)
    nulls = []
    e.on_load, e.on_store = ld, sto
    e.on_nullderef = lambda e2, st: nulls.append(st)
    try:
        res = R.run.run(fn, [('p', 'OUT', 0)], start(R))
    finally:
        e.on_load = e.on_store = e.on_nullderef = None
    return res + [('null', s) for s in nulls]


def designates(R, p, st, form, kind, lv):
    """is pointer p the program's container?"""
    h = HDR[kind]
    if not is_ptr(p):
        return False
    if form == 'member':
        return p[1:] == ('OBJ:O_' + h, 8)
    if form in ('pmember', 'dmember'):
        if p[1:] == ('OBJ:pO_' + h, 8):
            return True
        return copied(R, p, st, 'OBJ:pO_' + h, 8)
    if lv and p[1:] == ('OBJ:Al_' + h, 0):
        return True
    if lv:
        return copied(R, p, st, 'OBJ:Al_' + h, 0)
    v = first_word(R, p, st)
    return is_ptr(v) and (v[1] == 'Ar_%s.0' % h or h == 'GrayMap' and v[1].startswith('Ar_'))


def first_word(R, p, st):
    return R.run.eng.load_obj(st.copy(), R.run.mod, p[1], p[2], ('ptr',), 64)


def copied(R, p, st, obj, off):
    """p addresses a whole copy of the container (reads through a copy see the same elements)"""
    v = first_word(R, p, st)
    return is_ptr(v) and v[1:] == ('%s.%d' % (obj, off), 0)


def judge_array(ck, R, j):
    name, fn, kind, form, act, et, it, code, lv = j
    n = 0
    for k, f in paths(R, fn):
        n += 1
        ck.count('access paths')
        accs = [ev for ev in f.ev if ev[0] == 'acc']
        if any(ev[0] == 'stray' for ev in f.ev):
            return "element storage is touched without the bounds-checked accessor"
        if k == 'null':
            return "a nil pointer is dereferenced"
        if k == 'panic':
            if panic_code(f) is None:
                return "the program may stop for no stated reason"
            nil = any(ev[0] == 'nil' for ev in f.ev)
            if panic_code(f) == 'P0080' and not nil:
                return "a pointer that is not nil stops the program"
            continue
        if any(ev[0] == 'nil' for ev in f.ev):
            return "a nil pointer does not stop the program"
        want = ['get'] if act == 'read' else ['set'] if act == '=' else None
        got = [a[1] for a in accs]
        if want is not None and got != want:
            return "the element is accessed as %s, expected %s" % ("+".join(got), "+".join(want))
        if want is None and not (got and got[0] == 'get' and all(g == 'get' for g in got[:-1]) and got[-1] in ('get', 'set')):
            return "the element is accessed as %s" % "+".join(got)
        for a in accs:
            if not designates(R, a[3], f, form, kind, lv):
                return "the accessor is handed another array"
            if not same_index(R, f, a[4], it):
                return "the accessor is handed another index than the program's (%s)" % repr(a[4])[:80]
        if act == 'read' and not from_cell(R, f, et):
            return "the value read is not the element's"
        if want is None and got == ['get'] and not any(isinstance(kk, int) for kk in f.mem.get('CELL', {})):
            return "the element is not updated"
    return None if n else "no path"


def from_cell(R, f, et):
    """the value stored to the result is the element cell's, in full"""
    H = R.harness_sizes
    n = H[et]
    for off, w in ((o, min(8, n - o)) for o in range(0, n, 8)):
        if w not in (1, 2, 4, 8):
            w = 4
        v = R.run.eng.load_obj(f.copy(), R.run.mod, 'OUT', off, ('i', w * 8), w * 8)
        if 'CELL.' not in repr(v):
            return False
    return True


def same_index(R, f, t, it):
    h = 'I_' + it
    if it in ('uint', 'u64') and t == ('s', h, 64):
        return True                     # the signed reading of a larger value is negative: rejected by the accessor
    m = Meaning(R.run.eng, f, {h: leaf(it)}).of(t, 64, True)
    return m is not None and m[0].key() == worlds.pleaf(h).key()


def arrays(ck, c):
    H = Harness('c04')
    jobs = []
    for form in FORMS:
        for act in ['read', '='] + list(ASSIGN)[1:] + list(STEP):
            full = act in ('read', '=', '+=', '++')
            for et in ELEMS:
                if act not in ('read', '=') and et not in NUM:
                    continue
                if et in ('i128', 'u128', 'i256', 'u256') and act not in ('read', '=', '+=', '++') or not full and et not in ('int', 'u8', 'float'):
                    continue
                jobs_for(ck, c, H, 'TK_ARRAY', '[%s]' % et, dict(elem=et), et, 'int', form, act, jobs)
            for it in IDX[1:]:
                if full:
                    jobs_for(ck, c, H, 'TK_ARRAY', '[int]', dict(elem='int'), 'int', it, form, act, jobs)
    run_jobs(ck, c, H, jobs, judge_array)


# ------------------------------------------------------------------ maps
def judge_map(ck, R, j):
    name, fn, kind, form, act, et, it, code, lv = j
    n = 0
    for k, f in paths(R, fn):
        n += 1
        ck.count('access paths')
        accs = [ev for ev in f.ev if ev[0] == 'acc']
        if any(ev[0] == 'stray' for ev in f.ev):
            return "map storage is touched without the map accessors"
        miss = any(ev[0] == 'missing' for ev in f.ev)
        if k == 'null':
            return "an absent key or a nil pointer is dereferenced"
        if k == 'panic':
            pc = panic_code(f)
            if pc == 'P0081' and not miss:
                return "a key that is present stops the program"
            if pc == 'P0080' and not any(ev[0] == 'nil' for ev in f.ev):
                return "a pointer that is not nil stops the program"
            if pc is None:
                return "the program may stop for no stated reason"
            continue
        if any(ev[0] == 'nil' for ev in f.ev):
            return "a nil pointer does not stop the program"
        if miss:
            return "an absent key does not stop the program"
        got = [a[1] for a in accs]
        want = ['mget'] if act == 'read' else ['mset'] if act == '=' else None
        if want is not None and got != want or want is None and got not in (['mget', 'mset'], ['mget']):
            return "the map is accessed as %s" % "+".join(got)
        for a in accs:
            if not designates(R, a[3], f, form, kind, lv):
                return "the accessor is handed another map"
            if not key_of(R, f, a[4], it):
                return "the accessor is handed another key than the program's (%s)" % repr(a[4])[:100]
        if act == 'read' and not from_cell(R, f, et):
            return "the value read is not the element's"
    return None if n else "no path"


def key_of(R, f, cells, it):
    """the key cells hold exactly the key expression's value"""
    if not cells:
        return False
    h = 'I_' + it
    if it in WIDTH:
        if len(cells) != 1 or cells[0][0] != 0:
            return False
        off, sz, v = cells[0]
        if it in ('uint', 'u64') and v == ('s', h, 64) or it == 'bool' and strip(v) == ('s', h, 1):
            return True
        m = Meaning(R.run.eng, f, {h: leaf(it)}).of(v, sz * 8, it in SIGNED)
        return m is not None and m[0].key() == worlds.pleaf(h).key()
    return all(h in repr(v) for off, sz, v in cells)


KEYS = ['string', 'int', 'i64', 'i32', 'i16', 'i8', 'uint', 'u64', 'u32', 'u16', 'u8', 'byte', 'char', 'bool', 'float', 'f64', 'f32']
VALS = ['int', 'i8', 'u64', 'float', 'bool', 'char', 'string', '[int]', 'map[string:int]', 'S', '^S', 'i128']


def maps(ck, c):
    H = Harness('c04m')
    jobs = []
    for form in FORMS:
        for act in ('read', '=', '+=', '-='):
            for kt in KEYS:
                if form not in ('label', 'pmember') and kt not in ('string', 'int', 'u8', 'float'):
                    continue
                jobs_for(ck, c, H, 'TK_MAP', 'map[%s:int]' % kt, dict(keyt=kt, val='int'), 'int', kt, form, act, jobs)
            for vt in VALS[1:]:
                if act in ('read', '=') or vt in ('i8', 'u64', 'float', 'i128'):
                    jobs_for(ck, c, H, 'TK_MAP', 'map[string:%s]' % vt, dict(keyt='string', val=vt), vt, 'string', form, act, jobs)
    run_jobs(ck, c, H, jobs, judge_map)


# ------------------------------------------------------------------ strings
def judge_string(ck, R, j):
    name, fn, kind, form, act, et, it, code, lv = j
    n = 0
    h = 'I_' + it
    for k, f in paths_str(R, fn):
        n += 1
        ck.count('access paths')
        reads = [ev for ev in f.ev if ev[0] == 'sread']
        nil = any(ev[0] == 'nil' for ev in f.ev)
        if k == 'null':
            return "a nil pointer is dereferenced"
        ln, w = lenleaf(f, form, lv)
        if w is None:
            continue
        lvs = {h: leaf(it), ln: (32, True)}
        pos = in_bounds(R, f, lvs, h, ln, it)
        if k == 'panic':
            pc = panic_code(f)
            if pc == 'P0082' and 'in' in pos:
                return "an index inside the string stops the program"
            if pc == 'P0080' and not nil:
                return "a pointer that is not nil stops the program"
            if pc is None:
                return "the program may stop for no stated reason"
            continue
        if 'out' in pos:
            return "an index outside the string does not stop the program"
        if len(reads) != 1:
            return "the string is read %d times" % len(reads)
        m = Meaning(R.run.eng, f, lvs).of(reads[0][2], 64, True)
        ok = m is not None and m[0].key() == worlds.pleaf(h).key() or it in ('uint', 'u64') and reads[0][2] == ('s', h, 64)
        if not ok or reads[0][3] != 8:
            return "another byte than the selected one is read"
    return None if n else "no path"


def lenleaf(f, form, lv):
    base = 'OBJ:O_GrayString.16' if form == 'member' else 'OBJ:pO_GrayString.16' if form in ('pmember', 'dmember') else \
        'OBJ:Al_GrayString.8' if lv else 'Ar_GrayString.1'
    return base, 32


def in_bounds(R, f, lvs, h, ln, it):
    """which of 'in' (0 <= index < length) and 'out' the path's decisions leave possible"""
    if it in ('uint', 'u64'):
        # compared through its signed reading: below 2^63 it is itself, above it is out of range
        lvs = dict(lvs)
        lvs[h] = (64, True)
    out = set()
    for ws in worlds.possible(R.run, f, lvs, [(h, 0), (h, ln), (ln, 0)]):
        if ws[2] == '<':
            continue
        if ws[0] == '<' and ws[1] != '<' and ws[2] != '<':
            continue
        if ws[0] in ('>', '=') and ws[1] == '<':
            if ws[2] == '=':
                continue
            out.add('in')
        else:
            out.add('out')
    return out


def paths_str(R, fn):
    e = R.run.eng

    def ld(e2, st, fr, ins, ptr, ty):
        if is_ptr(ptr) and (ptr[1].startswith('Ar_GrayString.0') or ptr[1].endswith('GrayString.8') and ptr[1].startswith(('OBJ:O_', 'OBJ:pO_')) or
                            ptr[1] == 'OBJ:Al_GrayString.0'):
            st.emit_ev('sread', ins if False else None, ptr[2], fr.fn.mod.size(ty) * 8)
    nulls = []
    e.on_load = ld
    e.on_nullderef = lambda e2, st: nulls.append(st)
    try:
        res = R.run.run(fn, [('p', 'OUT', 0)], start(R))
    finally:
        e.on_load = e.on_nullderef = None
    return res + [('null', s) for s in nulls]


def strings(ck, c):
    H = Harness('c04s')
    jobs = []
    for form in FORMS:
        for it in IDX:
            jobs_for(ck, c, H, 'TK_STRING', 'string', {}, 'char', it, form, 'read', jobs)
    run_jobs(ck, c, H, jobs, judge_string)


# ------------------------------------------------------------------ the accessors' own contracts
def contracts(ck):
    from judge import Runner
    H = Harness('c04r')
    H.declare('A', 'GrayArray', True)
    H.declare('I', 'int64_t', False)
    H.declare('V', 'char', True)
    g = H.add("void *@FN@(void){ return gray_array_get_ptr(H_A(), H_I(), \"f\", 1); }")
    s = H.add("void @FN@(void){ gray_array_set(H_A(), H_I(), H_V(), \"f\", 1); }")
    m = H.build()
    d = __import__('irlib').DI(__import__('irlib').load('runtime/array.c'))
    o = {k: d.off('GrayArray', k)[0] for k in ('data', 'len', 'elem_size', 'iterating')}
    L, E = 'OBJ:A.%d' % o['len'], 'OBJ:A.%d' % o['elem_size']
    for nm, fn in (('element pointer', g), ('element store', s)):
        R = Runner(m)
        copies = []

        def hook(e, st, fr, ins, name, a):
            if name.startswith('llvm.memcpy') or name == 'memcpy':
                st.emit_ev('copy', None, a[0], a[1], a[2])
                return absint.V()
            return None
        R.call_hook = hook
        why = None
        seen = set()
        for k, f in R.run(fn, [], State()):
            ck.count('contract paths')
            seen.add(k)
            lvs = {'I': (64, True), L: (32, True), E: (32, True), 'OBJ:A.%d' % o['iterating']: (32, True)}
            pos = in_bounds(R_(R), f, lvs, 'I', L, 'int')
            if k == 'panic':
                if panic_code(f) not in ('P0033', 'P0034'):
                    why = "stops for another reason (%s)" % (panic_code(f),)
                elif panic_code(f) == 'P0033' and 'in' in pos:
                    why = "stops the program for an index inside the array"
                continue
            if 'out' in pos:
                why = "an index outside the array is not rejected"
                continue
            p = f.ret if nm == 'element pointer' else [ev for ev in f.ev if ev[0] == 'copy'][0][2] if any(ev[0] == 'copy' for ev in f.ev) else None
            if not is_ptr(p) or p[1] != 'OBJ:A.%d' % o['data']:
                why = "the address is not inside the array's storage"
                continue
            # size_t arithmetic on values already known to be in range: modular in 64 bits
            want = worlds_product(R, f, lvs, p[2], E)
            if not want:
                why = "the address is not start + index * element size (%s)" % repr(p[2])[:120]
            if nm == 'element store':
                cp = [ev for ev in f.ev if ev[0] == 'copy']
                if len(cp) != 1 or not is_ptr(cp[0][3]) or cp[0][3][1:] != ('OBJ:V', 0) or not is_elem(R, f, lvs, cp[0][4], E):
                    why = "not exactly one element is copied from the value"
        if 'ret' not in seen:
            why = why or "no index is accepted"
        key = "runtime accessor: " + nm
        if why:
            ck.fail(key, "grayc/src/runtime/array.c", why)
        else:
            ck.ok(key, "array.c")


class R_:
    def __init__(self, r):
        self.run = r


def strip(t):
    while isinstance(t, tuple) and t[0] == 'e' and t[1] in ('sext', 'zext'):
        t = t[3]
    return t


def worlds_product(R, f, lvs, t, E):
    if isinstance(t, tuple) and t[0] == 'e' and t[1] == 'mul':
        a, b = t[3], t[4]
        for x, y in ((a, b), (b, a)):
            if x == ('s', 'I', 64) and is_elem(R, f, lvs, y, E):
                return True
    return False


def is_elem(R, f, lvs, t, E):
    return strip(t) == ('s', E, 32)
