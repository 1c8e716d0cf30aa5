"""Trace-partitioned abstract interpreter over LLVM IR (irlib).

Abstract values
  int                      known constant (canonical unsigned; null pointer is 0)
  ('s', name, w)           unknown integer / unknown scalar
  ('e', op, w, a, b..)     term over unknown values
  ('p', obj, off)          pointer into abstract object `obj` (off: int or term)
  ('f', x)                 floating constant
  ('a', v0, v1, ...)       aggregate
  ('fn', name)             function address
Abstract objects are either materialised (allocas, globals, heap) or *lazy*: an unknown
object whose fields are invented, once, when first read -- one abstract input stands for
every concrete input of that shape.  A condition that the abstract state does not decide
splits the partition in two and both halves are analysed.  There is no solver: a state
carries per-term intervals, disequalities and decided comparisons only.
"""
import irlib
from irlib import AnalysisError

NULL = 0


class PathEnd(Exception):
    pass


class Budget(Exception):
    pass


def is_ptr(v):
    return isinstance(v, tuple) and v[0] == 'p'


def is_sym(v):
    return isinstance(v, tuple) and v[0] in ('s', 'e')


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if w and v >> (w - 1) else v


def mask(v, w):
    return v & ((1 << w) - 1)


class Frame:
    __slots__ = ("fn", "env", "blk", "prev", "idx", "res", "va", "cnt", "site")

    def __init__(self, fn):
        self.fn = fn
        self.env = {}
        self.blk = fn.order[0]
        self.prev = None
        self.idx = 0
        self.res = None
        self.va = None
        self.cnt = {}
        self.site = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.env = dict(self.env)
        f.blk = self.blk
        f.prev = self.prev
        f.idx = self.idx
        f.res = self.res
        f.va = self.va
        f.cnt = dict(self.cnt)
        f.site = self.site
        return f


class State:
    __slots__ = ("frames", "mem", "own", "cons", "rel", "out", "ev", "ctr", "x", "alias", "ret")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.own = set()
        self.cons = {}
        self.rel = {}
        self.out = {}
        self.ev = ()
        self.ctr = 0
        self.x = {}
        self.alias = {}
        self.ret = None

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        self.own = set()
        s.own = set()
        s.cons = dict(self.cons)
        s.rel = dict(self.rel)
        s.out = dict(self.out)
        s.ev = self.ev
        s.ctr = self.ctr
        s.x = dict(self.x)
        s.alias = dict(self.alias)
        s.ret = self.ret
        return s

    def fresh(self, pfx, w=64):
        self.ctr += 1
        return ('s', "%s#%d" % (pfx, self.ctr), w)

    def fresh_obj(self, pfx):
        self.ctr += 1
        return "%s#%d" % (pfx, self.ctr)

    # -- memory
    def cells(self, obj):
        return self.mem.get(obj)

    def wcells(self, obj):
        if obj in self.own:
            return self.mem[obj]
        c = dict(self.mem.get(obj, {}))
        self.mem[obj] = c
        self.own.add(obj)
        return c

    def emit_ev(self, *e):
        self.ev = self.ev + (e,)

    # -- numeric constraint store: term -> (slo, shi, ulo, uhi, neq)
    def rng(self, t, w):
        r = self.cons.get(t)
        if r is None:
            return default_rng(t, w, self)
        if t[0] == 'e' and t[1] in ('zext', 'sext') and is_sym(t[3]) and t[3] in self.cons:
            d = default_rng(t, w, self)
            if d[4] - r[4] or d[0] > r[0] or d[1] < r[1] or d[2] > r[2] or d[3] < r[3]:
                return (max(r[0], d[0]), min(r[1], d[1]), max(r[2], d[2]), min(r[3], d[3]), r[4] | d[4])
        return r


def default_rng(t, w, st):
    lo, hi = -(1 << (w - 1)) if w > 1 else 0, (1 << (w - 1)) - 1 if w > 1 else 1
    ulo, uhi = 0, (1 << w) - 1
    if w == 1:
        return (0, 1, 0, 1, frozenset())
    if t[0] == 'e':
        op = t[1]
        if op == 'zext':
            a = t[3]
            aw = t[4]
            r = st.rng(a, aw) if is_sym(a) else None
            if r:
                return (r[2], r[3], r[2], r[3], r[4])
        elif op == 'sext':
            a = t[3]
            aw = t[4]
            r = st.rng(a, aw) if is_sym(a) else None
            if r:
                ne = frozenset(mask(sgn(x, aw), w) for x in r[4]) if r[4] else r[4]
                if r[0] >= 0:
                    return (r[0], r[1], r[0], r[1], ne)
                return (r[0], r[1], 0, uhi, ne)
        elif op == 'trunc' and is_sym(t[3]):
            r = st.rng(t[3], t[4])
            if r[0] >= 0 and r[1] <= hi:
                return (r[0], r[1], r[0], r[1], frozenset())
            if r[0] >= lo and r[1] <= hi:
                return (r[0], r[1], 0, uhi, frozenset())
            if r[3] <= uhi:
                return (lo, hi, r[2], r[3], frozenset())
        elif op == 'and' and isinstance(t[4], int) and sgn(t[4], w) >= 0:
            return (0, t[4], 0, t[4], frozenset())
        elif op == 'urem' and isinstance(t[4], int) and t[4] > 0:
            return (lo, hi, 0, t[4] - 1, frozenset()) if t[4] - 1 > hi else (0, t[4] - 1, 0, t[4] - 1, frozenset())
        elif op in ('add', 'sub', 'mul') and w <= 64:
            ra = st.rng(t[3], w) if is_sym(t[3]) else None
            rb = st.rng(t[4], w) if is_sym(t[4]) else None
            a0, a1 = (ra[0], ra[1]) if ra else (sgn(t[3], w),) * 2 if isinstance(t[3], int) else (lo, hi)
            b0, b1 = (rb[0], rb[1]) if rb else (sgn(t[4], w),) * 2 if isinstance(t[4], int) else (lo, hi)
            if op == 'add':
                c0, c1 = a0 + b0, a1 + b1
            elif op == 'sub':
                c0, c1 = a0 - b1, a1 - b0
            else:
                ps = [a0 * b0, a0 * b1, a1 * b0, a1 * b1]
                c0, c1 = min(ps), max(ps)
            if c0 >= lo and c1 <= hi:
                if c0 >= 0:
                    return (c0, c1, c0, c1, frozenset())
                return (c0, c1, 0, uhi, frozenset())
    return (lo, hi, ulo, uhi, frozenset())


CMP_SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
            'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
CMP_NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
           'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}


def const_cmp(pred, a, b, w):
    if pred[0] == 's':
        a, b = sgn(a, w), sgn(b, w)
    return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'ult': a < b, 'sgt': a > b, 'ugt': a > b,
            'sle': a <= b, 'ule': a <= b, 'sge': a >= b, 'uge': a >= b}[pred]


DIVSHIFT = frozenset(('sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr'))


class Engine:
    max_steps = 400000
    max_paths = 4000
    loop_forks = 2       # undecided splits of one branch instruction inside one activation
    loop_concrete = 3000
    max_depth = 40

    def __init__(self, mods):
        """mods: list of irlib.Module; first definition wins, non-internal linkage across modules"""
        self.mods = mods if isinstance(mods, (list, tuple)) else [mods]
        self.main = self.mods[0]
        self.models = {}
        self.final = []
        self.steps = 0
        self.paths = 0
        self.on_call = None
        self.on_load = None
        self.on_store = None
        self.on_nullderef = None
        self.on_return = None
        self.on_arith = None
        self.obj_kind = {}
        self.undecided = []
        self.ext_default = None
        self.visited_fns = set()
        install_models(self)

    # ------------------------------------------------------------- lookup
    def find_fn(self, name, mod):
        f = mod.funcs.get(name)
        if f is not None:
            return f
        for m in self.mods:
            f = m.funcs.get(name)
            if f is not None and not f.internal:
                return f
        return None

    # ------------------------------------------------------------- globals
    def gobj(self, mod, name):
        return ("G:%s:%s" % (mod.name, name)) if name in mod.globals and mod.globals[name] is not None and \
            self._is_private(mod, name) else "G:%s" % name

    def _is_private(self, mod, name):
        g = mod.globals[name]
        if g[0] == 'lazy':
            r = ' private ' in (' ' + g[1]) or g[1].startswith('internal') or g[1].startswith('private')
            mod.__dict__.setdefault('_priv', {})[name] = r
            return r
        return mod.__dict__.get('_priv', {}).get(name, True)

    def global_ptr(self, st, mod, name):
        if name in mod.funcs or (name in mod.decls and name not in mod.globals):
            return ('fn', name)
        self._is_private(mod, name) if name in mod.globals else None
        obj = self.gobj(mod, name)
        if obj not in self.obj_kind:
            g = mod.glob(name)
            m = mod
            if g is None or g[1] is None:
                for m2 in self.mods:
                    if name in m2.globals and m2.glob(name)[1] is not None:
                        m = m2
                        g = m2.glob(name)
                        break
            self.obj_kind[obj] = ('global', m, name)
        return ('p', obj, 0)

    def const_val(self, st, mod, v, ty):
        k = v[0]
        if k == 'int':
            return v[1]
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.global_ptr(st, mod, v[1])
        if k == 'undef':
            return ('s', 'undef', mod.size(ty) * 8 if ty else 64)
        if k == 'zero':
            return self.zero(mod, ty)
        if k == 'fp':
            return ('f', v[1])
        if k == 'cgep':
            base = self.const_val(st, mod, v[2], ('ptr',))
            return self.gep(st, mod, v[1], base, [(('i', 64), self.const_val(st, mod, i, ('i', 64))) for i in v[3]])
        if k == 'agg':
            return ('a',) + tuple(self.const_val(st, mod, x, t) for t, x in v[1])
        if k == 'ccast':
            return self.const_val(st, mod, v[3], v[2])
        if k == 'asm':
            return ('s', 'asm', 64)
        if k == 'str':
            return ('bytes', v[1])
        return ('s', 'const', 64)

    def zero(self, mod, ty):
        ty = mod.resolve(ty)
        if ty[0] == 'f':
            return ('f', 0.0)
        if ty[0] == 'struct':
            return ('a',) + tuple(self.zero(mod, t) for t in ty[1])
        if ty[0] == 'arr':
            return ('a',) + (self.zero(mod, ty[2]),) * min(ty[1], 4096)
        return 0

    def val(self, st, fr, v, ty=None):
        k = v[0]
        if k == 'loc':
            return fr.env[v[1]]
        if k == 'int':
            return v[1]
        return self.const_val(st, fr.fn.mod, v, ty)

    # ------------------------------------------------------------- memory
    def gep(self, st, mod, bt, base, idx):
        off = 0
        ty = bt
        for n, (ity, iv) in enumerate(idx):
            if n == 0:
                sz = mod.size(bt)
                off = self.off_add(off, iv, sz, ity)
            else:
                ty = mod.resolve(ty)
                if ty[0] == 'struct':
                    o, ty = mod.field_off(ty, iv)
                    off = self.off_add(off, o, 1, ('i', 64))
                elif ty[0] in ('arr', 'vec'):
                    ty = ty[2]
                    off = self.off_add(off, iv, mod.size(ty), ity)
                else:
                    raise AnalysisError("gep into %r" % (ty,))
        if is_ptr(base):
            return ('p', base[1], self.off_add(base[2], off, 1, ('i', 64)))
        if off == 0:
            return base
        if base == NULL:
            return ('p', 'NULL', off)
        if is_sym(base):
            return ('p', 'sym:%s' % (base,), off)
        return base

    def off_add(self, off, iv, sz, ity):
        if isinstance(iv, int):
            d = sgn(iv, ity[1]) * sz
            if d == 0:
                return off
            if isinstance(off, int):
                return off + d
            if off[0] == 'e' and off[1] == 'add' and isinstance(off[4], int):
                n = sgn(off[4], 64) + d
                return off[3] if n == 0 else ('e', 'add', 64, off[3], mask(n, 64))
            return ('e', 'add', 64, off, mask(d, 64))
        t = iv
        if sz == 0:
            return off
        if sz != 1:
            t = ('e', 'mul', 64, t, sz)
        if off == 0:
            return t
        if isinstance(off, int):
            return ('e', 'add', 64, t, mask(off, 64))
        return ('e', 'add', 64, off, t)

    def global_load(self, st, kind, off, size, ty):
        _, mod, name = kind
        g = mod.glob(name)
        gty, init, const = g
        if init is None:
            return None
        r = self._init_at(st, mod, gty, init, off, ty)
        return r

    def _init_at(self, st, mod, ty, init, off, want):
        ty = mod.resolve(ty)
        if init[0] == 'zero':
            return self.zero(mod, want)
        if init[0] == 'str':
            b = init[1]
            if want == ('i', 8):
                return b[off] if 0 <= off < len(b) else None
            w = mod.size(want)
            if want[0] == 'i' and 0 <= off and off + w <= len(b):
                return int.from_bytes(b[off:off + w], 'little')
            return None
        if ty[0] == 'struct' and init[0] == 'agg':
            for j, t in enumerate(ty[1]):
                o, t2 = mod.field_off(ty, j)
                if o <= off < o + max(mod.size(t2), 1):
                    return self._init_at(st, mod, t2, init[1][j][1], off - o, want)
            return None
        if ty[0] == 'arr' and init[0] == 'agg':
            es = mod.size(ty[2])
            j = off // es if es else 0
            if 0 <= j < len(init[1]):
                return self._init_at(st, mod, ty[2], init[1][j][1], off - j * es, want)
            return None
        if off == 0:
            if init[0] == 'undef':
                return None
            v = self.const_val(st, mod, init, ty)
            if ty[0] == 'i' and want[0] == 'i' and ty[1] > want[1]:
                return mask(v, want[1])
            return v
        if ty[0] == 'i' and init[0] == 'int' and want[0] == 'i' and off * 8 < ty[1]:
            return mask(init[1] >> (8 * off), want[1])
        return None

    def load(self, st, fr, ins, ptr, ty):
        mod = fr.fn.mod if fr else self.main
        rty = mod.resolve(ty)
        if rty[0] in ('struct', 'arr'):
            vals = []
            if rty[0] == 'struct':
                for j, t in enumerate(rty[1]):
                    o, t2 = mod.field_off(rty, j)
                    vals.append(self.load(st, fr, ins, self.gep(st, mod, ('i', 8), ptr, [(('i', 64), o)]), t2))
            else:
                es = mod.size(rty[2])
                for j in range(min(rty[1], 64)):
                    vals.append(self.load(st, fr, ins, self.gep(st, mod, ('i', 8), ptr, [(('i', 64), j * es)]), rty[2]))
            return ('a',) + tuple(vals)
        if self.on_load:
            r = self.on_load(self, st, fr, ins, ptr, ty)
            if r is not None:
                return r
        w = mod.size(ty) * 8
        if not is_ptr(ptr):
            if ptr == NULL:
                st.emit_ev('nullderef', ins)
                if self.on_nullderef:
                    self.on_nullderef(self, st)
                raise PathEnd()
            return st.fresh('ld', w)
        obj, off = ptr[1], ptr[2]
        if obj == 'NULL':
            st.emit_ev('nullderef', ins)
            if self.on_nullderef:
                self.on_nullderef(self, st)
            raise PathEnd()
        return self.load_obj(st, mod, obj, off, ty, w)

    def load_obj(self, st, mod, obj, off, ty, w):
        c = st.mem.get(obj)
        if c is not None:
            e = c.get(off)
            if e is not None:
                v = e[1]
                if e[0] * 8 == w or not isinstance(v, int) and e[0] * 8 >= w and ty[0] != 'i':
                    return v
                if isinstance(v, int) and e[0] * 8 > w:
                    return mask(v, w)
                if is_sym(v) and e[0] * 8 > w:
                    return self.cast('trunc', v, e[0] * 8, w)
            if isinstance(off, int):
                if w == 8:
                    b = self.str_byte(st, obj, off)
                    if b is not None:
                        return b
                # containing wider cell
                for o2, (sz, v) in c.items():
                    if isinstance(o2, int) and o2 < off < o2 + sz and isinstance(v, int):
                        return mask(v >> (8 * (off - o2)), w)
                # narrower cells
                if ty[0] == 'i' and w > 8:
                    acc = 0
                    ok = True
                    for k in range(w // 8):
                        e = c.get(off + k)
                        if e is None or e[0] != 1 or not isinstance(e[1], int):
                            ok = False
                            break
                        acc |= e[1] << (8 * k)
                    if ok:
                        return acc
                if '#z' in c:
                    hit = any(isinstance(o2, int) and o2 < off + w // 8 and off < o2 + sz for o2, (sz, v) in
                              ((k, x) for k, x in c.items() if isinstance(k, int)))
                    if not hit:
                        return self.zero(mod, ty)
            for al in reversed(st.alias.get(obj, ())):
                if isinstance(off, int) and al[0] <= off < al[0] + al[1]:
                    return self.load_obj(st, mod, al[2], off - al[0] + al[3], ty, w)
        else:
            for al in reversed(st.alias.get(obj, ())):
                if isinstance(off, int) and al[0] <= off < al[0] + al[1]:
                    return self.load_obj(st, mod, al[2], off - al[0] + al[3], ty, w)
        kind = self.obj_kind.get(obj)
        if kind and kind[0] == 'global' and isinstance(off, int) and '#hv' not in (c or {}):
            v = self.global_load(st, kind, off, w // 8, ty)
            if v is not None:
                return v
        if w == 8 and isinstance(off, int):
            b = self.str_byte(st, obj, off)
            if b is not None:
                return b
        # invent
        v = self.invent(st, obj, off, ty, w)
        st.wcells(obj)[off] = (w // 8, v)
        return v

    def invent(self, st, obj, off, ty, w):
        nm = "%s.%s" % (obj, off if isinstance(off, int) else tstr(off))
        if ty[0] == 'ptr':
            self.obj_kind.setdefault(nm, ('lazy',))
            return ('p', nm, 0)
        return ('s', nm, w)

    def str_byte(self, st, obj, off):
        sv = st.x.get(('strval', obj))
        if sv is not None:
            return ord(sv[off]) if off < len(sv) else (0 if off == len(sv) else None)
        c = st.mem.get(obj)
        if c is not None:
            sp = c.get('#str')
            if sp is not None:
                base, parts = sp
                if off >= base:
                    pos = base
                    for p in parts:
                        if not isinstance(p, str):
                            return None
                        if off < pos + len(p):
                            return ord(p[off - pos])
                        pos += len(p)
                    if off == pos:
                        return 0
        return None

    def store(self, st, fr, ins, v, ptr, ty):
        mod = fr.fn.mod if fr else self.main
        if self.on_store:
            self.on_store(self, st, fr, ins, v, ptr, ty)
        rty = mod.resolve(ty)
        if isinstance(v, tuple) and v[0] == 'a':
            if rty[0] == 'struct':
                for j, t in enumerate(rty[1]):
                    o, t2 = mod.field_off(rty, j)
                    if j + 1 < len(v):
                        self.store(st, fr, ins, v[j + 1], self.gep(st, mod, ('i', 8), ptr, [(('i', 64), o)]), t2)
                return
        if not is_ptr(ptr):
            if ptr == NULL:
                st.emit_ev('nullderef', ins)
                if self.on_nullderef:
                    self.on_nullderef(self, st)
                raise PathEnd()
            return
        obj, off = ptr[1], ptr[2]
        if obj == 'NULL':
            st.emit_ev('nullderef', ins)
            if self.on_nullderef:
                self.on_nullderef(self, st)
            raise PathEnd()
        c = st.wcells(obj)
        sz = mod.size(ty)
        if isinstance(off, int):
            sp = c.get('#str')
            if sp is not None and sz == 1:
                # writing a byte into a known string
                base, parts = sp
                if all(isinstance(p, str) for p in parts) and isinstance(v, int):
                    s = "".join(parts)
                    k = off - base
                    if 0 <= k <= len(s):
                        if v == 0:
                            c['#str'] = (base, (s[:k],) if k else ())
                        elif k < len(s):
                            c['#str'] = (base, (s[:k] + chr(v) + s[k + 1:],))
                        else:
                            c['#str'] = (base, (s + chr(v),))
                        c.pop(off, None)
                        return
                    if k == -1 and v != 0:
                        c['#str'] = (off, (chr(v) + s,))
                        c.pop(off, None)
                        return
                if all(isinstance(p, str) for p in parts):
                    # explode
                    s = "".join(parts) + "\0"
                    for k, ch in enumerate(s):
                        c[base + k] = (1, ord(ch))
                del c['#str']
            elif sp is not None:
                base, parts = sp
                if off + sz > base:
                    del c['#str']
            c[off] = (sz, v)
        else:
            # unknown offset: forget what could be overwritten
            for k in [k for k in c if k != '#z' or True]:
                if k == '#z' or k == '#str' or isinstance(k, int) or (not isinstance(k, str) and k != off):
                    c.pop(k, None)
            c['#hv'] = (0, 0)
            c[off] = (sz, v)

    # ------------------------------------------------------------- strings
    def get_str(self, st, ptr):
        """parts tuple of the C string at ptr, or None"""
        if not is_ptr(ptr):
            return None
        obj, off = ptr[1], ptr[2]
        sv = st.x.get(('strval', obj))
        if sv is not None and isinstance(off, int):
            return (sv[off:],) if off < len(sv) else ()
        if not isinstance(off, int):
            return (('S', obj, tstr(off)),)
        c = st.mem.get(obj)
        if c is not None:
            sp = c.get('#str')
            if sp is not None:
                base, parts = sp
                if off == base:
                    return parts
                if off > base:
                    k = off - base
                    out = []
                    for i, p in enumerate(parts):
                        if not isinstance(p, str):
                            return (('S', obj, off),) if k else tuple(parts[i:])
                        if k >= len(p):
                            k -= len(p)
                            continue
                        out.append(p[k:])
                        out.extend(parts[i + 1:])
                        return tuple(out)
                    return ()
            # bytes
            e = c.get(off)
            if e is not None and e[0] == 1 and isinstance(e[1], int):
                s = []
                o = off
                while True:
                    e = c.get(o)
                    if e is None or e[0] != 1 or not isinstance(e[1], int):
                        if '#z' in c and e is None:
                            break
                        b = None
                        return (('S', obj, off),)
                    if e[1] == 0:
                        break
                    s.append(chr(e[1]))
                    o += 1
                return ("".join(s),) if s else ()
            if '#z' in c and e is None:
                return ()
        for al in reversed(st.alias.get(obj, ())):
            if al[0] <= off < al[0] + al[1]:
                return self.get_str(st, ('p', al[2], off - al[0] + al[3]))
        kind = self.obj_kind.get(obj)
        if kind and kind[0] == 'global' and not (c and '#hv' in c):
            s = []
            o = off
            while True:
                b = self.global_load(st, kind, o, 1, ('i', 8))
                if not isinstance(b, int):
                    return (('S', obj, off),)
                if b == 0:
                    break
                s.append(chr(b))
                o += 1
            return ("".join(s),) if s else ()
        if off == 0:
            return (('S', obj),)
        return (('S', obj, off),)

    def set_str(self, st, ptr, parts):
        if not is_ptr(ptr) or not isinstance(ptr[2], int):
            return
        c = st.wcells(ptr[1])
        base = ptr[2]
        new = self.conc(parts)
        sp = c.get('#str')
        if sp is not None and new is not None and sp[0] > base + len(new) and self.conc(sp[1]) is not None:
            # a string further up in the same object is not touched
            for i, ch in enumerate(self.conc(sp[1]) + "\0"):
                c[sp[0] + i] = (1, ord(ch) & 255)
            del c['#str']
            for k in [k for k in c if isinstance(k, int) and base <= k <= base + len(new)]:
                del c[k]
            c['#str'] = (base, norm_parts(parts))
            return
        for k in [k for k in c if isinstance(k, int) and k >= base]:
            if new is None or k <= base + len(new) or c[k][0] != 1:
                del c[k]
        if sp is not None and sp[0] < base:
            lead = "".join(sp[1]) if all(isinstance(p, str) for p in sp[1]) else None
            if lead is not None and base - sp[0] <= len(lead):
                c['#str'] = (sp[0], norm_parts((lead[:base - sp[0]],) + tuple(parts)))
                return
            if lead is not None:
                # a string that ends below: kept as bytes
                for i, ch in enumerate(lead + "\0"):
                    c[sp[0] + i] = (1, ord(ch) & 255)
        c['#str'] = (base, norm_parts(parts))

    def conc(self, parts):
        if parts is None:
            return None
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return None

    def str_eq_fork(self, st, pa, pb):
        """returns list of (state, bool)"""
        a, b = self.conc(pa), self.conc(pb)
        if a is not None and b is not None:
            return [(st, a == b)]
        if pa is not None and pa == pb:
            return [(st, True)]
        # a lone abstract string object against a constant
        for x, y in ((pa, b), (pb, a)):
            if y is not None and x is not None and len(x) == 1 and x[0][0] == 'S' and len(x[0]) == 2:
                obj = x[0][1]
                key = ('strne', obj)
                ne = st.x.get(key, frozenset())
                if y in ne:
                    return [(st, False)]
                if not self.str_feasible(st, obj, y):
                    return [(st, False)]
                s2 = st.copy()
                s2.x[('strval', obj)] = y
                st.x[key] = ne | {y}
                return [(s2, True), (st, False)]
        if pa is not None and pb is not None:
            # literal prefix / suffix conflicts
            if pa and pb:
                if isinstance(pa[0], str) and isinstance(pb[0], str):
                    n = min(len(pa[0]), len(pb[0]))
                    if pa[0][:n] != pb[0][:n]:
                        return [(st, False)]
                if isinstance(pa[-1], str) and isinstance(pb[-1], str):
                    n = min(len(pa[-1]), len(pb[-1]))
                    if n and pa[-1][-n:] != pb[-1][-n:]:
                        return [(st, False)]
        key = ('streq',) + tuple(sorted((repr(pa), repr(pb))))
        return self.fork_key(st, key)

    def str_feasible(self, st, obj, s):
        pre = st.x.get(('strpre', obj), ())
        for p, truth in pre:
            if s.startswith(p) != truth:
                return False
        c = st.mem.get(obj)
        if c:
            for off, e in c.items():
                if isinstance(off, int) and e[0] == 1 and is_sym(e[1]):
                    if off > len(s):
                        continue
                    b = ord(s[off]) if off < len(s) else 0
                    r = st.rng(e[1], 8)
                    if not (r[2] <= b <= r[3]) or b in r[4] or not (r[0] <= sgn(b, 8) <= r[1]):
                        return False
        return True

    def fork_key(self, st, key):
        if key in st.x:
            return [(st, st.x[key])]
        s2 = st.copy()
        s2.x[key] = True
        st.x[key] = False
        return [(s2, True), (st, False)]

    # ------------------------------------------------------------- arithmetic
    def binop(self, op, a, b, w, ins=None):
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return mask(a + b, w)
            if op == 'sub':
                return mask(a - b, w)
            if op == 'mul':
                return mask(a * b, w)
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return mask(a << b, w) if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return mask(sgn(a, w) >> min(b, w), w)
            if op in ('udiv', 'urem'):
                if b == 0:
                    return ('s', 'undef', w)
                return a // b if op == 'udiv' else a % b
            if op in ('sdiv', 'srem'):
                x, y = sgn(a, w), sgn(b, w)
                if y == 0:
                    return ('s', 'undef', w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return mask(q if op == 'sdiv' else x - q * y, w)
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if op == 'mul' and b == 1:
                return a
            if op in ('mul', 'and') and b == 0:
                return 0
            if op == 'and' and b == mask(-1, w):
                return a
            if op == 'sub' and is_sym(a):
                op, b = 'add', mask(-b, w)
            if op == 'add' and is_sym(a) and a[0] == 'e' and a[1] == 'add' and a[2] == w and isinstance(a[4], int):
                n = mask(a[4] + b, w)
                return a[3] if n == 0 else ('e', 'add', w, a[3], n)
        if isinstance(a, int):
            if a == 0 and op in ('add', 'or', 'xor'):
                return b
            if a == 0 and op in ('mul', 'and', 'shl', 'lshr', 'ashr'):
                return 0
            if op == 'mul' and a == 1:
                return b
            if op in ('add', 'mul', 'and', 'or', 'xor'):
                a, b = b, a
        if op == 'sub' and a == b:
            return 0
        if op == 'sub' and is_ptr(a) and is_ptr(b) and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
            return mask(a[2] - b[2], w)
        if op == 'xor' and w == 1 and b == 1 and is_sym(a):
            if a[0] == 'e' and a[1] == 'icmp':
                return ('e', 'icmp', 1, CMP_NEG[a[3]], a[4], a[5], a[6])
            if a[0] == 'e' and a[1] == 'not':
                return a[3]
            return ('e', 'not', 1, a)
        if op in ('add', 'mul', 'and', 'or', 'xor') and not isinstance(b, int):
            if repr(b) < repr(a):
                a, b = b, a
        return ('e', op, w, a, b)

    def cast(self, op, v, sw, dw):
        if isinstance(v, int):
            if op == 'zext':
                return v
            if op == 'sext':
                return mask(sgn(v, sw), dw)
            if op == 'trunc':
                return mask(v, dw)
            return v
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            return v
        if sw == dw:
            return v
        if is_sym(v):
            if v[0] == 'e' and v[1] in ('zext', 'sext') and op == 'trunc':
                iw = v[4]
                if iw == dw:
                    return v[3]
                if iw > dw:
                    return ('e', 'trunc', dw, v[3], iw)
                return ('e', v[1], dw, v[3], iw)
            if v[0] == 'e' and v[1] == 'zext' and op in ('zext', 'sext'):
                return ('e', 'zext', dw, v[3], v[4])
            if v[0] == 'e' and v[1] == 'sext' and op == 'sext':
                return ('e', 'sext', dw, v[3], v[4])
            return ('e', op, dw, v, sw)
        if isinstance(v, tuple) and v[0] in ('p', 'fn') and op == 'trunc':
            return ('e', 'trunc', dw, ('s', repr(v), sw), sw)
        return v

    def fcast(self, op, v, sty, dty):
        if isinstance(v, int) and op in ('sitofp', 'uitofp'):
            return ('f', float(sgn(v, sty[1]) if op == 'sitofp' else v))
        if isinstance(v, tuple) and v[0] == 'f' and op in ('fpext', 'fptrunc'):
            return v
        if isinstance(v, tuple) and v[0] == 'f' and op in ('fptosi', 'fptoui'):
            return mask(int(v[1]), dty[1])
        return ('e', op, dty[1], v, sty[1])

    # ------------------------------------------------------------- comparison
    def decide(self, st, c):
        """known truth of an i1 value or None"""
        if isinstance(c, int):
            return bool(c & 1)
        if c[0] == 'e':
            if c[1] == 'not':
                r = self.decide(st, c[3])
                return None if r is None else not r
            if c[1] == 'icmp':
                return self.decide_icmp(st, c[3], c[4], c[5], c[6])
            if c[1] == 'and' and c[2] == 1:
                x, y = self.decide(st, c[3]), self.decide(st, c[4])
                if x is False or y is False:
                    return False
                if x and y:
                    return True
                return None
            if c[1] == 'or' and c[2] == 1:
                x, y = self.decide(st, c[3]), self.decide(st, c[4])
                if x or y:
                    return True
                if x is False and y is False:
                    return False
                return None
        r = st.cons.get(c)
        if r is not None and r[2] == r[3]:
            return bool(r[2])
        return None

    def decide_icmp(self, st, pred, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return const_cmp(pred, a, b, w)
        pa, pb = is_ptr(a), is_ptr(b)
        if pa or pb:
            return self.decide_ptr(st, pred, a, b)
        if isinstance(a, tuple) and a[0] == 'fn' and b == 0:
            return pred == 'ne'
        if a == b:
            return pred in ('eq', 'sle', 'sge', 'ule', 'uge')
        if isinstance(b, int) and is_sym(a):
            return self._dec_rng(st.rng(a, w), pred, b, w)
        if isinstance(a, int) and is_sym(b):
            return self._dec_rng(st.rng(b, w), CMP_SWAP[pred], a, w)
        if is_sym(a) and is_sym(b):
            ra, rb = st.rng(a, w), st.rng(b, w)
            k = 0 if pred[0] == 's' else 2
            if pred in ('slt', 'ult'):
                if ra[k + 1] < rb[k]:
                    return True
                if ra[k] >= rb[k + 1]:
                    return False
            if pred in ('sge', 'uge'):
                if ra[k + 1] < rb[k]:
                    return False
                if ra[k] >= rb[k + 1]:
                    return True
            if pred in ('sgt', 'ugt'):
                if ra[k] > rb[k + 1]:
                    return True
                if ra[k + 1] <= rb[k]:
                    return False
            if pred in ('sle', 'ule'):
                if ra[k] > rb[k + 1]:
                    return False
                if ra[k + 1] <= rb[k]:
                    return True
            key, neg = canon_rel(pred, a, b)
            t = st.rel.get(key)
            if t is not None:
                return t != neg
            # derive from known relations
            r = self._derive(st, key)
            if r is not None:
                return r != neg
        return None

    def _derive(self, st, key):
        p, a, b = key
        g = st.rel.get
        if p in ('slt', 'ult'):
            if g(('eq',) + tuple(sorted((a, b), key=repr))) is True:
                return False
            if g((p, b, a)) is True:
                return False
        if p == 'eq':
            for q in ('slt', 'ult'):
                if g((q, a, b)) is True or g((q, b, a)) is True:
                    return False
            for q in ('slt', 'ult'):
                if g((q, a, b)) is False and g((q, b, a)) is False:
                    return True
        return None

    def _dec_rng(self, r, pred, c, w):
        slo, shi, ulo, uhi, ne = r
        sc = sgn(c, w)
        c = mask(c, w)
        if pred in ('eq', 'ne'):
            if not (ulo <= c <= uhi) or not (slo <= sc <= shi) or c in ne:
                return pred == 'ne'
            if ulo == uhi == c or slo == shi == sc:
                return pred == 'eq'
            return None
        if pred[0] == 's':
            lo, hi, v = slo, shi, sc
        else:
            lo, hi, v = ulo, uhi, c
        if pred[1:] == 'lt':
            return True if hi < v else False if lo >= v else None
        if pred[1:] == 'le':
            return True if hi <= v else False if lo > v else None
        if pred[1:] == 'gt':
            return True if lo > v else False if hi <= v else None
        return True if lo >= v else False if hi < v else None

    def decide_ptr(self, st, pred, a, b):
        if is_ptr(a) and is_ptr(b):
            if a == b:
                return pred in ('eq', 'ule', 'uge', 'sle', 'sge')
            if a[1] == b[1]:
                if isinstance(a[2], int) and isinstance(b[2], int):
                    return const_cmp(pred, a[2], b[2], 64)
                return self.decide_icmp(st, pred, a[2], b[2], 64)
            na, nb = self.null_known(st, a), self.null_known(st, b)
            if na and nb:
                return pred == 'eq'
            if pred in ('eq', 'ne'):
                ka, kb = self.obj_kind.get(a[1], ('lazy',))[0], self.obj_kind.get(b[1], ('lazy',))[0]
                if ka != 'lazy' or kb != 'lazy':
                    return pred == 'ne'
                key = ('ptreq',) + tuple(sorted((repr(a), repr(b))))
                t = st.x.get(key)
                if t is not None:
                    return t == (pred == 'eq')
            return None
        p = a if is_ptr(a) else b
        o = b if is_ptr(a) else a
        if o == 0 and pred in ('eq', 'ne'):
            n = self.null_known(st, p)
            if n is None:
                return None
            return n == (pred == 'eq')
        if o == 0 and pred in ('ugt', 'uge'):
            return True
        return None

    def null_known(self, st, p):
        obj = p[1]
        n = st.x.get(('null', obj))
        if n is not None:
            return n
        if p[2] != 0:
            return False
        k = self.obj_kind.get(obj, ('lazy',))
        if k[0] == 'lazy':
            return None
        return False

    def refine(self, st, c, truth):
        """assume c == truth; False if contradiction"""
        if isinstance(c, int):
            return bool(c & 1) == truth
        if c[0] == 'e':
            if c[1] == 'not':
                return self.refine(st, c[3], not truth)
            if c[1] == 'and' and c[2] == 1 and truth:
                return self.refine(st, c[3], True) and self.refine(st, c[4], True)
            if c[1] == 'or' and c[2] == 1 and not truth:
                return self.refine(st, c[3], False) and self.refine(st, c[4], False)
            if c[1] == 'icmp':
                pred, a, b, w = c[3], c[4], c[5], c[6]
                if not truth:
                    pred = CMP_NEG[pred]
                return self.assume_icmp(st, pred, a, b, w)
        v = 1 if truth else 0
        st.cons[c] = (v, v, v, v, frozenset())
        return True

    def assume_icmp(self, st, pred, a, b, w):
        if is_ptr(a) or is_ptr(b):
            if is_ptr(a) and is_ptr(b):
                key = ('ptreq',) + tuple(sorted((repr(a), repr(b))))
                if pred in ('eq', 'ne'):
                    st.x[key] = (pred == 'eq')
                    return True
                if a[1] == b[1]:
                    return self.assume_icmp(st, pred, a[2], b[2], 64)
                return True
            p = a if is_ptr(a) else b
            o = b if is_ptr(a) else a
            if o == 0 and pred in ('eq', 'ne'):
                st.x[('null', p[1])] = (pred == 'eq')
                if pred == 'eq':
                    h = self.__dict__.get('on_null')
                    if h:
                        h(self, st, p)
            return True
        if isinstance(b, int) and is_sym(a):
            return self._ref_rng(st, a, pred, b, w)
        if isinstance(a, int) and is_sym(b):
            return self._ref_rng(st, b, CMP_SWAP[pred], a, w)
        if is_sym(a) and is_sym(b):
            key, neg = canon_rel(pred, a, b)
            st.rel[key] = not neg
            # propagate intervals
            ra, rb = st.rng(a, w), st.rng(b, w)
            p, x, y = key
            t = not neg
            if p in ('slt', 'ult'):
                rx, ry = st.rng(x, w), st.rng(y, w)
                k = 0 if p == 'slt' else 2
                if t:      # x < y
                    self._clip(st, x, w, k, None, ry[k + 1] - 1)
                    self._clip(st, y, w, k, rx[k] + 1, None)
                else:      # x >= y
                    self._clip(st, x, w, k, ry[k], None)
                    self._clip(st, y, w, k, None, rx[k + 1])
            elif p == 'eq' and t:
                lo, hi = max(ra[0], rb[0]), min(ra[1], rb[1])
                for z in (x, y):
                    self._clip(st, z, w, 0, lo, hi)
        return True

    def _clip(self, st, t, w, k, lo, hi):
        r = list(st.rng(t, w))
        if lo is not None and lo > r[k]:
            r[k] = lo
        if hi is not None and hi < r[k + 1]:
            r[k + 1] = hi
        if r[k] > r[k + 1]:
            return False
        self._sync(r, w)
        st.cons[t] = tuple(r)
        return True

    def _sync(self, r, w):
        if r[0] >= 0:   # nonneg signed -> unsigned interval
            r[2] = max(r[2], r[0])
            r[3] = min(r[3], r[1])
        elif r[1] < 0:
            r[2] = max(r[2], r[0] + (1 << w))
            r[3] = min(r[3], r[1] + (1 << w))
        if w > 1 and r[3] < (1 << (w - 1)):
            r[0] = max(r[0], r[2])
            r[1] = min(r[1], r[3])

    def _ref_rng(self, st, t, pred, c, w):
        r = list(st.rng(t, w))
        sc = sgn(c, w)
        c = mask(c, w)
        if pred == 'eq':
            if self._dec_rng(tuple(r), 'eq', c, w) is False:
                return False
            r = [sc, sc, c, c, r[4]] if w > 1 else [c, c, c, c, r[4]]
        elif pred == 'ne':
            if self._dec_rng(tuple(r), 'ne', c, w) is False:
                return False
            r[4] = r[4] | {c}
            ch = True
            while ch:
                ch = False
                for k in (0, 2):
                    if mask(r[k], w) in r[4] and r[k] < r[k + 1]:
                        r[k] += 1
                        ch = True
                    if mask(r[k + 1], w) in r[4] and r[k] < r[k + 1]:
                        r[k + 1] -= 1
                        ch = True
        else:
            k = 0 if pred[0] == 's' else 2
            v = sc if k == 0 else c
            if pred[1:] == 'lt':
                r[k + 1] = min(r[k + 1], v - 1)
            elif pred[1:] == 'le':
                r[k + 1] = min(r[k + 1], v)
            elif pred[1:] == 'gt':
                r[k] = max(r[k], v + 1)
            else:
                r[k] = max(r[k], v)
        self._sync(r, w)
        if r[0] > r[1] or r[2] > r[3]:
            return False
        st.cons[t] = tuple(r)
        # push through extensions
        if t[0] == 'e' and t[1] in ('zext', 'sext') and is_sym(t[3]):
            iw = t[4]
            if iw > 1:
                k = 2 if t[1] == 'zext' else 0
                rr = list(st.rng(t[3], iw))
                rr[k] = max(rr[k], r[k] if t[1] == 'sext' else r[2])
                rr[k + 1] = min(rr[k + 1], r[k + 1] if t[1] == 'sext' else r[3])
                ne = r[4]
                rr[4] = rr[4] | frozenset(mask(x, iw) for x in ne if
                                          (mask(sgn(mask(x, iw), iw), w) if t[1] == 'sext' else mask(x, iw)) == x)
                self._sync(rr, iw)
                if rr[0] > rr[1] or rr[2] > rr[3]:
                    return False
                st.cons[t[3]] = tuple(rr)
            else:
                if pred in ('eq', 'ne'):
                    one = 1 if t[1] == 'zext' else mask(-1, w)
                    if c == 0:
                        return self.refine(st, t[3], pred == 'ne')
                    if c == one:
                        return self.refine(st, t[3], pred == 'eq')
        if t[0] == 'e' and t[1] == 'add' and isinstance(t[4], int) and is_sym(t[3]) and pred == 'eq':
            return self._ref_rng(st, t[3], 'eq', mask(c - t[4], w), w)
        return True

    def icmp(self, st, pred, a, b, w):
        r = self.decide_icmp(st, pred, a, b, w)
        if r is not None:
            return int(r)
        if isinstance(a, int) and not isinstance(b, int):
            a, b, pred = b, a, CMP_SWAP[pred]
        # (zext i1 x) != 0  -> x
        if b == 0 and pred in ('eq', 'ne') and is_sym(a) and a[0] == 'e' and a[1] in ('zext', 'sext') and a[4] == 1:
            return a[3] if pred == 'ne' else self.binop('xor', a[3], 1, 1)
        if is_sym(a) and a[0] == 'e' and a[1] == 'zext' and isinstance(b, int) and pred in ('eq', 'ne'):
            if b < (1 << a[4]):
                return self.icmp(st, pred, a[3], b, a[4])
            return int(pred == 'ne')
        if is_sym(a) and a[0] == 'e' and a[1] == 'sext' and isinstance(b, int) and pred in ('eq', 'ne'):
            if mask(sgn(mask(b, a[4]), a[4]), w) == mask(b, w):
                return self.icmp(st, pred, a[3], mask(b, a[4]), a[4])
        return ('e', 'icmp', 1, pred, a, b, w)

    # ------------------------------------------------------------- driver
    def run(self, st):
        """explore from `st`; returns list of final states (st.ret set)"""
        self.final = []
        self.work = [st]
        self.steps = 0
        self.paths = 0
        while self.work:
            s = self.work.pop()
            try:
                self.step_loop(s)
            except PathEnd:
                self.paths += 1
            if self.paths > self.max_paths:
                raise Budget("more than %d partitions" % self.max_paths)
        return self.final

    def fork(self, s):
        self.work.append(s)

    def subcall(self, st, fname, args, mod):
        """evaluate a pure call to a single known integer, or None"""
        s2 = st.copy()
        s2.frames = []
        sv = (self.final, getattr(self, 'work', []), self.paths)
        try:
            self.final = []
            self.work = []
            fn = self.find_fn(fname, mod)
            if fn is None:
                return None
            self.push(s2, fn, args, None, [], None)
            try:
                self.step_loop(s2)
            except PathEnd:
                return None
            if self.work or len(self.final) != 1 or not isinstance(self.final[0].ret, int):
                return None
            return self.final[0].ret
        finally:
            self.final, self.work, self.paths = sv

    def start(self, fname, args, st=None, mod=None):
        st = st or State()
        fn = self.find_fn(fname, mod or self.main)
        if fn is None:
            raise AnalysisError("function %s not found" % fname)
        self.push(st, fn, args, None, [], None)
        return st

    def push(self, st, fn, args, res, va, site):
        if len(st.frames) > self.max_depth:
            raise Budget("call depth")
        fr = Frame(fn)
        self.visited_fns.add(fn.name)
        for (ty, nm, byv), v in zip(fn.params, args):
            if byv and is_ptr(v):
                o = st.fresh_obj("byv." + nm)
                self.obj_kind[o] = ('alloca',)
                self.memcpy(st, ('p', o, 0), v, fn.mod.size(('i', 8)) * 65536, whole=True)
                v = ('p', o, 0)
            fr.env[nm] = v
        fr.res = res
        fr.va = va
        fr.site = site
        st.frames.append(fr)

    def memcpy(self, st, dst, src, n, whole=False):
        if not (is_ptr(dst) and isinstance(dst[2], int)):
            return
        if not (is_ptr(src) and isinstance(src[2], int)):
            c = st.wcells(dst[1])
            for k in list(c):
                c.pop(k)
            c['#hv'] = (0, 0)
            return
        d, s = dst[2], src[2]
        c = st.wcells(dst[1])
        for k in [k for k in c if isinstance(k, int) and d <= k < d + n]:
            del c[k]
        sc = dict(st.mem.get(src[1], {}))
        zero = False
        for k, e in sc.items():
            if isinstance(k, int) and s <= k < s + n:
                c[k - s + d] = e
            elif k == '#str':
                if e[0] >= s and e[0] < s + n:
                    c['#str'] = (e[0] - s + d, e[1])
        for a in st.alias.get(src[1], ()):
            lo, hi = max(a[0], s), min(a[0] + a[1], s + n)
            if lo < hi:
                st.alias[dst[1]] = st.alias.get(dst[1], ()) + ((lo - s + d, hi - lo, a[2], a[3] + lo - a[0]),)
        if '#z' in sc:
            # zero-initialised source: remaining bytes zero -- only keep if whole dst covered
            c['#z'] = (0, 0)
        else:
            k = self.obj_kind.get(src[1], ('lazy',))
            if k[0] in ('lazy', 'global'):
                st.alias[dst[1]] = st.alias.get(dst[1], ()) + ((d, n, src[1], s),)

    def branch(self, st, fr, ins, cond, on_true, on_false):
        d = self.decide(st, cond)
        if d is True:
            self.goto(st, fr, on_true)
            return
        if d is False:
            self.goto(st, fr, on_false)
            return
        key = ('fork', fr.blk, id(ins))
        n = fr.cnt.get(key, 0)
        loops = irlib.loop_headers(fr.fn)
        sides = [(True, on_true), (False, on_false)]
        if n >= self.loop_forks:
            # the branch has been split often enough inside this activation: leave the loop
            exits = []
            for h, body in sorted(loops.items(), key=lambda l: len(l[1])):
                if fr.blk in body:
                    exits = [(t, tgt) for t, tgt in sides if tgt not in body]
                    if exits:
                        break
            if exits and len(exits) < 2:
                sides = exits
            elif len(exits) == 0 and n >= self.loop_forks + 2:
                sides = sides[-1:]
        fr.cnt[key] = n + 1
        if len(sides) == 2:
            s2 = st.copy()
            f2 = s2.frames[-1]
            if self.refine(s2, cond, sides[1][0]):
                self.goto(s2, f2, sides[1][1])
                self.fork(s2)
        if self.refine(st, cond, sides[0][0]):
            self.goto(st, fr, sides[0][1])
        else:
            raise PathEnd()

    def goto(self, st, fr, blk):
        key = ('b', blk)
        n = fr.cnt.get(key, 0) + 1
        fr.cnt[key] = n
        if n > self.loop_concrete:
            raise Budget("loop bound in %s" % fr.fn.name)
        fr.prev = fr.blk
        fr.blk = blk
        fr.idx = 0
        # phis in parallel
        b = fr.fn.blocks[blk]
        if b.insts and b.insts[0].op == 'phi':
            news = []
            for ins in b.insts:
                if ins.op != 'phi':
                    break
                for v, p in ins.a[0]:
                    if p == fr.prev:
                        news.append((ins.res, self.val(st, fr, v, ins.ty)))
                        break
                else:
                    raise AnalysisError("phi without edge")
            for r, v in news:
                fr.env[r] = v
            fr.idx = len(news)

    def step_loop(self, st):
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk].insts[fr.idx]
            fr.idx += 1
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget("more than %d steps" % self.max_steps)
            op = ins.op
            if op == 'load':
                fr.env[ins.res] = self.load(st, fr, ins, self.val(st, fr, ins.a[0], ('ptr',)), ins.ty)
            elif op == 'getelementptr':
                bt, base, idx = ins.a
                fr.env[ins.res] = self.gep(st, fr.fn.mod, bt, self.val(st, fr, base, ('ptr',)),
                                           [(t, self.val(st, fr, v, t)) for t, v in idx])
            elif op == 'br':
                if len(ins.a) == 1:
                    self.goto(st, fr, ins.a[0])
                else:
                    self.branch(st, fr, ins, self.val(st, fr, ins.a[0], ('i', 1)), ins.a[1], ins.a[2])
            elif op == 'icmp':
                pred, a, b = ins.a
                w = ins.ty[1] if ins.ty[0] == 'i' else 64
                fr.env[ins.res] = self.icmp(st, pred, self.val(st, fr, a, ins.ty), self.val(st, fr, b, ins.ty), w)
            elif op == 'call':
                self.call(st, fr, ins)
            elif op == 'store':
                v, d = ins.a
                self.store(st, fr, ins, self.val(st, fr, v, ins.ty), self.val(st, fr, d, ('ptr',)), ins.ty)
            elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
                if ins.ty[0] != 'i':
                    fr.env[ins.res] = st.fresh('vec', 64)
                    continue
                va, vb = self.val(st, fr, ins.a[0], ins.ty), self.val(st, fr, ins.a[1], ins.ty)
                if self.on_arith and op in DIVSHIFT and not isinstance(vb, int):
                    self.on_arith(self, st, fr, ins, op, va, vb, ins.ty[1])
                fr.env[ins.res] = self.binop(op, va, vb, ins.ty[1], ins)
            elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
                sty, v = ins.a
                sw = sty[1] if sty[0] == 'i' else 64
                dw = ins.ty[1] if ins.ty[0] == 'i' else 64
                fr.env[ins.res] = self.cast(op, self.val(st, fr, v, sty), sw, dw)
            elif op == 'ret':
                v = ins.a[0]
                rv = self.val(st, fr, v, ins.ty) if v is not None else None
                if self.on_return:
                    self.on_return(self, st, fr, ins, rv)
                st.frames.pop()
                if not st.frames:
                    st.ret = rv
                    self.paths += 1
                    self.final.append(st)
                    return
                if fr.res is not None:
                    st.frames[-1].env[fr.res] = rv
            elif op == 'phi':
                raise AnalysisError("stray phi")
            elif op == 'select':
                c, a, b = ins.a
                cv = self.val(st, fr, c, ('i', 1))
                d = self.decide(st, cv)
                va, vb = self.val(st, fr, a, ins.ty), self.val(st, fr, b, ins.ty)
                if d is None and va != vb:
                    s2 = st.copy()
                    if self.refine(s2, cv, False):
                        s2.frames[-1].env[ins.res] = vb
                        self.fork(s2)
                    if not self.refine(st, cv, True):
                        raise PathEnd()
                    fr.env[ins.res] = va
                else:
                    fr.env[ins.res] = va if d is not False else vb
            elif op == 'switch':
                self.do_switch(st, fr, ins)
            elif op == 'alloca':
                ty, cnt = ins.a
                o = "A:%s:%s#%d" % (fr.fn.name, ins.res, len(st.frames))
                st.ctr += 1
                o = "%s.%d" % (o, st.ctr)
                self.obj_kind[o] = ('alloca', ins)
                st.mem[o] = {}
                st.own.add(o)
                fr.env[ins.res] = ('p', o, 0)
            elif op == 'unreachable':
                st.emit_ev('unreachable', ins)
                raise PathEnd()
            elif op == 'extractvalue':
                ty, v, idx = ins.a
                x = self.val(st, fr, v, ty)
                for i in idx:
                    x = x[i + 1] if isinstance(x, tuple) and x[0] == 'a' and i + 1 < len(x) else ('e', 'ext%d' % i, 64, x)
                    ty = fr.fn.mod.resolve(ty)
                    ty = ty[1][i] if ty[0] == 'struct' else ty[2]
                    if is_sym(x) and x[0] == 'e' and x[1].startswith('ext'):
                        x = ('e', x[1], ty[1] if ty[0] == 'i' else 64, x[3])
                fr.env[ins.res] = x
            elif op == 'insertvalue':
                v, ty2, v2, idx = ins.a
                x = self.val(st, fr, v, ins.ty)
                n = self.val(st, fr, v2, ty2)
                fr.env[ins.res] = self.insval(fr.fn.mod, ins.ty, x, n, idx)
            elif op == 'freeze':
                fr.env[ins.res] = self.val(st, fr, ins.a[0], ins.ty)
            elif op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
                sty, v = ins.a
                fr.env[ins.res] = self.fcast(op, self.val(st, fr, v, sty), sty, ins.ty)
            elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                a, b = self.val(st, fr, ins.a[0], ins.ty), self.val(st, fr, ins.a[1], ins.ty)
                if self.on_arith and op in ('fdiv', 'frem'):
                    self.on_arith(self, st, fr, ins, op, a, b, ins.ty[1])
                fr.env[ins.res] = ('e', op, ins.ty[1], a, b)
            elif op == 'fneg':
                fr.env[ins.res] = ('e', 'fneg', ins.ty[1], self.val(st, fr, ins.a[0], ins.ty))
            elif op == 'fcmp':
                pred, a, b = ins.a
                fr.env[ins.res] = self.fcmp(st, pred, self.val(st, fr, a, ins.ty), self.val(st, fr, b, ins.ty))
            elif op == 'atomicrmw':
                k, p, v = ins.a
                pv = self.val(st, fr, p, ('ptr',))
                st.emit_ev('atomic', ins, k, pv, self.val(st, fr, v, ins.ty))
                fr.env[ins.res] = st.fresh('rmw', ins.ty[1] if ins.ty[0] == 'i' else 64)
            elif op == 'cmpxchg':
                st.emit_ev('atomic', ins, 'cmpxchg', self.val(st, fr, ins.a[0], ('ptr',)))
                fr.env[ins.res] = ('a', st.fresh('cx', 64), st.fresh('cxok', 1))
            else:
                fr.env[ins.res] = st.fresh(op, 64)

    def fcmp(self, st, pred, a, b):
        if isinstance(a, tuple) and a[0] == 'f' and isinstance(b, tuple) and b[0] == 'f':
            x, y = a[1], b[1]
            return int({'oeq': x == y, 'une': x != y, 'olt': x < y, 'ogt': x > y, 'ole': x <= y, 'oge': x >= y,
                        'ult': x < y, 'ugt': x > y, 'ule': x <= y, 'uge': x >= y, 'one': x != y,
                        'ueq': x == y}.get(pred, 0))
        return ('e', 'fcmp', 1, pred, a, b)

    def insval(self, mod, ty, x, n, idx):
        ty = mod.resolve(ty)
        cnt = len(ty[1]) if ty[0] == 'struct' else ty[1]
        if not (isinstance(x, tuple) and x[0] == 'a'):
            x = ('a',) + (('s', 'undef', 64),) * cnt
        l = list(x)
        i = idx[0]
        if len(idx) == 1:
            l[i + 1] = n
        else:
            l[i + 1] = self.insval(mod, ty[1][i] if ty[0] == 'struct' else ty[2], l[i + 1], n, idx[1:])
        return tuple(l)

    def do_switch(self, st, fr, ins):
        v, ty, dflt, cases = ins.a
        x = self.val(st, fr, v, ty)
        w = ty[1]
        if isinstance(x, int):
            for c, l in cases:
                if mask(c, w) == mask(x, w):
                    self.goto(st, fr, l)
                    return
            self.goto(st, fr, dflt)
            return
        feasible = []
        for c, l in cases:
            r = self.decide_icmp(st, 'eq', x, mask(c, w), w)
            if r is True:
                self.goto(st, fr, l)
                return
            if r is None:
                feasible.append((c, l))
        # default
        s0 = st.copy()
        for c, l in feasible:
            s2 = st.copy()
            if self.assume_icmp(s2, 'eq', x, mask(c, w), w):
                self.goto(s2, s2.frames[-1], l)
                self.fork(s2)
        ok = True
        for c, l in feasible:
            if not self.assume_icmp(s0, 'ne', x, mask(c, w), w):
                ok = False
                break
        if ok:
            self.goto(s0, s0.frames[-1], dflt)
            self.fork(s0)
        raise _Switched()

    def call(self, st, fr, ins):
        cal, args = ins.a
        avals = [self.val(st, fr, v, t) for t, v, _ in args]
        if cal[0] == 'glob':
            name = cal[1]
        else:
            f = self.val(st, fr, cal, ('ptr',)) if cal[0] != 'asm' else None
            if isinstance(f, tuple) and f[0] == 'fn':
                name = f[1]
            else:
                st.emit_ev('icall', ins, f, tuple(avals))
                if ins.res is not None:
                    fr.env[ins.res] = self.fresh_ret(st, fr.fn.mod, ins.ty, 'icall')
                return
        self.call_named(st, fr, ins, name, avals, args)

    def fresh_ret(self, st, mod, ty, nm):
        ty = mod.resolve(ty)
        if ty[0] == 'ptr':
            o = st.fresh_obj(nm)
            self.obj_kind[o] = ('lazy',)
            return ('p', o, 0)
        if ty[0] == 'struct':
            return ('a',) + tuple(self.fresh_ret(st, mod, t, nm) for t in ty[1])
        if ty[0] == 'arr':
            return ('a',) + tuple(self.fresh_ret(st, mod, ty[2], nm) for _ in range(ty[1]))
        if ty[0] == 'void':
            return None
        return st.fresh(nm, ty[1] if ty[0] == 'i' else 64)

    def call_named(self, st, fr, ins, name, avals, args):
        mod = fr.fn.mod
        if self.on_call:
            r = self.on_call(self, st, fr, ins, name, avals)
            if r is not None:
                self.finish_call(st, fr, ins, r)
                return
        m = self.models.get(name)
        if m is None and name.startswith('llvm.'):
            base = name.split('.')[1]
            m = self.models.get('llvm.' + base)
            if m is None:
                m = self.models.get(".".join(name.split('.')[:3]))
        if m is not None:
            r = m(self, st, fr, ins, avals)
            self.finish_call(st, fr, ins, r)
            return
        fn = self.find_fn(name, mod)
        if fn is not None:
            nfix = len(fn.params)
            self.push(st, fn, avals[:nfix], ins.res, avals[nfix:], ins)
            return
        if self.ext_default:
            r = self.ext_default(self, st, fr, ins, name, avals)
            if r is not None:
                self.finish_call(st, fr, ins, r)
                return
        st.emit_ev('ext', ins, name, tuple(avals))
        if ins.res is not None:
            fr.env[ins.res] = self.fresh_ret(st, mod, ins.ty, name)

    def finish_call(self, st, fr, ins, r):
        """r: ('v', value) | ('forks', [(state, value)])"""
        if r[0] == 'v':
            if ins.res is not None:
                fr.env[ins.res] = r[1]
            return
        forks = r[1]
        if not forks:
            raise PathEnd()
        mine = None
        for s, v in forks:
            if s is st:
                mine = v
                has = True
        for s, v in forks:
            if s is st:
                continue
            if ins.res is not None:
                s.frames[-1].env[ins.res] = v
            self.fork(s)
        if any(s is st for s, _ in forks):
            if ins.res is not None:
                fr.env[ins.res] = mine
        else:
            raise PathEnd()


class _Switched(PathEnd):
    pass


def tstr(t):
    if isinstance(t, int):
        return str(t)
    if isinstance(t, tuple):
        if t[0] == 's':
            return t[1]
        if t[0] == 'e':
            return "%s(%s)" % (t[1], ",".join(tstr(x) for x in t[3:]))
        if t[0] == 'p':
            return "&%s+%s" % (t[1], tstr(t[2]))
    return str(t)


def canon_rel(pred, a, b):
    """-> (key, negated) with key pred in eq/slt/ult"""
    if pred in ('eq', 'ne'):
        x, y = sorted((a, b), key=repr)
        return ('eq', x, y), pred == 'ne'
    s = pred[0]
    k = pred[1:]
    if k == 'lt':
        return (s + 'lt', a, b), False
    if k == 'ge':
        return (s + 'lt', a, b), True
    if k == 'gt':
        return (s + 'lt', b, a), False
    return (s + 'lt', b, a), True


def norm_parts(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        else:
            out.append(p)
    return tuple(out)


# ------------------------------------------------------------------ models of libc / intrinsics

def V(x=None):
    return ('v', x)


def install_models(E):
    M = E.models

    def noop(e, st, fr, ins, a):
        return V(e.fresh_ret(st, fr.fn.mod, ins.ty, 'noop') if ins.res else None)

    for n in ('llvm.lifetime', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.va_end', 'llvm.assume',
              'llvm.experimental'):
        M[n] = noop

    def va_start(e, st, fr, ins, a):
        if is_ptr(a[0]):
            st.wcells(a[0][1])['#va'] = (0, tuple(fr.va or ()))
        return V()
    M['llvm.va_start'] = va_start

    def va_copy(e, st, fr, ins, a):
        if is_ptr(a[0]) and is_ptr(a[1]):
            st.wcells(a[0][1])['#va'] = st.mem.get(a[1][1], {}).get('#va', (0, None))
        return V()
    M['llvm.va_copy'] = va_copy

    def ovf(kind):
        def f(e, st, fr, ins, a):
            nm = ins.a[0][1]
            w = int(nm.rsplit('.i', 1)[1])
            x, y = a
            op = kind[1:]
            if isinstance(x, int) and isinstance(y, int):
                if kind[0] == 's':
                    u, v = sgn(x, w), sgn(y, w)
                else:
                    u, v = x, y
                r = u + v if op == 'add' else u - v if op == 'sub' else u * v
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if kind[0] == 's' else (0, (1 << w) - 1)
                return V(('a', mask(r, w), int(not lo <= r <= hi)))
            return V(('a', e.binop(op, x, y, w), ('e', 'ovf', 1, kind, x, y, w)))
        return f
    for k in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul'):
        M['llvm.%s.with' % k] = ovf(k)
        M['llvm.' + k] = ovf(k)

    def expect(e, st, fr, ins, a):
        return V(a[0])
    M['llvm.expect'] = expect

    def memcpy(e, st, fr, ins, a):
        d, s, n = a[0], a[1], a[2]
        if isinstance(n, tuple) and n[0] == 'len' or (is_sym(n) and n[0] == 'e' and n[1] == 'strlen+'):
            pass
        ps = e.get_str(st, s) if is_ptr(s) else None
        if is_sym(n) and is_ptr(d):
            ln = st.x.get(('lenof', n))
            if ln is not None and is_ptr(s) and ps is not None and ln[0] == ps:
                e.set_str(st, d, ps)
                return V(d)
            if isinstance(d[2], int):
                e.set_str(st, d, (('S', 'memcpy(%s,%s)' % (tstr(s), tstr(n))),))
            else:
                c = st.wcells(d[1])
                c.clear()
                c['#hv'] = (0, 0)
            return V(d)
        if isinstance(n, int):
            cs = e.conc(ps) if ps is not None else None
            k = e.obj_kind.get(s[1], ('lazy',))[0] if is_ptr(s) else None
            sc = st.mem.get(s[1], {}) if is_ptr(s) else {}
            if cs is not None and is_ptr(s) and ('#str' in sc or ('strval', s[1]) in st.x or
                                                 (k == 'global' and e.obj_kind[s[1]][1].glob(e.obj_kind[s[1]][2])[0][0] == 'arr'
                                                  and e.obj_kind[s[1]][1].glob(e.obj_kind[s[1]][2])[0][2] == ('i', 8))):
                if n <= len(cs) and n > 0:
                    e.set_str(st, d, (cs[:n],))
                    return V(d)
                if n == len(cs) + 1:
                    e.set_str(st, d, (cs,))
                    return V(d)
                if n == 0:
                    return V(d)
            e.memcpy(st, d, s, n)
        elif is_ptr(d):
            c = st.wcells(d[1])
            c.clear()
            c['#hv'] = (0, 0)
        return V(d)
    M['llvm.memcpy'] = M['memcpy'] = M['llvm.memmove'] = M['memmove'] = memcpy

    def memset(e, st, fr, ins, a):
        d, v, n = a[0], a[1], a[2]
        if is_ptr(d):
            c = st.wcells(d[1])
            if isinstance(d[2], int) and isinstance(n, int):
                for k in [k for k in c if isinstance(k, int) and d[2] <= k < d[2] + n]:
                    del c[k]
                c.pop('#str', None)
                if v == 0:
                    c['#z'] = (0, 0)
            else:
                c.clear()
                if v == 0:
                    c['#z'] = (0, 0)
        return V(d)
    M['llvm.memset'] = M['memset'] = memset

    def malloc(zero, never_null=True):
        def f(e, st, fr, ins, a):
            o = st.fresh_obj("H:%s" % fr.fn.name)
            e.obj_kind[o] = ('heap', ins) if never_null else ('lazy',)
            st.mem[o] = {'#z': (0, 0)} if zero else {}
            st.own.add(o)
            return V(('p', o, 0))
        return f
    for n in ('malloc', 'xmalloc', 'arena_alloc', 'arena_allocate'):
        M[n] = malloc(False)
    for n in ('calloc', 'xcalloc'):
        M[n] = malloc(True)

    def realloc(e, st, fr, ins, a):
        o = st.fresh_obj("H:%s" % fr.fn.name)
        e.obj_kind[o] = ('heap', ins)
        st.mem[o] = {}
        st.own.add(o)
        if is_ptr(a[0]) and isinstance(a[0][2], int):
            e.memcpy(st, ('p', o, 0), ('p', a[0][1], 0), 1 << 20)
        return V(('p', o, 0))
    M['realloc'] = M['xrealloc'] = realloc

    def free(e, st, fr, ins, a):
        return V()
    M['free'] = free

    def end(e, st, fr, ins, a):
        st.emit_ev('exit', ins, ins.a[0][1], tuple(a))
        raise PathEnd()
    for n in ('exit', '_exit', 'abort', '__assert_fail', 'quick_exit'):
        M[n] = end

    def strlen(e, st, fr, ins, a):
        p = e.get_str(st, a[0])
        c = e.conc(p)
        if c is not None:
            return V(len(c))
        t = ('s', "strlen(%s)" % (repr(p) if p else tstr(a[0])), 64)
        if t not in st.cons:
            mn = sum(len(x) for x in p if isinstance(x, str)) if p else 0
            st.cons[t] = (mn, (1 << 31) - 2, mn, (1 << 31) - 2, frozenset())
        st.x[('lenof', t)] = (p,)
        return V(t)
    M['strlen'] = strlen

    def eqres(e, st, ins, forks):
        out = []
        for s, eq in forks:
            if eq:
                out.append((s, 0))
            else:
                t = s.fresh('cmp', 32)
                s.cons[t] = (-(1 << 31), (1 << 31) - 1, 0, (1 << 32) - 1, frozenset([0]))
                out.append((s, t))
        return ('forks', out)

    def strcmp(e, st, fr, ins, a):
        pa, pb = e.get_str(st, a[0]), e.get_str(st, a[1])
        ca, cb = e.conc(pa), e.conc(pb)
        if ca is not None and cb is not None:
            return V(0 if ca == cb else (1 if ca > cb else mask(-1, 32)))
        return eqres(e, st, ins, e.str_eq_fork(st, pa, pb))
    M['strcmp'] = M['strcasecmp'] = strcmp

    def strncmp(e, st, fr, ins, a):
        pa, pb, n = e.get_str(st, a[0]), e.get_str(st, a[1]), a[2]
        ca, cb = e.conc(pa), e.conc(pb)
        if isinstance(n, int) and ca is not None and cb is not None:
            x, y = ca[:n], cb[:n]
            return V(0 if x == y else (1 if x > y else mask(-1, 32)))
        if isinstance(n, int):
            for p, c, ptr in ((pa, cb, a[0]), (pb, ca, a[1])):
                if c is not None and p and len(p) == 1 and p[0][0] == 'S' and len(p[0]) == 2 and len(c) >= n:
                    obj = p[0][1]
                    pre = c[:n]
                    known = st.x.get(('strpre', obj), ())
                    for q, t in known:
                        if t and (q.startswith(pre)):
                            return V(0)
                        if t and not pre.startswith(q):
                            return eqres(e, st, ins, [(st, False)])
                        if not t and pre.startswith(q):
                            return eqres(e, st, ins, [(st, False)])
                    s2 = st.copy()
                    s2.x[('strpre', obj)] = known + ((pre, True),)
                    st.x[('strpre', obj)] = known + ((pre, False),)
                    return eqres(e, st, ins, [(s2, True), (st, False)])
                if c is not None and p and isinstance(p[0], str):
                    k = min(n, len(p[0]))
                    if p[0][:k] != c[:k]:
                        return eqres(e, st, ins, [(st, False)])
                    if k == n:
                        return V(0)
        return eqres(e, st, ins, e.fork_key(st, ('strncmp', repr(pa), repr(pb), tstr(n))))
    M['strncmp'] = strncmp

    def memcmp(e, st, fr, ins, a):
        return strncmp(e, st, fr, ins, a)
    M['memcmp'] = M['bcmp'] = memcmp

    def strncpy(e, st, fr, ins, a):
        p = e.get_str(st, a[1])
        c = e.conc(p)
        if c is not None and isinstance(a[2], int) and is_ptr(a[0]) and isinstance(a[0][2], int):
            if len(c) < a[2]:
                e.set_str(st, a[0], (c,))
            else:
                for i in range(a[2]):
                    e.store(st, fr, ins, ord(c[i]), ('p', a[0][1], a[0][2] + i), ('i', 8))
            return V(a[0])
        return None
    M['strncpy'] = strncpy

    def strchr_(rev):
        def f(e, st, fr, ins, a):
            p = e.get_str(st, a[0])
            c = e.conc(p)
            ch = a[1]
            if isinstance(ch, int) and is_ptr(a[0]) and isinstance(a[0][2], int):
                ch &= 255
                if c is not None:
                    if ch == 0:
                        return V(('p', a[0][1], a[0][2] + len(c)))
                    k = c.rfind(chr(ch)) if rev else c.find(chr(ch))
                    return V(0 if k < 0 else ('p', a[0][1], a[0][2] + k))
                if p and isinstance(p[0], str) and not rev and chr(ch) in p[0]:
                    return V(('p', a[0][1], a[0][2] + p[0].find(chr(ch))))
            out = []
            for s, t in e.fork_key(st, ('strchr', rev, repr(p), tstr(ch))):
                if t:
                    off = ('s', "pos(%s,%s)" % (tstr(ch), repr(p)), 64)
                    s.cons.setdefault(off, (0, (1 << 31), 0, 1 << 31, frozenset()))
                    out.append((s, ('p', a[0][1], e.off_add(a[0][2], off, 1, ('i', 64))) if is_ptr(a[0]) else
                                e.fresh_ret(s, fr.fn.mod, ('ptr',), 'strchr')))
                else:
                    out.append((s, 0))
            return ('forks', out)
        return f
    M['strchr'] = strchr_(False)
    M['strrchr'] = strchr_(True)

    def strstr(e, st, fr, ins, a):
        p, q = e.get_str(st, a[0]), e.get_str(st, a[1])
        c, d = e.conc(p), e.conc(q)
        if c is not None and d is not None and isinstance(a[0][2], int):
            k = c.find(d)
            return V(0 if k < 0 else ('p', a[0][1], a[0][2] + k))
        out = []
        for s, t in e.fork_key(st, ('strstr', repr(p), repr(q))):
            out.append((s, e.fresh_ret(s, fr.fn.mod, ('ptr',), 'strstr') if t else 0))
            if t:
                s.x[('null', out[-1][1][1])] = False
        return ('forks', out)
    M['strstr'] = strstr

    def strdup(e, st, fr, ins, a):
        o = st.fresh_obj("H:strdup")
        e.obj_kind[o] = ('heap', ins)
        st.mem[o] = {}
        st.own.add(o)
        e.set_str(st, ('p', o, 0), e.get_str(st, a[0]) or (('S', tstr(a[0])),))
        return V(('p', o, 0))
    M['strdup'] = M['xstrdup'] = strdup

    def arena_strdup(e, st, fr, ins, a):
        return strdup(e, st, fr, ins, [a[1]])
    M['arena_strdup'] = arena_strdup

    def strndup(e, st, fr, ins, a):
        o = st.fresh_obj("H:strndup")
        e.obj_kind[o] = ('heap', ins)
        st.mem[o] = {}
        st.own.add(o)
        p = e.get_str(st, a[0])
        c = e.conc(p)
        if c is not None and isinstance(a[1], int):
            parts = (c[:a[1]],)
        else:
            parts = (('S', "ndup(%s,%s)" % (repr(p), tstr(a[1]))),)
        e.set_str(st, ('p', o, 0), parts)
        return V(('p', o, 0))
    M['strndup'] = M['xstrndup'] = strndup

    def arena_strndup(e, st, fr, ins, a):
        return strndup(e, st, fr, ins, [a[1], a[2]])
    M['arena_strndup'] = arena_strndup

    def fmt_parts(e, st, fmt, args):
        """format with printf semantics into parts"""
        f = e.conc(e.get_str(st, fmt)) if not isinstance(fmt, str) else fmt
        if f is None:
            return (('S', 'fmt'),)
        return format_parts(e, st, f, list(args))

    def do_sn(e, st, dst, size, parts):
        c = e.conc(parts)
        if c is not None:
            if isinstance(size, int) and len(c) >= size and size > 0 and is_ptr(dst):
                e.set_str(st, dst, (c[:size - 1],))
            elif is_ptr(dst) and size != 0:
                e.set_str(st, dst, (c,) if c else ())
            return len(c)
        if is_ptr(dst) and size != 0:
            e.set_str(st, dst, parts)
        t = ('s', "strlen(%s)" % repr(norm_parts(parts)), 32)
        if t not in st.cons:
            mn = sum(len(x) for x in parts if isinstance(x, str))
            hi = max(mn, min(200, (size - 1) if isinstance(size, int) and size > 0 else 200))
            st.cons[t] = (mn, hi, mn, hi, frozenset())
        return t

    def snprintf(e, st, fr, ins, a):
        parts = fmt_parts(e, st, a[2], a[3:])
        return V(do_sn(e, st, a[0], a[1], parts))
    M['snprintf'] = snprintf

    def vsnprintf(e, st, fr, ins, a):
        va = st.mem.get(a[3][1], {}).get('#va') if is_ptr(a[3]) else None
        parts = fmt_parts(e, st, a[2], va[1]) if va and va[1] is not None else (('S', 'vfmt'),)
        return V(do_sn(e, st, a[0], a[1], parts))
    M['vsnprintf'] = vsnprintf

    def isx(f):
        def g(e, st, fr, ins, a):
            if isinstance(a[0], int):
                return V(int(f(chr(a[0] & 255))))
            return V(('e', ins.a[0][1], 32, a[0]))
        return g
    M['isdigit'] = isx(lambda c: c.isdigit())
    M['isalpha'] = isx(lambda c: c.isalpha())
    M['isalnum'] = isx(lambda c: c.isalnum())
    M['isspace'] = isx(lambda c: c in " \t\n\v\f\r")
    M['isupper'] = isx(lambda c: c.isupper())
    M['islower'] = isx(lambda c: c.islower())
    M['tolower'] = lambda e, st, fr, ins, a: V(ord(chr(a[0]).lower()) if isinstance(a[0], int) and a[0] < 128 else ('e', 'tolower', 32, a[0]))
    M['toupper'] = lambda e, st, fr, ins, a: V(ord(chr(a[0]).upper()) if isinstance(a[0], int) and a[0] < 128 else ('e', 'toupper', 32, a[0]))

    def atoi(e, st, fr, ins, a):
        c = e.conc(e.get_str(st, a[0]))
        if c is not None:
            import re
            m = re.match(r'\s*[-+]?\d+', c)
            return V(mask(int(m.group()) if m else 0, 32))
        return V(st.fresh('atoi', 32))
    M['atoi'] = atoi

    def io(e, st, fr, ins, a):
        return V(e.fresh_ret(st, fr.fn.mod, ins.ty, ins.a[0][1]) if ins.res else None)
    for n in ('fprintf', 'printf', 'fflush', 'fputs', 'puts', 'putchar', 'fputc'):
        M[n] = io


def format_parts(e, st, f, args):
    out = []
    i = 0
    n = len(f)
    ai = 0
    while i < n:
        c = f[i]
        if c != '%':
            j = f.find('%', i)
            if j < 0:
                j = n
            out.append(f[i:j])
            i = j
            continue
        j = i + 1
        while j < n and f[j] in '-+ #0':
            j += 1
        prec = None
        star = None
        while j < n and (f[j].isdigit() or f[j] == '*'):
            if f[j] == '*':
                ai += 1
            j += 1
        if j < n and f[j] == '.':
            j += 1
            if j < n and f[j] == '*':
                star = args[ai] if ai < len(args) else None
                ai += 1
                j += 1
            else:
                k = j
                while j < n and f[j].isdigit():
                    j += 1
                prec = int(f[k:j] or 0)
        while j < n and f[j] in 'hlLqjzt':
            j += 1
        conv = f[j] if j < n else '%'
        spec = f[i:j + 1]
        i = j + 1
        if conv == '%':
            out.append('%')
            continue
        v = args[ai] if ai < len(args) else ('s', 'missingarg', 64)
        ai += 1
        if conv == 's':
            p = e.get_str(st, v)
            if p is None:
                p = (('S', tstr(v)),)
            cs = e.conc(p)
            lim = star if star is not None else prec
            if lim is not None:
                if cs is not None and isinstance(lim, int):
                    p = (cs[:lim],)
                else:
                    p = (('S', "pre(%s,%s)" % (repr(p), tstr(lim))),)
            out.extend(p)
        elif conv in 'diu' and isinstance(v, int) and len(spec) <= 4:
            w = 64 if 'l' in spec or 'z' in spec or 'j' in spec else 32
            out.append(str(sgn(v, w) if conv != 'u' else mask(v, w)))
        elif conv == 'c' and isinstance(v, int):
            out.append(chr(v & 255))
        elif conv in 'xX' and isinstance(v, int) and spec in ('%x', '%X'):
            out.append(format(v, conv))
        else:
            out.append(('N', spec, v))
    return norm_parts(out)
