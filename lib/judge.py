"""Judging emitted C templates.

A template found by the emission analysis (cg.py) is wrapped into a C function whose holes are
calls to undefined `H_<hole>()` functions, compiled together with the repository's own runtime
headers to IR, and interpreted abstractly (absint.py) together with the runtime's own code.
The returned term, the path conditions and the panic events are then compared with the
arithmetic the language promises.
"""
import re
import os
import subprocess
import irlib
import absint
from absint import Engine, State, V, is_ptr, is_sym, sgn, mask, PathEnd
from irlib import AnalysisError

CTYPE = {'int': 'int64_t', 'i64': 'int64_t', 'i32': 'int32_t', 'i16': 'int16_t', 'i8': 'int8_t',
         'uint': 'uint64_t', 'u64': 'uint64_t', 'u32': 'uint32_t', 'u16': 'uint16_t', 'u8': 'uint8_t',
         'byte': 'uint8_t', 'char': 'int32_t', 'bool': 'bool', 'float': 'double', 'f64': 'double', 'f32': 'float',
         'string': 'GrayString', 'i128': 'gray_i128', 'u128': 'gray_u128', 'i256': 'gray_i256', 'u256': 'gray_u256'}
WIDTH = {'int': 64, 'i64': 64, 'i32': 32, 'i16': 16, 'i8': 8, 'uint': 64, 'u64': 64, 'u32': 32, 'u16': 16,
         'u8': 8, 'byte': 8, 'char': 32, 'bool': 8}
SIGNED = {'int', 'i64', 'i32', 'i16', 'i8', 'char'}
PANICS = {'gray_panic', 'gray_panic_code', 'gray_panic_code_at'}


def trange(t):
    w = WIDTH[t]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t in SIGNED else (0, (1 << w) - 1)


class Lv:
    """an lvalue hole of C type t"""
    def __init__(self, t):
        self.t = t


def render(parts, holes):
    """holes: node object name -> (hname, ctype, is_lvalue).  Returns C text."""
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        elif p[0] == 'E':
            h = holes.get(p[1])
            if h is None:
                raise AnalysisError("template contains a hole for an unexpected node %s" % p[1])
            out.append("(*H_%s())" % h[0] if h[2] else "H_%s()" % h[0])
        elif p[0] == 'N':
            out.append("1")
        elif p[0] == 'S':
            h = holes.get(p[1])
            if h is not None:
                out.append(h[0])
            else:
                out.append("gray_x")
        else:
            raise AnalysisError("template contains an unrenderable part %r" % (p,))
    return "".join(out)


class Harness:
    """a set of wrapped templates compiled as one unit"""
    INC = ("#include \"runtime/runtime.h\"\n#include \"runtime/array.h\"\n#include \"runtime/map.h\"\n"
           "#include \"runtime/bigint.h\"\n#include \"stdlib/builtins.h\"\n#include \"stdlib/strings.h\"\n#include \"stdlib/maps.h\"\n#include \"stdlib/arrays.h\"\n"
           "extern GrayArena *_gray_outer_arena;\n")

    dirs = ("", "runtime", "stdlib")

    def __init__(self, tag):
        self.tag = tag
        self.fns = []          # (fname, code)
        self.decls = {}
        self.extra = ""

    def declare(self, hname, ctype, lv):
        d = "extern %s %sH_%s(void);" % (ctype, "*" if lv else "", hname)
        old = self.decls.get(hname)
        if old is not None and old != d:
            raise AnalysisError("hole %s declared twice" % hname)
        self.decls[hname] = d

    def add(self, code):
        n = "T%d" % len(self.fns)
        self.fns.append((n, code.replace("@FN@", n)))
        return n

    def text(self, only=None):
        return self.INC + self.extra + "\n".join(self.decls.values()) + "\n" + \
            "\n".join(c for n, c in self.fns if only is None or n == only) + "\n"

    def build(self):
        """-> Module; self.bad: fname -> compiler message for templates that are not valid C"""
        self.bad = {}
        src = os.path.join(irlib.REPO, "grayc/src")
        try:
            self.mod = self.compile(src)
        except AnalysisError:
            cand = self.fns
            for _ in range(6):
                head = self.text(only=0).rstrip("\n").count("\n") + 1
                lines, own = [], []
                for n, c in cand:
                    ls = c.split("\n")
                    lines += ls
                    own += [n] * len(ls)
                r = self.errors(self.text(only=0).rstrip("\n") + "\n" + "\n".join(lines) + "\n", src)
                hit = {}
                for ln, msg in r:
                    if ln - head - 1 < 0 or ln - head - 1 >= len(own):
                        raise AnalysisError("harness prelude does not compile: " + msg)
                    hit.setdefault(own[ln - head - 1], msg)
                if not hit:
                    break
                self.bad.update(hit)
                cand = [x for x in cand if x[0] not in hit]
            good = cand
            self.fns = good
            self.mod = self.compile(src)
        return self.mod

    def compile(self, src):
        ex = ["-std=gnu11"] + ["-I" + os.path.join(src, d) for d in self.dirs]
        return irlib.Module(irlib.build_ir("harness_%s.c" % self.tag, extra=ex, text=self.text(), tag=self.tag), "harness_" + self.tag)

    def errors(self, text, src):
        """compile errors of the unit as (line, message)"""
        r = subprocess.run([irlib.CLANG, "-std=gnu11", "-D_XOPEN_SOURCE=700", "-w", "-fsyntax-only", "-ferror-limit=0", "-fno-caret-diagnostics",
                            "-fmacro-backtrace-limit=1", *["-I" + os.path.join(src, d) for d in self.dirs], "-x", "c", "-"],
                           input=text, capture_output=True, text=True)
        return [(int(m.group(1)), m.group(2)) for m in re.finditer(r"^<stdin>:(\d+):\d+: (?:fatal )?error: (.*)$", r.stderr, re.M)]


class Runner:
    """interprets harness functions; records hole evaluations, panics, unchecked operations"""
    def __init__(self, mod, libs=("runtime/runtime.c", "runtime/array.c", "runtime/map.c", "stdlib/builtins.c",
                                  "stdlib/strings.c"), loop_forks=1):
        self.libs = [irlib.load(x) for x in libs]
        self.eng = Engine([mod] + self.libs)
        self.eng.loop_forks = loop_forks
        self.eng.max_steps = 2000000
        self.eng.on_call = self.on_call
        self.eng.on_arith = self.on_arith
        self.mod = mod
        self.check_panics()
        self.ends = None
        self.obj_holes = {}
        self.call_hook = None
        self.panic_codes = set()

    def check_panics(self):
        """panic entry points never return: every path of their bodies ends in an exit"""
        for p in PANICS:
            f = None
            for m in self.libs:
                f = f or m.funcs.get(p)
            if f is None:
                raise AnalysisError("anchor unresolved: %s" % p)
            for ins in f.insts():
                if ins.op == 'ret':
                    raise AnalysisError("%s can return to its caller" % p)

    def on_arith(self, e, st, fr, ins, op, a, b, w):
        st.emit_ev('arith', ins, op, a, b, w, self.div_ok(st, op, a, b, w))

    def div_ok(self, st, op, a, b, w):
        e = self.eng
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            nz = e.decide_icmp(st, 'ne', b, 0, w) is True
            ok = True
            if op in ('sdiv', 'srem'):
                mn = 1 << (w - 1)
                a_min = e.decide_icmp(st, 'ne', a, mn, w)
                b_m1 = e.decide_icmp(st, 'ne', b, mask(-1, w), w)
                ok = a_min is True or b_m1 is True
            return (nz, ok)
        if op in ('shl', 'lshr', 'ashr'):
            return (e.decide_icmp(st, 'ult', b, w, w) is True, True)
        return (True, True)

    def on_call(self, e, st, fr, ins, name, a):
        if self.call_hook:
            r = self.call_hook(e, st, fr, ins, name, a)
            if r is not None:
                return r
        if name == 'gray_string_new' and len(a) == 3:
            return V(('a', a[1], a[2]))                 # a copy with the same characters; memory is taken to suffice
        if name == 'gray_arena_alloc':
            n = st.x.get(('n', name), 0) + 1
            st.x[('n', name)] = n
            o = 'FRESH%d' % n
            e.obj_kind.setdefault(o, ('heap', None))
            st.x[('null', o)] = False
            return V(('p', o, 0))
        if name.startswith('H_'):
            k = ('n', name)
            n = st.x.get(k, 0) + 1
            st.x[k] = n
            st.emit_ev('eval', ins, name[2:])
            ty = fr.fn.mod.resolve(ins.ty)
            nm = name[2:] if n == 1 else "%s@%d" % (name[2:], n)
            if ty[0] == 'ptr':
                o = "OBJ:" + name[2:]
                if name in self.obj_holes and n == 1:
                    self.obj_holes[name](e, st, o)
                e.obj_kind.setdefault(o, ('lazy',))
                if ('null', o) not in st.x and not name.startswith('H_p'):
                    st.x[('null', o)] = False
                return V(('p', o, 0))
            if ty[0] == 'i':
                return V(('s', nm, ty[1]))
            if ty[0] in ('f', 'double', 'float'):
                return V(('s', nm, 64))
            if ty[0] == 'struct':
                return V(self.agg(fr.fn.mod, ty, nm))
            if ty[0] == 'void' and a and is_ptr(a[0]) and name.endswith('256'):
                cells = st.wcells(a[0][1])          # returned through memory, least significant word first
                for i in range(4):
                    cells[a[0][2] + 8 * i] = (8, ('s', '%s.%d' % (nm, i), 64))
                return V()
            return V(('s', nm, 64))
        if name in PANICS:
            code = None
            for v in a:
                s = e.conc(e.get_str(st, v)) if is_ptr(v) else None
                if s and re.fullmatch(r'P\d{4}', s):
                    code = s
            st.emit_ev('panic', ins, code)
            st.ret = None
            self.ends.append(st)
            raise PathEnd()
        return None

    def agg(self, mod, ty, nm):
        out = ['a']
        for i, t in enumerate(ty[1] if ty[0] == 'struct' else [ty[2]] * ty[1]):
            t = mod.resolve(t)
            if t[0] == 'ptr':
                o = "%s.%d" % (nm, i)
                self.eng.obj_kind.setdefault(o, ('lazy',))
                out.append(('p', o, 0))
            elif t[0] in ('struct', 'arr'):
                out.append(self.agg(mod, t, "%s.%d" % (nm, i)))
            else:
                out.append(('s', "%s.%d" % (nm, i), t[1] if t[0] == 'i' else 64))
        return tuple(out)

    def run(self, fname, args=(), st=None):
        """-> list of (kind, state): kind 'ret' | 'panic' """
        st = st or State()
        self.ends = []
        self.eng.start(fname, list(args), st, self.mod)
        fs = self.eng.run(st)
        res = [('ret', f) for f in fs] + [('panic', f) for f in self.ends]
        return res


# ------------------------------------------------------------------ integer meaning of terms

class Poly(dict):
    """integer polynomial over leaves: {monomial (sorted tuple of leaves): coefficient}"""
    def key(self):
        return tuple(sorted(((m, c) for m, c in self.items() if c), key=repr))


def pconst(c):
    return Poly({(): c}) if c else Poly()


def pleaf(l):
    return Poly({(l,): 1})


def padd(a, b, s=1):
    r = Poly(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = Poly()
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


class Meaning:
    """what integer does a machine term denote, given the abstract state of the path"""
    def __init__(self, eng, st, leaves):
        """leaves: symbol name -> (width, signed)"""
        self.e = eng
        self.st = st
        self.leaves = leaves
        self.why = None

    def ival(self, t, w, s):
        if isinstance(t, int):
            v = sgn(t, w) if s else mask(t, w)
            return (v, v)
        r = self.st.rng(t, w)
        return (r[0], r[1]) if s else (r[2], r[3])

    def fail(self, why):
        if self.why is None:
            self.why = why
        return None

    def of(self, t, w, s):
        """(poly, (lo,hi)) of the term read as a w-bit integer with signedness s; None if not exact"""
        if isinstance(t, int):
            v = sgn(t, w) if s else mask(t, w)
            return pconst(v), (v, v)
        lo, hi = self.ival(t, w, s)
        if lo == hi and not (t[0] == 's' and t[1] in self.leaves):
            pass
        if t[0] == 's':
            lf = self.leaves.get(t[1])
            if lf is None:
                return pleaf(t[1]), (lo, hi)
            if lf[1] == s:
                return pleaf(t[1]), (lo, hi)
            # other signedness: equal only where the value is in the common range
            l2, h2 = self.ival(t, w, lf[1])
            common = (0, (1 << (w - 1)) - 1)
            if l2 >= common[0] and h2 <= common[1]:
                return pleaf(t[1]), (l2, h2)
            return self.fail("%s is reinterpreted as %s although it may be %s" % (
                t[1], "signed" if s else "unsigned", "negative" if lf[1] else "above the signed maximum"))
        op = t[1]
        if op in ('zext', 'sext'):
            if t[4] == 1:
                return pleaf(absint.tstr(t)), (lo, hi)
            r = self.of(t[3], t[4], op == 'sext')
            if r is None:
                return None
            p, (a, b) = r
            # value of the extension read at width w: same integer unless negative read as unsigned
            if a < 0 and not s:
                l2, h2 = lo, hi
                if self.ival(t, w, True)[0] >= 0:
                    return p, (max(a, 0), b)
                return self.fail("a possibly negative value is read as unsigned")
            return p, (max(a, lo), min(b, hi))
        if op == 'trunc':
            iw = t[4]
            for s2 in (s, not s):
                r = self.of(t[3], iw, s2)
                if r is None:
                    continue
                p, (a, b) = r
                i2 = self.ival(t[3], iw, s2)
                a, b = max(a, i2[0]), min(b, i2[1])
                T = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
                if a >= T[0] and b <= T[1]:
                    self.why = None
                    return p, (max(a, lo), min(b, hi))
                self.fail("the value is truncated from %d to %d bits without being in range" % (iw, w))
            return None
        if op in ('add', 'sub', 'mul'):
            T = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            for rs in (s, not s):
                for sa in (s, not s):
                    for sb in (sa, not sa):
                        ra, rb = self.of(t[3], w, sa), self.of(t[4], w, sb)
                        if ra is None or rb is None:
                            continue
                        P, I = self.combine(op, ra, rb)
                        x = self.nowrap(t, op, w, rs, sa, sb, I)
                        if x is not None and x[0] >= T[0] and x[1] <= T[1]:
                            self.why = None
                            return P, x
            return self.fail("%s of %d bits may wrap around unnoticed" % ({'add': 'an addition', 'sub': 'a subtraction', 'mul': 'a multiplication'}[op], w))
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            so = op[0] == 's'
            ra, rb = self.of(t[3], w, so), self.of(t[4], w, so)
            if ra is None or rb is None:
                return None
            P = pleaf((op[1:], ra[0].key(), rb[0].key()))
            (a0, a1), (b0, b1) = ra[1], rb[1]
            if op[1:] == 'div':
                m = max(abs(a0), abs(a1))
                I = (0, a1) if a0 >= 0 and b0 >= 0 else (-m, m)
                # MIN / -1
                if a0 < 0:
                    amin = self.e.decide_icmp(self.st, 'ne', t[3], mask(a0, w), w)
                    bm1 = self.e.decide_icmp(self.st, 'ne', t[4], mask(-1, w), w)
                    if amin is True or bm1 is True:
                        I = (-m, max(a1, m - 1))
            else:
                I = (min(a0, 0), max(a1, 0))
            if s != so:
                if I[0] < 0 or I[1] >= (1 << (w - 1)):
                    return self.fail("a quotient is read with the other signedness")
            return P, I
        if op in ('shl', 'ashr', 'lshr', 'and', 'or', 'xor'):
            return pleaf(absint.tstr(t)), (lo, hi)
        return pleaf(absint.tstr(t)), (lo, hi)

    def combine(self, op, ra, rb):
        (p, (a0, a1)), (q, (b0, b1)) = ra, rb
        if op == 'add':
            return padd(p, q), (a0 + b0, a1 + b1)
        if op == 'sub':
            return padd(p, q, -1), (a0 - b1, a1 - b0)
        ps = (a0 * b0, a0 * b1, a1 * b0, a1 * b1)
        return pmul(p, q), (min(ps), max(ps))

    def nowrap(self, t, op, w, s, sa, sb, I):
        """interval of the exact result if reading `t` as a w-bit integer of signedness s is exact"""
        lo, hi = self.ival(t, w, s)
        # (a) the mathematical result always fits
        T = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        if I[0] >= T[0] and I[1] <= T[1]:
            return (max(I[0], lo), min(I[1], hi))
        # (b) the overflow flag of this very operation is known to be clear
        if sa == s and sb == s:
            kind = ('s' if s else 'u') + op
            x, y = t[3], t[4]
            cands = [(x, y), (y, x)] if op != 'sub' else [(x, y)]
            if op == 'add' and isinstance(y, int):       # sub of a constant is kept as add
                cands.append(None)
            for c in cands:
                if c is None:
                    f = ('e', 'ovf', 1, kind[0] + 'sub', x, mask(-y, w), w)
                else:
                    f = ('e', 'ovf', 1, kind, c[0], c[1], w)
                r = self.st.cons.get(f)
                if r is not None and r[3] == 0:
                    return (max(I[0], lo), min(I[1], hi))
            # (c) unsigned subtraction guarded by a comparison
            if op == 'sub' and not s:
                if self.e.decide_icmp(self.st, 'uge', x, y, w) is True:
                    return (max(0, lo), min(I[1], hi))
            if op == 'add' and not s and isinstance(y, int) and self.e.decide_icmp(self.st, 'uge', x, mask(-y, w), w) is True:
                return None
        # (d) the observed value leaves only one multiple of 2^w possible
        M = 1 << w
        ks = range((I[0] - hi) // M - 1, (I[1] - lo) // M + 2) if (I[1] - I[0]) // M < 8 else None
        if ks is not None:
            feas = [k for k in ks if lo + k * M <= I[1] and hi + k * M >= I[0]]
            if feas == [0]:
                return (max(I[0], lo), min(I[1], hi))
        return None

    def result_set(self, op, a, b, w_hint=64):
        """all integers the exact result may be on this path, as a list of intervals"""
        return None


def strip_ext(t, w):
    """outermost extension -> (inner, width, signed)"""
    if isinstance(t, tuple) and t[0] == 'e' and t[1] in ('zext', 'sext'):
        return t[3], t[4], t[1] == 'sext'
    return t, w, True
