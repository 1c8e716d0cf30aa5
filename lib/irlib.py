"""LLVM-18 textual IR: building it from /repo's sources and parsing it.

Everything the C-side checks decide is decided on this resolved program (types
resolved, macros expanded, callees resolved), never on source text.
Functions are parsed lazily.
"""
import os, re, subprocess, hashlib, tempfile, sys, shutil, atexit

REPO = os.environ.get("VERIF_REPO", "/repo")
GRAYC = os.path.join(REPO, "grayc")
CLANG = "/usr/bin/clang-18"
OPT = "/usr/bin/opt-18"

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-ir-")
        pid = os.getpid()

        def _rm(p=_scratch, pid=pid):
            if os.getpid() == pid:
                shutil.rmtree(p, ignore_errors=True)
        atexit.register(_rm)
    return _scratch


class AnalysisError(Exception):
    """The analysed program could not be resolved: reported as a violation."""


# ----------------------------------------------------------------- building

BASE = ["-std=c11", "-I" + os.path.join(GRAYC, "src"), "-DGRAY_VERSION=\"verif\"", "-w",
        "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names",
        "-fno-ident", "-S", "-emit-llvm"]


def feature_flags(path):
    # glibc declares realpath() & friends only with XOPEN; the analysis needs real prototypes
    return ["-D_POSIX_C_SOURCE=200809L", "-D_XOPEN_SOURCE=700"]


def build_ir(path, passes="mem2reg", extra=(), text=None, tag=""):
    """path: C file (or name used for `text`). Returns IR text."""
    d = scratch()
    key = hashlib.sha256((path + tag + passes + repr(extra) + (text or "")).encode()).hexdigest()[:20]
    src = path
    if text is not None:
        src = os.path.join(d, "%s.%d.c" % (key, os.getpid()))
        with open(src, "w") as f:
            f.write(text)
    key += ".%d" % os.getpid()         # the parts of a check may load the same file at the same time
    o = os.path.join(d, key + ".ll")
    o2 = os.path.join(d, key + ".m.ll")
    cmd = [CLANG] + BASE + feature_flags(path) + list(extra) + [src, "-o", o]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=GRAYC)
    if p.returncode != 0:
        raise AnalysisError("cannot compile %s to IR: %s" % (path, p.stdout.decode(errors="replace")[:1500]))
    if passes:
        p = subprocess.run([OPT, "-S", "-passes=" + passes, o, "-o", o2],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise AnalysisError("opt failed on %s: %s" % (path, p.stdout.decode(errors="replace")[:1500]))
        o = o2
    with open(o) as f:
        return f.read()


# ----------------------------------------------------------------- types
# types: ('i',n) ('ptr',) ('void',) ('f',bits) ('arr',n,t) ('struct',(ts),packed) ('named',name)
#        ('label',) ('metadata',) ('vec',n,t) ('fn',ret,(params),vararg)

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>[%@](?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)?)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMH]?[0-9A-Fa-f]+|-?\d+)
 | (?P<attr>\#\d+)
 | (?P<ell>\.\.\.)
 | (?P<id>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<p>[][(){}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        k = m(s, pos)
        if not k:
            if s[pos] == ';':
                break
            raise AnalysisError("IR token error at %r" % s[pos:pos + 60])
        if k.lastgroup != 'ws':
            out.append(k.group())
        pos = k.end()
    return out


PARAM_ATTRS = {"noundef", "signext", "zeroext", "nonnull", "noalias", "nocapture", "readonly", "writeonly",
               "readnone", "returned", "inreg", "immarg", "noinline", "nofree", "nest", "swiftself",
               "allocptr", "inalloca", "writable", "dead_on_unwind", "allocalign"}
PARAM_ATTRS_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype",
                   "range", "byref", "preallocated", "initializes", "captures", "memory"}
FLAGS = {"nsw", "nuw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn",
         "reassoc", "tail", "musttail", "notail", "volatile", "atomic", "nneg", "disjoint", "samesign"}


def unq(name):
    # %"foo" -> %foo
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name


class P:
    """token-stream parser for one line"""
    __slots__ = ("t", "i", "mod")

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.next() != x:
            raise AnalysisError("IR parse: expected %r in %r" % (x, " ".join(self.t)[:300]))

    def type(self):
        t = self.next()
        if t == 'ptr':
            r = ('ptr',)
            if self.peek() == 'addrspace':
                self.i += 4
        elif t == 'void':
            r = ('void',)
        elif t[0] == 'i' and t[1:].isdigit():
            r = ('i', int(t[1:]))
        elif t == 'double':
            r = ('f', 64)
        elif t == 'float':
            r = ('f', 32)
        elif t == 'x86_fp80':
            r = ('f', 80)
        elif t == 'half':
            r = ('f', 16)
        elif t == 'label':
            r = ('label',)
        elif t == 'metadata':
            r = ('metadata',)
        elif t == 'token':
            r = ('token',)
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('arr', n, e)
        elif t == '{':
            r = ('struct', self._fields('}'), False)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                r = ('struct', self._fields('}'), True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('vec', n, e)
        elif t[0] == '%':
            r = ('named', unq(t)[1:])
        else:
            raise AnalysisError("IR parse: type %r in %r" % (t, " ".join(self.t)[:300]))
        while self.peek() == '(' and False:
            pass
        return r

    def _fields(self, close):
        ts = []
        if self.accept(close):
            return tuple(ts)
        while True:
            ts.append(self.type())
            if self.accept(','):
                continue
            self.expect(close)
            return tuple(ts)

    def attrs(self):
        while True:
            t = self.peek()
            if t is None:
                return
            if t in PARAM_ATTRS:
                self.i += 1
            elif t in PARAM_ATTRS_ARG:
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                else:
                    self.i += 1  # align N
            elif t[0] == '"' or (t[0] == '#' and t[1:].isdigit()):
                self.i += 1
            else:
                return

    def flags(self):
        fl = []
        while self.peek() in FLAGS:
            fl.append(self.next())
        return fl

    # values: ('loc',name) ('glob',name) ('int',v,w) ('null',) ('undef',) ('zero',) ('fp',v)
    #         ('str',bytes) ('agg',[(ty,val)]) ('cgep',basety,val,[idx]) ('cexpr',op,...)
    def value(self, ty):
        t = self.next()
        c = t[0]
        if c == '%':
            return ('loc', unq(t)[1:])
        if c == '@':
            return ('glob', unq(t)[1:])
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'true':
            return ('int', 1, 1)
        if t == 'false':
            return ('int', 0, 1)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'none':
            return ('null',)
        if c == 'c' and t[1:2] == '"':
            return ('str', cstr(t[2:-1]))
        if ty[0] == 'f' and (c.isdigit() or c == '-'):
            if t.startswith('0x') and t[2:3] not in 'KLMH':
                import struct
                return ('fp', struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0])
            try:
                return ('fp', float(t))
            except ValueError:
                return ('undef',)
        if c.isdigit() or (c == '-' and t[1:2].isdigit()):
            w = ty[1] if ty[0] == 'i' else 64
            return ('int', int(t) & ((1 << w) - 1), w)
        if t == '{':
            return self._agg('}')
        if t == '[':
            return self._agg(']')
        if t == '<':
            if self.peek() == '{':
                self.next()
                r = self._agg('}')
                self.expect('>')
                return r
            return self._agg('>')
        if t == 'getelementptr':
            self.flags()
            if self.peek() == 'inrange':
                self.next()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            base = self.value(('ptr',))
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type()
                idx.append(self.value(it))
            self.expect(')')
            return ('cgep', bt, base, idx)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            st = self.type()
            v = self.value(st)
            self.expect('to')
            dt = self.type()
            self.expect(')')
            return ('ccast', t, st, v, dt)
        if t in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'icmp'):
            self.flags()
            if t == 'icmp':
                self.next()
            self.expect('(')
            a = self.type()
            va = self.value(a)
            self.expect(',')
            b = self.type()
            vb = self.value(b)
            self.expect(')')
            return ('cbin', t, a, va, vb)
        if t == 'asm':
            while self.peek() and self.peek()[0] != '"':
                self.next()
            a = self.next()
            self.expect(',')
            b = self.next()
            return ('asm', a, b)
        if t == 'blockaddress':
            raise AnalysisError("blockaddress")
        raise AnalysisError("IR parse: value %r in %r" % (t, " ".join(self.t)[:300]))

    def _agg(self, close):
        r = []
        if self.accept(close):
            return ('agg', r)
        while True:
            ty = self.type()
            r.append((ty, self.value(ty)))
            if self.accept(','):
                continue
            self.expect(close)
            return ('agg', r)

    def tv(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


def cstr(s):
    out = bytearray()
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.extend(c.encode())
            i += 1
    return bytes(out)


class Inst:
    __slots__ = ("op", "res", "ty", "a", "dbg", "blk", "idx", "flags", "fn")

    def __init__(self, op, res, ty, a, dbg, flags=()):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.dbg = dbg
        self.flags = flags

    def __repr__(self):
        return "<%s %s %s>" % (self.res, self.op, self.a)


class Block:
    __slots__ = ("name", "insts", "succs", "preds")

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.succs = []
        self.preds = []


class Func:
    def __init__(self, mod, name, header, body, lineno=None):
        self.mod = mod
        self.name = name
        self.header = header
        self.body = body
        self._parsed = False
        self.ret = None
        self.params = []
        self.vararg = False
        self._hdr()

    def _hdr(self):
        toks = tokenize(re.sub(r'\{\s*$', '', self.header))
        p = P(toks, self.mod)
        p.next()  # define
        while True:
            t = p.peek()
            if t in ("internal", "dso_local", "private", "linkonce_odr", "weak", "hidden", "external", "available_externally",
                     "unnamed_addr", "local_unnamed_addr", "linkonce", "protected"):
                p.next()
            else:
                break
        p.attrs()
        self.ret = p.type()
        p.attrs()
        p.next()  # @name
        p.expect('(')
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    self.vararg = True
                else:
                    ty = p.type()
                    byv = False
                    j = p.i
                    p.attrs()
                    byv = 'byval' in p.t[j:p.i]
                    nm = unq(p.next())[1:]
                    self.params.append((ty, nm, byv))
                if p.accept(','):
                    continue
                p.expect(')')
                break
        m = re.search(r'!dbg !(\d+)', self.header)
        self.dbg = int(m.group(1)) if m else None

    @property
    def internal(self):
        return self.header.startswith("define internal")

    @property
    def blocks(self):
        self.parse()
        return self._blocks

    @property
    def order(self):
        self.parse()
        return self._order

    def parse(self):
        if self._parsed:
            return
        self._parsed = True
        blocks = {}
        order = []
        cur = None
        lines = self.body
        i = 0
        n = len(lines)
        labre = re.compile(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):')
        while i < n:
            ln = lines[i]
            i += 1
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            if not ln.startswith(' '):
                m = labre.match(ln)
                if not m:
                    raise AnalysisError("IR parse: label %r" % ln)
                cur = Block(m.group(1).strip('"'))
                blocks[cur.name] = cur
                order.append(cur.name)
                continue
            if cur is None:
                cur = Block("entry")
                blocks["entry"] = cur
                order.append("entry")
            s = ln.strip()
            if s.startswith('switch') and s.endswith('['):
                while True:
                    x = lines[i]
                    i += 1
                    s += ' ' + x.strip()
                    if x.strip().startswith(']'):
                        break
            if 'llvm.dbg.' in s or s.startswith('#dbg'):
                continue
            ins = parse_inst(s, self.mod)
            if ins is None:
                continue
            ins.blk = cur.name
            ins.idx = len(cur.insts)
            ins.fn = self
            cur.insts.append(ins)
        self._blocks = blocks
        self._order = order
        for b in blocks.values():
            t = b.insts[-1]
            if t.op == 'br':
                b.succs = list(t.a[1:]) if len(t.a) == 3 else [t.a[0]]
            elif t.op == 'switch':
                b.succs = [t.a[2]] + [d for _, d in t.a[3]]
            else:
                b.succs = []
        for b in blocks.values():
            for s_ in b.succs:
                blocks[s_].preds.append(b.name)

    def insts(self):
        for bn in self.order:
            for ins in self.blocks[bn].insts:
                yield ins

    def line(self, ins):
        return self.mod.dbg_line(ins.dbg)

    def defs(self):
        if not hasattr(self, "_defs"):
            self._defs = {ins.res: ins for ins in self.insts() if ins.res is not None}
        return self._defs


_dbgre = re.compile(r', !dbg !(\d+)')
_mdre = re.compile(r', ![a-zA-Z_.]+ !\d+')


def parse_inst(s, mod):
    dbg = None
    m = _dbgre.search(s)
    if m:
        dbg = int(m.group(1))
        s = s[:m.start()] + s[m.end():]
    if ', !' in s:
        s = _mdre.sub('', s)
    toks = tokenize(s)
    p = P(toks, mod)
    res = None
    if len(toks) > 1 and toks[1] == '=':
        res = unq(toks[0])[1:]
        p.i = 2
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
              'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        fl = p.flags()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Inst(op, res, ty, (a, b), dbg, fl)
    if op in ('icmp', 'fcmp'):
        p.flags()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Inst(op, res, ty, (pred, a, b), dbg)
    if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
              'fpext', 'fptrunc', 'addrspacecast'):
        p.flags()
        ty = p.type()
        v = p.value(ty)
        p.expect('to')
        dt = p.type()
        return Inst(op, res, dt, (ty, v), dbg)
    if op == 'load':
        p.flags()
        ty = p.type()
        p.expect(',')
        _, v = p.tv()
        return Inst(op, res, ty, (v,), dbg)
    if op == 'store':
        p.flags()
        ty, v = p.tv()
        p.expect(',')
        _, d = p.tv()
        return Inst(op, None, ty, (v, d), dbg)
    if op == 'getelementptr':
        p.flags()
        bt = p.type()
        p.expect(',')
        _, base = p.tv()
        idx = []
        while p.accept(','):
            ty, v = p.tv()
            idx.append((ty, v))
        return Inst(op, res, ('ptr',), (bt, base, idx), dbg)
    if op == 'alloca':
        ty = p.type()
        cnt = ('int', 1, 32)
        if p.accept(','):
            if p.peek() not in ('align', 'addrspace'):
                _, cnt = p.tv()
        return Inst(op, res, ('ptr',), (ty, cnt), dbg)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Inst(op, None, None, (unq(p.next())[1:],), dbg)
        ty, v = p.tv()
        p.expect(',')
        p.expect('label')
        a = unq(p.next())[1:]
        p.expect(',')
        p.expect('label')
        b = unq(p.next())[1:]
        return Inst(op, None, None, (v, a, b), dbg)
    if op == 'switch':
        ty, v = p.tv()
        p.expect(',')
        p.expect('label')
        d = unq(p.next())[1:]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            cty, cv = p.tv()
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], unq(p.next())[1:]))
        return Inst(op, None, None, (v, ty, d, cases), dbg)
    if op == 'ret':
        ty = p.type()
        if ty == ('void',):
            return Inst(op, None, ty, (None,), dbg)
        return Inst(op, None, ty, (p.value(ty),), dbg)
    if op == 'unreachable':
        return Inst(op, None, None, (), dbg)
    if op == 'phi':
        p.flags()
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            inc.append((v, unq(p.next())[1:]))
            p.expect(']')
            if not p.accept(','):
                break
        return Inst(op, res, ty, (inc,), dbg)
    if op == 'select':
        p.flags()
        _, c = p.tv()
        p.expect(',')
        ty, a = p.tv()
        p.expect(',')
        _, b = p.tv()
        return Inst(op, res, ty, (c, a, b), dbg)
    if op == 'call':
        p.flags()
        while p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        p.attrs()
        ty = p.type()
        p.attrs()
        fnty = None
        if p.peek() == '(':  # function type
            d = 0
            j = p.i
            # could be args of callee? callee token follows the type
            k = j
            while True:
                x = p.t[k]
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
                k += 1
            p.i = k + 1
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                aty = p.type()
                j = p.i
                p.attrs()
                byv = 'byval' in p.t[j:p.i]
                if aty == ('metadata',):
                    d = 0
                    while True:
                        x = p.peek()
                        if x == '(':
                            d += 1
                        if x == ')':
                            if d == 0:
                                break
                            d -= 1
                        if x == ',' and d == 0:
                            break
                        p.next()
                    args.append((aty, ('undef',), False))
                else:
                    args.append((aty, p.value(aty), byv))
                if p.accept(','):
                    continue
                p.expect(')')
                break
        return Inst(op, res, ty, (callee, args), dbg)
    if op == 'extractvalue':
        ty, v = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Inst(op, res, None, (ty, v, idx), dbg)
    if op == 'insertvalue':
        ty, v = p.tv()
        p.expect(',')
        ty2, v2 = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Inst(op, res, ty, (v, ty2, v2, idx), dbg)
    if op == 'freeze':
        ty, v = p.tv()
        return Inst(op, res, ty, (v,), dbg)
    if op == 'fneg':
        p.flags()
        ty, v = p.tv()
        return Inst(op, res, ty, (v,), dbg)
    if op == 'cmpxchg':
        while p.peek() in ('weak', 'volatile'):
            p.next()
        _, ptr = p.tv()
        p.expect(',')
        ty, c = p.tv()
        p.expect(',')
        _, n = p.tv()
        return Inst(op, res, ('struct', (ty, ('i', 1)), False), (ptr, c, n), dbg)
    if op == 'atomicrmw':
        p.accept('volatile')
        k = p.next()
        _, ptr = p.tv()
        p.expect(',')
        ty, v = p.tv()
        return Inst(op, res, ty, (k, ptr, v), dbg)
    if op == 'fence':
        return None
    if op == 'va_arg':
        _, v = p.tv()
        p.expect(',')
        return Inst(op, res, p.type(), (v,), dbg)
    if op in ('extractelement', 'insertelement', 'shufflevector'):
        return Inst(op, res, ('vec', 0, ('i', 8)), (), dbg)
    raise AnalysisError("IR parse: instruction %r" % s)


class Module:
    def __init__(self, text, name=""):
        self.name = name
        self.structs = {}
        self.globals = {}
        self.tls = set()         # variables of which each thread has its own   # name -> (type, init value or None, is_const)
        self.funcs = {}
        self.decls = {}
        self.md = {}
        self._mdcache = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == 'd':
                if ln.startswith('define'):
                    m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                    nm = m.group(1).strip('"')
                    j = i
                    while lines[j] != '}':
                        j += 1
                    self.funcs[nm] = Func(self, nm, ln, lines[i:j])
                    i = j + 1
                elif ln.startswith('declare'):
                    m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                    self.decls[m.group(1).strip('"')] = ln
            elif c == '%':
                k, v = ln.split(' = type ', 1)
                nm = k.strip()[1:].strip('"')
                if v.strip() == 'opaque':
                    self.structs[nm] = None
                else:
                    self.structs[nm] = P(tokenize(v), self).type()
            elif c == '@':
                self._global(ln)
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)$', ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)

    def _global(self, ln):
        ln = re.sub(r', !dbg !\d+', '', ln)
        m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
        nm = m.group(1).strip('"')
        rest = m.group(2)
        self.globals[nm] = ('lazy', rest)
        if re.search(r'\bthread_local\b', rest):
            self.tls.add(nm)

    def glob(self, nm):
        g = self.globals.get(nm)
        if g is None:
            return None
        if g[0] == 'lazy':
            toks = tokenize(g[1])
            p = P(toks, self)
            ext = False
            const = False
            while True:
                t = p.peek()
                if t in ('external', 'extern_weak'):
                    ext = True
                    p.next()
                elif t in ('global', 'constant'):
                    const = t == 'constant'
                    p.next()
                    break
                elif t == 'thread_local':
                    p.next()
                    if p.accept('('):
                        p.next()
                        p.expect(')')
                elif t == 'alias':
                    raise AnalysisError("alias")
                else:
                    p.next()
            ty = p.type()
            init = None
            if not ext and p.peek() not in (None, ','):
                init = p.value(ty)
            g = (ty, init, const)
            self.globals[nm] = g
        return g

    def dbg_line(self, d):
        r = self.dbg_loc(d)
        return r[1] if r else 0

    def dbg_loc(self, d):
        """(file, line) for a DILocation/DISubprogram id"""
        if d is None:
            return None
        if d in self._mdcache:
            return self._mdcache[d]
        s = self.md.get(d, "")
        r = None
        m = re.search(r'DILocation\(line: (\d+)', s)
        if m:
            sc = re.search(r'scope: !(\d+)', s)
            r = (self._scope_file(int(sc.group(1))) if sc else None, int(m.group(1)))
        elif 'DISubprogram' in s:
            m = re.search(r'line: (\d+)', s)
            r = (self._scope_file(d), int(m.group(1)) if m else 0)
        self._mdcache[d] = r
        return r

    def _scope_file(self, sid, depth=0):
        s = self.md.get(sid, "")
        m = re.search(r'file: !(\d+)', s)
        if m:
            f = self.md.get(int(m.group(1)), "")
            k = re.search(r'filename: "([^"]*)"(?:, directory: "([^"]*)")?', f)
            if k:
                path = k.group(1)
                if not path.startswith('/') and k.group(2):
                    path = os.path.join(k.group(2), path)
                path = os.path.normpath(path)
                if path.startswith(REPO + "/"):
                    path = path[len(REPO) + 1:]
                return path
        m = re.search(r'scope: !(\d+)', s)
        if m and depth < 30:
            return self._scope_file(int(m.group(1)), depth + 1)
        return None

    def where(self, ins):
        r = self.dbg_loc(ins.dbg)
        return "%s:%s" % r if r else "%s:?" % ins.fn.name

    # ---- layout
    def resolve(self, ty):
        while ty[0] == 'named':
            t2 = self.structs.get(ty[1])
            if t2 is None:
                return ('struct', (), False)
            ty = t2
        return ty

    def align(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == 'i':
            n = (ty[1] + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return min(a, 16)
        if k == 'ptr':
            return 8
        if k == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 16}[ty[1]]
        if k in ('arr', 'vec'):
            return self.align(ty[2])
        if k == 'struct':
            if ty[2]:
                return 1
            return max([self.align(t) for t in ty[1]] or [1])
        return 1

    def size(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == 'i':
            n = (ty[1] + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return a if ty[1] <= 128 else n
        if k == 'ptr':
            return 8
        if k == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 16}[ty[1]]
        if k in ('arr', 'vec'):
            return ty[1] * self.size(ty[2])
        if k == 'struct':
            off = 0
            for t in ty[1]:
                if not ty[2]:
                    a = self.align(t)
                    off = (off + a - 1) // a * a
                off += self.size(t)
            a = self.align(ty)
            return (off + a - 1) // a * a
        return 0

    def field_off(self, ty, idx):
        ty = self.resolve(ty)
        off = 0
        for j, t in enumerate(ty[1]):
            if not ty[2]:
                a = self.align(t)
                off = (off + a - 1) // a * a
            if j == idx:
                return off, t
            off += self.size(t)
        raise AnalysisError("bad field index")


# ----------------------------------------------------------------- CFG helpers

def rpo(fn):
    seen = set()
    out = []
    stack = [(fn.order[0], iter(fn.blocks[fn.order[0]].succs))]
    seen.add(fn.order[0])
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(fn.blocks[s].succs)))
                break
        else:
            out.append(b)
            stack.pop()
    out.reverse()
    return out


def dominators(fn):
    order = rpo(fn)
    idx = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in fn.blocks[b].preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = new, p
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    return idom


def dominates(idom, a, b):
    while True:
        if a == b:
            return True
        if b not in idom or idom[b] == b:
            return False
        b = idom[b]


def loop_headers(fn):
    """targets of back edges (reducible CFGs)"""
    if hasattr(fn, "_lh"):
        return fn._lh
    idom = dominators(fn)
    lh = {}
    for b in rpo(fn):
        for s in fn.blocks[b].succs:
            if dominates(idom, s, b):
                lh.setdefault(s, set()).add(b)
    # natural loop bodies
    loops = {}
    for h, latches in lh.items():
        body = {h}
        st = [l for l in latches]
        while st:
            x = st.pop()
            if x in body:
                continue
            body.add(x)
            st.extend(fn.blocks[x].preds)
        loops[h] = body
    fn._lh = loops
    return loops


_cache = {}


def load(relpath, passes="mem2reg", extra=()):
    """relpath relative to grayc/src"""
    key = (relpath, passes, tuple(extra))
    if key not in _cache:
        path = os.path.join(GRAYC, "src", relpath)
        _cache[key] = Module(build_ir(path, passes, extra), relpath)
    return _cache[key]


def callee_name(ins):
    if ins.op == 'call' and ins.a[0][0] == 'glob':
        return ins.a[0][1]
    return None


# ----------------------------------------------------------------- debug-info layouts

class DI:
    """struct member offsets and enumerator values from the module's debug info"""

    def __init__(self, mod):
        self.mod = mod
        self.typedefs = {}
        self.structs = {}
        self.enums = {}
        for k, s in mod.md.items():
            if 'DW_TAG_typedef' in s:
                n = re.search(r'name: "([^"]*)"', s)
                b = re.search(r'baseType: !(\d+)', s)
                if n and b:
                    self.typedefs[n.group(1)] = int(b.group(1))
            elif 'DW_TAG_structure_type' in s and 'elements:' in s:
                n = re.search(r'name: "([^"]*)"', s)
                if n:
                    self.structs[n.group(1)] = k
            elif 'DIEnumerator' in s:
                n = re.search(r'name: "([^"]*)", value: (-?\d+)', s)
                if n:
                    self.enums[n.group(1)] = int(n.group(2))
        self._memb = {}

    def strip(self, k):
        while True:
            s = self.mod.md.get(k, "")
            if any(t in s for t in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type')):
                b = re.search(r'baseType: !(\d+)', s)
                if not b:
                    return None
                k = int(b.group(1))
                continue
            return k

    def members(self, k):
        k = self.strip(k)
        if k in self._memb:
            return self._memb[k]
        s = self.mod.md.get(k, "")
        r = {}
        e = re.search(r'elements: !(\d+)', s)
        if e:
            for m in re.findall(r'!(\d+)', self.mod.md.get(int(e.group(1)), "")):
                ms = self.mod.md.get(int(m), "")
                n = re.search(r'name: "([^"]*)"', ms)
                b = re.search(r'baseType: !(\d+)', ms)
                o = re.search(r'offset: (\d+)', ms)
                z = re.search(r'size: (\d+)', ms)
                if n and b:
                    r[n.group(1)] = (int(o.group(1)) // 8 if o else 0, int(z.group(1)) // 8 if z else 0, int(b.group(1)))
        self._memb[k] = r
        return r

    def root(self, name):
        if name in self.typedefs:
            return self.typedefs[name]
        if name in self.structs:
            return self.structs[name]
        raise AnalysisError("anchor unresolved: type %s" % name)

    def off(self, name, path):
        k = self.root(name)
        off = 0
        sz = 0
        for p in path.split('.'):
            m = self.members(k)
            if p not in m:
                raise AnalysisError("anchor unresolved: member %s of %s" % (path, name))
            o, sz, k = m[p]
            off += o
        return off, sz

    def sizeof(self, name):
        s = self.mod.md.get(self.strip(self.root(name)), "")
        z = re.search(r'size: (\d+)', s)
        return int(z.group(1)) // 8 if z else 0

    def type_name(self, k):
        """readable name of a DI type id (through typedef names)"""
        if k is None:
            return "void"
        s = self.mod.md.get(k, "")
        n = re.search(r'name: "([^"]*)"', s)
        if 'DW_TAG_pointer_type' in s:
            b = re.search(r'baseType: !(\d+)', s)
            return self.type_name(int(b.group(1)) if b else None) + "*"
        if 'DW_TAG_const_type' in s:
            b = re.search(r'baseType: !(\d+)', s)
            return self.type_name(int(b.group(1)) if b else None)
        return n.group(1) if n else "?"
