"""S01 the functions of the standard library take the documented arguments, and nothing else"""
import os
import re
import subprocess

import cg
import irlib
import stdlib
import tc
import vf
from absint import Budget, State, V, is_ptr
from irlib import AnalysisError
from judge import Harness, Runner, render
from m01 import EXTRA, World

BASIC = ('int', 'float', 'string', 'bool', 'char', 'byte', 'uint', 'void')
LIBTYPE = {'Error': 'error'}
PRINTS = ('println', 'print', 'eprintln', 'eprint')   # their argument may have any type
# documented with a type the language has no name for, or that the checker leaves open: the kind of the result is not judged
OPEN = ('ref', 'range', 'to_char', 'json.parse', 'os.exec', 'sqlite.open', 'sqlite.query', 'sync.try_lock', 'mem.alloc')
# an argument is a constant, a type or a file that has to exist: the example call is not judged
SPECIAL = ('assert', 'embed', 'json.pretty_print')


def inst(t, T='int', K='string', W='int'):
    t = t.replace('map[K:V]', 'map[%s:%s]' % (K, W))
    return re.sub(r'\bT\b', T, re.sub(r'\bV\b', W, re.sub(r'\bK\b', K, t)))


def simple(t):
    return t in BASIC or t[0] == '[' and simple(t[1:-1]) or t.startswith('map[')


def cty(t):
    return {'int': 'int64_t', 'float': 'double', 'bool': 'bool', 'string': 'GrayString', 'char': 'int32_t', 'byte': 'uint8_t', 'uint': 'uint64_t', 'void': 'void', 'Error': 'GrayError *'}.get(t) or \
        ('GrayArray' if t[0] == '[' else 'GrayMap')


class Calls:
    """library calls under the type checker"""

    def __init__(self):
        self.T = tc.TC()

    def ty(self, st, t):
        T = self.T
        if t in tc.GLOBALS:
            return T.gtype(st, t)[1]
        if t[0] == '[':
            return T.mktype(st, t, 'TK_ARRAY', name=t, elem=t[1:-1])
        if t[0] == '^':
            return T.mktype(st, t, 'TK_POINTER', name=t, elem=t[1:])
        if t.startswith('map['):
            k, v = t[4:-1].split(':', 1)
            return T.mktype(st, t, 'TK_MAP', name=t, keyt=k, val=v)
        return T.mktype(st, t, 'TK_ERROR' if t == 'Error' else 'TK_STRUCT', name=t)

    def imports(self, st, mods):
        T = self.T
        ms = [m for m in mods if m != 'builtin']
        T.set(st, 'imported_modules', T.ptr_array(st, 'im', [T.cstr(st, m) for m in ms]))
        T.set(st, 'import_files', T.ptr_array(st, 'imf', [0] * len(ms)))
        for nm, sz, v in (('import_used', 1, 0), ('import_is_stdlib', 1, 1), ('import_lines', 4, 1)):
            o = 'IM:' + nm
            T.eng.obj_kind[o] = ('heap', None)
            st.mem[o] = {sz * i: (sz, v) for i in range(len(ms))}
            st.own.add(o)
            T.set(st, nm, ('p', o, 0))
        T.set(st, 'import_count', len(ms))

    def call(self, mod, name, types, label, imported=True):
        T = self.T
        st = T.new()
        self.imports(st, [mod] if imported else [])
        args = []
        for i, t in enumerate(types):
            if label:
                st = T.var(st, 'v%d' % i, self.ty(st, t), 1)
                args.append(T.node(st, 'A%d' % i, 'NODE_LABEL', label__value='v%d' % i))
            else:
                o = T.node(st, 'A%d' % i, 'NODE_CALL_EXPR', call__function=T.node(st, 'F%d' % i, 'NODE_LABEL', label__value='user_function%d' % i),
                           call__args=None, call__arg_count=0, call__arg_names=None)
                st.x[('unk', o[1])] = True
                st.x[('type', o[1])] = self.ty(st, t)
                args.append(o)
        if mod == 'builtin':
            fn = T.node(st, 'callee', 'NODE_LABEL', label__value=name)
        else:
            lab = T.node(st, 'mod', 'NODE_LABEL', label__value=mod)
            fn = T.node(st, 'callee', 'NODE_MEMBER_EXPR', member__object=lab, member__member=name)
        n = T.node(st, 'call', 'NODE_CALL_EXPR', call__function=fn, call__args=T.ptr_array(st, 'args', args) if args else None,
                   call__arg_count=len(args), call__arg_names=None)
        try:
            fs = T.check(st, n)
        except (AnalysisError, Budget) as ex:
            raise AnalysisError("%s.%s(%s): %s" % (mod, name, ', '.join(types), ex))
        if not fs:
            raise AnalysisError("no path of the type checker ends on %s.%s" % (mod, name))
        return fs


def check():
    ck = vf.Check("S01", "each documented library call is accepted with the documented kinds of arguments and rejected with another number or other kinds of them; the C emitted for it compiles, evaluates each argument once and passes them to the function's own implementation in the documented order",
                  "The signatures are read from section 9 of STANDARD.md. The type checker is interpreted over all its paths on a call of each function; the code generator is interpreted on the same call, its template lowered to LLVM IR and interpreted in turn; the lifetime of temporaries in the templates is judged by the C compiler's data-flow analysis.")
    fns, rest = stdlib.documented()
    ck.parallel(lambda sub, i, n: (accepted(sub, fns[i::n]), rejected(sub, fns, i, n)))
    c = cg.CG()
    for x in ("stdlib/builtins.c", "stdlib/strings.c"):
        irlib.load(x)
    ck.parallel(lambda sub, i, n: emitted(sub, c, fns, i, n))
    for k, n in (('documented calls judged by the checker', 640), ('calls with an argument of another kind', 540), ('calls with another number of arguments', 540),
                 ('functions', 300), ('unknown functions', 24), ('templates', 540), ('arguments traced to the implementation', 600), ('results of the documented kind', 470)):
        ck.floor(k, n)
    return ck


def describe(f, types=None):
    return "%s(%s)" % (f.full, ', '.join(types if types is not None else ['%s%s %s' % ('&' if m else '', n, t) for n, t, m, d in f.params]))


def accepted(ck, fns):
    C = Calls()
    for f in fns:
        ck.count('functions')
        if f.full in SPECIAL:
            continue
        generic = any(re.search(r'\bT\b', p[1]) for p in f.params)
        for T in ('int', 'string', 'float') if generic else ('int',):
            if T == 'string' and f.full in ('arrays.get_sum', 'arrays.get_min', 'arrays.get_max') or T == 'string' and f.mod == 'math' or T == 'string' and f.full == 'random.choice' and 0:
                continue
            ts = [inst(p[1], T) for p in f.params]
            for label in (1, 0):
                if not label and (any(p[2] for p in f.params) or f.full == 'ref'):
                    continue                                # a & parameter takes a variable
                key = "%s, %s" % (describe(f, ts), 'variables' if label else 'results of calls')
                bad = None
                for s in C.call(f.mod, f.name, ts, label):
                    ck.count('paths')
                    er = C.T.errors(s)
                    got = C.T.type_of(s, s.ret)
                    want = inst(f.rets[0], T)
                    want = LIBTYPE.get(want, want)
                    if er:
                        bad = "is rejected with %s although it is what STANDARD.md documents" % ', '.join(er)
                    elif f.full not in OPEN and got != want:
                        bad = "has the type %s for the checker; STANDARD.md documents %s" % (got, want)
                ck.count('documented calls judged by the checker')
                ck.expect(not bad, "accepted: " + key, "type checker, dispatcher %s" % C.T.expr_fn, "the call %s %s" % (describe(f, ts), bad), 'accepted, result %s' % inst(f.rets[0], T))


WRONG = {'string': ('int', '[string]'), 'int': ('string', '[int]', 'float'), 'float': ('string', '[float]'), 'bool': ('string',), 'char': ('string',), 'uint': ('string',), 'byte': ('string',), 'K': ('int',), 'V': ('string',), 'T': ('string', '[int]')}


def rejected(ck, fns, i, n):
    C = Calls()
    over = {}
    for f in fns:
        over.setdefault(f.full, []).append(f)
    where = "type checker, dispatcher %s" % C.T.expr_fn
    for f in fns[i::n]:
        if f.mod == 'builtin' or f.full in SPECIAL:
            continue
        forms = over[f.full]
        ts = [inst(p[1]) for p in f.params]
        for k, p in enumerate(f.params):
            wr = WRONG.get(p[1]) or (('int',) if p[1][0] == '[' or p[1].startswith('map[') else ())
            if p[1] == 'T' and not any(q[1] == '[T]' for q in f.params):
                wr = ()                     # any type
            for w in wr:
                if any(len(g.params) == len(ts) and inst(g.params[k][1]) in (w, 'T') for g in forms if g is not f):
                    continue                # another documented form takes it
                if w == 'float' and f.mod == 'math':
                    continue                # a number of either kind
                t2 = list(ts)
                t2[k] = w
                ok = all(C.T.errors(s) for s in C.call(f.mod, f.name, t2, 1))
                ck.count('calls with an argument of another kind')
                ck.expect(ok, "rejected: %s" % describe(f, t2), where, "the call %s is accepted, although argument %d of %s is documented as %s" % (describe(f, t2), k + 1, f.full, p[1]))
        need = min(sum(1 for p in g.params if p[3] is None) for g in forms)
        most = max(len(g.params) for g in forms)
        lens = {len(g.params) for g in forms}
        for m in (0, len(ts) - 1, len(ts) + 1, len(ts) + 2):
            if m < 0 or m in lens or need <= m <= most and any(p[3] for g in forms for p in g.params) or m == 2 and f.full == 'net.listen':
                continue
            t2 = (ts + ['int', 'int'])[:m]
            ok = all(C.T.errors(s) for s in C.call(f.mod, f.name, t2, 1))
            ck.count('calls with another number of arguments')
            ck.expect(ok, "rejected: %s" % describe(f, t2), where, "the call %s is accepted; %s takes %s arguments" % (describe(f, t2), f.full, ' or '.join(map(str, sorted(lens)))))
    if i == 0:
        for m in sorted({f.mod for f in fns} - {'builtin'}):
            ok = all(C.T.errors(s) for s in C.call(m, 'no_such_function', ['int'], 1))
            ck.count('unknown functions')
            ck.expect(ok, "unknown function of " + m, where, "a call of a function that the module %s does not have is accepted" % m)
            f = next(g for g in fns if g.mod == m and g.full not in SPECIAL)
            ok = all(C.T.errors(s) for s in C.call(m, f.name, [inst(p[1]) for p in f.params], 1, imported=False))
            ck.count('calls into a module that is not imported')
            ck.expect(ok, "not imported: " + m, where, "%s is accepted in a file that does not import the module" % describe(f))


KIND = "_Generic((%s), double: 'f', float: 'f', GrayString: 's', GrayArray: 'a', GrayMap: 'm', default: 'i')"


def emitted(ck, c, fns, i0, n0):
    H = Harness('s01_%d' % i0)
    H.dirs = ('', 'runtime')
    hd = sorted(x for x in os.listdir(os.path.join(irlib.REPO, 'grayc/src/stdlib')) if x.endswith('.h') and x != 'sqlite3.h')
    H.extra = ''.join('#include "stdlib/%s"\n' % x for x in hd) + EXTRA
    names = {}
    for f in fns:
        names.setdefault(f.mod, set()).add(f.name)
    text = ''.join(open(os.path.join(irlib.REPO, 'grayc/src', d, x)).read() for d in ('stdlib', 'runtime') for x in sorted(os.listdir(os.path.join(irlib.REPO, 'grayc/src', d))) if x.endswith('.h'))
    declared = set(re.findall(r'\b(gray_\w+)\s*\(', text))
    work = []
    where = "code generator, expression dispatcher"
    for q, f in enumerate(fns[i0::n0]):
        if f.name in PRINTS or f.full in SPECIAL:
            continue
        generic = any(re.search(r'\bT\b', p[1]) for p in f.params)
        for T in ('int', 'string') if generic and f.mod != 'math' and f.full not in ('arrays.get_sum', 'arrays.get_min', 'arrays.get_max') else ('int',):
            ps = [(inst(t, T), m) for n, t, m, d in f.params]
            if not all(simple(t) for t, m in ps):
                continue
            single = None
            for label in (1, 0, 2):                          # 2: the results are assigned to several variables
                if not label and any(m for t, m in ps) or f.full == 'ref' and not label or label == 2 and len(f.rets) != 2:
                    continue
                w = World(c, 'local', 'string')
                st = w.st
                if label == 2:
                    c.setcg(st, 'current_var_name', 8, c.cstr(st, '_gray_tmp0'))
                holes, args = {}, []
                u = '%d_%d' % (i0, len(work))
                for i, (t, m) in enumerate(ps):
                    h = 'A%d_%s' % (i, u)
                    H.declare(h, cty(t), bool(label))
                    holes['N:A%d' % i] = "(*H_%s())" % h if label else "H_%s()" % h
                    args.append(c.opaque(st, 'A%d' % i, w.ty(t), kinds='NODE_LABEL' if label else 'NODE_CALL_EXPR'))
                rt = inst(f.rets[0], T)
                if f.mod == 'builtin':
                    fn = c.node(st, 'callee', 'NODE_LABEL', 'NOTYPE', label__value=f.name)
                else:
                    lab = c.node(st, 'mod', 'NODE_LABEL', 'NOTYPE', label__value=f.mod)
                    fn = c.node(st, 'callee', 'NODE_MEMBER_EXPR', 'NOTYPE', member__object=lab, member__member=f.name)
                call = c.node(st, 'call', 'NODE_CALL_EXPR', w.ty(rt) if simple(rt) else 'int', call__function=fn,
                              call__args=c.ptr_array(st, 'args', args) if args else None, call__arg_count=len(args))
                key = "C of %s, %s" % (describe(f, [t for t, m in ps]), ('results of calls', 'variables', 'both results')[label])
                k = 0
                for tpl, fin in c.run(st, call):
                    parts = [holes.get(p[1]) if not isinstance(p, str) and p[0] == 'E' else p for p in tpl]
                    if None in parts or any(not isinstance(p, str) for p in parts):
                        ck.count('templates for another program shape')
                        continue
                    code = ''.join(parts)
                    k += 1
                    plain = re.sub(r'\bH_A\d_\w+', 'H', code)
                    if label == 1:
                        single = plain
                    elif label == 2 and plain == single:
                        continue                             # the code generator does not tell the two forms apart here
                    if label == 2:
                        ct = [cty(inst(x, T)) if simple(inst(x, T)) or x == 'Error' else None for x in f.rets]
                        body = "__auto_type r = (%s); __asm__(\"\"::\"r\"(&r));" % code
                        for i, x in enumerate(ct):
                            if x:
                                body += " _Static_assert(%s == %s, \"result %d is not a %s\"); %s r%d = r.v%d; __asm__(\"\"::\"r\"(&r%d));" % (KIND % ('r.v%d' % i), KIND % ("*(%s *)0" % x), i + 1, f.rets[i], x, i, i, i)
                                ck.count('results of the documented kind')
                    elif rt == 'void':
                        body = "%s;" % code
                    elif simple(rt) and len(f.rets) == 1 and f.full not in OPEN:
                        ct = cty(rt)
                        body = "_Static_assert(%s == %s, \"the result is not a %s\"); %s r = (%s); __asm__(\"\"::\"r\"(&r));" % (KIND % code, KIND % ("*(%s *)0" % ct), rt, ct, code)
                        ck.count('results of the documented kind')
                    else:
                        body = "__auto_type r = (%s); __asm__(\"\"::\"r\"(&r));" % code
                    work.append((key, f, ps, u, H.add("void @FN@(void){ %s }" % body), code))
                if not k:
                    ck.fail(key, where, "no C is emitted for the call")
    m = H.build()
    dang = lifetimes(H)
    prims = {x for x in declared if re.match(r'gray_(panic|string_lit$|enter_|exit_|scope)', x)}
    R = Runner(m, loop_forks=1)

    def hook(e, st, fr, ins, name, a):
        if name.startswith('llvm.threadlocal.address'):
            return V(a[0])
        if name.startswith('H_'):
            ty = fr.fn.mod.resolve(ins.ty)
            if ty[0] == 'void':
                st.emit_ev('eval', ins, name[2:])
                k = st.x.get(('n', name), 0) + 1
                st.x[('n', name)] = k
                o = 'OBJ:%s' % name[2:]
                e.obj_kind.setdefault(o, ('lazy',))
                e.memcpy(st, a[0], ('p', o, 0), 64)
                return V()
            return None
        if name in prims or not name.startswith('gray_') or name in PANICK:
            return None
        st.emit_ev('call', name, tuple(who(e, st, m, x) for x in a))
        t = fr.fn.mod.resolve(ins.ty)
        if t[0] == 'void':
            return V()
        k = st.x.get(('n', 'result'), 0) + 1
        st.x[('n', 'result')] = k
        nm = 'R%d' % k
        if t[0] == 'ptr':
            e.obj_kind.setdefault(nm, ('lazy',))
            st.x.setdefault(('null', nm), False)
            return V(('p', nm, 0))
        if t[0] == 'struct':
            return V(R.agg(fr.fn.mod, t, nm))
        return V(('s', nm, t[1] if t[0] == 'i' else 64))
    R.call_hook = hook
    for key, f, ps, u, fn, code in work:
        ck.count('templates')
        if fn in H.bad:
            ck.fail(key, where, "the emitted C does not compile: %s; emitted C: %s" % (H.bad[fn], code[:600]))
            continue
        if fn in dang:
            ck.fail(key, where, "the emitted C hands on the address of a temporary whose lifetime is over: %s; emitted C: %s" % (dang[fn], code[:600]))
            continue
        bad = None
        ret = 0
        for kind, s in R.run(fn, [], State()):
            ck.count('paths')
            if kind != 'ret':
                continue
            ret += 1
            bad = bad or judge(ck, f, ps, u, s, names, declared, 'results of calls' in key)
        if not ret:
            bad = "the emitted C never completes"
        ck.expect(not bad, key, where, "%s: %s; emitted C: %s" % (describe(f, [t for t, x in ps]), bad, code[:600]), code[:200])


PANICK = ('gray_panic', 'gray_panic_code', 'gray_panic_code_at', 'gray_panic_at')


def judge(ck, f, ps, u, s, names, declared, calls):
    for i in range(len(ps)):
        n = sum(1 for x in s.ev if x[0] == 'eval' and x[2] == 'A%d_%s' % (i, u))
        if (n != 1 if calls else not n) and f.full not in ('type_of', 'size_of'):      # a variable may be read again
            return "argument %d is evaluated %d times" % (i + 1, n)
    order = {'int': 'n', 'uint': 'n', 'byte': 'n', 'char': 'n', 'bool': 'n', 'float': 'n'}
    own = 'gray_%s_%s' % (f.mod, f.name)
    for x in s.ev:
        if x[0] != 'call':
            continue
        pos = []
        for who_ in x[2]:
            for i in range(len(ps)):
                if who_ == 'A%d_%s' % (i, u):
                    pos.append(i)
                    ck.count('arguments traced to the implementation')
        for a in range(len(pos)):
            for b in range(a + 1, len(pos)):
                ta, tb = ps[pos[a]][0], ps[pos[b]][0]
                if order.get(ta, ta) == order.get(tb, tb) and pos[a] > pos[b]:
                    return "%s receives argument %d before argument %d" % (x[1], pos[a] + 1, pos[b] + 1)
        pre = 'gray_%s_' % f.mod
        if x[1].startswith(pre) and x[1][len(pre):] in names.get(f.mod, ()) and x[1] != own and own in declared:
            return "it runs %s, the implementation of another function of the module" % x[1]
    return None


def who(e, st, m, v):
    """the hole that a value stems from"""
    r = name_of(v)
    if r is None and is_ptr(v) and e.obj_kind.get(v[1], ('',))[0] != 'lazy':
        c = st.mem.get(v[1], {}).get(v[2])
        r = name_of(c[1]) if c else None
    return r


def name_of(v):
    while isinstance(v, tuple) and v and v[0] in ('sext', 'zext', 'trunc', 'c', 'cast', 'fcast') and len(v) > 1 and isinstance(v[1], tuple):
        v = v[1]
    s = v[1] if isinstance(v, tuple) and len(v) > 1 and isinstance(v[1], str) else ''
    g = re.match(r'(?:OBJ:)?(A\d+_\d+_\d+)', s)
    return g[1] if g else None


def lifetimes(H):
    """templates in which a pointer outlives the temporary it points to (gcc's analysis of the optimised program)"""
    src = os.path.join(irlib.REPO, "grayc/src")
    r = subprocess.run(["gcc", "-std=gnu11", "-O2", "-w", "-Wdangling-pointer=2", "-D_XOPEN_SOURCE=700", "-S", "-o", "/dev/null", *["-I" + os.path.join(src, d) for d in H.dirs], "-x", "c", "-"],
                       input=H.text(), capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("gcc does not compile the templates: " + r.stderr[:300])
    out, cur = {}, None
    for ln in r.stderr.split('\n'):
        g = re.search(r"In function '(T\d+)'", ln)
        if g:
            cur = g[1]
        g = re.search(r"warning: (.*) \[-Wdangling-pointer", ln)
        if g and cur:
            out.setdefault(cur, g[1])
    return out
