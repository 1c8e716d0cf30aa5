"""C07 however a function is left, it is left once: its ensure calls run, its depth is given back, its values are what return computed"""
import re
import absint
import cg
import irlib
import vf
from absint import V, is_ptr
from irlib import AnalysisError
from judge import Harness, Meaning, pleaf, padd, render
from m01 import Regions, EXTRA, ctype, returns, wrapper

CTX = [(), ('if',), ('else',), ('if', 'if'), ('while',), ('while', 'if'), ('range',), ('range', 'else'), ('for_each',), ('for_each', 'if'), ('loop', 'if'), ('when',), ('when/default',),
       ('range', 'while', 'if'), ('if', 'for_each'), ('for_each', 'when')]
RETS = [((), 'value'), (('int',), 'value'), (('string',), 'value'), (('S',), 'value'), (('[string]',), 'value'), (('int', 'Error'), 'value'), (('int', 'string'), 'value'),
        (('int', 'Error'), 'or_return'), (('int', 'int', 'Error'), 'or_return'), (('string', 'int', 'Error'), 'or_return'), (('int',), 'named'), (('int', 'string'), 'named')]


def programs():
    for tys, how in RETS:
        for root in ('local', '& parameter'):
            for ctx in CTX:
                if how == 'named' and len(tys) > 1 and ctx:
                    continue
                for n in (0, 2):
                    if n == 0 and len(ctx) > 1:
                        continue
                    yield tys, how, root, ctx, n
        yield tys, how, 'local', (), 3
        if how != 'named':
            yield tys, how, 'local', ('if',), 1
    for root in ('local', '& parameter'):
        for n in range(4):
            yield (), 'falls off the end', root, (), n
        for ctx in CTX[1:]:
            yield (), 'value', root, ctx, 3


def check():
    ck = vf.Check("C07", "on every path of an emitted function the depth is taken once at the start and given back once at the end, the ensure calls run once each in reverse order after the returned values are computed, and the values reach the caller",
                  "The C templates of functions, for each form of return, return type, nesting of blocks and number of ensure statements, are derived from the code generator, lowered to LLVM IR and interpreted together with the functions that count the depth.")
    c = cg.CG()
    for x in ("runtime/runtime.c", "runtime/array.c", "runtime/map.c", "stdlib/builtins.c", "stdlib/strings.c"):
        irlib.load(x)
    js = list(programs())
    ck.parallel(lambda sub, i, n: part(sub, c, js[i::n], 'c07_%d' % i))
    thread(ck)
    for k, n in (('templates', 600), ('paths', 2000), ('paths that return', 1500), ('ensure calls in order', 2500), ('returned integers', 500)):
        ck.floor(k, n)
    return ck


def thread(ck):
    """each thread counts its own calls"""
    m = irlib.load("runtime/runtime.c")
    ck.expect('gray_call_depth' in m.tls, "the depth of calls is counted for each thread", "runtime/runtime.c: gray_call_depth",
              "the counter of the depth of calls is shared between threads")


def part(ck, c, js, tag):
    H = Harness(tag)
    H.extra = EXTRA
    work = []
    for tys, how, root, ctx, nens in js:
        def ens(i):
            return lambda w: c.node(w.st, 'ens%d' % i, 'NODE_ENSURE_STMT', None, ensure_stmt__expr=c.opaque(w.st, 'EN%d' % i, 'int', kinds='NODE_LABEL'))

        def ev(name):
            return lambda w: c.node(w.st, 'ev' + name, 'NODE_EXPR_STMT', None, expr_stmt__expr=c.opaque(w.st, name, 'int', kinds='NODE_LABEL'))
        before = [ev('B0')] + [ens(i) for i in range(nens)]
        w, top, key = returns(c, tys, how, root, ctx, 'f', before=before, after=[ev('B1')] if not ctx and how == 'falls off the end' else ())
        key = key if how != 'falls off the end' else "the end of the body of a function with %s" % ('an & parameter' if root != 'local' else 'no & parameter')
        key += ', %d ensure' % nens
        st = w.st
        tpls = c.run(st, top, stmt=True)
        n = 0
        for tpl, f in tpls:
            k = len(work)
            mp, types = {}, {}
            holes = {'I': 'int', 'K': 'string', 'C': 'bool', 'L': '[int]'}
            holes.update(('V%d' % i, t) for i, t in enumerate(tys))
            for h, t in holes.items():
                lv = h == 'L'
                hn = h if h in ('I', 'C') else ('X_' if lv else 'V_%s_' % h) + re.sub(r'\W', '_', t)
                types[hn] = t
                H.declare(hn, 'bool' if t == 'bool' else ctype(t), lv)
                mp['N:' + h] = (hn, 0, lv)
            for h in ['B0', 'B1'] + ['EN%d' % i for i in range(nens)]:
                H.decls[h] = "extern void H_%s(void);" % h
                mp['N:' + h] = (h, 0, False)
            try:
                code = render(tpl, mp).strip()
            except AnalysisError:
                ck.count('templates for another program shape')
                continue
            n += 1
            ck.count('templates')
            body = wrapper(H, types, re.sub(r'\b(gray_fn_|GrayMulti_)f\b', r'\g<1>f%d' % k, code), tys, root, 'f%d' % k)
            work.append((key, H.add(body), code, types, tys, how, nens))
        if not n:
            ck.fail(key, c.stmt_fn, "no template is emitted")
    R = Protocol(H.build())
    for j in work:
        key, fn, code = j[:3]
        w = "code generator, %s" % c.stmt_fn
        if fn in H.bad:
            ck.fail(key, w, "the emitted C does not compile: %s; emitted C: %s" % (H.bad[fn], code[:700]))
            continue
        why = R.protocol(ck, j)
        if why:
            ck.fail(key, w, "%s; emitted C: %s" % (why, code[:700]))
        else:
            ck.ok(key, code[:300])


class Protocol(Regions):
    def depth(self, e, st):
        o = e.global_ptr(st, self.m, 'gray_call_depth')[1]
        return e.load_obj(st, self.m, o, 0, ('i', 32), 32)

    def hook(self, e, st, fr, ins, name, a):
        if re.match(r'H_(B|EN)\d', name):
            st.emit_ev('call', name[2:], self.depth(e, st))
            return V()
        if name.startswith('H_V_'):
            st.emit_ev('call', 'V', self.depth(e, st))
            r = super().hook(e, st, fr, ins, name, a)
            if self.job[4][name[2:]] == 'int':
                st.x[('val', name[4:name.index('_', 4)])] = r[1]
            return r
        if name.startswith('llvm.threadlocal.address'):
            return V(a[0])
        return super().hook(e, st, fr, ins, name, a)

    def protocol(self, ck, j):
        key, fn, code, types, tys, how, nens = j
        self.job = (key, fn, code, True, types)
        e = self.run.eng
        st = self.start()
        o = e.global_ptr(st, self.m, 'gray_call_depth')[1]
        e.obj_kind[o] = ('heap', None)
        sym = ('s', 'DEPTH', 32)
        st.mem[o] = {0: (4, sym)}
        st.own.add(o)
        st.cons[sym] = (0, 1 << 20, 0, 1 << 20, frozenset())
        want_ens = ['EN%d' % i for i in reversed(range(nens))]
        rets = 0
        for k, f in self.run.run(fn, [], st):
            ck.count('paths')
            if k == 'panic':
                lo = f.rng(sym, 32)
                if f.ev and any(x[0] == 'call' for x in f.ev):
                    return "the function stops the program"
                continue
            rets += 1
            lv = {'DEPTH': (32, True)}

            def delta(t):
                m = Meaning(e, f, lv).of(t, 32, True)
                d = padd(m[0], pleaf('DEPTH'), -1) if m else None
                return None if d is None or set(d) - {()} else d.get((), 0)
            calls = [x for x in f.ev if x[0] == 'call']
            if any(delta(x[2]) != 1 for x in calls):
                return "the body runs while the call is not counted (exactly once)"
            if delta(self.depth(e, f)) != 0:
                return "the depth after the call is not the depth before it"
            if calls and f.rng(calls[0][2], 32)[1] >= 100000:
                return "a call is counted without comparing the depth to a limit"
            names = [x[1] for x in calls]
            if names[:1] != ['B0']:
                return "the body is not run"
            ens = [x for x in names if x.startswith('EN')]
            if ens != want_ens:
                return "the ensure calls that run are %s, not %s" % (', '.join(ens) or 'none', ', '.join(want_ens) or 'none')
            if nens and names[-nens:] != want_ens:
                return "an ensure call runs before the last part of the body or the returned values"
            ck.count('ensure calls in order', nens)
            ck.count('paths that return')
            if tys and 'V' not in names:
                continue            # no return was reached: a program must return on every path
            why = self.values(ck, f, tys, how)
            if why:
                return why
        if not rets:
            return "no path returns"
        return None

    def values(self, ck, f, tys, how):
        e = self.run.eng
        for i, t in enumerate(tys):
            o = 'OBJ:X_%d_%s' % (i, re.sub(r'\W', '_', t))
            if how == 'or_return' and i < len(tys) - 1:
                if t == 'int':
                    if e.load_obj(f, self.m, o, 0, ('i', 64), 64) != 0:
                        return "a value other than the zero value is returned next to a propagated error"
                    ck.count('returned integers')
                elif t == 'string':
                    if e.load_obj(f, self.m, o, self.off('GrayString', 'len'), ('i', 32), 32) != 0:
                        return "a string other than the empty one is returned next to a propagated error"
                continue
            if t != 'int':
                continue
            got = e.load_obj(f, self.m, o, 0, ('i', 64), 64)
            ck.count('returned integers')
            if got != f.x.get(('val', 'V%d' % i)):
                return "the %d. value that reaches the caller is not the one returned" % (i + 1)
        return None
