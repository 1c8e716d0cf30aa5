"""Loops: abstract programs around loops, their C templates, and the sequence of body executions a language reference prescribes."""
import re
import absint
import worlds
from absint import V, State, is_ptr
from access import CT
from arith import leaf, pleaf, padd
from irlib import AnalysisError
from judge import Harness, Runner, Meaning, pconst, render

HDR = {'each': 'GrayArray', 'map': 'GrayMap', 'chars': 'GrayString'}
NAMES = {'range': 'for in range', 'steps': 'for in range with step', 'each': 'for_each over an array', 'map': 'for_each over a map',
         'chars': 'for_each over a string', 'while': 'while', 'loop': 'loop'}


class Loop:
    """kind, body; opts: element/key/value types, form of the collection, which variables are named"""
    def __init__(self, kind, *body, **kw):
        self.kind, self.body, self.o = kind, body, kw

    def show(self):
        d = {k: v for k, v in self.o.items()}
        return NAMES[self.kind] + (' ' + ' '.join('%s' % d[k] for k in sorted(d)) if d else '') + ' { %s }' % '; '.join(
            b.show() if isinstance(b, Loop) else {'break': 'if c break', 'continue': 'if c continue', 'return': 'if c return', 'ev': 'body'}[b] for b in self.body)


class Template:
    def __init__(self, c, w, H, prog, uid, after=False):
        """prog: a Loop.  w: World"""
        self.c, self.w, self.st, self.H, self.uid = c, w, w.st, H, uid
        self.nloop = self.nev = self.nc = 0
        self.loops = []
        self.evs = {}
        self.around = {}      # event -> the loops over collections it is in
        self.holes = {}
        self.plan = self.build(prog, ())
        self.top = self.plan[2]
        if after:
            e, p = self.ev(())
            self.plan = ('seq', [self.plan, p])
            self.top = [self.top, e]

    def opaque_st(self, name, text):
        c, st = self.c, self.st
        x = c.opaque(st, name, 'int', kinds='NODE_LABEL')
        self.holes['N:' + name] = text
        return c.node(st, self.w.nm(), 'NODE_EXPR_STMT', None, expr_stmt__expr=x)

    def ev(self, scope):
        n = self.nev
        self.nev += 1
        vs = []
        for lp in scope:
            vs += lp['vars']
        nm = 'EV%d_%s' % (n, self.uid)
        self.evs[nm] = (n, vs)
        self.around[nm] = [lp['i'] for lp in scope if lp['kind'] in ('each', 'map')]
        self.H.decls[nm] = "extern void H_%s(%s);" % (nm, ', '.join('const void *' for _ in vs) or 'void')
        asserts = ''.join('_Static_assert(__builtin_types_compatible_p(__typeof__(%s), %s), "type of a loop variable"); ' % (v, t) for v, t, _ in vs if t)
        node = self.opaque_st('EV%d' % n, "({ %sH_%s(%s); })" % (asserts, nm, ', '.join('&' + v for v, _, _ in vs)))
        return node, ('ev', nm)

    def hole(self, name, ctype, lv, typ=None, node=None, **kw):
        h = '%s_%s' % (name, self.uid)
        self.H.declare(h, ctype, lv)
        self.holes['N:' + name] = "(*H_%s())" % h if lv else "H_%s()" % h
        return h

    def build(self, p, scope):
        c, st, w = self.c, self.st, self.w
        if p == 'ev':
            e, pl = self.ev(scope)
            return ('one', [pl], e)
        if p in ('break', 'continue', 'return'):
            n = self.nc
            self.nc += 1
            h = self.hole('C%d' % n, 'bool', False)
            C = c.opaque(st, 'C%d' % n, 'bool')
            if p == 'return':
                x = c.node(st, w.nm(), 'NODE_RETURN_STMT', None, return_stmt__values=None, return_stmt__count=0)
            else:
                x = c.node(st, w.nm(), 'NODE_BREAK_STMT' if p == 'break' else 'NODE_CONTINUE_STMT', None)
            s = c.node(st, w.nm(), 'NODE_IF_STMT', None, if_stmt__condition=C, if_stmt__consequence=w.block([x]), if_stmt__alternative=None)
            return ('if', (h, p), s)
        i = self.nloop
        self.nloop += 1
        lp = dict(kind=p.kind, i=i, o=p.o, vars=[])
        self.loops.append(lp)
        k = p.kind
        v, ix = 'e%d' % i, 'i%d' % i
        if k in ('range', 'steps'):
            bt = p.o.get('of', 'int')
            lp['vars'] = [(v, 'int64_t', 'val')]
            lp['holes'] = {}
            nodes = {}
            for q in ('A', 'B') + (('S',) if k == 'steps' else ()):
                lp['holes'][q] = self.hole('%s%d' % (q, i), CT[bt], False)
                nodes[q] = c.opaque(st, '%s%d' % (q, i), bt)
            lp['type'] = bt
            r = c.node(st, w.nm(), 'NODE_RANGE_EXPR', bt, range_expr__start=nodes['A'], range_expr__end=nodes['B'], range_expr__step=nodes.get('S'))
            mk = lambda b: c.node(st, w.nm(), 'NODE_FOR_STMT', None, for_stmt__var_name=v, for_stmt__var_type=None, for_stmt__iterable=r, for_stmt__body=b)
        elif k in HDR:
            form = p.o.get('form', 'label')
            names = p.o.get('names', 'one')
            if k == 'each':
                et = p.o.get('of', 'int')
                T = c.mktype(st, '[%s]' % et, 'TK_ARRAY', name='[%s]' % et, elem=et)
                lp['vars'] = ([(ix, 'int32_t', 'index')] if names == 'two' else []) + [(v, CT[et], 'elem')]
            elif k == 'map':
                kt, vt = p.o.get('key', 'string'), p.o.get('of', 'int')
                nmt = 'map[%s:%s]' % (kt, vt)
                T = c.mktype(st, nmt, 'TK_MAP', name=nmt, keyt=kt, val=vt)
                kc = {'i': 'int64_t', 'u': 'uint64_t'}.get(kt[0], CT[kt]) if kt[-1].isdigit() else CT[kt]      # keys of every integer type are stored as 64 bits
                lp['vars'] = [(ix, kc, 'key'), (v, CT[vt], 'value')] if names == 'two' else [(v, kc, 'key')]
            else:
                T = c.mktype(st, 'string', 'TK_STRING', name='string')
                lp['vars'] = ([(ix, 'int32_t', 'index')] if names == 'two' else []) + [(v, 'int32_t', 'char')]
            coll = self.collection(form, T, HDR[k], i, lp)
            mk = lambda b: c.node(st, w.nm(), 'NODE_FOR_EACH_STMT', None, for_each__index_name=ix if names == 'two' else None, for_each__var_name=v,
                                  for_each__collection=coll, for_each__body=b)
        elif k == 'while':
            lp['holes'] = {'W': self.hole('W%d' % i, 'bool', False)}
            W = c.opaque(st, 'W%d' % i, 'bool')
            mk = lambda b: c.node(st, w.nm(), 'NODE_WHILE_STMT', None, while_stmt__condition=W, while_stmt__body=b)
        else:
            mk = lambda b: c.node(st, w.nm(), 'NODE_LOOP_STMT', None, loop_stmt__body=b)
        sub = [self.build(b, scope + (lp,)) for b in p.body]
        return ('loop', lp, mk(w.block([s[2] for s in sub])), sub)

    def collection(self, form, T, hdr, i, lp):
        c, st = self.c, self.st
        nm = 'D%d' % i
        if 'same' in lp['o']:
            nm = 'D%d' % lp['o']['same']
            lp['coll'] = self.loops[lp['o']['same']]['coll']
            return c.opaque(st, nm, T, kinds='NODE_LABEL')
        if form in ('label', 'elem', 'call'):
            lp['coll'] = self.hole(nm, hdr, form == 'label')
            return c.opaque(st, nm, T, kinds={'label': 'NODE_LABEL', 'elem': 'NODE_INDEX_EXPR', 'call': 'NODE_CALL_EXPR'}[form])
        S = c.mktype(st, 'S', 'TK_STRUCT', name='S')
        s = 'GrayStruct_F' + hdr
        d = "typedef struct { int64_t pad; %s f; } %s;\n" % (hdr, s)
        if d not in self.H.extra:
            self.H.extra += d
        lp['coll'] = self.hole(nm, s, True)
        return c.node(st, self.w.nm(), 'NODE_MEMBER_EXPR', T, member__object=c.opaque(st, nm, S, kinds='NODE_LABEL'), member__member='f')

    def render(self, tpl):
        """C text, or None when the template is for another shape of the program"""
        parts = []
        for p in tpl:
            if not isinstance(p, str) and p[0] == 'E':
                t = self.holes.get(p[1])
                if t is None:
                    raise AnalysisError("template contains a hole for an unexpected node %s" % p[1])
                parts.append(t)
            else:
                parts.append(p)
        return render(parts, {})


class Tracer:
    """interprets the templates; the events are: hole evaluations, body executions with the values of the loop variables"""

    def __init__(self, H, di, loop_forks=2):
        self.m = H.build()
        self.bad = H.bad
        self.run = Runner(self.m, loop_forks=loop_forks)
        self.run.call_hook = self.hook
        self.di = di
        self.off = {(k, f): di.off(k, f)[0] for k, f in (('GrayArray', 'data'), ('GrayArray', 'len'), ('GrayArray', 'iterating'), ('GrayMap', 'keys'),
                                                         ('GrayMap', 'values'), ('GrayMap', 'order'), ('GrayMap', 'order_len'), ('GrayMap', 'iterating'),
                                                         ('GrayString', 'data'), ('GrayString', 'len'))}
        self.job = None

    def cell(self, e, st, what, base, idx):
        n = st.x.get(('n', 'cell'), 0) + 1
        st.x[('n', 'cell')] = n
        o = 'CELL%d' % n
        e.obj_kind.setdefault(o, ('lazy',))
        st.x[('null', o)] = False
        st.x[('cell', o)] = (what, base, idx)
        return ('p', o, 0)

    def fld(self, e, st, p, kind, f, ptr=True):
        if not is_ptr(p):
            return None
        return e.load_obj(st, self.m, p[1], p[2] + self.off[(kind, f)], ('ptr',) if ptr else ('i', 32), 64 if ptr else 32)

    def hook(self, e, st, fr, ins, name, a):
        if name.startswith('llvm.threadlocal.address'):
            return V(a[0])
        if name.startswith('H_EV'):
            n, vs = self.job.evs[name[2:]]
            vals = []
            for (v, t, what), p in zip(vs, a):
                vals.append(self.value(e, st, p, t, what))
            st.emit_ev('body', name[2:], tuple(vals), self.guards(e, st))
            return V()
        if name.startswith('H_D'):
            st.emit_ev('eval', ins, name[2:])
            ty = fr.fn.mod.resolve(ins.ty)
            o = 'OBJ:' + name[2:]
            e.obj_kind.setdefault(o, ('lazy',))
            st.x[('null', o)] = False
            if ty[0] == 'ptr':
                return V(('p', o, 0))
            if ty[0] == 'void':
                n = st.x.get(('n', name), 0) + 1
                st.x[('n', name)] = n
                o2 = '%s@%d' % (o, n)
                e.obj_kind.setdefault(o2, ('lazy',))
                e.memcpy(st, a[0], ('p', o2, 0), 64)
                return V()
            return None
        if name == 'gray_array_get_ptr':
            return V(self.cell(e, st, 'elem', self.fld(e, st, a[0], 'GrayArray', 'data'), a[1]))
        if name in ('gray_map_key_at', 'gray_map_value_at'):
            k = name == 'gray_map_key_at'
            return V(self.cell(e, st, 'key' if k else 'value', self.fld(e, st, a[0], 'GrayMap', 'keys' if k else 'values'), a[1]))
        if name == 'gray_arena_create':
            n = st.x.get(('n', 'arena'), 0) + 1
            st.x[('n', 'arena')] = n
            o = 'ARENA%d' % n
            e.obj_kind.setdefault(o, ('lazy',))
            st.x[('null', o)] = False
            return V(('p', o, 0))
        if name in ('gray_arena_destroy', 'gray_scope_save', 'gray_scope_restore', 'gray_enter_func', 'gray_exit_func', 'free') or name.startswith('gray_scope'):
            t = fr.fn.mod.resolve(ins.ty)
            return V() if t[0] == 'void' else None
        return None

    def value(self, e, st, p, t, what):
        if not is_ptr(p):
            return None
        sz = {'GrayString': 8, 'GrayArray': 8, 'GrayMap': 8}.get(t)
        if sz or t.endswith('*'):
            return e.load_obj(st, self.m, p[1], p[2], ('ptr',), 64)
        w = {'int64_t': 64, 'int32_t': 32, 'int16_t': 16, 'int8_t': 8, 'uint64_t': 64, 'uint32_t': 32, 'uint16_t': 16, 'uint8_t': 8, 'bool': 8, 'double': 64, 'float': 32}.get(t, 64)
        return e.load_obj(st, self.m, p[1], p[2], ('f',) if t in ('double', 'float') else ('i', w), w)

    def guards(self, e, st):
        """the iteration marks of the collections held in variables"""
        out = {}
        for lp in self.job.loops:
            if lp['kind'] in ('each', 'map') and lp['o'].get('form', 'label') in ('label', 'member'):
                k = HDR[lp['kind']]
                b = 8 if lp['o'].get('form') == 'member' else 0
                o = 'OBJ:' + lp['coll']
                e.obj_kind.setdefault(o, ('lazy',))
                out[lp['i']] = e.load_obj(st, self.m, o, b + self.off[(k, 'iterating')], ('i', 32), 32)
        return out

    def paths(self, job, fn):
        self.job = job
        return self.run.run(fn, [], self.begin(State()))

    def begin(self, st):
        e = self.run.eng
        o = e.global_ptr(st, self.m, 'gray_default_arena')[1]
        e.obj_kind[o] = ('heap', None)
        e.obj_kind.setdefault('AR:scope', ('lazy',))
        st.x[('null', 'AR:scope')] = False
        st.mem[o] = {0: (8, ('p', 'AR:scope', 0))}
        st.own.add(o)
        return st


class Deviation(Exception):
    pass


class End(Exception):
    pass


class Follow:
    """replays one path against what the language prescribes"""

    def __init__(self, T, job, kind, f):
        self.T, self.job, self.kind, self.f = T, job, kind, f
        self.ev = [x for x in f.ev if x[0] in ('body', 'panic') or x[0] == 'eval' and not x[2].startswith('D')]
        self.pos = 0
        self.loopcount = {}
        self.n = {}
        self.lv = {}
        self.facts = None
        self.frames = []
        self.bodies = 0

    def peek(self):
        return self.ev[self.pos] if self.pos < len(self.ev) else None

    def check(self):
        try:
            for p in self.job.plan[1] if self.job.plan[0] == 'seq' else [self.job.plan]:
                r = self.stmt(p)
                if r == 'return':
                    break
            if self.peek() is not None:
                raise Deviation("%s where the loops have ended" % self.say(self.peek()))
            if self.kind != 'ret':
                raise Deviation("the program stops")
        except End:
            pass

    def say(self, x):
        return {'body': 'the body runs', 'panic': 'the program stops with %s' % x[2] if x[0] == 'panic' else '', 'eval': 'an operand or condition is evaluated'}[x[0]]

    def next(self):
        x = self.peek()
        if x is None:
            if self.kind == 'ret':
                return None
            raise Deviation("the program stops for no stated reason")
        self.pos += 1
        return x

    def ev_eval(self, hole):
        """the next event is the evaluation of this hole; -> symbol name"""
        x = self.next()
        if x is None or x[0] != 'eval' or x[2] != hole:
            raise Deviation("%s where a condition should be evaluated" % ('nothing happens' if x is None else self.say(x)))
        n = self.n.get(hole, 0) + 1
        self.n[hole] = n
        return hole if n == 1 else '%s@%d' % (hole, n)

    def truth(self, hole):
        s = self.ev_eval(hole)
        for w in (1, 8):
            r = self.f.cons.get(('s', s, w))
            if r is not None:
                if r[2] > 0 or 0 in r[4]:
                    return True
                if r[3] == 0:
                    return False
        raise Deviation("the condition does not decide")

    def stmt(self, p):
        if p[0] == 'one':
            x = self.next()
            if x is None or x[0] != 'body' or x[1] != p[1][0][1]:
                raise Deviation("%s where the next statement of the body should run" % ('the loop ends' if x is None else self.say(x)))
            self.body(x)
            return None
        if p[0] == 'ev':
            x = self.next()
            if x is None or x[0] != 'body' or x[1] != p[1]:
                raise Deviation("the statement after the loop does not run")
            return None
        if p[0] == 'if':
            return p[1][1] if self.truth(p[1][0]) else None
        return self.loop(p[1], p[3])

    def body(self, x):
        self.bodies += 1
        vs = self.job.evs[x[1]][1]
        vals = list(x[2])
        for lp, cur in self.frames:
            for (v, t, what) in lp['vars']:
                got = vals.pop(0)
                why = cur(what, got)
                if why:
                    raise Deviation(why)

    def loop(self, lp, sub):
        it = getattr(self, 'k_' + {'each': 'coll', 'map': 'coll', 'chars': 'coll'}.get(lp['kind'], lp['kind']))(lp)
        while True:
            cur = next(it, None)
            if cur is None:
                return None
            self.frames.append((lp, cur))
            r = None
            for s in sub:
                r = self.stmt(s)
                if r:
                    break
            self.frames.pop()
            if r == 'break':
                return None
            if r == 'return':
                return r

    # each of these yields, per iteration that must take place, a judge of the loop variables
    def k_loop(self, lp):
        while True:
            self.cut(lp)
            yield lambda what, got: None

    def cut(self, lp):
        pass

    def k_while(self, lp):
        while self.truth(lp['holes']['W']):
            yield lambda what, got: None

    def k_range(self, lp):
        return self.k_steps(lp)

    def k_steps(self, lp):
        H, bt = lp['holes'], lp['type']
        want = set(H.values())
        sym = {}
        while want:
            x = self.next()
            if x is not None and x[0] == 'panic' and x[2] in ('P0003', 'P0004'):
                raise End()              # a bound that is not an int value
            if x is None or x[0] != 'eval' or x[2] not in want:
                raise Deviation("a bound is not evaluated before the first iteration")
            want.discard(x[2])
            n = self.n.get(x[2], 0) + 1
            self.n[x[2]] = n
            sym[x[2]] = x[2] if n == 1 else '%s@%d' % (x[2], n)
        a, b = sym[H['A']], sym[H['B']]
        s = sym.get(H.get('S'))
        lv = {x: leaf(bt) for x in sym.values()}
        up = True
        x = self.peek()
        if x is not None and x[0] == 'panic' and x[2] in ('P0003', 'P0004') and bt != 'int':
            raise End()
        if s:
            lo, hi = worlds.rng(self.f, s, *lv[s])
            if 0 in self.f.rng(('s', s, lv[s][0]), lv[s][0])[4]:
                lo, hi = lo + (lo == 0), hi - (hi == 0)
            if x is not None and x[0] == 'panic' and x[2] == 'P0090':
                if lo == hi == 0:
                    raise End()
                raise Deviation("a step other than zero stops the program")
            if lo > 0:
                up = True
            elif hi < 0:
                up = False
            else:
                up = None
        fs = worlds.facts(self.T.run, self.f, lv)
        val = pleaf(a)
        k = 0
        while True:
            if up is None:
                raise Deviation("the direction of the step is not decided")
            d = padd(val, pleaf(b), -1) if up else padd(pleaf(b), val, -1)
            n = padd(pleaf(b), val, -1) if up else padd(val, pleaf(b), -1)
            more = None
            for key, kind, truth in fs:
                if key == d.key():
                    if kind == 'lt':
                        more = truth if more is None else more
                    elif truth:
                        more = False
                elif key == n.key() and kind == 'lt' and truth:
                    more = False
            if more is None:
                raise Deviation("whether another value follows is not decided by a comparison with the end")
            if not more:
                return
            want_key = val.key()

            def cur(what, got, want_key=want_key):
                m = Meaning(self.T.run.eng, self.f, lv).of(got, 64, True)
                if m is None or m[0].key() != want_key:
                    return "the loop variable is not start + %d * step" % k
            yield cur
            k += 1
            val = padd(val, pleaf(s)) if s else padd(val, pconst(1))
            x = self.peek()
            if s and x is not None and x[0] == 'panic' and x[2] == 'P0004':
                raise End()              # the next value is not an int

    def k_coll(self, lp):
        kind, form = lp['kind'], lp['o'].get('form', 'label')
        hdr = HDR[kind]
        T = self.T
        self.loopcount[lp['i']] = self.loopcount.get(lp['i'], 0) + 1
        base = 8 if form == 'member' else 0
        one = form in ('elem', 'call')
        at = '@%d' % self.loopcount[lp['i']] if one and hdr != 'GrayString' else ''
        o = 'OBJ:' + lp['coll'] + at

        def fld(f):
            if one and hdr == 'GrayString':
                c = self.loopcount[lp['i']]
                return lp['coll'] + ('' if c == 1 else '@%d' % c) + '.%d' % (0 if f == 'data' else 1)
            return '%s.%d' % (o, base + T.off[(hdr, f)])
        L = fld('order_len' if kind == 'map' else 'len')
        evals = 0
        k = 0
        while True:
            lo, hi, ulo, uhi, ne = self.f.rng(('s', L, 32), 32)
            lo = max(lo, 0) if not lo > k else lo
            while lo in ne:
                lo += 1
            if lo > k:
                more = True
            elif hi <= k:
                more = False
            else:
                raise Deviation("whether the collection has another element is not decided")
            if not more:
                return

            def cur(what, got, k=k):
                if what == 'index':
                    return None if got == k else "the index is not %d" % k
                if what == 'char':
                    t = got
                    while isinstance(t, tuple) and t[0] == 'e' and t[1] in ('sext', 'zext', 'trunc'):
                        t = t[3]
                    return None if t == ('s', '%s.%d' % (fld('data'), k), 8) else "the character is not the one at position %d" % k
                t = got
                while isinstance(t, tuple) and t[0] == 'e' and t[1] in ('sext', 'zext', 'trunc'):
                    t = t[3]
                nm = t[1] if isinstance(t, tuple) and t[0] in 's' and isinstance(t[1], str) else t[1] if is_ptr(t) else None
                mt = re.match(r'(CELL\d+)\.0$', nm or '')
                c = self.f.x.get(('cell', mt.group(1))) if mt else None
                want = {'elem': 'data', 'key': 'keys', 'value': 'values'}[what]
                if c is None or c[0] != what or not is_ptr(c[1]) or c[1][1:] != (fld(want), 0):
                    return "the loop variable is not taken from the collection"
                i = c[2]
                while isinstance(i, tuple) and i[0] == 'e' and i[1] in ('sext', 'zext', 'trunc'):
                    i = i[3]
                if kind == 'map':
                    ok = i == ('s', '%s.%d' % (fld('order'), 4 * k), 32)
                else:
                    ok = i == k
                return None if ok else "the loop variable is not taken from position %d" % k
            yield cur
            k += 1
