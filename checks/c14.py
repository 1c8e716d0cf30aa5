"""C14 loops run their body exactly for the values, elements or conditions the language prescribes, in order"""
import cg
import irlib
import vf
from irlib import AnalysisError
from judge import Harness
from loops import Loop, Template, Tracer, Follow, Deviation, NAMES
from m01 import World, EXTRA

KINDS = ('range', 'steps', 'each', 'map', 'chars', 'while', 'loop')
ELEMS = ['int', 'i64', 'float', 'bool', 'char', 'string', 'byte', 'S', '^S', '[int]', 'map[string:int]']
KEYS = ['string', 'int', 'uint', 'char', 'byte', 'bool', 'float', 'i32', 'u8', 'i64']


def programs():
    for k in KINDS:
        if k != 'loop':
            yield Loop(k, 'ev')
        for x in ('break', 'continue'):
            b = ('ev', x, 'ev')
            yield Loop(k, *(b if k != 'loop' or x == 'break' else ('ev', 'continue', 'break', 'ev')))
    for o in KINDS:
        for i in KINDS:
            for x in ('break', 'continue'):
                inner = ('ev', x, 'ev') if i != 'loop' or x == 'break' else ('ev', 'continue', 'break')
                outer = ('ev', Loop(i, *inner), 'ev') + (('break',) if o == 'loop' else ())
                yield Loop(o, *outer)
    for et in ELEMS:
        for form in ('label', 'member', 'elem', 'call'):
            for names in ('one', 'two'):
                yield Loop('each', 'ev', of=et, form=form, names=names)
    for kt in KEYS:
        for form in ('label', 'member', 'elem', 'call'):
            for names in ('one', 'two'):
                yield Loop('map', 'ev', key=kt, form=form, names=names)
    for vt in ELEMS:
        if not vt.startswith('map'):
            yield Loop('map', 'ev', of=vt, names='two')
    for form in ('label', 'member', 'elem', 'call'):
        for names in ('one', 'two'):
            yield Loop('chars', 'ev', form=form, names=names)


def check():
    ck = vf.Check("C14", "on every path of an emitted loop, the body runs exactly when the loop's own comparison, length or condition says another iteration follows, with exactly the values that iteration prescribes",
                  "The C templates of every kind of loop, alone and nested, with break and continue, for every form of collection and type of element and key, are derived from the code generator, lowered to LLVM IR, and each path is replayed against a reference of the loop semantics.")
    c = cg.CG()
    for x in ("runtime/runtime.c", "runtime/array.c", "runtime/map.c", "stdlib/builtins.c", "stdlib/strings.c"):
        irlib.load(x)
    js = list(programs())
    ck.parallel(lambda sub, i, n: part(sub, c, js[i::n], 'c14_%d' % i))
    for k, n in (('templates', 300), ('paths', 4500), ('body executions compared', 25000)):
        ck.floor(k, n)
    return ck


def part(ck, c, js, tag):
    H = Harness(tag)
    H.extra = EXTRA
    work = []
    for p in js:
        w = World(c, 'local', 'string')
        t = Template(c, w, H, p, 'u%d' % len(work))
        key = p.show()
        n = 0
        for tpl, f in c.run(w.st, t.top, stmt=True):
            try:
                code = t.render(tpl).strip()
            except AnalysisError:
                ck.count('templates for another program shape')
                continue
            n += 1
            ck.count('templates')
            work.append((key, H.add("void @FN@(void){ %s }" % code), code, t))
        if not n:
            ck.fail(key, c.stmt_fn, "no template is emitted")
    T = Tracer(H, irlib.DI(irlib.load('stdlib/maps.c')))
    for key, fn, code, t in work:
        judge(ck, T, c, key, fn, code, t)


def judge(ck, T, c, key, fn, code, t):
    w = "code generator, statement dispatcher %s" % c.stmt_fn
    if fn in T.bad:
        return ck.fail(key, w, "the emitted C does not compile: %s; emitted C: %s" % (T.bad[fn], code[:600]))
    most = 0
    for k, f in T.paths(t, fn):
        ck.count('paths')
        F = Follow(T, t, k, f)
        try:
            F.check()
        except Deviation as d:
            return ck.fail(key, w, "%s; emitted C: %s" % (d, code[:600]))
        most = max(most, F.bodies)
        ck.count('body executions compared', F.bodies)
    if most < 2:
        return ck.fail(key, w, "no path runs the body twice; emitted C: %s" % code[:600])
    ck.ok(key, code[:300])
