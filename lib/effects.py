"""Which pointer parameters a C function writes through (directly, through what they point to, or by way of the functions it calls)."""
import os
import re

import irlib
from irlib import AnalysisError

READERS = {'strlen', 'memcmp', 'strcmp', 'strncmp', 'printf', 'fprintf', 'puts', 'fputs', 'fwrite', 'free', 'abort', 'exit', 'malloc', 'calloc', 'qsort_r',
           'llvm.lifetime.start', 'llvm.lifetime.end', 'llvm.dbg.value', 'llvm.dbg.declare'}
WRITERS = {'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'qsort': (0,), 'snprintf': (0,), 'strcpy': (0,), 'strncpy': (0,), 'sprintf': (0,),
           'llvm.memcpy': (0,), 'llvm.memmove': (0,), 'llvm.memset': (0,)}


def base(n):
    m = re.match(r'(llvm\.(?:\w+\.)?\w+?)(\.p0.*|\.i\d+)?$', n)
    return m.group(1) if m else n


class Effects:
    def __init__(self, files):
        self.fn = {}
        for f in files:
            m = irlib.load(f)
            for n, x in m.funcs.items():
                if x.blocks if hasattr(x, 'blocks') else x.body:
                    self.fn.setdefault(n, x)
        self.memo = {}

    def writes(self, name):
        """indices of the parameters written through"""
        if name in self.memo:
            return self.memo[name]
        self.memo[name] = set()                         # recursion: least fixpoint, iterated below
        while True:
            r = self.analyse(self.fn[name])
            if r == self.memo[name]:
                return r
            self.memo[name] = r

    def analyse(self, fn):
        out = set()
        for i, p in enumerate(fn.params):
            nm = p[1] if isinstance(p, (tuple, list)) else p
            if self.through(fn, nm):
                out.add(i)
        return out

    def through(self, fn, param):
        D, slots = {param}, set()

        def d(v):
            return v is not None and isinstance(v, tuple) and v[0] == 'loc' and v[1] in D
        ch = True
        while ch:
            ch = False
            for ins in fn.insts():
                new = False
                if ins.op == 'getelementptr':
                    new = d(ins.a[1])
                elif ins.op in ('phi',):
                    new = ins.ty == ('ptr',) and any(d(v) for v, _ in ins.a[0])
                elif ins.op == 'select':
                    new = ins.ty == ('ptr',) and any(d(v) for v in ins.a if isinstance(v, tuple))
                elif ins.op == 'load':
                    new = ins.ty == ('ptr',) and (d(ins.a[0]) or ins.a[0] in slots)
                elif ins.op == 'call' and ins.res and ins.ty == ('ptr',):
                    n = ins.a[0][1] if ins.a[0][0] == 'glob' else None
                    g = self.fn.get(n)
                    if g is not None:
                        new = any(d(x[1]) for x in ins.a[1])
                if new and ins.res is not None and ins.res not in D:
                    D.add(ins.res)
                    ch = True
        for ins in fn.insts():
            if ins.op == 'store' and d(self.addr(ins)):
                return True
            if ins.op == 'call':
                n = base(ins.a[0][1]) if ins.a[0][0] == 'glob' else None
                args = [x[1] for x in ins.a[1]]
                if n in self.fn:
                    if any(d(a) and i in self.writes(n) for i, a in enumerate(args)):
                        return True
                elif n in WRITERS:
                    if any(i < len(args) and d(args[i]) for i in WRITERS[n]):
                        return True
                elif n in READERS or n is not None and n.startswith('llvm.'):
                    continue
                elif any(d(a) for a in args):
                    self.unknown = getattr(self, 'unknown', set()) | {n or 'indirect'}
        return False

    def addr(self, ins):
        return ins.a[1] if len(ins.a) > 1 else None
