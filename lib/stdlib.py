"""the functions of the standard library as STANDARD.md section 9 documents them"""
import os
import re

import irlib
from irlib import AnalysisError


class Fn:
    def __init__(self, mod, name, params, rets):
        self.mod, self.name, self.params, self.rets = mod, name, params, rets

    @property
    def full(self):
        return self.name if self.mod == 'builtin' else '%s.%s' % (self.mod, self.name)


def split(s):
    """split at the top-level commas"""
    out, d, cur = [], 0, ''
    for ch in s:
        d += ch in '([<' and 1 or ch in ')]>' and -1 or 0
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return [x.strip() for x in out + [cur] if x.strip()]


def documented():
    """-> functions with a full signature, names of functions without one"""
    mod, fns, rest = None, [], []
    for ln in open(os.path.join(irlib.REPO, 'STANDARD.md')):
        m = re.match(r'### 9\.\d+ .*\(`@(\w+)`\)', ln)
        if m:
            mod = m[1]
        elif ln.startswith('### 9.1 '):
            mod = 'builtin'
        elif ln.startswith('## 10'):
            break
        m = re.match(r'\| `(\w+)(?:\([^`]*\))?` \| `([^`]*)`', ln)
        if not (m and mod):
            continue
        s = m[2].replace('->', '→')
        m2 = re.fullmatch(r'\((.*?)\)\s*(?:→\s*(.*))?', s) if '→ (' not in s and '→(' not in s else re.fullmatch(r'\((.*?)\)\s*→\s*(.*)', s)
        if not m2:
            rest.append((mod, m[1], s))
            continue
        ps = []
        for p in split(m2[1]):
            q = re.fullmatch(r'(&?)(\w+)((?:,\s*\w+)*)\s+(.+?)(?:\s*=\s*(.*))?', p)
            if not q:
                r = re.fullmatch(r'(\w+)', p)
                if r:
                    ps.append([r[1], None, False, None])
                    continue
                ps = None
                break
            ps.append([q[2], q[4], bool(q[1]), q[5]])
        if ps is None:
            rest.append((mod, m[1], s))
            continue
        t = None
        for p in reversed(ps):         # (x, y float): the type of a group stands with its last name
            t = p[1] = p[1] or t
        r = (m2[2] or 'void').strip()
        rets = split(r[1:-1]) if r.startswith('(') else [r]
        if any(p[1] is None for p in ps):
            rest.append((mod, m[1], s))
            continue
        fns.append(Fn(mod, m[1], [tuple(p) for p in ps], rets))
    if len(fns) < 100:
        raise AnalysisError("the tables of section 9 of STANDARD.md are not read: %d functions" % len(fns))
    return fns, rest
