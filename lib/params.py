"""Source-level parameter types of a function, with the index of the IR argument that carries each."""
import re
from irlib import AnalysisError, DI


def params(mod, fn):
    """[(type name, index of the IR argument)]; a pointer to const is written with a leading 'const '"""
    s = mod.md.get(fn.dbg, "")
    m = re.search(r' type: !(\d+)', s)
    if not m:
        raise AnalysisError("no debug information for %s" % fn.name)
    ty = re.search(r'types: !(\d+)', mod.md.get(int(m.group(1)), ""))
    raw = mod.md.get(int(ty.group(1)), "") if ty else ""
    ids = [int(a) for a, b in re.findall(r'!(\d+)|(null)', raw[raw.index('{'):])[1:] if a] if '{' in raw else []
    di = mod.__dict__.get('_di')
    if di is None:
        di = mod._di = DI(mod)
    out = []
    for k in ids:
        st = mod.md.get(k, "")
        b = re.search(r'baseType: !(\d+)', st)
        const = 'DW_TAG_pointer_type' in st and b and 'DW_TAG_const_type' in mod.md.get(int(b.group(1)), "")
        nm = di.type_name(k)
        out.append((('const ' if const else '') + nm, 2 if nm in ('GrayString', 'gray_i128', 'gray_u128') else 1))
    fn.result = None
    first = re.match(r'\{!(\d+)', raw[raw.index('{'):]) if '{' in raw else None
    if first:
        fn.result = di.type_name(int(first.group(1)))      # the type of a value returned in memory
    pos = len(fn.params) - sum(n for _, n in out)
    if pos not in (0, 1):
        raise AnalysisError("the parameters of %s are not understood" % fn.name)
    r = []
    for nm, n in out:
        r.append((nm, pos))
        pos += n
    return r
