"""Sizes at which the code may start to behave differently.  Loops over the
elements are uniform in the size unless the code compares with, or strides by,
a constant: integer constants of the library beyond the small ones (4 is the
largest special size) and the known ones below.  A constant that is not known
makes the checks analyse the sizes around it as well."""
import os
import re
import glob

KNOWN = {
    'common/hash.h': {5, 8, 13, 15, 27, 32, 47, 51, 54, 64, 93, 95, 198, 204, 230},
    'mathlib/frustum.h': {6}, 'mathlib/frustum.tpp': {5, 6}, 'scalar/traits.h': {8},
    'mathlib/axis_order.h': {12}, 'mathlib/euler_order.h': {12},
}

def strip(s):
    out, d = [], 0
    for l in s.split('\n'):
        t = l.strip()
        if d:
            if re.match(r'#\s*if', t):
                d += 1
            elif re.match(r'#\s*endif', t):
                d -= 1
            continue
        if re.match(r'#\s*if\s+0\b', t):
            d = 1
            continue
        out.append(l)
    s = '\n'.join(out)
    s = re.sub(r'"(\\.|[^"\n\\])*"', '""', s)
    s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
    return re.sub(r'//[^\n]*', ' ', s)

INT = r"(?<![\w.])(0[xX][0-9a-fA-F']+|[1-9][\d']*|0)[uUlL]*(?![\w.])"

def num(x):
    return int(x.replace("'", ''), 0)

def constants(root):
    out = set()
    for f in sorted(glob.glob(root + '/cml/**/*', recursive=True)):
        if not f.endswith(('.h', '.tpp')):
            continue
        try:
            s = strip(open(f, errors='replace').read())
        except OSError:
            continue
        known = KNOWN.get(os.path.relpath(f, root + '/cml'), ())
        vals = {num(m.group(1)) for m in re.finditer(INT, s)}
        for m in re.finditer(INT + r'\s*(<<|\*)\s*' + INT, s):
            x, y = num(m.group(1)), num(m.group(3))
            vals.add(x * y if m.group(2) == '*' else x << y if y < 20 else 0)
        out |= {v for v in vals if v > 4 and v not in known}
    return out

_memo = None
def extra(limit=130):
    """sizes to analyse besides the usual ones"""
    global _memo
    if _memo is None:
        c = sorted(constants(os.environ.get('CML_REPO', '/repo')))
        _memo = c
    out = set()
    for v in [v for v in _memo if v <= limit][:3]:
        out |= {v, v + 1, v + 2}
        if 2 * v + 1 <= 70:
            out.add(2 * v + 1)
    return sorted(out)

def above(limit=40):
    """one size beyond every such constant"""
    extra()
    return [v + 1 for v in _memo if v <= limit][:2]

def shapes(limit=40):
    return [s for n in above(limit) for s in ((n, 2), (2, n))]
