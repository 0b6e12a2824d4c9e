"""Operations on fixed-size operands: no heap allocation on any path that
returns."""
from harness import Gen
import apigen
import apiops
from ops import *

KINDSV = ['KF', 'KE', 'KC']
# pivoting: which element is written depends on the values
PIVOT = ('inv4', 'invip4', 'lup2', 'lup3', 'lup4', 'lusolve1')
FORMS = ['lv', 'cl', 'ex', 'rv', 'row', 'col', 'sub', 'rsub', 'tr', 'trr']

def targets(g, tier, marker, kinds, forms, per, pre=lambda rd, wr: '', post='', skip=()):
    n = 0
    for api in apiops.table():
        if api.name.startswith(('vrand', 'mrand')):
            continue            # drawn from the C library's random generator
        if api.kinds and not set(api.kinds) & set(kinds):
            continue
        seen = set()
        for k in range(per):
            n += 1
            ks, fs = [], []
            for q, (ty, role, s) in enumerate(api.operands):
                kk = [x for x in kinds if x not in ('KC', 'KY')] if role == 'w' else kinds
                ks.append(kk[(k + n // 3 + q * (1 + n % 2)) % len(kk)])
                fs.append('lv' if role == 'w' else forms[(k * 3 + n // 2 + q * 5) % len(forms)])
            Bs, L = RC[n % 2], LAYOUTS[n // 2 % 2]
            if any(t == 'B' for t, _r, _s in api.operands):
                Bs = RC[k % 2]
            o, x = ORDERS[k % 2], CROSSES[k // 2 % 2]
            ins, decl, text, rd, wr, tag = apigen.instantiate(api, ks, fs, 'double', Bs, L, o, x)
            if (tag, Bs, L, o, x) in seen or 'std::move(' in text and 'FROZEN' in marker:
                continue
            seen.add((tag, Bs, L, o, x))
            case = 'op' + ''.join('d' if isinstance(i, str) else str(i) + 'a' for i in ins)
            if 'FROZEN' in marker and api.name in PIVOT:
                # the pivot search on a concrete matrix: the stores are the same ones
                n0 = ins[0]
                vals = ','.join('%d.' % ((i * i * 7 + i * 3) % 11 + (17 if i % 6 == 0 else 1)) for i in range(n0))
                decl = 'const double ka[%d]={%s}; ' % (n0, vals) + decl.replace('(a)', '(ka)').replace('=a[', '=ka[')
            g.case(case, ins, (), '')
            g.t(case, '%s%s_%s%s%s%s_%d' % (marker, api.name, tag, SHORT[Bs][0], SHORT[L][0], SHORT[o][0] + SHORT[x][0], k),
                decl + ' ' + pre(rd, wr) + apigen.statement(api, text) + post)

def check(rep, tier):
    g = Gen()
    targets(g, tier, 'NOALLOC', KINDSV, FORMS, 60 if tier == 'thorough' else 14)
    rep.values(g)
