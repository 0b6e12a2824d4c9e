import itertools
import random
from fractions import Fraction as Fr
import cutoff
from harness import Gen
from ops import *

def dets(n, m='a'):
    ts = []
    for p in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i):
                if p[j] > p[i]:
                    s = -s
        ts.append(('+' if s > 0 else '-') + '*'.join('%s[%d]' % (m, i * n + p[i]) for i in range(n)))
    return ''.join(ts)

def minors(n, m='a'):
    """C++ for the adjugate: expressions e[i][j] = cofactor of (j,i)"""
    out = {}
    for i in range(n):
        for j in range(n):
            rows = [r for r in range(n) if r != j]
            cols = [c for c in range(n) if c != i]
            if n == 1:
                out[i, j] = '1.'
                continue
            ts = []
            for p in itertools.permutations(range(n - 1)):
                s = 1 if (i + j) % 2 == 0 else -1
                for x in range(n - 1):
                    for y in range(x):
                        if p[y] > p[x]:
                            s = -s
                ts.append(('+' if s > 0 else '-') + '*'.join('%s[%d]' % (m, rows[x] * n + cols[p[x]]) for x in range(n - 1)))
            out[i, j] = '(' + ''.join(ts) + ')'
    return out

def det_num(m):
    m = [r[:] for r in m]
    n = len(m)
    d = Fr(1)
    for k in range(n):
        p = next((i for i in range(k, n) if m[i][k]), None)
        if p is None:
            return Fr(0)
        if p != k:
            m[p], m[k] = m[k], m[p]
            d = -d
        d *= m[k][k]
        for i in range(k + 1, n):
            f = m[i][k] / m[k][k]
            for j in range(k, n):
                m[i][j] -= f * m[k][j]
    return d

def sub(m, i, j):
    return [[m[r][c] for c in range(len(m)) if c != j] for r in range(len(m)) if r != i]

def num(f):
    assert f == Fr(float(f)), f
    return repr(float(f))

def inv_num(m):
    n = len(m)
    d = det_num(m)
    return [[det_num(sub(m, j, i)) * (-1) ** (i + j) / d if n > 1 else 1 / d for j in range(n)] for i in range(n)]

def perm_of(p):
    """the pattern of p without its last entry"""
    q = p[:-1]
    s = sorted(q)
    return tuple(s.index(x) for x in q)

def dyadic(n, rp, cp, seed):
    """P L D U Q with unit dyadic L, U and pivots decreasing by 8: partial and
    full pivoting choose exactly the entries (rp[k], cp[k])"""
    rnd = random.Random(seed)
    h = [Fr(k, 4) for k in (-2, -1, 0, 1, 2)]
    l = [[Fr(1) if i == j else (rnd.choice(h) if j < i else Fr(0)) for j in range(n)] for i in range(n)]
    u = [[Fr(1) if i == j else (rnd.choice(h) if j > i else Fr(0)) for j in range(n)] for i in range(n)]
    d = [Fr(rnd.choice([-1, 1]) * 8 ** (n - k)) for k in range(n)]
    m = [[Fr(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            m[rp[i]][cp[j]] = sum(l[i][k] * d[k] * u[k][j] for k in range(n))
    return m

def filled(n, m):
    return 'double z[%d]={%s}; ' % (n * n, ', '.join(num(m[i][j]) for i in range(n) for j in range(n)))

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    allm = [(k, f, B, L) for k in KINDS for f in VFORMS + ['tr'] for B in RC for L in LAYOUTS]
    for n in (1, 2, 3, 4):
        sq = n * n
        g.case('det%d' % n, (sq,), (1,), 'o[0]=%s;' % dets(n))
        g.case('trace%d' % n, (sq,), (1,), 'o[0]=0; for(int i=0;i<%d;++i) o[0]+=a[i*%d+i];' % (n, n))
        mi = minors(n)
        g.case('inv%d' % n, (sq,), (sq,), 'const double d=%s; ' % dets(n) + ' '.join('o[%d]=%s/d;' % (i * n + j, mi[i, j]) for i in range(n) for j in range(n)))
        g.case('mul%d' % n, (sq,), (sq,), 'const double d=%s; for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) o[i*%d+j]=i==j?d/d:0.*(1/d);' % (dets(n), n, n, n)) if n <= 3 else None
        for k, (K, f, B, L) in enumerate(allm):
            x = M(K, f, 'x', 'a', n, n, B, L)
            t = x.tag
            g.t('trace%d' % n, t, x.decl + 'o[0]=trace(%s);' % x.expr)
            g.t('trace%d' % n, 'm' + t, x.decl + 'o[0]=(%s).trace();' % x.expr)
            if n == 4 and not full and f not in ('lv', 'ex') and k % 4:
                continue
            g.t('det%d' % n, t, x.decl + 'o[0]=determinant(%s);' % x.expr)
            g.t('det%d' % n, 'm' + t, x.decl + 'o[0]=(%s).determinant();' % x.expr)
            g.t('inv%d' % n, t, x.decl + 'emitm<%d,%d>(o, inverse(%s));' % (n, n, x.expr))
            if f in ('lv', 'tr'):
                g.t('inv%d' % n, 'k' + t, x.decl + 'auto e=inverse(%s); emitm<%d,%d>(o, e);' % (x.expr, n, n))
            if f == 'lv':
                g.t('inv%d' % n, 'in' + t, x.decl + 'x.v.inverse(); emitm<%d,%d>(o, x.v);' % (n, n))
                g.t('inv%d' % n, 'inr' + t, x.decl + 'emitm<%d,%d>(o, std::move(x.v).inverse());' % (n, n))
                g.t('inv%d' % n, 'tt' + t, x.decl + 'emitm<%d,%d>(o, transpose(inverse(transpose(x.v))));' % (n, n))
    # non-square operands throw (dynamic sizes)
    for (r, c) in ((1, 2), (2, 3), (3, 2), (4, 3), (5, 4)):
        cs = 'nsq%d%d' % (r, c)
        g.case(cs, (r * c,), (1,), 'throw non_square_matrix_error();')
        for K in ('KD', 'KX'):
            for L in LAYOUTS:
                x = M(K, 'lv', 'x', 'a', r, c, 'row_basis', L)
                g.t(cs, 'd' + x.tag, x.decl + 'o[0]=determinant(x.v);')
                g.t(cs, 't' + x.tag, x.decl + 'o[0]=trace(x.v);')
                g.t(cs, 'i' + x.tag, x.decl + 'auto e=inverse(x.v); o[0]=0;')
                g.t(cs, 'ii' + x.tag, x.decl + 'x.v.inverse(); o[0]=0;')
    # elimination: every chosen pivot pattern, symbolic entries, entries chosen so that elimination is exact
    for n in ((5, 6) if full else (5,)) + tuple(k for k in cutoff.above(9) if k > 6):
        rnd = random.Random(n)
        if n > 6:
            perms = [tuple(rnd.sample(range(n), n)) for _ in range(1)]
        else:
            perms = list(itertools.permutations(range(n)))
            rnd.shuffle(perms)
        perms = [tuple(range(n)), tuple(reversed(range(n)))][n > 6:] + perms[:(120 if full else 14)]
        for q, pm in enumerate(dict.fromkeys(perms)):
            pid = ''.join(map(str, pm))
            qm = perms[(q * 7 + 3) % len(perms)]
            # determinant: the whole last column symbolic (the pivots are chosen in the others)
            m = dyadic(n, pm, tuple(range(n)), 100 * n + q)
            cs = 'detc%d_%s' % (n, pid)
            cof = [det_num(sub(m, i, n - 1)) * (-1) ** (i + n - 1) for i in range(n)]
            g.case(cs, (n,), (1,), 'o[0]=' + '+'.join('(%s)*a[%d]' % (num(c), i) for i, c in enumerate(cof)) + ';')
            lc = filled(n, m) + ''.join('z[%d]=a[%d]; ' % (i * n + n - 1, i) for i in range(n))
            for K in KINDS:
                L = LAYOUTS[(q + KINDS.index(K)) % 2]
                g.t(cs, SHORT[K], lc + 'mat<%s,double,%d,%d,row_basis,%s> x(z); o[0]=determinant(x.v);' % (K, n, n, L))
            g.t(cs, 'ex', lc + 'mat<KF,double,%d,%d> x(z); o[0]=determinant(1.*x.v);' % (n, n))
            # inverse: a symbolic entry alone in its row, competing for every pivot
            m4 = dyadic(n - 1, perm_of(pm), perm_of(qm), 100 * n + q)
            r, c = pm[0], qm[-1]
            v = [Fr(rnd.choice([-2, -1, 0, 1, 2, 3])) for _ in range(n - 1)]
            inv4 = inv_num(m4)
            ri = [i for i in range(n) if i != r]
            ci = [j for j in range(n) if j != c]
            m = [[Fr(0)] * n for _ in range(n)]
            o = ['0'] * (n * n)
            for i in range(n - 1):
                m[ri[i]][c] = v[i]
                for j in range(n - 1):
                    m[ri[i]][ci[j]] = m4[i][j]
                    o[ci[i] * n + ri[j]] = num(inv4[i][j])
                o[ci[i] * n + r] = '(%s)/a[0]' % num(-sum(inv4[i][k] * v[k] for k in range(n - 1)))
            o[c * n + r] = '1/a[0]'
            cs = 'invx%d_%s' % (n, pid)
            g.case(cs, (1,), (n * n,), ' '.join('o[%d]=%s;' % (k, x) for k, x in enumerate(o)))
            lc = filled(n, m) + 'z[%d]=a[0]; ' % (r * n + c)
            for K in KINDS:
                L = LAYOUTS[(q + KINDS.index(K)) % 2]
                g.t(cs, SHORT[K], lc + 'mat<%s,double,%d,%d,row_basis,%s> x(z); emitm<%d,%d>(o, inverse(x.v));' % (K, n, n, L, n, n))
            g.t(cs, 'in', lc + 'mat<KF,double,%d,%d> x(z); x.v.inverse(); emitm<%d,%d>(o, x.v);' % (n, n, n, n))
    # integer elements: no division, so exact as well
    for n in (2, 3, 4):
        fix = 'double a_[%d]; for(int i=0;i<%d;++i) a_[i]=(double)(int)a[i]; { const double* a=a_; ' % (n * n, n * n)
        g.case('deti%d' % n, (n * n,), (1,), fix + 'o[0]=%s; }' % dets(n))
        g.case('tri%d' % n, (n * n,), (1,), fix + 'o[0]=0; for(int i=0;i<%d;++i) o[0]+=a[i*%d+i]; }' % (n, n))
        for q, K in enumerate(KINDS * 2):
            x = M(K, VFORMS[q % 4], 'x', 'a', n, n, RC[q // 4], LAYOUTS[q % 2], 'int')
            t = '%d' % q + x.tag
            g.t('deti%d' % n, t, x.decl + 'o[0]=determinant(%s);' % x.expr)
            g.t('tri%d' % n, t, x.decl + 'o[0]=trace(%s);' % x.expr)
    g.cases = {k: v for k, v in g.cases.items() if v[3]}
    rep.values(g)
