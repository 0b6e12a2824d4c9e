"""Comparison operators: elementwise equality, lexicographic order and the
operators derived from it."""
import cutoff
from harness import Gen
from ops import *

OPS = [('<', 'lt'), ('>', 'gt'), ('==', 'eq'), ('<=', 'le'), ('>=', 'ge'), ('!=', 'ne')]

def lex(N, M_, op):
    """o[0] = a op b, lexicographic over the elements, the shorter first"""
    c = ' '.join('if(a[%d]<b[%d]) { r=-1; } else if(a[%d]>b[%d]) { r=1; } else {' % (i, i, i, i) for i in range(min(N, M_)))
    c += ' r=%d;' % ((N > M_) - (N < M_)) + ' }' * min(N, M_)
    return 'int r; ' + c + ' o[0]=r%s0?1.:0.;' % op

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    FORMS = VFORMS + ['row', 'col', 'sub', 'rsub']
    def opnd(nm, arr, n, k, E='double'):
        K = CKINDS[k % 6]
        f = FORMS[k // 6 % 8]
        if K in ('KC', 'KY') and f in ('row', 'col'):
            f = 'cl'
        return V(K, f, nm, arr, n, E)
    # vectors of equal size
    for N in (1, 2, 3, 4, 5, 9) + tuple(n for n in cutoff.above() if n not in (5, 9)):
        g.thin = 1 if N < 10 else 7
        for op, nm in OPS:
            cs = 'v%d%s' % (N, nm)
            g.case(cs, (N, N), (1,), lex(N, N, op))
            seen = set()
            for k in range(48 if full and N < 9 or N in (2, 3) else 16 if N < 9 else 5):
                v, w = opnd('x', 'a', N, k), opnd('y', 'b', N, 7 * k + 3)
                if v.tag + w.tag in seen:
                    continue
                seen.add(v.tag + w.tag)
                g.t(cs, v.tag + w.tag, v.decl + w.decl + 'o[0]=(%s%s%s)?1.:0.;' % (v.expr, op, w.expr))
            if N == 3:
                v, w = V('KF', 'lv', 'x', 'a', N, 'float'), V('KF', 'lv', 'y', 'b', N)
                g.t(cs, 'F32l', v.decl + w.decl + 'o[0]=(x.v%sy.v)?1.:0.;' % op)
                g.t(cs, 'F32r', v.decl + w.decl.replace('y(', 'y(') + 'double z[3]={a[0],a[1],a[2]}; vec<KD,double,3> p(z); vec<KD,float,3> q(b); o[0]=(p.v%sq.v)?1.:0.;' % op)
    g.thin = 1
    # the same object, or views of one object, compared with itself
    for op, nm in OPS:
        cs = 'self' + nm
        g.case(cs, (3,), (1,), 'o[0]=%d;' % (op in ('==', '<=', '>=')))
        for K in CKINDS:
            d = 'vec<%s,double,3> x(a); ' % K
            g.t(cs, SHORT[K], d + 'o[0]=(x.v%sx.v)?1.:0.;' % op)
            g.t(cs, 'e' + SHORT[K], d + 'o[0]=(x.v*1.%s+x.v)?1.:0.;' % op)
    # vectors of different size
    for N, M_ in ((1, 2), (2, 1), (2, 3), (3, 2), (2, 4), (4, 2), (3, 4), (5, 7), (7, 6)) + tuple((n, n + 1) for n in cutoff.above()):
        for op, nm in OPS:
            cs = 'd%d%d%s' % (N, M_, nm)
            g.case(cs, (N, M_), (1,), lex(N, M_, op))
            for k in range(24 if full else 10):
                v, w = opnd('x', 'a', N, 5 * k), opnd('y', 'b', M_, 7 * k + 3)
                g.t(cs, 'k%d' % k + v.tag + w.tag, v.decl + w.decl + 'o[0]=(%s%s%s)?1.:0.;' % (v.expr, op, w.expr))
    # an empty dynamic vector precedes every other
    for op, nm in OPS:
        g.case('emp' + nm, (2,), (1,), 'o[0]=-1%s0?1.:0.;' % op)
        g.t('emp' + nm, 'd', 'vec<KD,double,2> y(a); vector<double,dynamic<>> x; o[0]=(x%sy.v)?1.:0.;' % op)
        g.case('emq' + nm, (2,), (1,), 'o[0]=1%s0?1.:0.;' % op)
        g.t('emq' + nm, 'd', 'vec<KD,double,2> y(a); vector<double,dynamic<>> x; o[0]=(y.v%sx)?1.:0.;' % op)
    # matrices: equality over (i,j), whatever the layout and basis
    n = 0
    for (r, c) in ((1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (5, 6)) + tuple(cutoff.shapes()):
        g.thin = 1 if r < 5 or full else 4
        for op, nm in (('==', 'eq'), ('!=', 'ne')):
            cs = 'm%d%d%s' % (r, c, nm)
            eq = '&&'.join('a[%d]==b[%d]' % (i, i) for i in range(r * c))
            g.case(cs, (r * c, r * c), (1,), 'o[0]=(%s)?%s;' % (eq, '1.:0.' if op == '==' else '0.:1.'))
            for K1 in KINDS:
                for K2 in KINDS:
                    for L1 in LAYOUTS:
                        for L2 in LAYOUTS:
                            n += 1
                            if not full and r * c > 1 and n % 3 and (K1, K2) != ('KF', 'KD'):
                                continue
                            B1, B2 = RC[n // 3 % 2], RC[n // 5 % 2]
                            fs = VFORMS + ['tr', 'trr']
                            x = M(K1, fs[n // 2 % 6], 'x', 'a', r, c, B1, L1)
                            y = M(K2, fs[n // 7 % 6], 'y', 'b', r, c, B2, L2)
                            g.t(cs, '%d' % n + x.tag + y.tag, x.decl + y.decl + 'o[0]=(%s%s%s)?1.:0.;' % (x.expr, op, y.expr))
    g.thin = 1
    # matrices of different shape are not equal, also with the same number of elements
    for (r, c), (p, q) in (((2, 3), (3, 2)), ((2, 2), (2, 3)), ((2, 3), (2, 2)), ((1, 4), (2, 2)), ((3, 2), (2, 2)), ((4, 1), (1, 4))):
        for op, nm in (('==', 'eq'), ('!=', 'ne')):
            cs = 'ms%d%d%d%d%s' % (r, c, p, q, nm)
            g.case(cs, (r * c, p * q), (1,), 'o[0]=%s;' % ('0.' if op == '==' else '1.'))
            for K1 in KINDS:
                for K2 in KINDS:
                    n += 1
                    x = M(K1, VFORMS[n // 2 % 4], 'x', 'a', r, c, RC[n % 2], LAYOUTS[n // 2 % 2])
                    y = M(K2, VFORMS[n // 7 % 4], 'y', 'b', p, q, RC[n // 3 % 2], LAYOUTS[n // 5 % 2])
                    g.t(cs, x.tag + y.tag, x.decl + y.decl + 'o[0]=(%s%s%s)?1.:0.;' % (x.expr, op, y.expr))
    # quaternions: all six, over the elements in storage order
    for od in ORDERS:
        perm = [0, 1, 2, 3] if od == 'real_first' else [1, 2, 3, 0]
        pre = 'double x[4]={%s}, y[4]={%s}; { double (&a)[4]=x, (&b)[4]=y; ' % (','.join('a[%d]' % i for i in perm), ','.join('b[%d]' % i for i in perm))
        for op, nm in OPS:
            cs = 'q' + SHORT[od] + nm
            g.case(cs, (4, 4), (1,), pre + lex(4, 4, op) + ' }')
            for k in range(16):
                x = Q(VFORMS[k % 4], 'x_', 'a', od, CROSSES[k // 2 % 2])
                y = Q(VFORMS[k // 4], 'y_', 'b', od, CROSSES[k // 2 % 2])
                g.t(cs, x.tag + y.tag, x.decl + y.decl + 'o[0]=(%s%s%s)?1.:0.;' % (x.expr, op, y.expr))
            g.t(cs, 'mx', 'quat<double,%s,positive_cross> x(a); quat<double,%s,negative_cross> y(b); o[0]=(x.v%sy.v)?1.:0.;' % (od, od, op))
            g.t(cs, 'F32', 'quat<float,%s,positive_cross> x(a); quat<double,%s,positive_cross> y(b); o[0]=(x.v%sy.v)?1.:0.;' % (od, od, op))
    # integer and mixed element types compare in the promoted type
    for E1, E2 in (('int', 'double'), ('double', 'int'), ('int', 'int')):
        cast = lambda E, x, q: '(double)(int)%s[%d]' % (x, q) if E == 'int' else '%s[%d]' % (x, q)
        for n, m in ((3, 3), (2, 3), (5, 4)):
            pre = 'double x[%d]={%s}, y[%d]={%s}; { double (&a)[%d]=x, (&b)[%d]=y; ' % (n, ','.join(cast(E1, 'a', q) for q in range(n)), m, ','.join(cast(E2, 'b', q) for q in range(m)), n, m)
            for op, nm in OPS:
                cs = 't%s%s%d%d%s' % (E1[0], E2[0], n, m, nm)
                g.case(cs, (n, m), (1,), pre + lex(n, m, op) + ' }')
                for k in range(6):
                    v, w = opnd('x', 'a', n, 5 * k + n, E1), opnd('y', 'b', m, 7 * k + 3, E2)
                    g.t(cs, 'k%d' % k + v.tag + w.tag, v.decl + w.decl + 'o[0]=(%s%s%s)?1.:0.;' % (v.expr, op, w.expr))
        for op, nm in (('==', 'eq'), ('!=', 'ne')):
            cs = 'tm%s%s%s' % (E1[0], E2[0], nm)
            g.case(cs, (6, 6), (1,), 'o[0]=(%s)?%s;' % ('&&'.join('%s==%s' % (cast(E1, 'a', q), cast(E2, 'b', q)) for q in range(6)), '1.:0.' if op == '==' else '0.:1.'))
            for k in range(8):
                x = M(KINDS[k % 4], VFORMS[k // 2 % 4], 'x', 'a', 2, 3, RC[k % 2], LAYOUTS[k // 2 % 2], E1)
                y = M(KINDS[k // 2 % 4], VFORMS[k % 4], 'y', 'b', 2, 3, RC[k // 4 % 2], LAYOUTS[k // 3 % 2], E2)
                g.t(cs, '%d' % k + x.tag + y.tag, x.decl + y.decl + 'o[0]=(%s%s%s)?1.:0.;' % (x.expr, op, y.expr))
        for od in ORDERS:
            perm = [0, 1, 2, 3] if od == 'real_first' else [1, 2, 3, 0]
            pre = 'double x[4]={%s}, y[4]={%s}; { double (&a)[4]=x, (&b)[4]=y; ' % (','.join(cast(E1, 'a', i) for i in perm), ','.join(cast(E2, 'b', i) for i in perm))
            for op, nm in OPS:
                cs = 'tq%s%s%s%s' % (E1[0], E2[0], SHORT[od], nm)
                g.case(cs, (4, 4), (1,), pre + lex(4, 4, op) + ' }')
                g.t(cs, 'p', 'quat<%s,%s,positive_cross> x(a); quat<%s,%s,positive_cross> y(b); o[0]=(x.v%sy.v)?1.:0.;' % (E1, od, E2, od, op))
    rep.values(g)
