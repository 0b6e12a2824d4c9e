from harness import Gen
from ops import *
import builders

SH2 = [(2, 2), (3, 2), (3, 3)]
SH3 = [(3, 3), (4, 3), (4, 4)]

def mdecl(K, r, c, Bs, L):
    rr, cc = (r, c) if Bs == 'row_basis' else (c, r)
    return ('double M0[%d]; for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) M0[%s]=a[i*%d+j]; mat<%s,double,%d,%d,%s,%s> mm(M0); auto& m=mm.v; (void) m; '
            % (r * c, r, c, 'i*%d+j' % c if Bs == 'row_basis' else 'j*%d+i' % r, c, K, rr, cc, Bs, L))

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    n = 0
    for D, shapes, sx in ((2, SH2, '_2D'), (3, SH3, '')):
        ax = 'xyz'[:D]
        for (r, c) in shapes:
            sz = r * c
            cp = 'for(int i=0;i<%d;++i) o[i]=a[i]; ' % sz
            S = {}   # setters: name -> (inputs, reference, calls)
            for tr in (0, 1):
                T = 'transposed_' if tr else ''
                for i in range(D):
                    w = ''.join('o[%d]=b[%d]; ' % ((k * c + i) if tr else (i * c + k), k) for k in range(D))
                    S['s%d%d' % (tr, i)] = ((sz, D), cp + w, ['matrix_set_%sbasis_vector%s(m,%d,{0});' % (T, sx, i), 'matrix_set_%s%s_basis_vector%s(m,{0});' % (T, ax[i], sx)])
                w = ''.join('o[%d]=%s[%d]; ' % ((k * c + i) if tr else (i * c + k), 'bcd'[i], k) for i in range(D) for k in range(D))
                S['sa%d' % tr] = ((sz,) + (D,) * D, cp + w, ['matrix_set_%sbasis_vectors%s(m,%s);' % (T, sx, ','.join('{%d}' % i for i in range(D)))])
            for nm, (ins, rf, calls) in S.items():
                cs = '%s_%d_%d%d' % (nm, D, r, c)
                g.case(cs, ins, (sz,), rf)
                for q, call in enumerate(calls):
                    for Bs in RC:
                        for k, K in enumerate(KINDS):
                            for l, L in enumerate(LAYOUTS):
                                n += 1
                                if not full and (n + k) % 3:
                                    continue
                                v = builders.Vv(n)
                                es = [v('bcd'[x], D) for x in range(len(ins) - 1)]
                                g.t(cs, '%d' % q + SHORT[K] + SHORT[Bs] + SHORT[L], mdecl(K, r, c, Bs, L) + ' '.join(v.decls) + call.format(*es) + ' emitb<%d,%d>(o,m);' % (r, c))
            # getters
            for tr in (0, 1):
                T = 'transposed_' if tr else ''
                for i in range(D):
                    cs = 'g%d%d_%d_%d%d' % (tr, i, D, r, c)
                    g.case(cs, (sz,), (D,), ''.join('o[%d]=a[%d]; ' % (k, (k * c + i) if tr else (i * c + k)) for k in range(D)))
                    for Bs in RC:
                        for k, K in enumerate(KINDS):
                            for l, L in enumerate(LAYOUTS):
                                n += 1
                                if not full and (n + k) % 3:
                                    continue
                                e = ['m', 'std::as_const(m)', '(m*1.)', 'std::move(m)'][n % 4]
                                t = SHORT[K] + SHORT[Bs] + SHORT[L]
                                g.t(cs, 'i' + t, mdecl(K, r, c, Bs, L) + 'auto v=matrix_get_%sbasis_vector%s(%s,%d); emitv<%d>(o,v);' % (T, sx, e, i, D))
                                g.t(cs, 'n' + t, mdecl(K, r, c, Bs, L) + 'auto v=matrix_get_%s%s_basis_vector%s(%s); emitv<%d>(o,v);' % (T, ax[i], sx, e, D))
                cs = 'ga%d_%d_%d%d' % (tr, D, r, c)
                g.case(cs, (sz,), (D * D,), ''.join('o[%d]=a[%d]; ' % (i * D + k, (k * c + i) if tr else (i * c + k)) for i in range(D) for k in range(D)))
                for Bs in RC:
                    for k, K in enumerate(KINDS):
                        for l, L in enumerate(LAYOUTS):
                            n += 1
                            d = 'double w0[%d]={%s}; ' % (D, ','.join('vf_any(%d)' % z for z in range(D))) + ''.join('vec<%s,double,%d> v%d(w0); ' % (KINDS[(n + x) % 4], D, x) for x in range(D))
                            g.t(cs, SHORT[K] + SHORT[Bs] + SHORT[L], mdecl(K, r, c, Bs, L) + d + 'matrix_get_%sbasis_vectors%s(m,%s); ' % (T, sx, ','.join('v%d.v' % x for x in range(D))) +
                                ''.join('for(int k=0;k<%d;++k) o[%d+k]=v%d.v[k]; ' % (D, x * D, x) for x in range(D)))
    # any dimension: basis vector i, and single basis elements
    for (r, c) in [(2, 2), (3, 2), (3, 3), (4, 3), (4, 4), (5, 4), (5, 5), (6, 6)]:
        sz = r * c
        for i in range(r):
            cs = 'nd%d_%d%d' % (i, r, c)
            g.case(cs, (sz,), (c,), 'for(int k=0;k<%d;++k) o[k]=a[%d+k];' % (c, i * c))
            for Bs in RC:
                for k, K in enumerate(KINDS):
                    n += 1
                    L = LAYOUTS[(n // 2) % 2]
                    e = ['m', 'std::as_const(m)', '(m*1.)', 'std::move(m)'][n % 4]
                    g.t(cs, SHORT[K] + SHORT[Bs], mdecl(K, r, c, Bs, L) + 'auto v=matrix_get_basis_vector_nD(%s,%d); emitv<%d>(o,v);' % (e, i, c))
                    if r <= 4:
                        g.t(cs, 'e' + SHORT[K] + SHORT[Bs], mdecl(K, r, c, Bs, L) + 'auto const& cm=m; for(int k=0;k<%d;++k) o[k]=cm.basis_element(%d,k);' % (c, i))
        if r <= 4:
            for i in range(r):
                for j in range(c):
                    cs = 'sb%d%d_%d%d' % (i, j, r, c)
                    g.case(cs, (sz, 1), (sz,), 'for(int i=0;i<%d;++i) o[i]=a[i]; o[%d]=b[0];' % (sz, i * c + j))
                    for Bs in RC:
                        for k, K in enumerate(KINDS):
                            n += 1
                            if full or (n % 4 == 0) or r <= 3:
                                g.t(cs, SHORT[K] + SHORT[Bs], mdecl(K, r, c, Bs, LAYOUTS[(n // 2) % 2]) + 'm.set_basis_element(%d,%d,b[0]); emitb<%d,%d>(o,m);' % (i, j, r, c))
                    if not g.cases[cs][3]:
                        del g.cases[cs]
    # quaternion bases: the image of axis i under v -> q v q* for the quaternion's matrix
    F = ['{1.-2.*(y*y+z*z),2.*(x*y+z*w),2.*(x*z-y*w)}', '{2.*(x*y-z*w),1.-2.*(x*x+z*z),2.*(y*z+x*w)}', '{2.*(x*z+y*w),2.*(y*z-x*w),1.-2.*(x*x+y*y)}']
    pre = 'double w=a[0],x=a[1],y=a[2],z=a[3]; (void)w; '
    for i in range(3):
        g.case('q%d' % i, (4,), (3,), pre + 'double t[3]=%s; for(int k=0;k<3;++k) o[k]=t[k];' % F[i])
    g.case('qa', (4,), (9,), pre + 'double t[3][3]={%s}; for(int i=0;i<9;++i) o[i]=t[i/3][i%%3];' % ','.join(F))
    for od in ORDERS:
        for cx in CROSSES:
            for f in VFORMS:
                x = Q(f, 'q', 'a', od, cx)
                for i in range(3):
                    g.t('q%d' % i, 'i' + x.tag, x.decl + 'auto v=quaternion_get_basis_vector(%s,%d); emitv<3>(o,v);' % (x.expr, i))
                    g.t('q%d' % i, 'n' + x.tag, x.decl + 'auto v=quaternion_get_%s_basis_vector(%s); emitv<3>(o,v);' % ('xyz'[i], x.expr))
                for K in KINDS:
                    n += 1
                    d = 'double w0[3]={VF_ANY3}; ' + ''.join('vec<%s,double,3> v%d(w0); ' % (KINDS[(n + y) % 4], y) for y in range(3))
                    g.t('qa', x.tag + SHORT[K], x.decl + d + 'quaternion_get_basis_vectors(%s,v0.v,v1.v,v2.v); ' % x.expr + ''.join('for(int k=0;k<3;++k) o[%d+k]=v%d.v[k]; ' % (y * 3, y) for y in range(3)))
    rep.values(g)
