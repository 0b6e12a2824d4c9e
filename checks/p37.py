from harness import Gen
from ops import *
import builders
from p18 import mdecl

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    n = 0
    def ref(R, c, D, pt):
        # image of b under the row-form map a (R x c)
        return 'for(int j=0;j<%d;++j) { double s=0; for(int i=0;i<%d;++i) s+=b[i]*a[i*%d+j]; o[j]=s%s; }' % (D, D, c, '+a[%d*%d+j]' % (D, c) if pt else '')
    T = []
    for (r, c) in [(2, 2), (3, 2), (3, 3), (4, 4)]:
        T.append(('tv2_%d%d' % (r, c), r, c, 2, ref(r, c, 2, 0), 'transform_vector_2D'))
    for (r, c) in [(3, 2), (3, 3)]:
        T.append(('tp2_%d%d' % (r, c), r, c, 2, ref(r, c, 2, 1), 'transform_point_2D'))
    for (r, c) in [(3, 3), (4, 3), (4, 4)]:
        T.append(('tv3_%d%d' % (r, c), r, c, 3, ref(r, c, 3, 0), 'transform_vector'))
    for (r, c) in [(4, 3), (4, 4)]:
        T.append(('tp3_%d%d' % (r, c), r, c, 3, ref(r, c, 3, 1), 'transform_point'))
    T.append(('tv4', 4, 4, 4, ref(4, 4, 4, 0), 'transform_vector_4D'))
    T.append(('tp4', 4, 4, 3, 'double h[4]; for(int j=0;j<4;++j) { double s=a[12+j]; for(int i=0;i<3;++i) s+=b[i]*a[i*4+j]; h[j]=s; } for(int j=0;j<3;++j) o[j]=h[j]/h[3];', 'transform_point_4D'))
    for cs, r, c, D, rf, fn in T:
        g.case(cs, (r * c, D), (D,), rf)
        for Bs in RC:
            for K in KINDS:
                for L in LAYOUTS:
                    for vk in CKINDS:
                        n += 1
                        if not full and n % 2 and K != 'KF':
                            continue
                        e = ['m', 'std::as_const(m)', '(m*1.)', 'std::move(m)'][n // 2 % 4]
                        v = V(vk, VFORMS[n // 3 % 4], 'x', 'b', D)
                        g.t(cs, SHORT[K] + SHORT[Bs] + SHORT[L] + v.tag, mdecl(K, r, c, Bs, L) + v.decl + 'auto y=%s(%s,%s); emitv<%d>(o,y);' % (fn, e, v.expr, D))
    # the affine builders applied to points and vectors
    A = builders
    g.case('rigidp', (3, 1, 3, 3), (3,), A.CRS + 'double B[4][4]; ' + A.ROD + 'rod(a,b[0]); for(int j=0;j<3;++j) { o[j]=c[j]; for(int i=0;i<3;++i) o[j]+=d[i]*B[i][j]; }')
    g.case('rigidv', (3, 1, 3, 3), (3,), A.CRS + 'double B[4][4]; ' + A.ROD + 'rod(a,b[0]); for(int j=0;j<3;++j) { o[j]=0; for(int i=0;i<3;++i) o[j]+=d[i]*B[i][j]; }')
    # concatenation means first, then second
    g.case('catp', (3, 3, 3), (3,), 'for(int i=0;i<3;++i) o[i]=c[i]*a[i]+b[i];')
    g.case('catq', (3, 3, 3), (3,), 'for(int i=0;i<3;++i) o[i]=(c[i]+b[i])*a[i];')
    for Bs in RC:
        for K in KINDS:
            for L in LAYOUTS:
                for (r, c) in ((4, 4), (4, 3)):
                    rr, cc = (r, c) if Bs == 'row_basis' else (c, r)
                    d = 'double z[%d]={%s}; mat<%s,double,%d,%d,%s,%s> m(z), k(z); ' % (r * c, ','.join('vf_any(%d)' % z for z in range(r * c)), K, rr, cc, Bs, L)
                    v = A.Vv(n); v.E = 'double'; n += 1
                    ea, ec, ed = v('a', 3), v('c', 3), v('d', 3)
                    t = SHORT[K] + SHORT[Bs] + SHORT[L] + str(c)
                    w = d + ' '.join(v.decls) + 'matrix_affine_transform(m.v,%s,b[0],%s); ' % (ea, ec)
                    g.t('rigidp', t, w + 'auto y=transform_point(m.v,%s); emitv<3>(o,y);' % ed)
                    g.t('rigidv', t, w + 'auto y=transform_vector(m.v,%s); emitv<3>(o,y);' % ed)
                    if c == 4:
                        v = A.Vv(n); v.E = 'double'; n += 1
                        ec = v('c', 3)
                        w = d + ' '.join(v.decls) + 'matrix_scale(m.v,a[0],a[1],a[2]); matrix_translation(k.v,b[0],b[1],b[2]); '
                        g.t('catp', t, w + 'auto y=transform_point(matrix_concat(m.v,k.v),%s); emitv<3>(o,y);' % ec)
                        g.t('catq', t, w + 'auto y=transform_point(matrix_concat(k.v,m.v),%s); emitv<3>(o,y);' % ec)
                        g.t('catp', 'd' + t, w + 'auto y=transform_point_4D(matrix_concat(m.v,k.v),%s); emitv<3>(o,y);' % ec)
    # mixed element types: the sums in the promoted type, the result in the vector's
    for cs, r, c, D, rf, fn in T:
        if cs == 'tp4':
            continue
        for E1, E2 in (('int', 'double'), ('double', 'int'), ('int', 'int')):
            q = cs + E1[0] + E2[0]
            fix = ('double a_[%d]; for(int i=0;i<%d;++i) a_[i]=%sa[i]; double b_[%d]; for(int i=0;i<%d;++i) b_[i]=%sb[i]; ' %
                   (r * c, r * c, '(double)(int)' if E1 == 'int' else '', D, D, '(double)(int)' if E2 == 'int' else ''))
            g.case(q, (r * c, D), (D,), fix + '{ const double *a=a_,*b=b_; ' + rf + ' }' + (' for(int i=0;i<%d;++i) o[i]=(double)(int)o[i];' % D if (E1, E2) == ('double', 'int') else ''))
            for Bs in RC:
                for K in KINDS:
                    n += 1
                    v = V(CKINDS[n % 6], VFORMS[n // 3 % 4], 'x', 'b', D, E2)
                    g.t(q, SHORT[K] + SHORT[Bs] + v.tag, mdecl(K, r, c, Bs, LAYOUTS[n % 2]).replace(',double,', ',%s,' % E1) + v.decl + 'auto y=%s(m,%s); emitv<%d>(o,y);' % (fn, v.expr, D))
    rep.values(g)
