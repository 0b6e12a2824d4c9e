"""Invalid axis numbers, repeated Euler axes, negative sizes and view indices are
rejected with std::invalid_argument for every integer outside the valid range
and before the target changes; every valid value is accepted."""
from harness import Gen
from ops import *

EUL = ['xyz', 'xyx', 'xzy', 'xzx', 'yzx', 'yzy', 'yxz', 'yxy', 'zxy', 'zxz', 'zyx', 'zyz']
VALID2 = 'a >= 0 && a <= 1'
VALID3 = 'a >= 0 && a <= 2'
THROW = 'throw std::invalid_argument("x");'

def check(rep, tier):
    g = Gen('#include <cml/mathlib/random_unit.h>\n#include <cml/matrix/basis_ops.h>')
    full = tier == 'thorough'
    g.case('bad2', ('int',), (), 'if(%s) return; %s' % (VALID2, THROW))
    g.case('bad3', ('int',), (), 'if(%s) return; %s' % (VALID3, THROW))
    g.case('neg', ('int',), (), 'if(a >= 0) return; ' + THROW)
    g.case('ok', ('int',), (), '')
    N = [0]
    Z3 = 'double z[%d]={}; '
    def axis(D, nm, decl, call, watch=True):
        """call takes an axis number"""
        N[0] += 1
        v = 'EVT%d_%s' % (N[0], nm)
        w = 'watch(t); ' if watch else ''
        g.t('bad%d' % D, v, 'if(%s) return; %s%s%s' % (VALID2 if D == 2 else VALID3, decl, w, call % 'a'))
        for i in range(D):
            g.t('ok', '%s_%d' % (v, i), decl + call % str(i))
    def mdecl(K, r, c, Bs, L):
        if Bs == 'col_basis':
            r, c = c, r
        return 'double z[%d]={}; mat<%s,double,%d,%d,%s,%s> tt(z); auto& t=tt.v; ' % (r * c, K, r, c, Bs, L)
    n = 0
    for D, sx, shapes in ((2, '_2D', [(2, 2), (3, 2), (3, 3)]), (3, '', [(3, 3), (4, 3), (4, 4)])):
        for (r, c) in shapes:
            for Bs in RC:
                for K in KINDS:
                    for L in LAYOUTS:
                        n += 1
                        if not full and n % 2 and K in ('KE', 'KX'):
                            continue
                        d = mdecl(K, r, c, Bs, L)
                        tag = '%d%d%s%s%s' % (r, c, SHORT[Bs], SHORT[K], SHORT[L])
                        vd = 'double y[%d]={1.,2.%s}; vec<%s,double,%d> vv(y); ' % (D, ',3.' if D == 3 else '', KINDS[n % 4], D)
                        for tr in ('', 'transposed_'):
                            axis(D, 'set%s%s' % (tr[:1], tag), d + vd, 'matrix_set_%sbasis_vector%s(t,%%s,vv.v);' % (tr, sx))
                            axis(D, 'get%s%s' % (tr[:1], tag), d, '(void) matrix_get_%sbasis_vector%s(t,%%s);' % (tr, sx))
                        if D == 3:
                            axis(3, 'world' + tag, d, 'matrix_rotation_world_axis(t,%s,.25);')
                            axis(3, 'eulerd' + tag, d, 'matrix_rotation_euler_derivatives(t,%s,.25,.5,.75,euler_order_xyz);')
                            axis(3, 'eulerdv' + tag, d + 'double e[3]={.25,.5,.75}; vec<KF,double,3> ee(e); ', 'matrix_rotation_euler_derivatives(t,%s,ee.v,euler_order_zyx);')
    for o in ORDERS:
        for x in CROSSES:
            d = 'double z[4]={1.,0.,0.,0.}; quat<double,%s,%s> tt(z); auto& t=tt.v; ' % (o, x)
            axis(3, 'q' + SHORT[o] + SHORT[x], d, 'quaternion_rotation_world_axis(t,%s,.25);')
            axis(3, 'qb' + SHORT[o] + SHORT[x], d, '(void) quaternion_get_basis_vector(t,%s);')
    for K in KINDS:
        d = 'double z[3]={1.,2.,3.}; vec<%s,double,3> tt(z); auto& t=tt.v; ' % K
        axis(3, 'cyl' + K, d, 'cylindrical_to_cartesian(t,%s,1.,.5,2.);')
        axis(3, 'cyll' + K, d, 'cylindrical_to_cartesian(1.,.5,2.,%s,t);')
        out = d + 'double u[3]={}; vf_watch(u,sizeof u); '
        axis(3, 'tocyl' + K, out, 'cartesian_to_cylindrical(t,%s,u[0],u[1],u[2]);')
        axis(3, 'tocyll' + K, out, 'cartesian_to_cylindrical(t,u[0],u[1],u[2],%s);')
        axis(3, 'tocylt' + K, out, 'cartesian_to_cylindrical(t,%s,u[0],u[1],u[2],1e-3);')
        for lt in ('latitude', 'colatitude'):
            s = K + lt[:2]
            axis(3, 'sph' + s, d, 'spherical_to_cartesian(t,%%s,%s,1.,.5,.25);' % lt)
            axis(3, 'sphl' + s, d, 'spherical_to_cartesian(1.,.5,.25,%%s,%s,t);' % lt)
            axis(3, 'tosph' + s, out, 'cartesian_to_spherical(t,%%s,%s,u[0],u[1],u[2]);' % lt)
            axis(3, 'tosphl' + s, out, 'cartesian_to_spherical(t,u[0],u[1],u[2],%%s,%s);' % lt)
            axis(3, 'tospht' + s, out, 'cartesian_to_spherical(t,%%s,%s,u[0],u[1],u[2],1e-3);' % lt)
    # ---- repeated axes of the Euler derivative
    g.case('rep', ('int',), (), THROW)
    for e in EUL:
        for Bs in RC:
            for i in range(3):
                for fm, arg in (('', '.25,.5,.75'), ('v', 'ee.v')):
                    for K, (r, c) in zip(KINDS, ((3, 3), (4, 3), (4, 4), (3, 3))):
                        if not full and (i + len(g.cases) + KINDS.index(K)) % 2 and K != 'KF':
                            continue
                        d = mdecl(K, r, c, Bs, LAYOUTS[i % 2]) + 'double e[3]={.25,.5,.75}; vec<KF,double,3> ee(e); (void) ee; watch(t); '
                        g.t('rep' if e[0] == e[2] else 'ok', 'EVTe%s%s%s%d%s' % (e, fm, SHORT[Bs], i, K), d + 'matrix_rotation_euler_derivatives(t,%d,%s,euler_order_%s);' % (i, arg, e))
    # ---- negative sizes and indices
    def neg(nm, decl, call, watch=True):
        N[0] += 1
        g.t('neg', 'EVT%d_%s' % (N[0], nm), 'if(a >= 0) return; ' + decl + ('watch(t); ' if watch else '') + call)
    neg('vd', '', 'vector<double,dynamic<>> t(a);', False)
    neg('vdr', 'double z[3]={}; vec<KD,double,3> tt(z); auto& t=tt.v; ', 't.resize(a);')
    neg('vdrf', 'double z[3]={}; vec<KD,double,3> tt(z); auto& t=tt.v; ', 't.resize_fast(a);')
    neg('vx', 'double z[3]={}; ', 'vector<double,external<>> t(z,a);', False)
    neg('vxs', 'double z[3]={}; ', 'vector<double,external<>> t(a,z);', False)
    neg('vy', 'double z[3]={}; ', 'vector<const double,external<>> t(z,a);', False)
    neg('vys', 'double z[3]={}; ', 'vector<const double,external<>> t(a,z);', False)
    for p, q in (('a', '2'), ('2', 'a'), ('a', 'a'), ('a', '0'), ('0', 'a')):
        s = '%s%s' % (p, q)
        for L in LAYOUTS:
            ty = 'matrix<double,%s,row_basis,' + L + '> '
            l = SHORT[L]
            neg('md' + s + l, '', ty % 'dynamic<>' + 't(%s,%s);' % (p, q), False)
            neg('mx' + s + l, 'double z[6]={}; ', ty % 'external<>' + 't(z,%s,%s);' % (p, q), False)
            neg('mxs' + s + l, 'double z[6]={}; ', ty % 'external<>' + 't(%s,%s,z);' % (p, q), False)
            for K, ks in (('KD', 'resize'), ('KD', 'resize_fast'), ('KX', 'resize')):
                neg('mr%s%s%s%s' % (K, ks, s, l), 'double z[6]={}; mat<%s,double,2,3,row_basis,%s> tt(z); auto& t=tt.v; ' % (K, L), 't.%s(%s,%s);' % (ks, p, q))
    for K in KINDS:
        for L in LAYOUTS:
            for f in ('t', 'std::as_const(t)', 'std::move(t)', '(t*2.)'):
                for w in ('row', 'col', 'basis'):
                    neg('view%s%s' % (w, K), 'double z[6]={}; mat<%s,double,2,3,row_basis,%s> tt(z); auto& t=tt.v; ' % (K, L), '(void) %s(%s,a);' % (w, f), f == 't')
                    N[0] += 1
                    g.t('ok', 'EVT%d_view' % N[0], 'double z[6]={}; mat<%s,double,2,3,row_basis,%s> tt(z); auto& t=tt.v; (void) %s(%s,0); (void) %s(%s,1);' % (K, L, w, f, w, f if f[0] != 's' or 'const' in f else 't'))
    # ---- a singular factorisation has nothing to solve with
    for K in ('KF', 'KD'):
        for vk in KINDS:
            d = 'double z[9]={1.,0.,0.,0.,1.,0.,0.,0.,1.}; mat<%s,double,3,3> M(z); double y[3]={1.,2.,3.}; vec<%s,double,3> bb(y), tt(y); auto& t=tt.v; auto r=lu_pivot(M.v); r.sign=0; watch(t); ' % (K, vk)
            g.t('rep', 'EVTlus%s%s' % (K, vk), d + 'lu_solve(r,t,bb.v);')
            if vk in ('KF', 'KD'):
                g.t('rep', 'EVTlur%s%s' % (K, vk), d + '(void) lu_solve(r,bb.v);')
    # ---- the cone angle of a random unit vector
    PI2 = '1.57079632679489661923'
    g.case('cone', (1,), (), 'if(a[0]>=0. && a[0]<=%s) return; %s' % (PI2, THROW))
    for K in KINDS:
        for D in (2, 3):
            g.t('cone', 'EVT%s%d' % (K, D), 'if(a[0]>=0. && a[0]<=%s) return; double z[%d]={}; vec<%s,double,%d> tt(z), n(z); auto& t=tt.v; watch(t); random_unit(t,n.v,a[0]);' % (PI2, D, K, D))
    rep.values(g)
