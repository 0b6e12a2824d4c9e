from harness import Gen
from ops import *
import builders
from builders import NRM, CRS, ROD, AXIS, KX, basis_ref

# a unit axis in terms of two angles
UNIT = 'double n[3]={std::cos(a[0])*std::cos(a[1]),std::sin(a[0])*std::cos(a[1]),std::sin(a[1])}; '

def mat2quat(m):
    """the quaternion of the rotation with basis vectors m (row form); P16 decides this conversion"""
    return ('cml::matrix<double,compiled<3,3>,row_basis> rm; for(int i=0;i<3;++i) for(int j=0;j<3;++j) rm.put(i,j,%s[i][j]); '
            'cml::quaternion<double,fixed<>,real_first> rq; quaternion_rotation_matrix(rq,rm); for(int i=0;i<4;++i) o[i]=rq[i];' % m)

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    builders.generate(g, ('rot',), full)
    Z = 'double z0[4]={VF_ANY4}; '
    n = 0
    for x in range(3):
        g.case('qax%d' % x, (1,), (4,), 'o[0]=std::cos(a[0]/2.); o[1]=o[2]=o[3]=0; o[%d]=std::sin(a[0]/2.);' % (x + 1))
    g.case('qaa', (3, 1), (4,), 'o[0]=std::cos(b[0]/2.); for(int i=0;i<3;++i) o[i+1]=a[i]*std::sin(b[0]/2.);')
    # the matrix of the quaternion is the rotation about the axis, for every unit axis
    g.case('qm', (2, 1), (9,), UNIT + CRS + 'double B[4][4]; ' + ROD + 'rod(n,b[0]); for(int i=0;i<3;++i) for(int j=0;j<3;++j) o[3*i+j]=B[i][j];')
    # v -> q v q* with the Hamilton product
    g.case('qvq', (2, 1, 3), (3,), UNIT + CRS + 'double x[3]; crs(n,c,x); double d=n[0]*c[0]+n[1]*c[1]+n[2]*c[2]; for(int i=0;i<3;++i) o[i]=c[i]*std::cos(b[0])+x[i]*std::sin(b[0])+n[i]*d*(1.-std::cos(b[0]));')
    g.case('qvn', (2, 1, 3), (3,), UNIT + CRS + 'double x[3]; crs(n,c,x); double d=n[0]*c[0]+n[1]*c[1]+n[2]*c[2]; for(int i=0;i<3;++i) o[i]=c[i]*std::cos(b[0])-x[i]*std::sin(b[0])+n[i]*d*(1.-std::cos(b[0]));')
    for od in ORDERS:
        for cx in CROSSES:
            t = SHORT[od] + SHORT[cx]
            d = Z + 'quat<double,%s,%s> q(z0); ' % (od, cx)
            for x in range(3):
                g.t('qax%d' % x, t, d + 'quaternion_rotation_world_axis(q.v,%d,a[0]); emitq(o,q.v);' % x)
                g.t('qax%d' % x, 'n' + t, d + 'quaternion_rotation_world_%s(q.v,a[0]); emitq(o,q.v);' % KX[x])
            for f in VFORMS:
                for K in CKINDS:
                    v = V(K, f, 'x', 'a', 3)
                    g.t('qaa', t + v.tag, d + v.decl + 'quaternion_rotation_axis_angle(q.v,%s,b[0]); emitq(o,q.v);' % v.expr)
            for Bs in RC:
                for L in LAYOUTS:
                    for K in KINDS:
                        n += 1
                        t2 = t + SHORT[Bs] + SHORT[L] + SHORT[K]
                        md = UNIT + 'double m0[9]={VF_ANY9}; mat<%s,double,3,3,%s,%s> m(m0); vec<%s,double,3> x(n); ' % (K, Bs, L, KINDS[n % 4])
                        g.t('qm', t2, d + md + 'quaternion_rotation_axis_angle(q.v,x.v,b[0]); matrix_rotation_quaternion(m.v,q.v); emitb<3,3>(o,m.v);')
                        g.t('qm', 'm' + t2, md + 'matrix_rotation_axis_angle(m.v,x.v,b[0]); emitb<3,3>(o,m.v);') if cx == CROSSES[0] and od == ORDERS[0] else None
            g.t('qvq' if cx == 'positive_cross' else 'qvn', t, UNIT + d + 'double p0[4]={0,c[0],c[1],c[2]}; quat<double,%s,%s> p(p0); vec<KF,double,3> x(n); quaternion_rotation_axis_angle(q.v,x.v,b[0]); auto r=q.v*p.v*conjugate(q.v); for(int i=0;i<3;++i) o[i]=r[p.I+i];' % (od, cx))
    # quaternion alignment
    for nz in (0, 1):
        for ax in AXIS + (['def'] if nz else []):
            cs = 'qal%s%d' % (ax, nz)
            g.case(cs, (3, 3), (4,), basis_ref('a', 'b', nz, 'zyx' if ax == 'def' else ax) + mat2quat('A'))
            for k, od in enumerate(ORDERS):
                v = builders.Vv(n); n += 1
                ea, eb = v('a', 3), v('b', 3)
                args = '' if ax == 'def' else ',%s,axis_order_%s' % ('true' if nz else 'false', ax)
                g.t(cs, SHORT[od], Z + 'quat<double,%s,%s> q(z0); ' % (od, CROSSES[k]) + ' '.join(v.decls) + 'quaternion_rotation_align(q.v,%s,%s%s); emitq(o,q.v);' % (ea, eb, args))
    for ax in AXIS + ['def']:
        cs = 'qaim' + ax
        g.case(cs, (3, 3, 3), (4,), 'double d[3]; for(int i=0;i<3;++i) d[i]=b[i]-a[i]; ' + basis_ref('d', 'c', 1, 'zyx' if ax == 'def' else ax) + mat2quat('A'))
        for k, od in enumerate(ORDERS):
            v = builders.Vv(n); n += 1
            ea, eb, ec = v('a', 3), v('b', 3), v('c', 3)
            g.t(cs, SHORT[od], Z + 'quat<double,%s,%s> q(z0); ' % (od, CROSSES[k]) + ' '.join(v.decls) + 'quaternion_rotation_aim_at(q.v,%s,%s,%s%s); emitq(o,q.v);' % (ea, eb, ec, '' if ax == 'def' else ',axis_order_' + ax))
    # orthonormal bases as vectors
    for nz in (0, 1):
        for ax in AXIS + (['def'] if nz else []):
            cs = 'ob%s%d' % (ax, nz)
            g.case(cs, (3, 3), (9,), basis_ref('a', 'b', nz, 'zyx' if ax == 'def' else ax) + 'for(int i=0;i<3;++i) for(int j=0;j<3;++j) o[3*i+j]=A[i][j];')
            args = '' if ax == 'def' else ',%s,axis_order_%s' % ('true' if nz else 'false', ax)
            for k, K in enumerate(KINDS):
                v = builders.Vv(n); n += 1
                ea, eb = v('a', 3), v('b', 3)
                g.t(cs, SHORT[K], 'double w0[3]={VF_ANY3}; vec<%s,double,3> x(w0); vec<%s,double,3> y(w0); vec<%s,double,3> z(w0); ' % (K, KINDS[(k + 1) % 4], KINDS[(k + 2) % 4]) + ' '.join(v.decls) +
                    'orthonormal_basis(%s,%s,x.v,y.v,z.v%s); for(int j=0;j<3;++j) { o[j]=x.v[j]; o[3+j]=y.v[j]; o[6+j]=z.v[j]; }' % (ea, eb, args))
        for ax in ('xy', 'yx') + (('def',) if nz else ()):
            cs = 'ob2%s%d' % (ax, nz)
            g.case(cs, (2,), (4,), NRM + 'double n[2]={a[0],a[1]}; ' + ('nrm(a,n,2); ' if nz else '') + ('o[0]=n[0]; o[1]=n[1]; o[2]=-n[1]; o[3]=n[0];' if ax != 'yx' else 'o[2]=n[0]; o[3]=n[1]; o[0]=n[1]; o[1]=-n[0];'))
            args = '' if ax == 'def' else ',%s,axis_order_%s' % ('true' if nz else 'false', ax)
            for k, K in enumerate(KINDS):
                v = builders.Vv(n); n += 1
                ea = v('a', 2)
                g.t(cs, SHORT[K], 'double w0[2]={VF_ANY2}; vec<%s,double,2> x(w0); vec<%s,double,2> y(w0); ' % (K, KINDS[(k + 1) % 4]) + ' '.join(v.decls) + 'orthonormal_basis_2D(%s,x.v,y.v%s); for(int j=0;j<2;++j) { o[j]=x.v[j]; o[2+j]=y.v[j]; }' % (ea, args))
    rep.values(g)
