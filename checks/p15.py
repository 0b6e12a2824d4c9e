from harness import Gen
from ops import *
import builders
from builders import EULER, idx, euler_mat

HAM = ('auto ham=[](const double* p,const double* q,double* r){ r[0]=p[0]*q[0]-p[1]*q[1]-p[2]*q[2]-p[3]*q[3]; r[1]=p[0]*q[1]+q[0]*p[1]+p[2]*q[3]-p[3]*q[2]; '
       'r[2]=p[0]*q[2]+q[0]*p[2]+p[3]*q[1]-p[1]*q[3]; r[3]=p[0]*q[3]+q[0]*p[3]+p[1]*q[2]-p[2]*q[1]; }; ')

def qeuler(o, a):
    """first angle 0 about its axis, then angle 1, then angle 2"""
    return (HAM + ''.join('double q%d[4]={std::cos(%s/2.),0,0,0}; q%d[%d]=std::sin(%s/2.); ' % (n, a[n], n, x + 1, a[n]) for n, x in enumerate(idx(o))) +
            'double t[4]; ham(q2,q1,t); ham(t,q0,o);')

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    builders.generate(g, ('euler',), full)
    n = 0
    Z = 'double z0[4]={VF_ANY4}; '
    MIX = [('float', 2), (2, 'float'), ('double', 'float', 'double'), ('float', 'double', 'float'), ('float', 'float', 'float')]
    for o in EULER:
        g.case('qe' + o, (3,), (4,), qeuler(o, ['a[0]', 'a[1]', 'a[2]']))
        for od in ORDERS:
            for cx in CROSSES:
                d = Z + 'quat<double,%s,%s> q(z0); ' % (od, cx)
                t = SHORT[od] + SHORT[cx]
                g.t('qe' + o, t, d + 'quaternion_rotation_euler(q.v,a[0],a[1],a[2],euler_order_%s); emitq(o,q.v);' % o)
                v = builders.Vv(n); n += 1
                e = v('a', 3)
                g.t('qe' + o, 'v' + t, d + ' '.join(v.decls) + 'quaternion_rotation_euler(q.v,%s,euler_order_%s); emitq(o,q.v);' % (e, o))
        # angles of different types: nothing is computed in a narrower type than the angle it belongs to
        for k, ins in enumerate(MIX):
            names = {0: ['a', 'b[0]', 'b[1]'], 1: ['a[0]', 'a[1]', 'b']}.get(k, ['a', 'b', 'c'])
            al = ','.join(names)
            A = 'double A[3]={%s}; ' % al
            rf = 'double B[3][3]; ' + A + euler_mat(o, 'A') + builders.PUT3 + 'for(int i=0;i<9;++i) o[i]=B[i/3][i%3];'
            g.case('me%s%d' % (o, k), ins, (9,), rf)
            g.case('mq%s%d' % (o, k), ins, (4,), A + qeuler(o, ['A[0]', 'A[1]', 'A[2]']))
            Bs, L, K = RC[n % 2], LAYOUTS[n // 2 % 2], KINDS[n % 4]
            n += 1
            md = 'double m0[9]={VF_ANY9}; mat<%s,double,3,3,%s,%s> m(m0); ' % (K, Bs, L)
            g.t('me%s%d' % (o, k), 's', md + 'matrix_rotation_euler(m.v,%s,euler_order_%s); emitb<3,3>(o,m.v);' % (al, o))
            d = Z + 'quat<double,%s,%s> q(z0); ' % (ORDERS[n % 2], CROSSES[n // 2 % 2])
            g.t('mq%s%d' % (o, k), 's', d + 'quaternion_rotation_euler(q.v,%s,euler_order_%s); emitq(o,q.v);' % (al, o))
            if k == 4:
                vd = 'float w[3]={a,b,c}; vec<%s,float,3> x(w); ' % CKINDS[n % 6]
                g.t('me%s%d' % (o, k), 'v', md + vd + 'matrix_rotation_euler(m.v,x.v,euler_order_%s); emitb<3,3>(o,m.v);' % o)
                g.t('mq%s%d' % (o, k), 'v', d + vd + 'quaternion_rotation_euler(q.v,x.v,euler_order_%s); emitq(o,q.v);' % o)
            if o[0] != o[2]:
                ii = idx(o)
                for x in range(3):
                    rd = ('double B[3][3]; ' + A + builders.MUL + builders.WAX + builders.DWX + 'double r0[3][3],r1[3][3],r2[3][3],t[3][3],m3[3][3]; ' +
                          ''.join('%s(r%d,%d,std::sin(A[%d]),std::cos(A[%d])); ' % ('dwx' if q == x else 'wax', q, y, q, q) for q, y in enumerate(ii)) +
                          'mul(r0,r1,t); mul(t,r2,m3); ' + builders.PUT3 + 'for(int i=0;i<9;++i) o[i]=B[i/3][i%3];')
                    cs = 'md%s%d%d' % (o, k, x)
                    g.case(cs, ins, (9,), rd)
                    g.t(cs, 's', md + 'matrix_rotation_euler_derivatives(m.v,%d,%s,euler_order_%s); emitb<3,3>(o,m.v);' % (x, al, o))
    rep.values(g)
