from harness import Gen
from ops import *

HAM = ('auto mul=[](const double* p,const double* q,double* r){ r[0]=p[0]*q[0]-p[1]*q[1]-p[2]*q[2]-p[3]*q[3]; r[1]=p[0]*q[1]+p[1]*q[0]+(S)*(p[2]*q[3]-p[3]*q[2]);'
       'r[2]=p[0]*q[2]+p[2]*q[0]+(S)*(p[3]*q[1]-p[1]*q[3]); r[3]=p[0]*q[3]+p[3]*q[0]+(S)*(p[1]*q[2]-p[2]*q[1]); };')

def ham(x):
    return HAM.replace('(S)', '1.' if x == 'positive_cross' else '-1.')

def check(rep, tier):
    g = Gen()
    for x in CROSSES:
        h = ham(x)
        s = SHORT[x]
        g.case('mul' + s, (4, 4), (4,), h + 'mul(a,b,o);')
        g.case('mul3' + s, (4, 4, 4), (4,), h + 'double t[4]; mul(a,b,t); mul(t,c,o);')
        g.case('comb' + s, (4, 4, 4), (4,), h + 'double t[4],u[4]; mul(a,b,t); for(int i=0;i<4;++i) u[i]=b[i]-a[i]; mul(c,u,o); for(int i=0;i<4;++i) o[i]=t[i]+2.*o[i];')
        g.case('ij' + s, (1,), (4,), 'o[0]=o[1]=o[2]=0; o[3]=%s;' % ('1' if x == 'positive_cross' else '-1'))
        # the norm of a product is the product of the norms
        g.case('nn' + s, (4, 4), (1,), 'double s=0,t=0; for(int i=0;i<4;++i) { s+=a[i]*a[i]; t+=b[i]*b[i]; } o[0]=s*t;')
        g.case('qqi' + s, (4,), (4,), 'double s=0; o[1]=o[2]=o[3]=0; for(int i=0;i<4;++i) s+=a[i]*a[i]; o[0]=s/s;')
        for o in ORDERS:
            t0 = SHORT[o]
            for f in VFORMS:
                for f2 in VFORMS:
                    p, q = Q(f, 'x', 'a', o, x), Q(f2, 'y', 'b', o, x)
                    t = p.tag + '_' + q.tag
                    g.t('mul' + s, t, '%s %s emitq(o, %s*%s);' % (p.decl, q.decl, p.expr, q.expr))
                    g.t('mul' + s, 'k' + t, '%s %s auto e=%s*%s; emitq(o, e);' % (p.decl, q.decl, p.expr, q.expr))
                    r = Q(f2, 'z', 'c', o, x)
                    g.t('mul3' + s, 'l' + t, '%s %s %s emitq(o, %s*%s*%s);' % (p.decl, q.decl, r.decl, p.expr, q.expr, r.expr))
                    g.t('mul3' + s, 'r' + t, '%s %s %s emitq(o, %s*(%s*%s));' % (p.decl, q.decl, r.decl, p.expr, q.expr, r.expr))
                p = Q(f, 'y', 'b', o, x)
                d = 'quat<double,%s,%s> x(a); ' % (o, x)
                g.t('mul' + s, 'c' + p.tag, d + p.decl + 'x.v*=%s; emitq(o, x.v);' % p.expr)
                g.t('mul' + s, 'cr' + p.tag, d + p.decl + 'emitq(o, std::move(x.v)*=%s);' % p.expr)
                g.t('mul' + s, 'a' + p.tag, d + p.decl + 'cml::quaternion<double,fixed<>,%s,%s> w(x.v*%s); emitq(o, w);' % (o, x, p.expr))
                g.t('mul' + s, 'as' + p.tag, d + p.decl + 'cml::quaternion<double,fixed<>,%s,%s> w; w=x.v*%s; emitq(o, w);' % (o, x, p.expr))
            d3 = 'quat<double,%s,%s> x(a),y(b),z(c); ' % (o, x)
            g.t('comb' + s, t0, d3 + 'emitq(o, x.v*y.v + 2.*(z.v*(y.v-x.v)));')
            g.t('comb' + s, 'b' + t0, d3 + 'auto w=y.v-x.v; auto u=z.v*w; emitq(o, x.v*y.v + u + u);')
            d2 = 'quat<double,%s,%s> x(a),y(b); ' % (o, x)
            g.t('nn' + s, t0, d2 + 'auto e=x.v*y.v; o[0]=e.norm();')
            g.t('nn' + s, 'l' + t0, d2 + 'o[0]=length_squared(x.v*y.v);')
            g.t('qqi' + s, t0, 'quat<double,%s,%s> x(a); emitq(o, x.v*inverse(x.v));' % (o, x))
            g.t('qqi' + s, 'r' + t0, 'quat<double,%s,%s> x(a); emitq(o, inverse(x.v)*x.v);' % (o, x))
            g.t('ij' + s, t0, 'double p[4]={0,1,0,0},q[4]={0,0,1,0}; quat<double,%s,%s> x(p),y(q); emitq(o, x.v*y.v);' % (o, x))
            # mixed element types
            for E1, E2 in (('float', 'double'), ('double', 'float'), ('int', 'double'), ('double', 'int'), ('float', 'int')):
                cv = lambda E, n: '(double)(int)' + n if E == 'int' else n
                cs = 'mx%s%s%s' % (E1, E2, s)
                if cs not in g.cases:
                    g.case(cs, (4, 4), (4,), h + 'double p[4],q[4]; for(int i=0;i<4;++i) { p[i]=%s; q[i]=%s; } mul(p,q,o);' % (cv(E1, 'a[i]'), cv(E2, 'b[i]')))
                for f in VFORMS[:3]:
                    p, q = Q(f, 'x', 'a', o, x, E1), Q(f, 'y', 'b', o, x, E2)
                    g.t(cs, p.tag + ('F32' if E1 == 'float' and E2 == 'int' else ''), '%s %s emitq(o, %s*%s);' % (p.decl, q.decl, p.expr, q.expr))
    rep.values(g)
