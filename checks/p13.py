from harness import Gen
from ops import *

L = 'for(int i=1;i<4;++i) '

def check(rep, tier):
    g = Gen()
    n = 'double n=std::sqrt(a[1]*a[1]+a[2]*a[2]+a[3]*a[3]); '
    ex = n + 'double x=std::exp(a[0]); double c=n==0.?1.:std::sin(n)/n; ' + L + 'o[i]=x*c*a[i]; o[0]=x*std::cos(n);'
    lg = n + 'double l=std::sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]+a[3]*a[3]); double c=(n==0. && a[0]>0.)?0.:std::acos(a[0]/l)/n; ' + L + 'o[i]=c*a[i]; o[0]=std::log(l);'
    g.case('exp', (4,), (4,), ex)
    g.case('log', (4,), (4,), lg)
    g.case('exp2', (4,), (4,), 'double t[4]; for(int i=0;i<4;++i) t[i]=2.*a[i]; { const double (&a)[4]=t; ' + ex + ' }')
    # real arguments
    g.case('expr', (1,), (4,), 'o[0]=std::exp(a[0]); o[1]=o[2]=o[3]=0;')
    g.case('logr', (1,), (4,), 'o[0]=std::log(2.5); o[1]=o[2]=o[3]=0;')
    for od in ORDERS:
        for x in CROSSES:
            t0 = SHORT[od] + SHORT[x]
            d = 'quat<double,%s,%s> x(a); ' % (od, x)
            for f in VFORMS:
                q = Q(f, 'x', 'a', od, x)
                for fn in ('exp', 'log'):
                    g.t(fn, q.tag, q.decl + 'emitq(o, %s(%s));' % (fn, q.expr))
                    g.t(fn, 'k' + q.tag, q.decl + 'auto e=%s(%s); emitq(o, e);' % (fn, q.expr))
            for fn in ('exp', 'log'):
                g.t(fn, 'in' + t0, d + 'x.v.%s(); emitq(o,x.v);' % fn)
                g.t(fn, 'inr' + t0, d + 'emitq(o, std::move(x.v).%s());' % fn)
            g.t('exp2', t0, d + 'emitq(o, exp(x.v+x.v));')
            g.t('exp2', 'c' + t0, d + 'x.v*=2.; emitq(o, exp(x.v));')
            g.t('expr', t0, 'double p[4]={a[0],0,0,0}; quat<double,%s,%s> x(p); emitq(o,exp(x.v));' % (od, x))
            g.t('logr', t0, 'double p[4]={2.5,0,0,0}; quat<double,%s,%s> x(p); emitq(o,log(x.v));' % (od, x))
    rep.values(g)
