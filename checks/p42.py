"""Random fills: a draw of its own for every element, within the bounds."""
import cutoff
from harness import Gen
from ops import *
from p32 import vbind, mbind

PRE = '#include <random>\n#include <cstdlib>\n#include <cml/mathlib/random_unit.h>\n'
ENG = 'std::default_random_engine gen(std::rand()); '

def check(rep, tier):
    g = Gen(PRE)
    full = tier == 'thorough'
    DIST = {'double': 'std::uniform_real_distribution<double>', 'float': 'std::uniform_real_distribution<float>', 'int': 'std::uniform_int_distribution<int>'}
    # scalars
    for t in ('double', 'float'):
        F = 'F32' if t == 'float' else ''
        g.case('rr' + t[0], (2,), (2,), 'for(int k=0;k<2;++k) { %s %s D(a[0],a[1]); o[k]=D(gen); }' % (ENG, DIST[t]), ty=t)
        g.t('rr' + t[0], 'RND' + F, 'for(int k=0;k<2;++k) o[k]=random_real(a[0],a[1]);')
    g.case('ri', (2,), (2,), 'for(int k=0;k<2;++k) { %s %s D(a[0],a[1]); o[k]=D(gen); }' % (ENG, DIST['int']), ty='int')
    g.t('ri', 'RND', 'for(int k=0;k<2;++k) o[k]=random_integer(a[0],a[1]);')
    g.case('rl', (2,), (2,), 'for(int k=0;k<2;++k) { %s std::uniform_int_distribution<long> D(a[0],a[1]); o[k]=D(gen); }' % ENG, ty='long')
    g.t('rl', 'RND', 'for(int k=0;k<2;++k) o[k]=random_integer<long>(a[0],a[1]);')
    g.case('rb', (1,), (1,), '%s %s D(0,1); o[0]=D(gen);' % (ENG, DIST['int']), ty='int').t('rb', 'RND', 'o[0]=random_binary();')
    g.case('rp', (1,), (1,), '%s %s D(0,1); o[0]=D(gen)?1:-1;' % (ENG, DIST['int']), ty='int').t('rp', 'RND', 'o[0]=random_polar();')
    g.case('ru', (1,), (1,), '%s %s D(0,1); o[0]=D(gen);' % (ENG, DIST['double'])).t('ru', 'RND', 'o[0]=random_unit();')
    # vectors and matrices: a = bounds; two fills in a row differ
    for n in (1, 2, 3, 4, 5) + ((7,) if full else ()) + tuple(n for n in cutoff.above() if n > 7):
        for t in ('double', 'float', 'int'):
            F = 'F32' if t == 'float' else ''
            cs = 'v%s%d' % (t[0], n)
            g.case(cs, (2,), (2 * n,), 'for(int r=0;r<2;++r) { %s %s D(a[0],a[1]); for(int k=0;k<%d;++k) o[r*%d+k]=D(gen); }' % (ENG, DIST[t], n, n), ty=t)
            for K in KINDS:
                for rv in (0, 1):
                    b = '%s z[%d]={}; vec<%s,%s,%d> x(z); ' % (t, n, K, t, n)
                    f = 'std::move(x.v).random(a[0],a[1]);' if rv else 'auto& y=x.v.random(a[0],a[1]); if(&y!=&x.v) throw 1;'
                    g.t(cs, 'RND' + F + K + 'lr'[rv], b + 'for(int r=0;r<2;++r) { %s for(int k=0;k<%d;++k) o[r*%d+k]=x.v[k]; }' % (f, n, n))
    for r, c in ((1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (1, 4), (4, 1)) + (((4, 4), (3, 4)) if full else ()):
        for t in ('double', 'int') + (('float',) if full else ()):
            F = 'F32' if t == 'float' else ''
            cs = 'm%s%d%d' % (t[0], r, c)
            n = r * c
            g.case(cs, (2,), (2 * n,), 'for(int r=0;r<2;++r) { %s %s D(a[0],a[1]); for(int k=0;k<%d;++k) o[r*%d+k]=D(gen); }' % (ENG, DIST[t], n, n), ty=t)
            for K in KINDS:
                for B, L in zip(RC + RC[::-1], LAYOUTS + LAYOUTS):
                    for rv in (0, 1):
                        b = '%s z[%d]={}; mat<%s,%s,%d,%d,%s,%s> x(z); ' % (t, n, K, t, r, c, B, L)
                        f = 'std::move(x.v).random(a[0],a[1]);' if rv else 'auto& y=x.v.random(a[0],a[1]); if(&y!=&x.v) throw 1;'
                        g.t(cs, 'RND' + F + K + B[0] + L[0:1] + L[4] + 'lr'[rv],
                            b + 'for(int r=0;r<2;++r) { %s for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) o[r*%d+i*%d+j]=x.v(i,j); }' % (f, r, c, n, c))
    # unit vectors
    for n in (1, 2, 3, 4) + ((5,) if full else ()):
        G = 'std::default_random_engine gen(%s); '
        N = 'std::normal_distribution<%s> D(0,1); %s z[%d], s=0; for(int k=0;k<%d;++k) { z[k]=D(gen); s+=z[k]*z[k]; } for(int k=0;k<%d;++k) o[%sk]=z[k]/std::sqrt(s); '
        for t in ('double', 'float'):
            F = 'F32' if t == 'float' else ''
            cs = 'u%s%d' % (t[0], n)
            g.case(cs, (1,), (n,), G % 'std::rand()' + N % (t, t, n, n, n, ''), ty=t)
            # the engine given is used, and left so that the next draws differ
            g.case('g' + cs, ('unsigned',), (2 * n,), G % 'a' + ' { %s } { %s }' % (N % (t, t, n, n, n, ''), N % (t, t, n, n, n, '%d+' % n)), ty=t)
            for K in KINDS:
                b = '%s z[%d]={}; vec<%s,%s,%d> x(z); ' % (t, n, K, t, n)
                W = 'for(int k=0;k<%d;++k) o[%sk]=x.v[k]; '
                g.t(cs, 'RND' + F + K, b + 'random_unit(x.v); ' + W % (n, ''))
                g.t('g' + cs, 'RND' + F + K, b + G % 'a' + 'random_unit(x.v,gen); ' + W % (n, '') + 'random_unit(x.v,gen); ' + W % (n, '%d+' % n))
                if t == 'double':
                    g.t('g' + cs, 'RNDm' + K, b + 'std::mt19937 gen(a); random_unit(x.v,gen); ' + W % (n, '') + 'random_unit(x.v,gen); ' + W % (n, '%d+' % n))
    # cones: a = direction, b = half-angle
    CH = 'if(!(b[0]>0)) throw std::invalid_argument(""); if(!(b[0]<=3.14159265358979323846/2.)) throw std::invalid_argument(""); '
    g.case('c2', (2, 1), (2,), CH + ENG + DIST['double'] + ' D(-b[0],b[0]); double t=D(gen); double l=std::sqrt(a[0]*a[0]+a[1]*a[1]); '
           'o[0]=(std::cos(t)*a[0]-std::sin(t)*a[1])/l; o[1]=(std::sin(t)*a[0]+std::cos(t)*a[1])/l;')
    for n in (2, 3, 4):
        # the angle from the direction is scaled from [0,90] deg to [0,b]
        g.case('c%dn' % n, (n, 1), (n,), CH + ENG + 'std::normal_distribution<double> D(0,1); double z[%d],s=0; for(int k=0;k<%d;++k) { z[k]=D(gen); s+=z[k]*z[k]; } '
               'double d=0; for(int k=0;k<%d;++k) { z[k]/=std::sqrt(s); d+=z[k]*a[k]; } '
               'if(d<0) { for(int k=0;k<%d;++k) z[k]=-z[k]; d=-d; } '
               'if(d>=1) __builtin_unreachable(); double O=std::acos(d), p=b[0]*O/(3.14159265358979323846/2.); '
               'for(int k=0;k<%d;++k) o[k]=std::cos(p)*a[k]+std::sin(p)*(z[k]-std::cos(O)*a[k])/std::sin(O);' % (n, n, n, n, n))
    for K in KINDS:
        for K2 in CKINDS:
            for n in (2, 3, 4):
                cs = 'c2' if n == 2 and K2 not in ('KD', 'KX', 'KY') else 'c%dn' % n
                g.t(cs, 'RND' + K + K2, 'double z[%d]={}; vec<%s,double,%d> x(z); vec<%s,double,%d> d(a); random_unit(x.v,d.v,b[0]); for(int k=0;k<%d;++k) o[k]=x.v[k];' % (n, K, n, K2, n, n))
    for n in (2, 3):
        cs = 'c2' if n == 2 else 'c3n'
        g.t(cs, 'RNDrs', 'vector<double,dynamic<>> x; vec<KF,double,%d> d(a); random_unit(x,d.v,b[0]); if(x.size()!=%d) throw 1; for(int k=0;k<%d;++k) o[k]=x[k];' % (n, n, n))
        g.t(cs, 'RNDex', 'vector<double,compiled<%d>> x; vec<KF,double,%d> d(a); random_unit(x,d.v*1.,b[0]); for(int k=0;k<%d;++k) o[k]=x[k];' % (n, n, n))
    rep.values(g)
