"""Coordinate conversions against their defining formulas, in both directions,
and round trips."""
from harness import Gen
from ops import *

TOLD = '1.49011611938476563e-8'
LT = ('latitude', 'colatitude')

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    n = 0
    # ---- to cartesian
    pol = 'o[0]=std::cos(a[1])*a[0]; o[1]=std::sin(a[1])*a[0];'
    g.case('p2c', (2,), (2,), pol)
    for K in KINDS:
        d = 'double z[2]={VF_ANY2}; vec<%s,double,2> x(z); ' % K
        g.t('p2c', SHORT[K], d + 'polar_to_cartesian(x.v,a[0],a[1]); emitv<2>(o,x.v);')
        g.t('p2c', 'l' + SHORT[K], d + 'polar_to_cartesian(a[0],a[1],x.v); emitv<2>(o,x.v);')
    def tocyl(x):
        i, j, k = x, (x + 1) % 3, (x + 2) % 3
        return 'o[%d]=a[2]; o[%d]=std::cos(a[1])*a[0]; o[%d]=std::sin(a[1])*a[0];' % (i, j, k)
    def tosph(x, lt):
        i, j, k = x, (x + 1) % 3, (x + 2) % 3
        s, c = ('std::sin(a[2])', 'std::cos(a[2])')
        if lt == 'latitude':
            s, c = c, s
        return 'o[%d]=%s*a[0]; o[%d]=%s*std::cos(a[1])*a[0]; o[%d]=%s*std::sin(a[1])*a[0];' % (i, c, j, s, k, s)
    for x in range(3):
        cs = 'c2c%d' % x
        g.case(cs, (3,), (3,), tocyl(x))
        for K in KINDS:
            d = 'double z[3]={VF_ANY3}; vec<%s,double,3> x(z); ' % K
            g.t(cs, SHORT[K], d + 'cylindrical_to_cartesian(x.v,%d,a[0],a[1],a[2]); emitv<3>(o,x.v);' % x)
            g.t(cs, 'l' + SHORT[K], d + 'cylindrical_to_cartesian(a[0],a[1],a[2],%d,x.v); emitv<3>(o,x.v);' % x)
        for lt in LT:
            cs = 's2c%d%s' % (x, lt[:2])
            g.case(cs, (3,), (3,), tosph(x, lt))
            for K in KINDS:
                d = 'double z[3]={VF_ANY3}; vec<%s,double,3> x(z); ' % K
                g.t(cs, SHORT[K], d + 'spherical_to_cartesian(x.v,%d,%s,a[0],a[1],a[2]); emitv<3>(o,x.v);' % (x, lt))
                g.t(cs, 'l' + SHORT[K], d + 'spherical_to_cartesian(a[0],a[1],a[2],%d,%s,x.v); emitv<3>(o,x.v);' % (x, lt))
    # ---- from cartesian; b[0] is the tolerance when given
    PI2 = '1.57079632679489661923'
    def fpol(t):
        return 'double r=std::sqrt(a[0]*a[0]+a[1]*a[1]); o[0]=r; o[1]=r<%s?0.:std::atan2(a[1],a[0]);' % t
    def fcyl(x, t):
        i, j, k = x, (x + 1) % 3, (x + 2) % 3
        return 'double r=std::sqrt(a[%d]*a[%d]+a[%d]*a[%d]); o[0]=r; o[1]=r<%s?0.:std::atan2(a[%d],a[%d]); o[2]=a[%d];' % (j, j, k, k, t, k, j, i)
    def fsph(x, lt, t, PI2=PI2):
        i, j, k = x, (x + 1) % 3, (x + 2) % 3
        h = 'std::atan2(l,a[%d])' % i
        if lt == 'latitude':
            h = PI2 + '-' + h
        return ('double l=std::sqrt(a[{j}]*a[{j}]+a[{k}]*a[{k}]); o[1]=l<{t}?0.:std::atan2(a[{k}],a[{j}]); double r=std::sqrt(a[{i}]*a[{i}]+l*l); o[0]=r; if(r<{t}) o[2]=0; else o[2]={h};').format(i=i, j=j, k=k, t=t, h=h)
    # a single-precision angle is measured from the single-precision constant
    PIF = '1.57079637050628662'
    F = [('c2p', 2, (lambda t, P=0: fpol(t)), 'cartesian_to_polar(%s,r,t{T});', None)]
    for x in range(3):
        F.append(('c2y%d' % x, 3, (lambda t, P=0, x=x: fcyl(x, t)), 'cartesian_to_cylindrical(%%s,%d,r,t,h{T});' % x, 'cartesian_to_cylindrical(%%s,r,t,h,%d{T});' % x))
        for lt in LT:
            F.append(('c2s%d%s' % (x, lt[:2]), 3, (lambda t, PI2=PI2, x=x, lt=lt: fsph(x, lt, t, PI2)), 'cartesian_to_spherical(%%s,%d,%s,r,t,h{T});' % (x, lt), 'cartesian_to_spherical(%%s,r,t,h,%d,%s{T});' % (x, lt)))
    forms = VFORMS + (['row', 'col', 'sub', 'rsub'])
    for cs, N, rf, c1, c2 in F:
        g.case(cs, (N,), (N,), rf(TOLD))
        g.case(cs + 't', (N, 1), (N,), rf('b[0]'))
        for K in CKINDS:
            for f in forms:
                if K in ('KC', 'KY') and f in ('row', 'col'):
                    continue
                n += 1
                v = V(K, f, 'x', 'a', N)
                end = ' o[0]=r; o[1]=t;' + (' o[2]=h;' if N == 3 else '')
                pre = v.decl + 'double r=vf_any(0),t=vf_any(1),h=vf_any(2); (void)h; '
                for m, call in ((0, c1), (1, c2)):
                    if call is None:
                        continue
                    if not full and f in ('row', 'col', 'sub', 'rsub') and n % 2 != m:
                        continue
                    mm = 'l' if m else ''
                    g.t(cs, mm + v.tag, pre + call.replace('{T}', '') % v.expr + end)
                    g.t(cs + 't', mm + v.tag, pre + call.replace('{T}', ',b[0]') % v.expr + end)
        # mixed element types: float results keep the default tolerance of the promoted type
        v = V('KF', 'lv', 'x', 'a', N)
        g.case(cs + 'm', (N,), (N,), rf(TOLD, PIF))
        g.t(cs + 'm', 'F32a', v.decl + 'float r=7.f,t=7.f,h=7.f; (void)h; ' + c1.replace('{T}', '') % v.expr + end)
        v = V('KF', 'lv', 'x', 'a', N, 'float')
        g.t(cs, 'F32b', v.decl + 'double r=vf_any(0),t=vf_any(1),h=vf_any(2); (void)h; ' + c1.replace('{T}', '') % v.expr + end)
        # all in single precision: the single-precision default
        g.case(cs + 'f', (N,), (N,), rf('double(3.45266983e-4f)', PIF))
        g.t(cs + 'f', 'F32', v.decl + 'float r=7.f,t=7.f,h=7.f; (void)h; ' + c1.replace('{T}', '') % v.expr + end)
        if c2:
            g.t(cs + 'f', 'lF32', v.decl + 'float r=7.f,t=7.f,h=7.f; (void)h; ' + c2.replace('{T}', '') % v.expr + end)
    # ---- there and back, away from the poles and the origin
    g.case('rt_pol', (2,), (2,), 'if(std::sqrt(a[0]*a[0]+a[1]*a[1])<1e-3) { o[0]=o[1]=0; return; } o[0]=a[0]; o[1]=a[1];')
    for K in KINDS:
        g.t('rt_pol', SHORT[K], 'if(std::sqrt(a[0]*a[0]+a[1]*a[1])<1e-3) { o[0]=o[1]=0; return; } vec<%s,double,2> x(a); double z[2]={VF_ANY2}; vec<KF,double,2> y(z); double r,t; cartesian_to_polar(x.v,r,t,0.); polar_to_cartesian(y.v,r,t); emitv<2>(o,y.v);' % K)
    for x in range(3):
        i, j, k = x, (x + 1) % 3, (x + 2) % 3
        guard = 'if(std::sqrt(a[%d]*a[%d]+a[%d]*a[%d])<1e-3) { o[0]=o[1]=o[2]=0; return; } ' % (j, j, k, k)
        g.case('rt_cyl%d' % x, (3,), (3,), guard + 'for(int q=0;q<3;++q) o[q]=a[q];')
        for lt in LT:
            g.case('rt_sph%d%s' % (x, lt[:2]), (3,), (3,), guard + 'for(int q=0;q<3;++q) o[q]=a[q];')
        for K in KINDS:
            d = guard + 'vec<%s,double,3> x(a); double z[3]={VF_ANY3}; vec<KF,double,3> y(z); double r,t,h; ' % K
            g.t('rt_cyl%d' % x, SHORT[K], d + 'cartesian_to_cylindrical(x.v,%d,r,t,h,0.); cylindrical_to_cartesian(y.v,%d,r,t,h); emitv<3>(o,y.v);' % (x, x))
            for lt in LT:
                g.t('rt_sph%d%s' % (x, lt[:2]), SHORT[K], d + 'cartesian_to_spherical(x.v,%d,%s,r,t,h,0.); spherical_to_cartesian(y.v,%d,%s,r,t,h); emitv<3>(o,y.v);' % (x, lt, x, lt))
    rep.values(g)
