from harness import Gen
from ops import *
import builders
from p18 import mdecl

NRM = 'for(int i=0;i<6;++i) { double l=std::sqrt(P[i][0]*P[i][0]+P[i][1]*P[i][1]+P[i][2]*P[i][2]); for(int j=0;j<4;++j) P[i][j]/=l; } '
OUT = 'for(int i=0;i<24;++i) o[i]=P[i/4][i%4];'

def planes(c, z):
    """rows of the transform in row form: clip coordinate j of a point p is sum_i p[i] m[i][j];
    the planes are w+x, w-x, w+y, w-y, w+z (or z), w-z as linear forms in p"""
    return ('double P[6][4]; for(int i=0;i<4;++i) {{ double X=m[i*{c}],Y=m[i*{c}+1],Z=m[i*{c}+2],W=m[i*{c}+3]; '
            'P[0][i]=W+X; P[1][i]=W-X; P[2][i]=W+Y; P[3][i]=W-Y; P[4][i]={n}; P[5][i]=W-Z; }} ').format(c=c, n='W+Z' if z == 'z_clip_neg_one' else 'Z')

def check(rep, tier):
    g = Gen()
    n = 0
    for z in ('z_clip_neg_one', 'z_clip_zero'):
        tz = z[7]
        for (r, c) in ((4, 4), (5, 5)):
            m = 'auto& m=a; '
            for nz in (0, 1):
                cs = 'fp%s%d_%d' % (tz, nz, r)
                g.case(cs, (r * c,), (24,), m + planes(c, z) + (NRM if nz else '') + OUT)
            cn = 'near%s_%d' % (tz, r)
            g.case(cn, (r * c,), (4,), m + planes(c, z) + 'for(int i=0;i<4;++i) o[i]=P[4][i];')
            for Bs in RC:
                for K in KINDS:
                    for L in LAYOUTS:
                        n += 1
                        e = ['m', 'std::as_const(m)', '(m*1.)', 'std::move(m)'][n % 4]
                        d = mdecl(K, r, c, Bs, L) + 'double P[6][4]; for(int i=0;i<24;++i) P[i/4][i%4]=vf_any(i); '
                        t = SHORT[K] + SHORT[Bs] + SHORT[L]
                        g.t('fp%s0_%d' % (tz, r), t, d + 'extract_frustum_planes(%s,P,%s,false); ' % (e, z) + OUT)
                        g.t('fp%s1_%d' % (tz, r), t, d + 'extract_frustum_planes(%s,P,%s,true); ' % (e, z) + OUT)
                        g.t('fp%s1_%d' % (tz, r), 'd' + t, d + 'extract_frustum_planes(%s,P,%s); ' % (e, z) + OUT)
                        g.t(cn, t, d + 'extract_near_frustum_plane(%s,P[0],%s); for(int i=0;i<4;++i) o[i]=P[0][i];' % (e, z))
                        w = 'double w0[4]={VF_ANY4}; vec<%s,double,4> w(w0); ' % KINDS[n % 4]
                        g.t(cn, 'v' + t, d + w + 'extract_near_frustum_plane(%s,w.v,%s); emitv<4>(o,w.v);' % (e, z))
        # two matrices: model-view first, then projection
        for nz in (0, 1):
            cs = 'fp2%s%d' % (tz, nz)
            g.case(cs, (16, 16), (24,), 'double m[16]; for(int i=0;i<4;++i) for(int j=0;j<4;++j) { m[i*4+j]=0; for(int k=0;k<4;++k) m[i*4+j]+=a[i*4+k]*b[k*4+j]; } ' + planes(4, z) + (NRM if nz else '') + OUT)
            for Bs in RC:
                for K in KINDS:
                    for L in LAYOUTS:
                        n += 1
                        x = M(KINDS[n % 4], VFORMS[n % 4], 'y', 'M1', 4, 4, Bs, LAYOUTS[n // 2 % 2])
                        b1 = 'double M1[16]; for(int i=0;i<4;++i) for(int j=0;j<4;++j) M1[%s]=b[i*4+j]; ' % ('i*4+j' if Bs == 'row_basis' else 'j*4+i')
                        d = mdecl(K, 4, 4, Bs, L) + b1 + x.decl + ' double P[6][4]; for(int i=0;i<24;++i) P[i/4][i%4]=vf_any(i); '
                        e = ['m', 'std::as_const(m)', '(m*1.)', 'std::move(m)'][n // 4 % 4]
                        t = SHORT[K] + SHORT[Bs] + SHORT[L]
                        g.t(cs, t, d + 'extract_frustum_planes(%s,%s,P,%s,%s); ' % (e, x.expr, z, 'true' if nz else 'false') + OUT)
                        if nz:
                            g.t(cs, 'd' + t, d + 'extract_frustum_planes(%s,%s,P,%s); ' % (e, x.expr, z) + OUT)
        # a frustum built by the library is bounded by the planes of its own parameters (left/right-handed perspective)
    rep.values(g)
