"""Scalar and index helpers, axis-order and Euler-order decoders."""
from harness import Gen
import itertools
from builders import EULER, AXIS, idx

def check(rep, tier):
    g = Gen('#include <cml/util.h>\n')
    def both(cs, ins, outs, ref, body):
        """body uses a[i] of type T; single precision as well"""
        g.case(cs, ins, outs, ref)
        g.t(cs, 'd', 'using T=double; ' + body)
        fins = ''.join('float %s[%d]; for(int k=0;k<%d;++k) %s[k]=float(%s_[k]); ' % (n, m, m, n, n) for n, m in zip('abcd', ins))
        al = ''.join('auto& %s_=%s; ' % (n, n) for n, m in zip('abcd', ins))
        g.t(cs, 'F32', 'using T=float; ' + al + '{ ' + fins + body + ' }')
    both('sign', (1,), (1,), 'o[0]=a[0]<0.?-1.:a[0]>0.?1.:0.;', 'o[0]=sign(a[0]);')
    both('clamp', (3,), (1,), 'if(!(a[1]<=a[2])) { o[0]=0.; return; } o[0]=a[0]<a[1]?a[1]:a[0]>a[2]?a[2]:a[0];', 'if(!(a[1]<=a[2])) { o[0]=0.; return; } o[0]=clamp(a[0],a[1],a[2]);')
    both('inrange', (3,), (1,), 'o[0]=a[1]<=a[0]&&a[0]<=a[2]?1.:0.;', 'o[0]=in_range(a[0],a[1],a[2])?1.:0.;')
    both('maprange', (5,), (1,), 'o[0]=a[3]+(a[0]-a[1])*(a[4]-a[3])/(a[2]-a[1]);', 'o[0]=map_range(a[0],a[1],a[2],a[3],a[4]);')
    both('wrap', (3,), (1,), 'double w=a[2]-a[1]; double r=std::fmod(a[0]-a[1],w); if(r<0.) r+=w; o[0]=a[1]+r;', 'o[0]=wrap(a[0],a[1],a[2]);')
    both('acoss', (1,), (1,), 'o[0]=std::acos(a[0]<-1.?-1.:a[0]>1.?1.:a[0]);', 'o[0]=acos_safe(a[0]);')
    both('asins', (1,), (1,), 'o[0]=std::asin(a[0]<-1.?-1.:a[0]>1.?1.:a[0]);', 'o[0]=asin_safe(a[0]);')
    both('sqrts', (1,), (1,), 'o[0]=a[0]<0.?0.:std::sqrt(a[0]);', 'o[0]=sqrt_safe(a[0]);')
    both('sqr', (1,), (1,), 'o[0]=a[0]*a[0];', 'o[0]=sqr(a[0]);')
    both('cub', (1,), (1,), 'o[0]=a[0]*a[0]*a[0];', 'o[0]=cub(a[0]);')
    both('isqrt', (1,), (1,), 'o[0]=1./std::sqrt(a[0]);', 'o[0]=inv_sqrt(a[0]);')
    g.case('deg', (1,), (1,), 'o[0]=a[0]*(180./3.14159265358979323846);').t('deg', 'd', 'o[0]=deg(a[0]);')
    g.case('rad', (1,), (1,), 'o[0]=a[0]*(3.14159265358979323846/180.);').t('rad', 'd', 'o[0]=rad(a[0]);')
    g.case('degf', (1,), (1,), 'o[0]=a[0]*double(float(180./3.14159265358979323846));').t('degf', 'F32', 'o[0]=deg(float(a[0]));')
    g.case('radf', (1,), (1,), 'o[0]=a[0]*double(float(3.14159265358979323846/180.));').t('radf', 'F32', 'o[0]=rad(float(a[0]));')
    both('len2', (2,), (1,), 'o[0]=a[0]*a[0]+a[1]*a[1];', 'o[0]=length_squared(a[0],a[1]);')
    both('len3', (3,), (1,), 'o[0]=a[0]*a[0]+a[1]*a[1]+a[2]*a[2];', 'o[0]=length_squared(a[0],a[1],a[2]);')
    both('ln2', (2,), (1,), 'o[0]=std::sqrt(a[0]*a[0]+a[1]*a[1]);', 'o[0]=length(a[0],a[1]);')
    both('ln3', (3,), (1,), 'o[0]=std::sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]);', 'o[0]=length(a[0],a[1],a[2]);')
    # field of view: half the image is tan(fov / 2) times the distance, zoom its inverse, aspect is width over height
    both('fxy', (2,), (1,), 'o[0]=2.*std::atan(std::tan(a[0]/2.)/a[1]);', 'o[0]=xfov_to_yfov(a[0],a[1]);')
    both('fyx', (2,), (1,), 'o[0]=2.*std::atan(std::tan(a[0]/2.)*a[1]);', 'o[0]=yfov_to_xfov(a[0],a[1]);')
    both('zxy', (2,), (1,), 'o[0]=a[0]*a[1];', 'o[0]=xzoom_to_yzoom(a[0],a[1]);')
    both('zyx', (2,), (1,), 'o[0]=a[0]/a[1];', 'o[0]=yzoom_to_xzoom(a[0],a[1]);')
    both('zf', (1,), (1,), 'o[0]=2.*std::atan(1./a[0]);', 'o[0]=zoom_to_fov(a[0]);')
    both('fz', (1,), (1,), 'o[0]=1./std::tan(a[0]/2.);', 'o[0]=fov_to_zoom(a[0]);')
    # constants
    CON = dict(pi='3.14159265358979323846', two_pi='2.*3.14159265358979323846', pi_over_2='3.14159265358979323846/2.', pi_over_4='3.14159265358979323846/4.',
               inv_pi='1./3.14159265358979323846', inv_two_pi='1./(2.*3.14159265358979323846)',
               deg_per_rad='180./3.14159265358979323846', rad_per_deg='3.14159265358979323846/180.', e='2.71828182845904523536',
               sqrt_2='1.41421356237309504880', sqrt_3='1.73205080756887729353', sqrt_5='2.23606797749978969641', sqrt_6='2.44948974278317809820')
    for c, v in CON.items():
        g.case('k_' + c, (1,), (2,), 'o[0]=a[0]+(%s); o[1]=double(float(%s));' % (v, v)).t('k_' + c, 'd', 'o[0]=a[0]+constants<double>::%s(); o[1]=constants<float>::%s();' % (c, c))
    # extremes: the value at the returned index, and the index in range
    for nm, cmp, ab in (('max', '>', 0), ('min', '<', 0), ('max', '>', 1), ('min', '<', 1)):
        f = 'index_of_%s%s' % (nm, '_abs' if ab else '')
        for N in (2, 3, 4):
            val = 'std::fabs(a[%s])' if ab else 'a[%s]'
            cs = f.replace('_', '') + str(N)
            both(cs, (N,), (1,), 'double v=%s; for(int k=1;k<%d;++k) if(%s%sv) v=%s; o[0]=v;' % (val % 0, N, val % 'k', cmp, val % 'k'),
                 'int i=%s(%s); if(i<0 || i>=%d) throw 1; o[0]=%s;' % (f, ','.join('a[%d]' % k for k in range(N)), N, val % 'i'))
            ci = cs + 'i'
            av = '(a[%s]<0?-a[%s]:a[%s])' if ab else 'a[%s]'
            sv = lambda k: av.replace('%s', str(k))
            g.case(ci, (N,), (1,), 'int v=%s; for(int k=1;k<%d;++k) { int w=%s; if(w%sv) v=w; } o[0]=v;' % (sv(0), N, sv('k'), cmp), ty='int')
            g.t(ci, 'd', 'int i=%s(%s); if(i<0 || i>=%d) throw 1; o[0]=%s;' % (f, ','.join('a[%d]' % k for k in range(N)), N, sv('i')))
    g.case('signi', (1,), (1,), 'o[0]=a[0]<0?-1:a[0]>0?1:0;', ty='int').t('signi', 'd', 'o[0]=sign(a[0]);')
    g.case('clampi', (3,), (1,), 'if(!(a[1]<=a[2])) { o[0]=0; return; } o[0]=a[0]<a[1]?a[1]:a[0]>a[2]?a[2]:a[0];', ty='int').t('clampi', 'd', 'if(!(a[1]<=a[2])) { o[0]=0; return; } o[0]=clamp(a[0],a[1],a[2]);')
    g.case('inri', (3,), (1,), 'o[0]=a[1]<=a[0]&&a[0]<=a[2]?1:0;', ty='int').t('inri', 'd', 'o[0]=in_range(a[0],a[1],a[2])?1:0;')
    g.case('sqri', (1,), (2,), 'o[0]=a[0]*a[0]; o[1]=a[0]*a[0]*a[0];', ty='int').t('sqri', 'd', 'o[0]=sqr(a[0]); o[1]=cub(a[0]);')
    # cyclic indices
    for N in (2, 3, 4):
        for i in range(N):
            cs = 'nx%d%d' % (N, i)
            g.case(cs, (1,), (2,), 'o[0]=%d; o[1]=%d;' % ((i + 1) % N, (i - 1) % N)).t(cs, 'd', 'o[0]=next(%d,%d); o[1]=prev(%d,%d);' % (i, N, i, N))
            cs = 'cy%d%d' % (N, i)
            vs = 'ijkl'[:N]
            g.case(cs, (1,), (N,), ''.join('o[%d]=%d; ' % (k, (i + k) % N) for k in range(N)))
            g.t(cs, 'd', 'int %s; cyclic_permutation(%d,%s); %s' % (','.join(v + '=77' for v in vs), i, ','.join(vs), ''.join('o[%d]=%s; ' % (k, v) for k, v in enumerate(vs))))
    # orders
    odd = lambda o: int(tuple(idx(o))[1] != (idx(o)[0] + 1) % 3)
    third = lambda o: 3 - idx(o)[0] - idx(o)[1]
    for o in EULER:
        cs = 'eo' + o
        i, j, _ = idx(o)
        g.case(cs, (1,), (5,), 'o[0]=%d; o[1]=%d; o[2]=%d; o[3]=%d; o[4]=%d;' % (i, j, third(o), odd(o), o[0] == o[2]))
        g.t(cs, 'd', 'int i=9,j=9,k=9; bool d,r; unpack_euler_order(euler_order_%s,i,j,k,d,r); o[0]=i; o[1]=j; o[2]=k; o[3]=d; o[4]=r;' % o)
    for o in AXIS:
        cs = 'ao' + o
        i, j, k = idx(o)
        g.case(cs, (1,), (4,), 'o[0]=%d; o[1]=%d; o[2]=%d; o[3]=%d;' % (i, j, k, odd(o)))
        g.t(cs, 'd', 'int i=9,j=9,k=9; bool d; unpack_axis_order(axis_order_%s,i,j,k,d); o[0]=i; o[1]=j; o[2]=k; o[3]=d;' % o)
        g.t(cs, 'p', 'int i=9,j=9,k=9; bool d; unpack_axis_order(pack_axis_order(%d,%s),i,j,k,d); o[0]=i; o[1]=j; o[2]=k; o[3]=d;' % (i, 'true' if odd(o) else 'false'))
        cs = 'aw' + o
        g.case(cs, (1,), (1,), 'o[0]=int(axis_order_%s%s%s);' % (o[1], o[0], o[2]))
        g.t(cs, 'd', 'o[0]=int(swap_axis_order(axis_order_%s));' % o)
    for o in ('xy', 'yx'):
        i, j = idx(o)
        g.case('a2' + o, (1,), (3,), 'o[0]=%d; o[1]=%d; o[2]=%d;' % (i, j, o == 'yx'))
        g.t('a2' + o, 'd', 'int i=9,j=9; bool d; unpack_axis_order2D(axis_order_%s,i,j,d); o[0]=i; o[1]=j; o[2]=d;' % o)
    rep.values(g)
