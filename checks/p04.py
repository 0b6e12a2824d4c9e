import cutoff
from harness import Gen
from ops import *

VF = VFORMS + ['row', 'col', 'sub']

def forms(full=False):
    return [(k, f) for k in CKINDS for f in VF if not (f in ('row', 'col') and k in ('KC', 'KY'))]

def pairs_(fs, per, rot):
    out = []
    for i, x in enumerate(fs):
        for s in range(per):
            out.append((x, fs[(i * 5 + rot + s * 11) % len(fs)]))
    return list(dict.fromkeys(out))

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    fs = forms()
    per = 6 if full else 3
    # dot, lengths, normalisation, hadamard, for several sizes
    for n in (1, 2, 3, 4, 5, 9, 17) + ((6, 7, 8, 33) if full else ()) + tuple(n for n in cutoff.extra() if n not in (5, 6, 7, 8, 9, 17, 33)):
        g.thin = 1 if n < 9 else 5
        L = 'for(int i=0;i<%d;++i) ' % n
        g.case('dot_%d' % n, (n, n), (1,), 'double s=0; ' + L + 's+=a[i]*b[i]; o[0]=s;')
        g.case('had_%d' % n, (n, n), (n,), L + 'o[i]=a[i]*b[i];')
        for (k, f), (k2, f2) in pairs_(fs, per, n):
            x, y = V(k, f, 'x', 'a', n), V(k2, f2, 'y', 'b', n)
            t = x.tag + '_' + y.tag
            g.t('dot_%d' % n, t, '%s%s o[0]=dot(%s,%s);' % (x.decl, y.decl, x.expr, y.expr))
            g.t('had_%d' % n, t, '%s%s emitv<%d>(o,hadamard(%s,%s));' % (x.decl, y.decl, n, x.expr, y.expr))
        g.case('len2_%d' % n, (n,), (1,), 'double s=0; ' + L + 's+=a[i]*a[i]; o[0]=s;')
        g.case('len_%d' % n, (n,), (1,), 'double s=0; ' + L + 's+=a[i]*a[i]; o[0]=std::sqrt(s);')
        g.case('nrm_%d' % n, (n,), (n,), 'double s=0; ' + L + 's+=a[i]*a[i]; ' + L + 'o[i]=a[i]/std::sqrt(s);')
        for k, f in fs:
            x = V(k, f, 'x', 'a', n)
            d, e = x.decl, x.expr
            g.t('len2_%d' % n, 'm' + x.tag, d + 'o[0]=(%s).length_squared();' % e)
            g.t('len2_%d' % n, 'f' + x.tag, d + 'o[0]=length_squared(%s);' % e)
            g.t('len_%d' % n, 'm' + x.tag, d + 'o[0]=(%s).length();' % e)
            g.t('len_%d' % n, 'f' + x.tag, d + 'o[0]=length(%s);' % e)
            g.t('nrm_%d' % n, 'f' + x.tag, d + 'emitv<%d>(o,normalize(%s));' % (n, e))
            if f != 'rv' or k in ('KC', 'KY'):
                g.t('nrm_%d' % n, 'm' + x.tag, d + 'emitv<%d>(o,(%s).normalize());' % (n, e))
        for k in KINDS:
            g.t('nrm_%d' % n, 'ip' + SHORT[k], 'vec<%s,double,%d> x(a); x.v.normalize(); emitv<%d>(o,x.v);' % (k, n, n))
            g.t('nrm_%d' % n, 'ir' + SHORT[k], 'vec<%s,double,%d> x(a); std::move(x.v).normalize(); emitv<%d>(o,x.v);' % (k, n, n))
            g.t('nrm_%d' % n, 'ic' + SHORT[k], 'vec<%s,double,%d> x(a); auto&& e=std::as_const(x.v).normalize(); emitv<%d>(o,e); emitv<%d>(o,std::as_const(x.v).normalize()); for(int i=0;i<%d;++i) if(false) o[i]=0;' % (k, n, n, n, n))
    g.thin = 1
    # cross, perp_dot, triple
    g.case('cross', (3, 3), (3,), 'for(int i=0;i<3;++i) o[i]=a[(i+1)%3]*b[(i+2)%3]-a[(i+2)%3]*b[(i+1)%3];')
    g.case('crossnest', (3, 3, 3), (3,), 'double t[3]; for(int i=0;i<3;++i) t[i]=a[(i+1)%3]*b[(i+2)%3]-a[(i+2)%3]*b[(i+1)%3];'
           'for(int i=0;i<3;++i) o[i]=t[(i+1)%3]*c[(i+2)%3]-t[(i+2)%3]*c[(i+1)%3];')
    g.case('perp', (2, 2), (1,), 'o[0]=a[0]*b[1]-a[1]*b[0];')
    g.case('triple', (3, 3, 3), (1,), 'o[0]=a[0]*(b[1]*c[2]-b[2]*c[1])+a[1]*(b[2]*c[0]-b[0]*c[2])+a[2]*(b[0]*c[1]-b[1]*c[0]);')
    for (k, f), (k2, f2) in pairs_(fs, per * 2, 1):
        x, y = V(k, f, 'x', 'a', 3), V(k2, f2, 'y', 'b', 3)
        t = x.tag + '_' + y.tag
        g.t('cross', t, '%s%s emitv<3>(o,cross(%s,%s));' % (x.decl, y.decl, x.expr, y.expr))
        z = V(k2, f, 'z', 'c', 3) if not (k2 in ('KC', 'KY') and f in ('row', 'col')) else V(k, f, 'z', 'c', 3)
        g.t('crossnest', t, '%s%s%s emitv<3>(o,cross(cross(%s,%s),%s));' % (x.decl, y.decl, z.decl, x.expr, y.expr, z.expr))
        g.t('triple', t, '%s%s%s o[0]=triple_product(%s,%s,%s);' % (x.decl, y.decl, z.decl, x.expr, y.expr, z.expr))
        x, y = V(k, f, 'x', 'a', 2), V(k2, f2, 'y', 'b', 2)
        g.t('perp', t, '%s%s o[0]=perp_dot(%s,%s);' % (x.decl, y.decl, x.expr, y.expr))
    for k in CKINDS:
        for r in ('KF', 'KD'):
            x, y = V(k, 'lv', 'x', 'a', 3), V(r, 'lv', 'y', 'b', 3)
            T = 'vector<double,%s>' % ('compiled<3>' if r == 'KF' else 'dynamic<>')
            g.t('cross', 'res' + SHORT[k] + SHORT[r], '%s%s %s w(cross(%s,%s)); emitv<3>(o,w);' % (x.decl, y.decl, T, x.expr, y.expr))
            g.t('cross', 'asg' + SHORT[k] + SHORT[r], '%s%s vec<%s,double,3> w(b); w.v = cross(%s,%s); emitv<3>(o,w.v);' % (x.decl, y.decl, r, x.expr, y.expr))
    # outer product of different sizes
    for r, c in ((1, 1), (2, 3), (3, 2), (3, 3), (4, 2), (1, 4), (5, 6), (7, 3)) + tuple(cutoff.shapes()) + (((5, 4), (2, 6)) if full else ()):
        cs = 'outer_%d%d' % (r, c)
        g.case(cs, (r, c), (r * c,), 'for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) o[i*%d+j]=a[i]*b[j];' % (r, c, c))
        for (k, f), (k2, f2) in pairs_(fs, per - 1, r + c):
            x, y = V(k, f, 'x', 'a', r), V(k2, f2, 'y', 'b', c)
            g.t(cs, x.tag + '_' + y.tag, '%s%s emitm<%d,%d>(o,outer(%s,%s));' % (x.decl, y.decl, r, c, x.expr, y.expr))
        for k in CKINDS:
            x, y = V(k, 'lv', 'x', 'a', r), V('KD', 'lv', 'y', 'b', c)
            g.t(cs, 'res' + SHORT[k], '%s%s matrix<double,dynamic<>> w(outer(%s,%s)); emitm<%d,%d>(o,w);' % (x.decl, y.decl, x.expr, y.expr, r, c))
    # mixed element types: integers and floats promote before the product
    for (E1, E2) in (('int', 'double'), ('double', 'int'), ('float', 'double'), ('double', 'float')):
        cv = {'int': '(double)(int)', 'double': '', 'float': ''}
        for k in KINDS:
            x, y = V(k, 'lv', 'x', 'a', 3, E1), V('KF', 'lv', 'y', 'b', 3, E2)
            t = 'mix%s%s' % (E1, E2)
            A, B = cv[E1] + 'a[%s]', cv[E2] + 'b[%s]'
            c = 'dot' + t
            g.case(c, (3, 3), (1,), 'double s=0; for(int i=0;i<3;++i) s+=%s*%s; o[0]=s;' % (A % 'i', B % 'i'))
            g.t(c, x.tag + 'r', '%s%s o[0]=dot(%s,%s);' % (x.decl, y.decl, x.expr, y.expr))
            c = 'cross' + t
            g.case(c, (3, 3), (3,), 'for(int i=0;i<3;++i) o[i]=%s*%s-%s*%s;' % (A % '(i+1)%3', B % '(i+2)%3', A % '(i+2)%3', B % '(i+1)%3'))
            g.t(c, x.tag + 'r', '%s%s emitv<3>(o,cross(%s,%s));' % (x.decl, y.decl, x.expr, y.expr))
            c = 'outer' + t
            g.case(c, (3, 3), (9,), 'for(int i=0;i<3;++i) for(int j=0;j<3;++j) o[i*3+j]=%s*%s;' % (A % 'i', B % 'j'))
            g.t(c, x.tag + 'r', '%s%s emitm<3,3>(o,outer(%s,%s));' % (x.decl, y.decl, x.expr, y.expr))
            c = 'triple' + t
            g.case(c, (3, 3, 3), (1,), 'o[0]=0; for(int i=0;i<3;++i) o[0]+=%s*(%s*c[%s]-%s*c[%s]);' % (A % 'i', B % '(i+1)%3', '(i+2)%3', B % '(i+2)%3', '(i+1)%3'))
            z = V(k, 'lv', 'z', 'c', 3)
            g.t(c, x.tag + 'r', '%s%s%s o[0]=triple_product(%s,%s,%s);' % (x.decl, y.decl, z.decl, x.expr, y.expr, z.expr))
            c = 'perp' + t
            g.case(c, (3, 3), (1,), 'o[0]=%s*%s-%s*%s;' % (A % '0', B % '1', A % '1', B % '0'))
            g.t(c, x.tag + 'r', '%s%s auto p=subvector(%s,2); auto q=subvector(%s,2); o[0]=perp_dot(p,q);' % (x.decl, y.decl, x.expr, y.expr))
    rep.values(g)
