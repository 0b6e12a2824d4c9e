"""Printing: the trace of what is written to the stream."""
import cutoff
from harness import Gen
from ops import *

PRE = '''#include <cml/util/vector_print.h>
#include <cml/util/matrix_print.h>
#include <cml/util/quaternion_print.h>
#include <ostream>
'''
OS = 'std::ostream&'

def check(rep, tier):
    g = Gen(PRE)
    full = tier == 'thorough'
    W = 'std::ostream& p=a<<%s; if(&p!=&a) throw 1;'
    k = 0
    for n in list(range(1, 7 if full else 5)) + [n for n in cutoff.above(130) if n > 6]:
        ref = 'for(int k=0;k<%d;++k) { if(k) a<<" "; a<<b[k]; }' % n
        for t, E in (('double', 'd'), ('float', 'f'), ('int', 'i')):
            cs = 'v%s%d' % (E, n)
            g.case(cs, (OS, n), (), ref, ty=t)
            for K in CKINDS:
                b = 'vec<%s,%s,%d> x(b); ' % (K, t, n)
                # nothing of the object is written while it is printed
                g.t(cs, 'F32' + K, b + 'freeze(x.v); std::ostream& p=a<<x.v; vf_thaw(); if(&p!=&a) throw 1;')
                g.t(cs, 'F32' + K + 'c', b + 'const auto& y=x.v; ' + W % 'y')
                if t == 'double':
                    for f in ('rv', 'ex', 'sub', 'rsub') + (('row', 'col') if K in ('KF', 'KD', 'KE', 'KX') else ()):
                        w = V(K, f, 'w', 'b', n)
                        g.t(cs, K + w.tag, w.decl + W % w.expr)
        # one after the other on the same stream
        g.case('vv%d' % n, (OS, n, 2), (), 'a<<"<"; ' + ref + ' a<<">"; a<<c[0]<<" "<<c[1];')
        for K in KINDS:
            g.t('vv%d' % n, K, 'vec<%s,double,%d> x(b); vec<KF,double,2> y(c); a<<"<"<<x.v<<">"<<y.v;' % (K, n))
    g.case('ve', (OS, 1), (), 'a<<"";')
    g.t('ve', 'KD', 'vector<double,dynamic<>> v(0); a<<v;')
    g.t('ve', 'KDd', 'vector<double,dynamic<>> v; a<<v;')
    g.t('ve', 'KX', 'double d[1]; vector<double,external<>> v(d,0); a<<v;')
    g.t('ve', 'KXd', 'vector<double,external<>> v; a<<v;')
    for r, c in ((1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (1, 3), (3, 1)) + (((4, 4), (3, 4), (4, 1)) if full else ()) + tuple(cutoff.shapes()):
        ref = 'for(int i=0;i<%d;++i) { if(i) a<<"\\n"; a<<"["; for(int j=0;j<%d;++j) { a<<" "; a<<b[i*%d+j]; } a<<" ]"; }' % (r, c, c)
        for t, E in (('double', 'd'), ('float', 'f'), ('int', 'i')):
            cs = 'm%s%d%d' % (E, r, c)
            g.case(cs, (OS, r * c), (), ref, ty=t)
            for K in KINDS:
                for B in RC:
                    for L in LAYOUTS:
                        k += 1
                        if t != 'double' and B != RC[k // 2 % 2]:
                            continue
                        b = 'mat<%s,%s,%d,%d,%s,%s> x(b); ' % (K, t, r, c, B, L)
                        tag = K + B[0] + L[0]
                        if t == 'double':
                            g.t(cs, tag, b + 'freeze(x.v); std::ostream& p=a<<x.v; vf_thaw(); if(&p!=&a) throw 1;')
                        g.t(cs, 'F32' + tag + 'c', b + 'const auto& y=x.v; ' + W % 'y')
                        if t == 'double' and B == RC[k // 2 % 2]:
                            for f in ('rv', 'ex', 'tr', 'trr'):
                                w = M(K, f, 'w', 'b', r, c, B, L)
                                g.t(cs, w.tag, w.decl + W % w.expr)
    g.case('me', (OS, 1), (), 'a<<"";')
    for B in RC:
        for L in LAYOUTS:
            g.t('me', 'KD' + B[0] + L[0], 'matrix<double,dynamic<>,%s,%s> v(0,0); a<<v;' % (B, L))
            g.t('me', 'KDd' + B[0] + L[0], 'matrix<double,dynamic<>,%s,%s> v; a<<v;' % (B, L))
            g.t('me', 'KX' + B[0] + L[0], 'matrix<double,external<>,%s,%s> v; a<<v;' % (B, L))
    # the real part comes first, whatever the order of storage
    ref = 'a<<"[ "; for(int k=0;k<4;++k) { a<<" "; a<<b[k]; } a<<" ]";'
    for t, E in (('double', 'd'), ('float', 'f')):
        g.case('q' + E, (OS, 4), (), ref, ty=t)
        for o in ORDERS:
            for x in CROSSES:
                tag = SHORT[o] + SHORT[x]
                b = 'quat<%s,%s,%s> x(b); ' % (t, o, x)
                g.t('q' + E, 'F32' + tag, b + 'vf_freeze(&x.v,sizeof x.v); std::ostream& p=a<<x.v; vf_thaw(); if(&p!=&a) throw 1;')
                g.t('q' + E, 'F32' + tag + 'c', b + 'const auto& y=x.v; ' + W % 'y')
                for f in ('rv', 'ex') if t == 'double' else ():
                    w = Q(f, 'w', 'b', o, x)
                    g.t('q' + E, 'F32' + w.tag, w.decl + W % w.expr)
    rep.values(g)
