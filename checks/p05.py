import cutoff
from harness import Gen
from ops import *

MF = VFORMS + ['tr']
VF = VFORMS + ['row', 'col', 'sub']

def prod(r, k, c, a='a', b='b', o='o'):
    return ('for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) { double s=0; for(int k=0;k<%d;++k) s+=%s[i*%d+k]*%s[k*%d+j]; %s[i*%d+j]=s; }'
            % (r, c, k, a, k, b, c, o, c))

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    allm = [(k, f, B, L) for k in KINDS for f in MF for B in RC for L in LAYOUTS]
    rot = 0
    shapes = [(1, 1, 1), (2, 2, 2), (3, 3, 3), (2, 3, 4), (4, 3, 2), (3, 1, 2), (1, 4, 1), (4, 4, 4), (5, 7, 6), (9, 9, 9)] + [s for n in cutoff.above(130) for s in ((2, n, 2), (n, 2, 2), (2, 2, n))]
    if full:
        shapes += [(5, 5, 5), (3, 5, 2), (1, 2, 5), (5, 1, 5), (2, 6, 3)]
    for (r, k, c) in shapes:
        g.thin = 53 if max(r, k, c) >= 9 else 1 if r < 5 or full else 7
        cs = 'mm_%d%d%d' % (r, k, c)
        g.case(cs, (r * k, k * c), (r * c,), prod(r, k, c))
        n = 0
        for i, (K1, f1, B1, L1) in enumerate(allm):
            for s in range(3 if full else 1):
                K2, f2, B2, L2 = allm[(i * 7 + rot + s * 37) % len(allm)]
                rot += 3
                B2 = B1
                x, y = M(K1, f1, 'x', 'a', r, k, B1, L1), M(K2, f2, 'y', 'b', k, c, B2, L2)
                t = x.tag + '_' + y.tag
                if t in g.cases[cs][3]:
                    continue
                g.t(cs, t, '%s%s emitm<%d,%d>(o, %s*%s);' % (x.decl, y.decl, r, c, x.expr, y.expr))
        for K1 in KINDS:
            for L1 in LAYOUTS:
                for B in RC:
                    x, y = M(K1, 'lv', 'x', 'a', r, k, B, L1), M('KD', 'lv', 'y', 'b', k, c, B, LAYOUTS[rot % 2])
                    g.t(cs, 'asg' + x.tag, '%s%s mat<%s,double,%d,%d,%s,%s> w(o); w.v = %s*%s; emitm<%d,%d>(o,w.v);'
                        % (x.decl, y.decl, K1, r, c, B, L1, x.expr, y.expr, r, c) if False else
                        '%s%s double z[%d]={}; mat<%s,double,%d,%d,%s,%s> w(z); w.v = %s*%s; emitm<%d,%d>(o,w.v);'
                        % (x.decl, y.decl, r * c, K1, r, c, B, L1, x.expr, y.expr, r, c))
                    rot += 1
    g.thin = 1
    # three-factor chains and sums of products
    c3 = 'chain'
    g.case(c3, (4, 6, 6), (4,), 'double t[6]; ' + prod(2, 2, 3, 'a', 'b', 't') + prod(2, 3, 2, 't', 'c', 'o'))
    for i, (K1, f1, B1, L1) in enumerate(allm):
        K2, f2, _, L2 = allm[(i * 11 + 5) % len(allm)]
        x, y, z = M(K1, f1, 'x', 'a', 2, 2, B1, L1), M(K2, f2, 'y', 'b', 2, 3, B1, L2), M(K1, f2, 'z', 'c', 3, 2, B1, L2)
        g.t(c3, x.tag + '_' + y.tag + 'l', '%s%s%s emitm<2,2>(o, %s*%s*%s);' % (x.decl, y.decl, z.decl, x.expr, y.expr, z.expr))
        g.t(c3, x.tag + '_' + y.tag + 'r', '%s%s%s emitm<2,2>(o, %s*(%s*%s));' % (x.decl, y.decl, z.decl, x.expr, y.expr, z.expr))
    # matrix * vector, vector * matrix
    allv = [(k, f) for k in CKINDS for f in VF if not (f in ('row', 'col') and k in ('KC', 'KY'))]
    for (r, c) in ((1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (1, 3), (3, 1), (5, 9), (9, 6)) + tuple(cutoff.shapes(130)) + (((5, 2), (2, 5), (6, 6)) if full else ()):
        g.thin = 1 if r < 5 and c < 10 or full else 5 if r + c < 20 else 31
        mv, vm = 'mv_%d%d' % (r, c), 'vm_%d%d' % (r, c)
        g.case(mv, (r * c, c), (r,), 'for(int i=0;i<%d;++i) { double s=0; for(int k=0;k<%d;++k) s+=a[i*%d+k]*b[k]; o[i]=s; }' % (r, c, c))
        g.case(vm, (r * c, r), (c,), 'for(int j=0;j<%d;++j) { double s=0; for(int k=0;k<%d;++k) s+=b[k]*a[k*%d+j]; o[j]=s; }' % (c, r, c))
        for i, (K1, f1, B1, L1) in enumerate(allm):
            k2, f2 = allv[(i * 5 + rot) % len(allv)]
            rot += 1
            if not full and i % 2 == r % 2 and (r, c) not in ((2, 3), (3, 3)):
                continue
            x, y = M(K1, f1, 'x', 'a', r, c, B1, L1), V(k2, f2, 'y', 'b', c)
            g.t(mv, x.tag + '_' + y.tag, '%s%s emitv<%d>(o, %s*%s);' % (x.decl, y.decl, r, x.expr, y.expr))
            y = V(k2, f2, 'y', 'b', r)
            g.t(vm, x.tag + '_' + y.tag, '%s%s emitv<%d>(o, %s*%s);' % (x.decl, y.decl, c, y.expr, x.expr))
    g.thin = 1
    # mixed element types
    for (E1, E2) in (('int', 'double'), ('double', 'int'), ('float', 'double'), ('double', 'float')):
        cv = {'int': '(double)(int)', 'double': '', 'float': ''}
        t = E1 + E2
        g.case('mmx' + t, (6, 6), (4,), 'double p[6],q[6]; for(int i=0;i<6;++i) { p[i]=%sa[i]; q[i]=%sb[i]; }' % (cv[E1], cv[E2]) + prod(2, 3, 2, 'p', 'q'))
        g.case('mvx' + t, (6, 3), (2,), 'for(int i=0;i<2;++i) { o[i]=0; for(int k=0;k<3;++k) o[i]+=%sa[i*3+k]*%sb[k]; }' % (cv[E1], cv[E2]))
        g.case('vmx' + t, (2, 6), (3,), 'for(int j=0;j<3;++j) { o[j]=0; for(int k=0;k<2;++k) o[j]+=%sa[k]*%sb[k*3+j]; }' % (cv[E1], cv[E2]))
        for K1 in KINDS:
            for L1 in LAYOUTS:
                s = SHORT[K1] + SHORT[L1]
                x, y = M(K1, 'lv', 'x', 'a', 2, 3, RC[0], L1, E1), M('KF', 'lv', 'y', 'b', 3, 2, RC[0], LAYOUTS[0], E2)
                g.t('mmx' + t, s, '%s%s emitm<2,2>(o, %s*%s);' % (x.decl, y.decl, x.expr, y.expr))
                y = V('KD', 'lv', 'y', 'b', 3, E2)
                g.t('mvx' + t, s, '%s%s emitv<2>(o, %s*%s);' % (x.decl, y.decl, x.expr, y.expr))
                x, y = M(K1, 'lv', 'x', 'b', 2, 3, RC[0], L1, E2), V('KF', 'lv', 'y', 'a', 2, E1)
                g.t('vmx' + t, s, '%s%s emitv<3>(o, %s*%s);' % (x.decl, y.decl, y.expr, x.expr))
    rep.values(g)
