import cutoff
from harness import Gen
from ops import *

def setup(K, nm, r, c, B, L, arr=None, E='double'):
    """a matrix of kind K to be assigned: holds 9s"""
    return 'double %s_z[%d]; for(int k=0;k<%d;++k) %s_z[k]=9; mat<%s,%s,%d,%d,%s,%s> %s(%s_z);' % (nm, r * c, r * c, nm, K, E, r, c, B, L, nm, nm)

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    shapes = [(1, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (3, 4), (4, 4), (5, 6), (9, 2)] + ([(3, 3), (5, 2), (2, 5), (1, 6), (6, 6), (5, 5), (4, 3)] if full else []) + cutoff.shapes()
    shapes = list(dict.fromkeys(shapes))
    allm = [(k, f, B, L) for k in KINDS for f in VFORMS + ['tr', 'trr'] for B in RC for L in LAYOUTS]
    rot = 0
    for (r, c) in shapes:
        g.thin = 1 if r < 5 or full and c != 2 else 7
        n = r * c
        sh = '%d%d' % (r, c)
        ident = 'for(int k=0;k<%d;++k) o[k]=a[k];' % n
        g.case('el' + sh, (n,), (n,), ident)
        for L in LAYOUTS:
            pos = 'for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) o[%s]=a[i*%d+j];' % (r, c, 'i*%d+j' % c if L == 'row_major' else 'j*%d+i' % r, c)
            cs = 'mem%s%s' % (sh, SHORT[L])
            g.case(cs, (n,), (n,), pos)
            for B in RC:
                for K in KINDS:
                    x = M(K, 'lv', 'x', 'a', r, c, B, L)
                    t = SHORT[K] + SHORT[B][0]
                    g.t(cs, t + 'data', x.decl + 'for(int k=0;k<%d;++k) o[k]=x.v.data()[k];' % n)
                    g.t(cs, t + 'cdata', x.decl + 'const auto& y=x.v; for(int k=0;k<%d;++k) o[k]=y.data()[k];' % n)
                    g.t(cs, t + 'iter', x.decl + 'const auto& y=x.v; if(y.end()-y.begin()!=%d) throw bad_size{int(y.end()-y.begin())}; int k=0; for(auto p=y.begin();p!=y.end();++p) o[k++]=*p;' % n)
                    for w, st in (('put', 'y.v.put(i,j,a[i*%d+j])' % c), ('call', 'y.v(i,j)=a[i*%d+j]' % c), ('get', 'y.v.get(i,j)=a[i*%d+j]' % c)):
                        g.t(cs, t + 'w' + w, setup(K, 'y', r, c, B, L) + 'for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) %s; for(int k=0;k<%d;++k) o[k]=y.v.data()[k];' % (r, c, st, n))
        # reading raw memory as a matrix
        for L in LAYOUTS:
            cs = 'raw%s%s' % (sh, SHORT[L])
            g.case(cs, (n,), (n,), 'for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) o[i*%d+j]=a[%s];' % (r, c, c, 'i*%d+j' % c if L == 'row_major' else 'j*%d+i' % r))
            for B in RC:
                b = SHORT[B][0]
                cp = 'double d[%d]; for(int k=0;k<%d;++k) d[k]=a[k]; ' % (n, n)
                g.t(cs, b + 'f', 'matrix<double,compiled<%d,%d>,%s,%s> m; for(int k=0;k<%d;++k) m.data()[k]=a[k]; emitm<%d,%d>(o,m);' % (r, c, B, L, n, r, c))
                g.t(cs, b + 'd', 'matrix<double,dynamic<>,%s,%s> m(%d,%d); for(int k=0;k<%d;++k) m.data()[k]=a[k]; emitm<%d,%d>(o,m);' % (B, L, r, c, n, r, c))
                g.t(cs, b + 'e', cp + 'matrix<double,external<%d,%d>,%s,%s> m(d); emitm<%d,%d>(o,m);' % (r, c, B, L, r, c))
                g.t(cs, b + 'x', cp + 'matrix<double,external<>,%s,%s> m(d,%d,%d); emitm<%d,%d>(o,m);' % (B, L, r, c, r, c))
                g.t(cs, b + 'xn', cp + 'matrix<double,external<>,%s,%s> m(%d,%d,d); emitm<%d,%d>(o,m);' % (B, L, r, c, r, c))
                s2 = (r, c) if L == 'row_major' else (c, r)
                cp2 = 'double d[%d][%d]; for(int k=0;k<%d;++k) (&d[0][0])[k]=a[k]; ' % (s2 + (n,))
                g.t(cs, b + 'x2', cp2 + 'matrix<double,external<>,%s,%s> m(d); emitm<%d,%d>(o,m);' % (B, L, r, c))
                g.t(cs, b + 'e2', cp2 + 'matrix<double,external<%d,%d>,%s,%s> m(d); emitm<%d,%d>(o,m);' % (r, c, B, L, r, c))
                # moves of external matrices carry the shape
                g.t(cs, b + 'em', cp + 'matrix<double,external<%d,%d>,%s,%s> m(d); auto w=std::move(m); emitm<%d,%d>(o,w);' % (r, c, B, L, r, c))
                g.t(cs, b + 'xm', cp + 'matrix<double,external<>,%s,%s> m(d,%d,%d); auto w=std::move(m); emitm<%d,%d>(o,w);' % (B, L, r, c, r, c))
                g.t(cs, b + 'xma', cp + 'matrix<double,external<>,%s,%s> m(d,%d,%d), w; w=std::move(m); emitm<%d,%d>(o,w);' % (B, L, r, c, r, c))
        # conversions between every kind, form and memory order
        cs = 'el' + sh
        for i, (K1, f1, B1, L1) in enumerate(allm):
            for K2 in ('KF', 'KD'):
                L2 = LAYOUTS[(i + rot) % 2]; B2 = RC[(i // 2 + rot) % 2]
                x = M(K1, f1, 'x', 'a', r, c, B1, L1)
                t = x.tag + SHORT[K2] + SHORT[B2][0] + SHORT[L2][0]
                ty = 'typename mat<%s,double,%d,%d,%s,%s>::type' % (K2, r, c, B2, L2)
                g.t(cs, 'ctor' + t, x.decl + '%s w(%s); emitm<%d,%d>(o,w);' % (ty.replace('typename ', ''), x.expr, r, c))
            for K2 in KINDS:
                L2 = LAYOUTS[(i + rot + 1) % 2]; B2 = RC[(i // 3 + rot) % 2]
                rot += 1
                x = M(K1, f1, 'x', 'a', r, c, B1, L1)
                t = x.tag + SHORT[K2] + SHORT[B2][0] + SHORT[L2][0]
                g.t(cs, 'asg' + t, x.decl + setup(K2, 'w', r, c, B2, L2) + 'w.v = %s; emitm<%d,%d>(o,w.v);' % (x.expr, r, c))
            rot += 1
        for B in RC:
            for L in LAYOUTS:
                tg = SHORT[B][0] + SHORT[L][0]
                tyf, tyd = 'matrix<double,compiled<%d,%d>,%s,%s>' % (r, c, B, L), 'matrix<double,dynamic<>,%s,%s>' % (B, L)
                ex = ', '.join('a[%d]' % k for k in range(n))
                cp = 'double p[%d][%d]; for(int k=0;k<%d;++k) (&p[0][0])[k]=a[k]; double q[%d]; for(int k=0;k<%d;++k) q[k]=a[k]; const double* pp=q; ' % (r, c, n, n, n)
                em = ' emitm<%d,%d>(o,w);' % (r, c)
                for t, b in (('fel', tyf + ' w(%s);' % ex), ('fil', tyf + ' w({%s});' % ex if n > 1 else tyf + ' w{%s};' % ex), ('fa', tyf + ' w(a);'), ('f2', tyf + ' w(p);'), ('fp', tyf + ' w(pp);'),
                             ('del', tyd + ' w(%d,%d,%s);' % (r, c, ex)), ('da', tyd + ' w(%d,%d,a);' % (r, c)), ('d2', tyd + ' w(p);'), ('dp', tyd + ' w(%d,%d,pp);' % (r, c)), ('dpr', tyd + ' w(pp,%d,%d);' % (r, c)),
                             ('fcpy', tyf + ' w0(a); auto w=w0;'), ('fmov', tyf + ' w0(a); auto w=std::move(w0);'), ('fcpa', tyf + ' w0(a), w; w=w0;'), ('fmva', tyf + ' w0(a), w; w=std::move(w0);'),
                             ('dcpy', tyd + ' w0(p); auto w=w0;'), ('dmov', tyd + ' w0(p); auto w=std::move(w0);'), ('dcpa', tyd + ' w0(p), w; w=w0;'), ('dmva', tyd + ' w0(p), w; w=std::move(w0);'),
                             ('dres', tyd + ' w; w.resize(%d,%d); w=p;' % (c, r)), ('dcpr', tyd + ' w0(p), w(%d,%d); w=w0;' % (r + 1, c + 2)), ('dmvr', tyd + ' w0(p), w(%d,%d); w=std::move(w0);' % (r + 1, c))):
                    g.t(cs, t + tg, cp + b + em)
                for K in KINDS:
                    if K == 'KD':
                        pre = 'mat<KD,double,%d,%d,%s,%s> w0(q); auto& w=w0.v; ' % (r, c, B, L)
                    else:
                        pre = setup(K, 'w0', r, c, B, L) + 'auto& w=w0.v; '
                    for t, b in (('ia', 'w={%s};' % ex), ('ra', 'w=a;'), ('r2', 'w=p;'), ('mia', 'std::move(w)={%s};' % ex), ('mra', 'std::move(w)=a;'), ('mr2', 'std::move(w)=p;')):
                        if n == 1 and t in ('ia', 'mia'):
                            b = b.replace('={', '=std::initializer_list<double>{')
                        g.t(cs, t + SHORT[K] + tg, cp + pre + b + em)
    g.thin = 1
    # element conversions
    for E1, E2 in (('float', 'double'), ('int', 'double'), ('double', 'float'), ('double', 'int'), ('int', 'float')):
        cv = '(double)'
        for t in (E1, E2):
            pass
        g.case('cv' + E1 + E2, (6,), (6,), 'for(int k=0;k<6;++k) o[k]=(double)(%s)(%s)a[k];' % (E2, E1) if 'int' in (E1, E2) else 'for(int k=0;k<6;++k) o[k]=a[k];')
        for K1 in KINDS:
            for L1 in LAYOUTS:
                for L2 in LAYOUTS:
                    for K2 in ('KF', 'KD'):
                        x = M(K1, 'lv', 'x', 'a', 2, 3, RC[0], L1, E1)
                        g.t('cv' + E1 + E2, x.tag + SHORT[K2] + SHORT[L2][0], x.decl + 'mat<%s,%s,2,3,row_basis,%s>::type w(x.v); emitm<2,3>(o,w);' % (K2, E2, L2))
    # vectors: order of elements in memory, every way of loading one
    for n in (1, 2, 3, 4, 9) + ((5, 7) if full else ()) + tuple(n for n in cutoff.above() if n not in (5, 7, 9)):
        g.thin = 1
        cs = 've%d' % n
        g.case(cs, (n,), (n,), 'for(int k=0;k<%d;++k) o[k]=a[k];' % n)
        ex = ', '.join('a[%d]' % k for k in range(n))
        tyf, tyd = 'vector<double,compiled<%d>>' % n, 'vector<double,dynamic<>>'
        cp = 'double q[%d]; for(int k=0;k<%d;++k) q[k]=a[k]; const double* pp=q; ' % (n, n)
        em = ' emitv<%d>(o,w);' % n
        L = [('fel', tyf + ' w(%s);' % ex), ('fa', tyf + ' w(a);'), ('fp', tyf + ' w(pp);'), ('fil', tyf + ' w=std::initializer_list<double>{%s};' % ex),
             ('da', tyd + ' w(a);'), ('dp', tyd + ' w(pp,%d);' % n), ('dpr', tyd + ' w(%d,pp);' % n), ('dil', tyd + ' w=std::initializer_list<double>{%s};' % ex),
             ('fcpy', tyf + ' w0(a); auto w=w0;'), ('fmov', tyf + ' w0(a); auto w=std::move(w0);'), ('fcpa', tyf + ' w0(a), w; w=w0;'), ('fmva', tyf + ' w0(a), w; w=std::move(w0);'),
             ('dcpy', tyd + ' w0(a); auto w=w0;'), ('dmov', tyd + ' w0(a); auto w=std::move(w0);'), ('dcpa', tyd + ' w0(a), w; w=w0;'), ('dmva', tyd + ' w0(a), w; w=std::move(w0);'),
             ('dcpr', tyd + ' w0(a), w(%d); w=w0;' % (n + 2)), ('dmvr', tyd + ' w0(a), w(%d); w=std::move(w0);' % (n + 1)),
             ('drs', tyd + ' w(%d); w.resize(%d); w=a;' % (n + 1, n)), ('drf', tyd + ' w(%d); w.resize_fast(%d); w=a;' % (n + 1, n)),
             ('eptr', 'vector<double,external<%d>> w(q);' % n), ('xptr', 'vector<double,external<>> w(q,%d);' % n), ('xptn', 'vector<double,external<>> w(%d,q);' % n),
             ('ecp', 'vector<double,external<%d>> w0(q); auto w=w0;' % n), ('emv', 'vector<double,external<%d>> w0(q); auto w=std::move(w0);' % n),
             ('xcp', 'vector<double,external<>> w0(q,%d); auto w=w0;' % n), ('xmv', 'vector<double,external<>> w0(q,%d); auto w=std::move(w0);' % n),
             ('kptr', 'vector<const double,external<%d>> w(pp);' % n), ('yptr', 'vector<const double,external<>> w(pp,%d);' % n), ('yptn', 'vector<const double,external<>> w(%d,pp);' % n),
             ('kmv', 'vector<const double,external<%d>> w0(pp); auto w=std::move(w0);' % n), ('ymv', 'vector<const double,external<>> w0(pp,%d); auto w=std::move(w0);' % n)]
        if n > 1:
            L += [('del', tyd + ' w(%s);' % ex), ('fsub', tyf + ' w(vector<double,compiled<%d>>(pp), a[%d]);' % (n - 1, n - 1)), ('dsub', tyd + ' w(vector<double,compiled<%d>>(pp), a[%d]);' % (n - 1, n - 1)),
                  ('fsubd', tyf + ' w(vector<double,dynamic<>>(pp,%d), a[%d]);' % (n - 1, n - 1)), ('dsubd', tyd + ' w(vector<double,dynamic<>>(pp,%d), a[%d]);' % (n - 1, n - 1))]
        if n > 2:
            L += [('fsub2', tyf + ' w(vector<double,compiled<%d>>(pp), a[%d], a[%d]);' % (n - 2, n - 2, n - 1)), ('dsub2', tyd + ' w(vector<double,compiled<%d>>(pp), a[%d], a[%d]);' % (n - 2, n - 2, n - 1))]
        for t, b in L:
            g.t(cs, t, cp + b + em)
        for K in KINDS:
            pre = 'double zz[%d]={}; vec<%s,double,%d> w0(zz); auto& w=w0.v; ' % (n, K, n)
            for t, b in (('set', 'w.set(%s);' % ex), ('ra', 'w=a;'), ('ia', 'w=std::initializer_list<double>{%s};' % ex), ('mset', 'std::move(w).set(%s);' % ex), ('mra', 'std::move(w)=a;'),
                         ('mia', 'std::move(w)=std::initializer_list<double>{%s};' % ex), ('dat', 'for(int k=0;k<%d;++k) w.data()[k]=a[k];' % n), ('idx', 'for(int k=0;k<%d;++k) w[k]=a[k];' % n)):
                g.t(cs, t + SHORT[K], cp + pre + b + em)
            g.t(cs, 'rd' + SHORT[K], 'vec<%s,double,%d> w(a); for(int k=0;k<%d;++k) o[k]=w.v.data()[k];' % (K, n, n))
            g.t(cs, 'it' + SHORT[K], 'vec<%s,double,%d> w(a); const auto& y=w.v; if(y.end()-y.begin()!=%d) throw bad_size{0}; int k=0; for(auto p=y.begin();p!=y.end();++p) o[k++]=*p;' % (K, n, n))
            for k2 in CKINDS:
                for f in VFORMS:
                    x = V(k2, f, 'x', 'a', n)
                    g.t(cs, 'as' + SHORT[K] + x.tag, cp + pre + x.decl + 'w = %s;' % x.expr + em)
    rep.values(g)
