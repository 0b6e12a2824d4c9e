import itertools
import random
import cutoff
from harness import Gen
from ops import *
from p09 import dyadic, filled

def luref(n):
    """Doolittle: z -> z, unit lower and upper factor"""
    return ('for(int k=0;k<{n};++k) for(int i=k+1;i<{n};++i) {{ z[i*{n}+k]/=z[k*{n}+k]; '
            'for(int j=k+1;j<{n};++j) z[i*{n}+j]-=z[i*{n}+k]*z[k*{n}+j]; }} ').format(n=n)

def pivref(n):
    return ('int p[{n}]; for(int i=0;i<{n};++i) p[i]=i; int s=1; for(int k=0;k<{n}-1&&s;++k) {{ int r=k; for(int i=k+1;i<{n};++i) if(std::fabs(z[i*{n}+k])>std::fabs(z[r*{n}+k])) r=i; '
            'if(std::fabs(z[r*{n}+k])<cml::scalar_traits<double>::epsilon()) {{ s=0; break; }} '
            'if(r!=k) {{ s=-s; int t=p[k]; p[k]=p[r]; p[r]=t; for(int j=0;j<{n};++j) {{ double u=z[k*{n}+j]; z[k*{n}+j]=z[r*{n}+j]; z[r*{n}+j]=u; }} }} '
            'for(int i=k+1;i<{n};++i) {{ z[i*{n}+k]/=z[k*{n}+k]; for(int j=k+1;j<{n};++j) z[i*{n}+j]-=z[i*{n}+k]*z[k*{n}+j]; }} }} ').format(n=n)

def solref(n, z, b, o, perm=''):
    """y, x by substitution"""
    return ('double y[{n}]; for(int i=0;i<{n};++i) {{ double s=0; for(int j=0;j<i;++j) s+={z}[i*{n}+j]*y[j]; y[i]={b}[{p}]-s; }} '
            'for(int i={n}-1;i>=0;--i) {{ double s=0; for(int j=i+1;j<{n};++j) s+={z}[i*{n}+j]*{o}[j]; {o}[i]=(y[i]-s)/{z}[i*{n}+i]; }} ').format(n=n, z=z, b=b, o=o, p=perm or 'i')

def emitlup(n):
    return 'if(e.order.size()!=%d) throw bad_size{0}; if(e.sign==0) { for(int i=0;i<%d;++i) o[i]=0; } else { emitm<%d,%d>(*(double(*)[%d])&o[0],e.lu); for(int i=0;i<%d;++i) o[%d+i]=e.order[i]; o[%d]=e.sign; }' % (n, n * n + n + 1, n, n, n * n, n, n * n, n * n + n)

def outlup(n):
    return 'if(s==0) { for(int i=0;i<%d;++i) o[i]=0; } else { for(int i=0;i<%d;++i) o[i]=z[i]; for(int i=0;i<%d;++i) o[%d+i]=p[i]; o[%d]=s; }' % (n * n + n + 1, n * n, n, n * n, n * n + n)

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    allm = [(k, f, B, L) for k in KINDS for f in VFORMS + ['tr'] for B in RC for L in LAYOUTS]
    for n in (1, 2, 3, 4) + ((5,) if full else ()):
        sq = n * n
        cp = 'double z[%d]; for(int i=0;i<%d;++i) z[i]=a[i]; ' % (sq, sq)
        g.case('lu%d' % n, (sq,), (sq,), cp + luref(n) + 'for(int i=0;i<%d;++i) o[i]=z[i];' % sq)
        # the factors multiply back to the matrix
        if n <= 3:
            g.case('fac%d' % n, (sq,), (sq,), 'for(int i=0;i<%d;++i) o[i]=a[i];' % sq)
            g.case('fix%d' % n, (sq, n), (n,), 'for(int i=0;i<%d;++i) o[i]=b[i];' % n)
        g.case('sol%d' % n, (sq, n), (n,), solref(n, 'a', 'b', 'o'))
        if n <= 3:
            g.case('piv%d' % n, (sq,), (sq + n + 1,), cp + pivref(n) + outlup(n))
        for k, (K, f, B, L) in enumerate(allm):
            x = M(K, f, 'x', 'a', n, n, B, L)
            t = x.tag
            g.t('lu%d' % n, t, x.decl + 'emitm<%d,%d>(o, lu(%s));' % (n, n, x.expr))
            if n <= 3:
                mm = 'auto LU=lu(%s); ' % x.expr
                g.t('fac%d' % n, t, x.decl + mm + 'for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) { double s=0; for(int k=0;k<=i&&k<=j;++k) s+=(k==i?1.:LU(i,k))*LU(k,j); o[i*%d+j]=s; }' % (n, n, n))
            if n <= 3:
                if n < 3 or full or f in ('lv', 'ex') or k % 4 == 1:
                    g.t('piv%d' % n, t, x.decl + 'auto e=lu_pivot(%s); ' % x.expr + emitlup(n))
                if f == 'lv' and K in ('KF', 'KD'):
                    g.t('piv%d' % n, 'r' + t, x.decl + 'cml::lu_pivot_result<decltype(x)::type> e(x.v); lu_pivot(e); ' + emitlup(n))
            # solving: the factors in x, the right-hand side of every kind
            kb = CKINDS[(k + n) % 6]
            fb = VFORMS[(k // 5) % 4]
            b = V(kb, fb, 'y', 'b', n)
            g.t('sol%d' % n, t + b.tag, x.decl + b.decl + 'emitv<%d>(o, lu_solve(%s,%s));' % (n, x.expr, b.expr))
            kx = KINDS[(k // 3) % 4]
            w = 'double w0[%d]={%s}; vec<%s,double,%d> w(w0); ' % (n, ','.join('vf_any(%d)' % z for z in range(n)), kx, n)
            g.t('sol%d' % n, 'w' + t + b.tag + SHORT[kx], x.decl + b.decl + w + 'lu_solve(%s,w.v,%s); emitv<%d>(o, w.v);' % (x.expr, b.expr, n))
            if f == 'lv':
                g.t('sol%d' % n, 'al' + t, x.decl + 'vec<%s,double,%d> w(b); lu_solve(x.v,w.v,w.v); emitv<%d>(o, w.v);' % (kx, n, n))
                if n <= 3:
                    g.t('fix%d' % n, t, x.decl + 'vec<%s,double,%d> y(b); auto e=lu_solve(lu(x.v),y.v); for(int i=0;i<%d;++i) { o[i]=0; for(int j=0;j<%d;++j) o[i]+=a[i*%d+j]*e[j]; }' % (kx, n, n, n, n))
        # mixed element types
        g.case('solI%d' % n, (sq, n), (n,), 'double q[%d]; for(int i=0;i<%d;++i) q[i]=(double)(int)b[i]; ' % (n, n) + solref(n, 'a', 'q', 'o'))
        g.case('solFm%d' % n, (sq, n), (n,), solref(n, 'a', 'b', 'o'))
        for K in KINDS:
            d = 'mat<%s,double,%d,%d> x(a); double w0[%d]={}; vec<KF,double,%d> w(w0); ' % (K, n, n, n, n)
            g.t('solI%d' % n, SHORT[K], d + 'vec<%s,int,%d> y(b); lu_solve(x.v,w.v,y.v); emitv<%d>(o,w.v);' % (K, n, n))
            g.t('solFm%d' % n, SHORT[K], d + 'vec<%s,float,%d> y(b); lu_solve(x.v,w.v,y.v); emitv<%d>(o,w.v);' % (K, n, n))
    # pivoted solver: the result structure filled with arbitrary factors and every permutation
    for n in (1, 2, 3, 4):
        sq = n * n
        for q, pm in enumerate(itertools.permutations(range(n))):
            if n == 4 and q % 5 and not full:
                continue
            cs = 'psol%d_%s' % (n, ''.join(map(str, pm)))
            pt = 'static const int p[%d]={%s}; ' % (n, ','.join(map(str, pm)))
            g.case(cs, (sq, n), (n,), 'const int p[%d]={%s}; ' % (n, ','.join(map(str, pm))) + solref(n, 'a', 'b', 'o', 'p[i]'))
            for K in ('KF', 'KD'):
                for L in LAYOUTS:
                    d = 'mat<%s,double,%d,%d,row_basis,%s> x(a); cml::lu_pivot_result<typename decltype(x)::type> e(x.v); ' % (K, n, n, L) + ''.join('e.order[%d]=%d; ' % iv for iv in enumerate(pm))
                    kb = CKINDS[q % 6]
                    for sg in ('1', '-1'):
                        g.t(cs, SHORT[K] + SHORT[L] + ('p' if sg == '1' else 'm'), d + 'e.sign=%s; vec<%s,double,%d> y(b); emitv<%d>(o, lu_solve(e,y.v));' % (sg, kb, n, n))
                    g.t(cs, 'w' + SHORT[K] + SHORT[L], d + 'e.sign=1; vec<%s,double,%d> y(b); double w0[%d]={}; vec<%s,double,%d> w(w0); lu_solve(e,w.v,y.v); emitv<%d>(o, w.v);' % (kb, n, n, KINDS[q % 4], n, n))
                    # a singular factorisation is refused
                    c2 = 'sing%d' % n
                    if c2 not in g.cases:
                        g.case(c2, (sq, n), (n,), 'throw std::invalid_argument("x");')
                    g.t(c2, SHORT[K] + SHORT[L] + 'q%d' % q, d + 'e.sign=0; vec<%s,double,%d> y(b); emitv<%d>(o, lu_solve(e,y.v));' % (kb, n, n))
    # larger sizes: every chosen row exchange pattern, last column (which no pivot depends on) symbolic
    for n in ((4, 5, 6) if full else (4, 5)) + tuple(k for k in cutoff.above(9) if k > 6):
        sq = n * n
        rnd = random.Random(n)
        if n > 6:
            perms = [tuple(rnd.sample(range(n), n)) for _ in range(3)]
        else:
            perms = list(itertools.permutations(range(n)))
            rnd.shuffle(perms)
        perms = list(dict.fromkeys([tuple(range(n)), tuple(reversed(range(n)))] + perms[:(100 if full else 14)]))
        for q, pm in enumerate(perms):
            m = dyadic(n, pm, tuple(range(n)), 7000 * n + q)
            cs = 'pivc%d_%s' % (n, ''.join(map(str, pm)))
            lc = filled(n, m) + ''.join('z[%d]=a[%d]; ' % (i * n + n - 1, i) for i in range(n))
            g.case(cs, (n,), (sq + n + 1,), lc + pivref(n) + outlup(n))
            for K in KINDS:
                L = LAYOUTS[(q + KINDS.index(K)) % 2]
                g.t(cs, SHORT[K], lc + 'mat<%s,double,%d,%d,row_basis,%s> x(z); auto e=lu_pivot(x.v); ' % (K, n, n, L) + emitlup(n))
            c2 = 'pfix%d_%s' % (n, ''.join(map(str, pm)))
            g.case(c2, (n, n), (n,), 'for(int i=0;i<%d;++i) o[i]=b[i];' % n)
            for K in ('KF', 'KD'):
                g.t(c2, SHORT[K], lc + 'mat<%s,double,%d,%d> x(z); vec<%s,double,%d> y(b); auto e=lu_pivot(x.v); auto s=lu_solve(e,y.v); for(int i=0;i<%d;++i) { o[i]=0; for(int j=0;j<%d;++j) o[i]+=z[i*%d+j]*s[j]; }' % (K, n, n, K, n, n, n, n))
        # a column without a pivot is reported
        for k in range(n - 1):
            m = dyadic(n, perms[1], tuple(range(n)), 7000 * n + 777)
            for i in range(n):
                m[i][k] = m[i][k] * 0
            cs = 'psing%d_%d' % (n, k)
            g.case(cs, (n,), (1,), 'o[0]=0;')
            lc = filled(n, m) + ''.join('z[%d]=a[%d]; ' % (i * n + n - 1, i) for i in range(n))
            for K in KINDS:
                g.t(cs, SHORT[K], lc + 'mat<%s,double,%d,%d> x(z); auto e=lu_pivot(x.v); o[0]=e.sign;' % (K, n, n))
    # non-square operands
    for (r, c) in ((1, 2), (2, 3), (3, 2), (4, 3)):
        cs = 'nsq%d%d' % (r, c)
        g.case(cs, (r * c,), (1,), 'throw non_square_matrix_error();')
        for K in ('KD', 'KX'):
            for L in LAYOUTS:
                x = M(K, 'lv', 'x', 'a', r, c, 'row_basis', L)
                g.t(cs, 'l' + x.tag, x.decl + 'auto e=lu(x.v); o[0]=0;')
                g.t(cs, 'p' + x.tag, x.decl + 'auto e=lu_pivot(x.v); o[0]=0;')
                g.t(cs, 's' + x.tag, x.decl + 'double q[%d]={}; vec<KD,double,%d> y(q); auto e=lu_solve(x.v,y.v); o[0]=0;' % (r, r))
    rep.values(g)
