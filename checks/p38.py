"""Whole-object setters and generators set every element."""
import cutoff
from harness import Gen
from ops import *
from p32 import vbind, mbind

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    sizes = (1, 2, 3, 4, 5, 10) + ((6, 9) if full else ()) + tuple(n for n in cutoff.above() if n not in (6, 9, 10))
    WK = ['KF', 'KD', 'KE', 'KX', 'KXr']
    def vput(cs, K, tag, n, body):
        """run body on x (loaded from a), read everything back, guards included"""
        if K in ('KF', 'KD'):
            g.t(cs, K + tag, vbind(K, n) + body + ' if(x.size()!=%d) throw bad_size{0}; for(int k=0;k<%d;++k) o[k+1]=x.data()[k]; o[0]=71.; o[%d]=72.;' % (n, n, n + 1))
        else:
            g.t(cs, K + tag, vbind(K, n) + body + ' for(int k=0;k<%d;++k) o[k]=buf[k];' % (n + 2))
    GR = 'o[0]=71.; o[%d]=72.; '
    k = 0
    for n in sizes:
        g.thin, g.keep = (1, 0) if n < 11 else (19, 10)
        gr = GR % (n + 1)
        F = 'for(int k=0;k<%d;++k) ' % n
        g.case('vz%d' % n, (n,), (n + 2,), gr + F + 'o[k+1]=0;')
        g.case('vf%d' % n, (n, 1), (n + 2,), gr + F + 'o[k+1]=b[0];')
        g.case('vmin%d' % n, (n, n), (n + 2,), gr + F + 'o[k+1]=a[k]<b[k]?a[k]:b[k];')
        g.case('vmax%d' % n, (n, n), (n + 2,), gr + F + 'o[k+1]=a[k]>b[k]?a[k]:b[k];')
        g.case('vset%d' % n, (n, n), (n + 2,), gr + F + 'o[k+1]=b[k];')
        ex = ', '.join('b[%d]' % q for q in range(n))
        for i in range(n):
            g.case('vc%d_%d' % (n, i), (n,), (n + 2,), gr + F + 'o[k+1]=k==%d;' % i)
        for K in WK:
            vput('vz%d' % n, K, 'l', n, 'auto& y=x.zero(); if(&y!=&x) throw 1;')
            vput('vz%d' % n, K, 'r', n, 'std::move(x).zero();')
            vput('vf%d' % n, K, 'l', n, 'auto& y=x.fill(b[0]); if(&y!=&x) throw 1;')
            vput('vf%d' % n, K, 'r', n, 'std::move(x).fill(b[0]);')
            for i in range(n):
                vput('vc%d_%d' % (n, i), K, 'l', n, 'auto& y=x.cardinal(%d); if(&y!=&x) throw 1;' % i)
                vput('vc%d_%d' % (n, i), K, 'r', n, 'std::move(x).cardinal(%d);' % i)
            vput('vset%d' % n, K, 'l', n, 'x.set(%s);' % ex)
            vput('vset%d' % n, K, 'r', n, 'std::move(x).set(%s);' % ex)
            vput('vset%d' % n, K, 'a', n, 'x=b;')
            vput('vset%d' % n, K, 'ar', n, 'std::move(x)=b;')
            vput('vset%d' % n, K, 'i', n, 'x=std::initializer_list<double>{%s};' % ex)
            for K2 in CKINDS:
                for f in VFORMS:
                    k += 1
                    w = V(K2, f, 'w', 'b', n)
                    # moving an external vector rebinds the target to the other buffer
                    if not (f == 'rv' and K[:2] == K2 and K2 in ('KE', 'KX')):
                        vput('vset%d' % n, K, 'v' + w.tag, n, w.decl + ('x=%s;' if k % 3 else 'std::move(x)=%s;') % w.expr)
                    if not full and k % 2:
                        continue
                    vput('vmin%d' % n, K, w.tag, n, w.decl + ('x.minimize(%s);' if k % 4 else 'std::move(x).minimize(%s);') % w.expr)
                    vput('vmax%d' % n, K, w.tag, n, w.decl + ('x.maximize(%s);' if k % 4 else 'std::move(x).maximize(%s);') % w.expr)
            for f in ('row', 'col', 'sub', 'rsub'):
                w = V('KF', f, 'w', 'b', n)
                vput('vset%d' % n, K, 'v' + w.tag, n, w.decl + 'x=%s;' % w.expr)
                vput('vmin%d' % n, K, w.tag, n, w.decl + 'x.minimize(%s);' % w.expr)
                vput('vmax%d' % n, K, w.tag, n, w.decl + 'x.maximize(%s);' % w.expr)
    # vectors made of a shorter one and further elements, two or more
    g.thin = 1
    for n, m in ((1, 1), (2, 1), (2, 2), (3, 1), (1, 3), (3, 2)) + tuple((n, 2) for n in cutoff.above()):
        cs = 'vcat%d%d' % (n, m)
        g.case(cs, (n, m), (n + m,), 'for(int k=0;k<%d;++k) o[k]=a[k]; for(int k=0;k<%d;++k) o[%d+k]=b[k];' % (n, m, n))
        ex = ', '.join('b[%d]' % q for q in range(m))
        for K2 in CKINDS:
            for f in VFORMS + ['row', 'col', 'sub', 'rsub']:
                if K2 in ('KC', 'KY') and f in ('row', 'col'):
                    continue
                w = V(K2, f, 'w', 'a', n)
                for t, ty in (('f', 'compiled<%d>' % (n + m)), ('d', 'dynamic<>')):
                    g.t(cs, t + w.tag, w.decl + 'vector<double,%s> x(%s,%s); emitv<%d>(o,x);' % (ty, w.expr, ex, n + m))
    # ---- matrices
    shapes = [(1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (1, 3), (4, 2), (5, 6)] + ([(5, 5), (3, 6)] if full else []) + cutoff.shapes()
    for (r, c) in shapes:
        g.thin, g.keep = (1, 0) if r + c < 12 else (19, 10)
        N = r * c
        sh = '%d%d' % (r, c)
        gr = 'o[%d]=71.; o[%d]=72.; for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) o[i*%d+j]=' % (N, N + 1, r, c, c)
        g.case('mz' + sh, (N,), (N + 2,), gr + '0;')
        g.case('mi' + sh, (N,), (N + 2,), gr + 'i==j;')
        g.case('mf' + sh, (N, 1), (N + 2,), gr + 'b[0];')
        for i in range(r):
            g.case('mr%s_%d' % (sh, i), (N, c), (N + 2,), gr + 'i==%d?b[j]:a[i*%d+j];' % (i, c))
        for j in range(c):
            g.case('mc%s_%d' % (sh, j), (N, r), (N + 2,), gr + 'j==%d?b[i]:a[i*%d+j];' % (j, c))
        for K in KINDS:
            for B in RC:
                for L in LAYOUTS:
                    t = SHORT[K] + SHORT[B] + SHORT[L]
                    pos = 'i*%d+j' % c if L == 'row_major' else 'j*%d+i' % r
                    def mput(cs, tag, body):
                        src = 'x.data()[%s]' % pos if K in ('KF', 'KD') else 'buf[1+%s]' % pos
                        gd = 'o[%d]=71.; o[%d]=72.;' % (N, N + 1) if K in ('KF', 'KD') else 'o[%d]=buf[0]; o[%d]=buf[%d];' % (N, N + 1, N + 1)
                        g.t(cs, t + tag, mbind(K, r, c, B, L) + body + ' if(x.rows()!=%d||x.cols()!=%d) throw bad_shape{0,0}; for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) o[i*%d+j]=%s; %s' % (r, c, r, c, c, src, gd))
                    mput('mz' + sh, 'l', 'auto& y=x.zero(); if(&y!=&x) throw 1;')
                    mput('mz' + sh, 'r', 'std::move(x).zero();')
                    mput('mi' + sh, 'l', 'auto& y=x.identity(); if(&y!=&x) throw 1;')
                    mput('mi' + sh, 'r', 'std::move(x).identity();')
                    mput('mf' + sh, 'l', 'auto& y=x.fill(b[0]); if(&y!=&x) throw 1;')
                    mput('mf' + sh, 'r', 'std::move(x).fill(b[0]);')
                    for i in range(r):
                        k += 1
                        w = V(CKINDS[k % 6], VFORMS[k // 6 % 4], 'w', 'b', c)
                        mput('mr%s_%d' % (sh, i), 's', w.decl + ('x.set_row(%d,%s);' if k % 2 else 'std::move(x).set_row(%d,%s);') % (i, w.expr))
                    for j in range(c):
                        k += 1
                        w = V(CKINDS[k % 6], VFORMS[k // 6 % 4], 'w', 'b', r)
                        mput('mc%s_%d' % (sh, j), 's', w.decl + ('x.set_col(%d,%s);' if k % 2 else 'std::move(x).set_col(%d,%s);') % (j, w.expr))
    g.thin = 1
    for (r, c) in ((2, 2), (3, 3), (4, 4), (2, 3), (3, 2), (5, 5)):
        g.case('gz%d%d' % (r, c), (1,), (r * c,), 'for(int k=0;k<%d;++k) o[k]=0;' % (r * c))
        g.case('gi%d%d' % (r, c), (1,), (r * c,), 'for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) o[i*%d+j]=i==j;' % (r, c, c))
        for q, (z, i) in enumerate([('zero<%d,%d>()' % (r, c), 'identity<%d,%d>()' % (r, c))] + ([('zero_%dx%d()' % (r, r), 'identity_%dx%d()' % (r, r))] if r == c and r < 5 else [])):
            g.t('gz%d%d' % (r, c), 'c%d' % q, 'auto x=%s; emitm<%d,%d>(o,x);' % (z, r, c))
            g.t('gi%d%d' % (r, c), 'c%d' % q, 'auto x=%s; emitm<%d,%d>(o,x);' % (i, r, c))
    # ---- quaternions
    g.case('qz', (4,), (4,), 'for(int k=0;k<4;++k) o[k]=0;')
    g.case('qi', (4,), (4,), 'o[0]=1; o[1]=o[2]=o[3]=0;')
    g.case('qs', (4, 3, 1), (4,), 'o[0]=c[0]; for(int k=0;k<3;++k) o[1+k]=b[k];')
    for od in ORDERS:
        for cr in CROSSES:
            d = 'quat<double,%s,%s> xh(a); auto& x=xh.v; ' % (od, cr)
            t = SHORT[od] + SHORT[cr]
            g.t('qz', t + 'l', d + 'auto& y=x.zero(); if(&y!=&x) throw 1; emitq(o,x);')
            g.t('qz', t + 'r', d + 'std::move(x).zero(); emitq(o,x);')
            g.t('qi', t + 'l', d + 'auto& y=x.identity(); if(&y!=&x) throw 1; emitq(o,x);')
            g.t('qi', t + 'r', d + 'std::move(x).identity(); emitq(o,x);')
            for K in CKINDS:
                for f in VFORMS + ['row', 'col', 'sub', 'rsub']:
                    if K in ('KC', 'KY') and f in ('row', 'col'):
                        continue
                    w = V(K, f, 'w', 'b', 3)
                    for q, call in enumerate(('x.set(%s,c[0]);', 'x.set(c[0],%s);', 'std::move(x).set(%s,c[0]);', 'std::move(x).set(c[0],%s);')):
                        g.t('qs', t + w.tag + 's%d' % q, d + w.decl + call % w.expr + ' emitq(o,x);')
                    for q, call in enumerate(('(%s,c[0])', '(c[0],%s)')):
                        g.t('qs', t + w.tag + 'c%d' % q, w.decl + 'quaternion<double,fixed<>,%s,%s> x' % (od, cr) + call % w.expr + '; emitq(o,x);')
            g.t('qs', t + 'arr', 'quaternion<double,fixed<>,%s,%s> x(b,c[0]); emitq(o,x);' % (od, cr))
            g.t('qs', t + 'arl', 'quaternion<double,fixed<>,%s,%s> x(c[0],b); emitq(o,x);' % (od, cr))
            e4 = 'c[0],b[0],b[1],b[2]' if od == 'real_first' else 'b[0],b[1],b[2],c[0]'
            g.t('qs', t + 'el', 'quaternion<double,fixed<>,%s,%s> x(%s); emitq(o,x);' % (od, cr, e4))
            g.t('qs', t + 'il', 'quaternion<double,fixed<>,%s,%s> x=std::initializer_list<double>{%s}; emitq(o,x);' % (od, cr, e4))
            g.t('qs', t + 'ia', d + 'x=std::initializer_list<double>{%s}; emitq(o,x);' % e4)
            g.t('qs', t + 'aa', d + 'double z[4]={%s}; x=z; emitq(o,x);' % e4)
            g.t('qs', t + 'ap', 'double z[4]={%s}; const double* p=z; quaternion<double,fixed<>,%s,%s> x(p); emitq(o,x);' % (e4, od, cr))
    # ---- assignment through the base class
    for K in KINDS:
        g.case('bv', (3, 3), (3,), 'for(int i=0;i<3;++i) o[i]=b[i];')
        g.case('bm', (6, 6), (6,), 'for(int i=0;i<6;++i) o[i]=b[i];')
        for K2 in CKINDS:
            for f in VFORMS:
                y = V(K2, f, 'y', 'b', 3)
                g.t('bv', SHORT[K] + y.tag, 'vec<%s,double,3> x(a); ' % K + y.decl + ' auto w=[](auto& p)->writable_vector<std::decay_t<decltype(p)>>& { return p; }; w(x.v)=%s; emitv<3>(o,x.v);' % y.expr)
        for B in RC:
            for L in LAYOUTS:
                for f in VFORMS:
                    y = M(KINDS[(KINDS.index(K) + VFORMS.index(f)) % 4], f, 'y', 'b', 2, 3, B, LAYOUTS[L == LAYOUTS[0]])
                    g.t('bm', SHORT[K] + SHORT[B] + SHORT[L] + y.tag, 'mat<%s,double,2,3,%s,%s> x(a); ' % (K, B, L) + y.decl + ' auto w=[](auto& p)->writable_matrix<std::decay_t<decltype(p)>>& { return p; }; w(x.v)=%s; emitm<2,3>(o,x.v);' % y.expr)
    g.case('bq', (4, 4), (4,), 'for(int i=0;i<4;++i) o[i]=b[i];')
    for od in ORDERS:
        for cx in CROSSES:
            for f in VFORMS:
                y = Q(f, 'y', 'b', ORDERS[od == ORDERS[0]], cx)
                g.t('bq', SHORT[od] + y.tag, 'quat<double,%s,%s> x(a); ' % (od, cx) + y.decl + ' auto w=[](auto& p)->writable_quaternion<std::decay_t<decltype(p)>>& { return p; }; w(x.v)=%s; emitq(o,x.v);' % y.expr)
    rep.values(g)
