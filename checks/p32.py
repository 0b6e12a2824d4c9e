"""Element access: every accessor reads or writes exactly the addressed element."""
import cutoff
from harness import Gen
from ops import *

def vbind(K, n, nm='x'):
    """an object over guarded memory: declaration, expression, and how to read everything back"""
    if K == 'KF':
        return 'vec<KF,double,%d> %sh(a); auto& %s=%sh.v; ' % (n, nm, nm, nm)
    if K == 'KD':
        return 'vec<KD,double,%d> %sh(a); auto& %s=%sh.v; ' % (n, nm, nm, nm)
    fill = 'double buf[%d]; buf[0]=71.; buf[%d]=72.; for(int k=0;k<%d;++k) buf[k+1]=a[k]; ' % (n + 2, n + 1, n)
    t = {'KE': 'vector<double,external<%d>> %s(buf+1); ' % (n, nm), 'KX': 'vector<double,external<>> %s(buf+1,%d); ' % (nm, n),
         'KXr': 'vector<double,external<>> %s(%d,buf+1); ' % (nm, n),
         'KC': 'vector<const double,external<%d>> %s(buf+1); ' % (n, nm), 'KY': 'vector<const double,external<>> %s(buf+1,%d); ' % (nm, n),
         'KYr': 'vector<const double,external<>> %s(%d,buf+1); ' % (nm, n)}
    return fill + t[K]

def mbind(K, r, c, B, L, nm='x'):
    if K in ('KF', 'KD'):
        return 'mat<%s,double,%d,%d,%s,%s> %sh(a); auto& %s=%sh.v; ' % (K, r, c, B, L, nm, nm, nm)
    n = r * c
    pos = 'i*%d+j' % c if L == 'row_major' else 'j*%d+i' % r
    fill = 'double buf[%d]; buf[0]=71.; buf[%d]=72.; for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) buf[1+%s]=a[i*%d+j]; ' % (n + 2, n + 1, r, c, pos, c)
    if K == 'KE':
        return fill + 'matrix<double,external<%d,%d>,%s,%s> %s(buf+1); ' % (r, c, B, L, nm)
    return fill + 'matrix<double,external<>,%s,%s> %s(buf+1,%d,%d); ' % (B, L, nm, r, c)

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    VK = ['KF', 'KD', 'KE', 'KX', 'KXr', 'KC', 'KY', 'KYr']
    # ---- vectors
    for n in (1, 2, 3, 4, 9) + ((7, 17) if full else ()) + tuple(n for n in cutoff.above() if n not in (7, 9, 17)):
        g.case('vsz%d' % n, (n,), (4,), 'o[0]=%d; o[1]=%d; o[2]=%d; o[3]=%s;' % (n, n, n, '+'.join('a[%d]' % k for k in range(n))))
        for K in VK:
            g.t('vsz%d' % n, K, vbind(K, n) + 'o[0]=x.size(); o[1]=double(x.end()-x.begin()); o[2]=std::as_const(x).size(); double s=0; for(auto e : x) s+=e; o[3]=s;')
        for i in range(n):
            cs = 'vrd%d_%d' % (n, i)
            g.case(cs, (n,), (1,), 'o[0]=a[%d];' % i)
            for K in VK:
                d = vbind(K, n)
                rd = ['x.get(%d)', 'x[%d]', 'std::as_const(x).get(%d)', 'std::as_const(x)[%d]', 'x.data()[%d]', 'std::as_const(x).data()[%d]', '*(x.begin()+%d)',
                      'std::move(x).get(%d)', 'std::move(x)[%d]', '(x*1.)[%d]', '(x+0.*x).get(%d)', '(-(-x))[%d]']
                if K in ('KF', 'KE', 'KC'):
                    rd += ['x.template get<%d>()', 'std::as_const(x).template get<%d>()', '(x*1.).template get<%d>()', 'std::move(x).template get<%d>()']
                for q, e in enumerate(rd):
                    g.t(cs, K + 'r%d' % q, d + 'o[0]=%s;' % (e % i))
                g.t(cs, K + 'rb', d + 'const auto& b=static_cast<const readable_vector<std::decay_t<decltype(x)>>&>(x); o[0]=b.get(%d)+b[%d]-b.actual().get(%d);' % (i, i, i))
                # through the views
                g.t(cs, K + 'sv', 'double z[%d]; for(int k=0;k<%d;++k) z[k<%d?k:k+1]=a[k]; z[%d]=7.; { double (&a)[%d]=z; ' % (n + 1, n, i, i, n + 1) + vbind(K, n + 1) + ('o[0]=subvector(x,%d)[%d];' % (i, i)) + ' }')
            # writers leave everything else alone, guards included
            cw = 'vwr%d_%d' % (n, i)
            ref = 'for(int k=0;k<%d;++k) o[k]=a[k]; o[%d]=b[0];' % (n, i)
            g.case(cw, (n, 1), (n,), ref)
            g.case(cw + 'g', (n, 1), (n + 2,), 'o[0]=71.; o[%d]=72.; for(int k=0;k<%d;++k) o[k+1]=a[k]; o[%d]=b[0];' % (n + 1, n, i + 1))
            for K in VK:
                if K in ('KC', 'KY', 'KYr'):
                    continue
                wr = ['x.put(%d,b[0]);', 'std::move(x).put(%d,b[0]);', 'x[%d]=b[0];', 'x.get(%d)=b[0];', 'x.data()[%d]=b[0];', 'x[%d]+=b[0]-a[I];', 'auto& e=x[%d]; e=b[0];', 'x.put(%d,float(2.f)); x.put(I,b[0]);']
                if K in ('KF', 'KE'):
                    wr += ['x.template get<%d>()=b[0];']
                for q, w in enumerate(wr):
                    w = w.replace('%d', str(i)).replace('I', str(i))
                    if K in ('KF', 'KD'):
                        g.t(cw, K + 'w%d' % q, vbind(K, n) + w + ' for(int k=0;k<%d;++k) o[k]=x.data()[k];' % n)
                        g.t(cw, K + 'v%d' % q, vbind(K, n) + w + ' emitv<%d>(o,x);' % n)
                    else:
                        g.t(cw + 'g', K + 'w%d' % q, vbind(K, n) + w + ' for(int k=0;k<%d;++k) o[k]=buf[k];' % (n + 2))
    # structured bindings use the tuple protocol
    for n in (2, 3, 4):
        g.case('sb%d' % n, (n,), (n,), 'for(int k=0;k<%d;++k) o[k]=a[k];' % n)
        nm = ['p0', 'p1', 'p2', 'p3'][:n]
        for K in ('KF', 'KE'):
            for q in ('auto', 'auto&', 'const auto&', 'auto&&'):
                if K == 'KE' and q == 'auto':
                    continue
                g.t('sb%d' % n, K + {'auto': 'v', 'auto&': 'l', 'const auto&': 'c', 'auto&&': 'r'}[q], vbind(K, n) + '%s [%s]=x; ' % (q, ','.join(nm)) + ' '.join('o[%d]=%s;' % (k, v) for k, v in enumerate(nm)))
    # ---- external objects see their buffer, and the buffer sees them; reset and moves
    for K, T, N in (('KE', 'vector<double,external<3>>', 'buf'), ('KX', 'vector<double,external<>>', 'buf,3')):
        g.case('buf' + K, (3, 3), (6,), 'for(int k=0;k<3;++k) { o[k]=b[k]; o[3+k]=a[k]; }')
        g.t('buf' + K, 'a', 'double buf[3]={VF_ANY3}; %s x(%s); for(int k=0;k<3;++k) buf[k]=b[k]; for(int k=0;k<3;++k) o[k]=x[k]; for(int k=0;k<3;++k) x[k]=a[k]; for(int k=0;k<3;++k) o[3+k]=buf[k];' % (T, N))
        g.t('buf' + K, 'm', 'double buf[3]={VF_ANY3}; %s y(%s); %s x(std::move(y)); for(int k=0;k<3;++k) buf[k]=b[k]; for(int k=0;k<3;++k) o[k]=x[k]; for(int k=0;k<3;++k) x[k]=a[k]; for(int k=0;k<3;++k) o[3+k]=buf[k];' % (T, N, T))
        g.t('buf' + K, 'c', 'double buf[3]={VF_ANY3}; %s y(%s); %s x(y); for(int k=0;k<3;++k) buf[k]=b[k]; for(int k=0;k<3;++k) o[k]=x[k]; for(int k=0;k<3;++k) x[k]=a[k]; for(int k=0;k<3;++k) o[3+k]=buf[k];' % (T, N, T))
        g.t('buf' + K, 'ma', 'double buf[3]={VF_ANY3}; %s y(%s); %s x; x=std::move(y); for(int k=0;k<3;++k) buf[k]=b[k]; for(int k=0;k<3;++k) o[k]=x[k]; for(int k=0;k<3;++k) x[k]=a[k]; for(int k=0;k<3;++k) o[3+k]=buf[k];' % (T, N, T))
    g.case('reset', (3,), (2,), 'o[0]=0; o[1]=1;')
    g.t('reset', 'x', vbind('KX', 3) + 'x.reset(); o[0]=x.size(); o[1]=x.data()==nullptr;')
    g.t('reset', 'y', vbind('KY', 3) + 'x.reset(); o[0]=x.size(); o[1]=x.data()==nullptr;')
    g.t('reset', 'm', vbind('KX', 3) + 'vector<double,external<>> z(std::move(x)); o[0]=x.size(); o[1]=x.data()==nullptr;')
    g.t('reset', 'd', 'vector<double,external<>> x; o[0]=x.size(); o[1]=x.data()==nullptr;')
    for T in ('external<3>', 'external<>'):
        for ct in ('', 'const '):
            k = 'f' if T == 'external<3>' else 'x'
            g.case('edef' + k, (3,), (2,), 'o[0]=1; o[1]=%d;' % (3 if k == 'f' else 0))
            g.t('edef' + k, 'c' if ct else 'v', 'vector<%sdouble,%s> x; o[0]=x.data()==nullptr; o[1]=x.size();' % (ct, T))
    g.case('edefm', (3,), (2,), 'o[0]=1; o[1]=6;')
    g.case('edefn', (3,), (2,), 'o[0]=1; o[1]=0;')
    for L in LAYOUTS:
        for B in RC:
            tt = SHORT[L] + SHORT[B]
            g.t('edefm', tt, 'matrix<double,external<2,3>,%s,%s> x; o[0]=x.data()==nullptr; o[1]=x.rows()*x.cols();' % (B, L))
            g.t('edefn', tt, 'matrix<double,external<>,%s,%s> x; o[0]=x.data()==nullptr; o[1]=x.rows()+x.cols();' % (B, L))
            g.t('edefn', tt + 'r', 'double z[6]={1,2,3,4,5,6}; matrix<double,external<>,%s,%s> x(z,2,3); x.reset(); o[0]=x.data()==nullptr; o[1]=x.rows()+x.cols();' % (B, L))
            g.t('edefn', tt + 'm', 'double z[6]={1,2,3,4,5,6}; matrix<double,external<>,%s,%s> y(z,2,3); matrix<double,external<>,%s,%s> x(std::move(y)); o[0]=y.data()==nullptr; o[1]=y.rows()+y.cols();' % (B, L, B, L))
    # ---- matrices
    shapes = [(1, 1), (2, 2), (2, 3), (3, 2), (3, 3)] + ([(4, 4), (1, 4), (4, 1), (3, 5)] if full else [(4, 4)]) + [(5, 6)] + cutoff.shapes()
    n = 0
    for (r, c) in shapes:
        N = r * c
        sh = '%d%d' % (r, c)
        for B in RC:
            g.case('msz' + sh + SHORT[B], (N,), (8,), 'o[0]=%d; o[1]=%d; o[2]=%d; o[3]=%d; o[4]=%d; o[5]=%s; o[6]=%d; o[7]=%d;' % (r, c, r, c, N, '+'.join('a[%d]' % k for k in range(N)), r if B == 'row_basis' else c, c if B == 'row_basis' else r))
            for K in KINDS:
                for L in LAYOUTS:
                    g.t('msz' + sh + SHORT[B], K + SHORT[L], mbind(K, r, c, B, L) + 'o[0]=x.rows(); o[1]=x.cols(); o[2]=x.size().first; o[3]=x.size().second; o[4]=double(x.end()-x.begin()); double s=0; for(auto e : x) s+=e; o[5]=s; o[6]=x.basis_count(); o[7]=x.basis_size();')
        for i in range(r):
            for j in range(c):
                cs = 'mrd%s_%d%d' % (sh, i, j)
                cw = 'mwr%s_%d%d' % (sh, i, j)
                g.case(cs, (N,), (1,), 'o[0]=a[%d];' % (i * c + j))
                g.case(cw, (N, 1), (N,), 'for(int k=0;k<%d;++k) o[k]=a[k]; o[%d]=b[0];' % (N, i * c + j))
                g.case(cw + 'g', (N, 1), (N + 2,), 'for(int k=0;k<%d;++k) o[k]=a[k]; o[%d]=b[0]; o[%d]=71.; o[%d]=72.;' % (N, i * c + j, N, N + 1))
                for K in KINDS:
                    for B in RC:
                        for L in LAYOUTS:
                            n += 1
                            if N > 9 and not full and n % 3:
                                continue
                            d = mbind(K, r, c, B, L)
                            t = SHORT[K] + SHORT[B] + SHORT[L]
                            flat = i * c + j if L == 'row_major' else j * r + i
                            be = (i, j) if B == 'row_basis' else (j, i)
                            rd = ['x(%d,%d)' % (i, j), 'x.get(%d,%d)' % (i, j), 'std::as_const(x)(%d,%d)' % (i, j), 'std::as_const(x).get(%d,%d)' % (i, j), 'x.data()[%d]' % flat,
                                  'std::as_const(x).data()[%d]' % flat, '*(x.begin()+%d)' % flat, 'std::move(x)(%d,%d)' % (i, j), '(x*1.)(%d,%d)' % (i, j), '(x+0.*x).get(%d,%d)' % (i, j),
                                  'x.basis_element(%d,%d)' % be, 'std::as_const(x).basis_element(%d,%d)' % be, '(x*1.).basis_element(%d,%d)' % be,
                                  'row(x,%d)[%d]' % (i, j), 'col(x,%d)[%d]' % (j, i), 'transpose(x)(%d,%d)' % (j, i), 'basis(x,%d)[%d]' % be]
                            for q, e in enumerate(rd):
                                if not full and N >= 9 and (q + n) % 3:
                                    continue
                                g.t(cs, t + 'r%d' % q, d + 'o[0]=%s;' % e)
                            wr = ['x.put(%d,%d,b[0]);' % (i, j), 'std::move(x).put(%d,%d,b[0]);' % (i, j), 'x(%d,%d)=b[0];' % (i, j), 'x.get(%d,%d)=b[0];' % (i, j), 'x.data()[%d]=b[0];' % flat,
                                  'x.set_basis_element(%d,%d,b[0]);' % be, 'std::move(x).set_basis_element(%d,%d,b[0]);' % be, 'x(%d,%d)+=b[0]-a[%d];' % (i, j, i * c + j), 'x.put(%d,%d,3); x.put(%d,%d,b[0]);' % (i, j, i, j)]
                            for q, w in enumerate(wr):
                                if not full and N >= 9 and (q + n) % 3:
                                    continue
                                if K in ('KF', 'KD'):
                                    g.t(cw, t + 'w%d' % q, d + w + ' for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) o[i*%d+j]=x.data()[%s];' % (r, c, c, 'i*%d+j' % c if L == 'row_major' else 'j*%d+i' % r))
                                else:
                                    g.t(cw + 'g', t + 'w%d' % q, d + w + ' for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) o[i*%d+j]=buf[1+%s]; o[%d]=buf[0]; o[%d]=buf[%d];' % (r, c, c, 'i*%d+j' % c if L == 'row_major' else 'j*%d+i' % r, N, N + 1, N + 1))
    # external matrices over a two-dimensional array
    for (r, c) in ((2, 3), (3, 2), (2, 2)):
        for L in LAYOUTS:
            for B in RC:
                N = r * c
                cs = 'arr%d%d' % (r, c)
                g.case(cs, (N,), (N,), 'for(int k=0;k<%d;++k) o[k]=a[k];' % N)
                p, q = (r, c) if L == 'row_major' else (c, r)
                fill = 'double z[%d][%d]; for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) z%s=a[i*%d+j]; ' % (p, q, r, c, '[i][j]' if L == 'row_major' else '[j][i]', c)
                g.t(cs, 'e' + SHORT[L] + SHORT[B], fill + 'matrix<double,external<%d,%d>,%s,%s> x(z); emitm<%d,%d>(o,x);' % (r, c, B, L, r, c))
                g.t(cs, 'f' + SHORT[L] + SHORT[B], fill + 'matrix<double,external<%d,%d>,%s,%s> y(z); matrix<double,external<%d,%d>,%s,%s> x(std::move(y)); emitm<%d,%d>(o,x);' % (r, c, B, L, r, c, B, L, r, c))
                g.t(cs, 'x' + SHORT[L] + SHORT[B], fill + 'matrix<double,external<>,%s,%s> x(&z[0][0],%d,%d); emitm<%d,%d>(o,x);' % (B, L, r, c, r, c))
    # ---- quaternions: input and output in (w,x,y,z) order
    for od in ORDERS:
        for cr in CROSSES:
            t = SHORT[od] + SHORT[cr]
            d = 'quat<double,%s,%s> xh(a); auto& x=xh.v; ' % (od, cr)
            st = [0, 1, 2, 3] if od == 'real_first' else [3, 0, 1, 2]     # storage index of w,x,y,z
            for k, nm in enumerate('wxyz'):
                cs = 'qrd%s' % nm
                g.case(cs, (4,), (1,), 'o[0]=a[%d];' % k)
                s = st[k]
                rd = ['x.get(%d)' % s, 'x[%d]' % s, 'std::as_const(x).get(%d)' % s, 'std::as_const(x)[%d]' % s, 'x.data()[%d]' % s, 'std::as_const(x).data()[%d]' % s, '*(x.begin()+%d)' % s,
                      'x.%s()' % nm, 'std::as_const(x).%s()' % nm, '(x*1.).%s()' % nm, 'std::move(x).%s()' % nm, 'x[std::decay_t<decltype(x)>::%s]' % nm.upper(), '(x*1.)[%d]' % s]
                rd += ['x.real()', '(x*1.).real()', 'real(x)'] if k == 0 else ['x.imaginary()[%d]' % (k - 1), 'imaginary(x)[%d]' % (k - 1), 'std::move(x).imaginary()[%d]' % (k - 1), '(x*1.).imaginary()[%d]' % (k - 1)]
                for q, e in enumerate(rd):
                    g.t(cs, t + 'r%d' % q, d + 'o[0]=%s;' % e)
                cw = 'qwr%s' % nm
                g.case(cw, (4, 1), (4,), 'for(int k=0;k<4;++k) o[k]=a[k]; o[%d]=b[0];' % k)
                wr = ['x.put(%d,b[0]);' % s, 'std::move(x).put(%d,b[0]);' % s, 'x[%d]=b[0];' % s, 'x.get(%d)=b[0];' % s, 'x.data()[%d]=b[0];' % s, 'x.%s()=b[0];' % nm, 'x.%s()+=b[0]-a[%d];' % (nm, k)]
                for q, w in enumerate(wr):
                    g.t(cw, t + 'w%d' % q, d + w + ' emitq(o,x);')
                    g.t(cw, t + 'd%d' % q, d + w + ' ' + ' '.join('o[%d]=x.data()[%d];' % (m, st[m]) for m in range(4)))
            g.case('qsz', (4,), (3,), 'o[0]=4; o[1]=4; o[2]=a[0]+a[1]+a[2]+a[3];')
            g.t('qsz', t, d + 'o[0]=x.size(); o[1]=double(x.end()-x.begin()); double s=0; for(auto e : x) s+=e; o[2]=s;')
    rep.values(g)
