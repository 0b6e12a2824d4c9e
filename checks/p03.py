import cutoff
from harness import Gen
from ops import *

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    # --- vectors: statement over x (loaded from a) and y (from b); reference on arrays z (from a) and b
    for n in (1, 2, 3, 4, 9) + ((5, 6, 17) if full else ()) + tuple(n for n in cutoff.above() if n not in (5, 6, 9, 17)):
        L = 'for(int i=0;i<%d;++i) ' % n
        st = [('pluss', 'x.v += x.v;', L + 'o[i]=a[i]+a[i];'),
              ('minuss', 'x.v -= x.v;', L + 'o[i]=0.;'),
              ('pluse', 'x.v += 2.*x.v;', L + 'o[i]=3.*a[i];'),
              ('minuse', 'x.v -= x.v+y.v;', L + 'o[i]=-b[i];'),
              ('minusn', 'x.v -= -x.v;', L + 'o[i]=2.*a[i];'),
              ('asum', 'x.v = x.v + x.v;', L + 'o[i]=2.*a[i];'),
              ('arev', 'x.v = y.v - x.v;', L + 'o[i]=b[i]-a[i];'),
              ('aneg', 'x.v = -x.v;', L + 'o[i]=-a[i];'),
              ('aexp', 'x.v = 2.*x.v - (y.v + x.v)/4.;', L + 'o[i]=2.*a[i]-(b[i]+a[i])/4.;'),
              ('ahad', 'x.v = hadamard(x.v,x.v);', L + 'o[i]=a[i]*a[i];'),
              ('self', 'auto& w = x.v; x.v = w;', L + 'o[i]=a[i];'),
              ('min', 'x.v.minimize(x.v);', L + 'o[i]=a[i];'),
              ('max', 'x.v.maximize(x.v);', L + 'o[i]=a[i];'),
              ('nrm', 'x.v = normalize(x.v);', 'double s=0; ' + L + 's+=a[i]*a[i]; ' + L + 'o[i]=a[i]/std::sqrt(s);'),
              ('nrm2', 'x.v = std::as_const(x.v).normalize();', 'double s=0; ' + L + 's+=a[i]*a[i]; ' + L + 'o[i]=a[i]/std::sqrt(s);')]
        for j in range(n):
            st += [('mulel%d' % j, 'x.v *= x.v[%d];' % j, L + 'o[i]=a[i]*a[%d];' % j),
                   ('divel%d' % j, 'x.v /= x.v[%d];' % j, L + 'o[i]=a[i]/a[%d];' % j),
                   ('filel%d' % j, 'x.v.fill(x.v[%d]);' % j, L + 'o[i]=a[%d];' % j),
                   ('cmulel%d' % j, 'x.v *= std::as_const(x.v)[%d];' % j, L + 'o[i]=a[i]*a[%d];' % j),
                   ('exel%d' % j, 'x.v = x.v * double(x.v[%d]);' % j, L + 'o[i]=a[i]*a[%d];' % j)]
        for nm, s, r in st:
            c = 'v%s_%d' % (nm, n)
            g.case(c, (n, n), (n,), r)
            for k in KINDS:
                g.t(c, SHORT[k], 'vec<%s,double,%d> x(a); vec<%s,double,%d> y(b); %s emitv<%d>(o,x.v);' % (k, n, k, n, s, n))
        # two views of one buffer
        for nm, op, r in (('plus', '+=', 'o[i]=2.*a[i];'), ('minus', '-=', 'o[i]=0.;'), ('asg', '=', 'o[i]=a[i];')):
            c = 'view%s_%d' % (nm, n)
            g.case(c, (n,), (n,), L + r)
            for v, d in (('ee', 'vector<double,external<%d>> p(x.d), q(x.d);' % n), ('ex', 'vector<double,external<%d>> p(x.d); vector<double,external<>> q(x.d,%d);' % (n, n)),
                         ('xe', 'vector<double,external<>> p(x.d,%d); vector<double,external<%d>> q(x.d);' % (n, n)),
                         ('ec', 'vector<double,external<%d>> p(x.d); vector<const double,external<%d>> q(x.d);' % (n, n)),
                         ('xy', 'vector<double,external<>> p(x.d,%d); vector<const double,external<>> q(x.d,%d);' % (n, n))):
                g.t(c, v, 'vec<KE,double,%d> x(a); %s p %s q; emitv<%d>(o,p);' % (n, d, op, n))
    # cross product into an operand goes through a named result
    # --- matrices
    def mm(a, b, n, r='o'):
        return 'for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) { double s=0; for(int k=0;k<%d;++k) s+=%s[i*%d+k]*%s[k*%d+j]; %s[i*%d+j]=s; }' % (n, n, n, a, n, b, n, r, n)
    for (r, c) in ((2, 2), (3, 3), (2, 3), (3, 1), (4, 4), (5, 6)):
        n = r * c
        L = 'for(int i=0;i<%d;++i) ' % n
        st = [('pluss', 'x.v += x.v;', L + 'o[i]=a[i]+a[i];'),
              ('minuss', 'x.v -= x.v;', L + 'o[i]=0.;'),
              ('pluse', 'x.v += 2.*x.v;', L + 'o[i]=3.*a[i];'),
              ('minuse', 'x.v -= x.v+y.v;', L + 'o[i]=-b[i];'),
              ('asum', 'x.v = x.v + x.v;', L + 'o[i]=2.*a[i];'),
              ('arev', 'x.v = y.v - x.v;', L + 'o[i]=b[i]-a[i];'),
              ('aneg', 'x.v = -x.v;', L + 'o[i]=-a[i];'),
              ('aexp', 'x.v = 2.*x.v - (y.v + x.v)/4.;', L + 'o[i]=2.*a[i]-(b[i]+a[i])/4.;'),
              ('self', 'auto& w = x.v; x.v = w;', L + 'o[i]=a[i];'),
              ('setrow', 'x.v.set_row(0, row(x.v,%d));' % (r - 1), L + 'o[i]=i<%d?a[%d+i]:a[i];' % (c, (r - 1) * c)),
              ('setcol', 'x.v.set_col(0, col(x.v,%d));' % (c - 1), L + 'o[i]=i%%%d==0?a[i+%d]:a[i];' % (c, c - 1)),
              ('setrow2', 'x.v.set_row(%d, 2.*row(x.v,%d)+row(x.v,0));' % (r - 1, r - 1), L + 'o[i]=i>=%d?2.*a[i]+a[i-%d]:a[i];' % ((r - 1) * c, (r - 1) * c))]
        for j in sorted({0, n // 2, n - 1}):
            e = '(%d,%d)' % (j // c, j % c)
            st += [('mulel%d' % j, 'x.v *= x.v%s;' % e, L + 'o[i]=a[i]*a[%d];' % j),
                   ('divel%d' % j, 'x.v /= x.v%s;' % e, L + 'o[i]=a[i]/a[%d];' % j),
                   ('filel%d' % j, 'x.v.fill(x.v%s);' % e, L + 'o[i]=a[%d];' % j)]
        if r == c:
            st += [('sq', 'x.v = x.v * x.v;', mm('a', 'a', r)),
                   ('lm', 'x.v = y.v * x.v;', mm('b', 'a', r)),
                   ('rm', 'x.v = x.v * y.v;', mm('a', 'b', r)),
                   ('pm', 'x.v += x.v * y.v;', mm('a', 'b', r) + L + 'o[i]+=a[i];'),
                   ('tr', 'x.v.transpose();', 'for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) o[i*%d+j]=a[j*%d+i];' % (r, r, r, r)),
                   ('trr', 'std::move(x.v).transpose();', 'for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) o[i*%d+j]=a[j*%d+i];' % (r, r, r, r))]
        for nm, s, rf in st:
            cs = 'm%s_%d%d' % (nm, r, c)
            g.case(cs, (n, n), (n,), rf)
            for k in KINDS:
                if k in ('KX',) and nm in ('tr', 'trr'):
                    continue     # not provided for external matrices of run-time size
                for Ly in LAYOUTS:
                    for B in (RC if nm not in ('sq', 'lm', 'rm', 'pm') or k == 'KF' else RC[:1]):
                        if B == 'col_basis' and k not in ('KF', 'KD') and not full:
                            continue
                        g.t(cs, SHORT[k] + SHORT[Ly] + SHORT[B], 'mat<%s,double,%d,%d,%s,%s> x(a); mat<%s,double,%d,%d,%s,%s> y(b); %s emitm<%d,%d>(o,x.v);'
                            % (k, r, c, B, Ly, k, r, c, B, Ly, s, r, c))
    # inverse in place; through a named object, a temporary and the function
    adj = {2: 'double d=a[0]*a[3]-a[1]*a[2]; o[0]=a[3]/d; o[1]=-a[1]/d; o[2]=-a[2]/d; o[3]=a[0]/d;',
           3: 'auto A=[&](int i,int j){return a[3*(i%3)+j%3];}; auto cof=[&](int i,int j){ return A(i+1,j+1)*A(i+2,j+2)-A(i+1,j+2)*A(i+2,j+1); };'
              'double d=0; for(int j=0;j<3;++j) d+=A(0,j)*cof(0,j); for(int i=0;i<3;++i) for(int j=0;j<3;++j) o[3*i+j]=cof(j,i)/d;'}
    for n in (2, 3):
        g.case('inv_%d' % n, (n * n,), (n * n,), adj[n])
        for k in KINDS:
            for Ly in LAYOUTS:
                d = 'mat<%s,double,%d,%d,row_basis,%s> x(a);' % (k, n, n, Ly)
                s = SHORT[k] + SHORT[Ly]
                g.t('inv_%d' % n, s, d + 'x.v.inverse(); emitm<%d,%d>(o,x.v);' % (n, n))
                g.t('inv_%d' % n, 'r' + s, d + 'std::move(x.v).inverse(); emitm<%d,%d>(o,x.v);' % (n, n))
                g.t('inv_%d' % n, 'a' + s, d + 'x.v = inverse(x.v); emitm<%d,%d>(o,x.v);' % (n, n))
    # concatenation into an operand
    for n in (3, 4):
        for B in RC:
            first, second = ('a', 'b') if B == 'row_basis' else ('b', 'a')
            c = 'cat_%d%s' % (n, SHORT[B])
            g.case(c, (n * n, n * n), (n * n,), mm(first, second, n))
            c2 = 'cats_%d%s' % (n, SHORT[B])
            g.case(c2, (n * n,), (n * n,), mm('a', 'a', n))
            for k in KINDS:
                for Ly in LAYOUTS:
                    d = 'mat<%s,double,%d,%d,%s,%s> x(a), ' % (k, n, n, B, Ly)
                    s = SHORT[k] + SHORT[Ly]
                    g.t(c, 'l' + s, d + 'y(b); x.v = matrix_concat(x.v,y.v); emitm<%d,%d>(o,x.v);' % (n, n))
                    g.t(c, 'r' + s, d + 'y(b); y.v = matrix_concat(x.v,y.v); emitm<%d,%d>(o,y.v);' % (n, n))
                    g.t(c2, s, d.rstrip(', ') + '; x.v = matrix_concat(x.v,x.v); emitm<%d,%d>(o,x.v);' % (n, n))
    # --- quaternions
    L = 'for(int i=0;i<4;++i) '
    ham = ('auto mul=[](const double* p,const double* q,double* r){ r[0]=p[0]*q[0]-p[1]*q[1]-p[2]*q[2]-p[3]*q[3]; r[1]=p[0]*q[1]+p[1]*q[0]+S*(p[2]*q[3]-p[3]*q[2]);'
           'r[2]=p[0]*q[2]+p[2]*q[0]+S*(p[3]*q[1]-p[1]*q[3]); r[3]=p[0]*q[3]+p[3]*q[0]+S*(p[1]*q[2]-p[2]*q[1]); };')
    for x in CROSSES:
        h = ham.replace('S*', '1.*' if x == 'positive_cross' else '-1.*')
        st = [('pluss', 'x.v += x.v;', L + 'o[i]=2.*a[i];'),
              ('minuss', 'x.v -= x.v;', L + 'o[i]=0.;'),
              ('minuse', 'x.v -= 2.*x.v + y.v;', L + 'o[i]=-a[i]-b[i];'),
              ('arev', 'x.v = y.v - x.v;', L + 'o[i]=b[i]-a[i];'),
              ('aneg', 'x.v = -x.v;', L + 'o[i]=-a[i];'),
              ('conj', 'x.v = conjugate(x.v);', L + 'o[i]=i?-a[i]:a[i];'),
              ('self', 'auto& w = x.v; x.v = w;', L + 'o[i]=a[i];'),
              ('inv', 'x.v = inverse(x.v);', 'double s=0; ' + L + 's+=a[i]*a[i]; ' + L + 'o[i]=(i?-a[i]:a[i])/s;'),
              ('inv2', 'x.v.inverse();', 'double s=0; ' + L + 's+=a[i]*a[i]; ' + L + 'o[i]=(i?-a[i]:a[i])/s;'),
              ('cj2', 'x.v.conjugate();', L + 'o[i]=i?-a[i]:a[i];'),
              ('nrm', 'x.v.normalize();', 'double s=0; ' + L + 's+=a[i]*a[i]; ' + L + 'o[i]=a[i]/std::sqrt(s);'),
              ('nrm2', 'x.v = std::as_const(x.v).normalize();', 'double s=0; ' + L + 's+=a[i]*a[i]; ' + L + 'o[i]=a[i]/std::sqrt(s);'),
              ('sq', 'x.v = x.v * x.v;', h + 'mul(a,a,o);'),
              ('sqc', 'x.v *= x.v;', h + 'mul(a,a,o);'),
              ('mulc', 'x.v *= y.v;', h + 'mul(a,b,o);'),
              ('mulx', 'x.v *= x.v + y.v;', h + 'double t[4]; ' + L + 't[i]=a[i]+b[i]; mul(a,t,o);'),
              ('mulj', 'x.v *= conjugate(x.v);', h + 'double t[4]; ' + L + 't[i]=i?-a[i]:a[i]; mul(a,t,o);'),
              ('lm', 'x.v = y.v * x.v;', h + 'mul(b,a,o);')]
        for j in range(4):
            for ord_ in ORDERS:
                w = (0 if j == 0 else j) if ord_ == 'real_first' else (3 if j == 0 else j - 1)
                st += [('mulel%d%s' % (j, SHORT[ord_]), 'x.v *= x.v[%d];' % w, L + 'o[i]=a[i]*a[%d];' % j),
                       ('divel%d%s' % (j, SHORT[ord_]), 'x.v /= x.v[%d];' % w, L + 'o[i]=a[i]/a[%d];' % j)]
        for nm, s, r in st:
            c = 'q%s%s' % (nm, SHORT[x])
            g.case(c, (4, 4), (4,), r)
            for od in ORDERS:
                if nm[:5] in ('mulel', 'divel') and not nm.endswith(SHORT[od]):
                    continue
                g.t(c, SHORT[od], 'quat<double,%s,%s> x(a), y(b); %s emitq(o,x.v);' % (od, x, s))
    rep.values(g)
