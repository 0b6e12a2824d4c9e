from harness import Gen
from ops import *

PRE = r'''
template<class K,int N> auto mkv(in<N> a) { vec<K,double,N> x(a); return typename vec<K,double,N>::type(x.v); }
template<class K,int R,int C,class B=row_basis,class L=row_major> auto mkm(const double (&a)[R*C]) { mat<K,double,R,C,B,L> x(a); return typename mat<K,double,R,C,B,L>::type(x.v); }
template<class O,class X> auto mkq(in<4> a) { quat<double,O,X> x(a); return typename quat<double,O,X>::type(x.v); }
template<class T> const T kon(T&& t) { return std::move(t); }
'''

def check(rep, tier):
    g = Gen(PRE)
    n = 3
    # (name, C++ expression over {x} and {y}, reference over a,b, vector-like result size)
    vbin = [('add', '{x}+{y}', 'a[i]+b[i]'), ('sub', '{x}-{y}', 'a[i]-b[i]'), ('had', 'hadamard({x},{y})', 'a[i]*b[i]'),
            ('cross', 'cross({x},{y})', 'a[(i+1)%3]*b[(i+2)%3]-a[(i+2)%3]*b[(i+1)%3]')]
    vun = [('neg', '-{x}', '-a[i]'), ('pos', '+{x}', 'a[i]'), ('smul', '{x}*b[0]', 'a[i]*b[0]'), ('lsmul', 'b[0]*{x}', 'a[i]*b[0]'),
           ('sdiv', '{x}/b[0]', 'a[i]/b[0]')]
    ref = 'double z[3]={c[0],a[1],a[2]}; const double* p=%s; (void)p; for(int i=0;i<3;++i) { const double* a=p; (void)a; o[i]=%s; }'
    for nm, e, r in vbin + vun:
        binop = '{y}' in e
        live, late = 'v%s' % nm, 'v%slate' % nm
        g.case(live, (3, 3, 1), (3,), 'for(int i=0;i<3;++i) o[i]=%s;' % r)
        g.case(late, (3, 3, 1), (3,), 'double z[3]={c[0],a[1],a[2]}; for(int i=0;i<3;++i) o[i]=%s;' % r.replace('a[', 'z['))
        for k in KINDS:
            s = SHORT[k]
            dx, dy = 'vec<%s,double,3> x(a);' % k, 'vec<%s,double,3> y(b);' % k
            pair = [('xy', 'x.v', 'y.v')] if True else []
            # named operands: referenced
            for tag, x in (('lv', 'x.v'), ('cl', 'std::as_const(x.v)')):
                g.t(late, tag + s, '%s%s auto e = %s; x.v.put(0,c[0]); emitv<3>(o,e);' % (dx, dy, e.format(x=x, y='y.v')))
                g.t(late, tag + 'n' + s, '%s%s auto e = %s; x.v.put(0,c[0]); emitv<3>(o,e);' % (dx, dy, e.format(x='(1.*%s)' % x, y='(+y.v)')))
            if k in ('KF', 'KD'):
                mk = 'mkv<%s,3>(%%s)' % k
                tx, ty = mk % 'a', mk % 'b'
            else:
                tx, ty = 'std::move(x.v)', 'std::move(y.v)'
            for tag, x, y in (('tt', tx, ty), ('tl', tx, 'y.v'), ('lt', 'x.v', ty), ('ct', 'std::as_const(x.v)', ty),
                              ('ee', '(1.*%s)' % tx, '(1.*%s)' % ty), ('et', '(-(-%s))' % tx, ty), ('te', tx, '(+%s)' % ty), ('el', '(1.*x.v)', 'y.v'),
                              ('nn', '(-(1.*(-%s)))' % tx, '((%s-%s)+%s)' % (ty, 'x.v', 'x.v'))):
                ex = e.format(x=x, y=y)
                if k in ('KE', 'KX') and tag == 'nn':   # x is moved from
                    continue
                g.t(live, tag + s, '%s%s auto e = %s; emitv<3>(o,e);' % (dx, dy, ex))
                if tag in ('tt', 'el', 'nn'):
                    g.t(live, tag + 'mv' + s, '%s%s auto e = %s; auto f = std::move(e); emitv<3>(o,f);' % (dx, dy, ex))
                    g.t(live, tag + 'cp' + s, '%s%s auto e = %s; auto f = e; emitv<3>(o,f);' % (dx, dy, ex))
                    g.t(live, tag + 'fn' + s, '%s%s auto h = [&]() { return %s; }; auto e = h(); emitv<3>(o,e);' % (dx, dy, ex))
                    g.t(live, tag + 'use' + s, '%s%s auto e = %s; auto f = e + %s; auto h = f - mkv<KF,3>(a); emitv<3>(o,h);' % (dx, dy, ex, 'mkv<KD,3>(a)'))
    # subvector, outer product
    g.case('sub', (3, 1), (2,), 'o[0]=a[0]; o[1]=a[2];')
    g.case('sublate', (3, 1), (2,), 'o[0]=b[0]; o[1]=a[2];')
    g.case('outer', (3, 2), (6,), 'for(int i=0;i<3;++i) for(int j=0;j<2;++j) o[i*2+j]=a[i]*b[j];')
    g.case('outerlate', (3, 2, 1), (6,), 'for(int i=0;i<3;++i) for(int j=0;j<2;++j) o[i*2+j]=(i==0?c[0]:a[i])*b[j];')
    for k in KINDS:
        s = SHORT[k]
        d = 'vec<%s,double,3> x(a);' % k
        tx = 'mkv<%s,3>(a)' % k if k in ('KF', 'KD') else 'std::move(x.v)'
        ty = 'mkv<%s,2>(b)' % k if k in ('KF', 'KD') else 'std::move(y.v)'
        d2 = d + 'vec<%s,double,2> y(b);' % k
        for tag, x in (('t', tx), ('e', '(1.*%s)' % tx), ('l', 'x.v'), ('c', 'std::as_const(x.v)'), ('m', '(-(-x.v))')):
            g.t('sub', tag + s, d + 'auto e = subvector(%s,1); emitv<2>(o,e);' % x)
            g.t('sub', tag + 'n' + s, d + 'auto e = 1.*subvector(%s,1); auto f = std::move(e); emitv<2>(o,f);' % x)
            if tag in 'lcm':
                g.t('sublate', tag + s, d + 'auto e = subvector(%s,1); x.v.put(0,b[0]); emitv<2>(o,e);' % x)
        for tag, x, y in (('tt', tx, ty), ('tl', tx, 'y.v'), ('lt', 'x.v', ty), ('ee', '(1.*%s)' % tx, '(1.*%s)' % ty), ('lc', 'x.v', 'std::as_const(y.v)')):
            g.t('outer', tag + s, d2 + 'auto e = outer(%s,%s); emitm<3,2>(o,e);' % (x, y))
            g.t('outer', tag + 'n' + s, d2 + 'auto e = transpose(transpose(outer(%s,%s))*1.); auto f = std::move(e); emitm<3,2>(o,f);' % (x, y))
        for tag, x in (('l', 'x.v'), ('c', 'std::as_const(x.v)'), ('m', '(-(-x.v))')):
            g.t('outerlate', tag + s, d2 + 'auto e = outer(%s,y.v); x.v.put(0,c[0]); emitm<3,2>(o,e);' % x)
    # matrices: 2x3
    mbin = [('add', '{x}+{y}', 'a[i]+b[i]'), ('sub', '{x}-{y}', 'a[i]-b[i]'), ('had', 'hadamard({x},{y})', 'a[i]*b[i]')]
    mun = [('neg', '-{x}', '-a[i]'), ('pos', '+{x}', 'a[i]'), ('smul', '{x}*b[0]', 'a[i]*b[0]'), ('lsmul', 'b[0]*{x}', 'a[i]*b[0]'), ('sdiv', '{x}/b[0]', 'a[i]/b[0]')]
    for nm, e, r in mbin + mun:
        live, late = 'm%s' % nm, 'm%slate' % nm
        g.case(live, (6, 6, 1), (6,), 'for(int i=0;i<6;++i) o[i]=%s;' % r)
        g.case(late, (6, 6, 1), (6,), 'double z[6]={c[0],a[1],a[2],a[3],a[4],a[5]}; for(int i=0;i<6;++i) o[i]=%s;' % r.replace('a[', 'z['))
        for ki, k in enumerate(KINDS):
            L = LAYOUTS[ki % 2]
            s = SHORT[k]
            dx, dy = 'mat<%s,double,2,3,row_basis,%s> x(a);' % (k, L), 'mat<%s,double,2,3,row_basis,%s> y(b);' % (k, LAYOUTS[(ki // 2) % 2])
            for tag, x in (('lv', 'x.v'), ('cl', 'std::as_const(x.v)')):
                g.t(late, tag + s, '%s%s auto e = %s; x.v.put(0,0,c[0]); emitm<2,3>(o,e);' % (dx, dy, e.format(x=x, y='y.v')))
                g.t(late, tag + 'n' + s, '%s%s auto e = %s; x.v.put(0,0,c[0]); emitm<2,3>(o,e);' % (dx, dy, e.format(x='(1.*%s)' % x, y='(+y.v)')))
            if k in ('KF', 'KD'):
                tx, ty = 'mkm<%s,2,3>(a)' % k, 'mkm<%s,2,3,row_basis,col_major>(b)' % k
            else:
                tx, ty = 'std::move(x.v)', 'std::move(y.v)'
            for tag, x, y in (('tt', tx, ty), ('tl', tx, 'y.v'), ('lt', 'x.v', ty), ('ct', 'std::as_const(x.v)', ty),
                              ('ee', '(1.*%s)' % tx, '(1.*%s)' % ty), ('et', '(-(-%s))' % tx, ty), ('te', tx, '(+%s)' % ty), ('el', '(1.*x.v)', 'y.v')):
                ex = e.format(x=x, y=y)
                g.t(live, tag + s, '%s%s auto e = %s; emitm<2,3>(o,e);' % (dx, dy, ex))
                if tag in ('tt', 'el'):
                    g.t(live, tag + 'mv' + s, '%s%s auto e = %s; auto f = std::move(e); emitm<2,3>(o,f);' % (dx, dy, ex))
                    if not (k in ('KE', 'KX') and tag == 'tt'):   # external matrices are not copyable
                        g.t(live, tag + 'cp' + s, '%s%s auto e = %s; auto f = e; emitm<2,3>(o,f);' % (dx, dy, ex))
                    g.t(live, tag + 'fn' + s, '%s%s auto h = [&]() { return %s; }; auto e = h(); emitm<2,3>(o,e);' % (dx, dy, ex))
    # views of matrices
    g.case('tr', (6, 1), (6,), 'for(int i=0;i<3;++i) for(int j=0;j<2;++j) o[i*2+j]=a[j*3+i];')
    g.case('trlate', (6, 1), (6,), 'for(int i=0;i<3;++i) for(int j=0;j<2;++j) o[i*2+j]=(i==0&&j==0)?b[0]:a[j*3+i];')
    g.case('row', (6, 1), (3,), 'for(int j=0;j<3;++j) o[j]=a[j];')
    g.case('rowlate', (6, 1), (3,), 'for(int j=0;j<3;++j) o[j]=j==0?b[0]:a[j];')
    g.case('col', (6, 1), (2,), 'for(int j=0;j<2;++j) o[j]=a[3*j];')
    g.case('collate', (6, 1), (2,), 'for(int j=0;j<2;++j) o[j]=j==0?b[0]:a[3*j];')
    for k in KINDS:
        for L in LAYOUTS:
            for B in RC:
                s = SHORT[k] + SHORT[L] + SHORT[B]
                d = 'mat<%s,double,2,3,%s,%s> x(a);' % (k, B, L)
                tx = 'mkm<%s,2,3,%s,%s>(a)' % (k, B, L) if k in ('KF', 'KD') else 'std::move(x.v)'
                bas = 'row' if B == 'row_basis' else 'col'
                for tag, x in (('t', tx), ('e', '(1.*%s)' % tx), ('l', 'x.v'), ('c', 'std::as_const(x.v)'), ('m', '(-(-x.v))')):
                    for node, fn, em in (('tr', 'transpose(%s)', 'emitm<3,2>'), ('row', 'row(%s,0)', 'emitv<3>'), ('col', 'col(%s,0)', 'emitv<2>'),
                                         (bas, 'basis(%s,0)', 'emitv<3>' if bas == 'row' else 'emitv<2>')):
                        b_ = 'b' if 'basis' in fn else ''
                        g.t(node, tag + b_ + s, d + 'auto e = %s; %s(o,e);' % (fn % x, em))
                        g.t(node, tag + b_ + 'n' + s, d + 'auto e = 1.*%s; auto f = std::move(e); %s(o,f);' % (fn % x, em))
                        if not (k in ('KE', 'KX') and tag in 'te'):
                            g.t(node, tag + b_ + 'p' + s, d + 'auto e = %s*1.; auto f = e; %s(o,f);' % (fn % x, em))
                        if tag in 'lcm':
                            g.t(node + 'late', tag + b_ + s, d + 'auto e = %s; x.v.put(0,0,b[0]); %s(o,e);' % (fn % x, em))
    # quaternions
    qn = [('add', '{x}+{y}', 'a[i]+b[i]'), ('sub', '{x}-{y}', 'a[i]-b[i]'), ('neg', '-{x}', '-a[i]'), ('smul', '{x}*b[0]', 'a[i]*b[0]'),
          ('lsmul', 'b[0]*{x}', 'a[i]*b[0]'), ('sdiv', '{x}/b[0]', 'a[i]/b[0]'), ('conj', 'conjugate({x})', '(i?-a[i]:a[i])'), ('cm', '({x}).conjugate()', '(i?-a[i]:a[i])'),
          ('inv', 'inverse({x})', '(i?-a[i]:a[i])/(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]+a[3]*a[3])')]
    for nm, e, r in qn:
        live, late = 'q' + nm, 'q%slate' % nm
        g.case(live, (4, 4, 1), (4,), 'for(int i=0;i<4;++i) o[i]=%s;' % r)
        if nm not in ('inv', 'cm'):
            g.case(late, (4, 4, 1), (4,), 'double z[4]={a[0],c[0],a[2],a[3]}; for(int i=0;i<4;++i) o[i]=%s;' % r.replace('a[', 'z['))
        for od in ORDERS:
            for cr in CROSSES:
                s = SHORT[od] + SHORT[cr]
                d = 'quat<double,%s,%s> x(a), y(b); constexpr int I=decltype(x)::I; (void)I;' % (od, cr)
                tx, ty = 'mkq<%s,%s>(a)' % (od, cr), 'mkq<%s,%s>(b)' % (od, cr)
                for tag, x in (('lv', 'x.v'), ('cl', 'std::as_const(x.v)')):
                    if late in g.cases:
                        g.t(late, tag + s, d + 'auto e = %s; x.v.put(I,c[0]); emitq(o,e);' % e.format(x=x, y='y.v'))
                        g.t(late, tag + 'n' + s, d + 'auto e = %s; x.v.put(I,c[0]); emitq(o,e);' % e.format(x='(1.*%s)' % x, y='(-(-y.v))'))
                for tag, x, y in (('tt', tx, ty), ('tl', tx, 'y.v'), ('lt', 'x.v', ty), ('ee', '(1.*%s)' % tx, '(1.*%s)' % ty), ('el', '(1.*x.v)', 'y.v')):
                    ex = e.format(x=x, y=y)
                    g.t(live, tag + s, d + 'auto e = %s; emitq(o,e);' % ex)
                    g.t(live, tag + 'mv' + s, d + 'auto e = 1.*%s; auto f = std::move(e); auto h = f; emitq(o,h);' % ex)
    g.case('imag', (4, 1), (3,), 'for(int i=0;i<3;++i) o[i]=a[1+i];')
    g.case('imaglate', (4, 1), (3,), 'for(int i=0;i<3;++i) o[i]=i==0?b[0]:a[1+i];')
    for od in ORDERS:
        for cr in CROSSES:
            s = SHORT[od] + SHORT[cr]
            d = 'quat<double,%s,%s> x(a); constexpr int I=decltype(x)::I; (void)I;' % (od, cr)
            tx = 'mkq<%s,%s>(a)' % (od, cr)
            for tag, x in (('t', tx), ('e', '(1.*%s)' % tx), ('l', 'x.v'), ('c', 'std::as_const(x.v)'), ('m', '(-(-x.v))')):
                g.t('imag', tag + s, d + 'auto e = imaginary(%s); emitv<3>(o,e);' % x)
                g.t('imag', tag + 'n' + s, d + 'auto e = 1.*imaginary(%s); auto f = std::move(e); emitv<3>(o,f);' % x)
                if tag in 'lcm':
                    g.t('imaglate', tag + s, d + 'auto e = imaginary(%s); x.v.put(I,b[0]); emitv<3>(o,e);' % x)
    # member forms, on named, expression and const temporaries
    for kind, src in (('', 'a[i]'), ('sum', 'a[i]+b[i]'), ('crs', 'a[(i+1)%3]*b[(i+2)%3]-a[(i+2)%3]*b[(i+1)%3]')):
        z = 'double z[3]; for(int i=0;i<3;++i) z[i]=%s; double l=std::sqrt(z[0]*z[0]+z[1]*z[1]+z[2]*z[2]); (void)l;' % src
        g.case('mnrm' + kind, (3, 3), (3,), z + 'for(int i=0;i<3;++i) o[i]=z[i]/l;')
        g.case('mbsub' + kind, (3, 3), (2,), z + 'o[0]=z[0]; o[1]=z[2];')
    g.case('mnrmlate', (3, 3, 1), (3,), 'double l=std::sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]); for(int i=0;i<3;++i) o[i]=(i?a[i]:c[0])/l;')
    g.case('mbsublate', (3, 3, 1), (2,), 'o[0]=c[0]; o[1]=a[2];')
    for k in KINDS:
        s = SHORT[k]
        d = 'vec<%s,double,3> x(a);' % k
        tx = 'mkv<%s,3>(a)' % k if k in ('KF', 'KD') else 'std::move(x.v)'
        forms = (('e', '(1.*%s)' % tx), ('l', 'x.v'), ('c', 'std::as_const(x.v)'), ('m', '(-(-x.v))'), ('k', 'kon(%s)' % tx), ('s', '(x.v+mkv<KD,3>(b))'),
                 ('x', 'cross(%s,mkv<KF,3>(b))' % tx))
        for tag, x in forms:
            kind = {'s': 'sum', 'x': 'crs'}.get(tag, '')
            if tag == 'l':
                x = 'std::as_const(x.v)'
            for fn, mem, n_ in (('nrm', '.normalize()', 3), ('bsub', '.subvector(1)', 2)):
                g.t('m' + fn + kind, tag + s, d + 'auto e = %s%s; emitv<%d>(o,e);' % (x, mem, n_))
                g.t('m' + fn + kind, tag + 'n' + s, d + 'auto e = 1.*%s%s; auto f = std::move(e); auto h = f; emitv<%d>(o,h);' % (x, mem, n_))
                g.t('m' + fn + kind, tag + 'fn' + s, d + 'auto q = [&]() { return %s%s; }; auto e = q(); emitv<%d>(o,e);' % (x, mem, n_))
            if tag in 'lcm':
                g.t('mnrmlate', tag + s, d + 'auto e = %s.normalize(); x.v.put(0,c[0]); emitv<3>(o,e);' % x)
                g.t('mbsublate', tag + s, d + 'auto e = %s.subvector(1); x.v.put(0,c[0]); emitv<2>(o,e);' % x)
    qm = [('nrm', '.normalize()', 'emitq', 4, 'a[i]/l'), ('im', '.imaginary()', 'emitv<3>', 3, 'a[1+i]'), ('cj', '.conjugate()', 'emitq', 4, 'i?-a[i]:a[i]'),
          ('iv', '.inverse()', 'emitq', 4, '(i?-a[i]:a[i])/(l*l)')]
    for nm, mem, em, n_, r in qm:
        z = 'double l=std::sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]+a[3]*a[3]); (void)l;'
        g.case('qm' + nm, (4, 4, 1), (n_,), z + 'for(int i=0;i<%d;++i) o[i]=%s;' % (n_, r))
        g.case('qm' + nm + 'late', (4, 4, 1), (n_,), z + 'double z[4]={a[0],c[0],a[2],a[3]}; for(int i=0;i<%d;++i) o[i]=%s;' % (n_, r.replace('a[', 'z[')))
        for od in ORDERS:
            for cr in CROSSES:
                s = SHORT[od] + SHORT[cr]
                d = 'quat<double,%s,%s> x(a); constexpr int I=decltype(x)::I; (void)I;' % (od, cr)
                tx = 'mkq<%s,%s>(a)' % (od, cr)
                for tag, x in (('e', '(1.*%s)' % tx), ('c', 'std::as_const(x.v)'), ('m', '(-(-x.v))'), ('k', 'kon(%s)' % tx)):
                    g.t('qm' + nm, tag + s, d + 'auto e = %s%s; %s(o,e);' % (x, mem, em))
                    g.t('qm' + nm, tag + 'n' + s, d + 'auto e = 1.*%s%s; auto f = std::move(e); auto h = f; %s(o,h);' % (x, mem, em))
                    g.t('qm' + nm, tag + 'fn' + s, d + 'auto q = [&]() { return %s%s; }; auto e = q(); %s(o,e);' % (x, mem, em))
                    if tag in 'cm':
                        g.t('qm' + nm + 'late', tag + s, d + 'auto e = %s%s; x.v.put(I,c[0]); %s(o,e);' % (x, mem, em))
    rep.values(g)
