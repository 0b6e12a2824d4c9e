from harness import Gen
from ops import *

L = 'for(int i=0;i<4;++i) '
SQ = 'double s=0; ' + L + 's+=a[i]*a[i]; '

def check(rep, tier):
    g = Gen()
    g.case('conj', (4,), (4,), L + 'o[i]=i?-a[i]:a[i];')
    g.case('inv', (4,), (4,), SQ + L + 'o[i]=(i?-a[i]:a[i])/s;')
    g.case('nrm', (4,), (4,), SQ + L + 'o[i]=a[i]/std::sqrt(s);')
    g.case('len2', (4,), (1,), SQ + 'o[0]=s;')
    g.case('len', (4,), (1,), SQ + 'o[0]=std::sqrt(s);')
    g.case('dot', (4, 4), (1,), 'o[0]=0; ' + L + 'o[0]+=a[i]*b[i];')
    g.case('same', (4,), (4,), L + 'o[i]=a[i];')
    g.case('ident', (4,), (4,), 'o[0]=1; o[1]=o[2]=o[3]=0;')
    g.case('zero', (4,), (4,), L + 'o[i]=0;')
    g.case('invinv', (4,), (4,), L + 'o[i]=a[i];')
    g.case('one', (4,), (1,), SQ + 'o[0]=s/s;')
    g.case('plus', (4, 4), (4,), L + 'o[i]=a[i]+b[i];')
    g.case('minus', (4, 4), (4,), L + 'o[i]=a[i]-b[i];')
    for od in ORDERS:
        g.case('stor' + SHORT[od], (4,), (4,), 'const int p[4]={%s}; ' % ('0,1,2,3' if od == 'real_first' else '1,2,3,0') + L + 'o[i]=a[p[i]];')
        g.case('load' + SHORT[od], (4,), (4,), 'const int p[4]={%s}; ' % ('0,1,2,3' if od == 'real_first' else '1,2,3,0') + L + 'o[p[i]]=a[i];')
        for x in CROSSES:
            ty = 'cml::quaternion<double,fixed<>,%s,%s>' % (od, x)
            t0 = SHORT[od] + SHORT[x]
            for f in VFORMS:
                q = Q(f, 'x', 'a', od, x)
                t = q.tag
                D, e = q.decl, q.expr
                for cs, v, b in (('conj', '', 'emitq(o, conjugate(%s));'), ('conj', 'k', 'auto e=conjugate(%s); emitq(o,e);'), ('conj', 'm', 'emitq(o, (%s).conjugate());'), ('same', 'cc', 'emitq(o, conjugate(conjugate(%s)));'),
                                 ('inv', '', 'emitq(o, inverse(%s));'), ('inv', 'k', 'auto e=inverse(%s); emitq(o,e);'), ('inv', 'm', 'emitq(o, (%s).inverse());'), ('invinv', '', 'emitq(o, inverse(inverse(%s)));'),
                                 ('nrm', '', 'emitq(o, normalize(%s));'), ('nrm', 'm', 'emitq(o, (%s).normalize());'), ('nrm', 'k', 'auto e=normalize(%s); emitq(o,e);'),
                                 ('one', 'n', 'auto e=normalize(%s); o[0]=e.length_squared();'),
                                 ('len2', 'a', 'o[0]=length_squared(%s);'), ('len2', 'b', 'o[0]=(%s).length_squared();'), ('len2', 'c', 'o[0]=norm(%s);'), ('len2', 'd', 'o[0]=(%s).norm();'),
                                 ('len', 'a', 'o[0]=length(%s);'), ('len', 'b', 'o[0]=(%s).length();'),
                                 ('same', 'ct', ty + ' w(%s); emitq(o,w);'), ('same', 'as', ty + ' w; w=%s; emitq(o,w);'),
                                 ('same', 'ac', 'const auto& w=%s; o[0]=w.w(); o[1]=w.x(); o[2]=w.y(); o[3]=w.z();'),
                                 ('same', 'ri', 'const auto& w=%s; o[0]=real(w); auto v=imaginary(w); ' + 'for(int i=0;i<3;++i) o[i+1]=v.get(i);'),
                                 ('stor' + SHORT[od], 'g', 'const auto& w=%s; ' + L + 'o[i]=w.get(i);'), ('stor' + SHORT[od], 'i', 'const auto& w=%s; ' + L + 'o[i]=w[i];')):
                    g.t(cs, v + t, D + b % e)
                g.t('ident', t, D + 'emitq(o, identity(%s));' % e)
                # the other order and the other cross convention
                for od2 in ORDERS:
                    for x2 in CROSSES:
                        t2 = t + SHORT[od2] + SHORT[x2]
                        ty2 = 'cml::quaternion<double,fixed<>,%s,%s>' % (od2, x2)
                        g.t('same', 'cv' + t2, D + ty2 + ' w(%s); emitq(o,w);' % e)
                        g.t('same', 'ca' + t2, D + ty2 + ' w; w=%s; emitq(o,w);' % e)
                        dy = 'quat<double,%s,%s> y(b); ' % (od2, x2)
                        g.t('plus', t2, D + dy + 'y.v+=%s; emitq(o,y.v);' % e)
                        g.case('rminus', (4, 4), (4,), L + 'o[i]=b[i]-a[i];') if 'rminus' not in g.cases else None
                        g.t('rminus', t2, D + dy + 'y.v-=%s; emitq(o,y.v);' % e)
                for f2 in VFORMS:
                    p = Q(f2, 'y', 'b', od, x)
                    g.t('dot', t + '_' + p.tag, D + p.decl + 'o[0]=dot(%s,%s);' % (e, p.expr))
            d = 'quat<double,%s,%s> x(a); ' % (od, x)
            for cs, v, b in (('conj', 'in', 'x.v.conjugate(); emitq(o,x.v);'), ('conj', 'inr', 'emitq(o, std::move(x.v).conjugate());'), ('inv', 'in', 'x.v.inverse(); emitq(o,x.v);'), ('inv', 'inr', 'emitq(o, std::move(x.v).inverse());'),
                             ('nrm', 'in', 'x.v.normalize(); emitq(o,x.v);'), ('nrm', 'inr', 'emitq(o, std::move(x.v).normalize());'), ('ident', 'in', 'x.v.identity(); emitq(o,x.v);'), ('ident', 'inr', 'emitq(o, std::move(x.v).identity());'),
                             ('zero', 'in', 'x.v.zero(); emitq(o,x.v);'), ('zero', 'inr', 'emitq(o, std::move(x.v).zero());'),
                             ('same', 'cp', 'auto w=x.v; emitq(o,w);'), ('same', 'mv', 'auto w=std::move(x.v); emitq(o,w);'), ('same', 'cpa', ty + ' w; w=x.v; emitq(o,w);'), ('same', 'mva', ty + ' w; w=std::move(x.v); emitq(o,w);'),
                             ('stor' + SHORT[od], 'data', L + 'o[i]=x.v.data()[i];'), ('stor' + SHORT[od], 'it', 'const auto& w=x.v; if(w.end()-w.begin()!=4) throw bad_size{0}; int k=0; for(auto p=w.begin();p!=w.end();++p) o[k++]=*p;')):
                g.t(cs, v + t0, d + b)
            dq = 'quat<double,%s,%s> x(b0); ' % (od, x)
            z = 'double b0[4]={VF_ANY4}; '
            for v, b in (('put', 'x.v.put(x.W,a[0]); for(int i=0;i<3;++i) x.v.put(x.I+i,a[i+1]);'), ('putr', 'std::move(x.v).put(x.W,a[0]); for(int i=0;i<3;++i) std::move(x.v).put(x.I+i,a[i+1]);'),
                         ('idx', 'x.v[x.W]=a[0]; for(int i=0;i<3;++i) x.v[x.I+i]=a[i+1];'), ('wxyz', 'x.v.w()=a[0]; x.v.x()=a[1]; x.v.y()=a[2]; x.v.z()=a[3];'),
                         ('enum', 'x.v[decltype(x.v)::W]=a[0]; x.v[decltype(x.v)::X]=a[1]; x.v[decltype(x.v)::Y]=a[2]; x.v[decltype(x.v)::Z]=a[3];'),
                         ('setvs', 'x.v.set(vector<double,compiled<3>>(a[1],a[2],a[3]),a[0]);'), ('setsv', 'x.v.set(a[0],vector<double,compiled<3>>(a[1],a[2],a[3]));'),
                         ('setvsr', 'std::move(x.v).set(vector<double,compiled<3>>(a[1],a[2],a[3]),a[0]);'), ('setsvr', 'std::move(x.v).set(a[0],vector<double,compiled<3>>(a[1],a[2],a[3]));'),
                         ('setdvs', 'double q[3]={a[1],a[2],a[3]}; x.v.set(vector<double,dynamic<>>(q),a[0]);')):
                g.t('same', v + t0, z + dq + b + ' emitq(o,x.v);')
            for v, b in (('cvs', '%s w(vector<double,compiled<3>>(a[1],a[2],a[3]),a[0]);'), ('csv', '%s w(a[0],vector<double,compiled<3>>(a[1],a[2],a[3]));'),
                         ('cas', 'double q[3]={a[1],a[2],a[3]}; %s w(q,a[0]);'), ('csa', 'double q[3]={a[1],a[2],a[3]}; %s w(a[0],q);'), ('cds', 'double q[3]={a[1],a[2],a[3]}; %s w(vector<double,dynamic<>>(q),a[0]);'),
                         ('cxs', 'double q[3]={a[1],a[2],a[3]}; vector<double,compiled<3>> v(q); %s w(2.*v-v,a[0]);')):
                g.t('same', v + t0, b % ty + ' emitq(o,w);')
            lo = 'load' + SHORT[od]
            for v, b in (('el', '%s w(a[0],a[1],a[2],a[3]);'), ('ar', '%s w(a);'), ('pt', 'const double* p=a; %s w(p);'), ('il', '%s w=std::initializer_list<double>{a[0],a[1],a[2],a[3]};'),
                         ('aa', '%s w; w=a;'), ('ia', '%s w; w={a[0],a[1],a[2],a[3]};'), ('aar', '%s w; std::move(w)=a;'), ('iar', '%s w; std::move(w)={a[0],a[1],a[2],a[3]};')):
                g.t(lo, v + t0, b % ty + ' emitq(o,w);')
            for E1, E2 in (('float', 'double'), ('int', 'double'), ('int', 'float'), ('double', 'int')):
                cs = 'cv' + E1 + E2
                if cs not in g.cases:
                    g.case(cs, (4,), (4,), L + 'o[i]=%sa[i];' % ('(double)(int)' if 'int' in (E1, E2) else ''))
                g.t(cs, t0, 'quat<%s,%s,%s> x(a); cml::quaternion<%s,fixed<>,%s,%s> w(x.v); emitq(o,w);' % (E1, od, x, E2, od, x))
    # integer and mixed element types: the four-element sums in the promoted type
    I = lambda E, x: '(double)(int)' + x if E == 'int' else x
    for E1, E2 in (('int', 'double'), ('double', 'int'), ('int', 'int')):
        cs = 'dot' + E1[0] + E2[0]
        g.case(cs, (4, 4), (1,), 'o[0]=0; ' + L + 'o[0]+=%s*%s;' % (I(E1, 'a[i]'), I(E2, 'b[i]')))
        for od in ORDERS:
            for f in VFORMS:
                p, q = Q(f, 'x', 'a', od, CROSSES[0], E1), Q(VFORMS[3], 'y', 'b', od, CROSSES[0], E2)
                g.t(cs, p.tag, p.decl + q.decl + 'o[0]=dot(%s,%s);' % (p.expr, q.expr))
                g.t(cs, 'r' + p.tag, p.decl + q.decl + 'o[0]=dot(p0,%s);'.replace('p0', p.expr) % q.expr)
    g.case('len2i', (4,), (1,), 'o[0]=0; ' + L + 'o[0]+=(double)(int)a[i]*(double)(int)a[i];')
    g.case('conji', (4,), (4,), L + 'o[i]=i?-(double)(int)a[i]:(double)(int)a[i];')
    for od in ORDERS:
        for x in CROSSES:
            for f in VFORMS:
                q = Q(f, 'x', 'a', od, x, 'int')
                g.t('len2i', q.tag, q.decl + 'o[0]=length_squared(%s);' % q.expr)
                g.t('len2i', 'm' + q.tag, q.decl + 'o[0]=(%s).norm();' % q.expr)
                g.t('conji', q.tag, q.decl + 'emitq(o,conjugate(%s));' % q.expr)
    g.cases.pop('minus')
    rep.values(g)
