"""Vector utilities against their geometric definitions."""
import cutoff
from harness import Gen
from ops import *
import builders as A
from builders import AXIS, idx

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    st = [0]
    FORMS = VFORMS + ['row', 'col', 'sub', 'rsub']
    def opnd(nm, arr, n, k, E='double'):
        K = CKINDS[k % 6]
        f = FORMS[k // 6 % 8]
        if K in ('KC', 'KY') and f in ('row', 'col'):
            f = 'lv'
        return V(K, f, nm, arr, n, E)
    def run(cs, ins, out, ref, arrs, call, emit, n=48, mixed=True, stride=7):
        """call with {0}, {1} ... operands"""
        g.case(cs, ins, (out,), ref)
        seen = set()
        for k in range(n):
            for q in range(2 if len(arrs) > 1 else 1):
                vs = [opnd('x%d' % m, a, d, k + m * (stride + q * 11) + q * 29) for m, (a, d) in enumerate(arrs)]
                tag = ''.join(v.tag for v in vs)
                if tag in seen:
                    continue
                seen.add(tag)
                g.t(cs, tag, ' '.join(v.decl for v in vs) + ' ' + emit % call.format(*[v.expr for v in vs]))
        if mixed:
            for m in range(len(arrs)):
                vs = [opnd('x%d' % q, a, d, 0 + 7 * q, 'float' if q == m else 'double') for q, (a, d) in enumerate(arrs)]
                if len(arrs) > 1:
                    g.t(cs, 'f%d' % m, ' '.join(v.decl for v in vs) + ' ' + emit % call.format(*[v.expr for v in vs]))
            vs = [opnd('x%d' % q, a, d, 5 + 7 * q, 'float') for q, (a, d) in enumerate(arrs)]
            g.t(cs, 'F32', ' '.join(v.decl for v in vs) + ' ' + emit % call.format(*[v.expr for v in vs]))
    for N in (2, 3, 4):
        D = 'double d=0,n=0; for(int i=0;i<%d;++i) { d+=a[i]*b[i]; n+=b[i]*b[i]; } ' % N
        ev = 'auto y=%%s; emitv<%d>(o,y);' % N
        run('ptv%d' % N, (N, N), N, D + 'for(int i=0;i<%d;++i) o[i]=b[i]*d/n;' % N, [('a', N), ('b', N)], 'project_to_vector({0},{1})', ev)
        run('pth%d' % N, (N, N), N, D + 'for(int i=0;i<%d;++i) o[i]=a[i]-b[i]*d;' % N, [('a', N), ('b', N)], 'project_to_hplane({0},{1})', ev)
        run('mnd%d' % N, (N, N), 1, 'double s=0; for(int i=0;i<%d;++i) s+=std::fabs(a[i]-b[i]); o[0]=s;' % N, [('a', N), ('b', N)], 'manhattan_distance({0},{1})', 'o[0]=%s;', n=48 if N < 4 else 16)
        # the unit normal: the projection onto the plane is orthogonal to the normal, the projection onto the vector reproduces it
        g.case('pz%d' % N, (N, N), (1,), 'o[0]=0;')
        for K in KINDS:
            d = 'vec<%s,double,%d> x(a), y(b); ' % (K, N)
            g.t('pz%d' % N, 'h' + SHORT[K], d + 'y.v.normalize(); auto p=project_to_hplane(x.v,y.v); o[0]=dot(p,y.v);')
            g.t('pz%d' % N, 'v' + SHORT[K], d + 'auto p=project_to_vector(x.v,y.v); o[0]=dot(x.v-p,y.v);')
    run('mnd1', (1, 1), 1, 'o[0]=std::fabs(a[0]-b[0]);', [('a', 1), ('b', 1)], 'manhattan_distance({0},{1})', 'o[0]=%s;', n=12)
    run('perp', (2,), 2, 'o[0]=-a[1]; o[1]=a[0];', [('a', 2)], 'perp({0})', 'auto y=%s; emitv<2>(o,y);')
    rot = A.CRS + 'double d=a[0]*b[0]+a[1]*b[1]+a[2]*b[2], x[3]; crs(b,a,x); double s=std::sin(c[0]), k=std::cos(c[0]); for(int i=0;i<3;++i) o[i]=a[i]*k+x[i]*s+b[i]*d*(1.-k);'
    run('rotv', (3, 3, 1), 3, rot, [('a', 3), ('b', 3)], 'rotate_vector({0},{1},c[0])', 'auto y=%s; emitv<3>(o,y);')
    # the operands are not changed by it
    P = 'double p=a[0]*b[1]-a[1]*b[0], d=a[0]*b[0]+a[1]*b[1]; '
    run('sa2', (2, 2), 1, P + 'o[0]=std::atan2(p,d);', [('a', 2), ('b', 2)], 'signed_angle_2D({0},{1})', 'o[0]=%s;')
    run('ua2', (2, 2), 1, P + 'o[0]=std::fabs(std::atan2(p,d));', [('a', 2), ('b', 2)], 'unsigned_angle_2D({0},{1})', 'o[0]=%s;')
    C = A.CRS + 'double x[3]; crs(a,b,x); double l=std::sqrt(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]), d=a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; '
    run('ua3', (3, 3), 1, C + 'o[0]=std::atan2(l,d);', [('a', 3), ('b', 3)], 'unsigned_angle({0},{1})', 'o[0]=%s;')
    run('sa3', (3, 3, 3), 1, C + 'double t=std::atan2(l,d); o[0]=x[0]*c[0]+x[1]*c[1]+x[2]*c[2]<0.?-t:t;', [('a', 3), ('b', 3), ('c', 3)], 'signed_angle({0},{1},{2})', 'o[0]=%s;')
    # generators
    gens = {2: ['zero_2D()', 'zero<2>()'], 3: ['zero_3D()', 'zero<3>()'], 4: ['zero_4D()', 'zero<4>()'], 1: ['zero<1>()'], 7: ['zero<7>()']}
    for N, cs in gens.items():
        g.case('zero%d' % N, (1,), (N,), 'for(int i=0;i<%d;++i) o[i]=0;' % N)
        for k, c in enumerate(cs):
            g.t('zero%d' % N, 'c%d' % k, 'auto y=%s; emitv<%d>(o,y);' % (c, N))
    for N in (1, 2, 3, 4, 7) + tuple(n for n in cutoff.above() if n != 7):
        for i in range(N):
            cs = 'axis%d%d' % (N, i)
            g.case(cs, (1,), (N,), 'for(int i=0;i<%d;++i) o[i]=i==%d;' % (N, i))
            calls = ['axis<%d>(%d)' % (N, i)]
            if N in (2, 3):
                calls += ['axis_%dD(%d)' % (N, i), '%s_axis_%dD()' % ('xyz'[i], N)]
            for k, c in enumerate(calls):
                g.t(cs, 'c%d' % k, 'auto y=%s; emitv<%d>(o,y);' % (c, N))
    # orthonormal bases: targets of every storage kind, and a target that is also an operand
    for o in AXIS + ['def']:
        for nz in (1, 0):
            if o == 'def' and not nz:
                continue
            rf = A.basis_ref('a', 'b', nz, 'zyx' if o == 'def' else o) + 'for(int i=0;i<3;++i) for(int j=0;j<3;++j) o[i*3+j]=A[i][j];'
            cs = 'ob%s%d' % (o, nz)
            g.case(cs, (3, 3), (9,), rf)
            arg = '' if o == 'def' else ',%s,axis_order_%s' % ('true' if nz else 'false', o)
            em = ' for(int i=0;i<3;++i) { o[i]=x.v[i]; o[3+i]=y.v[i]; o[6+i]=z.v[i]; }'
            for k in range(24 if full else 12):
                va, vb = opnd('p', 'a', 3, k), opnd('q', 'b', 3, 3 * k + 1)
                Ks = [KINDS[(k + m * (k % 3)) % 4] for m in range(3)]
                d = 'double n[3]={VF_ANY3}; vec<%s,double,3> x(n); vec<%s,double,3> y(n); vec<%s,double,3> z(n); ' % tuple(Ks)
                g.t(cs, va.tag + vb.tag + ''.join(SHORT[K] for K in Ks), d + va.decl + vb.decl + 'orthonormal_basis(%s,%s,x.v,y.v,z.v%s);' % (va.expr, vb.expr, arg) + em)
            for K in KINDS:
                d = 'vec<%s,double,3> x(a), y(b), z(b); ' % K
                g.t(cs, 'al' + SHORT[K], d + 'orthonormal_basis(x.v,y.v,x.v,y.v,z.v%s);' % arg + em)
                g.t(cs, 'am' + SHORT[K], d + 'vec<%s,double,3> w(a); orthonormal_basis(w.v,z.v,x.v,y.v,z.v%s);' % (K, arg) + em)
                g.t(cs, 'ex' + SHORT[K], 'double n[3]={VF_ANY3}; vec<%s,double,3> x(n), y(n), z(n), p(a), q(b); orthonormal_basis(p.v+p.v-p.v,q.v*1.,x.v,y.v,z.v%s);' % (K, arg) + em)
    for o in ('xy', 'yx', 'def'):
        for nz in (1, 0):
            if o == 'def' and not nz:
                continue
            n = 'double n[2]={a[0],a[1]}; ' + ('nrm(a,n,2); ' if nz else '')
            rf = A.NRM + n + ('o[0]=n[0]; o[1]=n[1]; o[2]=-n[1]; o[3]=n[0];' if o != 'yx' else 'o[2]=n[0]; o[3]=n[1]; o[0]=n[1]; o[1]=-n[0];')
            cs = 'o2%s%d' % (o, nz)
            g.case(cs, (2,), (4,), rf)
            arg = '' if o == 'def' else ',%s,axis_order_%s' % ('true' if nz else 'false', o)
            em = ' for(int i=0;i<2;++i) { o[i]=x.v[i]; o[2+i]=y.v[i]; }'
            for k in range(24):
                va = opnd('p', 'a', 2, k)
                Ks = [KINDS[(k // 2 + m * (k % 3)) % 4] for m in range(2)]
                d = 'double n[2]={VF_ANY2}; vec<%s,double,2> x(n); vec<%s,double,2> y(n); ' % tuple(Ks)
                g.t(cs, va.tag + ''.join(SHORT[K] for K in Ks), d + va.decl + 'orthonormal_basis_2D(%s,x.v,y.v%s);' % (va.expr, arg) + em)
            for K in KINDS:
                g.t(cs, 'al' + SHORT[K], 'vec<%s,double,2> x(a), y(a); orthonormal_basis_2D(x.v,x.v,y.v%s);' % (K, arg) + em)
                g.t(cs, 'am' + SHORT[K], 'vec<%s,double,2> x(a), y(a); orthonormal_basis_2D(y.v,x.v,y.v%s);' % (K, arg) + em)
    rep.values(g)
