"""Reading a rotation back inverts building it.  The rotations are given by
their parameters (a unit axis and the sine and cosine of an angle, a unit
quaternion, or three angles), the matrix elements follow from Rodrigues'
formula or the composition of axis rotations, and what is read back is stated
in the parameters.  Paths on which the rotation is within the tolerance of a
degenerate one, but not equal to it, are left open by the references."""
from harness import Gen
from ops import *
import builders
from builders import CRS, MUL, WAX, EULER, idx

# a unit axis n from two inputs and the sign of the third component
def axis(p, sg):
    z = '%sstd::sqrt(1.-%s[0]*%s[0]-%s[1]*%s[1])' % (('-' if sg else ''), p, p, p, p)
    i, j, k = [(0, 1, 2), (1, 2, 0), (2, 0, 1)][sg % 3 if sg else 0]
    return 'double n[3]; n[%d]=%s[0]; n[%d]=%s[1]; n[%d]=%s; ' % (i, p, j, p, k, z)

# R = rotation about n with sine s, cosine c; image of e_i in row i
RODSC = (CRS + 'double R[3][3]; for(int i=0;i<3;++i) { double e[3]={0,0,0}; e[i]=1; double x[3]; crs(n,e,x); '
         'for(int j=0;j<3;++j) R[i][j]=e[j]*c+x[j]*s+n[j]*n[i]*(1.-c); } ')
HALFT = 'if(!(1.-a[0]*a[0]-a[1]*a[1]>=0.)) __builtin_unreachable(); '

def euler_sc(o, ang):
    """the product of the axis rotations; ang: (sine, cosine) texts"""
    return (MUL + WAX + 'double r0[3][3],r1[3][3],r2[3][3],t[3][3],R[3][3]; ' +
            ''.join('wax(r%d,%d,%s,%s); ' % (n, x, ang[n][0], ang[n][1]) for n, x in enumerate(idx(o))) + 'mul(r0,r1,t); mul(t,r2,R); ')

def parity(o):
    i, j = idx(o)[:2]
    return (i + 1) % 3 != j     # odd

class Mats:
    """the matrix with the linear part R, of every kind, shape, basis and memory order in turn"""
    def __init__(self):
        self.n = 0
    def each(self, full, E='double'):
        for Bs in RC:
            for L in LAYOUTS:
                for k, K in enumerate(KINDS):
                    for s, (r, c) in enumerate(builders.S3):
                        self.n += 1
                        if not full and (k + s) % 3:
                            continue
                        yield self.one(K, r, c, Bs, L, VFORMS[self.n % 4], E)
    def rot(self, E='double'):
        self.n += 1
        n = self.n
        r, c = builders.S3[n % 3]
        return self.one(KINDS[n % 4], r, c, RC[n // 4 % 2], LAYOUTS[n // 8 % 2], VFORMS[n // 16 % 4], E)
    def one(self, K, r, c, Bs, L, f, E):
        rr, cc = (r, c) if Bs == 'row_basis' else (c, r)
        d = ('double M0[%d]={%s}; for(int i=0;i<3;++i) for(int j=0;j<3;++j) M0[%s]=R[i][j]; ' % (
            r * c, ','.join('vf_any(%d)' % z for z in range(r * c)), 'i*%d+j' % c if Bs == 'row_basis' else 'j*%d+i' % r))
        m = M(K, f, 'mm', 'M0', rr, cc, Bs, L, E)
        return d + m.decl + ' ', m.expr, '%d%d' % (r, c) + m.tag

VT = ['vector<double,compiled<3>>', 'vector<double,dynamic<>>']

def wvec(k):
    """a vector to write to"""
    return 'double w0[3]={VF_ANY3}; vec<%s,double,3> x(w0); ' % KINDS[k % 4]

def aa_calls(src, fn, k, tol):
    """the ways of reading an axis and angle, storing it to o"""
    t = ',' + tol if tol else ''
    put = 'for(int i=0;i<3;++i) o[i]=%s[i]; o[3]=%s;'
    yield 'o', wvec(k) + 'double an=9; %s(%s,x.v,an%s); ' % (fn, src, t) + put % ('x.v', 'an')
    yield 't', 'auto tp=%s(%s%s); ' % (fn, src, t) + put % ('std::get<0>(tp)', 'std::get<1>(tp)')
    yield 'e', 'vector<double,dynamic<>> x; double an=9; %s(%s,x,an%s); ' % (fn, src, t) + put % ('x', 'an')

def eu_calls(src, fn, k, o, tol):
    t = ',' + tol if tol else ''
    od = 'euler_order_' + o
    put = 'for(int i=0;i<3;++i) o[i]=x[i];'
    yield 'o', 'double e0=9,e1=9,e2=9; %s(%s,e0,e1,e2,%s%s); o[0]=e0; o[1]=e1; o[2]=e2;' % (fn, src, od, t)
    yield 'r', 'auto x=%s(%s,%s%s); ' % (fn, src, od, t) + put
    yield 'v', 'auto x=%s<%s>(%s,%s%s); ' % (fn, VT[k % 2], src, od, t) + put

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    ms = Mats()
    n = 0
    EPS = '2.220446049250313e-16'
    for sg in range(4):
        UN = axis('a', sg)
        # ---- axis and angle from a matrix: the sine is b[0], the cosine of either sign
        for cs in (0, 1):
            for tol in ('', 'd', '0'):
                SC = 'double s=b[0],c=%sstd::sqrt(1.-s*s); ' % ('-' if cs else '')
                T = {'': EPS, 'd': 'c_[0]', '0': '0.'}[tol]
                nm = 'maa%d%d%s' % (sg, cs, tol)
                ref = (HALFT + 'if(!(1.-b[0]*b[0]>=0.)) __builtin_unreachable(); ' + UN + SC + 'double l=std::sqrt(4.*s*s); if(l>%s) { for(int i=0;i<3;++i) o[i]=2.*s*n[i]/l; o[3]=std::atan2(l,2.*c); } '
                       'else if(c>0.) { for(int i=0;i<4;++i) o[i]=0; } else __builtin_unreachable();' % T)
                g.case(nm, (2, 1, 1), (4,), 'const double (&c_)[1]=c; { ' + ref + ' }')
                it = ms.each(full) if (sg, tol) == (0, '') else [ms.rot() for _ in range(8 if full else 4)]
                for d, e, tag in it:
                    n += 1
                    calls = list(aa_calls(e, 'matrix_to_axis_angle', n, {'': '', 'd': 'c_[0]', '0': '0.'}[tol]))
                    for q, call in calls if full else calls[n % 3:n % 3 + 1]:
                        g.t(nm, '%d' % n + q + tag, 'const double (&c_)[1]=c; { ' + UN + SC + RODSC + d + call + ' }')
        # ---- half turns: the axis up to sign, the angle pi
        SC = 'double s=0.,c=-1.; '
        nm = 'mpi%d' % sg
        # the sign of the axis is free
        g.case(nm, (2,), (7,), HALFT + UN + 'for(int i=0,k=0;i<3;++i) for(int j=i;j<3;++j) o[k++]=n[i]*n[j]; o[6]=3.14159265358979323846;')
        for _ in range(16 if full else 6):
            d, e, tag = ms.rot()
            n += 1
            for q, call in aa_calls(e, 'matrix_to_axis_angle', n, ['', '0.', '1e-6'][n % 3]):
                g.t(nm, '%d' % n + q + tag, 'double z9[4]; { double (&o)[4]=z9; ' + UN + SC + RODSC + d + call + ' } for(int i=0,k=0;i<3;++i) for(int j=i;j<3;++j) o[k++]=z9[i]*z9[j]; o[6]=z9[3];')
        # ---- quaternion from a matrix: half angle with cosine b[0]
        SH = 'double w=b[0],h=std::sqrt(1.-w*w); double s=2.*h*w,c=2.*w*w-1.; '
        nm = 'qm%d' % sg
        # the sign of the quaternion is free
        g.case(nm, (2, 1), (10,), HALFT + 'if(!(1.-b[0]*b[0]>=0.)) __builtin_unreachable(); ' + UN + SH + 'double Q[4]={w,h*n[0],h*n[1],h*n[2]}; '
               'for(int i=0,k=0;i<4;++i) for(int j=i;j<4;++j) o[k++]=Q[i]*Q[j];')
        for d, e, tag in (ms.each(full) if sg == 0 else [ms.rot() for _ in range(8 if full else 4)]):
            n += 1
            for k, od in enumerate(ORDERS):
                g.t(nm, '%d' % n + tag + SHORT[od], UN + SH + RODSC + d + 'double z0[4]={VF_ANY4}; quat<double,%s,%s> q(z0); quaternion_rotation_matrix(q.v,%s); double z9[4]; emitq(z9,q.v); for(int i=0,k=0;i<4;++i) for(int j=i;j<4;++j) o[k++]=z9[i]*z9[j];' % (od, CROSSES[(n + k) % 2], e))
    # ---- axis and angle from a quaternion, unit or not
    for tol in ('', 'd', '0'):
        nm = 'qaa' + tol
        T = {'': EPS, 'd': 'b[0]', '0': '0.'}[tol]
        g.case(nm, (4, 1), (4,), 'double l=std::sqrt(a[1]*a[1]+a[2]*a[2]+a[3]*a[3]); if(l>%s) { for(int i=0;i<3;++i) o[i]=a[i+1]/l; o[3]=2.*std::atan2(l,a[0]); } else for(int i=0;i<4;++i) o[i]=0;' % T)
        for od in ORDERS:
            for cx in CROSSES:
                for f in VFORMS:
                    n += 1
                    q = Q(f, 'qq', 'a', od, cx)
                    for t, call in aa_calls(q.expr, 'quaternion_to_axis_angle', n, {'': '', 'd': 'b[0]', '0': '0.'}[tol]):
                        g.t(nm, q.tag + t, q.decl + ' ' + call)
    # ---- Euler angles
    SA = [('std::sin(a[%d])' % i, 'std::cos(a[%d])' % i) for i in range(3)]
    for o in EULER:
        odd = parity(o)
        rpt = o[0] == o[2]
        ii = idx(o)
        qd = (builders_ham() + ''.join('double q%d[4]={std::cos(a[%d]/2.),0,0,0}; q%d[%d]=std::sin(a[%d]/2.); ' % (k, k, k, x + 1, k) for k, x in enumerate(ii)) + 'double t4[4],Q[4]; ham(q2,q1,t4); ham(t4,q0,Q); ')
        for tol in ('', 'd'):
            T = {'': EPS, 'd': 'b[0]'}[tol]
            nm = 'eu' + o + tol
            pre = 'double s=std::sin(a[1]),c=std::cos(a[1]); '
            if rpt:
                sg = '-' if odd else ''
                ref = pre + 'double h=std::sqrt(s*s); if(!(h>%s)) __builtin_unreachable(); o[0]=std::atan2(%ss*std::sin(a[0]),%ss*std::cos(a[0])); o[1]=%sstd::atan2(h,c); o[2]=std::atan2(%ss*std::sin(a[2]),%ss*std::cos(a[2]));' % (T, sg, sg, sg, sg, sg)
            else:
                ref = pre + 'double h=std::sqrt(c*c); if(!(h>%s)) __builtin_unreachable(); o[0]=std::atan2(c*std::sin(a[0]),c*std::cos(a[0])); o[1]=std::atan2(s,h); o[2]=std::atan2(c*std::sin(a[2]),c*std::cos(a[2]));' % T
            g.case(nm, (3, 1), (3,), ref)
            ta = {'': '', 'd': 'b[0]'}[tol]
            for d, e, tag in (ms.each(True) if full and not tol else [ms.rot() for _ in range(6 if tol == '' else 2)]):
                n += 1
                calls = list(eu_calls(e, 'matrix_to_euler', n, o, ta))
                for q, call in calls[n % 3:n % 3 + 1]:
                    g.t(nm, '%d' % n + q + tag, euler_sc(o, SA) + d + call)
            for od in ORDERS:
                for cx in CROSSES:
                    n += 1
                    q = Q(VFORMS[n % 4], 'qq', 'Q', od, cx)
                    calls = list(eu_calls(q.expr, 'quaternion_to_euler', n, o, ta))
                    for t, call in calls[n % 3:n % 3 + 1]:
                        g.t(nm, 'q' + t + q.tag, qd + q.decl + ' ' + call)
        # degenerate middle angles
        for sg in (1, -1):
            nm = 'ed%s%s' % (o, 'p' if sg > 0 else 'n')
            mid = ('0.', '%d.' % sg) if rpt else ('%d.' % sg, '0.')
            ang = [SA[0], mid, SA[2]]
            rel = -sg if (rpt == False) != odd else sg
            if rpt:
                rel = sg
                a1 = ('0.' if sg > 0 else ('-' if odd else '') + '3.14159265358979323846')
            else:
                rel = sg if odd else -sg
                a1 = '%s1.57079632679489661923' % ('-' if sg < 0 else '')
            g.case(nm, (3,), (3,), 'double x=a[2]%sa[0]; o[0]=0; o[1]=%s; o[2]=std::atan2(std::sin(x),std::cos(x));' % ('+' if rel > 0 else '-', a1))
            for _ in range(6 if full else 3):
                d, e, tag = ms.rot()
                n += 1
                for q, call in eu_calls(e, 'matrix_to_euler', n, o, ['', '1e-6', '0.'][n % 3]):
                    g.t(nm, '%d' % n + q + tag, euler_sc(o, ang) + d + call)
    rep.values(g)

def builders_ham():
    return ('auto ham=[](const double* p,const double* q,double* r){ r[0]=p[0]*q[0]-p[1]*q[1]-p[2]*q[2]-p[3]*q[3]; r[1]=p[0]*q[1]+q[0]*p[1]+p[2]*q[3]-p[3]*q[2]; '
            'r[2]=p[0]*q[2]+q[0]*p[2]+p[3]*q[1]-p[1]*q[3]; r[3]=p[0]*q[3]+q[0]*p[3]+p[1]*q[2]-p[2]*q[1]; }; ')
