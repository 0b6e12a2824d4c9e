"""The transform builders: how to call them and what each must produce, in
row-basis form (row i of B is the image of basis vector i, the last row the
translation).  References start from B = identity."""
import re
from ops import *

S3 = [(3, 3), (4, 4), (4, 3)]          # linear 3D shapes, row-basis form
A3 = [(4, 3), (4, 4)]                  # affine 3D shapes
S2 = [(2, 2), (3, 3), (3, 2)]
A2 = [(3, 2), (3, 3)]
P4 = [(4, 4), (5, 5)]
EULER = ['xyz', 'xyx', 'xzy', 'xzx', 'yzx', 'yzy', 'yxz', 'yxy', 'zxy', 'zxz', 'zyx', 'zyz']
AXIS = ['xyz', 'xzy', 'yzx', 'yxz', 'zxy', 'zyx']
KX = 'xyz'

class Vv:
    """operands of rotating storage kinds and value categories"""
    def __init__(self, seed):
        self.k = seed
        self.E = 'float' if seed % 5 == 3 else 'double'
        self.ints = None    # the operands with int elements, by array
        self.used = []
        self.decls = []
        self.tag = ''
    def __call__(self, arr, n, nm=None):
        kind = CKINDS[self.k % 6]
        form = VFORMS[(self.k // 2) % 4]
        self.k = self.k * 5 + 7
        nm = nm or 'v' + arr.replace('+', '_').replace('[', '').replace(']', '')
        self.used.append((arr, n))
        x = V(kind, form, nm, arr, n, self.E if self.ints is None else 'int' if arr in self.ints else 'double')
        self.decls.append(x.decl)
        return x.expr

class B:
    def __init__(self, name, ins, shapes, call, ref, group):
        self.name, self.ins, self.shapes, self.call, self.ref, self.group = name, ins, shapes, call, ref, group

LIST = []
def add(group, name, ins, shapes, call, ref):
    LIST.append(B(name, ins, shapes, call, ref, group))

# ---- pieces of reference code
NRM = 'auto nrm=[](const double* p,double* q,int n){ double s=0; for(int i=0;i<n;++i) s+=p[i]*p[i]; s=std::sqrt(s); for(int i=0;i<n;++i) q[i]=p[i]/s; }; '
CRS = 'auto crs=[](const double* p,const double* q,double* r){ r[0]=p[1]*q[2]-p[2]*q[1]; r[1]=p[2]*q[0]-p[0]*q[2]; r[2]=p[0]*q[1]-p[1]*q[0]; }; '
DOT = 'auto dt=[](const double* p,const double* q,int n){ double s=0; for(int i=0;i<n;++i) s+=p[i]*q[i]; return s; }; '
# B = rotation by angle t about the unit axis n (v' = v cos + (n x v) sin + n(n.v)(1-cos)), image of e_i in row i
ROD = ('auto rod=[&](const double* n,double t){ double s=std::sin(t),c=std::cos(t); for(int i=0;i<3;++i) { double e[3]={0,0,0}; e[i]=1; double x[3]; crs(n,e,x); '
       'for(int j=0;j<3;++j) B[i][j]=e[j]*c+x[j]*s+n[j]*n[i]*(1.-c); } }; ')
# M = product "first, then second" of two 3x3 maps in row form
MUL = 'auto mul=[](double (*p)[3],double (*q)[3],double (*r)[3]){ for(int i=0;i<3;++i) for(int j=0;j<3;++j) { r[i][j]=0; for(int k=0;k<3;++k) r[i][j]+=p[i][k]*q[k][j]; } }; '
# world axis rotation in row form
WAX = ('auto wax=[](double (*r)[3],int i,double s,double c){ int j=(i+1)%3,k=(i+2)%3; for(int a=0;a<3;++a) for(int b=0;b<3;++b) r[a][b]=a==b; '
       'r[j][j]=c; r[j][k]=s; r[k][j]=-s; r[k][k]=c; }; ')
DWX = ('auto dwx=[](double (*r)[3],int i,double s,double c){ int j=(i+1)%3,k=(i+2)%3; for(int a=0;a<3;++a) for(int b=0;b<3;++b) r[a][b]=0; '
       'r[j][j]=-s; r[j][k]=c; r[k][j]=-c; r[k][k]=-s; }; ')
PUT3 = 'for(int i=0;i<3;++i) for(int j=0;j<3;++j) B[i][j]=m3[i][j]; '

def idx(o):
    return [KX.index(c) for c in o]

def euler_mat(o, a='a'):
    i, j, k = idx(o)
    return (MUL + WAX + 'double r0[3][3],r1[3][3],r2[3][3],t[3][3],m3[3][3]; ' +
            ''.join('wax(r%d,%d,std::sin(%s[%d]),std::cos(%s[%d])); ' % (n, x, a, n, a, n) for n, x in enumerate((i, j, k))) +
            'mul(r0,r1,t); mul(t,r2,m3); ')

def basis_ref(al, rf, norm, order):
    """orthonormal basis in row form for the axis order"""
    i, j, k = idx(order)
    odd = (i, j, k) in ((0, 2, 1), (1, 0, 2), (2, 1, 0))
    return (NRM + CRS + 'double A[3][3]; ' + ('nrm(%s,A[%d],3); ' % (al, i) if norm else 'for(int q=0;q<3;++q) A[%d][q]=%s[q]; ' % (i, al)) +
            'double cr[3]; crs(A[%d],%s,cr); nrm(cr,A[%d],3); crs(A[%d],A[%d],A[%d]); ' % (i, rf, k, k, i, j) +
            ('for(int q=0;q<3;++q) A[%d][q]=-A[%d][q]; ' % (k, k) if odd else ''))

# ---- rotations (P14)
G = 'rot'
for ang, av in (('a[0]', 'd'), ('float(a[0])', 'f')):
    F = 'F32' if av == 'f' else ''
    add(G, 'rot2D' + F, (1,), S2, lambda v, ang=ang: 'matrix_rotation_2D(m,%s);' % ang,
        'double s=std::sin(a[0]),c=std::cos(a[0]); B[0][0]=c; B[0][1]=s; B[1][0]=-s; B[1][1]=c;')
for x in range(3):
    rf = CRS + ROD + 'double n[3]={0,0,0}; n[%d]=1; rod(n,a[0]);' % x
    add(G, 'wax%d' % x, (1,), S3, lambda v, x=x: 'matrix_rotation_world_axis(m,%d,a[0]);' % x, rf)
    add(G, 'wx%s' % KX[x], (1,), S3, lambda v, x=x: 'matrix_rotation_world_%s(m,a[0]);' % KX[x], rf)
# the formula is applied to whatever axis is given
add(G, 'axang', (3, 1), S3, lambda v: 'matrix_rotation_axis_angle(m,%s,b[0]);' % v('a', 3), CRS + ROD + 'rod(a,b[0]);')
# twice the double angle: rotating by t then by t is rotating by 2t about the same (unit) axis, checked on coordinate axes
add(G, 'quatm', (4,), S3, lambda v: '%Q matrix_rotation_quaternion(m,%q);',
    'double w=a[0],x=a[1],y=a[2],z=a[3]; double t[3][3]={{1.-2.*(y*y+z*z),2.*(x*y+z*w),2.*(x*z-y*w)},{2.*(x*y-z*w),1.-2.*(x*x+z*z),2.*(y*z+x*w)},{2.*(x*z+y*w),2.*(y*z-x*w),1.-2.*(x*x+y*y)}};'
    'for(int i=0;i<3;++i) for(int j=0;j<3;++j) B[i][j]=t[i][j];')
for nz in (0, 1):
    for o in ('xy', 'yx'):
        i = KX.index(o[0])
        add(G, 'al2D%s%d' % (o, nz), (2,), S2, lambda v, o=o, nz=nz: 'matrix_rotation_align_2D(m,%s,%s,axis_order_%s);' % (v('a', 2), 'true' if nz else 'false', o),
            NRM + 'double n[2]={a[0],a[1]}; ' + ('nrm(a,n,2); ' if nz else '') + ('B[0][0]=n[0]; B[0][1]=n[1]; B[1][0]=-n[1]; B[1][1]=n[0];' if o == 'xy' else 'B[1][0]=n[0]; B[1][1]=n[1]; B[0][0]=n[1]; B[0][1]=-n[0];'))
    for o in AXIS:
        add(G, 'al%s%d' % (o, nz), (3, 3), S3[:2] if o != 'zyx' else S3, lambda v, o=o, nz=nz: 'matrix_rotation_align(m,%s,%s,%s,axis_order_%s);' % (v('a', 3), v('b', 3), 'true' if nz else 'false', o),
            basis_ref('a', 'b', nz, o) + 'for(int i=0;i<3;++i) for(int j=0;j<3;++j) B[i][j]=A[i][j];')
add(G, 'aldef', (3, 3), S3, lambda v: 'matrix_rotation_align(m,%s,%s);' % (v('a', 3), v('b', 3)), basis_ref('a', 'b', 1, 'zyx') + 'for(int i=0;i<3;++i) for(int j=0;j<3;++j) B[i][j]=A[i][j];')
add(G, 'al2def', (2,), S2, lambda v: 'matrix_rotation_align_2D(m,%s);' % v('a', 2), NRM + 'double n[2]; nrm(a,n,2); B[0][0]=n[0]; B[0][1]=n[1]; B[1][0]=-n[1]; B[1][1]=n[0];')
for o in AXIS + ['def']:
    add(G, 'aim%s' % o, (3, 3, 3), S3[:2], lambda v, o=o: 'matrix_rotation_aim_at(m,%s,%s,%s%s);' % (v('a', 3), v('b', 3), v('c', 3), '' if o == 'def' else ',axis_order_' + o),
        'double d[3]; for(int i=0;i<3;++i) d[i]=b[i]-a[i]; ' + basis_ref('d', 'c', 1, 'zyx' if o == 'def' else o) + 'for(int i=0;i<3;++i) for(int j=0;j<3;++j) B[i][j]=A[i][j];')

# ---- Euler angles (P15)
G = 'euler'
for o in EULER:
    add(G, 'eu' + o, (3,), S3, lambda v, o=o: 'matrix_rotation_euler(m,a[0],a[1],a[2],euler_order_%s);' % o, euler_mat(o) + PUT3)
    add(G, 'euv' + o, (3,), S3[:1], lambda v, o=o: 'matrix_rotation_euler(m,%s,euler_order_%s);' % (v('a', 3), o), euler_mat(o) + PUT3)
    if o[0] != o[2]:
        for x in range(3):
            ii = idx(o)
            rf = (MUL + WAX + DWX + 'double r0[3][3],r1[3][3],r2[3][3],t[3][3],m3[3][3]; ' +
                  ''.join('%s(r%d,%d,std::sin(a[%d]),std::cos(a[%d])); ' % ('dwx' if n == x else 'wax', n, q, n, n) for n, q in enumerate(ii)) + 'mul(r0,r1,t); mul(t,r2,m3); ' + PUT3)
            add(G, 'ed%s%d' % (o, x), (3,), S3[:2], lambda v, o=o, x=x: 'matrix_rotation_euler_derivatives(m,%d,a[0],a[1],a[2],euler_order_%s);' % (x, o), rf)
            add(G, 'edv%s%d' % (o, x), (3,), S3[:1], lambda v, o=o, x=x: 'matrix_rotation_euler_derivatives(m,%d,%s,euler_order_%s);' % (x, v('a', 3), o), rf)

# ---- affine builders (P17)
G = 'affine'
T2 = 'B[2][0]=a[0]; B[2][1]=a[1]; '
T3 = 'B[3][0]=a[0]; B[3][1]=a[1]; B[3][2]=a[2]; '
A2x = A2 + [(4, 4)]
A3x = A3 + [(5, 5)]
add(G, 'tr2', (2,), A2x, lambda v: 'matrix_translation_2D(m,a[0],a[1]);', T2)
add(G, 'tr2v', (2,), A2, lambda v: 'matrix_translation_2D(m,%s);' % v('a', 2), T2)
add(G, 'tr3', (3,), A3x, lambda v: 'matrix_translation(m,a[0],a[1],a[2]);', T3)
add(G, 'tr3v', (3,), A3, lambda v: 'matrix_translation(m,%s);' % v('a', 3), T3)
add(G, 'tr32', (2,), A3, lambda v: 'matrix_translation(m,a[0],a[1]);', 'B[3][0]=a[0]; B[3][1]=a[1]; ')
add(G, 'sc2', (2,), A2x, lambda v: 'matrix_scale_2D(m,a[0],a[1]);', 'B[0][0]=a[0]; B[1][1]=a[1];')
add(G, 'sc2v', (2,), A2, lambda v: 'matrix_scale_2D(m,%s);' % v('a', 2), 'B[0][0]=a[0]; B[1][1]=a[1];')
add(G, 'us2', (1,), A2, lambda v: 'matrix_uniform_scale_2D(m,a[0]);', 'B[0][0]=a[0]; B[1][1]=a[0];')
add(G, 'is2', (2,), A2, lambda v: 'matrix_inverse_scale_2D(m,a[0],a[1]);', 'B[0][0]=1./a[0]; B[1][1]=1./a[1];')
add(G, 'is2v', (2,), A2, lambda v: 'matrix_inverse_scale_2D(m,%s);' % v('a', 2), 'B[0][0]=1./a[0]; B[1][1]=1./a[1];')
add(G, 'sc3', (3,), A3x, lambda v: 'matrix_scale(m,a[0],a[1],a[2]);', 'for(int i=0;i<3;++i) B[i][i]=a[i];')
add(G, 'sc3v', (3,), A3, lambda v: 'matrix_scale(m,%s);' % v('a', 3), 'for(int i=0;i<3;++i) B[i][i]=a[i];')
add(G, 'us3', (1,), A3, lambda v: 'matrix_uniform_scale(m,a[0]);', 'for(int i=0;i<3;++i) B[i][i]=a[0];')
add(G, 'is3', (3,), A3, lambda v: 'matrix_inverse_scale(m,a[0],a[1],a[2]);', 'for(int i=0;i<3;++i) B[i][i]=1./a[i];')
add(G, 'is3v', (3,), A3, lambda v: 'matrix_inverse_scale(m,%s);' % v('a', 3), 'for(int i=0;i<3;++i) B[i][i]=1./a[i];')
Z0 = 'for(int i=0;i<5;++i) for(int j=0;j<5;++j) B[i][j]=0; '
add(G, 'skew', (3,), S3, lambda v: 'matrix_skew_symmetric(m,%s);' % v('a', 3), Z0 + CRS + 'for(int i=0;i<3;++i) { double e[3]={0,0,0}; e[i]=1; double x[3]; crs(a,e,x); for(int j=0;j<3;++j) B[i][j]=x[j]; }')
add(G, 'skew2', (1,), S2, lambda v: 'matrix_skew_symmetric_2D(m,a[0]);', Z0 + 'B[0][1]=a[0]; B[1][0]=-a[0];')
add(G, 'aff', (3, 1, 3), A3, lambda v: 'matrix_affine_transform(m,%s,b[0],%s);' % (v('a', 3), v('c', 3)), CRS + ROD + 'rod(a,b[0]); for(int j=0;j<3;++j) B[3][j]=c[j];')
add(G, 'affn', (3, 1, 3), A3, lambda v: 'matrix_affine_transform(m,%s,b[0],%s,true);' % (v('a', 3), v('c', 3)), CRS + NRM + ROD + 'double n[3]; nrm(a,n,3); rod(n,b[0]); for(int j=0;j<3;++j) B[3][j]=c[j];')
add(G, 'affnf', (3, 1, 3), A3[:1], lambda v: 'matrix_affine_transform(m,%s,b[0],%s,false);' % (v('a', 3), v('c', 3)), CRS + ROD + 'rod(a,b[0]); for(int j=0;j<3;++j) B[3][j]=c[j];')
# in place operations start from the inputs
def initm(r, c):
    return 'for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) B[i][j]=%%s[i*%d+j]; ' % (r, c, c)
for (r, c) in A2x:
    add(G, 'st2_%d%d' % (r, c), (2, r * c), [(r, c)], lambda v: '%I matrix_set_translation_2D(m,a[0],a[1]);', initm(r, c) % 'b' + T2)
    add(G, 'st2v_%d%d' % (r, c), (2, r * c), [(r, c)], lambda v: '%%I matrix_set_translation_2D(m,%s);' % v('a', 2), initm(r, c) % 'b' + T2)
for (r, c) in A3x:
    add(G, 'st3_%d%d' % (r, c), (3, r * c), [(r, c)], lambda v: '%I matrix_set_translation(m,a[0],a[1],a[2]);', initm(r, c) % 'b' + T3)
    add(G, 'st3v_%d%d' % (r, c), (3, r * c), [(r, c)], lambda v: '%%I matrix_set_translation(m,%s);' % v('a', 3), initm(r, c) % 'b' + T3)
    add(G, 'st32_%d%d' % (r, c), (2, r * c), [(r, c)], lambda v: '%I matrix_set_translation(m,a[0],a[1]);', initm(r, c) % 'b' + 'B[3][0]=a[0]; B[3][1]=a[1]; B[3][2]=0;')
# rigid inverses: v -> (v - p) R^T for rigid v -> v R + p
for (r, c) in A2:
    add(G, 'rt2_%d%d' % (r, c), (r * c, r * c), [(r, c)], lambda v: '%I matrix_invert_RT_only_2D(m);',
        initm(r, c) % 'b' + 'for(int i=0;i<2;++i) for(int j=0;j<2;++j) B[i][j]=b[j*%d+i]; for(int i=0;i<2;++i) { B[2][i]=0; for(int j=0;j<2;++j) B[2][i]-=b[2*%d+j]*b[i*%d+j]; }' % (c, c, c))
for (r, c) in A3:
    add(G, 'rt3_%d%d' % (r, c), (r * c, r * c), [(r, c)], lambda v: '%I matrix_invert_RT_only(m);',
        initm(r, c) % 'b' + 'for(int i=0;i<3;++i) for(int j=0;j<3;++j) B[i][j]=b[j*%d+i]; for(int i=0;i<3;++i) { B[3][i]=0; for(int j=0;j<3;++j) B[3][i]-=b[3*%d+j]*b[i*%d+j]; }' % (c, c, c))
for (r, c) in A2 + A3 + [(2, 2), (5, 5), (5, 4)]:
    n = r - 1
    add(G, 'rtn_%d%d' % (r, c), (r * c, r * c), [(r, c)], lambda v: '%I matrix_invert_RT(m);',
        initm(r, c) % 'b' + 'for(int i=0;i<{n};++i) for(int j=0;j<{n};++j) B[i][j]=b[j*{c}+i]; for(int i=0;i<{n};++i) {{ B[{n}][i]=0; for(int j=0;j<{n};++j) B[{n}][i]-=b[{n}*{c}+j]*b[i*{c}+j]; }}'.format(n=n, c=c))
for (r, c) in S3:
    add(G, 'lin_%d%d' % (r, c), (3 * 3, r * c), S3, lambda v: '%L matrix_linear_transform(m,%l);', 'for(int i=0;i<3;++i) for(int j=0;j<3;++j) B[i][j]=a[i*3+j];') if (r, c) == (3, 3) else None
add(G, 'affl', (9, 3), A3, lambda v: '%%L matrix_affine_transform(m,%%l,%s);' % v('b', 3), 'for(int i=0;i<3;++i) for(int j=0;j<3;++j) B[i][j]=a[i*3+j]; for(int j=0;j<3;++j) B[3][j]=b[j];')

# ---- projections (P19)
G = 'proj'
def ortho(h, z, l='a[0]', r='a[1]', b='a[2]', t='a[3]', n='a[4]', f='a[5]'):
    s = '1.' if h == 'left_handed' else '-1.'
    return ('double l={l},r={r},b={b},t={t},n={n},f={f},s={s}; B[0][0]=2./(r-l); B[1][1]=2./(t-b); B[3][0]=-(r+l)/(r-l); B[3][1]=-(t+b)/(t-b); ' +
            ('B[2][2]=2.*s/(f-n); B[3][2]=-(f+n)/(f-n);' if z == 'z_clip_neg_one' else 'B[2][2]=s/(f-n); B[3][2]=-n/(f-n);')).format(l=l, r=r, b=b, t=t, n=n, f=f, s=s)
def persp(h, z, l='a[0]', r='a[1]', b='a[2]', t='a[3]', n='a[4]', f='a[5]'):
    s = '1.' if h == 'left_handed' else '-1.'
    return ('double n={n},f={f},s={s},l={l},r={r},b={b},t={t}; B[3][3]=0; B[2][3]=s; B[0][0]=2.*n/(r-l); B[1][1]=2.*n/(t-b); B[2][0]=-s*(r+l)/(r-l); B[2][1]=-s*(t+b)/(t-b); ' +
            ('B[2][2]=s*(f+n)/(f-n); B[3][2]=-2.*f*n/(f-n);' if z == 'z_clip_neg_one' else 'B[2][2]=s*f/(f-n); B[3][2]=-n*f/(f-n);')).format(l=l, r=r, b=b, t=t, n=n, f=f, s=s)
H = {'left_handed': 'LH', 'right_handed': 'RH'}
for h in H:
    for z in ('z_clip_neg_one', 'z_clip_zero'):
        tg = H[h] + z[7]
        for nm, fn, rf in (('or', 'orthographic', ortho), ('pe', 'perspective', persp)):
            wh = dict(l='-a[0]/2.', r='a[0]/2.', b='-a[1]/2.', t='a[1]/2.', n='a[2]', f='a[3]')
            add(G, nm + tg, (6,), P4, lambda v, fn=fn, h=h, z=z: 'matrix_%s(m,a[0],a[1],a[2],a[3],a[4],a[5],%s,%s);' % (fn, h, z), rf(h, z))
            add(G, nm + 'n' + tg, (6,), P4[:1], lambda v, fn=fn, h=h, z=z: 'matrix_%s_%s(m,a[0],a[1],a[2],a[3],a[4],a[5],%s);' % (fn, H[h], z), rf(h, z))
            add(G, nm + 'w' + tg, (4,), P4, lambda v, fn=fn, h=h, z=z: 'matrix_%s(m,a[0],a[1],a[2],a[3],%s,%s);' % (fn, h, z), rf(h, z, **wh))
            add(G, nm + 'wn' + tg, (4,), P4[:1], lambda v, fn=fn, h=h, z=z: 'matrix_%s_%s(m,a[0],a[1],a[2],a[3],%s);' % (fn, H[h], z), rf(h, z, **wh))
        # xfov: half width = n tan(fov/2), height = width / aspect; yfov: half height = n tan(fov/2), width = height * aspect
        xf = dict(l='-a[2]*std::tan(a[0]/2.)', r='a[2]*std::tan(a[0]/2.)', b='-a[2]*std::tan(a[0]/2.)/a[1]', t='a[2]*std::tan(a[0]/2.)/a[1]', n='a[2]', f='a[3]')
        yf = dict(l='-a[2]*std::tan(a[0]/2.)*a[1]', r='a[2]*std::tan(a[0]/2.)*a[1]', b='-a[2]*std::tan(a[0]/2.)', t='a[2]*std::tan(a[0]/2.)', n='a[2]', f='a[3]')
        for nm, w in (('xfov', xf), ('yfov', yf)):
            add(G, nm + tg, (4,), P4, lambda v, nm=nm, h=h, z=z: 'matrix_perspective_%s(m,a[0],a[1],a[2],a[3],%s,%s);' % (nm, h, z), persp(h, z, **w))
            add(G, nm + 'n' + tg, (4,), P4[:1], lambda v, nm=nm, h=h, z=z: 'matrix_perspective_%s_%s(m,a[0],a[1],a[2],a[3],%s);' % (nm, H[h], z), persp(h, z, **w))

# ---- look-at (P21): position a, target b, up c
G = 'look'
def look(h):
    return (NRM + CRS + DOT + 'double s=%s; double d[3],x[3],y[3],z[3],t[3]; for(int i=0;i<3;++i) d[i]=s*(b[i]-a[i]); nrm(d,z,3); crs(c,z,t); nrm(t,x,3); crs(z,x,y); ' % ('1.' if h == 'left_handed' else '-1.') +
            'for(int i=0;i<3;++i) { B[i][0]=x[i]; B[i][1]=y[i]; B[i][2]=z[i]; } B[3][0]=-dt(a,x,3); B[3][1]=-dt(a,y,3); B[3][2]=-dt(a,z,3);')
for h in H:
    add(G, 'la' + H[h], (3, 3, 3), A3x, lambda v, h=h: 'matrix_look_at(m,%s,%s,%s,%s);' % (v('a', 3), v('b', 3), v('c', 3), h), look(h))
    add(G, 'lan' + H[h], (3, 3, 3), A3, lambda v, h=h: 'matrix_look_at_%s(m,%s,%s,%s);' % (H[h], v('a', 3), v('b', 3), v('c', 3)), look(h))

def generate(g, groups, full, bases=RC, ref=True, pick=None):
    """cases for every builder of the groups"""
    n = 0
    for q, b in enumerate(LIST):
        if b.group not in groups:
            continue
        for s, (r, c) in enumerate(b.shapes):
            cs = '%s_%d%d' % (b.name.replace('_', 'x'), r, c)
            if ref is True:
                rb = ('{ double B[5][5]; for(int i=0;i<5;++i) for(int j=0;j<5;++j) B[i][j]=i==j?1.:0.; ' + b.ref +
                      ' for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) o[i*%d+j]=B[i][j]; }' % (r, c, c))
            else:
                rb = ref(b, r, c)
            # what the matrix held before the call is one more input
            g.case(cs, b.ins + (() if '%I' in b.call(Vv(0)) else (r * c,)), (r * c,), rb)
            for Bs in bases:
                for k, K in enumerate(KINDS):
                    for l, L in enumerate(LAYOUTS):
                        n += 1
                        if not full and (k + l + s + q) % 4 and not (s == 0 and k == 0):
                            continue
                        if pick is not None and not pick(K, L, Bs, n):
                            continue
                        g.t(cs, SHORT[K] + SHORT[Bs] + SHORT[L], text(b, r, c, K, Bs, L, n) + ' emitb<%d,%d>(o, m);' % (r, c))
            if ref is True and s == 0 and pick is None and b.group in INTS:
                n = mixed(g, b, r, c, cs, rb, n, full)

INTS = ('proj', 'affine', 'euler', 'rot', 'look')
SCALAR = re.compile(r'(?<![\w\[])([abc])\[(\d)\]')

def mixed(g, b, r, c, cs, rb, n, full):
    """the same with some of the arguments of an integer type: not angles, whose
    sine and cosine have the type of the angle, and not what is normalised in place"""
    v = Vv(0)
    sc = sorted(set(SCALAR.findall(b.call(v))))
    if 'std::sin' in b.ref or 'std::tan' in b.ref:
        sc = []
    vs = [x for x in v.used if len(x[0]) == 1 and not any(f + x[0] in b.ref for f in ('nrm(', 'std::sin(')) and not (x[0] == 'a' and b.name.startswith('al'))]
    if any(len(x[0]) > 1 for x in v.used):
        return n
    masks = []
    if b.group == 'proj':
        vs, masks = [], [sc] if sc else []      # one type for all bounds
    elif len(sc) > 1:
        masks += [sc[0::2], sc[1::2]]
    masks += [[x] for x in vs] + ([sc] if sc and (vs or len(sc) == 1) else [])
    for q, m in enumerate(masks):
        ci = cs + 'i%d' % q
        fix, shadow = '', []
        for k, arr in enumerate('abcdefgh'[:len(b.ins)]):
            ii = [i for i in range(b.ins[k]) if (arr, str(i)) in m or (arr, b.ins[k]) in m]
            if ii:
                fix += ('double %s_[%d]; ' % (arr, b.ins[k]) + 'for(int i=0;i<%d;++i) %s_[i]=%s[i]; ' % (b.ins[k], arr, arr) +
                        ' '.join('%s_[%d]=(double)(int)%s[%d];' % (arr, i, arr, i) for i in ii) + ' ')
                shadow.append(arr)
        g.case(ci, b.ins + (() if '%I' in b.call(Vv(0)) else (r * c,)), (r * c,), fix + '{ ' + ' '.join('const double* %s=%s_;' % (x, x) for x in shadow) + rb + ' }')
        for Bs in RC:
            for k, K in enumerate(KINDS):
                n += 1
                if not full and (k + q) % 2:
                    continue
                L = LAYOUTS[n % 2]
                g.t(ci, SHORT[K] + SHORT[Bs] + SHORT[L], text(b, r, c, K, Bs, L, n, m) + ' emitb<%d,%d>(o, m);' % (r, c))
    return n

def text(b, r, c, K, Bs, L, n, ints=None):
    v = Vv(n)
    if ints is not None:
        v.ints = [x[0] for x in ints if isinstance(x[1], int)]
    call = b.call(v)
    if ints is not None:
        call = SCALAR.sub(lambda x: 'int(%s)' % x.group(0) if x.groups() in ints else x.group(0), call)
    pre = ''
    rr, cc = (r, c) if Bs == 'row_basis' else (c, r)
    # the matrix starts as the last input, in row form
    a = 'abcdefgh'[len(b.ins) - ('%I' in call)]
    init = ('double M0[%d]; for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) M0[%s]=%s[i*%d+j]; ' % (r * c, r, c, 'i*%d+j' % c if Bs == 'row_basis' else 'j*%d+i' % r, a, c))
    call = call.replace('%I', '')
    if '%Q' in call:
        qd = Q(VFORMS[n % 4], 'qq', 'a', ORDERS[n // 3 % 2], CROSSES[n // 5 % 2])
        pre += qd.decl + ' '
        call = call.replace('%Q', '').replace('%q', qd.expr)
    if '%L' in call:
        # a linear source of either basis, memory order and shape
        lb = RC[(n // 2) % 2]
        lr, lcn = [(3, 3), (4, 4), (3, 4), (4, 3)][n % 4]
        x = M(KINDS[n % 4], VFORMS[n // 3 % 4], 'lin', 'l0', lr, lcn, lb, LAYOUTS[n // 4 % 2])
        pre += ('double l0[%d]={%s}; for(int i=0;i<3;++i) for(int j=0;j<3;++j) l0[%s]=a[i*3+j]; ' % (lr * lcn, ','.join(['5.'] * (lr * lcn)), 'i*%d+j' % lcn if lb == 'row_basis' else 'j*%d+i' % lcn)) + x.decl + ' '
        call = call.replace('%L', '').replace('%l', x.expr)
    return init + 'mat<%s,double,%d,%d,%s,%s> mm(M0); auto& m=mm.v; ' % (K, rr, cc, Bs, L) + pre + ' '.join(v.decls) + ' ' + call
