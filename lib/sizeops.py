"""The size-checked operations: operands, the sizes tried, and for which sizes
the operation must be refused (and with which error).

An operand is one of
  V   vector, size n
  M   matrix, size (r, c)
  B   matrix used as a transform: (r, c) counts basis vectors x coordinates,
      i.e. the shape of the row-basis form
with role r (read: any kind and value category) or w (written: a named object).
"""
IVS, MVS, VSE, VRE = 'incompatible_vector_size_error', 'minimum_vector_size_error', 'vector_size_error', 'vector_size_range_error'
IMS, MMS, MSE = 'incompatible_matrix_size_error', 'minimum_matrix_size_error', 'matrix_size_error'
IMR, IMC, IMI, NSQ = 'incompatible_matrix_row_size_error', 'incompatible_matrix_col_size_error', 'incompatible_matrix_inner_size_error', 'non_square_matrix_error'
AFF, QSE = 'affine_matrix_size_error', 'quaternion_size_error'
RUNTIME = {'KD', 'KX', 'KY'}

class Op:
    def __init__(self, name, operands, text, conds, sizes, watch=True, decl='', res=None, fixed=True, run=True, bound=None, noforms=()):
        self.name, self.operands, self.text, self.conds, self.sizes = name, operands, text, conds, sizes
        self.watch, self.decl, self.res, self.fixed, self.run = watch, decl, res, fixed, run
        self.noforms = noforms

# conditions: (error, operands, predicate on the list of sizes); `violated`
# evaluates them.  A condition may depend on the storage kind of a target that
# is resized instead of refused: `nodyn` names that operand.
def same(i, j, e=IVS, nodyn=None):
    return (e, (i, j), lambda s: s[i] == s[j], nodyn)
def vs(i, n, e=VSE, nodyn=None):
    return (e, (i,), lambda s: s[i] == n, nodyn)
def vmin(i, n=1):
    return (MVS, (i,), lambda s: s[i] >= n, None)
def vrange(i, lo, hi):
    return (VRE, (i,), lambda s: lo <= s[i] <= hi, None)
def mmin(i, r, c):
    return (MMS, (i,), lambda s: s[i][0] >= r and s[i][1] >= c, None)
def mex(i, r, c, e=MSE, nodyn=None):
    return (e, (i,), lambda s: s[i] == (r, c), nodyn)
def sq(i):
    return (NSQ, (i,), lambda s: s[i][0] == s[i][1], None)
def mm(i, j):
    return (IMI, (i, j), lambda s: s[i][1] == s[j][0], None)
def mv(i, j):
    return (IMI, (i, j), lambda s: s[i][1] == s[j], None)
def vm(i, j):
    return (IMI, (i, j), lambda s: s[i] == s[j][0], None)
def lin(i, n, e=MSE):
    return (e, (i,), lambda s: s[i][0] * s[i][1] == n, None)
def aff(i):
    return (AFF, (i,), lambda s: s[i][0] in (s[i][1], s[i][1] + 1), None)

def violated(op, sizes, kinds):
    out = []
    for e, idx, pred, nodyn in op.conds:
        if callable(nodyn):
            if nodyn(kinds):
                continue
        elif nodyn is not None and kinds[nodyn] == 'KD':
            continue
        if not pred(sizes):
            out.append((e, idx))
    return out

S1 = [(n,) for n in (1, 2, 3, 4, 5)]
P2 = [(a, b) for a in (1, 2, 3, 4) for b in (1, 2, 3, 4)]
P2Z = P2 + [(0, 2), (2, 0)]
M1 = [((r, c),) for r in (1, 2, 3, 4, 5) for c in (1, 2, 3, 4, 5)]
MMALL = [((r, c), (k, l)) for r in (1, 2, 3) for c in (1, 2, 3) for k in (1, 2, 3) for l in (1, 2, 3)]
MVALL = [((r, c), n) for r in (1, 2, 3, 4) for c in (1, 2, 3, 4) for n in (1, 2, 3, 4)]
VMALL = [(n, m) for m, n in MVALL]

def table():
    T = []
    def op(*a, **k):
        T.append(Op(*a, **k))
    V2 = [('V', 'r'), ('V', 'r')]
    W2 = [('V', 'w'), ('V', 'r')]
    # ---- vectors
    for nm, t in (('add', '{0}+{1}'), ('sub', '{0}-{1}'), ('had', 'hadamard({0},{1})')):
        op('v' + nm, V2, t, [same(0, 1)], P2Z, res=lambda s: s[0])
    for nm, t in (('adda', '{0}+={1}'), ('suba', '{0}-={1}'), ('min', '{0}.minimize({1})'), ('max', '{0}.maximize({1})')):
        op('v' + nm, W2, t, [same(0, 1)], P2Z)
    op('vset', W2, '{0}={1}', [same(0, 1, nodyn=0)], P2Z)
    for n in (1, 2, 3):
        arr = 'double ar[%d]={}; ' % n
        lst = '{%s}' % ','.join(['1.'] * n)
        op('vsetlst%d' % n, [('V', 'w')], '{0}=%s' % lst.replace('{', '{{').replace('}', '}}'), [vs(0, n, IVS, nodyn=0)], S1, fixed=False)
        op('vsetarr%d' % n, [('V', 'w')], '{0}=ar', [vs(0, n, VSE, nodyn=0)], S1, decl=arr, fixed=False)
        if n > 1:
            op('vsetel%d' % n, [('V', 'w')], '{0}.set(%s)' % ','.join(['1.'] * n), [vs(0, n, VSE, nodyn=0)], S1)
    op('dot', V2, 'dot({0},{1})', [vmin(0), vmin(1), same(0, 1)], P2Z + [(0, 0)])
    op('cross', V2, 'cross({0},{1})', [vs(0, 3), vs(1, 3)], P2, res=lambda s: 3)
    op('perpdot', V2, 'perp_dot({0},{1})', [vs(0, 2), vs(1, 2)], P2)
    op('triple', [('V', 'r')] * 3, 'triple_product({0},{1},{2})', [vs(0, 3), vs(1, 3), vs(2, 3)], [(3, 3, 3)] + [(a, 3, 3) for a in (1, 2, 4)] + [(3, a, 3) for a in (1, 2, 4)] + [(3, 3, a) for a in (1, 2, 4)])
    op('outer', V2, 'outer({0},{1})', [], P2, res=lambda s: (s[0], s[1]))
    op('lensq', [('V', 'r')], '({0}).length_squared()', [vmin(0)], S1 + [(0,)])
    op('len', [('V', 'r')], '({0}).length()', [vmin(0)], S1 + [(0,)])
    op('perp', [('V', 'r')], 'perp({0})', [vs(0, 2)], S1, res=lambda s: 2)
    op('manh', V2, 'manhattan_distance({0},{1})', [vmin(0), vmin(1), same(0, 1)], P2Z)
    op('ptov', V2, 'project_to_vector({0},{1})', [vmin(0), vmin(1), same(0, 1)], P2Z)
    op('ptoh', V2, 'project_to_hplane({0},{1})', [vmin(0), vmin(1), same(0, 1)], P2Z)
    op('rotv', V2, 'rotate_vector({0},{1},.25)', [vs(0, 3), vs(1, 3)], P2)
    op('uangle', V2, 'unsigned_angle({0},{1})', [vs(0, 3), vs(1, 3)], P2)
    op('uangle2', V2, 'unsigned_angle_2D({0},{1})', [vs(0, 2), vs(1, 2)], P2)
    op('sangle', [('V', 'r')] * 3, 'signed_angle({0},{1},{2})', [vs(0, 3), vs(1, 3), (IVS, (0, 2), lambda s: s[2] == 3, None), (IVS, (1, 2), lambda s: s[2] == 3, None)], [(3, 3, 3), (3, 3, 2), (3, 3, 4), (2, 3, 3), (3, 2, 3), (4, 3, 3), (3, 4, 3)])
    # ---- matrices
    MM = [('M', 'r'), ('M', 'r')]
    WM = [('M', 'w'), ('M', 'r')]
    for nm, t in (('add', '{0}+{1}'), ('sub', '{0}-{1}'), ('had', 'hadamard({0},{1})')):
        op('m' + nm, MM, t, [same(0, 1, IMS)], MMALL, res=lambda s: s[0])
    for nm, t in (('adda', '{0}+={1}'), ('suba', '{0}-={1}')):
        op('m' + nm, WM, t, [same(0, 1, IMS)], MMALL)
    # a run-time sized external matrix is reshaped when the number of elements fits
    resh = lambda k: k[0] in ('KD', 'KX')
    notx = lambda k: k[0] != 'KX'
    op('mset', WM, '{0}={1}', [(IMS, (0, 1), lambda s: s[0] == s[1], resh), (MSE, (0, 1), lambda s: s[0][0] * s[0][1] == s[1][0] * s[1][1], notx)], MMALL)
    for n in (2, 4, 6):
        arr = 'double ar[%d]={}; ' % n
        op('msetarr%d' % n, [('M', 'w')], '{0}=ar', [lin(0, n, IMS)], M1, decl=arr)
        op('msetlst%d' % n, [('M', 'w')], '{0}={{%s}}' % ','.join(['1.'] * n), [lin(0, n, IMS)], M1, fixed=False)
    for r, c in ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2)):
        op('mset2d%d%d' % (r, c), [('M', 'w')], '{0}=ar', [mex(0, r, c, IMS, nodyn=resh), (MSE, (0,), lambda s, n=r * c: s[0][0] * s[0][1] == n, notx)], M1, decl='double ar[%d][%d]={}; ' % (r, c))
    op('mm', MM, '{0}*{1}', [mm(0, 1)], MMALL, res=lambda s: (s[0][0], s[1][1]))
    op('mv', [('M', 'r'), ('V', 'r')], '{0}*{1}', [mv(0, 1)], MVALL, res=lambda s: s[0][0])
    op('vm', [('V', 'r'), ('M', 'r')], '{0}*{1}', [vm(0, 1)], VMALL, res=lambda s: s[1][1])
    op('setrow', [('M', 'w'), ('V', 'r')], '{0}.set_row(0,{1})', [(IMC, (0, 1), lambda s: s[0][1] == s[1], None)], MVALL)
    op('setcol', [('M', 'w'), ('V', 'r')], '{0}.set_col(0,{1})', [(IMR, (0, 1), lambda s: s[0][0] == s[1], None)], MVALL)
    op('det', [('M', 'r')], 'determinant({0})', [sq(0)], M1)
    op('trace', [('M', 'r')], 'trace({0})', [sq(0)], M1)
    op('inv', [('M', 'r')], 'inverse({0})', [sq(0)], M1, res=lambda s: s[0])
    op('invip', [('M', 'w')], '{0}.inverse()', [sq(0)], M1)
    op('lu', [('M', 'r')], 'lu({0})', [sq(0)], M1)
    op('lup', [('M', 'r')], 'lu_pivot({0})', [sq(0)], M1)
    LS = [((r, c), n, k) for r in (1, 2, 3) for c in (1, 2, 3) for n in (1, 2, 3) for k in (1, 2, 3)]
    op('lusolve', [('M', 'r'), ('V', 'w'), ('V', 'r')], 'lu_solve({0},{1},{2})', [sq(0), mv(0, 1), mv(0, 2), (IVS, (1, 2), lambda s: s[1] == s[2], None)], LS)
    op('lusolver', [('M', 'r'), ('V', 'r')], 'lu_solve({0},{1})', [sq(0), mv(0, 1)], [((r, c), n) for r in (1, 2, 3) for c in (1, 2, 3) for n in (1, 2, 3)])
    lup = '[&]{{ auto lup_=lu_pivot({0}); lup_.sign=1; '
    op('lupsolve', [('M', 'r'), ('V', 'w'), ('V', 'r')], lup + 'lu_solve(lup_,{1},{2}); return 0; }}()', [sq(0), mv(0, 1), mv(0, 2), (IVS, (1, 2), lambda s: s[1] == s[2], None)], LS)
    op('lupsolver', [('M', 'r'), ('V', 'r')], lup + 'auto x_=lu_solve(lup_,{1}); return x_; }}()', [sq(0), mv(0, 1)], [((r, c), n) for r in (1, 2, 3) for c in (1, 2, 3) for n in (1, 2, 3)])
    # ---- transforms
    B1 = [((r, c),) for r in (1, 2, 3, 4, 5) for c in (1, 2, 3, 4)]
    BV = [((r, c), n) for r in (1, 2, 3, 4) for c in (1, 2, 3, 4) for n in (1, 2, 3, 4)]
    BVX = [((r, c), n) for r in (3, 4, 5) for c in (3, 4, 5) for n in (2, 3, 4)]
    B = [('B', 'w')]
    R = [('B', 'r')]
    Bv = [('B', 'w'), ('V', 'r')]
    Rv = [('B', 'r'), ('V', 'r')]
    L2, L3, A2, A3, P4 = (2, 2), (3, 3), (3, 2), (4, 3), (4, 4)
    for nm, sh, t in (
            ('rot2', L2, 'matrix_rotation_2D({0},.5)'), ('rotx', L3, 'matrix_rotation_world_x({0},.5)'),
            ('rotz', L3, 'matrix_rotation_world_z({0},.5)'), ('rotw', L3, 'matrix_rotation_world_axis({0},1,.5)'),
            ('rote', L3, 'matrix_rotation_euler({0},.5,.25,.75,euler_order_xyz)'),
            ('rotd', L3, 'matrix_rotation_euler_derivatives({0},0,.5,.25,.75,euler_order_xyz)'),
            ('scale2', A2, 'matrix_scale_2D({0},2.,3.)'), ('uscale2', A2, 'matrix_uniform_scale_2D({0},2.)'),
            ('iscale2', A2, 'matrix_inverse_scale_2D({0},2.,3.)'),
            ('scale3', A3, 'matrix_scale({0},2.,3.,4.)'), ('uscale3', A3, 'matrix_uniform_scale({0},2.)'),
            ('iscale3', A3, 'matrix_inverse_scale({0},2.,3.,4.)'),
            ('strans2', A2, 'matrix_set_translation_2D({0},1.,2.)'), ('trans2', A2, 'matrix_translation_2D({0},1.,2.)'),
            ('strans3', A3, 'matrix_set_translation({0},1.,2.,3.)'), ('trans3', A3, 'matrix_translation({0},1.,2.,3.)'),
            ('strans32', A3, 'matrix_set_translation({0},1.,2.)'), ('trans32', A3, 'matrix_translation({0},1.,2.)'),
            ('skew2', L2, 'matrix_skew_symmetric_2D({0},2.)'),
            ('ortho', P4, 'matrix_orthographic({0},-1.,1.,-2.,2.,1.,9.,right_handed,z_clip_zero)'),
            ('orthowh', P4, 'matrix_orthographic_LH({0},2.,3.,1.,9.,z_clip_neg_one)'),
            ('persp', P4, 'matrix_perspective({0},-1.,1.,-2.,2.,1.,9.,right_handed,z_clip_zero)'),
            ('perspwh', P4, 'matrix_perspective_LH({0},2.,3.,1.,9.,z_clip_neg_one)'),
            ('xfov', P4, 'matrix_perspective_xfov({0},1.,1.5,1.,9.,right_handed,z_clip_zero)'),
            ('yfov', P4, 'matrix_perspective_yfov_RH({0},1.,1.5,1.,9.,z_clip_zero)'),
            ('irt2', A2, 'matrix_invert_RT_only_2D({0})'), ('irt3', A3, 'matrix_invert_RT_only({0})')):
        op('b' + nm, B, t, [mmin(0, *sh)], B1, watch=False)
    op('birt', B, 'matrix_invert_RT({0})', [aff(0)], [((r, c),) for r in (2, 3, 4) for c in (2, 3, 4)])
    for nm, sh, t in (
            ('gtrans2', A2, 'matrix_get_translation_2D({0})'), ('gtrans3', A3, 'matrix_get_translation({0})'),
            ('tr2', L2, 'trace_2x2({0})'), ('tr3', L3, 'trace_3x3({0})'),
            ('gx2', L2, 'matrix_get_x_basis_vector_2D({0})'), ('gtx2', L2, 'matrix_get_transposed_basis_vector_2D({0},1)'),
            ('gz3', L3, 'matrix_get_z_basis_vector({0})'), ('gty3', L3, 'matrix_get_transposed_y_basis_vector({0})'),
            ('toax', L3, 'matrix_to_axis_angle({0})'), ('toeu', L3, 'matrix_to_euler({0},euler_order_xyz)')):
        op('r' + nm, R, t, [mmin(0, *sh)], B1)
    op('rfru', R, 'extract_frustum_planes({0},pl,z_clip_zero)', [mmin(0, 4, 4)], B1, decl='double pl[6][4]; ')
    op('rfrn', R, 'extract_near_frustum_plane({0},pl[0],z_clip_zero)', [mmin(0, 4, 4)], B1, decl='double pl[6][4]; ')
    op('rquat', R, 'quaternion_rotation_matrix(q,{0})', [mmin(0, 3, 3)], B1, decl='quaternion<double> q; ')
    for nm, sh, vn, t in (
            ('sx2', L2, 2, 'matrix_set_x_basis_vector_2D({0},{1})'), ('sb2', L2, 2, 'matrix_set_basis_vector_2D({0},1,{1})'),
            ('stx2', L2, 2, 'matrix_set_transposed_x_basis_vector_2D({0},{1})'), ('stb2', L2, 2, 'matrix_set_transposed_basis_vector_2D({0},1,{1})'),
            ('sy3', L3, 3, 'matrix_set_y_basis_vector({0},{1})'), ('sb3', L3, 3, 'matrix_set_basis_vector({0},2,{1})'),
            ('stz3', L3, 3, 'matrix_set_transposed_z_basis_vector({0},{1})'), ('stb3', L3, 3, 'matrix_set_transposed_basis_vector({0},0,{1})'),
            ('scale2v', A2, 2, 'matrix_scale_2D({0},{1})'), ('iscale2v', A2, 2, 'matrix_inverse_scale_2D({0},{1})'),
            ('scale3v', A3, 3, 'matrix_scale({0},{1})'), ('iscale3v', A3, 3, 'matrix_inverse_scale({0},{1})'),
            ('strans2v', A2, 2, 'matrix_set_translation_2D({0},{1})'), ('trans2v', A2, 2, 'matrix_translation_2D({0},{1})'),
            ('axang', L3, 3, 'matrix_rotation_axis_angle({0},{1},.5)'),
            ('rotev', L3, 3, 'matrix_rotation_euler({0},{1},euler_order_xyz)'),
            ('rotdv', L3, 3, 'matrix_rotation_euler_derivatives({0},0,{1},euler_order_xyz)'),
            ('skew3', L3, 3, 'matrix_skew_symmetric({0},{1})')):
        op('b' + nm, Bv, t, [mmin(0, *sh), vs(1, vn)], BV, watch=False)
    for nm, t in (('strans3v', 'matrix_set_translation({0},{1})'), ('trans3v', 'matrix_translation({0},{1})')):
        op('b' + nm, Bv, t, [mmin(0, 4, 3), vrange(1, 2, 3)], BV, watch=False)
    for nm, sh, vn, t in (('tv2', L2, 2, 'transform_vector_2D({0},{1})'), ('tp2', A2, 2, 'transform_point_2D({0},{1})'),
                          ('tv3', L3, 3, 'transform_vector({0},{1})'), ('tp3', A3, 3, 'transform_point({0},{1})')):
        op('r' + nm, Rv, t, [mmin(0, *sh), vs(1, vn)], BV, res=lambda s: s[1])
    op('rtv4', Rv, 'transform_vector_4D({0},{1})', [mex(0, 4, 4), vs(1, 4)], BVX)
    op('rtp4', Rv, 'transform_point_4D({0},{1})', [mex(0, 4, 4), vs(1, 3)], BVX)
    op('concat', [('B', 'r'), ('B', 'r')], 'matrix_concat({0},{1})', [sq(0), sq(1), mm(0, 1)], MMALL)
    op('lintr', [('B', 'w'), ('B', 'r')], 'matrix_linear_transform({0},{1})', [mmin(0, 3, 3), mmin(1, 3, 3)],
       [((r, c), (k, l)) for r in (2, 3, 4) for c in (2, 3, 4) for k in (2, 3, 4) for l in (2, 3, 4)], watch=False)
    op('afftr', [('B', 'w'), ('B', 'r'), ('V', 'r')], 'matrix_affine_transform({0},{1},{2})', [mmin(0, 4, 3), mmin(1, 3, 3), vrange(2, 2, 3)],
       [((r, c), (k, l), n) for r in (3, 4, 5) for c in (2, 3, 4) for k in (2, 3, 4) for l in (2, 3) for n in (1, 2, 3, 4)], watch=False)
    op('affax', [('B', 'w'), ('V', 'r'), ('V', 'r')], 'matrix_affine_transform({0},{1},.5,{2})', [mmin(0, 4, 3), vs(1, 3), vrange(2, 2, 3)],
       [((r, c), k, n) for r in (3, 4, 5) for c in (2, 3, 4) for k in (2, 3, 4) for n in (1, 2, 3, 4)], watch=False)
    op('lookat', [('B', 'w'), ('V', 'r'), ('V', 'r'), ('V', 'r')], 'matrix_look_at_LH({0},{1},{2},{3})', [mmin(0, 4, 3), same(1, 2), vs(1, 3), vs(2, 3), vs(3, 3)],
       [((r, c), 3, 3, 3) for r in (3, 4, 5) for c in (2, 3, 4)] + [((4, 4), a, b, d) for a in (2, 3, 4) for b in (2, 3, 4) for d in (2, 3, 4)], watch=False)
    # ---- coordinate conversions
    for nm, n, t in (('pc', 2, 'polar_to_cartesian({0},1.,.5)'), ('yc', 3, 'cylindrical_to_cartesian({0},0,1.,.5,2.)'), ('sc', 3, 'spherical_to_cartesian({0},1,latitude,1.,.5,.25)')):
        op('c' + nm, [('V', 'w')], t, [vs(0, n)], S1)
    for nm, n, t in (('cp', 2, 'cartesian_to_polar({0},u[0],u[1])'), ('cy', 3, 'cartesian_to_cylindrical({0},0,u[0],u[1],u[2])'), ('cs', 3, 'cartesian_to_spherical({0},1,latitude,u[0],u[1],u[2])')):
        op('c' + nm, [('V', 'r')], t, [vs(0, n)], S1, decl='double u[3]={1.,2.,3.}; ')
    # ---- quaternions
    op('qset', [('V', 'r')], 'q.set({0},1.)', [vs(0, 3)], S1, decl='quaternion<double> q; ')
    op('qctor', [('V', 'r')], 'quaternion<double>({0},1.)', [vs(0, 3)], S1)
    op('qax', [('V', 'r')], 'quaternion_rotation_axis_angle(q,{0},.5)', [vs(0, 3)], S1, decl='quaternion<double> q; ')
    op('qeul', [('V', 'r')], 'quaternion_rotation_euler(q,{0},euler_order_xyz)', [vs(0, 3)], S1, decl='quaternion<double> q; ')
    return T
