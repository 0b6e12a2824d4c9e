"""Every public operation as C++ text with operands of matching sizes: the
size-checked ones of sizeops.py at sizes they accept, and all the others.

An operand is (type, role, size): V vector of n, M matrix (r, c), B matrix in
row-basis shape (r, c) of coordinates, Q quaternion, S named scalar; role r
(read) or w (written).  {0}, {1}.. are the operands' expressions."""
import sizeops

class Api:
    def __init__(self, name, operands, text, decl='', lin=False, dyn=False, kinds=None, size=None):
        self.name, self.operands, self.text, self.decl, self.lin, self.dyn = name, operands, text, decl, lin, dyn
        self.kinds = kinds

def V(n, role='r'):
    return ('V', role, n)
def M(r, c, role='r'):
    return ('M', role, (r, c))
def B(r, c, role='r'):
    return ('B', role, (r, c))
Q = ('Q', 'r', 4)
QW = ('Q', 'w', 4)
S = ('S', 'r', 1)
SW = ('S', 'w', 1)

# operations with all-integral operands
LINEAR = {'vadd', 'vsub', 'vhad', 'vadda', 'vsuba', 'vmin', 'vmax', 'vset', 'dot', 'cross', 'perpdot', 'triple', 'outer', 'lensq', 'perp',
          'madd', 'msub', 'mhad', 'madda', 'msuba', 'mset', 'mm', 'mv', 'vm', 'setrow', 'setcol', 'trace', 'det'}

def from_sizes(per_op=2):
    """the size-checked operations at sizes they accept"""
    out = []
    for op in sizeops.table():
        ok = []
        for sz in op.sizes:
            if any(s == 0 for s in sz):
                continue
            if not sizeops.violated(op, sz, ['KF'] * len(sz)):
                ok.append(sz)
        # the smallest, and the most different one after it
        pick = ok[:1] + ok[-1:] if per_op == 2 and len(ok) > 1 else ok[:per_op]
        if op.name in ('det', 'inv', 'invip', 'lu', 'lup'):
            pick = ok
        for k, sz in enumerate(pick):
            out.append(Api('%s%d' % (op.name, k), [(t, r, s) for (t, r), s in zip(op.operands, sz)], op.text, op.decl, op.name in LINEAR))
    return out

def others():
    T = []
    def a(name, operands, text, decl='', lin=False, dyn=False, kinds=None):
        T.append(Api(name, operands, text, decl, lin, dyn, kinds))
    W = 'w'
    # ---- vectors: access, arithmetic, comparison
    for n in (1, 2, 3, 4):
        t = str(n)
        a('vneg' + t, [V(n)], '-{0}', lin=True)
        a('vpos' + t, [V(n)], '+{0}', lin=True)
        a('vget' + t, [V(n)], '({0}).get(%d)' % (n - 1), lin=True)
        a('vsize' + t, [V(n)], '({0}).size()', lin=True)
        a('vmul' + t, [V(n), S], '{0}*{1}', lin=True)
        a('smul' + t, [V(n), S], '{1}*{0}', lin=True)
        a('vdiv' + t, [V(n), S], '{0}/{1}')
        a('vmula' + t, [V(n, W), S], '{0}*={1}', lin=True)
        a('vdiva' + t, [V(n, W), S], '{0}/={1}')
        a('vnorm' + t, [V(n)], '({0}).normalize()')
        a('vfnorm' + t, [V(n)], 'normalize({0})')
        a('vnormw' + t, [V(n, W)], '{0}.normalize()')
        a('vfl' + t, [V(n)], 'length({0})')
        a('vfls' + t, [V(n)], 'length_squared({0})', lin=True)
        a('vzero' + t, [V(n, W)], '{0}.zero()', lin=True)
        a('vcard' + t, [V(n, W)], '{0}.cardinal(%d)' % (n - 1), lin=True)
        a('vfill' + t, [V(n, W), S], '{0}.fill({1})', lin=True)
        a('vput' + t, [V(n, W), S], '{0}.put(%d,{1})' % (n - 1), lin=True)
        a('vidx' + t, [V(n, W), S], '{0}[%d]={1}' % (n - 1), lin=True)
        a('vrand' + t, [V(n, W), S, S], '{0}.random({1},{2})', lin=False)
        a('vself' + t, [V(n)], 'auto t=temporary_of_t<decltype({0})>({0}); (void) t;', lin=True)
        if n > 1:
            a('vsub%d' % n, [V(n)], 'subvector({0},0)', lin=True)
            a('vsubm%d' % n, [V(n)], '({0}).subvector(%d)' % (n - 1), lin=True)
        for nm, o in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>=')):
            a('v%s%d' % (nm, n), [V(n), V(n)], '{0}%s{1}' % o, lin=True)
        a('vout' + t, [V(n), V(n)], 'outer({0},{1})', lin=True)
        a('vexp' + t, [V(n, W), V(n), V(n), S], '{0}={1}-{3}*({2}+{1})', lin=True)
    for n in (2, 3, 4):
        a('imax%d' % n, [V(n)], 'index_of_max(%s)' % ','.join('{0}.get(%d)' % i for i in range(n)) if n in (2, 3, 4) else '')
    # ---- matrices
    for (r, c) in ((1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4)):
        t = '%d%d' % (r, c)
        a('mneg' + t, [M(r, c)], '-{0}', lin=True)
        a('mpos' + t, [M(r, c)], '+{0}', lin=True)
        a('mget' + t, [M(r, c)], '({0}).get(%d,%d)' % (r - 1, c - 1), lin=True)
        a('mcall' + t, [M(r, c)], '({0})(%d,0)' % (r - 1), lin=True)
        a('mmul' + t, [M(r, c), S], '{0}*{1}', lin=True)
        a('msmul' + t, [M(r, c), S], '{1}*{0}', lin=True)
        a('mdiv' + t, [M(r, c), S], '{0}/{1}')
        a('mmula' + t, [M(r, c, W), S], '{0}*={1}', lin=True)
        a('mdiva' + t, [M(r, c, W), S], '{0}/={1}')
        a('mzero' + t, [M(r, c, W)], '{0}.zero()', lin=True)
        a('mid' + t, [M(r, c, W)], '{0}.identity()', lin=True)
        a('mfill' + t, [M(r, c, W), S], '{0}.fill({1})', lin=True)
        a('mput' + t, [M(r, c, W), S], '{0}.put(%d,0,{1})' % (r - 1), lin=True)
        a('mrand' + t, [M(r, c, W), S, S], '{0}.random({1},{2})')
        a('mtr' + t, [M(r, c)], 'transpose({0})', lin=True)
        a('mtrm' + t, [M(r, c, W)], '{0}.transpose()', lin=True) if r == c else None
        a('mrow' + t, [M(r, c)], 'row({0},%d)' % (r - 1), lin=True)
        a('mcol' + t, [M(r, c)], 'col({0},%d)' % (c - 1), lin=True)
        a('mtmp' + t, [M(r, c)], 'auto t=temporary_of_t<decltype({0})>({0}); (void) t;', lin=True)
        for nm, o in (('eq', '=='), ('ne', '!=')):
            a('m%s%s' % (nm, t), [M(r, c), M(r, c)], '{0}%s{1}' % o, lin=True)
        a('mse' + t, [M(r, c, W), S], '{0}.set_basis_element(0,0,{1})', lin=True)
        a('mbe' + t, [M(r, c)], '({0}).basis_element(0,0)', lin=True)
        a('mbc' + t, [M(r, c)], '({0}).basis_count()', lin=True)
        a('mbs' + t, [M(r, c)], '({0}).basis_size()', lin=True)
        if r == c:
            a('mexp' + t, [M(r, c, W), M(r, c), V(r), V(r), S], '{0}={1}*{4}+outer({2},{3})', lin=True)
            a('basis' + t, [M(r, c)], 'basis({0},0)', lin=True)
            a('gbn' + t, [M(r, c)], 'matrix_get_basis_vector_nD({0},0)', lin=True)
    a('mmulm', [M(3, 3), M(3, 3), V(3)], '{0}*transpose({1})*{2}', lin=True)
    # ---- transforms
    for nm, t in (('sbv2', 'matrix_set_basis_vectors_2D({0},{1},{2})'), ('stbv2', 'matrix_set_transposed_basis_vectors_2D({0},{1},{2})')):
        a(nm, [B(2, 2, W), V(2), V(2)], t, lin=True)
    for nm, t in (('sbv3', 'matrix_set_basis_vectors({0},{1},{2},{3})'), ('stbv3', 'matrix_set_transposed_basis_vectors({0},{1},{2},{3})')):
        a(nm, [B(3, 3, W), V(3), V(3), V(3)], t, lin=True)
        a(nm + '4', [B(4, 3, W), V(3), V(3), V(3)], t, lin=True)
    for nm, t in (('gbv2', 'matrix_get_basis_vectors_2D({0},{1},{2})'), ('gtbv2', 'matrix_get_transposed_basis_vectors_2D({0},{1},{2})')):
        a(nm, [B(2, 2), V(2, W), V(2, W)], t, lin=True)
    for nm, t in (('gbv3', 'matrix_get_basis_vectors({0},{1},{2},{3})'), ('gtbv3', 'matrix_get_transposed_basis_vectors({0},{1},{2},{3})')):
        a(nm, [B(4, 4), V(3, W), V(3, W), V(3, W)], t, lin=True)
    for ax in 'xyz':
        for tr in ('', 'transposed_'):
            a('s%s%s3' % (tr[:1], ax), [B(3, 3, W), V(3)], 'matrix_set_%s%s_basis_vector({0},{1})' % (tr, ax), lin=True)
            a('g%s%s3' % (tr[:1], ax), [B(3, 3)], 'matrix_get_%s%s_basis_vector({0})' % (tr, ax), lin=True)
            if ax != 'z':
                a('s%s%s2' % (tr[:1], ax), [B(2, 2, W), V(2)], 'matrix_set_%s%s_basis_vector_2D({0},{1})' % (tr, ax), lin=True)
                a('g%s%s2' % (tr[:1], ax), [B(3, 2)], 'matrix_get_%s%s_basis_vector_2D({0})' % (tr, ax), lin=True)
    for tr in ('', 'transposed_'):
        a('gb%s3' % tr[:1], [B(3, 3)], 'matrix_get_%sbasis_vector({0},1)' % tr, lin=True)
        a('gb%s2' % tr[:1], [B(2, 2)], 'matrix_get_%sbasis_vector_2D({0},1)' % tr, lin=True)
    for hh, h in (('L', 'left_handed'), ('R', 'right_handed')):
        a('look' + hh, [B(4, 3, W), V(3), V(3), V(3)], 'matrix_look_at({0},{1},{2},{3},%s)' % h)
        a('look%sH' % hh, [B(4, 4, W), V(3), V(3), V(3)], 'matrix_look_at_%sH({0},{1},{2},{3})' % hh)
        for z in ('z_clip_neg_one', 'z_clip_zero'):
            zz = hh + z[7]
            for pn in ('orthographic', 'perspective'):
                a('%s6%s' % (pn[:1], zz), [B(4, 4, W)] + [S] * 6, 'matrix_%s({0},{1},{2},{3},{4},{5},{6},%s,%s)' % (pn, h, z))
                a('%s6H%s' % (pn[:1], zz), [B(4, 4, W)] + [S] * 6, 'matrix_%s_%sH({0},{1},{2},{3},{4},{5},{6},%s)' % (pn, hh, z))
                a('%s4%s' % (pn[:1], zz), [B(4, 4, W)] + [S] * 4, 'matrix_%s({0},{1},{2},{3},{4},%s,%s)' % (pn, h, z))
                a('%s4H%s' % (pn[:1], zz), [B(4, 4, W)] + [S] * 4, 'matrix_%s_%sH({0},{1},{2},{3},{4},%s)' % (pn, hh, z))
            for f in 'xy':
                a('%sfov%s' % (f, zz), [B(4, 4, W)] + [S] * 4, 'matrix_perspective_%sfov({0},{1},{2},{3},{4},%s,%s)' % (f, h, z))
                a('%sfovH%s' % (f, zz), [B(4, 4, W)] + [S] * 4, 'matrix_perspective_%sfov_%sH({0},{1},{2},{3},{4},%s)' % (f, hh, z))
    for x in 'xyz':
        a('rw' + x, [B(3, 3, W), S], 'matrix_rotation_world_%s({0},{1})' % x)
        a('qrw' + x, [QW, S], 'quaternion_rotation_world_%s({0},{1})' % x)
        a('qgb' + x, [Q], 'quaternion_get_%s_basis_vector({0})' % x)
    for i in (0, 1, 2):
        a('rwa%d' % i, [B(3, 3, W), S], 'matrix_rotation_world_axis({0},%d,{1})' % i)
        a('qrwa%d' % i, [QW, S], 'quaternion_rotation_world_axis({0},%d,{1})' % i)
        a('qgb%d' % i, [Q], 'quaternion_get_basis_vector({0},%d)' % i)
    a('qgbs', [Q, V(3, W), V(3, W), V(3, W)], 'quaternion_get_basis_vectors({0},{1},{2},{3})')
    a('ral2', [B(2, 2, W), V(2)], 'matrix_rotation_align_2D({0},{1},true,axis_order_yx)')
    a('ral2d', [B(2, 2, W), V(2)], 'matrix_rotation_align_2D({0},{1})')
    a('rq', [B(3, 3, W), Q], 'matrix_rotation_quaternion({0},{1})')
    a('ral', [B(3, 3, W), V(3), V(3)], 'matrix_rotation_align({0},{1},{2})')
    a('ralo', [B(3, 3, W), V(3), V(3)], 'matrix_rotation_align({0},{1},{2},false,axis_order_xzy)')
    a('raim', [B(3, 3, W), V(3), V(3), V(3)], 'matrix_rotation_aim_at({0},{1},{2},{3})')
    a('raimo', [B(3, 3, W), V(3), V(3), V(3)], 'matrix_rotation_aim_at({0},{1},{2},{3},axis_order_yxz)')
    a('reu', [B(3, 3, W), S, S, S], 'matrix_rotation_euler({0},{1},{2},{3},euler_order_zyx)')
    a('reud', [B(3, 3, W), S, S, S], 'matrix_rotation_euler_derivatives({0},1,{1},{2},{3},euler_order_zyx)')
    a('toaa', [B(3, 3), V(3, W), SW], 'matrix_to_axis_angle({0},{1},{2})')
    a('toaat', [B(3, 3), V(3, W), SW], 'matrix_to_axis_angle({0},{1},{2},.001)')
    a('toeu3', [B(3, 3), SW, SW, SW], 'matrix_to_euler({0},{1},{2},{3},euler_order_xyx)')
    a('toeuv', [B(3, 3)], 'matrix_to_euler<vector<double,compiled<3>>>({0},euler_order_xyz)')
    a('qal', [QW, V(3), V(3)], 'quaternion_rotation_align({0},{1},{2})')
    a('qalo', [QW, V(3), V(3)], 'quaternion_rotation_align({0},{1},{2},false,axis_order_xzy)')
    a('qaim', [QW, V(3), V(3), V(3)], 'quaternion_rotation_aim_at({0},{1},{2},{3})')
    a('qaa', [QW, V(3), S], 'quaternion_rotation_axis_angle({0},{1},{2})')
    a('qmat', [QW, B(3, 3)], 'quaternion_rotation_matrix({0},{1})')
    a('qeu', [QW, S, S, S], 'quaternion_rotation_euler({0},{1},{2},{3},euler_order_zxz)')
    a('qeuv', [QW, V(3)], 'quaternion_rotation_euler({0},{1},euler_order_zxy)')
    a('qtoaa', [Q, V(3, W), SW], 'quaternion_to_axis_angle({0},{1},{2})')
    a('qtoaat', [Q], 'quaternion_to_axis_angle({0})')
    a('qtoeu', [Q, SW, SW, SW], 'quaternion_to_euler({0},{1},{2},{3},euler_order_yzx)')
    a('qtoeuv', [Q], 'quaternion_to_euler({0},euler_order_yzx)')
    a('qtoeuV', [Q], 'quaternion_to_euler<vector<double,compiled<3>>>({0},euler_order_yzx)')
    a('ortb2', [V(2), V(2, W), V(2, W)], 'orthonormal_basis_2D({0},{1},{2})')
    a('ortb2n', [V(2), V(2, W), V(2, W)], 'orthonormal_basis_2D({0},{1},{2},false,axis_order_yx)')
    a('ortb', [V(3), V(3), V(3, W), V(3, W), V(3, W)], 'orthonormal_basis({0},{1},{2},{3},{4})')
    a('ortbn', [V(3), V(3), V(3, W), V(3, W), V(3, W)], 'orthonormal_basis({0},{1},{2},{3},{4},false,axis_order_xzy)')
    a('sang2', [V(2), V(2)], 'signed_angle_2D({0},{1})')
    a('affn', [B(4, 3, W), V(3), S, V(3)], 'matrix_affine_transform({0},{1},{2},{3},true)')
    a('fru2', [B(4, 4), B(4, 4)], 'extract_frustum_planes({0},{1},pl,z_clip_zero)', 'double pl[6][4]; ')
    a('frun', [B(4, 4)], 'extract_frustum_planes({0},pl,z_clip_neg_one,false)', 'double pl[6][4]; ')
    a('trl2', [B(3, 2, W), S, S], 'matrix_translation_2D({0},{1},{2})')
    a('trl3', [B(4, 3, W), S, S, S], 'matrix_translation({0},{1},{2},{3})')
    a('gtl3', [B(4, 3)], 'matrix_get_translation({0})', lin=True)
    a('skw', [B(3, 3, W), V(3)], 'matrix_skew_symmetric({0},{1})')
    # ---- coordinate conversions
    a('p2c', [V(2, W), S, S], 'polar_to_cartesian({0},{1},{2})')
    a('p2co', [V(2, W), S, S], 'polar_to_cartesian({1},{2},{0})')
    for i in (0, 1, 2):
        a('y2c%d' % i, [V(3, W), S, S, S], 'cylindrical_to_cartesian({0},%d,{1},{2},{3})' % i)
        a('y2co%d' % i, [V(3, W), S, S, S], 'cylindrical_to_cartesian({1},{2},{3},%d,{0})' % i)
        a('c2y%d' % i, [V(3), SW, SW, SW], 'cartesian_to_cylindrical({0},%d,{1},{2},{3})' % i)
        a('c2yt%d' % i, [V(3), SW, SW, SW], 'cartesian_to_cylindrical({0},%d,{1},{2},{3},.001)' % i)
        a('c2yo%d' % i, [V(3), SW, SW, SW], 'cartesian_to_cylindrical({0},{1},{2},{3},%d)' % i)
        for l in ('latitude', 'colatitude'):
            a('s2c%d%s' % (i, l[0]), [V(3, W), S, S, S], 'spherical_to_cartesian({0},%d,%s,{1},{2},{3})' % (i, l))
            a('s2co%d%s' % (i, l[0]), [V(3, W), S, S, S], 'spherical_to_cartesian({1},{2},{3},%d,%s,{0})' % (i, l))
            a('c2s%d%s' % (i, l[0]), [V(3), SW, SW, SW], 'cartesian_to_spherical({0},%d,%s,{1},{2},{3})' % (i, l))
            a('c2so%d%s' % (i, l[0]), [V(3), SW, SW, SW], 'cartesian_to_spherical({0},{1},{2},{3},%d,%s)' % (i, l))
    a('c2p', [V(2), SW, SW], 'cartesian_to_polar({0},{1},{2})')
    a('c2pt', [V(2), SW, SW], 'cartesian_to_polar({0},{1},{2},.001)')
    # ---- quaternions
    a('qadd', [Q, Q], '{0}+{1}')
    a('qsub', [Q, Q], '{0}-{1}')
    a('qmul', [Q, Q], '{0}*{1}')
    a('qneg', [Q], '-{0}')
    a('qpos', [Q], '+{0}')
    a('qsm', [Q, S], '{0}*{1}')
    a('qms', [Q, S], '{1}*{0}')
    a('qsd', [Q, S], '{0}/{1}')
    a('qconj', [Q], 'conjugate({0})')
    a('qconjm', [Q], '({0}).conjugate()')
    a('qinv', [Q], 'inverse({0})')
    a('qinvm', [Q], '({0}).inverse()')
    a('qdot', [Q, Q], 'dot({0},{1})')
    a('qmnormalize', [Q], '({0}).normalize()')
    a('qfnormalize', [Q], 'normalize({0})')
    for m in ('norm', 'length', 'length_squared', 'real', 'imaginary', 'size'):
        a('q' + m, [Q], '({0}).%s()' % m)
    for m in ('norm', 'length', 'length_squared', 'real', 'imaginary'):
        a('qf' + m, [Q], '%s({0})' % m)
    a('qlog', [Q], 'log({0})')
    a('qexp', [Q], 'exp({0})')
    for m in 'wxyz':
        a('q' + m, [Q], '({0}).%s()' % m)
    a('qget', [Q], '({0}).get(2)')
    a('qasg', [QW, Q], '{0}={1}')
    for nm, o in (('a', '+='), ('s', '-='), ('m', '*=')):
        a('qop' + nm, [QW, Q], '{0}%s{1}' % o)
    a('qopsm', [QW, S], '{0}*={1}')
    a('qopsd', [QW, S], '{0}/={1}')
    a('qwn', [QW], '{0}.normalize()')
    a('qwc', [QW], '{0}.conjugate()')
    a('qwi', [QW], '{0}.inverse()')
    a('qwid', [QW], '{0}.identity()')
    a('qsetvs', [QW, V(3), S], '{0}.set({1},{2})')
    a('qsetsv', [QW, V(3), S], '{0}.set({2},{1})')
    a('qidx', [QW, S], '{0}[1]={1}')
    a('qput', [QW, S], '{0}.put(1,{1})')
    for nm, o in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>=')):
        a('q' + nm, [Q, Q], '{0}%s{1}' % o)
    # ---- scalars
    for f in ('deg', 'rad', 'sqr', 'cub', 'inv_sqrt', 'sqrt_safe', 'acos_safe', 'asin_safe', 'sign'):
        a('s' + f, [S], 'cml::%s({0})' % f)
    a('sclamp', [S, S, S], 'cml::clamp({0},{1},{2})')
    a('swrap', [S, S, S], 'cml::wrap({0},{1},{2})')
    a('sinr', [S, S, S], 'cml::in_range({0},{1},{2})')
    a('smap', [S] * 5, 'cml::map_range({0},{1},{2},{3},{4})')
    a('simx', [S] * 3, 'cml::index_of_max({0},{1},{2})')
    a('simxa', [S] * 3, 'cml::index_of_max_abs({0},{1},{2})')
    a('simn', [S] * 3, 'cml::index_of_min({0},{1},{2})')
    a('simna', [S] * 3, 'cml::index_of_min_abs({0},{1},{2})')
    for f in ('zero_2D()', 'zero_3D()', 'zero_4D()', 'zero<5>()', 'axis<4>(2)', 'axis_2D(1)', 'axis_3D(2)', 'x_axis_2D()', 'y_axis_2D()', 'x_axis_3D()', 'y_axis_3D()',
              'z_axis_3D()', 'zero_2x2()', 'zero_3x3()', 'zero_4x4()', 'zero<2,3>()', 'identity_2x2()', 'identity_3x3()', 'identity_4x4()', 'identity<2,3>()'):
        a('g' + f.replace('(', '_').replace(')', '').replace('<', '_').replace('>', '').replace(',', '_'), [], 'cml::' + f)
    return [x for x in T if x is not None]

def table():
    return from_sizes() + others()
