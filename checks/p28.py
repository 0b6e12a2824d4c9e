"""Result types: element type, storage, memory order, basis and quaternion
conventions of every combination of operand types, decided by static
assertions on the type-checked program."""
from types_ import *
import build
import os
from concurrent.futures import ThreadPoolExecutor

EL = ['short', 'int', 'unsigned', 'long', 'float', 'double', 'long double']
def common(*es):
    if all(e == es[0] for e in es):
        return es[0]
    # the arithmetic conversions: a type narrower than int is converted to int first
    return EL[max(max(EL.index(e) for e in es), 1)]

VK = {'F': 'compiled<%d>', 'E': 'external<%d>', 'D': 'dynamic<>', 'X': 'external<>'}
MK = {'F': 'compiled<%d,%d>', 'E': 'external<%d,%d>', 'D': 'dynamic<>', 'X': 'external<>'}
def vt(k, n, E='double', const=False):
    s = VK[k]
    return 'vector<%s%s,%s>' % ('const ' if const else '', E, s % n if '%' in s else s)
def mt(k, r, c, E='double', B='row_basis', L='row_major'):
    s = MK[k]
    return 'matrix<%s,%s,%s,%s>' % (E, s % (r, c) if '%' in s else s, B, L)
def rv(fixed, n, E='double'):
    return 'vector<%s,%s>' % (E, 'compiled<%d>' % n if fixed else 'dynamic<>')
def rm(fixed, r, c, E='double', B='row_basis', L='row_major'):
    return 'matrix<%s,%s,%s,%s>' % (E, 'compiled<%d,%d>' % (r, c) if fixed else 'dynamic<>', B, L)
FIX = {'F': True, 'E': True, 'D': False, 'X': False}
RC = ('row_basis', 'col_basis')
LAY = ('row_major', 'col_major')
def lay(a, b):
    return a if a == b else 'row_major'

HEAD = '''template<class T> using plain = std::remove_cv_t<std::remove_reference_t<T>>;
template<class T> using kept = cml::temporary_of_t<plain<T>>;
'''

def check(rep, tier):
    if not rep.sane():
        rep.broken.append('the umbrella headers do not compile')
        return
    a = Asserts()
    def K(name, params, expr, want):          # the object that stores the result
        a.same(name, params, 'kept<decltype(%s)>' % expr, want)
    def S(name, params, expr, want):          # a scalar result
        a.same(name, params, 'plain<decltype(%s)>' % expr, want)
    # ---- element types
    for e in EL:
        for f in EL:
            c = common(e, f)
            t = '%s_%s' % (e.replace(' ', ''), f.replace(' ', ''))
            pv = '%s& x, %s& y' % (vt('F', 3, e), vt('D', 3, f))
            for nm, ex in (('add', 'x+y'), ('sub', 'x-y'), ('had', 'hadamard(x,y)'), ('cross', 'cross(x,y)')):
                K('ev_%s_%s' % (nm, t), pv, ex, rv(True, 3, c))
            S('ev_dot_' + t, pv, 'dot(x,y)', c)
            S('ev_pdot_' + t, '%s& x, %s& y' % (vt('F', 2, e), vt('E', 2, f)), 'perp_dot(x,y)', c)
            S('ev_triple_' + t, pv, 'triple_product(x,y,x)', c)
            a.same('ev_outer_' + t, pv, 'plain<decltype(outer(x,y))>::value_type', c)
            ps = '%s& x, %s s' % (vt('D', 3, e), f)
            for nm, ex in (('mul', 'x*s'), ('lmul', 's*x'), ('div', 'x/s')):
                K('es_%s_%s' % (nm, t), ps, ex, rv(False, 3, c))
            ps = '%s& x, %s s' % (mt('E', 2, 3, e), f)
            for nm, ex in (('mul', 'x*s'), ('lmul', 's*x'), ('div', 'x/s')):
                K('em_%s_%s' % (nm, t), ps, ex, rm(True, 2, 3, c))
            pm = '%s& x, %s& y' % (mt('F', 2, 3, e), mt('D', 2, 3, f))
            for nm, ex in (('add', 'x+y'), ('sub', 'x-y'), ('had', 'hadamard(x,y)')):
                K('em_%s_%s' % (nm, t), pm, ex, rm(True, 2, 3, c))
            K('em_mm_' + t, '%s& x, %s& y' % (mt('F', 2, 3, e), mt('F', 3, 4, f)), 'x*y', rm(True, 2, 4, c))
            K('em_mv_' + t, '%s& x, %s& y' % (mt('F', 2, 3, e), vt('F', 3, f)), 'x*y', rv(True, 2, c))
            K('em_vm_' + t, '%s& x, %s& y' % (vt('F', 2, e), mt('F', 2, 3, f)), 'x*y', rv(True, 3, c))
            K('em_cat_' + t, '%s& x, %s& y' % (mt('F', 3, 3, e), mt('F', 3, 3, f)), 'matrix_concat(x,y)', rm(True, 3, 3, c))
            if EL.index(e) >= 4 and EL.index(f) >= 4:
                pq = 'quaternion<%s>& x, quaternion<%s>& y' % (e, f)
                q = 'quaternion<%s,compiled<>,imaginary_first,positive_cross>' % c
                for nm, ex in (('add', 'x+y'), ('sub', 'x-y'), ('mul', 'x*y'), ('expr', '(x+y)*x')):
                    K('eq_%s_%s' % (nm, t), pq, ex, q)
                S('eq_dot_' + t, pq, 'dot(x,y)', c)
                ps = 'quaternion<%s>& x, %s s' % (e, f)
                for nm, ex in (('mul', 'x*s'), ('lmul', 's*x'), ('div', 'x/s')):
                    K('eqs_%s_%s' % (nm, t), ps, ex, q)
        t = e.replace(' ', '')
        if e != 'short':      # the language widens the operand of a sign
          K('eu_neg_' + t, vt('F', 3, e) + '& x', '-x', rv(True, 3, e))
          K('eu_pos_' + t, vt('D', 3, e) + '& x', '+x', rv(False, 3, e))
          K('eum_neg_' + t, mt('F', 2, 3, e) + '& x', '-x', rm(True, 2, 3, e))
        K('eu_sub_' + t, vt('F', 3, e) + '& x', 'subvector(x,0)', rv(True, 2, e))
        K('eu_row_' + t, mt('F', 2, 3, e) + '& x', 'row(x,0)', rv(True, 3, e))
        K('eu_col_' + t, mt('E', 2, 3, e) + '& x', 'col(x,0)', rv(True, 2, e))
        S('eu_el_' + t, vt('E', 2, e) + '& x', 'x[0]', e)
        S('eu_elm_' + t, mt('E', 2, 2, e) + '& x', 'x(0,0)', e)
        S('eu_lsq_' + t, vt('D', 2, e) + '& x', 'x.length_squared()', e)
        S('eu_tr_' + t, mt('D', 2, 2, e) + '& x', 'trace(x)', e)
        S('eu_det_' + t, mt('F', 3, 3, e) + '& x', 'determinant(x)', e)
        if EL.index(e) >= 4:
            S('eu_len_' + t, vt('F', 2, e) + '& x', 'x.length()', e)
            K('eu_norm_' + t, vt('F', 2, e) + '& x', 'normalize(x)', rv(True, 2, e))
            K('eu_inv_' + t, mt('D', 2, 2, e) + '& x', 'inverse(x)', rm(False, 2, 2, e))
            K('eu_lu_' + t, mt('F', 3, 3, e) + '& x', 'lu(x)', rm(True, 3, 3, e))
            for nm, ex in (('conj', 'conjugate(x)'), ('inv', 'inverse(x)'), ('neg', '-x')):
                K('euq_%s_%s' % (nm, t), 'quaternion<%s>& x' % e, ex, 'quaternion<%s,compiled<>,imaginary_first,positive_cross>' % e)
            K('euq_im_' + t, 'quaternion<%s>& x' % e, 'imaginary(x)', rv(True, 3, e))
            S('euq_el_' + t, 'quaternion<%s>& x' % e, 'x.real()', e)
    # ---- storage of vector results: own storage, fixed when the size is known from either operand
    for k in VK:
        for l in VK:
            for cx in (False, True):
                for cy in (False, True):
                    if (cx and k not in 'EX') or (cy and l not in 'EX'):
                        continue
                    t = k + ('c' if cx else '') + l + ('c' if cy else '')
                    p = '%s& x, %s& y' % (vt(k, 3, const=cx), vt(l, 3, const=cy))
                    f = FIX[k] or FIX[l]
                    for nm, ex in (('add', 'x+y'), ('sub', 'x-y'), ('had', 'hadamard(x,y)'), ('nest', 'x+2.*y-x'), ('cross', 'cross(x,y)'), ('ptv', 'project_to_vector(x,y)'),
                                   ('cl', 'std::as_const(x)+std::as_const(y)'), ('rval', 'std::move(x)+std::move(y)')):
                        K('sv_%s_%s' % (nm, t), p, ex, rv(f, 3))
                    a.a('sv_outer_' + t, p, 'plain<decltype(outer(x,y))>::array_rows == %d && plain<decltype(outer(x,y))>::array_cols == %d && std::is_same<plain<decltype(outer(x,y))>::size_tag, %s_size_tag>::value'
                        % ((3, 3, 'fixed') if FIX[k] and FIX[l] else (-1, -1, 'dynamic')))
        for cx in (False, True):
            if cx and k not in 'EX':
                continue
            p = vt(k, 3, const=cx) + '& x'
            t = k + ('c' if cx else '')
            for nm, ex in (('self', 'x'), ('neg', '-x'), ('mul', 'x*2.'), ('norm', 'normalize(x)'), ('rv', 'std::move(x)'), ('cl', 'std::as_const(x)')):
                K('su_%s_%s' % (nm, t), p, ex, rv(FIX[k], 3))
            K('su_sub_' + t, p, 'subvector(x,1)', rv(FIX[k], 2))
    # ---- matrices
    for k in MK:
        for l in MK:
            for B in RC:
                for L1 in LAY:
                    for L2 in LAY:
                        t = '%s%s_%s%s%s' % (k, l, B[0], L1[0], L2[0])
                        L = lay(L1, L2)
                        p = '%s& x, %s& y' % (mt(k, 2, 3, B=B, L=L1), mt(l, 2, 3, B=B, L=L2))
                        f = FIX[k] or FIX[l]
                        for nm, ex in (('add', 'x+y'), ('sub', 'x-y'), ('had', 'hadamard(x,y)'), ('nest', 'x+2.*y'), ('cl', 'std::as_const(x)+std::as_const(y)')):
                            K('sm_%s_%s' % (nm, t), p, ex, rm(f, 2, 3, B=B, L=L))
                        p = '%s& x, %s& y' % (mt(k, 2, 3, B=B, L=L1), mt(l, 3, 4, B=B, L=L2))
                        f = FIX[k] and FIX[l]
                        K('sm_mm_' + t, p, 'x*y', rm(f, 2, 4, B=B, L=L))
                        K('sm_mme_' + t, p, '(2.*x)*y', rm(f, 2, 4, B=B, L=L))
                        K('sm_mmr_' + t, p, 'std::move(x)*y', rm(f, 2, 4, B=B, L=L))
                        p = '%s& x, %s& y' % (mt(k, 3, 3, B=B, L=L1), mt(l, 3, 3, B=B, L=L2))
                        K('sm_cat_' + t, p, 'matrix_concat(x,y)', rm(f, 3, 3, B=B, L=L))
        for l in VK:
            for B in RC:
                t = '%s%s%s' % (k, l, B[0])
                f = FIX[k]
                p = '%s& x, %s& y' % (mt(k, 2, 3, B=B), vt(l, 3))
                K('sm_mv_' + t, p, 'x*y', rv(f, 2))
                p = '%s& x, %s& y' % (vt(l, 2), mt(k, 2, 3, B=B))
                K('sm_vm_' + t, p, 'x*y', rv(f, 3))
        for B in RC:
            for L in LAY:
                t = k + B[0] + L[0]
                p = mt(k, 2, 3, B=B, L=L) + '& x'
                f = FIX[k]
                for nm, ex in (('self', 'x'), ('neg', '-x'), ('div', 'x/2.'), ('rv', 'std::move(x)'), ('cl', 'std::as_const(x)')):
                    K('sn_%s_%s' % (nm, t), p, ex, rm(f, 2, 3, B=B, L=L))
                K('sn_tr_' + t, p, 'transpose(x)', rm(f, 3, 2, B=B, L=L))
                K('sn_row_' + t, p, 'row(x,1)', rv(f, 3))
                K('sn_col_' + t, p, 'col(x,1)', rv(f, 2))
                K('sn_bv_' + t, p, 'basis(x,1)', rv(f, 3 if B == 'row_basis' else 2))
                p = mt(k, 4, 4, B=B, L=L) + '& x'
                K('sn_inv_' + t, p, 'inverse(x)', rm(f, 4, 4, B=B, L=L))
                K('sn_lu_' + t, p, 'lu(x)', rm(f, 4, 4, B=B, L=L))
                K('sn_lup_' + t, p, 'lu_pivot(x).lu', rm(f, 4, 4, B=B, L=L))
                a.same('sn_gt_' + t, p, 'decltype(matrix_get_translation(x))', rv(True, 3))
                a.same('sn_gx_' + t, p, 'decltype(matrix_get_x_basis_vector(x))', rv(True, 3))
                for l in VK:
                    a.same('sn_ls_%s%s' % (t, l), p + ', %s& b' % vt(l, 4), 'decltype(lu_solve(x,b))', rv(FIX[l], 4))
                    a.same('sn_tv_%s%s' % (t, l), p + ', %s& b' % vt(l, 3), 'decltype(transform_vector(x,b))', rv(FIX[l], 3))
    # ---- quaternions
    for o in ('real_first', 'imaginary_first'):
        for x in ('positive_cross', 'negative_cross'):
            Q = 'quaternion<%%s,compiled<>,%s,%s>' % (o, x)
            p = '%s& x, %s& y' % (Q % 'double', Q % 'float')
            t = o[0] + x[0]
            for nm, ex in (('add', 'x+y'), ('sub', 'x-y'), ('mul', 'x*y'), ('mul2', 'y*y*x'), ('muls', 'y*2.'), ('conj', 'conjugate(x)'), ('inv', 'inverse(x)'), ('neg', '-x'),
                           ('norm', 'x.normalize()'), ('log', 'x.log()'), ('exp', 'x.exp()')):
                K('q_%s_%s' % (nm, t), p, ex, Q % 'double')
            K('q_im_' + t, p, 'x.imaginary()', rv(True, 3))
    # ---- scalars
    for e in EL:
        for f in EL:
            a.same('sc_%s_%s' % (e.replace(' ', ''), f.replace(' ', '')), '', 'cml::scalar_promote_t<%s,%s>' % (e, f), common(e, f))
    rep.floor('static assertions', 2000)
    decide(rep, a, 'static assertion: the type that stores the result has the common element type, its own storage '
           '(fixed when the size is known from the operand types), and the order, basis and conventions of its operands', HEAD)
    # ---- conventions that cannot be mixed
    import p24
    neg = {}
    for nm, q1, q2 in (('order', 'quaternion<double,compiled<>,real_first,positive_cross>', 'quaternion<double,compiled<>,imaginary_first,positive_cross>'),
                       ('cross', 'quaternion<double,compiled<>,real_first,positive_cross>', 'quaternion<double,compiled<>,real_first,negative_cross>')):
        for on, ex in (('mul', 'x*y'), ('add', 'x+y'), ('sub', 'x-y'), ('mule', '(2.*x)*(-y)')):
            neg['mix_%s_%s' % (nm, on)] = 'void w(%s& x, %s& y) { auto r = %s; (void) r; }' % (q1, q2, ex)
    for on, ex in (('mm', 'x*y'), ('add', 'x+y'), ('cat', 'matrix_concat(x,y)')):
        neg['mix_basis_' + on] = 'void w(%s& x, %s& y) { kept<decltype(%s)> r = %s; (void) r; }' % (mt('F', 3, 3), mt('F', 3, 3, B='col_basis'), ex, ex)
    pch = build.pch(['-w', '-ferror-limit=0'], ['-O0'])
    def run(nm):
        src = os.path.join(build.tmpdir(), nm + '.cpp')
        with open(src, 'w') as fh:
            fh.write('#include "h.h"\n' + HEAD + neg[nm] + '\n')
        return nm, syntax(src, pch)
    rep.rule('rejection witness: results of mixed quaternion conventions or mixed bases have no type, so the program is refused')
    with ThreadPoolExecutor(8) as ex:
        for nm, (rc, err) in ex.map(run, sorted(neg)):
            if rc == 0:
                rep.violation(nm, 'rejection witness: mixed conventions do not compile', neg[nm])
            else:
                rep.ok()
                if os.environ.get('P24DBG'):
                    print(nm, [l for l in err.splitlines() if 'error:' in l][:1])
