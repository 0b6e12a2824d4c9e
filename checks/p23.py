"""Run-time size checks: for every size-checked operation and every combination
of sizes, the documented error exactly when the sizes do not match, no access
outside an operand, and a refused assignment leaves its target alone."""
from harness import Gen
from ops import *
from sizeops import *

WK = ['KD', 'KX', 'KF', 'KE']
RK = ['KD', 'KX', 'KY', 'KF', 'KE', 'KC']
VF = ['lv', 'rv', 'cl', 'ex', 'row', 'col', 'sub', 'rsub']
MF = ['lv', 'rv', 'cl', 'ex', 'tr', 'trr']

def vecop(kind, form, nm, n):
    if n == 0:
        d = {'KD': 'vector<double,dynamic<>> %s; ' % nm, 'KX': 'double %s_z[1]={}; vector<double,external<>> %s(%s_z,0); ' % (nm, nm, nm),
             'KY': 'double %s_z[1]={}; vector<const double,external<>> %s(%s_z,0); ' % (nm, nm, nm)}[kind]
        return d, {'rv': 'std::move(%s)', 'cl': 'std::as_const(%s)', 'ex': '(%s*1.)'}.get(form, '%s') % nm, nm
    if kind in ('KC', 'KY') and form in ('row', 'col'):
        form = 'ex'
    v = V(kind, form, nm, nm + '_a', n)
    return 'double %s_a[%d]={1.}; ' % (nm, n) + v.decl + ' ', v.expr, nm + '.v'

def matop(kind, form, nm, s, Bs, L):
    m = M(kind, form, nm, nm + '_a', s[0], s[1], Bs, L)
    return 'double %s_a[%d]={1.}; ' % (nm, s[0] * s[1]) + m.decl + ' ', m.expr, nm + '.v'

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    g.case('ok', (), (), '')
    g.case('tmatrixsizeerror', (), (), 'throw matrix_size_error();')
    seen = set()
    n = 0
    perop = {}
    for op in table():
        if not op.run:
            continue
        k = len(op.operands)
        tried = 0
        for sz in op.sizes:
            # storage kinds: rotate, always with a run-time sized operand where it matters
            combos = []
            for rep_ in range(8 if full else 3):
                n += 1
                kinds = []
                for q, (ty, role) in enumerate(op.operands):
                    ks = WK if role == 'w' else (RK if ty == 'V' else WK)
                    kinds.append(ks[(n * 7 + n // 5 + q * (3 + n // 11)) % len(ks)])
                combos.append(kinds)
                combos.append([('KX' if x in ('KF', 'KE') else 'KY' if x == 'KC' else x) if q == n % k else x for q, x in enumerate(kinds)])
            done = set()
            for kinds in combos:
                if tuple(kinds) in done:
                    continue
                done.add(tuple(kinds))
                if any(s == 0 and kd not in RUNTIME for s, kd in zip(sz, kinds)):
                    kinds = [kd if s else 'KX' for s, kd in zip(sz, kinds)]
                vio = violated(op, sz, kinds)
                if any(all(kinds[i] not in RUNTIME for i in idx) for e, idx in vio):
                    continue        # refused by the compiler: P24
                if not any(kd in RUNTIME for kd in kinds):
                    continue
                errs = {e for e, idx in vio}
                if len(errs) > 1:
                    continue
                n += 1
                decl, exprs, objs = op.decl, [], []
                Bs, L = RC[n % 2], LAYOUTS[n // 2 % 2]
                anybasis = any(t == 'B' for t, r in op.operands)
                tags = []
                for q, ((ty, role), s, kd) in enumerate(zip(op.operands, sz, kinds)):
                    nm = 'xyzw'[q]
                    if ty == 'V':
                        fm = 'lv' if role == 'w' else VF[(n // 3 + q * 5) % len(VF)]
                        d, e, o = vecop(kd, fm, nm, s)
                    else:
                        fm = 'lv' if role == 'w' else MF[(n // 3 + q * 5) % len(MF)]
                        if op.name == 'mset' and fm == 'rv' and kinds == ['KX', 'KX']:
                            fm = 'cl'       # moving a run-time sized external matrix rebinds it
                        if ty == 'B' and Bs == 'col_basis':
                            s = (s[1], s[0])
                        d, e, o = matop(kd, fm, nm, s, Bs, L if q % 2 == 0 else LAYOUTS[n // 7 % 2])
                    decl += d
                    exprs.append(e)
                    if role == 'w' and op.watch:
                        objs.append('watch(%s); ' % o)
                    tags.append(kd[1] + fm)
                case = 'ok'
                if errs:
                    case = 't' + list(errs)[0].replace('_', '')
                    g.case(case, (), (), 'throw %s();' % list(errs)[0])
                tried += 1
                text = op.text.format(*exprs)
                st = text if '=' in text and not text.startswith('(') or op.operands[0][1] == 'w' else '(void)(%s)' % text
                if op.name in ('vadd', 'vsub', 'vhad', 'cross', 'madd', 'msub', 'mhad', 'mm', 'mv', 'vm') and not errs:
                    st = 'auto rr=temporary_of_t<decltype(%s)>(%s); (void) rr' % (text, text) if False else st
                g.t(case, 'EVT%d_%s_%s' % (n, op.name, '_'.join(tags)), decl + ''.join(objs) + st + ';')
        perop[op.name] = tried
    # ---- lists given to a quaternion, and run-time sized objects built from data
    for k in (1, 2, 3, 4, 5):
        c = 'ok' if k == 4 else 'tquaternionsizeerror'
        if k != 4:
            g.case(c, (), (), 'throw quaternion_size_error();')
        lst = '{%s}' % ','.join(['1.'] * k)
        for o in ORDERS:
            for x in CROSSES:
                ty = 'quaternion<double,fixed<>,%s,%s>' % (o, x)
                g.t(c, 'EVTqs%d%s%s' % (k, SHORT[o], SHORT[x]), ty + ' q(1.,2.,3.,4.); watch(q); std::initializer_list<double> l=%s; q=l;' % lst)
                g.t(c, 'EVTqc%d%s%s' % (k, SHORT[o], SHORT[x]), 'std::initializer_list<double> l=%s; %s q(l); (void) q;' % (lst, ty))
    # fixed-size vectors given arrays (checked at run time)
    for a in (1, 2, 3, 4):
        for b in (1, 2, 3, 4):
            c = 'ok' if a == b else 'tvectorsizeerror'
            for kd in ('KF', 'KE'):
                g.t(c, 'EVTar%d%d%s' % (a, b, kd), 'double x_a[%d]={}; double ar[%d]={}; vec<%s,double,%d> x(x_a); watch(x.v); x.v=ar;' % (a, b, kd, a))
            g.t(c, 'EVTac%d%d' % (a, b), 'double ar[%d]={}; vector<double,compiled<%d>> x(ar); (void) x;' % (b, a))
    # fixed-size objects given run-time sized data
    for a in (1, 2, 3, 4):
        for b in (1, 2, 3, 4):
            c = 'ok' if a == b else 'tincompatiblevectorsizeerror'
            for kd in ('KD', 'KX', 'KY'):
                g.t(c, 'EVTcv%d%d%s' % (a, b, kd), 'double y_a[%d]={}; vec<%s,double,%d> y(y_a); vector<double,compiled<%d>> x(y.v); (void) x;' % (b, kd, b, a))
            lst = '{%s}' % ','.join(['1.'] * b)
            g.t(c, 'EVTcl%d%d' % (a, b), 'std::initializer_list<double> l=%s; vector<double,compiled<%d>> x(l); (void) x;' % (lst, a))
            g.t(c, 'EVTal%d%d' % (a, b), 'std::initializer_list<double> l=%s; vector<double,compiled<%d>> x; x.zero(); watch(x); x=l;' % (lst, a))
            g.t(c, 'EVTel%d%d' % (a, b), 'std::initializer_list<double> l=%s; double d[%d]={}; vector<double,external<%d>> x(d); watch(x); x=l;' % (lst, a, a))
    for a in (1, 2, 3):
        for b in (1, 2, 3):
            for p in (1, 2, 3):
                for q in (1, 2, 3):
                    c = 'ok' if (a, b) == (p, q) else 'tincompatiblematrixsizeerror'
                    for kd in ('KD', 'KX'):
                        g.t(c, 'EVTcm%d%d%d%d%s' % (a, b, p, q, kd), 'double y_a[%d]={}; mat<%s,double,%d,%d> y(y_a); matrix<double,compiled<%d,%d>> x(y.v); (void) x;' % (p * q, kd, p, q, a, b))
            for k in (1, 2, 4, 6, 9):
                c = 'ok' if a * b == k else 'tincompatiblematrixsizeerror'
                lst = '{%s}' % ','.join(['1.'] * k)
                for nm, ty, dd in (('f', 'compiled<%d,%d>' % (a, b), ''), ('e', 'external<%d,%d>' % (a, b), 'double d[%d]={}; ' % (a * b))):
                    g.t(c, 'EVTml%d%d%d%s' % (a, b, k, nm), 'std::initializer_list<double> l=%s; %smatrix<double,%s> x%s; %s watch(x); x=l;' % (lst, dd, ty, '(d)' if dd else '', '' if dd else 'x.zero();'))
                g.t(c, 'EVTmcl%d%d%d' % (a, b, k), 'std::initializer_list<double> l=%s; matrix<double,compiled<%d,%d>> x(l); (void) x;' % (lst, a, b))
                if k > 1:
                    g.t('ok' if a * b == k else 'tmatrixsizeerror', 'EVTmde%d%d%d' % (a, b, k), 'matrix<double,dynamic<>> x(%d,%d,%s); (void) x;' % (a, b, ','.join(['1.'] * k)))
                # an external matrix is reshaped only to a shape of the same number of elements
                c2 = 'ok' if a * b == k else 'tmatrixsizeerror'
                for L in LAYOUTS:
                    for p, q in sorted({(1, k), (k, 1)} | ({(2, k // 2)} if k % 2 == 0 else set())):
                        g.t(c2, 'EVTmxr%d%d%d%d%s' % (a, b, p, q, SHORT[L]), 'double d[%d]={}; matrix<double,external<>,row_basis,%s> x(d,%d,%d); watch(x); x.resize(%d,%d);' % (a * b, L, a, b, p, q))
    # a vector and extra elements joined by a constructor
    for b in (1, 2, 3):
        for kd in ('KD', 'KX', 'KY', 'KF'):
            for e in (1, 2):
                ex = ',1.' * e
                pre = 'double y_a[%d]={}; vec<%s,double,%d> y(y_a); ' % (b, kd, b)
                g.t('ok', 'EVTjd%d%d%s' % (b, e, kd), pre + 'vector<double,dynamic<>> x(y.v%s); (void) x;' % ex)
                for a in (1, 2, 3, 4, 5):
                    if kd != 'KF':
                        g.case('tvectorsizeerror' if a != b + e else 'ok', (), (), 'throw vector_size_error();' if a != b + e else '')
                        g.t('tvectorsizeerror' if a != b + e else 'ok', 'EVTjc%d%d%d%s' % (a, b, e, kd), pre + 'vector<double,compiled<%d>> x(y.v%s); (void) x;' % (a, ex))
    rep.count('operations', len(perop))
    rep.floor('operations', 100)
    for nm, c in perop.items():
        assert c > 3, nm
    rep.values(g)
