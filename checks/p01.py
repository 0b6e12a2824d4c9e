import cutoff
from harness import Gen
from ops import *
import itertools

VF = VFORMS + ['row', 'col', 'sub']
MF = VFORMS + ['tr']

def loop(n, s):
    return 'for(int i=0;i<%d;++i) %s' % (n, s)

def typed(g, full):
    """integer and mixed element types: every operation happens in the promoted type, and a
    compound form converts the result to the type of the target once"""
    shapes = [('v', 3), ('v', 5), ('m', 6), ('q', 4)]
    for E, S in (('int', 'int'), ('int', 'double'), ('double', 'int'), ('int', 'long')) + ((('long', 'int'), ('long', 'double')) if full else ()):
        for sh, n in shapes:
            def obj(nm, arr, T, k):
                L, B = LAYOUTS[k % 2], RC[k // 2 % 2]
                K = KINDS[k % 4]
                return {'v': 'vec<%s,%s,%d> %s(%s);' % (K, T, n, nm, arr), 'm': 'mat<%s,%s,2,3,row_basis,%s> %s(%s);' % (K, T, L, nm, arr),
                        'q': 'quat<%s,%s,%s> %s(%s);' % (T, ORDERS[k % 2], CROSSES[k // 2 % 2], nm, arr)}[sh]
            em = {'v': 'emitv<%d>' % n, 'm': 'emitm<2,3>', 'q': 'emitq'}[sh]
            id = '%s%d%s%s' % (sh, n, E[0], S[0] if S != 'long' else 'g')
            for op, nm in (('*', 'mul'), ('/', 'div')):
                cc, cb, cl = 't' + nm + 'c' + id, 't' + nm + 'b' + id, 't' + nm + 'l' + id
                g.case(cc, (n, 1), (n,), '%s s=%s(b[0]); ' % (S, S) + loop(n, 'o[i]=double(%s(%s(a[i])%ss));' % (E, E, op)))
                g.case(cb, (n, 1), (n,), '%s s=%s(b[0]); ' % (S, S) + loop(n, 'o[i]=double(%s(a[i])%ss);' % (E, op)))
                for k in range(4):
                    d = obj('x', 'a', E, k) + '%s s=%s(b[0]); ' % (S, S)
                    g.t(cc, 'l%d' % k, d + 'x.v%s=s; %s(o,x.v);' % (op, em))
                    g.t(cc, 'r%d' % k, d + '%s(o,std::move(x.v)%s=s);' % (em, op))
                    g.t(cb, 'l%d' % k, d + '%s(o,x.v%ss);' % (em, op))
                    g.t(cb, 'n%d' % k, d + '%s(o,(-(-x.v))%ss);' % (em, op))
                    if op == '*':
                        g.t(cb, 's%d' % k, d + '%s(o,s*x.v);' % em)
            for op, nm in (('+', 'add'), ('-', 'sub')):
                cc, cb = 't' + nm + 'c' + id, 't' + nm + 'b' + id
                g.case(cc, (n, n), (n,), loop(n, 'o[i]=double(%s(%s(a[i])%s%s(b[i])));' % (E, E, op, S)))
                g.case(cb, (n, n), (n,), loop(n, 'o[i]=double(%s(a[i])%s%s(b[i]));' % (E, op, S)))
                for k in range(4):
                    # quaternion operands share their order and cross type
                    d = obj('x', 'a', E, k) + obj('y', 'b', S, k if sh == 'q' else k * 3 + 1)
                    g.t(cc, 'l%d' % k, d + 'x.v%s=y.v; %s(o,x.v);' % (op, em))
                    g.t(cc, 'e%d' % k, d + 'x.v%s=-(-y.v); %s(o,x.v);' % (op, em))
                    g.t(cc, 'r%d' % k, d + '%s(o,std::move(x.v)%s=y.v);' % (em, op))
                    g.t(cb, 'l%d' % k, d + '%s(o,x.v%sy.v);' % (em, op))
                    g.t(cb, 'n%d' % k, d + '%s(o,(-(-x.v))%s(+y.v));' % (em, op))

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    sizes = [1, 2, 3, 4, 5, 9, 17] + ([6, 7, 8, 33] if full else []) + [n for n in cutoff.extra() if n not in (5, 6, 7, 8, 9, 17, 33)]
    rot = 0
    # vectors
    for n in sizes:
        g.thin, g.keep = (1, 0) if n < 9 else (7, 0) if n < 18 else (29, 8)
        for op, nm in (('+', 'add'), ('-', 'sub')):
            case = 'v%s_%d' % (nm, n)
            g.case(case, (n, n), (n,), loop(n, 'o[i]=a[i]%sb[i];' % op))
            lefts = [(k, f) for k in CKINDS for f in VF if not (f in ('row', 'col') and k in ('KC', 'KY'))]
            for li, (k, f) in enumerate(lefts):
                rights = lefts if full and n == 3 else [lefts[(li * 5 + rot + s * 11) % len(lefts)] for s in range(3)]
                rot += 1
                for k2, f2 in dict.fromkeys(rights):
                    x, y = V(k, f, 'x', 'a', n), V(k2, f2, 'y', 'b', n)
                    g.t(case, x.tag + '_' + y.tag, '%s %s emitv<%d>(o, %s%s%s);' % (x.decl, y.decl, n, x.expr, op, y.expr))
            # compound
            for k in KINDS:
                for k2, f2 in lefts[rot % 3::3]:
                    x, y = V(k, 'lv', 'x', 'a', n), V(k2, f2, 'y', 'b', n)
                    g.t(case, 'c' + x.tag + '_' + y.tag, '%s %s x.v%s=%s; emitv<%d>(o, x.v);' % (x.decl, y.decl, op, y.expr, n))
                g.t(case, 'cr' + SHORT[k], 'vec<%s,double,%d> x(a); vec<%s,double,%d> y(b); auto&& r = std::move(x.v)%s=y.v; emitv<%d>(o, r);' % (k, n, k, n, op, n))
                rot += 1
        case = 'vneg_%d' % n
        g.case(case, (n,), (n,), loop(n, 'o[i]=-a[i];'))
        case2 = 'vpos_%d' % n
        g.case(case2, (n,), (n,), loop(n, 'o[i]=a[i];'))
        for k in CKINDS:
            for f in VF:
                if f in ('row', 'col') and k in ('KC', 'KY'):
                    continue
                x = V(k, f, 'x', 'a', n)
                g.t(case, x.tag, '%s emitv<%d>(o, -%s);' % (x.decl, n, x.expr))
                g.t(case2, x.tag, '%s emitv<%d>(o, +%s);' % (x.decl, n, x.expr))
        for op, nm in (('*', 'mul'), ('/', 'div')):
            case = 'vs%s_%d' % (nm, n)
            g.case(case, (n, 1), (n,), loop(n, 'o[i]=a[i]%sb[0];' % op))
            for k in CKINDS:
                for f in VF:
                    if f in ('row', 'col') and k in ('KC', 'KY'):
                        continue
                    x = V(k, f, 'x', 'a', n)
                    g.t(case, x.tag, '%s emitv<%d>(o, %s%sb[0]);' % (x.decl, n, x.expr, op))
                    if op == '*':
                        g.t(case, 'l' + x.tag, '%s emitv<%d>(o, b[0]*%s);' % (x.decl, n, x.expr))
            for k in KINDS:
                g.t(case, 'c' + SHORT[k], 'vec<%s,double,%d> x(a); x.v%s=b[0]; emitv<%d>(o, x.v);' % (k, n, op, n))
                g.t(case, 'cr' + SHORT[k], 'vec<%s,double,%d> x(a); emitv<%d>(o, std::move(x.v)%s=b[0]);' % (k, n, n, op))
    # matrices
    shapes = [(1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (5, 6), (7, 3)] + ([(1, 3), (3, 1), (4, 2), (3, 4), (5, 5)] if full else []) + cutoff.shapes()
    allm = [(k, f, B, L) for k in KINDS for f in MF for B in RC for L in LAYOUTS]
    for r, c in shapes:
        g.thin = 1 if r < 5 and c < 9 else 5 if r + c < 20 else 31
        n = r * c
        for op, nm in (('+', 'add'), ('-', 'sub')):
            case = 'm%s_%d%d' % (nm, r, c)
            g.case(case, (n, n), (n,), loop(n, 'o[i]=a[i]%sb[i];' % op))
            for li, (k, f, B, L) in enumerate(allm):
                rights = [allm[(li * 7 + rot + s * 37) % len(allm)] for s in range(8 if full else 1)]
                rot += 3
                for k2, f2, B2, L2 in dict.fromkeys(rights):
                    if B2 != B:
                        B2 = B
                    x, y = M(k, f, 'x', 'a', r, c, B, L), M(k2, f2, 'y', 'b', r, c, B2, L2)
                    v = x.tag + '_' + y.tag
                    if v in g.cases[case][3]:
                        continue
                    g.t(case, v, '%s %s emitm<%d,%d>(o, %s%s%s);' % (x.decl, y.decl, r, c, x.expr, op, y.expr))
            for k in KINDS:
                for L in LAYOUTS:
                    for j in range(3):
                        k2, f2, B2, L2 = allm[(rot * 7 + j * 29) % len(allm)]
                        x, y = M(k, 'lv', 'x', 'a', r, c, 'row_basis', L), M(k2, f2, 'y', 'b', r, c, 'row_basis', L2)
                        v = 'c' + x.tag + '_' + y.tag
                        if v not in g.cases[case][3]:
                            g.t(case, v, '%s %s x.v%s=%s; emitm<%d,%d>(o, x.v);' % (x.decl, y.decl, op, y.expr, r, c))
                        rot += 1
                    g.t(case, 'cr' + SHORT[k] + SHORT[L], '%s %s auto&& z = std::move(x.v)%s=%s; emitm<%d,%d>(o, z);' % (x.decl, y.decl, op, y.expr, r, c))
        case = 'mneg_%d%d' % (r, c)
        g.case(case, (n,), (n,), loop(n, 'o[i]=-a[i];'))
        case2 = 'mpos_%d%d' % (r, c)
        g.case(case2, (n,), (n,), loop(n, 'o[i]=a[i];'))
        for li, (k, f, B, L) in enumerate(allm):
            if not full and li % 3 != rot % 3:
                continue
            x = M(k, f, 'x', 'a', r, c, B, L)
            g.t(case, x.tag, '%s emitm<%d,%d>(o, -%s);' % (x.decl, r, c, x.expr))
            g.t(case2, x.tag, '%s emitm<%d,%d>(o, +%s);' % (x.decl, r, c, x.expr))
        rot += 1
        for op, nm in (('*', 'mul'), ('/', 'div')):
            case = 'ms%s_%d%d' % (nm, r, c)
            g.case(case, (n, 1), (n,), loop(n, 'o[i]=a[i]%sb[0];' % op))
            for li, (k, f, B, L) in enumerate(allm):
                if not full and li % 3 != rot % 3:
                    continue
                x = M(k, f, 'x', 'a', r, c, B, L)
                g.t(case, x.tag, '%s emitm<%d,%d>(o, %s%sb[0]);' % (x.decl, r, c, x.expr, op))
                if op == '*':
                    g.t(case, 'l' + x.tag, '%s emitm<%d,%d>(o, b[0]*%s);' % (x.decl, r, c, x.expr))
            rot += 1
            for k in KINDS:
                for L in LAYOUTS:
                    g.t(case, 'c' + SHORT[k] + SHORT[L], 'mat<%s,double,%d,%d,row_basis,%s> x(a); x.v%s=b[0]; emitm<%d,%d>(o, x.v);' % (k, r, c, L, op, r, c))
                    g.t(case, 'cr' + SHORT[k] + SHORT[L], 'mat<%s,double,%d,%d,col_basis,%s> x(a); emitm<%d,%d>(o, std::move(x.v)%s=b[0]);' % (k, r, c, L, r, c, op))
    g.thin = 1
    # quaternions
    qk = [(o, x) for o in ORDERS for x in CROSSES]
    for op, nm in (('+', 'add'), ('-', 'sub')):
        case = 'q' + nm
        g.case(case, (4, 4), (4,), loop(4, 'o[i]=a[i]%sb[i];' % op))
        for o, x in qk:
            for f in VFORMS:
                for f2 in VFORMS:
                    p, q = Q(f, 'x', 'a', o, x), Q(f2, 'y', 'b', o, x)
                    g.t(case, p.tag + '_' + q.tag, '%s %s emitq(o, %s%s%s);' % (p.decl, q.decl, p.expr, op, q.expr))
                q = Q(f, 'y', 'b', o, x)
                g.t(case, 'c' + SHORT[o] + SHORT[x] + q.tag, 'quat<double,%s,%s> x(a); %s x.v%s=%s; emitq(o, x.v);' % (o, x, q.decl, op, q.expr))
                g.t(case, 'cr' + SHORT[o] + SHORT[x] + q.tag, 'quat<double,%s,%s> x(a); %s emitq(o, std::move(x.v)%s=%s);' % (o, x, q.decl, op, q.expr))
    g.case('qneg', (4,), (4,), loop(4, 'o[i]=-a[i];'))
    g.case('qpos', (4,), (4,), loop(4, 'o[i]=a[i];'))
    g.case('qsmul', (4, 1), (4,), loop(4, 'o[i]=a[i]*b[0];'))
    g.case('qsdiv', (4, 1), (4,), loop(4, 'o[i]=a[i]/b[0];'))
    for o, x in qk:
        for f in VFORMS:
            p = Q(f, 'x', 'a', o, x)
            g.t('qneg', p.tag, p.decl + 'emitq(o, -%s);' % p.expr)
            g.t('qpos', p.tag, p.decl + 'emitq(o, +%s);' % p.expr)
            g.t('qsmul', p.tag, p.decl + 'emitq(o, %s*b[0]);' % p.expr)
            g.t('qsmul', 'l' + p.tag, p.decl + 'emitq(o, b[0]*%s);' % p.expr)
            g.t('qsdiv', p.tag, p.decl + 'emitq(o, %s/b[0]);' % p.expr)
        for op, nm in (('*', 'mul'), ('/', 'div')):
            d = 'quat<double,%s,%s> x(a);' % (o, x)
            g.t('qs' + nm, 'c' + SHORT[o] + SHORT[x], d + 'x.v%s=b[0]; emitq(o, x.v);' % op)
            g.t('qs' + nm, 'cr' + SHORT[o] + SHORT[x], d + 'emitq(o, std::move(x.v)%s=b[0]);' % op)
    typed(g, full)
    rep.values(g)
