"""Compile-time size checks, decided on the type-checked program: one
translation unit per mismatched combination of fixed sizes, which the compiler
must refuse, and batches of matching combinations, which it must accept with
the documented result size."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
import build
from ops import *
from sizeops import *

FLAGS = ['-O0', '-w', '-ferror-limit=0', '-ftemplate-backtrace-limit=0']
VF = ['lv', 'rv', 'cl', 'ex', 'row', 'col', 'sub', 'rsub']
MF = ['lv', 'rv', 'cl', 'ex', 'tr', 'trr']

def vec_(kind, form, nm, n):
    """parameter declaration and expression of a fixed-size (or run-time sized) vector"""
    E = 'const double' if kind in ('KC', 'KY') else 'double'
    if form in ('row', 'col') and kind in ('KC', 'KY'):
        form = 'cl'
    st = {'KF': 'compiled<%d>', 'KE': 'external<%d>', 'KC': 'external<%d>', 'KD': 'dynamic<>', 'KX': 'external<>', 'KY': 'external<>'}[kind]
    sz = lambda k: st % k if '%' in st else st
    m2 = lambda r, c: {'KF': 'compiled<%d,%d>' % (r, c), 'KE': 'external<%d,%d>' % (r, c), 'KD': 'dynamic<>', 'KX': 'external<>'}[kind]
    if form == 'row':
        return 'matrix<double,%s>& %s' % (m2(2, n), nm), 'row(%s,1)' % nm, nm
    if form == 'col':
        return 'matrix<double,%s>& %s' % (m2(n, 2), nm), 'col(%s,1)' % nm, nm
    if form in ('sub', 'rsub'):
        return 'vector<%s,%s>& %s' % (E, sz(n + 1), nm), ('subvector(%s,1)' if form == 'sub' else 'subvector(std::move(%s),1)') % nm, nm
    return 'vector<%s,%s>& %s' % (E, sz(n), nm), {'lv': '%s', 'rv': 'std::move(%s)', 'cl': 'std::as_const(%s)', 'ex': '(%s*1.)'}[form] % nm, nm

def mat_(kind, form, nm, s, B, L):
    r, c = s
    if form in ('tr', 'trr'):
        r, c = c, r
    st = {'KF': 'compiled<%d,%d>' % (r, c), 'KE': 'external<%d,%d>' % (r, c), 'KD': 'dynamic<>', 'KX': 'external<>'}[kind]
    return 'matrix<double,%s,%s,%s>& %s' % (st, B, L, nm), {'lv': '%s', 'rv': 'std::move(%s)', 'cl': 'std::as_const(%s)', 'ex': '(%s*1.)',
                                                         'tr': 'transpose(%s)', 'trr': 'transpose(std::move(%s))'}[form] % nm, nm

RES = '''
template<class T> using plain = std::remove_cv_t<std::remove_reference_t<T>>;
template<class T, int N> constexpr bool vec_size() {
  using tt = cml::temporary_of_t<plain<T>>;
  return cml::array_size_of_c<plain<T>>::value == N && cml::array_size_of_c<tt>::value == N && sizeof(tt) == N*sizeof(double); }
template<class T, int R, int C> constexpr bool mat_size() {
  if constexpr(std::is_same<cml::basis_tag_of_t<plain<T>>, cml::any_basis>::value)
    return cml::array_rows_of_c<plain<T>>::value == R && cml::array_cols_of_c<plain<T>>::value == C;
  else { using tt = cml::temporary_of_t<plain<T>>;
  return cml::array_rows_of_c<plain<T>>::value == R && cml::array_cols_of_c<plain<T>>::value == C
    && cml::array_rows_of_c<tt>::value == R && cml::array_cols_of_c<tt>::value == C && sizeof(tt) == R*C*sizeof(double); } }
'''

def syntax(src, pch):
    p = subprocess.run([build.CLANG, '-std=c++17', '-fsyntax-only', '-I', build.REPO, '-I', os.path.join(build.VERIF, 'harness'),
                        '-include-pch', pch] + FLAGS + [src], capture_output=True, text=True)
    return p.returncode, p.stderr

def flat(sz):
    return [d for s in sz for d in (s if isinstance(s, tuple) else (s,))]

def shape(sz, f):
    f = iter(f)
    return tuple(tuple(next(f) for _ in s) if isinstance(s, tuple) else next(f) for s in sz)

def boundary(op, sz, kinds):
    """one dimension away from sizes that match"""
    f = flat(sz)
    for i in range(len(f)):
        for d in (-1, 1):
            if not violated(op, shape(sz, f[:i] + [f[i] + d] + f[i+1:]), kinds):
                return True
    return False

def generate(full):
    pos, neg = {}, {}         # name -> (function text)
    n = 0
    perop = {}
    for op in table():
        if not op.fixed:
            continue
        c = [0, 0]
        for sz in op.sizes:
            if any(s == 0 for s in sz):
                continue
            v0 = violated(op, sz, ['KF'] * len(op.operands))
            if v0 and not full and not boundary(op, sz, ['KF'] * len(op.operands)):
                continue
            reps = 3 if full else 1
            tried = set()
            for rep_ in range(reps):
                n += 1
                kinds = []
                for q, (ty, role) in enumerate(op.operands):
                    ks = ['KF', 'KF', 'KE'] if role == 'w' or ty != 'V' else ['KF', 'KE', 'KC', 'KF']
                    kinds.append(ks[(n + n // 3 + q * (1 + n // 7)) % len(ks)])
                # sometimes an operand that has no part in the mismatch is sized at run time
                vio = violated(op, sz, kinds)
                if vio and n % 3 == 0:
                    inv = {i for e, idx in vio for i in idx}
                    for q, (ty, role) in enumerate(op.operands):
                        if q not in inv:
                            kinds[q] = 'KD'
                    vio = violated(op, sz, kinds)
                forms = []
                for q, (ty, role) in enumerate(op.operands):
                    fl = VF if ty == 'V' else MF
                    forms.append('lv' if role == 'w' else fl[(n // 2 + q * 5) % len(fl)])
                Bs, L = RC[n % 2], LAYOUTS[n // 2 % 2]
                key = (tuple(kinds), tuple(forms))
                if key in tried:
                    continue
                tried.add(key)
                params, exprs = [], []
                for q, ((ty, role), s, kd) in enumerate(zip(op.operands, sz, kinds)):
                    nm = 'xyzw'[q]
                    if ty == 'V':
                        d, e, o = vec_(kd, forms[q], nm, s)
                    else:
                        if ty == 'B' and Bs == 'col_basis':
                            s = (s[1], s[0])
                        d, e, o = mat_(kd, forms[q], nm, s, Bs, L if q % 2 == 0 else LAYOUTS[n // 7 % 2])
                    params.append(d)
                    exprs.append(e)
                text = op.text.format(*exprs)
                tag = '%s_%s' % (op.name, '_'.join('%s%s%s' % (k[1], f, str(s).replace(', ', 'x').strip('()')) for k, f, s in zip(kinds, forms, sz)))
                fn = 'w%d_%s' % (n, tag)
                body = op.decl + ('(void)(%s);' % text if '=' not in text else text + ';')
                fixed_vio = [v for v in vio if all(kinds[i] not in RUNTIME for i in v[1])]
                if vio and not fixed_vio:
                    continue
                if not vio and op.res:
                    r = op.res(sz)
                    if isinstance(r, tuple):
                        if op.operands[0][0] == 'B' and Bs == 'col_basis':
                            r = (r[1], r[0])
                        body += ' static_assert(mat_size<decltype(%s),%d,%d>(), "result size");' % (text, r[0], r[1])
                    else:
                        body += ' static_assert(vec_size<decltype(%s),%d>(), "result size");' % (text, r)
                src = 'void %s(%s) { %s }' % (fn, ', '.join(params), body)
                if vio:
                    neg[fn] = src
                    c[1] += 1
                else:
                    pos[fn] = src
                    c[0] += 1
        perop[op.name] = c
    # ---- constructors, element and array assignment of fixed-size objects
    def both(nm, ok, src):
        nonlocal n
        n += 1
        fn = 'w%d_%s' % (n, nm)
        (pos if ok else neg)[fn] = src % fn
    R4 = (1, 2, 3, 4)
    for a in R4:
        for b in R4:
            both('cctor%d%d' % (a, b), a == b, 'void %%s(vector<double,compiled<%d>>& y) { vector<double,compiled<%d>> x(y); (void) x; }' % (b, a))
            both('ector%d%d' % (a, b), a == b, 'void %%s(vector<double,external<%d>>& y) { vector<double,compiled<%d>> x(y*2.); (void) x; }' % (b, a))
            if b > 1:
                both('lctor%d%d' % (a, b), a == b, 'void %%s() { vector<double,compiled<%d>> x(%s); (void) x; }' % (a, ','.join(['1.'] * b)))
            both('jctor%d%d' % (a, b), a == b + 1, 'void %%s(vector<double,compiled<%d>>& y) { vector<double,compiled<%d>> x(y,1.); (void) x; }' % (b, a))
            both('jctoe%d%d' % (a, b), a == b + 2, 'void %%s(vector<double,external<%d>>& y) { vector<double,compiled<%d>> x(y,1.,2.); (void) x; }' % (b, a))
        both('qv%d' % a, a == 3, 'void %%s(vector<double,compiled<%d>>& y) { quaternion<double> q(y,1.); (void) q; }' % a)
        both('qsv%d' % a, a == 3, 'void %%s(vector<double,external<%d>>& y) { quaternion<double> q; q.set(y,1.); }' % a)
        both('qse%d' % a, a == 3, 'void %%s(quaternion<double>& q, vector<double,compiled<%d>>& y) { q.set(1., y); }' % a)
    for a in (2, 3, 4, 5):
        both('qa%d' % a, a == 4, 'void %%s(double (&y)[%d]) { quaternion<double> q(y); (void) q; }' % a)
        both('qas%d' % a, a == 4, 'void %%s(double (&y)[%d]) { quaternion<double> q; q = y; }' % a)
        both('qec%d' % a, a == 4, 'void %%s() { quaternion<double> q(%s); (void) q; }' % ','.join(['1.'] * a))
    R3 = (1, 2, 3)
    for a in R3:
        for b in R3:
            for p in R3:
                for q in R3:
                    ok = (a, b) == (p, q)
                    both('mcctor', ok, 'void %%s(matrix<double,compiled<%d,%d>>& y) { matrix<double,compiled<%d,%d>> x(y); (void) x; }' % (p, q, a, b))
                    if full or (a + b + p + q) % 2 == 0:
                        both('mector', ok, 'void %%s(matrix<double,external<%d,%d>>& y) { matrix<double,compiled<%d,%d>> x(transpose(y)); (void) x; }' % (q, p, a, b))
                        both('m2dctor', ok, 'void %%s(double (&y)[%d][%d]) { matrix<double,compiled<%d,%d>,row_basis,col_major> x(y); (void) x; }' % (p, q, a, b))
                        both('m2dext', ok, 'void %%s(double (&y)[%d][%d]) { matrix<double,external<%d,%d>,row_basis,row_major> x(y); (void) x; }' % (p, q, a, b))
            for k in (2, 3, 4, 6, 9):
                both('m1dctor', a * b == k, 'void %%s(double (&y)[%d]) { matrix<double,compiled<%d,%d>> x(y); (void) x; }' % (k, a, b))
                both('mlctor', a * b == k, 'void %%s() { matrix<double,compiled<%d,%d>> x(%s); (void) x; }' % (a, b, ','.join(['1.'] * k)))
    return pos, neg, perop

def check(rep, tier):
    full = tier == 'thorough'
    if not rep.sane():
        rep.broken.append('the umbrella headers do not compile')
        return
    rep.rule('rejection witness: a translation unit with one operation on fixed sizes that do not match is refused by the compiler')
    rep.rule('acceptance: the same operation on matching fixed sizes is accepted and its result type has the documented compile-time size')
    pos, neg, perop = generate(full)
    pch = build.pch(['-w', '-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-DVF_SYNTAX'], ['-O0'])
    tmp = build.tmpdir()
    bad_pos = {}
    names = sorted(pos)
    size = 120
    def run_pos(names, k):
        """names that are refused"""
        src = os.path.join(tmp, 'pos%s.cpp' % k)
        with open(src, 'w') as f:
            f.write('#include "h.h"\n#include <array>\n' + RES.replace('\n', ' ') + '\n')
            base = 3
            for i, nm in enumerate(names):
                f.write(pos[nm] + '\n')
        rc, err = syntax(src, pch)
        if rc == 0:
            return {}
        if len(names) == 1:
            return {names[0]: err}
        h = len(names) // 2
        out = run_pos(names[:h], k + 'a')
        out.update(run_pos(names[h:], k + 'b'))
        return out
    def run_neg(nm):
        src = os.path.join(tmp, 'neg_%s.cpp' % nm[:60])
        with open(src, 'w') as f:
            f.write('#include "h.h"\n#include <array>\n' + neg[nm] + '\n')
        rc, err = syntax(src, pch)
        os.unlink(src)
        return nm, rc, err
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        fp = [ex.submit(run_pos, names[i:i + size], str(i)) for i in range(0, len(names), size)]
        fn = list(ex.map(run_neg, sorted(neg)))
        for f in fp:
            bad_pos.update(f.result())
    rep.count('operations', len(perop))
    rep.count('accepted combinations', len(pos))
    rep.count('rejection witnesses', len(neg))
    rep.floor('accepted combinations', 400)
    rep.floor('rejection witnesses', 1200)
    rep.ok(len(pos) - len(bad_pos))
    from report import first_errors
    for nm, err in sorted(bad_pos.items()):
        e = first_errors(err)
        rep.violation(nm, 'acceptance: matching sizes compile, with the documented result size', pos[nm] + ' -- ' + '; '.join(e[:2]), e)
    reasons = {}
    for nm, rc, err in fn:
        if rc == 0:
            rep.violation(nm, 'rejection witness: mismatched fixed sizes do not compile', neg[nm])
        else:
            rep.ok()
            m = re.search(r'error: (.*)', err)
            r = re.sub(r"'.*?'|\d+", '_', m.group(1))[:90] if m else 'crash'
            reasons[r] = reasons.get(r, 0) + 1
    if os.environ.get('P24DBG'):
        for r, k in sorted(reasons.items(), key=lambda x: -x[1]):
            print(k, r)
    rep.samples += [neg[k] for k in sorted(neg)[:3]] + [pos[k] for k in sorted(pos)[:3]]
    for nm, c in perop.items():
        assert c[0] or c[1], nm
