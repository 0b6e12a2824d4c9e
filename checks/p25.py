"""Ownership of dynamic storage, decided by abstract interpretation with
exceptions followed to their handlers: a typestate per heap block (obtained ->
released, with the size it was obtained with) and per element of class type
(raw -> constructed -> raw).  Every operation is analysed from every state an
object can be in (empty, moved-from, resized to nothing, n elements); an object
left in any other state would fail when it is destroyed."""
import cutoff
from harness import Gen
from ops import *

PRELUDE = r'''
#include <functional>
extern "C" void vf_ctor(const void*);
extern "C" void vf_dtor(const void*) noexcept;
extern "C" void vf_use(const void*) noexcept;
extern "C" void* vf_alloc(std::size_t);
extern "C" void vf_free(void*, std::size_t) noexcept;
// an element of class type
struct trk {
  double d;
  trk() { vf_ctor(this); d = 0.; }
  trk(double x) { vf_ctor(this); d = x; }
  trk(const trk& o) { vf_use(&o); vf_ctor(this); d = o.d; }
  trk& operator=(const trk& o) { vf_use(this); vf_use(&o); d = o.d; return *this; }
  trk& operator+=(const trk& o) { vf_use(this); vf_use(&o); d += o.d; return *this; }
  ~trk() { vf_dtor(this); }
};
inline trk operator+(const trk& a, const trk& b) { vf_use(&a); vf_use(&b); return trk(a.d + b.d); }
inline double raw(const trk& t) { vf_use(&t); return t.d; }
inline double raw(double t) { return t; }
namespace cml {
template<> struct scalar_traits<trk> { using value_type = trk; using pointer = trk*; using reference = trk&;
  using const_pointer = const trk*; using const_reference = const trk&; using mutable_value = trk&; using immutable_value = const trk&; };
template<> struct traits_of<trk> { using type = scalar_traits<trk>; };
}
// an allocator whose blocks are followed
template<class T> struct va {
  using value_type = T;
  va() = default;
  template<class U> va(const va<U>&) {}
  T* allocate(std::size_t n) { return static_cast<T*>(vf_alloc(n*sizeof(T))); }
  void deallocate(T* p, std::size_t n) { vf_free(p, n*sizeof(T)); }
};
using VS = vector<double, dynamic<>>;  using VA = vector<double, dynamic<va<void*>>>;
using TS = vector<trk, dynamic<>>;     using TA = vector<trk, dynamic<va<void*>>>;
template<class E, class A, class B, class L> using MX = matrix<E, dynamic<A>, B, L>;
template<class V, int N> inline void out_(double (&o)[N], const V& v) {
  o[0] = v.size(); for(int i = 0; i < v.size(); ++i) o[1+i] = raw(v.data()[i]); }
template<class M, int N> inline void outm(double (&o)[N], const M& m) {
  o[0] = m.rows(); o[1] = m.cols(); for(int i = 0; i < m.rows()*m.cols(); ++i) o[2+i] = raw(m.data()[i]); }
'''
TYPES = [('VS', 'double'), ('VA', 'double'), ('TS', 'trk'), ('TA', 'trk')]
ALLOC = {'S': 'std::allocator<void*>', 'A': 'va<void*>'}
STATES = ['E', '1', '2', '3', 'Z', 'M']

def mk(T, nm, s, a):
    """declaration of object nm in state s, with elements from a; its contents"""
    if s == 'E':
        return '%s %s; ' % (T, nm), []
    if s == 'Z':
        return '%s %s(2); %s.resize(0); ' % (T, nm, nm), []
    if s == 'M':
        return '%s %s(2); { %s %st(std::move(%s)); } ' % (T, nm, T, nm, nm), []
    n = int(s)
    return '%s %s(%d); ' % (T, nm, n) + ''.join('%s.put(%d,%s[%d]); ' % (nm, i, a, i) for i in range(n)), ['%s[%d]' % (a, i) for i in range(n)]

def ref(xs, ys):
    t = ''
    for o, c in (('o', xs), ('p', ys)):
        if c is None:
            continue
        t += '%s[0]=%d; ' % (o, len(c)) + ''.join('%s[%d]=%s; ' % (o, i + 1, e) for i, e in enumerate(c) if e != '?')
    return t

INS = (4, 4)
OUTS = (8, 8)

def vectors(g, full):
    n = 0
    seen = {}
    def add(name, T, pre, op, xs, ys, points, k0):
        """op: statement; xs, ys: contents afterwards of x and y"""
        nonlocal n
        r = ref(xs, ys)
        case = seen.get(r)
        if case is None:
            case = seen[r] = 'v%d' % len(seen)
            g.case(case, INS, OUTS, r)
        post = ('out_(o,x); ' if xs is not None and '?' not in xs else 'o[0]=x.size(); ' + ''.join('o[%d]=raw(x.data()[%d]); ' % (i + 1, i) for i, e in enumerate(xs) if e != '?') if xs is not None else '') \
            + ('out_(p,y); ' if ys is not None else '')
        g.t(case, 'HEAPn%s_%s' % (T, name), pre + op + ' ' + post)
        for what, k in points:
            g.t('ok', 'HEAP%s%d_%s_%s' % (what, k, T, name), 'try { %s try { %s } catch(...) {} } catch(...) {}' % (pre, op))
            n += 1
    for ti, (T, E) in enumerate(TYPES):
        zero = '0.' if E == 'trk' else '?'
        for si, s in enumerate(STATES):
            px, cx = mk(T, 'x', s, 'a')
            pts = lambda na, nc: [('a', k) for k in range(1, na + 1)] + ([('c', k) for k in range(1, nc + 1)] if E == 'trk' else [])
            m = len(cx)
            for k in (0, 1, 2, 3, 4):
                new = cx[:k] + [zero] * (k - len(cx))
                add('rs%s%d' % (s, k), T, px, 'x.resize(%d);' % k, new, None, pts(2, m + k + 1) if k > 1 or full else [], 0)
                # resize_fast: the elements are unspecified unless nothing changes
                newf = cx if k == len(cx) else [zero] * k
                add('rf%s%d' % (s, k), T, px, 'x.resize_fast(%d);' % k, newf, None, pts(2, m + k + 1) if k > 1 or full else [], 0)
            for k in (1, 3):
                for fn in ('resize', 'resize_fast'):
                    add('%sn%s%d' % (fn[-1], s, k), T, px, 'try { x.%s(-%d); } catch(const std::exception&) { }'.replace('const std::exception&', '...') % (fn, k), cx, None, [], 0)
            add('cc' + s, T, px, '%s y(x);' % T, cx, cx, [], 0)
            add('ccf' + s, T, px, '%s z(x); (void) z;' % T, cx, None, pts(2, 2 * m + 1), 0)
            add('mc' + s, T, px, '%s y(std::move(x));' % T, None, cx, pts(1, m), 0)
            add('sa' + s, T, px, 'x = *&x;', cx, None, pts(1, m), 0)
            add('sm' + s, T, px, 'x = std::move(*&x);', cx, None, [], 0)
            for t in STATES:
                py, cy = mk(T, 'y', t, 'b')
                p = pts(3, m + 2 * len(cy) + 1) if (si + STATES.index(t)) % 2 == 0 or full else []
                add('ca%s%s' % (s, t), T, px + py, 'x = y;', cy, cy, p, 0)
                # nothing is said of what a moved-from object holds: only that it can be destroyed and assigned to
                add('ma%s%s' % (s, t), T, px + py, 'x = std::move(y);', cy, None, p[:1], 0)
                add('mr%s%s' % (s, t), T, px + py, 'x = std::move(y); y = x;', cy, cy, p, 0)
                add('sw%s%s' % (s, t), T, px + py, 'std::swap(x, y);', cy, cx, [], 0)
                if cx and len(cx) == len(cy):
                    add('ea%s%s' % (s, t), T, px + py, 'x = x + y;', ['%s+%s' % (u, v) for u, v in zip(cx, cy)], cy, p, 0)
                    add('pa%s%s' % (s, t), T, px + py, 'x += y;', ['%s+%s' % (u, v) for u, v in zip(cx, cy)], cy, p, 0)
                    add('ec%s%s' % (s, t), T, px + py, '%s z(x + y); x = z;' % T, ['%s+%s' % (u, v) for u, v in zip(cx, cy)], cy, p, 0)
            for k in (1, 2, 3):
                arr = '%s ar[%d]={%s}; ' % (E, k, ','.join('b[%d]' % i for i in range(k)))
                c = ['b[%d]' % i for i in range(k)]
                lst = ','.join('%s(+b[%d])' % (E, i) for i in range(k))
                p = pts(2, m + 3 * k + 1) if (si + k) % 2 or full else []
                add('ar%s%d' % (s, k), T, px + arr, 'x = ar;', c, None, p, 0)
                add('il%s%d' % (s, k), T, px, 'x = {%s};' % lst, c, None, p, 0)
                fx = 'vector<%s,compiled<%d>> f(%s); ' % (E, k, lst)
                add('fa%s%d' % (s, k), T, px + fx, 'x = f;', c, None, p, 0)
                if k == m:
                    add('se%s%d' % (s, k), T, px, 'x.set(%s);' % lst, c, None, p, 0)
                bad = 'vector<%s,compiled<%d>> f(%s); ' % (E, k, lst)
                if m and k != m:
                    # an operation refused after temporaries were built
                    add('bad%s%d' % (s, k), T, px + bad, 'try { %s z(x); z += f; } catch(...) {}' % T, cx, None, [], 0)
        pts = lambda na, nc: [('a', k) for k in range(1, na + 1)] + ([('c', k) for k in range(1, nc + 1)] if E == 'trk' else [])
        for k in (1, 2, 3):
            c = ['b[%d]' % i for i in range(k)]
            arr = '%s ar[%d]={%s}; ' % (E, k, ','.join(c))
            lst = ','.join('%s(+%s)' % (E, e) for e in c)
            fx = 'vector<%s,compiled<%d>> f(%s); ' % (E, k, lst)
            for nm, pre, d in (('arr', arr, 'x(ar)'), ('ps', arr, 'x(&ar[0],%d)' % k), ('sp', arr, 'x(%d,&ar[0])' % k), ('il', '', 'x({%s})' % lst),
                               ('el', '', 'x(%s)' % lst), ('fx', fx, 'x(f)'), ('n', '', 'x(%d)' % k), ('l', '', 'x(%dL)' % k)):
                if nm == 'el' and k == 1 and E == 'double':
                    pass
                cc = [zero] * k if nm in ('n', 'l') else c
                add('k%s%d' % (nm, k), T, pre, '%s %s;' % (T, d), cc, None, [], 0)
                add('kf%s%d' % (nm, k), T, pre, '%s %s; (void) x;' % (T, d.replace('x(', 'x(', 1)), None, None, pts(1, 3 * k + 1), 0)
            add('kj%d' % k, T, fx, '%s x(f,%s(+a[0]));' % (T, E), c + ['a[0]'], None, [], 0)
            add('kjj%d' % k, T, fx, '%s x(f,%s(+a[0]),%s(+a[1]));' % (T, E, E), c + ['a[0]', 'a[1]'], None, [], 0)
            add('kjf%d' % k, T, fx, '%s x(f,%s(+a[0])); (void) x;' % (T, E), None, None, pts(1, 3 * k + 4), 0)
            # a function returning an object, and the temporaries of an expression
            add('rv%d' % k, T, fx, 'auto h=[&]{ %s t(f); return t; }; %s x=h(); x=h();' % (T, T), c, None, pts(2, 2 * k + 2), 0)
            add('pb%d' % k, T, fx, 'auto h=[&](%s t){ t.resize(4); return t.size(); }; %s x(f); (void) h(x);' % (T, T), c, None, pts(3, 3 * k + 4), 0)
            # a constructor that refuses its arguments releases what it had obtained
        for neg in (1, 4):
            g.t('ok', 'HEAPn%s_kneg%d' % (T, neg), 'try { %s x(-%d); (void) x; } catch(...) {}' % (T, neg))
    return n

LAY = {'R': ('row_basis', 'row_major'), 'C': ('col_basis', 'col_major'), 'X': ('row_basis', 'col_major'), 'Y': ('col_basis', 'row_major')}
MST = ['E', '11', '12', '21', '22', 'Z', 'M']

def larger(g):
    """growing and shrinking beyond every constant of the code"""
    for n in cutoff.above():
        case = 'big%d' % n
        g.case(case, (4, 4), (5,), 'o[0]=%d; o[1]=2; o[2]=a[0]; o[3]=b[0]; o[4]=a[1];' % n)
        cm = 'bigm%d' % n
        g.case(cm, (4, 4), (5,), 'o[0]=%d; o[1]=2; o[2]=2; o[3]=b[0]; o[4]=a[1];' % n)
        for T, E in TYPES:
            for k, tail in enumerate(('%s y; y=x;' % T, '%s y(x);' % T, '%s y(1); y=std::move(*&x); x=y;' % T, '%s y(%d); y=x;' % (T, n + 1))):
                g.t(case, 'HEAPn%s_%d' % (T, k), '%s x(3); x.put(0,a[0]); x.put(1,a[1]); x.resize(%d); x.put(%d,b[0]); %s x.resize(2); o[0]=y.size(); o[1]=x.size(); o[2]=raw(x.data()[0]); o[3]=raw(y.data()[%d]); o[4]=raw(x.data()[1]);' % (T, n, n - 1, tail, n - 1))
                g.t('ok', 'HEAPn%s_big%d_%d' % (T, n, k), '%s x(3); x.resize_fast(%d); %s x.resize_fast(%d); y.resize_fast(1);' % (T, n, tail, n + 2))
        for q, (e, al, _b, l) in enumerate((e, al, 0, l) for e in ('double', 'trk') for al in 'SA' for l in LAYOUTS):
            T = 'MX<%s,%s,row_basis,%s>' % (e, ALLOC[al], l)
            g.t(cm, 'HEAPnM%d' % q, '%s x(%d,2); x.put(%d,1,b[0]); x.put(0,0,a[1]); %s y(x); x.resize(2,2); o[0]=y.rows(); o[1]=y.cols(); o[2]=x.rows(); o[3]=raw(y.get(%d,1)); o[4]=raw(y.get(0,0));' % (T, n, n - 1, T, n - 1))

def mkm(T, nm, s, a):
    if s == 'E':
        return '%s %s; ' % (T, nm), (0, 0), []
    if s == 'Z':
        return '%s %s(2,1); %s.resize(0,3); ' % (T, nm, nm), (0, 3), []
    if s == 'M':
        return '%s %s(1,2); { %s %st(std::move(%s)); } ' % (T, nm, T, nm, nm), (0, 0), []
    r, c = int(s[0]), int(s[1])
    return '%s %s(%d,%d); ' % (T, nm, r, c) + ''.join('%s.data()[%d]=%s[%d]; ' % (nm, k, a, k) for k in range(r * c)), (r, c), ['%s[%d]' % (a, k) for k in range(r * c)]

def matrices(g, full):
    n = 0
    seen = {}
    MI, MO = (6, 6), (8, 8)
    def add(name, pre, op, xs, ys, points):
        nonlocal n
        r = ''
        post = ''
        for o, nm, c in (('o', 'x', xs), ('p', 'y', ys)):
            if c is None:
                continue
            (p, q), el = c
            r += '%s[0]=%d; %s[1]=%d; ' % (o, p, o, q) + ''.join('%s[%d]=%s; ' % (o, i + 2, e) for i, e in enumerate(el) if e != '?')
            post += '%s[0]=%s.rows(); %s[1]=%s.cols(); ' % (o, nm, o, nm) + ''.join('%s[%d]=raw(%s.data()[%d]); ' % (o, i + 2, nm, i) for i, e in enumerate(el) if e != '?')
        case = seen.get(r)
        if case is None:
            case = seen[r] = 'm%d' % len(seen)
            g.case(case, MI, MO, r)
        g.t(case, 'HEAPn' + name, pre + op + ' ' + post)
        for what, k in points:
            g.t('ok', 'HEAP%s%d_%s' % (what, k, name), 'try { %s try { %s } catch(...) {} } catch(...) {}' % (pre, op))
            n += 1
    z = 0
    for E in ('double', 'trk'):
        zero = '0.' if E == 'trk' else '?'
        for al in 'SA':
            for lt, (B, L) in LAY.items():
                z += 1
                if not full and lt in 'XY' and (E == 'trk') == (al == 'S'):
                    continue
                T = 'MX<%s,%s,%s,%s>' % (E, ALLOC[al], B, L)
                tg = E[0] + al + lt
                pts = lambda na, nc: [('a', k) for k in range(1, na + 1)] + ([('c', k) for k in range(1, nc + 1)] if E == 'trk' else [])
                for si, s in enumerate(MST):
                    px, sh, cx = mkm(T, 'x', s, 'a')
                    m = len(cx)
                    for k, q in ((0, 0), (0, 2), (1, 1), (1, 2), (2, 1), (2, 2), (1, 4), (3, 1), (2, 3), (1, 0)):
                        new = cx[:k * q] + [zero] * (k * q - m)
                        p = pts(2, m + k * q + 1) if (si + k + q) % 3 == 0 or full else []
                        add('rs%s%s%d%d' % (tg, s, k, q), px, 'x.resize(%d,%d);' % (k, q), ((k, q), new), None, p)
                        newf = cx if k * q == m else [zero] * (k * q)
                        add('rf%s%s%d%d' % (tg, s, k, q), px, 'x.resize_fast(%d,%d);' % (k, q), ((k, q), newf), None, p)
                    for a, b in ((-1, 2), (2, -1), (-1, -1), (-2, -2)):
                        for fn in ('resize', 'resize_fast'):
                            add('%sn%s%s%d%d' % (fn[-1], tg, s, -a if a < 0 else 5, -b if b < 0 else 5), px, 'try { x.%s(%d,%d); } catch(...) {}' % (fn, a, b), (sh, cx), None, [])
                    add('cc%s%s' % (tg, s), px, '%s y(x);' % T, (sh, cx), (sh, cx), [])
                    add('cf%s%s' % (tg, s), px, '%s z(x); (void) z;' % T, (sh, cx), None, pts(2, 2 * m + 1))
                    add('mc%s%s' % (tg, s), px, '%s y(std::move(x));' % T, None, (sh, cx), pts(1, m))
                    add('sa%s%s' % (tg, s), px, 'x = *&x;', (sh, cx), None, [])
                    add('sm%s%s' % (tg, s), px, 'x = std::move(*&x);', (sh, cx), None, [])
                    for t in MST:
                        py, th, cy = mkm(T, 'y', t, 'b')
                        p = pts(3, m + 2 * len(cy) + 1) if (si + MST.index(t) + z) % 4 == 0 or full else []
                        add('ca%s%s%s' % (tg, s, t), px + py, 'x = y;', (th, cy), (th, cy), p)
                        add('ma%s%s%s' % (tg, s, t), px + py, 'x = std::move(y);', (th, cy), None, p[:1])
                        add('mr%s%s%s' % (tg, s, t), px + py, 'x = std::move(y); y = x;', (th, cy), (th, cy), p)
                        add('sw%s%s%s' % (tg, s, t), px + py, 'std::swap(x, y);', (th, cy), (sh, cx), [])
                        if m and sh == th:
                            sm = ['%s+%s' % u for u in zip(cx, cy)]
                            add('ea%s%s%s' % (tg, s, t), px + py, 'x = x + y;', (sh, sm), (th, cy), p)
                            add('ec%s%s%s' % (tg, s, t), px + py, '%s w(x + y); x = w;' % T, (sh, sm), (th, cy), p)
                for (r, c) in ((1, 1), (1, 2), (2, 1), (2, 2)):
                    k = r * c
                    pos = [(i, j) for i in range(r) for j in range(c)]
                    st = [i * c + j for i, j in pos] if L == 'row_major' else [i * c + j for j in range(c) for i in range(r)]
                    el = ['b[%d]' % q for q in st]           # storage order of elements given in row order
                    pre1 = '%s ar[%d]={%s}; ' % (E, k, ','.join('b[%d]' % q for q in range(k)))
                    pre2 = '%s ar[%d][%d]={%s}; ' % (E, r, c, ','.join('{%s}' % ','.join('b[%d]' % (i * c + j) for j in range(c)) for i in range(r)))
                    lst = ','.join('%s(+b[%d])' % (E, q) for q in range(k))
                    for nm, pre, d, cc in (('a1', pre1, 'x(%d,%d,ar)' % (r, c), el), ('a2', pre2, 'x(ar)', el), ('pf', pre1, 'x(&ar[0],%d,%d)' % (r, c), el),
                                           ('pl', pre1, 'x(%d,%d,&ar[0])' % (r, c), el), ('il', '', 'x(%d,%d,%s)' % (r, c, lst), el), ('n', '', 'x(%d,%d)' % (r, c), [zero] * k)):
                        add('k%s%s%d%d' % (nm, tg, r, c), pre, '%s %s;' % (T, d), ((r, c), cc), None, [])
                        add('kf%s%s%d%d' % (nm, tg, r, c), pre, '%s %s; (void) x;' % (T, d), None, None, pts(1, 3 * k + 1))
                    # constructors that refuse the number of elements they are given
                    for nm, pre, d in (('b1', pre1, 'x(%d,%d,ar)' % (r + 1, c)), ('b2', '', 'x(%d,%d,%s)' % (r, c + 1, lst)), ('b3', '', 'x(%d,-1)' % r), ('b4', pre1, 'x(-1,%d,ar)' % c)):
                        add('%s%s%d%d' % (nm, tg, r, c), pre, 'try { %s %s; (void) x; } catch(...) {}' % (T, d), None, None, [])
                    if k > 1:
                        add('b5%s%d%d' % (tg, r, c), '', 'try { %s x(%d,%d,%s); (void) x; } catch(...) {}' % (T, r + 1, c, lst), None, None, [])
                    fx = 'matrix<%s,compiled<%d,%d>,%s,%s> f(%s); ' % (E, r, c, B, L, 'b[0]' if 0 else lst) if k > 1 else 'matrix<%s,compiled<1,1>,%s,%s> f; f.put(0,0,%s(+b[0])); ' % (E, B, L, E)
                    add('kx%s%d%d' % (tg, r, c), fx, '%s x(f);' % T, ((r, c), el), None, [])
                    add('kxf%s%d%d' % (tg, r, c), fx, '%s x(f); (void) x;' % T, None, None, pts(1, 3 * k + 1))
                    for s in MST:
                        px, sh, cx = mkm(T, 'x', s, 'a')
                        add('fa%s%s%d%d' % (tg, s, r, c), px + fx, 'x = f;', ((r, c), el), None, pts(2, len(cx) + 2 * k) if (r + c + MST.index(s) + z) % 3 == 0 else [])
                        add('aa%s%s%d%d' % (tg, s, r, c), px + pre2, 'x = ar;', ((r, c), el), None, [])
    return n

OPS = [  # operations that build dynamic temporaries or return dynamic objects (operands: x, y vectors of 3; m, n square of K; r 2x3)
    'VS z(x+y*2.); (void) z;', 'auto z=temporary_of_t<VS>(cross(x,y)); (void) z;', 'auto z=outer(x,y); MS q(z); (void) q;',
    'MS q(m*n); q=m*n*m; (void) q;', 'MS q(inverse(m)); (void) q;', 'm.inverse();', 'auto q=lu(m); (void) q;', 'auto q=lu_pivot(m); (void) q;',
    '(void) determinant(m);', '(void) trace(m);', 'm.transpose();', 'MS q(transpose(m)*n); (void) q;', 'm.identity();', 'MS q(r*transpose(r)); (void) q;',
    'MS q((m*n)*(n*m)); (void) q;', 'm=transpose(m);', 'm=m*n;', 'x=x-y;', 'x.normalize();', 'auto z=normalize(x); (void) z;',
    'VS z(m3*x); z=x*m3; (void) z;', 'auto z=project_to_hplane(x,y); (void) z;', 'VS z(project_to_vector(x,y)); (void) z;',
    'm.set_row(0,row(n,1));', 'm.set_col(0,col(n,1));', 'VS z(row(m,0)); (void) z;', 'VS z(subvector(x,1)); (void) z;',
    'auto q=m; q=std::move(m); m=q; ', 'MS q(hadamard(m,n)); (void) q;', 'VS z(lu_solve(m3,x)); (void) z;',
    'lu_solve(m3,x,y);', 'try { x+=VS(2); } catch(...) {}', 'try { MS q(r*m); (void) q; } catch(...) {}', 'try { MS q(inverse(r)); (void) q; } catch(...) {}',
    'try { (void) determinant(MS(r)); } catch(...) {}', 'try { x=VS(2)+VS(3); } catch(...) {}', 'try { VS z(cross(VS(2),x)); (void) z; } catch(...) {}',
    'matrix<double,dynamic<>> q(3,3); matrix_rotation_world_x(q,.5); q=q*q; ', 'VS z(rotate_vector(x,y,.5)); (void) z;',
    'vector<double,compiled<3>> f(x); x=f; x=f+x; (void) f;', 'FX f; f.identity(); MS q(f*f); q=f; q=q*f; (void) q;',
    'VS z(-x); z=x/2.; z=2.*x; (void) z;', 'VS z(hadamard(x,y)); z.minimize(x); (void) z;',
]

def temporaries(g, full):
    k = 0
    for D in (2, 3, 4, 5):
        for B, L in (('row_basis', 'row_major'), ('col_basis', 'col_major')) if not full else LAY.values():
            pre = 'using MS=matrix<double,dynamic<>,%s,%s>; using FX=matrix<double,compiled<2,2>,%s,%s>; VS x(a[0],a[1],a[2]), y(b[0],b[1],b[2]); MS m(%d,%d), n(%d,%d), r(2,3), m3(3,3); m.identity(); n.identity(); m3.identity(); r.zero(); ' % (B, L, B, L, D, D, D, D)
            for j, t in enumerate(OPS):
                if D != 3 and 'm' not in t.replace('minimize', ''):
                    continue
                if D == 3 and 'r*m' in t or D == 2 and 'r*m' in t:
                    pass
                k += 1
                g.t('ok', 'HEAPn_t%d_%d%s%s' % (j, D, SHORT[B], SHORT[L]), pre + t)
                if D in (2, 5) or full:
                    for f in (7, 8, 9):
                        g.t('ok', 'HEAPa%d_t%d_%d%s%s' % (f, j, D, SHORT[B], SHORT[L]), 'try { %s try { %s } catch(...) {} } catch(...) {}' % (pre, t))
    return k

def check(rep, tier):
    full = tier == 'thorough'
    g = Gen(PRELUDE)
    g.case('ok', (4, 4), (8, 8), '')
    a = vectors(g, full)
    b = matrices(g, full)
    larger(g)
    c = temporaries(g, full)
    rep.count('points at which an allocation or a construction fails', a + b)
    rep.floor('points at which an allocation or a construction fails', 1000)
    rep.rule('ownership: every block is released exactly once, by the matching function and with its size, on every path including '
             'the exceptional ones; no element is used or destroyed before its construction, constructed twice, or left constructed in a released block')
    rep.values(g, extra=('-fsized-deallocation',))
