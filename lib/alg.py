"""Exact algebra used as the value domain of the value-flow analysis.

Values are canonical terms: rational functions (over input variables and
uninterpreted or normalised function symbols) at the leaves of decision
diagrams whose internal nodes test the sign (<0, =0, >0) of a polynomial.
Nothing is ever evaluated on program inputs and no solver is involved; two
values are equal when the difference of their leaves reduces to the zero
polynomial on every consistent combination of tests.
"""
from fractions import Fraction
import math

# ---------------------------------------------------------------- atoms

class Atom:
    __slots__ = ('id', 'kind', 'fn', 'args', 'sq', 'nonneg', 'pos', 'cos', 'ub', 'integer', 'nz')

ATOMS = []
_VARS = {}
_FUN = {}       # (fn, fingerprint) -> [atom]

def _new_atom(kind, fn, args=()):
    a = Atom()
    a.id = len(ATOMS)
    a.kind = kind
    a.fn = fn
    a.args = args
    a.sq = None        # rational the square of this atom reduces to
    a.nonneg = False
    a.pos = False
    a.cos = None       # for sin atoms: id of the matching cos atom
    a.ub = None        # |atom| <= ub, if known
    a.integer = False
    a.nz = False       # known not to be zero
    ATOMS.append(a)
    return a

P61 = (1 << 61) - 1

def _rnd(i):
    # fixed pseudo-random residue per atom, for hashing only
    x = (i * 0x9E3779B97F4A7C15 + 0xD1B54A32D192ED03) & ((1 << 64) - 1)
    x ^= x >> 30
    x = x * 0xBF58476D1CE4E5B9 & ((1 << 64) - 1)
    x ^= x >> 27
    x = x * 0x94D049BB133111EB & ((1 << 64) - 1)
    return (x ^ (x >> 31)) % P61

# ---------------------------------------------------------------- polynomials

def _n(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x

def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            r.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            r.append(x)
            i += 1
        else:
            r.append(y)
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)

class TooBig(Exception):
    pass

MAXTERMS = 60000

class Poly:
    __slots__ = ('t', '_k', '_f')

    def __init__(self, t):
        self.t = t
        self._k = None
        self._f = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self is o or self.t == o.t

    def is_zero(self):
        return not self.t

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if m == ():
                return c
        return None

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def finger(self):
        if self._f is None:
            s = 0
            for m, c in self.t.items():
                if isinstance(c, Fraction):
                    v = c.numerator * pow(c.denominator, -1, P61) % P61
                else:
                    v = c % P61
                for a, e in m:
                    v = v * pow(_rnd(a), e, P61) % P61
                s += v
            self._f = s % P61
        return self._f

ZERO = Poly({})
ONE = Poly({(): 1})

def pconst(c):
    c = _n(c)
    return Poly({(): c}) if c else ZERO

def patom(a):
    return Poly({((a, 1),): 1})

def padd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m)
        if v is None:
            t[m] = c
        else:
            v = _n(v + c)
            if v:
                t[m] = v
            else:
                del t[m]
    return Poly(t)

def pscale(a, c):
    c = _n(c)
    if not c:
        return ZERO
    if c == 1:
        return a
    return Poly({m: _n(v * c) for m, v in a.t.items()})

def pneg(a):
    return Poly({m: -v for m, v in a.t.items()})

def psub(a, b):
    return padd(a, pneg(b))

def pmul(a, b):
    if not a.t or not b.t:
        return ZERO
    if len(a.t) * len(b.t) > 4000000:
        raise TooBig()
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = _mono_mul(m1, m2)
            v = t.get(m)
            c = c1 * c2
            t[m] = c if v is None else v + c
    t = {m: _n(c) for m, c in t.items() if c}
    if len(t) > MAXTERMS:
        raise TooBig()
    return Poly(t)

def ppow(a, n):
    r = ONE
    while n:
        if n & 1:
            r = pmul(r, a)
        n >>= 1
        if n:
            a = pmul(a, a)
    return r

def _lead(t):
    # lexicographically greatest monomial
    return max(t)

def _mono_div(a, b):
    """a / b for monomials or None"""
    d = dict(a)
    for x, e in b:
        v = d.get(x, 0) - e
        if v < 0:
            return None
        if v:
            d[x] = v
        else:
            d.pop(x, None)
    return tuple(sorted(d.items()))

def _lexkey(m, order):
    d = dict(m)
    return tuple(d.get(a, 0) for a in order)

def pdivexact(a, b):
    """a / b if exact, else None"""
    if not a.t:
        return ZERO
    cb = b.const()
    if cb is not None:
        return pscale(a, Fraction(1) / cb)
    ab = b.atoms()
    if not ab <= a.atoms():
        return None
    order = sorted(a.atoms())
    bl = max(b.t, key=lambda m: _lexkey(m, order))
    bc = b.t[bl]
    # cheap necessary conditions on degrees
    for x in ab:
        da = max(dict(m).get(x, 0) for m in a.t)
        db = max(dict(m).get(x, 0) for m in b.t)
        if db > da:
            return None
    r = dict(a.t)
    q = {}
    steps = 0
    brest = [(m, c) for m, c in b.t.items() if m != bl]
    import heapq
    neg = lambda k: tuple(-x for x in k)
    heap = [(neg(_lexkey(m, order)), m) for m in r]
    heapq.heapify(heap)
    while heap:
        _, m = heapq.heappop(heap)
        c = r.get(m)
        if not c:
            continue
        qm = _mono_div(m, bl)
        if qm is None:
            return None
        steps += 1
        if steps > 4000:
            return None
        qc = _n(Fraction(c) / bc)
        q[qm] = qc
        del r[m]
        for m2, c2 in brest:
            mm = _mono_mul(qm, m2)
            old = r.get(mm)
            v = (old or 0) - qc * c2
            v = _n(v)
            if v:
                r[mm] = v
                if old is None:
                    heapq.heappush(heap, (neg(_lexkey(mm, order)), mm))
            elif old is not None:
                del r[mm]
    return Poly(q)

def pcontent(p):
    """(positive rational content, primitive poly)"""
    g = 0
    l = 1
    for c in p.t.values():
        if isinstance(c, Fraction):
            g = math.gcd(g, abs(c.numerator))
            l = l * c.denominator // math.gcd(l, c.denominator)
        else:
            g = math.gcd(g, abs(c))
    if g == 0:
        return Fraction(1), p
    c = Fraction(g, l)
    if c == 1:
        return c, p
    return c, pscale(p, 1 / c)

def pmonocontent(p):
    it = iter(p.t)
    g = dict(next(it))
    for m in it:
        d = dict(m)
        for k in list(g):
            e = min(g[k], d.get(k, 0))
            if e:
                g[k] = e
            else:
                del g[k]
        if not g:
            break
    return tuple(sorted(g.items()))

def plead_coeff(p):
    return p.t[max(p.t)]

def reduce_poly(p):
    """Rewrite squares of sqrt and sin atoms; returns (num, den) polys."""
    den = ONE
    for _ in range(64):
        bad = None
        for m in p.t:
            for a, e in m:
                if e >= 2 and ATOMS[a].sq is not None:
                    bad = a
                    break
            if bad is not None:
                break
        if bad is None:
            return p, den
        sqn, sqd = ATOMS[bad].sq
        # split by power of bad
        parts = {}
        kmax = 0
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(bad, 0)
            k = e // 2
            if e % 2:
                d[bad] = 1
            kmax = max(kmax, k)
            q = parts.setdefault(k, {})
            mm = tuple(sorted(d.items()))
            v = _n(q.get(mm, 0) + c)
            if v:
                q[mm] = v
            else:
                q.pop(mm, None)
        r = ZERO
        for k, t in parts.items():
            x = pmul(Poly(t), ppow(sqn, k))
            if sqd is not ONE:
                x = pmul(x, ppow(sqd, kmax - k))
            r = padd(r, x)
        if sqd is not ONE:
            den = pmul(den, ppow(sqd, kmax))
        p = r
    raise TooBig()

# ---------------------------------------------------------------- rationals

class Rat:
    """num / prod(f**e for f,e in den); den factors primitive, non-constant"""
    __slots__ = ('n', 'd', '_k', '_id')

    def __init__(self, n, d):
        self.n = n
        self.d = d      # tuple of (Poly, exp), sorted by key
        self._k = None
        self._id = None

    def key(self):
        if self._k is None:
            self._k = (self.n.key(), tuple((f.key(), e) for f, e in self.d))
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self is o or (isinstance(o, Rat) and self.key() == o.key())

    def const(self):
        return self.n.const() if not self.d else None

    def __repr__(self):
        return show(self)

def _addfactor(den, p, e):
    """multiply the factor dict den by p**e, returns constant to divide by
    (as multiplier of the denominator)"""
    k = Fraction(1)
    c = p.const()
    if c is not None:
        return Fraction(c) ** e
    mc = pmonocontent(p)
    if mc:
        p = Poly({_mono_div(m, mc): v for m, v in p.t.items()})
        for a, x in mc:
            q = patom(a)
            den[q] = den.get(q, 0) + x * e
    c, p = pcontent(p)
    if plead_coeff(p) < 0:
        c = -c
        p = pneg(p)
    k *= c ** e
    if p.const() is None:
        den[p] = den.get(p, 0) + e
    else:
        k *= Fraction(p.const()) ** e
    return k

def mk(n, den):
    """den: dict Poly->exp"""
    n, extra = reduce_poly(n)
    k = Fraction(1)
    if extra is not ONE:
        den = dict(den)
        k *= _addfactor(den, extra, 1)
    # reduce sqrt atoms in the denominator
    again = True
    guard = 0
    while again:
        again = False
        guard += 1
        if guard > 50:
            raise TooBig()
        for f, e in list(den.items()):
            if e >= 2 and len(f.t) == 1:
                (m, c), = f.t.items()
                a = m[0][0]
                if len(m) == 1 and m[0][1] == 1 and ATOMS[a].sq is not None and ATOMS[a].kind == 'sqrt':
                    sqn, sqd = ATOMS[a].sq
                    h = e // 2
                    if e % 2:
                        den[f] = 1
                    else:
                        del den[f]
                    k *= _addfactor(den, sqn, h)
                    if sqd is not ONE:
                        n = pmul(n, ppow(sqd, h))
                        n, extra = reduce_poly(n)
                        if extra is not ONE:
                            k *= _addfactor(den, extra, 1)
                    again = True
                    break
    if not n.t:
        return RZERO
    if k != 1:
        n = pscale(n, 1 / k)
    out = {}
    for f, e in den.items():
        while e > 0:
            q = pdivexact(n, f)
            if q is None:
                break
            n = q
            e -= 1
        if e > 0:
            out[f] = e
    return Rat(n, tuple(sorted(out.items(), key=lambda fe: fe[0].key())))

RZERO = Rat(ZERO, ())
RONE = Rat(ONE, ())

_RC = {}
def rconst(c):
    c = _n(Fraction(c))
    r = _RC.get(c)
    if r is None:
        r = _RC[c] = Rat(pconst(c), ())
    return r

def ratom(a):
    return Rat(patom(a.id), ())

def rpoly(p):
    return mk(p, {})

def _dexp(d):
    r = ONE
    for f, e in d:
        r = pmul(r, ppow(f, e))
    return r

def radd(a, b, sign=1):
    if not b.n.t:
        return a
    if not a.n.t:
        return b if sign == 1 else rneg(b)
    bn = b.n if sign == 1 else pneg(b.n)
    if a.d == b.d:
        if not a.d:
            return Rat(padd(a.n, bn), ())
        return mk(padd(a.n, bn), dict(a.d))
    da, db = dict(a.d), dict(b.d)
    l = dict(da)
    for f, e in db.items():
        l[f] = max(l.get(f, 0), e)
    fa = ONE
    fb = ONE
    for f, e in l.items():
        x = e - da.get(f, 0)
        if x:
            fa = pmul(fa, ppow(f, x))
        x = e - db.get(f, 0)
        if x:
            fb = pmul(fb, ppow(f, x))
    return mk(padd(pmul(a.n, fa), pmul(bn, fb)), l)

def rneg(a):
    return Rat(pneg(a.n), a.d)

def rsub(a, b):
    return radd(a, b, -1)

def rmul(a, b):
    if not a.n.t or not b.n.t:
        return RZERO
    ca, cb = a.const(), b.const()
    if ca is not None:
        return b if ca == 1 else Rat(pscale(b.n, ca), b.d)
    if cb is not None:
        return a if cb == 1 else Rat(pscale(a.n, cb), a.d)
    den = dict(a.d)
    for f, e in b.d:
        den[f] = den.get(f, 0) + e
    return mk(pmul(a.n, b.n), den)

class DivByZero(Exception):
    pass

def rinv(a):
    if not a.n.t:
        raise DivByZero()
    c = a.const()
    if c is not None:
        return rconst(Fraction(1) / Fraction(c))
    den = {}
    k = _addfactor(den, a.n, 1)
    return mk(pscale(_dexp(a.d), 1 / k), den)

def rdiv(a, b):
    return rmul(a, rinv(b))

def requal(a, b):
    if a is b or a == b:
        return True
    return not rsub(a, b).n.t

def rpowi(a, n):
    r = RONE
    for _ in range(n):
        r = rmul(r, a)
    return r

# ---------------------------------------------------------------- symbols

def var(name):
    a = _VARS.get(name)
    if a is None:
        a = _VARS[name] = _new_atom('var', name)
    return a

def rvar(name):
    return ratom(var(name))

def is_int(r):
    """a polynomial with integer coefficients in integers"""
    return not r.d and all(Fraction(c).denominator == 1 and all(ATOMS[a].integer for a, _ in m) for m, c in r.n.t.items())

def _finger(r):
    d = 1
    for f, e in r.d:
        d = d * pow(f.finger(), e, P61) % P61
    if d == 0:
        return r.n.finger()
    return r.n.finger() * pow(d, -1, P61) % P61

def fun(fn, *args):
    """uninterpreted application, hash-consed modulo equality of arguments"""
    k = (fn, tuple(_finger(a) for a in args))
    for a in _FUN.setdefault(k, []):
        if all(requal(x, y) for x, y in zip(a.args, args)):
            return a
    a = _new_atom('fun', fn, args)
    _FUN[k].append(a)
    return a

def _isqrt_frac(c):
    c = Fraction(c)
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None

def poly_nonneg(p):
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and not (ATOMS[a].nonneg or ATOMS[a].pos):
                return False
    return True

def rnonneg(r):
    return bool(r.n.t) and poly_nonneg(r.n) and all(e % 2 == 0 or poly_nonneg(f) for f, e in r.d)

def rsqrt(r):
    c = r.const()
    if c is not None:
        q = _isqrt_frac(c)
        if q is not None:
            return rconst(q)
    k, n = pcontent(r.n)
    q = _isqrt_frac(k)
    if q is None:
        q, n = Fraction(1), r.n
    # pull even powers of nonnegative atoms / denominators that are
    # even powers of nonnegative factors
    out = {}
    rest = {}
    for f, e in r.d:
        if e % 2 == 0 and poly_nonneg(f):
            out[f] = e // 2
        else:
            rest[f] = e
    arg = Rat(n, tuple(sorted(rest.items(), key=lambda fe: fe[0].key())))
    c = arg.const()
    if c is not None and _isqrt_frac(c) is not None:
        s = rconst(_isqrt_frac(c))
    else:
        a = fun('sqrt', arg)
        if a.sq is None:
            a.kind = 'sqrt'
            a.nonneg = True
            a.sq = (arg.n, _dexp(arg.d) if arg.d else ONE)
        s = ratom(a)
    if out or q != 1:
        s = mk(pscale(s.n, q), {**dict(s.d), **out} if out else dict(s.d))
    return s

HALF = True   # represent sin/cos through half angles

def _sc(mono, k):
    """(sin, cos) of k*mono for a rational k; mono a primitive Rat"""
    unit = 2 if HALF else 1
    q = Fraction(k) * unit
    if q.denominator != 1:
        base = Fraction(1, unit * q.denominator)
        n = q.numerator
    else:
        base = Fraction(1, unit)
        n = int(q)
    if abs(n) > 64:
        # not a multiple anyone wrote: an angle of its own
        n = unit if n > 0 else -unit
        base = abs(Fraction(k)) / unit
    arg = rmul(rconst(base), mono)
    s = fun('sin', arg)
    c = fun('cos', arg)
    if s.sq is None:
        s.kind = 'sin'
        s.sq = (psub(ONE, ppow(patom(c.id), 2)), ONE)
        s.ub = c.ub = 1
        c.cos = None
    rs, rc = ratom(s), ratom(c)
    neg = n < 0
    n = abs(n)
    S, C = RZERO, RONE
    for _ in range(n):
        S, C = radd(rmul(S, rc), rmul(C, rs)), rsub(rmul(C, rc), rmul(S, rs))
    if neg:
        S = rneg(S)
    return S, C

PI = Fraction(math.pi)

def rsincos(r):
    c = r.const()
    if c is not None and c == 0:
        return RZERO, RONE
    if c is not None:
        # multiples of the double nearest to pi are treated as exact
        q = Fraction(c) / PI * 2
        if q.denominator == 1 and abs(q) <= 16:
            q = int(q) % 4
            return (rconst([0, 1, 0, -1][q]), rconst([1, 0, -1, 0][q]))
    # cos(acos x), sin(atan2 ...)
    if not r.d and len(r.n.t) == 1:
        (m, k), = r.n.t.items()
        if len(m) == 1 and m[0][1] == 1 and k == 1:
            a = ATOMS[m[0][0]]
            if a.fn == 'acos':
                x = a.args[0]
                return rsqrt(rsub(RONE, rmul(x, x))), x
            if a.fn == 'asin':
                x = a.args[0]
                return x, rsqrt(rsub(RONE, rmul(x, x)))
            if a.fn == 'atan2':
                y, x = a.args
                h = rsqrt(radd(rmul(x, x), rmul(y, y)))
                return rdiv(y, h), rdiv(x, h)
            if a.fn == 'atan':
                x = a.args[0]
                h = rsqrt(radd(RONE, rmul(x, x)))
                return rdiv(x, h), rdiv(RONE, h)
    if r.d:
        k, n = pcontent(r.n)
        if plead_coeff(n) < 0:
            k, n = -k, pneg(n)
        return _sc(Rat(n, r.d), k)
    S, C = RZERO, RONE
    for m, k in sorted(r.n.t.items()):
        if m == ():
            q = Fraction(k) / PI * 2
            if q.denominator == 1 and abs(q) <= 64:
                q = int(q) % 4
                s, c = rconst([0, 1, 0, -1][q]), rconst([1, 0, -1, 0][q])
            else:
                s, c = _sc(RONE, k)
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].fn in ('acos', 'asin', 'atan2') and Fraction(k).denominator == 1 and abs(k) <= 4:
            x, y = rsincos(Rat(Poly({m: 1}), ()))
            s, c = RZERO, RONE
            for _ in range(int(abs(k))):
                s, c = radd(rmul(s, y), rmul(c, x)), rsub(rmul(c, y), rmul(s, x))
            if k < 0:
                s = rneg(s)
        else:
            s, c = _sc(Rat(Poly({m: 1}), ()), k)
        S, C = radd(rmul(S, c), rmul(C, s)), rsub(rmul(C, c), rmul(S, s))
    return S, C

def rfun(name, args):
    if name == 'sqrt':
        return rsqrt(args[0])
    if name == 'sin':
        return rsincos(args[0])[0]
    if name == 'cos':
        return rsincos(args[0])[1]
    if name == 'tan':
        s, c = rsincos(args[0])
        return rdiv(s, c)
    if name == 'exp':
        if args[0].const() == 0:
            return RONE
        k, neg = args[0], False
        a = fun('exp', k)
        a.pos = a.nonneg = True
        return ratom(a)
    if name == 'log' and args[0].const() == 1:
        return RZERO
    if name in ('asin', 'atan', 'cbrt') and args[0].n.t:
        if plead_coeff(args[0].n) < 0:
            return rneg(ratom(fun(name, rneg(args[0]))))
    if name in ('asin', 'atan') and not args[0].n.t:
        return RZERO
    if name == 'acos' and args[0].const() == 1:
        return RZERO
    if name == 'atan2':
        y, x = args
        if x.const() is not None and y.const() is not None:
            v = Fraction(math.atan2(y.const(), x.const()))
            return rconst(v)
        if not y.n.t:
            return ratom(fun('atan2', y, x))
        if rnonneg(y) and not rnonneg(x):
            # one spelling per angle of the right half plane
            return rsub(rconst(PI / 2), rfun('atan2', [x, y]))
        # divide both by the common positive content
        ky, _ = pcontent(y.n)
        y2 = rmul(rconst(1 / ky), y)
        x2 = rmul(rconst(1 / ky), x)
        neg = plead_coeff(y2.n) < 0
        if neg:
            y2 = rneg(y2)
        r = ratom(fun('atan2', y2, x2))
        return rneg(r) if neg else r
    if name == 'pow':
        c = args[1].const()
        if c is not None and Fraction(c).denominator == 1 and 0 <= c <= 16:
            return rpowi(args[0], int(c))
        if c is not None and c == Fraction(1, 2):
            return rsqrt(args[0])
    return ratom(fun(name, *args))

# ---------------------------------------------------------------- decision diagrams

class Undef:
    __slots__ = ('why',)
    def __init__(self, why=''):
        self.why = why
    def __repr__(self):
        return 'undef(%s)' % self.why

UNDEF = Undef()

class DD:
    __slots__ = ('id', 'sign', 'kids', 'leaf', 'sup')

_UNIQ = {}
_NDD = [0]
SIGNS = []      # sign atoms: polynomials
_SIGNK = {}
SIGN_NONNEG = []

def leaf(v):
    k = ('L', type(v).__name__, v if not isinstance(v, Undef) else 'u')
    d = _UNIQ.get(k)
    if d is None:
        d = DD()
        d.id = _NDD[0]
        _NDD[0] += 1
        d.sign = None
        d.kids = None
        d.leaf = v
        d.sup = 0
        _UNIQ[k] = d
    return d

TRUE = leaf(True)
FALSE = leaf(False)
LUNDEF = leaf(UNDEF)

class DDTooBig(Exception):
    pass

# tests of the same form against different constants (P < c1, P < c2, ...)
FAMOF = []      # sign -> (family, threshold) or None
FAMMASK = []    # family -> bit set of its signs
_FAMK = {}

def _family(p):
    c0 = p.t.get((), 0)
    q = {m: c for m, c in p.t.items() if m != ()}
    k0 = min(q)
    sc = abs(Fraction(q[k0]))
    key = tuple(sorted((m, Fraction(c) / sc) for m, c in q.items()))
    f = _FAMK.get(key)
    if f is None:
        f = _FAMK[key] = len(FAMMASK)
        FAMMASK.append(0)
    FAMMASK[f] |= 1 << len(FAMOF)
    FAMOF.append((f, -Fraction(c0) / sc))

_RES = {}
def restrict(d, f, lo, hi):
    """d given lo < P < hi (None: unbounded), or P = lo when lo is hi"""
    if not d.sup & FAMMASK[f]:
        return d
    k = (d.id, f, lo, hi)
    r = _RES.get(k)
    if r is not None:
        return r
    g, t = FAMOF[d.sign]
    if g == f:
        if lo is not None and hi is not None and lo == hi:
            r = restrict(d.kids[(lo >= t) + (lo > t)], f, lo, hi)
        elif lo is not None and t <= lo:
            r = restrict(d.kids[2], f, lo, hi)
        elif hi is not None and t >= hi:
            r = restrict(d.kids[0], f, lo, hi)
        else:
            r = node(d.sign, *[restrict(x, f, lo, hi) for x in d.kids])
    else:
        r = node(d.sign, *[restrict(x, f, lo, hi) for x in d.kids])
    _RES[k] = r
    return r

def node(sign, lt, eq, gt):
    f, t = FAMOF[sign]
    m = FAMMASK[f]
    if (lt.sup | eq.sup | gt.sup) & m:
        lt = restrict(lt, f, None, t)
        eq = restrict(eq, f, t, t)
        gt = restrict(gt, f, t, None)
    if SIGN_NONNEG[sign]:
        lt = gt
    if lt is eq and eq is gt:
        return lt
    k = (sign, lt.id, eq.id, gt.id)
    d = _UNIQ.get(k)
    if d is None:
        d = DD()
        d.id = _NDD[0]
        _NDD[0] += 1
        if _NDD[0] > 3000000:
            raise DDTooBig()
        d.sign = sign
        d.kids = (lt, eq, gt)
        d.leaf = None
        d.sup = lt.sup | eq.sup | gt.sup | (1 << sign)
        _UNIQ[k] = d
    return d

def lc(c):
    return leaf(rconst(c))

def sign_atom(r):
    """sign of a rational: ('c', s) or ('a', index, flip)"""
    c = r.const()
    if c is not None:
        return ('c', (c > 0) - (c < 0))
    p = r.n
    for f, e in r.d:
        if e % 2 == 0:
            continue
        if poly_nonneg(f):
            continue
        if len(f.t) == 1:
            m = next(iter(f.t))
            if all(ATOMS[a].nonneg for a, _ in m):
                continue
        p = pmul(p, f)
    p, den = reduce_poly(p)
    # den is a product of squares' denominators: even by construction
    if den is not ONE and not poly_nonneg(den):
        p = pmul(p, den)
        p, _ = reduce_poly(p)
    # strip strictly positive atoms and even powers from the common monomial
    mc = pmonocontent(p)
    strip = tuple((a, e) for a, e in mc if ATOMS[a].pos)
    if strip:
        p = Poly({_mono_div(m, strip): v for m, v in p.t.items()})
    # odd powers: x^3 has the sign of x
    strip = tuple((a, e - 1 - (e + 1) % 2) for a, e in mc if not ATOMS[a].pos and e >= 3)
    strip = tuple((a, e) for a, e in strip if e > 0)
    if strip:
        p = Poly({_mono_div(m, strip): v for m, v in p.t.items()})
    _, p = pcontent(p)
    c = p.const()
    if c is not None:
        return ('c', (c > 0) - (c < 0))
    flip = plead_coeff(p) < 0
    if flip:
        p = pneg(p)
    nn = poly_nonneg(p)
    if nn and (p.t.get((), 0) > 0 or any(all(ATOMS[a].pos or ATOMS[a].nz for a, _ in m) for m in p.t)):
        return ('c', -1 if flip else 1)
    i = _SIGNK.get(p)
    if i is None:
        i = len(SIGNS)
        _family(p)
        SIGNS.append(p)
        SIGN_NONNEG.append(nn)
        _SIGNK[p] = i
    return ('a', i, flip)

def sign_dd(r, lt, eq, gt):
    s = sign_atom(r)
    if s[0] == 'c':
        return (eq, gt, lt)[s[1]]
    if s[2]:
        lt, gt = gt, lt
    return node(s[1], lt, eq, gt)

def _top(ds):
    s = None
    for d in ds:
        if d.sign is not None and (s is None or d.sign < s):
            s = d.sign
    return s

def apply(f, ds, memo=None):
    """f: leaf values -> DD"""
    if memo is None:
        memo = {}
    k = tuple(d.id for d in ds)
    r = memo.get(k)
    if r is not None:
        return r
    s = _top(ds)
    if s is None:
        r = f(*[d.leaf for d in ds])
        # f may itself return a DD with tests
    else:
        kids = []
        for j in range(3):
            kids.append(apply(f, [d.kids[j] if d.sign == s else d for d in ds], memo))
        r = combine(s, kids)
    memo[k] = r
    return r

def combine(s, kids):
    """node(s, kids) where kids may contain tests ordered before s"""
    t = _top(kids)
    if t is None or t > s:
        return node(s, *kids)
    if t == s:
        kids = [k.kids[j] if k.sign == s else k for j, k in enumerate(kids)]
        return combine(s, kids)
    out = []
    for j in range(3):
        out.append(combine(s, [k.kids[j] if k.sign == t else k for k in kids]))
    return node(t, *out)

_ITE = {}
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is LUNDEF:
        return b
    if b is LUNDEF:
        return a
    k = (c.id, a.id, b.id)
    r = _ITE.get(k)
    if r is not None:
        return r
    s = _top((c, a, b))
    if c.sign is None and c is not TRUE and c is not FALSE:
        r = LUNDEF
    else:
        kids = [ite(*[d.kids[j] if d.sign == s else d for d in (c, a, b)]) for j in range(3)]
        r = node(s, *kids)
    _ITE[k] = r
    return r

def dand(a, b):
    return ite(a, b, FALSE) if a is not LUNDEF else LUNDEF

def dor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    return _bool(lambda x, y: x or y, a, b)

def dnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    return apply(lambda x: leaf(not x) if isinstance(x, bool) else LUNDEF, [a])

def _bool(f, a, b):
    def g(x, y):
        if not isinstance(x, bool) or not isinstance(y, bool):
            return LUNDEF
        return leaf(f(x, y))
    return apply(g, [a, b])

# ---------------------------------------------------------------- feasibility of test outcomes

def feasible(path):
    """path: list of (sign index, outcome -1/0/1).  Sound, incomplete
    refutation by (1) non-negativity, (2) difference-order closure:
    constraints x-y {<,=,>} 0 over the same terms must not form a cycle
    with a strict edge, (3) a bounded linear (Farkas-style) combination of
    two or three constraints."""
    # linear forms over monomials
    cons = []
    for s, o in path:
        p = SIGNS[s]
        if SIGN_NONNEG[s] and o < 0:
            return False
        if o >= 0:
            cons.append((p.t, o == 0, o > 0))
        if o <= 0:
            cons.append(({m: -c for m, c in p.t.items()}, o == 0, o < 0))
    # each: form >= 0 (strict if flag).  Fourier-Motzkin over monomials,
    # bounded; monomials that are squares are >= 0, constants are known.
    sys_ = []
    for t, _eq, strict in cons:
        sys_.append((dict(t), strict))
    monos = set()
    for t, _ in sys_:
        monos |= set(t)
    for m in monos:
        if m != () and all(e % 2 == 0 or ATOMS[a].nonneg for a, e in m):
            sys_.append(({m: 1}, False))
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].ub is not None:
            u = ATOMS[m[0][0]].ub
            sys_.append(({m: 1, (): u}, False))
            sys_.append(({m: -1, (): u}, False))
    monos.discard(())
    for _ in range(len(monos)):
        if not monos:
            break
        # pick the monomial giving fewest combinations
        best = None
        for m in monos:
            pos = sum(1 for t, _s in sys_ if t.get(m, 0) > 0)
            neg = sum(1 for t, _s in sys_ if t.get(m, 0) < 0)
            k = pos * neg - pos - neg
            if best is None or k < best[0]:
                best = (k, m)
        m = best[1]
        monos.discard(m)
        pos = [x for x in sys_ if x[0].get(m, 0) > 0]
        neg = [x for x in sys_ if x[0].get(m, 0) < 0]
        rest = [x for x in sys_ if not x[0].get(m, 0)]
        if len(pos) * len(neg) > 3000:
            return True
        for tp, sp in pos:
            for tn, sn in neg:
                a, b = -tn[m], tp[m]
                t = {}
                for q, c in tp.items():
                    t[q] = t.get(q, 0) + a * c
                for q, c in tn.items():
                    t[q] = t.get(q, 0) + b * c
                t = {q: c for q, c in t.items() if c}
                s = sp or sn
                if not t:
                    if s:
                        return False
                    continue
                if set(t) == {()}:
                    if t[()] < 0 or (t[()] == 0 and s):
                        return False
                    continue
                rest.append((t, s))
        # dedupe
        seen = {}
        for t, s in rest:
            k0 = next(iter(sorted(t.items())))
            sc = abs(Fraction(k0[1]))
            key = tuple(sorted((q, Fraction(c) / sc) for q, c in t.items()))
            if key in seen:
                seen[key] = (t, s or seen[key][1])
            else:
                seen[key] = (t, s)
        sys_ = list(seen.values())
        if len(sys_) > 600:
            return True
    for t, s in sys_:
        c = t.get((), 0)
        if set(t) <= {()}:
            if c < 0 or (c == 0 and s):
                return False
    return True

# ---------------------------------------------------------------- comparing diagrams

CTOL = 0    # constants may differ by this much (single-precision targets)

def leaf_equal(a, b):
    if a is b:
        return True
    if isinstance(a, Rat) and isinstance(b, Rat):
        if requal(a, b):
            return True
        if CTOL:
            c = rsub(a, b).const()
            return c is not None and abs(c) <= CTOL
        return False
    if isinstance(a, Undef) or isinstance(b, Undef):
        return False
    return a == b

def subst_equal(a, b, path):
    """equality under the tests that came out '= 0' on this path: reduce the
    difference by those polynomials (ideal membership by successive
    elimination of a linear variable)."""
    d = rsub(a, b)
    if not d.n.t:
        return True
    if CTOL and d.const() is not None and abs(d.const()) <= CTOL:
        return True
    n = d.n
    eqs = [SIGNS[s] for s, o in path if o == 0]
    # sums of squares equal to zero force every term to zero
    more = []
    for p in eqs:
        if poly_nonneg(p) and len(p.t) > 1 and () not in p.t:
            for m in p.t:
                q = ONE
                for at, _e in m:
                    q = pmul(q, patom(at))
                more.append(q)
    eqs = eqs + more
    work = list(eqs)
    for _ in range(12):
        if not work:
            break
        p = work.pop(0)
        if not p.t:
            continue
        # find an atom occurring linearly: p = u*x + w
        done = False
        for x in sorted(p.atoms(), reverse=True):
            if max(dict(m).get(x, 0) for m in p.t) != 1:
                continue
            u = Poly({_mono_div(m, ((x, 1),)): c for m, c in p.t.items() if dict(m).get(x)})
            w = Poly({m: c for m, c in p.t.items() if not dict(m).get(x)})
            # x = -w/u : substitute in n and in work (requires u != 0; only
            # constants are used so that the step is exact)
            if u.const() is None:
                continue
            n = _psub_atom(n, x, pscale(w, -1 / Fraction(u.const())))
            work = [_psub_atom(q, x, pscale(w, -1 / Fraction(u.const()))) for q in work]
            done = True
            break
        if not n.t:
            return True
    n, _ = reduce_poly(n)
    if not n.t:
        return True
    for p in eqs:
        if p.t and pdivexact(n, p) is not None:
            return True
    return False

def _psub_atom(p, x, q):
    r = ZERO
    pw = {0: ONE}
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(x, 0)
        if e not in pw:
            pw[e] = ppow(q, e)
        r = padd(r, pmul(Poly({tuple(sorted(d.items())): c}), pw[e]))
    return r

class Budget(Exception):
    pass

def differences(a, b, guard=TRUE, limit=2000, budget=400000):
    """Paths (lists of tests) on which the leaves of a and b are not provably
    equal, with guard true.  Shared sub-diagrams are visited once when they
    are identical."""
    out = []
    memo = set()
    count = [0]
    def rec(x, y, g, path):
        """true if every leaf pair below is equal whatever the path"""
        if x is y or g is FALSE or len(out) >= limit:
            return True
        k = (x.id, y.id, g.id)
        if k in memo:
            return True
        count[0] += 1
        if count[0] > budget:
            raise Budget()
        s = _top((x, y, g))
        if s is None:
            if g.leaf is not True:
                return True
            if leaf_equal(x.leaf, y.leaf):
                memo.add(k)
                return True
            if not feasible(path):
                return False
            if isinstance(x.leaf, Rat) and isinstance(y.leaf, Rat) and subst_equal(x.leaf, y.leaf, path):
                return False
            out.append((list(path), x.leaf, y.leaf))
            return False
        clean = True
        for j in range(3):
            if SIGN_NONNEG[s] and j == 0:
                continue
            path.append((s, j - 1))
            if not rec(*[d.kids[j] if d.sign == s else d for d in (x, y, g)], path):
                clean = False
            path.pop()
        if clean:
            memo.add(k)
        return clean
    rec(a, b, guard, [])
    return out

# ---------------------------------------------------------------- printing and numeric spot values

def show_mono(m):
    return '*'.join(show_atom(a) + ('^%d' % e if e > 1 else '') for a, e in m)

def show_atom(i):
    a = ATOMS[i]
    if a.kind == 'var':
        return a.fn
    return '%s(%s)' % (a.fn, ', '.join(show(x) for x in a.args))

def show_poly(p, maxn=14):
    if not p.t:
        return '0'
    parts = []
    for m, c in sorted(p.t.items())[:maxn]:
        if isinstance(c, Fraction):
            cs = '%.6g' % float(c) if c.denominator > 10 ** 6 else str(c)
        else:
            cs = str(c)
        if m == ():
            parts.append(cs)
        elif c == 1:
            parts.append(show_mono(m))
        elif c == -1:
            parts.append('-' + show_mono(m))
        else:
            parts.append(cs + '*' + show_mono(m))
    s = ' + '.join(parts).replace('+ -', '- ')
    if len(p.t) > maxn:
        s += ' + ...(%d terms)' % len(p.t)
    return s

def show(v):
    if isinstance(v, Rat):
        s = show_poly(v.n)
        if v.d:
            s = '(%s)/(%s)' % (s, ' * '.join('(%s)%s' % (show_poly(f), '^%d' % e if e > 1 else '') for f, e in v.d))
        return s
    return repr(v)

def show_path(path):
    return ' and '.join('%s %s 0' % (show_poly(SIGNS[s], 6), {-1: '<', 0: '=', 1: '>'}[o]) for s, o in path)

def show_dd(d, depth=3):
    if d.sign is None:
        return show(d.leaf)
    if depth == 0:
        return '...'
    return '[%s<0: %s | =0: %s | >0: %s]' % (show_poly(SIGNS[d.sign], 6), *[show_dd(k, depth - 1) for k in d.kids])

def peval(p, env):
    s = 0.0
    for m, c in p.t.items():
        v = float(c)
        for a, e in m:
            v *= aeval(a, env) ** e
        s += v
    return s

def aeval(i, env):
    if i in env:
        return env[i]
    a = ATOMS[i]
    if a.kind == 'var':
        raise KeyError(a.fn)
    args = [reval(x, env) for x in a.args]
    f = a.fn
    if f == 'sqrt':
        v = math.sqrt(args[0]) if args[0] > 0 else (0.0 if args[0] > -1e-9 else float('nan'))
    elif f == 'acos':
        v = math.acos(max(-1, min(1, args[0]))) if abs(args[0]) < 1 + 1e-9 else float('nan')
    elif f == 'asin':
        v = math.asin(max(-1, min(1, args[0]))) if abs(args[0]) < 1 + 1e-9 else float('nan')
    elif f == 'log':
        v = math.log(args[0]) if args[0] > 0 else float('nan')
    elif f == 'exp':
        v = math.exp(args[0]) if args[0] < 200 else float('inf')
    elif f in ('sin', 'cos', 'tan', 'atan', 'atan2', 'fmod', 'floor', 'ceil', 'trunc'):
        v = getattr(math, f)(*args)
    else:
        # uninterpreted: a fixed smooth function of its arguments
        h = sum(ord(c) for c in f)
        v = sum(math.sin((k + 1) * 1.3 * x + h) for k, x in enumerate(args))
    env[i] = v
    return v

def reval(r, env):
    n = peval(r.n, env)
    for f, e in r.d:
        d = peval(f, env)
        if d == 0:
            return float('nan')
        n /= d ** e
    return n

def base_vars(d):
    """variables a diagram depends on"""
    seen = set()
    vs = set()
    def atom(i):
        if i in vs or ('a', i) in seen:
            return
        seen.add(('a', i))
        a = ATOMS[i]
        if a.kind == 'var':
            vs.add(i)
        for x in a.args:
            rat(x)
    def poly(p):
        for i in p.atoms():
            atom(i)
    def rat(r):
        poly(r.n)
        for f, _ in r.d:
            poly(f)
    def rec(d):
        if d.id in seen:
            return
        seen.add(d.id)
        if d.sign is None:
            if isinstance(d.leaf, Rat):
                rat(d.leaf)
            return
        poly(SIGNS[d.sign])
        for k in d.kids:
            rec(k)
    rec(d)
    return vs

def dd_eval(d, env):
    while d.sign is not None:
        v = peval(SIGNS[d.sign], env)
        if v != v:
            return float('nan')
        j = 1 if abs(v) < 1e-12 else (0 if v < 0 else 2)
        d = d.kids[j]
    if isinstance(d.leaf, Rat):
        return reval(d.leaf, env)
    return d.leaf

# ---------------------------------------------------------------- fresh start
_START = []
def reset():
    """forget every atom, test and diagram made since the first call, so that
    the analysis of one case does not depend on the cases before it"""
    tabs = [_VARS, _FUN, _RC, _UNIQ, _SIGNK, _FAMK, _RES, _ITE]
    lists = [ATOMS, SIGNS, SIGN_NONNEG, FAMOF, FAMMASK]
    if not _START:
        _START.append([dict(t) for t in tabs])
        _START.append([list(t) for t in lists])
        return
    for t, s in zip(tabs, _START[0]):
        t.clear()
        t.update(s)
    for t, s in zip(lists, _START[1]):
        t[:] = s
