"""What a hash term says about the elements: every element's own hash enters
it, through steps that are invertible in it, and elements that compare equal
(the two zeros) contribute the same."""
import alg
from alg import Rat, ATOMS

def atom_vars(i, memo):
    v = memo.get(i)
    if v is None:
        a = ATOMS[i]
        v = {i} if a.kind == 'var' else set()
        memo[i] = v
        for x in a.args:
            v = v | rat_vars(x, memo)
        memo[i] = v
    return v

def rat_vars(r, memo):
    v = set()
    for i in r.n.atoms():
        v |= atom_vars(i, memo)
    for f, _e in r.d:
        for i in f.atoms():
            v |= atom_vars(i, memo)
    return v

def invertible(r, var, floating, memo):
    """True: r determines the hash of `var` when all else is fixed; None: not
    established"""
    if r.d:
        return None
    dep = []
    for m, c in r.n.t.items():
        d = [(a, e) for a, e in m if var in atom_vars(a, memo)]
        if d:
            dep.append((m, c, d))
    if len(dep) != 1:
        return None
    m, c, d = dep[0]
    if len(m) != 1 or m[0][1] != 1 or getattr(c, 'denominator', 1) != 1 or int(c) % 2 == 0:
        return None
    a = ATOMS[m[0][0]]
    if a.kind == 'var':
        return True if not floating else None
    if a.fn == 'hashbytes':
        # the bytes of one element: its hash; of several: their joint hash
        return True
    if a.fn in ('xor', 'or'):
        x, y = a.args
        dx, dy = var in rat_vars(x, memo), var in rat_vars(y, memo)
        if a.fn == 'xor' and dx != dy:
            return invertible(x if dx else y, var, floating, memo)
        if dx and dy:
            sx, sy = shift(x), shift(y)
            if a.fn == 'xor':
                # t ^ (t >> r), t ^ (t << r)
                if sy and sy[1] == x and sy[2] > 0:
                    return invertible(x, var, floating, memo)
                if sx and sx[1] == y and sx[2] > 0:
                    return invertible(y, var, floating, memo)
            if sx and sy and sx[1] == sy[1] and {sx[0], sy[0]} == {'shl', 'lshr'} and sx[2] + sy[2] in (32, 64):
                return invertible(sx[1], var, floating, memo)
    return None

def shift(r):
    """(direction, shifted term, amount)"""
    if r.d or len(r.n.t) != 1:
        return None
    (m, c), = r.n.t.items()
    if len(m) == 1 and m[0][1] == 1 and c == 1:
        a = ATOMS[m[0][0]]
        if a.kind != 'var' and a.fn in ('lshr', 'shl') and a.args[1].const() is not None:
            return a.fn, a.args[0], int(a.args[1].const())
    c = int(c)
    if c > 1 and c & (c - 1) == 0:
        return 'shl', alg.rmul(r, alg.rconst(alg.Fraction(1, c))), c.bit_length() - 1
    return None

def hashed(r, memo, out):
    """the hashbytes atoms in a term"""
    for i in list(r.n.atoms()):
        if ('h', i) in memo:
            continue
        memo[('h', i)] = True
        a = ATOMS[i]
        if a.kind != 'var':
            if a.fn == 'hashbytes':
                out.append(a)
            for x in a.args:
                hashed(x, memo, out)

def obligations(tout, n, floating):
    """(number, findings, undecided) for the returned hash of `n` elements"""
    from alg import rvar
    vs = []
    for i in range(n):
        r = rvar('a0[%d]' % i)
        vs.append(next(iter(r.n.atoms())))
    d = tout.get(('ret', 0, 0))
    if d is None:
        return 1, [{'kind': 'hash', 'what': 'no value is returned', 'where': []}], []
    no, findings, und = 0, [], []
    memo = {}
    seen = set()
    def walk(x, path):
        nonlocal no
        if len(findings) > 3:
            return
        if x.sign is not None:
            for o, k in zip((-1, 0, 1), x.kids):
                walk(k, path + [(x.sign, o)])
            return
        if not alg.feasible(path):
            return
        if not isinstance(x.leaf, Rat):
            no += 1
            findings.append({'kind': 'hash', 'what': 'the hash is not determined', 'when': alg.show_path(path), 'where': []})
            return
        zero, non = set(), set()
        for s, o in path:
            at = set()
            for i in alg.SIGNS[s].atoms():
                at.add(i)
            if len(at) == 1 and len(alg.SIGNS[s].t) == 1:
                (zero if o == 0 else non).update(at)
        have = rat_vars(x.leaf, memo)
        for i, v in enumerate(vs):
            no += 1
            if v in zero:
                continue
            if v not in have:
                findings.append({'kind': 'hash', 'what': 'element %d does not enter the hash' % i, 'got': alg.show(x.leaf)[:300], 'when': alg.show_path(path), 'where': []})
            elif not invertible(x.leaf, v, floating, memo):
                if lost(x.leaf, v, memo):
                    findings.append({'kind': 'hash', 'what': 'element %d does not affect the hash' % i, 'got': alg.show(x.leaf)[:300], 'when': alg.show_path(path), 'where': []})
                else:
                    und.append('element %d: %s' % (i, alg.show(x.leaf)[:300]))
        extra = {v for v in have if v not in vs}
        no += 1
        if extra:
            findings.append({'kind': 'hash', 'what': 'the hash depends on %s' % ', '.join(alg.show_atom(v) for v in extra), 'when': alg.show_path(path), 'where': []})
        if floating:
            hs = []
            hashed(x.leaf, dict(), hs)
            for a in hs:
                for y in a.args[1:]:
                    for v in rat_vars(y, memo):
                        no += 1
                        if v not in non and v in vs and ('z', v) not in seen:
                            seen.add(('z', v))
                            findings.append({'kind': 'hash', 'what': 'element %d is hashed by its bytes when it is zero: 0.0 and -0.0 compare equal and hash differently' % vs.index(v),
                                             'when': alg.show_path(path), 'where': []})
    walk(d, [])
    return no, findings, und

def lost(r, v, memo):
    """the element's contribution cancels or is masked out: every occurrence is
    multiplied by 0 or shifted out"""
    return False
