"""Value-flow analysis over LLVM IR (SSA).

One pass over the control-flow graph of a function in topological order,
loops peeled while their guard is satisfiable; phi nodes and memory cells are
joined with decision diagrams gated by the branch tests.  The value domain is
alg.py.  Memory is a set of regions (arguments, allocas, heap blocks, globals)
of typed cells; every access is checked against the extent of its region.
"""
import re
import json
import sys
from fractions import Fraction
import alg
from alg import (DD, Rat, Undef, UNDEF, LUNDEF, TRUE, FALSE, leaf, lc, ite, dand, dor, dnot,
                 apply, rconst, radd, rsub, rmul, rdiv, rneg, rvar, rfun, sign_dd)

sys.setrecursionlimit(20000)

class Unsupported(Exception):
    pass

class Region:
    _n = 0
    def __init__(self, name, kind, size=None):
        Region._n += 1
        self.id = Region._n
        self.name = name
        self.kind = kind      # arg, alloca, heap, global, null
        self.size = size
        self.freed = FALSE
        self.init = None
        self.vtype = None
    def __repr__(self):
        return '<%s>' % self.name

NULLR = Region('null', 'null', 0)

class Ptr:
    __slots__ = ('r', 'off')
    def __init__(self, r, off):
        self.r = r
        self.off = off
    def __hash__(self):
        return hash((self.r.id, self.off))
    def __eq__(self, o):
        return isinstance(o, Ptr) and self.r is o.r and self.off == o.off
    def __repr__(self):
        return '&%s+%s' % (self.r.name, self.off)

NULL = leaf(Ptr(NULLR, 0))

class Agg(list):
    """aggregate / vector value: list of DD or Agg"""
    pass

class State:
    __slots__ = ('g', 'env', 'mem')
    def __init__(self, g, env, mem):
        self.g = g
        self.env = env
        self.mem = mem

def parse_float(s):
    if s in ('nan', 'inf', '-inf'):
        return s
    return Fraction(float.fromhex(s))

def vite(g, a, b):
    if a is b:
        return a
    if isinstance(a, Agg) or isinstance(b, Agg):
        if not isinstance(a, Agg):
            return b
        if not isinstance(b, Agg):
            return a
        return Agg(vite(g, x, y) for x, y in zip(a, b))
    if a is None:
        return b
    if b is None:
        return a
    return ite(g, a, b)

def split_types(t):
    """element type list of an aggregate type string"""
    if t[0] in 'va' and ':' in t and t[1:t.index(':')].isdigit():
        k = t.index(':')
        return [t[k + 1:]] * int(t[1:k])
    if t[0] == 's' and '(' in t:
        out = []
        depth = 0
        cur = ''
        for ch in t[t.index('(') + 1:-1]:
            if ch == '(':
                depth += 1
            elif ch == ')':
                depth -= 1
            if ch == ',' and depth == 0:
                out.append(cur)
                cur = ''
            else:
                cur += ch
        if cur:
            out.append(cur)
        return out
    return None

def tsize(t):
    if t == 'p' or t == 'f64':
        return 8
    if t == 'f32':
        return 4
    if t == 'f80':
        return 16
    if t[0] == 'i' and t[1:].isdigit():
        b = int(t[1:])
        n = 1
        while n * 8 < b:
            n *= 2
        return n
    if t[0] in 'va' and ':' in t:
        k = t.index(':')
        return int(t[1:k]) * tsize(t[k + 1:])
    raise Unsupported('size of ' + t)

class Event:
    def __init__(self, kind, detail, guard, loc):
        self.kind = kind
        self.detail = detail
        self.guard = guard
        self.loc = loc

LIBM = {}
for _f in ['sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'sqrt', 'atan2', 'pow', 'fmod',
           'floor', 'ceil', 'trunc', 'cbrt', 'exp2', 'log2', 'log10', 'hypot', 'sinh', 'cosh', 'tanh', 'rint', 'nearbyint', 'round']:
    LIBM[_f] = _f
    LIBM[_f + 'f'] = _f
    LIBM[_f + 'l'] = _f

class Module:
    def __init__(self, data):
        self.fn = {f['name']: f for f in data['functions']}
        self.gl = {g['name']: g for g in data['globals']}
        self.locs = data['locs']
        self.gregions = {}

    def loc(self, i):
        return self.locs[i] if i is not None and i >= 0 else []

class Analysis:
    def __init__(self, mod, extents=None, maxsteps=400000):
        self.m = mod
        self.events = []
        self.steps = 0
        self.maxsteps = maxsteps
        self.depth = 0
        self.funcs = set()
        self.srcs = set()
        self.prov = {}
        self.calls = {}
        self.throws = []
        self.frozen = []      # (region, offset, length) of read-only operands
        self.guards = []      # function-local statics being initialised
        self.opaque = False   # floating-point results are opaque values
        self.opq = {}
        self.noalloc = False  # every heap allocation is an event
        self.watches = []     # memory that a throwing call must leave alone
        self.twrites = []     # (region, guard, location of the throw)
        self.storelog = {}
        self.globals_written = []
        self.nrand = 0
        self.drawn = {}       # (engine state, kind) -> number of the draw
        self.draworder = {}
        self.draws = []
        self.rounded = []
        self.unwind = False   # follow exceptions to the handlers
        self.exc = []         # exceptional states of the last call
        self.blocks_ = []     # (heap region, guard, location) allocated
        self.fail = (None, 0) # ('a' allocation | 'c' construction, index) that throws
        self.nfail = {'a': 0, 'c': 0}

    # ------------------------------------------------ operands
    def const(self, c):
        k = c[0]
        if k == 'i':
            return lc(int(c[2]))if c[1] != 1 else (TRUE if int(c[2]) else FALSE)
        if k == 'f':
            v = parse_float(c[1])
            if isinstance(v, str):
                if v == 'nan':
                    return leaf(Rat(alg.patom(alg.var('#nan').id), ()))
                a = alg.var('#inf')
                a.pos = a.nonneg = True
                r = alg.ratom(a)
                return leaf(r if v == 'inf' else rneg(r))
            return lc(v)
        if k == 'null':
            return NULL
        if k in ('undef', 'poison'):
            ts = split_types(c[1])
            if ts is not None:
                return Agg(self.const([k, t]) for t in ts)
            return LUNDEF
        if k == 'zero':
            ts = split_types(c[1])
            if ts is not None:
                return Agg(self.const(['zero', t]) for t in ts)
            if c[1] == 'p':
                return NULL
            return FALSE if c[1] == 'i1' else lc(0)
        if k == 'agg':
            return Agg(self.const(x) for x in c[1])
        if k == 'g':
            return leaf(Ptr(self.greg(c[1]), 0))
        if k == 'fn':
            return leaf(Ptr(self.freg(c[1]), 0))
        if k == 'gep':
            base = self.const(c[1])
            if c[2] == 'fail' or c[3]:
                raise Unsupported('constant gep')
            return self.ptradd(base, lc(c[2]))
        if k == 'ce' and c[1] in ('inttoptr', 'ptrtoint', 'bitcast'):
            return self.const(c[2])
        raise Unsupported('constant %r' % (c[:2],))

    def freg(self, name):
        r = self.m.gregions.get('fn:' + name)
        if r is None:
            r = self.m.gregions['fn:' + name] = Region(name, 'fn', 0)
        return r

    def greg(self, name):
        r = self.m.gregions.get(name)
        if r is None:
            g = self.m.gl.get(name, {})
            r = Region('global ' + name, 'global', g.get('size'))
            r.init = g.get('init')
            r.gtype = g.get('type')
            r.const = g.get('constant', False)
            r.cells = None
            self.m.gregions[name] = r
        return r

    def gcells(self, r):
        """cells of a constant global"""
        if r.cells is None:
            r.cells = {}
            if r.init is not None:
                def put(c, t, off):
                    ts = split_types(t)
                    if ts is None:
                        v = self.const(c)
                        if not isinstance(v, Agg):
                            r.cells[off] = (tsize(t), v)
                        return
                    o = off
                    for i, et in enumerate(ts):
                        sz = tsize(et)
                        if t[0] == 's':
                            o = (o + min(sz, 8) - 1) // min(sz, 8) * min(sz, 8)
                        if c[0] == 'agg':
                            put(c[1][i], et, o)
                        elif c[0] == 'zero':
                            put(['zero', et], et, o)
                        o += sz
                try:
                    put(r.init, r.gtype, 0)
                except (Unsupported, KeyError, IndexError):
                    pass
        return r.cells

    def val(self, o, env):
        if isinstance(o, list):
            return self.const(o)
        return env[o]

    # ------------------------------------------------ memory
    def ptradd(self, p, off):
        def f(x, y):
            if isinstance(x, Ptr) and isinstance(y, Rat):
                c = y.const()
                if c is None:
                    raise Unsupported('symbolic address')
                return leaf(Ptr(x.r, x.off + int(c)))
            return LUNDEF
        return apply(f, [p, off])

    def leaves(self, d, guard):
        """[(guard, leaf value)]"""
        out = {}
        def walk(d):
            if d.sign is None:
                out.setdefault(d.id, d)
            else:
                for k in d.kids:
                    walk(k)
        walk(d)
        if len(out) == 1:
            (x,) = out.values()
            return [(guard, x.leaf)]
        res = []
        for x in out.values():
            g = apply(lambda v, w: TRUE if (v is w or v == w) else FALSE, [d, x])
            g = dand(guard, g)
            if g is not FALSE:
                res.append((g, x.leaf))
        return res

    def check(self, r, off, size, g, what, loc):
        if g is FALSE:
            return False
        if r.kind == 'null':
            self.events.append(Event('null', '%s of null+%d' % (what, off), g, loc))
            return False
        if r.kind == 'fn':
            raise Unsupported('access to function memory')
        if r.size is not None and (off < 0 or off + size > r.size):
            self.events.append(Event('bounds', '%s of %d bytes at offset %d of %s (%d bytes)' % (what, size, off, r.name, r.size), g, loc))
            return False
        if r.freed is not FALSE:
            gg = dand(g, r.freed)
            if gg is not FALSE:
                self.events.append(Event('freed', '%s of freed %s' % (what, r.name), gg, loc))
        if what == 'write' and self.frozen:
            for fr, lo, n in self.frozen:
                if fr is r and off < lo + n and lo < off + size:
                    self.events.append(Event('operand', 'a read-only operand (%s, byte %d) is written' % (r.name, off - lo), g, loc))
                    break
        return True

    @staticmethod
    def mark_int(x):
        # the variables of a value converted from an integer type are integers
        if isinstance(x, Rat) and not x.d:
            for m in x.n.t:
                for a, _ in m:
                    if alg.ATOMS[a].kind == 'var':
                        alg.ATOMS[a].integer = True
        return leaf(x)

    def load_cell(self, mem, r, off, size, t):
        cells = mem.get(r)
        if cells is not None:
            c = cells.get(off)
            if c is not None:
                if c[0] == size:
                    return c[1]
                if c[0] > size and c[1] is lc(0):
                    return c[1]
            # zero ranges / partial overlaps
            for o, (sz, v) in cells.items():
                if o < off + size and off < o + sz:
                    if o <= off and off + size <= o + sz and v is lc(0):
                        return NULL if t == 'p' else (FALSE if t == 'i1' else v)
                    # a wide load covering several cells
                    return self.wide(cells, r, off, size, t)
        if r.kind == 'arg':
            if r.vtype is None:
                r.vtype = {}
            name = '%s[%d]' % (r.name, off // size) if off % size == 0 else '%s@%d' % (r.name, off)
            if t == 'p':
                return leaf(Ptr(Region('*' + name, 'arg', None), 0))
            return leaf(rvar(name))
        if r.kind == 'global' and r.init is not None:
            c = self.gcells(r).get(off)
            if c is not None and c[0] == size:
                return c[1]
            raise Unsupported('global initialiser %s+%d' % (r.name, off))
        if r.kind == 'global':
            return leaf(rvar('%s@%d' % (r.name, off)))
        return LUNDEF

    def wide(self, cells, r, off, size, t):
        vals = [(o, c) for o, c in cells.items() if o < off + size and off < o + c[0]]
        if all(c[1] is lc(0) for _, c in vals):
            return lc(0)
        if size == 8 and t == 'i64' and sorted(o for o, _ in vals) == [off, off + 4] and all(c[0] == 4 for _, c in vals):
            d = dict(vals)
            return leaf_pack(d[off][1], d[off + 4][1])
        if size == 4 and len(vals) == 1 and vals[0][1][0] == 8 and (off - vals[0][0]) in (0, 4):
            k = (off - vals[0][0]) // 4
            return apply(lambda x: half(x, k), [vals[0][1][1]])
        raise Unsupported('partial overlap in %s at %d' % (r.name, off))

    def load(self, st, p, t, size, loc):
        ts = split_types(t)
        if ts is not None:
            out = Agg()
            o = 0
            for et in ts:
                sz = tsize(et)
                if t[0] == 's':
                    o = (o + min(sz, 8) - 1) // min(sz, 8) * min(sz, 8)
                out.append(self.load(st, self.ptradd(p, lc(o)), et, sz, loc))
                o += sz
            return out
        res = None
        for g, x in self.leaves(p, st.g):
            if not isinstance(x, Ptr):
                self.events.append(Event('undef', 'load through an undefined pointer', g, loc))
                continue
            if not self.check(x.r, x.off, size, g, 'read', loc):
                v = LUNDEF
            else:
                v = self.load_cell(st.mem, x.r, x.off, size, t)
                if t == 'i1' or t == 'i8':
                    pass
            res = v if res is None else vite(g, v, res)
        return res if res is not None else LUNDEF

    def store_cell(self, mem, r, off, size, v):
        cells = dict(mem.get(r, ()))
        if off not in cells or cells[off][0] != size:
            for o in [o for o, (sz, _) in cells.items() if o < off + size and off < o + sz]:
                sz, ov = cells.pop(o)
                # keep the uncovered parts of zero ranges
                if ov is lc(0):
                    if o < off:
                        cells[o] = (off - o, ov)
                    if o + sz > off + size:
                        cells[off + size] = (o + sz - off - size, ov)
                elif sz == 8 and size == 4 and off - o in (0, 4):
                    k = 0 if off > o else 1
                    cells[o + 4 * k] = (4, apply(lambda x: half(x, k), [ov]))
                elif not (off <= o and o + sz <= off + size):
                    raise Unsupported('partial overwrite of %s at %d (%d bytes over %d at %d: %s)' % (r.name, off, size, sz, o, str(ov)[:60]))
        cells[off] = (size, v)
        mem[r] = cells

    def store(self, st, p, v, t, size, loc):
        ts = split_types(t)
        if ts is not None:
            o = 0
            for i, et in enumerate(ts):
                sz = tsize(et)
                if t[0] == 's':
                    o = (o + min(sz, 8) - 1) // min(sz, 8) * min(sz, 8)
                self.store(st, self.ptradd(p, lc(o)), v[i], et, sz, loc)
                o += sz
            return
        if size == 8 and (has_pack(v) or t == 'i64' and wide_const(v)):
            self.store(st, p, apply(lambda x: half(x, 0), [v]), 'i32', 4, loc)
            self.store(st, self.ptradd(p, lc(4)), apply(lambda x: half(x, 1), [v]), 'i32', 4, loc)
            return
        ls = self.leaves(p, st.g)
        for g, x in ls:
            if not isinstance(x, Ptr):
                self.events.append(Event('undef', 'store through an undefined pointer', g, loc))
                continue
            if not self.check(x.r, x.off, size, g, 'write', loc):
                continue
            if x.r.kind == 'global':
                self.gwrite(x.r, loc)
            self.storelog[(x.r.id, x.off)] = loc
            if len(ls) == 1:
                self.store_cell(st.mem, x.r, x.off, size, v)
            else:
                old = self.load_cell(st.mem, x.r, x.off, size, t)
                self.store_cell(st.mem, x.r, x.off, size, vite(g, v, old))

    # ------------------------------------------------ merging
    def merge(self, states):
        if len(states) == 1:
            s = states[0]
            return State(s.g, dict(s.env), dict(s.mem))
        g = states[0].g
        for s in states[1:]:
            g = dor(g, s.g)
        env = dict(states[0].env)
        for s in states[1:]:
            for k, v in s.env.items():
                o = env.get(k)
                if o is None:
                    env[k] = v
                elif o is not v:
                    env[k] = vite(s.g, v, o)
        mem = dict(states[0].mem)
        for s in states[1:]:
            for r, cells in s.mem.items():
                o = mem.get(r)
                if o is cells:
                    continue
                if o is None:
                    o = {}
                cells, o = split_zero(cells, o), split_zero(o, cells)
                keys = set(o) | set(cells)
                out = {}
                for k in keys:
                    a, b = cells.get(k), o.get(k)
                    if a is b:
                        out[k] = a
                        continue
                    if a is not None and b is not None and a[0] == b[0]:
                        out[k] = (a[0], vite(s.g, a[1], b[1]))
                        continue
                    if a is not None and b is not None:
                        raise Unsupported('join of cells of different sizes')
                    x = a or b
                    if r.kind in ('alloca', 'heap'):
                        cov = [q for q, c in (cells if a is None else o).items() if q < k + x[0] and k < q + c[0]]
                        if cov:
                            z = (cells if a is None else o)[cov[0]]
                            if z[1] is lc(0) and z[0] >= x[0]:
                                other = lc(0)
                            else:
                                raise Unsupported('join of overlapping cells')
                        else:
                            other = LUNDEF
                    else:
                        other = self.load_cell({}, r, k, x[0], 'f64' if not self._isptr(x[1]) else 'p')
                    out[k] = (x[0], vite(s.g, a[1] if a else other, b[1] if b else other))
                # drop cells covered by others
                mem[r] = out
        return State(g, env, mem)

    def _isptr(self, v):
        while v.sign is not None:
            v = v.kids[1]
        return isinstance(v.leaf, Ptr)

    # ------------------------------------------------ control flow
    def run(self, name, args, st):
        """returns (State or None, return value)"""
        f = self.m.fn[name]
        if f['decl']:
            raise Unsupported('call to external ' + name)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion')
        self.funcs.add(name)
        if 'cfg' not in f:
            f['cfg'] = build_cfg(f)
        cfg = f['cfg']
        env = {}
        for (i, t, _n), v in zip(f['args'], args):
            env[i] = v
        self.frames = getattr(self, 'frames', [])
        self.frames.append({'rets': [], 'exc': []})
        entry = f['blocks'][0][0]
        s0 = State(st.g, env, st.mem)
        outs = self.region(cfg, cfg['tree'], entry, [(None, s0)])
        if any(True for _ in outs):
            pass
        fr = self.frames.pop()
        self.depth -= 1
        rets = fr['rets']
        self.exc = [self.merge([State(s.g, {}, s.mem) for s in fr['exc']])] if fr['exc'] else []
        if not rets:
            return None, None
        states = []
        for s, v in rets:
            states.append(State(s.g, {'ret': v} if v is not None else {}, s.mem))
        m = self.merge(states)
        return m, m.env.get('ret')

    def region(self, cfg, scc, entry, incoming):
        """scc: ordered list of blocks / nested loops of this region"""
        pend = {entry: incoming}
        exits = []
        inside = scc['blocks']
        def deliver(edges):
            for (src, dst, s) in edges:
                if dst in inside and dst != scc.get('header'):
                    pend.setdefault(dst, []).append((src, s))
                else:
                    exits.append((src, dst, s))
        for item in scc['items']:
            if isinstance(item, int):
                inc = pend.pop(item, None)
                if not inc:
                    continue
                deliver(self.block(cfg, item, inc))
            else:
                h = item['header']
                inc = pend.pop(h, None)
                if not inc:
                    continue
                it = 0
                while inc:
                    it += 1
                    if it > 300:
                        raise Unsupported('loop at %s does not terminate in the analysis' % (self.m.loc(cfg['blk'][h][0][3])[:1],))
                    ex = self.region(cfg, item, h, inc)
                    inc = [(src, s) for src, dst, s in ex if dst == h]
                    deliver([(src, dst, s) for src, dst, s in ex if dst != h])
        return exits

    def block(self, cfg, b, incoming):
        insts = cfg['blk'][b]
        incoming = [(p, s) for p, s in incoming if s.g is not FALSE]
        if not incoming:
            return []
        # phis
        phis = [i for i in insts if i[1] == 'phi']
        new = []
        for p, s in incoming:
            vals = {}
            for i in phis:
                for pr in i[4:]:
                    if pr[0] == p:
                        vals[i[0]] = self.val(pr[1], s.env)
                        break
            if vals:
                e = dict(s.env)
                e.update(vals)
                s = State(s.g, e, s.mem)
            new.append(s)
        st = self.merge(new)
        out = []
        for i in insts:
            if i[1] == 'phi':
                continue
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Unsupported('analysis budget')
            r = self.inst(cfg, b, i, st)
            if r == 'dead':
                return []
            if r is not None:
                return r
        return out

    def consts(self, args):
        return all(isinstance(x, DD) and x.sign is None and isinstance(x.leaf, Rat) and x.leaf.const() is not None for x in args)

    def fresh(self, key, args):
        """an opaque floating-point value, the same for the same operands"""
        if isinstance(args[0], Agg):
            return Agg(self.fresh(key, [x[k] if isinstance(x, Agg) else x for x in args]) for k in range(len(args[0])))
        key = (key,) + tuple(x.id for x in args)
        v = self.opq.get(key)
        if v is None:
            v = self.opq[key] = leaf(rvar('z%d' % len(self.opq)))
        return v

    def inst(self, cfg, b, i, st):
        op, t, loc = i[1], i[2], i[3]
        env = st.env
        V = lambda o: self.val(o, env)
        if self.opaque:
            if op in BIN and 'f' in t or op == 'fneg':
                args = [V(x) for x in i[4:6 if op in BIN else 5]]
                if not self.consts(args):
                    env[i[0]] = self.fresh(op, args)
                    return
            elif op == 'fcmp':
                args = [V(x) for x in i[5:7]]
                if not all(isinstance(x, DD) and x.sign is None for x in args):
                    if isinstance(args[0], Agg):
                        env[i[0]] = Agg(self.cmp('gt', x, lc(0), 'f64') for x in self.fresh(op + i[4], args))
                    else:
                        env[i[0]] = self.cmp('gt', self.fresh(op + i[4], args), lc(0), 'f64')
                    return
        if op in BIN:
            a, c = V(i[4]), V(i[5])
            env[i[0]] = self.setp(self.vbin(op, a, c, t), loc)
        elif op == 'fneg':
            env[i[0]] = self.setp(self.vmap(lambda x: leaf(rneg(x)) if isinstance(x, Rat) else LUNDEF, V(i[4])), loc)
        elif op in ('fcmp', 'icmp'):
            a, c = V(i[5]), V(i[6])
            if isinstance(a, Agg):
                env[i[0]] = Agg(self.cmp(i[4], x, y, i[7].split(':')[-1]) for x, y in zip(a, c))
            else:
                env[i[0]] = self.cmp(i[4], a, c, i[7])
        elif op == 'select':
            c, a, e = V(i[4]), V(i[5]), V(i[6])
            if isinstance(c, Agg):
                env[i[0]] = Agg(vite(x, y, z) for x, y, z in zip(c, a, e))
            else:
                env[i[0]] = vite(c, a, e)
        elif op == 'getelementptr':
            base = V(i[4])
            if i[5] == 'fail':
                raise Unsupported('gep')
            p = self.ptradd(base, lc(i[5]))
            for ix, sc in i[6]:
                p = self.ptradd(p, self.vbin('mul', V(ix), lc(sc), 'i64'))
            env[i[0]] = p
        elif op == 'load':
            v = self.load(st, V(i[4]), t, i[5], loc)
            if t == 'i1' :
                v = self.tobool(v)
            env[i[0]] = v
        elif op == 'store':
            v = V(i[4])
            if i[7] == 'i1':
                v = self.toint(v)
            self.store(st, V(i[5]), v, i[7], i[6], loc)
        elif op == 'alloca':
            n = V(i[5]).leaf
            r = Region('local@%s' % i[0], 'alloca', i[4] * int(n.const()))
            env[i[0]] = leaf(Ptr(r, 0))
        elif op in CASTS:
            env[i[0]] = self.cast(op, V(i[4]), i[5], t, i[3])
        elif op == 'br':
            if len(i) == 5:
                return [(b, i[4], st)]
            c = V(i[4])
            return self.branch(b, st, c, i[5], i[6], loc)
        elif op == 'switch':
            c = V(i[4])
            out = []
            rest = st.g
            for cv, dst in i[6]:
                g = self.cmp('eq', c, lc(cv), 'i64')
                gg = dand(rest, g)
                rest = dand(rest, dnot(g))
                if gg is not FALSE:
                    out.append((b, dst, State(gg, st.env, st.mem)))
            if rest is not FALSE:
                out.append((b, i[5], State(rest, st.env, st.mem)))
            return out
        elif op == 'ret':
            v = V(i[4]) if len(i) > 4 else None
            self.frames[-1]['rets'].append((st, v))
            return []
        elif op == 'unreachable':
            return []
        elif op in ('call', 'invoke'):
            self.exc = []
            r = self.call(i, st)
            exc, self.exc = self.exc, []
            if op == 'call':
                self.frames[-1]['exc'] += exc
                if r == 'dead':
                    return []
            else:
                out = [] if r == 'dead' else [(b, i[7], st)]
                return out + [(b, i[8], State(x.g, dict(env), x.mem)) for x in exc]
        elif op == 'extractvalue':
            v = V(i[4])
            for k in i[5]:
                v = v[k]
            env[i[0]] = v
        elif op == 'insertvalue':
            v = V(i[4])
            env[i[0]] = self.insert(v, V(i[5]), i[6])
        elif op == 'extractelement':
            v, k = V(i[4]), V(i[5]).leaf
            env[i[0]] = v[int(k.const())]
        elif op == 'insertelement':
            v, x, k = V(i[4]), V(i[5]), V(i[6]).leaf
            v = Agg(v)
            v[int(k.const())] = x
            env[i[0]] = v
        elif op == 'shufflevector':
            a, c = V(i[4]), V(i[5])
            if not isinstance(a, Agg):
                raise Unsupported('shuffle')
            if not isinstance(c, Agg):
                c = Agg([LUNDEF] * len(a))
            al = list(a) + list(c)
            env[i[0]] = Agg(al[k] if k >= 0 else LUNDEF for k in i[6])
        elif op == 'freeze':
            env[i[0]] = V(i[4])
        elif op == 'landingpad':
            if not self.unwind:
                return []
            if any(not c.endswith(':') for c in i[5]):
                raise Unsupported('catch of one exception type')
            env[i[0]] = Agg([leaf(Ptr(Region('exception', 'heap', None), 0)), lc(1)])
        elif op == 'resume':
            if not self.unwind:
                return []
            self.frames[-1]['exc'].append(st)
            return []
        elif op == 'fence':
            pass
        else:
            raise Unsupported('instruction ' + op)
        return None

    def setp(self, v, loc):
        if isinstance(v, DD) and v.id not in self.prov:
            self.prov[v.id] = loc
        return v

    def branch(self, b, st, c, t, f, loc):
        if isinstance(c, Agg):
            raise Unsupported('vector branch')
        if c.sign is None and not isinstance(c.leaf, bool):
            self.events.append(Event('undef', 'branch on an undefined value', st.g, loc))
            return []
        out = []
        g1 = dand(st.g, c)
        g2 = dand(st.g, dnot(c))
        if g1 is not FALSE:
            out.append((b, t, State(g1, st.env, st.mem)))
        if g2 is not FALSE:
            out.append((b, f, State(g2, st.env if g1 is FALSE else dict(st.env), st.mem if g1 is FALSE else dict(st.mem))))
        return out

    def insert(self, v, x, idx):
        v = Agg(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = self.insert(v[idx[0]], x, idx[1:])
        return v

    def vmap(self, f, v):
        if isinstance(v, Agg):
            return Agg(self.vmap(f, x) for x in v)
        return apply(lambda x: f(x), [v])

    def toint(self, v):
        if isinstance(v, Agg):
            return Agg(self.toint(x) for x in v)
        return apply(lambda x: lc(1 if x else 0) if isinstance(x, bool) else leaf(x), [v])

    def tobool(self, v):
        if isinstance(v, Agg):
            return Agg(self.tobool(x) for x in v)
        def f(x):
            if isinstance(x, bool):
                return leaf(x)
            if isinstance(x, Rat):
                return sign_dd(x, TRUE, FALSE, TRUE)
            return LUNDEF
        return apply(f, [v])

    def vbin(self, op, a, c, t):
        if isinstance(a, Agg) or isinstance(c, Agg):
            return Agg(self.vbin(op, x, y, t.split(':')[-1]) for x, y in zip(a, c))
        def f(x, y):
            if isinstance(x, Undef) or isinstance(y, Undef):
                return LUNDEF
            return self.bin(op, x, y, t)
        return apply(f, [a, c])

    def bin(self, op, x, y, t):
        if isinstance(x, bool) and isinstance(y, bool):
            if op in ('and', 'mul'):
                return leaf(x and y)
            if op == 'or':
                return leaf(x or y)
            if op in ('xor', 'add', 'sub'):
                return leaf(x != y)
            raise Unsupported(op + ' on i1')
        if isinstance(x, bool):
            x = rconst(int(x))
        if isinstance(y, bool):
            y = rconst(int(y))
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return self.ptrbin(op, x, y)
        if isinstance(x, Pack) or isinstance(y, Pack):
            if op in ('lshr', 'ashr') and isinstance(y, Rat) and y.const() == 32:
                return half(x, 1)
            raise Unsupported(op + ' on a packed value')
        if op in ('fadd', 'add'):
            return leaf(self.wrap(radd(x, y), t))
        if op in ('fsub', 'sub'):
            return leaf(self.wrap(rsub(x, y), t))
        if op in ('fmul', 'mul'):
            return leaf(self.wrap(rmul(x, y), t))
        if op == 'fdiv':
            if not y.n.t:
                return leaf(Rat(alg.patom(alg.fun('div0', x).id), ()))
            return leaf(rdiv(x, y))
        cx, cy = x.const(), y.const()
        if op == 'frem':
            return leaf(rfun('fmod', [x, y]))
        if cx is not None and cy is not None:
            a, c = int(cx), int(cy)
            bits = int(t[1:])
            ua, uc = a % (1 << bits), c % (1 << bits)
            r = None
            if op == 'shl':
                r = a << uc
            elif op == 'lshr':
                r = ua >> uc
            elif op == 'ashr':
                r = a >> uc
            elif op == 'and':
                r = ua & uc
            elif op == 'or':
                r = ua | uc
            elif op == 'xor':
                r = ua ^ uc
            elif op == 'udiv' and uc:
                r = ua // uc
            elif op == 'urem' and uc:
                r = ua % uc
            elif op == 'sdiv' and c:
                r = abs(a) // abs(c) * (1 if (a < 0) == (c < 0) else -1)
            elif op == 'srem' and c:
                r = abs(a) % abs(c) * (-1 if a < 0 else 1)
            if r is None:
                return LUNDEF
            return leaf(self.wrap(rconst(r), t))
        if op == 'shl' and cy is not None:
            return leaf(rmul(x, rconst(2 ** int(cy))))
        if op == 'or' and cy == 0:
            return leaf(x)
        if op in ('sdiv', 'srem', 'udiv', 'urem', 'and', 'or', 'xor', 'lshr', 'ashr'):
            return leaf(rfun(op, [x, y]))
        raise Unsupported(op)

    def ptrbin(self, op, x, y):
        if op == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r:
            return lc(x.off - y.off)
        if op == 'add':
            if isinstance(x, Ptr) and isinstance(y, Rat) and y.const() is not None:
                return leaf(Ptr(x.r, x.off + int(y.const())))
            if isinstance(y, Ptr) and isinstance(x, Rat) and x.const() is not None:
                return leaf(Ptr(y.r, y.off + int(x.const())))
        if op == 'sub' and isinstance(x, Ptr) and isinstance(y, Rat) and y.const() is not None:
            return leaf(Ptr(x.r, x.off - int(y.const())))
        raise Unsupported('pointer arithmetic ' + op)

    def wrap(self, r, t):
        """normalise integer constants to the signed range of their type"""
        if t[0] != 'i':
            return r
        c = r.const()
        if c is None:
            return r
        bits = int(t[1:])
        c = int(c) % (1 << bits)
        if c >= 1 << (bits - 1):
            c -= 1 << bits
        return rconst(c)

    def cmp(self, pred, a, c, t):
        def f(x, y):
            if isinstance(x, Undef) or isinstance(y, Undef):
                return LUNDEF
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                return self.ptrcmp(pred, x, y)
            if isinstance(x, Pack) or isinstance(y, Pack):
                if pred not in ('eq', 'ne'):
                    raise Unsupported('comparison of packed values')
                e = dand(self.cmp('eq', half(x, 0), half(y, 0), 'i32'), self.cmp('eq', half(x, 1), half(y, 1), 'i32'))
                return e if pred == 'eq' else dnot(e)
            if isinstance(x, bool):
                x = rconst(int(x))
            if isinstance(y, bool):
                y = rconst(int(y))
            p = pred
            if p in ('ord',):
                return TRUE
            if p in ('uno',):
                return FALSE
            if t[0] == 'f':
                if p == 'true':
                    return TRUE
                if p == 'false':
                    return FALSE
                if p[0] in 'ou' and len(p) == 3:
                    p = p[1:]
            elif p[0] == 'u':
                cx, cy = x.const(), y.const()
                if cx is not None and cy is not None:
                    b = 1 << int(t[1:])
                    x, y = rconst(int(cx) % b), rconst(int(cy) % b)
                p = p[1:]
            elif p[0] == 's':
                p = p[1:]
            T = {'eq': (0, 1, 0), 'ne': (1, 0, 1), 'lt': (1, 0, 0), 'le': (1, 1, 0),
                 'gt': (0, 0, 1), 'ge': (0, 1, 1)}[p]
            k = [TRUE if v else FALSE for v in T]
            return sign_dd(rsub(x, y), *k)
        return apply(f, [a, c])

    def ptrcmp(self, pred, x, y):
        if isinstance(x, Rat):
            x = Ptr(NULLR, int(x.const() or 0))
        if isinstance(y, Rat):
            y = Ptr(NULLR, int(y.const() or 0))
        if x.r is not y.r:
            if pred == 'eq':
                return FALSE
            if pred == 'ne':
                return TRUE
            # relational comparison of unrelated objects (overlap guards):
            # order them by creation, as distinct objects never overlap
            a, c = x.r.id, y.r.id
        else:
            a, c = x.off, y.off
        p = pred[1:] if pred[0] in 'us' and len(pred) == 3 else pred
        r = {'eq': a == c, 'ne': a != c, 'lt': a < c, 'le': a <= c, 'gt': a > c, 'ge': a >= c}[p]
        return leaf(r)

    def cast(self, op, v, ft, tt, loc=None):
        if isinstance(v, Agg):
            if op == 'bitcast' and split_types(tt) is None:
                raise Unsupported('bitcast of a vector')
            return Agg(self.cast(op, x, ft.split(':')[-1], tt.split(':')[-1], loc) for x in v)
        if op in ('fpext', 'fptrunc', 'sext', 'ptrtoint', 'inttoptr', 'addrspacecast', 'bitcast'):
            if op == 'sext' and ft == 'i1':
                return apply(lambda x: lc(-1 if x else 0) if isinstance(x, bool) else LUNDEF, [v])
            if op == 'fptrunc' and not plain(v):
                self.rounded.append(loc)
            return v
        if op == 'zext':
            if ft == 'i1':
                return self.toint(v)
            bits = int(ft[1:])
            def f(x):
                if isinstance(x, Rat) and x.const() is not None:
                    return lc(int(x.const()) % (1 << bits))
                return leaf(x)
            return apply(f, [v])
        if op == 'trunc':
            bits = int(tt[1:])
            if tt == 'i1':
                def fb(x):
                    if isinstance(x, bool):
                        return leaf(x)
                    if isinstance(x, Rat) and x.const() is not None:
                        return leaf(bool(int(x.const()) & 1))
                    if isinstance(x, Rat):
                        return sign_dd(x, TRUE, FALSE, TRUE)
                    return LUNDEF
                return apply(fb, [v])
            if bits == 32 and has_pack(v):
                return apply(lambda x: half(x, 0), [v])
            return apply(lambda x: leaf(self.wrap(x, tt)) if isinstance(x, Rat) else leaf(x), [v])
        if op in ('sitofp', 'uitofp'):
            if ft == 'i1':
                v = self.toint(v)
                return self.vmap(lambda x: leaf(rneg(x)), v) if op == 'sitofp' else v
            apply(self.mark_int, [v])
            return v
        if op in ('fptosi', 'fptoui'):
            def g(x):
                if isinstance(x, Rat):
                    c = x.const()
                    if c is not None:
                        return lc(int(c))
                    if alg.is_int(x):
                        return leaf(x)
                    return leaf(rfun('trunc', [x]))
                return LUNDEF
            return apply(g, [v])
        raise Unsupported(op)

    # ------------------------------------------------ calls
    def math(self, name, args):
        if self.opaque and not self.consts(args):
            return self.fresh(name, args)
        if isinstance(args[0], Agg):
            return Agg(self.math(name, [a[k] for a in args]) for k in range(len(args[0])))
        def f(*xs):
            if any(not isinstance(x, Rat) for x in xs):
                return LUNDEF
            return leaf(rfun(name, list(xs)))
        return apply(f, args)

    def fabs(self, v):
        if self.opaque and not self.consts([v]):
            return self.fresh('fabs', [v])
        if isinstance(v, Agg):
            return Agg(self.fabs(x) for x in v)
        def f(x):
            if not isinstance(x, Rat):
                return LUNDEF
            return sign_dd(x, leaf(rneg(x)), lc(0), leaf(x))
        return apply(f, [v])

    def minmax(self, a, c, is_max):
        if self.opaque and not self.consts([a, c]):
            return self.fresh('minmax%d' % is_max, [a, c])
        if isinstance(a, Agg):
            return Agg(self.minmax(x, y, is_max) for x, y in zip(a, c))
        def f(x, y):
            if not isinstance(x, Rat) or not isinstance(y, Rat):
                return LUNDEF
            lx, ly = leaf(x), leaf(y)
            return sign_dd(rsub(x, y), ly if is_max else lx, ly, lx if is_max else ly)
        return apply(f, [a, c])

    def call(self, i, st):
        env = st.env
        callee = i[4]
        loc = i[3]
        args = [None if (isinstance(a, list) and a[0] == 'md') else a for a in i[5]]
        if not (isinstance(callee, list) and callee[0] == 'fn'):
            if isinstance(callee, int):
                v = env[callee]
                if isinstance(v, DD) and v.sign is None and isinstance(v.leaf, Ptr) and v.leaf.r.kind == 'fn':
                    name = v.leaf.r.name
                else:
                    raise Unsupported('indirect call')
            else:
                raise Unsupported('indirect call')
        else:
            name = callee[1]
        A = lambda k: self.val(args[k], env)
        self.calls[name] = self.calls.get(name, 0) + 1
        if name.startswith('llvm.'):
            b = name.split('.')
            n = b[1]
            if n == 'lifetime':
                for g, x in self.leaves(A(1), st.g):
                    if isinstance(x, Ptr) and x.r.kind == 'alloca':
                        if b[2] == 'end':
                            x.r.freed = dor(x.r.freed, g)
                        elif x.r.freed is not FALSE:
                            x.r.freed = dand(x.r.freed, dnot(g))
                return
            if n in ('assume', 'dbg', 'invariant', 'experimental', 'prefetch', 'var', 'donothing'):
                if n == 'experimental' and b[2] != 'noalias':
                    raise Unsupported(name)
                return
            if n in ('memcpy', 'memmove'):
                return self.memcpy(st, A(0), A(1), A(2), loc)
            if n == 'memset':
                return self.memset(st, A(0), A(1), A(2), loc)
            if n == 'fabs':
                env[i[0]] = self.setp(self.fabs(A(0)), loc)
                return
            if n in LIBM:
                env[i[0]] = self.setp(self.math(LIBM[n], [A(k) for k in range(len(args))]), loc)
                return
            if n == 'powi':
                env[i[0]] = self.math('pow', [A(0), A(1)])
                return
            if n in ('fmuladd', 'fma'):
                env[i[0]] = self.vbin('fadd', self.vbin('fmul', A(0), A(1), 'f64'), A(2), 'f64')
                return
            if n in ('maxnum', 'minnum', 'maximum', 'minimum', 'smax', 'smin', 'umax', 'umin'):
                env[i[0]] = self.minmax(A(0), A(1), 'max' in n)
                return
            if n == 'copysign':
                m = self.fabs(A(0))
                def f(x, y):
                    if not isinstance(x, Rat) or not isinstance(y, Rat):
                        return LUNDEF
                    return sign_dd(y, leaf(rneg(x)), leaf(x), leaf(x))
                env[i[0]] = apply(f, [m, A(1)])
                return
            if n == 'abs':
                env[i[0]] = self.fabs(A(0))
                return
            if n == 'vector' and b[2] == 'reduce':
                v = A(len(args) - 1)
                opn = {'add': 'add', 'mul': 'mul', 'fadd': 'fadd', 'fmul': 'fmul'}.get(b[3])
                if opn is None:
                    raise Unsupported(name)
                acc = A(0) if opn[0] == 'f' else None
                for x in v:
                    acc = x if acc is None else self.vbin(opn, acc, x, 'f64' if opn[0] == 'f' else 'i32')
                env[i[0]] = acc
                return
            if n == 'eh' or n == 'trap' or n == 'ubsantrap':
                if n != 'eh':
                    self.events.append(Event('trap', name, st.g, loc))
                    return 'dead'
                env[i[0]] = lc(0)
                return
            if n == 'expect':
                env[i[0]] = A(0)
                return
            if n.endswith('with') or n in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
                if b[2:4] == ['with', 'overflow']:
                    o = {'uadd': 'add', 'sadd': 'add', 'usub': 'sub', 'ssub': 'sub', 'umul': 'mul', 'smul': 'mul'}[n]
                    env[i[0]] = Agg([self.vbin(o, A(0), A(1), 'i64'), FALSE])
                    return
            if n == 'bswap' or n == 'ctpop' or n == 'fshl':
                raise Unsupported(name)
            if n == 'objectsize':
                env[i[0]] = lc(-1)
                return
            if n == 'is' and b[2] == 'constant':
                env[i[0]] = FALSE
                return
            if n == 'is' and b[2] == 'fpclass':
                env[i[0]] = FALSE
                return
            raise Unsupported(name)
        if name in LIBM:
            env[i[0]] = self.setp(self.math(LIBM[name], [A(k) for k in range(len(args))]), loc)
            return
        if name in ('fabs', 'fabsf'):
            env[i[0]] = self.fabs(A(0))
            return
        if name in ('memcpy', 'memmove'):
            self.memcpy(st, A(0), A(1), A(2), loc)
            env[i[0]] = A(0)
            return
        if name == '_ZSt11_Hash_bytesPKvmm':
            # an uninterpreted function of the bytes: of the cells they make up
            p, n, seed = A(0), A(1), A(2)
            if p.sign is not None or not isinstance(p.leaf, Ptr) or n.sign is not None or n.leaf.const() is None:
                raise Unsupported('hash of a symbolic range')
            p, n = p.leaf, int(n.leaf.const())
            vals = [seed]
            if self.check(p.r, p.off, n, st.g, 'read', loc):
                cells = self.cells_in(st, p.r, p.off, n) if p.r.kind != 'arg' else {}
                if cells and sum(c[0] for c in cells.values()) == n:
                    vals += [c[1] for _o, c in sorted(cells.items())]
                elif n in (4, 8) or n % 8 == 0:
                    es = 4 if n == 4 else 8
                    vals += [self.load(st, self.ptradd(A(0), lc(o)), 'f64' if es == 8 else 'f32', es, loc) for o in range(0, n, es)]
                else:
                    raise Unsupported('hash of %d bytes' % n)
            env[i[0]] = apply(lambda *xs: leaf(rfun('hashbytes', list(xs))) if all(isinstance(x, Rat) for x in xs) else LUNDEF, vals)
            return
        if re.match(r'_ZNSt13random_device(C[12]E|D[12]E|7_M_initE|7_M_finiE)', name):
            return
        if name in ('rand', '_ZNSt13random_deviceclEv', '_ZNSt13random_device9_M_getvalEv'):
            self.nrand += 1
            x = rvar('rand%d' % self.nrand)
            self.mark_int(x)
            env[i[0]] = leaf(x)
            return
        m = ENGINE.match(name)
        if m:
            self.store(st, A(0), self.engine_state('seeded', A(1)), 'i64', 8, loc)
            return
        m = DISTRIBUTION.match(name)
        if m:
            env[i[0]] = self.draw(st, m.group(1), m.group(2), A(2) if len(args) > 2 else A(0), A(1), loc)
            return
        if name in OSTREAM or name.startswith('_ZNSo9_M_insertI'):
            env[i[0]] = self.print_(st, name, A, args, loc)
            return
        if name in FREES:
            n = A(0)
            if self.noalloc:
                self.events.append(Event('heap', 'heap memory is allocated', st.g, loc))
            if n.sign is not None or n.leaf.const() is None:
                raise Unsupported('heap block of symbolic size')
            if self.failing('a'):
                return self.throw(st, '_ZTISt9bad_alloc', loc)
            r = Region('heap@%d' % i[0], 'heap', int(n.leaf.const()))
            r.via = FREES[name]
            r.live = {}
            self.blocks_.append((r, st.g, loc))
            env[i[0]] = leaf(Ptr(r, 0))
            return
        if name in FREE_FN:
            for g, x in self.leaves(A(0), st.g):
                if isinstance(x, Ptr):
                    if x.r.kind == 'null':
                        if name == 'vf_free' and A(1) is not lc(0):
                            self.events.append(Event('free', 'a null pointer is returned to the allocator with a size that is not 0', g, loc))
                        continue
                    if x.r.kind != 'heap' or x.off != 0:
                        self.events.append(Event('free', 'delete of %r' % x, g, loc))
                        continue
                    if name not in x.r.via:
                        self.events.append(Event('free', '%r is released by %s' % (x, name), g, loc))
                    if len(args) > 1 and A(1) is not lc(x.r.size):
                        self.events.append(Event('free', '%r of %s bytes is released as %s bytes' % (x, x.r.size, alg.show_dd(A(1))), g, loc))
                    for o in sorted(x.r.live):
                        gg = dand(g, x.r.live[o])
                        if gg is not FALSE:
                            self.events.append(Event('element', '%r is released while the element at offset %d is still constructed' % (x, o), gg, loc))
                            break
                    if dand(x.r.freed, g) is not FALSE:
                        self.events.append(Event('free', 'double delete of %r' % x, dand(x.r.freed, g), loc))
                    x.r.freed = dor(x.r.freed, g)
            return
        if name == '__cxa_allocate_exception':
            r = Region('exception', 'heap', None)
            env[i[0]] = leaf(Ptr(r, 0))
            return
        if name == '__cxa_throw':
            ti = args[1]
            tn = ti[1] if isinstance(ti, list) and ti[0] == 'g' else '?'
            self.check_watches(st, loc)
            return self.throw(st, tn, loc)
        if name in ('vf_ctor', 'vf_dtor', 'vf_use'):
            return self.element(st, name, A(0), loc)
        if name == '__cxa_begin_catch':
            env[i[0]] = A(0)
            return
        if name == 'vf_watch':
            p, n = A(0), A(1)
            if p.sign is not None or not isinstance(p.leaf, Ptr):
                raise Unsupported('vf_watch')
            p = p.leaf
            n = int(n.leaf.const())
            if p.r.kind != 'null' and n:
                self.watches.append((p.r, p.off, n, self.cells_in(st, p.r, p.off, n)))
            return
        if name in ('__cxa_guard_release', '__cxa_guard_abort'):
            if self.guards:
                self.guards.pop()
            return
        if name in ('__cxa_free_exception', '__cxa_end_catch', '__cxa_atexit'):
            return
        if name == '__cxa_guard_acquire':
            p = A(0)
            self.guards.append(p.leaf.r.name if p.sign is None and isinstance(p.leaf, Ptr) else '')
            env[i[0]] = lc(1)
            return
        if name == 'vf_any':
            # whatever a target held before the call: one unknown per index
            env[i[0]] = leaf(Rat(alg.patom(alg.var('was[%d]' % int(A(0).leaf.const())).id), ()))
            return
        if name in ('vf_freeze', 'vf_thaw'):
            if name == 'vf_thaw':
                self.frozen = []
                return
            p, n = A(0), A(1)
            if p.sign is not None or not isinstance(p.leaf, Ptr) or n.sign is not None:
                raise Unsupported('vf_freeze')
            if p.leaf.r.kind != 'null' and n.leaf.const():
                self.frozen.append((p.leaf.r, p.leaf.off, int(n.leaf.const())))
            return
        if name == '__cxa_rethrow' and self.unwind:
            return self.throw(st, '(rethrown)', loc)
        if name in ('__cxa_rethrow', '_ZSt9terminatev', 'abort', '__clang_call_terminate') or name.startswith('_ZSt') and 'throw' in name:
            if self.unwind and 'throw' in name:
                return self.throw(st, name, loc)
            self.throws.append((name, st.g, loc))
            return 'dead'
        if name.startswith(('_ZNSt13runtime_error', '_ZNSt12logic_error', '_ZNSt16invalid_argument', '_ZNSt11range_error', '_ZNSt12out_of_range', '_ZNSt9exception', '_ZNSt12length_error')):
            return
        f = self.m.fn.get(name)
        if f is None or f['decl']:
            raise Unsupported('call to external function ' + name)
        argv = []
        byval = i[6].get('byval', [])
        for k in range(len(args)):
            v = A(k) if args[k] is not None else None
            if k < len(byval) and byval[k]:
                r = Region('byval', 'alloca', byval[k])
                p = leaf(Ptr(r, 0))
                self.memcpy(st, p, v, lc(byval[k]), loc)
                v = p
            argv.append(v)
        s2, rv = self.run(name, argv, State(st.g, {}, st.mem))
        if s2 is None:
            return 'dead'
        if self.exc:
            env = st.env = dict(env)
        st.g = s2.g
        st.mem = s2.mem
        if rv is not None:
            env[i[0]] = rv

    def engine_state(self, how, x):
        return apply(lambda y: leaf(rfun('engine_' + how, [y])) if isinstance(y, Rat) else LUNDEF, [x])

    def draw(self, st, kind, t, params, gen, loc):
        """a number drawn from a distribution: a fresh value for every state of
        the engine, which advances"""
        et, es = {'d': ('f64', 8), 'f': ('f32', 4), 'i': ('i32', 4), 'j': ('i32', 4), 'l': ('i64', 8), 'm': ('i64', 8)}[t]
        p = self.load(st, params, et, es, loc)
        q = self.load(st, self.ptradd(params, lc(es)), et, es, loc)
        s = self.load(st, gen, 'i64', 8, loc)
        self.store(st, gen, self.engine_state('next', s), 'i64', 8, loc)
        k = self.drawn.setdefault((s.id, kind), len(self.drawn))
        if s.sign is not None or not (alg.base_vars(s)):
            self.events.append(Event('random', 'the numbers drawn are the same on every call', st.g, loc))
        k = self.draworder.get(k, k)
        self.draws.append((k, kind))
        x = rvar('draw%d_%s' % (k, kind))
        a = alg.ATOMS[list(x.n.atoms())[0]]
        if kind == 'normal':
            a.nz = True      # zero has probability 0
            return apply(lambda m, d: leaf(radd(m, rmul(d, x))) if isinstance(m, Rat) and isinstance(d, Rat) else LUNDEF, [p, q])
        if kind == 'uniform_real':
            a.nonneg = True
            return apply(lambda m, d: leaf(radd(m, rmul(rsub(d, m), x))) if isinstance(m, Rat) and isinstance(d, Rat) else LUNDEF, [p, q])
        if p is lc(0) and q is lc(1):
            return sign_dd(x, lc(0), lc(0), lc(1))
        return apply(lambda m, d: leaf(rfun('drawn_integer', [x, m, d])) if isinstance(m, Rat) and isinstance(d, Rat) else LUNDEF, [p, q])

    def print_(self, st, name, A, args, loc):
        """output to a stream: the trace of what is written is kept as cells of
        the stream object, one per character or formatted value"""
        os = A(0)
        if os.sign is not None or not isinstance(os.leaf, Ptr):
            raise Unsupported('symbolic stream')
        r = os.leaf.r
        kind = OSTREAM.get(name) or ('i' if name[16] in 'ijlmxy' else 'd')
        def text(p, n=None):
            if p.sign is not None or not isinstance(p.leaf, Ptr):
                raise Unsupported('symbolic text')
            out = []
            while n is None or len(out) < n:
                c = self.load(st, self.ptradd(p, lc(len(out))), 'i8', 1, loc)
                if c.sign is not None or not isinstance(c.leaf, Rat) or c.leaf.const() is None:
                    raise Unsupported('symbolic character')
                if n is None and c.leaf.const() == 0:
                    break
                out.append(c)
            return out
        if kind == 'manip':
            f = args[1]
            f = f[1] if isinstance(f, list) and f[0] == 'fn' else '?'
            if f.startswith('_ZSt4endlI'):
                toks = [lc(10)]
            elif f.startswith('_ZSt5flushI'):
                toks = []
            else:
                raise Unsupported('manipulator ' + f)
        elif kind == 'endl':
            toks = [lc(10)]
        elif kind == 'flush':
            toks = []
        elif kind == 'text':
            toks = text(A(1))
        elif kind == 'textn':
            n = A(2)
            if n.sign is not None or n.leaf.const() is None:
                raise Unsupported('text of symbolic length')
            toks = text(A(1), int(n.leaf.const()))
        elif kind == 'char':
            toks = [A(1)]
        else:
            toks = [apply(lambda x: leaf(rfun('shown_' + kind, [x])) if isinstance(x, Rat) else LUNDEF, [A(1)])]
        n = self.load_cell(st.mem, r, TRACE, 8, 'i64') if TRACE in (st.mem.get(r) or {}) else lc(0)
        if n.sign is not None or n.leaf.const() is None:
            raise Unsupported('output of symbolic length')
        n = int(n.leaf.const())
        for t in toks:
            n += 1
            self.store_cell(st.mem, r, TRACE + 8 * n, 8, t)
            self.storelog[(r.id, TRACE + 8 * n)] = loc
        if not toks:
            return os
        self.store_cell(st.mem, r, TRACE, 8, lc(n))
        self.storelog[(r.id, TRACE)] = loc
        return os

    def failing(self, what):
        self.nfail[what] += 1
        return self.fail == (what, self.nfail[what])

    def throw(self, st, tn, loc):
        if self.unwind:
            self.thrown = (tn, loc)
            self.exc = [State(st.g, {}, st.mem)]
        else:
            self.throws.append((tn, st.g, loc))
        return 'dead'

    def element(self, st, what, p, loc):
        """typestate of elements of class type: raw -> constructed -> raw"""
        if what == 'vf_ctor' and self.failing('c'):
            return self.throw(st, 'construction of an element', loc)
        for g, x in self.leaves(p, st.g):
            if not isinstance(x, Ptr):
                self.events.append(Event('element', 'an undefined pointer', g, loc))
                continue
            if not self.check(x.r, x.off, 8, g, {'vf_ctor': 'construction', 'vf_dtor': 'destruction', 'vf_use': 'use'}[what], loc):
                continue
            if not hasattr(x.r, 'live'):
                x.r.live = {}
            l = x.r.live.get(x.off, FALSE)
            if what == 'vf_ctor':
                bad, t = dand(g, l), 'is constructed twice'
                x.r.live[x.off] = dor(l, g)
            elif what == 'vf_dtor':
                bad, t = dand(g, dnot(l)), 'is destroyed without having been constructed'
                x.r.live[x.off] = dand(l, dnot(g))
            else:
                bad, t = dand(g, dnot(l)) if x.r.kind != 'arg' else FALSE, 'is used before it is constructed'
            if bad is not FALSE:
                self.events.append(Event('element', 'the element at offset %d of %s %s' % (x.off, x.r.name, t), bad, loc))

    def leaks(self):
        for r, g, loc in self.blocks_:
            gg = dand(g, dnot(r.freed))
            if gg is not FALSE:
                self.events.append(Event('leak', '%s (%s bytes) is never released' % (r.name, r.size), gg, loc))

    def gwrite(self, r, loc):
        # the one-time initialisation of a function-local static is not shared state
        if not any(g == '_ZGV' + r.name[2:] for g in self.guards):
            self.globals_written.append((r.name, loc))

    def cells_in(self, st, r, off, n):
        return {o: x for o, x in (st.mem.get(r) or {}).items() if o >= off and o < off + n}

    def check_watches(self, st, loc):
        for r, off, n, old in self.watches:
            new = self.cells_in(st, r, off, n)
            for o in sorted(set(old) | set(new)):
                a, b = old.get(o), new.get(o)
                if a is not None and b is not None and a[0] == b[0]:
                    if a[1] is b[1]:
                        continue
                    try:
                        if not alg.differences(b[1], a[1], st.g):
                            continue
                    except (AttributeError, TypeError):
                        if repr(a[1]) == repr(b[1]):
                            continue
                elif a is None and b is not None and r.kind == 'arg':
                    i = self.load_cell({}, r, o, b[0], 'f64')
                    if i is b[1]:
                        continue
                self.twrites.append((r, o - off, st.g, loc))
                break

    def memcpy(self, st, d, s, n, loc):
        if n.sign is not None or n.leaf.const() is None:
            raise Unsupported('memcpy of symbolic length')
        n = int(n.leaf.const())
        if n == 0:
            return
        if d.sign is not None or s.sign is not None:
            raise Unsupported('memcpy through several pointers')
        d, s = d.leaf, s.leaf
        if not self.check(s.r, s.off, n, st.g, 'read', loc) or not self.check(d.r, d.off, n, st.g, 'write', loc):
            return
        if d.r.kind == 'global':
            self.gwrite(d.r, loc)
        src = st.mem.get(s.r)
        if src is None and s.r.kind == 'global' and s.r.init is not None:
            src = self.gcells(s.r)
        out = []
        src = src or {}
        cov = 0
        for o, (sz, v) in sorted(src.items()):
            if o >= s.off and o + sz <= s.off + n:
                out.append((o - s.off, sz, v))
                cov += sz
            elif o < s.off + n and s.off < o + sz:
                if v is lc(0):
                    a, e = max(o, s.off), min(o + sz, s.off + n)
                    out.append((a - s.off, e - a, v))
                    cov += e - a
                else:
                    raise Unsupported('memcpy splits a cell')
        if cov < n and s.r.kind == 'arg':
            # unread input cells: materialise with the element size of the region
            es = getattr(s.r, 'esize', 8)
            have = {}
            for o, sz, v in out:
                for k in range(o, o + sz):
                    have[k] = 1
            for o in range(0, n, es):
                if o not in have:
                    out.append((o, es, self.load_cell({}, s.r, s.off + o, es, 'f64')))
        # clear destination
        cells = dict(st.mem.get(d.r, ()))
        for o in [o for o, (sz, _) in cells.items() if o < d.off + n and d.off < o + sz]:
            sz, v = cells.pop(o)
            if v is lc(0):
                if o < d.off:
                    cells[o] = (d.off - o, v)
                if o + sz > d.off + n:
                    cells[d.off + n] = (o + sz - d.off - n, v)
            elif not (d.off <= o and o + sz <= d.off + n):
                raise Unsupported('memcpy overwrites part of a cell')
        for o, sz, v in out:
            cells[d.off + o] = (sz, v)
            self.storelog[(d.r.id, d.off + o)] = loc
        st.mem[d.r] = cells

    def memset(self, st, d, v, n, loc):
        if n.sign is not None or n.leaf.const() is None or d.sign is not None:
            raise Unsupported('memset')
        n = int(n.leaf.const())
        if n == 0:
            return
        if not (v.sign is None and isinstance(v.leaf, Rat) and v.leaf.const() == 0):
            raise Unsupported('memset to a nonzero value')
        d = d.leaf
        if not self.check(d.r, d.off, n, st.g, 'write', loc):
            return
        if d.r.kind == 'global':
            self.gwrite(d.r, loc)
        for o in range(d.off, d.off + n):
            self.storelog[(d.r.id, o)] = loc
        self.store_cell(st.mem, d.r, d.off, n, lc(0))

def plain(v):
    """an input element or a constant"""
    if not isinstance(v, DD) or v.sign is not None or not isinstance(v.leaf, Rat):
        return False
    r = v.leaf
    if r.d:
        return False
    if len(r.n.t) == 0:
        return True
    if len(r.n.t) > 1:
        return False
    (m, c), = r.n.t.items()
    return not m or (c == 1 and len(m) == 1 and m[0][1] == 1 and alg.ATOMS[m[0][0]].kind == 'var')

class Pack:
    """two 4-byte cells moved by one 8-byte access"""
    __slots__ = ('lo', 'hi')
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
    def __hash__(self):
        return hash((self.lo, self.hi))
    def __eq__(self, o):
        return isinstance(o, Pack) and self.lo == o.lo and self.hi == o.hi
    def __repr__(self):
        return 'pack(%r,%r)' % (self.lo, self.hi)

def _s32(c):
    c %= 1 << 32
    return c - (1 << 32) if c >> 31 else c

def wide_const(v):
    x = v.leaf if v.kids is None or not v.kids else None
    if isinstance(x, Rat):
        c = x.const()
        return c is not None and int(c) == c and abs(int(c)) >= 1 << 32
    return False

def leaf_pack(a, b):
    def f(x, y):
        if isinstance(x, Rat) and isinstance(y, Rat):
            cx, cy = x.const(), y.const()
            if cx is not None and cy is not None and int(cx) == cx and int(cy) == cy and abs(cx) < 2 ** 31 and abs(cy) < 2 ** 31:
                r = (int(cx) % (1 << 32)) | (int(cy) % (1 << 32)) << 32
                return lc(r - (1 << 64) if r >> 63 else r)
            return leaf(Pack(x, y))
        if isinstance(x, Undef) and isinstance(y, Undef):
            return LUNDEF
        if isinstance(x, (Rat, Undef)) and isinstance(y, (Rat, Undef)):
            return leaf(Pack(x, y))
        raise Unsupported('packed load')
    return apply(f, [a, b])

def half(x, k):
    if isinstance(x, Pack):
        return leaf(x.hi if k else x.lo)
    if isinstance(x, Undef):
        return LUNDEF
    if isinstance(x, Rat) and x.const() is not None and int(x.const()) == x.const():
        return lc(_s32(int(x.const()) >> (32 if k else 0)))
    raise Unsupported('half of an 8-byte value')

def split_zero(c, other):
    """cut zero-filled cells of c where the cells of other begin or end"""
    out = None
    z = lc(0)
    for k, (sz, v) in c.items():
        if v is not z or sz <= 1:
            continue
        if k in other and other[k][0] == sz:
            continue
        cuts = set()
        for k2, (s2, _v) in other.items():
            if k2 < k + sz and k2 + s2 > k:
                cuts.add(k2)
                cuts.add(k2 + s2)
        cuts = sorted(x for x in cuts if k < x < k + sz)
        if not cuts:
            continue
        if out is None:
            out = dict(c)
        cuts = [k] + cuts + [k + sz]
        for a, b in zip(cuts, cuts[1:]):
            out[a] = (b - a, v)
    return c if out is None else out

def has_pack(v):
    if not isinstance(v, DD):
        return False
    seen = set()
    st = [v]
    while st:
        d = st.pop()
        if d.id in seen:
            continue
        seen.add(d.id)
        if d.sign is None:
            if isinstance(d.leaf, Pack):
                return True
        else:
            st += d.kids
    return False

# output to streams: what each function of the standard library writes
OSTREAM = {'_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc': 'text',
           '_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l': 'textn',
           '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c': 'char', '_ZNSo3putEc': 'char', '_ZNSo5writeEPKcl': 'textn',
           '_ZNSo5flushEv': 'flush', '_ZNSolsEPFRSoS_E': 'manip',
           '_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_': 'endl',
           '_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_': 'flush'}
OSTREAM.update({'_ZNSols' + 'E' + t: 'd' if t in 'fde' else 'i' for t in 'fdeijlmxyst'})
TRACE = 1 << 20
# random engines and distributions of the standard library
ENGINE = re.compile(r'_ZNSt\d+(?:linear_congruential|mersenne_twister|subtract_with_carry)_engineI[A-Za-z0-9]*?E+(?:C[12]E|4seedE)[mj]$')
DISTRIBUTION = re.compile(r'_ZNSt\d+(uniform_real|uniform_int|normal)_distributionI([dfijlm])EclI.*E[dfijlm]RT_(?:RKNS0_10param_typeE)?$')

FREES = {'_Znwm': ('_ZdlPv', '_ZdlPvm'), '_Znam': ('_ZdaPv', '_ZdaPvm'), 'malloc': ('free',), 'vf_alloc': ('vf_free',)}
FREE_FN = {f for x in FREES.values() for f in x}
BIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem',
       'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CASTS = {'trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext',
         'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}

def succs(insts):
    i = insts[-1]
    if i[1] == 'br':
        return [i[4]] if len(i) == 5 else [i[5], i[6]]
    if i[1] == 'switch':
        return [i[5]] + [c[1] for c in i[6]]
    if i[1] == 'invoke':
        return [i[7], i[8]]
    return []

def build_cfg(f):
    blk = {b[0]: b[1] for b in f['blocks']}
    suc = {b: succs(i) for b, i in blk.items()}
    entry = f['blocks'][0][0]
    def tree(blocks, entry, header):
        """SCC decomposition in topological order; edges to header cut"""
        index = {}
        low = {}
        st = []
        on = set()
        comps = []
        cnt = [0]
        def go(root):
            work = [(root, iter([s for s in suc[root] if s in blocks and s != header]))]
            index[root] = low[root] = cnt[0]
            cnt[0] += 1
            st.append(root)
            on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter([s for s in suc[w] if s in blocks and s != header])))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    comps.append(c)
        go(entry)
        items = []
        for c in reversed(comps):
            if len(c) == 1 and c[0] not in [s for s in suc[c[0]] if s != header]:
                items.append(c[0])
            else:
                cs = set(c)
                heads = {b for b in cs if any(b in suc[p] for p in blocks if p not in cs)}
                if entry in cs:
                    heads.add(entry)
                if len(heads) != 1:
                    raise Unsupported('irreducible loop')
                (h,) = heads
                t = tree(cs, h, h)
                items.append(t)
        return {'blocks': blocks, 'items': items, 'header': header}
    t = tree(set(blk), entry, None)
    return {'blk': blk, 'suc': suc, 'tree': t}
