"""Decides pairs: target functions t_<case>__<variant> (library code) against
reference functions r_<case> (the property, written in plain C++), by value
flow.  Run with a harness file; prints a JSON result."""
import itertools
import json
import os
import random
import re
import signal
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import alg
import build
import hashing
import vflow
from alg import leaf, lc, rvar, TRUE, FALSE
from vflow import Analysis, Module, Region, Ptr, State, Unsupported, Agg

START = time.time()
TARGET_S = 60     # time limit of one target
FALLBACK = [2]    # failed attempts to show an allocation unreachable
DEADLINE = 500    # after so many seconds a target gets 3 s

ESIZE = {'f64': 8, 'f32': 4, 'i32': 4}

def analyse(mod, name, draworder={}):
    f = mod.fn[name]
    a = Analysis(mod)
    a.draworder = draworder
    heap = 'HEAP' in name
    a.noalloc = 'NOALLOC' in name
    a.opaque = a.noalloc or 'FROZEN' in name
    if heap:
        a.unwind = True
        m = re.search(r'HEAP([ac])(\d+)', name)
        if m:
            a.fail = (m.group(1), int(m.group(2)))
    args = []
    regions = []
    for k, (i, t, deref) in enumerate(f['args']):
        if t == 'p':
            r = Region('a%d' % k, 'arg', deref or None)
            regions.append(r)
            args.append(leaf(Ptr(r, 0)))
        else:
            args.append(leaf(rvar('x%d' % k)))
            regions.append(None)
    for g in mod.gregions.values():
        pass
    mod.gregions.clear()
    mem = {}
    st, rv = a.run(name, args, State(TRUE, {}, mem))
    if heap:
        for x in a.exc:
            a.throws.append((a.thrown[0], x.g, a.thrown[1]))
        a.leaks()
    out = {}
    if st is not None:
        for k, r in enumerate(regions):
            if r is None:
                continue
            for off, (sz, v) in (st.mem.get(r) or {}).items():
                if not isinstance(v, Agg):
                    init = a.load_cell({}, r, off, sz, 'f64') if not a._isptr(v) else None
                    if init is v:
                        continue
                if v is lc(0) and sz > 8:
                    # zero fill: split
                    for o in range(off, off + sz, 8):
                        out[(k, o, 8)] = v
                    continue
                out[(k, off, sz)] = v
        if rv is not None:
            if isinstance(rv, Agg):
                for j, x in enumerate(rv):
                    out[('ret', j, 0)] = x
            else:
                out[('ret', 0, 0)] = rv
    a.ret_guard = st.g if st is not None else FALSE
    thr = {}
    for tn, g, loc in a.throws:
        o = thr.get(tn)
        thr[tn] = (alg.dor(o[0], g) if o else g, loc)
    a.thr = thr
    a.regions = regions
    return a, out

def chain(mod, loc, n=4):
    c = mod.loc(loc)
    c = [x for x in c if '/cml/' in x] or c
    return c[:n]

ALLOCS = ('_Znw', '_Zna', 'malloc', 'calloc', 'realloc', 'aligned_alloc', 'posix_memalign', 'memalign', 'valloc', 'strdup')

class TimeOut(Exception):
    pass

def alarm(signum, frame):
    raise TimeOut('time limit')

def limited(seconds, f, *args):
    """f(*args), or TimeOut after so many seconds"""
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f(*args)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)

def allocations(mod, name):
    """call sites of the allocator on a path of the call graph from `name` on
    which every function can still return: (paths, functions, calls seen)"""
    sites, seen, todo, ncalls = [], {name: None}, [name], 0
    while todo:
        fn = todo.pop()
        f = mod.fn[fn]
        pred, live, last = {}, set(), []
        for b, ins in f['blocks']:
            t = ins[-1]
            for x in vflow.succs(ins):
                pred.setdefault(x, []).append(b)
            if t[1] == 'ret':
                last.append(b)
        while last:
            b = last.pop()
            if b not in live:
                live.add(b)
                last += pred.get(b, [])
        for b, ins in f['blocks']:
            if b not in live:
                continue
            for i in ins:
                if i[1] not in ('call', 'invoke'):
                    continue
                ncalls += 1
                c = i[4]
                c = c[1] if isinstance(c, list) and c[0] == 'fn' else '(indirect)'
                if c.startswith(ALLOCS) or c == '(indirect)':
                    path, q = [], fn
                    while q is not None:
                        path.append(q)
                        q = seen[q]
                    sites.append((c, i[3], path))
                    continue
                g = mod.fn.get(c)
                if g is not None and not g['decl'] and c not in seen:
                    seen[c] = fn
                    todo.append(c)
    return sites, len(seen), ncalls

def noalloc(mod, tname, rname):
    """no allocation is reachable, or, if one is, the flow analysis shows its
    path is not taken"""
    t0 = time.time()
    sites, nf, nc = allocations(mod, tname)
    findings = []
    if sites and FALLBACK[0] > 0:
        FALLBACK[0] -= 1
        try:
            x = limited(15, compare, mod, tname, rname, {}, random.Random(1))
            if not x['findings']:
                sites = []
                FALLBACK[0] += 1
        except (TimeOut, Unsupported, alg.TooBig, alg.DDTooBig, alg.DivByZero, RecursionError):
            pass
    for c, loc, path in sites[:3]:
        findings.append({'kind': 'heap', 'what': 'heap memory is allocated (%s)' % c, 'when': 'called through ' + ' <- '.join(path)[:900], 'where': chain(mod, loc)})
    return {'target': tname, 'reference': rname, 'obligations': nc, 'findings': findings, 'undecided': [], 'steps': nc, 'cells': 0, 's': round(time.time() - t0, 3)}

GRID = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0]

def refute(x, y, guard, rnd, tries=900):
    """look for an assignment of the inputs on which the two terms differ"""
    vs = sorted(alg.base_vars(x) | alg.base_vars(y) | alg.base_vars(guard))
    for k in range(tries):
        env = {}
        mode = k % 6
        if k >= 600:
            mode = 4 + k % 2
        if mode >= 4:
            # everything equal (or equal at equal indices) except at one or two places
            val = {}
            for v in vs:
                key = alg.show_atom(v).split('[')[-1] if mode == 5 else ''
                env[v] = val.setdefault(key, float(rnd.randint(-3, 3)) if mode == 5 else rnd.choice((0., 1., 2.)))
            for v in rnd.sample(vs, min(len(vs), rnd.choice((0, 1, 1, 2)))):
                env[v] += rnd.choice((-1., 1.))
        for v in vs if mode < 4 else ():
            if mode == 0:
                env[v] = rnd.uniform(-2, 2)
            elif mode == 1:
                env[v] = rnd.choice(GRID)
            elif mode == 2:
                env[v] = rnd.uniform(0.1, 1.5)
            else:
                env[v] = float(rnd.randint(-5, 5))
        try:
            e = dict(env)
            if alg.dd_eval(guard, e) is not True:
                continue
            a = alg.dd_eval(x, dict(env))
            b = alg.dd_eval(y, dict(env))
        except (OverflowError, ZeroDivisionError, ValueError, KeyError):
            continue
        if isinstance(a, float) and isinstance(b, float):
            if a != a or b != b:
                continue
            if abs(a - b) > 1e-7 * (1 + abs(a) + abs(b)):
                return {alg.show_atom(v): env[v] for v in vs}, a, b
        elif a is not b and a != b and not (isinstance(a, float) and a != a) and not (isinstance(b, float) and b != b):
            return {alg.show_atom(v): env[v] for v in vs}, str(a), str(b)
    return None

def cellname(k):
    if k[0] == 'ret':
        return 'the returned value' + ('[%d]' % k[1] if k[1] else '')
    return 'argument %d element %s' % (k[0], k[1] // k[2] if k[2] and k[1] % k[2] == 0 else '@%d' % k[1])

def draws_of(v):
    return sorted(int(n[4:].split('_')[0]) for n in map(alg.show_atom, alg.base_vars(v)) if n.startswith('draw'))

def draw_order(tout, rout):
    """renumbering of the target's draws under which each output uses the draw
    that the reference uses there"""
    perm = {}
    for k in rout:
        if k in tout and isinstance(tout[k], alg.DD):
            x, y = draws_of(tout[k]), draws_of(rout[k])
            if len(x) == 1 and len(y) == 1:
                if perm.setdefault(x[0], y[0]) != y[0]:
                    return None
    if len(set(perm.values())) != len(perm) or all(x == y for x, y in perm.items()):
        return None
    n = 1000
    for x in range(1000):
        if x not in perm and x in perm.values():
            perm[x] = n
            n += 1
    return perm

def compare(mod, tname, rname, rcache, rnd):
    """list of findings and obligation counts"""
    t0 = time.time()
    if rname not in rcache:
        rcache[rname] = analyse(mod, rname)
    ra, rout = rcache[rname]
    ta, tout = analyse(mod, tname)
    if 'RND' in tname:
        # which number goes where does not matter, as long as each is used once
        perm = draw_order(tout, rout)
        if perm:
            ta, tout = analyse(mod, tname, perm)
    findings = []
    undecided = []
    nobl = 0
    cml = set()
    alg.CTOL = alg.Fraction(1, 10**7) if 'F32' in tname else 0
    guard = ra.ret_guard
    # effect targets: only the calls that return count
    effect = 'NOALLOC' in tname or 'FROZEN' in tname
    if effect:
        guard = ta.ret_guard
    def where(v, key):
        c = []
        if isinstance(v, alg.DD) and v.id in ta.prov:
            c = chain(mod, ta.prov[v.id])
        if not c and key is not None and key[0] != 'ret':
            r = ta.regions[key[0]]
            l = ta.storelog.get((r.id, key[1]))
            if l is not None:
                c = chain(mod, l)
        return c
    # events: memory safety of the target
    for e in ta.events:
        if e.guard is FALSE:
            continue
        # an event counts unless the reference says the call throws there
        if effect and e.kind not in ('heap', 'operand'):
            continue
        g = e.guard if 'EVT' in tname or 'HEAP' in tname or e.kind == 'operand' else alg.dand(e.guard, guard)
        if g is FALSE:
            continue
        d = alg.differences(g, FALSE)
        nobl += 1
        if d:
            findings.append({'kind': e.kind, 'what': e.detail, 'when': alg.show_path(d[0][0]), 'where': chain(mod, e.loc)})
    # throws
    for tn in sorted(set(ra.thr) | set(ta.thr)) if not effect else ():
        nobl += 1
        g1 = ta.thr.get(tn, (FALSE, None))
        g2 = ra.thr.get(tn, (FALSE, None))
        d = alg.differences(g1[0], g2[0])
        if d:
            p, x, y = d[0]
            findings.append({'kind': 'throw', 'what': '%s is %s although the property says it is %s' % (
                tn, 'thrown' if x is True else 'not thrown', 'not' if x is True else 'thrown'),
                'when': alg.show_path(p), 'where': chain(mod, g1[1]) if g1[1] is not None else []})
    nobl += len(ta.watches) + len(ta.frozen)
    for r, off, g, loc in ta.twrites[:3]:
        findings.append({'kind': 'write-before-throw', 'what': 'an exception is thrown after the object at %r was modified' % r,
                         'when': alg.show_dd(g)[:300], 'where': chain(mod, loc)})
    if 'F32' not in tname:
        nobl += 1
        if ta.rounded:
            findings.append({'kind': 'precision', 'what': 'a computed double is rounded to float', 'where': chain(mod, ta.rounded[0])})
    nobl += 1
    if ta.globals_written:
        findings.append({'kind': 'static', 'what': 'static object %s is written' % ta.globals_written[0][0], 'where': chain(mod, ta.globals_written[0][1])})
    keys = sorted(set(rout) | set(tout), key=str)
    for k in keys:
        nobl += 1
        if k not in tout:
            findings.append({'kind': 'missing', 'what': '%s is never written' % cellname(k), 'expected': alg.show_dd(rout[k]), 'where': []})
            continue
        if k not in rout:
            findings.append({'kind': 'extra', 'what': '%s is modified' % cellname(k), 'got': alg.show_dd(tout[k]), 'where': where(tout[k], k)})
            continue
        x, y = tout[k], rout[k]
        if isinstance(x, Agg) or isinstance(y, Agg):
            raise Unsupported('aggregate output')
        try:
            d = alg.differences(x, y, guard, limit=40)
        except alg.Budget:
            undecided.append(cellname(k))
            continue
        if not d:
            continue
        w = None
        if any(isinstance(v, alg.Undef) for _p, v, _y in d):
            w = ({}, 'uninitialised', alg.show(d[0][2]))
        elif not all(isinstance(v, alg.Rat) and isinstance(u, alg.Rat) for _p, v, u in d):
            w = ({}, str(d[0][1]), str(d[0][2]))
        else:
            w = refute(x, y, guard, rnd)
        if w is None:
            undecided.append(cellname(k) + ': ' + alg.show(d[0][1])[:200] + ' vs ' + alg.show(d[0][2])[:200] + ' when ' + alg.show_path(d[0][0])[:200])
            continue
        p, v, u = d[0]
        findings.append({'kind': 'value', 'what': cellname(k), 'got': alg.show(v)[:600], 'expected': alg.show(u)[:600],
                         'when': alg.show_path(p)[:600], 'where': where(x, k),
                         'example': {'inputs': w[0], 'got': w[1], 'expected': w[2]}})
    if 'HASH' in tname:
        o, f, u = hashing.obligations(tout, int(re.search(r'HASH[a-z](\d+)', tname).group(1)), re.search(r'HASH([a-z])', tname).group(1) != 'i')
        nobl += o
        findings += f
        undecided += u
    for fn in ta.funcs:
        cml.add(fn)
    return {'target': tname, 'reference': rname, 'obligations': nobl, 'findings': findings,
            'undecided': undecided, 'steps': ta.steps, 'cells': len(keys), 's': round(time.time() - t0, 3)}

def run_file(src, only=None, extra=(), verbose=False, usepch=None, opt=None):
    t0 = time.time()
    bc = build.compile_ir(src, extra, opt, usepch=usepch)
    data = build.dump(bc, ['t_', 'r_'])
    mod = Module(data)
    t1 = time.time()
    names = [f['name'] for f in data['functions'] if not f['decl']]
    targets = [n for n in names if n.startswith('t_')]
    refs = {n for n in names if n.startswith('r_')}
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))
    rcache = {}
    res = []
    errors = []
    # /repo functions whose code the targets contain (through inlining)
    order = {}
    for t in targets:
        order.setdefault(t[2:].split('__')[0], len(order))
    targets.sort(key=lambda t: order[t[2:].split('__')[0]])
    prev = None
    for t in targets:
        if only and (t not in only if isinstance(only, set) else not any(o in t for o in only)):
            continue
        base = t[2:].split('__')[0]
        if base != prev:
            # each case on its own: nothing depends on the cases before it
            prev = base
            alg.reset()
            mod = Module(data)
            rcache = {}
        r = 'r_' + base
        if r not in refs:
            errors.append({'target': t, 'error': 'no reference ' + r})
            continue
        try:
            left = DEADLINE - (time.time() - START)
            lim = TARGET_S if left > 0 else 3
            x = limited(lim, noalloc, mod, t, r) if 'NOALLOC' in t else limited(lim, compare, mod, t, r, rcache, rnd)
            res.append(x)
            if verbose:
                print('%-50s obl=%d find=%d und=%d steps=%d %.2fs' % (t, x['obligations'], len(x['findings']), len(x['undecided']), x['steps'], x['s']), file=sys.stderr)
                for f in x['findings'][:3]:
                    print('     ', json.dumps(f)[:1500], file=sys.stderr)
                for f in x['undecided'][:2]:
                    print('      undecided', f[:700], file=sys.stderr)
        except (Unsupported, TimeOut, alg.TooBig, alg.DDTooBig, alg.DivByZero, RecursionError) as e:
            errors.append({'target': t, 'error': type(e).__name__ + ': ' + str(e)})
            if verbose:
                print('%-50s ERROR %s %s' % (t, type(e).__name__, e), file=sys.stderr)
        except (AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError) as e:
            errors.append({'target': t, 'error': 'internal: ' + traceback.format_exc()[-300:]})
    used = set()
    for l in data['locs']:
        for x in l:
            if '/cml/' in x:
                fl, ln, fn = x.split(':', 2)
                used.add((os.path.relpath(fl, build.REPO), ln if os.environ.get('CML_FUNCS') else fn))
    return {'file': os.path.basename(src), 'results': res, 'errors': errors, 'compile_s': round(t1 - t0, 2),
            'total_s': round(time.time() - t0, 2), 'repo_functions': sorted('%s:%s' % u for u in used)}

if __name__ == '__main__':
    r = run_file(sys.argv[1], sys.argv[2:] or None, verbose=True)
    print(r['compile_s'], r['total_s'], len(r['results']), len(r['errors']), len(r['repo_functions']))
