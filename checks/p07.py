"""Row-basis and column-basis matrices are transposes of one another: for
every builder, accessor and transform that the other checks instantiate for
both bases, the column-basis instantiation is the reference and the row-basis
ones are the targets (results are read in row-basis form).  Concatenation and
application are stated directly."""
import importlib
from harness import Gen
from ops import *

SOURCES = ['p14', 'p15', 'p16', 'p17', 'p18', 'p19', 'p20', 'p21', 'p37']

class Capture:
    def __init__(self):
        self.gens = []
    def values(self, g, *a, **k):
        self.gens.append(g)
    def __getattr__(self, n):
        return lambda *a, **k: None

def only(body, b):
    return b in body and (RC[1] if b == RC[0] else RC[0]) not in body

def relate(rep, tier):
    full = tier == 'thorough'
    for s in SOURCES:
        cap = Capture()
        importlib.import_module(s).check(cap, tier)
        for g in cap.gens:
            h = Gen(g.prelude, g.per_file)
            k = 0
            for c, (ins, outs, _ref, vs, ty, rett) in g.cases.items():
                cb = sorted((x for x in vs if only(vs[x], 'col_basis')), key=lambda x: ('KF' not in vs[x], len(vs[x]), x))
                rb = [x for x in vs if only(vs[x], 'row_basis')]
                if not cb or not rb:
                    continue
                h.case(s + c, ins, outs, vs[cb[0]], ty, rett, **g.opts[c])
                k += 1
                m = 12 if full else 3
                st = max(1, len(rb) // m)
                for x in rb[k % st::st][:m]:
                    h.t(s + c, x, vs[x])
            if h.cases:
                rep.values(h, 'p07' + s)

def concat(rep, tier):
    """row form: first A then B is A*B"""
    g = Gen()
    full = tier == 'thorough'
    k = 0
    for n in (2, 3, 4):
        nn = n * n
        g.case('cat%d' % n, (nn, nn), (nn,), 'for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) { double s=0; for(int k=0;k<%d;++k) s+=a[i*%d+k]*b[k*%d+j]; o[i*%d+j]=s; }' % (n, n, n, n, n, n))
        g.case('app%d' % n, (nn, nn, n), (n,), 'double t[%d]; for(int j=0;j<%d;++j) { t[j]=0; for(int k=0;k<%d;++k) t[j]+=c[k]*a[k*%d+j]; } for(int j=0;j<%d;++j) { o[j]=0; for(int k=0;k<%d;++k) o[j]+=t[k]*b[k*%d+j]; }' % (n, n, n, n, n, n, n))
        for Bs in RC:
            def rowform(nm):
                return 'double %s0[%d]; for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) %s0[%s]=%s[i*%d+j]; ' % (nm, nn, n, n, nm, 'i*%d+j' % n if Bs == 'row_basis' else 'j*%d+i' % n, nm, n)
            for K1 in KINDS:
                for K2 in KINDS:
                    for f1, f2 in [(x, y) for x in VFORMS for y in VFORMS]:
                        k += 1
                        if k % (2 if full else 5):
                            continue
                        L1, L2 = LAYOUTS[k // 2 % 2], LAYOUTS[k // 5 % 2]
                        x, y = M(K1, f1, 'x', 'a0', n, n, Bs, L1), M(K2, f2, 'y', 'b0', n, n, Bs, L2)
                        d = rowform('a') + rowform('b') + x.decl + ' ' + y.decl + ' '
                        g.t('cat%d' % n, x.tag + y.tag, d + 'auto z=matrix_concat(%s,%s); emitb<%d,%d>(o,z);' % (x.expr, y.expr, n, n))
                        v = V(K1, f2, 'v', 'c', n)
                        g.t('app%d' % n, x.tag + y.tag, d + v.decl + ' auto z=matrix_concat(%s,%s); vector<double,compiled<%d>> w=%s; for(int i=0;i<%d;++i) o[i]=w[i];' % (
                            x.expr, y.expr, n, '%s*z' % v.expr if Bs == 'row_basis' else 'z*%s' % v.expr, n))
    rep.values(g, 'p07cat')

def check(rep, tier):
    concat(rep, tier)
    relate(rep, tier)
