"""Hashing: a function of the elements only, of every one of them."""
import cutoff
from harness import Gen
from ops import *

PRE = '#include <cml/util/vector_hash.h>\n'

def check(rep, tier):
    g = Gen(PRE)
    for t, E, h in (('double', 'double', 'd'), ('float', 'float', 'f'), ('int', 'int', 'i')):
        for n in (1, 2, 3, 4, 5, 6) + ((7,) if tier == "thorough" else ()) + tuple(n for n in cutoff.above(15) if n > 7):
            cs = 'h%s%d' % (h, n)
            g.case(cs, (n,), (), 'vec<KF,%s,%d> x(a); return std::hash<typename vec<KF,%s,%d>::type>()(x.v);' % (E, n, E, n), ty=t, rett='std::size_t')
            for k in ('KF', 'KD', 'KE', 'KX'):
                ty = 'typename vec<%s,%s,%d>::type' % (k, E, n)
                b = 'vec<%s,%s,%d> x(a); ' % (k, E, n)
                m = 'HASH%s%d' % (h, n)
                g.t(cs, m + k, b + 'return std::hash<%s>()(x.v);' % ty)
                g.t(cs, m + k + 'c', b + 'const auto& y=x.v; std::hash<%s> s; return s(y);' % ty)
                if k in ('KF', 'KD'):
                    g.t(cs, m + k + 'y', b + 'auto y=x.v; return std::hash<%s>()(y);' % ty)
                    g.t(cs, m + k + 't', b + 'return std::hash<%s>()(std::move(x.v));' % ty)
    rep.values(g)
