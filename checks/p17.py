from harness import Gen
from ops import *
import builders

def get(g, full):
    """reading the translation back, from any matrix, and after setting it"""
    n = 0
    for dim, shapes in ((2, [(3, 2), (3, 3), (4, 4)]), (3, [(4, 3), (4, 4), (5, 5)])):
        sfx = '_2D' if dim == 2 else ''
        outs = ','.join('t%d' % i for i in range(dim))
        for r, c in shapes:
            cs = 'gt%d%d%d' % (dim, r, c)
            g.case(cs, (r * c,), (dim,), 'for(int i=0;i<%d;++i) o[i]=a[%d+i];' % (dim, dim * c))
            cw = 'sg%d%d%d' % (dim, r, c)
            g.case(cw, (r * c, dim), (dim,), 'for(int i=0;i<%d;++i) o[i]=b[i];' % dim)
            for Bs in RC:
                rr, cc = (r, c) if Bs == 'row_basis' else (c, r)
                d = 'double M0[%d]; for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) M0[%s]=a[i*%d+j]; ' % (r * c, r, c, 'i*%d+j' % c if Bs == 'row_basis' else 'j*%d+i' % r, c)
                for L in LAYOUTS:
                    for K in KINDS:
                        for f in VFORMS:
                            n += 1
                            if not full and n % 3:
                                continue
                            m = M(K, f, 'm', 'M0', rr, cc, Bs, L)
                            g.t(cs, m.tag + 'o', d + m.decl + ' double %s; matrix_get_translation%s(%s,%s); ' % (outs.replace(',', '=9,') + '=9', sfx, m.expr, outs) + ' '.join('o[%d]=t%d;' % (i, i) for i in range(dim)))
                            g.t(cs, m.tag + 'F32', d + m.decl + ' float %s; matrix_get_translation%s(%s,%s); ' % (outs.replace(',', '=9,') + '=9', sfx, m.expr, outs) + ' '.join('o[%d]=t%d;' % (i, i) for i in range(dim)))
                            g.t(cs, m.tag + 'v', d + m.decl + ' auto t=matrix_get_translation%s(%s); for(int i=0;i<%d;++i) o[i]=t[i];' % (sfx, m.expr, dim))
                            if f == 'lv':
                                v = V(CKINDS[n % 6], VFORMS[n // 2 % 4], 'w', 'b', dim)
                                g.t(cw, m.tag + v.tag, d + m.decl + ' ' + v.decl + ' matrix_set_translation%s(m.v,%s); auto t=matrix_get_translation%s(m.v); for(int i=0;i<%d;++i) o[i]=t[i];' % (sfx, v.expr, sfx, dim))
                                g.t(cw, m.tag + 's', d + m.decl + ' double %s; matrix_set_translation%s(m.v,%s); matrix_get_translation%s(m.v,%s); ' % (
                                    outs.replace(',', '=9,') + '=9', sfx, ','.join('b[%d]' % i for i in range(dim)), sfx, outs) + ' '.join('o[%d]=t%d;' % (i, i) for i in range(dim)))

def check(rep, tier):
    g = Gen()
    builders.generate(g, ('affine',), tier == 'thorough')
    get(g, tier == 'thorough')
    rep.values(g)
