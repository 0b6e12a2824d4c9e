import cutoff
from harness import Gen
from ops import *
from p06 import setup

def check(rep, tier):
    g = Gen()
    full = tier == 'thorough'
    shapes = [(1, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (4, 3), (3, 3), (4, 4), (5, 6), (9, 2)] + ([(5, 5), (2, 5), (6, 3)] if full else []) + cutoff.shapes() + [(n, n) for n in cutoff.above(16) if n > 6]
    shapes = list(dict.fromkeys(shapes))
    allm = [(k, f, B, L) for k in KINDS for f in VFORMS for B in RC for L in LAYOUTS]
    rot = 0
    for (r, c) in shapes:
        g.thin = 1 if r < 5 and c < 9 or full and c != 2 else 7 if r + c < 12 else 23
        n = r * c
        sh = '%d%d' % (r, c)
        trb = 'for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) o[i*%d+j]=a[j*%d+i];' % (c, r, r, c)
        ident = 'for(int k=0;k<%d;++k) o[k]=a[k];' % n
        g.case('tr' + sh, (n,), (n,), trb)
        g.case('trtr' + sh, (n,), (n,), ident)
        for i in range(r):
            g.case('row%s_%d' % (sh, i), (n,), (c,), 'for(int j=0;j<%d;++j) o[j]=a[%d*%d+j];' % (c, i, c))
            g.case('setrow%s_%d' % (sh, i), (n, c), (n,), ident + 'for(int j=0;j<%d;++j) o[%d*%d+j]=b[j];' % (c, i, c))
        for j in range(c):
            g.case('col%s_%d' % (sh, j), (n,), (r,), 'for(int i=0;i<%d;++i) o[i]=a[i*%d+%d];' % (r, c, j))
            g.case('setcol%s_%d' % (sh, j), (n, r), (n,), ident + 'for(int i=0;i<%d;++i) o[i*%d+%d]=b[i];' % (r, c, j))
        for k, (K, f, B, L) in enumerate(allm):
            if not full and (r, c) not in ((2, 3), (3, 2)) and (k + k // 7 + r) % 3:
                continue
            x = M(K, f, 'x', 'a', r, c, B, L)
            g.t('tr' + sh, x.tag, x.decl + 'emitm<%d,%d>(o, transpose(%s));' % (c, r, x.expr))
            g.t('tr' + sh, 'k' + x.tag, x.decl + 'auto e=transpose(%s); emitm<%d,%d>(o, e);' % (x.expr, c, r))
            g.t('trtr' + sh, x.tag, x.decl + 'emitm<%d,%d>(o, transpose(transpose(%s)));' % (r, c, x.expr))
            g.t('trtr' + sh, 'a' + x.tag, x.decl + 'auto t=cml::matrix<double,dynamic<>,%s,%s>(transpose(%s)); emitm<%d,%d>(o, transpose(t));' % (B, LAYOUTS[k % 2], x.expr, r, c))
            for i in range(r):
                if full or (i + k) % 2 == 0 or r <= 3:
                    g.t('row%s_%d' % (sh, i), x.tag, x.decl + 'emitv<%d>(o, row(%s,%d));' % (c, x.expr, i))
                    g.t('row%s_%d' % (sh, i), 't' + x.tag, x.decl + 'emitv<%d>(o, col(transpose(%s),%d));' % (c, x.expr, i))
                    cs = ('row' if B == 'row_basis' else 'col')
                    if cs == 'row':
                        g.t('row%s_%d' % (sh, i), 'b' + x.tag, x.decl + 'emitv<%d>(o, basis(%s,%d));' % (c, x.expr, i))
                        g.t('row%s_%d' % (sh, i), 'e' + x.tag, x.decl + 'const auto& y=%s; if(y.basis_size()!=%d||y.basis_count()!=%d) throw bad_shape{0,0}; for(int k=0;k<%d;++k) o[k]=y.basis_element(%d,k);' % (x.expr, c, r, c, i))
            for j in range(c):
                if full or (j + k) % 2 == 0 or c <= 3:
                    g.t('col%s_%d' % (sh, j), x.tag, x.decl + 'emitv<%d>(o, col(%s,%d));' % (r, x.expr, j))
                    g.t('col%s_%d' % (sh, j), 't' + x.tag, x.decl + 'emitv<%d>(o, row(transpose(%s),%d));' % (r, x.expr, j))
                    if B == 'col_basis':
                        g.t('col%s_%d' % (sh, j), 'b' + x.tag, x.decl + 'emitv<%d>(o, basis(%s,%d));' % (r, x.expr, j))
                        g.t('col%s_%d' % (sh, j), 'e' + x.tag, x.decl + 'const auto& y=%s; if(y.basis_size()!=%d||y.basis_count()!=%d) throw bad_shape{0,0}; for(int k=0;k<%d;++k) o[k]=y.basis_element(%d,k);' % (x.expr, r, c, r, j))
        for K in KINDS:
            for B in RC:
                for L in LAYOUTS:
                    x = M(K, 'lv', 'x', 'a', r, c, B, L)
                    tg = SHORT[K] + SHORT[B][0] + SHORT[L][0]
                    if r == c or K == 'KD':
                        g.t('tr' + sh, 'in' + tg, x.decl + 'x.v.transpose(); emitm<%d,%d>(o, x.v);' % (c, r))
                        g.t('tr' + sh, 'inr' + tg, x.decl + 'emitm<%d,%d>(o, std::move(x.v).transpose());' % (c, r))
                    tt = '%s%s' % (SHORT[B][0], SHORT[L][0])
                    y = setup(K, 'w', c, r, B, L)
                    g.t('tr' + sh, 'as' + tg, x.decl + y + 'w.v=transpose(x.v); emitm<%d,%d>(o, w.v);' % (c, r))
                    for i in range(r):
                        k2 = CKINDS[rot % 6]; rot += 1
                        v = V(k2, VFORMS[rot % 4], 'v', 'b', c)
                        g.t('setrow%s_%d' % (sh, i), tg, x.decl + v.decl + 'x.v.set_row(%d,%s); emitm<%d,%d>(o,x.v);' % (i, v.expr, r, c))
                        g.t('setrow%s_%d' % (sh, i), 'r' + tg, x.decl + v.decl + 'auto&& y=std::move(x.v).set_row(%d,%s); emitm<%d,%d>(o,y);' % (i, v.expr, r, c))
                        if B == 'row_basis':
                            g.t('setrow%s_%d' % (sh, i), 'be' + tg, x.decl + 'for(int k=0;k<%d;++k) x.v.set_basis_element(%d,k,b[k]); emitm<%d,%d>(o,x.v);' % (c, i, r, c))
                            g.t('setrow%s_%d' % (sh, i), 'ber' + tg, x.decl + 'for(int k=0;k<%d;++k) std::move(x.v).set_basis_element(%d,k,b[k]); emitm<%d,%d>(o,x.v);' % (c, i, r, c))
                    for j in range(c):
                        k2 = CKINDS[rot % 6]; rot += 1
                        v = V(k2, VFORMS[rot % 4], 'v', 'b', r)
                        g.t('setcol%s_%d' % (sh, j), tg, x.decl + v.decl + 'x.v.set_col(%d,%s); emitm<%d,%d>(o,x.v);' % (j, v.expr, r, c))
                        g.t('setcol%s_%d' % (sh, j), 'r' + tg, x.decl + v.decl + 'auto&& y=std::move(x.v).set_col(%d,%s); emitm<%d,%d>(o,y);' % (j, v.expr, r, c))
                        if B == 'col_basis':
                            g.t('setcol%s_%d' % (sh, j), 'be' + tg, x.decl + 'for(int k=0;k<%d;++k) x.v.set_basis_element(%d,k,b[k]); emitm<%d,%d>(o,x.v);' % (r, j, r, c))
    # subvectors
    g.thin = 1
    for n in (2, 3, 4, 5, 9) + ((6, 7) if full else ()) + tuple(n for n in cutoff.above() if n not in (5, 6, 7, 9)):
        for i in range(n):
            cs = 'sub%d_%d' % (n, i)
            g.case(cs, (n,), (n - 1,), 'int k=0; for(int i=0;i<%d;++i) if(i!=%d) o[k++]=a[i];' % (n, i))
            for k in CKINDS:
                for f in VFORMS:
                    x = V(k, f, 'x', 'a', n)
                    g.t(cs, x.tag, x.decl + 'emitv<%d>(o, subvector(%s,%d));' % (n - 1, x.expr, i))
                    g.t(cs, 'm' + x.tag, x.decl + 'emitv<%d>(o, %s.subvector(%d));' % (n - 1, x.expr, i))
                    g.t(cs, 'k' + x.tag, x.decl + 'auto e=subvector(%s,%d); emitv<%d>(o, e);' % (x.expr, i, n - 1))
            for j in range(n - 1):
                if n == 4:
                    c2 = 'ss%d_%d%d' % (n, i, j)
                    g.case(c2, (n,), (n - 2,), 'int k=0,l=0; for(int i=0;i<%d;++i) if(i!=%d) { if(k!=%d) o[l++]=a[i]; ++k; }' % (n, i, j))
                    for k in CKINDS:
                        x = V(k, 'lv', 'x', 'a', n)
                        g.t(c2, x.tag, x.decl + 'emitv<%d>(o, subvector(subvector(%s,%d),%d));' % (n - 2, x.expr, i, j))
    # quaternion imaginary / real parts
    g.case('imag', (4,), (3,), 'for(int k=0;k<3;++k) o[k]=a[k+1];')
    g.case('real', (4,), (1,), 'o[0]=a[0];')
    for o in ORDERS:
        for x in CROSSES:
            for f in VFORMS:
                q = Q(f, 'x', 'a', o, x)
                g.t('imag', q.tag, q.decl + 'emitv<3>(o, imaginary(%s));' % q.expr)
                g.t('imag', 'm' + q.tag, q.decl + 'emitv<3>(o, %s.imaginary());' % q.expr)
                g.t('imag', 'k' + q.tag, q.decl + 'auto e=imaginary(%s); emitv<3>(o, e);' % q.expr)
                g.t('imag', 'c' + q.tag, q.decl + 'const auto& y=%s; o[0]=y.x(); o[1]=y.y(); o[2]=y.z();' % q.expr)
                g.t('real', q.tag, q.decl + 'o[0]=%s.real();' % q.expr)
                g.t('real', 'w' + q.tag, q.decl + 'o[0]=%s.w();' % q.expr)
    rep.values(g)
