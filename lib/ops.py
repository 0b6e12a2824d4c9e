"""Operands of every storage kind and value category, as C++ text."""
KINDS = ['KF', 'KD', 'KE', 'KX']
CKINDS = KINDS + ['KC', 'KY']
VFORMS = ['lv', 'cl', 'rv', 'ex']
RC = ('row_basis', 'col_basis')
LAYOUTS = ('row_major', 'col_major')
ORDERS = ('real_first', 'imaginary_first')
CROSSES = ('positive_cross', 'negative_cross')
SHORT = {'row_basis': 'rb', 'col_basis': 'cb', 'row_major': 'rm', 'col_major': 'cm',
         'real_first': 'rf', 'imaginary_first': 'if', 'positive_cross': 'px', 'negative_cross': 'nx',
         'KF': 'f', 'KD': 'd', 'KE': 'e', 'KX': 'x', 'KC': 'c', 'KY': 'y'}

class O:
    def __init__(self, decl, expr, tag):
        self.decl, self.expr, self.tag = decl, expr, tag

def V(kind, form, nm, arr, n, E='double'):
    tag = SHORT[kind] + form
    d = 'vec<%s,%s,%d> %s(%s);' % (kind, E, n, nm, arr)
    v = nm + '.v'
    if form == 'lv':
        return O(d, v, tag)
    if form == 'cl':
        return O(d, 'std::as_const(%s)' % v, tag)
    if form == 'rv':
        return O(d, 'std::move(%s)' % v, tag)
    if form == 'ex':
        return O(d, ('(%s*1.)' if E == 'double' else '(%s*1)' if E == 'int' else '(%s*1.f)') % v, tag)
    if form == 'row':
        d = ('double %s_d[%d]; for(int k=0;k<%d;++k) { %s_d[k]=7.; %s_d[%d+k]=%s[k]; } mat<%s,%s,2,%d> %s(%s_d);'
             % (nm, 2 * n, n, nm, nm, n, arr, 'KF' if kind in ('KC', 'KY') else kind, E, n, nm, nm))
        return O(d, 'row(%s,1)' % v, tag)
    if form == 'col':
        d = ('double %s_d[%d]; for(int k=0;k<%d;++k) { %s_d[2*k]=7.; %s_d[2*k+1]=%s[k]; } mat<%s,%s,%d,2> %s(%s_d);'
             % (nm, 2 * n, n, nm, nm, arr, 'KF' if kind in ('KC', 'KY') else kind, E, n, nm, nm))
        return O(d, 'col(%s,1)' % v, tag)
    if form == 'sub':
        d = ('double %s_d[%d]; %s_d[0]=%s[0]; %s_d[1]=7.; for(int k=1;k<%d;++k) %s_d[k+1]=%s[k]; vec<%s,%s,%d> %s(%s_d);'
             % (nm, n + 1, nm, arr, nm, n, nm, arr, kind, E, n + 1, nm, nm))
        return O(d, 'subvector(%s,1)' % v, tag)
    if form == 'rsub':
        d = ('double %s_d[%d]; %s_d[%d]=7.; for(int k=0;k<%d;++k) %s_d[k]=%s[k]; vec<%s,%s,%d> %s(%s_d);'
             % (nm, n + 1, nm, n, n, nm, arr, kind, E, n + 1, nm, nm))
        return O(d, 'subvector(std::move(%s),%d)' % (v, n), tag)
    raise KeyError(form)

def M(kind, form, nm, arr, r, c, B='row_basis', L='row_major', E='double'):
    tag = SHORT[kind] + SHORT[B][0] + SHORT[L][0] + form
    d = 'mat<%s,%s,%d,%d,%s,%s> %s(%s);' % (kind, E, r, c, B, L, nm, arr)
    v = nm + '.v'
    if form == 'lv':
        return O(d, v, tag)
    if form == 'cl':
        return O(d, 'std::as_const(%s)' % v, tag)
    if form == 'rv':
        return O(d, 'std::move(%s)' % v, tag)
    if form == 'ex':
        return O(d, ('(%s*1)' if E == 'int' else '(%s*1.)') % v, tag)
    if form in ('tr', 'trr'):
        d = ('double %s_d[%d]; for(int i=0;i<%d;++i) for(int j=0;j<%d;++j) %s_d[j*%d+i]=%s[i*%d+j]; mat<%s,%s,%d,%d,%s,%s> %s(%s_d);'
             % (nm, r * c, r, c, nm, r, arr, c, kind, E, c, r, B, L, nm, nm))
        return O(d, 'transpose(%s)' % (v if form == 'tr' else 'std::move(%s)' % v), tag)
    raise KeyError(form)

def Q(form, nm, arr, o, x, E='double'):
    tag = SHORT[o] + SHORT[x] + form
    d = 'quat<%s,%s,%s> %s(%s);' % (E, o, x, nm, arr)
    v = nm + '.v'
    e = {'lv': v, 'cl': 'std::as_const(%s)' % v, 'rv': 'std::move(%s)' % v, 'ex': ('(%s*1)' if E == 'int' else '(%s*1.)') % v}
    return O(d, e[form], tag)
