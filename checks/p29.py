"""Every predefined name denotes the type it spells.  The names are read from
the headers; what each must denote is computed from its letters."""
import os
import re
import build
from types_ import *

EL = {'i': 'int', 'f': 'float', 'd': 'double'}

def spelled(name):
    """the type a predefined name spells, or None"""
    m = re.fullmatch(r'vector([234])?([ifd])', name)
    if m:
        return 'cml::vector<%s,%s>' % (EL[m.group(2)], 'cml::compiled<%s>' % m.group(1) if m.group(1) else 'cml::dynamic<>')
    m = re.fullmatch(r'external([234]|n)(c?)([ifd])', name)
    if m:
        return 'cml::vector<%s%s,cml::external<%s>>' % ('const ' if m.group(2) else '', EL[m.group(3)], m.group(1) if m.group(1) != 'n' else '')
    m = re.fullmatch(r'(matrix|external)([234])([234])([ifd])(_[rc])?', name) or re.fullmatch(r'(matrix|externalmn)()()([ifd])(_[rc])?', name)
    if m:
        ext = m.group(1) != 'matrix'
        if m.group(2):
            st = '%s<%s,%s>' % ('cml::external' if ext else 'cml::compiled', m.group(2), m.group(3))
        else:
            st = 'cml::external<>' if ext else 'cml::dynamic<>'
        # without a suffix: the default basis and memory order (column basis, row major)
        b, l = {'_r': ('row_basis', 'row_major'), '_c': ('col_basis', 'col_major'), None: ('col_basis', 'row_major')}[m.group(5)]
        return 'cml::matrix<%s,%s,cml::%s,cml::%s>' % (EL[m.group(4)], st, b, l)
    m = re.fullmatch(r'quaternion([fd])(?:_([ir]?)([pn]))?', name)
    if m:
        return 'cml::quaternion<%s,cml::compiled<>,cml::%s,cml::%s>' % (
            EL[m.group(1)], 'real_first' if m.group(2) == 'r' else 'imaginary_first', 'negative_cross' if m.group(3) == 'n' else 'positive_cross')
    return None

def required():
    out = []
    for e in 'ifd':
        out += ['vector%s%s' % (n, e) for n in ('2', '3', '4', '')]
        out += ['external%s%s%s' % (n, c, e) for n in '234n' for c in ('', 'c')]
        for suf in ('', '_r', '_c'):
            out += ['matrix%s%s%s' % (s, e, suf) for s in ('22', '33', '44', '')] + ['external%s%s%s' % (s, e, suf) for s in ('22', '33', '44', 'mn')]
            for s in (('32', '43') if suf == '_r' else ('23', '34')):
                out += ['matrix%s%s%s' % (s, e, suf), 'external%s%s%s' % (s, e, suf)]
    for e in 'fd':
        out += ['quaternion%s%s' % (e, s) for s in ('', '_ip', '_p', '_in', '_n', '_rp', '_rn')]
    return out

def check(rep, tier):
    if not rep.sane():
        rep.broken.append('the umbrella headers do not compile')
        return
    declared = set()
    for h in ('vector', 'matrix', 'quaternion'):
        p = os.path.join(build.REPO, 'cml', h, 'types.h')
        if os.path.exists(p):
            t = re.sub(r'//.*|/\*.*?\*/', '', open(p).read())
            declared |= set(re.findall(r'using\s+(\w+)\s*=', t)) | set(re.findall(r'typedef\s[^;]*?(\w+)\s*;', t))
    a = Asserts()
    names = sorted(set(required()) | {d for d in declared if spelled(d)})
    for n in names:
        a.same('alias_' + n, '', 'cml::' + n, spelled(n))
    # what the spelled properties mean on the resulting object
    for n in names:
        s = spelled(n)
        T = 'cml::' + n
        m = re.match(r'cml::(vector|matrix|quaternion)<((?:const )?\w+),cml::(\w+)<([\d,]*)>(?:,cml::(\w+),cml::(\w+))?>', s)
        kind, E, st, dims, p1, p2 = m.groups()
        a.same('elem_' + n, '', 'std::remove_cv_t<typename %s::value_type>' % T, E.replace('const ', ''))
        if kind == 'vector':
            a.same('stor_' + n, '', 'typename cml::vector_traits<%s>::storage_type::size_tag' % T, 'cml::fixed_size_tag' if dims else 'cml::dynamic_size_tag')
            if dims:
                a.a('size_' + n, '', 'cml::array_size_of_c<%s>::value == %s' % (T, dims))
                if st == 'compiled':
                    a.a('bytes_' + n, '', 'sizeof(%s) == %s*sizeof(%s)' % (T, dims, E))
        elif kind == 'matrix':
            a.same('basis_' + n, '', 'cml::basis_tag_trait_of_t<%s>' % T, 'cml::' + p1)
            a.same('layout_' + n, '', 'cml::layout_tag_trait_of_t<%s>' % T, 'cml::' + p2)
            if dims:
                r, c = dims.split(',')
                a.a('shape_' + n, '', 'cml::array_rows_of_c<%s>::value == %s && cml::array_cols_of_c<%s>::value == %s' % (T, r, T, c))
        else:
            a.same('order_' + n, '', 'typename %s::order_type' % T, 'cml::' + p1)
            a.same('cross_' + n, '', 'typename %s::cross_type' % T, 'cml::' + p2)
            a.a('bytes_' + n, '', 'sizeof(%s) == 4*sizeof(%s)' % (T, E))
    rep.count('names', len(names))
    rep.count('names declared in the headers', len(declared & set(names)))
    rep.floor('names', 140)
    unknown = sorted(d for d in declared if not spelled(d))
    if unknown:
        rep.assume.append('names that follow no spelling rule, not judged: ' + ', '.join(unknown))
    decide(rep, a, 'static assertion: the predefined name is the type its letters spell')
