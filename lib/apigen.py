"""Instantiates the operations of apiops.py: operands of chosen storage kinds,
value categories and element type, bound to symbolic inputs."""
import ops
from ops import SHORT

def instantiate(api, kinds, forms, E='double', Bs='row_basis', L='row_major', order='imaginary_first', cross='positive_cross'):
    """(ins, declarations, statement, objects read, objects written, tag)"""
    ins, decl, exprs, rd, wr, tag = [], '', [], [], [], ''
    names = 'abcdefgh'
    if api.text.startswith(('({0}).normalize', '({0}).conjugate', '({0}).inverse')):
        # in-place on a modifiable lvalue: that form has an entry of its own
        forms = ['cl' if f in ('lv', 'rv') else f for f in forms]
    for q, ((ty, role, s), kd, fm) in enumerate(zip(api.operands, kinds, forms)):
        nm, arr = 'xyzuvtrn'[q], names[len(ins)] if len(ins) < 8 else None
        if ty == 'S':
            if role == 'w':
                decl += '%s %s=0; ' % (E, nm)
                exprs.append(nm)
            else:
                ins.append('double')
                decl += '' if E == 'double' else '%s %s=%s(%s); ' % (E, nm, E, arr)
                exprs.append(arr if E == 'double' else nm)
            continue
        if ty == 'V':
            if kd in ('KC', 'KY') and (fm in ('row', 'col') or role == 'w'):
                kd = {'KC': 'KE', 'KY': 'KX'}[kd]
            if fm in ('tr', 'trr') or fm == 'rsub' and kd in ('KC', 'KY'):
                fm = 'ex'
            o = ops.V(kd, fm, nm, arr, s, E)
            ins.append(s)
        elif ty in 'MB':
            kd = {'KC': 'KE', 'KY': 'KX'}.get(kd, kd)
            r, c = s
            if ty == 'B' and Bs == 'col_basis':
                r, c = c, r
            if fm not in ('lv', 'cl', 'rv', 'ex', 'tr', 'trr'):
                fm = 'lv'
            o = ops.M(kd, fm, nm, arr, r, c, Bs, L, E)
            ins.append(r * c)
        else:
            if fm not in ('lv', 'cl', 'rv', 'ex'):
                fm = 'lv' if role == 'w' else 'cl'
            o = ops.Q(fm, nm, arr, order, cross, E)
            ins.append(4)
        decl += o.decl + ' '
        exprs.append(o.expr)
        (wr if role == 'w' else rd).append(nm + '.v')
        tag += o.tag
    t = api.text.format(*exprs)
    return tuple(ins), decl + api.decl, t, rd, wr, tag

def statement(api, t):
    if t.rstrip().endswith(';'):
        return t
    first_w = any(r == 'w' for _t, r, _s in api.operands)
    if first_w:
        return t + ';'
    return 'auto&& rr=%s; (void) rr;' % t if not t.startswith(('matrix_', 'extract_', 'cartesian', 'quaternion_rotation', 'q.set')) or t.startswith(('matrix_get', 'matrix_to', 'matrix_concat')) else t + ';'
