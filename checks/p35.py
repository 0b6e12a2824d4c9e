"""Every public operation exists for every operand: each header stands on its
own, every declared function is defined, and every operation of the table
compiles and links for all element types, storage kinds, value categories,
bases, memory orders and quaternion conventions."""
import json
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
import apigen
import apiops
import build
from ops import *

def headers():
    out = []
    for d, _s, fs in os.walk(os.path.join(build.REPO, 'cml')):
        for f in fs:
            if f.endswith('.h') and not d.endswith('/detail'):
                out.append(os.path.relpath(os.path.join(d, f), build.REPO))
    return sorted(out)

def alone(rep, tmp, hs):
    rule = 'instantiation: every header compiles on its own'
    rep.rule(rule)
    def one(h):
        p = os.path.join(tmp, 'h_' + re.sub(r'\W', '_', h) + '.cpp')
        with open(p, 'w') as f:
            f.write('#include <%s>\n#include <%s>\n' % (h, h))
        q = subprocess.run([build.CLANG, '-std=c++17', '-fsyntax-only', '-w', '-I', build.REPO, p], capture_output=True, text=True)
        return h, q.returncode, q.stderr
    with ThreadPoolExecutor(8) as ex:
        for h, rc, err in ex.map(one, hs):
            if rc:
                e = [l for l in err.splitlines() if ': error:' in l or 'fatal error' in l][:3]
                rep.violation(h, rule, '; '.join(e), e)
            else:
                rep.ok()
    rep.count('headers compiled on their own', len(hs))

FN = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')

def defined(rep, tmp, hs):
    """every function declared in a public place has a definition"""
    rule = 'definitions: every function declared in namespace cml, or public in one of its classes, is defined'
    rep.rule(rule)
    p = os.path.join(tmp, 'all.cpp')
    with open(p, 'w') as f:
        f.write(''.join('#include <%s>\n' % h for h in hs))
    q = subprocess.run([build.CLANG, '-std=c++17', '-fsyntax-only', '-w', '-I', build.REPO, '-Xclang', '-ast-dump=json',
                        '-Xclang', '-ast-dump-filter=cml', p], capture_output=True, text=True)
    if q.returncode:
        rep.violation('all headers together', rule, '; '.join([l for l in q.stderr.splitlines() if ': error:' in l][:3]))
        return
    t, dec, i, tops = q.stdout, json.JSONDecoder(), 0, []
    while True:
        while i < len(t) and t[i] in ' \n\r\t,':
            i += 1
        if i >= len(t):
            break
        if t[i] != '{':
            i = t.find('\n', i) + 1 or len(t)
            continue
        o, i = dec.raw_decode(t, i)
        tops.append(o)
    par, F, cur = {}, {}, ['', '']
    def find(x):
        while par.get(x, x) != x:
            x = par[x]
        return x
    def walk(o, inst, public, path):
        loc = o.get('loc', {})
        l = loc.get('spellingLoc', loc)
        l = loc.get('expansionLoc', l)
        if 'file' in l:
            cur[0] = l['file']
        if 'line' in l:
            cur[1] = l['line']
        for e in ('begin', 'end'):
            x = o.get('range', {}).get(e, {})
            x = x.get('expansionLoc', x)
            if 'file' in x:
                cur[0] = x['file']
            if 'line' in x and e == 'begin' and not o.get('loc'):
                cur[1] = x['line']
        k = o.get('kind', '')
        if k in FN:
            body = any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in o.get('inner', [])) or o.get('explicitlyDeleted') or \
                o.get('explicitlyDefaulted') or o.get('isImplicit') or o.get('pure')
            spec = any(c.get('kind') == 'TemplateArgument' for c in o.get('inner', []))
            F[o['id']] = (path + '::' + o.get('name', ''), o.get('type', {}).get('qualType', ''), bool(body), cur[0], cur[1], spec or inst,
                          public and not (k == 'CXXMethodDecl' and o.get('storageClass') == 'static'))
            if 'previousDecl' in o:
                par[find(o['id'])] = find(o['previousDecl'])
            return
        sp = inst or k == 'ClassTemplateSpecializationDecl'
        if k == 'NamespaceDecl':
            n = o.get('name', '')
            public = public and n not in ('detail', 'impl', 'internal', '')
            path = path + '::' + n if path else n
        elif k == 'CXXRecordDecl' or k.startswith('ClassTemplate'):
            if k != 'ClassTemplateDecl':
                path = path + '::' + o.get('name', '')
        acc = public
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            acc = public and o.get('tagUsed') == 'struct'
        for c in o.get('inner', []):
            if c.get('kind') == 'AccessSpecDecl':
                acc = public and c.get('access') == 'public'
            walk(c, sp, acc, path)
    for o in tops:
        walk(o, False, True, '')
    G = {}
    for i, f in F.items():
        G.setdefault(find(i), []).append(f)
    n = 0
    for g, fs in G.items():
        if all(f[5] for f in fs) or not any(f[6] for f in fs):
            continue
        n += 1
        if any(f[2] for f in fs):
            rep.ok()
        else:
            f = fs[0]
            rep.violation(f[0], rule, '%s %s is declared (line %s) and never defined' % (f[0], f[1], f[4]), ['%s:%s' % (f[3], f[4])])
    rule2 = 'definitions: the headers define no function or variable with strong linkage, so that several translation units can include them'
    rep.rule(rule2)
    obj = os.path.join(tmp, 'all.o')
    q = subprocess.run([build.CLANG, '-std=c++17', '-O0', '-w', '-c', '-I', build.REPO, p, '-o', obj], capture_output=True, text=True)
    q = subprocess.run(['nm', '-C', '--defined-only', obj], capture_output=True, text=True)
    m = 0
    for l in q.stdout.splitlines():
        w = l.split(None, 2)
        if len(w) == 3 and 'cml' in w[2]:
            m += 1
            if w[1] in 'TDBRC':
                rep.violation(w[2], rule2, 'strong definition of ' + w[2])
            else:
                rep.ok()
    rep.ok()
    rep.count('symbols defined by including every header', m)
    rep.count('declared functions', n)
    rep.floor('declared functions', 700)

def cases(tier):
    out = []
    n = 0
    for api in apiops.table():
        for k in range(40 if tier == 'thorough' else 16):
            n += 1
            E = ('double', 'float', 'LD', 'int')[k % 4]
            if E == 'int' and not api.lin:
                E = 'float'
            ks, fs = [], []
            for q, (ty, role, s) in enumerate(api.operands):
                kk = ('KF', 'KD', 'KE', 'KX') if role == 'w' else ('KF', 'KD', 'KE', 'KX', 'KC', 'KY')
                ks.append(kk[(k + n // 3 + q * (1 + n % 2)) % len(kk)])
                ff = ('lv', 'cl', 'rv', 'ex', 'row', 'col', 'sub', 'rsub', 'tr', 'trr') if ty != 'Q' else ('lv', 'cl', 'rv', 'ex')
                fs.append('lv' if role == 'w' else ff[(k * 3 + n // 2 + q * 5) % len(ff)])
            Bs, L, o, x = RC[n % 2], LAYOUTS[n // 2 % 2], ORDERS[k % 2], CROSSES[k // 2 % 2]
            ins, decl, text, rd, wr, tag = apigen.instantiate(api, ks, fs, E, Bs, L, o, x)
            nm = '%s_%s_%s%s%s_%s_%d' % (api.name, tag, SHORT[Bs][0], SHORT[L][0], SHORT[o][0] + SHORT[x][0], E, k)
            ps = ', '.join('%s %s' % (i, 'abcdefgh'[j]) if isinstance(i, str) else 'const double (&%s)[%d]' % ('abcdefgh'[j], i) for j, i in enumerate(ins))
            out.append((nm, 'void t_%s(%s) { %s %s }' % (nm, ps, decl, apigen.statement(api, text))))
    return out

def instances(rep, tmp, tier):
    rule = 'instantiation: the operation compiles for these operand types and refers to no function that is not defined'
    rep.rule(rule)
    opt = ['-O0', '-w', '-ferror-limit=0']
    try:
        pch = build.pch([], opt)
    except build.BuildError as e:
        rep.violation('h.h', rule, str(e)[-600:])
        return
    cs = cases(tier)
    def run(k):
        items = cs[k:k + 110]
        src = os.path.join(tmp, 'i%d.cpp' % k)
        with open(src, 'w') as f:
            f.write('#include "h.h"\nusing LD = long double;\n' + '\n'.join(t for _n, t in items) + '\n')
        obj = src[:-4] + '.o'
        q = subprocess.run([build.CLANG, '-std=c++17', '-I', build.REPO, '-I', os.path.join(build.VERIF, 'harness'), '-include-pch', pch] + opt +
                           ['-c', src, '-o', obj], capture_output=True, text=True)
        bad = {}
        if q.returncode:
            last = ''
            for l in q.stderr.splitlines():
                m = re.match(re.escape(src) + r':(\d+):', l)
                if ': error:' in l:
                    last = l
                if m and 0 <= int(m.group(1)) - 3 < len(items):
                    bad.setdefault(int(m.group(1)) - 3, last or l)
            if not bad:
                return [(None, q.stderr[-400:])]
            return [(items[i], m) for i, m in bad.items()]
        q = subprocess.run(['nm', '-u', '-C', obj], capture_output=True, text=True)
        os.remove(obj)
        und = [l.strip()[2:] for l in q.stdout.splitlines() if ' cml::' in l or 'U cml::' in l]
        return [((u, u), 'no definition of ' + u) for u in und]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(run, range(0, len(cs), 110)))
    nb = 0
    for r in res:
        for item, msg in r:
            if item is None:
                rep.violation('instantiations', rule, msg)
                continue
            nb += 1
            rep.violation(item[0], rule, msg + ' -- ' + item[1][:400], [msg])
    rep.ok(len(cs) - min(nb, len(cs)))
    rep.count('instantiations', len(cs))
    rep.samples += [c[1][:300] for c in cs[:2] + cs[-2:]]

def check(rep, tier):
    tmp = build.tmpdir()
    hs = headers()
    rep.floor('headers compiled on their own', 150)
    alone(rep, tmp, hs)
    defined(rep, tmp, hs)
    instances(rep, tmp, tier)
