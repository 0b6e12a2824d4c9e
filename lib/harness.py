"""Generated harnesses: C++ functions that instantiate CML (targets t_*) and
state the expected result in plain C++ (references r_*).  They are compiled to
IR and analysed; they are never executed."""
import os
import zlib
import re

def sig(ins, outs, ty='double'):
    names = 'abcdefgh'
    onames = 'opqrs'
    ps = []
    for k, n in enumerate(ins):
        if isinstance(n, str):
            ps.append('%s %s' % (n, names[k]))
        else:
            ps.append('const %s (&%s)[%d]' % (ty, names[k], n))
    for k, n in enumerate(outs):
        ps.append('%s (&%s)[%d]' % (ty, onames[k], n))
    return '(' + ', '.join(ps) + ')'

class Gen:
    def __init__(self, prelude='', per_file=60, ty='double'):
        self.prelude = prelude
        self.cases = {}       # case -> (ins, outs, ref body, [(variant, body)])
        self.per_file = per_file
        self.opts = {}
        self.keep = 0         # but at least the first keep ones
        self.thin = 1         # keep every thin-th variant of a case (larger sizes)
        self.count = {}

    def case(self, name, ins, outs, ref, ty='double', rett='void', **opts):
        assert re.match(r'^[A-Za-z0-9_]+$', name) and '__' not in name, name
        if name in self.cases:
            c = self.cases[name]
            assert c[:3] == (ins, outs, ref), name
        else:
            self.cases[name] = (ins, outs, ref, {}, ty, rett)
            self.opts[name] = opts
        return self

    def t(self, case, variant, body):
        assert re.match(r'^[A-Za-z0-9_]+$', variant), variant
        c = self.cases[case]
        k = self.count[case] = self.count.get(case, -1) + 1
        if k % self.thin and k >= self.keep:
            return self
        assert variant not in c[3], (case, variant)
        c[3][variant] = body
        return self

    def ntargets(self):
        return sum(len(c[3]) for c in self.cases.values())

    def files(self, outdir, tag):
        """write the files; returns their paths"""
        out = []
        cur, n = [], 0
        items = sorted(self.cases.items(), key=lambda x: zlib.crc32(x[0].encode()))
        def flush():
            nonlocal cur, n
            if not cur:
                return
            p = os.path.join(outdir, '%s_%02d.cpp' % (tag, len(out)))
            with open(p, 'w') as f:
                f.write('#include "h.h"\n' + self.prelude + '\n' + '\n'.join(cur) + '\n')
            out.append(p)
            cur, n = [], 0
        for name, (ins, outs, ref, ts, ty, rett) in items:
            vs = list(ts.items())
            assert vs, name
            for k in range(0, len(vs), self.per_file):
                part = vs[k:k + self.per_file]
                if n + len(part) > self.per_file:
                    flush()
                s = sig(ins, outs, ty)
                cur.append('extern "C" %s r_%s%s {\n%s\n}' % (rett, name, s, ref))
                for v, b in part:
                    cur.append('extern "C" %s t_%s__%s%s {\n%s\n}' % (rett, name, v, s, b))
                n += len(part)
                if k + self.per_file < len(vs):
                    flush()
        flush()
        return out
