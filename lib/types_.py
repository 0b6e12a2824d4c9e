"""Batches of static assertions decided by the compiler on the type-checked
program."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
import build

HEAD = '''#include "h.h"
#include <tuple>
'''

class Asserts:
    """(name, parameters, condition) triples; each is one function whose body
    is one static_assert"""
    def __init__(self):
        self.items = []
        self.names = set()

    def a(self, name, params, cond):
        n = name
        k = 2
        while n in self.names:
            n = '%s_%d' % (name, k)
            k += 1
        self.names.add(n)
        self.items.append((n, params, cond))

    def same(self, name, params, expr, want):
        """decltype of the expression, or of the object that stores it, is `want`"""
        self.a(name, params, 'std::is_same<%s, %s>::value' % (expr, want))

def syntax(src, pch):
    p = subprocess.run([build.CLANG, '-std=c++17', '-fsyntax-only', '-I', build.REPO, '-I', os.path.join(build.VERIF, 'harness'),
                        '-include-pch', pch, '-O0', '-w', '-ferror-limit=0'] + [src], capture_output=True, text=True)
    return p.returncode, p.stderr

def decide(rep, asserts, rule, head='', chunk=150, tag='ta'):
    pch = build.pch(['-w', '-ferror-limit=0'], ['-O0'])
    tmp = build.tmpdir()
    def run(items, k):
        src = os.path.join(tmp, '%s%s.cpp' % (tag, k))
        pre = HEAD + head
        with open(src, 'w') as f:
            f.write(pre)
            for n, p, c in items:
                f.write('void %s(%s) { static_assert(%s, "%s"); }\n' % (n, p, c, n))
        rc, err = syntax(src, pch)
        if rc == 0:
            return []
        # an error is attributed to the function on whose line it was reported,
        # or from which it was instantiated
        base = pre.count('\n') + 1
        lines = {}
        for m in re.finditer(re.escape(src) + r':(\d+):\d+: (error|note): (.*)', err):
            i = int(m.group(1)) - base
            if 0 <= i < len(items):
                lines.setdefault(i, []).append(m.group(2) + ': ' + m.group(3))
        if not lines:
            return [(None, err[-600:])]
        out = []
        for i, l in sorted(lines.items()):
            out.append((items[i], l))
        return out
    it = asserts.items
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(lambda k: run(it[k:k + chunk], k), range(0, len(it), chunk)))
    bad = 0
    for r in res:
        for item, msg in r:
            if item is None:
                rep.broken.append(msg)
                continue
            bad += 1
            rep.violation(item[0], rule, '%s (%s) -- %s' % (item[2], item[1], '; '.join(msg[:3])), msg[:4])
    rep.rule(rule)
    rep.ok(len(it) - bad)
    rep.count('static assertions', len(it))
    rep.samples += ['%s: %s' % (n, c) for n, p, c in it[:3] + it[-3:]]
    return bad
