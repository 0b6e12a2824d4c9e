"""Collects what a check analysed and found; writes evidence and replay files,
prints VIOLATION / KNOWN-FINDING lines."""
import hashlib
import json
import os
import re
import subprocess
import sys
import time
import build
import valueflow

VERIF = build.VERIF

def first_errors(text, n=6):
    out = []
    for l in text.splitlines():
        if ': error:' in l or ': fatal error:' in l or 'in instantiation of' in l or 'requested here' in l:
            out.append(l.strip().replace(build.REPO, '/repo'))
    return out[:n] or text.splitlines()[:n]

class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obl = 0
        self.dis = 0
        self.viol = []         # dicts
        self.undecided = []
        self.errors = []
        self.counts = {}
        self.floors = {}
        self.rules = []
        self.samples = []
        self.functions = set()
        self.assume = []
        self.broken = []

    # ---- generic
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def floor(self, key, n):
        self.floors[key] = n

    def ok(self, n=1):
        self.obl += n
        self.dis += n

    def violation(self, construct, rule, detail, where=None):
        self.obl += 1
        self.viol.append({'construct': construct, 'rule': rule, 'detail': detail, 'where': where or []})

    # ---- value flow
    def values(self, gen, tag=None, extra=(), nofptrunc=True):
        n = gen.ntargets()
        self.floor('value-flow targets', self.floors.get('value-flow targets', 0) + n)
        self.rule('value flow: every cell the instantiated operation writes or returns has the value number of '
                  'the reference definition; exceptions are raised under exactly the reference conditions; every access is '
                  'inside its object and before its release')
        res = valueflow.run(gen, tag or self.pid.lower(), extra)
        for r in res:
            if 'crash' in r:
                self.broken.append(r['crash'])
                continue
            if 'build_error' in r:
                errs = first_errors(r['build_error'])
                self.build_failure(r['path'], errs)
                continue
            self.count('value-flow targets', len(r['results']) + len(r['errors']))
            self.functions.update(r['repo_functions'])
            for x in r['results']:
                self.obl += x['obligations']
                self.dis += x['obligations'] - len(x['findings']) - len(x['undecided'])
                self.count('output cells compared', x['cells'])
                self.count('IR instructions interpreted abstractly', x['steps'])
                for f in x['findings']:
                    self.viol.append({'construct': x['target'], 'rule': 'value flow: ' + f['kind'], 'detail': f, 'where': f.get('where', [])})
                for u in x['undecided']:
                    self.undecided.append(x['target'] + ': ' + u)
                if len(self.samples) < 6 and x['obligations']:
                    self.samples.append('%s against %s: %d obligations' % (x['target'], x['reference'], x['obligations']))
            for e in r['errors']:
                self.errors.append(e['target'] + ': ' + e['error'])

    def build_failure(self, path, errs):
        """an instantiation no longer compiles"""
        if not self.sane():
            self.broken.append('the umbrella headers do not compile: ' + '; '.join(errs))
            return
        self.violation(os.path.basename(path), 'instantiation: the operation compiles for these operand types', errs, errs)

    _sane = None
    def sane(self):
        if Report._sane is None:
            p = os.path.join(build.tmpdir(), 'sane.cpp')
            with open(p, 'w') as f:
                f.write('#include "h.h"\nint main(){ vector<double,compiled<3>> v; (void) v; }\n')
            q = subprocess.run([build.CLANG, '-std=c++17', '-fsyntax-only', '-I', build.REPO, '-I', os.path.join(VERIF, 'harness'), p], capture_output=True)
            Report._sane = q.returncode == 0
        return Report._sane

    # ---- end
    def known(self):
        out = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith('known: '):
                    m = re.match(r'known: property=(\S+) construct=(\S+) (.*)', l)
                    if m and m.group(1) == self.pid:
                        out.append((m.group(2), m.group(3)))
        return out

    def finish(self):
        known = self.known()
        viol, kf = [], {}
        for v in self.viol:
            k = [t for c, t in known if c == v['construct']]
            if k:
                kf.setdefault(v['construct'], k[0])
            else:
                viol.append(v)
        for k, n in self.floors.items():
            if self.counts.get(k, 0) < n and not viol:
                self.broken.append('only %d of %d %s were analysed' % (self.counts.get(k, 0), n, k))
        if self.obl == 0:
            self.broken.append('no obligation was generated')
        if len(self.errors) > 0.2 * max(1, self.counts.get('value-flow targets', 1)) and not viol:
            self.broken.append('too many targets could not be analysed')
        cov = {'explanation': 'Static analysis of the current headers. Rules: ' + ' | '.join(self.rules) +
               '. obligations = conditions generated from the harness and the code, discharged = those the analysis '
               'established; undecided = no verdict (no alarm is raised for them); not_analysed = targets the engine does not support.',
               'obligations': self.obl, 'discharged': self.dis, 'analysed': self.counts,
               'undecided': len(self.undecided), 'not_analysed': len(self.errors),
               'samples': self.samples,
               'repo_functions_analysed': len(self.functions),
               'repo_functions': sorted(self.functions)[:400]}
        if self.undecided:
            cov['undecided_list'] = self.undecided[:20]
        if self.errors:
            cov['not_analysed_list'] = self.errors[:2000]
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': 'other', 'coverage': cov, 'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(viol)}
        if os.environ.get('CML_FUNCS'):
            with open(os.environ['CML_FUNCS'], 'a') as f:
                f.write(''.join(x + '\n' for x in sorted(self.functions)))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for c, t in sorted(kf.items()):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, c, t))
        print('%s: %d obligations, %d discharged, %d undecided, %d not analysed, %d violations, %.1f s' % (
            self.pid, self.obl, self.dis, len(self.undecided), len(self.errors), len(viol), ev['wall_s']))
        for e in self.errors[:5]:
            print('  not analysed: ' + e[:300])
        for u in self.undecided[:5]:
            print('  undecided: ' + u[:300])
        if viol:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, self.pid + '.txt')
            with open(p, 'w') as f:
                for v in viol:
                    f.write(json.dumps(v, indent=1) + '\n')
            for v in viol[:8]:
                det = v['detail']
                if isinstance(det, dict):
                    det = '; '.join('%s=%s' % (k, str(x)[:200]) for k, x in det.items() if k in ('what', 'got', 'expected', 'when'))
                print('  %s [%s] %s' % (v['construct'], v['rule'], str(det)[:500]))
                for w in v['where'][:2]:
                    print('      at ' + str(w).replace(build.REPO, '/repo')[:300])
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        if self.broken:
            for b in list(dict.fromkeys(x[-600:] for x in self.broken))[:4]:
                print('ANALYSIS BROKEN: ' + b)
            return 2
        return 0
