"""`python3 tool/manifest.py` rewrites MANIFEST.json from the checks present."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tool'))
import props
VF = 'value-flow analysis of the compiler IR of instantiated operations: symbolic value numbering against a reference definition with a rational/trigonometric normal form'
TY = 'type-level analysis: static assertions over the type-checked program and compile-fail witnesses'
EF = 'effect and ownership analysis over the LLVM IR of instantiated operations'
TECH = {}
for d in props.P:
    TECH[d['id']] = VF
for i in ('P24', 'P28', 'P29', 'P35'):
    TECH[i] = TY
for i in ('P25', 'P26', 'P27'):
    TECH[i] = EF
TECH.update({})
NOTE = {}
NA = {
 'P40': 'Bounding rounding error over all inputs needs bounds on run-time magnitudes and condition numbers; no static argument in reach bounds them (the value-flow engine identifies expressions over the reals and reports lost precision only as a float/double conversion).',
 'P41': 'Uniformity is a statement about the distribution of outputs of a random engine; static analysis of the source does not decide it (that the elements are set and normalised is decided by P42).',
}
checks, na = [], []
for d in props.P:
    i = d['id']
    if os.path.exists(os.path.join(here, 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': TECH[i], 'level': 'other',
                       'level_note': NOTE.get(i, 'Decided for every element value (or every program of the enumerated family) on the instantiations listed in the evidence; sizes, storage kinds and operand kinds are enumerated up to the bounds given in DESIGN.md. Floating-point values are compared as real expressions.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check yet: the machinery for it is still being built.')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'lib\'); import build; build.irdump()"', 'checks': checks, 'not_applicable': na}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
