"""Read-only operands stay untouched and no static object is written."""
from harness import Gen
from p26 import targets

KINDSV = ['KF', 'KD', 'KE', 'KX', 'KC', 'KY']
FORMS = ['lv', 'cl', 'ex', 'row', 'col', 'sub', 'tr']

def check(rep, tier):
    g = Gen()
    targets(g, tier, 'FROZEN', KINDSV, FORMS, 48 if tier == 'thorough' else 12,
            lambda rd, wr: ''.join('freeze(%s); ' % x for x in rd), ' vf_thaw();')
    rep.values(g)
