#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property by static analysis of
/repo's current headers."""
import importlib
import json
import os
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
import report

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    mod = importlib.import_module(pid.lower())
    rep = report.Report(pid, tier)
    mod.check(rep, tier)
    sys.exit(rep.finish())

if __name__ == '__main__':
    main()
