"""Runs the value-flow engine over a generated harness, in parallel."""
import os
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
import build
import pairs

def work(args):
    path, extra, pch = args
    try:
        r = pairs.run_file(path, None, extra, usepch=pch)
        redo = {e['target'] for e in r['errors']} | {x['target'] for x in r['results'] if x['undecided'] and not x['findings']}
        if redo and build.OPTSET[0] is build.RAW:
            # what the unoptimised IR leaves undecided may be decided on the optimised one
            r2 = pairs.run_file(path, redo, extra, opt=build.OPT)
            better = {x['target']: x for x in r2['results'] if not x['undecided'] or x['findings']}
            r['results'] = [better.pop(x['target'], x) if x['target'] in redo else x for x in r['results']]
            r['errors'] = [e for e in r['errors'] if e['target'] not in better]
            r['results'] += [x for x in r2['results'] if x['target'] in better]
        return r
    except build.BuildError as e:
        return {'file': os.path.basename(path), 'build_error': str(e), 'path': path}
    except Exception:
        return {'file': os.path.basename(path), 'crash': traceback.format_exc()}

def run(gen, tag, extra=(), jobs=8):
    build.irdump()
    d = build.tmpdir()
    try:
        pch = build.pch(extra)
    except build.BuildError as e:
        return [{'file': 'h.h', 'build_error': str(e), 'path': 'h.h'}]
    gen.per_file = max(20, min(120, gen.ntargets() // (3 * jobs) + 1))
    files = sorted(gen.files(d, tag), key=os.path.getsize, reverse=True)
    with ProcessPoolExecutor(max_workers=jobs) as ex:
        return list(ex.map(work, [(f, extra, pch) for f in files]))
