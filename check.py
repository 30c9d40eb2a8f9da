#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--seed N] [--only test,...]
   check.py --replay FILE

Decides one property against the working tree of /repo.
Exit 0: held on everything explored.  Exit 1: VIOLATION.  Exit 2: fault of the check.
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))


def load(prop):
    return importlib.import_module(prop.lower()).R


def with_preload(prop):
    """Runs the check again under the fault library if it needs it."""
    if prop.upper() != 'C14':
        return None
    import faults
    return faults.rerun_with_library(sys.argv)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    os.environ.setdefault('HYPOTHESIS_STORAGE_DIRECTORY',
                          os.path.join(os.path.sep, 'tmp', 'kz-hypothesis'))
    t0 = time.time()
    import warnings
    warnings.simplefilter('ignore')
    try:
        import harness
    except Exception:
        traceback.print_exc()
        return 2

    if a.selftest:
        import selftest
        return selftest.main()

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        r = with_preload(rep['property'])
        if r is not None:
            return r
        reg = load(rep['property'])
        test = [t for t in reg.tests if t.name == rep['test']][0]
        try:
            harness.run_case(test, rep['case'], harness.Ctx())
        except harness.Violation as v:
            print('VIOLATION property=%s replay=%s' % (rep['property'], a.replay))
            print(v)
            return 1
        print('the case does not violate %s' % rep['property'])
        return 0

    prop = a.prop.upper()
    r = with_preload(prop)
    if r is not None:
        return r
    try:
        reg = load(prop)
    except Exception:
        traceback.print_exc()
        return 2
    only = a.only.split(',') if a.only else None
    results = harness.run_tests(reg, a.tier, a.seed, only, a.jobs)
    bad = []
    known = harness.known_findings(prop)
    for r in results:
        if r['fail']:
            js = harness.case_json(r['fail']['case'])
            hit = [k for k in known if k['test'] == r['test']
                   and harness.case_json(k['case']) == js]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]['what']))
            else:
                bad.append(r)
    harness.write_evidence(prop, reg, a.tier, a.seed, results, time.time() - t0, len(bad))
    for r in results:
        print('%-34s %6d cases, %6d distinct non-trivial, %.1f s' % (
            r['test'], r['evaluations'], r['distinct_nontrivial'], r.get('wall_s', 0)))
    if bad:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        for r in bad:
            path = os.path.join(d, '%s-%s.json' % (prop, r['test']))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'test': r['test'], 'seed': a.seed,
                           'case': r['fail']['case'],
                           'message': r['fail']['message']}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s: %s' % (r['test'], r['fail']['message'][:1500]))
        return 1
    errs = [r for r in results if r['error']]
    for r in errs:
        print('ERROR in %s:\n%s' % (r['test'], r['error']))
    return 2 if errs else 0


if __name__ == '__main__':
    sys.exit(main())
