#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]  - decide one property statically."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import facts, report
from sa.registry import PROPS


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    p = PROPS[prop]
    rep = report.Report(prop)
    bad = []
    try:
        db = facts.load()
    except facts.AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (prop, e))
        return 3
    for fn in p['run']:
        try:
            fn(db, rep)
        except (facts.AnalysisError, RecursionError) as e:
            bad.append(str(e))
        except Exception as e:
            import traceback
            traceback.print_exc()
            bad.append('%s in %s: %s' % (type(e).__name__, fn.__name__, e))
    if not bad:
        empty = [c for c in p.get('nonzero', ()) if not rep.counts.get(c)]
        if empty: bad.append('no instances analysed for: ' + ', '.join(empty))
    for b in bad: print('ANALYSIS-ERROR property=%s %s' % (prop, b))
    if bad and not rep.new(): return 3
    rc = rep.finish(tier, seed, 'other', p['rules'], p.get('assumptions', []), db)
    print('%s: %s; %d functions; %s' % (prop, 'violated' if rc else 'holds', len(rep.functions), ', '.join('%s=%d' % kv for kv in sorted(rep.counts.items()))))
    return rc


if __name__ == '__main__':
    sys.exit(main())
