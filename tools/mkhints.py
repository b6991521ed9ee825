"""Regenerates spec/hints (keys of the loop invariants that survive inference) for all
functions under their committed strategy. Hints only speed the proof up: every invariant is
re-checked on every run, and a proof that fails with hints is repeated without."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from vc import run, extract
from props import batchprops as bp
if __name__ == '__main__':
    only = set(sys.argv[1:])
    keys = [k for p in ('C01', 'C05') for k in bp.jobs_for(p) if not only or k[0] in only]
    d = extract.extract(('ta_func', 'ta_common'))
    n = 0
    for r in run.run_jobs(d, [(fn, bp.mkopts(run.STRAT.get(fn, {}), al), 'all', False, 800) for fn, al in keys]):
        n += r['status'] == 'proved'
        if r['status'] != 'proved' or r['wall'] > 60:
            print(r['key'], r['status'], r['msg'], '%.0fs' % r['wall'], [f['name'] for f in r['failed'][:4]], flush=True)
        if r.get('invkeys') is not None:
            open(run.HINTS + '/' + r['key'], 'w').write('\n'.join(r['invkeys']) + '\n')
    print(n, 'of', len(keys), 'proved')
