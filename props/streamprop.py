"""C07-C11: the streaming states. Decides with props/stateprop.py (C10, C11) and props/stepprop.py; a failed
obligation is looked for on the real code with replay/stmdrv.c."""
import subprocess, re, os
from .common import *
from lib import orc
from . import stateprop
import z3

TRUSTED = ['clang-18 front end and opt-18 passes translate the C source faithfully', 'the path-wise executor vc/pse.py and z3 %s (bit vectors, IEEE comparisons)' % z3.get_version_string()]
SENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=6000:print_summary=0:exitcode=77', UBSAN_OPTIONS='print_stacktrace=0:exitcode=77:halt_on_error=1')
_O = []


def drive(part, fn=None, case=None):
    """-> failing cases on the real code, number of cases run"""
    if not _O:
        _O.append(orc.Oracle(main='stmdrv.c'))
    try:
        r = subprocess.run([_O[0].exe, part, fn or '-'] + ([case] if case else []), capture_output=True, text=True, timeout=240, errors='replace', env=SENV)
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'')
        out = out.decode(errors='replace') if isinstance(out, bytes) else out
        return re.findall(r'(?m)^FAIL (\S+) what=(.*)$', out), 0
    n = re.search(r'(?m)^cases=(\d+)', r.stdout)
    return re.findall(r'(?m)^FAIL (\S+) what=(.*)$', r.stdout), int(n.group(1)) if n else 0


def search(part, fns):
    """concrete failing cases of the named functions"""
    hits, n = [], 0
    for x in ([None] if fns is None or len(fns) > 12 else sorted(fns)):
        h, k = drive(part, x)
        hits += h
        n += k
    return [h for h in hits if fns is None or h[0].split(':')[0] in fns], n


def report(R, part, res, per_fn, assume, extra=None, users=None):
    """res: [(function, obligations, paths, queries, failures, undecided, seconds)]"""
    fails = [(x, f) for x, k, p, q, fl, u, dt in res for f in fl]
    und = [(x, f) for x, k, p, q, fl, u, dt in res for f in u]
    kf = {k['obligation']: k for k in known(R.pid)}
    seen = set()
    rest = []
    for x, f in fails:
        k = [o for o in kf if f['name'].startswith(o)]
        (seen.add(k[0]) if k else rest.append((x, f)))
    for k in sorted(seen):
        R.known_finding('%s: %s' % (k, kf[k]['what']))
    cases, bounded = 0, {}
    if rest or und or TIER == 'thorough':
        fns = None
        if rest and TIER != 'thorough':
            fns = set(x for x, f in rest)
            if users:
                fns |= set(u for x in fns for u in users.get(x, ()))
            fns |= set(x for x, f in und)
        elif und and TIER != 'thorough':
            fns = set(x for x, f in und)
        try:
            hits, cases = search(part, fns)
        except Exception as e:
            hits = []
            print('concrete driver not available:', str(e)[:300])
        hits = [h for h in hits if not any(h[0].split(':')[0] in k.get('functions', []) for k in kf.values())]
        if hits:
            R.violation('%s: %s%s' % (hits[0][0], hits[0][1], '; failed obligation: ' + rest[0][1]['name'] if rest else ''), dict(stmdriver=part, stmcase=hits[0][0], what=hits[0][1], all=hits[:20], obligations=[f for x, f in rest[:20]], undecided=und[:20]), True)
        elif rest:
            R.violation('obligation not discharged: %s' % '; '.join(f['name'] for x, f in rest[:3]), dict(obligations=[f for x, f in rest[:20]], concrete_cases_tried=cases), False)
        for x, u in und:
            bounded[x] = dict(reason=u, concrete_cases=cases)
            print('bounded (not proved): %s: %s' % (x, u[:300]))
    fns = sorted(set('TA_%s_%s' % (r[0], s) for r in res for s in per_fn))
    n = sum(r[1] for r in res)
    R.assume = assume
    R.cov = dict(obligations=n, discharged=n - sum(len(r[4]) for r in res), checker_cmd='vc/pse.py over LLVM IR generated from /repo on this run; z3 decides every path condition and obligation', trusted_base=TRUSTED,
                 functions_under_contract=len(fns), functions=fns[:40], paths=sum(r[2] for r in res), solver_queries=sum(r[3] for r in res), cpu_seconds=round(sum(r[6] for r in res), 1), bounded_functions=bounded, concrete_cases_run=cases)
    if extra:
        R.cov.update(extra)
    return R.finish()


def check_state(pid):
    R = Report(pid, 'proof')
    res = stateprop.results(pid)
    users = {}
    assume = ['every unstable period and every candlestick averaging period lies in 0..100000 and the settings do not change between the calls (C16)', 'calloc returns zeroed memory or NULL; an absurd request (over 2^62 bytes) fails',
              'fwrite and fread transfer either all elements or fewer, and fread returns what fwrite wrote (the file is a byte sequence read back from its start)',
              'sub-states obey the contract of their own StateInit/StateFree/StateSave/StateLoad (verified here for every function; a failing sub-state call may leave a partly built state behind)',
              'Lookback of a valid call lies in [0, 2^27] (C02)']
    if pid == 'C10':
        assume.append('the saved state is any state whose block structure is the one StateInit created and whose scalars, buffers and sub-states are arbitrary (no State function allocates or frees memory)')
    return report(R, pid, res, {'C10': ('StateSave', 'StateLoad'), 'C11': ('StateInit', 'StateFree', 'StateLoad')}[pid], assume)


CHECKS = {'C10': check_state, 'C11': check_state}
