"""Properties decided by the batch contracts (vc/batch.py) on every TA_X / TA_S_X."""
import time, os
from concurrent.futures import ThreadPoolExecutor
from .common import *
from vc import run, extract, batch
from lib import orc

TRUSTED = [
    'clang-18 front end and opt-18 passes (' + extract.PASSES + ') translate the C source faithfully; the library is otherwise built with gcc',
    'the verification-condition generator vc/ (ir.py, sym.py, batch.py, prove.py) and z3 %s' % run.z3.get_version_string(),
    'loop invariants are inferred (Houdini over a fixed template family), each one checked for initiation and consecution on this run',
]
ASSUME = [
    'endIdx <= 1e9; unstable periods 0..1e6; candle averaging periods 0..1e5, range type 0..2 (what the setters are meant to hold)',
    'caller passes arrays with elements 0..endIdx, outputs with room for outNBElement elements, pairwise non-overlapping (aliasing is property C05)',
    'double values are unconstrained (any IEEE value) unless noted; conversion of an out-of-range double to int gives INT_MIN (x86), not a trap',
    'options of type double are not NaN',
    'malloc/calloc either return NULL or a fresh block; free has no effect on other objects',
    'memory layout of the x86-64 ABI; no other thread changes the settings during a call',
]

# property -> obligation kind, oracle modes, classes of concrete failures that count
CFG = {
    'C01': ('range', ['other'], ('range', 'hang')),
    'C02': ('memory', ['other', 'args'], ('memory', 'argsmem', 'allocmem')),
    'C03': ('args', ['args'], ('args', 'argsmem')),
    'C05': ('inplace', [], ('inplace', 'inplacemem')),
    'C04': ('alloc', ['other'], ('alloc', 'allocmem')),
}


def case_line(fn, model):
    """concrete oracle case from the verifier's counterexample"""
    x, single = batch.split_name(fn)
    P = batch.PARAMS[x]

    def iv(n, d=0):
        try:
            return int(model.get(n, d))
        except ValueError:
            return d
    st, en = iv('startIdx'), iv('endIdx')
    if en > 3000000:
        return None
    o = []
    for q in P['opts']:
        v = model.get(q['name'])
        if q['type'] == 'Double':
            try:
                from fractions import Fraction
                o.append(repr(float(Fraction(v.replace('?', '')))) if v else repr(float(q['default'])))
            except Exception:
                o.append(repr(float(q['default'])))
        else:
            o.append(str(iv(q['name'], q['default'])))
    un = [iv(k) for k in model if k.startswith('G_unst')]
    null = 0
    for k, q in enumerate(P['ins']):
        if model.get(q['name'] + '.null') == 'True':
            null |= 1 << k
    for k, q in enumerate(P['outs']):
        if model.get(q['name'] + '.null') == 'True':
            null |= 256 << k
    return 'fn=%s;s=%d;start=%d;end=%d;unst=%d;compat=%d;cand=0;data=0:%d;alias=-1:0;fail=0;null=%d;opts=%s' % (x, int(single), st, en, min(un[0], 100000) if un else 0, iv('G_compat'), SEED, null, ''.join(v + ',' for v in o))


def affected(fn):
    """public functions through which a function can be exercised"""
    if batch.split_name(fn):
        return [fn]
    s = 'TA_S_' if fn.startswith('TA_S_') else 'TA_'
    users = {'EMA': ['EMA', 'MA', 'MACD', 'TRIX', 'APO'], 'SMA': ['SMA', 'MA', 'STOCHF', 'APO'], 'WLMA': ['WLMA'], 'VAR': ['VAR', 'STDDEV', 'BBANDS']}
    return [s + u for u in users[fn.split('_INT_')[1]]]


def hunt(O, fn, alias, fails, modes, classes, secs=20, count=200000):
    """concrete failing input on the real code: first the verifier's models, then search"""
    tried = 0
    if alias:
        modes = ['inplace:%d:%d' % pair_index(fn, alias)]
    for f in fails:
        if f.get('model') and batch.split_name(fn):
            l = case_line(fn, f['model'])
            if l and alias:
                l = l.replace('alias=-1:0', 'alias=%d:%d' % pair_index(fn, alias))
            if l:
                tried += 1
                r = [q for q in O.case(l) if q[0] in classes]
                if r:
                    return r[0], tried
    for u in affected(fn):
        x, s = batch.split_name(u)
        for m in modes:
            r, n = O.search(m, x, s, SEED, count, secs)
            tried += n
            r = [q for q in r if q[0] in classes]
            if r:
                return r[0], tried
    return None, tried


def pair_index(fn, alias):
    x, s = batch.split_name(fn)
    P = batch.PARAMS[x]
    return [p['name'] for p in P['ins']].index(alias[0]), [p['name'] for p in P['outs']].index(alias[1])


def jobs_for(pid):
    """(fn, alias) -> option dicts tried first"""
    if pid != 'C05':
        return [(fn, None) for fn in run.batch_functions()]
    r = [(f, ('inReal', 'outReal')) for f in run.INT]
    for x, P in sorted(batch.PARAMS.items()):
        r += [('TA_' + x, (i['name'], o['name'])) for i in P['ins'] for o in P['outs'] if i['kind'] == o['kind'] == 'double']
    return r


def label(fn, alias):
    return fn + (' with %s=%s' % (alias[1], alias[0]) if alias else '')


def mkopts(o, alias):
    return dict(o, alias=alias) if alias else o


def check(pid):
    kind, modes, classes = CFG[pid]
    R = Report(pid, 'proof')
    R.assume = ASSUME
    d = extract.extract(('ta_func', 'ta_common'))
    keys = jobs_for(pid)
    kf = {k['obligation']: k for k in known(pid)}
    res = {}
    jobs = [(fn, mkopts(run.STRAT.get(fn, {}), al), kind, True, 400) for fn, al in keys]
    for r in run.run_jobs(d, jobs):
        res[(r['fn'], r['opts'].get('alias'))] = r
    bad = {}
    for k, r in sorted(res.items(), key=str):
        if r['status'] == 'failed' and label(*k) in kf:
            R.known_finding('%s: %s' % (label(*k), kf[label(*k)]['what']))
        elif r['status'] != 'proved':
            bad[k] = r
    bounded, cases = {}, 0
    if bad:
        O = orc.Oracle(readlo0=batch.READLO0)
        secs = 20 if len(bad) <= 12 else 6
        with ThreadPoolExecutor(8) as ex:
            found = dict(zip(bad, ex.map(lambda f: hunt(O, f[0], f[1], bad[f]['failed'], modes, classes, secs), bad)))
        retry = [f for f in bad if found[f][0] is None and time.time() - R.t0 < 450]
        if retry:
            lim = max(60, min(300, 780 - (time.time() - R.t0)))
            jobs = [(f[0], mkopts(o, f[1]), kind, False, lim) for f in retry
                    for o in run.strategies(f[0])[1:] + ([run.strategies(f[0])[0]] if bad[f]['status'] == 'undecided' else [])]
            for r in run.run_jobs(d, jobs):
                f = (r['fn'], r['opts'].get('alias'))
                if r['status'] == 'proved' and f in bad:
                    res[f] = r
                    bad.pop(f)
        for f, r in sorted(bad.items(), key=str):
            hit, n = found[f]
            cases += n
            if hit:
                R.violation('%s: %s (class %s)%s' % (label(*f), hit[2], hit[0], '; failed obligation: ' + r['failed'][0]['name'] if r['failed'] else ''),
                            dict(function=label(*f), case=hit[1], what=hit[2], cls=hit[0], obligations=r['failed'], verifier=r['msg']), True)
            elif r['status'] == 'failed':
                R.violation('%s: obligation not discharged: %s' % (label(*f), '; '.join(q['name'] for q in r['failed'][:3])),
                            dict(function=label(*f), obligations=r['failed'], verifier=r['msg'], concrete_cases_tried=n), False)
            else:
                bounded[label(*f)] = dict(reason=r['msg'], concrete_cases=n)
                print('bounded (not proved): %s: %s; %d concrete cases hold' % (label(*f), r['msg'][:200], n))
    R.cov = coverage(res.values())
    R.cov.update(bounded_functions=bounded, concrete_cases_run=cases)
    return R.finish()


def coverage(rs):
    rs = list(rs)
    return dict(
        obligations=sum(r['nobl'] for r in rs), discharged=sum(r['proved'] for r in rs),
        obligations_folded_to_true=sum(r['ntriv'] for r in rs),
        checker_cmd='z3 (python API, smt.arith.solver=2) on verification conditions generated from /repo on this run',
        trusted_base=TRUSTED,
        functions_under_contract=len({r['fn'] for r in rs if r['status'] == 'proved'}), proof_scenarios=len(rs),
        obligations_by_kind={k: sum(r['kinds'].get(k, 0) for r in rs) for k in sorted({k for r in rs for k in r['kinds']})},
        loop_invariants_checked=sum(r['inv'] for r in rs), solver_queries=sum(r['q'] for r in rs),
        solver_time_s=round(sum(r['ts'] for r in rs), 1),
        reachability_covers={c: sum(1 for r in rs for n, s in r['cov'] if s == c) for c in ('sat', 'unsat', 'unknown')},
        internal_helper_contracts=sorted({r['fn'] for r in rs if '_INT_' in r['fn']}),
    )


CHECKS = {k: check for k in CFG}
