"""Runs the batch-contract proofs over all functions (process pool) and collects results."""
import json, os, sys, time, signal, traceback, hashlib
import z3
from multiprocessing import Pool
from . import extract, batch
from .sym import Unsupported, And, Not, zb, isc
from .ir import IRError
from .prove import Prover

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HINTS = ROOT + '/spec/hints'
STRAT = json.load(open(ROOT + '/spec/strategy.json')) if os.path.exists(ROOT + '/spec/strategy.json') else {}
# most expensive first
SLOW = ['MAVP', 'STOCH', 'STOCHF', 'MACDEXT', 'BBANDS', 'STOCHRSI', 'CDLADVANCEBLOCK', 'MA', 'APO', 'PPO', 'HT_TRENDMODE', 'HT_TRENDLINE', 'ULTOSC']
INT = ['TA_INT_EMA', 'TA_INT_SMA', 'TA_INT_WLMA', 'TA_INT_VAR']

# which obligations decide which property
REJECT = ('negative startIdx', 'endIdx negative', 'invalid option')
KINDS = {
    'memory': lambda o: o.kind in ('bounds', 'read-window', 'write-window', 'init', 'overflow', 'null', 'use-after-free', 'frame', 'overlap', 'divzero', 'free', 'alloc-size', 'size'),
    'range': lambda o: o.kind in ('range', 'filled', 'gap') or (o.kind == 'ret' and o.msg.startswith('valid call returns')),
    'args': lambda o: o.kind == 'untouched' or (o.kind == 'ret' and o.msg.startswith(REJECT)),
    'alloc': lambda o: o.kind in ('leak', 'free', 'use-after-free') or (o.kind == 'null' and 'heap' in o.msg) or (o.kind == 'ret' and not o.msg.startswith(REJECT)),
    'inplace': lambda o: True,
    'all': lambda o: True,
}


class Late(Exception):
    pass


def _alarm(*a):
    raise Late()


def key_of(fn, opts):
    return fn + ''.join('.' + k + ('_'.join(v) if isinstance(v, (list, tuple)) else '') for k, v in sorted(opts.items()) if v)


def load_hints(k):
    p = HINTS + '/' + k
    return set(open(p).read().split()) if os.path.exists(p) else None


_ctx = None


def _init(d):
    global _ctx
    _ctx = batch.Ctx(extract.Program(d))


def target(fn):
    """-> (x, single, spec)"""
    base = fn.replace('TA_S_INT_', 'TA_INT_')
    if base in INT:
        return None, fn.startswith('TA_S_'), batch.int_specs(_ctx)[base]
    x, s = batch.split_name(fn)
    return x, s, None


def model_vals(ex, pr, o, m):
    """counterexample of one failed obligation, preferring small index ranges"""
    bad = zb(And(o.cond, Not(o.goal)))
    for lim in (120, 2000, 100000):
        r, m2 = pr.sat(bad, ex.end <= lim, ex.start <= lim)
        if r == z3.sat:
            m = m2
            break
    if m is None:
        return None
    v = {}
    for d in m.decls():
        n = d.name()
        if n in ('startIdx', 'endIdx') or n.startswith('optIn') or n.startswith('G_') or n.endswith('.null'):
            v[n] = str(m[d])
    return v


def prove_one(job):
    fn, opts, kind, usehints, limit = job
    t0 = time.time()
    opts = dict(opts)
    key = key_of(fn, opts)
    R = dict(fn=fn, key=key, opts=dict(opts), alias=None, status='undecided', msg='', nobl=0, ntriv=0, proved=0, failed=[], unknown=[], cov=[], q=0, ts=0.0, inv=0, kinds={})
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        ctx = _ctx
        if fn not in ctx.prog:
            raise Unsupported('function %s not found in the library' % fn)
        x, single, spec = target(fn)
        sel = KINDS[kind]
        if opts.pop('unroll', None):
            ctx = batch.Ctx(ctx.prog.unrolled(fn))
        if opts.get('skolem'):
            opts['cand_hooks'] = [batch.skolem_cands]
        if spec is not None:
            opts['self'] = fn
        ex = batch.run_batch(ctx, fn, x or spec['base'], single, spec=spec, opts=opts)
        batch.post_batch(ex, x or spec['base'], fn, spec)
        tot = [0, 0.0]
        hint = load_hints(key) if usehints else None
        obls = [o for o in ex.obls if sel(o)]
        R['ntriv'] = sum(getattr(ex, 'trivial', {}).values())
        for h in ([hint, None] if hint is not None else [None]):
            pr = Prover(ex, extra_anchors=batch.anchors_of(ex), timeout=20000, hints=h)
            pr.infer()
            res = pr.discharge(obls)
            tot[0] += pr.queries
            tot[1] += pr.t_solver
            R['hinted'] = h is not None
            if all(st == 'proved' for _, st, _ in res):
                break
        R['cov'] = [(n, str(pr.sat(c)[0])) for n, c in ex.covers]
        R['nobl'] = len(res)
        R['proved'] = sum(st == 'proved' for _, st, _ in res)
        for o, st, m in res:
            R['kinds'][o.kind] = R['kinds'].get(o.kind, 0) + 1
            if st == 'failed' and len(R['failed']) < 6:
                R['failed'].append(dict(name=o.name(), kind=o.kind, model=model_vals(ex, pr, o, m)))
            elif st == 'failed':
                R['failed'].append(dict(name=o.name(), kind=o.kind, model=None))
            elif st == 'unknown':
                R['unknown'].append(o.name())
        for n, r in R['cov']:
            if r == 'unsat':
                R['failed'].append(dict(name='%s: vacuity: %s' % (fn, n), kind='vacuity', model=None))
        R['q'], R['ts'], R['inv'] = tot[0], tot[1], len(pr.invs)
        R['invkeys'] = sorted(c.key for c in pr.invs) if pr.hints is None else None
        R['status'] = 'failed' if R['failed'] else 'undecided' if R['unknown'] else 'proved'
        if R['unknown']:
            R['msg'] = 'solver gave no answer for: ' + '; '.join(R['unknown'][:3])
        if not R['nobl']:
            R['status'], R['msg'] = 'proved', 'no obligation of this kind'
    except Late:
        R['msg'] = 'time limit of %d s' % limit
    except (Unsupported, IRError, extract.ExtractError) as e:
        R['msg'] = 'out of reach: %s' % e
    except Exception:
        R['msg'] = 'out of reach (internal): ' + traceback.format_exc()[-400:]
    finally:
        signal.alarm(0)
    R['wall'] = time.time() - t0
    return R


def strategies(fn):
    s = STRAT.get(fn, {})
    out = [s]
    for o in ({}, {'unroll': True}, {'fpint': True}, {'skolem': True}):
        if o not in out:
            out.append(o)
    return out


def slow_key(fn):
    b = fn.replace('TA_S_', 'TA_')[3:]
    return SLOW.index(b) if b in SLOW else 99


def run_jobs(d, jobs, procs=8):
    """jobs: (fn, opts, kind, use hints, time limit)"""
    jobs = sorted(jobs, key=lambda j: slow_key(j[0]))
    with Pool(procs, initializer=_init, initargs=(d,), maxtasksperchild=16) as p:
        for r in p.imap_unordered(prove_one, jobs):
            yield r


def batch_functions():
    r = []
    for x in sorted(batch.PARAMS):
        r += ['TA_' + x, 'TA_S_' + x]
    return r + [p for i in INT for p in (i, i.replace('TA_INT_', 'TA_S_INT_'))]
