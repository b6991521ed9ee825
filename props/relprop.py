"""C12: the float variant performs the computation of the double variant (vc/rel.py)."""
import time
from concurrent.futures import ThreadPoolExecutor
from .common import *
from vc import run, extract, batch, rel
from vc.ir import IRError
from lib import orc

# not in lock step on the pinned tree (block copy against copy loop, different temporary
# buffers): decided by the bounded differential check, never counted as proved
NOTLOCK = ('BBANDS', 'CMO', 'RSI', 'WMA', 'DEMA', 'STOCH', 'STOCHF')
# single-precision arithmetic whose rounding shows even on the dyadic test data
TOL = ('CCI', 'DIV', 'NVI', 'PVI', 'PVT')


def inpos(n):
    if n.startswith('TA_INT_'):
        return (2,)
    x = n[3:]
    if x in batch.PARAMS:
        return tuple(range(2, 2 + len(batch.PARAMS[x]['ins'])))
    return None


def sname(n):
    return n.replace('TA_', 'TA_S_', 1)


def prove(progs, n):
    """-> ('proved', Rel) | ('failed', message) | ('undecided', message)"""
    msg, st = None, 'failed'
    for p in progs:
        try:
            prog = p()
            for f in (n, sname(n)):
                if f not in prog:
                    return 'undecided', '%s not found' % f
            return 'proved', rel.compare(prog, n, sname(n), inpos)
        except rel.Diverge as e:
            if msg is None:
                msg = 'operation-by-operation equality of %s and %s: %s%s' % (n, sname(n), e, ' (line %s of the source)' % e.line if e.line else '')
        except (IRError, extract.ExtractError) as e:
            msg, st = str(e), 'undecided'
    return st, msg


def hunt(O, n, secs):
    tried = 0
    fns = [batch.split_name(f)[0] for f in run_affected(n)]
    for x in fns:
        for s in ((3,) if x in TOL else (2,)):
            for m in ('other',):
                r, k = O.search(m, x, s, SEED, 60000, secs)
                tried += k
                r = [q for q in r if q[0] == 'sd']
                if r:
                    return r[0], tried
    return None, tried


def run_affected(n):
    from .batchprops import affected
    return affected(n)


class Lazy:
    def __init__(s, passes):
        s.passes, s.p = passes, None

    def __call__(s):
        if s.p is None:
            s.p = extract.Program(extract.extract(('ta_func', 'ta_common'), passes=s.passes))
        return s.p


def check(pid):
    R = Report(pid, 'proof')
    progs = [Lazy(extract.PASSES_REL), Lazy(None), Lazy(extract.PASSES_CANON)]
    names = ['TA_' + x for x in sorted(batch.PARAMS)] + list(run.INT)
    ok, bad, far, calls = {}, {}, {}, set()
    t1 = time.time()
    for n in names:
        st, r = prove(progs, n)
        if st == 'proved':
            ok[n] = r.obl
            calls |= r.calls
            if r.farith:
                far[n] = len(r.farith)
        else:
            bad[n] = (st, r)
    tp = time.time() - t1
    # a callee pair that is not itself proved
    bounded, cases = {}, 0
    if bad or TIER == 'thorough':
        O = orc.Oracle(readlo0=batch.READLO0)
        todo = list(bad) + ([n for n in names if n not in bad and n not in run.INT] if TIER == 'thorough' else [])
        secs = 20 if TIER == 'thorough' else 25 if len(bad) <= 24 else 8
        with ThreadPoolExecutor(8) as ex:
            found = dict(zip(todo, ex.map(lambda n: hunt(O, n, secs), todo)))
        for n in todo:
            hit, k = found[n]
            cases += k
            if hit:
                R.violation('%s differs from %s: %s' % (sname(n), n, hit[2]), dict(function=n, case=hit[1], what=hit[2], cls='sd', obligations=[bad[n][1]] if n in bad else []), True)
            elif n in bad and bad[n][0] == 'failed' and n[3:] not in NOTLOCK:
                R.violation(bad[n][1], dict(function=n, obligations=[bad[n][1]], concrete_cases_tried=k), False)
            elif n in bad:
                bounded[n] = dict(reason=bad[n][1], concrete_cases=k)
                print('bounded (not proved): %s: %s; %d concrete cases hold' % (n, bad[n][1][:200], k))
    R.assume = [
        'arithmetic of the float variant whose two operands are raw input prices may be carried out in single precision (%d functions do so: %s)' % (len(far), ', '.join(sorted(far))),
        'clang-18 -O0 translates both variants of a function alike; sroa (and inlining of static helpers) preserves behaviour',
        'inputs, outputs and globals do not overlap',
    ]
    R.cov = dict(obligations=sum(ok.values()), discharged=sum(ok.values()),
                 checker_cmd='vc/rel.py: lock-step relational proof over LLVM IR of /repo generated on this run (syntactic back end, no solver)',
                 trusted_base=['clang-18/opt-18', 'vc/ir.py, vc/rel.py'],
                 function_pairs_proved=len(ok), callee_pairs=sorted('%s/%s' % c for c in calls),
                 functions_with_single_precision_arithmetic=far, solver_time_s=0.0, proof_time_s=round(tp, 1),
                 bounded_functions=bounded, concrete_cases_run=cases)
    return R.finish()


CHECKS = {'C12': check}
