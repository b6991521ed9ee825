"""Reporting for path-wise contracts, with a concrete driver (replay/absdrv.c) that looks for a
failing call on the real code when an obligation fails."""
import subprocess, tempfile, os, shutil, re, glob, atexit, json
from .common import *
from lib import orc
import z3

TRUSTED = ['clang-18 front end and opt-18 passes translate the C source faithfully', 'the path-wise executor vc/pse.py and z3 %s (bit vectors, IEEE comparisons)' % z3.get_version_string()]


def spec_h(d):
    """absspec.h (expected descriptions, from the committed spec) and stubs.c (recording TA_X entry points)"""
    from . import absprop as A, globprop as G
    from lib import sigs
    P = A.P
    q = json.dumps
    mx = str(max([len(P[x]['opts']) for x in P] + [1]))
    o = ['#ifndef ABSSPEC_H', '#define ABSSPEC_H', '#include <stdint.h>',
         'typedef struct { const char *fn; int n; uint64_t w[64]; } recd; extern recd rec; extern int rec_n, rec_ret;',
         'void rec_start(const char*); void rec_i(int); void rec_d(double); void rec_p(const void*);',
         'typedef struct { const char *name, *group, *camel, *hint; int flags, nin, nopt, nout; struct { int price, mask, flags; const char *name; } in[4]; struct { int type; const char *name, *display; double def, min, max; } opt[%s]; struct { int real; const char *name; int flags; } out[4]; } aspec;' % mx,
         '#ifdef ABS_TABLE', 'static const aspec aspecs[] = {']
    for x in sorted(P):
        f = P[x]
        ins = []
        for g in A.groups_of(x):
            if g[0] == 'price':
                ins.append('{1,%d,%s,0}' % (sum(1 << A.PRICE.index(n[2:]) for n in g[1]), '|'.join('TA_IN_PRICE_' + n[2:].upper() for n in g[1])))
            else:
                nm = 'inPeriods' in (f['ins'][0]['name'], g[1])
                ins.append('{0,0,0,%s}' % ('0' if nm else q(g[1])))
        xo = {z['name']: z for z in f['xmlouts']}
        opts = ['{%s,%s,%s,%r,%r,%r}' % ({'Double': "'d'", 'Integer': "'i'", 'MA Type': "'m'"}[z['type']], q(z['name']), q(z['display']), float(z['default']), float(z['min']), float(z['max'])) for z in f['opts']]
        outs = ['{%d,%s,%s}' % (z['kind'] == 'double', q(z['name']), '|'.join([A.OFLAG[n] for n in xo[z['name']]['flags']] or ['0'])) for z in f['outs']]
        o.append('{%s,%s,%s,%s,%s,%d,%d,%d,{%s},{%s},{%s}},' % (q(x), q(f['group']), q(f['camel']), q(f['hint']), '|'.join([A.FLAG[n] for n in f['flags']] or ['0']), len(ins), len(opts), len(outs), ','.join(ins), ','.join(opts or ['{0}']), ','.join(outs)))
    o.append('};\nstatic const int naspec = sizeof aspecs / sizeof *aspecs;')
    o.append('#define NGROUPS %d\nstatic const char *const groups[] = {%s};' % (len(A.GROUPS), ','.join(map(q, A.GROUPS))))
    o.append('static const char *const manames[] = {%s};' % ','.join(map(q, json.load(open(ROOT + '/spec/manames.json')))))
    rng = ['TA_RangeType_RealBody', 'TA_RangeType_HighLow', 'TA_RangeType_Shadows']
    o.append('#define NCANDLE %d\nstatic const struct { int id, range, period; double factor; } candle[] = {%s};' % (len(G.CANDLE), ','.join('{TA_%s,%s,%d,%r}' % (c[0], rng[c[1]], c[2], c[3]) for c in G.CANDLE)))
    o.append('#define NRET %d\nstatic const struct { int v; const char *n; } rets[] = {%s};' % (len(G.RET), ','.join('{%s,"%s"}' % (n, n) for n in G.RET)))
    o += ['#endif', '#endif']
    open(d + '/absspec.h', 'w').write('\n'.join(o) + '\n')
    s = ['#include <stdio.h>', '#include "ta_func.h"', '#include "absspec.h"']
    R = {'int': 'rec_i', 'double': 'rec_d', 'TA_MAType': 'rec_i'}
    for x, g in sorted(sigs.load().items()):
        opt = [(p['type'] + ' ' + p['name'], '%s(%s);' % (R[p['type']], p['name'])) for p in g['opts']]
        ptr = lambda t, n: (t + ' ' + n, 'rec_p(%s);' % n)
        I = lambda n: ('int ' + n, 'rec_i(%s);' % n)
        arrs = [ptr('const double*', p['name']) for p in g['ins']]
        smp = [('const double ' + p['name'], 'rec_d(%s);' % p['name']) for p in g['ins']]
        nb = [ptr('int*', 'outBegIdx'), ptr('int*', 'outNBElement')]
        outs = [ptr(p['kind'] + '*', p['name']) for p in g['outs']]
        st, pst, fl = ptr('struct TA_%s_State*' % x, 'st'), ptr('struct TA_%s_State**' % x, 'st'), ptr('FILE*', 'f')
        for sf, rt, a in (('', 'TA_RetCode', [I('startIdx'), I('endIdx')] + arrs + opt + nb + outs), ('_Lookback', 'int', opt), ('_StateInit', 'TA_RetCode', [pst] + opt), ('_State', 'TA_RetCode', [st] + smp + outs),
                          ('_BatchState', 'TA_RetCode', [st, I('startIdx'), I('endIdx')] + arrs + nb + outs), ('_StateFree', 'TA_RetCode', [pst]), ('_StateSave', 'TA_RetCode', [st, fl]), ('_StateLoad', 'TA_RetCode', [pst, fl])):
            s.append('%s TA_%s%s(%s){rec_start("TA_%s%s");%sreturn rec_ret;}' % (rt, x, sf, ', '.join(v[0] for v in a) or 'void', x, sf, ''.join(v[1] for v in a)))
    open(d + '/stubs.c', 'w').write('\n'.join(s) + '\n')


_D = []


def driver():
    """builds replay/absdrv.c against the real abstract and settings code -> path"""
    if _D:
        return _D[0]
    d = tempfile.mkdtemp(prefix='vp_abs_')
    atexit.register(shutil.rmtree, d, True)
    C = orc.CDIR
    srcs = [p for w in ('ta_common', 'ta_abstract/frames', 'ta_abstract/tables') for p in sorted(glob.glob(C + '/src/%s/*.c' % w))]
    srcs += [C + '/src/ta_func/ta_utility.c'] + [C + '/src/ta_abstract/%s.c' % n for n in ('ta_abstract', 'ta_def_ui', 'ta_group_idx')] + [ROOT + '/replay/absdrv.c']
    spec_h(d)
    srcs.append(d + '/stubs.c')
    objs = ['%s/%d.o' % (d, k) for k in range(len(srcs))]
    cc = ['clang-18', '-w', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero,float-cast-overflow,function,shift', '-fno-sanitize-recover=undefined']
    inc = orc.incs() + ['-I', C + '/src/ta_abstract', '-I', C + '/src/ta_abstract/frames', '-I', ROOT + '/replay', '-I', d]

    def one(a):
        return subprocess.run(cc + inc + (['-DABS_TABLE'] if a[0].endswith('absdrv.c') else []) + ['-c', a[0], '-o', a[1]], capture_output=True, text=True)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for s, r in zip(srcs, ex.map(one, zip(srcs, objs))):
            if r.returncode:
                raise RuntimeError('compile failed: %s\n%s' % (s, r.stderr[-1200:]))
    r = subprocess.run(cc + objs + ['-lm', '-Wl,--wrap=malloc,--wrap=calloc,--wrap=free', '-o', d + '/drv'], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('link failed\n' + r.stderr[-1200:])
    for o in objs:
        os.unlink(o)
    _D.append(d + '/drv')
    return _D[0]


def drive(part, only=None):
    """-> list of failing cases on the real code, number of cases"""
    r = subprocess.run([driver(), part] + ([only] if only else []), capture_output=True, text=True, timeout=300, errors='replace', env=orc.ENV)
    f = re.findall(r'(?m)^FAIL (\S+) what=(.*)$', r.stdout)
    if r.returncode not in (0, 1) or (r.returncode == 1 and not f):
        at = re.findall(r'(?m)^AT (\S+)', r.stdout)
        f.append((at[-1] if at else 'start', 'stopped by a sanitizer or signal (%d): ' % r.returncode + ' '.join(re.findall(r'(?:runtime error|ERROR: AddressSanitizer).*', r.stderr)[:1])[:160]))
    n = re.search(r'(?m)^cases=(\d+)', r.stdout)
    return f, int(n.group(1)) if n else 0


def finish(R, W, part, functions, assume, extra=None):
    """W: Work or list of Work"""
    Ws = W if isinstance(W, list) else [W]
    fails = [f for w in Ws for f in w.fail]
    und = [u for w in Ws for u in w.undec]
    kf = {k['obligation']: k for k in known(R.pid)}
    rest = []
    for f in fails:
        k = [x for x in kf if f['name'].startswith(x)]
        if k:
            f['known'] = k[0]
        else:
            rest.append(f)
    for k in sorted({f['known'] for f in fails if 'known' in f}):
        R.known_finding('%s: %s' % (k, kf[k]['what']))
    bounded, cases = {}, 0
    if rest or und or TIER == 'thorough':
        try:
            hits, cases = drive(part)
        except Exception as e:
            hits = []
            print('concrete driver not available:', str(e)[:300])
        if hits:
            R.violation('%s: %s%s' % (hits[0][0], hits[0][1], '; failed obligation: ' + rest[0]['name'] if rest else ''), dict(driver=part, case=None, drive_case=hits[0][0], what=hits[0][1], all=hits[:20], obligations=rest[:20], undecided=und[:20]), True)
        elif rest:
            R.violation('obligation not discharged: %s' % '; '.join(f['name'] for f in rest[:3]), dict(obligations=rest[:20], concrete_cases_tried=cases), False)
        for u in und:
            bounded[u.split(':')[0]] = dict(reason=u, concrete_cases=cases)
            print('bounded (not proved): %s' % u[:300])
    nf = sum(len(w.fail) for w in Ws)
    R.assume = assume
    R.cov = dict(obligations=sum(w.n for w in Ws), discharged=sum(w.n for w in Ws) - nf, checker_cmd='vc/pse.py over LLVM IR generated from /repo on this run; z3 decides every path condition and obligation',
                 trusted_base=TRUSTED, functions_under_contract=len(functions), functions=functions if len(functions) < 60 else functions[:60], paths=sum(w.paths for w in Ws), solver_queries=sum(w.e.queries for w in Ws),
                 instructions_executed=sum(w.e.steps for w in Ws), bounded_functions=bounded, concrete_cases_run=cases)
    if extra:
        R.cov.update(extra)
    return R.finish()
