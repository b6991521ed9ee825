"""Builds and runs the concrete contract oracle (replay/oracle.c) on /repo's working tree."""
import os, subprocess, tempfile, shutil, atexit, json, glob, re
from concurrent.futures import ThreadPoolExecutor
from . import sigs, gendriver

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
CDIR = REPO + '/ta-lib-rt/c'
CC = ['clang-18', '-w', '-O1', '-g', '-fno-omit-frame-pointer', '-ffp-contract=off', '-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero,float-cast-overflow,function,shift', '-fno-sanitize-recover=undefined', '-DNDEBUG']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=6000:print_summary=0', UBSAN_OPTIONS='print_stacktrace=0')


def incs():
    r = []
    for d in ('include', 'src/ta_abstract', 'src/ta_abstract/frames', 'src/ta_common', 'src/ta_func'):
        r += ['-I', os.path.join(CDIR, d)]
    if not os.path.exists(CDIR + '/include/ta_config.h'):
        r += ['-I', ROOT + '/spec/fallback']
    return r


def cnum(v):
    return repr(float(v))


def params_h(path, readlo0):
    P = json.load(open(ROOT + '/spec/params.json'))
    o = ['typedef struct { double min, max, def; } optpar;', 'typedef struct { const char *name; optpar o[10]; int readlo0; } fnpar;', 'static const fnpar fnpar_tab[] = {']
    for x in sorted(P):
        q = ','.join('{%s,%s,%s}' % (cnum(p['min']), cnum(p['max']), cnum(p['default'])) for p in P[x]['opts'])
        o.append('{"%s",{%s},%d},' % (x, q or '{0,0,0}', x in readlo0))
    o.append('};\nstatic const int fnpar_n = sizeof(fnpar_tab)/sizeof(fnpar_tab[0]);')
    open(path, 'w').write('\n'.join(o) + '\n')


class Oracle:
    def __init__(s, readlo0=(), main='oracle.c', cc=None, extra_src=()):
        s.d = tempfile.mkdtemp(prefix='vp_orc_')
        s.pid = os.getpid()
        atexit.register(s.clean)
        d = s.d
        gendriver.gen(d + '/fntab.c', sigs.load())
        params_h(d + '/params.h', readlo0)
        cc = cc or CC
        srcs = sorted(glob.glob(CDIR + '/src/ta_func/*.c')) + sorted(glob.glob(CDIR + '/src/ta_common/*.c')) + list(extra_src) + [d + '/fntab.c', ROOT + '/replay/' + main]
        objs = []
        jobs = []
        for k, f in enumerate(srcs):
            ob = '%s/%d.o' % (d, k)
            objs.append(ob)
            jobs.append(cc + incs() + ['-I', ROOT + '/replay', '-I', d, '-c', f, '-o', ob])

        def run(c):
            return subprocess.run(c, capture_output=True, text=True)
        with ThreadPoolExecutor(8) as ex:
            for c, r in zip(jobs, ex.map(run, jobs)):
                if r.returncode:
                    raise RuntimeError('compile failed: %s\n%s' % (c[-3], r.stderr[-1500:]))
        s.exe = d + '/oracle'
        r = run(cc + objs + ['-lm', '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free', '-o', s.exe])
        if r.returncode:
            raise RuntimeError('link failed\n' + r.stderr[-1500:])
        for o in objs:
            os.unlink(o)

    def clean(s):
        if os.getpid() == s.pid:
            shutil.rmtree(s.d, ignore_errors=True)

    def call(s, *args, timeout=600):
        try:
            r = subprocess.run([s.exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, env=ENV, errors='replace')
        except subprocess.TimeoutExpired:
            return None, ''
        return r, r.stdout

    def parse(s, out):
        fails = []
        for m in re.finditer(r'(?m)^FAIL class=(\S+) case=(\S+) what=(.*)$', out):
            fails.append(m.groups())
        n = re.search(r'(?m)^cases=(\d+)', out)
        return fails, int(n.group(1)) if n else 0

    def search(s, mode, x, single, seed, count, secs):
        r, out = s.call('search', mode, x, int(single), seed, count, secs, timeout=secs * 3 + 120)
        return s.parse(out)

    def case(s, line):
        r, out = s.call('case', line, timeout=120)
        if r is None:
            return [('hang', line, 'no result within 120 s')]
        f = s.parse(out)[0]
        if not f and r.returncode not in (0, 1):
            f = [('memory', line, 'stopped by sanitizer/signal: ' + ' '.join(re.findall(r'(?:runtime error|ERROR: AddressSanitizer).*', r.stderr)[:2])[:200])]
        return f
