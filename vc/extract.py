"""Extraction of the verified text: clang emits LLVM IR for every C file of the library as
it stands in the working tree, opt brings it to SSA. Nothing is rewritten by hand.
What is dropped/changed: see DESIGN.md (section Extraction)."""
import os, subprocess, tempfile, shutil, glob, sys, atexit
from concurrent.futures import ThreadPoolExecutor
from . import ir

REPO = os.environ.get('VP_REPO', '/repo')
CDIR = REPO + '/ta-lib-rt/c'
CLANG = ['clang-18', '-w', '-O0', '-gline-tables-only', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
         '-ffp-contract=off', '-DNDEBUG', '-DTA_LIB_RT_SHARED']
PASSES = 'always-inline,sroa<preserve-cfg>,simplifycfg,loop-simplify,lcssa,early-cse'


UNROLL = 'loop-simplify,lcssa,loop(loop-rotate),loop-unroll<O2;full-unroll-max=4;no-partial;no-peeling;no-runtime;no-upperbound>,sroa<preserve-cfg>,simplifycfg,loop-simplify,lcssa,early-cse'


class ExtractError(Exception):
    pass


def incs(cdir=None):
    cdir = cdir or CDIR
    r = []
    for d in ('include', 'src/ta_abstract', 'src/ta_abstract/frames', 'src/ta_common', 'src/ta_func'):
        r += ['-I', os.path.join(cdir, d)]
    here = os.path.dirname(os.path.abspath(__file__))
    if not os.path.exists(os.path.join(cdir, 'include', 'ta_config.h')):
        r += ['-I', os.path.join(here, '..', 'spec', 'fallback')]
    return r


# relational checks: no simplification, so that both variants keep the control flow clang gave them
PASSES_REL = 'always-inline,sroa<preserve-cfg>'
PASSES_CANON = 'always-inline,function(sroa,simplifycfg,loop-simplify,lcssa,loop(loop-rotate),early-cse,gvn,instsimplify,reassociate,simplifycfg,adce)'


def one(src, outdir, extra=(), passes=None):
    import re
    b = os.path.basename(src)[:-2]
    l0 = os.path.join(outdir, b + '.l0')
    ll = os.path.join(outdir, b + '.ll')
    r = subprocess.run(CLANG + list(extra) + incs() + ['-S', '-emit-llvm', src, '-o', l0], capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('clang failed on %s:\n%s' % (src, r.stderr[-2000:]))
    t = open(l0).read()
    t = re.sub(r'(?m)^(attributes #\d+ = \{.*?)noinline ', r'\1', t)
    t = re.sub(r'(?m)^define internal (.*?) #(\d+)(.*)\{$', r'define internal \1 alwaysinline #\2\3{', t)
    open(l0, 'w').write(t)
    r = subprocess.run(['opt-18', '-S', '-passes=' + (passes or PASSES), l0, '-o', ll], capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('opt failed on %s:\n%s' % (src, r.stderr[-2000:]))
    os.unlink(l0)
    return ll


_tmp = []


def workdir():
    d = tempfile.mkdtemp(prefix='vp_ir_')
    _tmp.append((d, os.getpid()))
    return d


@atexit.register
def _clean():
    for d, pid in _tmp:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)


def sources(which=('ta_func',)):
    out = []
    for w in which:
        if w == 'ta_abstract':
            out += [p for p in sorted(glob.glob(CDIR + '/src/ta_abstract/ta_*.c'))]
        elif w == 'tables':
            out += sorted(glob.glob(CDIR + '/src/ta_abstract/tables/*.c'))
        elif w == 'frames':
            out += sorted(glob.glob(CDIR + '/src/ta_abstract/frames/*.c'))
        else:
            out += sorted(glob.glob(CDIR + '/src/%s/*.c' % w))
    return out


def extract(which=('ta_func',), only=None, passes=None):
    """-> directory with .ll files; 'only' restricts to base names"""
    d = workdir()
    srcs = sources(which)
    if only is not None:
        srcs = [s for s in srcs if os.path.basename(s)[:-2] in only]
    with ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(lambda s: one(s, d, passes=passes), srcs))
    return d


class Program:
    """lazily parsed set of modules; resolves externally visible functions across files"""

    def __init__(s, d):
        s.d = d
        s.mods = {}
        s.index = {}
        s.gindex = {}
        import re
        for p in sorted(glob.glob(d + '/*.ll')):
            for m in re.finditer(r'(?m)^define (.*?)@([\w.$]+)\(', open(p, errors='replace').read()):
                if 'internal' not in m.group(1).split():
                    s.index[m.group(2)] = p
        s.defd = set(s.index)

    def module(s, p):
        if p not in s.mods:
            s.mods[p] = ir.parse_module(p)
        return s.mods[p]

    def func(s, name, frm=None):
        if frm is not None and name in frm.funcs:
            return frm.funcs[name]
        if name in s.index:
            return s.module(s.index[name]).funcs[name]
        return None

    def __contains__(s, name):
        return name in s.index

    def __getitem__(s, name):
        f = s.func(name)
        if f is None:
            raise KeyError(name)
        return f

    def unrolled(s, name):
        """view of the program in which the file defining `name` has its constant-trip loops
        (at most 4 iterations) fully unrolled by opt"""
        p = s.index[name]
        q = os.path.join(s.d, 'unr')
        os.makedirs(q, exist_ok=True)
        q = os.path.join(q, os.path.basename(p))
        if not os.path.exists(q):
            t = '%s.%d' % (q, os.getpid())
            r = subprocess.run(['opt-18', '-S', '-passes=' + UNROLL, p, '-o', t], capture_output=True, text=True)
            if r.returncode:
                raise ExtractError('opt failed on %s:\n%s' % (p, r.stderr[-2000:]))
            os.rename(t, q)
        v = Program.__new__(Program)
        v.d, v.mods, v.gindex = s.d, s.mods, s.gindex
        v.index = {k: (q if f == p else f) for k, f in s.index.items()}
        v.defd = s.defd
        return v
