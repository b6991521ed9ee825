"""Evaluates constant expressions (offsetof, sizeof, enum values) against the headers of /repo."""
import subprocess, tempfile, os, shutil
from . import orc

_cache = {}


def probe(headers, exprs):
    k = (tuple(headers), tuple(exprs))
    if k in _cache:
        return _cache[k]
    d = tempfile.mkdtemp(prefix='vp_probe_')
    try:
        src = ''.join('#include "%s"\n' % h for h in headers) + '#include <stdio.h>\n#include <stddef.h>\nint main(void){' + ''.join('printf("%%lld\\n",(long long)(%s));' % e for e in exprs) + 'return 0;}\n'
        open(d + '/p.c', 'w').write(src)
        r = subprocess.run(['clang-18', '-w'] + orc.incs() + [d + '/p.c', '-o', d + '/p'], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('probe: ' + r.stderr[-800:])
        o = subprocess.run([d + '/p'], capture_output=True, text=True).stdout.split()
        _cache[k] = dict(zip(exprs, map(int, o)))
        return _cache[k]
    finally:
        shutil.rmtree(d, ignore_errors=True)
