"""mkseed(id, prop, [(file, old, new, nth)], demo_c, needs, breaks): writes seeded/<id>/ (patch made in /repo and undone)"""
import subprocess, os, json
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
DEMO = '''#!/bin/bash
# builds demo.c against the library of the working tree; exit 0: property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -w -O1 %s -I ta-lib-rt/c/include -I ta-lib-rt/c/src/ta_common -I ta-lib-rt/c/src/ta_abstract -I ta-lib-rt/c/src/ta_func "$D/demo.c" %s -lm -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
'''


def mkseed(id, prop, edits, demo_c, needs, breaks, flags='', lib='_build/lib/libta-lib-rt.a'):
    d = '%s/seeded/%s' % (ROOT, id)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new, nth in edits:
            p = '/repo/ta-lib-rt/c/' + f
            s = open(p, encoding='latin-1', newline='').read()
            parts = s.split(old)
            assert len(parts) > nth + 1, (id, f, old, len(parts))
            s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
            open(p, 'w', encoding='latin-1', newline='').write(s)
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    assert diff
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.c', 'w').write(demo_c)
    open(d + '/demo.sh', 'w').write(DEMO % (flags, lib))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
