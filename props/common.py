"""Shared reporting: evidence files, known findings, violations."""
import json, os, sys, time, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = ROOT + '/evidence'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'


def known(pid):
    p = ROOT + '/known_findings.json'
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'known']


class Report:
    def __init__(s, pid, level):
        s.pid, s.level, s.t0 = pid, level, time.time()
        s.viol, s.known = [], []
        s.cov, s.assume = {}, []

    def known_finding(s, what):
        s.known.append(what)
        print('KNOWN-FINDING: property=%s %s' % (s.pid, what), flush=True)

    def violation(s, name, data, found):
        """found: a concrete failing input was reproduced on the real code"""
        os.makedirs(EVID + '/replays', exist_ok=True)
        h = hashlib.sha1(name.encode()).hexdigest()[:10]
        p = '%s/replays/%s-%s.json' % (EVID, s.pid, h)
        data = dict(data, property=s.pid, violation=name)
        json.dump(data, open(p, 'w'), indent=1, default=str)
        s.viol.append(name)
        print('violated: %s' % name[:400])
        print('VIOLATION property=%s replay=%s%s' % (s.pid, p, '' if found else ' no-failing-input-found'), flush=True)

    def finish(s):
        os.makedirs(EVID, exist_ok=True)
        e = dict(property=s.pid, tier=TIER, seed=SEED, level=s.level, coverage=s.cov, assumptions=s.assume, wall_s=round(time.time() - s.t0, 2), violations=len(s.viol))
        if s.known:
            e['coverage']['known_findings'] = s.known
        p = '%s/%s.json' % (EVID, s.pid)
        json.dump(e, open(p + '.tmp', 'w'), indent=1, default=str)
        os.replace(p + '.tmp', p)
        print('%s: %s in %.0f s' % (s.pid, 'violated' if s.viol else 'holds on everything explored', time.time() - s.t0), flush=True)
        return 1 if s.viol else 0


def replay(path):
    d = json.load(open(path))
    print('violation:', d.get('violation'))
    if d.get('case'):
        from lib import orc
        from vc import batch
        o = orc.Oracle(readlo0=batch.READLO0)
        f = o.case(d['case'])
        for x in f:
            print('FAIL class=%s case=%s what=%s' % x)
        return 1 if f else 0
    if d.get('stmdriver'):
        from . import streamprop
        f, _ = streamprop.drive(d['stmdriver'], d['stmcase'].split(':')[0], d['stmcase'])
        for x in f:
            print('FAIL case=%s what=%s' % x)
        return 1 if f else 0
    if d.get('driver'):
        from . import absorc
        f, _ = absorc.drive(d['driver'], d['drive_case'])
        for x in f:
            print('FAIL case=%s what=%s' % x)
        return 1 if f else 0
    print(json.dumps(d, indent=1)[:3000])
    return 1
