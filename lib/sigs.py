"""Signatures of the public TA functions, read from /repo's ta_func.h on every run.

For every indicator X:  {name, ins:[{name,kind}], opts:[{name,type,range}], outs:[{name,kind}]}
kind: 'double' | 'int'; opts type: 'int' | 'double' | 'TA_MAType'.
"""
import re, os

REPO = os.environ.get('VP_REPO', '/repo')
CDIR = REPO + '/ta-lib-rt/c'


def _strip(t):
    t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
    return re.sub(r'//[^\n]*', ' ', t)


def protos(text):
    """all 'RET NAME( args );' prototypes -> {name: [argstr,...]}"""
    t = _strip(text)
    res = {}
    for m in re.finditer(r'(?:TA_LIB_API\s+)?(TA_RetCode|int)\s+(TA_\w+)\s*\(([^;{}]*?)\)\s*;', t):
        args = [re.sub(r'\s+', ' ', a).strip() for a in m.group(3).split(',')]
        res.setdefault(m.group(2), (m.group(1), args))
    return res


def load(cdir=None):
    cdir = cdir or CDIR
    text = open(cdir + '/include/ta_func.h', errors='replace').read()
    pr = protos(text)
    sigs = {}
    for n, (ret, args) in pr.items():
        if not n.endswith('_Lookback'):
            continue
        x = n[3:-9]
        if 'TA_' + x not in pr:
            continue
        ins, opts, outs = [], [], []
        for a in pr['TA_' + x][1]:
            m = re.match(r'^(.*?)\s*(\**)\s*(\w+)\s*(\[\])?$', a)
            ty, star, nm, arr = m.group(1).strip(), m.group(2), m.group(3), m.group(4)
            if nm in ('startIdx', 'endIdx', 'outBegIdx', 'outNBElement'):
                continue
            if nm.startswith('optIn'):
                opts.append({'name': nm, 'type': ty})
            elif arr and ty.startswith('const'):
                ins.append({'name': nm, 'kind': ty.split()[1]})
            elif arr:
                outs.append({'name': nm, 'kind': ty})
            else:
                raise Exception('unparsed arg %r of %s' % (a, x))
        sigs[x] = {'name': x, 'ins': ins, 'opts': opts, 'outs': outs, 'protos': sorted(p for p in pr if p == 'TA_' + x or p == 'TA_S_' + x or re.match(r'TA_%s_(Lookback|StateInit|State|BatchState|StateFree|StateSave|StateLoad)$' % re.escape(x), p))}
    return sigs


if __name__ == '__main__':
    s = load()
    print(len(s))
    from collections import Counter
    print(Counter(len(v['protos']) for v in s.values()))
    print(Counter(o['type'] for v in s.values() for o in v['opts']))
    print(Counter(i['kind'] for v in s.values() for i in v['ins']), Counter(i['kind'] for v in s.values() for i in v['outs']))
    print(s['MAVP'])
