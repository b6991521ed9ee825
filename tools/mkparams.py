"""One-off: the documented parameter ranges/defaults/inputs/outputs (ta_func_api.xml and
ta_func.h of the pinned commit) -> spec/params.json, which is committed and reviewed.
Checks read spec/params.json, never the XML of the tree under test."""
import xml.etree.ElementTree as E, json, sys
sys.path.insert(0, '/verif')
from lib import sigs
S = sigs.load()
r = E.parse('/repo/ta-lib-rt/ta_func_api.xml').getroot()
out = {}
for g in r.iter():
    if g.find('Abbreviation') is None:
        continue
    n = g.find('Abbreviation').text
    reg = [f for f in g.iter('Function') if f.find('Type').text == 'Regular']
    f = reg[0]
    opts = []
    for o, so in zip(f.iter('OptionalInputArgument'), S[n]['opts']):
        d = {'name': so['name'], 'type': o.find('Type').text, 'display': o.find('Name').text, 'help': o.find('ShortDescription').text}
        ty = d['type']
        cv = (lambda x: int(x)) if ty != 'Double' else float
        d['default'] = cv(o.find('DefaultValue').text)
        rg = o.find('Range')
        if rg is not None:
            d['min'], d['max'] = cv(rg.find('Minimum').text), cv(rg.find('Maximum').text)
        else:
            d['min'], d['max'] = 0, 9   # enum TA_MAType
        opts.append(d)
    assert len(opts) == len(S[n]['opts']), n
    ins = [{'type': i.find('Type').text, 'name': i.find('Name').text} for i in f.iter('RequiredInputArgument')]
    outs = [{'type': i.find('Type').text, 'name': i.find('Name').text, 'flags': [x.text for x in i.iter('Flag')]} for i in f.iter('OutputArgument')]
    out[n] = {'group': g.find('GroupId').text, 'camel': g.find('CamelCaseName').text, 'hint': g.find('ShortDescription').text,
              'flags': [x.text for x in (g.find('Flags').iter('Flag') if g.find('Flags') is not None else [])],
              'xmlins': ins, 'xmlouts': outs, 'opts': opts, 'ins': S[n]['ins'], 'outs': S[n]['outs'], 'protos': S[n]['protos']}
json.dump(out, open('/verif/spec/params.json', 'w'), indent=0, sort_keys=True)
print(len(out))
