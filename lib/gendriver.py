"""Generates the C function table (uniform wrappers around every public TA function)
used by the replay / concrete-search drivers. Generated on every run from /repo's headers."""
import sys, os

from . import sigs


def gen(out, sg=None):
    sg = sg or sigs.load()
    o = []
    w = o.append
    w('#include <stdio.h>\n#include <string.h>\n#include "ta_func.h"\n#include "ta_common.h"\n#include "fntab.h"')
    for x, s in sorted(sg.items()):
        opts = ''.join(', ' + ('o[%d].d' % i if p['type'] == 'double' else '(%s)o[%d].i' % (p['type'], i)) for i, p in enumerate(s['opts']))
        lopts = opts[2:]
        ins = ''.join(', (const double*)in[%d]' % i for i in range(len(s['ins'])))
        fins = ''.join(', (const float*)in[%d]' % i for i in range(len(s['ins'])))
        outs = ''.join(', (%s*)out[%d]' % (p['kind'], i) for i, p in enumerate(s['outs']))
        vins = ''.join(', v[%d]' % i for i in range(len(s['ins'])))
        w('static int lb_%s(const optv*o){return TA_%s_Lookback(%s);}' % (x, x, lopts))
        w('static int ba_%s(int s,int e,const void*const*in,const optv*o,int*b,int*n,void*const*out){return TA_%s(s,e%s%s,b,n%s);}' % (x, x, ins, opts, outs))
        w('static int sb_%s(int s,int e,const void*const*in,const optv*o,int*b,int*n,void*const*out){return TA_S_%s(s,e%s%s,b,n%s);}' % (x, x, fins, opts, outs))
        w('static int si_%s(void**st,const optv*o){return TA_%s_StateInit((struct TA_%s_State**)st%s);}' % (x, x, x, opts))
        w('static int st_%s(void*st,const double*v,void*const*out){return TA_%s_State((struct TA_%s_State*)st%s%s);}' % (x, x, x, vins, outs))
        w('static int bs_%s(void*st,int s,int e,const void*const*in,int*b,int*n,void*const*out){return TA_%s_BatchState((struct TA_%s_State*)st,s,e%s,b,n%s);}' % (x, x, x, ins, outs))
        w('static int sf_%s(void**st){return TA_%s_StateFree((struct TA_%s_State**)st);}' % (x, x, x))
        w('static int ss_%s(void*st,FILE*f){return TA_%s_StateSave((struct TA_%s_State*)st,f);}' % (x, x, x))
        w('static int sl_%s(void**st,FILE*f){return TA_%s_StateLoad((struct TA_%s_State**)st,f);}' % (x, x, x))
    w('const fnent fntab[] = {')
    for x, s in sorted(sg.items()):
        ot = ''.join({'int': 'i', 'double': 'd', 'TA_MAType': 'm'}[p['type']] for p in s['opts'])
        ok = ''.join({'int': 'i', 'double': 'd'}[p['kind']] for p in s['outs'])
        ik = ','.join(p['name'] for p in s['ins'])
        on = ','.join(p['name'] for p in s['opts'])
        w('{"%s",%d,"%s","%s","%s","%s",lb_%s,ba_%s,sb_%s,si_%s,st_%s,bs_%s,sf_%s,ss_%s,sl_%s},' % ((x, len(s['ins']), ot, ok, ik, on) + (x,) * 9))
    w('};\nconst int fntab_n = sizeof(fntab)/sizeof(fntab[0]);')
    open(out, 'w').write('\n'.join(o) + '\n')


if __name__ == '__main__':
    gen(sys.argv[1])
