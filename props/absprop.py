"""C13, C14, C15: the abstract call interface (ta_abstract.c, frames/, tables/)."""
import z3, json, os, time
from multiprocessing import Pool
from .common import *
from .pathlib import *
from . import absorc
from vc import batch
from lib import probe, sigs

H = ['ta_libc.h', 'ta_frame_priv.h', 'ta_def_ui.h', 'ta_magic_nb.h']
STRUCTS = {
    'TA_FuncInfo': 'name group hint camelCaseName flags nbInput nbOptInput nbOutput handle',
    'TA_InputParameterInfo': 'type paramName flags', 'TA_OutputParameterInfo': 'type paramName flags',
    'TA_OptInputParameterInfo': 'type paramName flags displayName dataSet defaultValue hint',
    'TA_IntegerRange': 'min max', 'TA_RealRange': 'min max', 'TA_IntegerList': 'data nbElement', 'TA_IntegerDataPair': 'value string',
    'TA_StringTable': 'size string hiddenData', 'TA_ParamHolder': 'hiddenData', 'TA_ParamHolderPriv': 'magicNumber inBitmap outBitmap _state in optIn out',
    'TA_FuncDef': 'magicNumber', 'TA_ParamHolderOptInput': 'data', 'TA_ParamHolderInput': 'data', 'TA_ParamHolderOutput': 'data',
}
CONST = ['TA_Input_Price', 'TA_Input_Real', 'TA_Input_Integer', 'TA_OptInput_RealRange', 'TA_OptInput_RealList', 'TA_OptInput_IntegerRange', 'TA_OptInput_IntegerList', 'TA_Output_Real', 'TA_Output_Integer',
         'TA_IN_PRICE_OPEN', 'TA_IN_PRICE_HIGH', 'TA_IN_PRICE_LOW', 'TA_IN_PRICE_CLOSE', 'TA_IN_PRICE_VOLUME', 'TA_IN_PRICE_OPENINTEREST', 'TA_FUNC_FLG_OVERLAP', 'TA_FUNC_FLG_VOLUME', 'TA_FUNC_FLG_UNST_PER', 'TA_FUNC_FLG_CANDLESTICK',
         'TA_SUCCESS', 'TA_BAD_PARAM', 'TA_ALLOC_ERR', 'TA_GROUP_NOT_FOUND', 'TA_FUNC_NOT_FOUND', 'TA_INVALID_HANDLE', 'TA_INVALID_PARAM_HOLDER', 'TA_INVALID_PARAM_HOLDER_TYPE', 'TA_INPUT_NOT_ALL_INITIALIZE', 'TA_OUTPUT_NOT_ALL_INITIALIZE', 'TA_BAD_OBJECT',
         'TA_FUNC_DEF_MAGIC_NB', 'TA_PARAM_HOLDER_PRIV_MAGIC_NB', 'TA_OUT_LINE', 'TA_OUT_DASH_LINE', 'TA_OUT_HISTO', 'TA_OUT_UPPER_LIMIT', 'TA_OUT_LOWER_LIMIT']
PRICE = ['Open', 'High', 'Low', 'Close', 'Volume', 'OpenInterest']
GROUPS = ['Math Operators', 'Math Transform', 'Overlap Studies', 'Volatility Indicators', 'Momentum Indicators', 'Cycle Indicators', 'Volume Indicators', 'Pattern Recognition', 'Statistic Functions', 'Price Transform']
FLAG = {'Overlap': 'TA_FUNC_FLG_OVERLAP', 'Candlestick': 'TA_FUNC_FLG_CANDLESTICK', 'Unstable Period': 'TA_FUNC_FLG_UNST_PER', 'Volume': 'TA_FUNC_FLG_VOLUME'}
OFLAG = {'Line': 'TA_OUT_LINE', 'Dashed Line': 'TA_OUT_DASH_LINE', 'Histogram': 'TA_OUT_HISTO', 'Upper Limit': 'TA_OUT_UPPER_LIMIT', 'Lower Limit': 'TA_OUT_LOWER_LIMIT'}
SUFFIX = ('', '_Lookback', '_StateInit', '_State', '_BatchState', '_StateFree', '_StateSave', '_StateLoad')
P = batch.PARAMS


def groups_of(x):
    """abstract inputs of X from its C signature: [('real', name)] | [('price', [names])]"""
    out = []
    for i in P[x]['ins']:
        n = i['name']
        if n[2:] in PRICE:
            if out and out[-1][0] == 'price':
                out[-1][1].append(n)
            else:
                out.append(('price', [n]))
        else:
            out.append(('real', n))
    return out


_G = {}


def consts():
    ex = ['sizeof(%s)' % s for s in STRUCTS] + ['offsetof(%s,%s)' % (s, f) for s, fs in STRUCTS.items() for f in fs.split()] + CONST + ['offsetof(TA_ParamHolderInput,data.inPrice.%s)' % (p[0].lower() + p[1:]) for p in PRICE]
    return probe.probe(H, ex)


def load():
    _G['K'] = consts()
    d = extract.extract(('ta_abstract', 'tables', 'frames'), only=[os.path.basename(p)[:-2] for w in ('tables', 'frames') for p in extract.sources((w,))] + ['ta_abstract', 'ta_def_ui', 'ta_group_idx'])
    prog = extract.Program(d)
    for p in set(prog.index.values()):
        prog.module(p)
    import glob
    for p in glob.glob(d + '/*.ll'):
        prog.module(p)
    _G['prog'] = prog
    return prog


class Abs(Work):
    def __init__(s, x=None):
        names = {'TA_%s%s' % (y, sf) for y in P for sf in SUFFIX}
        names |= {'TA_S_' + y for y in P}

        def star(name):
            if name in names:
                return s.callee
            if name == 'userFunction':
                return s.user
            return None
        Work.__init__(s, _G['prog'], {'*': star}, maxsteps=3000000)
        s.K = _G['K']
        s.x = x
        s.e.maxpaths = 200000

    def callee(s, e, st, name, args, I):
        """contract of every TA_X entry: any result; the arguments are recorded"""
        r = e.fresh('result', I32)
        st.log.append(('call', name, args, r))
        return [(st, r)]

    def user(s, e, st, name, args, I):
        st.log.append(('user', args))
        return [(st, None)]

    def off(s, st, f):
        return s.K['offsetof(%s,%s)' % (st, f)]

    def field(s, st, p, struct, f, ty):
        r = s.e.load(st, Ptr(p.o, p.off + s.off(struct, f)), ty)
        return r[0][1]

    def string(s, st, p):
        return pse.rdstr(s.e, st, p).decode('latin-1') if isinstance(p, Ptr) and p.o is not None else None

    def cname(s, text):
        """constant C string object"""
        o = Obj('"%s"' % text, len(text) + 1, 'global', None, True)
        o.bytes = [ord(c) for c in text] + [0]
        return o

    def start(s):
        return State()

    def strarg(s, st, text):
        o = s.cname(text)
        for k, c in enumerate(o.bytes):
            st.mem[(o.id, k)] = (1, c, Ty('int', 8))
        return Ptr(o, 0)

    def outptr(s, name):
        return Obj(name, 8, 'callerout')

    def handle(s, st, x):
        h = s.outptr('handle')
        st.mem[(h.id, 0)] = (8, NULL, PTR)
        r = s.run('TA_GetFuncHandle', [s.strarg(st, x), Ptr(h, 0)], st)
        assert len(r) == 1
        st, rc = r[0]
        s.must(st, s.eq(rc, s.K['TA_SUCCESS']), 'TA_GetFuncHandle("%s") succeeds' % x)
        return st, s.cell(st, h, 0, PTR)

    def alloc(s, st, h):
        """successful TA_ParamHolderAlloc -> state, holder pointer, private pointer"""
        st.ghost['allocfail'] = 'never'
        po = s.outptr('holder')
        st.mem[(po.id, 0)] = (8, NULL, PTR)
        r = s.run('TA_ParamHolderAlloc', [h, Ptr(po, 0)], st)
        if len(r) != 1:
            raise Unsupported('TA_ParamHolderAlloc: %d paths' % len(r))
        st, rc = r[0]
        if not s.must(st, s.eq(rc, s.K['TA_SUCCESS']), 'TA_ParamHolderAlloc succeeds when memory is available'):
            raise Unsupported('no parameter holder')
        p = s.cell(st, po, 0, PTR)
        return st, p, s.field(st, p, 'TA_ParamHolder', 'hiddenData', PTR)


# ---------------------------------------------------------------- C13
class Lazy1:
    """caller array whose element 0 may be read (a streaming sample)"""


def call_task(x):
    W = Abs(x)
    e, K = W.e, W.K
    SUC = K['TA_SUCCESS']
    ins, opts, outs = P[x]['ins'], P[x]['opts'], P[x]['outs']

    def one(st, fn, args, what, callee, want, lb=None):
        """fn(args) calls `callee` exactly once with `want` and hands back its result"""
        n0 = len(st.log)
        for st2, r in W.run(fn, args, st.copy(), '%s for %s' % (fn, x)):
            ev = [l for l in st2.log[n0:] if l[0] == 'call']
            if not W.must(st2, len(ev) == 1 and ev[0][1] == callee, '%s: calls %s once (calls: %s)' % (what, callee, [v[1] for v in ev])):
                continue
            a = ev[0][2]
            if not W.must(st2, len(a) == len(want), '%s: argument count' % what):
                continue
            for (nm, w), g in zip(want, a):
                W.must(st2, W.eq(g, w), '%s: argument %s of %s' % (what, nm, callee))
            if lb is None:
                W.must(st2, W.eq(r, ev[0][3]), '%s: returns the result of %s' % (what, callee))
            else:
                W.must(st2, W.eq(r, SUC), '%s: returns success' % what)
                W.must(st2, W.eq(W.cell(st2, lb, 0, I32), ev[0][3]), '%s: stores the result of %s' % (what, callee))
            W.must(st2, not [l for l in st2.log[n0:] if l[0] != 'call'] and len(st2.fresh) == nfresh, '%s: no other effect' % what)

    def body():
        nonlocal nfresh
        st, h = W.handle(W.start(), x)
        st, p, priv = W.alloc(st, h)
        nfresh = len(st.fresh)
        arr = {}
        for i in ins:
            arr[i['name']] = Obj(i['name'], 8, 'caller')
        outp = {}
        for o in outs:
            outp[o['name']] = Obj(o['name'], 8, 'caller')
        # inputs and outputs are set in any order: the setters only touch their own slot (C15); here in turn
        for k, g in enumerate(groups_of(x)):
            if g[0] == 'real':
                r = W.run('TA_SetInputParamRealPtr', [p, k, Ptr(arr[g[1]], 0)], st)
            else:
                r = W.run('TA_SetInputParamPricePtr', [p, k] + [Ptr(arr['in' + n], 0) if 'in' + n in g[1] else NULL for n in PRICE], st)
            if len(r) != 1 or not W.must(r[0][0], W.eq(r[0][1], SUC), 'input %d accepts %s' % (k, g[1])):
                raise Unsupported('input %d not accepted' % k)
            st = r[0][0]
        for k, o in enumerate(outs):
            r = W.run('TA_SetOutputParam%sPtr' % ('Real' if o['kind'] == 'double' else 'Integer'), [p, k, Ptr(outp[o['name']], 0)], st)
            if len(r) != 1 or not W.must(r[0][0], W.eq(r[0][1], SUC), 'output %d accepts %s' % (k, o['name'])):
                raise Unsupported('output %d not accepted' % k)
            st = r[0][0]
        ostart = e.sym('startIdx', I32)
        oend = e.sym('endIdx', I32)
        ob, on = Obj('outBegIdx', 4, 'caller'), Obj('outNBElement', 4, 'caller')
        lbo = Obj('lookback', 4, 'caller')
        A = lambda ov: ([('startIdx', ostart), ('endIdx', oend)] + [(i['name'], Ptr(arr[i['name']], 0)) for i in ins] + ov + [('outBegIdx', Ptr(ob, 0)), ('outNBElement', Ptr(on, 0))] + [(o['name'], Ptr(outp[o['name']], 0)) for o in outs])
        dv = [(o['name'], float(o['default']) if o['type'] == 'Double' else i32(int(o['default']))) for o in opts]
        callargs = [p, ostart, oend, Ptr(ob, 0), Ptr(on, 0)]
        one(st, 'TA_CallFunc', callargs, 'TA_CallFunc with default options', 'TA_' + x, A(dv))
        one(st, 'TA_GetLookback', [p, Ptr(lbo, 0)], 'TA_GetLookback with default options', 'TA_%s_Lookback' % x, dv, lbo)
        ov = []
        for k, o in enumerate(opts):
            d = o['type'] == 'Double'
            v = e.sym(o['name'], DBL if d else I32)
            r = W.run('TA_SetOptInputParam%s' % ('Real' if d else 'Integer'), [p, k, v], st)
            if len(r) != 1 or not W.must(r[0][0], W.eq(r[0][1], SUC), 'option %d accepts a %s' % (k, o['type'])):
                raise Unsupported('option %d not accepted' % k)
            st = r[0][0]
            ov.append((o['name'], v))
        one(st, 'TA_CallFunc', callargs, 'TA_CallFunc', 'TA_' + x, A(ov))
        one(st, 'TA_GetLookback', [p, Ptr(lbo, 0)], 'TA_GetLookback', 'TA_%s_Lookback' % x, ov, lbo)
        # streaming entry points
        so = W.off('TA_ParamHolderPriv', '_state')
        slot = Ptr(priv.o, priv.off + so)
        one(st, 'TA_InitNewState', [p], 'TA_InitNewState', 'TA_%s_StateInit' % x, [('_state', slot)] + ov)
        state = Obj('state', 8, 'caller')
        r = W.run('TA_SetParamStatePtr', [p, Ptr(state, 0)], st)
        st = r[0][0]
        W.must(st, len(r) == 1 and W.eq(r[0][1], SUC), 'TA_SetParamStatePtr succeeds')
        sg = W.outptr('stateptr')
        r = W.run('TA_GetParamStatePtr', [p, Ptr(sg, 0)], st.copy())
        W.must(r[0][0], len(r) == 1 and W.eq(r[0][1], SUC), 'TA_GetParamStatePtr succeeds')
        W.must(r[0][0], W.eq(W.cell(r[0][0], sg, 0, PTR), Ptr(state, 0)), 'TA_GetParamStatePtr returns the state set before')
        nfresh = len(st.fresh)
        smp = []
        for i in ins:
            v = e.sym(i['name'] + '.sample', DBL)
            st.mem[(arr[i['name']].id, 0)] = (8, v, DBL)
            smp.append((i['name'], v))
        S = Ptr(state, 0)
        so_ = [(o['name'], Ptr(outp[o['name']], 0)) for o in outs]
        file = Ptr(Obj('file', 8, 'caller'), 0)
        bs = [('_state', S), ('startIdx', ostart), ('endIdx', oend)] + [(i['name'], Ptr(arr[i['name']], 0)) for i in ins] + [('outBegIdx', Ptr(ob, 0)), ('outNBElement', Ptr(on, 0))] + so_
        one(st, 'TA_CallFuncState', [p], 'TA_CallFuncState', 'TA_%s_State' % x, [('_state', S)] + smp + so_)
        one(st, 'TA_CallFuncBatchState', callargs, 'TA_CallFuncBatchState', 'TA_%s_BatchState' % x, bs)
        one(st, 'TA_FreeState', [p], 'TA_FreeState', 'TA_%s_StateFree' % x, [('_state', slot)])
        one(st, 'TA_SaveState', [p, file], 'TA_SaveState', 'TA_%s_StateSave' % x, [('_state', S), ('file', file)])
        one(st, 'TA_LoadState', [p, file], 'TA_LoadState', 'TA_%s_StateLoad' % x, [('_state', slot), ('file', file)])
        # function pointers handed out for direct streaming
        fi = W.outptr('info')
        r = W.run('TA_GetFuncInfo', [h, Ptr(fi, 0)], st.copy())
        info = W.cell(r[0][0], fi, 0, PTR)
        for g, callee, want, args in (('InitNewState', 'StateInit', [('_state', slot)] + ov, [priv]), ('CallFuncState', 'State', [('_state', S)] + smp + so_, [priv]), ('CallFuncBatchState', 'BatchState', bs, [priv] + callargs[1:]),
                                      ('FreeState', 'StateFree', [('_state', slot)], [priv]), ('SaveState', 'StateSave', [('_state', S), ('file', file)], [priv, file]), ('LoadState', 'StateLoad', [('_state', slot), ('file', file)], [priv, file])):
            fo = W.outptr('func')
            r = W.run('TA_Get%sFuncPtr' % g, [info, Ptr(fo, 0)], st.copy())
            W.must(r[0][0], len(r) == 1 and W.eq(r[0][1], SUC), 'TA_Get%sFuncPtr succeeds' % g)
            f = W.cell(r[0][0], fo, 0, PTR)
            if W.must(r[0][0], isinstance(f, Fn), 'TA_Get%sFuncPtr gives a function' % g):
                one(st, f.name, args, 'function of TA_Get%sFuncPtr' % g, 'TA_%s_%s' % (x, callee), want)
        for st2, r in W.run('TA_ParamHolderFree', [p], st.copy()):
            W.must(st2, W.eq(r, SUC), 'TA_ParamHolderFree succeeds')
            W.must(st2, all(o.id in st2.freed for o in st2.fresh), 'TA_ParamHolderFree releases every block of the holder')
    nfresh = 0
    guarded(W, 'calls of ' + x, body)
    return pack(W, x)


# ---------------------------------------------------------------- C15
def hold_task(x):
    W = Abs(x)
    e, K = W.e, W.K
    SUC, BAD = K['TA_SUCCESS'], K['TA_BAD_PARAM']
    ins, opts, outs = P[x]['ins'], P[x]['opts'], P[x]['outs']
    G = groups_of(x)
    MAG = K['TA_PARAM_HOLDER_PRIV_MAGIC_NB']

    def alloc_contract(st, h):
        po = W.outptr('holder')
        st.mem[(po.id, 0)] = (8, NULL, PTR)
        for st2, rc in W.run('TA_ParamHolderAlloc', [h, Ptr(po, 0)], st.copy(), 'TA_ParamHolderAlloc for ' + x):
            fail = ('allocfail',) in st2.log
            p = W.cell(st2, po, 0, PTR)
            if fail:
                W.must(st2, W.eq(rc, K['TA_ALLOC_ERR']), 'returns the allocation error when memory runs out')
                W.must(st2, W.eq(p, NULL), 'hands back NULL when memory runs out')
                W.must(st2, all(o.id in st2.freed for o in st2.fresh), 'no block is leaked when memory runs out')
            else:
                W.must(st2, W.eq(rc, SUC), 'succeeds')
                priv = W.field(st2, p, 'TA_ParamHolder', 'hiddenData', PTR)
                W.must(st2, W.eq(W.field(st2, priv, 'TA_ParamHolderPriv', 'inBitmap', I32), (1 << len(G)) - 1), 'every input starts unset')
                W.must(st2, W.eq(W.field(st2, priv, 'TA_ParamHolderPriv', 'outBitmap', I32), (1 << len(outs)) - 1), 'every output starts unset')
        for a, what in (([NULL, Ptr(po, 0)], 'null handle'), ([h, NULL], 'null result pointer')):
            for st2, rc in W.run('TA_ParamHolderAlloc', a, st.copy(), 'TA_ParamHolderAlloc'):
                W.must(st2, W.eq(rc, BAD), '%s gives TA_BAD_PARAM' % what)

    def body():
        st, h = W.handle(W.start(), x)
        alloc_contract(st.copy(), h)
        st, p, priv = W.alloc(st, h)
        # arbitrary history: any subset of the parameters already set, possibly not a holder at all
        om, oi, oo = (priv.off + W.off('TA_ParamHolderPriv', f) for f in ('magicNumber', 'inBitmap', 'outBitmap'))
        mag, ib, ob = e.sym('magic', I32), e.sym('inBitmap', I32), e.sym('outBitmap', I32)
        for o, v in ((om, mag), (oi, ib), (oo, ob)):
            st.mem[(priv.o.id, o)] = (4, v, I32)
        idx = e.sym('paramIndex', I32)
        inb, opt, outb = (W.field(st, priv, 'TA_ParamHolderPriv', f, PTR) for f in ('in', 'optIn', 'out'))
        base_mem = dict(st.mem)
        watch = {b.o.id for b in (priv, inb, opt, outb) if b.o is not None}

        def unchanged(st2, ib2=True, ob2=True, opts2=True, slots=()):
            """frame: the set/unset record and every stored value outside `slots`"""
            for k, c in base_mem.items():
                if k[0] not in watch or isinstance(k[1], str) or k in slots:
                    continue
                if k == (priv.o.id, oi) and not ib2 or k == (priv.o.id, oo) and not ob2:
                    continue
                c2 = st2.mem.get(k)
                W.must(st2, c2 is not None and (c2[1] is c[1] or W.eq(c2[1], c[1], 8 * c[0])), 'nothing else in the holder changes')

        def setter(fn, args, want, what, bit=None, slot=None):
            """want: z3 value of the return code; on success only the record bit and the slot change"""
            for st2, r in W.run(fn, args, st.copy(), '%s for %s' % (fn, x)):
                W.must(st2, bv(r, 32) == want, '%s: return code' % what)
                suc = bv(r, 32) == SUC
                ok = not e.sat(st2, z3.Not(suc))
                for nm, off, old in (('input', oi, ib), ('output', oo, ob)):
                    now = bv(W.cell(st2, priv.o, off, I32), 32)
                    if bit == nm:
                        W.must(st2, now == z3.If(suc, old & ~(z3.BitVecVal(1, 32) << idx), old), '%s: marks exactly this %s as set, and only on success' % (what, nm))
                    else:
                        W.must(st2, now == old, '%s: the record of %ss set is unchanged' % (what, nm))
                if ok and slot:
                    slot(st2)
                elif not ok:
                    unchanged(st2, slots=loose)

        loose = ()
        mg = mag != MAG
        nI, nO, nU = len(G), len(opts), len(outs)

        def code(*cases):
            r = z3.BitVecVal(SUC, 32)
            for c, v in reversed(cases):
                r = z3.If(c, z3.BitVecVal(v, 32), r)
            return r

        def typ(kinds, ok):
            bad = [idx == k for k, t in enumerate(kinds) if t not in ok]
            return z3.Or(bad) if bad else z3.BoolVal(False)
        gk = [g[0] for g in G]
        HT, PH = K['TA_INVALID_PARAM_HOLDER_TYPE'], K['TA_INVALID_PARAM_HOLDER']
        v = Ptr(Obj('array', 8, 'caller'), 0)

        def put_at(base, size, dat, val, ty, n):
            def f(st2):
                for k in range(n):
                    if e.sat(st2, idx == k):
                        got = W.cell(st2, base.o, base.off + k * size + dat, ty)
                        if e.must(st2, idx == k):
                            W.must(st2, W.eq(got, val, 8 * sizeof(ty)), 'the value is stored for parameter %d' % k)
            return f
        si, sp, su = K['sizeof(TA_ParamHolderInput)'], K['sizeof(TA_ParamHolderOptInput)'], K['sizeof(TA_ParamHolderOutput)']
        for fn, kinds, okk, bit, n, base, size in (('TA_SetInputParamRealPtr', gk, ('real',), 'input', nI, inb, si), ('TA_SetInputParamIntegerPtr', gk, ('integer',), 'input', nI, inb, si),
                                                   ('TA_SetOutputParamRealPtr', [o['kind'] for o in outs], ('double',), 'output', nU, outb, su), ('TA_SetOutputParamIntegerPtr', [o['kind'] for o in outs], ('int',), 'output', nU, outb, su)):
            setter(fn, [p, idx, v], code((mg, PH), (z3.UGE(idx, n), BAD), (typ(kinds, okk), HT)), fn, bit, put_at(base, size, 0, v, PTR, n))
            setter(fn, [p, idx, NULL], z3.BitVecVal(BAD, 32), fn + ' with a null array')
            setter(fn, [NULL, idx, v], z3.BitVecVal(BAD, 32), fn + ' without a holder')
        iv, dv = e.sym('value', I32), e.sym('rvalue', DBL)
        ok_ = ['double' if o['type'] == 'Double' else 'int' for o in opts]
        setter('TA_SetOptInputParamInteger', [p, idx, iv], code((mg, PH), (z3.UGE(idx, nO), BAD), (typ(ok_, ('int',)), HT)), 'TA_SetOptInputParamInteger', None, put_at(opt, sp, 0, iv, I32, nO))
        setter('TA_SetOptInputParamReal', [p, idx, dv], code((mg, PH), (z3.UGE(idx, nO), BAD), (typ(ok_, ('double',)), HT)), 'TA_SetOptInputParamReal', None, put_at(opt, sp, 0, dv, DBL, nO))
        setter('TA_SetOptInputParamInteger', [NULL, idx, iv], z3.BitVecVal(BAD, 32), 'TA_SetOptInputParamInteger without a holder')
        setter('TA_SetOptInputParamReal', [NULL, idx, dv], z3.BitVecVal(BAD, 32), 'TA_SetOptInputParamReal without a holder')
        arrs = [Ptr(Obj('price' + n, 8, 'caller'), 0) for n in PRICE]
        rep = x in _G['reps']
        for m in range(64) if rep else [0, 63] + [63 ^ (1 << b) for b in range(6)]:
            # a rejected price call may leave part of the pointers stored; the input stays marked unset
            loose = {k for k in base_mem if inb.o is not None and k[0] == inb.o.id}
            a = [arrs[b] if m >> b & 1 else NULL for b in range(6)]
            miss = [idx == k for k, g in enumerate(G) if g[0] == 'price' and any('in' + n in g[1] and not m >> b & 1 for b, n in enumerate(PRICE))]

            def stored(st2, a=a):
                for k, g in enumerate(G):
                    if g[0] == 'price' and e.must(st2, idx == k):
                        for b, n in enumerate(PRICE):
                            if 'in' + n in g[1]:
                                got = W.cell(st2, inb.o, inb.off + k * si + K['offsetof(TA_ParamHolderInput,data.inPrice.%s)' % (n[0].lower() + n[1:])], PTR)
                                W.must(st2, W.eq(got, a[b]), 'the %s array is stored' % n)
            setter('TA_SetInputParamPricePtr', [p, idx] + a, code((mg, PH), (z3.UGE(idx, nI), BAD), (typ(gk, ('price',)), HT), (z3.Or(miss) if miss else z3.BoolVal(False), BAD)), 'TA_SetInputParamPricePtr (arrays given: %s)' % bin(m), 'input', stored)
        loose = ()
        setter('TA_SetInputParamPricePtr', [NULL, idx] + arrs, z3.BitVecVal(BAD, 32), 'TA_SetInputParamPricePtr without a holder')
        # calls check the record
        b1, b2, lo = Ptr(Obj('outBegIdx', 4, 'caller'), 0), Ptr(Obj('outNBElement', 4, 'caller'), 0), Ptr(Obj('lookback', 4, 'caller'), 0)
        i0, i1 = e.sym('startIdx', I32), e.sym('endIdx', I32)
        for fn, args, chk in (('TA_CallFunc', [p, i0, i1, b1, b2], True), ('TA_CallFuncBatchState', [p, i0, i1, b1, b2], True), ('TA_CallFuncState', [p], True), ('TA_GetLookback', [p, lo], False), ('TA_InitNewState', [p], False), ('TA_FreeState', [p], False)):
            st1 = st.copy()
            if fn == 'TA_CallFuncState':
                # samples are read through the input arrays, which are only set when the record says so
                for k, g in enumerate(G):
                    names = [g[1]] if g[0] == 'real' else g[1]
                    for n in names:
                        off = inb.off + k * si + (0 if g[0] == 'real' else K['offsetof(TA_ParamHolderInput,data.inPrice.%s)' % (n[2].lower() + n[3:])])
                        st1.mem[(inb.o.id, off)] = (8, Ptr(Obj('sample', 8, 'caller'), 0), PTR)
            for st2, r in W.run(fn, args, st1, '%s for %s' % (fn, x)):
                ncall = len([l for l in st2.log if l[0] == 'call'])
                if ncall:
                    W.must(st2, z3.And(mag == MAG, ib == 0, ob == 0) if chk else mag == MAG, '%s runs the function only on a complete holder' % fn)
                else:
                    W.must(st2, z3.If(mg, bv(r, 32) == PH, z3.If(ib != 0, bv(r, 32) == K['TA_INPUT_NOT_ALL_INITIALIZE'], z3.And(ob != 0, bv(r, 32) == K['TA_OUTPUT_NOT_ALL_INITIALIZE']))) if chk else z3.And(mg, bv(r, 32) == PH), '%s names what is missing' % fn)
            for a2 in ([[NULL] + args[1:]] + ([args[:3] + [NULL, b2], args[:4] + [NULL]] if len(args) == 5 else [[p, NULL]] if fn == 'TA_GetLookback' else [])):
                for st2, r in W.run(fn, a2, st.copy(), '%s for %s' % (fn, x)):
                    W.must(st2, bv(r, 32) == BAD, '%s with a null argument gives TA_BAD_PARAM' % fn)
                    W.must(st2, not [l for l in st2.log if l[0] == 'call'], '%s with a null argument calls nothing' % fn)
        for st2, r in W.run('TA_ParamHolderFree', [p], st.copy()):
            if e.sat(st2, mg):
                W.must(st2, z3.And(mg, bv(r, 32) == PH), 'TA_ParamHolderFree refuses what is not a holder')
                W.must(st2, not st2.freed, 'and frees nothing then')
            else:
                W.must(st2, bv(r, 32) == SUC, 'TA_ParamHolderFree succeeds')
                W.must(st2, all(o.id in st2.freed for o in st2.fresh), 'TA_ParamHolderFree releases every block of the holder')
        for st2, r in W.run('TA_ParamHolderFree', [NULL], st.copy()):
            W.must(st2, bv(r, 32) == SUC, 'TA_ParamHolderFree(NULL) succeeds')
    guarded(W, 'parameter holder of ' + x, body)
    return pack(W, x)


# ---------------------------------------------------------------- C14
def meta_task(x):
    W = Abs(x)
    e, K = W.e, W.K
    SUC, BAD = K['TA_SUCCESS'], K['TA_BAD_PARAM']
    q = P[x]
    G = groups_of(x)

    def get(st, fn, h, k):
        o = W.outptr('info')
        st.mem[(o.id, 0)] = (8, NULL, PTR)
        r = W.run(fn, [h, k, Ptr(o, 0)], st)
        st2, rc = r[0]
        ok = W.must(st2, len(r) == 1 and W.eq(rc, SUC), '%s %s: %d exists' % (x, fn, k))
        v = W.cell(st2, o, 0, PTR)
        if not ok or not isinstance(v, Ptr) or v.o is None:
            raise Unsupported('no information for parameter %d' % k)
        return v

    def body():
        st, h = W.handle(W.start(), x)
        io = W.outptr('info')
        st.mem[(io.id, 0)] = (8, NULL, PTR)
        r = W.run('TA_GetFuncInfo', [h, Ptr(io, 0)], st)
        st = r[0][0]
        W.must(st, len(r) == 1 and W.eq(r[0][1], SUC), 'TA_GetFuncInfo succeeds')
        inf = W.cell(st, io, 0, PTR)
        F = lambda f, ty=I32: W.field(st, inf, 'TA_FuncInfo', f, ty)
        W.name = 'description of ' + x
        M = lambda c, what: W.must(st, c, what)
        M(W.string(st, F('name', PTR)) == x, 'name')
        M(W.string(st, F('group', PTR)) == q['group'], 'group')
        M(W.string(st, F('camelCaseName', PTR)) == q['camel'], 'camel-case name')
        M(W.string(st, F('hint', PTR)) == q['hint'], 'hint')
        M(W.eq(F('handle', PTR), h), 'handle in the description is the handle')
        fl = 0
        for f in q['flags']:
            fl |= K[FLAG[f]]
        M(W.eq(F('flags'), fl), 'flags')
        M(W.eq(F('nbInput'), len(G)), 'number of inputs')
        M(W.eq(F('nbOptInput'), len(q['opts'])), 'number of options')
        M(W.eq(F('nbOutput'), len(q['outs'])), 'number of outputs')
        for k, g in enumerate(G):
            p = get(st, 'TA_GetInputParameterInfo', h, k)
            W.name = 'description of ' + x
            f = lambda n, ty=I32: W.field(st, p, 'TA_InputParameterInfo', n, ty)
            M(W.eq(f('type'), K['TA_Input_Real' if g[0] == 'real' else 'TA_Input_Price']), 'type of input %d' % k)
            if g[0] == 'real':
                if q['ins'][0]['name'] != 'inPeriods' and g[1] != 'inPeriods':
                    M(W.string(st, f('paramName', PTR)) == g[1], 'name of input %d' % k)
                M(W.eq(f('flags'), 0), 'flags of input %d' % k)
            else:
                w = 0
                for n in g[1]:
                    w |= K['TA_IN_PRICE_' + n[2:].upper()]
                M(W.eq(f('flags'), w), 'price components of input %d' % k)
        for k, o in enumerate(q['opts']):
            p = get(st, 'TA_GetOptInputParameterInfo', h, k)
            W.name = 'description of ' + x
            f = lambda n, ty=I32: W.field(st, p, 'TA_OptInputParameterInfo', n, ty)
            t = {'Integer': 'TA_OptInput_IntegerRange', 'Double': 'TA_OptInput_RealRange', 'MA Type': 'TA_OptInput_IntegerList'}[o['type']]
            M(W.eq(f('type'), K[t]), 'type of option %d' % k)
            M(W.string(st, f('paramName', PTR)) == o['name'], 'name of option %d' % k)
            M(W.string(st, f('displayName', PTR)) == o['display'], 'display name of option %d' % k)
            M(W.eq(f('defaultValue', DBL), float(o['default'])), 'default of option %d' % k)
            d = f('dataSet', PTR)
            if o['type'] == 'MA Type':
                n = W.field(st, d, 'TA_IntegerList', 'nbElement', I32)
                M(W.eq(n, 10), 'option %d lists the ten averages' % k)
                a = W.field(st, d, 'TA_IntegerList', 'data', PTR)
                for j, nm in enumerate(('SMA', 'EMA', 'WMA', 'DEMA', 'TEMA', 'TRIMA', 'KAMA', 'MAMA', 'T3', 'HMA')[:n if isinstance(n, int) else 0]):
                    el = Ptr(a.o, a.off + j * K['sizeof(TA_IntegerDataPair)'])
                    M(W.eq(W.field(st, el, 'TA_IntegerDataPair', 'value', I32), j), 'value of list entry %d of option %d' % (j, k))
                    M(W.string(st, W.field(st, el, 'TA_IntegerDataPair', 'string', PTR)) == _G['manames'][j], 'text of list entry %d of option %d' % (j, k))
            else:
                s_, ty = ('TA_IntegerRange', I32) if o['type'] == 'Integer' else ('TA_RealRange', DBL)
                for b in ('min', 'max'):
                    w = i32(int(o[b])) if ty is I32 else float(o[b])
                    M(W.eq(W.field(st, d, s_, b, ty), w), '%s of option %d' % (b, k))
        xo = {o['name']: o for o in q['xmlouts']}
        for k, o in enumerate(q['outs']):
            p = get(st, 'TA_GetOutputParameterInfo', h, k)
            W.name = 'description of ' + x
            f = lambda n, ty=I32: W.field(st, p, 'TA_OutputParameterInfo', n, ty)
            M(W.eq(f('type'), K['TA_Output_Real' if o['kind'] == 'double' else 'TA_Output_Integer']), 'type of output %d' % k)
            M(W.string(st, f('paramName', PTR)) == o['name'], 'name of output %d' % k)
            w = 0
            for n in xo[o['name']]['flags']:
                w |= K[OFLAG[n]]
            M(W.eq(f('flags'), w), 'flags of output %d' % k)
        # parameter indices: exactly those below the count
        idx = e.sym('paramIndex', I32)
        for fn, n in (('TA_GetInputParameterInfo', len(G)), ('TA_GetOptInputParameterInfo', len(q['opts'])), ('TA_GetOutputParameterInfo', len(q['outs']))):
            o = W.outptr('info')
            st.mem[(o.id, 0)] = (8, NULL, PTR)
            for st2, r in W.run(fn, [h, idx, Ptr(o, 0)], st.copy(), '%s for %s' % (fn, x)):
                W.must(st2, z3.If(z3.ULT(idx, n), bv(r, 32) == SUC, bv(r, 32) == BAD), 'accepts exactly the parameter indices below %d' % n)
            bad = Obj('not a handle', 8 * 40, 'caller')
            mg = e.sym('magic', I32)
            st1 = st.copy()
            st1.mem[(bad.id, W.off('TA_FuncDef', 'magicNumber'))] = (4, mg, I32)
            st1.pc.append(mg != K['TA_FUNC_DEF_MAGIC_NB'])
            for st2, r in W.run(fn, [Ptr(bad, 0), idx, Ptr(o, 0)], st1, fn):
                W.must(st2, W.eq(r, K['TA_INVALID_HANDLE']), 'refuses what is not a handle')
            for a in ([NULL, idx, Ptr(o, 0)], [h, idx, NULL]):
                for st2, r in W.run(fn, a, st.copy(), fn):
                    W.must(st2, W.eq(r, BAD), 'null argument gives TA_BAD_PARAM')
    guarded(W, 'description of ' + x, body)
    return pack(W, x)


def tables_task(_):
    """function and group tables as a whole"""
    W = Abs()
    e, K = W.e, W.K
    SUC, BAD, AE = K['TA_SUCCESS'], K['TA_BAD_PARAM'], K['TA_ALLOC_ERR']
    names = sorted(P)

    def each():
        u = Ptr(Obj('opaque', 8, 'caller'), 0)
        for st, r in W.run('TA_ForEachFunc', [Fn('userFunction'), u], State()):
            W.must(st, W.eq(r, SUC), 'returns success')
            ev = [l[1] for l in st.log if l[0] == 'user']
            got = [W.string(st, W.field(st, a[0], 'TA_FuncInfo', 'name', PTR)) for a in ev]
            W.must(st, sorted(got) == names, 'visits every function exactly once (missing %s, extra %s)' % (sorted(set(names) - set(got))[:3], sorted(g for g in got if got.count(g) > 1 or g not in P)[:3]))
            W.must(st, [g[0] for g in got] == sorted(g[0] for g in got), 'in alphabetical order of the first letter')
            W.must(st, all(a[1] == u for a in ev), 'hands the opaque pointer through')
        for st, r in W.run('TA_ForEachFunc', [NULL, u], State()):
            W.must(st, W.eq(r, BAD), 'null function gives TA_BAD_PARAM')

    def strings(st, t):
        n = W.field(st, t, 'TA_StringTable', 'size', I32)
        a = W.field(st, t, 'TA_StringTable', 'string', PTR)
        return [W.string(st, W.e.load(st, Ptr(a.o, a.off + 8 * k), PTR)[0][1]) for k in range(n)]

    def table(fn, args, free, want, what):
        o = W.outptr('table')
        st = State()
        a = [W.strarg(st, x) if isinstance(x, str) else x for x in args]
        st.mem[(o.id, 0)] = (8, Ptr(Obj('stale', 8, 'caller'), 0), PTR)
        for st2, r in W.run(fn, a + [Ptr(o, 0)], st, what):
            t = W.cell(st2, o, 0, PTR)
            if ('allocfail',) in st2.log:
                W.must(st2, W.eq(r, AE), 'returns the allocation error when memory runs out')
                W.must(st2, W.eq(t, NULL), 'hands back NULL then')
                W.must(st2, all(b.id in st2.freed for b in st2.fresh), 'and leaks nothing')
            else:
                W.must(st2, W.eq(r, SUC), 'returns success')
                got = strings(st2, t)
                W.must(st2, sorted(got) == sorted(want), 'lists exactly %d names (missing %s, extra %s)' % (len(want), sorted(set(want) - set(got))[:3], sorted(set(got) - set(want))[:3]))
                for st3, r3 in W.run(free, [t], st2.copy(), free):
                    W.must(st3, W.eq(r3, SUC), 'succeeds')
                    W.must(st3, all(b.id in st3.freed for b in st3.fresh), 'releases every block of the table')
                other = 'TA_FuncTableFree' if free == 'TA_GroupTableFree' else 'TA_GroupTableFree'
                for st3, r3 in W.run(other, [t], st2.copy(), other):
                    W.must(st3, W.eq(r3, K['TA_BAD_OBJECT']), 'refuses a table of the other kind')
                    W.must(st3, not st3.freed, 'and frees nothing then')

    def groups():
        table('TA_GroupTableAlloc', [], 'TA_GroupTableFree', GROUPS, 'TA_GroupTableAlloc')
        for g in GROUPS:
            table('TA_FuncTableAlloc', [g], 'TA_FuncTableFree', [x for x in P if P[x]['group'] == g], 'TA_FuncTableAlloc("%s")' % g)
        for st, r in W.run('TA_GroupTableAlloc', [NULL], State()):
            W.must(st, W.eq(r, BAD), 'null result pointer gives TA_BAD_PARAM')
        st = State()
        s_ = W.strarg(st, 'Cycle Indicators')
        for a in ([NULL, Ptr(W.outptr('t'), 0)], [s_, NULL]):
            for st2, r in W.run('TA_FuncTableAlloc', a, st.copy()):
                W.must(st2, W.eq(r, BAD), 'null argument gives TA_BAD_PARAM')
        for f in ('TA_FuncTableFree', 'TA_GroupTableFree'):
            for st2, r in W.run(f, [NULL], State()):
                W.must(st2, W.eq(r, SUC), 'NULL is accepted')
        # any string that is none of the groups
        st = State()
        u = Obj('someGroup', 64, 'caller')
        o = W.outptr('table')
        st.mem[(o.id, 0)] = (8, NULL, PTR)
        st.pc += [z3.Not(z3.Bool('someGroup=="%s"' % g)) for g in GROUPS]
        for st2, r in W.run('TA_FuncTableAlloc', [Ptr(u, 0), Ptr(o, 0)], st, 'TA_FuncTableAlloc of an unknown group'):
            W.must(st2, W.eq(r, K['TA_GROUP_NOT_FOUND']), 'gives TA_GROUP_NOT_FOUND')
            W.must(st2, W.eq(W.cell(st2, o, 0, PTR), NULL), 'hands back NULL')

    def lookup():
        # an arbitrary string: found exactly when it equals the name of a function of its letter
        st = State()
        u = Obj('someName', 64, 'caller')
        o = W.outptr('handle')
        st.mem[(o.id, 0)] = (8, Ptr(Obj('stale', 8, 'caller'), 0), PTR)
        eqs = {x: z3.Bool('someName=="%s"' % x) for x in P}
        c0 = z3.BitVec('someName+0', 8)
        for x in P:
            st.pc.append(z3.Implies(eqs[x], c0 == ord(x[0])))
        for st2, r in W.run('TA_GetFuncHandle', [Ptr(u, 0), Ptr(o, 0)], st, 'TA_GetFuncHandle of any string'):
            p = W.cell(st2, o, 0, PTR)
            anyeq = z3.Or(list(eqs.values()))
            if isinstance(p, Ptr) and p.o is not None:
                W.must(st2, W.eq(r, SUC), 'returns success with a handle')
                io = W.outptr('info')
                r2 = W.run('TA_GetFuncInfo', [p, Ptr(io, 0)], st2.copy(), 'TA_GetFuncInfo')
                nm = W.string(r2[0][0], W.field(r2[0][0], W.cell(r2[0][0], io, 0, PTR), 'TA_FuncInfo', 'name', PTR))
                W.must(st2, eqs[nm] if nm in eqs else False, 'the handle is that of the function with this name')
            else:
                W.must(st2, z3.If(c0 == 0, bv(r, 32) == BAD, bv(r, 32) == K['TA_FUNC_NOT_FOUND']), 'otherwise not found (empty string: TA_BAD_PARAM)')
                W.must(st2, z3.Implies(c0 != 0, z3.Not(anyeq)), 'no function with this name is missed')
        for a in ([NULL, Ptr(o, 0)], [Ptr(u, 0), NULL]):
            for st2, r in W.run('TA_GetFuncHandle', a, st.copy()):
                W.must(st2, W.eq(r, BAD), 'null argument gives TA_BAD_PARAM')
        bad = Obj('not a handle', 320, 'caller')
        st = State()
        mg = e.sym('magic', I32)
        st.mem[(bad.id, W.off('TA_FuncDef', 'magicNumber'))] = (4, mg, I32)
        st.pc.append(mg != K['TA_FUNC_DEF_MAGIC_NB'])
        io = W.outptr('info')
        for st2, r in W.run('TA_GetFuncInfo', [Ptr(bad, 0), Ptr(io, 0)], st):
            W.must(st2, W.eq(r, K['TA_INVALID_HANDLE']), 'refuses what is not a handle')

    for f in (each, groups, lookup):
        guarded(W, f.__name__, f)
    return pack(W, 'tables')


def pack(W, x):
    return dict(x=x, n=W.n, fail=W.fail, undec=W.undec, paths=W.paths, q=W.e.queries, steps=W.e.steps, cov=len(W.e.covered))


class Sum:
    """sum of packed results, in the shape absorc.finish expects"""

    def __init__(s, rs):
        s.fail = [f for r in rs for f in r['fail']]
        s.undec = [u for r in rs for u in r['undec']]
        s.n, s.paths = sum(r['n'] for r in rs), sum(r['paths'] for r in rs)
        s.e = type('E', (), dict(queries=sum(r['q'] for r in rs), steps=sum(r['steps'] for r in rs)))


TASK = {'C13': call_task, 'C14': meta_task, 'C15': hold_task}


def go(a):
    return TASK[a[0]](a[1]) if a[1] else tables_task(None)


def check(pid):
    R = Report(pid, 'proof')
    load()
    seen, reps = {}, set()
    for x in sorted(P):
        k = tuple((g[0], tuple(g[1]) if g[0] == 'price' else '') for g in groups_of(x))
        if k not in seen:
            seen[k] = x
            reps.add(x)
    _G['reps'] = reps
    _G['manames'] = json.load(open(ROOT + '/spec/manames.json')) if os.path.exists(ROOT + '/spec/manames.json') else []
    jobs = [(pid, x) for x in sorted(P)] + ([(pid, None)] if pid == 'C14' else [])
    with Pool(8) as pool:
        rs = list(pool.imap_unordered(go, jobs, chunksize=2))
    fr = {'C13': 'TA_CallFunc TA_GetLookback TA_InitNewState TA_CallFuncState TA_CallFuncBatchState TA_FreeState TA_SaveState TA_LoadState TA_Get*FuncPtr and the 8 frame functions of each of the 165 indicators',
          'C14': 'TA_GetFuncHandle TA_GetFuncInfo TA_Get*ParameterInfo TA_ForEachFunc TA_FuncTableAlloc/Free TA_GroupTableAlloc/Free and the description tables of the 165 indicators',
          'C15': 'TA_ParamHolderAlloc/Free TA_SetInputParam*Ptr TA_SetOutputParam*Ptr TA_SetOptInputParam* TA_CallFunc* TA_GetLookback TA_InitNewState TA_FreeState on holders of the 165 indicators'}[pid]
    return absorc.finish(R, Sum(rs), pid, fr.split(), ['handles and holders come from this library (their private layout is read from the headers)', 'the arrays given to a holder are distinct objects', 'TA_X entry points are replaced by their contract: any result, arguments recorded'],
                         dict(proof_scenarios=len(rs), basic_blocks_reached=max(r['cov'] for r in rs)))


CHECKS = {k: check for k in TASK}
