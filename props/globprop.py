"""C16: the global settings interface (ta_global.c, ta_utility.c, ta_retcode.c)."""
import z3, json
from .common import *
from .pathlib import *
from lib import probe, orc

H = ['ta_libc.h', 'ta_global.h']
UNST = ['ADX', 'ADXR', 'ATR', 'CMO', 'DX', 'EMA', 'HT_DCPERIOD', 'HT_DCPHASE', 'HT_PHASOR', 'HT_SINE', 'HT_TRENDLINE', 'HT_TRENDMODE', 'IMI', 'KAMA', 'MAMA', 'MFI', 'MINUS_DI', 'MINUS_DM', 'NATR', 'PLUS_DI', 'PLUS_DM', 'RSI', 'STOCHRSI', 'T3', 'WLMA']
# documented defaults: setting, range type (0 RealBody, 1 HighLow, 2 Shadows), period, factor
CANDLE = [('BodyLong', 0, 10, 1.0), ('BodyVeryLong', 0, 10, 3.0), ('BodyShort', 0, 10, 1.0), ('BodyDoji', 1, 10, 0.1), ('ShadowLong', 0, 0, 1.0), ('ShadowVeryLong', 0, 0, 2.0),
          ('ShadowShort', 2, 10, 1.0), ('ShadowVeryShort', 1, 10, 0.1), ('Near', 1, 5, 0.2), ('Far', 1, 5, 0.6), ('Equal', 1, 5, 0.05)]
RET = ['TA_SUCCESS', 'TA_LIB_NOT_INITIALIZE', 'TA_BAD_PARAM', 'TA_ALLOC_ERR', 'TA_GROUP_NOT_FOUND', 'TA_FUNC_NOT_FOUND', 'TA_INVALID_HANDLE', 'TA_INVALID_PARAM_HOLDER', 'TA_INVALID_PARAM_HOLDER_TYPE', 'TA_INVALID_PARAM_FUNCTION',
       'TA_INPUT_NOT_ALL_INITIALIZE', 'TA_OUTPUT_NOT_ALL_INITIALIZE', 'TA_OUT_OF_RANGE_START_INDEX', 'TA_OUT_OF_RANGE_END_INDEX', 'TA_INVALID_LIST_TYPE', 'TA_BAD_OBJECT', 'TA_NOT_SUPPORTED', 'TA_NEED_MORE_DATA', 'TA_IO_FAILED']


def check(pid):
    R = Report(pid, 'proof')
    ex = ['sizeof(TA_LibcPriv)', 'offsetof(TA_LibcPriv,compatibility)', 'offsetof(TA_LibcPriv,unstablePeriod)', 'offsetof(TA_LibcPriv,candleSettings)', 'offsetof(TA_LibcPriv,magicNb)', 'sizeof(TA_CandleSetting)',
          'offsetof(TA_CandleSetting,settingType)', 'offsetof(TA_CandleSetting,rangeType)', 'offsetof(TA_CandleSetting,avgPeriod)', 'offsetof(TA_CandleSetting,factor)', 'TA_FUNC_UNST_ALL', 'TA_AllCandleSettings',
          'TA_RangeType_RealBody', 'TA_RangeType_HighLow', 'TA_RangeType_Shadows', 'TA_COMPATIBILITY_DEFAULT', 'TA_INTERNAL_ERROR'] + ['TA_FUNC_UNST_' + u for u in UNST] + ['TA_' + c[0] for c in CANDLE] + RET
    K = probe.probe(H, ex)
    prog = extract.Program(extract.extract(('ta_common', 'ta_func'), only=('ta_global', 'ta_utility', 'ta_retcode')))
    W = Work(prog)
    ga = Obj('globals', K['sizeof(TA_LibcPriv)'], 'caller')
    e = W.e
    NU, NC = K['TA_FUNC_UNST_ALL'], K['TA_AllCandleSettings']
    OU, OC, CS, OK_ = K['offsetof(TA_LibcPriv,unstablePeriod)'], K['offsetof(TA_LibcPriv,candleSettings)'], K['sizeof(TA_CandleSetting)'], K['offsetof(TA_LibcPriv,compatibility)']
    C = {k: K['offsetof(TA_CandleSetting,%s)' % k] for k in ('settingType', 'rangeType', 'avgPeriod', 'factor')}
    RNG = [K['TA_RangeType_RealBody'], K['TA_RangeType_HighLow'], K['TA_RangeType_Shadows']]
    SUC, BAD = K['TA_SUCCESS'], K['TA_BAD_PARAM']
    cells = {OK_: I32}
    for i in range(NU):
        cells[OU + 4 * i] = I32
    for i in range(NC):
        for k in ('settingType', 'rangeType', 'avgPeriod'):
            cells[OC + CS * i + C[k]] = I32
        cells[OC + CS * i + C['factor']] = DBL

    def start():
        """arbitrary previous settings"""
        st = State()
        g = e.gptr(prog.module(prog.index['TA_Initialize']), '@TA_Globals')
        st.mem[(g.o.id, 0)] = (8, Ptr(ga, 0), PTR)
        for off, ty in cells.items():
            st.mem[(ga.id, off)] = (sizeof(ty), e.sym('old+%d' % off, ty), ty)
        return st

    def old(off):
        return e.sym('old+%d' % off, cells[off])

    def frame(st, except_=()):
        for off, ty in cells.items():
            if off not in except_:
                W.must(st, W.eq(W.cell(st, ga, off, ty), old(off)), 'setting at offset %d is unchanged' % off)
        W.must(st, W.eq(W.cell(st, ga, K['offsetof(TA_LibcPriv,magicNb)'], I32), e.sym('globals+%d' % K['offsetof(TA_LibcPriv,magicNb)'], I32)), 'magic number unchanged') if not frame.nomagic else None
    frame.nomagic = False

    def default(i):
        n, r, p, f = CANDLE[i]
        return {'settingType': K['TA_' + n], 'rangeType': RNG[r], 'avgPeriod': p, 'factor': f}

    def candle_is_default(st, i, what):
        j = K['TA_' + CANDLE[i][0]]
        for k, v in default(i).items():
            W.must(st, W.eq(W.cell(st, ga, OC + CS * j + C[k], DBL if k == 'factor' else I32), v), '%s: candle setting %s.%s has its documented default' % (what, CANDLE[i][0], k))

    def t_ids():
        W.name = 'identifiers'
        st = State()
        W.must(st, NU == len(UNST) and sorted(K['TA_FUNC_UNST_' + u] for u in UNST) == list(range(NU)), 'unstable-period identifiers are distinct indices 0..%d' % (len(UNST) - 1))
        W.must(st, NC == len(CANDLE) and sorted(K['TA_' + c[0]] for c in CANDLE) == list(range(NC)), 'candle setting identifiers are distinct indices')

    def t_init():
        for st, r in W.run('TA_Initialize', [], start()):
            W.must(st, W.eq(r, SUC), 'returns success')
            W.must(st, W.eq(W.cell(st, ga, OK_, I32), K['TA_COMPATIBILITY_DEFAULT']), 'compatibility is the default')
            for i in range(NU):
                W.must(st, W.eq(W.cell(st, ga, OU + 4 * i, I32), 0), 'unstable period %d is 0' % i)
            for i in range(NC):
                candle_is_default(st, i, 'TA_Initialize')
            # shutdown after initialize succeeds, a second one is refused, and initialising again restores everything
            for st2, r2 in W.run('TA_Shutdown', [], st.copy(), 'TA_Shutdown after TA_Initialize'):
                W.must(st2, W.eq(r2, SUC), 'returns success')
                for st3, r3 in W.run('TA_Shutdown', [], st2.copy(), 'second TA_Shutdown'):
                    W.must(st3, W.eq(r3, K['TA_LIB_NOT_INITIALIZE']), 'returns TA_LIB_NOT_INITIALIZE')
                for st3, r3 in W.run('TA_Initialize', [], st2.copy(), 'TA_Initialize after TA_Shutdown'):
                    W.must(st3, W.eq(r3, SUC), 'returns success')

    def t_setunst():
        i, v = i32v('id'), i32v('period')
        for st, r in W.run('TA_SetUnstablePeriod', [i, v], start()):
            okc = z3.And(i >= 0, i <= NU)
            W.must(st, z3.If(okc, bv(r, 32) == SUC, bv(r, 32) == BAD), 'accepts exactly the identifiers 0..TA_FUNC_UNST_ALL')
            for k in range(NU):
                hit = z3.And(okc, z3.Or(i == k, i == NU))
                W.must(st, bv(W.cell(st, ga, OU + 4 * k, I32), 32) == z3.If(hit, v, old(OU + 4 * k)), 'unstable period %d is the new value iff selected' % k)
            frame(st, [OU + 4 * k for k in range(NU)])

    def t_getunst():
        i = i32v('id')
        for st, r in W.run('TA_GetUnstablePeriod', [i], start()):
            want = z3.BitVecVal(0, 32)
            for k in range(NU):
                want = z3.If(i == k, old(OU + 4 * k), want)
            W.must(st, bv(r, 32) == want, 'returns the stored period of a single identifier and 0 otherwise')
            frame(st)

    def t_compat():
        v = i32v('value')
        for st, r in W.run('TA_SetCompatibility', [v], start()):
            W.must(st, W.eq(r, SUC), 'returns success')
            W.must(st, W.eq(W.cell(st, ga, OK_, I32), v), 'stores the value')
            frame(st, [OK_])
        for st, r in W.run('TA_GetCompatibility', [], start()):
            W.must(st, W.eq(r, old(OK_)), 'returns the stored value')
            frame(st)

    def t_setcandle():
        i, a, b, f = i32v('settingType'), i32v('rangeType'), i32v('avgPeriod'), z3.FP('factor', pse.F64)
        for st, r in W.run('TA_SetCandleSettings', [i, a, b, f], start()):
            okc = z3.ULT(i, NC)
            W.must(st, z3.If(okc, bv(r, 32) == SUC, bv(r, 32) == BAD), 'accepts exactly the identifiers below TA_AllCandleSettings')
            for k in range(NC):
                for nm, v in (('settingType', i), ('rangeType', a), ('avgPeriod', b), ('factor', f)):
                    off = OC + CS * k + C[nm]
                    now = W.cell(st, ga, off, cells[off])
                    now = now if z3.is_expr(now) else (fpv(now, DBL) if nm == 'factor' else bv(now, 32))
                    W.must(st, now == z3.If(i == k, v, old(off)), 'candle setting %d.%s is the new value iff selected' % (k, nm))
            frame(st, [o for o in cells if o >= OC])

    def t_restore():
        i = i32v('settingType')
        for st, r in W.run('TA_RestoreCandleDefaultSettings', [i], start()):
            okc = z3.ULE(i, NC)
            W.must(st, z3.If(okc, bv(r, 32) == SUC, bv(r, 32) == BAD), 'accepts exactly the identifiers up to TA_AllCandleSettings')
            for q in range(NC):
                k = K['TA_' + CANDLE[q][0]]
                for nm, v in default(q).items():
                    off = OC + CS * k + C[nm]
                    ty = cells[off]
                    now = W.cell(st, ga, off, ty)
                    now, dv = (fpv(now, DBL), fpv(v, DBL)) if nm == 'factor' else (bv(now, 32), bv(v, 32))
                    W.must(st, now == z3.If(z3.Or(i == k, i == NC), dv, old(off)), 'candle setting %s.%s is the documented default iff selected' % (CANDLE[q][0], nm))
            frame(st, [o for o in cells if o >= OC])

    def t_ret():
        st0 = State()
        o = Obj('info', 16, 'caller')
        oe = probe.probe(H, ['offsetof(TA_RetCodeInfo,enumStr)', 'offsetof(TA_RetCodeInfo,infoStr)'])
        c = i32v('code')
        for st, _ in W.run('TA_SetRetCodeInfo', [c, Ptr(o, 0)], st0):
            p = W.cell(st, o, oe['offsetof(TA_RetCodeInfo,enumStr)'], PTR)
            q = W.cell(st, o, oe['offsetof(TA_RetCodeInfo,infoStr)'], PTR)
            W.must(st, isinstance(p, Ptr) and p.o is not None and isinstance(q, Ptr) and q.o is not None, 'both strings are set')
            nm = pse.rdstr(e, st, p).decode()
            inter = z3.And(c >= K['TA_INTERNAL_ERROR'], c <= K['TA_INTERNAL_ERROR'] + 999)
            known_ = z3.Or([c == K[x] for x in RET] + [inter])
            if nm in RET:
                W.must(st, c == K[nm], 'text %s is given for exactly that code' % nm)
            elif nm == 'TA_INTERNAL_ERROR':
                W.must(st, inter, 'text TA_INTERNAL_ERROR is given for internal errors only')
            else:
                W.must(st, nm == 'TA_UNKNOWN_ERR', 'unknown codes are named TA_UNKNOWN_ERR (got %s)' % nm)
                W.must(st, z3.Not(known_), 'every documented code has its own text')

    for f in (t_ids, t_init, t_setunst, t_getunst, t_compat, t_setcandle, t_restore, t_ret):
        guarded(W, f.__name__, f)
    from . import absorc
    return absorc.finish(R, W, 'glob', 'TA_Initialize TA_Shutdown TA_SetUnstablePeriod TA_GetUnstablePeriod TA_SetCompatibility TA_GetCompatibility TA_SetCandleSettings TA_RestoreCandleDefaultSettings TA_SetRetCodeInfo'.split(),
                         ['settings are changed by one thread only', 'identifiers of unstable periods and candle settings are those of the public headers (enum values read from them)'])


CHECKS = {'C16': check}
