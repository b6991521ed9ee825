"""C10 (save/load round trip) and C11 (life cycle) of the streaming states: every StateInit,
StateFree, StateSave and StateLoad, path by path over the extracted code (vc/pse.py).
Sub-states are replaced by the contract of their own Init/Free/Save/Load (which are themselves
verified here); calloc may fail at every call; fread/fwrite may fall short at every call."""
import z3, re, os
from multiprocessing import Pool
from .common import *
from .pathlib import *
from vc import batch
from vc.ir import sizeof
from lib import probe, orc, sigs

IMIN, RDEF = -2147483648, -4e37
LBMAX = 1 << 27
DELEGATE = {'PPO': 'APO', 'MACDFIX': 'MACD'}
INTERNAL = {'INT_EMA': 'EMA', 'INT_MACD': 'MACD', 'INT_PO': 'APO'}


def normal(x, v):
    """options as StateInit records them: swapped or clamped the way the batch function does"""
    g = lambda n: v['optIn' + n]
    r = dict(v)
    if x in ('APO', 'PPO', 'MACD', 'MACDEXT'):
        sw = g('SlowPeriod') < g('FastPeriod')
        for k in ('Period', 'MAType'):
            if 'optInFast' + k in v:
                a, b = g('Fast' + k), g('Slow' + k)
                r['optInFast' + k], r['optInSlow' + k] = z3.If(sw, b, a), z3.If(sw, a, b)
    if x == 'SAR':
        r['optInAcceleration'] = z3.If(z3.fpGT(g('Acceleration'), g('Maximum')), g('Maximum'), g('Acceleration'))
    if x == 'SAREXT':
        for q in ('Long', 'Short'):
            for k in ('AccelerationInit', 'Acceleration'):
                r['optIn' + k + q] = z3.If(z3.fpGT(g(k + q), g('AccelerationMax' + q)), g('AccelerationMax' + q), g(k + q))
    if x == 'ULTOSC':
        l = [g('TimePeriod%d' % i) for i in (1, 2, 3)]
        mn, mx = (lambda a, b: z3.If(a < b, a, b)), (lambda a, b: z3.If(a < b, b, a))
        lo, hi = mn(mn(*l[:2]), l[2]), mx(mx(*l[:2]), l[2])
        r['optInTimePeriod1'], r['optInTimePeriod3'] = lo, hi
        r['optInTimePeriod2'] = l[0] + l[1] + l[2] - lo - hi
    return r


def structs():
    """fields of every public state structure, from ta_func.h"""
    t = open(orc.CDIR + '/include/ta_func.h', errors='replace').read() if hasattr(orc, 'CDIR') else open(sigs.CDIR + '/include/ta_func.h', errors='replace').read()
    t = sigs._strip(t)
    out = {}
    for m in re.finditer(r'struct TA_(\w+)_State\s*\{(.*?)\}\s*;', t, re.S):
        fs = []
        for d in m.group(2).split(';'):
            d = ' '.join(d.split())
            if not d:
                continue
            q = re.match(r'^(.*?)\s*(\**)\s*(\w+)$', d)
            ty, star, n = q.group(1).strip(), q.group(2), q.group(3)
            fs.append((n, 'ptr' if star else 'double' if ty == 'double' else 'int'))
        out[m.group(1)] = fs
    ex = []
    for x, fs in out.items():
        ex += ['sizeof(struct TA_%s_State)' % x, 'sizeof(struct TA_%s_Data)' % x]
        for n, k in fs:
            ex += ['offsetof(struct TA_%s_State,%s)' % (x, n), 'sizeof(((struct TA_%s_State*)0)->%s)' % (x, n)]
    K = probe.probe(['ta_func.h'], ex + ['TA_SUCCESS', 'TA_BAD_PARAM', 'TA_ALLOC_ERR', 'TA_IO_FAILED', 'TA_NEED_MORE_DATA'])
    res = {}
    for x, fs in out.items():
        L = []
        for n, k in fs:
            sz = K['sizeof(((struct TA_%s_State*)0)->%s)' % (x, n)]
            ty = PTR if k == 'ptr' else DBL if k == 'double' else Ty('int', 8 * sz)
            L.append((n, K['offsetof(struct TA_%s_State,%s)' % (x, n)], ty))
        res[x] = dict(fields=L, size=K['sizeof(struct TA_%s_State)' % x], data=K['sizeof(struct TA_%s_Data)' % x])
    return res, K


def inside(p, n):
    off, size = bv(p.off, 64), bv(p.o.size, 64)
    return simp(z3.And(z3.ULE(off, size), z3.ULE(bv(n, 64), size - off)))


def tok(st, o):
    return st.ghost.get(('tok', o.id))


class Fam:
    """Init, Free, Save and Load of one function"""

    def __init__(s, prog, x, S, K):
        s.x, s.S, s.K = x, S, K
        s.me = S[DELEGATE.get(x, x)]
        s.W = Work(prog, maxsteps=3000000, handlers={'*': s.star, 'calloc': s.h_calloc, 'malloc': s.h_calloc, 'fwrite': s.h_fwrite, 'fread': s.h_fread}, maxpaths=20000)
        s.e = s.W.e
        s.e.lazyhook = s.lazy
        s.file = Obj('file', 0, 'caller')
        s.glob = Obj('globals', 1 << 16, 'caller')
        s.params = batch.PARAMS[x]['opts']
        s.fix = None         # which of the first options take their default (a case split over jobs)
        s.own = dict((n, o) for n, o, t in s.me['fields'])
        s.SUC, s.BAD, s.ALLOC, s.IO = K['TA_SUCCESS'], K['TA_BAD_PARAM'], K['TA_ALLOC_ERR'], K['TA_IO_FAILED']

    # -- environment
    def lazy(s, e, st, o, off, ty):
        if ty.k == 'ptr' and o.name == 'TA_Globals':
            return Ptr(s.glob, 0)
        if o is s.glob and ty.k == 'int' and ty.n == 32:
            # unstable periods and averaging periods (C16): 0..100000 assumed
            v = e.sym('globals+%d' % off, ty)
            st.pc.append(z3.And(v >= 0, v <= 100000))
            return v
        return None

    def star(s, name):
        m = re.match(r'^TA_(\w+)_(Lookback|StateInit|StateFree|StateSave|StateLoad)$', name)
        if not m:
            return None
        y, k = INTERNAL.get(m.group(1), m.group(1)), m.group(2)
        if y not in s.S:
            return None
        if k == 'Lookback' and y == s.x:
            return None
        if k == 'Lookback':
            return lambda e, st, name, args, I: s.h_lookback(st, y, args)
        if y == s.x:
            return None

        def h(e, st, n, a, I):
            # a wrapper hands on its own state (PPO to APO, MACDFIX to MACD): the callee's body runs
            if DELEGATE.get(s.x) == y:
                return e.call(s.W.e.prog[n], a, st)
            return {'StateInit': s.h_init, 'StateFree': s.h_free, 'StateSave': s.h_save, 'StateLoad': s.h_load}[k](st, y, a)
        return h

    def h_lookback(s, st, y, args):
        """contract (C02): a valid call returns a value in [0, 2^27]"""
        z = [fpv(a, DBL) if isinstance(a, float) or z3.is_expr(a) and z3.is_fp(a) else bv(a, 32) for a in args]
        r = s.e.uf('Lookback_' + y, z, I32) if z else z3.BitVec('Lookback_' + y, 32)
        st.pc.append(z3.And(r >= 0, r <= LBMAX))
        return [(st, r)]

    def h_calloc(s, e, st, name, args, I):
        out = []
        n = st.copy()
        n.log.append(('allocfail',))
        out.append((n, NULL))
        if name == 'malloc':
            size, ok = args[0], None
        else:
            a, b = (bv(q, 64) for q in args)
            size = simp(a * b)
            lim = simp(z3.And(z3.BVMulNoOverflow(a, b, False), z3.ULE(a * b, z3.BitVecVal(1 << 62, 64))))
            ok = lim if z3.is_expr(lim) else None
            if not z3.is_expr(lim) and not lim:
                ok = z3.BoolVal(False)
        if ok is not None and not e.must(st, ok):
            # an absurd request fails by itself: not an allocator failure
            q = st.copy()
            q.pc.append(z3.Not(ok))
            q.log.append(('absurd', s.e.line))
            out.append((q, NULL))
            if not e.sat(st, ok):
                return out
            st.pc.append(ok)
        o = Obj('heap%d' % (e.cnt + 1), size, 'heap')
        e.cnt += 1
        st.fresh.append(o)
        if name == 'calloc':
            st.ghost[('z', o.id)] = True
            st.ghost[('tok', o.id)] = 'zero'
        if z3.is_expr(size):
            o.sym = Dyn(s)
        return [(st, Ptr(o, 0))] + out

    # -- contracts of sub-states
    def slot(s, st, a, what):
        r = s.e.load(st, a, PTR, what)
        return r[0][1]

    def h_init(s, st, y, args):
        a = args[0]
        bad = st.copy()
        part = st.copy()
        out = []
        o = Obj('state%s_%d' % (y, s.e.cnt), s.S[y]['size'], 'substate')
        s.e.cnt += 1
        st.fresh.append(o)
        st.ghost[('sub', o.id)] = (y, 'live')
        st.ghost[('subargs', o.id)] = args[1:]
        for n in s.e.store(st, a, Ptr(o, 0), PTR, 'sub-state slot'):
            out.append((n, s.SUC))
        code = s.e.fresh('initcode', I32)
        bad.pc.append(code != s.SUC)
        bad.log.append(('subfail', y))
        for n in s.e.store(bad, a, NULL, PTR, 'sub-state slot'):
            out.append((n, code))
        p = Obj('part%s_%d' % (y, s.e.cnt), s.S[y]['size'], 'substate')
        s.e.cnt += 1
        part.fresh.append(p)
        part.ghost[('sub', p.id)] = (y, 'partial')
        code = s.e.fresh('initcode', I32)
        part.pc.append(code != s.SUC)
        part.log.append(('subfail', y))
        for n in s.e.store(part, a, Ptr(p, 0), PTR, 'sub-state slot'):
            out.append((n, code))
        return out

    def h_free(s, st, y, args):
        p = s.slot(st, args[0], 'sub-state slot')
        s.e.oblige(st, not pse.isundef(p), 'sub-state slot is initialised')
        if p.o is None:
            return [(st, s.SUC)]
        k = st.ghost.get(('sub', p.o.id))
        s.e.oblige(st, k is not None and k[0] == y, 'TA_%s_StateFree is given a state of that function' % y)
        s.e.oblige(st, p.o.id not in st.freed, 'sub-state freed once')
        st.freed.add(p.o.id)
        return [(n, s.SUC) for n in s.e.store(st, args[0], NULL, PTR, 'sub-state slot')]

    def h_save(s, st, y, args):
        p, f = args
        s.e.oblige(st, isinstance(f, Ptr) and f.o is s.file, 'the stream is passed on')
        if p.o is not None:
            k = st.ghost.get(('sub', p.o.id))
            s.e.oblige(st, k is not None and k[0] == y and p.o.id not in st.freed, 'TA_%s_StateSave is given a live state of that function' % y)
        bad = st.copy()
        st.ghost['file'] = st.ghost['file'] + (('sub', y, p.o),)
        code = s.e.fresh('savecode', I32)
        bad.pc.append(code != s.SUC)
        bad.log.append(('short',))
        return [(st, s.SUC), (bad, code)]

    def h_load(s, st, y, args):
        a, f = args
        s.e.oblige(st, isinstance(f, Ptr) and f.o is s.file, 'the stream is passed on')
        p = s.slot(st, a, 'sub-state slot')
        s.e.oblige(st, not pse.isundef(p), 'sub-state slot is initialised')
        q = st.ghost['file']
        bad, part = st.copy(), st.copy()
        out = []
        if not q or q[0][0] != 'sub' or q[0][1] != y:
            s.e.oblige(st, False, 'StateLoad reads what StateSave wrote (TA_%s_StateLoad where %s was written)' % (y, desc(q)))
        st.ghost['file'] = q[1:]
        if q[0][2] is None:
            out.append((st, s.SUC))
        elif p.o is not None:
            out.append((st, s.BAD))
        else:
            o = Obj('loaded%s_%d' % (y, s.e.cnt), s.S[y]['size'], 'substate')
            s.e.cnt += 1
            st.fresh.append(o)
            st.ghost[('sub', o.id)] = (y, 'live')
            st.ghost[('img', o.id)] = q[0][2]
            for n in s.e.store(st, a, Ptr(o, 0), PTR, 'sub-state slot'):
                out.append((n, s.SUC))
        code = s.e.fresh('loadcode', I32)
        bad.pc.append(code != s.SUC)
        bad.log.append(('short',))
        out.append((bad, code))
        if p.o is None and q[0][2] is not None:     # a null record allocates nothing (checked in roundtrip)
            o = Obj('part%s_%d' % (y, s.e.cnt), s.S[y]['size'], 'substate')
            s.e.cnt += 1
            part.fresh.append(o)
            part.ghost[('sub', o.id)] = (y, 'partial')
            code = s.e.fresh('loadcode', I32)
            part.pc.append(code != s.SUC)
            part.log.append(('short',))
            for n in s.e.store(part, a, Ptr(o, 0), PTR, 'sub-state slot'):
                out.append((n, code))
        return out

    # -- streams
    def h_fwrite(s, e, st, name, args, I):
        p, sz, cnt, f = args
        e.oblige(st, isinstance(f, Ptr) and f.o is s.file, 'fwrite to the given stream')
        n = simp(bv(sz, 64) * bv(cnt, 64))
        short = st.copy()
        short.log.append(('short',))
        r = e.fresh('written', I64)
        short.pc.append(z3.ULT(r, bv(cnt, 64)))
        out = [(short, r)] if e.sat(short) else []
        e.oblige(st, p.o is not None, 'fwrite from a null pointer')
        e.oblige(st, p.o.id not in st.freed, 'fwrite from a freed block')
        end = inside(p, n)
        e.oblige(st, end, 'fwrite inside ' + p.o.name)
        t = tok(st, p.o)
        if t is not None and (p.o.sym or t != 'zero'):
            e.oblige(st, not z3.is_expr(p.off) and p.off == 0, 'block written from its start')
            rec = ('blk', t, n)
        else:
            if z3.is_expr(n):
                raise Unsupported('fwrite of symbolic size')
            rec = ('cells', s.snap(st, p.o, p.off, n), n)
        st.ghost['file'] = st.ghost['file'] + (rec,)
        return out + [(st, cnt)]

    def snap(s, st, o, off, n):
        """cells of a region; an unset byte of a zeroed block reads as zero"""
        c = {}
        x = 0
        lay = {}
        if ('lay', o.id) in st.ghost:
            lay = st.ghost[('lay', o.id)]
        while x < n:
            k = st.mem.get((o.id, off + x))
            if k is None and off + x in lay:
                ty = lay[off + x]
                s.e.miss(st, o, off + x, ty)
                k = st.mem[(o.id, off + x)]
            if k is None:
                if o.kind in ('stack', 'heap') and ('z', o.id) not in st.ghost:
                    s.e.oblige(st, False, 'StateSave writes uninitialised memory')
                x += 1
                continue
            if pse.isundef(k[1]):
                s.e.oblige(st, False, 'StateSave writes uninitialised memory')
            if x + k[0] > n:
                raise Unsupported('fwrite of part of a cell')
            c[x] = k
            x += k[0]
        return c

    def h_fread(s, e, st, name, args, I):
        p, sz, cnt, f = args
        e.oblige(st, isinstance(f, Ptr) and f.o is s.file, 'fread from the given stream')
        n = simp(bv(sz, 64) * bv(cnt, 64))
        e.oblige(st, p.o is not None, 'fread into a null pointer')
        e.oblige(st, p.o.id not in st.freed, 'fread into a freed block')
        end = inside(p, n)
        e.oblige(st, end, 'fread inside ' + p.o.name)
        short = st.copy()
        short.log.append(('short',))
        r = e.fresh('read', I64)
        short.pc.append(z3.ULT(r, bv(cnt, 64)))
        s.wipe(short, p, n)
        out = [(short, r)] if e.sat(short) else []
        q = st.ghost['file']
        if not q or q[0][0] == 'sub':
            e.oblige(st, False, 'StateLoad reads what StateSave wrote (raw data where %s was written)' % desc(q))
        k = q[0]
        e.oblige(st, simp(bv(k[2], 64) == bv(n, 64)), 'StateLoad reads as many bytes as StateSave wrote (%s read, %s written)' % (n, k[2]))
        st.ghost['file'] = q[1:]
        if k[0] == 'blk':
            e.oblige(st, not z3.is_expr(p.off) and p.off == 0, 'block read to its start')
            st.ghost[('tok', p.o.id)] = k[1]
        else:
            if tok(st, p.o) is not None and p.o.sym:
                raise Unsupported('typed data read into a dynamic block')
            for x, c in sorted(k[1].items()):
                e.put(st, p.o, p.off + x, c[1], c[2])
        return out + [(st, cnt)]

    def wipe(s, st, p, n):
        """an interrupted fread leaves indeterminate data"""
        if p.o.sym or z3.is_expr(n):
            st.ghost[('tok', p.o.id)] = 'indeterminate'
            return
        if p.o.kind == 'heap' and ('z', p.o.id) in st.ghost:
            return      # was zeroed before: defined, arbitrary; only scalar fields are read this way
        for k in [k for k in st.mem if k[0] == p.o.id and not isinstance(k[1], str) and p.off <= k[1] < p.off + n]:
            st.mem[k] = (st.mem[k][0], pse.UNDEF, st.mem[k][2])

    # -- arguments
    def opts(s):
        out, valid, inval = [], [], []
        for p in s.params:
            n = p['name']
            if p['type'] == 'Double':
                v = s.e.sym(n, DBL)
                d = z3.fpEQ(v, z3.FPVal(RDEF, pse.F64))
                lo, hi = z3.fpLT(v, z3.FPVal(p['min'], pse.F64)), z3.fpGT(v, z3.FPVal(p['max'], pse.F64))
                bad = z3.And(z3.Not(d), z3.Or(lo, hi))
                eff = z3.If(d, z3.FPVal(p['default'], pse.F64), v)
            else:
                v = s.e.sym(n, I32)
                d = v == IMIN
                bad = z3.And(z3.Not(d), z3.Or(v < int(p['min']), v > int(p['max'])))
                eff = z3.If(d, z3.BitVecVal(int(p['default']), 32), v)
            out.append((n, v, eff))
            inval.append(bad)
        return out, z3.Or(*inval) if inval else z3.BoolVal(False)

    def start(s):
        st = State()
        st.ghost['file'] = ()
        return st

    def live(s, st):
        return [o for o in st.fresh if o.id not in st.freed]

    # -- obligations
    def reach(s, st, roots):
        """objects reachable from the given ones"""
        seen, todo = set(), list(roots)
        while todo:
            o = todo.pop()
            if o is None or o.id in seen:
                continue
            seen.add(o.id)
            for k, c in st.mem.items():
                if k[0] == o.id and isinstance(c[1], Ptr):
                    todo.append(c[1].o)
        return seen

    def init_paths(s, explicit=False):
        """run StateInit on arbitrary options -> [(state, code)]; explicit: no default sentinels"""
        W, e = s.W, s.e
        ov, inval = s.opts()
        slot = Obj('slot', 8, 'caller')
        st = s.start()
        old = Obj('old state', s.me['size'], 'caller')
        st.mem[(slot.id, 0)] = (8, NULL, PTR)
        s.ov, s.inval, s.slot_o = ov, inval, slot
        for k, b in enumerate(s.fix or ()):
            v = ov[k][1]
            d = z3.fpEQ(v, z3.FPVal(RDEF, pse.F64)) if z3.is_fp(v) else v == IMIN
            st.pc.append(d if b else z3.Not(d))
        if explicit:
            st.pc += [z3.Not(z3.fpEQ(v, z3.FPVal(RDEF, pse.F64))) if z3.is_fp(v) else v != IMIN for _, v, _ in ov]
            st.pc.append(z3.Not(inval))
        return W.run('TA_%s_StateInit' % s.x, [Ptr(slot, 0)] + [v for _, v, _ in ov], st)

    def free_after(s, st, slot, what):
        W = s.W
        n = st.copy()
        for st2, r in W.run('TA_%s_StateFree' % s.x, [Ptr(slot, 0)], n, 'TA_%s_StateFree after %s' % (s.x, what)):
            W.must(st2, W.eq(r, s.SUC), 'reports success')
            p = W.cell(st2, slot, 0, PTR)
            W.must(st2, isinstance(p, Ptr) and p.o is None, 'the caller\'s pointer is reset to NULL')
            for o in s.live(st2):
                W.must(st2, False, 'block %s is released (leak)' % s.label(st, o))

    def label(s, st, o):
        for k, c in st.mem.items():
            if isinstance(c[1], Ptr) and c[1].o is o:
                for n, off in s.own.items():
                    if off == k[1]:
                        return n
        return o.name

    def lifecycle(s):
        W, e, x = s.W, s.e, s.x
        name = 'TA_%s_StateInit' % x
        # null slot
        st = s.start()
        ov, inval = s.opts()
        for st2, r in W.run(name, [NULL] + [v for _, v, _ in ov], st, name + '(NULL)'):
            W.must(st2, W.eq(r, s.BAD), 'refused with TA_BAD_PARAM')
            W.must(st2, not s.live(st2), 'nothing stays allocated')
        good = []
        for st2, r in s.init_paths():
            W.name = name
            slot = s.slot_o
            p = W.cell(st2, slot, 0, PTR)
            bad = e.sat(st2, inval)
            okc = z3.Not(inval)
            if bad:
                n = st2.copy()
                n.pc.append(inval)
                W.must(n, W.eq(r, s.BAD), 'an option outside its range is refused with TA_BAD_PARAM')
                W.must(n, not s.live(n), 'a refused call allocates nothing')
                W.must(n, p.o is None, 'a refused call leaves the caller\'s pointer alone')
            if not e.sat(st2, okc):
                continue
            st2.pc.append(okc)
            excuse = [q for q in st2.log if q[0] in ('allocfail', 'subfail')]
            if not excuse:
                W.must(st2, W.eq(r, s.SUC), 'valid options and enough memory: success')
            else:
                W.must(st2, z3.Not(zbool(W.eq(r, s.SUC))), 'a failed allocation or sub-state is reported')
                if excuse[-1][0] == 'allocfail':
                    W.must(st2, W.eq(r, s.ALLOC), 'a failed allocation is reported as TA_ALLOC_ERR')
            rs = s.reach(st2, [p.o])
            for o in s.live(st2):
                W.must(st2, o.id in rs, 'every block stays reachable from the state (leak of a block of size %s)' % o.size)
            isok = simp(bv(r, 32) == s.SUC)
            if not (z3.is_expr(isok) or isok) or not e.sat(st2, zbool(isok)):
                s.free_after(st2, slot, 'a failed StateInit')
                continue
            good.append(st2)
            o = p.o
            W.must(st2, o is not None and simp(z3.UGE(bv(o.size, 64), z3.BitVecVal(s.me['size'], 64))), 'the state structure is allocated')
            if o is None:
                continue
            W.must(st2, W.eq(W.cell(st2, o, s.own['mem_index'], I64), 0, 64), 'no input consumed yet (mem_index 0)')
            rec = normal(x, dict((n, eff) for n, v, eff in ov))
            for n, v, eff in ov:
                eff = rec[n]
                if n in s.own:
                    ty = dict((a, t) for a, b, t in s.me['fields'])[n]
                    W.must(st2, W.eq(W.cell(st2, o, s.own[n], ty), eff, 32), 'option %s (or its default) is recorded' % n)
            m = W.cell(st2, o, s.own['memory'], PTR)
            ms = W.cell(st2, o, s.own['mem_size'], I64)
            if m.o is not None:
                W.must(st2, simp(z3.And(z3.ULE(bv(ms, 64), z3.BitVecVal(1 << 40, 64)), z3.ULE(bv(ms, 64) * s.me['data'], bv(m.o.size, 64)))), 'memory holds mem_size elements')
                W.must(st2, tok(st2, m.o) == 'zero', 'memory starts zeroed')
            s.free_after(st2, slot, 'StateInit')
        if ov:
            s.defaults(good)
        if not s.fix:
            s.tail()

    def tail(s):
        W, e, x = s.W, s.e, s.x
        # StateFree of nothing
        fn = 'TA_%s_StateFree' % x
        for st2, r in W.run(fn, [NULL], s.start(), fn + '(NULL)'):
            W.must(st2, W.eq(r, s.BAD), 'refused with TA_BAD_PARAM')
        slot = Obj('slot', 8, 'caller')
        st = s.start()
        st.mem[(slot.id, 0)] = (8, NULL, PTR)
        for st2, r in W.run(fn, [Ptr(slot, 0)], st, fn + ' of a null state'):
            W.must(st2, W.eq(r, s.SUC), 'succeeds')
            c = W.cell(st2, slot, 0, PTR)
            W.must(st2, c.o is None, 'stays NULL')
        # whatever StateLoad does, StateFree releases it
        s.fix = None
        for st2, slot2, r, orig in s.load_paths():
            rs = s.reach(st2, [W.cell(st2, slot2, 0, PTR).o])
            W.name = 'TA_%s_StateLoad' % x
            mine = [o for o in s.live(st2) if o.id not in orig]
            for o in mine:
                W.must(st2, o.id in rs, 'every block stays reachable from the state (leak of a block of size %s)' % o.size)
            n = st2.copy()
            n.fresh = mine
            s.free_after(n, slot2, 'StateLoad')

    def defaults(s, good):
        """default markers build the state that the documented defaults, given explicitly, build"""
        W, e = s.W, s.e
        wide = s.fix and len(s.params) > 6
        if wide and sum(s.fix) in (2, 3):
            return
        ps = [st for st in good if not [q for q in st.log if q[0] in ('allocfail', 'subfail', 'absurd')]]
        slotp = s.slot_o
        k, fx, s.fix = len(W.fail), s.fix, None
        qs = [st for st, r in s.init_paths(True) if not [q for q in st.log if q[0] in ('allocfail', 'subfail', 'absurd')]]
        slotq, s.fix = s.slot_o, fx
        del W.fail[k:]
        W.name = 'TA_%s_StateInit with default markers' % s.x
        isd = lambda v: z3.fpEQ(v, z3.FPVal(RDEF, pse.F64)) if z3.is_fp(v) else v == IMIN
        flat = lambda L: [c for x in L for c in (flat(x.children()) if z3.is_and(x) else [x])]
        norm = lambda c: z3.simplify(c)
        for p in ps:
            sub, nd, k0 = [], 0, 0
            have = {c.get_id(): c for x in p.pc for c in flat([norm(x)])}
            for name, v, eff in s.ov:
                if wide and nd not in (0, 1) and nd < k0:
                    break
                k0 += 1
                yes, no = norm(isd(v)), norm(z3.Not(isd(v)))
                if no.get_id() in have or yes.get_id() not in have and not e.sat(p, isd(v)):
                    continue
                nd += 1
                if yes.get_id() not in have and e.sat(p, z3.Not(isd(v))):
                    sub.append((v, eff))
                else:
                    par = [x for x in s.params if x['name'] == name][0]
                    sub.append((v, z3.FPVal(par['default'], pse.F64) if z3.is_fp(v) else z3.BitVecVal(int(par['default']), 32)))
            if not nd or wide and nd not in (1, len(s.ov)):    # SAREXT: one option or all of them left to their default
                continue
            S = lambda t, sub=sub: fold(z3.substitute(t, *sub)) if z3.is_expr(t) else t
            for q in qs:
                n = p.copy()
                dead = False
                for c in flat([norm(S(c)) for c in q.pc]):
                    if z3.is_false(c) or norm(z3.Not(c)).get_id() in have:
                        dead = True
                        break
                    if not z3.is_true(c) and c.get_id() not in have:
                        n.pc.append(c)
                if dead or len(n.pc) > len(p.pc) and not e.sat(n):
                    continue
                s.match(n, q, S, W.cell(n, slotp, 0, PTR), W.cell(q, slotq, 0, PTR), 'state', set())

    def match(s, n, q, S, a, b, path, seen):
        W = s.W
        if a.o is None or b.o is None:
            W.must(n, a.o is b.o, '%s is null exactly when it is with explicit options' % path)
            return
        a, b = a.o, b.o
        if a.id in seen:
            return
        seen.add(a.id)
        if ('sub', a.id) in n.ghost or ('sub', b.id) in q.ghost:
            x, y = n.ghost.get(('subargs', a.id)), q.ghost.get(('subargs', b.id))
            W.must(n, n.ghost.get(('sub', a.id)) == q.ghost.get(('sub', b.id)) and x is not None and y is not None and len(x) == len(y), '%s is a nested state of the same function' % path)
            for u, v in zip(x or (), y or ()):
                W.must(n, W.eq(u, S(v)), '%s gets the same options as with explicit options' % path)
            return
        if a.kind != 'heap' or b.kind != 'heap':
            return
        if not W.must(n, simp(bv(a.size, 64) == bv(S(b.size), 64)), '%s has the size it has with explicit options' % path):
            return
        names = {off: f for f, off in s.own.items()} if path == 'state' else {}
        for key, c in list(n.mem.items()):
            if key[0] != a.id or isinstance(key[1], str):
                continue
            d = q.mem.get((b.id, key[1]))
            f = names.get(key[1], '%s+%s' % (path, key[1]))
            if d is None:
                d = (c[0], W.cell(q, b, key[1], c[2]), c[2])
            if pse.isundef(c[1]) or pse.isundef(d[1]):
                W.must(n, pse.isundef(c[1]) and pse.isundef(d[1]), 'field %s is set as with explicit options' % f)
            elif isinstance(c[1], Ptr):
                s.match(n, q, S, c[1], d[1], f, seen)
            else:
                W.must(n, W.eq(c[1], S(d[1]), 8 * sizeof(c[2])), 'field %s has the value it has with explicit options' % f)

    def general(s, st):
        """any state the stream may have reached: scalars, buffers and sub-states arbitrary, blocks as StateInit made them"""
        n = st.copy()
        o = s.W.cell(n, s.slot_o, 0, PTR).o
        keep = ['mem_size'] + [f for f in s.own if f.startswith('optIn')]   # no State function changes them
        lay = {}
        for f, off, ty in s.me['fields']:
            if ty.k != 'ptr':
                lay[off] = ty
                if f not in keep:
                    n.mem[(o.id, off)] = (sizeof(ty), s.e.sym('state.' + f, ty), ty)
                else:
                    s.e.load(n, Ptr(o, off), ty)
            else:
                s.e.load(n, Ptr(o, off), ty)
        for b in s.live(n):
            if b is o or b.kind == 'substate':
                continue
            ptrs = [k for k, c in n.mem.items() if k[0] == b.id and isinstance(c[1], Ptr)]
            if not ptrs and b.id != o.id:
                n.ghost[('tok', b.id)] = 'content of ' + b.name
            else:
                # circular buffer descriptor {int idx; T *circbuf; int size}
                n.mem[(b.id, 0)] = (4, s.e.sym(b.name + '.idx', I32), I32)
        return n, o

    def save_paths(s, good=None):
        """StateSave of any reachable state -> [(state after, code, original state object)]"""
        for st in s.init_ok():
            n, o = s.general(st)
            before = dict(n.mem)
            n.log = []
            for st2, r in s.W.run('TA_%s_StateSave' % s.x, [Ptr(o, 0), Ptr(s.file, 0)], n):
                yield st2, r, o, before

    def init_ok(s):
        k = len(s.W.fail)
        r = s.init_paths(True)
        del s.W.fail[k:]        # obligations inside StateInit are judged by lifecycle()
        for st2, r in r:
            st2.pc.append(bv(r, 32) == s.SUC)
            if s.e.sat(st2):
                yield st2

    def load_paths(s):
        for st, r, o, before in s.save_paths():
            if [q for q in st.log if q[0] == 'short']:
                continue
            n = st.copy()
            orig = set(b.id for b in n.fresh)
            slot = Obj('slot2', 8, 'caller')
            n.mem[(slot.id, 0)] = (8, NULL, PTR)
            n.log = []
            for st2, r2 in s.W.run('TA_%s_StateLoad' % s.x, [Ptr(slot, 0), Ptr(s.file, 0)], n):
                st2.ghost['orig'] = o
                yield st2, slot, r2, orig

    def equal(s, st, a, b, path, seen):
        """object b is a copy of object a"""
        W = s.W
        if a is None or b is None:
            W.must(st, a is b, '%s is null after loading exactly if it was when saved' % path)
            return
        if (a.id, b.id) in seen:
            return
        seen.add((a.id, b.id))
        W.must(st, a is not b and b.id not in st.freed, '%s is a block of its own' % path)
        if a.kind == 'substate' or b.kind == 'substate':
            W.must(st, st.ghost.get(('img', b.id)) is a, '%s is the saved sub-state' % path)
            return
        if not W.must(st, simp(bv(a.size, 64) == bv(b.size, 64)), '%s has the saved size' % path):
            return
        ta, tb = tok(st, a), tok(st, b)
        if (a.sym or ta not in (None, 'zero')) and not path == 'state':
            W.must(st, ta == tb, '%s has the saved content' % path)
            return
        offs = sorted(set(k[1] for k in st.mem if k[0] == a.id and not isinstance(k[1], str)) | set(k[1] for k in st.mem if k[0] == b.id and not isinstance(k[1], str)))
        names = {off: n for n, off in s.own.items()} if path == 'state' else {}
        tys = {off: t for n, off, t in s.me['fields']} if path == 'state' else {}
        for off in offs:
            ty = tys.get(off) or (st.mem.get((a.id, off)) or st.mem.get((b.id, off)))[2]
            va, vb = W.cell(st, a, off, ty), W.cell(st, b, off, ty)
            nm = names.get(off, '%s+%d' % (path, off))
            if isinstance(va, Ptr) and isinstance(vb, Ptr):
                s.equal(st, va.o, vb.o, nm, seen)
            else:
                W.must(st, same(va, vb) or W.eq(va, vb, 8 * sizeof(ty)) if not (z3.is_expr(va) and z3.is_fp(va)) else same(va, vb), 'field %s has the saved value' % nm)

    def roundtrip(s):
        W, e, x = s.W, s.e, s.x
        sv, ld = 'TA_%s_StateSave' % x, 'TA_%s_StateLoad' % x
        # a null state
        for st, r in W.run(sv, [NULL, Ptr(s.file, 0)], s.start(), sv + ' of a null state'):
            if [q for q in st.log if q[0] == 'short']:
                W.must(st, W.eq(r, s.IO), 'a short write is reported as TA_IO_FAILED')
                continue
            W.must(st, W.eq(r, s.SUC), 'succeeds')
            for pre in ('null', 'set'):
                n = st.copy()
                slot, old = Obj('slot2', 8, 'caller'), Obj('old', s.me['size'], 'caller')
                n.mem[(slot.id, 0)] = (8, NULL if pre == 'null' else Ptr(old, 0), PTR)
                n.log = []
                for st2, r2 in W.run(ld, [Ptr(slot, 0), Ptr(s.file, 0)], n, ld + ' of a saved null state'):
                    W.must(st2, not s.live(st2), 'nothing allocated')
                    if [q for q in st2.log if q[0] == 'short']:
                        W.must(st2, W.eq(r2, s.IO), 'a short read is reported as TA_IO_FAILED')
                        continue
                    if pre == 'null':
                        W.must(st2, W.eq(r2, s.SUC), 'succeeds')
                        W.must(st2, W.cell(st2, slot, 0, PTR).o is None, 'the loaded state is null')
                        W.must(st2, not st2.ghost['file'], 'the whole record is consumed')
        # any state
        W.name = sv
        for st, r, o, before in s.save_paths():
            W.name = sv
            for k, c in before.items():
                d = st.mem.get(k)
                W.must(st, d is not None and (d[1] is c[1] or same(d[1], c[1]) or isinstance(d[1], Ptr) and d[1] == c[1]), 'saving leaves the state unchanged')
            if [q for q in st.log if q[0] == 'short']:
                W.must(st, z3.Not(zbool(W.eq(r, s.SUC))), 'a short write is not reported as success')
                continue
            W.must(st, W.eq(r, s.SUC), 'succeeds when everything was written')
            # load refuses an occupied slot
            n = st.copy()
            slot, old = Obj('slot2', 8, 'caller'), Obj('old', s.me['size'], 'caller')
            n.mem[(slot.id, 0)] = (8, Ptr(old, 0), PTR)
            n.log = []
            k0 = len(n.fresh)
            for st2, r2 in W.run(ld, [Ptr(slot, 0), Ptr(s.file, 0)], n, ld + ' into an occupied slot'):
                W.must(st2, z3.Not(zbool(W.eq(r2, s.SUC))), 'refused')
                W.must(st2, W.cell(st2, slot, 0, PTR).o is old, 'the old state stays in place')
                W.must(st2, len([q for q in st2.fresh[k0:] if q.id not in st2.freed]) == 0, 'nothing allocated')
            n = st.copy()
            slot = Obj('slot2', 8, 'caller')
            n.mem[(slot.id, 0)] = (8, NULL, PTR)
            n.log = []
            W.name = ld
            for st2, r2 in W.run(ld, [Ptr(slot, 0), Ptr(s.file, 0)], n):
                W.name = ld
                if [q for q in st2.log if q[0] in ('short', 'allocfail')]:
                    W.must(st2, z3.Not(zbool(W.eq(r2, s.SUC))), 'a short read or failed allocation is not reported as success')
                    continue
                W.must(st2, W.eq(r2, s.SUC), 'succeeds on a complete record')
                W.must(st2, not st2.ghost['file'], 'the whole record is consumed (%s left)' % desc(st2.ghost['file']))
                b = W.cell(st2, slot, 0, PTR).o
                W.must(st2, b is not None, 'a state is returned')
                if b is not None:
                    s.equal(st2, o, b, 'state', set())


class Dyn:
    """block of symbolic size: content is a token, not accessed element-wise here"""

    def __init__(s, fam):
        s.fam = fam

    def load(s, e, st, o, off, ty):
        raise Unsupported('element access to a dynamic block')

    store = lambda s, e, st, o, off, ty, v: s.load(e, st, o, off, ty)


def fold(t):
    """evaluates int-to-double conversions of constants (uninterpreted in path conditions)"""
    t = z3.simplify(t)
    todo, sub = [t], []
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().name() == 'sitofp' and z3.is_bv_value(x.arg(0)):
            sub.append((x, z3.FPVal(float(x.arg(0).as_signed_long()), x.sort())))
        else:
            todo += x.children()
    return z3.simplify(z3.substitute(t, *sub)) if sub else t


def desc(q):
    if not q:
        return 'nothing'
    return 'a %s sub-state' % q[0][1] if q[0][0] == 'sub' else '%s bytes of raw data' % q[0][2]


_P = {}


def job(a):
    x, part, fix = a
    t0 = time.time()
    prog, S, K = _P['prog'], _P['S'], _P['K']
    F = Fam(prog, x, S, K)
    F.fix = fix if fix != 'tail' else None
    guarded(F.W, '%s of %s' % (part, x), F.lifecycle if part == 'C11' and fix != 'tail' else F.tail if part == 'C11' else F.roundtrip)
    W = F.W
    seen, fl = set(), []
    for f in W.fail:
        if f['name'] not in seen:
            seen.add(f['name'])
            fl.append(f)
    return x, W.n, W.paths, W.e.queries, fl, W.undec, time.time() - t0


def results(part, only=None):
    S, K = structs()
    _P.update(prog=extract.Program(extract.extract(('ta_func', 'ta_common'))), S=S, K=K)
    jobs = []
    for x in sorted(S):
        if x in batch.PARAMS and (not only or x in only):
            n = len(batch.PARAMS[x]['opts'])
            if part == 'C11' and n > 5:
                jobs += [(x, part, 'tail')] + [(x, part, tuple(k >> i & 1 for i in range(4))) for k in range(16)]
            else:
                jobs.append((x, part, None))
    # long ones first
    jobs.sort(key=lambda a: -len(batch.PARAMS[a[0]]['opts']))
    with Pool(8) as pool:
        return pool.map(job, jobs, 1)


if __name__ == '__main__':
    import sys
    for part in sys.argv[1].split(','):
        n = 0
        for x, k, p, q, fl, und, dt in results(part, sys.argv[2:]):
            n += k
            if dt > 5:
                print('slow', x, int(dt), 'paths', p, 'queries', q)
            for f in fl[:6]:
                print(part, 'FAIL', x, f['name'][:170], str(f['model'])[:100] if len(sys.argv) > 2 else '')
            for u in und:
                print(part, 'UNDEC', x, u[:200])
        print(part, n, 'obligations')
