"""Contracts of the batch entry points (TA_X / TA_S_X / internal TA_INT_*), and their proof."""
import json, os, z3, time
from .sym import *
from . import ir
from .prove import Prover

HERE = os.path.dirname(os.path.abspath(__file__))
PARAMS = json.load(open(os.path.join(HERE, '..', 'spec', 'params.json')))
OK, BAD_PARAM, ALLOC_ERR, OOR_START, OOR_END = 0, 2, 3, 12, 13
ENDMAX = 10**9
UNSTMAX = 10**6
AVGMAX = 10**5
REAL_DEFAULT = -4e+37


def realval(x):
    from fractions import Fraction
    return z3.RealVal(str(Fraction(x)))


def split_name(fn):
    """'TA_S_SMA' -> ('SMA', True)"""
    n = fn[3:]
    if n.startswith('S_') and n[2:] in PARAMS:
        return n[2:], True
    if n in PARAMS:
        return n, False
    return None


def opt_valid(ex, o, v):
    """documented validity of one optional parameter (default marker or inside the range)"""
    if o['type'] == 'Double':
        if isinstance(v, float):
            return v == REAL_DEFAULT or o['min'] <= v <= o['max']
        if v is None:
            return ex.fresh_bool('optvalid')
        return And(Not(v.nan), Or(v.r == realval(REAL_DEFAULT), And(v.r >= realval(o['min']), v.r <= realval(o['max']))))
    if isc(v):
        return v == INT_MIN or o['min'] <= v <= o['max']
    return Or(v == INT_MIN, z3.And(v >= o['min'], v <= o['max']))


def valid(ex, x, opts):
    return And(*[opt_valid(ex, o, v) for o, v in zip(PARAMS[x]['opts'], opts)])


# ---------------------------------------------------------------- globals (TA_Globals)
def glob_layout(mod):
    t = mod.types.get('%struct.TA_LibcPriv')
    if t is None:
        return None
    offs = ir.layout(t)[0]
    res = {}
    for k, (o, f) in enumerate(zip(offs, t.fields)):
        if f.k == 'arr' and f.el.k == 'struct' and 'CandleSetting' in (f.el.name or ''):
            res['candle'] = (o, f.n, f.el)
        elif f.k == 'arr' and f.el.k == 'int' and f.el.n == 32 and f.n > 10:
            res['unst'] = (o, f.n)
            res['compat'] = offs[k - 1]
    res['size'] = ir.sizeof(t)
    return res


class Ctx:
    """per-run context: program + globals model shared by all functions"""

    def __init__(s, prog):
        s.prog = prog
        s._lay = None

    def layout(s):
        if s._lay is None:
            for p in sorted(set(s.prog.index.values())):
                if '%struct.TA_LibcPriv = type' in open(p, errors='replace').read():
                    s._lay = glob_layout(s.prog.module(p))
                    break
            else:
                raise Unsupported('struct TA_LibcPriv not found')
        return s._lay


def mk_globals(ex, mod):
    """TA_Globals points to one object whose relevant fields are arbitrary but fixed"""
    o = ex.newobj('ta_theGlobals', 'glob', None)
    cell = ex.newobj('TA_Globals', 'globptr', 8)
    ex.G = o
    ex.Gcell = cell
    return o, cell


def glob_load(ex, off, ty, lay):
    key = (off.c if off.isconst() else None, repr(ty))
    if key[0] is None:
        raise Unsupported('symbolic offset into TA_Globals')
    if key in ex.glob_syms:
        return ex.glob_syms[key]
    c = key[0]
    v = None
    if ty.k == 'int':
        v = ex.fresh_int('G%d' % c, ty.n)
        co, n, el = lay['candle']
        if c == lay['compat']:
            v = z3.Int('G_compat'); ex.define(z3.And(v >= 0, v <= 1))
        elif lay['unst'][0] <= c < lay['unst'][0] + 4 * lay['unst'][1]:
            k = (c - lay['unst'][0]) // 4
            v = z3.Int('G_unst_%d' % k)
            ex.define(z3.And(v >= 0, v <= UNSTMAX))
        elif co <= c < co + n * ir.sizeof(el):
            k, r = divmod(c - co, ir.sizeof(el))
            f = ir.layout(el)[0].index(r)
            v = z3.Int('G_candle_%d_%d' % (k, f))
            ex.define({0: z3.And(v >= 0, v <= n), 1: z3.And(v >= 0, v <= 2), 2: z3.And(v >= 0, v <= AVGMAX)}[f])
    elif ty.k == 'ptr':
        raise Unsupported('pointer in TA_Globals')
    else:
        co, n, el = lay['candle']
        v = ex.dom.fresh('Gfactor_%d' % c) if not hasattr(ex.dom, 'gfactor') else ex.dom.gfactor(c)
    ex.glob_syms[key] = v
    return v


# ---------------------------------------------------------------- contract of a batch call
def elem_of(off, esz):
    e = off.elem(esz)
    if e is None:
        raise Unsupported('unaligned array argument')
    return e


def lookback(ex, x, opts, st, reach):
    f = ex.mods['TA_%s_Lookback' % x]
    ex.callpath = ex.callpath + (('LB', x, len(ex.objs)),)
    v, _, _ = ex.run(f, opts, st.copy(), reach)
    ex.callpath = ex.callpath[:-1]
    if z3.is_expr(v):
        ex.note_anchor(v)
    return v


def region_read(ex, p, lo, hi, esz, cond, what, st):
    """obligation: elements lo..hi (inclusive) readable through p"""
    g0 = Or(*[g for g, o, _ in p.alts if o is None])
    if g0 is not False:
        ex.oblige('null', 'input pointer of %s not null' % what, cond, Not(g0))
    for g, o, off in p.alts:
        if o is None:
            continue
        e = elem_of(off, esz)
        c = And(cond, g)
        a, b = add(e, lo), add(e, hi)
        if o.kind == 'in':
            ex.oblige('read-window', '%s reads %s inside the input window' % (what, o.name), And(c, le(lo, hi)), And(le(o.lo, a), le(b, o.hi)), meta=('in', o, a, b))
            q = ex.aliased.get(o.id)
            if q is not None:
                if skolem(ex, q):
                    ex.oblige('inplace', '%s reads %s before its place in %s is overwritten' % (what, o.name, q.name), And(c, le(a, ex.K), le(ex.K, b)), eq(st.c.get(('kw', q.id), 0), 0))
                else:
                    ex.oblige('inplace', '%s reads %s before its place in %s is overwritten' % (what, o.name, q.name), And(c, le(lo, hi)), le(st.c.get(('w', q.id), 0), a))
        elif o.kind in ('heap', 'out', 'alloca'):
            if o.kind == 'heap':
                ex.oblige('use-after-free', what, c, st.c.get(('live', o.id), False))
            w = st.c.get(('w', o.id), 0)
            n = nelems(o, esz)
            ex.oblige('bounds', '%s reads %s in bounds' % (what, o.name), And(c, le(lo, hi)), And(le(0, a), out_bound(ex, o, b) if o.kind == 'out' else lt(b, n)))
            if skolem(ex, o):
                ex.oblige('init', '%s reads initialised part of %s' % (what, o.name), And(c, le(a, ex.K), le(ex.K, b)), eq(st.c.get(('kw', o.id), 0), 1))
            else:
                ex.oblige('init', '%s reads initialised part of %s' % (what, o.name), And(c, le(lo, hi)), lt(b, w))
        else:
            raise Unsupported('array argument of kind ' + o.kind)


def aliased_in(ex, o):
    """condition under which the code has established that output o is (in place) an input
    array: its caller then owns elements 0..endIdx of it"""
    r = []
    for i in getattr(ex, 'inobj', []):
        b = ex.aliasb.get((min(i.id, o.id), max(i.id, o.id)))
        if b is not None:
            r.append(b)
    return Or(*r)


def out_bound(ex, o, last):
    """last element written is inside the caller's buffer"""
    return Or(lt(last, o.n), And(aliased_in(ex, o), le(last, ex.end)))


def skolem(ex, o):
    """outputs tracked at one arbitrary index K instead of by their written prefix"""
    return o.kind == 'out' and ex.opts.get('skolem')


def nelems(o, esz):
    if getattr(o, 'elems', None) is not None and esz == 8:
        return o.elems
    if o.kind == 'out':
        return o.n
    if o.size is None:
        raise Unsupported('unsized array ' + o.name)
    return o.size // esz if isc(o.size) else o.size / esz


def region_write(ex, p, n, esz, cond, ok, what, st):
    """callee writes elements 0..n-1 through p (when cond and success)"""
    g0 = Or(*[g for g, o, _ in p.alts if o is None])
    if g0 is not False:
        ex.oblige('null', 'output pointer of %s not null' % what, cond, Not(g0))
    for g, o, off in p.alts:
        if o is None:
            continue
        e = elem_of(off, esz)
        c = And(cond, g)
        if o.kind in ('in', 'const', 'glob'):
            ex.oblige('frame', '%s does not write input %s' % (what, o.name), c, le(n, 0))
            continue
        if o.kind == 'heap':
            ex.oblige('use-after-free', what, c, st.c.get(('live', o.id), False))
        ne = o.n if o.kind == 'out' else nelems(o, esz)
        ex.oblige('bounds', '%s writes %s in bounds' % (what, o.name), And(c, lt(0, n)), And(le(0, e), out_bound(ex, o, sub(add(e, n), 1)) if o.kind == 'out' else le(add(e, n), ne)))
        if skolem(ex, o):
            kw = st.c.get(('kw', o.id), 0)
            st.c[('kw', o.id)] = ex.idef(Ite(And(g, cond, ok, le(e, ex.K), lt(ex.K, add(e, n))), 1, kw), 'kw')
            continue
        w = st.c.get(('w', o.id), 0)
        ex.oblige('gap', '%s leaves no unwritten gap in %s' % (what, o.name), And(c, ok, lt(0, n)), le(e, w))
        hi = add(e, n)
        nw = Ite(And(g, cond, ok, lt(0, n), lt(w, hi)), hi, w)
        st.c[('w', o.id)] = ex.idef(nw, 'w')
        if o.kind in ('alloca', 'heap'):
            for k in [k for k in st.c if k[0] == o.id]:
                del st.c[k]


def store_cell(ex, p, v, cond, st, reach, what):
    g0 = Or(*[g for g, o, _ in p.alts if o is None])
    if g0 is not False:
        ex.oblige('null', '%s pointer not null' % what, And(reach, cond), Not(g0))
    alts = [a for a in p.alts if a[1] is not None]
    for g, o, off in alts:
        if not off.isconst():
            raise Unsupported('cell with symbolic offset')
        k = (o.id, off.c)
        c = And(cond, g) if len(alts) > 1 else cond
        old = st.c.get(k)
        if c is True or old is None:
            # unknown old value: fresh when not written
            st.c[k] = v if c is True else ex.merge_val([(c, v), (Not(c), ex.fresh_int('old'))], 'cell')
        else:
            st.c[k] = ex.merge_val([(c, v), (Not(c), old)], 'cell')


def batch_call(ex, fn, x, single, args, st, reach, lbterm=None, optlist=None, spec=None):
    """apply the contract of TA_[S_]X at a call site"""
    P = spec or PARAMS[x]
    ni, no = len(P['ins']), len(P['outs'])
    nopt = len(args) - 4 - ni - no
    start, end = args[0], args[1]
    ins = args[2:2 + ni]
    opts = args[2 + ni:2 + ni + nopt]
    pb, pn = args[2 + ni + nopt], args[3 + ni + nopt]
    outs = args[4 + ni + nopt:]
    ex.calls.append(fn)
    if spec is None:
        v = ex.bdef(valid(ex, x, opts), 'valid')
    else:
        v = ex.bdef(spec['valid'](ex, opts), 'valid')
    badstart = lt(start, 0)
    badend = Or(lt(end, 0), lt(end, start))
    nulls = Or(*[Not(p.nonnull()) for p in ins + outs])
    good = ex.bdef(And(Not(badstart), Not(badend), v, Not(nulls)), 'callok')
    LB = lbterm if lbterm is not None else (spec['lookback'](ex, opts, st, And(reach, good)) if spec else lookback(ex, x, opts, st, And(reach, good)))
    beg = ex.idef(Ite(lt(start, LB), LB, start), 'cbeg')
    n = ex.idef(Ite(le(beg, end), add(sub(end, beg), 1), 0), 'cnb')
    ex.note_anchor(beg)
    ex.note_anchor(n)
    afail = ex.fresh_bool('callee_alloc_fail')
    ex.calleefail = getattr(ex, 'calleefail', [])
    ex.calleefail.append(And(reach, good, afail))
    ok = ex.bdef(And(good, Not(afail)), 'cok')
    insz = 4 if single else 8
    cond = And(reach, good)
    lo = readlo(x or spec['base'], ex, beg, LB)
    for k, p in enumerate(ins):
        region_read(ex, p, lo, end, insz, And(cond, lt(0, n)), fn, st)
    for k, p in enumerate(outs):
        esz = 8 if P['outs'][k]['kind'] == 'double' else 4
        region_write(ex, p, n, esz, cond, ok, fn, st)
        for j, q in enumerate(ins):
            inplace_site(ex, fn, p, q, cond, lt(0, n), P['ins'][j]['name'], P['outs'][k]['name'])
    store_cell(ex, pb, ex.idef(Ite(lt(0, n), beg, 0), 'cb'), ok, st, reach, 'outBegIdx')
    store_cell(ex, pn, n, ok, st, reach, 'outNBElement')
    r = ex.fresh_int('ret')
    ex.define(Implies(ok, r == 0))
    ex.define(Implies(And(good, afail), r == ALLOC_ERR))
    ex.define(Implies(badstart, r == OOR_START) if spec is None else True)
    ex.define(Implies(And(Not(badstart), badend), r == OOR_END) if spec is None else True)
    ex.define(Implies(And(Not(badstart), Not(badend), Not(good)), r == BAD_PARAM) if spec is None else Implies(Not(good), r != 0))
    return r


def inplace_site(ex, fn, p, q, cond, c2, i, j):
    for g, o, off in p.alts:
        for g2, o2, off2 in q.alts:
            if o is None or o2 is None:
                continue
            if o is o2 or ex.aliased.get(o2.id) is o:
                ex.inplace = getattr(ex, 'inplace', set())
                ex.inplace.add((fn, i, j))
                a, b = elem_of(off, 8), elem_of(off2, 8)
                ex.oblige('inplace', '%s called in place with the output not ahead of the input' % fn, And(cond, c2, g, g2), le(a, b))


# With TA_COMPATIBILITY_METASTOCK an exponential average is seeded from bar 0, so for the
# EMA family the input window of a call then starts at bar 0 instead of beg-lookback.
READLO0 = {'EMA', 'MA', 'DEMA', 'TEMA', 'TRIX', 'WLMA', 'MACD', 'MACDFIX', 'MACDEXT', 'APO', 'PPO', 'BBANDS', 'MAVP'}


def readlo(x, ex, beg, LB):
    if x in READLO0:
        compat = z3.Int('G_compat')
        return ex.idef(Ite(compat == 0, sub(beg, LB), 0), 'rlo')
    return sub(beg, LB)


def int_specs(ctx):
    """contracts of the internal batch helpers reachable from other files"""
    def lb(x):
        return lambda ex, opts, st, reach: lookback(ex, x, opts, st, reach)
    rng = lambda lo: (lambda ex, o: And(le(lo, o[0]), le(o[0], 100000)))
    one_in = [{'name': 'inReal', 'kind': 'double'}]
    one_out = [{'name': 'outReal', 'kind': 'double'}]
    S = {}
    S['TA_INT_EMA'] = dict(base='EMA', ins=one_in, outs=one_out, valid=rng(1), lookback=lambda ex, o, st, r: lookback(ex, 'EMA', o[:1], st, r))
    S['TA_INT_SMA'] = dict(base='SMA', ins=one_in, outs=one_out, valid=rng(1), lookback=lb('SMA'))
    S['TA_INT_WLMA'] = dict(base='WLMA', ins=one_in, outs=one_out, valid=rng(1), lookback=lambda ex, o, st, r: lookback(ex, 'WLMA', o[:1], st, r))
    S['TA_INT_VAR'] = dict(base='VAR', ins=one_in, outs=one_out, valid=rng(1), lookback=lambda ex, o, st, r: sub(o[0], 1))
    return S


def handlers(ctx, internal_of=None):
    specs = int_specs(ctx)
    prog = ctx.prog

    def star(ex, name, args, st, reach, i):
        if name.endswith('_Lookback'):
            return INLINE
        sn = split_name(name)
        if sn and name in prog:
            if sn[0] in PARAMS and len(args) == 4 + len(PARAMS[sn[0]]['ins']) + len(PARAMS[sn[0]]['outs']) + len(PARAMS[sn[0]]['opts']):
                return batch_call(ex, name, sn[0], sn[1], args, st, reach)
        base = name.replace('TA_S_INT_', 'TA_INT_')
        if base in specs and ex.opts.get('modular_int', True) and name != ex.opts.get('self'):
            if prog.func(name).module is not ex.topmod or ex.opts.get('cut_local'):
                return batch_call(ex, name, None, name.startswith('TA_S_'), args, st, reach, spec=specs[base])
        if name in ('llvm.memmove.p0.p0.i64', 'llvm.memcpy.p0.p0.i64', 'memmove', 'memcpy'):
            return mem_copy(ex, name, args, st, reach)
        if name.startswith('llvm.memset'):
            raise Unsupported('memset')
        return NotImplemented

    def glob(ex, n):
        if n == '@TA_Globals':
            return ptr_to(ex.Gcell)
        g = ex.topmod.globals.get(n)
        if g is None:
            return None
        o = ex.newobj(n[1:], 'const' if g[2] else 'static', None)
        return ptr_to(o)
    def alias(ex, o1, o2):
        # scenario: at most one output array is (the same buffer as) one input array
        a = ex.opts.get('alias')
        return a is not None and {o1.name, o2.name} == set(a)
    return {'*': star, 'global': glob, 'alias': alias}


def mem_copy(ex, name, args, st, reach):
    d, s_, n = args[0], args[1], args[2]
    n = ex.unwrap(n, reach, name)
    k = div8(z3.simplify(n)) if not isc(n) else (n // 8 if n % 8 == 0 else None)
    esz = 8
    if k is None:
        if isc(n) and n % 4 == 0:
            esz, k = 4, n // 4
        else:
            raise Unsupported('memcpy size')
    if not isc(n):
        ex.oblige('overflow', 'copy size not negative', reach, le(0, n))
    ex.note_anchor(k)
    region_read(ex, s_, 0, sub(k, 1), esz, And(reach, lt(0, k)), name, st)
    region_write(ex, d, k, esz, reach, True, name, st)
    if 'memcpy' in name:
        for g, o, off in d.alts:
            for g2, o2, off2 in s_.alts:
                if o is not None and o is o2:
                    a, b = elem_of(off, esz), elem_of(off2, esz)
                    ex.oblige('overlap', 'memcpy regions disjoint', And(reach, g, g2), Or(le(add(a, k), b), le(add(b, k), a)))
    return d


# ---------------------------------------------------------------- proving one batch function
def wkey(o, off):
    """ghost cell and index: elements are initialised in order, per field of an array of structs"""
    n = getattr(o, 'stride', 1)
    if n == 1:
        return ('w', o.id), elem_of(off, 8)
    r = (off.c % (8 * n)) // 8
    from .sym import Off
    e = Off(off.c - 8 * r, off.t).elem(8 * n)
    if e is None:
        raise Unsupported('unaligned element access')
    return ('w%d' % r, o.id), e


def load_hook(lay):
    def h(ex, o, off, ty, st, cond):
        if o is ex.Gcell:
            return (ptr_to(ex.G),)
        if o is ex.G:
            return (glob_load(ex, off, ty, lay),)
        if o.kind == 'in':
            e = elem_of(off, o.esz)
            ex.oblige('read-window', 'read of %s inside the input window' % o.name, cond, And(le(o.lo, e), le(e, o.hi)), meta=('in', o, e, e))
            q = ex.aliased.get(o.id)
            if q is not None:
                if skolem(ex, q):
                    ex.oblige('inplace', 'element of %s read before its place in %s is overwritten' % (o.name, q.name), And(cond, eq(e, ex.K)), eq(st.c.get(('kw', q.id), 0), 0))
                else:
                    ex.oblige('inplace', 'element of %s read before its place in %s is overwritten' % (o.name, q.name), cond, le(st.c.get(('w', q.id), 0), e))
            return (ex.dom.load(o, off, st, ty),)
        if o.kind == 'out':
            e = elem_of(off, o.esz)
            w = st.c.get(('w', o.id), 0)
            if skolem(ex, o):
                ex.oblige('init', 'read of %s only where already written' % o.name, cond, And(le(0, e), lt(e, o.n)))
                ex.oblige('init', 'read of %s only where already written' % o.name, And(cond, eq(e, ex.K)), eq(st.c.get(('kw', o.id), 0), 1))
            else:
                ex.oblige('init', 'read of %s only where already written' % o.name, cond, And(le(0, e), lt(e, w)))
            if ty.k == 'int':
                return (ex.fresh_int('ldo', ty.n),)
            return (ex.dom.load(o, off, st, ty),)
        if o.kind == 'heap' and o.esz == 8 and ty.k == 'double':
            if not o.zero:
                k, e = wkey(o, off)
                ex.oblige('init', 'read of %s only where already written' % o.name, cond, lt(e, st.c.get(k, 0)))
            return (ex.dom.load(o, off, st, ty),)
        if o.kind == 'heap' and ty.k == 'int' and ty.n == 32 and getattr(o, 'ints', off.isconst() is False):
            o.ints = True
            e = off.elem(4)
            if e is None:
                raise Unsupported('unaligned element access')
            if not o.zero:
                ex.oblige('init', 'read of %s only where already written' % o.name, cond, lt(e, st.c.get(('w', o.id), 0)))
            v = ex.fresh_int('ldi', 32)
            a, b = st.c.get(('vlo', o.id), INT_MAX), st.c.get(('vhi', o.id), INT_MIN)
            fact = And(le(a, v), le(v, b))
            ex.define(Implies(cond, Or(fact, eq(v, 0)) if o.zero else fact))
            if ex.opts.get('skolem') and ('kv', o.id) in st.c:
                ex.define(Implies(And(cond, eq(e, ex.K)), eq(v, st.c[('kv', o.id)])))
            return (v,)
        if o.kind == 'static':
            raise Unsupported('static variable ' + o.name)
        return None
    return h


def store_hook(ex, o, off, ty, v, st, cond):
    if o.kind in ('glob', 'globptr', 'static'):
        ex.oblige('frame', 'no write to global state (%s)' % o.name, cond, False)
        return True
    if o.kind == 'in':
        ex.oblige('frame', 'no write to input %s' % o.name, cond, False)
        return True
    if o.kind == 'out':
        e = elem_of(off, o.esz)
        w = st.c.get(('w', o.id), 0)
        ex.oblige('write-window', 'write to %s inside the output window' % o.name, cond, And(le(0, e), out_bound(ex, o, e)), meta=('out', o, e))
        if skolem(ex, o):
            st.c[('kw', o.id)] = ex.idef(Ite(And(cond, eq(e, ex.K)), 1, st.c.get(('kw', o.id), 0)), 'kw')
            ex.dom.store(o, off, st, v, True)
            return True
        ex.oblige('gap', 'write to %s leaves no gap' % o.name, cond, le(e, w))
        st.c[('w', o.id)] = ex.idef(Ite(And(cond, eq(e, w)), add(w, 1), w) if not same(e, w) else Ite(cond, add(w, 1), w), 'w')
        if ex.on_out:
            ex.on_out(ex, o, e, v, st, cond)
        ex.dom.store(o, off, st, v, True)
        return True
    if o.kind == 'heap' and ty.k == 'int' and ty.n == 32 and getattr(o, 'ints', off.isconst() is False):
        # array of int: written prefix, and bounds of all values stored so far
        if getattr(o, 'dbls', False):
            raise Unsupported('array used as int and as double')
        o.ints = True
        e = off.elem(4)
        if e is None:
            raise Unsupported('unaligned element access')
        w = st.c.get(('w', o.id), 0)
        st.c[('w', o.id)] = ex.idef(Ite(And(cond, eq(e, w)), add(w, 1), w), 'w')
        a, b = st.c.get(('vlo', o.id), INT_MAX), st.c.get(('vhi', o.id), INT_MIN)
        st.c[('vlo', o.id)] = ex.idef(Ite(And(cond, lt(v, a)), v, a), 'vlo')
        st.c[('vhi', o.id)] = ex.idef(Ite(And(cond, lt(b, v)), v, b), 'vhi')
        if ex.opts.get('skolem'):
            st.c[('kv', o.id)] = ex.idef(Ite(And(cond, eq(e, ex.K)), v, st.c.get(('kv', o.id), 0)), 'kv')
        return True
    if o.kind == 'heap' and o.esz == 8 and ty.k == 'double':
        if getattr(o, 'ints', False):
            raise Unsupported('array used as int and as double')
        o.dbls = True
        k, e = wkey(o, off)
        w = st.c.get(k, 0)
        st.c[k] = ex.idef(Ite(And(cond, eq(e, w)), add(w, 1), w), 'w')
        ex.dom.store(o, off, st, v, True)
        return True
    return False


Exec.on_out = None


def setup(ctx, fname, x, single, domain=IntDomain, loopmods=None, opts=None, internal=None):
    prog = ctx.prog
    f = prog[fname]
    ex = Exec(prog, domain, handlers(ctx), opts)
    ex.topmod = f.module
    if loopmods is not None:
        ex.loopmods, ex.loopkills = loopmods
    ex.restart = False
    lay = ctx.layout()
    mk_globals(ex, f.module)
    ex.hook_load = load_hook(lay)
    ex.hook_store = store_hook
    P = PARAMS[x]
    start, end = z3.Int('startIdx'), z3.Int('endIdx')
    ex.assumes += [start >= INT_MIN, start <= INT_MAX, end >= INT_MIN, end <= ENDMAX]
    ov = []
    fp = [n for t, n in f.params]
    ni, no = len(P['ins']), len(P['outs'])
    nopt = len(fp) - 4 - ni - no
    for k in range(nopt):
        ty, n = f.params[2 + ni + k]
        nm = n[1:]
        if ty.k == 'int':
            v = z3.Int(nm)
            ex.assumes += [v >= INT_MIN, v <= INT_MAX]
        else:
            v = ex.dom.param(nm) if hasattr(ex.dom, 'param') else FPar(z3.Bool(nm + '.nan'), z3.Real(nm))
            if isinstance(v, FPar):
                ex.assumes.append(Not(v.nan))
        ov.append(v)
    ex.S = {}
    ex.start, ex.end, ex.ov = start, end, ov
    return ex, f, P, start, end, ov


def run_batch(ctx, fname, x, single, domain=IntDomain, opts=None, pre=None, spec=None):
    """one symbolic pass over the function under its contract's precondition frame"""
    loopmods = ({}, {})
    for attempt in range(12):
        ex, f, P, start, end, ov = setup(ctx, fname, x, single, domain, loopmods, opts)
        st = State()
        insz = 4 if single else 8
        v = ex.bdef(valid(ex, x, ov) if spec is None else spec['valid'](ex, ov), 'valid')
        inobj, outobj = [], []
        argin, argout = [], []
        nulls = []
        for p in P['ins']:
            o = ex.newobj(p['name'], 'in', None, esz=insz, mayalias=True)
            nb = z3.Bool(p['name'] + '.null')
            nulls.append(nb)
            inobj.append(o)
            argin.append(Ptr([(Not(nb), o, Off()), (nb, None, Off())]))
        for p in P['outs']:
            o = ex.newobj(p['name'], 'out', None, esz=8 if p['kind'] == 'double' else 4, mayalias=True, ekind=p['kind'])
            nb = z3.Bool(p['name'] + '.null')
            nulls.append(nb)
            outobj.append(o)
            argout.append(Ptr([(Not(nb), o, Off()), (nb, None, Off())]))
            st.c[('w', o.id)] = 0
        anynull = Or(*nulls)
        badstart = start < 0
        badend = z3.Or(end < 0, end < start)
        good = ex.bdef(And(Not(badstart), Not(badend), v, Not(anynull)), 'good')
        if spec is not None:
            ex.assumes.append(zb(good))
        ex.curfn = fname
        if ex.opts.get('skolem'):
            ex.K = z3.Int('K')
            ex.assumes += [ex.K >= 0, ex.K <= INT_MAX]
        LB = lookback(ex, x, ov, st, good) if spec is None else spec['lookback'](ex, ov, st, good)
        n0 = len(ex.obls)
        beg = ex.idef(Ite(lt(start, LB), LB, start), 'beg')
        n = ex.idef(Ite(le(beg, end), add(sub(end, beg), 1), 0), 'nb')
        for o in inobj:
            o.lo, o.hi = readlo(x, ex, beg, LB), end
            # nothing may be read when there is nothing to output
            o.hi = end
        for o in outobj:
            o.n = n
        ex.inobj, ex.outobj = inobj, outobj
        ex.beg, ex.nb, ex.LB, ex.good = beg, n, LB, good
        bo = ex.newobj('outBegIdx', 'outi', 4)
        no_ = ex.newobj('outNBElement', 'outi', 4)
        st.c[(bo.id, 0)] = ex.fresh_int('old_outBegIdx')
        st.c[(no_.id, 0)] = ex.fresh_int('old_outNBElement')
        ex.old = (st.c[(bo.id, 0)], st.c[(no_.id, 0)])
        al = (opts or {}).get('alias')
        ex.aliased = {}
        if al:
            i, o = [q for q in inobj if q.name == al[0]][0], [q for q in outobj if q.name == al[1]][0]
            ex.aliased[i.id] = o
        if pre:
            pre(ex)
        args = [start, end] + argin + ov + [ptr_to(bo), ptr_to(no_)] + argout
        ret, st2, reach = ex.run(f, args, st, True)
        if not ex.restart:
            break
    else:
        raise Unsupported('loop modification sets did not stabilise')
    ex.ret, ex.st2, ex.rreach = ret, st2, reach
    ex.bo, ex.no_ = bo, no_
    ex.badstart, ex.badend, ex.valid, ex.anynull = badstart, badend, v, anynull
    return ex


def post_batch(ex, x, fname, spec=None):
    """postconditions: named obligations at return"""
    ex.curfn, ex.curline = fname, None
    r, st, reach = zi(ex.ret), ex.st2, ex.rreach
    if reach is False:
        raise Unsupported('no reachable return')
    good = ex.good
    afail = Or(*[And(o.reach, Not(o.okb)) for o in ex.objs if o.kind == 'heap'] + getattr(ex, 'calleefail', []))
    if spec is None:
        ex.oblige('ret', 'negative startIdx -> TA_OUT_OF_RANGE_START_INDEX', And(reach, ex.badstart), r == OOR_START)
        ex.oblige('ret', 'endIdx negative or before startIdx -> TA_OUT_OF_RANGE_END_INDEX', And(reach, Not(ex.badstart), ex.badend), r == OOR_END)
        ex.oblige('ret', 'invalid option or null array -> TA_BAD_PARAM', And(reach, Not(ex.badstart), Not(ex.badend), Not(good)), r == BAD_PARAM)
    ex.oblige('ret', 'valid call returns TA_SUCCESS unless an allocation failed', And(reach, good), Or(r == OK, afail))
    ex.oblige('ret', 'valid call that cannot allocate returns TA_ALLOC_ERR', And(reach, good, r != OK), r == ALLOC_ERR)
    bc, nc = st.c.get((ex.bo.id, 0)), st.c.get((ex.no_.id, 0))
    ok = And(reach, good, r == OK)
    if nc is None or bc is None:
        ex.oblige('range', 'outBegIdx/outNBElement assigned on success', ok, False)
    else:
        ex.oblige('range', 'outNBElement == number of bars from max(startIdx,lookback) to endIdx', ok, eq(nc, ex.nb))
        ex.oblige('range', 'outBegIdx == max(startIdx,lookback), or 0 when nothing is produced', ok, eq(bc, Ite(lt(0, ex.nb), ex.beg, 0)))
    for o in ex.outobj:
        w = st.c.get(('w', o.id), 0)
        if skolem(ex, o):
            kw = st.c.get(('kw', o.id), 0)
            ex.oblige('filled', 'all of %s[0..outNBElement-1] written' % o.name, And(ok, lt(ex.K, ex.nb)), eq(kw, 1))
            w = kw
        else:
            ex.oblige('filled', 'all of %s[0..outNBElement-1] written' % o.name, ok, le(ex.nb, w))
        if spec is None:
            ex.oblige('untouched', '%s not written by a rejected call' % o.name, And(reach, Not(good)), eq(w, 0))
    for o in ex.objs:
        if o.kind == 'heap':
            lv = st.c.get(('live', o.id), False)
            ex.oblige('leak', '%s freed on return' % o.name, reach, Not(lv))
    # reachability (vacuity guard)
    ex.covers = [('success with output reachable', And(ok, lt(0, ex.nb)))]
    if spec is None:
        ex.covers.append(('rejection reachable', And(reach, Not(good))))


def anchors_of(ex):
    return [0, 1, ex.start, ex.end, ex.beg, ex.nb, sub(ex.nb, 1), ex.LB, sub(ex.beg, ex.LB)] + [v for v in ex.ov if z3.is_expr(v) and z3.is_int(v)]


def skolem_cands(ex, N, cand):
    """invariants about the arbitrary index K"""
    K = ex.K
    kws = [i for i, v in enumerate(N.V) if v[0][0] == 'cell' and v[0][1][0] == 'kw']
    kvs = [i for i, v in enumerate(N.V) if v[0][0] == 'cell' and v[0][1][0] == 'kv']
    oth = [i for i, v in enumerate(N.V) if i not in kws and i not in kvs]
    N.anchors.append(K)
    ka = len(N.anchors) - 1
    for i in kws:
        for j in kvs:
            cand('kw%d or kv%d nonzero' % (i, j), lambda m, i=i, j=j: Or(eq(m.x[i], 1), Not(eq(m.x[j], 0))))
            for a in range(len(N.anchors) - 1):
                cand('kw%d or kv%d nonzero or K>=%s' % (i, j, N.anchors[a]), lambda m, i=i, j=j, a=a: Or(eq(m.x[i], 1), Not(eq(m.x[j], 0)), le(m.a[a], m.a[ka])))
        for j in oth:
            cand('kw%d or %s<=K' % (i, N.names[j]), lambda m, i=i, j=j: Or(eq(m.x[i], 1), le(m.x[j], m.a[ka])))
            cand('kw%d or %s>=K' % (i, N.names[j]), lambda m, i=i, j=j: Or(eq(m.x[i], 1), le(m.a[ka], m.x[j])))
            cand('kw%d or %s<K' % (i, N.names[j]), lambda m, i=i, j=j: Or(eq(m.x[i], 1), lt(m.x[j], m.a[ka])))
            cand('kw%d or %s>K' % (i, N.names[j]), lambda m, i=i, j=j: Or(eq(m.x[i], 1), lt(m.a[ka], m.x[j])))
            for a in range(len(N.anchors) - 1):
                cand('kw%d or K>=%s+%s' % (i, N.names[j], N.anchors[a]), lambda m, i=i, j=j, a=a: Or(eq(m.x[i], 1), le(add(m.x[j], m.a[a]), m.a[ka])))
            cand('kw%d or K not in %s..nb' % (i, N.names[j]), lambda m, i=i, j=j: Or(eq(m.x[i], 1), lt(m.a[ka], m.x[j]), le(m.x[j], 0)))
    for i in kvs:
        for j in oth:
            cand('kv%d nonzero or %s<=K' % (i, N.names[j]), lambda m, i=i, j=j: Or(Not(eq(m.x[i], 0)), le(m.x[j], m.a[ka])))
            cand('kv%d==0 or %s>K' % (i, N.names[j]), lambda m, i=i, j=j: Or(eq(m.x[i], 0), lt(m.a[ka], m.x[j])))


def solve(ex, anchors, timeout=20000, hints=None):
    """invariants + discharge. `hints` (keys of invariants that were inductive before) only
    shrink the candidate set; what they leave unproved is tried again with all candidates"""
    tot = None
    for h in ([hints, None] if hints is not None else [None]):
        pr = Prover(ex, extra_anchors=anchors, timeout=timeout, hints=h)
        pr.infer()
        res = pr.discharge()
        if tot:
            pr.queries += tot[0]
            pr.t_solver += tot[1]
        tot = (pr.queries, pr.t_solver)
        if all(st == 'proved' for _, st, _ in res):
            break
    return pr, res


def prove_batch(ctx, fname, x, single, spec=None, timeout=20000, opts=None, hints=None):
    t = time.time()
    opts = dict(opts or {})
    if opts.get('unroll'):
        ctx = Ctx(ctx.prog.unrolled(fname))
    if opts.get('skolem'):
        opts['cand_hooks'] = [skolem_cands]
    ex = run_batch(ctx, fname, x, single, spec=spec, opts=opts)
    post_batch(ex, x, fname, spec)
    pr, res = solve(ex, anchors_of(ex), timeout, hints)
    cov = []
    for nme, c in ex.covers:
        r, m = pr.sat(c)
        cov.append((nme, str(r)))
    return ex, pr, res, cov, time.time() - t
