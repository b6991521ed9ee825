"""Verification-condition generator over the extracted LLVM IR.

One symbolic pass per function; loops are cut at their headers (phis and modified
memory cells become fresh symbols, constrained only by loop invariants), joins
introduce fresh symbols defined edge by edge, so the size of the formula is linear in
the function. Nothing is unrolled and nothing is bounded in this engine."""
import z3
from . import ir
from .ir import IRError, sizeof, layout

INT_MIN, INT_MAX = -2**31, 2**31 - 1
RANGE = {8: (-2**7, 2**7 - 1), 16: (-2**15, 2**15 - 1), 32: (INT_MIN, INT_MAX), 64: (-2**63, 2**63 - 1)}


class Unsupported(Exception):
    pass


def isc(x):
    return isinstance(x, int) and not isinstance(x, bool)


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def And(*a):
    r = []
    for x in a:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    if len(r) == 1:
        return r[0]
    return z3.And(*r)


def Or(*a):
    r = []
    for x in a:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    return z3.Or(*r)


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)):
        return z3.If(c, zb(a), zb(b))
    return z3.If(c, zi(a), zi(b))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, bool, float)) or isinstance(b, (int, bool, float)):
        return type(a) == type(b) and a == b
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    return False


def add(a, b):
    if isc(a) and isc(b):
        return a + b
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    return zi(a) + zi(b)


def sub(a, b):
    if isc(a) and isc(b):
        return a - b
    if isc(b) and b == 0:
        return a
    if same(a, b):
        return 0
    return zi(a) - zi(b)


def mul(a, b):
    if isc(a) and isc(b):
        return a * b
    if isc(a) and a == 1:
        return b
    if isc(b) and b == 1:
        return a
    if (isc(a) and a == 0) or (isc(b) and b == 0):
        return 0
    return zi(a) * zi(b)


def le(a, b):
    if isc(a) and isc(b):
        return a <= b
    return zi(a) <= zi(b)


def lt(a, b):
    if isc(a) and isc(b):
        return a < b
    return zi(a) < zi(b)


def eq(a, b):
    if isinstance(a, (bool,)) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)):
        if a is True:
            return b
        if b is True:
            return a
        if a is False:
            return Not(b)
        if b is False:
            return Not(a)
        return a == b
    if isc(a) and isc(b):
        return a == b
    if same(a, b):
        return True
    return zi(a) == zi(b)


class Off:
    """byte offset: constant + sum scale*term"""
    __slots__ = ('c', 't')

    def __init__(s, c=0, t=()):
        s.c, s.t = c, tuple(t)

    def plus(s, scale, term):
        if isc(term):
            return Off(s.c + scale * term, s.t)
        return Off(s.c, s.t + ((scale, term),))

    def isconst(s):
        return not s.t

    def expr(s):
        r = s.c
        for sc, t in s.t:
            r = add(r, mul(sc, t))
        return r

    def elem(s, sz):
        if s.c % sz or any(sc % sz for sc, _ in s.t):
            return None
        r = s.c // sz
        for sc, t in s.t:
            r = add(r, mul(sc // sz, t))
        return r

    def same(s, o):
        return s.c == o.c and len(s.t) == len(o.t) and all(a == c and same(b, d) for (a, b), (c, d) in zip(s.t, o.t))


class Obj:
    """a memory object; kind in: in, out, outi(nt cell), alloca, heap, glob, const, file, opaque"""
    def __init__(s, oid, name, kind, size=None, **kw):
        s.id = oid
        s.name, s.kind, s.size = name, kind, size     # size in bytes (int/z3) or None = unbounded/unknown
        s.esz = kw.pop('esz', None)                   # element size for array-like objects
        s.__dict__.update(kw)

    def __repr__(s):
        return 'Obj(%s)' % s.name


class Ptr:
    __slots__ = ('alts',)

    def __init__(s, alts):
        s.alts = [a for a in alts if a[0] is not False]

    def gep(s, scale, term):
        return Ptr([(g, o, off.plus(scale, term) if o is not None else off) for g, o, off in s.alts])

    def nonnull(s):
        return Or(*[g for g, o, _ in s.alts if o is not None])


NULLPTR = Ptr([(True, None, Off())])


def ptr_to(o, off=0):
    return Ptr([(True, o, Off(off))])


class Fn:
    """function pointer / symbol address"""
    def __init__(s, name):
        s.name = name


class FPar:
    """a floating-point value about which we know (isnan, real) in integer mode"""
    __slots__ = ('nan', 'r')

    def __init__(s, nan, r):
        s.nan, s.r = nan, r


class IntDomain:
    """floating point values are opaque, except option parameters and constants, which
    are compared exactly (as extended reals plus NaN)."""
    name = 'int'

    def __init__(s, ex):
        s.ex = ex

    def const(s, c):
        return c

    def unknown(s):
        return None

    def op(s, name, args):
        return None

    def call(s, name, args):
        return None

    def sitofp(s, x):
        return FPar(False, z3.ToReal(zi(x))) if not isc(x) else float(x)

    def fptosi(s, x):
        if isinstance(x, float):
            return int(x)
        return s.ex.fresh_int('fptosi', 32)

    def _r(s, x):
        if isinstance(x, float):
            if x != x:
                return None
            if x in (float('inf'), float('-inf')):
                return None
            from fractions import Fraction
            return (False, z3.RealVal(str(Fraction(x))))
        if isinstance(x, FPar):
            return (x.nan, x.r)
        return None

    def cmp(s, pred, a, b):
        a, b = s._r(a), s._r(b)
        if a is None or b is None:
            return s.ex.fresh_bool('fcmp')
        un = Or(a[0], b[0])
        x, y = a[1], b[1]
        rel = {'eq': lambda: x == y, 'gt': lambda: x > y, 'ge': lambda: x >= y, 'lt': lambda: x < y, 'le': lambda: x <= y, 'ne': lambda: x != y}
        if pred == 'ord':
            return Not(un)
        if pred == 'uno':
            return un
        r = rel[pred[1:]]()
        return And(Not(un), r) if pred[0] == 'o' else Or(un, r)

    def merge(s, alts):
        """alts: [(cond, value)]"""
        v0 = alts[0][1]
        if all(v is v0 or (isinstance(v, float) and v == v0) for _, v in alts):
            return v0
        rs = [s._r(v) for _, v in alts]
        if any(r is None for r in rs):
            return None
        nan = s.ex.fresh_bool('nan')
        r = s.ex.fresh('real', z3.RealSort())
        for (c, _), q in zip(alts, rs):
            s.ex.define(Implies(c, And(eq(nan, q[0]), r == q[1])))
        return FPar(nan, r)

    def load(s, obj, elem, st, ty):
        return None

    def store(s, obj, elem, st, v, guard):
        pass

    def fresh(s, name):
        return None

    def eqv(s, a, b):
        return None


class LoopInfo:
    pass


class Obl:
    __slots__ = ('kind', 'msg', 'line', 'cond', 'goal', 'fn', 'meta')

    def __init__(s, kind, msg, line, cond, goal, fn, meta=None):
        s.kind, s.msg, s.line, s.cond, s.goal, s.fn, s.meta = kind, msg, line, cond, goal, fn, meta

    def name(s):
        return '%s:%s%s: %s' % (s.fn, s.kind, '@line %d' % s.line if s.line else '', s.msg)


class State:
    """memory: cells (objid, offset) -> value, and ghost cells (name, objid) -> value"""
    __slots__ = ('c',)

    def __init__(s, c=None):
        s.c = dict(c or {})

    def copy(s):
        return State(s.c)


class Exec:
    def __init__(s, modules, domain=IntDomain, handlers=None, opts=None):
        s.mods = modules            # function name -> Func
        s.dom = domain(s)
        s.defs = []                 # definitional constraints
        s.assumes = []
        s.obls = []
        s.loops = []
        s.nfresh = 0
        s.handlers = handlers or {}
        s.objs = []
        s.globs = {}
        s.aliasb = {}
        s.curfn = None
        s.curline = None
        s.addconsts = set()
        s.anchors = []              # int terms usable as invariant anchors
        s.inline_depth = 0
        s.loopmods = {}             # (callpath, header) -> set of cells
        s.callpath = ()
        s.opts = opts or {}
        s.loopkills = {}
        s.glob_syms = {}
        s.calls = []
        s.trace_reads = None
        s.hook_load = None
        s.unwrapped = {}
        s.hook_store = None

    # ---- fresh symbols
    def fresh(s, name, sort):
        s.nfresh += 1
        return z3.Const('%s!%d' % (name, s.nfresh), sort)

    def fresh_bool(s, name='b'):
        return s.fresh(name, z3.BoolSort())

    def fresh_int(s, name='i', bits=32):
        v = s.fresh(name, z3.IntSort())
        if bits in RANGE:
            lo, hi = RANGE[bits]
            s.defs.append(z3.And(v >= lo, v <= hi))
        return v

    def define(s, f):
        if f is not True:
            s.defs.append(zb(f))

    def bdef(s, f, name='r'):
        """name a boolean (keeps formulas shared)"""
        if isinstance(f, bool) or (z3.is_const(f) or (z3.is_not(f) and z3.is_const(f.arg(0)))):
            return f
        b = s.fresh_bool(name)
        s.defs.append(b == f)
        return b

    def idef(s, f, name='d', bits=None):
        if isc(f) or z3.is_const(f):
            return f
        v = s.fresh(name, z3.IntSort())
        s.defs.append(v == f)
        return v

    def oblige(s, kind, msg, cond, goal, meta=None):
        if goal is True or cond is False:
            s.ntriv = getattr(s, 'ntriv', 0) + 1
            s.trivial = getattr(s, 'trivial', {})
            s.trivial[kind] = s.trivial.get(kind, 0) + 1
            return
        s.obls.append(Obl(kind, msg, s.curline, cond, goal, s.curfn, meta))

    def newobj(s, *a, **k):
        o = Obj(len(s.objs) + 1, *a, **k)
        s.objs.append(o)
        return o

    # ---- merging
    def merge_val(s, alts, name='m', bits=None):
        """alts: [(cond, value)] with mutually exclusive conds covering the current reach"""
        v0 = alts[0][1]
        if isinstance(v0, Ptr) or any(isinstance(v, Ptr) for _, v in alts):
            out = []
            for c, v in alts:
                if v is None:
                    return None
                if not isinstance(v, Ptr):
                    raise Unsupported('ptr merge')
                for g, o, off in v.alts:
                    out.append((And(c, g), o, off))
            return s.norm_ptr(out)
        if isinstance(v0, Fn):
            if all(isinstance(v, Fn) and v.name == v0.name for _, v in alts):
                return v0
            raise Unsupported('fn ptr merge')
        isint = lambda v: isinstance(v, (int, bool)) or (z3.is_expr(v) and (z3.is_int(v) or z3.is_bool(v)))
        if all(isint(v) for _, v in alts):
            if all(same(v, v0) for _, v in alts):
                return v0
            isb = any(isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)) for _, v in alts)
            if isb:
                x = s.fresh_bool(name)
                for c, v in alts:
                    s.define(Implies(c, x == zb(v)))
            else:
                x = s.fresh(name, z3.IntSort())
                for c, v in alts:
                    s.define(Implies(c, x == zi(v)))
            return x
        if z3.is_expr(v0) and z3.is_array(v0):
            if all(same(v, v0) for _, v in alts):
                return v0
            x = s.fresh(name, v0.sort())
            for c, v in alts:
                s.define(Implies(c, x == v))
            return x
        return s.dom.merge(alts)

    def norm_ptr(s, alts):
        res = []
        for g, o, off in alts:
            if g is False:
                continue
            for i, (g2, o2, off2) in enumerate(res):
                if o is o2 and (o is None or off.same(off2)):
                    res[i] = (Or(g, g2), o, off)
                    break
            else:
                res.append((g, o, off))
        if len(res) == 1:
            return Ptr([(True, res[0][1], res[0][2])])
        # same object with different offsets: merge to one symbolic offset
        by = {}
        for g, o, off in res:
            by.setdefault(o.id if o is not None else 0, []).append((g, o, off))
        out = []
        for k, l in by.items():
            if len(l) == 1 or k == 0:
                g = Or(*[x[0] for x in l])
                out.append((s.bdef(g, 'pg'), l[0][1], l[0][2]))
            else:
                d = s.fresh('poff', z3.IntSort())
                esz = l[0][1].esz or 1
                for g, o, off in l:
                    e = off.elem(esz)
                    if e is None:
                        raise Unsupported('unaligned pointer merge')
                    s.define(Implies(g, d == zi(e)))
                out.append((s.bdef(Or(*[x[0] for x in l]), 'pg'), l[0][1], Off(0, ((esz, d),))))
        if len(out) == 1:
            return Ptr([(True, out[0][1], out[0][2])])
        return Ptr(out)

    def ghost_default(s, key):
        return {'live': False, 'vlo': INT_MAX, 'vhi': INT_MIN, 'kw': 0, 'kv': 0}.get(key[0], 0 if key[0][0] == 'w' else None)

    def merge_states(s, alts):
        """alts: [(cond, State)]"""
        if len(alts) == 1:
            return alts[0][1].copy()
        keys = set()
        for _, st in alts:
            keys |= set(st.c)
        out = State()
        for k in sorted(keys, key=lambda k: (str(k[0]), str(k[1]))):
            vs = []
            ok = True
            for c, st in alts:
                if k in st.c:
                    vs.append((c, st.c[k]))
                else:
                    d = s.ghost_default(k) if isinstance(k[0], str) else None
                    if d is None:
                        ok = False
                        break
                    vs.append((c, d))
            if ok:
                out.c[k] = s.merge_val(vs, 'cell')
        return out

    # ---- function execution
    def run(s, f, args, st, reach):
        """symbolically execute f inline; returns (value, state, reach)"""
        key = (s.callpath, f.name)
        order, loops = ir.loops(f)
        save = (s.curfn, s.curline)
        s.curfn = f.name
        s.inline_depth += 1
        if s.inline_depth > 24:
            raise Unsupported('recursion')
        env = {}
        for (ty, n), v in zip(f.params, args):
            env[n] = v
        inc = {b: [] for b in order}      # block -> [(pred, cond, state)]
        rets = []
        loopinst = {}
        for b in order:
            blk = f.blocks[b]
            if b == order[0]:
                edges = [(None, reach, st)]
            else:
                edges = inc[b]
            if not edges:
                continue
            if b in loops:
                body, latches = loops[b]
                entry = [e for e in edges]      # only non-latch edges have been added so far
                L = LoopInfo()
                L.fn, L.header, L.path = f.name, b, s.callpath
                L.line = f.module.lines.get(blk.ins[0].dbg) if blk.ins and blk.ins[0].dbg else None
                for i in blk.ins:
                    if i.dbg and L.line is None:
                        L.line = f.module.lines.get(i.dbg)
                L.latches = latches
                L.edges = []
                L.vars = []
                L.pvars = []
                L.lastobj = len(s.objs)
                L.nfresh0 = s.nfresh
                L.preanchors = list(s.anchors)
                L.body = body
                est = s.merge_states([(c, st_) for _, c, st_ in entry])
                ereach = s.bdef(Or(*[c for _, c, _ in entry]), 'r_' + b)
                hst = est.copy()
                lk = (s.callpath, f.name, b)
                mods = s.loopmods.setdefault(lk, set())
                for k in sorted(mods, key=str):
                    if k in s.loopkills.get(lk, ()):
                        hst.c.pop(k, None)
                        continue
                    ev = est.c.get(k)
                    if ev is None and isinstance(k[0], str):
                        ev = s.ghost_default(k)
                    if ev is None:
                        hst.c.pop(k, None)
                        continue
                    nv = s.havoc_like(ev, 'h')
                    if nv is None:
                        hst.c.pop(k, None)
                        continue
                    hst.c[k] = nv
                    L.vars.append([('cell', k), nv, ev, []])
                for i in blk.ins:
                    if i.op != 'phi':
                        break
                    ev = s.merge_val([(c, s.val(dict((p, v) for v, p in i.args)[pr], i.ty, env)) for pr, c, _ in entry], 'e')
                    if isinstance(ev, Ptr):
                        d = s.fresh('pd', z3.IntSort())
                        L.defs_ptr = True
                        nv = Ptr([(g, o, off.plus((o.esz or 1), d) if o is not None else off) for g, o, off in ev.alts])
                        L.pvars.append([i, ev, d, nv])
                        L.vars.append([('pphi', i.dst), d, 0, []])
                        env[i.dst] = nv
                    else:
                        nv = s.havoc_like(ev, i.dst[1:], i.ty)
                        env[i.dst] = nv
                        L.vars.append([('phi', i.dst), nv, ev, []])
                L.entry_reach = ereach
                L.entry_state = est
                L.defs0 = len(s.defs)
                L.nfresh1 = s.nfresh
                L.reach = s.fresh_bool('rh_' + b)
                s.define(Implies(L.reach, ereach))
                L.hst = hst
                L.f = f
                L.obl0 = len(s.obls)
                s.loops.append(L)
                loopinst[b] = L
                cur, creach = hst.copy(), L.reach
            else:
                if len(edges) == 1:
                    cur, creach = edges[0][2].copy(), edges[0][1]
                else:
                    creach = s.bdef(Or(*[c for _, c, _ in edges]), 'r_' + b)
                    cur = s.merge_states([(c, st_) for _, c, st_ in edges])
                for i in blk.ins:
                    if i.op != 'phi':
                        break
                    m = dict((p, v) for v, p in i.args)
                    alts = []
                    for pr, c, _ in edges:
                        alts.append((c, s.val(m[pr], i.ty, env)))
                    env[i.dst] = s.merge_val(alts, i.dst[1:]) if len(alts) > 1 else alts[0][1]
            # straight-line part
            for i in blk.ins:
                if i.op == 'phi':
                    continue
                if i.dbg:
                    s.curline = f.module.lines.get(i.dbg, s.curline)
                if i.op in ('br', 'switch', 'ret', 'unreachable'):
                    break
                r = s.step(i, env, cur, creach, f)
                if isinstance(r, tuple) and len(r) == 3 and r[0] == 'inlined':
                    _, cur, creach = r
            t = blk.ins[-1]
            outs = []
            if t.op == 'br':
                if len(t.extra) == 1:
                    outs = [(t.extra[0], creach)]
                else:
                    c = s.val(t.args[0], ir.I1, env)
                    outs = [(t.extra[0], s.bdef(And(creach, c), 'c')), (t.extra[1], s.bdef(And(creach, Not(c)), 'c'))]
                    if t.extra[0] == t.extra[1]:
                        outs = [(t.extra[0], creach)]
            elif t.op == 'switch':
                v = s.val(t.args[0], t.ty, env)
                d, cases = t.extra
                byl = {}
                for cv, lb in cases:
                    byl.setdefault(lb, []).append(eq(v, cv))
                allc = Or(*[x for l in byl.values() for x in l])
                byl.setdefault(d, []).append(Not(allc))
                outs = [(lb, s.bdef(And(creach, Or(*cs)), 'sw')) for lb, cs in byl.items()]
            elif t.op == 'ret':
                rets.append((creach, s.val(t.args[0], t.ty, env) if t.args else None, cur))
            for lb, c in outs:
                if c is False:
                    continue
                if lb in loopinst and b in loopinst[lb].body:
                    L = loopinst[lb]
                    L.edges.append((c, cur))
                    L.defs_end = len(s.defs)
                    L.nfresh_end = s.nfresh
                    L.nest_end = len(s.loops)
                    L.obl1 = len(s.obls)
                    for k in set(cur.c) | set(L.hst.c):
                        a, h = cur.c.get(k), L.hst.c.get(k)
                        if a is None and h is None:
                            continue
                        if a is None or h is None or not s.same_val(a, h):
                            if k not in mods_of(s, L):
                                if isinstance(k[0], int) and k[0] > L.lastobj_id(s):
                                    continue
                                mods_of(s, L).add(k)
                                s.restart = True
                    for vrec in L.vars:
                        kind, key_ = vrec[0]
                        if kind == 'phi':
                            ins = [i for i in f.blocks[lb].ins if i.op == 'phi' and i.dst == key_][0]
                            vrec[3].append((c, s.val(dict((p, v) for v, p in ins.args)[b], ins.ty, env)))
                        elif kind == 'cell':
                            v = cur.c.get(key_)
                            if v is None and isinstance(key_[0], str):
                                v = s.ghost_default(key_)
    
                            vrec[3].append((c, v))
                    for ins, ev, d, nv in L.pvars:
                        lv = s.val(dict((p, v) for v, p in ins.args)[b], ins.ty, env)
                        # latch pointer must be the entry pointer displaced
                        disp = s.ptr_disp(ev, lv)
                        if disp is None:
                            raise Unsupported('loop pointer phi')
                        for vrec in L.vars:
                            if vrec[0] == ('pphi', ins.dst):
                                vrec[3].append((c, disp))
                else:
                    inc[lb].append((b, c, cur))
        s.curfn, s.curline = save
        s.inline_depth -= 1
        if not rets:
            return None, st, False
        if len(rets) == 1:
            return rets[0][1], rets[0][2], rets[0][0]
        st2 = s.merge_states([(c, q) for c, _, q in rets])
        v = s.merge_val([(c, x) for c, x, _ in rets], 'ret') if rets[0][1] is not None else None
        return v, st2, s.bdef(Or(*[c for c, _, _ in rets]), 'rr')

    def ptr_disp(s, ev, lv):
        if not isinstance(lv, Ptr):
            return None
        e = [(o, off) for g, o, off in ev.alts if o is not None]
        l = [(o, off) for g, o, off in lv.alts if o is not None]
        if len(e) != len(l) or {o.id for o, _ in e} != {o.id for o, _ in l}:
            return None
        d = None
        for o, off in e:
            for o2, off2 in l:
                if o is o2:
                    a, b = off.elem(o.esz or 1), off2.elem(o.esz or 1)
                    if a is None or b is None:
                        return None
                    x = sub(b, a)
                    x = x if isc(x) else z3.simplify(x)
                    if d is not None and not same(d, x):
                        return None
                    d = x
        return d

    def same_val(s, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return len(a.alts) == len(b.alts) and all(same(x[0], y[0]) and x[1] is y[1] and x[2].same(y[2]) for x, y in zip(a.alts, b.alts))
        if isinstance(a, FPar) or isinstance(b, FPar):
            return a is b
        return same(a, b)

    def havoc_like(s, ev, name, ty=None):
        if isinstance(ev, bool) or (z3.is_expr(ev) and z3.is_bool(ev)):
            return s.fresh_bool(name)
        if isc(ev) or (z3.is_expr(ev) and z3.is_int(ev)):
            return s.fresh(name, z3.IntSort())
        if z3.is_expr(ev) and z3.is_array(ev):
            return s.fresh(name, ev.sort())
        if isinstance(ev, (Ptr, Fn)):
            return None
        return s.dom.fresh(name)

    # ---- operands
    def val(s, o, ty, env):
        k = o[0]
        if k == 'r':
            return env[o[1]]
        if k == 'c':
            if ty.k == 'int' and ty.n == 1:
                return bool(o[1])
            return o[1]
        if k == 'f':
            return s.dom.const(o[1])
        if k == 'null':
            return NULLPTR
        if k == 'undef':
            if ty.k == 'int':
                return s.fresh_bool('undef') if ty.n == 1 else s.fresh_int('undef', ty.n)
            if ty.k == 'ptr':
                return NULLPTR
            return s.dom.fresh('undef')
        if k == 'g':
            return s.global_ptr(o[1])
        if k == 'gep':
            _, bt, base, idx = o
            p = s.val(base, ir.PTR, env)
            return s.do_gep(p, bt, [(t, s.val(v, t, env)) for t, v in idx])
        raise Unsupported('operand %r' % (o,))

    def global_ptr(s, n):
        f = s.handlers.get('global')
        if n in s.globs:
            return s.globs[n]
        r = f(s, n) if f else None
        if r is None:
            r = Fn(n[1:])
        s.globs[n] = r
        return r

    def do_gep(s, p, bt, idx):
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        first = True
        t = bt
        for ity, v in idx:
            if first:
                p = p.gep(sizeof(t), v)
                first = False
                continue
            if t.k == 'struct':
                if not isc(v):
                    raise Unsupported('struct index')
                p = p.gep(1, layout(t)[0][v])
                t = t.fields[v]
            elif t.k == 'arr':
                t = t.el
                p = p.gep(sizeof(t), v)
            else:
                raise Unsupported('gep into %r' % t)
        return p

    # ---- integer helpers
    def u64(s, x, bits):
        if isc(x):
            return x % (1 << bits)
        return z3.If(x < 0, x + (1 << bits), x)

    def wrap(s, x, bits, nsw, reach, opname):
        lo, hi = RANGE[bits]
        if isc(x):
            if lo <= x <= hi:
                return x
            if nsw:
                s.oblige('overflow', opname, reach, False)
            return (x - lo) % (1 << bits) + lo
        if nsw:
            s.oblige('overflow', 'no signed overflow in ' + opname, reach, z3.And(x >= lo, x <= hi))
            return x
        d = z3.simplify(x)
        if z3.is_int_value(d):
            return s.wrap(d.as_long(), bits, nsw, reach, opname)
        # wrapping (unsigned) arithmetic: exact for results within one period
        y = s.fresh('wr', z3.IntSort())
        s.defs.append(y == z3.If(x > hi, x - (1 << bits), z3.If(x < lo, x + (1 << bits), x)))
        s.defs.append(z3.And(y >= lo, y <= hi))
        s.unwrapped[y.get_id()] = (y, x)
        return y

    def unwrap(s, y, reach, what):
        """the exact value of a wrapping computation, with the obligation that it did not wrap"""
        if isc(y) or y.get_id() not in s.unwrapped:
            return y
        x = s.unwrapped[y.get_id()][1]
        lo, hi = RANGE[64]
        s.oblige('size', 'size computation of %s does not wrap' % what, reach, z3.And(x >= 0, x <= hi))
        return x

    def step(s, i, env, st, reach, f):
        op = i.op
        V = lambda k, ty=None: s.val(i.args[k], ty or i.ty, env)
        if op in ('add', 'sub', 'mul'):
            a, b = V(0), V(1)
            if i.ty.n == 1:
                raise Unsupported('i1 arith')
            r = {'add': add, 'sub': sub, 'mul': mul}[op](a, b)
            for q in (a, b):
                if isc(q) and 0 < abs(q) <= 1000:
                    if op == 'mul' and abs(q) >= 10:
                        s.note_anchor(q)
                        s.note_anchor(-q)
                    elif op == 'add' and 1 < q <= 16 and not (isc(a) and isc(b)):
                        s.addconsts.add(q)
            env[i.dst] = s.wrap(r, i.ty.n, 'nsw' in i.extra, reach, i.text.split('=', 1)[-1].strip())
        elif op in ('and', 'or', 'xor') and i.ty.n == 1:
            a, b = V(0), V(1)
            env[i.dst] = And(a, b) if op == 'and' else Or(a, b) if op == 'or' else Not(eq(a, b)) if not (isinstance(a, bool) and isinstance(b, bool)) else a != b
        elif op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a, b = V(0), V(1)
            if isc(a) and isc(b):
                n = i.ty.n
                r = {'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: (a % (1 << n)) >> b, 'ashr': lambda: a >> b}[op]()
                lo = RANGE[n][0]
                env[i.dst] = (r - lo) % (1 << n) + lo
            elif op == 'and' and isc(b) and b >= 0 and (b & (b + 1)) == 0:
                env[i.dst] = zi(a) % (b + 1)
            elif op == 'ashr' and isc(b):
                env[i.dst] = zi(a) / (1 << b)
            elif op == 'lshr' and isc(b):
                env[i.dst] = s.u64(a, i.ty.n) / (1 << b)
            elif op == 'shl' and isc(b):
                env[i.dst] = s.wrap(mul(a, 1 << b), i.ty.n, 'nsw' in i.extra, reach, 'shl')
            else:
                env[i.dst] = s.fresh_int('bit', i.ty.n)
        elif op in ('sdiv', 'srem', 'udiv', 'urem'):
            a, b = V(0), V(1)
            if op[0] == 'u':
                a, b = s.u64(a, i.ty.n), s.u64(b, i.ty.n)
            s.oblige('divzero', 'divisor is not zero in ' + i.text.split('=', 1)[-1].strip(), reach, Not(eq(b, 0)))
            if isc(a) and isc(b) and b != 0:
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                env[i.dst] = q if op.endswith('div') else a - q * b
            elif isc(b) and b > 0:
                az = zi(a)
                if op == 'udiv':
                    env[i.dst] = az / b
                elif op == 'urem':
                    env[i.dst] = az % b
                else:
                    q = z3.If(az >= 0, az / b, -((-az) / b))
                    q = s.idef(q, 'q')
                    env[i.dst] = q if op == 'sdiv' else az - q * b
            else:
                a, b = zi(a), zi(b)
                q, r = s.fresh('q', z3.IntSort()), s.fresh('r', z3.IntSort())
                nz = b != 0
                absb = z3.If(b < 0, -b, b)
                s.define(z3.Implies(nz, z3.And(r < absb, r > -absb, z3.Implies(a >= 0, r >= 0), z3.Implies(a <= 0, r <= 0))))
                s.define(z3.Implies(z3.And(a >= 0, b > 0), z3.And(r <= a, z3.Implies(a < b, z3.And(r == a, q == 0)), z3.Implies(a == b, z3.And(r == 0, q == 1)), q >= 0, q <= a, z3.Implies(a >= b, q >= 1))))
                s.define(z3.Implies(z3.And(a <= 0, b > 0), z3.And(q <= 0, q >= a)))
                if s.opts.get('nonlinear'):
                    s.define(z3.Implies(nz, a == q * b + r))
                if not s.opts.get('nonlinear'):
                    # small multiples: enough for wrap-around index arithmetic
                    s.define(z3.Implies(z3.And(a >= b, a < 2 * b, b > 0), z3.And(r == a - b, q == 1)))
                s.moddefs = getattr(s, 'moddefs', [])
                s.moddefs.append((a, b, q, r))
                env[i.dst] = q if op.endswith('div') else r
        elif op in ('sext', 'zext'):
            a = s.val(i.args[0], i.extra, env)
            if i.extra.n == 1:
                env[i.dst] = Ite(a, -1 if op == 'sext' else 1, 0) if not isinstance(a, bool) else ((-1 if op == 'sext' else 1) if a else 0)
            else:
                env[i.dst] = a if op == 'sext' else (s.u64(a, i.extra.n) if isc(a) else s.idef(s.u64(a, i.extra.n), 'zx'))
        elif op == 'trunc':
            a = s.val(i.args[0], i.extra, env)
            if i.ty.n == 1:
                env[i.dst] = (a & 1) == 1 if isc(a) else (zi(a) % 2 == 1)
            else:
                lo, hi = RANGE[i.ty.n]
                if isc(a):
                    env[i.dst] = (a - lo) % (1 << i.ty.n) + lo
                else:
                    y = s.fresh('tr', z3.IntSort())
                    s.defs.append(z3.Implies(z3.And(a >= lo, a <= hi), y == a))
                    s.defs.append(z3.And(y >= lo, y <= hi))
                    env[i.dst] = y
        elif op in ('ptrtoint', 'inttoptr'):
            raise Unsupported(op)
        elif op == 'bitcast':
            env[i.dst] = s.val(i.args[0], i.extra, env)
        elif op == 'icmp':
            env[i.dst] = s.icmp(i.extra, V(0), V(1), i.ty)
        elif op == 'fcmp':
            if i.extra in ('true', 'false'):
                env[i.dst] = i.extra == 'true'
            else:
                env[i.dst] = s.dom.cmp(i.extra, V(0), V(1))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            env[i.dst] = s.dom.op(op + ('' if i.ty.k == 'double' else 'f'), [V(0), V(1)])
        elif op == 'fneg':
            env[i.dst] = s.dom.op('fneg', [V(0)])
        elif op == 'freeze':
            env[i.dst] = V(0)
        elif op in ('fpext', 'fptrunc'):
            env[i.dst] = s.dom.op(op, [s.val(i.args[0], i.extra, env)])
        elif op in ('sitofp', 'uitofp'):
            x = s.val(i.args[0], i.extra, env)
            if isinstance(x, bool) or (z3.is_expr(x) and z3.is_bool(x)):
                x = Ite(x, 1, 0)
            env[i.dst] = s.dom.sitofp(x)
        elif op in ('fptosi', 'fptoui'):
            x = s.val(i.args[0], i.extra, env)
            y = env[i.dst] = s.dom.fptosi(x)
            if op == 'fptosi' and s.opts.get('fpint') and i.ty.n == 32 and not isc(y):
                from . import fpint
                iv = fpint.interval(f, i.args[0])
                if iv is not None and max(iv[0], -2.0**31) <= min(iv[1], 2.0**31 - 1):
                    lo = int(iv[0]) if iv[0] > -2.0**31 else INT_MIN
                    hi = int(iv[1]) if iv[1] < 2.0**31 - 1 else INT_MAX
                    # out of range or NaN converts to INT_MIN (x86 cvttsd2si)
                    s.define(Or(eq(y, INT_MIN), And(le(lo, y), le(y, hi))))
                    s.note_anchor(hi)
                    # tighter facts for the first iterations of the enclosing loop
                    Ls = [L for L in s.loops if L.fn == f.name and L.path == s.callpath and any(i in f.blocks[b].ins for b in L.body)]
                    if Ls:
                        L = max(Ls, key=lambda L: len(L.body))
                        c = fpint.counter(f, L.header, L.latches)
                        cv = [v for v in L.vars if v[0] == ('phi', c)]
                        if cv:
                            n = sub(cv[0][1], cv[0][2])
                            for q, F in enumerate(fpint.per_iteration(f, L.header, L.body, L.latches, 48)):
                                h = F.get(i.args[0])
                                if h is not None and h[1] < 2.0**31 - 1:
                                    s.define(Implies(eq(n, q), le(y, max(INT_MIN, int(h[1])))))
        elif op == 'select':
            c = s.val(i.args[0], ir.I1, env)
            a, b = V(1), V(2)
            if isinstance(c, bool):
                env[i.dst] = a if c else b
            elif isinstance(a, Ptr):
                env[i.dst] = s.norm_ptr([(And(c, g), o, off) for g, o, off in a.alts] + [(And(Not(c), g), o, off) for g, o, off in b.alts])
            elif i.ty.k == 'int':
                for q in (a, b):
                    if isc(q) and i.ty.n > 1:
                        s.note_anchor(q)
                env[i.dst] = s.idef(Ite(c, a, b), i.dst[1:]) if i.ty.n > 1 else s.bdef(Ite(c, a, b))
            else:
                env[i.dst] = s.dom.merge([(c, a), (Not(c), b)])
        elif op == 'alloca':
            n = 1
            if i.extra is not None:
                n = s.val(i.extra[1], i.extra[0], env)
            sz = mul(sizeof(i.ty), n)
            el = i.ty
            while el.k == 'arr':
                el = el.el
            o = s.newobj(i.dst[1:], 'alloca', sz, esz=sizeof(el) if el.k != 'struct' else None, ty=i.ty)
            env[i.dst] = ptr_to(o)
        elif op == 'getelementptr':
            bt, idx = i.extra
            env[i.dst] = s.do_gep(s.val(i.args[0], ir.PTR, env), bt, [(t, s.val(v, t, env)) for t, v in idx])
        elif op == 'load':
            env[i.dst] = s.load(s.val(i.args[0], ir.PTR, env), i.ty, st, reach)
        elif op == 'store':
            s.store(s.val(i.args[1], ir.PTR, env), i.ty, V(0), st, reach)
        elif op == 'call':
            return s.call(i, env, st, reach, f)
        else:
            raise Unsupported('op ' + op)

    def icmp(s, pred, a, b, ty):
        if ty.k == 'ptr':
            if isinstance(a, Fn) or isinstance(b, Fn):
                if isinstance(a, Fn) and isinstance(b, Fn):
                    e = a.name == b.name
                else:
                    e = False
                    o = b if isinstance(a, Fn) else a
                return e if pred == 'eq' else not e
            terms = []
            for g1, o1, f1 in a.alts:
                for g2, o2, f2 in b.alts:
                    g = And(g1, g2)
                    if o1 is None and o2 is None:
                        terms.append(g)
                    elif o1 is None or o2 is None:
                        continue
                    elif o1 is o2:
                        terms.append(And(g, eq(f1.expr(), f2.expr())))
                    elif getattr(o1, 'mayalias', False) and getattr(o2, 'mayalias', False):
                        k = (min(o1.id, o2.id), max(o1.id, o2.id))
                        if k not in s.aliasb:
                            s.aliasb[k] = s.alias_bool(o1, o2)
                        terms.append(And(g, s.aliasb[k], eq(f1.expr(), f2.expr())))
            r = Or(*terms)
            if pred == 'eq':
                return r
            if pred == 'ne':
                return Not(r)
            raise Unsupported('ptr order')
        if ty.n == 1:
            r = eq(a, b)
            if pred == 'eq':
                return r
            if pred == 'ne':
                return Not(r)
            raise Unsupported('i1 icmp')
        if pred in ('eq', 'ne'):
            for q in (a, b):
                if isc(q):
                    s.note_anchor(q)
        if pred == 'eq':
            return eq(a, b)
        if pred == 'ne':
            return Not(eq(a, b))
        if pred[0] == 'u':
            a, b = s.u64(a, ty.n), s.u64(b, ty.n)
        s.note_anchor(a)
        s.note_anchor(b)
        return {'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[pred[1:]]

    def alias_bool(s, o1, o2):
        h = s.handlers.get('alias')
        if h:
            return h(s, o1, o2)
        return s.fresh_bool('alias_%s_%s' % (o1.name, o2.name))

    def note_anchor(s, t):
        if isc(t):
            if abs(t) < 100000 and not any(isc(x) and x == t for x in s.anchors):
                s.anchors.append(t)
            return
        if not any((not isc(x)) and x.eq(t) for x in s.anchors):
            s.anchors.append(t)

    # ---- memory
    def access(s, p, size, reach, what, st):
        """yield (guard, obj, off) for the alternatives, emitting null/bounds obligations"""
        if not isinstance(p, Ptr):
            raise Unsupported('%s through %r' % (what, p))
        nulls = Or(*[g for g, o, _ in p.alts if o is None])
        if nulls is not False:
            s.oblige('null', 'pointer not null at ' + what, reach, Not(nulls))
        for g, o, off in p.alts:
            if o is None:
                continue
            if o.kind == 'heap':
                lv = st.c.get(('live', o.id), False)
                if lv is not True:
                    s.oblige('use-after-free', '%s of %s while allocated' % (what, o.name), And(reach, g), lv)
            if o.size is not None:
                e = off.expr()
                sz = o.size
                if isc(e) and isc(sz):
                    if not (0 <= e and e + size <= sz):
                        s.oblige('bounds', '%s within %s' % (what, o.name), And(reach, g), False)
                    else:
                        s.oblige('bounds', '', reach, True)
                else:
                    es = o.esz
                    el = off.elem(es) if es else None
                    esizes = getattr(o, 'elems', None)
                    if el is not None and esizes is not None and size == es:
                        s.oblige('bounds', '%s within %s' % (what, o.name), And(reach, g), And(le(0, el), lt(el, esizes)), meta=(o, el))
                    else:
                        s.oblige('bounds', '%s within %s' % (what, o.name), And(reach, g), And(le(0, e), le(add(e, size), sz)), meta=(o, e))
            yield g, o, off

    def load(s, p, ty, st, reach):
        sz = sizeof(ty)
        vals = []
        for g, o, off in s.access(p, sz, reach, 'load', st):
            if o.kind == 'const':
                vals.append((g, s.load_const(o, ty, off)))
                continue
            if s.hook_load:
                r = s.hook_load(s, o, off, ty, st, And(reach, g))
                if r is not None:
                    vals.append((g, r[0]))
                    continue
            if off.isconst() and (o.id, off.c) in st.c:
                vals.append((g, st.c[(o.id, off.c)]))
                continue
            v = s.fresh_load(o, off, ty, st)
            if off.isconst() and ty.k != 'double' and ty.k != 'float' and o.kind not in ('in', 'out'):
                st.c[(o.id, off.c)] = v
            vals.append((g, v))
        if not vals:
            return s.fresh_of(ty)
        if len(vals) == 1:
            return vals[0][1]
        return s.merge_val([(And(reach, g), v) for g, v in vals], 'ld')

    def load_const(s, o, ty, off):
        h = s.handlers.get('load_const')
        r = h(s, o, ty, off) if h else None
        return r if r is not None else s.fresh_of(ty)

    def fresh_load(s, o, off, ty, st):
        if ty.k in ('double', 'float'):
            return s.dom.load(o, off, st, ty)
        return s.fresh_of(ty)

    def fresh_of(s, ty):
        if ty.k == 'int':
            return s.fresh_bool('ld') if ty.n == 1 else s.fresh_int('ld', ty.n)
        if ty.k == 'ptr':
            raise Unsupported('load of unknown pointer')
        return s.dom.fresh('ld')

    def store(s, p, ty, v, st, reach):
        sz = sizeof(ty)
        alts = list(s.access(p, sz, reach, 'store', st))
        for g, o, off in alts:
            if o.kind in ('const',):
                s.oblige('frame', 'no write to constant data', And(reach, g), False)
                continue
            if s.hook_store:
                if not hasattr(o, 'wg'):
                    o.wg = []
                o.wg.append((And(g, o.allocd) if o.kind == 'heap' else g, s.nfresh))
                if s.hook_store(s, o, off, ty, v, st, And(reach, g)):
                    continue
            g1 = True if len(alts) == 1 else g
            if off.isconst():
                k = (o.id, off.c)
                if g1 is True:
                    st.c[k] = v
                elif k in st.c:
                    st.c[k] = s.merge_val([(g, v), (Not(g), st.c[k])], 'st')
                else:
                    st.c.pop(k, None)
            else:
                if ty.k in ('double', 'float') :
                    s.dom.store(o, off, st, v, g1)
                ks = [k for k in st.c if k[0] == o.id]
                if o.kind == 'alloca' and ty.k == 'int' and len(ks) <= 64:
                    # small local array: case split on the index
                    for k in ks:
                        if isc(st.c[k]) or (z3.is_expr(st.c[k]) and z3.is_int(st.c[k])):
                            hit = And(eq(off.expr(), k[1]), g1)
                            nv = Ite(hit, v, st.c[k])
                            st.c[k] = s.idef(nv, 'ac') if not isc(nv) else nv
                        else:
                            del st.c[k]
                else:
                    for k in ks:
                        del st.c[k]

    # ---- calls
    def call(s, i, env, st, reach, f):
        callee = i.extra
        if callee[0] == 'r':
            fv = env[callee[1]]
            name = fv.name if isinstance(fv, Fn) else None
        else:
            name = callee[1][1:]
        args = [s.val(v, t, env) for t, v in i.args]
        if name is None:
            h = s.handlers.get('indirect')
            if not h:
                raise Unsupported('indirect call')
            return h(s, i, fv, args, env, st, reach, f)
        h = s.handlers.get(name) or s.handlers.get('*')
        r = h(s, name, args, st, reach, i) if h else NotImplemented
        if r is NotImplemented:
            r = builtin(s, name, args, st, reach, i)
        if r is NotImplemented:
            if name in s.mods:
                r = INLINE
            else:
                raise Unsupported('call ' + name)
        if r is INLINE:
            s.callpath = s.callpath + ((f.name, i.dst or id(i)),)
            v, st2, reach2 = s.run(s.mods[name], args, st, reach)
            s.callpath = s.callpath[:-1]
            if i.dst:
                env[i.dst] = v
                if z3.is_expr(v) and z3.is_int(v):
                    s.note_anchor(v)
            return ('inlined', st2, reach2)
        if i.dst:
            env[i.dst] = r
        return None


INLINE = object()


def mods_of(s, L):
    return s.loopmods[(L.path, L.fn, L.header)]


def _lastobj_id(L, s):
    return s.objs[L.lastobj - 1].id if L.lastobj else 0


LoopInfo.lastobj_id = _lastobj_id

FPCALLS = {'sqrt', 'atan', 'tanh', 'tan', 'sinh', 'sin', 'log10', 'log', 'exp', 'cosh', 'cos', 'asin', 'acos', 'floor', 'ceil', 'fabs', 'pow'}


def builtin(s, name, args, st, reach, i):
    base = name
    if name.startswith('llvm.'):
        base = name.split('.')[1]
    if base in FPCALLS:
        return s.dom.call(base, args)
    if base == 'fmuladd':
        return s.dom.op('fadd', [s.dom.op('fmul', args[:2]), args[2]])
    if base == 'abs':
        a = args[0]
        s.oblige('overflow', 'abs of INT_MIN', reach, Not(eq(a, INT_MIN)))
        return abs(a) if isc(a) else s.idef(z3.If(a < 0, -a, a), 'abs')
    if base in ('smax', 'smin'):
        a, b = args
        return s.idef(Ite(lt(a, b), b if base == 'smax' else a, a if base == 'smax' else b), base)
    if name in ('malloc', 'calloc', 'realloc'):
        if name == 'realloc':
            raise Unsupported('realloc')
        size = args[0] if name == 'malloc' else mul(args[0], args[1])
        size = s.unwrap(size, reach, name)
        su = size if isc(size) else s.idef(size, 'size')
        if not isc(su):
            s.oblige('alloc-size', 'allocation size is not negative', reach, le(0, su))
        o = s.newobj('%s@%s' % (name, s.curline), 'heap', su, esz=8, line=s.curline, zero=(name == 'calloc'), size0=size)
        esz = 8
        ok = s.fresh_bool('alloc_ok')
        o.okb = ok
        o.stride = 1
        d = z3.simplify(size) if not isc(size) else None
        if d is not None and z3.is_mul(d) and z3.is_int_value(d.arg(0)) and d.arg(0).as_long() % 8 == 0:
            o.stride = d.arg(0).as_long() // 8
        o.reach = reach
        if s.opts.get('alloc_ok'):
            s.define(ok)
        if not isc(size):
            # number of 8-byte elements, when the size is of the form 8*k
            k = None
            if name == 'calloc':
                pass
            d = z3.simplify(size)
            o.elems = None
            k = div8(d)
            if k is not None:
                o.elems = s.idef(k, 'elems')
        st.c[('live', o.id)] = And(reach, ok) if reach is not True else ok
        st.c[('live', o.id)] = ok
        o.allocd = And(reach, ok)
        st.c[('w', o.id)] = 0 if name == 'malloc' else (o.elems if getattr(o, 'elems', None) is not None else (su // 8 if isc(su) else 0))
        return Ptr([(ok, o, Off()), (Not(ok), None, Off())])
    if name == 'free':
        p = args[0]
        for g, o, off in p.alts:
            if o is None:
                continue
            if o.kind != 'heap':
                s.oblige('free', 'free of non-heap object ' + o.name, And(reach, g), False)
                continue
            s.oblige('free', 'free of %s while allocated' % o.name, And(reach, g), st.c.get(('live', o.id), False))
            if not (off.isconst() and off.c == 0):
                s.oblige('free', 'free of interior pointer', And(reach, g), eq(off.expr(), 0))
            old = st.c.get(('live', o.id), False)
            st.c[('live', o.id)] = And(old, Not(g))
        return None
    return NotImplemented


def div8(e):
    """z3 int expr known to be 8*k -> k (syntactically), else None"""
    if z3.is_int_value(e):
        v = e.as_long()
        return z3.IntVal(v // 8) if v % 8 == 0 else None
    if z3.is_mul(e):
        c = e.arg(0)
        if z3.is_int_value(c) and c.as_long() % 8 == 0:
            r = z3.IntVal(c.as_long() // 8)
            for k in range(1, e.num_args()):
                r = r * e.arg(k)
            return z3.simplify(r)
        return None
    if z3.is_add(e):
        parts = [div8(e.arg(k)) for k in range(e.num_args())]
        if any(p is None for p in parts):
            return None
        return z3.simplify(z3.Sum(parts))
    return None
