"""Interval facts about floating point SSA values of one function: every value is either NaN
or lies in the interval. Sparse abstract interpretation with widening to constants of the
function; the result is a post-fixpoint (checked by a final pass). End points are computed
with IEEE double arithmetic in round-to-nearest, which is monotone, so they bound the values
computed by the code in the same arithmetic."""
import math

INF = float('inf')
TOP = (-INF, INF)


def hull(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return (min(a[0], b[0]), max(a[1], b[1]))


def _combine(vals):
    v = [x for x in vals if x == x]
    if len(v) != len(vals):
        return TOP
    return (min(v), max(v))


class FP:
    def __init__(s, f):
        s.f = f
        s.ins = {}
        s.consts = {0.0}
        for b in f.blocks.values():
            for i in b.ins:
                if i.dst:
                    s.ins[i.dst] = i
                for a in s.operands(i):
                    if a[0] == 'f':
                        s.consts.add(a[1])
        s.th = sorted(c for c in s.consts if c == c and abs(c) != INF)
        s.iv = {}
        s.run()

    def operands(s, i):
        out = []
        for a in (i.args or ()):
            if i.op == 'phi':
                a = a[0]
            if isinstance(a, tuple):
                c = fconst(a)
                if c is not None:
                    out.append(('f', c))
        return out

    def get(s, o, ref=None, depth=0):
        """interval of operand o (None = no value yet), under refinements ref: {name: iv}"""
        c = fconst(o)
        if c is not None:
            return (c, c) if c == c else None
        if o[0] != 'r':
            return TOP
        n = o[1]
        if n not in s.iv and n in s.ins and isdbl(s.ins[n]):
            base = None
        else:
            base = s.iv.get(n, TOP)
        if ref and base is not None:
            if n in ref:
                base = meet(base, ref[n])
            elif depth < 4 and n in s.ins and s.ins[n].op == 'select':
                base = meet(base, s.select(s.ins[n], ref, depth + 1))
        return base

    def select(s, i, ref, depth=0):
        c, a, b = i.args[0], i.args[1], i.args[2]
        rt, rf = dict(ref or {}), dict(ref or {})
        ct, cf = s.refine(c, True, rt), s.refine(c, False, rf)
        x = s.get(a, rt, depth) if ct else None
        y = s.get(b, rf, depth) if cf else None
        return hull(x, y)

    def refine(s, c, val, ref):
        """add to ref what condition c == val says about non-NaN values; False: impossible"""
        if c[0] != 'r' or c[1] not in s.ins:
            return True
        i = s.ins[c[1]]
        if i.op == 'select' and len(i.args) == 3:
            k = i.args[2]
            if k[0] in ('i', 'c') and k[1] in (0, False) and val:
                return s.refine(i.args[0], True, ref) and s.refine(i.args[1], True, ref)
            return True
        if i.op != 'fcmp':
            return True
        pred = i.extra[0] if isinstance(i.extra, tuple) else i.extra
        a, b = i.args[0], i.args[1]
        p = pred[1:] if pred not in ('ord', 'uno') else None
        if p is None:
            return True
        if not val:
            p = {'gt': 'le', 'ge': 'lt', 'lt': 'ge', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}[p]
        sw = {'gt': 'lt', 'ge': 'le', 'lt': 'gt', 'le': 'ge', 'eq': 'eq', 'ne': 'ne'}
        # each side is refined by the other; if the other may be NaN and the predicate is
        # unordered in this sense, only a constant (never NaN) other side is usable
        for x, q, y in ((a, p, b), (b, sw[p], a)):
            if x[0] != 'r':
                continue
            cy = fconst(y)
            strict_ord = (pred[0] == 'o') == val
            if cy is None and not strict_ord:
                continue
            iy = (cy, cy) if cy is not None else s.get(y)
            if iy is None or cy is not None and cy != cy:
                continue
            lo, hi = -INF, INF
            if q in ('gt', 'ge', 'eq'):
                lo = iy[0]
            if q in ('lt', 'le', 'eq'):
                hi = iy[1]
            ref[x[1]] = meet(ref.get(x[1], TOP), (lo, hi)) or (lo, hi)
        return True

    def transfer(s, i):
        op = i.op
        if i.ty.k == 'float' and op not in ('phi', 'select'):
            return TOP
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = s.get(i.args[0]), s.get(i.args[1])
            if a is None or b is None:
                return None
            try:
                if op == 'fadd':
                    return fix((a[0] + b[0], a[1] + b[1]))
                if op == 'fsub':
                    return fix((a[0] - b[1], a[1] - b[0]))
                if op == 'fmul':
                    if any(abs(t) == INF for t in a + b) and not (a[0] > 0 or a[1] < 0) and not (b[0] > 0 or b[1] < 0):
                        return TOP
                    def m(x, y):
                        return 0.0 if (x == 0 or y == 0) else x * y
                    return _combine([m(x, y) for x in a for y in b])
                if b[0] > 0 or b[1] < 0:
                    return _combine([x / y for x in a for y in b])
            except OverflowError:
                return TOP
            return TOP
        if op == 'fneg':
            a = s.get(i.args[0])
            return None if a is None else (-a[1], -a[0])
        if op == 'select':
            return s.select(i, None)
        if op == 'phi':
            r = None
            for a in i.args:
                r = hull(r, s.get(a[0]))
            return r
        return TOP

    def run(s):
        todo = [i for b in s.f.order for i in s.f.blocks[b].ins if i.dst and isdbl(i)]
        cnt = {}
        for rnd in range(400):
            ch = False
            for i in todo:
                old = s.iv.get(i.dst)
                new = hull(old, s.transfer(i))
                if new is None or new == old:
                    continue
                n = cnt[i.dst] = cnt.get(i.dst, 0) + 1
                if old is not None and i.op == 'phi' and n > 2:
                    lo = new[0] if new[0] == old[0] else max([t for t in s.th if t <= new[0]], default=-INF)
                    hi = new[1] if new[1] == old[1] else min([t for t in s.th if t >= new[1]], default=INF)
                    new = (lo, hi)
                s.iv[i.dst] = new
                ch = True
            if not ch:
                break
        else:
            s.iv = {i.dst: TOP for i in todo}
        # narrowing: re-evaluation from a post-fixpoint stays a post-fixpoint
        for _ in range(2):
            for i in todo:
                if i.op != 'phi' and i.dst in s.iv:
                    t = s.transfer(i)
                    if t is not None:
                        s.iv[i.dst] = meet(s.iv[i.dst], t) or s.iv[i.dst]
        for i in todo:
            t = s.transfer(i)
            if t is not None and not (s.iv[i.dst][0] <= t[0] and t[1] <= s.iv[i.dst][1]):
                raise AssertionError('interval analysis: not a post-fixpoint')


def per_iteration(f, header, body, latches, n):
    """[intervals at iteration 0, 1, ..., n-1] of the loop; later iterations only satisfy the
    loop-wide intervals. Values defined outside the loop or in inner loops keep those."""
    k = ('it', id(f), header, n)
    if k in _cache:
        return _cache[k][0]
    interval(f, ('f', 0.0))
    base = _cache[id(f)][0]
    from . import ir
    order, loops = ir.loops(f)
    inner = set()
    for h, (b, l) in loops.items():
        if h != header and h in body:
            inner |= set(b)
    out = []
    prev = None
    for it in range(n):
        F = FP.__new__(FP)
        F.f, F.ins, F.consts, F.th = f, base.ins, base.consts, base.th
        F.iv = dict(base.iv)
        for b in order:
            if b not in body or b in inner:
                continue
            for i in f.blocks[b].ins:
                if not i.dst or not isdbl(i):
                    continue
                if b == header and i.op == 'phi':
                    r = None
                    for v, pb in i.args:
                        if (pb in latches) == (it > 0):
                            r = hull(r, (base if it == 0 else prev).get(v))
                    t = r
                else:
                    t = F.transfer(i)
                if t is not None:
                    F.iv[i.dst] = meet(base.iv[i.dst], t) or base.iv[i.dst]
        out.append(F)
        prev = F
    _cache[k] = (out, f)
    return out


def counter(f, header, latches):
    """integer header phi increased by exactly one in every iteration"""
    defs = {i.dst: i for b in f.blocks.values() for i in b.ins if i.dst}
    for i in f.blocks[header].ins:
        if i.op == 'phi' and i.ty.k == 'int':
            ok = True
            for v, pb in i.args:
                if pb in latches:
                    d = defs.get(v[1]) if v[0] == 'r' else None
                    ok = ok and d is not None and d.op == 'add' and d.args[0] == ('r', i.dst) and d.args[1] == ('c', 1)
            if ok:
                return i.dst
    return None


def fix(p):
    return (p[0] if p[0] == p[0] else -INF, p[1] if p[1] == p[1] else INF)


def meet(a, b):
    if a is None or b is None:
        return None
    r = (max(a[0], b[0]), min(a[1], b[1]))
    return r if r[0] <= r[1] else None


def isdbl(i):
    return i.ty is not None and i.ty.k in ('double', 'float')


def fconst(o):
    return o[1] if o[0] == 'f' else None


_cache = {}


def interval(f, o):
    k = id(f)
    if k not in _cache:
        _cache[k] = (FP(f), f)
    r = _cache[k][0].get(o)
    return r
