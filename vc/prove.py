"""Loop-invariant inference (Houdini over a fixed template family) and discharge of
obligations with z3. Every invariant that is used has been checked: it holds on loop entry
and is preserved by an arbitrary iteration."""
import z3, time, re, zlib
from .sym import *


DEDUPE = int(__import__("os").environ.get("DEDUPE", "100000"))
_symc = {}


def syms_of(e):
    """indices of the fresh symbols occurring in a z3 term"""
    k = e.get_id()
    r = _symc.get(k)
    if r is not None and r[1].eq(e):
        return r[0]
    if z3.is_const(e):
        n = frozenset()
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            m = re.search(r'!(\d+)$', e.decl().name())
            n = frozenset([int(m.group(1))]) if m else n
    else:
        n = frozenset().union(*[syms_of(c) for c in e.children()])
    _symc[k] = (n, e)
    return n


class Cand:
    __slots__ = ('txt', 'f', 'act', 'viol', 'loop', 'raw', 'g', 'z', 'key')


def isint(v):
    return isc(v) or (z3.is_expr(v) and z3.is_int(v))


class Env:
    """values a candidate formula ranges over: loop variables x, their values on loop entry
    e, anchor terms a, per-object terms w (guard, capacity) -- symbolic or from a model"""
    __slots__ = ('x', 'e', 'a', 'g', 'el')


class NestLoop:
    pass


def loop_info(ex, L, extra_anchors):
    N = NestLoop()
    N.L = L
    V = N.V = [v for v in L.vars if isint(v[1]) and all(isint(lv) for _, lv in v[3])]
    N.names = [str(v[0][1]) for v in V]
    own = frozenset().union(*[syms_of(v[1]) for v in L.vars if z3.is_expr(v[1])])
    anchors, seen, seenc = [], {v[1].get_id() for v in V if not isc(v[1])}, set()

    def addanchor(a):
        if isc(a):
            if a not in seenc:
                seenc.add(a)
                anchors.append(a)
        elif a.get_id() not in seen:
            sy = syms_of(a)
            if (not sy or max(sy) <= L.nfresh1) and not (sy & own):
                seen.add(a.get_id())
                anchors.append(a)
    for a in extra_anchors:
        addanchor(a)
    for v in V:
        addanchor(v[2])
    for a in ex.anchors:
        addanchor(a)
    N.anchors = anchors
    return N


def gen_cands(ex, N):
    L, V, names, anchors = N.L, N.V, N.names, N.anchors
    n = len(V)
    C = []

    def cand(txt, f, raw=False):
        c = Cand()
        c.txt, c.f, c.loop, c.raw, c.g = txt, f, L, raw, None
        C.append(c)
    delta = []
    for v in V:
        ds = set()
        for c, lv in v[3]:
            d = z3.simplify(zi(lv) - zi(v[1]))
            ds.add(d.as_long() if z3.is_int_value(d) else None)
        delta.append(ds.pop() if len(ds) == 1 else None)
    heapw, els = {}, {}
    for i, v in enumerate(V):
        if v[0][0] == 'cell' and str(v[0][1][0])[0] == 'w':
            o = ex.objs[v[0][1][1] - 1]
            gs = [g for g, nf in getattr(o, 'wg', []) if L.nfresh1 <= nf <= L.nfresh_end]
            heapw[i] = None if not gs or any(g is True for g in gs) else Or(*gs)
            el = getattr(o, 'elems', None)
            if el is not None and getattr(o, 'stride', 1) > 1:
                el = el / o.stride
            els[i] = el
    N.heapw, N.els, N.delta = heapw, els, delta
    isw = lambda i: i in heapw
    A = range(len(anchors))
    for i in range(n):
        cand('%s>=entry' % names[i], lambda m, i=i: le(m.e[i], m.x[i]), raw=True)
        cand('%s<=entry' % names[i], lambda m, i=i: le(m.x[i], m.e[i]))
        e0 = V[i][2]
        for a in A:
            for k in (-1, 0, 1):
                cand('%s<=%s%+d' % (names[i], anchors[a], k), lambda m, a=a, i=i, k=k: le(m.x[i], add(m.a[a], k)))
                cand('%s>=%s%+d' % (names[i], anchors[a], k), lambda m, a=a, i=i, k=k: le(add(m.a[a], k), m.x[i]))
        if delta[i] is None and isc(e0):
            for j in range(n):
                if delta[j] == 1:
                    for a in A:
                        if isc(anchors[a]):
                            continue
                        for k in (0, 1):
                            cand('%s<=%s%+d => %s==entry' % (names[j], anchors[a], k, names[i]), lambda m, i=i, j=j, a=a, k=k: Implies(le(m.x[j], add(m.a[a], k)), eq(m.x[i], m.e[i])))
                            cand('%s>=%s%+d => %s-entry==%s-%s' % (names[j], anchors[a], k, names[i], names[j], anchors[a]), lambda m, i=i, j=j, a=a, k=k: Implies(le(add(m.a[a], k), m.x[j]), eq(sub(m.x[i], m.e[i]), sub(m.x[j], add(m.a[a], k)))))
        if isw(i) and ex.opts.get('alias') and heapw[i] not in (None, True):
            cand('%s==entry unless written here' % names[i], lambda m, i=i: Or(m.g[i], eq(m.x[i], m.e[i])), raw=True)
        if isw(i):
            for j in range(n):
                if delta[j] != 0 and not isw(j):
                    if els[i] is not None and delta[j] is None:
                        for q in (1, 2):
                            cand('%s-entry==%d*(%s-entry) or full' % (names[i], q, names[j]), lambda m, i=i, j=j, q=q: Or(eq(sub(m.x[i], m.e[i]), mul(q, sub(m.x[j], m.e[j]))), le(m.el[i], m.x[i])))
                    for q in (1, 2):
                        cand('%s==entry+%d or %s==entry' % (names[i], q, names[j]), lambda m, i=i, j=j, q=q: Or(eq(m.x[i], add(m.e[i], q)), And(eq(m.x[i], m.e[i]), eq(m.x[j], m.e[j]))))
        if isc(e0) and e0 == 0 and delta[i] is None:
            for j in range(n):
                if j != i and delta[j] is None:
                    for a in A:
                        for k in (0, 1):
                            if k == 0 and not isc(anchors[a]):
                                for c in ex.addconsts:
                                    for q in range(n):
                                        if delta[q] == 1 and q != i:
                                            cand('%s==0 or %s>=%s or (%s==0 and %s>%d)' % (names[i], names[j], anchors[a], names[j], names[q], c), lambda m, i=i, j=j, q=q, c=c, a=a: Or(eq(m.x[i], 0), le(m.a[a], m.x[j]), And(eq(m.x[j], 0), lt(c, m.x[q]))))
                            cand('%s==0 or %s>=%s%+d' % (names[i], names[j], anchors[a], k), lambda m, i=i, j=j, a=a, k=k: Or(eq(m.x[i], 0), le(add(m.a[a], k), m.x[j])))
        for j in range(n):
            if i == j:
                continue
            if j > i:
                if delta[i] and delta[j]:
                    ratios = [(delta[j], delta[i])]
                elif delta[i] == 0 or delta[j] == 0:
                    ratios = []
                else:
                    ratios = [(1, 1), (1, -1)]
                    if isw(i) or isw(j):
                        ratios += [(1, 2), (2, 1)]
                for p, q in ratios:
                    cand('%d*(%s-entry)==%d*(%s-entry)' % (p, names[i], q, names[j]), lambda m, i=i, j=j, p=p, q=q: eq(mul(p, sub(m.x[i], m.e[i])), mul(q, sub(m.x[j], m.e[j]))))
            for k in (-1, 0, 1):
                cand('%s<=%s%+d' % (names[i], names[j], k), lambda m, i=i, j=j, k=k: le(m.x[i], add(m.x[j], k)))
    for g in ex.opts.get('cand_hooks', []):
        g(ex, N, cand)
    # facts about the written prefix of an object are stated under the condition that it is
    # the object being written in this loop
    for i, g in heapw.items():
        if g is None or g is True:
            continue
        for c in C:
            if names[i] in c.txt and not c.raw:
                c.g = i if c.g is None else c.g
    return C


def apply(c, m):
    r = c.f(m)
    if c.g is not None:
        return Implies(m.g[c.g], r)
    return r


class Prover:
    def __init__(s, ex, extra_anchors=(), timeout=20000, seed=1, hints=None):
        s.ex = ex
        s.hints = hints
        s.S = z3.Solver()
        s.S.set('timeout', timeout)
        s.S.set('random_seed', seed)
        s.S.set('smt.arith.solver', 2)
        s.extra = list(extra_anchors)
        s.ndefs = 0
        s.queries = 0
        s.t_solver = 0.0
        s.invs = []
        s.timeout = timeout

    def sync(s, upto):
        d = s.ex.defs
        while s.ndefs < upto:
            s.S.add(zb(d[s.ndefs]))
            s.ndefs += 1

    def check(s, *a):
        t = time.time()
        r = s.S.check(*a)
        s.t_solver += time.time() - t
        s.queries += 1
        return r

    def infer(s):
        ex = s.ex
        for a in ex.assumes:
            s.S.add(zb(a))
        loops = ex.loops
        i = 0
        while i < len(loops):
            j = max(i + 1, getattr(loops[i], 'nest_end', i + 1))
            nest = loops[i:j]
            end = max(getattr(L, 'defs_end', L.defs0) for L in nest)
            s.sync(end)
            s.houdini(nest)
            i = j
        s.sync(len(ex.defs))

    def dedupe(s, N):
        """drop anchors provably equal to another one (partition refinement with models)"""
        S = s.S
        groups = [list(N.anchors)]
        mv = {}
        S.push()
        S.add(zb(N.L.entry_reach))
        n = 0
        final = []
        while groups and n < 60:
            n += 1
            dis = []
            for g in groups:
                if len(g) > 1:
                    dis += [zi(a) != zi(g[0]) for a in g[1:] if not (isc(a) and isc(g[0]))]
                    if any(isc(a) and isc(g[0]) and a != g[0] for a in g[1:]):
                        dis = [z3.BoolVal(True)]
                        break
            if not dis:
                break
            S.push()
            S.add(z3.Or(*dis))
            r = s.check()
            if r != z3.sat:
                S.pop()
                if r != z3.unsat:
                    groups = [[a] for g in groups for a in g]
                break
            m = S.model()
            S.pop()
            new = []
            for g in groups:
                d = {}
                for a in g:
                    v = a if isc(a) else m.eval(a, model_completion=True).as_long()
                    d.setdefault(v, []).append(a)
                new += d.values()
            groups = new
        else:
            groups = [[a] for g in groups for a in g]
        S.pop()
        N.anchors = [min(g, key=lambda a: (0, 0) if isc(a) else (1, len(str(a)))) for g in groups]

    def houdini(s, nest):
        ex = s.ex
        allc = []
        S = s.S
        infos = []
        for L in nest:
            N = loop_info(ex, L, s.extra)
            if len(N.V) == 0:
                L.cands = []
                continue
            if len(N.anchors) * len(N.V) > DEDUPE:
                s.dedupe(N)
            C = gen_cands(ex, N)
            L.cands = []
            li = ex.loops.index(L)
            for c in C:
                c.key = '%08x' % zlib.crc32(('%d|%s' % (li, c.txt)).encode())
            if s.hints is not None:
                C = [c for c in C if c.key in s.hints]
            V = N.V

            def mk(xs, N=N, V=V):
                m = Env()
                m.x, m.e, m.a, m.g, m.el = xs, [v[2] for v in V], N.anchors, N.heapw, N.els
                return m
            N.head = mk([v[1] for v in V])
            N.entry = mk([v[2] for v in V])
            N.latch = [(L.edges[k][0], mk([v[3][k][1] for v in V])) for k in range(len(L.edges))]
            N.C = C
            infos.append(N)

        def concrete(N, m):
            """(reach, head, entry cond, entry, [(cond, latch)]) of a model, as Python values"""
            ev = lambda t: t if isinstance(t, (int, bool)) else (z3.is_true(m.eval(t, model_completion=True)) if z3.is_bool(t) else m.eval(t, model_completion=True).as_long())

            def env(q, base=None):
                r = Env()
                r.x = [ev(t) for t in q.x]
                if base is None:
                    r.e = [ev(t) for t in q.e]
                    r.a = [ev(t) for t in q.a]
                    r.g = {k: (None if g is None else ev(zb(g))) for k, g in q.g.items()}
                    r.el = {k: (None if g is None else ev(zi(g))) for k, g in q.el.items()}
                else:
                    r.e, r.a, r.g, r.el = base.e, base.a, base.g, base.el
                return r
            h = env(N.head)
            return ev(zb(N.L.entry_reach)), env(N.entry, h), [(ev(zb(c)), env(q, h)) for c, q in N.latch if ev(zb(c))]

        def violated(c, k):
            if k[0] and apply(c, k[1]) is False:
                return True
            for cond, q in k[2]:
                if cond and apply(c, q) is False:
                    return True
            return False
        # cheap pruning: entry values of a few models
        for N in infos[:1] if s.hints is None else []:
            if N.L is not nest[0]:
                break   # entry of an inner loop depends on the invariants of the outer one
            S.push()
            S.add(zb(N.L.entry_reach))
            for r in range(6):
                if s.check() != z3.sat:
                    break
                m = S.model()
                k = concrete(N, m)
                N.C = [c for c in N.C if not (k[0] and apply(c, k[1]) is False)]
                if r == 5:
                    break
                bl = [(t, v) for t, v in zip(list(N.entry.x) + list(N.anchors), k[1].x + k[1].a) if not isc(t)]
                if not bl:
                    break
                S.add(z3.Or(*[t != v for t, v in bl]) if r % 2 else z3.And(*[z3.Or(t > v, t < v) for t, v in bl[r % 3::3][:4]] or [z3.BoolVal(True)]))
            S.pop()
        for N in infos:
            for c in N.C:
                fs = apply(c, N.head)
                if fs is True:
                    continue
                fe = apply(c, N.entry)
                if fe is False:
                    continue
                viol = []
                if fe is not True:
                    viol.append(And(N.L.entry_reach, Not(fe)))
                for cond, lv in N.latch:
                    fl = apply(c, lv)
                    if fl is not True:
                        viol.append(And(cond, Not(fl)))
                c.viol = Or(*viol)
                c.viol = zb(c.viol) if c.viol is not False else False
                c.z = fs
                c.act = z3.Implies(zb(N.L.reach), zb(fs))
                allc.append((c, N))
        CH = 128
        chunks = [allc[k:k + CH] for k in range(0, len(allc), CH)]

        def build(ch):
            g = [c.viol for c, _ in ch if c.viol is not False]
            return z3.And(*[c.act for c, _ in ch]) if ch else None, (z3.Or(*g) if g else None)
        fm = [build(ch) for ch in chunks]
        rounds = 0
        dump = False
        while True:
            rounds += 1
            viols = [v for _, v in fm if v is not None]
            if not viols:
                break
            S.push()
            for a, _ in fm:
                if a is not None:
                    S.add(a)
            S.push()
            S.add(z3.Or(*viols))
            r = s.check()
            if r == z3.unsat:
                S.pop(2)
                break
            if r == z3.sat:
                m = S.model()
                S.pop(2)
                conc = {id(N): concrete(N, m) for N in infos}
                any_ = False
                for q, ch in enumerate(chunks):
                    new = [(c, N) for c, N in ch if not violated(c, conc[id(N)])]
                    if len(new) != len(ch):
                        any_ = True
                        chunks[q] = new
                        fm[q] = build(new)
                if not any_:
                    raise Unsupported('houdini: model kills nothing')
            else:
                S.pop()
                # undecided as a whole: try one by one
                S.set('timeout', 1500)
                drop = set()
                for ch in chunks:
                    for c, _ in ch:
                        if c.viol is False:
                            continue
                        S.push()
                        S.add(c.viol)
                        r1 = s.check()
                        S.pop()
                        if r1 != z3.unsat:
                            drop.add(id(c))
                S.set('timeout', s.timeout)
                S.pop()
                if not drop:
                    break
                for q, ch in enumerate(chunks):
                    new = [(c, N) for c, N in ch if id(c) not in drop]
                    if len(new) != len(ch):
                        chunks[q] = new
                        fm[q] = build(new)
        k = 0
        for a, _ in fm:
            if a is not None:
                S.add(a)
        for ch in chunks:
            for c, N in ch:
                N.L.cands.append(c)
                s.invs.append(c)
        s.rounds = getattr(s, 'rounds', 0) + rounds

    def discharge(s, obls=None):
        """returns list of (obl, 'proved'|'failed'|'unknown', model)"""
        ex = s.ex
        obls = ex.obls if obls is None else obls
        res = []
        S = s.S
        todo = []
        for o in obls:
            todo.append((o, zb(And(o.cond, Not(o.goal)))))

        def rec(lst):
            if not lst:
                return
            S.push()
            S.add(z3.Or(*[f for _, f in lst]) if len(lst) > 1 else lst[0][1])
            r = s.check()
            if r == z3.unsat:
                S.pop()
                for o, _ in lst:
                    res.append((o, 'proved', None))
                return
            if len(lst) == 1:
                m = S.model() if r == z3.sat else None
                S.pop()
                res.append((lst[0][0], 'failed' if r == z3.sat else 'unknown', m))
                return
            if r == z3.sat:
                m = S.model()
                bad, rest = [], []
                for o, f in lst:
                    if z3.is_true(m.eval(f, model_completion=True)):
                        bad.append((o, f))
                    else:
                        rest.append((o, f))
                S.pop()
                for o, _ in bad:
                    res.append((o, 'failed', m))
                if not bad:
                    h = len(lst) // 2
                    rec(lst[:h]); rec(lst[h:])
                else:
                    rec(rest)
                return
            S.pop()
            h = len(lst) // 2
            rec(lst[:h]); rec(lst[h:])
        rec(todo)
        return res

    def sat(s, *fs):
        s.S.push()
        for f in fs:
            s.S.add(zb(f))
        r = s.check()
        m = s.S.model() if r == z3.sat else None
        s.S.pop()
        return r, m
