"""Harness for contracts decided by path-wise symbolic execution (vc/pse.py)."""
import z3, time
from vc import extract, pse
from vc.ir import Ty, PTR, I32, I64, DBL, IRError, sizeof
from vc.pse import Ptr, NULL, Fn, Obj, State, bv, simp, zbool, same, Unsupported, fpv


class Work:
    """one function (family) under contract: collects obligations and failures"""

    def __init__(s, prog, handlers=None, **kw):
        s.e = pse.PSE(prog, handlers, **kw)
        s.fail, s.n, s.undec = [], 0, []
        s.paths = 0
        s.t0 = time.time()
        s.name = ''

    def run(s, fn, args, st, name=None):
        """-> [(state, ret)]; a violated obligation on a path is a failure of the contract"""
        s.name = name or fn
        f = s.e.prog[fn]
        k = len(s.e.bugs)
        try:
            r = s.e.call(f, args, st)
        finally:
            s.n += s.e.nobl
            s.e.nobl = 0
            for what, line, model in s.e.bugs[k:]:
                s.fail.append(dict(name='%s: %s (line %s)' % (s.name, what, line[1] if line else None), model=model))
        s.paths += len(r)
        return r

    def must(s, st, c, what):
        """postcondition on one path"""
        s.n += 1
        c = c if z3.is_expr(c) else z3.BoolVal(bool(c))
        c = simp(c)
        if not z3.is_expr(c) and c:
            return True
        if s.e.sat(st, z3.Not(zbool(c))):
            m = s.e.solver.model()
            s.fail.append(dict(name='%s: %s' % (s.name, what), model={d.name(): str(m[d]) for d in m.decls()}))
            return False
        return True

    def eq(s, a, b, n=32):
        if pse.isundef(a) or pse.isundef(b):
            return False
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
                return simp(bv(a.off, 64) == bv(b.off, 64))
            return isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
        if same(a, b):
            return True
        if z3.is_expr(a) and z3.is_fp(a) or z3.is_expr(b) and z3.is_fp(b) or isinstance(a, float) or isinstance(b, float):
            return False if not z3.is_expr(a) and not z3.is_expr(b) else simp(fpv(a, DBL) == fpv(b, DBL))
        return simp(bv(a, n) == bv(b, n))

    def cell(s, st, o, off, ty):
        """content of a cell (no fork expected)"""
        r = s.e.load(st, Ptr(o, off), ty)
        return r[0][1]


def i32(x):
    return x & 0xffffffff


def i32v(n):
    return z3.BitVec(n, 32)


def guarded(W, name, f):
    """run one contract; out-of-reach is reported, not hidden"""
    try:
        f()
    except (Unsupported, IRError, extract.ExtractError, KeyError) as e:
        W.undec.append('%s: %s%s' % (name, type(e).__name__ + ' ' if isinstance(e, KeyError) else '', e))
