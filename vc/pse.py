"""Path-wise symbolic execution of loop-free / concretely bounded code (abstract layer, settings,
streaming steps) over the extracted IR. Every path is followed; every memory access, division and
conversion on it is an obligation. Callees are replaced by their contracts where a handler is
given, else executed. Integers are exact bit vectors; floating-point arithmetic is uninterpreted
(comparisons are IEEE)."""
import z3
from .ir import Ty, IRError, sizeof, layout, P, tokenize, PTR

F64, F32 = z3.Float64(), z3.Float32()
RM = z3.RNE()


class Unsupported(Exception):
    pass


class Bug(Exception):
    """a violated obligation on a feasible path"""


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(s, o, off=0):
        s.o, s.off = o, off

    def __repr__(s):
        return 'null' if s.o is None else '&%s+%s' % (s.o.name, s.off)

    def __eq__(s, b):
        return isinstance(b, Ptr) and s.o is b.o and same(s.off, b.off)

    __hash__ = None


NULL = Ptr(None, 0)


class Fn:
    __slots__ = ('name', 'mod')

    def __init__(s, name, mod=None):
        s.name, s.mod = name, mod

    def __repr__(s):
        return '@' + s.name

    def __eq__(s, b):
        return isinstance(b, Fn) and b.name == s.name

    __hash__ = None


UNDEF = ('undef',)


def isundef(v):
    return type(v) is tuple


class Obj:
    n = 0

    def __init__(s, name, size, kind, init=None, const=False, sym=None):
        Obj.n += 1
        s.id = Obj.n
        s.name, s.size, s.kind, s.init, s.const, s.sym = name, size, kind, init, const, sym

    def __repr__(s):
        return 'Obj(%s)' % s.name


def same(a, b):
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return z3.eq(a, b)
    if z3.is_expr(a) or z3.is_expr(b):
        return False
    if isinstance(a, float) and isinstance(b, float):
        import struct
        return struct.pack('d', a) == struct.pack('d', b)
    return a == b


def bv(x, n):
    return x if z3.is_expr(x) else z3.BitVecVal(x, n)


def sgn(x, n):
    x &= (1 << n) - 1
    return x - (1 << n) if x >> (n - 1) else x


def zbool(x):
    return x if z3.is_expr(x) else z3.BoolVal(bool(x))


def simp(x):
    x = z3.simplify(x)
    if z3.is_bv_value(x):
        return x.as_long()
    if z3.is_true(x):
        return 1
    if z3.is_false(x):
        return 0
    return x


def fpv(x, ty):
    return x if z3.is_expr(x) else z3.FPVal(x, F32 if ty.k == 'float' else F64)


class State:
    __slots__ = ('mem', 'pc', 'freed', 'log', 'ghost', 'fresh')

    def __init__(s):
        s.mem, s.pc, s.freed, s.log, s.ghost, s.fresh = {}, [], set(), [], {}, []

    def copy(s):
        n = State.__new__(State)
        n.mem, n.pc, n.freed, n.log, n.ghost, n.fresh = dict(s.mem), list(s.pc), set(s.freed), list(s.log), dict(s.ghost), list(s.fresh)
        return n


class PSE:
    def __init__(s, prog, handlers=None, maxsteps=200000, maxpaths=4000):
        s.prog = prog
        s.h = dict(BUILTIN)
        s.h.update(handlers or {})
        s.solver = z3.Solver()
        s.solver.set('timeout', 10000)
        s.gobj = {}
        s.gdef = None
        s.steps, s.maxsteps, s.maxpaths = 0, maxsteps, maxpaths
        s.queries = 0
        s.nobl = 0
        s.bugs = []
        s.unint = {}
        s.line = None
        s.cnt = 0
        s.symhook = None
        s.lazyhook = None
        s.fn = None
        s.covered = set()

    # -- solver
    def sat(s, st, *more):
        s.queries += 1
        r = s.solver.check(*(st.pc + list(more)))
        if r == z3.unknown:
            raise Unsupported('solver gave no answer')
        return r == z3.sat

    def must(s, st, c):
        if not z3.is_expr(c):
            return bool(c)
        return not s.sat(st, z3.Not(c))

    def oblige(s, st, c, what):
        """c must hold on this path"""
        s.nobl += 1
        if not z3.is_expr(c):
            if c:
                return
            c = z3.BoolVal(False)
        c = simp(c)
        if not z3.is_expr(c) and c:
            return
        if s.sat(st, z3.Not(zbool(c))):
            m = s.solver.model()
            s.bugs.append((what, s.line, {d.name(): str(m[d]) for d in m.decls()}))
            raise Bug(what)
        if z3.is_expr(c):
            st.pc.append(c)

    def fork(s, st, c):
        """-> list of (bool, state)"""
        if not z3.is_expr(c):
            return [(bool(c), st)]
        c = simp(c)
        if not z3.is_expr(c):
            return [(bool(c), st)]
        out = []
        for v in (True, False):
            k = c if v else z3.Not(c)
            if s.sat(st, k):
                n = st.copy()
                n.pc.append(k)
                out.append((v, n))
        return out

    def sym(s, name, ty):
        s.cnt += 1
        n = name
        if ty.k == 'int':
            return z3.Bool(n) if ty.n == 1 else z3.BitVec(n, ty.n)
        if ty.k in ('double', 'float'):
            return z3.FP(n, F32 if ty.k == 'float' else F64)
        raise Unsupported('symbol of type %r' % ty)

    def fresh(s, name, ty):
        s.cnt += 1
        return s.sym('%s!%d' % (name, s.cnt), ty)

    def uf(s, name, args, ty):
        so = F32 if ty.k == 'float' else F64 if ty.k == 'double' else z3.BitVecSort(ty.n)
        a = [x for x in args]
        k = (name, tuple(str(x.sort()) for x in a), str(so))
        if k not in s.unint:
            s.unint[k] = z3.Function(name, *([x.sort() for x in a] + [so]))
        return s.unint[k](*a)

    # -- globals
    def globdef(s, mod, n):
        """definition of global n as seen from module mod -> (mod, ty, operand, const)"""
        def parsed(m):
            ty, init, const = m.globals[n]
            if ty is None:
                p = P(tokenize(init), m)
                t = p.type()
                v = p.operand(t)
                return m, t, v, const
            return None
        if n in mod.globals:
            r = parsed(mod)
            if r:
                return r
        if s.gdef is None:
            s.gdef = {}
            import re, glob
            for p in sorted(glob.glob(s.prog.d + '/*.ll')):
                for m in re.finditer(r'(?m)^(@[\w.$]+) = (.*?)\b(?:global|constant)\b', open(p, errors='replace').read()):
                    w = m.group(2).split()
                    if 'private' not in w and 'internal' not in w and 'external' not in w:
                        s.gdef[m.group(1)] = p
        if n in s.gdef:
            return parsed(s.prog.module(s.gdef[n]))
        return mod, (mod.globals[n][0] if n in mod.globals else None), None, False

    def gptr(s, mod, n):
        name = n[1:]
        f = s.prog.func(name, mod)
        if f is not None or name in s.h:
            return Fn(name, mod)
        loc = n in mod.globals and mod.globals[n][0] is None
        key = (mod.path, n) if loc and s.islocal(mod, n) else n
        if key not in s.gobj:
            if n not in mod.globals:
                return Fn(name, mod)
            m, ty, init, const = s.globdef(mod, n)
            s.gobj[key] = Obj(name, sizeof(ty) if ty is not None else 0, 'global', (m, ty, init), const)
        return Ptr(s.gobj[key], 0)

    def islocal(s, mod, n):
        if not hasattr(mod, 'localg'):
            import re
            mod.localg = set(m.group(1) for m in re.finditer(r'(?m)^(@[\w.$]+) = (?:private|internal)\b', open(mod.path, errors='replace').read()))
        return n in mod.localg

    def initval(s, st, o, off, ty):
        """initial content of a global at concrete offset"""
        m, t, init = o.init
        base = 0
        if init is None:
            return None
        while True:
            if init[0] in ('zero', 'undef') or init == ('null',):
                return s.zero(ty)
            if t.k == 'struct':
                offs = layout(t)[0]
                k = max(i for i, x in enumerate(offs) if x <= off - base)
                base += offs[k]
                t, init = t.fields[k], init[1][k][1]
            elif t.k == 'arr':
                es = sizeof(t.el)
                k = (off - base) // es
                if init[0] == 'str':
                    b = cstr(init[1])
                    if ty.k == 'int' and ty.n == 8:
                        return b[off - base] if off - base < len(b) else 0
                    raise Unsupported('wide read of a string')
                base += k * es
                t, init = t.el, init[1][k][1]
            else:
                break
        if base != off or sizeof(t) != sizeof(ty):
            raise Unsupported('misaligned read of %s+%d' % (o.name, off))
        return s.const(init, t, m, st)

    def zero(s, ty):
        if ty.k == 'ptr':
            return NULL
        if ty.k in ('double', 'float'):
            return 0.0
        return 0

    def const(s, o, ty, mod, st):
        k = o[0]
        if k == 'c':
            return o[1] & ((1 << ty.n) - 1)
        if k == 'f':
            return o[1]
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return s.zero(ty)
        if k == 'g':
            return s.gptr(mod, o[1])
        if k == 'gep':
            p = s.const(o[2], PTR, mod, st)
            return s.gep(p, o[1], [(t, s.const(x, t, mod, st)) for t, x in o[3]])
        raise Unsupported('constant %r' % (o,))

    def gep(s, p, bt, idx):
        if not isinstance(p, Ptr):
            raise Unsupported('address arithmetic on %r' % (p,))
        off = p.off
        t = bt
        for n, (it, v) in enumerate(idx):
            if n == 0:
                off = s.off_add(off, v, it, sizeof(t))
            elif t.k == 'struct':
                off = s.off_add(off, layout(t)[0][v], it, 1)
                t = t.fields[v]
            else:
                t = t.el
                off = s.off_add(off, v, it, sizeof(t))
        return Ptr(p.o, off)

    def off_add(s, off, v, it, scale):
        if not z3.is_expr(v):
            v = (sgn(v, it.n) if it.k == 'int' and it.n < 64 else sgn(v, 64)) * scale
            if not z3.is_expr(off):
                return off + v
            return simp(off + z3.BitVecVal(v, 64))
        if it.n < 64:
            v = z3.SignExt(64 - it.n, v)
        r = v * z3.BitVecVal(scale, 64)
        return simp(r + bv(off, 64)) if z3.is_expr(off) or off else simp(r)

    # -- memory
    def resolve(s, st, p, size, what):
        """check an access; -> list of (state, obj, concrete or symbolic offset)"""
        if isinstance(p, tuple):
            s.oblige(st, False, what + ': uninitialised pointer')
        if isinstance(p, Fn):
            s.oblige(st, False, what + ': access to code')
        if p.o is None:
            s.oblige(st, False, what + ' through a null pointer')
        o = p.o
        s.oblige(st, o.id not in st.freed, what + ' of freed block ' + o.name)
        if not z3.is_expr(p.off):
            if z3.is_expr(o.size):
                s.oblige(st, z3.And(z3.ULE(z3.BitVecVal(p.off + size, 64), o.size), z3.BoolVal(p.off >= 0)), '%s outside %s' % (what, o.name))
            else:
                s.oblige(st, 0 <= p.off and p.off + size <= o.size, '%s outside %s (offset %s)' % (what, o.name, p.off))
            return [(st, o, p.off)]
        osz = bv(o.size, 64)
        s.oblige(st, z3.And(z3.ULE(p.off, osz), z3.ULE(z3.BitVecVal(size, 64), osz - p.off)), '%s outside %s' % (what, o.name))
        if o.sym:
            return [(st, o, p.off)]
        # few possible places: follow each
        out, cur = [], []
        while True:
            if not s.sat(st, *[p.off != z3.BitVecVal(c, 64) for c in cur]):
                break
            c = s.solver.model().eval(p.off, model_completion=True).as_long()
            cur.append(c)
            if len(cur) > 40:
                raise Unsupported('symbolic address into ' + o.name)
        for c in cur:
            n = st.copy() if len(cur) > 1 else st
            n.pc.append(p.off == z3.BitVecVal(c, 64))
            out.append((n, o, c))
        return out

    def load(s, st, p, ty, what='read'):
        out = []
        for n, o, off in s.resolve(st, p, sizeof(ty), what):
            if o.sym:
                out.append((n, o.sym.load(s, n, o, off, ty)))
                continue
            k = (o.id, off)
            if k in n.mem:
                sz, v, t = n.mem[k]
                if sz != sizeof(ty):
                    v = s.repack(n, o, off, ty)
                elif isinstance(v, (Ptr, Fn)) != (ty.k == 'ptr') and not isundef(v):
                    v = s.cast_cell(v, t, ty)
                out.append((n, v))
                continue
            v = s.miss(n, o, off, ty)
            out.append((n, v))
        return out

    def cast_cell(s, v, t, ty):
        if not isinstance(v, (Ptr, Fn)) and ty.k == 'ptr' and v == 0:
            return NULL
        if t is not None and t.k == 'int' and ty.k == 'double' and not z3.is_expr(v):
            import struct
            return struct.unpack('<d', struct.pack('<Q', v))[0]
        raise Unsupported('read of %r as %r' % (v, ty))

    def repack(s, n, o, off, ty):
        sz, v, t = n.mem[(o.id, off)]
        if not z3.is_expr(v) and not isinstance(v, (Ptr, Fn, tuple)) and (v == 0):
            w = sizeof(ty)
            # all-zero bytes over the whole range
            x = off
            while x < off + w:
                if (o.id, x) not in n.mem:
                    raise Unsupported('mixed-size read')
                z, vv, _ = n.mem[(o.id, x)]
                if isinstance(vv, Ptr) and vv.o is None:
                    vv = 0
                if z3.is_expr(vv) or isinstance(vv, (Ptr, Fn, tuple)) or vv != 0:
                    raise Unsupported('mixed-size read')
                x += z
            return s.zero(ty)
        raise Unsupported('mixed-size read of %s+%s' % (o.name, off))

    def overlap(s, st, o, off, size):
        return [(k, x) for k, x in ((k, st.mem.get((o.id, k))) for k in range(off - 15, off + size)) if x is not None and k != off and k < off + size and k + x[0] > off]

    def miss(s, st, o, off, ty):
        if s.overlap(st, o, off, sizeof(ty)):
            raise Unsupported('partially overlapping read of %s+%d' % (o.name, off))
        if o.kind == 'global' and o.init is not None and not (o.id, 'hav') in st.ghost:
            v = s.initval(st, o, off, ty)
            if v is None:
                v = s.lazy(st, o, off, ty)
        elif ('z', o.id) in st.ghost:
            v = s.zero(ty)
        elif o.kind in ('stack', 'heap'):
            return UNDEF
        else:
            v = s.lazy(st, o, off, ty)
        st.mem[(o.id, off)] = (sizeof(ty), v, ty)
        return v

    def lazy(s, st, o, off, ty):
        if s.lazyhook:
            v = s.lazyhook(s, st, o, off, ty)
            if v is not None:
                return v
        if ty.k == 'ptr':
            raise Unsupported('unknown pointer in %s+%d' % (o.name, off))
        return s.sym('%s+%d' % (o.name, off), ty)

    def store(s, st, p, v, ty, what='write'):
        out = []
        for n, o, off in s.resolve(st, p, sizeof(ty), what):
            s.oblige(n, not o.const, 'write to constant ' + o.name)
            if o.sym:
                o.sym.store(s, n, o, off, ty, v)
            else:
                s.put(n, o, off, v, ty)
            out.append(n)
        return out

    def put(s, st, o, off, v, ty):
        for k, x in s.overlap(st, o, off, sizeof(ty)):
            if x[0] > sizeof(ty) or k < off:
                raise Unsupported('partially overlapping write to %s+%d' % (o.name, off))
            del st.mem[(o.id, k)]
        if (o.id, off) in st.mem and st.mem[(o.id, off)][0] > sizeof(ty):
            raise Unsupported('narrow write to %s+%d' % (o.name, off))
        st.mem[(o.id, off)] = (sizeof(ty), v, ty)

    def zero_fill(s, st, o, off, n):
        """memset 0"""
        for k in [k for k in st.mem if k[0] == o.id and not isinstance(k[1], str) and off <= k[1] < off + n]:
            del st.mem[k]
        if off == 0 and not z3.is_expr(o.size) and n == o.size:
            st.ghost[('z', o.id)] = True
            return
        raise Unsupported('partial memset of %s' % o.name)

    # -- execution
    def call(s, f, args, st):
        """execute function f -> list of (state, return value)"""
        out = []
        env0 = {}
        for (t, n), a in zip(f.params, args):
            env0[n] = a
        work = [(f.order[0], None, env0, st)]
        while work:
            b, prev, env, st = work.pop()
            s.covered.add((f.name, b))
            blk = f.blocks[b]
            try:
                for st2, env2, nxt, ret in s.block(f, blk, prev, env, st):
                    if nxt is None:
                        out.append((st2, ret))
                        if len(out) > s.maxpaths:
                            raise Unsupported('too many paths')
                    else:
                        work.append((nxt, b, env2, st2))
            except Bug:
                continue
        return out

    def block(s, f, blk, prev, env, st):
        ins = blk.ins
        env = dict(env)
        i = 0
        ph = []
        while i < len(ins) and ins[i].op == 'phi':
            I = ins[i]
            for v, b in I.args:
                if b == prev:
                    ph.append((I.dst, s.val(v, I.ty, env, f, st)))
                    break
            else:
                raise IRError('phi without edge')
            i += 1
        env.update(ph)
        # depth-first over forks inside the block
        work = [(i, env, st)]
        while work:
            i, env, st = work.pop()
            while True:
                I = ins[i]
                s.steps += 1
                if s.steps > s.maxsteps:
                    raise Unsupported('too many steps (loop without a bound)')
                s.line = (f.name, f.module.lines.get(I.dbg) if I.dbg else None)
                op = I.op
                if op == 'ret':
                    yield st, env, None, (s.val(I.args[0], I.ty, env, f, st) if I.args else None)
                    break
                if op == 'unreachable':
                    break
                if op == 'br':
                    if len(I.extra) == 1:
                        yield st, env, I.extra[0], None
                        break
                    c = s.val(I.args[0], Ty('int', 1), env, f, st)
                    if isundef(c):
                        try:
                            s.oblige(st, False, 'branch on an uninitialised value')
                        except Bug:
                            break
                    for v, n in s.fork(st, c):
                        yield n, env if n is st else dict(env), I.extra[0 if v else 1], None
                    break
                if op == 'switch':
                    c = s.val(I.args[0], I.ty, env, f, st)
                    d, cases = I.extra
                    if not z3.is_expr(c):
                        t = [l for v, l in cases if (v & ((1 << I.ty.n) - 1)) == c]
                        yield st, env, (t[0] if t else d), None
                        break
                    rest = []
                    for v, l in cases:
                        k = c == z3.BitVecVal(v, I.ty.n)
                        rest.append(z3.Not(k))
                        if s.sat(st, k):
                            n = st.copy()
                            n.pc.append(k)
                            yield n, dict(env), l, None
                    if s.sat(st, *rest):
                        n = st.copy()
                        n.pc += rest
                        yield n, dict(env), d, None
                    break
                try:
                    res = s.step(I, env, st, f)
                except Bug:
                    break
                if not res:
                    break
                i += 1
                for n, v in res[1:]:
                    e = dict(env)
                    if I.dst:
                        e[I.dst] = v
                    work.append((i, e, n))
                st, v = res[0]
                if I.dst:
                    env[I.dst] = v

    def val(s, o, ty, env, f, st):
        if o[0] == 'r':
            return env[o[1]]
        return s.const(o, ty, f.module, st)

    def step(s, I, env, st, f):
        op = I.op
        V = lambda o, t: s.val(o, t, env, f, st)
        if op == 'load':
            return s.load(st, V(I.args[0], PTR), I.ty)
        if op == 'store':
            v = V(I.args[0], I.ty)
            return [(n, None) for n in s.store(st, V(I.args[1], PTR), v, I.ty)]
        if op == 'getelementptr':
            bt, idx = I.extra
            p = V(I.args[0], PTR)
            return [(st, s.gep(p, bt, [(t, V(x, t)) for t, x in idx]))]
        if op == 'alloca':
            o = Obj(I.dst, sizeof(I.ty), 'stack')
            return [(st, Ptr(o, 0))]
        if op == 'call':
            return s.docall(I, env, st, f)
        if op == 'icmp':
            return [(st, s.icmp(I.extra, V(I.args[0], I.ty), V(I.args[1], I.ty), I.ty, st))]
        if op == 'fcmp':
            return [(st, s.fcmp(I.extra, V(I.args[0], I.ty), V(I.args[1], I.ty), I.ty))]
        if op == 'select':
            c = V(I.args[0], Ty('int', 1))
            a, b = V(I.args[1], I.ty), V(I.args[2], I.ty)
            if isinstance(a, (Ptr, Fn, tuple)) or isinstance(b, (Ptr, Fn, tuple)):
                return [(n, a if v else b) for v, n in s.fork(st, c)]
            if not z3.is_expr(c):
                return [(st, a if c else b)]
            if same(a, b):
                return [(st, a)]
            if I.ty.k == 'int':
                if I.ty.n == 1:
                    return [(st, simp(z3.If(c, zbool(a), zbool(b))))]
                return [(st, simp(z3.If(c, bv(a, I.ty.n), bv(b, I.ty.n))))]
            return [(st, z3.If(c, fpv(a, I.ty), fpv(b, I.ty)))]
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return [(st, s.intop(op, V(I.args[0], I.ty), V(I.args[1], I.ty), I.ty, I.extra, st))]
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = V(I.args[0], I.ty), V(I.args[1], I.ty)
            s.fdef(st, a, b)
            return [(st, s.uf(op, [fpv(a, I.ty), fpv(b, I.ty)], I.ty))]
        if op == 'fneg':
            a = V(I.args[0], I.ty)
            s.fdef(st, a)
            return [(st, -a if not z3.is_expr(a) else z3.fpNeg(a))]
        if op == 'freeze':
            return [(st, V(I.args[0], I.ty))]
        if op in ('sext', 'zext', 'trunc'):
            a, t, u = V(I.args[0], I.extra), I.ty, I.extra
            if isundef(a):
                return [(st, a)]
            if u.n == 1:
                if not z3.is_expr(a):
                    a = int(bool(a))
                    return [(st, (a if op == 'zext' else -a) & ((1 << t.n) - 1))]
                one = 1 if op == 'zext' else (1 << t.n) - 1
                return [(st, z3.If(a, z3.BitVecVal(one, t.n), z3.BitVecVal(0, t.n)))]
            if not z3.is_expr(a):
                a = sgn(a, u.n) if op == 'sext' else a
                a &= (1 << t.n) - 1
                return [(st, a & 1 if t.n == 1 else a)]
            if op == 'trunc':
                if t.n == 1:
                    return [(st, simp(z3.Extract(0, 0, a) == 1))]
                return [(st, simp(z3.Extract(t.n - 1, 0, a)))]
            return [(st, simp((z3.SignExt if op == 'sext' else z3.ZeroExt)(t.n - u.n, a)))]
        if op in ('fpext', 'fptrunc'):
            a = V(I.args[0], I.extra)
            s.fdef(st, a)
            if not z3.is_expr(a):
                import struct
                return [(st, a if op == 'fpext' else struct.unpack('f', struct.pack('f', a))[0])]
            return [(st, z3.fpFPToFP(RM, a, F32 if I.ty.k == 'float' else F64))]
        if op in ('sitofp', 'uitofp'):
            a = V(I.args[0], I.extra)
            if isundef(a):
                s.oblige(st, False, 'use of an uninitialised value')
            if not z3.is_expr(a):
                return [(st, float(sgn(a, I.extra.n) if op == 'sitofp' else a))]
            return [(st, s.uf(op, [bv(a, I.extra.n)], I.ty))]
        if op in ('fptosi', 'fptoui'):
            a = V(I.args[0], I.extra)
            s.fdef(st, a)
            if not z3.is_expr(a):
                import math
                if math.isfinite(a) and abs(a) < 2 ** (I.ty.n - 1):
                    return [(st, int(a) & ((1 << I.ty.n) - 1))]
                return [(st, 1 << (I.ty.n - 1))]
            return [(st, s.uf(op, [a], I.ty))]
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            raise Unsupported(op)
        raise Unsupported(op)

    def fdef(s, st, *vs):
        for v in vs:
            if isundef(v):
                s.oblige(st, False, 'use of an uninitialised value')

    def icmp(s, pred, a, b, ty, st):
        if isundef(a) or isundef(b):
            s.oblige(st, False, 'comparison of an uninitialised value')
        if ty.k == 'ptr':
            if isinstance(a, Fn) or isinstance(b, Fn):
                r = a == b
            elif a.o is b.o:
                if pred in ('eq', 'ne'):
                    r = (simp(bv(a.off, 64) == bv(b.off, 64)) if z3.is_expr(a.off) or z3.is_expr(b.off) else a.off == b.off)
                else:
                    raise Unsupported('pointer order')
            else:
                r = False
            if pred == 'ne':
                return simp(z3.Not(r)) if z3.is_expr(r) else int(not r)
            return r if z3.is_expr(r) else int(r)
        n = ty.n
        if n == 1:
            a, b = zbool(a), zbool(b)
            return simp(a == b if pred == 'eq' else a != b)
        if not z3.is_expr(a) and not z3.is_expr(b):
            x, y = (sgn(a, n), sgn(b, n)) if pred[0] == 's' else (a, b)
            return int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[pred if pred in ('eq', 'ne') else pred[1:]])
        a, b = bv(a, n), bv(b, n)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'sgt': lambda: a > b, 'sge': lambda: a >= b, 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b)}[pred]()
        return simp(r)

    def fcmp(s, pred, a, b, ty):
        if isundef(a) or isundef(b):
            raise Bug('comparison of an uninitialised value')
        a, b = fpv(a, ty), fpv(b, ty)
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
        if pred == 'ord':
            return simp(z3.Not(nan))
        if pred == 'uno':
            return simp(nan)
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        if pred[1:] == 'ne':
            r = z3.Not(z3.fpEQ(a, b))
            return simp(r if pred[0] == 'u' else z3.And(r, z3.Not(nan)))
        r = base[pred[1:]](a, b)
        return simp(r if pred[0] == 'o' else z3.Or(r, nan))

    def intop(s, op, a, b, ty, flags, st):
        n = ty.n
        if isundef(a) or isundef(b):
            s.oblige(st, False, 'use of an uninitialised value')
        M = (1 << n) - 1
        if n == 1:
            a, b = zbool(a), zbool(b)
            return simp({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](a, b))
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            s.oblige(st, simp(bv(b, n) != 0), 'division by zero')
        if not z3.is_expr(a) and not z3.is_expr(b):
            x, y = sgn(a, n), sgn(b, n)
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                 'shl': lambda: a << b if b < n else 0, 'lshr': lambda: a >> b, 'ashr': lambda: x >> b, 'udiv': lambda: a // b, 'urem': lambda: a % b,
                 'sdiv': lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), 'srem': lambda: (abs(x) % abs(y)) * (-1 if x < 0 else 1)}[op]()
            if 'nsw' in flags and op in ('add', 'sub', 'mul') and not -(1 << (n - 1)) <= r < 1 << (n - 1):
                s.oblige(st, False, 'integer overflow')
            return r & M
        x, y = bv(a, n), bv(b, n)
        if 'nsw' in flags:
            if op == 'add':
                s.oblige(st, z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)), 'integer overflow')
            if op == 'sub':
                s.oblige(st, z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)), 'integer overflow')
            if op == 'mul':
                s.oblige(st, z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)), 'integer overflow')
        if op in ('shl', 'lshr', 'ashr') and z3.is_expr(b):
            s.oblige(st, z3.ULT(y, z3.BitVecVal(n, n)), 'shift amount')
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
             'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
             'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
        return simp(r)

    def docall(s, I, env, st, f):
        c = I.extra
        fn = s.val(c, PTR, env, f, st)
        args = [s.val(a, t, env, f, st) for t, a in I.args]
        if isinstance(fn, Ptr):
            s.oblige(st, False, 'call through a null or data pointer')
        if not isinstance(fn, Fn):
            raise Unsupported('call of %r' % (fn,))
        name = fn.name
        h = s.h.get(name) or (s.h.get('*')(name) if s.h.get('*') else None)
        if h:
            return h(s, st, name, args, I)
        g = s.prog.func(name, fn.mod or f.module)
        if g is None:
            raise Unsupported('call of external ' + name)
        line = s.line
        r = s.call(g, args, st)
        s.line = line
        return r


def cstr(t):
    """bytes of an IR string literal c"..." """
    t = t[2:-1]
    out, i = [], 0
    while i < len(t):
        if t[i] == '\\':
            out.append(int(t[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(t[i]))
            i += 1
    return out


def h_malloc(s, st, name, args, I):
    if name == 'malloc':
        size = args[0]
    else:
        a, b = args
        size = a * b if not z3.is_expr(a) and not z3.is_expr(b) else simp(bv(a, 64) * bv(b, 64))
    out = []
    mode = st.ghost.get('allocfail', 'both')
    if mode != 'never':
        n = st.copy()
        n.log.append(('allocfail',))
        out.append((n, NULL))
    n = st
    o = Obj('heap%d' % (s.cnt + 1), size, 'heap')
    s.cnt += 1
    n.fresh.append(o)
    if name == 'calloc':
        n.ghost[('z', o.id)] = True
    if s.symhook and z3.is_expr(size):
        o.sym = s.symhook(s, n, o)
    return [(n, Ptr(o, 0))] + out


def h_free(s, st, name, args, I):
    p = args[0]
    if p.o is None:
        return [(st, None)]
    s.oblige(st, p.o.kind in ('heap', 'callerheap') and not z3.is_expr(p.off) and p.off == 0, 'free of something malloc did not return (%r)' % p)
    s.oblige(st, p.o.id not in st.freed, 'double free')
    st.freed.add(p.o.id)
    st.log.append(('free', p.o))
    return [(st, None)]


def h_memset(s, st, name, args, I):
    p, v, n = args[:3]
    if z3.is_expr(n):
        raise Unsupported('memset of symbolic size')
    if n == 0:
        return [(st, p)]
    for st, o, off in s.resolve(st, p, n, 'memset'):
        if v != 0:
            raise Unsupported('memset with a value')
        s.zero_fill(st, o, off, n)
    return [(st, p)]


def h_memcpy(s, st, name, args, I):
    d, q, n = args[:3]
    if z3.is_expr(n):
        raise Unsupported('memcpy of symbolic size')
    if n == 0:
        return [(st, d)]
    out = []
    for st1, do, doff in s.resolve(st, d, n, 'memcpy'):
        for st2, so, soff in s.resolve(st1, q, n, 'memcpy'):
            copy_cells(s, st2, do, doff, so, soff, n)
            out.append((st2, d))
    return out


def copy_cells(s, st, do, doff, so, soff, n):
    if do.sym or so.sym:
        raise Unsupported('memcpy of a dynamic array')
    x = 0
    cells = {}
    while x < n:
        c = st.mem.get((so.id, soff + x))
        if c is None and so.kind == 'global' and so.init is not None:
            m, t, init = so.init
            from .ir import scalar_cells
            if not hasattr(so, 'cells'):
                so.cells = dict(scalar_cells(t))
            if soff + x not in so.cells:
                x += 1
                continue
            s.miss(st, so, soff + x, so.cells[soff + x])
            c = st.mem[(so.id, soff + x)]
        if c is None:
            if ('z', so.id) in st.ghost or so.kind in ('heap', 'stack'):
                x += 4
                continue
            raise Unsupported('memcpy of unknown content')
        cells[x] = c
        x += c[0]
    for x, c in cells.items():
        s.put(st, do, doff + x, c[1], c[2])


def rdstr(s, st, p):
    """concrete C string at p, or None"""
    out = []
    off = p.off
    while True:
        v = s.load(st, Ptr(p.o, off), Ty('int', 8))[0][1]
        if z3.is_expr(v):
            return None
        if v == 0:
            return bytes(out)
        out.append(v)
        off += 1


def h_strcmp(s, st, name, args, I):
    a, b = args
    for p in (a, b):
        if p.o is None:
            s.oblige(st, False, 'strcmp of a null pointer')
    if a.o.kind == 'global' and b.o.kind == 'global':
        x, y = rdstr(s, st, a), rdstr(s, st, b)
        return [(st, (x > y) - (x < y) & 0xffffffff)]
    g, u = (a, b) if a.o.kind == 'global' else (b, a)
    x = rdstr(s, st, g)
    k = z3.Bool('%s=="%s"' % (u.o.name, x.decode('latin-1')))
    r = z3.BitVec('strcmp(%s,%s)' % (u.o.name, x.decode('latin-1')), 32)
    st.pc.append((r == 0) == k)
    return [(st, r)]


def h_math(s, st, name, args, I):
    s.fdef(st, *args)
    n = name[5:].split('.')[0] if name.startswith('llvm.') else name
    if n == 'fabs' and not z3.is_expr(args[0]):
        return [(st, abs(args[0]))]
    if n == 'fabs':
        return [(st, z3.fpAbs(args[0]))]
    return [(st, s.uf(n, [fpv(a, I.ty) for a in args], I.ty))]


def h_tolower(s, st, name, args, I):
    c = args[0]
    if not z3.is_expr(c):
        return [(st, ord(chr(c).lower()) if 65 <= c <= 90 else c)]
    up = z3.And(z3.UGE(c, 65), z3.ULE(c, 90))
    return [(st, simp(z3.If(up, c + 32, c)))]


BUILTIN = {'malloc': h_malloc, 'calloc': h_malloc, 'free': h_free, 'strcmp': h_strcmp, 'tolower': h_tolower,
           'memset': h_memset, 'memcpy': h_memcpy, 'memmove': h_memcpy, 'llvm.memset.p0.i64': h_memset, 'llvm.memcpy.p0.p0.i64': h_memcpy, 'llvm.memmove.p0.p0.i64': h_memcpy}
for _m in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'log10', 'sqrt', 'ceil', 'floor', 'fabs', 'pow', 'atan2', 'fmod',
           'llvm.fabs.f64', 'llvm.sqrt.f64', 'llvm.fabs.f32', 'llvm.floor.f64', 'llvm.ceil.f64', 'llvm.fmuladd.f64'):
    BUILTIN[_m] = h_math
