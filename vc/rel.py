"""Relational proof TA_S_X == TA_X on widened inputs.

The two extracted functions are checked to be in lock step: a pairing of blocks and values is
built from the entries, and every pair is an obligation. The coupling relation is 'all paired
values equal, a float value equal to the double it is paired with, all arrays equal except the
inputs, which are the widened ones'. An operation is accepted when it maps coupled operands to
coupled results (exact: load/fpext/compare/phi/select/negate of widened values; the same
operation on equal operands; a call of TA_S_Y against TA_Y, which is the same obligation for Y).
Arithmetic done in single precision does not preserve the relation and is reported."""
from .ir import IRError

FARITH = ('fadd', 'fsub', 'fmul', 'fdiv', 'frem')


class Diverge(Exception):
    def __init__(s, msg, line=None):
        Exception.__init__(s, msg)
        s.line = line


def dname(n):
    if n.startswith('TA_S_'):
        return 'TA_' + n[5:]
    return n


class Rel:
    def __init__(s, fD, fS, insS, pairs):
        """insS: positions of the float-array parameters; pairs(nameD, nameS): positions of
        input arrays of a callee pair, or None when it is not a D/S pair"""
        s.fD, s.fS, s.pairs = fD, fS, pairs
        s.v = {}              # S reg -> D reg
        s.vr = {}
        s.inptr = set()       # S regs that point into a float input
        s.flt = set()         # S regs of float type paired with a double
        s.obl = 0
        s.farith = []         # (op, line S)
        s.calls = set()
        if len(fD.params) != len(fS.params):
            raise Diverge('parameter lists differ')
        for k, ((tD, nD), (tS, nS)) in enumerate(zip(fD.params, fS.params)):
            if repr(tD) != repr(tS):
                raise Diverge('parameter %d differs in type' % k)
            s.bind(nS, nD)
            if k in insS:
                s.inptr.add(nS)

    def bind(s, a, b):
        if s.v.get(a, b) != b or s.vr.get(b, a) != a:
            raise Diverge('value paired twice')
        s.v[a] = b
        s.vr[b] = a

    def line(s, I):
        return s.fS.module.lines.get(I.dbg) if I.dbg else None

    def root(s, o):
        return ('r', s.alias.get(o[1], o[1])) if o[0] == 'r' else o

    def same(s, oD, oS, I, ptr=False):
        """obligation: operand pair is coupled"""
        s.obl += 1
        oS = s.root(oS)
        if oS[0] == 'r':
            if oD[0] != 'r' or s.v.get(oS[1]) != oD[1]:
                raise Diverge('operands differ', s.line(I))
            if ptr is False and oS[1] in s.inptr:
                raise Diverge('pointer into the input used as a value', s.line(I))
            return
        if oD[0] != oS[0]:
            raise Diverge('operands differ', s.line(I))
        if oS[0] == 'g':
            if oD[1] != oS[1]:
                gD, gS = s.fD.module.globals.get(oD[1]), s.fS.module.globals.get(oS[1])
                if not (gD and gS and gD[2] and gS[2] and gD[1] == gS[1]):
                    raise Diverge('globals %s %s differ' % (oD[1], oS[1]), s.line(I))
            return
        if oS[0] == 'gep':
            if repr(oD) != repr(oS):
                raise Diverge('constant addresses differ', s.line(I))
            return
        if oS[0] == 'f':
            import struct
            if struct.pack('d', oD[1]) != struct.pack('d', oS[1]):
                raise Diverge('constants %r %r differ' % (oD[1], oS[1]), s.line(I))
            return
        if oD != oS:
            raise Diverge('constants %r %r differ' % (oD, oS), s.line(I))

    def run(s):
        fD, fS = s.fD, s.fS
        s.alias = {}
        # a widening is the identity on coupled values
        for b in fS.order:
            for I in fS.blocks[b].ins:
                if I.op == 'fpext' and I.extra.k == 'float' and I.args[0][0] == 'r':
                    s.alias[I.dst] = I.args[0][1]
        for k in list(s.alias):
            while s.alias[k] in s.alias:
                s.alias[k] = s.alias[s.alias[k]]
        bm = {fS.order[0]: fD.order[0]}
        work = [fS.order[0]]
        phis = []
        while work:
            bS = work.pop()
            BS, BD = fS.blocks[bS], fD.blocks[bm[bS]]
            LS = [I for I in BS.ins if not (I.op == 'fpext' and I.dst in s.alias)]
            LD = BD.ins
            if len(LS) != len(LD):
                raise Diverge('%d against %d operations' % (len(LS), len(LD)), s.line(LS[0]))
            for IS, ID in zip(LS, LD):
                s.pair(IS, ID, phis)
            tS, tD = LS[-1], LD[-1]
            if tS.op == 'br':
                sS, sD = tS.extra, tD.extra
            elif tS.op == 'switch':
                if [c[0] for c in tS.extra[1]] != [c[0] for c in tD.extra[1]]:
                    raise Diverge('switch cases differ', s.line(tS))
                sS, sD = [tS.extra[0]] + [c[1] for c in tS.extra[1]], [tD.extra[0]] + [c[1] for c in tD.extra[1]]
            else:
                sS = sD = []
            if len(sS) != len(sD):
                raise Diverge('branches differ', s.line(tS))
            for a, b in zip(sS, sD):
                if a in bm:
                    if bm[a] != b:
                        raise Diverge('control flow differs', s.line(tS))
                else:
                    if b in bm.values():
                        raise Diverge('control flow differs', s.line(tS))
                    bm[a] = b
                    work.append(a)
        # incoming values of phis (all values are paired now)
        for IS, ID in phis:
            dD = {b: v for v, b in ID.args}
            if len(dD) != len(IS.args):
                raise Diverge('phi differs', s.line(IS))
            for v, b in IS.args:
                if b not in bm:
                    continue
                if bm[b] not in dD:
                    raise Diverge('phi differs', s.line(IS))
                s.same(dD[bm[b]], v, IS, ptr=True)
                v = s.root(v)
                if v[0] == 'r' and (v[1] in s.inptr) != (IS.dst in s.inptr):
                    raise Diverge('phi mixes input and other pointers', s.line(IS))
        s.no_float_state()
        return s

    def no_float_state(s):
        """a result of single-precision arithmetic is not carried in single precision from one
        iteration to the next: the permitted rounding is that of one expression over raw prices"""
        dep, car = {}, set()
        for b in s.fS.order:
            for I in s.fS.blocks[b].ins:
                if I.dst and I.ty is not None and I.ty.k == 'float':
                    args = [v for v, _ in I.args] if I.op == 'phi' else I.args if I.op in FARITH + ('fneg',) else I.args[1:] if I.op == 'select' else []
                    dep[I.dst] = (I, [a[1] for a in args if a[0] == 'r'])
                if I.op == 'fptrunc':
                    raise Diverge('a computed value is rounded to single precision', s.line(I))
        for r, (I, _) in dep.items():
            if I.op != 'phi':
                continue
            s.obl += 1
            seen, st = set(), [r]
            ar = False
            loop = False
            while st:
                x = st.pop()
                for y in dep.get(x, (None, []))[1]:
                    loop = loop or y == r
                    if y in seen:
                        continue
                    seen.add(y)
                    ar = ar or (y in dep and dep[y][0].op in FARITH)
                    st.append(y)
            if loop and ar:
                raise Diverge('running value kept in single precision', s.line(I))

    def pair(s, IS, ID, phis):
        ln = s.line(IS)
        if IS.op != ID.op:
            raise Diverge('%s against %s' % (IS.op, ID.op), ln)
        op = IS.op
        s.obl += 1
        if op == 'phi':
            s.ty(IS.ty, ID.ty, IS)
            phis.append((IS, ID))
            s.bind(IS.dst, ID.dst)
            if IS.ty.k == 'ptr' and any(v[0] == 'r' and v[1] in s.inptr for v, _ in IS.args):
                s.inptr.add(IS.dst)
            return
        if op == 'call':
            return s.call(IS, ID)
        if op == 'alloca':
            if repr(IS.ty) != repr(ID.ty) or repr(IS.extra) != repr(ID.extra):
                raise Diverge('local arrays differ', ln)
            return s.bind(IS.dst, ID.dst)
        if op == 'getelementptr':
            s.same(ID.args[0], IS.args[0], IS, ptr=True)
            base = IS.args[0]
            tD, iD = ID.extra
            tS, iS = IS.extra
            isin = base[0] == 'r' and base[1] in s.inptr
            if isin:
                if tD.k != 'double' or tS.k != 'float' or len(iS) != 1:
                    raise Diverge('address into the input', ln)
            elif repr(tD) != repr(tS):
                raise Diverge('element types differ', ln)
            if len(iD) != len(iS):
                raise Diverge('addresses differ', ln)
            for (a, x), (b, y) in zip(iD, iS):
                if repr(a) != repr(b):
                    raise Diverge('index types differ', ln)
                s.same(x, y, IS)
            s.bind(IS.dst, ID.dst)
            if isin:
                s.inptr.add(IS.dst)
            return
        if op == 'load':
            s.same(ID.args[0], IS.args[0], IS, ptr=True)
            a = IS.args[0]
            if a[0] == 'r' and a[1] in s.inptr:
                if not (IS.ty.k == 'float' and ID.ty.k == 'double'):
                    raise Diverge('input read with the wrong type', ln)
            elif repr(IS.ty) != repr(ID.ty):
                raise Diverge('load types differ', ln)
            return s.bind(IS.dst, ID.dst)
        if op == 'store':
            if repr(IS.ty) != repr(ID.ty):
                raise Diverge('store types differ', ln)
            a = IS.args[1]
            if a[0] == 'r' and a[1] in s.inptr:
                raise Diverge('store to the input', ln)
            s.same(ID.args[0], IS.args[0], IS)
            s.same(ID.args[1], IS.args[1], IS, ptr=True)
            return
        if op in FARITH:
            for a, b in zip(ID.args, IS.args):
                s.same(a, b, IS)
            if IS.ty.k != ID.ty.k:
                s.farith.append((op, ln))
            return s.bind(IS.dst, ID.dst)
        if op in ('fcmp', 'fneg', 'select', 'icmp'):
            if op in ('fcmp', 'icmp') and IS.extra != ID.extra:
                raise Diverge('%s against %s' % (IS.extra, ID.extra), ln)
            s.ty(IS.ty, ID.ty, IS)
            ptr = op == 'icmp'
            for a, b in zip(ID.args, IS.args):
                s.same(a, b, IS, ptr=ptr)
            if op == 'icmp' and IS.ty.k == 'ptr':
                ps = [x for x in IS.args if x[0] == 'r' and x[1] in s.inptr]
                if ps and not any(x[0] == 'null' for x in IS.args):
                    raise Diverge('input address compared', ln)
            if IS.dst:
                s.bind(IS.dst, ID.dst)
            return
        if op in ('fptosi', 'fptoui', 'fptrunc', 'fpext'):
            if IS.ty.k != ID.ty.k or repr(IS.ty) != repr(ID.ty):
                raise Diverge('conversions differ', ln)
            s.same(ID.args[0], IS.args[0], IS)
            return s.bind(IS.dst, ID.dst)
        if op in ('br', 'switch', 'ret', 'unreachable'):
            for a, b in zip(ID.args, IS.args):
                s.same(a, b, IS)
            if len(ID.args) != len(IS.args):
                raise Diverge('%s differs' % op, ln)
            return
        if op in ('sitofp', 'uitofp') and ID.ty.k == 'double' and IS.ty.k == 'float':
            s.same(ID.args[0], IS.args[0], IS)
            s.farith.append((op, ln))
            return s.bind(IS.dst, ID.dst)
        # integer operations and int-to-float conversions
        if repr(IS.ty) != repr(ID.ty) or repr(IS.extra) != repr(ID.extra) and op not in ('add', 'sub', 'mul', 'shl'):
            raise Diverge('types differ in %s' % op, ln)
        if len(ID.args) != len(IS.args):
            raise Diverge('operands differ', ln)
        for a, b in zip(ID.args, IS.args):
            s.same(a, b, IS)
        s.bind(IS.dst, ID.dst)

    def ty(s, a, b, I):
        if repr(a) != repr(b) and not (a.k == 'float' and b.k == 'double'):
            raise Diverge('types differ', s.line(I))

    def call(s, IS, ID):
        ln = s.line(IS)
        if IS.extra[0] != 'g' or ID.extra[0] != 'g':
            raise Diverge('indirect call', ln)
        nS, nD = IS.extra[1][1:], ID.extra[1][1:]
        ins = ()
        if nS != nD:
            ins = s.pairs(nD, nS)
            if ins is None:
                raise Diverge('%s against %s' % (nS, nD), ln)
            s.calls.add((nD, nS))
        if len(IS.args) != len(ID.args):
            raise Diverge('arguments differ', ln)
        for k, ((tS, a), (tD, b)) in enumerate(zip(IS.args, ID.args)):
            if repr(tS) != repr(tD):
                raise Diverge('argument types differ', ln)
            s.same(b, a, IS, ptr=True)
            isin = a[0] == 'r' and a[1] in s.inptr
            if isin != (k in ins):
                raise Diverge('argument %d of %s: %s' % (k, nS, 'input array given to a double function' if isin else 'double array given to the float function'), ln)
        if IS.dst:
            s.bind(IS.dst, ID.dst)


def compare(prog, nD, nS, inpos):
    """-> Rel (obl count, farith, calls); raises Diverge"""
    def pairs(d, s):
        if dname(s) != d:
            return None
        return inpos(d)
    return Rel(prog[nD], prog[nS], set(inpos(nD)), pairs).run()
