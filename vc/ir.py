"""Parser for the textual LLVM IR (clang 18, opaque pointers) that the extraction step emits.

Only the constructs that occur are accepted; anything else raises IRError (a check
then ends with an error, never with a silent pass)."""
import re, struct as _struct


class IRError(Exception):
    pass


class Ty:
    __slots__ = ('k', 'n', 'el', 'fields', 'name')

    def __init__(s, k, n=0, el=None, fields=None, name=None):
        s.k, s.n, s.el, s.fields, s.name = k, n, el, fields, name

    def __repr__(s):
        return {'int': 'i%d' % s.n, 'arr': '[%d x %r]' % (s.n, s.el)}.get(s.k, s.name or s.k)


I1, I8, I32, I64 = Ty('int', 1), Ty('int', 8), Ty('int', 32), Ty('int', 64)
DBL, FLT, PTR, VOID = Ty('double'), Ty('float'), Ty('ptr'), Ty('void')
TOK = re.compile(r'''\s*(c?"(?:[^"])*"|[%@][\w.$-]+|[%@]"[^"]*"|![\w.]*|-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMH]?[0-9A-Fa-f]+|-?\d+|[\w.]+|\.\.\.|[()\[\]{}<>,=*#:|^])''')


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise IRError('tokenize: %r' % s[i:i + 60])
        out.append(m.group(1))
        i = m.end()
    return out


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'args', 'extra', 'dbg', 'text')

    def __init__(s, op, dst=None, ty=None, args=(), extra=None):
        s.op, s.dst, s.ty, s.args, s.extra, s.dbg, s.text = op, dst, ty, args, extra, None, None


class Block:
    __slots__ = ('name', 'ins', 'succ', 'pred')

    def __init__(s, name):
        s.name, s.ins, s.succ, s.pred = name, [], [], []


class Func:
    def __init__(s, name):
        s.name = name
        s.params = []          # [(ty, '%name')]
        s.ret = None
        s.blocks = {}
        s.order = []
        s.internal = False
        s.module = None


class Module:
    def __init__(s, path):
        s.path = path
        s.types = {}
        s.globals = {}         # name -> (ty, init tokens or None, is_const)
        s.funcs = {}
        s.lines = {}


CALLJUNK = {'tail', 'musttail', 'notail', 'noundef', 'noalias', 'zeroext', 'signext', 'nonnull', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'nocapture', 'readonly', 'writeonly', 'immarg', 'returned', 'fastcc', 'nneg', 'nsw', 'nuw', 'exact', 'inbounds', 'volatile', 'fast', 'contract', 'reassoc', 'nnan', 'ninf', 'nsz', 'arcp', 'afn', 'disjoint'}


class P:
    def __init__(s, toks, mod):
        s.t, s.i, s.m = toks, 0, mod

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None

    def next(s):
        s.i += 1
        return s.t[s.i - 1]

    def eat(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def expect(s, x):
        if not s.eat(x):
            raise IRError('expected %r at %r' % (x, s.t[max(0, s.i - 5):s.i + 5]))

    def type(s):
        t = s.next()
        if t == 'ptr':
            r = PTR
        elif t == 'double':
            r = DBL
        elif t == 'float':
            r = FLT
        elif t == 'void':
            r = VOID
        elif t == 'metadata':
            r = Ty('metadata')
        elif t == 'x86_fp80':
            r = Ty('fp80')
        elif re.fullmatch(r'i\d+', t):
            r = Ty('int', int(t[1:]))
        elif t == '[':
            n = int(s.next()); s.expect('x'); el = s.type(); s.expect(']')
            r = Ty('arr', n, el)
        elif t == '{':
            f = []
            while not s.eat('}'):
                f.append(s.type()); s.eat(',')
            r = Ty('struct', fields=f)
        elif t[0] == '%':
            if t not in s.m.types:
                s.m.types[t] = Ty('struct', name=t)
            r = s.m.types[t]
        else:
            raise IRError('type %r in %r' % (t, s.t))
        if s.peek() == '(':     # function type
            d = 0
            while True:
                x = s.next()
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
            r = Ty('func', el=r)
        return r

    def attrs(s):
        while True:
            p = s.peek()
            if p in CALLJUNK:
                s.i += 1
            elif p in ('align', 'dereferenceable', 'allocsize'):
                s.i += 1
                if s.peek() == '(':
                    s.i += 3
                else:
                    s.i += 1
            elif p in ('sret', 'byval', 'captures'):
                d = 0
                s.i += 1
                while True:
                    x = s.next()
                    d += (x == '(') - (x == ')')
                    if d == 0:
                        break
            else:
                return

    def operand(s, ty):
        """value of type ty: ('c',int) ('f',float) ('r','%x') ('g','@x') ('null',) ('undef',) ('gep',...)"""
        t = s.next()
        if t[0] == '%':
            return ('r', t)
        if t[0] == '@':
            return ('g', t)
        if t in ('null',):
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if ty.k == 'int':
            return ('c', int(t))
        if ty.k in ('double', 'float'):
            if t.startswith('0x'):
                return ('f', _struct.unpack('>d', bytes.fromhex(t[2:].zfill(16)))[0])
            return ('f', float(t))
        if t == 'getelementptr':
            s.eat('inbounds'); s.expect('(')
            bt = s.type(); s.expect(',')
            pt = s.type(); base = s.operand(pt)
            idx = []
            while s.eat(','):
                it = s.type(); idx.append((it, s.operand(it)))
            s.expect(')')
            return ('gep', bt, base, idx)
        if t[0] == 'c' and len(t) > 1 and t[1] == '"':
            return ('str', t)
        if t == '[' or t == '{':
            close = {'[': ']', '{': '}'}[t]
            els = []
            while not s.eat(close):
                et = s.type(); els.append((et, s.operand(et))); s.eat(',')
            return ('agg', els)
        raise IRError('operand %r of %r in %r' % (t, ty, ' '.join(s.t)[:200]))

    def tyop(s):
        ty = s.type(); s.attrs()
        return ty, s.operand(ty)


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'sext', 'zext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'bitcast'}


def parse_instr(line, mod):
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m:
        dbg = int(m.group(1))
    line = re.sub(r'(,\s*![\w.]+ !\d+)+\s*$', '', line)
    line = re.sub(r'\s#\d+$', '', line.rstrip())
    p = P(tokenize(line), mod)
    dst = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        dst = p.next(); p.next()
    flags = set()
    while p.peek() in ('tail', 'musttail', 'notail'):
        p.next()
    op = p.next()
    if op in BIN:
        while p.peek() in CALLJUNK:
            flags.add(p.next())
        ty = p.type(); a = p.operand(ty); p.expect(','); b = p.operand(ty)
        I = Instr(op, dst, ty, (a, b), flags)
    elif op in CAST:
        while p.peek() in CALLJUNK:
            flags.add(p.next())
        ty = p.type(); a = p.operand(ty); p.expect('to'); t2 = p.type()
        I = Instr(op, dst, t2, (a,), ty)
    elif op in ('icmp', 'fcmp'):
        while p.peek() in CALLJUNK:
            p.next()
        pred = p.next(); ty = p.type(); a = p.operand(ty); p.expect(','); b = p.operand(ty)
        I = Instr(op, dst, ty, (a, b), pred)
    elif op == 'fneg':
        ty = p.type(); I = Instr(op, dst, ty, (p.operand(ty),))
    elif op == 'freeze':
        ty = p.type(); I = Instr(op, dst, ty, (p.operand(ty),))
    elif op == 'phi':
        ty = p.type(); inc = []
        while p.eat('['):
            v = p.operand(ty); p.expect(','); b = p.next(); p.expect(']'); p.eat(',')
            inc.append((v, b[1:].strip('"')))
        I = Instr(op, dst, ty, inc)
    elif op == 'select':
        ct, c = p.tyop(); p.expect(','); ty, a = p.tyop(); p.expect(','); _, b = p.tyop()
        I = Instr(op, dst, ty, (c, a, b))
    elif op == 'load':
        p.attrs(); ty = p.type(); p.expect(','); pt, a = p.tyop()
        I = Instr(op, dst, ty, (a,))
    elif op == 'store':
        p.attrs(); ty, v = p.tyop(); p.expect(','); pt, a = p.tyop()
        I = Instr(op, None, ty, (v, a))
    elif op == 'alloca':
        ty = p.type(); n = None
        if p.eat(',') and p.peek() != 'align':
            n = p.tyop()
        I = Instr(op, dst, ty, (), n)
    elif op == 'getelementptr':
        p.attrs(); bt = p.type(); p.expect(','); pt, base = p.tyop(); idx = []
        while p.eat(','):
            idx.append(p.tyop())
        I = Instr(op, dst, PTR, (base,), (bt, idx))
    elif op == 'br':
        if p.peek() == 'label':
            p.next(); I = Instr(op, None, None, (), [p.next()[1:].strip('"')])
        else:
            ty, c = p.tyop(); p.expect(','); p.expect('label'); a = p.next()[1:].strip('"'); p.expect(','); p.expect('label'); b = p.next()[1:].strip('"')
            I = Instr(op, None, None, (c,), [a, b])
    elif op == 'switch':
        ty, c = p.tyop(); p.expect(','); p.expect('label'); d = p.next()[1:].strip('"'); p.expect('[')
        cases = []
        while not p.eat(']'):
            t2 = p.type(); v = p.operand(t2); p.expect(','); p.expect('label'); cases.append((v[1], p.next()[1:].strip('"')))
        I = Instr(op, None, ty, (c,), (d, cases))
    elif op == 'ret':
        ty = p.type(); I = Instr(op, None, ty, () if ty.k == 'void' else (p.operand(ty),))
    elif op == 'unreachable':
        I = Instr(op)
    elif op == 'call':
        p.attrs(); ty = p.type()
        if ty.k == 'func':
            ty = ty.el
        callee = p.operand(PTR); p.expect('('); args = []
        while not p.eat(')'):
            if p.peek() == '...':
                p.next(); continue
            t = p.type(); p.attrs()
            if t.k == 'metadata':
                while p.peek() not in (',', ')'):
                    p.next()
            else:
                args.append((t, p.operand(t)))
            p.eat(',')
        I = Instr(op, dst, ty, args, callee)
    else:
        raise IRError('instr %r' % line)
    I.dbg = dbg
    I.text = line.strip()
    return I


def parse_module(path):
    mod = Module(path)
    lines = open(path, errors='replace').read().split('\n')
    for l in lines:
        m = re.match(r'(%[\w.]+) = type (.*)$', l)
        if m:
            mod.types.setdefault(m.group(1), Ty('struct', name=m.group(1)))
    for l in lines:
        m = re.match(r'(%[\w.]+) = type (.*)$', l)
        if m:
            if m.group(2).strip() == 'opaque':
                continue
            mod.types[m.group(1)].fields = P(tokenize(m.group(2)), mod).type().fields
    i = 0
    f = None
    cur = None
    while i < len(lines):
        l = lines[i]
        i += 1
        if f is None:
            m = re.match(r'@([\w.$]+) = (.*)$', l)
            if m:
                rest = m.group(2)
                m2 = re.search(r'\b(global|constant)\s+(.*)$', rest)
                if not m2:
                    raise IRError('global ' + l)
                ext = 'external' in rest[:m2.start()]
                body = re.sub(r', align \d+.*$', '', m2.group(2))
                body = re.sub(r', comdat.*$', '', body)
                if ext:
                    ty = P(tokenize(body), mod).type()
                    mod.globals['@' + m.group(1)] = (ty, None, m2.group(1) == 'constant')
                else:
                    # initialisers are kept as text and parsed lazily
                    mod.globals['@' + m.group(1)] = (None, body, m2.group(1) == 'constant')
                continue
            m = re.match(r'define (.*?)@([\w.$]+)\((.*?)\)([^()]*)\{\s*$', l) or re.match(r'define (.*?)@([\w.$]+)\((.*)\)(.*)\{\s*$', l)
            if m:
                f = Func(m.group(2))
                f.module = mod
                f.internal = 'internal' in m.group(1).split()
                rt = [x for x in m.group(1).split() if x not in CALLJUNK and x not in ('internal', 'hidden')]
                f.ret = P(tokenize(' '.join(rt)), mod).type() if rt else VOID
                pp = P(tokenize(m.group(3)), mod)
                while pp.peek() is not None:
                    if pp.peek() == '...':
                        break
                    t = pp.type(); pp.attrs()
                    f.params.append((t, pp.next())); pp.eat(',')
                cur = None
                continue
            m = re.match(r'!(\d+) = !DILocation\(line: (\d+)', l)
            if m:
                mod.lines[int(m.group(1))] = int(m.group(2))
        else:
            if l == '}':
                mod.funcs[f.name] = f
                for b in f.order:
                    blk = f.blocks[b]
                    t = blk.ins[-1]
                    if t.op == 'br':
                        blk.succ = list(dict.fromkeys(t.extra))
                    elif t.op == 'switch':
                        blk.succ = list(dict.fromkeys([t.extra[0]] + [c[1] for c in t.extra[1]]))
                for b in f.order:
                    for s in f.blocks[b].succ:
                        f.blocks[s].pred.append(b)
                f = None
                continue
            s = l.split(';')[0] if not ('"' in l) else l
            if not s.strip():
                continue
            m = re.match(r'^("?)([\w.$-]+)\1:', l)
            if m:
                cur = Block(m.group(2))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block('entry0')
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            if s.strip().startswith('switch') and '[' in s and ']' not in s:
                while ']' not in lines[i]:
                    s += ' ' + lines[i].strip(); i += 1
                s += ' ' + lines[i].strip(); i += 1
            if 'llvm.dbg.' in s or 'llvm.lifetime' in s:
                continue
            cur.ins.append(parse_instr(s, mod))
    return mod


def sizeof(t):
    k = t.k
    if k == 'int':
        return max(1, t.n // 8)
    if k == 'double' or k == 'ptr':
        return 8
    if k == 'float':
        return 4
    if k == 'arr':
        return t.n * sizeof(t.el)
    if k == 'struct':
        return layout(t)[1]
    if k == 'fp80':
        return 16
    raise IRError('sizeof %r' % t)


def alignof(t):
    if t.k == 'arr':
        return alignof(t.el)
    if t.k == 'struct':
        return max([alignof(f) for f in t.fields] + [1])
    return sizeof(t)


_lay = {}


def layout(t):
    key = id(t)
    if key not in _lay:
        if t.fields is None:
            raise IRError('opaque struct %s' % t.name)
        off, offs, al = 0, [], 1
        for f in t.fields:
            a = alignof(f); al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += sizeof(f)
        _lay[key] = (offs, (off + al - 1) // al * al, t)
    return _lay[key]


def scalar_cells(t, base=0):
    """flatten a type to [(offset, scalar type)]"""
    if t.k == 'struct':
        r = []
        for o, f in zip(layout(t)[0], t.fields):
            r += scalar_cells(f, base + o)
        return r
    if t.k == 'arr':
        r = []
        for i in range(t.n):
            r += scalar_cells(t.el, base + i * sizeof(t.el))
        return r
    return [(base, t)]


def rpo(f):
    seen, post = set(), []
    st = [(f.order[0], iter(f.blocks[f.order[0]].succ))]
    seen.add(f.order[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.blocks[s].succ)))
                break
        else:
            post.append(b)
            st.pop()
    return post[::-1]


def dominators(f, order):
    idx = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in f.blocks[b].pred if p in idom]
            n = ps[0]
            for p in ps[1:]:
                a, c = n, p
                while a != c:
                    while idx[a] > idx[c]:
                        a = idom[a]
                    while idx[c] > idx[a]:
                        c = idom[c]
                n = a
            if idom.get(b) != n:
                idom[b] = n
                ch = True
    return idom


def loops(f):
    """natural loops: header -> (body set, [latches]); raises on irreducible flow"""
    order = rpo(f)
    idx = {b: i for i, b in enumerate(order)}
    idom = dominators(f, order)

    def dom(a, b):
        while True:
            if a == b:
                return True
            if idom[b] == b:
                return False
            b = idom[b]
    res = {}
    for b in order:
        for s in f.blocks[b].succ:
            if idx[s] <= idx[b]:
                if not dom(s, b):
                    raise IRError('irreducible loop in ' + f.name)
                body = {s, b}
                work = [b] if b != s else []
                while work:
                    x = work.pop()
                    for p in f.blocks[x].pred:
                        if p in idx and p not in body:
                            body.add(p); work.append(p)
                if s in res:
                    res[s] = (res[s][0] | body, res[s][1] + [b])
                else:
                    res[s] = (body, [b])
    return order, res
