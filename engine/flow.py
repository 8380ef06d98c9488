"""Path-sensitive dataflow over LLVM IR with linear facts, byte classes and loop
invariants found by generalising the states that reach a loop header."""
import llvm as L
import linear as N

FULL = (1 << 256) - 1


class GiveUp(Exception):
    pass


# ------------------------------------------------------------------ static structure
class Ins:
    __slots__ = ('i', 'op', 'ops', 'width', 'kind', 'block', 'size', 'line')


class Func:
    def __init__(self, mod, f):
        self.mod, self.f, self.name = mod, f, L.name(f)
        self.params = [L.get_param(f, k) for k in range(L.count_params(f))]
        self.blocks = list(L.blocks(f))
        self.entry = self.blocks[0]
        self.code, self.where, self.succ, self.pred = {}, {}, {}, {}
        for b in self.blocks:
            self.code[b] = [self.ins(i, b) for i in L.insts(b)]
            t = self.code[b][-1]
            if t.op == 'invoke':
                s = [L.operand(t.i, L.num_operands(t.i) - 3)]
            elif t.op in ('br', 'switch'):
                s = L.succs(b)
            else:
                s = []
            self.succ[b] = list(dict.fromkeys(s))
        reach, todo = set(), [self.entry]
        while todo:
            b = todo.pop()
            if b not in reach:
                reach.add(b)
                todo += self.succ[b]
        self.blocks = [b for b in self.blocks if b in reach]
        for b in self.blocks:
            self.pred.setdefault(b, [])
            for s in self.succ[b]:
                self.pred.setdefault(s, []).append(b)
        self.find_loops()

    def ins(self, i, b):
        n = Ins()
        n.i, n.op, n.block = i, L.op(i), b
        n.ops = [L.operand(i, k) for k in range(L.num_operands(i))]
        t = L.typeof(i)
        n.kind = L.kind(t)
        n.width = L.int_width(t) if n.kind == 'int' else 64 if n.kind == 'ptr' else 0
        n.size = 0
        if n.op == 'load':
            n.size = L.abi_size(self.mod.td, t)
        elif n.op == 'store':
            n.size = L.abi_size(self.mod.td, L.typeof(n.ops[0]))
        n.line = None
        self.where[i] = n
        return n

    def find_loops(self):
        order, seen = [], set()
        stack = [(self.entry, iter(self.succ[self.entry]))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        dom = {self.entry: {self.entry}}
        changed = True
        while changed:
            changed = False
            for b in order:
                if b == self.entry:
                    continue
                ps = [dom[p] for p in self.pred[b] if p in dom]
                d = set.intersection(*ps) | {b} if ps else {b}
                if dom.get(b) != d:
                    dom[b] = d
                    changed = True
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    todo = [b]
                    while todo:
                        x = todo.pop()
                        if x not in body:
                            body.add(x)
                            todo += self.pred[x]
        pos = {b: k for k, b in enumerate(order)}
        self.irreducible = any(pos[s] <= pos[b] and s not in dom[b] for b in order for s in self.succ[b])

    def line(self, ins):
        if ins.line is None:
            fr = L.loc_chain(ins.i)
            own = [(f, l) for f, l in fr if '/sym/' in f or f.startswith('sym/')]
            f, l = (own or fr or [('?', 0)])[0]
            ins.line = '%s:%d' % (f.split('/repo/')[-1], l)
        return ins.line


# ------------------------------------------------------------------ state
class State:
    __slots__ = ('env', 'mem', 'cons', 'masks', 'taint', 'conds', 'ver', 'assumed', 'pushes', 'unknown',
                 'rv', 'reads', 'writes')

    def __init__(self):
        self.env, self.mem, self.cons, self.masks = {}, {}, frozenset(), {}
        self.taint, self.conds, self.ver, self.assumed = 0, (), 0, {}
        self.pushes, self.unknown = (), 0
        self.rv, self.reads, self.writes = {}, frozenset(), frozenset()

    def copy(self):
        s = State()
        s.env, s.mem, s.cons, s.masks = dict(self.env), dict(self.mem), self.cons, dict(self.masks)
        s.taint, s.conds, s.ver, s.assumed = self.taint, self.conds, self.ver, dict(self.assumed)
        s.pushes, s.unknown = self.pushes, self.unknown
        s.rv, s.reads, s.writes = dict(self.rv), self.reads, self.writes
        return s


def lit(c, w=64):
    return ('L', N.const(c), w)


def vsyms(v):
    if v[0] == 'L':
        return N.symbols(v[1])
    if v[0] == 'P':
        return N.symbols(v[2])
    if v[0] == 'B':
        return N.symbols(v[1][1]) if v[1][0] != 'j' else set()
    return set()


CTYPE = {}


def _ctype():
    import string
    up, lo, di = set(map(ord, string.ascii_uppercase)), set(map(ord, string.ascii_lowercase)), set(range(48, 58))
    CTYPE.update(isdigit=di, isalpha=up | lo, isalnum=up | lo | di, isupper=up, islower=lo,
                 isspace={9, 10, 11, 12, 13, 32}, isblank={9, 32}, iscntrl=set(range(32)) | {127},
                 isgraph=set(range(33, 127)), isprint=set(range(32, 127)),
                 isxdigit=di | set(map(ord, 'abcdefABCDEF')), ispunct=set(range(33, 127)) - up - lo - di)


_ctype()
NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
       'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}


class Flow:
    PEEL, OUTER = 2, 1      # iterations followed one by one before a loop is generalised
    RELAX = False
    UNROLL = False          # nothing is generalised: only what those iterations reach is judged
    LIMIT = 60000

    def __init__(self, mod, enum=None):
        self.mod = mod
        self.funcs = {}
        for f in mod.functions():
            if not L.is_declaration(f):
                self.funcs[L.name(f)] = f
        self.cache = {}
        self.nsym = 0
        self.ids, self.info = {}, []
        self.weak = set()
        self.findings = []
        self.summ = {}                 # function -> dict(pre, post)
        self.analysed = set()
        self.steps = 0
        self.enum = enum or {}         # token layout
        self.sizes = {}                # region -> size in bytes
        self.counts = {}
        self.scan = False
        self.nver = 0
        self.consts = None
        self.ordinal = {}

    # -------------------------------------------------------------- names
    def fresh(self, weak=False):
        self.nsym += 1
        s = 's%05d' % self.nsym
        if weak:
            self.weak.add(s)
        return s

    def opaque(self, *key, bits=None):
        if not key:
            key = ('fresh', len(self.info))
        k = (key, bits)
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = len(self.info)
            self.info.append(key)
        return ('U', i, bits)

    def determined(self, v, base):
        """value depends only on what was known before opaque number base was created"""
        if isinstance(v, str):
            return not (v[:1] == 'u' and v[1:].isdigit()) or self.determined(('U', int(v[1:]), None), base)
        if isinstance(v, tuple):
            if v and v[0] == 'U':
                if v[1] < base:
                    return True
                key = self.info[v[1]]
                if key[0] == 'fresh':
                    return False
                return all(self.determined(x, base) for x in key[1:])
            return all(self.determined(x, base) for x in v)
        return True

    def note(self, kind, verdict, msg, ins=None):
        self.findings.append((kind, verdict, msg, self.fn.line(ins) if ins is not None else '', self.fn.name))

    def func(self, name):
        if name not in self.cache:
            fn = self.cache[name] = Func(self.mod, self.funcs[name])
            for v in fn.params + [n.i for b in fn.blocks for n in fn.code[b]]:
                self.ordinal.setdefault(v, len(self.ordinal))
        return self.cache[name]

    def bump(self, st):
        self.nver += 1
        st.ver = self.nver

    # -------------------------------------------------------------- facts
    def assume(self, st, e):
        """add e >= 0; False when contradictory"""
        e = N.norm(e)
        if not e[1]:
            return e[0] >= 0
        if e in st.cons:
            return True
        cons = st.cons | {e}
        if not N.feasible(N._relevant(cons, e)):
            return False
        st.cons = cons
        return True

    def ge(self, st, e):
        return N.entails(st.cons, e)

    def full(self, loc):
        if loc[0] == 'tok' and loc[2] == 'type':
            return (1 << self.enum['count']) - 1
        return FULL

    def mask(self, st, loc):
        return st.masks.get(loc, self.full(loc))

    def restrict(self, st, loc, m):
        m &= self.mask(st, loc)
        if not m:
            return False
        st.masks[loc] = m
        if loc[0] == 'in':
            e = N.sub(N.sym('LEN'), loc[1])                    # LEN - off
            if not m & 1:
                if self.ge(st, e):
                    return self.assume(st, N.shift(e, -1))
        elif loc[0] == 'tok' and loc[2] == 'type':
            e = N.sub(N.sym('LAST'), loc[1])
            eof = 1 << self.enum['eof']
            if not m & eof:
                if self.ge(st, e):
                    return self.assume(st, N.shift(e, -1))
            elif m == eof:
                if self.ge(st, e):
                    return self.assume(st, N.scale(e, -1))
        return True

    def bvalues(self, st, v):
        m = self.mask(st, v[1])
        return {v[2][k] for k in range(len(v[2])) if m >> k & 1}

    def simplify(self, st, v):
        if v[0] == 'B':
            s = self.bvalues(st, v)
            if len(s) == 1:
                c = s.pop()
                if v[3] > 1 and c >> (v[3] - 1) & 1:
                    c -= 1 << v[3]
                return lit(c, v[3])
        return v

    def lin(self, st, v):
        v = self.simplify(st, v)
        if v[0] == 'L':
            return v[1]
        if v[0] == 'B':
            s = self.bvalues(st, v)
            u = self.opaque('byte', v)
            n = 'u%05d' % u[1]
            self.weak.add(n)
            self.assume(st, N.shift(N.sym(n), -min(s)))
            self.assume(st, N.shift(N.sym(n, -1), max(s)))
            return N.sym(n)
        if v[0] == 'U':
            n = 'u%05d' % v[1]
            self.weak.add(n)
            if v[2] is not None:
                self.assume(st, N.sym(n))
                self.assume(st, N.shift(N.sym(n, -1), v[2]))
            return N.sym(n)
        u = self.opaque('as int', v)
        self.weak.add('u%05d' % u[1])
        return N.sym('u%05d' % u[1])

    def is_weak(self, e):
        return any(s in self.weak for s in N.symbols(e))

    # -------------------------------------------------------------- operands
    def val(self, st, o):
        if o in st.env:
            return st.env[o]
        if L.is_const_int(o):
            t = L.typeof(o)
            return lit(L.const_sext(o), L.int_width(t))
        if L.is_null(o) and L.kind(L.typeof(o)) == 'ptr':
            return ('P', 'null', N.const(0))
        if L.is_global_var(o):
            return ('P', ('g', o), N.const(0))
        if L.is_constant(o) and L.is_const_expr(o) and L.const_opcode(o) == 29:
            b = self.val(st, L.operand(o, 0))
            if b[0] == 'P':
                return self.gep(st, o, b)
        return self.opaque('operand', o)

    def gep(self, st, i, base):
        td = self.mod.td
        t = L.gep_source_type(i)
        off = base[2] if base[0] == 'P' else None
        parts = []
        n = L.num_operands(i)
        for k in range(1, n):
            o = L.operand(i, k)
            v = self.val(st, o)
            if k == 1:
                step = L.abi_size(td, t)
            elif L.kind(t) == 'struct':
                c = L.const_zext(o)
                parts.append(('c', L.offset_of(td, t, c)))
                t = L.struct_type_at(t, c)
                continue
            else:
                t = L.element_type(t)
                step = L.abi_size(td, t)
            parts.append((v, step))
        if base[0] != 'P':
            key = tuple((p[0] if p[0] == 'c' else p[0], p[1]) for p in parts)
            if all((p[0] == 'c' and p[1] == 0) or (p[0] != 'c' and p[0] == lit(0, p[0][2] if p[0][0] == 'L' else 64))
                   for p in parts):
                return base
            return self.opaque('gep', base, key)
        for p, s in parts:
            if p == 'c':
                off = N.shift(off, s)
            else:
                off = N.add(off, N.scale(self.lin(st, p), s))
        return ('P', base[1], off)

    # -------------------------------------------------------------- arithmetic
    def table(self, v, f, w):
        return ('B', v[1], tuple(f(x) & ((1 << w) - 1) for x in v[2]), w)

    def bits(self, st, v):
        v = self.simplify(st, v)
        if v[0] == 'L' and not v[1][1]:
            return v[1][0] & ((1 << v[2]) - 1)
        if v[0] == 'B':
            m = 0
            for x in self.bvalues(st, v):
                m |= x
            return m
        if v[0] == 'U':
            return v[2]
        return None

    @staticmethod
    def compute(op, a, b, w):
        m = (1 << w) - 1
        a, b = a & m, b & m
        sa = a - (1 << w) if a >> (w - 1) & 1 else a
        sb = b - (1 << w) if b >> (w - 1) & 1 else b
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & m if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sa >> b) & m if b < w else 0
        if op in ('udiv', 'urem'):
            return None if b == 0 else a // b if op == 'udiv' else a % b
        if op in ('sdiv', 'srem'):
            if sb == 0:
                return None
            q = abs(sa) // abs(sb) * (1 if sa * sb >= 0 else -1)
            return (q if op == 'sdiv' else sa - q * sb) & m
        return None

    def binary(self, st, op, a, b, w):
        if w == 1 and op in ('and', 'or', 'xor'):
            return self.logic(op, a, b)
        a, b = self.simplify(st, a), self.simplify(st, b)
        ca = a[1][0] if a[0] == 'L' and not a[1][1] else None
        cb = b[1][0] if b[0] == 'L' and not b[1][1] else None
        if ca is not None and cb is not None:
            r = self.compute(op, ca, cb, w)
            if r is not None:
                return lit(r - (1 << w) if r >> (w - 1) & 1 else r, w)
        if a[0] == 'P' or b[0] == 'P':
            if op == 'sub' and a[0] == b[0] == 'P' and a[1] == b[1]:
                return ('L', N.sub(a[2], b[2]), w)
            if op == 'add' and (a[0] == 'P') != (b[0] == 'P'):
                p, x = (a, b) if a[0] == 'P' else (b, a)
                return ('P', p[1], N.add(p[2], self.lin(st, x)))
            if op == 'sub' and a[0] == 'P' and b[0] != 'P':
                return ('P', a[1], N.sub(a[2], self.lin(st, b)))
            return self.opaque(op, a, b)
        if a[0] == 'B' and cb is not None:
            return self.table(a, lambda x: self.compute(op, x, cb, w) or 0, w)
        if b[0] == 'B' and ca is not None:
            return self.table(b, lambda x: self.compute(op, ca, x, w) or 0, w)
        if a[0] == b[0] == 'B' and a[1] == b[1]:
            t = tuple((self.compute(op, x, y, w) or 0) for x, y in zip(a[2], b[2]))
            return ('B', a[1], t, w)
        if a[0] == 'L' and b[0] == 'L':
            r = None
            if op in ('add', 'sub'):
                r = N.add(a[1], b[1], 1 if op == 'add' else -1)
            elif op == 'mul' and (ca is not None or cb is not None):
                r = N.scale(b[1], ca) if ca is not None else N.scale(a[1], cb)
            elif op == 'shl' and cb is not None and 0 <= cb < w:
                r = N.scale(a[1], 1 << cb)
            elif op in ('sdiv', 'udiv') and cb:
                r = N.divide(a[1], cb)
            elif op in ('ashr', 'lshr') and cb is not None and 0 <= cb < w:
                r = N.divide(a[1], 1 << cb)
            if r is not None:
                if w <= 16 and not (self.ge(st, N.shift(r, 1 << (w - 1))) and
                                    self.ge(st, N.shift(N.scale(r, -1), (1 << w) - 1))):
                    return self.opaque(op, a, b)
                return ('L', r, w)
        ba, bb = self.bits(st, a), self.bits(st, b)
        m = (1 << w) - 1
        bits = None
        if op == 'and':
            bits = ba if bb is None else bb if ba is None else ba & bb
        elif op in ('or', 'xor') and ba is not None and bb is not None:
            bits = ba | bb
        elif op == 'shl' and ba is not None and cb is not None:
            bits = (ba << cb) & m
        elif op == 'lshr' and ba is not None and cb is not None:
            bits = ba >> cb
        elif op == 'add' and ba is not None and bb is not None and not ba & bb:
            bits = ba | bb
        return self.opaque(op, a, b, bits=bits)

    # -------------------------------------------------------------- conditions
    def logic(self, op, a, b):
        if op == 'xor':
            if b[0] == 'L':
                a, b = b, a
            if a[0] == 'L' and not a[1][1]:
                return ('not', b) if a[1][0] & 1 else b
            return ('or', ('and', a, ('not', b)), ('and', ('not', a), b))
        return (op, a, b)

    def compare(self, st, pred, a, b):
        a, b = self.simplify(st, a), self.simplify(st, b)
        if self.flag(a) is not None and b[0] == 'L' and b[1] in (N.const(0), N.const(1)):
            a = self.flag(a)
        if a[0] == 'P' and b[0] == 'P':
            if a[1] == b[1]:
                return self.linear(pred, N.sub(a[2], b[2]))
            if 'null' in (a[1], b[1]) and pred in ('eq', 'ne'):
                return lit(int(pred == 'ne'), 1)
            return self.opaque('icmp' + pred, a, b)
        if 'P' in (a[0], b[0]):
            return self.opaque('icmp' + pred, a, b)
        if a[0] in ('not', 'and', 'or', 'cmp') or b[0] in ('not', 'and', 'or', 'cmp'):
            if b[0] == 'L' and not b[1][1] and pred in ('eq', 'ne'):
                return a if (b[1][0] & 1) == (pred == 'eq') else ('not', a)
            return self.opaque('icmp' + pred, a, b)
        w = a[3] if a[0] == 'B' else b[3] if b[0] == 'B' else a[2] if a[0] == 'L' else b[2] if b[0] == 'L' else 64
        m = (1 << w) - 1 if w else 0

        def test(x, y):
            x, y = x & m, y & m
            if pred[0] == 's':
                x = x - m - 1 if x >> (w - 1) & 1 else x
                y = y - m - 1 if y >> (w - 1) & 1 else y
            p = pred[1:] if pred not in ('eq', 'ne') else pred
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])
        ca = a[1][0] if a[0] == 'L' and not a[1][1] else None
        cb = b[1][0] if b[0] == 'L' and not b[1][1] else None
        if ca is not None and cb is not None:
            return lit(test(ca, cb), 1)
        if a[0] == 'B' and cb is not None:
            return ('B', a[1], tuple(test(x, cb) for x in a[2]), 1)
        if b[0] == 'B' and ca is not None:
            return ('B', b[1], tuple(test(ca, x) for x in b[2]), 1)
        if a[0] == b[0] == 'B' and a[1] == b[1]:
            return ('B', a[1], tuple(test(x, y) for x, y in zip(a[2], b[2])), 1)
        if (a[0] == 'U' and a[2] is None) or (b[0] == 'U' and b[2] is None) or \
                (a[0] == 'U' and b[0] == 'U'):
            if pred not in ('eq', 'ne'):
                return self.opaque('icmp' + pred, a, b)
        if a[0] == 'U' and a[2] is not None and cb is not None and pred in ('ugt', 'ne', 'eq', 'ule') and cb == 0:
            if a[2] == 0:
                return lit(int(pred in ('eq', 'ule')), 1)
            return self.opaque('icmp' + pred, a, b)
        if a[0] == 'U' and a[2] and a[2] & (a[2] - 1) == 0 and cb == a[2] and pred in ('eq', 'ne'):
            return self.opaque('icmp' + ('ne' if pred == 'eq' else 'eq'), a, lit(0, w))
        ea, eb = self.lin(st, a), self.lin(st, b)
        if pred[0] == 'u' and w < 65:
            if cb is not None and cb < 0:
                eb = N.const(cb + (1 << w))
            if ca is not None and ca < 0:
                ea = N.const(ca + (1 << w))
            if not self.ge(st, ea) or not self.ge(st, eb):
                return self.opaque('icmp' + pred, a, b)
        return self.linear(pred, N.sub(ea, eb))

    @staticmethod
    def linear(pred, d):
        p = pred[1:] if pred not in ('eq', 'ne') else pred
        if not d[1]:
            c = d[0]
            return lit(int({'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[p]), 1)
        if p in ('eq', 'ne'):
            return ('cmp', p, d)
        if p == 'ge':
            return ('cmp', 'ge', d)
        if p == 'gt':
            return ('cmp', 'ge', N.shift(d, -1))
        if p == 'le':
            return ('cmp', 'ge', N.scale(d, -1))
        return ('cmp', 'ge', N.shift(N.scale(d, -1), -1))

    def branch(self, st, c, want):
        """states in which condition c has the wanted truth value"""
        k = c[0]
        if k == 'L':
            return [st] if bool(c[1][0] & 1) == want and not c[1][1] else \
                [] if not c[1][1] else self.unsure(st, c, want)
        if k == 'not':
            return self.branch(st, c[1], not want)
        if k in ('and', 'or'):
            if (k == 'and') == want:
                return [y for x in self.branch(st, c[1], want) for y in self.branch(x, c[2], want)]
            out = self.branch(st.copy(), c[1], want)
            for x in self.branch(st.copy(), c[1], not want):
                out += self.branch(x, c[2], want)
            return out
        if k == 'B':
            m = 0
            for j, x in enumerate(c[2]):
                if bool(x & 1) == want:
                    m |= 1 << j
            st = st.copy()
            if c[1][0] == 'j' and self.mask(st, c[1]) & ~m:
                st.taint |= 2   # what decided the flag may also have decided the positions
            return [st] if self.restrict(st, c[1], m) else []
        if k == 'cmp':
            _, p, d = c
            st = st.copy()
            if self.is_weak(d):
                st.taint |= 1
            if p == 'ge':
                e = d if want else N.shift(N.scale(d, -1), -1)
                return [st] if self.assume(st, e) else []
            if (p == 'eq') == want:
                return [st] if self.assume(st, d) and self.assume(st, N.scale(d, -1)) else []
            out = []
            lo = st.copy()
            if self.assume(lo, N.shift(d, -1)):
                out.append(lo)
            if self.assume(st, N.shift(N.scale(d, -1), -1)):
                out.append(st)
            return out
        return self.unsure(st, c, want)

    def unsure(self, st, c, want):
        if c in st.assumed:
            return [st] if st.assumed[c] == want else []
        st = st.copy()
        st.assumed[c] = want
        st.taint |= 2 if c[0] == 'U' and c[2] is not None and self.info[c[1]][0] in ('trunc', 'fresh') else \
            0 if c[0] == 'U' and self.bitwise(c) else 1
        return [st]

    def bitwise(self, c):
        """condition on a value of which the possible bits are tracked"""
        key = self.info[c[1]]
        return key[0].startswith('icmp') and any(x[0] == 'U' and x[2] is not None for x in key[1:])

    # -------------------------------------------------------------- memory
    def bounds(self, st, region, off, n, ins, write):
        if region == 'in':
            lo, hi = off, N.shift(N.sub(N.sym('LEN'), off), 1 - n)
            what = 'the input text'
        elif region == 'tok':
            lo = off
            i = N.divide(N.shift(off, -(off[0] % self.enum['size'])), self.enum['size'])
            if i is None:
                self.note('bounds', 'note', 'token pointer with an unknown alignment', ins)
                return True
            lo, hi = i, N.sub(N.sym('LAST'), i)
            what = 'the tokens (the last one is the end marker)'
        elif region in self.sizes:
            lo, hi = off, N.shift(N.scale(off, -1), self.sizes[region] - n)
            what = 'a buffer of %d bytes' % self.sizes[region]
        else:
            return True
        ok = True
        for e, side in ((lo, 'before the start'), (hi, 'past the end')):
            if self.ge(st, e):
                self.note('bounds', 'ok', '', ins)
                continue
            ok = False
            bad = N.shift(N.scale(e, -1), -1)
            definite = not N.possible(st.cons, e)
            if not self.blocked(st) and (definite or not self.is_weak(e)):
                self.note('bounds', 'bad', '%s %s of %s: offset %s' % (
                    'writes' if write else 'reads', side, what, self.show(off)), ins)
            else:
                self.note('bounds', 'note', 'not shown to stay inside %s' % what, ins)
            self.assume(st, e)
        return ok

    def show(self, e):
        return ' + '.join(['%s%s' % ('' if k == 1 else '%d*' % k, s) for s, k in e[1]] + ([str(e[0])] if e[0] or not e[1] else []))

    def load(self, st, p, n, w, ins):
        if p[0] != 'P':
            return self.opaque('load', p, st.ver, n)
        _, region, off = p
        self.bounds(st, region, off, n, ins, False)
        if region == 'in':
            if n != 1:
                return self.opaque('load', p, n)
            if self.ge(st, N.sub(off, N.sym('LEN'))):
                return lit(0, 8)
            return self.simplify(st, ('B', ('in', off), tuple(range(256)), 8))
        if region == 'tok':
            size = self.enum['size']
            r = off[0] % size
            i = N.divide(N.shift(off, -r), size)
            if i is None or r != self.enum['type']:
                st.reads |= {('content', i)}
            if i is not None and r == self.enum['type'] and n == self.enum['type_size']:
                return self.simplify(st, ('B', ('tok', i, 'type'), tuple(range(self.enum['count'])), 8 * n))
            if i is not None and n == 1:
                return ('B', ('tok', i, r), tuple(range(256)), 8)
            return self.opaque('load', p, n)
        c = st.mem.get((region, off))
        if (region, off) not in st.writes:
            st.reads |= {(region, off)}
        if c and c[1] == n:
            return c[0]
        for (r, o), (v, m) in st.mem.items():
            if r == region and N.symbols(o) == N.symbols(off):
                d = N.sub(off, o)
                if not d[1] and 0 <= d[0] and d[0] + n <= m and v[0] in ('L', 'U', 'B') and w:
                    if d[0] == 0 and v[0] == 'L':
                        return self.cast(st, 'trunc', v, w, 8 * m)
                    b = self.bits(st, v)
                    return self.opaque('part', v, d[0], n,
                                       bits=None if b is None else b >> (8 * d[0]) & ((1 << 8 * n) - 1))
        if isinstance(region, tuple) and region[0] == 'g':
            return self.constant_load(st, region, off, n, w)
        return self.opaque('load', p, st.rv.get(region, 0), n)

    def constant_load(self, st, region, off, n, w):
        g = region[1]
        if L.is_global_const(g) and L.initializer(g):
            init = L.initializer(g)
            t = L.global_value_type(g)
            if L.kind(t) == 'array' and L.kind(L.element_type(t)) == 'int' and not off[1]:
                s = L.abi_size(self.mod.td, L.element_type(t))
                if s == n and off[0] % s == 0 and 0 <= off[0] // s < L.array_length(t):
                    e = L.aggregate_element(init, off[0] // s)
                    if e and L.is_const_int(e):
                        return lit(L.const_sext(e), 8 * n)
        return self.opaque('load', ('P', region, off), n)

    def store(self, st, p, v, n, ins):
        if p[0] != 'P':
            self.bump(st)
            return
        _, region, off = p
        self.bounds(st, region, off, n, ins, True)
        if region in ('in', 'tok'):
            self.bump(st)
            return
        was = st.mem.get((region, off))
        self.kill(st, region, off, n)
        st.mem[(region, off)] = (v, n)
        st.writes |= {(region, off)}
        if v[0] == 'P' and v[1] == 'tok' and was and was[0][:2] == v[:2] and \
                N.sub(v[2], was[0][2]) == N.const(self.enum['size']):
            st.reads |= {('passed', self.token(was[0][2]), ins)}

    def token(self, off):
        """number of the token an offset lies in"""
        return N.divide(N.shift(off, -(off[0] % self.enum['size'])), self.enum['size'])

    def kill(self, st, region, off, n):
        """forget the cells that n bytes at the offset may overlap (n None: everything)"""
        self.nver += 1
        st.rv[region] = self.nver
        for (r, o) in list(st.mem):
            if r != region:
                continue
            if n is None:
                del st.mem[(r, o)]
                continue
            d = N.sub(o, off)
            m = st.mem[(r, o)][1]
            if not d[1]:
                if d[0] < n and d[0] + m > 0:
                    del st.mem[(r, o)]
            elif not (self.ge(st, N.shift(d, -n)) or self.ge(st, N.shift(N.scale(d, -1), -m))):
                del st.mem[(r, o)]

    def flag(self, v):
        """the condition an integer stands for"""
        if v[0] == 'U' and self.info[v[1]][0] == 'flag':
            return self.info[v[1]][1]
        return None

    # -------------------------------------------------------------- casts
    def cast(self, st, op, v, w, w0):
        v = self.simplify(st, v)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            return v
        m = (1 << w) - 1
        if v[0] in ('not', 'and', 'or', 'cmp'):
            return self.opaque('flag', v, bits=1) if op == 'zext' else self.opaque(op, v)
        if op in ('zext', 'trunc') and self.flag(v) is not None:
            return self.flag(v) if w == 1 else v
        if v[0] == 'B':
            if op == 'sext':
                t = tuple((x | (m & ~((1 << w0) - 1))) if x >> (w0 - 1) & 1 else x for x in v[2])
            else:
                t = tuple(x & m for x in v[2])
            return ('B', v[1], t, w)
        if v[0] == 'L':
            if not v[1][1]:
                c = v[1][0]
                if op == 'zext':
                    c &= (1 << w0) - 1
                c &= m
                return lit(c - m - 1 if w > 1 and c >> (w - 1) & 1 else c, w)
            if op == 'sext':
                return ('L', v[1], w)
            if op == 'zext':
                return ('L', v[1], w) if self.ge(st, v[1]) else self.opaque(op, v)
            if w == 1:
                return self.opaque(op, v)
            if w >= 32 or (self.ge(st, v[1]) and self.ge(st, N.shift(N.scale(v[1], -1), m))):
                return ('L', v[1], w)
            return self.opaque(op, v, w, bits=m)
        b = self.bits(st, v)
        if b is not None:
            if op == 'trunc':
                b &= m
            if op == 'sext' and b >> (w0 - 1) & 1:
                b = None
        elif op == 'zext':
            b = (1 << w0) - 1 if w0 <= 16 else None
        return self.opaque(op, v, w, bits=b)

    # -------------------------------------------------------------- execution
    def phis(self, st, b, prev):
        new = {}
        for n in self.fn.code[b]:
            if n.op != 'phi':
                break
            for k in range(L.count_incoming(n.i)):
                if L.incoming_block(n.i, k) == prev:
                    new[n.i] = self.val(st, L.incoming_value(n.i, k))
                    break
            else:
                new[n.i] = self.opaque()
        st.env.update(new)

    def walk(self, items, loop=None):
        """run until control leaves the loop: (back, exits, returns)"""
        back, exits, rets = [], [], []
        work = [(b, prev, st, True) for b, prev, st in items]
        while work:
            b, prev, st, first = work.pop()
            self.steps += 1
            if self.steps > self.LIMIT:
                raise GiveUp('too many paths')
            if loop is not None and not first:
                if b == loop:
                    self.phis(st, b, prev)
                    back.append(st)
                    continue
                if b not in self.fn.loops[loop]:
                    exits.append((b, prev, st))
                    continue
            if prev is not None:
                self.phis(st, b, prev)
            if b in self.fn.loops and not (first and b == loop):
                ex, rt = self.loop(b, st)
                rets += rt
                work += [(x, p, s, False) for x, p, s in ex]
                continue
            for nxt, s in self.block(b, st, rets):
                work.append((nxt, b, s, False))
        return back, exits, rets

    def block(self, b, st, rets):
        out = []
        work = [(0, st)]
        code = self.fn.code[b]
        start = 0
        while start < len(code) and code[start].op == 'phi':
            start += 1
        work = [(start, st)]
        while work:
            k, st = work.pop()
            while True:
                n = code[k]
                if n.op == 'br':
                    s = L.succs(b)
                    if len(s) == 1:
                        out.append((s[0], st))
                        break
                    c = self.val(st, L.condition(n.i))
                    st.conds += (c,)
                    out += [(s[0], x) for x in self.branch(st.copy(), c, True)]
                    out += [(s[1], x) for x in self.branch(st.copy(), c, False)]
                    break
                if n.op == 'switch':
                    self.switch(n, st, out)
                    break
                if n.op == 'ret':
                    rets.append((st, self.val(st, n.ops[0]) if n.ops else None, n))
                    break
                if n.op in ('unreachable', 'resume'):
                    break
                r = self.step(n, st)
                if n.op == 'invoke':
                    nxt = L.operand(n.i, L.num_operands(n.i) - 3)
                    out += [(nxt, x) for x in ([st] if r is None else r)]
                    break
                if r is not None:
                    work += [(k + 1, x) for x in r]
                    break
                k += 1
        return out

    def switch(self, n, st, out):
        v = self.simplify(st, self.val(st, n.ops[0]))
        st.conds += (v,)
        w = L.int_width(L.typeof(n.ops[0]))
        default = n.ops[1]
        rest = [st]
        for k in range(2, len(n.ops), 2):
            c = self.compare(st, 'eq', v, lit(L.const_sext(n.ops[k]), w))
            for x in list(rest):
                out += [(n.ops[k + 1], y) for y in self.branch(x.copy(), c, True)]
            rest = [y for x in rest for y in self.branch(x, c, False)]
        out += [(default, x) for x in rest]
        # one state per target where only the byte classes differ
        merged = {}
        keep = []
        for t, x in out:
            key = None
            if v[0] == 'B':
                key = (t, x.cons, tuple(sorted(((repr(a), m) for a, m in x.masks.items() if a != v[1]))),
                       tuple(sorted(map(repr, x.assumed.items()))), x.taint)
            if key is not None and key in merged and self.has_phi_free(t, n.block):
                y = merged[key]
                y.masks[v[1]] = self.mask(y, v[1]) | self.mask(x, v[1])
            else:
                merged[key] = x
                keep.append((t, x))
        out[:] = keep

    def has_phi_free(self, t, b):
        return True                      # the same edge source gives the same phi values

    def step(self, n, st):
        """execute one instruction; None or a list of successor states"""
        op = n.op
        e = st.env
        if op == 'alloca':
            t = L.allocated_type(n.i)
            r = ('a', n.i)
            self.sizes[r] = L.abi_size(self.mod.td, t)
            e[n.i] = ('P', r, N.const(0))
        elif op == 'load':
            e[n.i] = self.load(st, self.val(st, n.ops[0]), n.size, n.width, n)
        elif op == 'store':
            self.store(st, self.val(st, n.ops[1]), self.val(st, n.ops[0]), n.size, n)
        elif op == 'gep':
            e[n.i] = self.gep(st, n.i, self.val(st, n.ops[0]))
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            e[n.i] = self.binary(st, op, self.val(st, n.ops[0]), self.val(st, n.ops[1]), n.width) \
                if n.kind == 'int' else self.opaque()
        elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            t = L.typeof(n.ops[0])
            w0 = L.int_width(t) if L.kind(t) == 'int' else 64
            if n.kind in ('int', 'ptr'):
                e[n.i] = self.cast(st, op, self.val(st, n.ops[0]), n.width, w0)
            else:
                e[n.i] = self.opaque(op, self.val(st, n.ops[0]))
        elif op == 'icmp':
            e[n.i] = self.compare(st, L.ICMP[L.icmp_pred(n.i)], self.val(st, n.ops[0]), self.val(st, n.ops[1]))
        elif op == 'select':
            c = self.val(st, n.ops[0])
            out = []
            for want in (True, False):
                for x in self.branch(st.copy(), c, want):
                    x.env[n.i] = self.val(x, n.ops[1 if want else 2])
                    out.append(x)
            return out
        elif op in ('call', 'invoke'):
            return self.call(n, st)
        elif n.kind != 'void':
            e[n.i] = self.opaque(op, *[self.val(st, o) for o in n.ops])
        return None

    # -------------------------------------------------------------- loops
    def loop(self, h, entry):
        body = self.fn.loops[h]
        exits, rets = [], []
        stable = set(self.state_syms(entry))
        cur = [entry]
        base = len(self.info)
        nested = any(x in body for x in self.fn.loops if x != h)
        outer = entry
        entry = entry.copy()
        self.reset(entry)

        def leave(states, extra=0):
            for x in states:
                x.conds = outer.conds + x.conds
                x.pushes = outer.pushes + x.pushes
                x.unknown += outer.unknown + extra
                x.reads = outer.reads | (x.reads - outer.writes)
                x.writes = outer.writes | x.writes
        cur = [entry]
        for _ in range(self.OUTER if nested else self.PEEL):
            nxt = []
            for s in cur:
                s = s.copy()
                self.reset(s)
                head = s.copy()
                bs, ex, rt = self.walk([(h, None, s)], h)
                leave([x[2] for x in ex] + [x[0] for x in rt])
                for x in bs:
                    self.iteration(h, head, x, base)
                nxt += bs
                exits += ex
                rets += rt
            cur = nxt
            if self.UNROLL:
                for s in cur:
                    self.prune(s, h, body)
                cur = self.merge(cur)
            if not cur or len(cur) > (40 if self.UNROLL else 6):
                break
        if not cur or self.UNROLL:
            return exits, rets
        for s in cur:
            self.prune(s, h, body)
        names, prev, first = {}, None, list(cur)
        arr = cur
        moved = any(s.ver != entry.ver for s in cur)
        for rnd in range(12):
            shape = self.join([(s, self.flat(s)) for s in arr], stable, names, prev, rnd)
            mark = len(self.findings)
            g = self.instantiate(shape, entry)
            g.ver = entry.ver
            if moved:
                self.bump(g)
            g.rv = {k: v for k, v in entry.rv.items() if all(s.rv.get(k) == v for s in arr)}
            for k in {k for s in arr for k in s.rv} - set(g.rv):
                self.nver += 1
                g.rv[k] = self.nver
            self.looked(g)
            head = g.copy()
            base = len(self.info)
            bs, ex, rt = self.walk([(h, None, g)], h)
            if not moved and any(s.ver != head.ver for s in bs):
                moved = True
                del self.findings[mark:]
                continue
            for s in bs:
                self.prune(s, h, body)
            again = self.join([(s, self.flat(s)) for s in first + bs], stable, names, shape, rnd + 1)
            if again == shape:
                for s in bs:
                    self.iteration(h, head, s, base)
                self.progress(h, head, bs)
                leave([x[2] for x in ex] + [x[0] for x in rt], sum(bool(s.unknown) for s in bs))
                return exits + ex, rets + rt
            del self.findings[mark:]
            prev = shape
            arr = first + bs
        raise GiveUp('no loop invariant found')

    @staticmethod
    def reset(s):
        s.conds, s.pushes, s.unknown, s.writes = (), (), 0, frozenset()
        s.reads = frozenset(k for k in s.reads if k[0] in ('content', 'escape'))

    def prune(self, s, h, body):
        for v in list(s.env):
            n = self.fn.where.get(v)
            if n is not None and n.block in body and not (n.op == 'phi' and n.block == h):
                del s.env[v]

    def merge(self, states):
        """states that differ only in the class of one byte are one state"""
        out = {}
        for s in states:
            key = (tuple(sorted(map(repr, s.env.items()))), tuple(sorted(map(repr, s.mem.items()))), s.cons,
                   tuple(sorted(map(repr, s.assumed.items()))), s.taint, s.pushes, s.unknown)
            for t in out.setdefault(key, []):
                d = {k for k in set(s.masks) | set(t.masks) if self.mask(s, k) != self.mask(t, k)}
                if len(d) <= 1:
                    for k in d:
                        t.masks[k] = self.mask(s, k) | self.mask(t, k)
                    t.conds += s.conds
                    t.reads, t.writes = t.reads | s.reads, t.writes & s.writes
                    self.bump(t)
                    break
            else:
                out[key].append(s)
        return [t for v in out.values() for t in v]

    def state_syms(self, st):
        out = {'LEN', 'LAST'}
        for v in st.env.values():
            out |= vsyms(v)
        for (r, o), (v, n) in st.mem.items():
            out |= N.symbols(o) | vsyms(v)
        for c in st.cons:
            out |= N.symbols(c)
        for loc in st.masks:
            if loc[0] != 'j':
                out |= N.symbols(loc[1])
        return out

    def flat(self, st):
        d = {('v', k): v for k, v in st.env.items()}
        for (r, o), (v, n) in st.mem.items():
            d[('m', r, o, n)] = v
        return d

    def stride(self, region):
        return self.enum['size'] if region == 'tok' else 1

    def join(self, items, stable, names, prev, rnd, keep=True, mono=False):
        keys = set(items[0][1])
        for _, v in items[1:]:
            keys &= set(v)
        vals, nums, bases, derived = {}, [], [], []

        def ok(v):
            return vsyms(v) <= stable and not (v[0] == 'B' and v[1][0] == 'j' and v[1] not in items[0][0].masks)

        def name(key):
            return names.setdefault(key, '?%03d' % len(names))
        for key in sorted(keys, key=self.rank):
            if key[0] == 'm' and not N.symbols(key[2]) <= stable:
                continue
            vs = [self.simplify(s, v[key]) for s, v in items]
            old = prev[0].get(key) if prev and mono else None
            if all(v == vs[0] for v in vs) and ok(vs[0]) and \
                    not (old is not None and any(x.startswith('?') for x in vsyms(old))):
                vals[key] = vs[0]
                continue
            cond = ('not', 'and', 'or', 'cmp')
            small = [v[2] if v[0] == 'L' else v[3] if v[0] == 'B' else 1 if v[0] in cond else 0 for v in vs]
            if all(v[0] == 'B' or v[0] in cond or (v[0] == 'L' and not v[1][1]) for v in vs) and \
                    (max(small) <= 8 or any(v[0] == 'B' for v in vs)):
                w = max(small)
                u = set()
                for (s, _), v in zip(items, vs):
                    u |= self.bvalues(s, v) if v[0] == 'B' else {0, 1} if v[0] in cond else {v[1][0] & ((1 << w) - 1)}
                if max(u) < 256:
                    vals[key] = ('J', name(key), sum(1 << x for x in u), w)
                else:
                    b = 0
                    for x in u:
                        b |= x
                    vals[key] = ('X', name(key), b)
            elif all(v[0] == 'L' for v in vs) and all(v[2] == vs[0][2] for v in vs):
                nums.append((key, ('L', vs[0][2]), 1, 0, [v[1] for v in vs]))
            elif all(v[0] == 'P' and v[1] == vs[0][1] for v in vs):
                k = self.stride(vs[0][1])
                r = vs[0][2][0] % k
                es = [N.divide(N.shift(v[2], -r), k) for v in vs]
                if None in es:
                    vals[key] = ('X', name(key), None)
                else:
                    nums.append((key, ('P', vs[0][1]), k, r, es))
            else:
                bs = [self.bits(s, v) for (s, _), v in zip(items, vs)]
                b = None
                if None not in bs:
                    b = 0
                    for x in bs:
                        b |= x
                vals[key] = ('X', name(key), b)
        for key, kind, k, r, es in nums:
            t = None
            was = prev[0].get(key) if prev and mono else None
            free = was is not None and any(x.startswith('?') for x in vsyms(was))
            if all(e == es[0] for e in es) and N.symbols(es[0]) <= stable and not free:
                t = es[0]
            for bn, bes in bases:
                if t is not None:
                    break
                for sg in (1, -1):
                    d = [N.add(e, be, -sg) for e, be in zip(es, bes)]
                    if all(x == d[0] for x in d) and N.symbols(d[0]) <= stable:
                        t = N.add(N.sym(bn, sg), d[0])
                        break
            if t is None:
                bn = name(key)
                bases.append((bn, es))
                t = N.sym(bn)
            elif len(t[1]) > 1 and any(x.startswith('?') for x, _ in t[1]) and kind[0] == 'P':
                derived.append((t, es))
            vals[key] = (kind[0], t, kind[1]) if kind[0] == 'L' else ('P', kind[1], N.shift(N.scale(t, k), r))
        # facts
        cons = set(items[0][0].cons)
        masks = {}
        for s, _ in items[1:]:
            cons &= s.cons
        facts = {c: 0 for c in cons if N.symbols(c) <= stable} if keep else {}
        anchors = {'LEN', 'LAST'} | (stable if len(stable) <= 8 else set())
        for _, es in bases:
            for e in es:
                anchors |= N.symbols(e) & stable
        for key, v in vals.items():
            if v[0] in ('L', 'P'):
                a = vsyms(v)
                if any(x.startswith('?') for x in a):
                    anchors |= a & stable
        anchors = sorted(anchors)[:10]
        terms = [(N.const(0), [N.const(0)] * len(items))] + \
            [(N.sym(a), [N.sym(a)] * len(items)) for a in anchors]
        weak = set()
        for bn, es in bases:
            if any(self.is_weak(e) for e in es):
                weak.add(bn)
        old = prev[1] if prev else {}
        tried = prev[6] if prev else ()
        ends = [(N.sym(x), [N.sym(x)] * len(items)) for x in ('LEN', 'LAST')]
        for t, es in derived:
            for te, tes in terms[:1] + ends:
                for sg in (1, -1):
                    form = N.scale(N.sub(t, te), sg)
                    lo = [N.minimum(s.cons, N.scale(N.sub(e, o), sg)) for (s, _), e, o in zip(items, es, tes)]
                    if any(m in ('-inf', None) for m in lo):
                        continue
                    lo = min(lo)
                    if t in tried:
                        was = old.get(('F', form))
                        if was is None or (lo < was and rnd >= 7):
                            continue
                        lo = min(lo, was)
                    facts[('F', form)] = lo
        for j, (bn, es) in enumerate(bases):
            for te, tes in terms + [(N.sym(o), oes) for o, oes in bases[:j]]:
                for sg in (1, -1):
                    lo = None
                    for (s, _), e, o in zip(items, es, tes):
                        m = N.minimum(s.cons, N.scale(N.sub(e, o), sg))
                        if m == '-inf' or m is None:
                            lo = '-inf'
                            break
                        lo = m if lo is None else min(lo, m)
                    if lo == '-inf':
                        continue
                    form = N.scale(N.sub(N.sym(bn), te), sg)
                    known = prev is not None and bn in prev[6] and \
                        N.symbols(te) <= prev[6]
                    if known:
                        was = old.get(('F', form))
                        if was is None:
                            continue
                        if lo < was and rnd >= 2:
                            th = [x for x in (self.thresholds() if rnd < 7 else (1, 0, -1)) if x <= lo]
                            if not th:
                                continue
                            lo = th[0]
                        lo = min(lo, was)
                    facts[('F', form)] = lo
        # byte classes at the new positions
        for key, v in vals.items():
            if v[0] != 'P' or v[1] not in ('in', 'tok'):
                continue
            for d in (-1, 0, 1):
                locs = []
                m = 0
                for s, x in items:
                    p = x[key][2]
                    if v[1] == 'in':
                        loc = ('in', N.shift(p, d))
                    else:
                        i = N.divide(N.shift(p, -(p[0] % self.enum['size'])), self.enum['size'])
                        loc = ('tok', N.shift(i, d), 'type')
                    m |= self.mask(s, loc)
                if v[1] == 'in':
                    loc = ('in', N.shift(v[2], d))
                else:
                    i = N.divide(N.shift(v[2], -(v[2][0] % self.enum['size'])), self.enum['size'])
                    loc = ('tok', N.shift(i, d), 'type')
                if m != self.full(loc):
                    masks[loc] = m
        for loc, m in items[0][0].masks.items():
            if loc[0] != 'j' and not N.symbols(loc[1]) <= stable:
                continue
            for s, _ in items[1:]:
                m |= self.mask(s, loc)
            if m != self.full(loc):
                masks[loc] = m & masks.get(loc, m)
        assumed = dict(items[0][0].assumed)
        for s, _ in items[1:]:
            assumed = {c: x for c, x in assumed.items() if s.assumed.get(c) == x}
        taint = 0
        for s, _ in items:
            taint |= s.taint
        return (vals, facts, masks, assumed, taint, frozenset(weak), frozenset(b for b, _ in bases) | frozenset(anchors) | frozenset(t for t, _ in derived))

    def instantiate(self, shape, entry=None, mapping=None, base=None):
        """state with new symbols for the generalised values"""
        vals, facts, masks, assumed, taint, weak, _ = shape
        ren = dict(mapping or {})
        st = base.copy() if base is not None else State()
        fresh = {}

        def rn(e):
            out = N.const(e[0])
            for s, k in e[1]:
                if s.startswith('?'):
                    if s not in fresh:
                        fresh[s] = self.fresh(s in weak)
                    t = N.sym(fresh[s])
                else:
                    t = ren.get(s, N.sym(s))
                out = N.add(out, N.scale(t, k))
            return out

        def rl(loc):
            return loc if loc[0] == 'j' else (loc[0], rn(loc[1])) + tuple(loc[2:])
        js = {}
        newvals = {}
        for key in sorted(vals, key=self.rank):
            v = vals[key]
            if v[0] == 'L':
                nv = ('L', rn(v[1]), v[2])
            elif v[0] == 'P':
                nv = ('P', v[1], rn(v[2]))
            elif v[0] == 'B':
                nv = ('B', rl(v[1]), v[2], v[3])
            elif v[0] == 'J':
                loc = ('j', self.fresh())
                js[loc] = v[2]
                nv = ('B', loc, tuple(range(256)), v[3])
            elif v[0] == 'X':
                nv = self.opaque(bits=v[2])
            else:
                nv = v
            newvals[key] = nv
        cons = set(st.cons)
        for c, lo in facts.items():
            if c[0] == 'F':
                cons.add(N.norm(N.shift(rn(c[1]), -lo)))
            else:
                cons.add(N.norm(rn(c)))
        st.cons = frozenset(c for c in cons if c[1])
        for loc, m in masks.items():
            loc = rl(loc)
            st.masks[loc] = m & st.masks.get(loc, m)
        st.masks.update(js)
        if base is None:
            st.assumed = dict(assumed)
        st.taint |= taint
        if base is None:
            for key, v in newvals.items():
                if key[0] == 'v':
                    st.env[key[1]] = v
                elif key[0] == 'm':
                    st.mem[(key[1], key[2])] = (v, key[3])
            return st
        return st, newvals

    def rank(self, x):
        """sort key that does not depend on where things lie in memory"""
        if isinstance(x, tuple):
            return '(' + ','.join(self.rank(y) for y in x) + ')'
        if isinstance(x, int) and x in self.ordinal:
            return '#%06d' % self.ordinal[x]
        return repr(x)

    def thresholds(self):
        """bounds worth trying: the constants the program compares with"""
        if self.consts is None:
            cs = {0, 1}
            for f in self.cache.values():
                for b in f.blocks:
                    for n in f.code[b]:
                        if n.op != 'icmp':
                            continue
                        src = [f.where[o].op for o in n.ops if o in f.where]
                        if any(x in ('zext', 'sext', 'trunc', 'call', 'and') for x in src):
                            continue
                        for o in n.ops:
                            if L.is_const_int(o) and not ('load' in src and abs(L.const_sext(o)) < 8):
                                cs.add(L.const_sext(o))
            self.consts = sorted({x for c in cs for x in (c - 1, c, c + 1, -c, 1 - c, -1 - c)}, reverse=True)
        return self.consts

    # -------------------------------------------------------------- loop obligations
    def blocked(self, st):
        """the path may be impossible; where RELAX, what flags rule out is not counted"""
        return st.taint & (1 if self.RELAX else 3)

    def relevant(self, h):
        """header phis that can influence a branch or a memory access address of the loop"""
        body = self.fn.loops[h]
        todo = []
        for b in body:
            t = self.fn.code[b][-1]
            if t.op == 'br' and len(t.ops) == 3:
                todo.append(L.condition(t.i))
            elif t.op == 'switch':
                todo.append(t.ops[0])
        seen, out = set(), set()
        while todo:
            v = todo.pop()
            n = self.fn.where.get(v)
            if v in seen or n is None or n.block not in body:
                continue
            seen.add(v)
            if n.op == 'phi':
                if n.block == h:
                    out.add(v)
                for k in range(L.count_incoming(v)):
                    todo.append(L.incoming_value(v, k))
                # control decides the phi; its conditions are already included
            else:
                todo += n.ops
        return out

    def iteration(self, h, head, back, base):
        """a path once around the loop that changes nothing the loop looks at never ends"""
        rel = self.relevant(h)
        self.around(h, head, back)
        for v in rel:
            a, b = self.simplify(back, head.env.get(v, self.opaque())), self.simplify(back, back.env[v])
            if not self.same(back, a, b):
                return
        for k in back.reads:
            v, w = head.mem.get(k), back.mem.get(k)
            if v is None and w is None and head.rv.get(k[0]) == back.rv.get(k[0]):
                continue
            if v is None or w is None or not self.same(back, v[0], w[0]):
                return
        if back.unknown or (back.ver != head.ver):
            return
        if not all(self.determined(c, base) for c in back.conds):
            return
        n = self.fn.code[h][-1]
        if self.blocked(back) and not self.scan:
            self.note('progress', 'note', 'an iteration may leave the loop state unchanged', n)
            return
        self.note('progress', 'bad', 'an iteration can leave everything the loop depends on unchanged: '
                  'the loop never ends', n)

    def around(self, h, head, back):
        pass

    def tokens(self, v, depth=0):
        """places in tokens the value was computed from"""
        if not isinstance(v, tuple) or depth > 30:
            return set()
        if v[:1] == ('B',) and v[1][0] == 'tok':
            return {v[1]}
        if v[:1] == ('U',):
            return self.tokens(self.info[v[1]], depth + 1)
        return {y for x in v for y in self.tokens(x, depth + 1)}

    def passed(self, s, rv=None):
        pass

    def looked(self, s):
        """tokens something is known about have been looked at before"""
        s.reads |= {('content', l[1]) for l, m in s.masks.items() if l[0] == 'tok' and m != self.full(l)}

    def same(self, st, a, b):
        if a == b:
            return True
        ea = a[1] if a[0] == 'L' else a[2] if a[0] == 'P' else None
        eb = b[1] if b[0] == 'L' else b[2] if b[0] == 'P' else None
        if ea is None or eb is None or a[0] != b[0] or (a[0] == 'P' and a[1] != b[1]):
            return False
        d = N.sub(ea, eb)
        return self.ge(st, d) and self.ge(st, N.scale(d, -1))

    def progress(self, h, head, backs):
        n = self.fn.code[h][-1]
        if not backs:
            return
        hv = self.flat(head)
        proven = False
        for key, v in hv.items():
            e0 = v[1] if v[0] == 'L' else v[2] if v[0] == 'P' else None
            if e0 is None:
                continue
            es = []
            for s in backs:
                w = self.flat(s).get(key)
                if w is None or w[0] != v[0] or (w[0] == 'P' and w[1] != v[1]):
                    break
                es.append((s, w[1] if w[0] == 'L' else w[2]))
            if len(es) != len(backs):
                continue
            for sg in (1, -1):
                if all(self.ge(s, N.shift(N.scale(N.sub(e, e0), sg), -1)) for s, e in es):
                    # bounded in the direction of travel at the header
                    if any(all(self.bounded(s, e, sg, a) for s, e in es)
                           for a in (N.const(0), N.sym('LEN'), N.sym('LAST', self.enum.get('size', 1)))):
                        proven = True
        if proven:
            self.note('progress', 'ok', '', n)
        elif not any(f[0] == 'progress' and f[1] == 'bad' and f[4] == self.fn.name for f in self.findings):
            self.note('progress', 'note', 'progress of the loop not shown', n)

    def bounded(self, s, e, sg, anchor):
        return N.minimum(s.cons, N.scale(N.sub(anchor, e), sg)) not in ('-inf', None)

    # -------------------------------------------------------------- calls
    def call(self, n, st):
        f = L.called_value(n.i)
        nm = L.name(f) if f and L.is_function(f) else ''
        na = L.num_args(n.i)
        args = [self.val(st, L.operand(n.i, k)) for k in range(na)]
        for a in args:
            if a[0] == 'P' and a[1] == 'tok':
                st.reads |= {('content', self.token(a[2]))}
                if a[2][0] % self.enum['size'] or not nm or nm not in self.summ:
                    st.reads |= {('escape', self.token(a[2]))}
            else:
                st.reads |= {('escape', x[1]) for x in self.tokens(a)}
        r = self.model(n, st, nm, args)
        if r is not NotImplemented:
            return r
        if nm in self.summ:
            return self.summary(n, st, nm, args)
        st.unknown += 1
        self.bump(st)
        for a in args:
            if a[0] == 'P' and a[1] not in ('in', 'tok', 'null', 'str', 'alg'):
                self.kill(st, a[1], N.const(0), None)
        if n.kind != 'void':
            st.env[n.i] = self.opaque()
        return None

    def model(self, n, st, nm, args):
        e = st.env
        if nm.startswith('llvm.'):
            if nm.startswith('llvm.memcpy') or nm.startswith('llvm.memmove'):
                self.memcpy(n, st, args)
            elif nm.startswith('llvm.memset'):
                if args[0][0] == 'P':
                    self.kill(st, args[0][1], N.const(0), None)
                else:
                    self.bump(st)
            elif nm.startswith('llvm.lifetime'):
                if nm.startswith('llvm.lifetime.start') and args[1][0] == 'P':
                    self.kill(st, args[1][1], N.const(0), None)
            elif n.kind != 'void':
                if nm.startswith('llvm.expect'):
                    e[n.i] = args[0]
                elif nm.startswith('llvm.ctpop'):
                    b = self.bits(st, args[0])
                    if args[0][0] == 'B':
                        e[n.i] = self.table(args[0], lambda x: bin(x).count('1'), n.width)
                        return None
                    if b == 0:
                        e[n.i] = lit(0, n.width)
                        return None
                    e[n.i] = self.opaque(nm, *args, bits=None if b is None else 63 if bin(b).count('1') > 31 else 31)
                elif nm[5:9] in ('umin', 'umax', 'smin', 'smax') and args[0][0] == 'L' and args[1][0] == 'L':
                    c = self.compare(st, 'ult' if nm[5] == 'u' else 'slt', args[0], args[1])
                    out = []
                    for want in (True, False):
                        for x in self.branch(st.copy(), c, want):
                            x.env[n.i] = args[0 if want == ('min' in nm) else 1]
                            out.append(x)
                    return out
                else:
                    e[n.i] = self.opaque(nm, *args)
            return None
        if nm in CTYPE and len(args) == 1:
            v = self.simplify(st, args[0])
            good = CTYPE[nm]
            if v[0] == 'B':
                e[n.i] = ('B', v[1], tuple(int(x in good) for x in v[2]), n.width)
            elif v[0] == 'L' and not v[1][1]:
                e[n.i] = lit(int(v[1][0] in good), n.width)
            else:
                e[n.i] = self.opaque(nm, v)
            return None
        if nm in ('tolower', 'toupper') and args[0][0] == 'B':
            v = args[0]
            d = (65, 90, 32) if nm == 'tolower' else (97, 122, -32)
            e[n.i] = ('B', v[1], tuple(x + d[2] if d[0] <= x <= d[1] else x for x in v[2]), v[3])
            return None
        if nm in ('strtof', 'strtod', 'strtold'):
            return self.strto(n, st, args, '.')
        if nm in ('strtol', 'strtoul', 'strtoll', 'strtoull'):
            return self.strto(n, st, args[:2], '')
        if nm in ('memcpy', 'memmove'):
            self.memcpy(n, st, args)
            if n.kind != 'void':
                e[n.i] = args[0]
            return None
        if nm == 'strlen' and args[0][0] == 'P':
            z = self.terminator(st, args[0][1], args[0][2])
            if z is not None:
                s = N.sym(self.fresh(True))
                self.assume(st, s)
                self.assume(st, N.sub(N.sub(z, args[0][2]), s))
                e[n.i] = ('L', s, 64)
                return None
        return self.extern(n, st, nm, args)

    def extern(self, n, st, nm, args):
        return NotImplemented

    def memcpy(self, n, st, args):
        d, s, k = args[0], args[1], self.simplify(st, args[2])
        size = k[1] if k[0] == 'L' else None
        if d[0] != 'P' or d[1] in ('in', 'tok'):
            self.bump(st)
            return
        if size is not None and not size[1]:
            c = size[0]
            if c == 0:
                return
            self.bounds(st, d[1], d[2], c, n, True)
            if s[0] == 'P':
                self.bounds(st, s[1], s[2], c if s[1] != 'tok' else 1, n, False)
            new = []
            if s[0] == 'P' and s[1] == 'tok' and c == self.enum.get('size'):
                for off, m, w in ((self.enum['type'], self.enum['type_size'], 8 * self.enum['type_size']), (0, 1, 8)):
                    new.append((off, self.load(st, ('P', 'tok', N.shift(s[2], off)), m, w, n), m))
            elif s[0] == 'P':
                for (r, o), (v, m) in st.mem.items():
                    if r == s[1]:
                        x = N.sub(o, s[2])
                        if not x[1] and 0 <= x[0] and x[0] + m <= c:
                            new.append((x[0], v, m))
            self.kill(st, d[1], d[2], c)
            for off, v, m in new:
                st.mem[(d[1], N.shift(d[2], off))] = (v, m)
            return
        if size is not None and d[1] in self.sizes:
            # the last byte written
            self.bounds(st, d[1], N.shift(N.add(d[2], size), -1), 1, n, True)
        self.kill(st, d[1], N.const(0), None)

    def terminator(self, st, region, off):
        if region == 'in':
            return N.sym('LEN')
        for (r, o), (v, m) in st.mem.items():
            if r == region and m == 1 and self.simplify(st, v) == lit(0, 8) and self.ge(st, N.sub(o, off)):
                return o
        return None

    def strto(self, n, st, args, dot):
        """text to number: the end pointer is inside the text, past the start when it begins with a digit"""
        p, endp = args[0], args[1]
        if p[0] != 'P':
            if endp[0] == 'P':
                self.kill(st, endp[1], N.const(0), None)
            if n.kind != 'void':
                st.env[n.i] = self.opaque()
            return None
        z = self.terminator(st, p[1], p[2])
        if z is None:
            if p[1] in self.sizes and not st.taint and not any(
                    r == p[1] and (v[0] != 'B' or 0 in self.bvalues(st, v)) and not (v[0] == 'L' and v[1] != N.const(0))
                    for (r, o), (v, m) in st.mem.items()):
                self.note('bounds', 'bad', 'the text handed to %s is not terminated' % 'strtof', n)
            else:
                self.note('bounds', 'note', 'the text handed to strtof is not shown to be terminated', n)
        else:
            self.note('bounds', 'ok', '', n)
        out = []

        def finish(x, lo, hi, taint=False):
            x = x.copy()
            x.taint |= taint
            if hi is not None:
                k = N.const(hi)
            else:
                k = N.sym(self.fresh())
                if not self.assume(x, N.shift(k, -lo)):
                    return
                if z is not None and not self.assume(x, N.sub(N.sub(z, p[2]), k)):
                    return
            if endp[0] == 'P' and endp[1] != 'null':
                self.kill(x, endp[1], endp[2], 8)
                x.mem[(endp[1], endp[2])] = (('P', p[1], N.add(p[2], k)), 8)
            elif endp[0] != 'P':
                self.bump(x)
            x.env[n.i] = self.opaque()
            c = byte(st, 0)
            x.pushes += (('strto', c[1] if c is not None and c[0] == 'B' else None, k),)
            out.append(x)

        def byte(x, d):
            q = N.shift(p[2], d)
            if p[1] == 'in':
                if self.ge(x, N.sub(q, N.sym('LEN'))):
                    return lit(0, 8)
                return ('B', ('in', q), tuple(range(256)), 8)
            c = x.mem.get((p[1], q))
            return c[0] if c and c[1] == 1 else None

        def split(x, v, good):
            """states with the byte in the class, and outside"""
            if v is None:
                a, b = x.copy(), x.copy()
                a.taint |= 1
                b.taint |= 1
                return [a], [b]
            v = self.simplify(x, v)
            if v[0] == 'L' and not v[1][1]:
                return ([x], []) if v[1][0] & 255 in good else ([], [x])
            if v[0] == 'B':
                c = ('B', v[1], tuple(int(y & 255 in good) for y in v[2]), 1)
                return self.branch(x.copy(), c, True), self.branch(x.copy(), c, False)
            a, b = x.copy(), x.copy()
            a.taint |= 1
            b.taint |= 1
            return [a], [b]
        def exact(x):
            """a short text whose bytes are tracked: one state per length of the number"""
            d = None if z is None else N.sub(z, p[2])
            if d is None or d[1] or d[0] > 6:
                return False
            cells = [byte(x, k) for k in range(d[0])]
            odd = set(map(ord, 'eExXpP'))
            for c in cells:
                if c is None or c[0] not in 'BL' or (c[0] == 'L' and c[1][1]) or \
                        (self.bvalues(x, c) if c[0] == 'B' else {c[1][0] & 255}) & odd:
                    return False
            work = [(x, 0, bool(dot))]
            while work:
                s, k, point = work.pop()
                if k == d[0]:
                    finish(s, k, k)
                    continue
                yes, no = split(s, cells[k], digits)
                work += [(y, k + 1, point) for y in yes]
                for y in no:
                    y2, n2 = split(y, cells[k], {46} if point else set())
                    work += [(w, k + 1, False) for w in y2]
                    for w in n2:
                        finish(w, k, k)
            return True

        digits = CTYPE['isdigit']
        yes, no = split(st, byte(st, 0), digits)
        for x in yes:
            if not exact(x):
                finish(x, 1, None)
        for x in no:
            y2, n2 = split(x, byte(x, 0), set(map(ord, '.+-iInN \t\n\v\f\r')))
            for y in n2:
                finish(y, 0, 0)
            for y in y2:
                d1, r1 = split(y, byte(y, 0), {46} if dot else set())
                for u in d1:
                    y3, n3 = split(u, byte(u, 1), digits)
                    for w in y3:
                        finish(w, 2, None)
                    for w in n3:
                        finish(w, 0, 0)
                for u in r1:
                    finish(u, 0, 0, True)
                    finish(u, 1, None, True)
        return out

    # -------------------------------------------------------------- function summaries
    def reach(self, st, args):
        order, todo = [], [a for a in args]
        while todo:
            a = todo.pop(0)
            if a[0] == 'P' and isinstance(a[1], tuple) and a[1][0] != 'g' and a[1] not in order:
                order.append(a[1])
                todo += [v for (r, o), (v, n) in sorted(st.mem.items(), key=self.rank) if r == a[1]]
        return order

    def rename(self, v, order, new):
        if v[0] == 'P' and v[1] in order:
            return ('P', new[order.index(v[1])], v[2])
        return v

    def summary(self, n, st, nm, args):
        order = self.reach(st, args)
        new = [('o', nm, k) for k in range(len(order))]
        ctx = {}
        for k, a in enumerate(args):
            ctx[('a', k)] = self.rename(a, order, new)
        for (r, o), (v, m) in st.mem.items():
            if r in order and not o[1]:
                ctx[('m', new[order.index(r)], o, m)] = self.rename(v, order, new)
        sm = self.summ[nm]
        sm['calls'].append((self.fn.name, self.fn.line(n), st.copy(), ctx, self.pre))
        if sm['post'] is None:
            return []
        pre = sm['preinst']
        mapping = {}
        for key, v in pre.items():
            w = ctx.get(key)
            if w is None:
                continue
            ev = v[1] if v[0] == 'L' else v[2] if v[0] == 'P' else None
            ew = w[1] if w[0] == 'L' else w[2] if w[0] == 'P' else None
            if ev is not None and ew is not None:
                self.solve(ev, ew, mapping)
        st2, vals = self.instantiate(sm['post'], mapping=mapping, base=st)
        for key in [k for k in st2.mem if k[0] in order]:
            del st2.mem[key]
        for key, v in vals.items():
            w = self.rename(v, new, order)
            if key[0] == 'm' and key[1] in new:
                st2.mem[(order[new.index(key[1])], key[2])] = (w, key[3])
            elif key[0] == 'ret':
                st2.env[n.i] = w
        if n.kind != 'void' and n.i not in st2.env:
            st2.env[n.i] = self.opaque()
        self.bump(st2)
        return [st2]

    @staticmethod
    def solve(ev, ew, mapping):
        """bind the single symbol of a parameter expression k*s + c to the argument"""
        free = [(s, k) for s, k in ev[1] if s not in mapping and s.startswith('p')]
        if len(free) == 1:
            s, k = free[0]
            rest = (ev[0], tuple(x for x in ev[1] if x[0] != s))
            known = N.const(rest[0])
            for t, c in rest[1]:
                known = N.add(known, N.scale(mapping.get(t, N.sym(t)), c))
            e = N.divide(N.sub(ew, known), k)
            if e is not None:
                mapping[s] = e

    def run_function(self, nm, st):
        self.fn = self.func(nm)
        self.steps = 0
        if self.fn.irreducible:
            raise GiveUp('irreducible control flow')
        _, _, rets = self.walk([(self.fn.entry, None, st)])
        return rets

    def solve_program(self, root, state, args, recursive):
        """analyse root and the summarised functions it reaches until nothing changes"""
        for f in recursive:
            self.func(f)
            self.summ[f] = dict(pre=None, post=None, calls=[], names={}, pnames={}, cnames={}, preinst={}, rnd=0, prnd=0)
        glob = {'LEN', 'LAST'}
        for turn in range(150):
            for f in recursive:
                self.summ[f]['calls'] = []
            del self.findings[:]
            changed = stale = False
            self.pre = None
            st = state.copy()
            self.fn = self.func(root)
            for p, a in zip(self.fn.params, args):
                st.env[p] = a
            self.rets = self.run_function(root, st)
            for f in recursive:
                sm = self.summ[f]
                if sm['pre'] is None:
                    continue
                g, vals = self.instantiate(sm['pre'], mapping={}, base=State())
                # parameters are named so that callers can bind them
                ren = {}
                for s in {x for v in vals.values() for x in vsyms(v)} - glob:
                    ren[s] = 'p' + s
                    if s in self.weak:
                        self.weak.add('p' + s)
                vals = {k: self.resym(v, ren) for k, v in vals.items()}
                g.cons = frozenset(self.reexpr(c, ren) for c in g.cons)
                g.masks = {((l[0], self.reexpr(l[1], ren)) + tuple(l[2:]) if l[0] != 'j' else l): m
                           for l, m in g.masks.items()}
                g.taint = sm['pre'][4]
                sm['preinst'] = vals
                self.fn = self.func(f)
                for k, p in enumerate(self.fn.params):
                    g.env[p] = vals.get(('a', k), self.opaque())
                for key, v in vals.items():
                    if key[0] == 'm':
                        g.mem[(key[1], key[2])] = (v, key[3])
                self.looked(g)
                self.pre = (f, vals, g.copy())
                regs = {k[1] for k in vals if k[0] == 'm'} | {v[1] for v in vals.values() if v[0] == 'P'}
                rets = self.run_function(f, g)
                for s, rv, n in rets:
                    self.passed(s, rv)
                items = []
                for s, rv, _ in rets:
                    d = {('m', r, o, m): v for (r, o), (v, m) in s.mem.items() if r in regs and not o[1]}
                    if rv is not None:
                        d[('ret',)] = rv
                    items.append((s, d))
                stable = glob | {x for v in vals.values() for x in vsyms(v)}
                if items:
                    # binding symbols differ between turns: name them by parameter
                    canon = {}
                    for key in sorted(vals, key=self.rank):
                        for j, x in enumerate(sorted(vsyms(vals[key]) - glob)):
                            canon.setdefault(x, 'p:%d' % sm['cnames'].setdefault((key, j), len(sm['cnames'])))
                    items = [(self.restate(s, canon), {k: self.resym(v, canon) for k, v in d.items()})
                             for s, d in items]
                    stable = glob | set(canon.values())
                    sm['preinst'] = {k: self.resym(v, canon) for k, v in vals.items()}
                    for x in canon:
                        if x in self.weak:
                            self.weak.add(canon[x])
                    post = self.join(items, stable, sm['pnames'], sm['post'], sm['prnd'], keep=False)
                    if post != sm['post']:
                        sm['prnd'] += 1
                        sm['post'] = post
                        changed = True
            for f in recursive:
                sm = self.summ[f]
                if not sm['calls']:
                    continue
                items = [(s, ctx) for _, _, s, ctx, _ in sm['calls']]
                pre = self.join(items, glob, sm['names'], sm['pre'], sm['rnd'], mono=True)
                if pre != sm['pre']:
                    # results found for an argument that was constant do not relate to it: start over
                    stale |= sm['pre'] is not None and self.unknowns(pre) != self.unknowns(sm['pre'])
                    sm['rnd'] += 1
                    sm['pre'] = pre
                    changed = True
            if stale:
                for f in recursive:
                    self.summ[f].update(post=None, prnd=0)
            if not changed:
                return self.rets
        raise GiveUp('the function summaries do not settle')

    @staticmethod
    def unknowns(shape):
        return {x for v in shape[0].values() for x in vsyms(v) if x.startswith('?')}

    def reexpr(self, e, ren):
        return (e[0], tuple(sorted((ren.get(s, s), k) for s, k in e[1])))

    def resym(self, v, ren):
        if v[0] == 'L':
            return ('L', self.reexpr(v[1], ren), v[2])
        if v[0] == 'P':
            return ('P', v[1], self.reexpr(v[2], ren))
        if v[0] == 'B' and v[1][0] != 'j':
            return ('B', (v[1][0], self.reexpr(v[1][1], ren)) + tuple(v[1][2:]), v[2], v[3])
        return v

    def restate(self, s, ren):
        s = s.copy()
        s.cons = frozenset(self.reexpr(c, ren) for c in s.cons)
        s.masks = {((l[0], self.reexpr(l[1], ren)) + tuple(l[2:]) if l[0] != 'j' else l): m for l, m in s.masks.items()}
        return s
