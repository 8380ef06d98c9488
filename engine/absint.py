"""Forward dataflow over LLVM SSA form in the algebraic value domain (alg.py).

One pass over the control-flow graph in topological order.  Joins are gated:
a phi becomes the sum of its incoming abstract values weighted with the 0/1
predicate of the edge, so no path is ever enumerated.  Natural loops are
summarised once: header phis that advance by a loop-invariant step become
affine functions of the iteration number, all other loop-carried values become
opaque symbols, and the memory effects of one symbolic iteration are recorded
together with the iteration range in which they happen.
"""
import struct
from fractions import Fraction
import llvm as L
from alg import sing_union, sing_gate, Ctx, Rat, Unsupported, BITS, MASK

UNDEF = ('U',)
IGNORED_CALLS = ('llvm.dbg.', 'llvm.lifetime.', 'llvm.experimental.noalias', 'llvm.assume',
                 'llvm.annotation', 'llvm.var.annotation', 'llvm.donothing', 'llvm.invariant')
MATH = {'sin': 1, 'cos': 1, 'tan': 1, 'acos': 1, 'asin': 1, 'atan': 1, 'atan2': 2, 'exp': 1, 'log': 1,
        'sqrt': 1, 'fabs': 1, 'copysign': 2, 'pow': 2, 'hypot': 2, 'fmod': 2, 'floor': 1, 'ceil': 1,
        'round': 1, 'trunc': 1, 'fmin': 2, 'fmax': 2, 'cbrt': 1, 'sinh': 1, 'cosh': 1, 'tanh': 1,
        'exp2': 1, 'log2': 1, 'log10': 1, 'fma': 3, 'rint': 1, 'nearbyint': 1}


def unknown(why):
    return ('?', why)


class Store:
    __slots__ = ('obj', 'off', 'word', 'size', 'cond', 'inst', 'loop', 'order', 'align')

    def __init__(self, obj, off, word, size, cond, inst, loop, order, align):
        self.obj, self.off, self.word, self.size = obj, off, word, size
        self.cond, self.inst, self.loop, self.order, self.align = cond, inst, loop, order, align


class LoopInfo:
    def __init__(self, name):
        self.name = name
        self.k = None
        self.kvar = None
        self.guard = None
        self.exits = []       # (block, rel cond Rat, kstar Rat or None)
        self.kstar = None
        self.exit_atoms = None
        self.carried = []


class Mem:
    """{obj: {offset key: (offset Rat, word, size, inst)}} plus loop-havoced objects"""

    def __init__(self):
        self.cells = {}
        self.havoc = {}

    def copy(self):
        m = Mem()
        m.cells = {o: dict(c) for o, c in self.cells.items()}
        m.havoc = dict(self.havoc)
        return m


def okey(off):
    return frozenset(off.num.items())


def off_const(off):
    """integer value if the offset is constant, else None"""
    if off.den:
        return None
    if not off.num:
        return 0
    if len(off.num) == 1 and 0 in off.num:
        return int(off.num[0])
    return None


class Analyzer:
    def __init__(self, module, func, ctx=None, init=None):
        self.mod = module
        self.f = func
        self.ctx = ctx or Ctx()
        self.init = init or (lambda obj, off: None)
        self.vals = {}
        self.events = []        # ('call'|'global-load'|'global-store'|..., detail, inst)
        self.stores = []        # Store
        self.loads = []         # (obj, off, size, align, inst)
        self.loops = []
        self.order = 0
        self.curloop = None
        self.ret = None
        self.alias_conflicts = []
        self.def_inst = {}
        self.width_of_word = 4
        self.alloca_n = 0
        self.ginit = {}

    # ------------------------------------------------------------- words
    def F(self, r):
        return ('F', r)

    def cf(self, x):
        return ('F', self.ctx.const(x))

    def toF(self, w):
        t = w[0]
        if t in ('F', 'D'):
            return w[1]
        if t == 'C':
            v = w[1] & 0xffffffff
            if v & 0x7fffffff == 0:
                return self.ctx.zero
            x = struct.unpack('<f', struct.pack('<I', v))[0]
            if x != x or x in (float('inf'), float('-inf')):
                raise NonFinite('the constant 0x%08x' % v)
            return self.ctx.const(x)
        if t == 'S':
            # +-0
            return self.ctx.zero
        if t == 'U':
            raise UndefUse()
        if t == 'N':
            raise NonFinite(w[1])
        if t == '?':
            raise Unsupported(w[1])
        raise Unsupported('word %s used as float' % t)

    def toI(self, w):
        t = w[0]
        if t == 'I':
            return w[1]
        if t == 'C':
            v = w[1]
            return self.ctx.const(v)
        if t == 'B':
            return w[1]
        if t == 'M':
            return -w[1]
        if t == 'U':
            raise UndefUse()
        if t == '?':
            raise Unsupported(w[1])
        raise Unsupported('word %s used as integer' % t)

    def toB(self, w):
        t = w[0]
        if t == 'B':
            return w[1]
        if t == 'C':
            return self.ctx.one if w[1] & 1 else self.ctx.zero
        if t == 'I':
            return w[1]
        if t == 'U':
            raise UndefUse()
        if t == '?':
            raise Unsupported(w[1])
        raise Unsupported('word %s used as predicate' % t)

    def asM(self, w):
        """word as a lane mask predicate, or None"""
        if w[0] == 'M':
            return w[1]
        if w[0] == 'C':
            v = w[1] & 0xffffffff
            if v == 0:
                return self.ctx.zero
            if v == 0xffffffff:
                return self.ctx.one
        if w[0] == 'F' and w[1].is_const() and w[1].const_value() == 0:
            return self.ctx.zero
        return None

    def bits_const(self, w):
        if w[0] == 'C':
            return w[1] & 0xffffffff
        if w[0] == 'F' and w[1].is_const():
            return struct.unpack('<I', struct.pack('<f', float(w[1].const_value())))[0]
        return None

    def asS(self, w):
        """word as a sign bit, sigma in {+1,-1}, or None"""
        c = self.ctx
        if w[0] == 'S':
            return w[1]
        b = self.bits_const(w)
        if b == 0:
            return c.one
        if b == 0x80000000:
            return c.const(-1)
        return None

    def w_and(self, a, b):
        c = self.ctx
        for x, y in ((a, b), (b, a)):
            cb = self.bits_const(x)
            if cb == 0:
                return ('C', 0)
            if cb == 0xffffffff:
                return y
        ca, cb = self.bits_const(a), self.bits_const(b)
        if ca is not None and cb is not None:
            return ('C', ca & cb)
        for x, y in ((a, b), (b, a)):
            if x[0] == 'U':
                return UNDEF
        if a[0] == 'M' and b[0] == 'M':
            return ('M', a[1] * b[1])
        for x, y in ((a, b), (b, a)):
            if x[0] == 'M' and x[1].is_const():
                return y if x[1].const_value() else ('C', 0)
        for x, y in ((a, b), (b, a)):
            if x[0] == 'M':
                if y[0] == 'F':
                    return ('F', x[1] * y[1])
                if y[0] == 'S':
                    return ('S', c.one + x[1] * (y[1] - c.one))
                yb = self.bits_const(y)
                if yb == 0x80000000:
                    return ('S', c.one - x[1] - x[1])
                if yb is not None:
                    return ('F', x[1] * self.toF(y))
            xb = self.bits_const(x)
            if xb == 0x7fffffff:
                if y[0] == 'F':
                    return ('F', c.abs(y[1]))
                if y[0] == 'S':
                    return ('C', 0)
            if xb == 0x80000000:
                if y[0] == 'F':
                    return ('S', c.signum(y[1]))
                if y[0] == 'S':
                    return y
        if a[0] in 'BI' and b[0] in 'BIC' or b[0] in 'BI' and a[0] in 'BIC':
            return unknown('integer and')
        return unknown('bitwise and of %s and %s' % (a[0], b[0]))

    def w_or(self, a, b):
        c = self.ctx
        for x, y in ((a, b), (b, a)):
            if self.bits_const(x) == 0:
                return y
        ca, cb = self.bits_const(a), self.bits_const(b)
        if ca is not None and cb is not None:
            return ('C', ca | cb)
        if a[0] == 'U' or b[0] == 'U':
            return UNDEF
        ma, mb = self.asM(a), self.asM(b)
        if ma is not None and mb is not None:
            return ('M', ma + mb - ma * mb)
        if a[0] == 'F' and b[0] == 'F' and (a[1] * b[1]).is_zero():
            return ('F', a[1] + b[1])
        if a[0] == 'S' and b[0] == 'S':
            # -1 if either is -1
            half = c.const(Fraction(1, 2))
            na, nb = (c.one - a[1]) * half, (c.one - b[1]) * half
            return ('S', c.one - (na + nb - na * nb) * c.const(2))
        for x, y in ((a, b), (b, a)):
            if x[0] == 'F':
                s = self.asS(y)
                if s is not None:
                    half = c.const(Fraction(1, 2))
                    ab = c.abs(x[1])
                    return ('F', x[1] * (c.one + s) * half - ab * (c.one - s) * half)
            if self.bits_const(x) is not None and y[0] == 'S':
                return ('F', self.toF(x) * y[1]) if not self.bits_const(x) & 0x80000000 else x
        return unknown('bitwise or of %s and %s' % (a[0], b[0]))

    def w_xor(self, a, b):
        c = self.ctx
        for x, y in ((a, b), (b, a)):
            if self.bits_const(x) == 0:
                return y
        ca, cb = self.bits_const(a), self.bits_const(b)
        if ca is not None and cb is not None:
            return ('C', ca ^ cb)
        if a[0] == 'U' or b[0] == 'U':
            return UNDEF
        ma, mb = self.asM(a), self.asM(b)
        if ma is not None and mb is not None:
            return ('M', ma + mb - ma * mb - ma * mb)
        sa, sb = self.asS(a), self.asS(b)
        if sa is not None and sb is not None:
            return ('S', sa * sb)
        for x, y in ((a, b), (b, a)):
            if x[0] == 'F':
                s = self.asS(y)
                if s is not None:
                    return ('F', x[1] * s)
            if self.bits_const(x) is not None and y[0] == 'S':
                return ('F', self.toF(x) * y[1])
        if a == b:
            return ('C', 0)
        return unknown('bitwise xor of %s and %s' % (a[0], b[0]))

    # ------------------------------------------------------------ constants
    def tyinfo(self, t):
        return L.kind(t)

    def undef_of(self, t):
        k = L.kind(t)
        if k == 'vector':
            return [UNDEF] * L.vector_size(t)
        if k == 'struct':
            return [self.undef_of(L.struct_type_at(t, i)) for i in range(L.struct_count(t))]
        if k == 'array':
            return [self.undef_of(L.element_type(t))] * L.array_length(t)
        return UNDEF

    def zero_of(self, t):
        k = L.kind(t)
        if k == 'vector':
            return [self.zero_of(L.element_type(t))] * L.vector_size(t)
        if k == 'struct':
            return [self.zero_of(L.struct_type_at(t, i)) for i in range(L.struct_count(t))]
        if k == 'array':
            return [self.zero_of(L.element_type(t))] * L.array_length(t)
        if k in ('float', 'double'):
            return self.cf(0)
        if k == 'ptr':
            return ('P', 'null', self.ctx.zero)
        if k == 'int':
            w = L.int_width(t)
            if w == 1:
                return ('B', self.ctx.zero)
            if w in (64, 128):
                return ('C', 0)
            return ('C', 0)
        raise Unsupported('zero of type ' + k)

    def const(self, v):
        t = L.typeof(v)
        k = L.kind(t)
        if L.is_undef(v) or L.is_poison(v):
            return self.undef_of(t)
        if L.is_null(v):
            return self.zero_of(t)
        if L.is_const_int(v):
            w = L.int_width(t)
            if w == 1:
                return ('B', self.ctx.one if L.const_zext(v) else self.ctx.zero)
            return ('C', L.const_sext(v))
        if L.is_const_fp(v):
            x = L.const_real(v, L.C.byref(L.C.c_int()))
            if x == 0 and struct.pack('<d', x)[7] & 0x80:
                return ('C', 0x80000000)
            if x != x or x in (float('inf'), float('-inf')):
                if k == 'float':
                    return ('C', struct.unpack('<I', struct.pack('<f', x))[0])
                return unknown('non-finite constant')
            return self.cf(x)
        if k in ('vector', 'array', 'struct'):
            n = {'vector': L.vector_size, 'array': L.array_length, 'struct': L.struct_count}[k](t)
            return [self.const(L.aggregate_element(v, i)) for i in range(n)]
        if L.is_global_var(v):
            return ('P', ('global', L.name(v), v), self.ctx.zero)
        if L.is_function(v):
            return ('P', ('function', L.name(v), v), self.ctx.zero)
        if L.is_const_expr(v):
            o = L.OPC.get(L.const_opcode(v))
            if o == 'gep':
                return self.gep(v)
            if o == 'bitcast':
                return self.val(L.operand(v, 0))
        raise Unsupported('constant ' + L.text(v)[:80])

    def val(self, v):
        r = self.vals.get(v)
        if r is not None:
            return r
        if L.is_constant(v):
            return self.const(v)
        if v in self.vals:
            return self.vals[v]
        raise Unsupported('value not available: ' + L.text(v)[:100])

    # ------------------------------------------------------------ memory
    def tysize(self, t):
        return L.abi_size(self.mod.td, t)

    def read_cell(self, mem, obj, off, size, inst):
        """abstract word of `size` bytes (4 unless scalar of another size) at obj+off"""
        cells = mem.cells.get(obj, {})
        key = okey(off)
        hit = cells.get(key)
        if hit is not None:
            o, w, sz, st = hit
            if sz == size:
                self.check_alias(st, inst)
                return w
            if size < sz and w[0] in ('C',) and w[1] == 0:
                return ('C', 0)
            return unknown('load of %d bytes from a %d byte cell' % (size, sz))
        # possible overlap with other stored cells of the object
        if cells:
            for o, w, sz, st in cells.values():
                d = off_const(off - o)
                if d is None:
                    return unknown('may-alias: load at %s after store at %s' % (off, o))
                if -size < d < sz:
                    return unknown('partially overlapping load and store')
        if obj in mem.havoc:
            return unknown('load from %s after a loop wrote it' % (obj,))
        if isinstance(obj, tuple) and obj[0] == 'alloca':
            return UNDEF
        if isinstance(obj, tuple) and obj[0] == 'global':
            g = obj[2]
            if not L.is_global_const(g):
                self.events.append(('global-load', obj[1], inst))
                return unknown('value of the mutable global ' + obj[1])
            flat = self.global_cells(obj)
            c = off_const(off)
            if c is None:
                return unknown('indexed load from constant table')
            w = flat.get((c, size))
            return w if w is not None else unknown('constant table layout')
        # loop-carried memory dependence inside the current loop
        if self.curloop is not None:
            why = self.loop_conflict(obj, off, size)
            if why:
                return unknown(why)
        w = self.init(obj, off, size)
        if w is None:
            return unknown('load from %s+%s (%d bytes) outside the described argument' % (obj, off, size))
        return w

    def loop_conflict(self, obj, off, size):
        lp = self.curloop
        for st in lp.pass1_stores:
            if st.obj != obj:
                continue
            k = lp.kvar
            # both affine in k: off = s*k + c
            s1, c1 = self.split_k(off, k)
            s2, c2 = self.split_k(st.off, k)
            if s1 is None or s2 is None:
                return 'loop access not affine in the iteration number'
            d = s1 - s2
            if not d.is_zero():
                return 'cross-iteration dependence through memory: load at %s, store at %s' % (off, st.off)
            c = off_const(c1 - c2)
            if c is None or not s1.is_const():
                return 'cross-iteration dependence cannot be excluded'
            s = abs(int(s1.const_value()))
            # collides with an EARLIER iteration m>=1: s1*k + c1 == s1*(k-m) + c2
            if s == 0:
                return 'every iteration stores to the same cell that is loaded'
            for delta in range(-(size - 1), st.size):
                # off - st.off' = s1*m + c1-c2 = delta' in (-size, st.size)
                num = delta - c
                sv = int(s1.const_value())
                if num % sv == 0 and num // sv >= 1:
                    return 'loop-carried dependence: iteration reads a cell an earlier iteration wrote (load at %s, store at %s)' % (off, st.off)
        return None

    def split_k(self, off, kvar):
        if off.den:
            return None, None
        s, c = {}, {}
        for m, co in off.num.items():
            e = (m >> (BITS * kvar)) & MASK
            if e == 0:
                c[m] = co
            elif e == 1:
                s[m - (1 << (BITS * kvar))] = co
            else:
                return None, None
        return Rat(self.ctx, s, {}), Rat(self.ctx, c, {})

    def global_cells(self, obj):
        r = self.ginit.get(obj)
        if r is None:
            r = {}
            init = L.initializer(obj[2])
            self._flatten(init, L.typeof(init), 0, r)
            self.ginit[obj] = r
        return r

    def _flatten(self, v, t, off, out):
        k = L.kind(t)
        if k in ('array', 'vector'):
            et = L.element_type(t)
            n = L.array_length(t) if k == 'array' else L.vector_size(t)
            sz = self.tysize(et)
            for i in range(n):
                self._flatten(L.aggregate_element(v, i), et, off + i * sz, out)
        elif k == 'struct':
            for i in range(L.struct_count(t)):
                self._flatten(L.aggregate_element(v, i), L.struct_type_at(t, i),
                              off + L.offset_of(self.mod.td, t, i), out)
        else:
            try:
                out[(off, self.tysize(t))] = self.const(v)
            except Unsupported:
                pass

    def check_alias(self, st_inst, ld_inst):
        """a load that reads what a store wrote must not be declared noalias to it"""
        if st_inst is None or ld_inst is None or not L.is_inst(st_inst):
            return
        m = self.mod
        try:
            ls, ln = set(L.scopes(ld_inst, m.kscope)), set(L.scopes(ld_inst, m.knoalias))
            ss, sn = set(L.scopes(st_inst, m.kscope)), set(L.scopes(st_inst, m.knoalias))
        except Exception:
            return
        if (ls and ls <= sn) or (ss and ss <= ln):
            self.alias_conflicts.append((st_inst, ld_inst))

    def write_cell(self, mem, obj, off, word, size, inst, cond, align):
        cells = mem.cells.setdefault(obj, {})
        key = okey(off)
        dead = []
        oc = off_const(off)
        for k2, (o, w, sz, st) in cells.items():
            if k2 == key:
                continue
            d = off_const(o) if oc is not None else None
            if d is not None:
                d = oc - d
                if d >= sz or d <= -size:
                    continue
            else:
                d = off_const(off - o)
            if d is None:
                cells[k2] = (o, unknown('may-alias store at %s' % off), sz, st)
            elif -sz < -d < size and d != 0 and -size < d < sz:
                dead.append(k2)
        for k2 in dead:
            del cells[k2]
        cells[key] = (off, word, size, inst)
        self.order += 1
        if isinstance(obj, tuple) and obj[0] == 'alloca':
            return
        if isinstance(obj, tuple) and obj[0] == 'global':
            self.events.append(('global-store', obj[1], inst))
        self.stores.append(Store(obj, off, word, size, cond, inst, self.curloop, self.order, align))

    def load_type(self, mem, p, t, inst, align):
        if p[0] != 'P':
            if p[0] == '?':
                raise Unsupported('load through unknown pointer: ' + p[1])
            raise Unsupported('load through non-pointer')
        obj, off = p[1], p[2]
        k = L.kind(t)
        size = self.tysize(t)
        self.loads.append((obj, off, size, align, inst))
        return self._load(mem, obj, off, t, inst)

    def _load(self, mem, obj, off, t, inst):
        k = L.kind(t)
        if k in ('vector', 'array'):
            et = L.element_type(t)
            n = L.vector_size(t) if k == 'vector' else L.array_length(t)
            sz = self.tysize(et)
            return [self._load(mem, obj, off + i * sz, et, inst) for i in range(n)]
        if k == 'struct':
            return [self._load(mem, obj, off + L.offset_of(self.mod.td, t, i), L.struct_type_at(t, i), inst)
                    for i in range(L.struct_count(t))]
        size = self.tysize(t)
        if k == 'int' and L.int_width(t) in (64, 128):
            cells = mem.cells.get(obj, {})
            hit = cells.get(okey(off))
            if hit is not None and hit[2] == size:
                self.check_alias(hit[3], inst)
                return hit[1]
            if hit is None and (not isinstance(obj, tuple) or obj[0] != 'alloca') and size == 8 \
                    and self.init(obj, off, 8) is not None and not cells:
                return self.init(obj, off, 8)
            return ('W', [self.read_cell(mem, obj, off + 4 * i, 4, inst) for i in range(size // 4)])
        w = self.read_cell(mem, obj, off, size, inst)
        if k == 'ptr' and w[0] not in ('P', 'U', '?'):
            return unknown('pointer read from data')
        if k == 'int' and L.int_width(t) == 1:
            return ('B', self.toB(w)) if w[0] in 'BCI' else w
        return w

    def store_type(self, mem, p, val, t, inst, cond, align):
        if p[0] != 'P':
            if p[0] == '?':
                raise Unsupported('store through unknown pointer: ' + p[1])
            raise Unsupported('store through non-pointer')
        self._store(mem, p[1], p[2], val, t, inst, cond, align)

    def _store(self, mem, obj, off, val, t, inst, cond, align):
        k = L.kind(t)
        if k in ('vector', 'array'):
            et = L.element_type(t)
            n = L.vector_size(t) if k == 'vector' else L.array_length(t)
            sz = self.tysize(et)
            for i in range(n):
                self._store(mem, obj, off + i * sz, val[i], et, inst, cond, align)
            return
        if k == 'struct':
            for i in range(L.struct_count(t)):
                self._store(mem, obj, off + L.offset_of(self.mod.td, t, i), val[i],
                            L.struct_type_at(t, i), inst, cond, align)
            return
        size = self.tysize(t)
        if val[0] == 'W':
            for i, w in enumerate(val[1]):
                self.write_cell(mem, obj, off + 4 * i, w, 4, inst, cond, align)
            return
        if k == 'int' and size == 8 and val[0] == 'C':
            v = val[1] & (2 ** 64 - 1)
            self.write_cell(mem, obj, off, ('C', v & 0xffffffff), 4, inst, cond, align)
            self.write_cell(mem, obj, off + 4, ('C', v >> 32), 4, inst, cond, align)
            return
        self.write_cell(mem, obj, off, val, size, inst, cond, align)

    # ------------------------------------------------------------ joins
    def rel(self, e, cond):
        """edge predicate relative to the block predicate"""
        c = self.ctx
        if cond.is_const() and cond.const_value() == 1:
            return e
        if e.equals(cond):
            return c.one
        if not e.den and not cond.den:
            q = c.pdiv_exact(e.num, cond.num)
            if q is not None:
                # the quotient must be a predicate again
                r = Rat(c, q, {})
                if (r * cond - e).is_zero() and (r * r - r).is_zero():
                    return r
        return e

    def join_words(self, parts, t):
        """parts: [(predicate Rat, word)] ; last one is the default"""
        first = parts[0][1]
        if all(w is first or self.same(w, first) for _, w in parts[1:]):
            if any(w[0] == 'F' and w[1].sing for _, w in parts):
                vs = [(e, self.toF(w)) for e, w in parts]
                r = vs[0][1]
                return ('F', Rat(r.ctx, r.num, r.den, self.join_sing(vs)))
            return first
        k = L.kind(t) if t is not None else 'float'
        live = [(e, w) for e, w in parts if not e.is_zero()]
        if len(live) == 1:
            return live[0][1]
        parts = live
        if any(w[0] == '?' for _, w in parts):
            return next(w for _, w in parts if w[0] == '?')
        # undefined on some path: the join is undefined unless all agree
        if any(w[0] == 'U' for _, w in parts):
            tag = {'float': 'F', 'double': 'F', 'int': 'I'}.get(k if t is not None else None)
            if tag == 'I' and L.int_width(t) == 1:
                tag = 'B'
            if tag is None or not {w[0] for _, w in parts} <= {'U', 'C', tag}:
                return UNDEF
            # a symbol that later path conditions may remove again
            u = (tag, self.ctx.sym('uninitialised', 'undef'))
            parts = [(e, u if w[0] == 'U' else w) for e, w in parts]
        kinds = {w[0] for _, w in parts}
        if 'W' in kinds:
            ws = [w[1] if w[0] == 'W' else None for _, w in parts]
            if any(x is None for x in ws):
                return unknown('mixed join')
            return ('W', [self.join_words([(e, w[1][i]) for e, w in parts], None)
                          for i in range(len(ws[0]))])
        if kinds == {'P'}:
            objs = {w[1] for _, w in parts}
            if len(objs) == 1:
                obj = objs.pop()
                return ('P', obj, self.lin(parts, lambda w: w[2]))
            return unknown('join of pointers to different objects')
        if 'P' in kinds:
            return unknown('join of pointers and integers')
        if kinds <= {'B'} or (k == 'int' and L.int_width(t) == 1 if t is not None else False):
            return ('B', self.lin(parts, self.toB))
        ms = [self.asM(w) for _, w in parts]
        if all(m is not None for m in ms) and 'M' in kinds:
            it = iter(ms)
            return ('M', self.lin([(e, m) for (e, _), m in zip(parts, ms)], lambda m: m))
        ss = [self.asS(w) for _, w in parts]
        if all(s is not None for s in ss):
            return ('S', self.lin([(e, s) for (e, _), s in zip(parts, ss)], lambda s: s))
        if k in ('float', 'double') or 'F' in kinds:
            return ('F', self.lin(parts, self.toF))
        if k == 'int':
            return ('I', self.lin(parts, self.toI))
        return unknown('join of %s' % sorted(kinds))

    def lin(self, parts, conv):
        vs = [(e, conv(w)) for e, w in parts]
        base = vs[-1][1]
        r = base
        for e, v in vs[:-1]:
            r = r + e * (v - base)
        if any(v.sing for _, v in vs):
            r = Rat(r.ctx, r.num, r.den, self.join_sing(vs))
        return r

    def join_sing(self, vs):
        """singularities of a join: those of each value where its path is taken"""
        out = None
        rest = self.ctx.one
        for e, v in vs[:-1]:
            out = sing_union(out, sing_gate(v.sing, e))
            rest = rest - e
        return sing_union(out, sing_gate(vs[-1][1].sing, rest.norm()))

    def same(self, a, b):
        if a[0] != b[0]:
            try:
                if a[0] in 'FC' and b[0] in 'FC':
                    ba, bb = self.bits_const(a), self.bits_const(b)
                    return ba is not None and ba == bb
            except Exception:
                pass
            return False
        if a[0] in ('F', 'I', 'M', 'S', 'B', 'D'):
            return a[1].num == b[1].num and a[1].den == b[1].den or (a[1] - b[1]).is_zero()
        if a[0] == 'P':
            return a[1] == b[1] and (a[2] - b[2]).is_zero()
        if a[0] == 'W':
            return len(a[1]) == len(b[1]) and all(self.same(x, y) for x, y in zip(a[1], b[1]))
        if a[0] == '?':
            return a[1] == b[1]
        return a == b

    def join_vals(self, parts, t):
        v0 = parts[0][1]
        if isinstance(v0, list):
            k = L.kind(t)
            if k == 'struct':
                ets = [L.struct_type_at(t, i) for i in range(L.struct_count(t))]
            else:
                ets = [L.element_type(t)] * len(v0)
            return [self.join_vals([(e, v[i]) for e, v in parts], ets[i]) for i in range(len(v0))]
        return self.join_words(parts, t)

    def join_mem(self, parts):
        if len(parts) == 1:
            return parts[0][1]
        out = Mem()
        objs = set()
        for _, m in parts:
            objs |= set(m.cells)
            for o, w in m.havoc.items():
                out.havoc[o] = w
        for o in objs:
            keys = {}
            for _, m in parts:
                for k2, cell in m.cells.get(o, {}).items():
                    keys.setdefault(k2, cell)
            d = {}
            for k2, (off, w, sz, st) in keys.items():
                ws = []
                for e, m in parts:
                    hit = m.cells.get(o, {}).get(k2)
                    if hit is None:
                        ws.append((e, self.read_cell(m, o, off, sz, None)))
                    else:
                        ws.append((e, hit[1] if hit[2] == sz else unknown('mixed size join')))
                d[k2] = (off, self.join_words(ws, None), sz, st)
            out.cells[o] = d
        return out

    # ------------------------------------------------------------ region driver
    def run(self, argvals):
        f = self.f
        for i in range(L.count_params(f)):
            self.vals[L.get_param(f, i)] = argvals[i]
        bl = list(L.blocks(f))
        self.succ = {b: L.succs(b) for b in bl}
        self.edges = {}         # block -> list of (pred, predicate, mem)
        entry = bl[0]
        self.block_cond = {}
        self.edges[entry] = [(None, self.ctx.one, Mem())]
        self.final = []
        self.region(set(bl), entry, None)
        if not self.final:
            raise Unsupported('no reachable return')
        self.retval = None
        parts = []
        tot = self.final
        mem = self.join_mem([(e, m) for e, m, _ in tot])
        if tot[0][2] is not None:
            self.retval = self.join_vals([(e, v) for e, _, v in tot], self.ret_type)
        self.mem = mem
        return mem

    def sccs(self, nodes, header):
        index, low, on, stack, out = {}, {}, set(), [], []
        counter = [0]

        def strong(v):
            work = [(v, iter([s for s in self.succ[v] if s in nodes and s != header]))]
            index[v] = low[v] = counter[0]
            counter[0] += 1
            stack.append(v)
            on.add(v)
            while work:
                node, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = counter[0]
                        counter[0] += 1
                        stack.append(w)
                        on.add(w)
                        work.append((w, iter([s for s in self.succ[w] if s in nodes and s != header])))
                        adv = True
                        break
                    elif w in on:
                        low[node] = min(low[node], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[node])
                if low[node] == index[node]:
                    comp = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == node:
                            break
                    out.append(comp)
        for b in sorted(nodes, key=lambda x: 0 if x == header else 1):
            if b not in index:
                strong(b)
        return list(reversed(out))     # topological order

    def region(self, nodes, entry, header):
        """process the blocks of a region in topological order of its SCCs.
        header: loop header whose back edges are not followed (or None)"""
        comps = self.sccs(nodes, header)
        for comp in comps:
            b = comp[0]
            if len(comp) == 1 and (b == header or b not in self.succ[b]):
                self.block(b, header, nodes)
            else:
                self.loop(set(comp))

    def enter(self, b):
        es = [e for e in self.edges.get(b, []) if not e[1].is_zero()]
        if not es:
            return None
        cond = es[0][1]
        for e in es[1:]:
            cond = cond + e[1]
        cond = cond.norm()
        rels = [(p, self.rel(e, cond) if len(es) > 1 else self.ctx.one, m) for p, e, m in es]
        mem = self.join_mem([(e, m) for _, e, m in rels])
        return cond, rels, mem.copy()

    def block(self, b, header, nodes):
        st = self.enter(b)
        if st is None:
            return
        cond, rels, mem = st
        self.block_cond[b] = cond
        phis = []
        for i in L.insts(b):
            if L.op(i) == 'phi':
                if b == header:
                    continue        # set by loop()
                inc = {L.incoming_block(i, k): L.incoming_value(i, k) for k in range(L.count_incoming(i))}
                parts = [(e, self.phi_in(p, b, i, inc)) for p, e, _ in rels]
                phis.append((i, self.join_vals(parts, L.typeof(i))))
                continue
            for q, v in phis:
                self.vals[q] = v
            phis = []
            self.inst(i, mem, cond, b)
        for q, v in phis:
            self.vals[q] = v

    def phi_in(self, pred, b, phi, inc):
        if isinstance(pred, Exit):
            return pred.phis[phi]
        return self.exit_value(pred, b, inc[pred])

    def exit_value(self, pred, b, v):
        """value flowing along pred->b; k is replaced by its exit value on loop exits"""
        w = self.val(v)
        lp = self.loop_exit.get((pred, b)) if hasattr(self, 'loop_exit') else None
        if lp is not None:
            w = self.subst_k(w, lp)
        return w

    def subst_k(self, w, lp):
        if isinstance(w, list):
            return [self.subst_k(x, lp) for x in w]
        if w[0] in ('F', 'I', 'B', 'M', 'S') and lp.kvar in w[1].vars():
            if lp.kstar is None:
                return unknown('value leaves a loop with unknown trip count')
            return (w[0], w[1].subst({lp.kvar: lp.kstar}))
        if w[0] == 'P' and lp.kvar in w[2].vars():
            if lp.kstar is None:
                return unknown('pointer leaves a loop with unknown trip count')
            return ('P', w[1], w[2].subst({lp.kvar: lp.kstar}))
        return w

    def goto(self, b, s, e, mem):
        self.edges.setdefault(s, []).append((b, e, mem.copy()))

    # ------------------------------------------------------------ loops
    UNROLL = 64

    def unroll(self, comp, h, cond, rels, mem):
        """Follow the iterations one by one while the conditions of the loop are decided by
        constants and symbolic index bits. False: not such a loop, nothing has changed."""
        ctx = self.ctx
        phis = [i for i in L.insts(h) if L.op(i) == 'phi']
        inc = {i: {L.incoming_block(i, k): L.incoming_value(i, k) for k in range(L.count_incoming(i))} for i in phis}
        out = {b: len(es) for b, es in self.edges.items() if b not in comp}
        save = [(l, len(l)) for l in (self.stores, self.loads, self.events, self.alias_conflicts, self.loops, self.final)]
        hold = {b: self.edges.get(b) for b in comp}

        def back_out():
            for l, n in save:
                del l[n:]
            for b in list(self.edges):
                if b not in comp:
                    del self.edges[b][out.get(b, 0):]
            for b, es in hold.items():
                if es is None:
                    self.edges.pop(b, None)
                else:
                    self.edges[b] = es
            return False
        try:
            vals = {i: self.join_vals([(e, self.phi_in(p, h, i, inc[i])) for p, e, _ in rels], L.typeof(i)) for i in phis}
            c, m = cond, mem
            for it in range(self.UNROLL):
                self.vals.update(vals)
                seen = {b: len(es) for b, es in self.edges.items() if b not in comp}
                for b in comp:
                    self.edges[b] = []
                self.edges[h] = [(None, c, m.copy())]
                self.region(comp, h, h)
                back = [(p, e, mm) for p, e, mm in self.edges[h] if p is not None and not e.is_zero()]
                for b, es in self.edges.items():
                    if b in comp:
                        continue
                    for j in range(seen.get(b, 0), len(es)):
                        p, e, mm = es[j]
                        if not isinstance(p, Exit):
                            es[j] = (Exit(p, {i: self.exit_value(p, b, {L.incoming_block(i, k): L.incoming_value(i, k)
                                                                     for k in range(L.count_incoming(i))}[p])
                                              for i in L.insts(b) if L.op(i) == 'phi'}), e, mm)
                if not back:
                    return True
                c = ctx.zero
                for _, e, _ in back:
                    c = c + e
                c = c.norm()
                if c.den or any(ctx.kinds[v] != ('bool', None) for v in c.vars() - cond.vars()):
                    return back_out()
                rl = [(p, self.rel(e, c) if len(back) > 1 else ctx.one, mm) for p, e, mm in back]
                vals = {i: self.join_vals([(e, self.phi_in(p, h, i, inc[i])) for p, e, _ in rl], L.typeof(i)) for i in phis}
                m = self.join_mem([(e, mm) for _, e, mm in rl])
        except (Unsupported, UndefUse, NonFinite):
            pass
        return back_out()

    def loop(self, comp):
        headers = [b for b in comp if any(p not in comp for p, _, _ in self.edges.get(b, []))]
        if len(headers) == 0:
            return
        if len(headers) != 1:
            raise Unsupported('irreducible control flow')
        h = headers[0]
        st = self.enter(h)
        if st is None:
            return
        cond, rels, mem = st
        ctx = self.ctx
        if self.unroll(comp, h, cond, rels, mem):
            return
        if self.curloop is not None:
            raise Unsupported('nested loop with non-constant trip count')
        phis = [i for i in L.insts(h) if L.op(i) == 'phi']
        inits, latchv = {}, {}
        for i in phis:
            inc = [(L.incoming_block(i, k), L.incoming_value(i, k)) for k in range(L.count_incoming(i))]
            d = dict(inc)
            inits[i] = self.join_vals([(e, self.phi_in(p, h, i, d)) for p, e, _ in rels], L.typeof(i))
            latchv[i] = [(p, v) for p, v in inc if p in comp]
        lp = LoopInfo(h)
        n = len(self.loops)
        lp.k = ctx.sym('k%d' % n, 'int')
        lp.kvar = ctx.var('k%d' % n)
        lp.guard = cond
        lp.pass1_stores = []
        saved = (len(self.stores), len(self.loads), len(self.events), len(self.alias_conflicts))

        def fresh(i, t, tag):
            k = L.kind(t)
            if k in ('vector', 'array'):
                return [fresh(i, L.element_type(t), '%s.%d' % (tag, j))
                        for j in range(L.vector_size(t) if k == 'vector' else L.array_length(t))]
            s = ctx.sym('carried%d.%s' % (n, tag), 'carried', L.text(i)[:80])
            if k in ('float', 'double'):
                return ('F', s)
            if k == 'int':
                return ('B', s) if L.int_width(t) == 1 else ('I', s)
            if k == 'ptr':
                return None
            raise Unsupported('loop phi of type ' + k)

        # pass 1: find affine phis
        syms = {}
        for idx, i in enumerate(phis):
            t = L.typeof(i)
            if L.kind(t) == 'ptr':
                p0 = inits[i]
                if p0[0] != 'P':
                    raise Unsupported('loop pointer without a base object')
                s = ctx.sym('carried%d.p%d' % (n, idx), 'carried')
                syms[i] = ('P', p0[1], p0[2] + s)
                syms[(i, 's')] = s
            else:
                syms[i] = fresh(i, t, 'v%d' % idx)

        def sweep(values, final):
            for i in phis:
                self.vals[i] = values[i]
            for b in comp:
                self.edges[b] = []
            self.edges[h] = [(None, ctx.one, mem.copy())]
            self.curloop = lp
            self.outedges = []
            outer_edges = {b: list(es) for b, es in self.edges.items() if b not in comp}
            self.region(comp, h, h)
            self.curloop = None
            back = [(p, e) for p, e, _ in self.edges[h] if p is not None]
            exits = []
            for b in list(self.edges):
                if b in comp:
                    continue
                if any(isinstance(x[0], Exit) and x[0].block in comp for x in self.edges[b]):
                    raise Unsupported('exit from nested loops')
                new = [x for x in self.edges[b] if x[0] in comp]
                for x in new:
                    exits.append((x[0], b, x[1], x[2]))
                self.edges[b] = [x for x in self.edges[b] if x[0] not in comp]
            return back, exits

        back, exits = sweep({i: syms[i] for i in phis}, False)
        carriedvars = set()
        for idx, i in enumerate(phis):
            for v in ctx.index:
                pass
        carriedvars = {ctx.index[nm] for nm in ctx.index if nm.startswith('carried%d.' % n)}
        tot = ctx.zero
        for _, e in back:
            tot = tot + e
        values = {}
        for i in phis:
            lv = latchv[i]
            nxt = self.join_vals([(self.rel(e, tot) if len(back) > 1 else ctx.one,
                                   self.phi_in(p, h, i, dict(lv))) for p, e in back], L.typeof(i)) if back else None
            t = L.typeof(i)
            k = L.kind(t)
            if nxt is None:
                values[i] = inits[i]
                continue
            if k == 'int' and L.int_width(t) > 1 and not isinstance(nxt, list) and nxt[0] in 'IC':
                step = (self.toI(nxt) - self.toI(syms[i])).norm()
                if not (step.vars() & carriedvars) and not self.loop_variant(step, n):
                    values[i] = ('I', self.toI(inits[i]) + step * lp.k)
                    continue
            if k == 'ptr' and nxt[0] == 'P' and nxt[1] == syms[i][1]:
                step = (nxt[2] - syms[i][2]).norm()
                if not (step.vars() & carriedvars):
                    values[i] = ('P', nxt[1], inits[i][2] + step * lp.k)
                    continue
            if not isinstance(nxt, list) and self.same(nxt, syms[i]):
                values[i] = inits[i]
                continue
            if isinstance(nxt, list) and all(self.same(a, b) for a, b in zip(nxt, syms[i])):
                values[i] = inits[i]
                continue
            lp.carried.append(i)
            values[i] = syms[i]
        del self.stores[saved[0]:]
        del self.loads[saved[1]:]
        del self.events[saved[2]:]
        del self.alias_conflicts[saved[3]:]
        # pass 2 learns the stores, pass 3 checks the loads against them
        for p in (2, 3):
            back, exits = sweep(values, p == 3)
            if p == 2:
                lp.pass1_stores = self.stores[saved[0]:]
                del self.stores[saved[0]:]
                del self.loads[saved[1]:]
                del self.events[saved[2]:]
                del self.alias_conflicts[saved[3]:]
        self.loops.append(lp)
        lp.exits = exits
        self.trip(lp, exits)
        if not hasattr(self, 'loop_exit'):
            self.loop_exit = {}
        for st in self.stores[saved[0]:]:
            pass
        wrote = {st.obj for st in self.stores[saved[0]:]}
        for p, b, e, m in exits:
            self.loop_exit[(p, b)] = lp
            m2 = mem.copy()
            for o in wrote:
                m2.havoc[o] = True
            # allocas written in the loop become unknown
            for o, cells in m.cells.items():
                if isinstance(o, tuple) and o[0] == 'alloca':
                    for k2, cell in cells.items():
                        old = m2.cells.get(o, {}).get(k2)
                        if old is None or not self.same(old[1], cell[1]):
                            m2.cells.setdefault(o, {})[k2] = (cell[0], unknown('local array written in a loop'), cell[2], cell[3])
            ex = cond if len(exits) == 1 else None
            if ex is None:
                raise Unsupported('loop with several exits')
            self.edges.setdefault(b, []).append((p, ex, m2))

    def loop_variant(self, r, n):
        return False

    def trip(self, lp, exits):
        """first iteration number at which the (single) exit edge is taken"""
        ctx = self.ctx
        if len(exits) != 1:
            return
        x = exits[0][2]
        if x.den:
            return
        # the predicate must be one of L, E, 1-L, 1-E, 1-L-E, L+E over one key
        bools = [v for v in x.vars() if ctx.kinds[v][0] == 'bool']
        if len(bools) not in (1, 2) or len(x.vars()) != len(bools):
            return
        keys = [ctx.kinds[v][1] for v in bools]
        key = keys[0][1]
        if any(not (k[1] - key).is_zero() for k in keys):
            return
        Lk, Ek = ctx._bool('lt', key, '[%s<0]'), None
        Ek = ctx.is_zero_pred(key)
        s, c0 = self.split_k(key, lp.kvar)
        if s is None or not s.is_const() or s.const_value() == 0:
            return
        sv = Fraction(s.const_value())
        one = ctx.one
        forms = {'lt': Lk, 'eq': Ek, 'ge': one - Lk, 'gt': one - Lk - Ek, 'le': Lk + Ek, 'ne': one - Ek}
        form = next((n for n, r in forms.items() if r.equals(x)), None)
        root = c0 * ctx.const(-1 / sv)           # real k with key == 0
        kst = None
        if form == 'eq':
            kst = root
        elif form == 'ge' and sv > 0 or form == 'le' and sv < 0:
            kst = root
        elif form == 'gt' and sv > 0 or form == 'lt' and sv < 0:
            kst = root + one
        lp.kstar = kst
        lp.exit_form = form
        lp.exit_pred = x
        lp.exit_block = exits[0][0]
        lp.unit = abs(sv) == 1

    # ------------------------------------------------------------ instructions
    def set(self, i, v):
        self.vals[i] = v

    def lanes(self, v):
        return v if isinstance(v, list) else [v]

    def map1(self, v, fn):
        if isinstance(v, list):
            return [self.safe(fn, w) for w in v]
        return self.safe(fn, v)

    def map2(self, a, b, fn):
        if isinstance(a, list):
            return [self.safe(fn, x, y) for x, y in zip(a, b)]
        return self.safe(fn, a, b)

    def safe(self, fn, *ws):
        try:
            return fn(*ws)
        except UndefUse:
            return UNDEF
        except NonFinite as e:
            return ('N', str(e))
        except Unsupported as e:
            return unknown(str(e))

    def inst(self, i, mem, cond, b):
        op = L.op(i)
        o = lambda k: self.val(L.operand(i, k))
        ctx = self.ctx
        F = lambda r: ('F', r)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            fnn = {'fadd': lambda x, y: F(self.toF(x) + self.toF(y)),
                   'fsub': lambda x, y: F(self.toF(x) - self.toF(y)),
                   'fmul': lambda x, y: F(self.toF(x) * self.toF(y)),
                   'fdiv': lambda x, y: F(self.quot(self.toF(x), self.toF(y)))}[op]
            self.set(i, self.map2(o(0), o(1), fnn))
        elif op == 'fneg':
            self.set(i, self.map1(o(0), lambda x: F(-self.toF(x)) if x[0] != 'S' else ('S', -x[1])))
        elif op == 'frem':
            self.set(i, self.map2(o(0), o(1), lambda x, y: F(ctx.func('fmod', self.toF(x), self.toF(y)))))
        elif op in ('fpext', 'fptrunc', 'freeze'):
            self.set(i, o(0))
        elif op == 'bitcast':
            self.set(i, self.bitcast(o(0), L.typeof(L.operand(i, 0)), L.typeof(i)))
        elif op in ('and', 'or', 'xor'):
            t = L.typeof(i)
            et = L.element_type(t) if L.kind(t) == 'vector' else t
            if L.int_width(et) == 1:
                def bop(x, y):
                    x, y = self.toB(x), self.toB(y)
                    if op == 'and':
                        return ('B', x * y)
                    if op == 'or':
                        return ('B', x + y - x * y)
                    return ('B', x + y - x * y - x * y)
                self.set(i, self.map2(o(0), o(1), bop))
            else:
                a, c = o(0), o(1)
                fnn = {'and': self.w_and, 'or': self.w_or, 'xor': self.w_xor}[op]

                def wop(x, y):
                    if x[0] == 'W' or y[0] == 'W':
                        return self.wide(fnn, x, y)
                    if {x[0], y[0]} & {'I', 'B'}:
                        return self.int_logic(op, x, y, L.int_width(et))
                    return fnn(x, y)
                self.set(i, self.map2(a, c, wop))
        elif op in ('add', 'sub', 'mul'):
            def iop(x, y):
                if x[0] == 'C' and y[0] == 'C':
                    v = {'add': x[1] + y[1], 'sub': x[1] - y[1], 'mul': x[1] * y[1]}[op]
                    return ('C', v)
                x, y = self.toI(x), self.toI(y)
                return ('I', {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[op]())
            self.set(i, self.map2(o(0), o(1), iop))
        elif op in ('shl', 'lshr', 'ashr'):
            t = L.typeof(i)
            et = L.element_type(t) if L.kind(t) == 'vector' else t

            def sh(x, y):
                if y[0] != 'C':
                    return unknown('shift by a variable')
                n = y[1]
                if x[0] == 'W' and n % 32 == 0:
                    ws = x[1]
                    q = n // 32
                    z = ('C', 0)
                    if op == 'lshr':
                        return ('W', ws[q:] + [z] * q)
                    if op == 'shl':
                        return ('W', [z] * q + ws[:len(ws) - q])
                if x[0] == 'C':
                    w = L.int_width(et)
                    v = x[1]
                    if op == 'shl':
                        return ('C', sx(v << n, w))
                    if op == 'lshr':
                        return ('C', sx((v & (2 ** w - 1)) >> n, w))
                    return ('C', v >> n)
                if op == 'shl' and x[0] in 'IB':
                    return ('I', self.toI(x) * ctx.const(2 ** n))
                if op in ('ashr',) and n == 31 and x[0] in ('F', 'S'):
                    s = ctx.signum(x[1]) if x[0] == 'F' else x[1]
                    return ('M', (ctx.one - s) * ctx.const(Fraction(1, 2)))
                if op == 'lshr' and n == 31 and x[0] in ('F', 'S'):
                    s = ctx.signum(x[1]) if x[0] == 'F' else x[1]
                    return ('I', (ctx.one - s) * ctx.const(Fraction(1, 2)))
                if op == 'shl' and n == 31 and x[0] in ('F',):
                    return unknown('shift of float bits')
                if op in ('lshr', 'ashr', 'shl') and n == 0:
                    return x
                if op in ('lshr', 'ashr') and x[0] in 'IB':
                    r = self.pseudo_bool(self.toI(x), lambda v: v >> n)
                    if r is not None:
                        return ('I', r)
                if op == 'lshr' and x[0] == 'M' and n == 31:
                    return ('I', x[1])
                if op == 'ashr' and x[0] == 'M':
                    return x
                if op == 'shl' and x[0] == 'M' and n == 31:
                    return ('S', ctx.one - x[1] - x[1])
                if op == 'shl' and x[0] == 'I' and n == 31:
                    return ('S', ctx.one - x[1] - x[1])
                return unknown('%s of %s by %d' % (op, x[0], n))
            self.set(i, self.map2(o(0), o(1), sh))
        elif op in ('udiv', 'sdiv', 'urem', 'srem'):
            def dv(x, y):
                if x[0] == 'C' and y[0] == 'C' and y[1]:
                    q = abs(x[1]) // abs(y[1])
                    q = q if (x[1] < 0) == (y[1] < 0) else -q
                    return ('C', q if op.endswith('div') else x[1] - q * y[1])
                r = self.pseudo_bool(self.toI(x), (lambda v: v // y[1]) if op == 'udiv' else (lambda v: v % y[1])) \
                    if y[0] == 'C' and op[0] == 'u' else None
                if r is not None:
                    return ('I', r)
                return unknown('integer division')
            self.set(i, self.map2(o(0), o(1), dv))
        elif op in ('zext', 'sext', 'trunc'):
            ts, td = L.typeof(L.operand(i, 0)), L.typeof(i)
            es = L.element_type(ts) if L.kind(ts) == 'vector' else ts
            ed = L.element_type(td) if L.kind(td) == 'vector' else td
            ws, wd = L.int_width(es), L.int_width(ed)
            vec = L.kind(ts) == 'vector'

            def cv(x):
                if x[0] == 'U' or x[0] == '?':
                    return x
                if op == 'trunc':
                    if x[0] == 'W':
                        if wd == 32:
                            return x[1][0]
                        if wd == 64:
                            return ('W', x[1][:2])
                    if wd == 1:
                        if x[0] == 'C':
                            return ('B', ctx.one if x[1] & 1 else ctx.zero)
                        if x[0] in 'IB':
                            r = self.pseudo_bool(self.toI(x), lambda v: int(v) & 1)
                            if r is not None:
                                return ('B', r)
                            return ('B', self.toI(x))
                        if x[0] == 'M':
                            return ('B', x[1])
                        return unknown('trunc to i1')
                    if x[0] == 'C':
                        return ('C', sx(x[1], wd))
                    if x[0] == 'I':
                        return self.wrap(x[1], wd)
                    return x
                if ws == 1:
                    bb = self.toB(x)
                    if op == 'zext':
                        return ('I', bb)
                    return ('M', bb) if vec or wd == 32 else ('I', -bb)
                if op == 'zext' and wd in (64, 128) and ws == 32 and x[0] in ('F', 'M', 'S'):
                    return ('W', [x] + [('C', 0)] * (wd // 32 - 1))
                if op == 'zext' and x[0] == 'C':
                    return ('C', x[1] & (2 ** ws - 1))
                if op == 'zext' and x[0] == 'W':
                    return ('W', x[1] + [('C', 0)] * (wd // 32 - len(x[1])))
                return x
            self.set(i, self.map1(o(0), cv))
        elif op in ('sitofp', 'uitofp'):
            self.set(i, self.map1(o(0), lambda x: F(self.toI(x))))
        elif op in ('fptosi', 'fptoui'):
            self.set(i, self.map1(o(0), lambda x: ('I', x[1]) if x[0] == 'F' and x[1].is_const() and
                                  Fraction(x[1].const_value()).denominator == 1 else
                                  ('I', ctx.func('toint', self.toF(x)))))
        elif op == 'fcmp':
            p = L.FCMP[L.fcmp_pred(i)]
            self.set(i, self.map2(o(0), o(1), lambda x, y: ('B', self.fcmp(p, x, y))))
        elif op == 'icmp':
            p = L.ICMP[L.icmp_pred(i)]
            self.set(i, self.map2(o(0), o(1), lambda x, y: self.icmp(p, x, y)))
        elif op == 'select':
            c, a, d = o(0), o(1), o(2)
            t = L.typeof(i)
            if isinstance(c, list):
                et = L.element_type(t)
                self.set(i, [self.safe(lambda cc, x, y: self.join_words(
                    [(self.toB(cc), x), (ctx.one - self.toB(cc), y)], et), cc, x, y)
                    for cc, x, y in zip(c, a, d)])
            else:
                def sel():
                    cb = self.toB(c)
                    return self.join_vals([(cb, a), (ctx.one - cb, d)], t)
                if c[0] in ('?', 'U'):
                    self.set(i, self.map1(a, lambda x: c))
                else:
                    self.set(i, sel())
        elif op == 'shufflevector':
            a, c = o(0), o(1)
            n = len(a)
            out = []
            for k in range(L.num_mask(i)):
                m = L.mask_value(i, k)
                if m < 0:
                    out.append(UNDEF)
                else:
                    out.append(a[m] if m < n else c[m - n])
            self.set(i, out)
        elif op == 'extractelement':
            ix = o(1)
            v = o(0)
            self.set(i, v[ix[1]] if ix[0] == 'C' else unknown('variable lane index'))
        elif op == 'insertelement':
            ix = o(2)
            v = list(o(0))
            if ix[0] != 'C':
                raise Unsupported('variable lane index')
            v[ix[1]] = o(1)
            self.set(i, v)
        elif op == 'extractvalue':
            v = o(0)
            idx = L.indices(i)
            for k in range(L.num_indices(i)):
                v = v[idx[k]]
            self.set(i, v)
        elif op == 'insertvalue':
            v = deep(o(0))
            idx = L.indices(i)
            r = v
            n = L.num_indices(i)
            for k in range(n - 1):
                r = r[idx[k]]
            r[idx[n - 1]] = o(1)
            self.set(i, v)
        elif op == 'alloca':
            self.alloca_n += 1
            self.set(i, ('P', ('alloca', self.alloca_n, i), ctx.zero))
        elif op == 'gep':
            self.set(i, self.gep(i))
        elif op == 'load':
            if L.is_volatile(i):
                self.events.append(('volatile', L.text(i)[:80], i))
            self.set(i, self.load_type(mem, o(0), L.typeof(i), i, L.alignment(i)))
        elif op == 'store':
            if L.is_volatile(i):
                self.events.append(('volatile', L.text(i)[:80], i))
            v = L.operand(i, 0)
            self.store_type(mem, self.val(L.operand(i, 1)), self.val(v), L.typeof(v), i, cond, L.alignment(i))
        elif op == 'call':
            self.call(i, mem, cond)
        elif op == 'br':
            if L.is_conditional(i):
                c = self.val(L.condition(i))
                if c[0] in ('?', 'U'):
                    if c[0] == 'U':
                        raise Unsupported('branch on an undefined value at ' + where(i))
                    raise Unsupported('branch on: ' + c[1])
                cb = self.toB(c)
                t, e = L.succ(i, 0), L.succ(i, 1)
                self.goto(b, t, (cond * cb).norm(), mem)
                self.goto(b, e, (cond * (ctx.one - cb)).norm(), mem)
            else:
                self.goto(b, L.succ(i, 0), cond, mem)
        elif op == 'switch':
            v = self.toI(o(0))
            n = L.num_operands(i)
            rest = ctx.one
            default = L.succ(i, 0)
            k = 1
            for j in range(2, n, 2):
                cv = self.toI(self.const(L.operand(i, j)))
                p = self.toB(self.icmp('eq', ('I', v), ('I', cv)))
                self.goto(b, L.succ(i, k), (cond * p).norm(), mem)
                rest = rest * (ctx.one - p)
                k += 1
            self.goto(b, default, (cond * rest).norm(), mem)
        elif op == 'ret':
            n = L.num_operands(i)
            self.ret_type = L.typeof(L.operand(i, 0)) if n else None
            self.final.append((cond, mem, o(0) if n else None))
        elif op == 'unreachable':
            self.events.append(('unreachable', '', i))
        elif op in ('fence', 'cmpxchg', 'atomicrmw'):
            self.events.append(('atomic', L.text(i)[:80], i))
            raise Unsupported(op)
        elif op == 'phi':
            pass
        elif op == 'ptrtoint':
            p = o(0)
            self.set(i, ('PI', p[1], p[2]) if p[0] == 'P' else unknown('ptrtoint'))
        elif op == 'inttoptr':
            p = o(0)
            self.set(i, ('P', p[1], p[2]) if p[0] == 'PI' else unknown('inttoptr'))
        else:
            raise Unsupported('instruction ' + L.text(i)[:80])

    def wrap(self, r, w):
        """the low w bits of an integer"""
        if self.bool_vars(r) is not None:
            cs = [int(c) for c in r.num.values()]
            if -(1 << (w - 1)) <= sum(c for c in cs if c < 0) and sum(c for c in cs if c > 0) < 1 << (w - 1):
                return ('I', r)
            p = self.pseudo_bool(r, lambda v: sx(v, w))
            return ('I', p) if p is not None else unknown('integer truncation')
        if any(self.ctx.kinds[v][0] == 'int' for v in r.vars()) or w < 32:
            return ('I', self.ctx.func('low%dbits' % w, r))
        return ('I', r)

    def int_logic(self, op, x, y, width):
        xi, yi = self.toI(x), self.toI(y)
        for u, v in ((xi, yi), (yi, xi)):
            if op == 'and' and v.is_const() and not u.is_const() and self.bool_vars(u) is None:
                m = int(v.const_value()) & ((1 << width) - 1)
                if m and m & (m + 1) == 0:
                    return self.wrap(u, m.bit_length()) if m.bit_length() < width else ('I', u)
        pf = {'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}[op]
        r = self.pseudo_bool2(xi, yi, pf)
        if r is not None:
            return ('I', r)
        return unknown('integer %s' % op)

    def bool_vars(self, *rs):
        vs = set()
        for r in rs:
            if r.den:
                return None
            vs |= r.vars()
        if any(self.ctx.kinds[v][0] != 'bool' for v in vs) or len(vs) > 12:
            return None
        return sorted(vs)

    def eval_bool(self, r, assign):
        tot = 0
        for m, c in r.num.items():
            ok = True
            i = 0
            while m:
                if m & MASK and not assign[i]:
                    ok = False
                    break
                m >>= BITS
                i += 1
            if ok:
                tot += c
        return tot

    def pseudo_bool2(self, x, y, fnn):
        vs = self.bool_vars(x, y)
        if vs is None:
            return None
        ctx = self.ctx
        if len(vs) > 3 and not any(v in ctx.excl for v in vs):
            return self.pseudo_table(x, y, fnn, vs)
        if len(vs) > 10:
            return None
        out = ctx.zero
        for mask in range(1 << len(vs)):
            asg = {v: (mask >> n) & 1 for n, v in enumerate(vs)}
            v = fnn(int(self.eval_bool(x, asg)), int(self.eval_bool(y, asg)))
            if v:
                t = ctx.const(v)
                for n, u in enumerate(vs):
                    s = Rat(ctx, {1 << (BITS * u): 1}, {})
                    t = t * (s if asg[u] else ctx.one - s)
                out = out + t
        return out

    def pseudo_table(self, x, y, fnn, vs):
        """pseudo-Boolean functions via their value tables (zeta and Moebius transforms)"""
        n = len(vs)
        pos = {v: k for k, v in enumerate(vs)}

        def table(r):
            t = [0] * (1 << n)
            for m, c in r.num.items():
                k = i = 0
                while m:
                    if m & MASK:
                        k |= 1 << pos[i]
                    m >>= BITS
                    i += 1
                t[k] += c
            for b in range(n):
                bit = 1 << b
                for k in range(1 << n):
                    if k & bit:
                        t[k] += t[k ^ bit]
            return t
        tx, ty = table(x), table(y)
        t = [fnn(int(a), int(b)) for a, b in zip(tx, ty)]
        for b in range(n):
            bit = 1 << b
            for k in range(1 << n):
                if k & bit:
                    t[k] -= t[k ^ bit]
        num = {}
        for k, c in enumerate(t):
            if c:
                m = 0
                for b in range(n):
                    if k >> b & 1:
                        m |= 1 << (BITS * vs[b])
                num[m] = c
        return Rat(self.ctx, num, {})

    def pseudo_bool(self, x, fnn):
        return self.pseudo_bool2(x, self.ctx.zero, lambda a, b: fnn(a))

    def wide(self, fnn, x, y):
        n = max(len(w[1]) for w in (x, y) if w[0] == 'W')

        def split(w):
            if w[0] == 'W':
                return w[1] + [('C', 0)] * (n - len(w[1]))
            if w[0] == 'C':
                v = w[1] & (2 ** (32 * n) - 1)
                return [('C', (v >> (32 * j)) & 0xffffffff) for j in range(n)]
            return None
        a, b = split(x), split(y)
        if a is None or b is None:
            return unknown('wide bit operation')
        return ('W', [fnn(p, q) for p, q in zip(a, b)])

    def bitcast(self, v, ts, td):
        ks, kd = L.kind(ts), L.kind(td)
        def flat(v, t):
            k = L.kind(t)
            if k == 'vector':
                out = []
                for w in v:
                    out += flat(w, L.element_type(t))
                return out
            sz = L.int_width(t) // 8 if k == 'int' else self.tysize(t)
            if k == 'int' and L.int_width(t) < 8:
                return None
            if sz == 4:
                return [v]
            if sz in (8, 16):
                if v[0] == 'W':
                    return v[1]
                if v[0] == 'C':
                    x = v[1] & (2 ** (8 * sz) - 1)
                    return [('C', (x >> (32 * j)) & 0xffffffff) for j in range(sz // 4)]
                if v[0] == 'U':
                    return [UNDEF] * (sz // 4)
                if v[0] == 'F' and v[1].is_const() and k == 'double':
                    x = struct.unpack('<Q', struct.pack('<d', float(v[1].const_value())))[0]
                    return [('C', x & 0xffffffff), ('C', x >> 32)]
                return [unknown('bitcast of a 64-bit value')] * (sz // 4)
            return None
        if kd == 'int' and ks == 'vector' and L.kind(L.element_type(ts)) == 'int' and L.int_width(L.element_type(ts)) == 1:
            acc = self.ctx.zero
            for n, w in enumerate(v):
                acc = acc + self.toB(w) * self.ctx.const(2 ** n)
            return ('I', acc)
        ws = flat(v, ts)
        if ws is None:
            return v if ks == kd else unknown('bitcast')
        def build(t, ws):
            k = L.kind(t)
            if k == 'vector':
                et = L.element_type(t)
                sz = self.tysize(et) // 4
                return [build(et, ws[n * sz:(n + 1) * sz]) for n in range(L.vector_size(t))]
            if len(ws) == 1:
                return ws[0]
            if all(w[0] == 'C' for w in ws):
                v = 0
                for n, w in enumerate(ws):
                    v |= (w[1] & 0xffffffff) << (32 * n)
                return ('C', sx(v, 32 * len(ws)))
            return ('W', list(ws))
        return build(td, ws)

    def fcmp(self, p, x, y):
        ctx = self.ctx
        if p == 'true':
            return ctx.one
        if p == 'false':
            return ctx.zero
        if p == 'ord':
            return ctx.one - self.is_nan(x, y)
        if p == 'uno':
            return self.is_nan(x, y)
        for w, o, q in ((x, y, p), (y, x, None)):
            b = self.bits_const(w) if w[0] == 'C' else None
            if b is not None and b & 0x7fffffff == 0x7f800000:
                # comparison with infinity: operands are finite
                pos = not b & 0x80000000
                inf_right = w is y
                less = (pos == inf_right)
                r = {'lt': less, 'le': less, 'gt': not less, 'ge': not less, 'eq': False, 'ne': True}[p[1:]]
                return ctx.one if r else ctx.zero
        d = self.toF(x) - self.toF(y)
        b = p[1:]
        if b in ('eq', 'ne') and d.is_zero():
            # x == x: false exactly for NaN
            t = self.is_nan(x)
            return t if b == 'ne' else ctx.one - t
        if b == 'eq':
            return ctx.is_zero_pred(d)
        if b == 'ne':
            return ctx.one - ctx.is_zero_pred(d)
        if b == 'lt':
            return ctx.is_neg(d)
        if b == 'gt':
            return ctx.is_neg(-d)
        if b == 'le':
            return ctx.one - ctx.is_neg(-d)
        if b == 'ge':
            return ctx.one - ctx.is_neg(d)
        raise Unsupported('fcmp ' + p)

    def is_nan(self, *ws):
        """predicate: one of the words is a NaN. False for the finite operands of the
        value analysis; an opaque predicate when paths taken for NaN are followed too."""
        ctx = self.ctx
        if all(w[0] == 'C' for w in ws):
            return ctx.zero
        ctx.saw_nan = True
        if not ctx.nan_paths:
            return ctx.zero
        n = sum(k == 'bool' and p[0] == 'nan' for k, p in ctx.kinds)
        return ctx.sym('[nan%d]' % n, 'bool', ('nan', ctx.one))

    def icmp(self, p, x, y):
        ctx = self.ctx
        if x[0] == 'P' and y[0] == 'P':
            if x[1] == y[1]:
                x, y = ('I', x[2]), ('I', y[2])
            elif p in ('eq', 'ne'):
                return ('B', ctx.zero if p == 'eq' else ctx.one)
            else:
                return unknown('comparison of pointers to different objects')
        # comparisons of whole float words with zero bits
        if x[0] in ('F', 'S', 'M') or y[0] in ('F', 'S', 'M'):
            if y[0] == 'C' and p in ('slt', 'sge', 'sgt', 'sle'):
                if x[0] in ('F', 'S') and ((p in ('slt', 'sge') and y[1] == 0) or (p in ('sgt', 'sle') and y[1] == -1)):
                    s = ctx.signum(x[1]) if x[0] == 'F' else x[1]
                    neg = (ctx.one - s) * ctx.const(Fraction(1, 2))
                    return ('B', neg if p in ('slt', 'sle') else ctx.one - neg)
            if p in ('eq', 'ne'):
                m = self.asM(x), self.asM(y)
                if m[0] is not None and m[1] is not None:
                    r = ctx.one - (m[0] + m[1] - m[0] * m[1] - m[0] * m[1])
                    return ('B', r if p == 'eq' else ctx.one - r)
                s = self.asS(x), self.asS(y)
                if s[0] is not None and s[1] is not None:
                    r = (ctx.one + s[0] * s[1]) * ctx.const(Fraction(1, 2))
                    return ('B', r if p == 'eq' else ctx.one - r)
            return unknown('integer comparison of float bits')
        a, b = self.toI(x), self.toI(y)
        pf = {'eq': lambda u, v: u == v, 'ne': lambda u, v: u != v,
              'slt': lambda u, v: u < v, 'ult': lambda u, v: u < v,
              'sgt': lambda u, v: u > v, 'ugt': lambda u, v: u > v,
              'sle': lambda u, v: u <= v, 'ule': lambda u, v: u <= v,
              'sge': lambda u, v: u >= v, 'uge': lambda u, v: u >= v}[p]
        if p in ('eq', 'ne'):
            bits, k = getattr(a, 'bits', None), b
            if bits is None:
                bits, k = getattr(b, 'bits', None), a
            if bits is not None and k.is_const():
                k = k.const_value()
                r = ctx.one if k == int(k) and 0 <= k < 1 << len(bits) else ctx.zero
                for l, bit in enumerate(bits):
                    r = r * (bit if (int(k) >> l) & 1 else ctx.one - bit)
                return ('B', r if p == 'eq' else ctx.one - r)
        if self.bool_vars(a, b) is not None:
            r = self.pseudo_bool2(a, b, lambda u, v: 1 if pf(u, v) else 0)
            return ('B', r)
        d = a - b
        r = {'eq': lambda: ctx.is_zero_pred(d), 'ne': lambda: ctx.one - ctx.is_zero_pred(d),
             'lt': lambda: ctx.is_neg(d), 'gt': lambda: ctx.is_neg(-d),
             'le': lambda: ctx.one - ctx.is_neg(-d), 'ge': lambda: ctx.one - ctx.is_neg(d)}[
                 p if p in ('eq', 'ne') else p[1:]]()
        return ('B', r)

    def gep(self, i):
        base = self.val(L.operand(i, 0))
        if base[0] != 'P':
            return base if base[0] in ('?', 'U') else unknown('gep on non-pointer')
        t = L.gep_source_type(i)
        off = base[2]
        n = L.num_operands(i)
        for k in range(1, n):
            ix = self.val(L.operand(i, k))
            if k == 1:
                off = off + self.toI(ix) * self.ctx.const(self.tysize(t))
                continue
            kk = L.kind(t)
            if kk == 'struct':
                f = int(self.toI(ix).const_value())
                off = off + self.ctx.const(L.offset_of(self.mod.td, t, f))
                t = L.struct_type_at(t, f)
            else:
                t = L.element_type(t)
                off = off + self.toI(ix) * self.ctx.const(self.tysize(t))
        return ('P', base[1], off)

    # ------------------------------------------------------------ calls
    def approx(self, kind, r):
        """(1+e) factor of the hardware approximation, one symbol per argument"""
        ctx = self.ctx
        r = r.noerr().norm()
        v = ctx.find_atom('err_' + kind, r)
        if v is None:
            n = sum(1 for k, _, _ in ctx.atoms if k in ('err_rcp', 'err_rsqrt', 'err_arg'))
            v = ctx.var('eps%d_%s' % (n, kind), 'err', r)
            ctx.atoms.append(('err_' + kind, r, v))
        return ctx.one + Rat(ctx, {1 << (BITS * v): 1}, {})

    def quot(self, x, y):
        if y.is_zero():
            raise NonFinite('a division by zero')
        return x / y

    def rcp(self, w):
        r = self.toF(w)
        if r.is_zero():
            raise NonFinite('the reciprocal of zero')
        return ('F', self.approx('rcp', r) / r)

    def rsqrt(self, w):
        r = self.toF(w)
        if r.noerr().norm().is_zero():
            raise NonFinite('the reciprocal square root of zero')
        base = self.ctx.rsqrt(r)
        err = r.errpart()
        ap = self.approx('rsqrt', r)
        if not err.is_zero():
            # (P+dP)^(-1/2) = R (1 - dP/(2P))
            ap = ap * (self.ctx.one - err / r.noerr() * self.ctx.const(Fraction(1, 2)))
        return ('F', base * ap)

    def sqrtw(self, w):
        r = self.toF(w)
        s = self.ctx.sqrt(r)
        err = r.errpart()
        if not err.is_zero():
            s = s * (self.ctx.one + err / r.noerr() * self.ctx.const(Fraction(1, 2)))
        return ('F', s)

    def minmax(self, x, y, mn):
        a, b = self.toF(x), self.toF(y)
        lt = self.ctx.is_neg(a - b) if mn else self.ctx.is_neg(b - a)
        return ('F', b + lt * (a - b))

    def math(self, name, args):
        ctx = self.ctx
        rs = [self.toF(a) for a in args]
        if name not in ('fabs', 'copysign', 'sqrt', 'fma') and any(not r.errpart().is_zero() for r in rs):
            # an unrefined approximation reaches a transcendental function
            w = self.math(name, [('F', r.noerr()) for r in rs])
            return ('F', w[1] * self.approx('arg', sum(rs, ctx.zero)))
        if name == 'sin':
            return ('F', ctx.sin(rs[0]))
        if name == 'cos':
            return ('F', ctx.cos(rs[0]))
        if name == 'sqrt':
            return self.sqrtw(args[0])
        if name == 'fabs':
            return ('F', ctx.abs(rs[0]))
        if name == 'copysign':
            return ('F', ctx.abs(rs[0]) * ctx.signum(rs[1]))
        if name in ('fma',):
            return ('F', rs[0] * rs[1] + rs[2])
        if name in ('fmin', 'fmax'):
            return self.minmax(args[0], args[1], name == 'fmin')
        if name == 'hypot':
            return ('F', ctx.sqrt(rs[0] * rs[0] + rs[1] * rs[1]))
        if name == 'atan2' and rs[0].is_const() and rs[0].const_value() == 0 and rs[1].is_const() and rs[1].const_value() > 0:
            return ('F', ctx.zero)
        if name in ('acos', 'log') and rs[0].is_const() and rs[0].const_value() == 1:
            return ('F', ctx.zero)
        return ('F', ctx.func(name, *rs))

    def call(self, i, mem, cond):
        cv = L.called_value(i)
        nm = L.name(cv) if L.is_function(cv) else ''
        if any(nm.startswith(p) for p in IGNORED_CALLS):
            return
        n = L.num_args(i)
        arg = lambda k: self.val(L.operand(i, k))
        ctx = self.ctx
        if not nm:
            self.events.append(('call', 'indirect call', i))
            raise Unsupported('indirect call at ' + where(i))
        if nm.startswith('llvm.memcpy') or nm.startswith('llvm.memmove'):
            d, s, ln = arg(0), arg(1), arg(2)
            if ln[0] != 'C':
                raise Unsupported('memcpy of variable length')
            tmp = []
            self.loads.append((s[1], s[2], ln[1], 1, i))
            for k in range(0, ln[1], 4):
                sz = 4 if ln[1] - k >= 4 else 1
                tmp.append((k, self.read_cell(mem, s[1], s[2] + k, 4, i)))
            if d[1] == s[1] and (d[2] - s[2]).is_zero():
                return
            for k, w in tmp:
                self.write_cell(mem, d[1], d[2] + k, w, 4, i, cond, 1)
            return
        if nm.startswith('llvm.memset'):
            d, v, ln = arg(0), arg(1), arg(2)
            if ln[0] != 'C' or v[0] != 'C':
                raise Unsupported('memset of variable length')
            b = v[1] & 0xff
            w = ('C', sx(b * 0x01010101, 32))
            for k in range(0, ln[1], 4):
                self.write_cell(mem, d[1], d[2] + k, w, 4, i, cond, 1)
            return
        m = nm
        if nm.startswith('llvm.x86.'):
            if self.x86(i, nm, arg):
                return
        if nm.startswith('llvm.'):
            m = nm[5:].split('.')[0]
            m = {'minnum': 'fmin', 'maxnum': 'fmax', 'minimum': 'fmin', 'maximum': 'fmax', 'fmuladd': 'fma'}.get(m, m)
            if m == 'experimental':
                m = nm
            if m in ('umin', 'umax', 'smin', 'smax'):
                a, b = self.toI(arg(0)), self.toI(arg(1))
                lt = self.toB(self.icmp('slt', ('I', a), ('I', b)))
                r = b + lt * (a - b) if 'min' in m else a + lt * (b - a)
                self.set(i, ('I', r))
                return
            if m == 'abs':
                v = self.toI(arg(0))
                r = self.pseudo_bool(v, abs)
                self.set(i, ('I', r if r is not None else ctx.abs(v)))
                return
            if m == 'trap':
                self.events.append(('call', nm, i))
                return
        base = m
        if base not in MATH and base.endswith('f') and base[:-1] in MATH:
            base = base[:-1]
        if base in MATH and n == MATH[base]:
            self.events.append(('math', base, i))
            vs = [arg(k) for k in range(n)]
            if isinstance(vs[0], list):
                self.set(i, [self.safe(lambda *ws: self.math(base, ws), *ws) for ws in zip(*vs)])
            else:
                self.set(i, self.safe(lambda *ws: self.math(base, ws), *vs))
            return
        if nm.startswith('llvm.is.fpclass') and not isinstance(arg(0), list):
            m = L.const_zext(L.operand(i, 1))
            x = self.toF(arg(0))
            neg, pos, zero = m & 8, m & 256, m & 64
            if neg and pos and zero or not neg and not pos and not zero:
                self.set(i, ('B', ctx.one if pos else ctx.zero))       # finite or not: operands are numbers
            else:
                a, b = ctx.is_neg(x), ctx.is_neg(-x)
                self.set(i, ('B', (a if neg else ctx.zero) + (b if pos else ctx.zero) +
                             (ctx.one - a - b if zero else ctx.zero)))
            return
        if nm.startswith('llvm.ctpop'):
            w = L.int_width(L.typeof(i))
            x = arg(0)
            r = self.pseudo_bool(self.toI(x), lambda a: bin(a & ((1 << w) - 1)).count('1'))
            if r is None:
                self.set(i, unknown('population count'))
            else:
                self.set(i, ('I', r))
            return
        if nm.startswith(('llvm.cttz.', 'llvm.ctlz.')):
            w = L.int_width(L.typeof(i))
            if nm.startswith('llvm.cttz.'):
                f = lambda a: w if not a & ((1 << w) - 1) else (a & -a).bit_length() - 1
            else:
                f = lambda a: w - (a & ((1 << w) - 1)).bit_length()
            r = self.pseudo_bool(self.toI(arg(0)), f)
            self.set(i, ('I', r) if r is not None else unknown('count of zero bits'))
            return
        if nm.startswith('llvm.abs.'):
            r = self.pseudo_bool(self.toI(arg(0)), abs)
            self.set(i, ('I', r) if r is not None else unknown('integer absolute value'))
            return
        if nm in ('sincosf', 'sincos'):
            x = arg(0)
            s, c = self.safe(lambda w: self.math('sin', [w]), x), self.safe(lambda w: self.math('cos', [w]), x)
            for k, w in ((1, s), (2, c)):
                p = arg(k)
                self.write_cell(mem, p[1], p[2], w, 4, i, cond, 4)
            self.events.append(('math', 'sincos', i))
            return
        self.events.append(('call', nm, i))
        raise Unsupported('call to %s at %s' % (nm, where(i)))

    def x86(self, i, nm, arg):
        ctx = self.ctx
        s = nm[len('llvm.x86.'):]
        if s in ('sse.rcp.ps', 'sse.rsqrt.ps'):
            f = self.rcp if 'rcp' in s else self.rsqrt
            self.set(i, [self.safe(f, w) for w in arg(0)])
        elif s in ('sse.rcp.ss', 'sse.rsqrt.ss'):
            f = self.rcp if 'rcp' in s else self.rsqrt
            v = list(arg(0))
            v[0] = self.safe(f, v[0])
            self.set(i, v)
        elif s in ('sse.min.ps', 'sse.max.ps'):
            self.set(i, self.map2(arg(0), arg(1), lambda x, y: self.minmax(x, y, 'min' in s)))
        elif s in ('sse.min.ss', 'sse.max.ss'):
            v = list(arg(0))
            v[0] = self.safe(lambda x, y: self.minmax(x, y, 'min' in s), v[0], arg(1)[0])
            self.set(i, v)
        elif s == 'sse41.dpps':
            a, b, imm = arg(0), arg(1), arg(2)[1] & 0xff

            def dp():
                acc = ctx.zero
                for l in range(4):
                    if imm & (0x10 << l):
                        acc = acc + self.toF(a[l]) * self.toF(b[l])
                return ('F', acc)
            d = self.safe(dp)
            self.set(i, [d if imm & (1 << l) else self.cf(0) for l in range(4)])
        elif s == 'sse.movmsk.ps':
            def sign(w):
                m = self.asM(w)
                if m is not None and w[0] != 'F':
                    return m
                sg = self.asS(w) if w[0] != 'F' else ctx.signum(w[1])
                if sg is None:
                    sg = ctx.signum(self.toF(w))
                return (ctx.one - sg) * ctx.const(Fraction(1, 2))
            try:
                acc = ctx.zero
                bits = [sign(w) for w in arg(0)]
                for l, b in enumerate(bits):
                    acc = acc + b * ctx.const(1 << l)
                acc = Rat(ctx, acc.num, acc.den)
                acc.bits = bits
                self.set(i, ('I', acc))
            except UndefUse:
                self.set(i, UNDEF)
            except Unsupported as e:
                self.set(i, unknown(str(e)))
        elif s in ('sse.cmp.ps', 'sse.cmp.ss'):
            pr = {0: 'oeq', 1: 'olt', 2: 'ole', 3: 'uno', 4: 'une', 5: 'uge', 6: 'ugt', 7: 'ord'}[arg(2)[1] & 7]
            a, b = arg(0), arg(1)
            if s.endswith('ss'):
                v = list(a)
                v[0] = self.safe(lambda x, y: ('M', self.fcmp(pr, x, y)), a[0], b[0])
                self.set(i, v)
            else:
                self.set(i, self.map2(a, b, lambda x, y: ('M', self.fcmp(pr, x, y))))
        elif s.startswith('sse.comi') or s.startswith('sse.ucomi'):
            pr = s.split('.')[1].replace('ucomi', '').replace('comi', '')
            pr = {'eq': 'oeq', 'neq': 'une', 'lt': 'olt', 'le': 'ole', 'gt': 'ogt', 'ge': 'oge'}[pr]
            self.set(i, self.safe(lambda x, y: ('I', self.fcmp(pr, x, y)), arg(0)[0], arg(1)[0]))
        elif s in ('sse3.hadd.ps', 'sse3.hsub.ps'):
            a, b = arg(0), arg(1)
            g = 1 if 'hadd' in s else -1
            h = lambda x, y: ('F', self.toF(x) + self.toF(y) if g > 0 else self.toF(x) - self.toF(y))
            self.set(i, [self.safe(h, a[0], a[1]), self.safe(h, a[2], a[3]),
                         self.safe(h, b[0], b[1]), self.safe(h, b[2], b[3])])
        elif s == 'sse3.addsub.ps':
            a, b = arg(0), arg(1)
            self.set(i, [self.safe(lambda x, y, l=l: ('F', self.toF(x) - self.toF(y) if l % 2 == 0 else self.toF(x) + self.toF(y)),
                                   a[l], b[l]) for l in range(4)])
        elif s == 'sse41.blendvps':
            a, b, m = arg(0), arg(1), arg(2)

            def bl(x, y, w):
                p = self.asM(w)
                if p is None or w[0] == 'F':
                    sg = ctx.signum(self.toF(w)) if w[0] == 'F' else self.asS(w)
                    p = (ctx.one - sg) * ctx.const(Fraction(1, 2))
                return self.join_words([(p, y), (ctx.one - p, x)], None)
            self.set(i, [self.safe(bl, x, y, w) for x, y, w in zip(a, b, m)])
        elif s == 'sse41.insertps':
            a, b, imm = list(arg(0)), arg(1), arg(2)[1] & 0xff
            a[(imm >> 4) & 3] = b[(imm >> 6) & 3]
            for l in range(4):
                if imm & (1 << l):
                    a[l] = self.cf(0)
            self.set(i, a)
        else:
            return False
        return True


class Exit:
    """an edge out of an unrolled loop, with the values its target's phis receive"""

    def __init__(self, block, phis):
        self.block = block
        self.phis = phis


class NonFinite(Exception):
    """an operand that is infinite or not a number on every execution"""


class UndefUse(Exception):
    pass


def sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def deep(v):
    return [deep(x) for x in v] if isinstance(v, list) else v


def where(i):
    ch = L.loc_chain(i)
    return ' <- '.join('%s:%d' % c for c in ch) if ch else '?'
