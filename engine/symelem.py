"""Basis elements in the text: the tokenizer of the symbolic utility against the
sign of the permutation of the indices.

The tokenizer is interpreted abstractly over a text that consists of a basis
element with unboundedly many indices (and more elements behind it).  Integers
are vectors of bits, every bit a polynomial over GF(2).  What the indices read so
far denote - the set of basis vectors b0..b9 and the sign s - is carried along;
at the head of the loop over the indices the bits of every variable are related
to it, relations that do not hold after an arbitrary further index are dropped
until the rest is inductive."""
import re
import time
import llvm as L
import build
from symmap import Machine, State, P, GiveUp, Wrong, Late, ptr, is_ptr, num, ZERO, ONE, NULL, module, first_line, limited
from symeval import fields, lay_out

NB = 10
F0 = frozenset()
F1 = frozenset([frozenset()])
END = 'end'
# characters behind the indices: both ends of every character class, and the characters of the grammar
OTHER = [0, 9, 32, 40, 41, 42, 43, 45, 46, 47, 58, 64, 65, 69, 90, 91, 94, 95, 96, 97, 101, 102, 122, 123, 124, 126, 127, 128, 255]


def var(n):
    return frozenset([frozenset([n])])


def f_and(a, b):
    r = set()
    for x in a:
        for y in b:
            r ^= {x | y}
    return frozenset(r)


def bv(bits):
    bits = tuple(bits)
    return ('bv', len(bits), bits)


def is_bv(x):
    return isinstance(x, tuple) and len(x) == 3 and x[0] == 'bv'


def opaque(*what):
    return var('?' + repr(what))


class Definite(Wrong):
    pass


class EState(State):
    __slots__ = ('bsub', 'facts', 'text', 'hist', 'first', 'tok', 'seg')

    def __init__(self):
        State.__init__(self)
        self.bsub, self.facts, self.text = {}, {}, {}
        self.tok, self.seg = 0, 's'
        self.start(1)

    def start(self, first):
        """an element begins: nothing read, the indices begin at offset `first`"""
        self.hist, self.first = ((tuple([F0] * NB), F0, False),), first

    def copy(self):
        s = EState()
        s.mem = dict(self.mem)
        s.obj = dict(self.obj)
        s.sub, s.zero, s.cond, s.cur = dict(self.sub), dict(self.zero), dict(self.cond), dict(self.cur)
        s.zeroed, s.fuzzy = self.zeroed, self.fuzzy
        s.bsub, s.facts, s.text = dict(self.bsub), dict(self.facts), dict(self.text)
        s.hist, s.first, s.tok, s.seg = self.hist, self.first, self.tok, self.seg
        return s


class Scan(Machine):
    LIMIT = 60000

    def __init__(self, mod, own, lay):
        Machine.__init__(self, mod, own)
        self.fields, self.enum = lay['fields'], lay['values']
        self.loose = False              # something is forgotten
        self.exact = None               # number of further indices that are followed
        self.more = 1                   # further elements
        self.paths = self.states = self.tokens = 0
        self.collect = None             # violations in a generalised state: [(violation, state, bit that is wrong)]
        self.digits = range(10)
        self.statics = set()
        self.deadline = time.time() + 60

    # ---------------------------------------------------------- bits
    def reduce(self, st, f):
        for _ in range(40):
            vs = {v for m in f for v in m if v in st.bsub}
            if not vs:
                break
            r = set()
            for m in f:
                t = F1
                for v in m:
                    t = f_and(t, st.bsub.get(v, var(v)))
                r ^= t
            f = frozenset(r)
        if f in st.facts:
            return F1 if st.facts[f] else F0
        if f ^ F1 in st.facts:
            return F0 if st.facts[f ^ F1] else F1
        return f

    def assume(self, st, f, w):
        f = self.reduce(st, f)
        if f in (F0, F1):
            return (f == F1) == w
        for m in sorted(f, key=lambda m: sorted(m)):
            if len(m) == 1 and sum(1 for x in f if m <= x) == 1:
                st.bsub[next(iter(m))] = f ^ frozenset([m]) ^ (F1 if w else F0)
                return True
        st.facts[f] = w
        return True

    def decide(self, st, f):
        f = self.reduce(st, f)
        if f in (F0, F1):
            return [(st, f == F1)]
        out = []
        for w in (False, True):
            s = st.copy()
            if self.assume(s, f, w):
                out.append((s, w))
        return out

    def bits(self, st, x, w):
        if isinstance(x, P):
            c = x.const()
            if c is None or c.denominator != 1:
                raise GiveUp('an integer that is not tracked')
            c = int(c)
            return [F1 if c >> k & 1 else F0 for k in range(w)]
        if is_bv(x):
            b = [self.reduce(st, f) for f in x[2][:w]]
            return b + [F0] * (w - len(b))
        if x == ('undef',):
            return [opaque('undef')] * w
        raise GiveUp('an integer that is not tracked')

    def pack(self, bits):
        if all(b in (F0, F1) for b in bits):
            c = sum(1 << k for k, b in enumerate(bits) if b == F1)
            w = len(bits)
            return num(c if w == 1 or c < 1 << (w - 1) else c - (1 << w))
        return bv(bits)

    def bounded(self, f, *what):
        return f if len(f) <= 64 else opaque(*what)

    def add(self, a, b, c=F0):
        out = []
        for k, (x, y) in enumerate(zip(a, b)):
            out.append(self.bounded(x ^ y ^ c, 'sum', k, tuple(a), tuple(b)))
            c = self.bounded(f_and(x, y) ^ f_and(c, x ^ y), 'carry', k, tuple(a), tuple(b))
        return out

    def anybit(self, b):
        b = {f for f in b if f != F0}
        if F1 in b:
            return F1
        if not b:
            return F0
        if len(b) <= 6:
            r = F1
            for f in b:
                r = f_and(r, f ^ F1)
            if len(r) <= 64:
                return r ^ F1
        return opaque('nonzero', tuple(sorted(map(repr, b))))

    def truth(self, st, c):
        if is_bv(c):
            return self.decide(st, c[2][0])
        if isinstance(c, P) and c.const() is None:
            raise GiveUp('a condition that is not tracked')
        return Machine.truth(self, st, c)

    def compare(self, st, pred, a, b):
        if is_bv(a) or is_bv(b):
            w = max(x[1] for x in (a, b) if is_bv(x))
            x, y = self.bits(st, a, w), self.bits(st, b, w)
            zero = all(f == F0 for f in y)
            if pred in ('eq', 'ne') or zero and pred in ('ugt', 'ule'):
                b = sorted({p ^ q for p, q in zip(x, y)} - {F0}, key=repr)
                if 6 < len(b) <= 12 and F1 not in b:
                    out, rest = [], [st]
                    for f in b:
                        nxt = []
                        for s in rest:
                            for s2, w in self.decide(s, f):
                                if w:
                                    out.append((s2, num(int(pred in ('ne', 'ugt')))))
                                else:
                                    nxt.append(s2)
                        rest = nxt
                    return out + [(s, num(int(pred in ('eq', 'ule')))) for s in rest]
            if pred in ('eq', 'ne') or pred in ('ugt', 'ule') and zero or pred in ('sgt', 'sle') and zero and x[-1] == F0:
                f = self.anybit([p ^ q for p, q in zip(x, y)])
                if pred in ('eq', 'ule', 'sle'):
                    f ^= F1
            elif pred in ('slt', 'sge') and zero:
                f = x[-1] ^ (F1 if pred == 'sge' else F0)
            elif pred in ('ult', 'uge') and y[0] == F1 and all(f == F0 for f in y[1:]):
                f = self.anybit(x) ^ (F1 if pred == 'ult' else F0)
            else:
                f = opaque('compare', pred, repr(x), repr(y))
            return [(st, self.pack([f]))]
        return Machine.compare(self, st, pred, a, b)

    def step(self, f, n, st, env, base):
        o = n.op
        if o in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'urem', 'srem', 'udiv', 'add', 'sub', 'mul', 'trunc', 'zext', 'sext', 'select',
                 'freeze'):
            xs = [self.val(env, v) for v in n.ops]
            if any(is_bv(x) or x == ('undef',) for x in xs) and not any(isinstance(x, tuple) and x[0] in ('?', 'p') for x in xs):
                e = dict(env)
                if o == 'select':
                    if all(isinstance(x, P) or is_bv(x) for x in xs[1:]) and is_bv(xs[0]):
                        w = L.int_width(L.typeof(n.i))
                        c = self.reduce(st, xs[0][2][0])
                        e[n.i] = self.pack([self.bounded(f_and(c, p) ^ f_and(c ^ F1, q), 'select', repr(c), repr(p), repr(q))
                                            for p, q in zip(self.bits(st, xs[1], w), self.bits(st, xs[2], w))])
                        return [(st, e)]
                    return Machine.step(self, f, n, st, env, base)
                if o == 'freeze':
                    e[n.i] = xs[0]
                    return [(st, e)]
                e[n.i] = self.pack(self.integer(st, n, o, xs))
                return [(st, e)]
        if o == 'load' and n.kind == 'int':
            p = self.val(env, n.ops[0])
            if is_ptr(p) and p[1][0] == 'text':
                out = []
                for s, c in self.char(st, p):
                    e = dict(env)
                    if c is END:
                        raise GiveUp('a character behind the end is read')
                    e[n.i] = num(c if c < 128 else c - 256)
                    out.append((s, e))
                return out
        return Machine.step(self, f, n, st, env, base)

    def integer(self, st, n, o, xs):
        w = L.int_width(L.typeof(n.i))
        w0 = L.int_width(L.typeof(n.ops[0]))
        a = self.bits(st, xs[0], w0)
        if o == 'trunc':
            return a[:w]
        if o in ('zext', 'sext'):
            return a + [F0 if o == 'zext' else a[-1]] * (w - w0)
        b = self.bits(st, xs[1], w)
        k = int(xs[1].const()) % (1 << w) if isinstance(xs[1], P) else None
        if o == 'xor':
            return [x ^ y for x, y in zip(a, b)]
        if o == 'and':
            return [f_and(x, y) for x, y in zip(a, b)]
        if o == 'or':
            return [x ^ y ^ f_and(x, y) for x, y in zip(a, b)]
        if o == 'add':
            return self.add(a, b)
        if o == 'sub':
            return self.add(a, [y ^ F1 for y in b], F1)
        if o == 'mul' and all(f == F0 for f in b[1:]):
            return [f_and(x, b[0]) for x in a]
        if k is None:
            raise GiveUp('a shift by an unknown amount')
        if o == 'shl':
            return [F0] * k + a[:w - k]
        if o in ('lshr', 'ashr'):
            return a[k:] + [F0 if o == 'lshr' else a[-1]] * min(k, w)
        if k and k & (k - 1) == 0 and o in ('urem', 'udiv'):
            e = k.bit_length() - 1
            return a[:e] + [F0] * (w - e) if o == 'urem' else a[e:] + [F0] * e
        if k == 2 and o == 'srem':
            return [a[0]] + [f_and(a[0], a[-1])] * (w - 1)
        raise GiveUp('instruction %s' % o)

    # ---------------------------------------------------------- memory
    def const(self, v):
        if L.is_global_var(v) and not L.is_global_const(v):
            i = L.initializer(v)
            if i and L.is_null(i):
                r = ('a', 'static ' + L.name(v))
                self.statics.add(r)
                return ptr(r, 0)
        return Machine.const(self, v)

    def initial(self, st, reg, off, size, kind):
        if reg in self.statics:         # nothing is stored yet
            return NULL if kind == 'ptr' else ZERO
        return Machine.initial(self, st, reg, off, size, kind)

    def load(self, st, p, size, kind):
        if is_ptr(p) and p[2] is not None and kind == 'int' and p[1][0] == 'a':
            x = st.mem.get((p[1], p[2]))
            if x is None or x[1] != size:
                b = []
                for k in range(size):
                    b += self.byte(st, p[1], p[2] + k)
                return self.pack(b) if any(f != opaque('undef') for f in b) else ('undef',)
        return Machine.load(self, st, p, size, kind)

    def byte(self, st, reg, off):
        for (r, o), (x, z) in st.mem.items():
            if r == reg and o <= off < o + z:
                if isinstance(x, P) or is_bv(x) or x == ('undef',):
                    return self.bits(st, x, 8 * z)[8 * (off - o):8 * (off - o) + 8]
                raise GiveUp('part of a value')
        if reg in self.statics or any(r == reg and a <= off < b for r, a, b in st.zeroed):
            return [F0] * 8
        return [opaque('undef')] * 8

    def store(self, st, p, v, size):
        if is_ptr(p) and p[2] is not None and p[1][0] == 'a':
            for o in range(p[2] - 15, p[2] + size):
                x = st.mem.get((p[1], o))
                if x is not None and (o != p[2] or x[1] != size) and o + x[1] > p[2]:
                    part = {}
                    if isinstance(x[0], P) or is_bv(x[0]):
                        b = self.bits(st, x[0], 8 * x[1])
                        part = {k: self.pack(b[8 * (k - o):8 * (k - o) + 8]) for k in range(o, o + x[1])
                                if not p[2] <= k < p[2] + size}
                    del st.mem[(p[1], o)]
                    for k, y in part.items():
                        st.mem[(p[1], k)] = (y, 1)
        Machine.store(self, st, p, v, size)

    # ---------------------------------------------------------- the text
    def classes(self, st, off):
        k = off - st.first
        if k == -1:
            return [ord('e')]
        if k == 0 and len(st.hist) == 1 and st.seg == 's':
            return [48 + d for d in self.digits]
        last = st.text.get(off - 1)
        if k == 0 or last is not None and last is not END and 48 <= last < 58:
            return ([48 + d for d in self.digits] if self.exact is None or k <= self.exact else []) + ([END] + OTHER if self.exact is None else [32, ord('e')] if self.more else [32])
        raise GiveUp('the text is read far ahead')

    def char(self, st, p):
        """[(state, character)]"""
        if p[1] != ('text', st.seg) or p[2] is None:
            raise GiveUp('the text is read at an unknown place')
        off = p[2]
        if off in st.text:
            return [(st, st.text[off])]
        if off > st.first and off - 1 not in st.text:
            raise GiveUp('the text is read far ahead')
        out = []
        for c in self.classes(st, off):
            s = st.copy()
            s.text[off] = c
            if c is END or not 48 <= c < 58 or off < st.first:
                out.append((s, c))
                continue
            out += [(x, c) for x in self.digit(s, c - 48)]
        return out

    def digit(self, st, d):
        """one more index"""
        V, sg, dead = st.hist[-1]
        if dead:
            st.hist += ((V, sg, True),)
            return [st]
        out = []
        for s, has in self.decide(st, var('p%d' % d)):
            for x, dup in self.decide(s, V[d]) if has else [(s, False)]:
                x.hist += self.after(x, d, not has or dup)
                out.append(x)
        return out

    def after(self, st, d, dead):
        V, sg, _ = st.hist[-1]
        for j in range(d + 1, NB):
            sg = sg ^ V[j]
        V = tuple(F1 if j == d else f for j, f in enumerate(V))
        return ((V, self.reduce(st, sg), dead),)

    def same_ptr(self, st, a, b):
        if a[1][0] == 'text' and b[1][0] == 'textend' or b[1][0] == 'text' and a[1][0] == 'textend':
            p = a if a[1][0] == 'text' else b
            return [(s, c is END) for s, c in self.char(st, p)]
        if a[1][0] == 'text' and b[1][0] == 'text' and a[1] == b[1] and None not in (a[2], b[2]):
            return [(st, a[2] == b[2])]
        return Machine.same_ptr(self, st, a, b)

    # ---------------------------------------------------------- calls
    def call(self, st, nm, args, n=None):
        d = self.dem.get(nm, nm)
        if time.time() > self.deadline:
            raise Late('the time limit')
        if nm in ('isdigit', 'isalnum', 'isspace', 'isalpha', 'isxdigit', 'ispunct', 'isupper', 'islower'):
            c = args[0].const() if isinstance(args[0], P) else None
            if c is None:
                raise GiveUp('the class of an unknown character')
            c = chr(int(c) & 127) if -1 < c < 128 else '\x80'
            r = {'isdigit': c in '0123456789', 'isalnum': c.isascii() and c.isalnum(), 'isspace': c in ' \t\n\v\f\r',
                 'isalpha': c.isascii() and c.isalpha(), 'isxdigit': c in '0123456789abcdefABCDEF', 'isupper': 'A' <= c <= 'Z',
                 'islower': 'a' <= c <= 'z', 'ispunct': c.isascii() and c.isprintable() and not c.isalnum() and c != ' '}[nm]
            return [(st, num(int(r)))]
        if nm.startswith('llvm.ctpop'):
            if is_bv(args[0]):
                b = self.bits(st, args[0], args[0][1])
                m = sum(f != F0 for f in b)
                low = F0
                for f in b:
                    low ^= f
                return [(st, self.pack([low] + [opaque('count', k, tuple(sorted(map(repr, b)))) if m >> k else F0
                                                for k in range(1, len(b))]))]
        if nm.startswith('llvm.fshl') or nm.startswith('llvm.umin') or nm.startswith('llvm.umax'):
            raise GiveUp(nm)
        if d == 'algebra::pss() const':
            return [(st, bv([var('p%d' % k) for k in range(NB)] + [F0] * 22))]
        m = re.match(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::(\w+)\(', d)
        if m:
            k = m.group(1)
            if k in ('begin', 'cbegin', 'data', 'c_str'):
                return [(st, ptr(('text', st.seg), 0))]
            if k in ('end', 'cend'):
                return [(st, ptr(('textend',)))]
            raise GiveUp('the text is used in an unknown way')
        m = re.match(r'(?:.* )?std::vector<token, std::allocator<token> >::(~?\w+|operator\[\])(?:<.*?>)?\(', d)
        if m:
            k = m.group(1)
            if k in ('emplace_back', 'push_back') and len(args) == 2:
                return [(s, ptr(('stored',))) for s in self.push(st, args[1])]
            if k in ('vector', '~vector', 'reserve'):
                return [(st, None)]
            raise GiveUp('the vector of tokens is used in an unknown way')
        if nm == '__cxa_allocate_exception':
            return [(st, ptr(('a', 'exception')))]
        if nm in ('__cxa_throw', '__cxa_free_exception') or re.match(r'std::\w+(_error|exception|argument)::', d):
            return [(st, None)]
        return Machine.call(self, st, nm, args, n)

    def report(self, st, msg, where=None, f=F1):
        w = Wrong(msg, where or self.where())
        if self.collect is None:
            sure = not self.loose and (st.seg != 'g' or self.confirmed(st, f))
            raise Definite(msg, w.where) if sure else w
        self.collect.append((w, st.copy(), f))

    def confirmed(self, st, f):
        """the generalised state is reached with indices for which the bit is wrong: at least three basis
        vectors in either order"""
        eqs = [var(v) ^ t for v, t in st.bsub.items()] + [t ^ (F0 if w else F1) ^ F1 for t, w in st.facts.items()]
        f = self.reduce(st, f)
        names = {v for e in eqs + [f] for m in e for v in m}
        if any(not re.match(r'[bp]\d$|s$', v) for v in names):
            return False
        val = lambda e, on: sum(1 for m in e if m <= on) & 1
        for dim in range(NB, 0, -1):
            ps = {'p%d' % j for j in range(dim)}
            for bits in range(1 << dim):
                if bin(bits).count('1') < 3:
                    continue
                for sg in (0, 1):
                    on = ps | {'b%d' % j for j in range(dim) if bits >> j & 1} | ({'s'} if sg else set())
                    if all(not val(e, on) for e in eqs) and val(f, on):
                        return True
        return False

    def push(self, st, p):
        self.tokens += 1
        r, o = self.place(p)
        t = self.load(st, ptr(r, o + self.fields['type'][0]), self.fields['type'][1], 'int')
        c = t.const() if isinstance(t, P) else None
        if c is None:
            raise GiveUp('the type of a token is not known')
        word = lambda s: self.word(s)
        if self.enum.get('element') != int(c):
            self.report(st, 'the basis element %s becomes a token of another kind' % word(st))
            return []
        k = len(st.hist) - 1
        out = []
        for s, ch in self.char(st, ptr(('text', st.seg), st.first + k)):
            V, sg, dead = s.hist[-1]
            if len(s.hist) - 1 > k:
                if not dead:
                    self.report(s, 'the token of the basis element %s ends before the last index' % word(s))
                continue
            if dead:
                self.report(s, 'the element %s, which repeats an index or names one the algebra does not have, is accepted' % word(s))
                continue
            v = self.bits(s, self.load(s, ptr(r, o + self.fields['e.value'][0]), 4, 'int'), 32)
            for j in range(32):
                want = V[j] if j < NB else F0
                if self.reduce(s, v[j] ^ want) != F0:
                    self.report(s, 'the token of the basis element %s does not have the right indices (%d)' % (word(s), j), None,
                                v[j] ^ want)
                    break
            g = self.bits(s, self.load(s, ptr(r, o + self.fields['e.negative'][0]), 1, 'int'), 8)
            for f in [g[0] ^ sg] + g[1:]:
                if self.reduce(s, f) != F0:
                    self.report(s, 'the sign of the basis element %s is not that of the permutation of its indices' % word(s), None, f)
                    break
            self.paths += 1
            if ch == ord('e') and s.tok < self.more:
                x = s.copy()
                x.tok += 1
                old = x.seg
                x.seg = 's'
                self.rebase(x, old, st.first + k)
                x.text = {}
                x.bsub, x.facts = {}, {}
                x.start(1)
                out.append(x)
        return out

    def rebase(self, st, old, by):
        """offset `by` of the old segment becomes offset 0"""
        for a, (x, z) in list(st.mem.items()):
            if is_ptr(x) and x[1] == ('text', old) and x[2] is not None:
                st.mem[a] = (ptr(('text', st.seg), x[2] - by), z)

    def word(self, st):
        return 'e' + ''.join(('...' if st.seg != 's' else '') + ''.join(chr(st.text[k]) for k in sorted(st.text)
                                                                     if k >= st.first and st.text[k] is not END and
                                                                     48 <= st.text[k] < 58))

    def thrown(self, f, o):
        st = o[1]
        if len(st.hist) < 2 or st.hist[-1][2]:
            return
        # an index that is not read yet may be the reason only if it was looked at
        self.report(st, 'the basis element %s is rejected' % self.word(st), f.line(o[2]) if o[2] is not None else None)

    # ---------------------------------------------------------- loops
    def cursor(self, st, env):
        offs = {x[2] for x, z in st.mem.values() if is_ptr(x) and x[1] == ('text', st.seg)}
        offs |= {x[2] for x in env.values() if is_ptr(x) and x[1] == ('text', st.seg)}
        offs = {o for o in offs if o is not None and st.first <= o <= st.first + len(st.hist) - 1}
        return max(offs) - st.first if offs else None

    def cells(self, f, h, st, env):
        """what the loop may change: {place: value}"""
        out = {('e', n.i): env.get(n.i) for n in f.code[h] if n.op == 'phi'}
        for a, (x, z) in st.mem.items():
            if not (a[0][0] == 'a' and a[0][-1] in self.ignored):
                out[('m', a, z)] = x
        return out

    ignored = ('exception',)

    def other_loop(self, f, h, prev, st, env, active, base):
        out, pend, more = [], [], []
        born = self.serial
        entry = st.tok, self.cursor(st, env)
        work = [(st, env, 0, 0)]
        heads = [n.i for n in f.code[h] if n.op == 'phi']

        def clean(s):
            for a in [a for a in s.mem if a[0][0] == 'a' and len(a[0]) == 3 and isinstance(a[0][1], int) and a[0][1] > born]:
                del s.mem[a]

        def run(s, e):
            """(arrivals, outcomes)"""
            self.states += 1
            back, others = [], []
            for o in self.body(f, h, s, dict(e), active, base):
                if o[0] == 'back':
                    ph = self.phis(f, h, o[2], o[4])
                    e2 = dict(env)
                    e2.update(ph)
                    clean(o[3])
                    back.append((o[3], e2))
                else:
                    others.append(o)
            return back, others
        while work:
            s, e, rounds, steps = work.pop()
            back, others = run(s, e)
            out += others
            for s2, e2 in back:
                if s2.hist[-1][2] and self.exact is None and len(s2.hist) > 4:
                    continue
                c, c2 = self.cursor(s, e), self.cursor(s2, e2)
                if s2.tok != s.tok:
                    if self.exact is None:
                        more.append((s2, e2))
                    elif s2.tok <= 1:
                        work.append((s2, e2, 0, 0))
                elif c is not None and c2 is not None and c2 > c:
                    if self.exact is not None:
                        if rounds <= self.exact:
                            work.append((s2, e2, rounds + 1, 0))
                    elif rounds >= 1:
                        pend.append((s2, e2))
                    else:
                        work.append((s2, e2, rounds + 1, 0))
                elif steps < 70:
                    work.append((s2, e2, rounds, steps + 1))
                else:
                    raise GiveUp('a loop that does not advance in the text')
        if pend:
            o, m = self.indices(f, h, pend, env, run)
            out += o
            more += m
        if more:
            out += self.elements(f, h, prev, st, env, active, base, more, run)
        return out

    def tables(self, f, h, states):
        """the cells of each of the states, with the same places in all of them"""
        ts = [self.cells(f, h, s, e) for s, e in states]
        where = {}
        for k in {k for t in ts for k in t if k[0] == 'm'}:
            for o in range(k[1][1], k[1][1] + k[2]):
                where.setdefault((k[1][0], o), set()).add(k)
        split = {k for ks in where.values() if len(ks) > 1 for k in ks}
        keys = {k for t in ts for k in t} - split
        keys |= {('m', (k[1][0], o), 1) for k in split for o in range(k[1][1], k[1][1] + k[2])}
        out = []
        for (s, e), t in zip(states, ts):
            r = {}
            for k in keys:
                if k in t:
                    r[k] = t[k]
                elif k[0] == 'm' and k[1][0][0] == 'a':
                    try:
                        r[k] = self.load(s, ptr(*k[1]), k[2], 'int')
                    except GiveUp:
                        r[k] = ('?',)
                else:
                    r[k] = ('?',)
            out.append(r)
        return out

    def relate(self, f, h, states):
        """{place: relation} that holds in all the states; bits in terms of b0.., s"""
        tmpl = None
        for (s, e), table in zip(states, self.tables(f, h, states)):
            c = self.cursor(s, e)
            V, sg, _ = s.hist[c]
            env = {'b%d' % j: V[j] for j in range(NB)}
            env['s'] = sg
            now = {}
            for k, x in table.items():
                if is_ptr(x) and x[1] == ('text', s.seg):
                    now[k] = ('text', x[2] - s.first - c) if x[2] is not None else None
                elif is_bv(x) or isinstance(x, P) and x.const() is not None:
                    now[k] = ('int', x)
                else:
                    now[k] = ('same', x)
            if tmpl is None:
                tmpl = {}
                for k, x in now.items():
                    tmpl[k] = x if x is None or x[0] != 'int' else ('bits', None)
            for k in list(tmpl):
                x, t = now.get(k), tmpl[k]
                if t is None or x is None or (t[0] == 'bits') != (x[0] == 'int') or t[0] != 'bits' and t != x:
                    tmpl[k] = None
                    continue
                if t[0] != 'bits':
                    continue
                w = 8 * k[2] if k[0] == 'm' else L.int_width(L.typeof(k[1]))
                bits = self.bits(s, x[1], w)
                cand = t[1] or [None] * w
                new = []
                for j, b in enumerate(bits):
                    names = cand[j]
                    if names is None:
                        names = ['0', '1', 's', '!s'] + ['b%d' % i for i in range(NB)] + ['!b%d' % i for i in range(NB)]
                    keep = []
                    for nmn in names:
                        v = F0 if nmn == '0' else F1 if nmn == '1' else env[nmn.lstrip('!')]
                        if nmn[0] == '!':
                            v = v ^ F1
                        if self.reduce(s, v ^ b) == F0:
                            keep.append(nmn)
                    new.append(keep)
                tmpl[k] = ('bits', new)
        return tmpl

    def general(self, st, env, tmpl):
        """the state the relations describe"""
        s, e = st.copy(), dict(env)
        c = self.cursor(st, env)
        s.seg = 'g'
        s.bsub, s.facts, s.text = {}, {}, {}
        s.first = 0
        s.hist = ((tuple(var('b%d' % j) for j in range(NB)), var('s'), False),)
        for k, t in tmpl.items():
            if t is None:
                x = ('?',)
            elif t[0] == 'text':
                x = ptr(('text', 'g'), t[1])
            elif t[0] == 'same':
                x = t[1]
            else:
                bits = []
                for j, names in enumerate(t[1]):
                    if not names:
                        bits.append(var('u%d:%s' % (j, repr(k[1]) if k[0] == 'm' else L.name(k[1]))))
                        continue
                    vs = [F0 if x == '0' else F1 if x == '1' else var(x[1:]) ^ F1 if x[0] == '!' else var(x) for x in names]
                    bits.append(vs[0])
                    for v in vs[1:]:
                        if not self.assume(s, v ^ vs[0], False):
                            raise GiveUp('the relations of a loop contradict each other')
                x = self.pack(bits)
            if k[0] == 'e':
                e[k[1]] = x
            else:
                s.mem[k[1]] = (x, k[2])
        for a in [a for a in s.mem if ('m', a, s.mem[a][1]) not in tmpl and not (a[0][0] == 'a' and a[0][-1] in self.ignored)]:
            del s.mem[a]
        return s, e

    def indices(self, f, h, pend, env, run):
        pend = [p for p in pend if not p[0].hist[self.cursor(*p)][2]] or pend[:1]
        seen = list(pend)
        tmpl = self.relate(f, h, seen)
        for _ in range(40):
            s, e = self.general(pend[0][0], pend[0][1], tmpl)
            self.collect = []
            try:
                back, others = run(s, e)
                found = self.collect
            finally:
                self.collect = None
            arr, more = [], []
            for s2, e2 in back:
                if s2.tok != s.tok:
                    more.append((s2, e2))
                    continue
                c = self.cursor(s2, e2)
                if c is None or c < 1:
                    raise GiveUp('a loop that does not advance in the text')
                if not s2.hist[c][2]:
                    arr.append((s2, e2))
                else:
                    raise GiveUp('a bad index is not rejected at once')
            seen += arr
            new = self.relate(f, h, pend[:1] + arr)
            if set(new) == set(tmpl):
                new = {k: self.both(t, new[k]) for k, t in tmpl.items()}
            else:
                new = self.relate(f, h, seen)
            if new == tmpl:
                for w, s2, x in found:
                    if not self.loose and self.confirmed(s2, x):
                        raise Definite(str(w), w.where)
                if found:
                    raise found[0][0]
                return others, more
            tmpl = new
        raise GiveUp('the relations of a loop do not settle')

    def both(self, t, x):
        if t is None or x is None or t[0] != x[0] or t[0] != 'bits' and t != x:
            return None
        if t[0] != 'bits':
            return t
        return 'bits', [[n for n in a if n in b] for a, b in zip(t[1], x[1])]

    def elements(self, f, h, prev, st, env, active, base, more, run):
        """the loop over the tokens: what an element leaves behind is forgotten"""
        outs = []
        for _ in range(4):
            s, e = st.copy(), dict(env)
            self.loose = True
            if len(s.hist) > 1 or s.seg != 's':
                raise GiveUp('an element within an element')
            s.tok = 0
            for s2, e2 in more:
                for a, (x, z) in s2.mem.items():
                    if a not in s.mem and a[0][0] == 'a' and a[0][-1] not in self.ignored:
                        if any(r == a[0] and o < a[1] + z and a[1] < o + y for (r, o), (_, y) in s.mem.items()):
                            raise GiveUp('the loop over the tokens')
                        s.mem[a] = (('?',), z)
            for k in self.cells(f, h, s, e):
                x = e.get(k[1]) if k[0] == 'e' else s.mem[k[1]][0]
                for s2, e2 in more:
                    y = e2.get(k[1]) if k[0] == 'e' else s2.mem.get(k[1], (None, 0))[0]
                    if y != x:
                        x = ('?',) if not isinstance(x, P) and not is_bv(x) and x != ('undef',) else bv(
                            [var('w%d:%s' % (j, repr(k[1]) if k[0] == 'm' else L.name(k[1])))
                             for j in range(8 * k[2] if k[0] == 'm' else L.int_width(L.typeof(k[1])))])
                        break
                if k[0] == 'e':
                    e[k[1]] = x
                else:
                    s.mem[k[1]] = (x, k[2])
            if s.mem == st.mem and all(e.get(n.i) == env.get(n.i) for n in f.code[h] if n.op == 'phi'):
                return outs
            work, more2 = [(s, e)], []
            back, others = run(s, e)
            outs = others
            for s2, e2 in back:
                if s2.tok == 0:
                    raise GiveUp('the loop over the tokens')
                more2.append((s2, e2))
            if self.stable(f, h, s, e, more2):
                return outs
            st, env, more = s, e, more + more2
        raise GiveUp('the loop over the tokens does not settle')

    def stable(self, f, h, s, e, more):
        for k in self.cells(f, h, s, e):
            x = e.get(k[1]) if k[0] == 'e' else s.mem[k[1]][0]
            if x == ('?',) or is_bv(x):
                continue
            for s2, e2 in more:
                y = e2.get(k[1]) if k[0] == 'e' else s2.mem.get(k[1], (None, 0))[0]
                if y != x:
                    return False
        return all(a in s.mem for s2, e2 in more for a in s2.mem if a[0][0] == 'a' and a[0][-1] not in self.ignored)


def attempt(mod, own, lay, exact=None, more=1, digits=range(10)):
    M = Scan(mod, own, lay)
    M.exact, M.more, M.digits = exact, more, digits
    nm = next((n for n, d in M.dem.items() if d.startswith('tokenize(') and M.func(n)), None)
    if nm is None:
        return 'unknown', 'there is no function tokenize', None, M
    f = M.func(nm)
    st = EState()
    args = [ptr(('a', 'result')), ptr(('in', 'text')), ptr(('alg',))]
    if len(f.params) != 3:
        return 'unknown', 'the signature of tokenize', None, M
    M.analysed.add(nm)
    try:
        for _ in M.run(f, args, st):
            pass
    except Wrong as w:
        return 'wrong' if exact is not None or isinstance(w, Definite) else 'unknown', str(w), w.where, M
    except (GiveUp, RecursionError) as e:
        return 'unknown', str(e), None, M
    if not M.paths:
        return 'unknown', 'no element token is stored', None, M
    return 'holds', '', None, M


def analyse(mod, own, lay):
    r = attempt(mod, own, lay, None)
    if r[0] in ('holds', 'wrong'):
        return r
    for a in ((1, 0), (1, 1, range(3)), (4, 0, range(5)), (2, 0)):
        x = attempt(mod, own, lay, *a)
        if x[0] == 'wrong':
            return x
    return 'unknown', r[1], None, r[3]


RULE = ('for every word e<digits>, however long, the token that is stored is of the element kind, holds exactly the basis vectors '
        'whose indices were written and is negative exactly if their order is an odd permutation of the ascending one',
        'a word that repeats an index or names one the algebra does not have is rejected, every other one is accepted',
        'what one element leaves behind does not reach the next')


def check(o, tier):
    try:
        mod, own = module()
        lay = lay_out()
    except build.BuildError as e:
        o.error(str(e))
        return
    o.coverage['rules'] = list(RULE)
    r = limited(600 if tier == 'thorough' else 300, lambda: analyse(mod, own, lay))
    status, msg, where, M = r[:4]
    if M:
        o.count('functions of the tokenizer analysed', len(M.analysed))
        o.count('states of loops', M.states)
        o.count('element tokens compared with their text', M.tokens)
        for n in sorted(M.analysed)[:8]:
            o.samples.append({'function': M.dem.get(n, n).split('(')[0]})
    if status == 'wrong':
        o.violate('element', msg, where or 'sym/parser.cpp', None)
    elif status == 'holds':
        o.count('obligations proved for all lengths', 4)
    else:
        o.coverage.setdefault('not decided', []).append('element: %s' % msg)


if __name__ == '__main__':
    t0 = time.time()
    mod, own = module()
    lay = lay_out()
    t0 = time.time()
    r = analyse(mod, own, lay)
    print(r[:3], r[3].paths, r[3].states, r[3].tokens, time.time() - t0)
    t0 = time.time()
    for a in ((1, 0), (1, 1, range(3)), (4, 0, range(5)), (2, 0)):
      t0 = time.time()
      r = attempt(mod, own, lay, *a)
      print(r[:3], r[3].paths, r[3].states, r[3].tokens, time.time() - t0)
