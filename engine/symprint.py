"""Printing of the symbolic utility: the text operator<< writes for a multivector against
what it denotes.

The printing functions are interpreted abstractly.  The maps hold any number of entries;
whether there is another one, what a coefficient or an exponent is compared with and which
bits a blade has is decided where the code asks.  A reader follows the text as it is written
and knows which entry of the multivector it stands in; at the end of each factor, monomial,
polynomial, blade and term it demands that the text denotes exactly that entry.  Entries
behind the first are renamed when a loop head is reached, so that the loops are explored
until the states repeat, whatever the number of entries."""
import math
import re
import time
from fractions import Fraction
from collections import namedtuple
import llvm as L
import build
from symmap import Machine, State, P, GiveUp, Wrong, Late, ptr, is_ptr, num, ZERO, ONE, NULL, VALUE, module, limited, simple

ROOT = (('mv',), 0)
BITS = 10
G = namedtuple('G', 'i j k paren phase sign num lex upto')
START = G(0, 0, 0, 0, 'start', 1, None, '', 0)
LIT = 'lit'


class PState(State):
    __slots__ = ('cnt', 'num', 'bits', 'nz', 'alias', 'g', 'gone', 'shut')

    def __init__(self):
        State.__init__(self)
        self.cnt, self.num, self.bits, self.nz, self.alias = {}, {}, {}, {}, {}
        self.g, self.gone, self.shut = START, frozenset(), frozenset()

    def copy(self):
        s = PState()
        s.mem = dict(self.mem)
        s.zeroed, s.fuzzy = self.zeroed, self.fuzzy
        s.cnt, s.num, s.nz, s.alias = dict(self.cnt), dict(self.num), dict(self.nz), dict(self.alias)
        s.bits = dict(self.bits)
        s.g, s.gone, s.shut = self.g, self.gone, self.shut
        return s

    def key(self):
        one = lambda d: frozenset(d.items())
        return (one(self.mem), one(self.cnt), one(self.num), one(self.bits), one(self.nz), one(self.alias), self.g,
                self.zeroed, self.gone, self.shut)


def level(a):
    """mv, poly or mon: the kind of the map at address a"""
    n, r = 0, a[0]
    while r[0] == 'nd':
        n, r = n + 1, r[1][0]
    return ('mv', 'poly', 'mon')[n] if r == ('mv',) and n < 3 else None


def renamed(x, a, low, by):
    """('nd', a, i) becomes ('nd', a, i - by); None if i < low"""
    if not isinstance(x, tuple) or isinstance(x, P):
        return x
    if len(x) == 3 and x[0] == 'nd' and x[1] == a:
        return None if x[2] < low else ('nd', a, x[2] - by)
    out = []
    for y in x:
        z = renamed(y, a, low, by)
        if z is None and y is not None:
            return None
        out.append(z)
    return type(x)(*out) if isinstance(x, G) else tuple(out)


def indices(x, a, out):
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'nd' and x[1] == a:
            out.add(x[2])
        for y in x:
            indices(y, a, out)
    return out


def within(nd, x):
    """x is part of nd or of an entry of the same map before it"""
    return isinstance(x, tuple) and (x == nd or nd[0] == 'nd' and len(x) == 3 and x[0] == 'nd' and x[1] == nd[1] and x[2] <= nd[2] or
                                     any(within(nd, y) for y in x))


def within_only(nd, x):
    """x leads to an entry of a map inside nd"""
    return isinstance(x, tuple) and (len(x) == 3 and x[0] == 'nd' and inside(nd, x[1]) or any(within_only(nd, y) for y in x))


def inside(nd, x):
    return isinstance(x, tuple) and (x == nd or any(inside(nd, y) for y in x))


def bare(d):
    """a demangled name without template arguments"""
    for _ in range(12):
        e = re.sub(r'<[^<>]*>', '', d)
        if e == d:
            break
        d = e
    return d


def maps_in(x, out):
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'nd':
            out.add(x[1])
        for y in x:
            maps_in(y, out)
    return out


class Printer(Machine):
    LIMIT = 60000

    def __init__(self, mod, own):
        Machine.__init__(self, mod, own)
        self.exact = None
        self.frames, self.names, self.memo, self.statics = [], None, {}, set()
        self.states = self.pieces = self.paths = self.obligations = 0
        self.deadline = time.time() + 120

    # ---------------------------------------------------------- maps
    def count(self, st, a):
        return st.cnt.get(a, (1 if level(a) == 'poly' else 0, None))

    def more(self, st, a, n):
        """[(state, whether the map has more than n entries)]"""
        if n < 0:
            return [(st, True)]
        self.usable(st, a)
        lo, hi = self.count(st, a)
        if lo > n:
            return [(st, True)]
        if hi is not None and hi <= n:
            return [(st, False)]
        s = st.copy()
        st.cnt[a] = (n + 1, hi)
        s.cnt[a] = (lo, n)
        if self.exact is not None and n >= self.exact[('mv', 'poly', 'mon').index(level(a))]:
            return [(s, False)]
        return [(st, True), (s, False)]

    def usable(self, st, x):
        if any(within(y, x) for y in st.shut):
            raise GiveUp('an entry is looked at after its text is complete')

    def forget(self, st, nd):
        if self.exact is not None:
            return
        for d in (st.num, st.cnt, st.bits, st.nz):
            for k in [k for k in d if within(nd, k)]:
                del d[k]
        st.shut = frozenset(y for y in st.shut if not within(nd, y)) | {nd}
        st.gone = frozenset(y for y in st.gone if not within(nd, y))

    def at(self, st, p):
        a = self.place(p)
        a = st.alias.get(a, a)
        if level(a) is None:
            raise GiveUp('a container that is not part of the multivector')
        return a

    def map_call(self, st, kind, meth, sig, args, n):
        if meth == 'map' and len(args) == 2 and sig.startswith('(std::map'):
            st.alias[self.place(args[0])] = self.at(st, args[1])
            return [(st, None)]
        if meth == '~map':
            st.alias.pop(self.place(args[0]), None)
            return [(st, None)]
        a = self.at(st, args[0])
        if meth in ('begin', 'cbegin'):
            if a in st.gone:
                raise GiveUp('a map is traversed again')
            return [(s, ptr(('nd', a, 0) if w else ('end', a))) for s, w in self.more(st, a, 0)]
        if meth in ('end', 'cend'):
            return [(st, ptr(('end', a)))]
        if a in st.gone:
            raise GiveUp('the size of a map is asked late')
        if meth == 'empty':
            return [(s, num(int(not w))) for s, w in self.more(st, a, 0)]
        if meth == 'size':
            return [(st, ('size', a))]
        raise GiveUp('std::map::%s' % meth)

    def advance(self, st, p):
        if not is_ptr(p) or p[1][0] != 'nd':
            if is_ptr(p) and p[1][0] == 'end':
                raise Wrong('an iterator is advanced past the end', self.where())
            raise GiveUp('an iterator is advanced')
        _, a, i = p[1]
        return [(s, ptr(('nd', a, i + 1) if w else ('end', a))) for s, w in self.more(st, a, i + 1)]

    def same_ptr(self, st, a, b):
        if a == b:
            return [(st, True)]
        k = {a[1][0], b[1][0]}
        if k <= {'nd', 'end'}:
            return [(st, a[1] == b[1] and a[2] == b[2])]
        return Machine.same_ptr(self, st, a, b)

    def const(self, v):
        if L.is_global_var(v) and not L.is_global_const(v):
            i = L.initializer(v)
            if i and L.is_null(i):
                r = ('a', 'static ' + L.name(v))
                self.statics.add(r)
                return ptr(r, 0)
        return Machine.const(self, v)

    def initial(self, st, reg, off, size, kind):
        if reg in self.statics:         # nothing is stored yet
            return NULL if kind == 'ptr' else ZERO
        return Machine.initial(self, st, reg, off, size, kind)

    # ---------------------------------------------------------- values
    def known(self, st, v):
        """constant or ('lin', node, what, sign)"""
        if isinstance(v, P):
            return v.const()
        if isinstance(v, tuple) and v[0] == 'lin':
            self.usable(st, v[1])
            f = st.num.get((v[1], v[2]))
            if f and f[0] == 'eq':
                return f[1] * v[3]
        return None

    def load(self, st, p, size, kind):
        if is_ptr(p) and p[1][0] == 'nd' and p[2] is not None:
            a = p[1][1]
            lv = level(a)
            if lv == 'mv' and p[2] == 32 and size == 4:
                return ('key', p[1], 0, (1 << BITS) - 1)
            if lv == 'poly' and p[2] == VALUE['poly'] and size == 4:
                return ('lin', p[1], 'c', 1)
            if lv == 'mon' and p[2] == VALUE['mon'] and size == 4:
                return ('lin', p[1], 'x', 1)
            raise GiveUp('part of an entry')
        if is_ptr(p) and p[1][0] == 'end':
            raise Wrong('the end of a container is read', self.where())
        return Machine.load(self, st, p, size, kind)

    def compare(self, st, pred, a, b):
        for x, y, flip in ((a, b, False), (b, a, True)):
            c = y.const() if isinstance(y, P) else None
            if not isinstance(x, tuple) or isinstance(x, P) or c is None:
                continue
            if x[0] == 'size':
                if c > 8 or x[1] in st.gone:
                    raise GiveUp('the number of entries is compared with %s' % c)
                p, c = pred[-2:], int(c)
                if flip:
                    p = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p, p)
                if p in ('gt', 'le', 'ge', 'lt'):
                    return [(s, num(int(w == (p in ('gt', 'ge'))))) for s, w in self.more(st, x[1], c - (p in ('ge', 'lt')))]
                out = []
                for s, w in self.more(st, x[1], c - 1):
                    out += [(s2, num(int((not v) == (p == 'eq')))) for s2, v in self.more(s, x[1], c)] if w else [(s, num(int(p == 'ne')))]
                return out
            if x[0] == 'key':
                p = pred
                if flip:
                    p = p[0] + {'gt': 'lt', 'lt': 'gt', 'ge': 'le', 'le': 'ge'}[p[1:]] if p[1:] in ('gt', 'lt', 'ge', 'le') else p
                if p in ('eq', 'ne'):
                    return [(s, num(int(w == (p == 'eq')))) for s, w in self.equal(st, x, int(c))]
                c = int(c) + (p[1:] in ('gt', 'le'))
                if c > 0 and c & (c - 1) == 0:
                    # below a power of two
                    k = c.bit_length() - 1
                    return [(s, num(int(w == (p[1:] in ('lt', 'le'))))) for s, w in
                            self.equal(st, ('key', x[1], x[2] + k, x[3] >> k), 0)]
                raise GiveUp('a comparison of a blade')
            if x[0] == 'sq':
                return self.decide_square(st, pred, x, c, flip)
            if x[0] == 'lin':
                k = self.known(st, x)
                if k is not None:
                    return Machine.compare(self, st, pred, num(k) if not flip else y, y if not flip else num(k))
                return self.decide(st, pred, x, c, flip)
        return Machine.compare(self, st, pred, a, b)

    def decide_square(self, st, pred, x, c, flip):
        """the square of a number of an entry against a constant"""
        self.usable(st, x[1])
        p = pred if pred in ('eq', 'ne') else pred[1:]
        if flip:
            p = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p, p)
        c = Fraction(c)
        if c > 0:
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a != c.numerator or b * b != c.denominator:
                raise GiveUp('the square of a coefficient is compared with %s' % c)
            c = Fraction(a, b)
        if p not in ('eq', 'ne', 'lt', 'gt', 'le', 'ge') or c < 0:
            raise GiveUp('a comparison of the square of a coefficient')
        k = (x[1], x[2])
        # outside, on and inside of [-c, c]
        parts = [([('lt', -c)], p in ('ne', 'gt', 'ge')), ([('gt', c)], p in ('ne', 'gt', 'ge')),
                 ([('eq', c)], p in ('eq', 'ge', 'le')), ([('gt', -c), ('lt', c)], p in ('ne', 'lt', 'le'))]
        if c:
            parts.append(([('eq', -c)], p in ('eq', 'ge', 'le')))
        out = []
        for facts, w in parts:
            s = st.copy()
            if (c or len(facts) == 1) and all(self.restrict(s, k, q, v) for q, v in facts):
                out.append((s, num(int(w))))
        return out

    def decide(self, st, pred, x, c, flip):
        """[(state, whether the comparison holds)]; facts: ('eq', value) or ('in', low, strict, high, strict, excluded)"""
        p = pred if pred in ('eq', 'ne') else pred[1:]
        if p not in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
            if pred in ('ord', 'uno'):
                return [(st, num(int(pred == 'ord')))]
            raise GiveUp('a comparison of a coefficient')
        turn = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
        if flip:
            p = turn[p]
        if x[3] < 0:
            p = turn[p]
        c = c / Fraction(x[3])
        out = []
        yes, no = {'eq': ('eq', 'ne'), 'ne': ('ne', 'eq'), 'lt': ('lt', 'ge'), 'ge': ('ge', 'lt'), 'gt': ('gt', 'le'), 'le': ('le', 'gt')}[p]
        for q, w in ((yes, 1), (no, 0)):
            s = st.copy()
            if self.restrict(s, (x[1], x[2]), q, c):
                out.append((s, num(w)))
        return out

    def restrict(self, st, k, q, c):
        f = st.num.get(k, ('in', None, False, None, False, frozenset([0]) if k[1] == 'x' else frozenset()))
        if f[0] == 'eq':
            return {'eq': f[1] == c, 'ne': f[1] != c, 'lt': f[1] < c, 'le': f[1] <= c, 'gt': f[1] > c, 'ge': f[1] >= c}[q]
        _, lo, ls, hi, hs, ex = f
        if q == 'ne':
            ex = ex | {c}
        if q in ('eq', 'ge', 'gt') and (lo is None or c > lo or c == lo and q == 'gt'):
            lo, ls = c, q == 'gt'
        if q in ('eq', 'le', 'lt') and (hi is None or c < hi or c == hi and q == 'lt'):
            hi, hs = c, q == 'lt'
        if k[1] == 'x':
            for _ in range(8):
                if lo is not None and (ls or lo in ex or lo != int(lo)):
                    lo, ls = (lo + 1 if lo == int(lo) else lo.__ceil__()), False
                if hi is not None and (hs or hi in ex or hi != int(hi)):
                    hi, hs = (hi - 1 if hi == int(hi) else hi.__floor__()), False
        if lo is not None and lo in ex:
            ls = True
        if hi is not None and hi in ex:
            hs = True
        if lo is not None and hi is not None:
            if lo > hi or lo == hi and (ls or hs):
                return False
            if lo == hi:
                st.num[k] = ('eq', lo)
                return True
        st.num[k] = ('in', lo, ls, hi, hs, frozenset(v for v in ex if (lo is None or v > lo) and (hi is None or v < hi)))
        return True

    # ---------------------------------------------------------- bits of a blade
    def bit(self, st, nd, k):
        """True, False or None"""
        if k >= BITS:
            return False
        self.usable(st, nd)
        if self.exact is not None and k not in self.exact[3]:
            return False
        v = dict(st.bits.get(nd, ())).get(k)
        if v == 'done':
            raise GiveUp('a blade is looked at after its text is complete')
        return v

    def assume_bit(self, st, nd, k, w):
        d = dict(st.bits.get(nd, ()))
        if d.get(k, w) is not w:
            return False
        d[k] = w
        nz = set()
        for s in st.nz.get(nd, frozenset()):
            if any(d.get(b) is w for b, w in s):
                continue
            r = frozenset((b, w) for b, w in s if d.get(b) is None)
            if not r:
                return False
            if len(r) == 1:
                (b, w), = r
                d[b] = w
                continue
            nz.add(r)
        st.bits[nd] = tuple(sorted(d.items()))
        st.nz[nd] = frozenset(nz)
        return True

    def equal(self, st, x, c):
        """[(state, whether (K >> shift) & mask is c)]"""
        _, nd, sh, mask = x
        if c & ~mask:
            return [(st, False)]
        ks = [k for k in range(32) if mask >> k & 1 and k + sh < BITS]
        if any(c >> k & 1 and k + sh >= BITS for k in range(32)):
            return [(st, False)]
        open_ = []
        for k in ks:
            b = self.bit(st, nd, k + sh)
            if b is None:
                open_.append(k)
            elif b != bool(c >> k & 1):
                return [(st, False)]
        if not open_:
            return [(st, True)]
        out = []
        s = st.copy()
        if all(self.assume_bit(s, nd, k + sh, bool(c >> k & 1)) for k in open_):
            out.append((s, True))
        s = st.copy()
        if len(open_) == 1:
            if self.assume_bit(s, nd, open_[0] + sh, not c >> open_[0] & 1):
                out.append((s, False))
        else:
            s.nz[nd] = s.nz.get(nd, frozenset()) | {frozenset((k + sh, not c >> k & 1) for k in open_)}
            if s.nz[nd] and self.assume_bit(s, nd, BITS, False):
                out.append((s, False))
        return out

    def truth(self, st, c):
        if isinstance(c, tuple) and not isinstance(c, P) and c[0] == 'key':
            return [(s, not w) for s, w in self.equal(st, ('key', c[1], c[2], c[3] & 1), 0)]
        return Machine.truth(self, st, c)

    def step(self, f, n, st, env, base):
        o = n.op
        if o in ('and', 'lshr', 'ashr', 'trunc', 'zext', 'sext', 'freeze', 'fneg', 'fsub', 'sub', 'fmul', 'mul', 'fpext', 'sitofp', 'fptrunc', 'fptosi', 'fptoui',
                 'udiv', 'urem', 'sdiv', 'srem'):
            xs = [self.val(env, v) for v in n.ops]
            sym = [x for x in xs if isinstance(x, tuple) and not isinstance(x, P) and x and x[0] in ('key', 'lin')]
            if sym:
                e = dict(env)
                e[n.i] = self.symbolic(st, n, o, xs)
                return [(st, e)]
        return Machine.step(self, f, n, st, env, base)

    def symbolic(self, st, n, o, xs):
        x = xs[0]
        c = [v.const() if isinstance(v, P) else None for v in xs]
        if o == 'freeze':
            return x
        if isinstance(x, tuple) and not isinstance(x, P) and x[0] == 'lin' or o in ('fsub', 'sub', 'fmul', 'mul'):
            if o in ('fpext', 'sitofp', 'sext'):
                return x
            if o in ('trunc', 'zext', 'fptosi', 'fptoui', 'fptrunc'):
                return ('other', o, L.int_width(L.typeof(n.i)) if o != 'fptrunc' else 0, x)
            if o == 'fneg':
                return x[:3] + (-x[3],)
            if o in ('fsub', 'sub') and c[0] == 0 and xs[1][0] == 'lin':
                return xs[1][:3] + (-xs[1][3],)
            if o in ('fmul', 'mul') and 'lin' in (xs[0][0] if c[0] is None else 0, xs[1][0] if c[1] is None else 0):
                k, y = (c[0], xs[1]) if c[0] is not None else (c[1], xs[0])
                if k:
                    return y[:3] + (y[3] * k,)
                if k is None and xs[0][:3] == xs[1][:3] and xs[0][0] == 'lin' and xs[0][3] == xs[1][3] and abs(xs[0][3]) == 1:
                    return ('sq',) + xs[0][1:3]
            raise GiveUp('arithmetic with a coefficient')
        if x[0] != 'key' if isinstance(x, tuple) and not isinstance(x, P) else True:
            if o == 'and' and isinstance(xs[1], tuple) and xs[1][0] == 'key':
                x, c = xs[1], [None, c[0]]
            else:
                raise GiveUp('arithmetic with a blade')
        _, nd, sh, mask = x
        if o in ('zext', 'sext'):
            return x
        if o == 'trunc':
            return ('key', nd, sh, mask & ((1 << L.int_width(L.typeof(n.i))) - 1))
        if c[1] is None:
            raise GiveUp('arithmetic with a blade')
        k = int(c[1])
        if o == 'and':
            return ('key', nd, sh, mask & (k & 0xffffffff))
        if o in ('lshr', 'ashr'):
            return ('key', nd, sh + k, mask >> k) if mask >> k else ZERO
        if o == 'udiv' and k > 0 and k & (k - 1) == 0:
            return ('key', nd, sh + k.bit_length() - 1, mask >> (k.bit_length() - 1))
        if o == 'urem' and k > 0 and k & (k - 1) == 0:
            return ('key', nd, sh, mask & (k - 1))
        raise GiveUp('arithmetic with a blade')

    # ---------------------------------------------------------- calls
    def call(self, st, nm, args, n=None):
        if time.time() > self.deadline:
            raise Late('the time limit')
        d = self.dem.get(nm, nm).replace('[abi:cxx11]', '')
        r = self.stream(st, nm, d, args)
        if r is not None:
            return r
        if d.startswith('std::_Rb_tree_increment('):
            return self.advance(st, args[0])
        m = re.match(r'std::__cxx11::basic_string<char.*?>::(~?\w+)\((.*)\)', d)
        if m:
            if m.group(1) == 'basic_string' and len(args) == 2 and 'basic_string' in m.group(2):
                st.alias[self.place(args[0])] = self.name_at(st, args[1])
                return [(st, None)]
            if m.group(1) == '~basic_string':
                st.alias.pop(self.place(args[0]), None)
                return [(st, None)]
            raise GiveUp('a string is built')
        if nm in ('llvm.fabs.f32', 'llvm.fabs.f64', 'fabsf', 'fabs') or nm.startswith('llvm.abs') or nm == 'abs' or d.startswith('std::abs('):
            x = args[0]
            if isinstance(x, tuple) and not isinstance(x, P) and x[0] == 'lin':
                return [(s, x if not w.const() else x[:3] + (-x[3],)) for s, w in self.compare(st, 'olt', x, ZERO)]
        f = self.func(nm)
        if f is not None and not self.mine(nm) and not simple(d) and re.match(
                r'std::(?:__cxx11::)?(basic_|vector|stringstream|ostringstream|to_string|function|optional|variant|list|deque|'
                r'unordered|array|string)', bare(d).split('(')[0].strip().split(' ')[-1]):
            raise GiveUp('%s is not modelled' % d[:80])
        if any(is_ptr(a) and a[1][0] == 'os' for a in args) and f is None:
            raise GiveUp('%s is not modelled' % d[:80])
        return Machine.call(self, st, nm, args, n)

    def docall(self, f, n, st, env, base):
        self.frames.append(env)
        try:
            return Machine.docall(self, f, n, st, env, base)
        finally:
            self.frames.pop()

    def mine(self, nm):
        d = self.dem.get(nm, nm)
        return not re.match(r'(?:[\w<>:, *&\[\]()]*? )?(std|__gnu_cxx)::', d) or 'operator<<' in d and re.search(
            r', (mv|poly|mon|std::_Rb_tree_const_iterator<.*>)( const)?&\)$', d) is not None

    def around(self):
        return frozenset(v for fr in self.frames for v in fr.values() if is_ptr(v) and v[1][0] == 'nd')

    def run(self, f, args, st):
        if not self.mine(f.name):
            return self.run_once(f, args, st)
        key = (f.name, tuple(args), st.key(), self.around())
        if key not in self.memo:
            self.memo[key] = self.run_once(f, args, st)
        return [(s.copy(), v) for s, v in self.memo[key]]

    def run_once(self, f, args, st):
        first = self.serial
        out, seen = [], set()
        for s, v in Machine.run(self, f, args, st):
            def own(r):
                return r[0] == 'a' and isinstance(r[1], int) and r[1] > first
            for a in [a for a in s.mem if own(a[0])]:
                del s.mem[a]
            for a in [a for a in s.alias if own(a[0])]:
                del s.alias[a]
            s.zeroed = tuple(z for z in s.zeroed if not own(z[0]))
            if self.mine(f.name):
                s = self.settle(s)
            k = (s.key(), v)
            if k not in seen:
                seen.add(k)
                out.append((s, v))
        self.serial = first
        return out

    def name_at(self, st, p):
        a = self.place(p)
        a = st.alias.get(a, a)
        if a[0][0] == 'nd' and level(a[0][1]) == 'mon' and a[1] == 32:
            return a
        raise GiveUp('a string that is not a name')

    def globals(self):
        if self.names is None:
            self.names = {L.name(g): g for g in self.mod.globals()}
        return self.names

    def text(self, p):
        if is_ptr(p) and p[1][0] == 'g':
            v = self.globals().get(p[1][1])
            if v and L.is_global_const(v):
                s = L.text(v)
                if re.search(r'constant \[1 x i8\] zeroinitializer', s):
                    return ''
                m = re.search(r'constant \[\d+ x i8\] c"(.*?)"', s)
                if m:
                    b = re.sub(r'\\([0-9A-Fa-f]{2})', lambda h: chr(int(h.group(1), 16)), m.group(1))
                    return b[p[2]:].split('\0')[0]
        raise GiveUp('a text that is not constant')

    def stream(self, st, nm, d, args):
        osp = args and is_ptr(args[0]) and args[0][1] == ('os',)
        if not osp:
            return None
        m = re.match(r'std::(?:basic_)?ostream(?:<char, std::char_traits<char> ?>)?::(operator<<|put|write|flush)\((.*)\)$', d)
        if m:
            t = m.group(2)
            if m.group(1) == 'flush':
                return [(st, args[0])]
            if m.group(1) == 'put':
                return self.emit(st, [chr(int(self.number(st, args[1]).const()) & 255)], args[0])
            if m.group(1) == 'write':
                k = self.number(st, args[2]).const()
                return self.emit(st, list(self.text(args[1])[:int(k)]), args[0])
            if t in ('float', 'double', 'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'long long', 'unsigned long long'):
                return self.emit(st, [('num', args[1])], args[0])
            raise GiveUp('ostream::operator<<(%s)' % t)
        if re.match(r'std::(?:basic_)?ostream<?.*& std::operator<<', d):
            t = d.rsplit(', ', 1)[1].rstrip(')') if 'basic_string' not in d.rsplit('(', 1)[1] else 'string'
            if t == 'string':
                return self.emit(st, [('name', self.name_at(st, args[1]))], args[0])
            if t in ('char', 'signed char', 'unsigned char'):
                c = args[1].const() if isinstance(args[1], P) else None
                if c is None:
                    raise GiveUp('an unknown character')
                return self.emit(st, [chr(int(c) & 255)], args[0])
            if t == 'char const*':
                return self.emit(st, list(self.text(args[1])), args[0])
            raise GiveUp('operator<< of %s' % t)
        return None

    # ---------------------------------------------------------- the reader
    def bad(self, msg):
        raise Wrong(msg, self.where())

    def emit(self, st, pieces, r):
        for p in pieces:
            self.pieces += 1
            if isinstance(p, str):
                self.char(st, p)
            elif p[0] == 'num':
                self.numeral(st, p[1])
            else:
                self.name(st, p[1])
        return [(st, r)]

    def poly(self, g):
        return (('nd', ROOT, g.i), 40)

    def mono(self, g):
        return ('nd', self.poly(g), g.j)

    def factor(self, g):
        return ('nd', (self.mono(g), 32), g.k)

    def char(self, st, c):
        g = st.g
        if c in ' \n\t':
            if g.phase == 'blade' and not g.num:
                self.bad('a blade is written without its indices')
            if g.phase == 'caret':
                self.bad('a blank separates what belongs together')
            st.g = g._replace(lex=' ')
        elif c == '-' and g.phase == 'start':
            st.g = g._replace(sign=-g.sign, lex='o')
        elif c in '+-':
            self.end_term(st, False)
            st.g = st.g._replace(sign=1 if c == '+' else -1, lex='o')
        elif c == '(':
            if g.phase != 'start' or g.paren or g.j or g.sign < 0:
                raise GiveUp('the text has a parenthesis at an unknown place')
            st.g = g._replace(paren=1, lex='o')
        elif c == ')':
            if g.paren != 1:
                self.bad('a parenthesis is closed that was not opened')
            self.end_mono(st)
            self.end_poly(st)
            st.g = st.g._replace(paren=2, phase='closed', lex='o')
        elif c == 'e':
            if g.lex in ('n', 'w'):
                self.bad('the blade is not separated from what precedes it')
            if g.phase == 'blade' or g.paren == 1 or g.phase == 'caret':
                self.bad('a blade at a place that has no meaning')
            if g.paren == 0:
                self.end_mono(st, True)
                self.end_poly(st)
            st.g = st.g._replace(phase='blade', upto=0, lex='w', num=False, sign=1, k=0)
        elif c == '^':
            if g.phase != 'name' or g.lex != 'w':
                self.bad('an exponent without a name')
            st.g = g._replace(phase='caret', lex='o')
        elif c.isdigit():
            self.digit(st, int(c))
        else:
            raise GiveUp('the text has the character %r' % c)

    def digit(self, st, d):
        g = st.g
        if g.phase == 'blade':
            if g.lex != 'w':
                self.bad('the indices of the blade are separated from it')
            self.obligations += 1
            nd = ('nd', ROOT, g.i)
            for k in range(g.upto, d):
                if self.bit(st, nd, k) is not False:
                    self.bad('the index %d of a blade is missing in the text' % k)
            if d < g.upto:
                self.bad('the indices of a blade are not in ascending order')
            if self.bit(st, nd, d) is not True:
                self.bad('the text has the index %d, which the blade does not have' % d)
            st.g = g._replace(upto=d + 1, num=True)
        elif g.phase == 'start' and g.num is None:
            if g.lex == 'w':
                self.bad('a number follows a name')
            st.g = g._replace(num=(LIT, d), phase='num', lex='n')
        elif g.phase == 'num' and isinstance(g.num, tuple) and g.num[0] == LIT and g.lex == 'n':
            st.g = g._replace(num=(LIT, g.num[1] * 10 + d))
        elif g.phase == 'caret':
            self.exponent(st, num(d))
        else:
            self.bad('a number where none has a meaning')

    def numeral(self, st, v):
        g = st.g
        c = self.known(st, v)
        if g.phase == 'blade':
            if c is None or c < 0 or c != int(c):
                self.bad('a number behind the blade')
            for ch in str(int(c)):
                self.digit(st, int(ch))
        elif g.phase == 'start' and g.num is None:
            if g.lex == 'w':
                self.bad('a number follows a name')
            st.g = g._replace(num=v if c is None else (LIT, c), phase='num', lex='n')
        elif g.phase == 'caret':
            self.exponent(st, v)
        else:
            self.bad('a number where none has a meaning')

    def exponent(self, st, v):
        self.obligations += 1
        f = self.factor(st.g)
        if not self.is_value(st, v, f, 'x', 1):
            self.bad('the exponent of a factor is not the one in the text')
        self.forget(st, f)
        st.g = st.g._replace(k=st.g.k + 1, phase='exp', lex='n')

    def is_value(self, st, v, nd, what, sign):
        """whether sign * v is the number `what` of the entry nd"""
        if isinstance(v, tuple) and not isinstance(v, P) and v[0] == 'lin' and v[1:3] == (nd, what):
            return v[3] * sign == 1 or (st.num.get((nd, what)) == ('eq', 0))
        f = st.num.get((nd, what))
        if isinstance(v, tuple) and not isinstance(v, P) and v[0] == 'other':
            if f and f[0] == 'eq':
                raise GiveUp('a converted number')
            return False
        c = v[1] if isinstance(v, tuple) and not isinstance(v, P) and v[0] == LIT else self.known(st, v)
        return c is not None and f is not None and f[0] == 'eq' and f[1] == c * sign

    def end_factor(self, st):
        """the name was the last of the factor"""
        if st.g.phase == 'name':
            self.obligations += 1
            if not self.is_value(st, num(1), self.factor(st.g), 'x', 1):
                self.bad('the exponent of a factor is missing in the text')
            self.forget(st, self.factor(st.g))
            st.g = st.g._replace(k=st.g.k + 1, phase='exp')

    def name(self, st, a):
        self.end_factor(st)
        g = st.g
        if g.phase not in ('start', 'num', 'exp'):
            self.bad('a name where none has a meaning')
        if g.lex == 'w':
            self.bad('two names run together')
        self.obligations += 1
        if a[0] != self.factor(g):
            self.bad('the factors of a monomial are not those in the text')
        st.g = g._replace(phase='name', lex='w')

    def known_count(self, st, a, n, what):
        lo, hi = self.count(st, a)
        if lo < n:
            self.bad('the text has %s that is not there' % what)
        if hi != n:
            self.bad('%s is missing in the text' % what)

    def end_mono(self, st, blade=False):
        self.end_factor(st)
        g = st.g
        if g.phase in ('closed', 'done'):
            return
        if g.phase not in ('start', 'num', 'exp') or g.phase == 'start' and not blade:
            self.bad('the text of a term is empty' if g.phase == 'start' else 'a term breaks off')
        self.obligations += 1
        nd = self.mono(g)
        if self.count(st, ROOT)[0] <= g.i or self.count(st, self.poly(g))[0] <= g.j:
            self.bad('the text has a term that is not there')
        if not self.is_value(st, g.num if g.num is not None else num(1), nd, 'c', g.sign):
            self.bad('the coefficient of a term is not the one in the text')
        self.known_count(st, (nd, 32), g.k, 'a factor')
        self.forget(st, nd)

    def settle(self, st):
        """a monomial whose text is complete"""
        if self.exact is not None or st.g.phase not in ('num', 'exp', 'name'):
            return st
        nd = self.mono(st.g)
        if any(within_only(nd, v) for v, _ in st.mem.values()) or any(within_only(nd, v) for fr in self.frames for v in fr.values()):
            return st
        s = st.copy()
        try:
            self.end_mono(s)
        except (Wrong, GiveUp):
            return st
        s.g = s.g._replace(phase='done', num=None, sign=1, k=0)
        return s

    def end_poly(self, st):
        g = st.g
        self.obligations += 1
        self.known_count(st, self.poly(g), g.j + 1, 'a term of a polynomial')
        self.forget(st, self.poly(g))

    def end_term(self, st, last):
        g = st.g
        nd = ('nd', ROOT, g.i)
        if g.phase == 'blade':
            self.obligations += 1
            if not g.num:
                self.bad('a blade without indices')
            for k in range(g.upto, BITS):
                if self.bit(st, nd, k) is not False:
                    self.bad('the index %d of a blade is missing in the text' % k)
        else:
            if g.phase != 'closed':
                self.end_mono(st)
                g = st.g
                lo, hi = self.count(st, self.poly(g))
                if g.paren == 1 or not last and lo > g.j + 1:
                    if last:
                        self.bad('a parenthesis is not closed')
                    if g.paren == 0 and not self.scalar(st, nd):
                        self.bad('the terms of a polynomial are not in parentheses')
                    st.g = START._replace(i=g.i, j=g.j + 1, paren=g.paren)
                    return
                self.end_poly(st)
            if not self.scalar(st, nd):
                self.bad('the blade of a term is missing in the text')
        if last:
            self.obligations += 1
            self.known_count(st, ROOT, g.i + 1, 'a term')
        else:
            self.forget(st, nd)
            st.g = START._replace(i=g.i + 1)

    def scalar(self, st, nd):
        return all(self.bit(st, nd, k) is False for k in range(BITS))

    def finish(self, st):
        self.paths += 1
        lo, hi = self.count(st, ROOT)
        g = st.g
        if hi == 0:
            if g.phase != 'num' or g.i or g.j or g.k or g.paren or g.num != (LIT, 0):
                self.bad('the text of the zero multivector is not 0')
            return
        self.end_term(st, True)

    # ---------------------------------------------------------- loops
    def canonical(self, st, env):
        """entries that are left behind are forgotten, those ahead are renamed"""
        maps = set()
        for x in list(env.values()) + [v for v, _ in st.mem.values()] + list(st.alias.values()) + list(st.cnt) + [k[0] for k in st.num]:
            maps_in(x, maps)
        for a in sorted(maps, key=lambda a: (len(repr(a)), repr(a))):
            if level(a) is None or any(indices(v, a, set()) for fr in self.frames for v in fr.values()):
                continue
            refs = set()
            for x in list(env.values()) + [v for v, _ in st.mem.values()] + list(st.alias.values()):
                indices(x, a, refs)
            gi = None
            g = st.g
            if a == ROOT:
                gi = g.i
            elif a == self.poly(g):
                gi = g.j
            elif a == (self.mono(g), 32):
                gi = g.k
            if gi is None or not refs:
                continue
            top = max(refs)
            low = top - 1
            if low < 2 or gi < low:
                continue
            by = low - 1
            lo, hi = self.count(st, a)
            if hi is not None:
                continue
            fix = lambda x: renamed(x, a, low, by) if x != ('size', a) else None
            for d in (st.num, st.bits, st.nz, st.cnt, st.alias):
                for k in list(d):
                    y, z = fix(k), fix(d[k])
                    v = d.pop(k)
                    if y is not None and z is not None:
                        d[y] = z
            for k, (v, z) in list(st.mem.items()):
                y = fix(v) if not isinstance(v, P) else v
                st.mem[k] = (y if y is not None else ('?',), z)
            for k, v in list(env.items()):
                if isinstance(v, tuple) and not isinstance(v, P):
                    y = fix(v)
                    env[k] = y if y is not None else ('?',)
            st.cnt[a] = (lo - by, None)
            st.gone = st.gone | {a}
            st.shut = frozenset(y for y in (fix(y) for y in st.shut) if y is not None)
            st.gone = frozenset(y for y in (fix(y) for y in st.gone) if y is not None)
            if a == ROOT:
                g = g._replace(i=g.i - by)
            elif a == self.poly(g):
                g = g._replace(j=g.j - by)
            else:
                g = g._replace(k=g.k - by)
            g = fix(g)
            if g is None:
                raise GiveUp('the text lags behind')
            st.g = g
        g = st.g
        if g.phase == 'blade':
            nd = ('nd', ROOT, g.i)
            d, k = dict(st.bits.get(nd, ())), g.upto
            while k < BITS and d.get(k) is False:
                k += 1
            for j in range(k):
                d[j] = 'done'
            st.bits[nd] = tuple(sorted(d.items()))
            st.g = g._replace(upto=k)

    def loop(self, f, h, prev, st, env, active, base):
        env = dict(env)
        env.update(self.phis(f, h, prev, env))
        if self.exact is None:
            self.canonical(st, env)
        heads = {n.i for n in f.code[h] if n.op == 'phi'}

        def key(s, e):
            return s.key(), frozenset(x for x in e.items() if not isinstance(x[1], P) or x[0] in heads)
        # constants may differ where nothing else does
        all_ = key(st, env), frozenset(x for x in env.items() if isinstance(x[1], P)), h, active, base, self.around()
        if all_ not in self.memo:
            self.memo[all_] = self.loop_once(f, h, st, env, active, base, key)
        return [self.again(o) for o in self.memo[all_]]

    def again(self, o):
        return tuple(x.copy() if isinstance(x, PState) else dict(x) if isinstance(x, dict) else x for x in o)

    def loop_once(self, f, h, st, env, active, base, key):
        out, seen, done, work = [], set(), set(), [(st, env)]
        while work:
            s, e = work.pop()
            if self.exact is None:
                self.canonical(s, e)
            k = key(s, e)
            if k in seen:
                continue
            seen.add(k)
            self.states += 1
            if len(seen) > (600 if self.exact is None else 6000):
                raise GiveUp('a loop that does not settle')
            for o in self.body(f, h, s.copy(), dict(e), active, base):
                if o[0] == 'back':
                    ph = self.phis(f, h, o[2], o[4])
                    e2 = dict(e)
                    e2.update(ph)
                    work.append((o[3], e2))
                    continue
                x = tuple(y.key() if isinstance(y, PState) else frozenset(y.items()) if isinstance(y, dict) else y for y in o)
                if x not in done:
                    done.add(x)
                    out.append(o)
        return out


def attempt(mod, own, exact=None):
    M = Printer(mod, own)
    M.exact = exact
    M.deadline = time.time() + (120 if exact is None else 30)
    nm = next((n for n, d in M.dem.items() if d == 'operator<<(std::ostream&, mv const&)' or
               re.match(r'operator<<\(std::(basic_)?ostream.*&, mv const&\)$', d)), None)
    if nm is None or M.func(nm) is None:
        return 'unknown', 'there is no operator<< of mv', None, M
    M.analysed.add(nm)
    try:
        for s, v in M.run(M.func(nm), [ptr(('os',)), ptr(('mv',))], PState()):
            M.finish(s)
    except Wrong as w:
        return 'wrong', str(w), w.where, M
    except (GiveUp, Late, RecursionError) as e:
        return 'unknown', str(e), None, M
    return 'holds', '', None, M


def analyse(mod, own):
    r = attempt(mod, own)
    if r[0] != 'unknown':
        return r
    for e in ((1, 1, 0, range(BITS)), (2, 1, 1, (0, 3, BITS - 1)), (1, 3, 1, (2, )), (1, 1, 4, (2, )), (2, 2, 2, (1, 2))):
        x = attempt(mod, own, e)
        if x[0] == 'wrong':
            return x
    return r


RULE = ('the text of a multivector consists of one term for each of its entries, joined by +, and of 0 if there is none',
        'each term is the text of its polynomial, in parentheses if it has several terms and a blade follows, and e with the indices of the '
        'blade in ascending order unless the blade is the scalar one',
        'each monomial is written with its coefficient (which may be left out only where it is one, or one and a sign, and something follows) '
        'and all its factors, separated and with their exponents (left out only if one)')


def check(o, tier):
    try:
        mod, own = module()
    except build.BuildError as e:
        o.error(str(e))
        return
    o.coverage['rules'] = list(RULE)
    r = limited(800 if tier == 'thorough' else 400, lambda: analyse(mod, own))
    status, msg, where, M = r[:4]
    if M:
        o.count('functions analysed', len(M.analysed))
        o.count('states of loops', M.states)
        o.count('pieces of text read', M.pieces)
        o.count('obligations at the ends of factors, terms and blades', M.obligations)
        for n in sorted(M.analysed)[:10]:
            o.samples.append({'function': M.dem.get(n, n)[:100]})
    if status == 'wrong':
        o.violate('text', msg, where or 'sym/ga.cpp', None)
    elif status == 'holds':
        o.count('texts proved for any number of entries', M.paths)
    else:
        o.coverage.setdefault('not decided', []).append('text: %s' % msg)


if __name__ == '__main__':
    mod, own = module()
    t0 = time.time()
    r = analyse(mod, own)
    print(r[:3], r[3].paths, r[3].states, r[3].pieces, r[3].obligations, time.time() - t0)
