"""Arithmetic of the symbolic utility (sym/ga.cpp, sym/poly.cpp): the content of an ordered map is a formal sum
of entries, a loop over the entries of a map is summarised by the sum of what one entry contributes, and the
resulting normal form is compared with the defining expression."""
import os
import re
import subprocess
from fractions import Fraction
import build
import llvm as L
from flow import Func
from symparse import compile_sym, LINK


class GiveUp(Exception):
    pass


class Wrong(Exception):
    def __init__(self, msg, where=None):
        Exception.__init__(self, msg)
        self.where = where


# ------------------------------------------------------------------ polynomials over interned atoms
ATOMS, IDS = [], {}


def aid(a):
    i = IDS.get(a)
    if i is None:
        i = IDS[a] = len(ATOMS)
        ATOMS.append(a)
    return i


class P:
    __slots__ = ('t', '_f')

    def __init__(self, t):
        self.t, self._f = t, None

    @property
    def f(self):
        if self._f is None:
            self._f = ('P',) + tuple(sorted(self.t.items()))
        return self._f

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __hash__(self):
        return hash(self.f)

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return P(t)

    def scale(self, k):
        return P({m: c * k for m, c in self.t.items()}) if k else P({})

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + -o

    def __mul__(self, o):
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono(m1, m2)
                v = t.get(m, 0) + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        return P(t)

    def const(self):
        """the number, or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def subst(self, d):
        if not d:
            return self
        d2 = {}
        for a in self.atoms():
            x = inside(a, d)
            if x is not None:
                d2[a] = x
        d = d2
        if not d:
            return self
        r = P({})
        for m, c in self.t.items():
            x = num(c)
            for a, e in m:
                if a in d:
                    if e < 0:
                        raise GiveUp('negative power')
                    for _ in range(e):
                        x = x * d[a]
                else:
                    x = x * P({((a, e),): Fraction(1)})
            r = r + x
        return r


def inside(a, d):
    """the value of an atom under a substitution, None if it does not change"""
    if a in d:
        return d[a]
    x = ATOMS[a]
    if x[0] == 'd':
        k = thaw(x[2]).subst(d)
        return delta(x[1], k) if k.f != x[2] else None
    if x[0] == 'idx' or x[0] == 'op' or x[0] == 'nat' and x[1] in ('xor', 'or', 'and'):
        ks = [thaw(y).subst(d) for y in x[2:]]
        if [k.f for k in ks] == list(x[2:]):
            return None
        if x[0] == 'idx':
            return atom('idx', x[1], *[k.f for k in ks])
        return bitwise(x[1], *ks)
    return None


def bitwise(o, a, b):
    if a.const() == 0:
        return ZERO if o == 'and' else b
    if b.const() == 0:
        return ZERO if o == 'and' else a
    if a == b and o in ('xor', 'and', 'or'):
        return ZERO if o == 'xor' else a
    if o in ('and', 'or', 'xor') and a.f > b.f:
        a, b = b, a
    if o in ('and', 'or', 'xor') and all(single(x) is not None and ATOMS[single(x)][0] == 'k' for x in (a, b)):
        return atom('nat', o, a.f, b.f)
    return atom('op', o, a.f, b.f)


def blade(fn, *es):
    """the basis blade of a product, apart from its sign"""
    if fn in ('mul', 'dot', 'ext'):
        return bitwise('or' if fn == 'ext' else 'xor', *[thaw(e) for e in es])
    return atom('idx', fn, *es)


def mono(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        v = d.get(x, 0) + e
        if v:
            d[x] = v
        else:
            del d[x]
    return tuple(sorted(d.items()))


def num(c):
    return P({(): Fraction(c)} if c else {})


def atom(*a):
    return P({((aid(a), 1),): Fraction(1)})


def thaw(f):
    return P(dict(f[1:]))


ZERO, ONE = num(0), num(1)


def single(p):
    """the atom p consists of, or None"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def delta(kind, key):
    """the entry with a given key and value one"""
    if kind == 'poly':
        r = ONE
        for m, c in key.t.items():
            if len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
                r = r * P({((aid(('d', kind, P({m: Fraction(1)}).f)), int(c)),): Fraction(1)})
            else:
                r = r * atom('d', kind, P({m: c}).f)
        return r
    return atom('d', kind, key.f)


def show(p, depth=0):
    if isinstance(p, tuple) and p and p[0] == 'P':
        p = thaw(p)
    if not isinstance(p, P):
        return str(p)
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items()):
        f = ['%s%s' % (show_atom(ATOMS[a], depth), '' if e == 1 else '^%d' % e) for a, e in m]
        k = str(c)
        if f and c == 1:
            k = ''
        elif f and c == -1:
            k = '-'
        out.append((k + ' '.join(f)) or k)
    return ' + '.join(out)


def show_atom(a, depth=0):
    t = a[0]
    if depth > 4:
        return '...'
    if t == 'in':
        return str(a[1])
    if t in ('k', 'v'):
        return '%s(%s)' % ('key' if t == 'k' else 'value', show(a[1], depth + 1))
    if t == 'd':
        return '[%s]' % show(a[2], depth + 1)
    if t == 'old':
        return 'entry(%s)' % show(a[1], depth + 1)
    if t == 'idx':
        return 'blade of %s(%s)' % (a[1], ', '.join(show(x, depth + 1) for x in a[2:]))
    if t == 'sum':
        return 'sum over %s of {%s}' % (' and '.join(sorted(show(x, depth + 1) for x in a[1])),
                                        '; '.join(sorted('%s: %s' % (show_guard(g), show(d, depth + 1)) for g, d in a[2])))
    return '%s(%s)' % (t, ', '.join(show(x, depth + 1) if isinstance(x, (P, tuple)) else str(x) for x in a[1:]))


def show_guard(g):
    return ' and '.join(sorted('%s %s' % (show_atom(ATOMS[a]), w) for a, w in g)) or 'always'


# ------------------------------------------------------------------ objects
VALUE = {'mv': 40, 'poly': 80, 'mon': 64}      # offset of the value in a node of the tree
PAIR = {'mv': 8, 'poly': 48, 'mon': 32}        # ... and in a pair
SIZE = 48
ELEMENT = {'mv': 'poly', 'poly': 'float', 'mon': 'int'}


class Cell:
    __slots__ = ('key', 'there', 'old', 'new')

    def __init__(self, key, there, old, new):
        self.key, self.there, self.old, self.new = key, there, old, new

    def copy(self):
        return Cell(self.key, self.there, self.old, self.new)


class Map:
    __slots__ = ('kind', 'base', 'cells', 'dirty', 'fresh')

    def __init__(self, kind, base=ZERO, dirty=False, fresh=False):
        self.kind, self.base, self.cells, self.dirty, self.fresh = kind, base, {}, dirty, fresh

    def copy(self):
        m = Map(self.kind, self.base, self.dirty, self.fresh)
        m.cells = {k: c.copy() for k, c in self.cells.items()}
        return m


class State:
    __slots__ = ('mem', 'obj', 'sub', 'zero', 'cond', 'cur', 'zeroed', 'fuzzy')

    def __init__(self):
        self.mem, self.obj = {}, {}
        self.sub = {}           # atom -> polynomial
        self.zero = {}          # frozen polynomial -> is zero
        self.cond = {}          # atom -> truth value or sign
        self.cur = {}           # cursor -> 'in' or 'done'
        self.zeroed, self.fuzzy = (), False

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.obj = {k: v.copy() if isinstance(v, Map) else v for k, v in self.obj.items()}
        s.sub, s.zero, s.cond, s.cur = dict(self.sub), dict(self.zero), dict(self.cond), dict(self.cur)
        s.zeroed, s.fuzzy = self.zeroed, self.fuzzy
        return s


def is_ptr(v):
    return isinstance(v, tuple) and v and v[0] == 'p'


def ptr(region, off=0):
    return ('p', region, off)


NULL = ptr(('null',))


def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))


def simple(d):
    """class, method of a demangled member of std::map (or of the tree behind it)"""
    d = d.replace('[abi:cxx11]', '')
    m = re.match(r'(?:.* )?std::map<', d)
    if not m:
        return None
    depth, i = 1, m.end()
    while i < len(d) and depth:
        depth += {'<': 1, '>': -1}.get(d[i], 0)
        i += 1
    inner, rest = d[m.end():i - 1], d[i:]
    r = re.match(r'::(~?\w+|operator\S+?)(?=[(<])', rest)
    if not r:
        return None
    kind = ('mv' if inner.startswith('unsigned int, poly') else 'poly' if inner.startswith('mon, float') else
            'mon' if inner.startswith('std::__cxx11::basic_string') and re.search(r'> >?, int', inner) else None)
    return kind, r.group(1), rest[r.end():]


class Machine:
    """abstract interpreter; functions of the standard containers and (unless under analysis) of the three classes
    are replaced by their meaning"""
    LIMIT = 4000

    def __init__(self, mod, own, skip=()):
        self.mod, self.own, self.skip = mod, own, set(skip)
        self.twins, self.open = {}, []
        self.funcs, self.serial, self.steps = {}, 0, 0
        names = [L.name(f) for f in mod.functions()]
        self.dem = demangle(names)
        self.nonzero = set()
        self.clean = set()
        self.depth = 0
        self.stack = []
        self.analysed = set()
        self.calls_seen = set()
        self.used = set()
        self.lock = None

    # -------------------------------------------------------------- helpers
    def func(self, nm):
        if nm not in self.funcs:
            f = self.mod.function(nm)
            self.funcs[nm] = Func(self.mod, f) if f and not L.is_declaration(f) else None
        return self.funcs[nm]

    def fresh(self, *tag):
        self.serial += 1
        return atom(*tag, self.serial)

    def where(self):
        return self.stack[-1] if self.stack else None

    def norm(self, st, p):
        for _ in range(8):
            q = p.subst(st.sub)
            if q == p:
                return q
            p = q
        return p

    def is_zero(self, st, p):
        p = self.norm(st, p)
        c = p.const()
        if c is not None:
            return c == 0
        if p.f in st.zero:
            return st.zero[p.f]
        q = -p
        if q.f in st.zero:
            return st.zero[q.f]
        if len(p.t) == 1:
            (m, c), = p.t.items()
            facs = [self.atom_zero(st, a) for a, _ in m]
            if True in facs:
                return True
            if all(x is False for x in facs):
                return False
        lo = self.low(p)
        if lo is not None and lo > 0:
            return False
        hi = self.low(-p)
        if hi is not None and hi > 0:
            return False
        return None

    def atom_zero(self, st, a):
        x = ATOMS[a]
        if x[0] == 'd' or a in self.nonzero:
            return False
        f = P({((a, 1),): Fraction(1)}).f
        if f in st.zero:
            return st.zero[f]
        if x[0] == 'v' and x[1] in self.clean:
            return False
        return None

    def low(self, p):
        """a lower bound, given the atoms that cannot be negative"""
        lo = p.t.get((), 0)
        for m, c in p.t.items():
            if not m:
                continue
            if c < 0 or any(ATOMS[a][0] not in ('idx', 'nat') for a, _ in m):
                return None
        return lo

    def assume_zero(self, st, p, want):
        """False if impossible"""
        p = self.norm(st, p)
        z = self.is_zero(st, p)
        if z is not None:
            return z == want
        st.zero[p.f] = want
        if want:
            best = None
            for m, c in p.t.items():
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    if sum(1 for n in p.t for x, _ in n if x == a) == 1:
                        r = (0 if ATOMS[a][0] == 'old' else 1 if ATOMS[a][0] in ('in', 'v') else 2, a)
                        if ATOMS[a][0] in ('old', 'v', 'in', 'k') and (best is None or r < best[0]):
                            best = (r, a, c)
            if best:
                _, a, c = best
                rest = p - P({((a, 1),): c})
                st.sub[a] = rest.scale(Fraction(-1) / c)
        return True

    # -------------------------------------------------------------- objects
    def place(self, p):
        if not is_ptr(p):
            raise GiveUp('an address is not known')
        return (p[1], p[2])

    def node_map(self, st, reg):
        """map address, key of a node"""
        if reg[0] == 'node':
            return reg[1], reg[2]
        if reg[0] == 'cur':
            s = st.cur.get(reg)
            if s is None and self.lock is not None and any(
                    w and len(f) == 3 and all(len(m) == 1 and ATOMS[m[0][0]][:2] == ('nat', 'size') for m, _ in f[1:])
                    for f, w in st.zero.items()) and 'in' in st.cur.values():
                s = st.cur[reg] = 'in'
            if s != 'in':
                raise GiveUp('an entry is used where the loop may have ended')
            return reg[1], reg[3]
        if reg[0] == 'end':
            raise Wrong('the entry behind the last one is used', self.where())
        return None

    def cell(self, st, reg, write=False):
        """(Map, Cell) of a node"""
        ma, key = self.node_map(st, reg)
        m = st.obj.get(ma)
        if m is None:
            raise GiveUp('the container of an entry is gone')
        if reg[0] == 'node':
            c = m.cells.get(key)
            if c is None or not c.there:
                raise GiveUp('an entry is used after its container changed')
            return m, c
        c = m.cells.get(key)
        if c is None:
            if m.base.f != reg[2] and self.twins.get(m.base.f) != reg[2] and not self.iterating(st, ma, reg):
                raise GiveUp('a container changes while it is traversed')
            c = Cell(thaw(key), True, atom('v', reg[2]), atom('v', reg[2]))
            if write:
                m.cells[key] = c
        elif not c.there:
            raise Wrong('an entry is used after it was erased', self.where())
        return m, c

    def iterating(self, st, ma, reg):
        return False

    def content(self, st, addr, kind=None):
        """Map or polynomial (strings) at an address; reading only"""
        reg, off = addr
        if reg[0] in ('node', 'cur', 'end') and off >= 32:
            m, c = self.cell(st, reg)
            k = m.kind
            if off == 32 and k in ('poly', 'mon'):
                return Map('mon', c.key) if k == 'poly' else c.key
            if off == VALUE[k] and k == 'mv':
                return Map('poly', c.new)
            raise GiveUp('part of an entry that is not known')
        x = st.obj.get(addr)
        if x is None:
            if reg[0] == 'in' and kind:
                x = Map(kind, atom('in', '%s' % reg[1])) if kind != 'str' else atom('in', reg[1])
                st.obj[addr] = x
                return x
            raise GiveUp('an object of unknown content is used')
        return x

    def value(self, st, addr, kind):
        """the content as polynomial"""
        x = self.content(st, addr, kind)
        if isinstance(x, P):
            return self.norm(st, x)
        if x.cells:
            x = x.copy()
            self.flush(st, x)
        return self.norm(st, x.base)

    def dirty(self, st, addr, kind):
        x = self.content(st, addr, kind)
        if not isinstance(x, Map):
            return False
        x = x.copy()
        self.flush(st, x)
        return x.dirty

    def assign(self, st, addr, kind, val, dirty=False):
        reg, off = addr
        if reg[0] in ('node', 'cur', 'end') and off >= 32:
            m, c = self.cell(st, reg, True)
            if off == VALUE[m.kind] and m.kind == 'mv' and kind == 'poly':
                c.new = val
                return
            raise GiveUp('part of an entry is assigned')
        if kind == 'str':
            st.obj[addr] = val
        else:
            st.obj[addr] = Map(kind, val, dirty)

    def edit(self, st, addr, kind):
        """Map for modification; entries of a map of maps are edited as a whole"""
        reg, off = addr
        if reg[0] in ('node', 'cur', 'end'):
            return None
        x = self.content(st, addr, kind)
        if not isinstance(x, Map):
            raise GiveUp('not a container')
        return x

    def flush(self, st, m):
        for k, c in m.cells.items():
            d = self.norm(st, c.new - c.old)
            m.base = m.base + d * delta(m.kind, self.norm(st, c.key))
            if c.there and self.is_zero(st, c.new) is not False:
                m.dirty = True
        m.cells = {}
        m.base = self.norm(st, m.base)

    def locate(self, st, addr, kind, key):
        """[(state, present)] with the cell of the key created"""
        m = self.edit(st, addr, kind)
        if m is None:
            raise GiveUp('an entry of a container inside a container is looked up')
        key = self.norm(st, key)
        f = key.f
        if f in m.cells:
            return [(st, m.cells[f].there)]
        if m.cells:
            self.flush(st, m)
        if m.fresh or not m.base.t:
            m.cells[f] = Cell(key, False, ZERO, ZERO)
            return [(st, False)]
        a = single(key)
        if a is not None and ATOMS[a][0] == 'k' and ATOMS[a][1] == m.base.f:
            v = atom('v', m.base.f)
            m.cells[f] = Cell(key, True, v, v)
            return [(st, True)]
        s2 = st.copy()
        m.cells[f] = Cell(key, False, ZERO, ZERO)
        m2 = s2.obj[addr]
        o = self.fresh('old', f)
        if not m2.dirty:
            self.nonzero.add(single(o))
        m2.cells[f] = Cell(key, True, o, o)
        return [(st, False), (s2, True)]

    def insert(self, st, addr, kind, key, val, how):
        """how: 'keep' an entry that exists, 'assign' to it"""
        out = []
        for s, there in self.locate(st, addr, kind, key):
            m = s.obj[addr]
            c = m.cells[self.norm(s, key).f]
            if not there:
                c.there, c.new = True, val
            elif how == 'assign':
                c.new = val
            out.append((s, ptr(('node', addr, c.key.f)), not there))
        return out

    # -------------------------------------------------------------- map models
    def key_at(self, st, kind, p):
        if kind == 'mv':
            v = self.load(st, p, 4, 'int')
            if not isinstance(v, P):
                raise GiveUp('unknown key')
            return self.norm(st, v)
        return self.value(st, self.place(p), {'poly': 'mon', 'mon': 'str'}[kind])

    def val_at(self, st, kind, p):
        if kind == 'mv':
            return self.value(st, self.place(p), 'poly')
        v = self.load(st, p, 4, ELEMENT[kind])
        if not isinstance(v, P):
            raise GiveUp('unknown value')
        return self.norm(st, v)

    def map_call(self, st, kind, meth, sig, args, n):
        if kind is None:
            raise GiveUp('a container type that is not modelled')
        a = self.place(args[0])
        if meth in ('map',):
            if len(args) == 1:
                self.assign(st, a, kind, ZERO)
            elif len(args) == 3 and 'iterator' in sig:
                self.assign(st, a, kind, self.range(st, args[1:]), self.range_dirty(st, args[1:], kind))
            elif '&&' in sig:
                b = self.place(args[1])
                self.assign(st, a, kind, self.value(st, b, kind), self.dirty(st, b, kind))
                self.assign(st, b, kind, ZERO)
            elif sig.startswith('(std::map'):
                b = self.place(args[1])
                self.assign(st, a, kind, self.value(st, b, kind), self.dirty(st, b, kind))
            else:
                raise GiveUp('constructor of a container')
            return [(st, None)]
        if meth == '~map':
            if a[0][0] not in ('node', 'cur', 'end'):
                st.obj.pop(a, None)
            return [(st, None)]
        if meth == 'operator=':
            if not sig.startswith('(std::map'):
                raise GiveUp('assignment of a list')
            b = self.place(args[1])
            v, d = self.value(st, b, kind), self.dirty(st, b, kind)
            if '&&' in sig and a != b:
                self.assign(st, b, kind, ZERO)
            self.assign(st, a, kind, v, d)
            return [(st, args[0])]
        if meth == 'swap':
            b = self.place(args[1])
            va, vb = self.value(st, a, kind), self.value(st, b, kind)
            da, db = self.dirty(st, a, kind), self.dirty(st, b, kind)
            self.assign(st, a, kind, vb, db)
            self.assign(st, b, kind, va, da)
            return [(st, None)]
        if meth in ('begin', 'cbegin'):
            return [(st, ptr(('beg', a, kind)))]
        if meth in ('end', 'cend'):
            return [(st, ptr(('end', a)))]
        if meth == 'clear':
            self.assign(st, a, kind, ZERO)
            return [(st, None)]
        if meth == 'empty':
            v = self.value(st, a, kind)
            if self.dirty(st, a, kind):
                return self.free(st, 'empty', v)
            return self.test_zero(st, v)
        if meth == 'size':
            v = self.value(st, a, kind)
            if not self.dirty(st, a, kind) and self.is_zero(st, v) is True:
                return [(st, ZERO)]
            return [(st, atom('nat', 'size', v.f))]
        if meth in ('find', 'lower_bound') and len(args) == 2:
            if meth == 'lower_bound':
                raise GiveUp('lower_bound')
            out = []
            for s, there in self.locate(st, a, kind, self.key_at(st, kind, args[1])):
                if there:
                    out.append((s, ptr(('node', a, self.key_at(s, kind, args[1]).f))))
                else:
                    out.append((s, ptr(('end', a))))
            return out
        if meth in ('count', 'contains') and len(args) == 2:
            return [(s, num(int(t))) for s, t in self.locate(st, a, kind, self.key_at(st, kind, args[1]))]
        if meth == 'at' and len(args) == 2:
            out = []
            for s, t in self.locate(st, a, kind, self.key_at(st, kind, args[1])):
                if not t:
                    raise Wrong('an entry that may be missing is accessed with at()', self.where())
                out.append((s, ptr(('node', a, self.key_at(s, kind, args[1]).f), VALUE[kind])))
            return out
        if meth == 'insert' and len(args) == 3 and 'const_iterator' not in sig.split(',')[0] and is_ptr(args[1]) and args[1][1][0] == 'beg':
            v, w = self.value(st, a, kind), self.range(st, args[1:])
            if self.is_zero(st, v) is True:
                self.assign(st, a, kind, w, self.range_dirty(st, args[1:], kind))
            elif self.is_zero(st, w) is not True:
                self.assign(st, a, kind, atom('union', v.f, w.f), self.dirty(st, a, kind) or self.range_dirty(st, args[1:], kind))
            return [(st, None)]
        if meth in ('emplace', 'try_emplace', 'insert_or_assign', 'insert', 'emplace_hint'):
            if meth == 'emplace_hint' or (meth in ('insert', 'try_emplace', 'insert_or_assign') and 'const_iterator' in sig):
                args = [args[0]] + args[2:]
                hint = True
            else:
                hint = False
            if meth in ('emplace', 'try_emplace', 'insert_or_assign', 'emplace_hint') and len(args) == 3:
                if meth == 'emplace' and 'piecewise' in sig:
                    raise GiveUp('piecewise construction')
                key, val = self.key_at(st, kind, args[1]), self.val_at(st, kind, args[2])
            elif meth == 'try_emplace' and len(args) == 2:
                key, val = self.key_at(st, kind, args[1]), ZERO
            elif len(args) == 2:
                key = self.key_at(st, kind, args[1])
                p = args[1]
                val = self.val_at(st, kind, ptr(p[1], p[2] + PAIR[kind]))
            else:
                raise GiveUp('form of insertion')
            out = []
            for s, p, new in self.insert(st, a, kind, key, val, 'assign' if meth == 'insert_or_assign' else 'keep'):
                out.append((s, p if hint else ('agg', (p, num(int(new))))))
            return out
        if meth == 'operator[]':
            return [(s, ptr(p[1], VALUE[kind])) for s, p, _ in
                    self.insert(st, a, kind, self.key_at(st, kind, args[1]), ZERO, 'keep')]
        if meth == 'erase' and len(args) == 2:
            if '_Rb_tree' not in sig.split(')')[0]:
                out = []
                for s, t in self.locate(st, a, kind, self.key_at(st, kind, args[1])):
                    if t:
                        c = s.obj[a].cells[self.key_at(s, kind, args[1]).f]
                        c.there, c.new = False, ZERO
                    out.append((s, num(int(t))))
                return out
            reg = args[1][1]
            if reg[0] not in ('node', 'cur') or reg[1] != a:
                raise GiveUp('erasing an entry that is not known')
            m, c = self.cell(st, reg, True)
            c.there, c.new = False, ZERO
            return [(st, ptr(('inc', reg)) if reg[0] == 'cur' else ptr(('next', reg)))]
        raise GiveUp('std::map::%s' % meth)

    def range(self, st, args):
        p, q = args[0], args[1]
        if not (is_ptr(p) and is_ptr(q) and p[1][0] == 'beg' and q[1][0] == 'end' and p[1][1] == q[1][1]):
            raise GiveUp('a range of entries')
        return self.value(st, p[1][1], p[1][2])

    def range_dirty(self, st, args, kind):
        return self.dirty(st, args[0][1][1], kind)

    def test_zero(self, st, v):
        z = self.is_zero(st, v)
        if z is not None:
            return [(st, num(int(z)))]
        s2 = st.copy()
        out = []
        for s, w in ((st, True), (s2, False)):
            if self.assume_zero(s, v, w):
                out.append((s, num(int(w))))
        return out

    def free(self, st, tag, *what):
        """a condition nothing is known about"""
        a = aid(('cond', tag) + tuple(x.f if isinstance(x, P) else x for x in what))
        if a in st.cond:
            return [(st, num(int(st.cond[a])))]
        s2 = st.copy()
        st.cond[a], s2.cond[a] = True, False
        return [(st, ONE), (s2, ZERO)]

    # -------------------------------------------------------------- models of the classes
    def model(self, st, d, args, n):
        """meaning of a function of the three classes; None if it has to be looked into"""
        m = re.match(r'(mon|poly|mv|algebra)::(~?\w+|operator\S+?)\((.*)\)( const)?( &&?| const&)?$', d)
        if m:
            cls, meth, sig = m.group(1), m.group(2), m.group(3)
            if cls == 'algebra':
                return self.table(st, meth, args)
            if meth == 'push' and cls == 'mon' and len(args) == 3:
                a = self.place(args[0])
                v = self.value(st, a, 'mon')
                s = self.value(st, self.place(args[1]), 'str')
                self.assign(st, a, 'mon', v + self.number(st, args[2]) * delta('mon', s))
                return [(st, args[0])]
            if meth == 'push' and cls == 'poly' and len(args) == 3:
                a = self.place(args[0])
                v, k = self.value(st, a, 'poly'), self.value(st, self.place(args[1]), 'mon')
                self.assign(st, a, 'poly', v + self.number(st, args[2]) * delta('poly', k))
                return [(st, args[0])]
            if meth == 'push' and cls == 'mv' and len(args) == 3:
                a = self.place(args[0])
                v, p = self.value(st, a, 'mv'), self.value(st, self.place(args[2]), 'poly')
                self.assign(st, a, 'mv', v + p * delta('mv', self.number(st, args[1])))
                return [(st, args[0])]
            if meth == 'degree' and cls == 'mon':
                return [(st, atom('degree', self.value(st, self.place(args[0]), 'mon').f))]
            if meth in ('operator+=', 'operator-=', 'operator*=', 'operator^=', 'operator&=', 'operator|='):
                if cls == 'mv' and sig != 'mv const&' or cls != 'mv' and sig != cls + ' const&':
                    return None
                a, b = self.place(args[0]), self.place(args[1])
                self.assign(st, a, cls, self.combine(st, cls, meth[8], self.value(st, a, cls), self.value(st, b, cls)))
                return [(st, args[0])]
            if meth in ('operator-', 'operator~') and sig == '':
                ref = m.group(5)
                f = (lambda x: -x) if meth == 'operator-' else lambda x: self.reverse(st, x)
                if ref == ' &&':
                    a = self.place(args[0])
                    self.assign(st, a, cls, f(self.value(st, a, cls)))
                    return [(st, args[0])]
                a, b = self.place(args[0]), self.place(args[1])
                self.assign(st, a, cls, f(self.value(st, b, cls)))
                if cls == 'mv':
                    self.copy_algebra(st, a, b)
                return [(st, None)]
            return None
        m = re.match(r'operator([-+*^&|])\((mon|poly|mv) const&, \2 const&\)$', d)
        if m:
            o, cls = m.group(1), m.group(2)
            r, a, b = (self.place(x) for x in args)
            self.assign(st, r, cls, self.combine(st, cls, o, self.value(st, a, cls), self.value(st, b, cls)))
            if cls == 'mv':
                self.copy_algebra(st, r, a)
            return [(st, None)]
        return None

    def copy_algebra(self, st, a, b):
        x = st.mem.get((b[0], b[1] + SIZE))
        if x is None and b[0][0] == 'in':
            x = (ptr(('alg',)), 8)
        if x is not None:
            st.mem[(a[0], a[1] + SIZE)] = x

    def combine(self, st, cls, o, a, b):
        if cls == 'mon':
            if o != '*':
                raise GiveUp('operator')
            return a + b
        if o == '+':
            return a + b
        if o == '-':
            return a - b
        if cls == 'poly':
            if o != '*':
                raise GiveUp('operator')
            return a * b
        return bilinear(o, a, b)

    def reverse(self, st, x):
        return linear('rev', x)

    TABLES = {'mul': 2, 'ext': 2, 'reg': 2, 'dot': 2, 'dual': 1}

    def table(self, st, meth, args):
        if meth in self.TABLES or meth == 'rev':
            if not (is_ptr(args[0]) and args[0][1] == ('alg',)):
                if is_ptr(args[0]) and args[0][1][0] in ('null', 'undef') or args[0] is None:
                    raise Wrong('the algebra of an operand or result is not set', self.where())
                raise GiveUp('unknown algebra')
            es = tuple(self.number(st, x).f for x in args[1:])
            self.used.add(meth)
            if meth == 'rev':
                a = aid(('rev',) + es)
                if a in st.cond:
                    return [(st, num(int(st.cond[a])))]
                s2 = st.copy()
                st.cond[a], s2.cond[a] = True, False
                return [(st, ONE), (s2, ZERO)]
            a = aid((meth,) + es)
            q = blade(meth, *es) + ONE
            out = []
            for w, v in (('+', q), ('-', -q), ('0', ZERO)):
                if meth == 'dual' and w == '0':
                    continue
                if a in st.cond and st.cond[a] != w:
                    continue
                s = st.copy()
                s.cond[a] = w
                out.append((s, v))
            return out
        return None

    def number(self, st, v):
        if isinstance(v, P):
            return self.norm(st, v)
        raise GiveUp('a number that is not known')

    # -------------------------------------------------------------- memory
    def load(self, st, p, size, kind):
        if not is_ptr(p):
            raise GiveUp('load from an unknown address')
        reg, off = p[1], p[2]
        if off is None:
            raise GiveUp('load from an unknown offset')
        if reg[0] in ('node', 'cur', 'end') and off >= 32:
            m, c = self.cell(st, reg)
            if off == 32 and m.kind == 'mv':
                return c.key
            if off == VALUE[m.kind] and m.kind != 'mv':
                return c.new
            raise GiveUp('part of an entry')
        x = st.mem.get((reg, off))
        if x is not None:
            if x[1] != size:
                raise GiveUp('a value is read with another size')
            return x[0]
        return self.initial(st, reg, off, size, kind)

    def initial(self, st, reg, off, size, kind):
        if any(r == reg and a <= off and off + size <= b for r, a, b in st.zeroed):
            return NULL if kind == 'ptr' else ZERO
        if reg[0] == 'in':
            if kind == 'ptr' and off == SIZE:
                return ptr(('alg',))
            raise GiveUp('an input of unknown layout')
        if reg[0] == 'g':
            raise GiveUp('global data')
        return ('undef',)

    def store(self, st, p, v, size):
        if not is_ptr(p) or p[2] is None:
            raise GiveUp('store to an unknown address')
        reg, off = p[1], p[2]
        if reg[0] in ('node', 'cur', 'end') and off >= 32:
            m, c = self.cell(st, reg, True)
            if off == VALUE[m.kind] and m.kind != 'mv' and isinstance(v, P):
                c.new = v
                return
            raise GiveUp('part of an entry is overwritten')
        for o in range(max(0, off - 15), off + size):
            x = st.mem.get((reg, o))
            if x is not None and o != off and o + x[1] > off:
                del st.mem[(reg, o)]
        st.mem[(reg, off)] = (v, size)

    def memcpy(self, st, d, s, n):
        a, b = self.place(d), self.place(s)
        k = n.const() if isinstance(n, P) else None
        if k is None or a[1] is None or b[1] is None:
            raise GiveUp('copy of unknown extent')
        k = int(k)
        new = {}
        for (r, o), x in st.mem.items():
            if r == b[0] and b[1] <= o and o + x[1] <= b[1] + k:
                new[(a[0], a[1] + o - b[1])] = x
        for (r, o) in [q for q in st.mem if q[0] == a[0] and a[1] <= q[1] < a[1] + k]:
            del st.mem[(r, o)]
        st.mem.update(new)
        self.copied(st, a, b, k)

    def copied(self, st, a, b, k):
        pass

    # -------------------------------------------------------------- expressions
    def const(self, v):
        if L.is_const_int(v):
            w = L.int_width(L.typeof(v))
            return num(L.const_zext(v) if w == 1 else L.const_sext(v))
        if L.is_const_fp(v):
            import ctypes
            return num(Fraction(L.const_real(v, ctypes.byref(ctypes.c_int()))))
        if L.is_null(v):
            k = L.kind(L.typeof(v))
            return NULL if k == 'ptr' else ('agg0',) if k in ('struct', 'array') else ZERO
        if L.is_undef(v):
            return ('undef',)
        if L.is_function(v):
            return ptr(('fn', L.name(v)))
        if L.is_global_var(v):
            return ptr(('g', L.name(v)))
        if L.is_const_expr(v):
            o = L.OPC.get(L.const_opcode(v))
            if o in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                return self.const(L.operand(v, 0))
            if o == 'gep':
                b = self.const(L.operand(v, 0))
                r = self.gep_off(v, lambda x: self.const(x))
                return ptr(b[1], b[2] + r) if is_ptr(b) and r is not None else ('undef',)
        if L.kind(L.typeof(v)) == 'struct':
            n = L.struct_count(L.typeof(v))
            return ('agg', tuple(self.const(L.aggregate_element(v, k)) for k in range(n)))
        m = re.match(r'@[\w.$]+ = .*\balias\b.*@([\w.$]+)$', L.text(v))
        if m:
            return ptr(('fn', m.group(1)))
        raise GiveUp('constant %s' % L.text(v)[:60])

    def val(self, env, v):
        if v in env:
            return env[v]
        return self.const(v)

    def gep_off(self, i, get):
        t = L.gep_source_type(i)
        off = 0
        for k in range(1, L.num_operands(i)):
            x = get(L.operand(i, k))
            c = x.const() if isinstance(x, P) else None
            if c is None:
                return None
            c = int(c)
            if k == 1:
                off += c * L.abi_size(self.mod.td, t)
            elif L.kind(t) == 'struct':
                off += L.offset_of(self.mod.td, t, c)
                t = L.struct_type_at(t, c)
            else:
                t = L.element_type(t)
                off += c * L.abi_size(self.mod.td, t)
        return off

    def compare(self, st, pred, a, b):
        """[(state, number)]"""
        if is_ptr(a) or is_ptr(b):
            if not (is_ptr(a) and is_ptr(b)) or pred not in ('eq', 'ne'):
                raise GiveUp('comparison of pointers')
            out = []
            for s, e in self.same_ptr(st, a, b):
                out.append((s, num(int(e == (pred == 'eq')))))
            return out
        if not isinstance(a, P) or not isinstance(b, P):
            raise GiveUp('comparison of unknown values')
        d = self.norm(st, a - b)
        if pred in ('eq', 'oeq', 'ueq'):
            return self.test_zero(st, d)
        if pred in ('ne', 'one', 'une'):
            return [(s, ONE - v) for s, v in self.test_zero(st, d)]
        if pred in ('false', 'uno'):
            return [(st, ZERO)]
        if pred in ('true', 'ord'):
            return [(st, ONE)]
        rel = pred[-2:]
        if pred[0] == 'u' and pred not in ('ugt', 'uge', 'ult', 'ule'):
            rel = pred[-2:]
        if rel in ('lt', 'le'):
            d = -d
        strict = rel in ('gt', 'lt')
        # d > 0 or d >= 0
        c = d.const()
        if c is not None:
            return [(st, num(int(c > 0 if strict else c >= 0)))]
        lo, hi = self.low(d), self.low(-d)
        if lo is not None and (lo > 0 or lo >= 0 and not strict):
            return [(st, ONE)]
        if hi is not None and (hi > 0 or hi >= 0 and strict):
            return [(st, ZERO)]
        return self.ordered(st, d, strict)

    def ordered(self, st, d, strict):
        """sign of an unknown value"""
        out = []
        f, neg = d, False
        lead = sorted(x for x in d.t.items() if x[0])[0][1] if any(d.t) else 1
        if lead < 0:
            f, neg = -d, True
        a = aid(('sign', f.f))
        for w in ('+', '-', '0'):
            s = st.copy()
            if a in s.cond:
                if s.cond[a] != w:
                    continue
            elif not self.assume_zero(s, f, w == '0'):
                continue
            else:
                s.cond[a] = w
            sg = {'+': 1, '-': -1, '0': 0}[w] * (-1 if neg else 1)
            out.append((s, num(int(sg > 0 if strict else sg >= 0))))
        return out

    def same_ptr(self, st, a, b):
        if a == b:
            return [(st, True)]
        for x, y in ((a, b), (b, a)):
            if x[1][0] == 'cur' and x[2] == 0 and y[1][0] == 'end' and y[2] == 0:
                if x[1][1] != y[1][1]:
                    raise Wrong('an iterator is compared with the end of another container', self.where())
                s = st.cur.get(x[1])
                if s is None:
                    s2 = st.copy()
                    st.cur[x[1]], s2.cur[x[1]] = 'done', 'in'
                    return [(st, True), (s2, False)]
                return [(st, s == 'done')]
            if x[1][0] == 'inc' and y[1][0] == 'end' and x[1][1][0] in ('cur', 'beg') and x[1][1][1] == y[1][1]:
                return [(s, bool(v.const())) for s, v in self.free(st, 'last', x[1])]
            if x[1][0] == 'end' and y[1][0] == 'node' and x[2] == y[2] == 0:
                if x[1][1] != y[1][1]:
                    raise Wrong('an iterator is compared with the end of another container', self.where())
                return [(st, False)]
            if x[1][0] == 'beg' and y[1][0] == 'end' and x[1][1] == y[1][1]:
                k = self.value(st, x[1][1], x[1][2])
                if self.dirty(st, x[1][1], x[1][2]):
                    raise GiveUp('whether a container is empty')
                return [(s, bool(v.const())) for s, v in self.test_zero(st, k)]
            if x[1][0] == 'null' and y[1][0] in ('a', 'in', 'alg', 'fn', 'g'):
                return [(st, False)]
        if a[1] == b[1]:
            return [(st, a[2] == b[2])]
        if a[1][0] in ('a', 'in') and b[1][0] in ('a', 'in'):
            return [(st, False)]
        raise GiveUp('comparison of %s and %s' % (a[1][0], b[1][0]))

    # -------------------------------------------------------------- execution
    def call(self, st, nm, args, n=None):
        """[(state, value)]"""
        self.steps += 1
        if self.steps > self.LIMIT * 50:
            raise GiveUp('analysis budget')
        d = self.dem.get(nm, nm)
        sm = simple(d)
        if sm:
            return self.map_call(st, sm[0], sm[1], sm[2], args, n)
        r = self.extern(st, nm, d, args, n)
        if r is not None:
            return r
        if nm not in self.skip:
            r = self.model(st, d, args, n)
            if r is not None:
                self.calls_seen.add(nm)
                return r
        f = self.func(nm)
        if f is None:
            raise GiveUp('%s is not defined here' % d[:80])
        if self.depth > 40:
            raise GiveUp('recursion')
        if nm in self.own:
            self.analysed.add(nm)
        self.depth += 1
        try:
            return self.run(f, args, st)
        finally:
            self.depth -= 1

    def extern(self, st, nm, d, args, n):
        if nm.startswith('llvm.'):
            if nm.startswith('llvm.memcpy') or nm.startswith('llvm.memmove'):
                self.memcpy(st, args[0], args[1], args[2])
                return [(st, None)]
            if nm.startswith('llvm.memset'):
                a, k = self.place(args[0]), self.number(st, args[2]).const()
                if k is None or a[1] is None or self.number(st, args[1]).const() != 0:
                    raise GiveUp('memset')
                for q in [q for q in st.mem if q[0] == a[0] and a[1] <= q[1] < a[1] + k]:
                    del st.mem[q]
                st.zeroed = st.zeroed + ((a[0], a[1], a[1] + int(k)),)
                return [(st, None)]
            if nm.startswith('llvm.abs.'):
                return self.absolute(st, args[0])
            if nm.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias')):
                return [(st, None)]
            if nm.startswith('llvm.expect'):
                return [(st, args[0])]
            if nm.startswith(('llvm.fmuladd', 'llvm.fma.')):
                a, b, c = (self.number(st, x) for x in args[:3])
                return [(st, self.norm(st, a * b + c))]
            if nm.startswith('llvm.ctpop'):
                v = self.number(st, args[0])
                c = v.const()
                return [(st, num(bin(int(c) & 0xffffffff).count('1')) if c is not None else atom('nat', 'pop', v.f))]
            if nm.startswith('llvm.fabs'):
                return self.absolute(st, args[0])
            raise GiveUp(nm)
        if nm in ('abs', 'labs'):
            return self.absolute(st, args[0])
        if d.startswith('std::_Rb_tree_increment('):
            p = args[0]
            if p[1][0] in ('cur', 'inc'):
                if p[1][0] == 'cur' and st.cur.get(p[1]) != 'in':
                    raise GiveUp('an iterator is advanced past the end')
                return [(st, ptr(('inc', p[1])))]
            if p[1][0] == 'beg':
                return [(st, ptr(('inc', p[1])))]
            raise GiveUp('an iterator is advanced')
        if d.startswith('std::_Rb_tree_decrement('):
            raise GiveUp('backwards iteration')
        m = re.match(r'bool std::operator(==|!=|<|>|<=|>=)\s?<.*\((std::map<.*) const&, (std::map<.*) const&\)$', d)
        if m and m.group(2) == m.group(3) and self.kind_of_text('(' + m.group(2)):
            kind = self.kind_of_text('(' + m.group(2))
            a, b = (self.value(st, self.place(x), kind) for x in args)
            o = m.group(1)
            if o in ('==', '!='):
                return [(s, v if o == '==' else ONE - v) for s, v in self.test_zero(st, a - b)]
            out = []
            for x, w in self.string_order(st, a, b):
                if self.assume_zero(x, a - b, w == 0):
                    out.append((x, num(int({'<': w < 0, '>': w > 0, '<=': w <= 0, '>=': w >= 0}[o]))))
            return out
        m = re.match(r'(?:void )?std::swap<', d)
        if m and 'std::map<' in d.rsplit('(', 1)[-1]:
            sg = simple(d[d.index('(std::map<') + 1:].rstrip(')').rstrip('&') + '::swap(') if '(std::map<' in d else None
            kind = self.kind_of_text(d)
            return self.map_call(st, kind, 'swap', '', args, n)
        if 'std::__cxx11::basic_string<char' in d:
            r = self.string(st, d, args)
            if r is not None:
                return r
        return None

    def kind_of_text(self, d):
        x = d.rsplit('(', 1)[-1]
        return ('mv' if 'map<unsigned int, poly' in x else 'poly' if 'map<mon, float' in x else
                'mon' if 'map<std::__cxx11::basic_string' in x else None)

    def absolute(self, st, v):
        v = self.number(st, v)
        return [(s, v if g.const() else -v) for s, g in self.compare(st, 'sge', v, ZERO)]

    STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'

    def string(self, st, d, args):
        s = self.STR
        if d.startswith(s + '::~basic_string('):
            return [(st, None)]
        if d.startswith(s + '::basic_string(' + s):
            b = self.place(args[1])
            self.assign(st, self.place(args[0]), 'str', self.value(st, b, 'str'))
            return [(st, None)]
        m = re.match(r'bool std::operator(==|!=|<|>|<=|>=)\s?<char.*\(%s const&, %s const&\)$' % (re.escape(s), re.escape(s)), d)
        if m:
            a, b = (self.value(st, self.place(x), 'str') for x in args)
            o = m.group(1)
            out = []
            for x, w in self.string_order(st, a, b):
                out.append((x, num(int({'==': w == 0, '!=': w != 0, '<': w < 0, '>': w > 0, '<=': w <= 0, '>=': w >= 0}[o]))))
            return out
        if d.startswith(s + '::compare(' + s) and len(args) == 2:
            a, b = (self.value(st, self.place(x), 'str') for x in args)
            return [(x, num(w)) for x, w in self.string_order(st, a, b)]
        return None

    def string_order(self, st, a, b):
        if a == b:
            return [(st, 0)]
        k, sg = ((a.f, b.f), 1) if a.f < b.f else ((b.f, a.f), -1)
        at = aid(('order',) + k)
        out = []
        for w in (-1, 0, 1):
            if at in st.cond and st.cond[at] != w:
                continue
            s = st.copy()
            s.cond[at] = w
            out.append((s, w * sg))
        return out

    def run(self, f, args, st):
        """outcomes of a call: [(state, value)]"""
        env = dict(zip(f.params, args))
        self.serial += 1
        base = ('a', self.serial)
        out = []
        for o in self.region(f, f.entry, None, st, env, (), base):
            if o[0] == 'ret':
                out.append((o[1], o[2]))
            elif o[0] == 'throw':
                self.thrown(f, o)
            else:
                raise GiveUp('control leaves a function in an unknown way')
        return out

    def thrown(self, f, o):
        pass

    def region(self, f, b, prev, st, env, active, base, inside=None):
        """executes from block b until control returns, reaches an active loop head or leaves `inside`"""
        out, work = [], [(b, prev, st, env)]
        count = 0
        while work:
            b, prev, st, env = work.pop()
            count += 1
            if count > self.LIMIT:
                raise GiveUp('too many cases')
            if inside is not None and b not in inside:
                out.append(('exit', b, prev, st, env))
                continue
            if active and b == active[-1] and prev is not None and prev in f.loops[b] and count > 1:
                out.append(('back', b, prev, st, env))
                continue
            if b in f.loops and b not in active:
                for o in self.loop(f, b, prev, st, env, active, base):
                    if o[0] == 'exit':
                        work.append((o[1], o[2], o[3], o[4]))
                    else:
                        out.append(o)
                continue
            for o in self.block(f, b, prev, st, env, base):
                if o[0] == 'go':
                    work.append((o[1], b, o[2], o[3]))
                else:
                    out.append(o)
        return out

    def phis(self, f, b, prev, env):
        new = {}
        for n in f.code[b]:
            if n.op != 'phi':
                break
            for k in range(L.count_incoming(n.i)):
                if L.incoming_block(n.i, k) == prev:
                    new[n.i] = self.val(env, L.incoming_value(n.i, k))
                    break
        return new

    def block(self, f, b, prev, st, env, base, skip_phis=False):
        env = dict(env)
        if not skip_phis and prev is not None:
            env.update(self.phis(f, b, prev, env))
        states = [(st, env)]
        for n in f.code[b]:
            if n.op == 'phi':
                continue
            if n.op in ('br', 'switch', 'ret', 'unreachable', 'invoke', 'resume'):
                return self.terminate(f, n, states, base)
            new = []
            for s, e in states:
                new += self.step(f, n, s, e, base)
            states = new
        return []

    def terminate(self, f, n, states, base):
        out = []
        for st, env in states:
            if n.op == 'ret':
                out.append(('ret', st, self.val(env, n.ops[0]) if n.ops else None))
            elif n.op in ('unreachable', 'resume'):
                out.append(('throw', st, n))
            elif n.op == 'invoke':
                for s, v in self.docall(f, n, st, env, base):
                    e = dict(env)
                    e[n.i] = v
                    out.append(('go', f.succ[n.block][0], s, e))
            elif n.op == 'br':
                if not L.is_conditional(n.i):
                    out.append(('go', f.succ[n.block][0], st, env))
                    continue
                c = self.val(env, L.condition(n.i))
                for s, w in self.truth(st, c):
                    out.append(('go', L.succ(n.i, 0 if w else 1), s, env))
            else:
                v = self.val(env, n.ops[0])
                out += self.switch(n, st, env, v)
        return out

    def switch(self, n, st, env, v):
        if not isinstance(v, P):
            raise GiveUp('switch on an unknown value')
        out, rest = [], [st]
        for k in range(2, len(n.ops), 2):
            nxt = []
            for s in rest:
                for s2, w in self.compare(s, 'eq', v, self.const(n.ops[k])):
                    if w.const():
                        out.append(('go', n.ops[k + 1], s2, env))
                    else:
                        nxt.append(s2)
            rest = nxt
        return out + [('go', n.ops[1], s, env) for s in rest]

    def truth(self, st, c):
        if isinstance(c, P):
            k = c.const()
            if k is not None:
                return [(st, k != 0)]
            return [(s, not v.const()) for s, v in self.test_zero(st, c)]
        if isinstance(c, tuple) and c and c[0] == 'undef':
            raise Wrong('a branch depends on a value that was never set', self.where())
        raise GiveUp('unknown condition')

    def docall(self, f, n, st, env, base):
        cv = L.called_value(n.i)
        na = L.num_args(n.i)
        args = [self.val(env, n.ops[k]) if L.kind(L.typeof(n.ops[k])) != 'metadata' else None for k in range(na)]
        if L.is_function(cv):
            nm = L.name(cv)
        else:
            p = self.val(env, cv)
            if not (is_ptr(p) and p[1][0] == 'fn'):
                raise GiveUp('indirect call')
            nm = p[1][1]
        self.stack.append(f.line(n))
        try:
            return self.call(st, nm, args, n)
        finally:
            self.stack.pop()

    def step(self, f, n, st, env, base):
        o = n.op
        v = lambda k: self.val(env, n.ops[k])

        def done(x, s=st):
            e = dict(env)
            e[n.i] = x
            return [(s, e)]
        if o == 'alloca':
            self.serial += 1
            return done(ptr(('a', self.serial, L.name(n.i))))
        if o == 'load':
            self.stack.append(f.line(n))
            try:
                return done(self.load(st, v(0), n.size, n.kind))
            finally:
                self.stack.pop()
        if o == 'store':
            self.stack.append(f.line(n))
            try:
                self.store(st, v(1), v(0), n.size)
            finally:
                self.stack.pop()
            return [(st, env)]
        if o == 'gep':
            b = v(0)
            if not is_ptr(b):
                raise GiveUp('address of an unknown object')
            off = self.gep_off(n.i, lambda x: self.val(env, x))
            return done(ptr(b[1], None if off is None or b[2] is None else b[2] + off))
        if o in ('call',):
            out = []
            for s, x in self.docall(f, n, st, env, base):
                e = dict(env)
                e[n.i] = x
                out.append((s, e))
            return out
        if o in ('icmp', 'fcmp'):
            p = L.ICMP[L.icmp_pred(n.i)] if o == 'icmp' else L.FCMP[L.fcmp_pred(n.i)]
            out = []
            for s, x in self.compare(st, p, v(0), v(1)):
                e = dict(env)
                e[n.i] = x
                out.append((s, e))
            return out
        if o in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
            x = v(0)
            if o == 'sext' and isinstance(x, P) and L.int_width(L.typeof(n.ops[0])) == 1:
                x = -x
            if o == 'trunc' and isinstance(x, P) and x.const() is not None:
                w = L.int_width(L.typeof(n.i))
                c = int(x.const()) & ((1 << w) - 1)
                x = num(c if w == 1 or c < 1 << (w - 1) else c - (1 << w))
            if o == 'zext' and isinstance(x, P) and x.const() is not None and x.const() < 0:
                x = x + num(1 << L.int_width(L.typeof(n.ops[0])))
            return done(x)
        if o in ('add', 'fadd', 'sub', 'fsub', 'mul', 'fmul', 'fneg'):
            a = v(0)
            b = v(1) if o != 'fneg' else None
            if not isinstance(a, P) or o != 'fneg' and not isinstance(b, P):
                return done(('undef',) if ('undef',) in (a, b) else ('?',))
            r = (-a if o == 'fneg' else a + b if 'add' in o else a - b if 'sub' in o else a * b)
            return done(self.norm(st, r))
        if o == 'select':
            out = []
            for s, w in self.truth(st, v(0)):
                e = dict(env)
                e[n.i] = self.val(env, n.ops[1 if w else 2])
                out.append((s, e))
            return out
        if o == 'extractvalue':
            x = v(0)
            k = L.indices(n.i)[0]
            if isinstance(x, tuple) and x and x[0] == 'agg':
                return done(x[1][k])
            return done(('?',))
        if o == 'insertvalue':
            x, y = v(0), v(1)
            k = L.indices(n.i)[0]
            c = L.struct_count(L.typeof(n.i)) if L.kind(L.typeof(n.i)) == 'struct' else 0
            l = list(x[1]) if isinstance(x, tuple) and x[0] == 'agg' else [('undef',)] * max(c, k + 1)
            l[k] = y
            return done(('agg', tuple(l)))
        if o in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'urem', 'srem', 'udiv', 'sdiv'):
            a, b = v(0), v(1)
            if isinstance(a, tuple) and a and a[0] == 'p' and a[1][0] == 'fn' and o == 'and':
                return done(ZERO)
            if not isinstance(a, P) or not isinstance(b, P):
                return done(('?',))
            return done(self.bitop(st, o, self.norm(st, a), self.norm(st, b), n))
        if o in ('landingpad',):
            return done(('?',))
        raise GiveUp('instruction %s' % o)

    def bitop(self, st, o, a, b, n):
        x, y = a.const(), b.const()
        w = n.width
        if x is not None and y is not None and x.denominator == 1 and y.denominator == 1:
            m = (1 << w) - 1
            x, y = int(x) & m, int(y) & m
            if o in ('urem', 'srem', 'udiv', 'sdiv') and y == 0:
                raise GiveUp('division by zero')
            r = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y & m,
                 'lshr': lambda: x >> y, 'ashr': lambda: (x - (1 << w) if x >> (w - 1) else x) >> y & m,
                 'urem': lambda: x % y, 'udiv': lambda: x // y,
                 'srem': lambda: x % y if x >> (w - 1) == 0 else None,
                 'sdiv': lambda: x // y if x >> (w - 1) == 0 else None}[o]()
            if r is None:
                raise GiveUp('signed division')
            return num(r if w == 1 or not r >> (w - 1) else r - (1 << w))
        if w == 1:
            if o == 'xor':
                return a + b - (a * b).scale(2)
            if o == 'and':
                return a * b
            if o == 'or':
                return a + b - a * b
        if o in ('and', 'or', 'xor'):
            return bitwise(o, a, b)
        return atom('op', o, a.f, b.f)

    # -------------------------------------------------------------- loops
    def loop(self, f, h, prev, st, env, active, base):
        """[('exit', block, prev, state, env) or other outcomes]"""
        env = dict(env)
        env.update(self.phis(f, h, prev, env))
        heads = {i for i in (n.i for n in f.code[h] if n.op == 'phi')}
        begs = {}
        for i in heads:
            x = env.get(i)
            if is_ptr(x) and x[1][0] == 'beg' and x[2] == 0:
                begs[('e', i)] = x
        for a, (x, z) in st.mem.items():
            if is_ptr(x) and x[1][0] == 'beg' and x[2] == 0:
                begs[('m', a)] = x
        # the last containers traversed first: iterators of enclosing loops are cursors by now
        if begs and self.lock is not None:
            return self.lockstep(f, h, prev, st, env, active, base, begs)
        if not begs:
            return self.other_loop(f, h, prev, st, env, active, base)
        return self.traverse(f, h, prev, st, env, active, base, heads, begs)

    def body(self, f, h, st, env, active, base):
        out = []
        for o in self.block(f, h, None, st, env, base, True):
            if o[0] == 'go':
                out += self.region2(f, o[1], h, o[2], o[3], active + (h,), base, f.loops[h], h)
            else:
                out.append(o)
        return out

    def region2(self, f, b, prev, st, env, active, base, inside, h):
        """like region, for the body of the loop h"""
        out, work = [], [(b, prev, st, env)]
        count = 0
        while work:
            b, prev, st, env = work.pop()
            count += 1
            if count > self.LIMIT:
                raise GiveUp('too many cases')
            if b == h:
                out.append(('back', b, prev, st, env))
                continue
            if b not in inside:
                out.append(('exit', b, prev, st, env))
                continue
            if b in f.loops:
                for o in self.loop(f, b, prev, st, env, active, base):
                    if o[0] == 'exit':
                        work.append((o[1], o[2], o[3], o[4]))
                    else:
                        out.append(o)
                continue
            for o in self.block(f, b, prev, st, env, base):
                if o[0] == 'go':
                    work.append((o[1], b, o[2], o[3]))
                else:
                    out.append(o)
        return out

    def lockstep(self, f, h, prev, st0, env0, active, base, begs):
        """a loop without memory that walks through several containers at the same pace"""
        st, env = st0.copy(), dict(env0)
        cur = {}
        for loc, p in begs.items():
            a = p[1][1]
            if a not in cur:
                f_ = self.value(st, a, p[1][2]).f
                cur[a] = ('cur', a, f_, atom('k', f_).f, -1)
            self.put(st, env, loc, ptr(cur[a]))
        start = st.copy()
        out = []
        for o in self.body(f, h, st, env, active, base):
            if o[0] != 'back':
                out.append(o)
                continue
            _, _, pb, s, e = o
            ph = self.phis(f, h, pb, e)
            for loc, p in begs.items():
                now = ph.get(loc[1]) if loc[0] == 'e' else s.mem.get(loc[1], (None, 0))[0]
                if now != ptr(('inc', cur[p[1][1]])):
                    if now == ptr(cur[p[1][1]]) and any(begs[l][1][1] == p[1][1] and l != loc for l in begs):
                        continue
                    raise GiveUp('an iterator that does not advance by one')
            for i in (n.i for n in f.code[h] if n.op == 'phi'):
                if ('e', i) not in begs and ph.get(i) != env0.get(i):
                    raise GiveUp('a loop with memory')
            for a, (x, z) in start.mem.items():
                if ('m', a) not in begs and a[0][0] != 'a' and s.mem.get(a, (None, 0))[0] != x:
                    raise GiveUp('a loop with memory')
            for a, m in start.obj.items():
                if isinstance(m, Map) and a in s.obj and s.obj[a].base != m.base:
                    raise GiveUp('a loop with memory')
            self.lock.append(s)
        return out

    def other_loop(self, f, h, prev, st, env, active, base):
        """a loop that is not a traversal: its cases are followed as far as they are finitely many"""
        out, work = [], [(st, env)]
        for _ in range(70):
            nxt = []
            for s, e in work:
                for o in self.body(f, h, s, e, active, base):
                    if o[0] == 'back':
                        e2 = dict(o[4])
                        e2.update(self.phis(f, h, o[2], o[4]))
                        nxt.append((o[3], e2))
                    else:
                        out.append(o)
            if not nxt:
                return out
            if len(nxt) > 200:
                break
            work = nxt
        raise GiveUp('a loop that is not a traversal of a container')

    def get(self, st, env, loc):
        return env.get(loc[1]) if loc[0] == 'e' else st.mem.get(loc[1], (None, 0))[0]

    def put(self, st, env, loc, v):
        if loc[0] == 'e':
            env[loc[1]] = v
        else:
            st.mem[loc[1]] = (v, st.mem[loc[1]][1] if loc[1] in st.mem else 8)

    def traverse(self, f, h, prev, st0, env0, active, base, heads, begs):
        self.serial += 1
        lid = self.serial
        # containers that are traversed
        srcs = {}
        for loc, p in begs.items():
            a, kind = p[1][1], p[1][2]
            if a not in srcs:
                m = self.content(st0, a, kind)
                m2 = m.copy()
                self.flush(st0, m2)
                if a[0][0] not in ('node', 'cur', 'end'):
                    st0.obj[a] = m2
                f_ = self.norm(st0, m2.base).f
                if f_ in self.open and f_ in self.twins:
                    f_ = self.twins[f_]
                key = atom('k', f_)
                srcs[a] = (('cur', a, f_, key.f, lid), m2.dirty)
                if not m2.dirty:
                    self.clean.add(f_)
        state = {'acc': {}, 'num': {}, 'dirty': set(), 'fresh': {}}
        now = {x[0][2] for x in srcs.values()}
        self.open.extend(now)
        try:
            for _ in range(12):
                r = self.trial(f, h, st0, env0, active, base, heads, begs, srcs, state, lid)
                if r is not None:
                    return r
        finally:
            del self.open[len(self.open) - len(now):]
        raise GiveUp('a loop that is not understood')

    def trial(self, f, h, st0, env0, active, base, heads, begs, srcs, state, lid):
        st, env = st0.copy(), dict(env0)
        its = state.get('its')
        for loc, p in begs.items():
            if its is None or loc in its:
                self.put(st, env, loc, ptr(srcs[p[1][1]][0]))
        acc = {}
        for a, kind in state['acc'].items():
            m0 = st0.obj[a]
            x = atom('acc', lid, str(a))
            acc[a] = x
            st.obj[a] = Map(kind, x, m0.dirty or a in state['dirty'], a in state['fresh'])
        for loc in state['num']:
            x = atom('acc', lid, str(loc))
            acc[loc] = x
            self.put(st, env, loc, x)
        start = st.copy()
        env_start = dict(env)
        outs = self.body(f, h, st, env, active, base)
        backs = [o for o in outs if o[0] == 'back']
        others = [o for o in outs if o[0] != 'back']
        if not backs:
            raise GiveUp('a loop without a second iteration')
        # what changes
        moved, again = set(), False
        own_cells = {}
        for _, _, pb, s, e in backs:
            ph = self.phis(f, h, pb, e)
            for loc in list(begs):
                if its is not None and loc not in its:
                    continue
                cur = srcs[begs[loc][1][1]][0]
                now = ph.get(loc[1]) if loc[0] == 'e' else s.mem.get(loc[1], (None, 0))[0]
                if now == ptr(('inc', cur)):
                    moved.add(loc)
                elif is_ptr(now) and now[1][0] == 'inc' and now[1][1][0] == 'inc' and now[1][1][1] == cur:
                    raise Wrong('an entry is skipped', f.line(f.code[pb][-1]))
                elif now != ptr(cur):
                    raise GiveUp('an iterator that does not advance by one')
            for i in heads:
                if ('e', i) in begs and (its is None or ('e', i) in its):
                    continue
                a, b = env_start[i], ph.get(i)
                if a != b and ('e', i) not in state['num']:
                    if isinstance(a, P) and isinstance(b, P):
                        state['num'][('e', i)] = True
                        again = True
                    else:
                        raise GiveUp('a loop variable of unknown kind')
            for a, (x, z) in start.mem.items():
                y = s.mem.get(a, (None, 0))[0]
                if x != y and ('m', a) not in begs and ('m', a) not in state['num']:
                    if isinstance(x, P) and isinstance(y, P):
                        state['num'][('m', a)] = True
                        again = True
                    elif a[0][0] == 'a' and self.scratch(f, h, a):
                        pass
                    elif is_ptr(x) and is_ptr(y) and x[1][0] in ('beg', 'end'):
                        raise GiveUp('an iterator changes in a loop')
            for a, m in start.obj.items():
                m2 = s.obj.get(a)
                if m2 is None:
                    continue
                if not isinstance(m, Map):
                    if m != m2:
                        raise GiveUp('a string changes in a loop')
                    continue
                touched = m2.copy()
                keys = [self.norm(s, c.key) for c in touched.cells.values()]
                self.flush(s, touched)
                cond_base = self.norm(s, m.base)
                if touched.base != cond_base or keys and a not in state['acc'] and a not in srcs:
                    if a in srcs:
                        here = atom('v', srcs[a][0][2]) * delta(m.kind, thaw(srcs[a][0][3]))
                        if not touched.dirty and cond_base == thaw(srcs[a][0][2]) and touched.base == cond_base - here:
                            raise Wrong('the entry the loop stands on is erased', f.line(f.code[pb][-1]))
                        for k in m2.cells:
                            if k != srcs[a][0][3]:
                                raise GiveUp('a container changes while it is traversed')
                        if len(m2.cells) == 0:
                            raise GiveUp('a container changes while it is traversed')
                    elif a not in state['acc']:
                        state['acc'][a] = m.kind
                        again = True
                if a in state['acc'] and touched.dirty and not start.obj[a].dirty and a not in srcs:
                    state['dirty'].add(a)
                    again = True
                if a in state['acc'] and a not in srcs:
                    own_cells.setdefault(a, set()).update(k.f for k in keys)
        if its is None:
            state['its'] = moved
            return None
        # a container that was empty before, and gets one entry per entry traversed, under a key of its own
        for a in state['acc']:
            if a in state['fresh'] or a in srcs or st0.obj[a].base.t or a in state.get('nofresh', ()):
                continue
            ks = own_cells.get(a, set())
            if len(ks) == 1 and len(moved) == 1:
                k, = ks
                cur = srcs[begs[next(iter(moved))][1][1]][0]
                if self.injective(thaw(k), single(thaw(cur[3])), st0.obj[a].kind):
                    state['fresh'][a] = True
                    state['dirty'].discard(a)
                    again = True
            else:
                state.setdefault('nofresh', set()).add(a)
        if again:
            return None
        for a in state['fresh']:
            if own_cells.get(a, set()) and len(own_cells[a]) != 1:
                raise GiveUp('keys of a container')
        if len(moved) != 1:
            raise GiveUp('a loop over several containers')
        loc = next(iter(moved))
        src = srcs[begs[loc][1][1]][0]
        early = []
        for o in others:
            if o[0] == 'throw':
                continue
            s = o[3] if o[0] == 'exit' else o[1]
            if s.cur.get(src) != 'done':
                early.append(o)
        # contributions
        cases = {}
        dirty_src = False
        for _, _, pb, s, e in backs:
            g = self.guards(s, start)
            ph = self.phis(f, h, pb, e)
            row = {}
            for a in state['acc']:
                m = s.obj[a]
                self.flush(s, m)
                row[a] = self.settle(s, m.base - acc[a])
            for l2 in state['num']:
                x = ph[l2[1]] if l2[0] == 'e' else s.mem[l2[1]][0]
                row[l2] = self.settle(s, x - acc[l2])
            if src[1] in s.obj and src[1] in start.obj:
                m = s.obj[src[1]].copy()
                c = m.cells.get(src[3])
                if c is not None:
                    if c.there and self.is_zero(s, c.new) is not False:
                        dirty_src = True
                elif self.is_zero(s, atom('v', src[2])) is not False:
                    dirty_src = True
                self.flush(s, m)
                d = self.settle(s, m.base - start.obj[src[1]].base)
                row[('src',)] = d
            for k, d in row.items():
                for a in d.atoms():
                    if ATOMS[a][0] == 'acc' and ATOMS[a][1] == lid or ATOMS[a][0] == 'old':
                        raise Wrong('an entry of the result is not accumulated: %s' % show(d), f.line(f.code[h][-1]))
                cases.setdefault(k, []).append((g, d))
        # the state after the loop
        fin, fenv = st0.copy(), dict(env0)
        for l2 in its:
            p = begs[l2]
            self.put(fin, fenv, l2, ptr(('end', p[1][1])))
        for a, kind in state['acc'].items():
            total = self.total(src, cases.get(a, []), st0)
            fin.obj[a] = Map(kind, self.norm(st0, st0.obj[a].base + total), st0.obj[a].dirty or a in state['dirty'])
        for l2 in state['num']:
            x0 = self.get(st0, env0, l2)
            self.put(fin, fenv, l2, x0 + self.total(src, cases.get(l2, []), st0))
        if ('src',) in cases and any(d.t for _, d in cases[('src',)]):
            m0 = st0.obj[src[1]]
            fin.obj[src[1]] = Map(m0.kind, self.norm(st0, m0.base + self.total(src, cases[('src',)], st0)), dirty_src)
        elif ('src',) in cases:
            fin.obj[src[1]].dirty = dirty_src
        out = early
        fin.fuzzy = fin.fuzzy or bool(early)
        for o in self.body(f, h, fin, fenv, active, base):
            if o[0] == 'back':
                raise GiveUp('a loop does not end at the end of its container')
            out.append(o)
        return out

    def scratch(self, f, h, a):
        return True

    def injective(self, key, katom, kind):
        if kind == 'poly':
            # products of monomials: cancellation
            c = key.t.get(((katom, 1),))
            return c is not None and c != 0 and sum(1 for m in key.t for x, _ in m if x == katom) == 1
        return single(key) == katom

    def guards(self, s, start):
        g = {}
        for a, w in s.cond.items():
            if a not in start.cond:
                g[a] = w
        for fz, w in s.zero.items():
            if fz in start.zero:
                continue
            p = thaw(fz)
            if any(ATOMS[a][0] in ('old', 'acc') for a in p.atoms()):
                continue
            g[aid(('iszero', fz))] = w
        return frozenset(g.items())

    def settle(self, s, p):
        return self.norm(s, p)

    def total(self, src, rows, st):
        """sum over the entries of src of what each contributes"""
        cases = merge(rows)
        if len(cases) == 1 and not next(iter(cases))[0]:
            (_, d), = cases
            out = ZERO
            rest = ZERO
            k, v = single(thaw(src[3])), single(atom('v', src[2]))
            for m, c in d.t.items():
                mm = dict(m)
                key = [a for a in mm if ATOMS[a][0] == 'd' and k in thaw(ATOMS[a][2]).atoms()]
                if (mm.get(v) == 1 and len(key) == 1 and mm[key[0]] == 1 and thaw(ATOMS[key[0]][2]) == thaw(src[3]) and
                        not self.mentions(m, k, v, (v, key[0]))):
                    r = tuple(x for x in m if x[0] not in (v, key[0]))
                    out = out + P({r: c}) * thaw(src[2])
                else:
                    rest = rest + P({m: c})
            if not rest.t:
                return out
            flat = single(rest)
            if flat is not None and ATOMS[flat][0] == 'sum':
                return out + atom('sum', ATOMS[flat][1] | frozenset([src[2]]), ATOMS[flat][2])
            return out + atom('sum', frozenset([src[2]]), frozenset([(frozenset(), rest.f)]))
        return atom('sum', frozenset([src[2]]), frozenset((g, d.f) for g, d in cases if d.t))

    def mentions(self, m, k, v, but):
        return any(a not in but and deep(a, k, v) for a, _ in m)


def deep(a, k, v):
    """the atom depends on the current entry"""
    if a in (k, v):
        return True
    x = ATOMS[a]
    if x[0] in ('k', 'v', 'in'):
        return False
    for y in x[1:]:
        if isinstance(y, tuple) and y and y[0] == 'P':
            if any(deep(b, k, v) for b in thaw(y).atoms()):
                return True
        elif isinstance(y, frozenset):
            return True
    return False


def merge(rows):
    """contributions by case, with irrelevant conditions removed"""
    cur = set(rows)
    changed = True
    while changed:
        changed = False
        by = {}
        for g, d in cur:
            by.setdefault(d, set()).add(g)
        for d, gs in by.items():
            for g in list(gs):
                for a, w in g:
                    dom = ('+', '-', '0') if ATOMS[a][0] in Machine.TABLES or ATOMS[a][0] == 'sign' else (-1, 0, 1) \
                        if ATOMS[a][0] == 'order' else (True, False)
                    if ATOMS[a][0] == 'dual':
                        dom = ('+', '-')
                    rest = g - {(a, w)}
                    if all(any(h2 <= (rest | {(a, x)}) for h2 in gs) for x in dom):
                        cur -= {(x, d) for x in gs if rest <= x}
                        cur.add((rest, d))
                        changed = True
                        break
                if changed:
                    break
            if changed:
                break
    # cases that are contained in another
    return {(g, d) for g, d in cur if not any(h2 < g and d2 == d for h2, d2 in cur)}


def linear(op, x):
    """a linear operator applied to a multivector: acts on the basis blades and on opaque multivectors"""
    r = ZERO
    for m, c in x.t.items():
        base = [a for a, _ in m if is_multi(a)]
        if len(base) > 1:
            raise GiveUp('product of multivectors')
        rest = tuple(y for y in m if y[0] not in base)
        inner = P({tuple((a, 1) for a in base): Fraction(1)}) if base else ONE
        if op == 'rev' and base and ATOMS[base[0]] == ('d', 'mv', ZERO.f):
            r = r + P({m: c})
        elif base and ATOMS[base[0]][0] == op:
            r = r + P({rest: c}) * thaw(ATOMS[base[0]][1])
        else:
            r = r + P({rest: c}) * atom(op, inner.f)
    return r


def is_multi(a):
    x = ATOMS[a]
    return x[0] == 'd' and x[1] == 'mv' or x[0] in ('mvin', 'rev', 'op2', 'call') or x[0] == 'in' and str(x[1]).startswith('mv')


def bilinear(o, a, b):
    r = ZERO
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            b1 = tuple((x, 1) for x, _ in m1 if is_multi(x))
            b2 = tuple((x, 1) for x, _ in m2 if is_multi(x))
            s = P({tuple(y for y in m1 if not is_multi(y[0])): c1}) * P({tuple(y for y in m2 if not is_multi(y[0])): c2})
            r = r + s * atom('op2', o, P({b1: Fraction(1)}).f, P({b2: Fraction(1)}).f)
    return r


def first_line(f):
    return next((f.line(i) for b in f.code.values() for i in b if not f.line(i).startswith('?') and not f.line(i).endswith(':0')), '?:0')


def rename(p, d):
    """exchange the names of two contents everywhere"""
    d = dict(d)
    d.update({y: x for x, y in list(d.items())})

    def go(y):
        if isinstance(y, tuple) and y and y[0] == 'P':
            return d[y] if y in d else rename_p(thaw(y)).f
        if isinstance(y, (tuple, frozenset)):
            return type(y)(go(z) for z in y)
        return y

    def name(a):
        t = ATOMS[a]
        q = atom(*t)
        if t[0] == 'nat' and t[1] in ('xor', 'or', 'and') or t[0] == 'op':
            return bitwise(t[1], *[thaw(go(z)) for z in t[2:]])
        return thaw(d[q.f]) if q.f in d else atom(t[0], *[guard(z) if t[0] == 'sum' and i == 1 else go(z)
                                                          for i, z in enumerate(t[1:])])

    def guard(rows):
        return frozenset((frozenset((single(name(a)), w) for a, w in g), go(x)) for g, x in rows)

    def rename_p(p):
        r = ZERO
        for m, c in p.t.items():
            t = num(c)
            for a, e in m:
                if e > 0:
                    for _ in range(e):
                        t = t * name(a)
                else:
                    t = t * P({((single(name(a)), e),): Fraction(1)})
            r = r + t
        return r
    return rename_p(p)


def domain(a):
    t = ATOMS[a][0]
    if t == 'dual':
        return ('+', '-')
    if t in Machine.TABLES or t == 'sign':
        return ('+', '-', '0')
    return (-1, 0, 1) if t == 'order' else (True, False)


def expand(M, st, p):
    """p as sums over the entries of the operands: {binders: [(factor, cases)]} and the rest"""
    groups, rest = {}, ZERO
    for m, c in p.t.items():
        hit = [a for a, e in m if e == 1 and (ATOMS[a][0] in ('sum', 'rev', 'op2') or
                                              ATOMS[a][0] == 'in' and str(ATOMS[a][1]).startswith('mv'))]
        if len(hit) != 1:
            rest = rest + P({m: c})
            continue
        a, = hit
        x = ATOMS[a]
        fac = P({tuple(y for y in m if y[0] != a): c})
        if x[0] == 'sum':
            binders, cases = x[1], [(g, thaw(d)) for g, d in x[2]]
        elif x[0] == 'in':
            X = P({((a, 1),): Fraction(1)})
            binders, cases = frozenset([X.f]), [(frozenset(), atom('v', X.f) * delta('mv', atom('k', X.f)))]
        elif x[0] == 'rev':
            X = thaw(x[1])
            if single(X) is None or ATOMS[single(X)][0] != 'in':
                rest = rest + P({m: c})
                continue
            k, v = atom('k', X.f), atom('v', X.f) * delta('mv', atom('k', X.f))
            r = aid(('rev', k.f))
            binders, cases = frozenset([X.f]), [(frozenset([(r, True)]), -v), (frozenset([(r, False)]), v)]
        else:
            X, Y = thaw(x[2]), thaw(x[3])
            if any(single(z) is None or ATOMS[single(z)][0] != 'in' for z in (X, Y)) or X == Y:
                rest = rest + P({m: c})
                continue
            q = ATOMS[single(cases_sum(OPERATOR[x[1]], X, Y))]
            binders, cases = q[1], [(g, thaw(d)) for g, d in q[2]]
        if any(M.norm(st, thaw(b)).const() == 0 for b in binders):
            continue
        groups.setdefault(binders, []).append((fac, cases))
    return groups, rest


def consistent(M, s, asg):
    """what is known of the products of basis blades"""
    for a, w in asg.items():
        x = ATOMS[a]
        if x[0] in ('mul', 'ext', 'dot'):
            k = [thaw(y) for y in x[1:]]
            z = [M.is_zero(s, y) for y in k]
            if True in z and w != ('0' if x[0] == 'dot' else '+'):
                return False
            if x[0] == 'ext':
                c = M.is_zero(s, bitwise('and', *k))
                if c is not None and (w == '0') == c:
                    return False
    return True


OPERATOR = {'*': 'mul', '^': 'ext', '&': 'reg', '|': 'dot'}


def vanishes(M, st, p):
    """whether p is zero for all operands"""
    p = M.norm(st, p)
    if not p.t:
        return True
    groups, rest = expand(M, st, p)
    if rest.t:
        return False
    for binders, terms in groups.items():
        atoms = sorted({a for _, cs in terms for g, _ in cs for a, _ in g})
        n = 1
        for a in atoms:
            n *= len(domain(a))
        if n > 20000:
            raise GiveUp('too many cases to compare')
        for k in range(n):
            asg, s2 = {}, st.copy()
            for a in atoms:
                d = domain(a)
                asg[a] = d[k % len(d)]
                k //= len(d)
            ok = True
            for a, w in asg.items():
                if ATOMS[a][0] == 'iszero':
                    ok = ok and M.assume_zero(s2, thaw(ATOMS[a][1]), w)
                elif ATOMS[a][0] == 'sign':
                    ok = ok and M.assume_zero(s2, thaw(ATOMS[a][1]), w == '0')
            if not ok or not consistent(M, s2, asg):
                continue
            tot = ZERO
            for fac, cs in terms:
                ds = {M.norm(s2, d) for g, d in cs if all(asg[a] == w for a, w in g)}
                if len(ds) > 1:
                    return False
                for d in ds:
                    tot = tot + fac * d
            if M.norm(s2, tot).t:
                return False
    return True


# ------------------------------------------------------------------ the operations
def module():
    """linked, per function simplified module of the three sources; no inlining"""
    raws = [compile_sym(n) for n in ('poly.cpp', 'ga.cpp', 'parser.cpp')]
    w = build.workdir()
    out, bc = os.path.join(w, 'map.link.ll'), os.path.join(w, 'map.bc')
    own = set()
    for p in raws:
        t = open(p).read()
        for m in re.finditer(r'^define [^\n]*?@([\w.$]+)\(', t, flags=re.M):
            own.add(m.group(1))
    r = build.run([LINK, '-S'] + raws + ['-o', out])
    if r.returncode:
        raise build.BuildError('llvm-link failed: ' + r.stderr[:2000])
    t = open(out).read()
    t = re.sub(r'^(attributes #\d+ = \{.*)$', lambda m: re.sub(r'\b(alwaysinline|optnone)\b ?', '', m.group(1)), t, flags=re.M)
    open(out, 'w').write(t)
    r = build.run([build.OPT, '-passes=function(sroa,simplifycfg)', out, '-o', bc])
    if r.returncode:
        raise build.BuildError('opt failed: ' + r.stderr[:2000])
    return build.load(bc), own


def cases_sum(fn, X, Y):
    """the defining expression of a product of multivectors"""
    e1, e2 = atom('k', X.f), atom('k', Y.f)
    p = atom('v', X.f) * atom('v', Y.f)
    a = aid((fn, e1.f, e2.f))
    d = delta('mv', blade(fn, e1.f, e2.f))
    return atom('sum', frozenset([X.f, Y.f]), frozenset([(frozenset([(a, '+')]), (p * d).f), (frozenset([(a, '-')]), (-p * d).f)]))


def reversed_sum(X):
    e, v = atom('k', X.f), atom('v', X.f)
    a = aid(('rev', e.f))
    return X + atom('sum', frozenset([X.f]), frozenset([(frozenset([(a, True)]), (v * delta('mv', e)).scale(-2).f)]))


# name pattern, class, result in, arguments (kind, nonzero), expected content
def operations(same=False):
    X = {c: atom('in', c + ' X') for c in ('mv', 'poly', 'mon')}
    Y = {c: atom('in', c + ' ' + ('X' if same else 'Y')) for c in ('mv', 'poly', 'mon')}
    Z = atom('in', 'mv Y')      # the second name of an object that is traversed twice at once
    s, f, e = atom('in', 's'), atom('in', 'f'), atom('in', 'e')
    q = atom('in', 'poly q')
    ops = []

    def add(title, name, cls, form, args, want):
        ops.append((title, name, cls, form, args, want))
    add('adds an exponent to a monomial', r'mon::push\(.*\)', 'mon', 'this', [('str', 's'), ('num', 'f')],
        X['mon'] + f * delta('mon', s))
    add('multiplies monomials', r'mon::operator\*=\(mon const&\)', 'mon', 'this', [('mon', 'mon Y')], X['mon'] + Y['mon'])
    add('multiplies monomials', r'operator\*\(mon const&, mon const&\)', 'mon', 'value', [('mon', 'mon X'), ('mon', 'mon Y')],
        X['mon'] + Y['mon'])
    add('degree of a monomial', r'mon::degree\(\) const', 'mon', 'scalar', [('mon', 'mon X')],
        atom('sum', frozenset([X['mon'].f]), frozenset([(frozenset(), atom('v', X['mon'].f).f)])))
    add('adds a term to a polynomial', r'poly::push\(mon const&, float\)', 'poly', 'this', [('mon', 'mon Y'), ('num', 'f')],
        X['poly'] + f * delta('poly', Y['mon']))
    add('negates a polynomial', r'poly::operator-\(\) const ?&', 'poly', 'value', [('poly', 'poly X')], -X['poly'])
    add('negates a polynomial', r'poly::operator-\(\) &&', 'poly', 'this', [], -X['poly'])
    add('adds polynomials', r'poly::operator\+=\(poly const&\)', 'poly', 'this', [('poly', 'poly Y')], X['poly'] + Y['poly'])
    add('adds polynomials', r'operator\+\(poly const&, poly const&\)', 'poly', 'value',
        [('poly', 'poly X'), ('poly', 'poly Y')], X['poly'] + Y['poly'])
    add('multiplies polynomials', r'operator\*\(poly const&, poly const&\)', 'poly', 'value',
        [('poly', 'poly X'), ('poly', 'poly Y')], X['poly'] * Y['poly'])
    add('multiplies polynomials', r'poly::operator\*=\(poly const&\)', 'poly', 'this', [('poly', 'poly Y')],
        X['poly'] * Y['poly'])
    x, y = X['mv'], Y['mv']
    add('adds a term to a multivector', r'mv::push\(unsigned int, poly const&\)', 'mv', 'this', [('num', 'e'), ('poly', 'poly q')],
        x + q * delta('mv', e))
    add('negates a multivector', r'mv::operator-\(\) const ?&', 'mv', 'value', [('mv', 'mv X')], -x)
    add('negates a multivector', r'mv::operator-\(\) &&', 'mv', 'this', [], -x)
    add('reverses a multivector', r'mv::operator~\(\) const ?&', 'mv', 'value', [('mv', 'mv X')], reversed_sum(x))
    add('reverses a multivector', r'mv::operator~\(\) &&', 'mv', 'this', [], reversed_sum(x))
    add('adds multivectors', r'mv::operator\+=\(mv const&\)', 'mv', 'this', [('mv', 'mv Y')], x + y)
    add('subtracts multivectors', r'mv::operator-=\(mv const&\)', 'mv', 'this', [('mv', 'mv Y')], x - y)
    add('adds multivectors', r'operator\+\(mv const&, mv const&\)', 'mv', 'value', [('mv', 'mv X'), ('mv', 'mv Y')], x + y)
    for o, fn, t in (('*', 'mul', 'geometric'), ('^', 'ext', 'exterior'), ('&', 'reg', 'regressive'), ('|', 'dot', 'inner')):
        add('%s product' % t, r'operator\%s\(mv const&, mv const&\)' % o, 'mv', 'value', [('mv', 'mv X'), ('mv', 'mv Y')],
            cases_sum(fn, x, Z))
        add('%s product' % t, r'mv::operator\%s=\(mv const&\)' % o, 'mv', 'this', [('mv', 'mv Y')],
            bilinear(o, x, y))
    if same:
        # both operands are one object
        title = '%s, both operands one object'
        two = lambda a: [(k, n.replace('Y', 'X')) for k, n in a]
        ops = [(title % op[0],) + op[1:4] + (two(op[4]),) + op[5:] for op in ops if any(n.endswith(' Y') for k, n in op[4]) and
               not (op[2] == 'poly' and op[1].startswith('poly::push'))]
    return ops


def decide(mod, own, op):
    """(status, message, where, outcomes)"""
    title, pat, cls, form, args, want = op
    M = Machine(mod, own)
    names = {atom('in', c + ' X').f: atom('in', c + ' Y').f for c in ('mv', 'poly', 'mon')}
    same = title.endswith('one object')
    if same:
        M.twins = names
    nm = next((n for n, d in M.dem.items() if re.fullmatch(pat, d) and M.func(n)), None)
    if nm is None:
        return 'missing', 'there is no such function', None, 0, M
    M.skip.add(nm)
    st = State()
    av = []
    res = None
    for kind in ('mv', 'poly', 'mon'):
        for n in 'XY':
            M.clean.add(atom('in', '%s %s' % (kind, n)).f)
    M.nonzero |= {single(atom('in', 'poly q'))}
    if cls == 'poly':
        M.nonzero.add(single(atom('in', 'f')))
    if form == 'value':
        res = (('a', 'result'), 0)
        av.append(ptr(*res))
    elif form == 'scalar':
        res = None
    else:
        res = (('in', cls + ' X'), 0)
        av.append(ptr(*res))
        st.obj[res] = Map(cls, atom('in', cls + ' X'))
    before = {}
    for kind, n in args:
        if kind == 'num':
            av.append(atom('in', n))
            continue
        a = (('in', n), 0)
        av.append(ptr(*a))
        if kind == 'str':
            st.obj[a] = atom('in', n)
        else:
            st.obj[a] = Map(kind, atom('in', n))
            before[a] = atom('in', n)
    f = M.func(nm)
    if len(f.params) != len(av):
        return 'unknown', 'the signature of the function is not the expected one', None, 0, M
    # a function may be written in terms of another one that is analysed on its own
    try:
        outs = M.call(st, nm, av)
    except Wrong as x:
        return 'wrong', str(x), x.where, 0, M
    except GiveUp as x:
        return 'unknown', str(x), None, 0, M
    line = first_line(f)
    for s, r in sorted(outs, key=lambda o: o[0].fuzzy):
        try:
            if form == 'scalar':
                if not isinstance(r, P):
                    return 'unknown', 'the result', None, len(outs), M
                got = M.norm(s, r)
            else:
                got = M.value(s, res, cls)
            want_ = M.norm(s, want)
            d = M.norm(s, got - want_)
            ok = vanishes(M, s, d)
            if same and not ok:
                back = {single(thaw(y)): thaw(x) for x, y in names.items()}
                ok = vanishes(M, s, M.norm(s, d.subst(back))) or \
                    vanishes(M, s, M.norm(s, (got - rename(want_, names)).subst(back)))
            if not ok:
                if s.fuzzy:
                    return 'unknown', 'a loop that may be left early', None, len(outs), M
                return 'wrong', 'the result is %s instead of %s%s' % (show(got), show(want_), situation(M, s)), line, len(outs), M
            if res and M.dirty(s, res, cls):
                return 'wrong', 'a term that vanishes stays in the result%s' % situation(M, s), line, len(outs), M
            for a, v in before.items():
                if a != res and M.norm(s, M.value(s, a, None) - v).t:
                    return 'wrong', 'an operand is modified', line, len(outs), M
            if form == 'this' and r is not None and r != ptr(*res):
                return 'wrong', 'the function does not return its object', line, len(outs), M
            if cls == 'mv':
                al = s.mem.get((res[0], SIZE), (ptr(('alg',)) if form == 'this' else None, 8))[0]
                if al != ptr(('alg',)):
                    return 'wrong', 'the algebra of the result is not set', line, len(outs), M
        except GiveUp as x:
            return 'unknown', str(x), None, len(outs), M
    return 'holds', '', None, len(outs), M


def situation(M, s):
    c = ['%s: %s' % (show_atom(ATOMS[a]), w) for a, w in s.cond.items()]
    c += ['%s %s 0' % (show(thaw(f)), '=' if w else '!=') for f, w in s.zero.items()]
    return ' where ' + ', '.join(c) if c else ''


# ------------------------------------------------------------------ comparison functions
def rows_of(M, nm, av, st):
    """[(state, outcome)]: True, False or 'continue'"""
    M.lock = []
    M.skip.add(nm)
    outs = M.call(st, nm, av)
    rows = [(s, 'continue') for s in M.lock]
    M.lock = None
    for s, r in outs:
        c = r.const() if isinstance(r, P) else None
        if c is None:
            raise GiveUp('result of a comparison')
        rows.append((s, c != 0))
    return rows


def features(s, names):
    """the situation of a row, by named quantity; None when an unknown condition matters"""
    f = {}
    for reg, w in s.cur.items():
        f['at ' + show(thaw(reg[2]))[-1]] = w
    for a, w in s.cond.items():
        x = ATOMS[a]
        if x[0] == 'order':
            l, r = show(thaw(x[1])), show(thaw(x[2]))
            sw = -1 if 'Y' in l else 1
            f['key' if 'key' in l else 'all'] = w * sw
        elif x[0] == 'sign':
            n = names(thaw(x[1]))
            if n is None:
                return None
            f[n[0]] = {'+': 1, '-': -1, '0': 0}[w] * n[1]
        else:
            return None
    for fz, w in s.zero.items():
        n = names(thaw(fz))
        if n is None:
            return None
        if w:
            f[n[0]] = 0
        elif n[0] not in f:
            f[n[0]] = 'ne'
    return f


def lookup(rows, sit):
    """the outcomes compatible with a situation"""
    out = set()
    for f, o in rows:
        if all(k not in sit or (sit[k] != 0 if v == 'ne' else sit[k] == v) for k, v in f.items()):
            out.add(o)
    return out


def decide_order(mod, own, which):
    """equality and order of monomials, order of basis blades"""
    pat, what = {'eq': (r'operator==\(mon const&, mon const&\)', 'equality of monomials'),
                 'lt': (r'operator<\(mon const&, mon const&\)', 'order of monomials'),
                 'elem': (r'elem_comp::operator\(\)\(unsigned int, unsigned int\) const', 'order of basis blades')}[which]
    M = Machine(mod, own)
    nm = next((n for n, d in M.dem.items() if re.fullmatch(pat, d) and M.func(n)), None)
    if nm is None:
        return 'missing', 'there is no such function', None, 0, M
    f = M.func(nm)
    line = first_line(f)
    st = State()
    X, Y = atom('in', 'mon X'), atom('in', 'mon Y')
    try:
        if which == 'elem':
            x, y = atom('nat', 'X'), atom('nat', 'Y')
            px, py = atom('nat', 'pop', x.f), atom('nat', 'pop', y.f)
            quant = {(px - py).f: ('pop', 1), (py - px).f: ('pop', -1), (x - y).f: ('val', 1), (y - x).f: ('val', -1)}
            raw = rows_of(M, nm, [ptr(('a', 'this')), x, y], st)
        else:
            for v in (X, Y):
                M.clean.add(v.f)
                st.obj[(('in', 'mon ' + show(v)[-1]), 0)] = Map('mon', v)
            vx, vy = atom('v', X.f), atom('v', Y.f)
            sz = lambda v: atom('nat', 'size', v.f)
            dg = lambda v: atom('degree', v.f)
            quant = {}
            for n, a, b in (('val', vx, vy), ('size', sz(X), sz(Y)), ('degree', dg(X), dg(Y)), ('same', X, Y)):
                quant[(a - b).f], quant[(b - a).f] = (n, 1), (n, -1)
            raw = rows_of(M, nm, [ptr(('in', 'mon X')), ptr(('in', 'mon Y'))], st)
    except Wrong as e:
        return 'wrong', str(e), e.where, 0, M
    except GiveUp as e:
        return 'unknown', str(e), None, 0, M
    rows = []
    for s, o in raw:
        fs = features(s, lambda p: quant.get(p.f))
        if fs is None:
            return 'unknown', 'a condition of the comparison', None, len(raw), M
        rows.append((fs, o))
    bad = table(which, rows)
    if bad:
        return 'wrong', bad, line, len(rows), M
    return 'holds', '', None, len(rows), M


def table(which, rows):
    sgn = lambda a, b: (a > b) - (a < b)
    names = {k for f, _ in rows for k in f}
    if which == 'elem':
        el = [(p, v) for p in range(3) for v in range(3)]
        feas = lambda a, b: (a[1] != b[1] or a[0] == b[0])

        def less(a, b):
            return lookup(rows, {'pop': sgn(a[0], b[0]), 'val': sgn(a[1], b[1])})
        return strict(el, feas, less, lambda a: 'blade of grade %d, index %d' % a)
    # monomials of at most one factor first: (key, exponent) or nothing
    el = [None] + [(k, v) for k in range(3) for v in range(3)]

    def sit(a, b):
        s = {'at X': 'in' if a else 'done', 'at Y': 'in' if b else 'done'}
        if a and b:
            s['key'], s['val'] = sgn(a[0], b[0]), sgn(a[1], b[1])
        return s
    pre = [n for n in ('size', 'degree') if n in names]

    def both(a, b, p):
        s = sit(a, b)
        s.update(p)
        s['same'] = 0 if a == b and not any(p.values()) else 1
        s['all'] = sgn(a or (-1, 0), b or (-1, 0)) or next((x for x in p.values() if x), 0)
        return s
    import itertools
    for w in itertools.product((0, 1, -1), repeat=len(pre)):
        p = dict(zip(pre, w))
        for a in el:
            for b in el:
                if p.get('size') == 0 and (a is None) != (b is None):
                    continue
                o = lookup(rows, both(a, b, p))
                if len(o) != 1:
                    return 'the comparison depends on something else'
                o, = o
                q = {k: -v for k, v in p.items()}
                r = lookup(rows, both(b, a, q))
                d = 'for factors %s and %s%s' % (name_of(a), name_of(b), ''.join(', %s difference %d' % x for x in p.items() if x[1]))
                if which == 'eq':
                    if any(w) or a != b:
                        if o is not False and not (any(w) and o == 'continue'):
                            return 'monomials that differ are equal %s' % d
                    elif a is None:
                        if o is not True:
                            return 'equal monomials are not equal'
                    elif o != 'continue':
                        if not (o is True and 'same' in names):
                            return 'the factors behind an equal factor are not compared'
                    continue
                if a == b and not any(w):
                    if a is None and o is not False:
                        return 'a monomial is smaller than itself'
                    if a is not None and o == True:
                        return 'a monomial is smaller than itself'
                    if a is not None and o is False and 'all' not in names:
                        return 'the factors behind an equal factor are not compared'
                    continue
                if a == b and any(w) and o == 'continue':
                    continue
                if o == 'continue':
                    if any(w):
                        continue
                    return 'factors that differ are passed over %s' % d
                if r == {'continue'} or len(r) != 1 or next(iter(r)) == o:
                    return 'neither or both of two monomials are smaller than the other %s' % d
        if any(w):
            # decided by the prefix alone
            o = {x for a in el for b in el if not (p.get('size') == 0 and (a is None) != (b is None))
                 for x in lookup(rows, both(a, b, p))}
            if which == 'lt' and len(o) > 1 and o != {'continue'}:
                return 'the order mixes the %s with the factors' % ' and '.join(pre)
    if which == 'lt':
        zero = dict.fromkeys(pre, 0)

        def less(a, b):
            return lookup(rows, both(a, b, zero)) - {'continue'} or {False}
        feas = lambda a, b: not ('size' in pre and (a is None) != (b is None))
        return strict(el, feas, less, name_of)
    return None


def name_of(a):
    return 'none' if a is None else 'x%d^%d' % a


def strict(el, feas, less, nm):
    for a in el:
        for b in el:
            if feas(a, b):
                o = less(a, b)
                if len(o) != 1:
                    return 'the comparison depends on something else'
                if a == b and o != {False}:
                    return '%s is smaller than itself' % nm(a)
                if a != b and o == less(b, a):
                    return 'neither or both of %s and %s are smaller than the other' % (nm(a), nm(b))
    for a in el:
        for b in el:
            if feas(a, b) and less(a, b) == {True}:
                for c in el:
                    if feas(b, c) and feas(a, c) and less(b, c) == {True} and less(a, c) != {True}:
                        return 'the order is not transitive: %s, %s, %s' % (nm(a), nm(b), nm(c))
    return None


class Late(Exception):
    pass


def limited(seconds, fn):
    """run one analysis; whatever keeps it from an answer leaves the obligation undecided"""
    import signal

    def late(*a):
        raise Late('the time limit')
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(seconds)
    try:
        return fn()
    except (GiveUp, Late, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError) as e:
        return 'unknown', '%s: %s' % (type(e).__name__, e), None, 0, None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


RULE = ('the content of every ordered map is a formal sum of terms; the content each operation leaves equals its defining '
        'expression for arbitrary operands, on every path, with the product of blades abstract',
        'no term with a zero coefficient stays in a result',
        'operands are left as they are; the algebra of the result is set',
        'equality of monomials compares all factors, the orders of monomials and of blades are strict and total')


def check(o, tier):
    try:
        mod, own = module()
    except build.BuildError as e:
        o.error(str(e))
        return
    o.coverage['rules'] = list(RULE)
    limit = 200 if tier == 'thorough' else 40
    jobs = [(op[0], op[1], lambda op=op: decide(mod, own, op)) for op in operations() + operations(True)]
    jobs += [({'eq': 'equality of monomials', 'lt': 'order of monomials', 'elem': 'order of basis blades'}[w], w,
              lambda w=w: decide_order(mod, own, w)) for w in ('eq', 'lt', 'elem')]
    for title, name, job in jobs:
        status, msg, where, outcomes, M = limited(limit, job)
        name = re.sub(r'\\|\.\*| \?', '', name)
        o.count('operations analysed')
        o.count('outcomes (paths joined at loops)', outcomes)
        if status == 'wrong':
            o.violate(name, '%s: %s' % (title, msg), where or 'sym', None)
        elif status == 'holds':
            o.count('operations proved')
            o.samples.append({'operation': name, 'proved': title, 'outcomes': outcomes})
        else:
            o.coverage.setdefault('not decided', []).append('%s (%s): %s' % (name, title, msg))
