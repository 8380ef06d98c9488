"""Algebraic value domain of the analysis.

An abstract float is a rational function over the symbols of one analysed
function (input lanes, uninterpreted math-library atoms, 0/1 predicate atoms and
first-order error symbols of the hardware reciprocal instructions).  Two
abstract values are equal iff they are equal modulo the ring axioms and the
defining relations of the atoms:

  R_P^2 = 1/P                (R_P = 1/sqrt(P))
  sin(u)^2 = 1 - cos(u)^2
  b^2 = b                    (predicate atoms)
  L_v * E_v = 0              ([v<0] and [v==0] exclude each other)
  e_i * e_j = 0              (first-order error symbols)

Monomials are packed integers, 8 bits of exponent per variable, so that the
product of two monomials is an integer addition.
"""
from fractions import Fraction

BITS = 8
MASK = (1 << BITS) - 1


class Unsupported(Exception):
    """The analysis met a construct it has no transfer function for."""


def _num(x):
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant')
        return _num(Fraction(x))
    raise TypeError(x)


class Ctx:
    """Symbol table of one analysed function."""

    def __init__(self):
        self.generic = False
        self.names = []          # var index -> name
        self.kinds = []          # var index -> (kind, payload)
        self.index = {}          # name -> var index
        self.emask = 0           # exponent bits of error symbols
        self.bmask_hi = 0        # exponent bits >1 of boolean symbols
        self.bmask = 0
        self.specials = []       # indices needing rewriting (rsqrt, sin)
        self.factors = []        # denominators: list of poly dicts
        self.factor_index = {}
        self.atoms = []          # (kind, key Rat, var index)
        self.excl = {}           # bool var -> mask of vars it excludes
        self.eqsubst = {}        # E-atom var -> plain var it forces to zero
        self.sing_ids, self.sings = {}, []   # expressions where an intermediate is not finite
        self.saw_nan = False     # a comparison that only NaN decides was met
        self.nan_paths = False   # follow the paths taken for NaN operands
        self.epred = 0           # exponent bits of predicates decided by an estimate error
        self.zero = Rat(self, {}, {})
        self.one = Rat(self, {0: 1}, {})

    # -- variables -------------------------------------------------------
    def var(self, name, kind='in', payload=None):
        i = self.index.get(name)
        if i is None:
            i = len(self.names)
            self.index[name] = i
            self.names.append(name)
            self.kinds.append((kind, payload))
            if kind == 'err':
                self.emask |= MASK << (BITS * i)
            elif kind == 'bool':
                self.bmask |= MASK << (BITS * i)
                self.bmask_hi |= (MASK ^ 1) << (BITS * i)
            elif kind in ('rsqrt', 'sin', 'alg'):
                self.specials.append(i)
        return i

    def sym(self, name, kind='in', payload=None):
        i = self.var(name, kind, payload)
        return Rat(self, {1 << (BITS * i): 1}, {})

    def const(self, x):
        x = _num(x)
        return Rat(self, {0: x} if x else {}, {})

    # -- monomials --------------------------------------------------------
    def mono_fix(self, m):
        """Reduce a monomial; returns -1 if it vanishes."""
        e = m & self.emask
        if e:
            # at most one error symbol with exponent 1
            low = e & -e
            if e != low or ((low.bit_length() - 1) % BITS) != 0:
                return -1
        b = m & self.bmask
        if b:
            hi = b & self.bmask_hi
            if hi:
                out = m & ~self.bmask
                bb = 0
                i = 0
                x = b
                while x:
                    if x & MASK:
                        bb |= 1 << (BITS * i)
                    x >>= BITS
                    i += 1
                b = bb
                m = out | bb
            if self.excl:
                for v, ex in self.excl.items():
                    if (b >> (BITS * v)) & 1 and b & ex:
                        return -1
            if self.eqsubst:
                for v, w in self.eqsubst.items():
                    if (b >> (BITS * v)) & 1 and (m >> (BITS * w)) & MASK:
                        return -1
        return m

    # -- polys (dicts) -----------------------------------------------------
    def pmul(self, a, b):
        if not a or not b:
            return {}
        if len(a) > len(b):
            a, b = b, a
        out = {}
        fix = self.emask | self.bmask
        if len(a) * len(b) > 4000:
            r = self._bool_product(a, b)
            if r is not None:
                return r
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m1 + m2
                if m & fix:
                    m = self.mono_fix(m)
                    if m < 0:
                        continue
                c = out.get(m, 0) + c1 * c2
                if c:
                    out[m] = c
                elif m in out:
                    del out[m]
        return out

    def _bool_product(self, a, b):
        """product of two pseudo-Boolean polynomials through their value tables"""
        u = 0
        for m in a:
            u |= m
        for m in b:
            u |= m
        vs, i = [], 0
        while u:
            if u & MASK:
                if self.kinds[i][0] != 'bool' or i in self.excl or i in self.eqsubst:
                    return None
                vs.append(i)
            u >>= BITS
            i += 1
        n = len(vs)
        if n > 12 or (n << n) > len(a) * len(b):
            return None
        bit = [1 << (BITS * v) for v in vs]

        def table(p):
            t = [0] * (1 << n)
            for m, c in p.items():
                k = 0
                for j in range(n):
                    if m & (MASK << (BITS * vs[j])):
                        k |= 1 << j
                t[k] += c
            for j in range(n):
                s = 1 << j
                for k in range(1 << n):
                    if k & s:
                        t[k] += t[k ^ s]
            return t
        t = [x * y for x, y in zip(table(a), table(b))]
        for j in range(n):
            s = 1 << j
            for k in range(1 << n):
                if k & s:
                    t[k] -= t[k ^ s]
        out = {}
        for k, c in enumerate(t):
            if c:
                m = 0
                for j in range(n):
                    if k >> j & 1:
                        m |= bit[j]
                out[m] = c
        return out

    @staticmethod
    def padd(a, b, s=1):
        out = dict(a)
        for m, c in b.items():
            v = out.get(m, 0) + s * c
            if v:
                out[m] = v
            elif m in out:
                del out[m]
        return out

    @staticmethod
    def pscale(a, k):
        if k == 1:
            return a
        if not k:
            return {}
        return {m: _num(Fraction(c) * k) for m, c in a.items()}

    def ppow(self, a, n):
        r = {0: 1}
        while n:
            if n & 1:
                r = self.pmul(r, a)
            n >>= 1
            if n:
                a = self.pmul(a, a)
        return r

    def pdiv_exact(self, a, b):
        """a / b if exact, else None (lexicographic leading-term division)."""
        if not a:
            return {}
        if len(b) == 1:
            (mb, cb), = b.items()
            out = {}
            for m, c in a.items():
                d = self.mono_div(m, mb)
                if d is None:
                    return None
                out[d] = _num(Fraction(c) / cb)
            return out
        lb = max(b)
        cb = b[lb]
        # quick degree test: trailing monomials must divide as well
        if self.mono_div(min(a), min(b)) is None:
            return None
        rem = dict(a)
        q = {}
        steps = 0
        while rem:
            lm = max(rem)
            d = self.mono_div(lm, lb)
            if d is None:
                return None
            c = _num(Fraction(rem[lm]) / cb)
            q[d] = c
            for m, k in b.items():
                mm = m + d
                if mm & (self.emask | self.bmask):
                    mm = self.mono_fix(mm)
                    if mm < 0:
                        continue
                v = rem.get(mm, 0) - c * k
                if v:
                    rem[mm] = v
                else:
                    rem.pop(mm, None)
            if lm in rem:
                return None
            steps += 1
            if steps > 20000:
                return None
        return q

    @staticmethod
    def mono_div(m, d):
        if d == 0:
            return m
        # fieldwise m >= d
        x, y = m, d
        while y:
            if (x & MASK) < (y & MASK):
                return None
            x >>= BITS
            y >>= BITS
        return m - d

    def mono_str(self, m):
        if m == 0:
            return '1'
        out = []
        i = 0
        while m:
            e = m & MASK
            if e:
                out.append(self.names[i] if e == 1 else '%s^%d' % (self.names[i], e))
            m >>= BITS
            i += 1
        return '*'.join(out)

    def pstr(self, p, limit=12):
        if not p:
            return '0'
        items = sorted(p.items())
        out = []
        for m, c in items[:limit]:
            if m == 0:
                t = str(c)
            elif c == 1:
                t = self.mono_str(m)
            elif c == -1:
                t = '-' + self.mono_str(m)
            else:
                t = '%s*%s' % (c, self.mono_str(m))
            out.append(t)
        s = ' + '.join(out).replace('+ -', '- ')
        if len(items) > limit:
            s += ' + ... (%d terms)' % len(items)
        return s

    def pvars(self, p):
        r = 0
        for m in p:
            r |= m
        out = set()
        i = 0
        while r:
            if r & MASK:
                out.add(i)
            r >>= BITS
            i += 1
        return out

    # -- factors ------------------------------------------------------------
    def _primitive(self, p):
        """(content, primitive part) with positive leading coefficient."""
        from math import gcd
        dens = 1
        for c in p.values():
            d = c.denominator if isinstance(c, Fraction) else 1
            dens = dens * d // gcd(dens, d)
        g = 0
        for c in p.values():
            g = gcd(g, abs(int(c * dens)))
        lead = p[max(p)]
        cont = Fraction(g, dens)
        if lead < 0:
            cont = -cont
        return _num(cont), {m: _num(Fraction(c) / cont) for m, c in p.items()}

    def factor_id(self, prim):
        key = frozenset(prim.items())
        i = self.factor_index.get(key)
        if i is None:
            i = len(self.factors)
            self.factors.append(prim)
            self.factor_index[key] = i
        return i

    # -- atoms ----------------------------------------------------------------
    def find_atom(self, kind, key):
        for k, r, v in self.atoms:
            if k == kind and (r - key).is_zero():
                return v
        return None

    def atom(self, kind, key, pretty, varkind='atom'):
        v = self.find_atom(kind, key)
        if v is None:
            n = sum(1 for k, _, _ in self.atoms if k == kind)
            v = self.var('%s%d{%s}' % (pretty, n, key.short()), varkind, key)
            self.atoms.append((kind, key, v))
        return Rat(self, {1 << (BITS * v): 1}, {})

    def singular(self, kind, x):
        """{id: gates} of a value computed by dividing by x ('div'), or by taking the
        reciprocal square root ('rsqrt') or square root ('sqrt') of x. A value that
        algebra simplifies to a finite one still is not a number where an intermediate
        result was not."""
        key = (kind, frozenset(x.num.items()))
        i = self.sing_ids.get(key)
        if i is None:
            i = self.sing_ids[key] = len(self.sings)
            self.sings.append((kind, Rat(self, x.num, x.den)))
        return {i: (None,)}

    def rsqrt(self, x):
        sing, x = x.sing, x.noerr().norm()
        if x.is_const():
            return self.rsqrt_value(x)
        return self.rsqrt_value(x).with_sing(sing).with_sing(self.singular('rsqrt', x))

    def rsqrt_value(self, x):
        if x.is_const():
            c = Fraction(x.const_value())
            if c > 0:
                import math
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return self.const(Fraction(d, n))
        # extract a positive square constant content
        scale = 1
        if x.num:
            import math
            cont, _ = self._primitive(x.num)
            cont = abs(Fraction(cont))
            n, d = math.isqrt(cont.numerator), math.isqrt(cont.denominator)
            if n and n * n == cont.numerator and d * d == cont.denominator:
                x = x * self.const(1 / cont)
                scale = Fraction(d, n)
        return self.atom('rsqrt', x, 'rsqrt', 'rsqrt') * self.const(scale)

    def sqrt(self, x):
        x = x.noerr().norm()
        if x.is_const():
            c = x.const_value()
            if c == 0:
                return self.zero
            r = self.rsqrt_value(x)
            if r.is_const():
                return self.const(1 / Fraction(r.const_value()))
            return x * r
        return (x * self.rsqrt_value(x)).with_sing(self.singular('sqrt', x))

    def _odd_even(self, x):
        """canonical sign for sin/cos arguments"""
        x = x.noerr().norm()
        if x.num and x.num[max(x.num)] < 0:
            return -x, -1
        return x, 1

    def _polar(self, x):
        """(cosine, sine) of an angle that is itself an atan2, None otherwise"""
        if x.den or len(x.num) != 1:
            return None
        (m, c), = x.num.items()
        if c != 1:
            return None
        for k, args, v in self.atoms:
            if k == ('fn', 'atan2') and m == 1 << (BITS * v):
                y, z = args
                r = self.rsqrt_value(y * y + z * z)
                return z * r, y * r
        return None

    def cos(self, x):
        x, _ = self._odd_even(x)
        if x.is_const() and x.const_value() == 0:
            return self.one
        p = self._polar(x)
        if p:
            return p[0].with_sing(x.sing)
        return self.atom('cos', x, 'cos').with_sing(x.sing)

    def sin(self, x):
        x, s = self._odd_even(x)
        if x.is_const() and x.const_value() == 0:
            return self.zero
        p = self._polar(x)
        if p:
            r = p[1].with_sing(x.sing)
            return r if s > 0 else -r
        c = self.atom('cos', x, 'cos')
        v = self.find_atom('sin', x)
        if v is None:
            n = sum(1 for k, _, _ in self.atoms if k == 'sin')
            v = self.var('sin%d{%s}' % (n, x.short()), 'sin', c)
            self.atoms.append(('sin', x, v))
        r = Rat(self, {1 << (BITS * v): 1}, {}, x.sing)
        return r if s > 0 else -r

    def func(self, name, *args):
        """uninterpreted function"""
        args = [a.noerr().norm() for a in args]
        sing = None
        for a in args:
            sing = sing_union(sing, a.sing)
        for (k, rs, v) in self.atoms:
            if k == ('fn', name) and len(rs) == len(args) and all(
                    (r - a).is_zero() for r, a in zip(rs, args)):
                return Rat(self, {1 << (BITS * v): 1}, {}, sing)
        n = len(self.atoms)
        v = self.var('%s%d{%s}' % (name, n, ', '.join(a.short() for a in args)), 'atom', args)
        self.atoms.append((('fn', name), args, v))
        return Rat(self, {1 << (BITS * v): 1}, {}, sing)

    def atom_value(self, i, env):
        """numeric value of variable i under env (memoised in env)"""
        import math
        v = env.get(i)
        if v is not None:
            return v
        kind, payload = self.kinds[i]
        if kind == 'err':
            v = 0.0
        elif kind == 'rsqrt':
            v = 1 / math.sqrt(payload.evalf(env))
        elif kind == 'alg':
            v = math.sqrt(payload.evalf(env)) * env.get(-1 - i, 1)      # either root
        elif kind == 'bool':
            k, key = payload
            x = key.evalf(env)
            v = 1.0 if (x < 0 if k == 'lt' else x == 0) else 0.0
        else:
            at = next(((k, key) for k, key, w in self.atoms if w == i), None)
            if at is None:
                raise KeyError(self.names[i])
            v = self.atom_apply(at, [a.evalf(env) for a in (at[1] if isinstance(at[0], tuple) else [at[1]])])
        env[i] = v
        return v

    def atom_bounded(self, i, env, memo):
        """atom_value with a bound of its rounding error"""
        import math
        if i in memo:
            return memo[i]
        kind, payload = self.kinds[i]
        v = env.get(i)
        if v is not None:
            memo[i] = (v, 0.0)
            return memo[i]
        if kind == 'err':
            args, f = [], lambda: 0.0
        elif kind == 'rsqrt':
            args, f = [payload], lambda x: 1 / math.sqrt(x)
        elif kind == 'alg':
            args, f = [payload], lambda x: math.sqrt(max(x, 0.0)) * env.get(-1 - i, 1)
        elif kind == 'bool':
            k, key = payload
            x, e = key.bounded(env, memo)
            if 0 < abs(x) <= e:
                raise ArithmeticError('predicate lost to rounding')
            args, f = [], lambda: 1.0 if (x < 0 if k == 'lt' else x == 0) else 0.0
        else:
            at = next(((k, key) for k, key, w in self.atoms if w == i), None)
            if at is None:
                raise KeyError(self.names[i])
            args = at[1] if isinstance(at[0], tuple) else [at[1]]

            def f(*xs):
                return self.atom_apply(at, xs)
        vs = [a.bounded(env, memo) for a in args]
        v = float(f(*[x for x, _ in vs]))
        err = 4e-16 * abs(v)
        for j, (x, e) in enumerate(vs):
            if e:
                for s in (e, -e):
                    xs = [y for y, _ in vs]
                    xs[j] = x + s
                    try:
                        err += abs(float(f(*xs)) - v)
                    except (ValueError, ZeroDivisionError):     # beyond the domain
                        if kind != 'atom':
                            raise ArithmeticError('argument lost to rounding')
                        xs[j] = max(-1.0, min(1.0, xs[j]))
                        err += abs(float(f(*xs)) - v)
        memo[i] = (v, err)
        return memo[i]

    def atom_apply(self, at, xs):
        import math
        k, _ = at
        if k in ('sin', 'cos'):
            return getattr(math, k)(*xs)
        if isinstance(k, tuple):
            fn = {'low8bits': lambda a: int(a) & 0xff, 'low16bits': lambda a: int(a) & 0xffff,
                  'toint': math.trunc, 'round': round, 'exp2': lambda a: 2.0 ** a,
                  'cbrt': lambda a: math.copysign(abs(a) ** (1 / 3), a)}.get(k[1]) or getattr(math, k[1])
            return float(fn(*xs))
        raise KeyError(str(k))

    # predicates on sign ------------------------------------------------------
    def main_part(self, d):
        """the exact part of d, or its first-order error where the exact part vanishes"""
        m = d.noerr().norm()
        if m.is_zero() and not d.is_zero():
            return d.errpart().norm()
        return m

    def _sign_key(self, d):
        """d as c*key with key canonical (constant scale removed); returns key, sign(c)"""
        d = self.main_part(d)
        cont, prim = self._primitive(d.num)
        s = -1 if cont < 0 else 1
        return Rat(self, prim, d.den), s

    def is_neg(self, d):
        """0/1 abstract value of the predicate d < 0"""
        d = self.main_part(d)
        if d.is_const():
            return self.one if d.const_value() < 0 else self.zero
        key, s = self._sign_key(d)
        L = self._bool('lt', key, '[%s<0]')
        if s > 0:
            return L
        if self.generic:
            return self.one - L
        E = self.is_zero_pred(key)
        return self.one - L - E

    def is_zero_pred(self, d):
        d = self.main_part(d)
        if d.is_const():
            return self.one if d.const_value() == 0 else self.zero
        if self.generic:
            return self.zero        # operands outside the zero set of d
        key, _ = self._sign_key(d)
        E = self._bool('eq', key, '[%s==0]')
        L = self._bool('lt', key, '[%s<0]')
        ei = self._single(E)
        li = self._single(L)
        self.excl[ei] = self.excl.get(ei, 0) | (1 << (BITS * li))
        if len(key.num) == 1 and not key.den:
            (m, c), = key.num.items()
            vs = self.pvars(key.num)
            if len(vs) == 1 and self.kinds[next(iter(vs))][0] == 'in':
                self.eqsubst[ei] = next(iter(vs))
        return E

    def _bool(self, kind, key, fmt):
        v = self.find_atom(kind, key)
        if v is None:
            n = sum(1 for k, _, _ in self.atoms if k == kind)
            v = self.var('%s%d' % (fmt % key.short(), n), 'bool', (kind, key))
            self.atoms.append((kind, key, v))
            if not key.errpart().is_zero():
                self.epred |= 1 << (BITS * v)   # decided by an estimate error
        return Rat(self, {1 << (BITS * v): 1}, {})

    def boolvar(self, name, payload=None):
        return self.sym(name, 'bool', payload)

    def _single(self, r):
        (m, _), = r.num.items()
        return (m.bit_length() - 1) // BITS

    def signum(self, v):
        """+1/-1 from the sign bit of v (zero counts as positive)"""
        v = self.main_part(v)
        if v.is_const():
            return self.const(-1 if v.const_value() < 0 else 1)
        key, s = self._sign_key(v)
        L = self._bool('lt', key, '[%s<0]')
        sg = self.one - L - L
        return sg if s > 0 else -sg

    def abs(self, v):
        return v * self.signum(v)


class Rat:
    __slots__ = ('ctx', 'num', 'den', 'bits', 'sing')

    def __init__(self, ctx, num, den, sing=None):
        self.ctx = ctx
        self.num = num
        self.den = den          # {factor id: exponent}
        self.sing = sing        # {singular expression id: gates}; see Ctx.singular

    def with_sing(self, sing):
        if not sing or sing is self.sing:
            return self
        return Rat(self.ctx, self.num, self.den, sing_union(self.sing, sing))

    # -- helpers ---------------------------------------------------------
    def den_poly(self):
        p = {0: 1}
        for f, e in self.den.items():
            p = self.ctx.pmul(p, self.ctx.ppow(self.ctx.factors[f], e))
        return p

    def _cancel(self):
        if not self.den:
            return self
        if not self.num:
            return Rat(self.ctx, {}, {}, self.sing)
        num = self.num
        den = dict(self.den)
        changed = False
        for f in list(den):
            while den.get(f, 0) > 0:
                q = self.ctx.pdiv_exact(num, self.ctx.factors[f])
                if q is None:
                    break
                num = q
                changed = True
                den[f] -= 1
                if den[f] == 0:
                    del den[f]
        return Rat(self.ctx, num, den, self.sing) if changed else self

    def _reduce(self):
        """Apply the special relations (R^2=1/P, sin^2=1-cos^2)."""
        ctx = self.ctx
        r = self
        for i in reversed(ctx.specials):
            sh = BITS * i
            if not any(((m >> sh) & MASK) >= 2 for m in r.num):
                continue
            groups = {}
            for m, c in r.num.items():
                e = (m >> sh) & MASK
                groups.setdefault(e, {})[m - (e << sh)] = c
            kind, payload = ctx.kinds[i]
            if kind == 'rsqrt':
                sq = payload.raw_inv()      # R^2 = 1/P
            elif kind == 'alg':
                sq = payload                # assumed: v^2 = P
            else:
                sq = ctx.one - payload * payload
            sing = r.sing
            base = Rat(ctx, {1 << sh: 1}, {})
            acc = ctx.zero
            pw = {0: ctx.one}
            for e in sorted(groups):
                h, o = divmod(e, 2)
                while max(pw) < h:
                    pw[max(pw) + 1] = pw[max(pw)] * sq
                t = Rat(ctx, groups[e], {}) * pw[h]
                if o:
                    t = t * base
                acc = acc + t
            r = Rat(ctx, acc.num, _dmul(acc.den, r.den), sing)
        return r

    def norm(self):
        return self._reduce()._cancel()

    # -- ring -------------------------------------------------------------
    def __add__(self, o):
        o = self._lift(o)
        if self.den == o.den:
            return Rat(self.ctx, Ctx.padd(self.num, o.num), self.den, sing_union(self.sing, o.sing))._cancel_light()
        ctx = self.ctx
        den = dict(self.den)
        for f, e in o.den.items():
            if den.get(f, 0) < e:
                den[f] = e
        a, b = self.num, o.num
        for f, e in den.items():
            d = e - self.den.get(f, 0)
            if d:
                a = ctx.pmul(a, ctx.ppow(ctx.factors[f], d))
            d = e - o.den.get(f, 0)
            if d:
                b = ctx.pmul(b, ctx.ppow(ctx.factors[f], d))
        return Rat(ctx, Ctx.padd(a, b), den, sing_union(self.sing, o.sing)).norm()

    def _cancel_light(self):
        if not self.num:
            return Rat(self.ctx, {}, {}, self.sing)
        return self._cancel() if self.den else self

    def _lift(self, o):
        if isinstance(o, Rat):
            return o
        return self.ctx.const(o)

    def __neg__(self):
        return Rat(self.ctx, {m: -c for m, c in self.num.items()}, self.den, self.sing)

    def __sub__(self, o):
        return self + (-self._lift(o))

    def __radd__(self, o):
        return self + o

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = self._lift(o)
        if not self.num or not o.num:
            return self.ctx.zero
        sing = None
        if self.sing or o.sing:
            sing = sing_union(sing_gate(self.sing, o), sing_gate(o.sing, self))
        r = Rat(self.ctx, self.ctx.pmul(self.num, o.num), _dmul(self.den, o.den), sing)
        return r.norm()

    __rmul__ = __mul__

    def __pow__(self, n):
        r = self.ctx.one
        for _ in range(n):
            r = r * self
        return r

    def inv(self):
        r = self.raw_inv()
        m = self.noerr().norm()
        if m.is_const():
            return r.with_sing(self.sing)
        return r.with_sing(self.sing).with_sing(self.ctx.singular('div', m))

    def raw_inv(self):
        ctx = self.ctx
        s = self.norm()
        if not s.num:
            raise Unsupported('division by an abstract zero')
        num = dict(s.num)
        # (1+e)-style error terms: 1/(A + eB) = 1/A - eB/A^2
        ev = [m for m in num if m & ctx.emask]
        if ev:
            A = Rat(ctx, {m: c for m, c in num.items() if not m & ctx.emask}, s.den)
            B = Rat(ctx, {m: c for m, c in num.items() if m & ctx.emask}, s.den)
            ia = A.raw_inv()
            return ia - B * ia * ia
        out_num = {0: 1}
        out = Rat(ctx, {0: 1}, {})
        # monomial content
        content = None
        for m in num:
            content = m if content is None else _mono_gcd(content, m)
        if content:
            num = {m - content: c for m, c in num.items()}
            i = 0
            x = content
            while x:
                e = x & MASK
                if e:
                    kind, payload = ctx.kinds[i]
                    v = Rat(ctx, {1 << (BITS * i): 1}, {})
                    if kind == 'rsqrt':
                        for _ in range(e):
                            out = out * v * payload     # 1/R = R*P
                    elif kind == 'bool':
                        raise Unsupported('division by a predicate')
                    else:
                        f = ctx.factor_id({1 << (BITS * i): 1})
                        out = Rat(ctx, out.num, _dmul(out.den, {f: e}))
                x >>= BITS
                i += 1
        cont, prim = ctx._primitive(num)
        den = {}
        if len(prim) > 1 or 0 not in prim:
            # divide by factors already known
            for f in range(len(ctx.factors)):
                fp = ctx.factors[f]
                if len(fp) < 2:
                    continue
                while len(prim) >= len(fp) or len(prim) > 1:
                    q = ctx.pdiv_exact(prim, fp)
                    if q is None:
                        break
                    den[f] = den.get(f, 0) + 1
                    c2, prim = ctx._primitive(q)
                    cont = _num(Fraction(cont) * c2)
                    if len(prim) == 1:
                        break
                if len(prim) == 1 and 0 in prim:
                    break
            if not (len(prim) == 1 and 0 in prim):
                f = ctx.factor_id(prim)
                den[f] = den.get(f, 0) + 1
        out = Rat(ctx, ctx.pscale(out.num, 1 / Fraction(cont)), _dmul(out.den, den))
        return (out * Rat(ctx, s_den_poly(s), {})).norm()

    def __truediv__(self, o):
        return self * self._lift(o).inv()

    # -- queries -----------------------------------------------------------
    def is_zero(self):
        return not self.norm().num

    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and 0 in self.num))

    def const_value(self):
        return self.num.get(0, 0)

    def noerr(self):
        em = self.ctx.emask
        if not em or not any(m & em for m in self.num):
            return self
        return Rat(self.ctx, {m: c for m, c in self.num.items() if not m & em}, self.den, self.sing)

    def errpart(self):
        em = self.ctx.emask
        return Rat(self.ctx, {m: c for m, c in self.num.items() if m & em}, self.den).norm()

    def decided_by_error(self):
        """the part that depends on a predicate only the estimate error decides"""
        em = self.ctx.epred
        return Rat(self.ctx, {m: c for m, c in self.num.items() if m & em}, self.den).norm()

    def equals(self, o):
        return (self.noerr() - self._lift(o).noerr()).is_zero()

    def vars(self):
        v = self.ctx.pvars(self.num)
        for f in self.den:
            v |= self.ctx.pvars(self.ctx.factors[f])
        return v

    def subst(self, mapping):
        """substitute {var index: Rat} for input variables"""
        ctx = self.ctx

        def sp(p):
            acc = ctx.zero
            for m, c in p.items():
                rest = m
                t = ctx.one
                for i, r in mapping.items():
                    e = (m >> (BITS * i)) & MASK
                    if e:
                        rest -= e << (BITS * i)
                        t = t * (r ** e)
                acc = acc + Rat(ctx, {rest: c}, {}) * t
            return acc
        out = sp(self.num)
        for f, e in self.den.items():
            out = out / (sp(ctx.factors[f]) ** e)
        return out

    def bounded(self, env, memo):
        """(value, bound of the rounding error of that value) as evalf computes it; raises ArithmeticError
        where rounding alone decides a predicate"""
        ctx = self.ctx
        eps = 4e-16

        def pv(p):
            s = se = 0.0
            for m, c in p.items():
                x, e = float(c), 0.0
                todo = []
                i = 0
                while m:
                    k = m & MASK
                    if k:
                        todo.append((ctx.kinds[i][0] != 'bool', i, k))
                    m >>= BITS
                    i += 1
                for _, i, k in sorted(todo):
                    if not x and not e:
                        break
                    y, f = ctx.atom_bounded(i, env, memo)
                    for _ in range(k):
                        x, e = x * y, abs(x) * f + abs(y) * e + e * f + eps * abs(x * y)
                s, se = s + x, se + e + eps * (abs(s) + abs(x))
            return s, se
        r, e = pv(self.num)
        for f, k in self.den.items():
            y, g = pv(ctx.factors[f])
            if abs(y) <= g:
                raise ArithmeticError('denominator lost to rounding')
            for _ in range(k):
                e = (e + abs(r / y) * g) / (abs(y) - g) + eps * abs(r / y)
                r = r / y
        return r, e

    def evalf(self, env):
        """numeric value; env: {var index: float} filled for input variables.
        Atoms are evaluated from their defining expressions."""
        ctx = self.ctx

        def pv(p):
            t = 0.0
            for m, c in p.items():
                x = float(c)
                todo = []
                i = 0
                while m:
                    e = m & MASK
                    if e:
                        if ctx.kinds[i][0] == 'bool':       # gates first: a closed gate
                            x *= ctx.atom_value(i, env)     # hides what lies behind it
                        else:
                            todo.append((i, e))
                    m >>= BITS
                    i += 1
                if x:
                    for i, e in todo:
                        x *= ctx.atom_value(i, env) ** e
                    t += x
            return t
        r = pv(self.num)
        for f, e in self.den.items():
            r /= pv(self.ctx.factors[f]) ** e
        return r

    def short(self):
        s = str(self)
        return s if len(s) < 60 else s[:57] + '...'

    def __str__(self):
        n = self.ctx.pstr(self.num)
        if not self.den:
            return n
        d = []
        for f, e in self.den.items():
            p = '(%s)' % self.ctx.pstr(self.ctx.factors[f])
            d.append(p if e == 1 else '%s^%d' % (p, e))
        return '(%s)/%s' % (n, '*'.join(d))

    __repr__ = __str__


def sing_union(a, b):
    if not a:
        return b
    if not b or a is b:
        return a
    out = dict(a)
    for k, g in b.items():
        if k in out and out[k] != g:
            g = (None,) if None in out[k] or None in g else out[k] + g
            if len(g) > 8:
                g = (None,) if None in g else g[:8]
        out[k] = g
    return out


def sing_gate(s, p):
    """the singularities of v in p * v: where p is a mask they only count where it is set"""
    if not s:
        return None
    bm = p.ctx.bmask
    if p.den or p.is_const() or any(m & ~bm for m in p.num):
        return s
    return {k: tuple(p if g is None else g * p for g in gs) for k, gs in s.items()}


def s_den_poly(r):
    return r.den_poly()


def _dmul(a, b):
    if not b:
        return a
    if not a:
        return b
    out = dict(a)
    for f, e in b.items():
        out[f] = out.get(f, 0) + e
    return out


def _mono_gcd(a, b):
    out = 0
    sh = 0
    while a and b:
        out |= min(a & MASK, b & MASK) << sh
        a >>= BITS
        b >>= BITS
        sh += BITS
    return out


if __name__ == '__main__':
    c = Ctx()
    x, y = c.sym('x'), c.sym('y')
    e = c.sym('e0', 'err')
    a = x * x + y * y
    R = c.rsqrt(a)
    xn = R * (c.one + e)
    nr = c.const(0.5) * xn * (c.const(3) - a * xn * xn)
    assert (nr - R).is_zero(), nr
    assert (R * R * a - 1).is_zero()
    rc = (c.one + e) / a
    n2 = rc * (c.const(2) - a * rc)
    assert (n2 - c.one / a).is_zero()
    assert (c.sin(x) ** 2 + c.cos(-x) ** 2 - 1).is_zero()
    s = c.sqrt(a)
    assert (s * s - a).is_zero()
    assert (c.abs(x) * c.abs(x) - x * x).is_zero()
    assert ((x / y + y / x) - (x * x + y * y) / (x * y)).is_zero()
    print('ok')
