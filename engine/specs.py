"""What every public operation of the library is specified to compute.

A specification names the operation (as a C++ expression over its operands),
the operand and result types, and the expected result as a function of the
operands written with the reference algebra (ga.py).  Groups select the
specifications that belong to a property.
"""
import struct
from fractions import Fraction
from alg import Rat
from ga import MV, LAYOUT, NAMES

SPECS = []
TYPES3 = ['plane', 'point', 'direction', 'line', 'branch', 'ideal_line', 'rotor', 'translator', 'motor']
HALF = Fraction(1, 2)
PI_2 = Fraction(13176795, 8388608)       # kln::pi_2, rounded to single precision


def F32(x):
    return Fraction(struct.unpack('<f', struct.pack('<f', x))[0])

NPART = {'line': 2, 'motor': 2}


class Spec:
    def __init__(self, group, name, args, ret, code, exp, assume=None, kind='value', tags=(), note=''):
        self.group = group
        self.name = name
        self.args = [tuple(a.split(':')) for a in args.split()]
        self.ret = ret
        self.code = code            # C++ statements defining `r`, or storing through `out`
        self.exp = exp
        self.assume = assume
        self.kind = kind
        self.tags = set(tags)
        self.total = 'total' in self.tags   # defined for all operands
        self.regular = 'regular' in self.tags   # about operands for which all intermediate values exist
        self.note = note
        self.id = None


class Env:
    """operands of one analysed instance: attribute access gives the abstract multivector/scalar"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.vals = {}
        self.lanes = {}

    def __getitem__(self, n):
        return self.vals[n]

    def __getattr__(self, n):
        try:
            return self.__dict__['vals'][n]
        except KeyError:
            raise AttributeError(n)


def S(group, name, args, ret, code, exp, assume=None, **kw):
    if ';' not in code:
        code = '%s r = %s;' % (ctype(ret), code)
    s = Spec(group, name, args, ret, code, exp, assume, **kw)
    s.id = '%s_%d' % (group.lower(), len(SPECS))
    SPECS.append(s)
    return s


def ctype(t):
    if t in ('float', 'bool', 'int'):
        return t
    if t == 'm128':
        return '__m128'
    return 'kln::' + t


def one(e):
    return e.ctx.one


# ------------------------------------------------------------------ products
def prod(a, b, ra, tag=()):
    S('product', 'operator*(%s, %s)' % (a, b), 'a:%s b:%s' % (a, b), ra, 'a * b',
      lambda e: e.a * e.b, tags=tag)


for a, b, r in [('plane', 'plane', 'motor'), ('plane', 'point', 'motor'), ('point', 'plane', 'motor'),
                ('branch', 'branch', 'rotor'), ('line', 'line', 'motor'), ('rotor', 'rotor', 'rotor'),
                ('dual', 'line', 'line'), ('line', 'dual', 'line'), ('rotor', 'translator', 'motor'),
                ('translator', 'rotor', 'motor'), ('translator', 'translator', 'translator'),
                ('rotor', 'motor', 'motor'), ('motor', 'rotor', 'motor'), ('translator', 'motor', 'motor'),
                ('motor', 'translator', 'motor'), ('motor', 'motor', 'motor')]:
    prod(a, b, r)


def unit_scalar(mv):
    """the same translator scaled to scalar part 1"""
    return mv.scale(mv.ctx.one / mv.scalar())


S('product', 'operator*(point, point)', 'a:point b:point', 'translator', 'a * b', lambda e: unit_scalar(e.a * e.b))


def inverse(x):
    """x^-1 for x with x~x in the span of 1 and e0123"""
    n = x * x.rev()
    s = n.scalar()
    q = n.get('e0123')
    ninv = MV.named(x.ctx, {'1': x.ctx.one / s, 'e0123': -q / (s * s)})
    return x.rev() * ninv


for a, b, r in [('plane', 'plane', 'motor'), ('branch', 'branch', 'rotor'), ('rotor', 'rotor', 'rotor'),
                ('translator', 'translator', 'translator'), ('line', 'line', 'motor'),
                ('motor', 'rotor', 'motor'), ('motor', 'translator', 'motor'), ('motor', 'motor', 'motor')]:
    S('product', 'operator/(%s, %s)' % (a, b), 'a:%s b:%s' % (a, b), r, 'a / b', lambda e: e.a * inverse(e.b))
S('product', 'operator/(point, point)', 'a:point b:point', 'translator', 'a / b',
  lambda e: unit_scalar(e.a * inverse(e.b)))

# ------------------------------------------------------------------ meet
for a, b, r in [('plane', 'plane', 'line'), ('plane', 'branch', 'point'), ('branch', 'plane', 'point'),
                ('plane', 'ideal_line', 'point'), ('ideal_line', 'plane', 'point'), ('plane', 'line', 'point'),
                ('line', 'plane', 'point'), ('plane', 'point', 'dual'), ('point', 'plane', 'dual'),
                ('branch', 'ideal_line', 'dual'), ('ideal_line', 'branch', 'dual'), ('line', 'line', 'dual'),
                ('line', 'ideal_line', 'dual'), ('ideal_line', 'line', 'dual'), ('line', 'branch', 'dual'),
                ('branch', 'line', 'dual')]:
    S('meet', 'operator^(%s, %s)' % (a, b), 'a:%s b:%s' % (a, b), r, 'a ^ b', lambda e: e.a ^ e.b)

# ------------------------------------------------------------------ dual / join
for a, r in [('plane', 'point'), ('point', 'plane'), ('line', 'line'), ('ideal_line', 'branch'),
             ('branch', 'ideal_line'), ('dual', 'dual')]:
    S('join', 'operator!(%s)' % a, 'a:%s' % a, r, '!a', lambda e: e.a.dual())
for a, b, r in [('point', 'point', 'line'), ('point', 'line', 'plane'), ('line', 'point', 'plane'),
                ('point', 'branch', 'plane'), ('branch', 'point', 'plane'), ('point', 'ideal_line', 'plane'),
                ('ideal_line', 'point', 'plane'), ('plane', 'point', 'dual'), ('point', 'plane', 'dual')]:
    S('join', 'operator&(%s, %s)' % (a, b), 'a:%s b:%s' % (a, b), r, 'a & b', lambda e: e.a.join(e.b))

# ------------------------------------------------------------------ inner product / projection
for a, b, r in [('plane', 'plane', 'float'), ('plane', 'line', 'plane'), ('line', 'plane', 'plane'),
                ('plane', 'ideal_line', 'plane'), ('ideal_line', 'plane', 'plane'), ('plane', 'point', 'line'),
                ('point', 'plane', 'line'), ('line', 'line', 'float'), ('point', 'line', 'plane'),
                ('line', 'point', 'plane'), ('point', 'point', 'float')]:
    S('inner', 'operator|(%s, %s)' % (a, b), 'a:%s b:%s' % (a, b), r, 'a | b', lambda e: e.a | e.b)
for a, b, r in [('point', 'line', 'point'), ('point', 'plane', 'point'), ('line', 'plane', 'line')]:
    S('project', 'project(%s, %s)' % (a, b), 'a:%s b:%s' % (a, b), r, 'kln::project(a, b)', lambda e: (e.a | e.b) ^ e.b)
for a, b, r in [('plane', 'point', 'plane'), ('line', 'point', 'line'), ('plane', 'line', 'plane')]:
    S('project', 'project(%s, %s)' % (a, b), 'a:%s b:%s' % (a, b), r, 'kln::project(a, b)', lambda e: (e.a | e.b) | e.b)

# ------------------------------------------------------------------ conjugation of single entities
for t, xs in [('plane', ['plane', 'line', 'point']),
              ('rotor', ['plane', 'branch', 'line', 'point', 'direction']),
              ('translator', ['plane', 'line', 'point']),
              ('motor', ['plane', 'line', 'point', 'direction'])]:
    for x in xs:
        def ex(e, t=t):
            return e.t.sandwich(e.x)
        S('sandwich', '%s::operator()(%s)' % (t, x), 't:%s x:%s' % (t, x), x, 't(x)', ex)


def unit_rotor(arg):
    """assume b0^2 + b1^2 + b2^2 + b3^2 = 1"""
    def f(ctx, lanes):
        b = lanes[arg]
        b[0] = ctx.sym('unit %s.1' % arg, 'alg', ctx.one - b[1] * b[1] - b[2] * b[2] - b[3] * b[3])
    return f


def study(arg):
    """assume the Study condition b0 c0 = b1 c1 + b2 c2 + b3 c3 (m~m is a scalar)"""
    def f(ctx, lanes):
        b = lanes[arg]
        b[4] = (b[1] * b[5] + b[2] * b[6] + b[3] * b[7]) / b[0]
    return f


def both(*fs):
    def f(ctx, lanes):
        for g in fs:
            g(ctx, lanes)
    return f


S('sandwich', 'motor::operator()(origin)', 't:motor', 'point', 't(kln::origin{})',
  lambda e: e.t.sandwich(MV.named(e.ctx, {'e123': 1})), assume=unit_rotor('t'))

# ------------------------------------------------------------------ arrays
for t, xs in [('rotor', ['plane', 'line', 'point', 'direction']),
              ('motor', ['plane', 'line', 'point', 'direction'])]:
    for x in xs:
        def ex(e, t=t):
            return e.t.sandwich(e.x)
        for mode in ('distinct', 'inplace'):
            S('array', '%s::operator()(%s*, %s*, size_t) [%s]' % (t, x, x,
              'in == out' if mode == 'inplace' else 'in, out disjoint'),
              't:%s x:%s' % (t, x), x, '', ex, kind='array-' + mode)


# ------------------------------------------------------------------ norms, normalisation, inverses
def normalized(x):
    n = x * x.rev()
    s = n.scalar()
    q = n.get('e0123')
    r = x.ctx.rsqrt(s)
    return x * MV.named(x.ctx, {'1': r, 'e0123': -q * r / s * x.ctx.const(HALF)})


def plane_normalized(e):
    p = e.a
    r = e.ctx.rsqrt((p * p).scalar())
    return MV.named(e.ctx, {'e0': p.get('e0'), 'e1': p.get('e1') * r, 'e2': p.get('e2') * r, 'e3': p.get('e3') * r})


def dir_normalized(e):
    d = [e.a.get(n) for n in ('e032', 'e013', 'e021')]
    r = e.ctx.rsqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])
    return e.a.scale(r)


def point_inverse(e):
    w = e.a.get('e123')
    return e.a.scale(e.ctx.one / (w * w))


def inst_pair(group, typ, method, copy, exp, assume=None):
    S(group, '%s::%s()' % (typ, method), 'a:%s' % typ, typ, 'a.%s(); kln::%s r = a;' % (method, typ), exp, assume)
    S(group, '%s::%s() const' % (typ, copy), 'a:%s' % typ, typ,
      'kln::%s const& ca = a; kln::%s r = ca.%s();' % (typ, typ, copy), exp, assume)


inst_pair('norm', 'plane', 'normalize', 'normalized', plane_normalized)
inst_pair('norm', 'direction', 'normalize', 'normalized', dir_normalized)
inst_pair('norm', 'point', 'normalize', 'normalized', lambda e: e.a.scale(e.ctx.one / e.a.get('e123')))
for t in ('branch', 'rotor', 'line', 'motor'):
    inst_pair('norm', t, 'normalize', 'normalized', lambda e: normalized(e.a))
for t in ('plane', 'branch', 'rotor', 'line', 'motor', 'translator'):
    inst_pair('inverse', t, 'invert', 'inverse', lambda e: inverse(e.a))
inst_pair('inverse', 'point', 'invert', 'inverse', point_inverse)
S('norm', 'plane::norm() const', 'a:plane', 'float', 'a.norm()', lambda e: e.ctx.sqrt((e.a * e.a).scalar()), tags=['total'])
for t in ('branch', 'line'):
    S('norm', '%s::squared_norm()' % t, 'a:%s' % t, 'float', 'a.squared_norm()', lambda e: (e.a * e.a.rev()).scalar())
    S('norm', '%s::norm()' % t, 'a:%s' % t, 'float', 'a.norm()', lambda e: e.ctx.sqrt((e.a * e.a.rev()).scalar()), tags=['total'])


def il_sq(e):
    c = [e.a.get(n) for n in ('e01', 'e02', 'e03')]
    return c[0] * c[0] + c[1] * c[1] + c[2] * c[2]


S('norm', 'ideal_line::squared_ideal_norm()', 'a:ideal_line', 'float', 'a.squared_ideal_norm()', il_sq)
S('norm', 'ideal_line::ideal_norm()', 'a:ideal_line', 'float', 'a.ideal_norm()', lambda e: e.ctx.sqrt(il_sq(e)), tags=['total'])


# ------------------------------------------------------------------ linear structure
def raw(f):
    """expected result given lane-wise"""
    def g(e):
        return f(e)
    g.raw = True
    return g


def lanewise(f):
    def g(e):
        n = len(next(iter(e.lanes.values())))
        return [f(e, *[e.lanes[k][i] for k in ('a', 'b') if k in e.lanes]) for i in range(n)]
    g.raw = True
    return g


def neg_lanes(typ):
    # unary minus of planes and points flips the direction and keeps the
    # homogeneous weight (e0 resp. e123); the other types negate every component
    keep0 = typ in ('plane', 'point')
    return raw(lambda e: [l if (i == 0 and keep0) else -l for i, l in enumerate(e.lanes['a'])])


def rev_lanes(typ):
    if typ == 'point':
        return raw(lambda e: [-l for l in e.lanes['a']])
    return lambda e: e.a.rev()


def trans_lin(typ, e, lanes):
    return lanes


for t in TYPES3:
    T = 'kln::' + t
    # translators are stored by their ideal part; + - and scaling act on it
    add = lanewise(lambda e, a, b: a + b)
    sub = lanewise(lambda e, a, b: a - b)
    mul = lanewise(lambda e, a: a * e.s)
    div = lanewise(lambda e, a: a / e.s)
    S('linear', 'operator+(%s, %s)' % (t, t), 'a:%s b:%s' % (t, t), t, 'a + b', add)
    S('linear', 'operator-(%s, %s)' % (t, t), 'a:%s b:%s' % (t, t), t, 'a - b', sub)
    S('linear', '%s::operator+=(%s)' % (t, t), 'a:%s b:%s' % (t, t), t, '%s r = (a += b);' % T, add)
    S('linear', '%s::operator-=(%s)' % (t, t), 'a:%s b:%s' % (t, t), t, '%s r = (a -= b);' % T, sub)
    S('linear', '%s::operator+=(itself)' % t, 'a:%s' % t, t, 'a += a; %s r = a;' % T, lanewise(lambda e, a: a + a))
    for st in ('float', 'int'):
        S('linear', 'operator*(%s, %s)' % (t, st), 'a:%s s:%s' % (t, st), t, 'a * s', mul)
        S('linear', 'operator*(%s, %s)' % (st, t), 'a:%s s:%s' % (t, st), t, 's * a', mul)
        S('linear', 'operator/(%s, %s)' % (t, st), 'a:%s s:%s' % (t, st), t, 'a / s', div)
        S('linear', '%s::operator*=(%s)' % (t, st), 'a:%s s:%s' % (t, st), t, 'a *= s; %s r = a;' % T, mul)
        S('linear', '%s::operator/=(%s)' % (t, st), 'a:%s s:%s' % (t, st), t, 'a /= s; %s r = a;' % T, div)
    if t not in ('rotor', 'translator'):
        S('linear', 'operator-(%s)' % t, 'a:%s' % t, t, '-a', neg_lanes(t))
    if t in ('point', 'line', 'branch', 'ideal_line', 'rotor', 'motor'):
        S('linear', 'operator~(%s)' % t, 'a:%s' % t, t, '~a', rev_lanes(t))
S('linear', 'operator-(rotor)', 'a:rotor', 'rotor', '-a', neg_lanes('rotor'))
add = lanewise(lambda e, a, b: a + b)
sub = lanewise(lambda e, a, b: a - b)
S('linear', 'operator+(dual, dual)', 'a:dual b:dual', 'dual', 'a + b', add)
S('linear', 'operator-(dual, dual)', 'a:dual b:dual', 'dual', 'a - b', sub)
S('linear', 'dual::operator+=(dual)', 'a:dual b:dual', 'dual', 'kln::dual r = (a += b);', add)
S('linear', 'dual::operator-=(dual)', 'a:dual b:dual', 'dual', 'kln::dual r = (a -= b);', sub)
S('linear', 'operator*(dual, float)', 'a:dual s:float', 'dual', 'a * s', lanewise(lambda e, a: a * e.s))
S('linear', 'operator*(float, dual)', 'a:dual s:float', 'dual', 's * a', lanewise(lambda e, a: a * e.s))
S('linear', 'operator/(dual, float)', 'a:dual s:float', 'dual', 'a / s', lanewise(lambda e, a: a / e.s))
S('linear', 'dual::operator*=(float)', 'a:dual s:float', 'dual', 'a *= s; kln::dual r = a;', lanewise(lambda e, a: a * e.s))
S('linear', 'dual::operator/=(float)', 'a:dual s:float', 'dual', 'a /= s; kln::dual r = a;', lanewise(lambda e, a: a / e.s))

# ------------------------------------------------------------------ comparisons
for t in ('plane', 'line', 'rotor', 'motor'):
    def eq(e):
        r = e.ctx.one
        for x, y in zip(e.lanes['a'], e.lanes['b']):
            r = r * e.ctx.is_zero_pred(x - y)
        return r

    def aeq(e):
        r = e.ctx.one
        for x, y in zip(e.lanes['a'], e.lanes['b']):
            r = r * e.ctx.is_neg(e.ctx.abs(x - y) - e.s)
        return r
    S('compare', '%s::operator==(%s) const' % (t, t), 'a:%s b:%s' % (t, t), 'bool', 'a == b', raw(eq))
    S('compare', '%s::approx_eq(%s, float) const' % (t, t), 'a:%s b:%s s:float' % (t, t), 'bool',
      'a.approx_eq(b, s)', raw(aeq))

# ------------------------------------------------------------------ constrain
for t in ('rotor', 'motor'):
    def con(e):
        sg = e.ctx.signum(e.lanes['a'][0])
        return [l * sg for l in e.lanes['a']]
    con.raw = True
    inst_pair('constrain', t, 'constrain', 'constrained', con)

# ------------------------------------------------------------------ construction, access, load, store
BLADES = {t: [n for n in LAYOUT[t] if n] for t in TYPES3 + ['dual']}
COMP = {
    'plane': {'x': 'e1', 'e1': 'e1', 'y': 'e2', 'e2': 'e2', 'z': 'e3', 'e3': 'e3', 'd': 'e0', 'e0': 'e0'},
    'point': {'x': 'e032', 'e032': 'e032', 'y': 'e013', 'e013': 'e013', 'z': 'e021', 'e021': 'e021',
              'w': 'e123', 'e123': 'e123'},
    'direction': {'x': 'e032', 'y': 'e013', 'z': 'e021'},
    'ideal_line': {k: k for k in ('e01', 'e02', 'e03')},
    'branch': {'e12': 'e12', 'e31': 'e31', 'e23': 'e23', 'x': 'e23', 'y': 'e31', 'z': 'e12'},
    'line': {k: k for k in ('e12', 'e31', 'e23', 'e01', 'e02', 'e03')},
    'rotor': {'scalar': '1', 'e12': 'e12', 'e31': 'e31', 'e23': 'e23'},
    'translator': {'scalar': '1', 'e01': 'e01', 'e02': 'e02', 'e03': 'e03'},
    'motor': {'scalar': '1', 'e12': 'e12', 'e31': 'e31', 'e23': 'e23', 'e01': 'e01', 'e02': 'e02',
              'e03': 'e03', 'e0123': 'e0123'},
    'dual': {'scalar': '1', 'e0123': 'e0123'},
}
NEGS = {'e21': 'e12', 'e13': 'e31', 'e32': 'e23', 'e10': 'e01', 'e20': 'e02', 'e30': 'e03'}
for t, m in COMP.items():
    m = dict(m)
    for acc, bl in m.items():
        S('access', '%s::%s() const' % (t, acc), 'a:%s' % t, 'float',
          'kln::%s const& ca = a; float r = ca.%s();' % (t, acc), lambda e, bl=bl: e.a.get(bl))
    if t in ('plane', 'point', 'direction', 'dual'):
        continue
    for acc, bl in NEGS.items():
        if bl in m.values():
            S('access', '%s::%s() const' % (t, acc), 'a:%s' % t, 'float',
              'kln::%s const& ca = a; float r = ca.%s();' % (t, acc), lambda e, bl=bl: -e.a.get(bl))


def ctor(name, args, t, code, **comps):
    def ex(e):
        return MV.named(e.ctx, {k.lstrip('_'): (e[v] if isinstance(v, str) else v) for k, v in comps.items()})
    S('construct', name, args, t, code, ex)


F = lambda names: ' '.join('%s:float' % n for n in names)
ctor('plane(a, b, c, d)', F('abcd'), 'plane', 'kln::plane(a, b, c, d)', e1='a', e2='b', e3='c', e0='d')
ctor('point(x, y, z)', F('xyz'), 'point', 'kln::point(x, y, z)', e032='x', e013='y', e021='z', e123=1)
ctor('ideal_line(a, b, c)', F('abc'), 'ideal_line', 'kln::ideal_line(a, b, c)', e01='a', e02='b', e03='c')
ctor('branch(a, b, c)', F('abc'), 'branch', 'kln::branch(a, b, c)', e23='a', e31='b', e12='c')
ctor('line(a, b, c, d, e, f)', F('abcdef'), 'line', 'kln::line(a, b, c, d, e, f)',
     e01='a', e02='b', e03='c', e23='d', e31='e', e12='f')
ctor('motor(a, b, c, d, e, f, g, h)', F('abcdefgh'), 'motor', 'kln::motor(a, b, c, d, e, f, g, h)',
     _1='a', e23='b', e31='c', e12='d', e01='e', e02='f', e03='g', e0123='h')
ctor('origin -> point', '', 'point', 'kln::point r = kln::origin{};', e123=1)
ctor('dual{p, q}', 'p:float q:float', 'dual', 'kln::dual r{p, q};', _1='p', e0123='q')


def dirc(e):
    r = e.ctx.rsqrt(e.x * e.x + e.y * e.y + e.z * e.z)
    return MV.named(e.ctx, {'e032': e.x * r, 'e013': e.y * r, 'e021': e.z * r})


S('construct', 'direction(x, y, z)', F('xyz'), 'direction', 'kln::direction(x, y, z)', dirc)


def rotc(e):
    r = e.ctx.rsqrt(e.x * e.x + e.y * e.y + e.z * e.z)
    h = e.w * e.ctx.const(HALF)
    s = e.ctx.sin(h) * r
    return MV.named(e.ctx, {'1': e.ctx.cos(h), 'e23': s * e.x, 'e31': s * e.y, 'e12': s * e.z})


def trc(e):
    r = e.ctx.rsqrt(e.x * e.x + e.y * e.y + e.z * e.z)
    h = e.w * e.ctx.const(-HALF) * r
    return MV.named(e.ctx, {'1': 1, 'e01': h * e.x, 'e02': h * e.y, 'e03': h * e.z})


S('construct', 'rotor(angle, x, y, z)', F('wxyz'), 'rotor', 'kln::rotor(w, x, y, z)', rotc)
S('construct', 'translator(delta, x, y, z)', F('wxyz'), 'translator', 'kln::translator(w, x, y, z)', trc)
S('construct', 'line(ideal_line)', 'a:ideal_line', 'line', 'kln::line(a)', lambda e: e.a)
S('construct', 'line(branch)', 'a:branch', 'line', 'kln::line(a)', lambda e: e.a)
S('construct', 'motor(rotor)', 'a:rotor', 'motor', 'kln::motor(a)', lambda e: e.a)
S('construct', 'motor(translator)', 'a:translator', 'motor', 'kln::motor(a)', lambda e: e.a)
S('construct', 'motor::operator=(rotor)', 'm:motor a:rotor', 'motor', 'm = a; kln::motor r = m;', lambda e: e.a)
S('construct', 'motor::operator=(translator)', 'm:motor a:translator', 'motor', 'm = a; kln::motor r = m;', lambda e: e.a)

idlanes = raw(lambda e: list(e.lanes['d']))
for t in ('plane', 'point', 'direction', 'branch', 'ideal_line', 'rotor'):
    S('construct', '%s(__m128)' % t, 'd:m128', t, 'kln::%s r{d};' % t, idlanes, tags=['full'])
for t in ('line', 'motor'):
    S('construct', '%s(__m128, __m128)' % t, 'd:m128 f:m128', t, 'kln::%s r{d, f};' % t,
      raw(lambda e: list(e.lanes['d']) + list(e.lanes['f'])), tags=['full'])
for t in ('plane', 'direction'):
    S('memory', '%s(float*)' % t, 'd:f4', t, 'kln::%s r(d);' % t, idlanes, tags=['full'])
for t in ('plane', 'point'):
    S('memory', '%s::load(float*)' % t, 'd:f4', t, 'kln::%s r; r.load(d);' % t, idlanes, tags=['full'])
for t in ('rotor', 'translator'):
    S('memory', '%s::load_normalized(float*)' % t, 'd:f4', t, 'kln::%s r; r.load_normalized(d);' % t, idlanes, tags=['full'])
S('memory', 'motor::load(float*)', 'd:f8', 'motor', 'kln::motor r; r.load(d);', idlanes, tags=['full'])
for t in ('point', 'branch', 'rotor'):
    S('memory', '%s::store(float*) const' % t, 'a:%s' % t, 'f4',
      'kln::%s const& ca = a; ca.store(out);' % t, raw(lambda e: list(e.lanes['a'])))


# ------------------------------------------------------------------ matrices
def mat_cols(e, unit, three):
    """columns: images of e032, e013, e021, e123 read off as (x, y, z, w)"""
    out = []
    for n in ('e032', 'e013', 'e021', 'e123'):
        im = e.t.sandwich(MV.named(e.ctx, {n: 1}))
        out += [im.get(k) for k in ('e032', 'e013', 'e021', 'e123')]
    return out


for t in ('rotor', 'motor'):
    for m in ('mat3x4', 'mat4x4'):
        asm = unit_rotor('t') if m == 'mat3x4' else None
        S('matrix', '%s::as_%s() const' % (t, m), 't:%s' % t, m, 'kln::%s const& ct = t; kln::%s r = ct.as_%s();' % (t, m, m),
          raw(lambda e, m=m: mat_cols(e, True, m)), assume=asm)
for m in ('mat3x4', 'mat4x4'):
    def matvec(e):
        c = e.lanes['m']
        v = e.lanes['v']
        return [c[i] * v[0] + c[4 + i] * v[1] + c[8 + i] * v[2] + c[12 + i] * v[3] for i in range(4)]
    matvec.raw = True
    S('matrix', '%s::operator()(__m128) const' % m, 'm:%s v:m128' % m, 'm128', '__m128 r = m(v);', matvec)
for t in ('rotor', 'motor'):
    for m in ('mat3x4', 'mat4x4'):
        def viamat(e):
            v = e.lanes['v']
            p = MV.named(e.ctx, {'e032': v[0], 'e013': v[1], 'e021': v[2], 'e123': v[3]})
            im = e.t.sandwich(p)
            return [im.get(k) for k in ('e032', 'e013', 'e021', 'e123')]
        viamat.raw = True
        S('matrix', '%s::as_%s()(xyzw)' % (t, m), 't:%s v:m128' % t, 'm128', '__m128 r = t.as_%s()(v);' % m, viamat,
          assume=unit_rotor('t') if m == 'mat3x4' else None)


# ------------------------------------------------------------------ exponential, logarithm, square root
def lanes_of(e, n):
    return e.lanes[n]


def gate_zero(ctx, vs):
    r = ctx.one
    for v in vs:
        r = r * ctx.is_zero_pred(v)
    return r


def mix(ctx, p, x, y):
    """x if p else y, component-wise"""
    return y + (x - y).scale(p)


def exp_line(e):
    ctx = e.ctx
    L = e.a
    a = MV.named(ctx, {k: L.get(k) for k in ('e23', 'e31', 'e12')})
    b = MV.named(ctx, {k: L.get(k) for k in ('e01', 'e02', 'e03')})
    z = gate_zero(ctx, [L.get(k) for k in ('e23', 'e31', 'e12')])
    nn = L * L.rev()
    s2, q = nn.scalar(), nn.get('e0123')
    u = ctx.sqrt(s2)
    r = ctx.rsqrt(s2)
    v = q * r * ctx.const(HALF)           # |L| = u + v I
    n = L * MV.named(ctx, {'1': r, 'e0123': -q * r / s2 * ctx.const(HALF)})
    cu, su = ctx.cos(u), ctx.sin(u)
    # exp((u + vI) n) = cos(u) - v sin(u) I + (sin(u) + v cos(u) I) n
    ex = MV.named(ctx, {'1': cu, 'e0123': -v * su}) + MV.named(ctx, {'1': su, 'e0123': v * cu}) * n
    return mix(ctx, z, b + ctx.one, ex)


def log_motor(e):
    ctx = e.ctx
    m = e.a
    a3 = [m.get(k) for k in ('e23', 'e31', 'e12')]
    z = gate_zero(ctx, a3)
    B = m.grades(2)
    nn = B * B.rev()
    s2 = nn.scalar()
    q = nn.get('e0123')
    r = ctx.rsqrt(s2)
    n = B * MV.named(ctx, {'1': r, 'e0123': -q * r / s2 * ctx.const(HALF)})
    s = ctx.sqrt(s2)
    u = ctx.func('atan2', s, m.scalar())
    v = -m.get('e0123') * r
    lg = MV.named(ctx, {'1': u, 'e0123': v}) * n
    return mix(ctx, z, m.grades(2), lg)


S('explog', 'exp(line)', 'a:line', 'motor', 'kln::exp(a)', exp_line)
S('explog', 'log(motor)', 'a:motor', 'line', 'kln::log(a)', log_motor, assume=study('a'))
S('explog', 'exp(ideal_line)', 'a:ideal_line', 'translator', 'kln::exp(a)', lambda e: e.a + e.ctx.one)
S('explog', 'log(translator)', 'a:translator', 'ideal_line', 'kln::log(a)', lambda e: e.a - e.ctx.one)


def exp_branch(e):
    ctx = e.ctx
    s2 = (e.a * e.a.rev()).scalar()
    u = ctx.sqrt(s2)
    z = gate_zero(ctx, [e.a.get(k) for k in ('e23', 'e31', 'e12')])
    return mix(ctx, z, MV.named(ctx, {'1': ctx.one}), e.a.scale(ctx.sin(u) / u) + ctx.cos(u))


def log_rotor(e):
    ctx = e.ctx
    p = e.a.scalar()
    ang = ctx.func('acos', p)
    z = ctx.is_zero_pred(ctx.sin(ang))
    b = e.a.grades(2)
    return mix(ctx, z, b.scale(ctx.zero), b.scale(ang / ctx.sin(ang)))


S('explog', 'exp(branch)', 'a:branch', 'rotor', 'kln::exp(a)', exp_branch)
S('explog', 'log(rotor)', 'a:rotor', 'branch', 'kln::log(a)', log_rotor)
for t in ('rotor', 'motor'):
    S('explog', 'sqrt(%s)' % t, 'a:%s' % t, t, 'kln::sqrt(a)', lambda e: normalized(e.a + e.ctx.one))
S('explog', 'sqrt(branch)', 'a:branch', 'rotor', 'kln::sqrt(a)', lambda e: normalized(e.a + e.ctx.one))
S('explog', 'sqrt(translator)', 'a:translator', 'translator', 'kln::sqrt(a)',
  lambda e: (e.a - e.ctx.one).scale(e.ctx.const(HALF)) + e.ctx.one)


def square_back(e):
    return e.a


# the square root squares to the motor it was taken of
S('explog', 'sqrt(rotor) squared', 'a:rotor', 'rotor', 'kln::rotor s = kln::sqrt(a); kln::rotor r = s * s;', square_back,
  assume=unit_rotor('a'))
S('explog', 'sqrt(motor) squared', 'a:motor', 'motor', 'kln::motor s = kln::sqrt(a); kln::motor r = s * s;', square_back,
  assume=both(unit_rotor('a'), study('a')))
S('explog', 'sqrt(translator) squared', 'a:translator', 'translator',
  'kln::translator s = kln::sqrt(a); kln::translator r = s * s;', square_back)


def motor_adl(e):
    """exp(-ang/2 l + d/2 l e0123)"""
    h = e.ctx.const(HALF)
    g = Env(e.ctx)
    g.vals['a'] = MV.named(e.ctx, {'1': -e.w * h, 'e0123': e.d * h}) * e.l
    return exp_line(g)


S('construct', 'motor(angle, d, line)', 'w:float d:float l:line', 'motor', 'kln::motor(w, d, l)', motor_adl, tags=['explog'])


# ------------------------------------------------------------------ Euler angles
def euler_rotor(e):
    """roll(e23) * pitch(e31) * yaw(e12), each a half-angle rotor"""
    c = e.ctx
    h = c.const(HALF)
    roll, pitch, yaw = e.lanes['a']

    def ax(n, x):
        return MV.named(c, {'1': c.cos(x * h), n: c.sin(x * h)})
    return ax('e23', roll) * ax('e31', pitch) * ax('e12', yaw)


S('euler', 'rotor(euler_angles)', 'a:euler_angles', 'rotor', 'kln::rotor(a)', euler_rotor)


def euler_from(e):
    """the inverse of the construction above, gimbal lock at |pitch| = pi/2 within the documented test"""
    c = e.ctx
    b = e.lanes['a']
    one, two = c.one, c.const(2)
    T = c.const(F32(0.4999))
    s = b[0] * b[2] - b[1] * b[3]
    up = c.is_neg(T - s)
    dn = (one - up) * c.is_neg(s + T)
    ok = (one - up) * (one - c.is_neg(s + T))
    lock = two * c.func('atan2', b[1], b[0])
    half_pi = c.const(PI_2)
    roll = c.func('atan2', two * (b[0] * b[1] + b[2] * b[3]), one - two * (b[1] * b[1] + b[2] * b[2]))
    yaw = c.func('atan2', two * (b[0] * b[3] + b[1] * b[2]), one - two * (b[2] * b[2] + b[3] * b[3]))
    sp = two * s
    over = c.is_neg(one - c.abs(sp))
    pitch = c.func('asin', sp)
    pitch = pitch + over * (half_pi * c.signum(sp) - pitch)
    return [up * lock + dn * lock + ok * roll, (up - dn) * half_pi + ok * pitch, ok * yaw]


euler_from.raw = True
S('euler', 'rotor::as_euler_angles()', 'a:rotor', 'euler_angles', 'a.as_euler_angles()', euler_from)


# ------------------------------------------------------------------ degenerate operands
def D(name, args, ret, code, exp):
    S('degenerate', name, args, ret, code, exp)


def const_mv(**kw):
    return lambda e: MV.named(e.ctx, {(k[1:] if k == 'e1_' else k): v for k, v in kw.items()})


ONE = lambda e: MV.named(e.ctx, {'1': 1})
ZERO = lambda e: MV.named(e.ctx, {'1': 0})
D('norm of a plane without normal', 'd:float', 'float', 'kln::plane p(0.f, 0.f, 0.f, d); float r = p.norm();', ZERO)
D('distance of a point to a line through it', 'p:point q:point', 'float',
  'kln::line l = p & q; kln::plane pl = l & p; float r = pl.norm();', ZERO)
D('exp of the zero branch', '', 'rotor', 'kln::exp(kln::branch(0.f, 0.f, 0.f))', ONE)
D('log of the identity rotor', '', 'branch', 'kln::rotor i(_mm_set_ss(1.f)); kln::branch r = kln::log(i);', ZERO)
D('exp of the zero line', '', 'motor', 'kln::exp(kln::line(0.f, 0.f, 0.f, 0.f, 0.f, 0.f))', ONE)
D('log of the identity motor', '', 'line', 'kln::motor i(1.f, 0.f, 0.f, 0.f, 0.f, 0.f, 0.f, 0.f); kln::line r = kln::log(i);', ZERO)
D('exp of a line at infinity', 'a:float b:float c:float', 'motor', 'kln::exp(kln::line(a, b, c, 0.f, 0.f, 0.f))',
  lambda e: MV.named(e.ctx, {'1': 1, 'e01': e.vals['a'], 'e02': e.vals['b'], 'e03': e.vals['c']}))
D('log of a pure translation', 'a:float b:float c:float', 'line',
  'kln::motor m(1.f, 0.f, 0.f, 0.f, a, b, c, 0.f); kln::line r = kln::log(m);',
  lambda e: MV.named(e.ctx, {'e01': e.vals['a'], 'e02': e.vals['b'], 'e03': e.vals['c']}))
D('log of a half turn', 'a:float b:float c:float', 'line',
  'kln::motor m(0.f, a, b, c, 0.f, 0.f, 0.f, 0.f); kln::line r = kln::log(m);', None)
D('square root of the identity motor', '', 'motor',
  'kln::motor i(1.f, 0.f, 0.f, 0.f, 0.f, 0.f, 0.f, 0.f); kln::motor r = kln::sqrt(i);', ONE)
D('square root of the identity rotor', '', 'rotor', 'kln::rotor i(_mm_set_ss(1.f)); kln::rotor r = kln::sqrt(i);', ONE)
D('Euler angles of the identity', '', 'euler_angles',
  'kln::rotor i(_mm_set_ss(1.f)); kln::euler_angles r = i.as_euler_angles();', raw(lambda e: [e.ctx.zero] * 3))
D('Euler angles of a rotation about z', 'a:float b:float', 'euler_angles',
  'kln::rotor i(_mm_set_ps(b, 0.f, 0.f, a)); kln::euler_angles r = i.as_euler_angles();',
  raw(lambda e: [e.ctx.zero, e.ctx.zero, e.ctx.func('atan2', 2 * e.vals['a'] * e.vals['b'], 1 - 2 * e.vals['b'] * e.vals['b'])]))
