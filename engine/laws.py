"""Laws that compositions of operations obey, whatever the operands.

Unlike specs.py, which states what one operation computes, every entry here is
a program of several library calls whose result is known from geometry alone:
composition, inversion, incidence, isometry, and the metric meaning of
constructors and norms.
"""
from fractions import Fraction
import specs as _s
from specs import Spec, Env, HALF, ctype, unit_rotor, study, both
from ga import MV

LAWS = []
# laws about operands for which every intermediate value exists (or whose parametrisation has a pole)
REG = ['regular']


def L(group, name, args, ret, code, exp, assume=None, **kw):
    if ';' not in code:
        code = '%s r = %s;' % (ctype(ret), code)
    s = Spec(group, name, args, ret, code, exp, assume, **kw)
    s.id = '%s_l%d' % (group, len(LAWS))
    LAWS.append(s)


ZERO = lambda e: MV.named(e.ctx, {'1': 0})


# ------------------------------------------------------------------ assumptions
def finite_point(*args):
    """homogeneous weight 1"""
    def f(ctx, lanes):
        for a in args:
            lanes[a][0] = ctx.one
    return f


def unit_plane(*args):
    def f(ctx, lanes):
        for a in args:
            b = lanes[a]
            b[1] = ctx.sym('unit %s.e1' % a, 'alg', ctx.one - b[2] * b[2] - b[3] * b[3])
    return f


def unit_dir(a):
    def f(ctx, lanes):
        b = lanes[a]
        b[1] = ctx.sym('unit %s.x' % a, 'alg', ctx.one - b[2] * b[2] - b[3] * b[3])
    return f


def pluecker(*args):
    """the line is a line: its direction and moment are orthogonal"""
    def f(ctx, lanes):
        for a in args:
            b = lanes[a]
            b[5] = -(b[2] * b[6] + b[3] * b[7]) / b[1]
    return f


def unit_line(*args):
    def f(ctx, lanes):
        for a in args:
            b = lanes[a]
            b[1] = ctx.sym('unit %s.e23' % a, 'alg', ctx.one - b[2] * b[2] - b[3] * b[3])
            b[7] = -(b[1] * b[5] + b[2] * b[6]) / b[3]
    return f


AXES = ('e23', 'e31', 'e12')


def along(a, k, unit=False):
    """the axis is parallel to coordinate axis k (where the general laws assume every component nonzero)"""
    def f(ctx, lanes):
        b = lanes[a]
        for i in range(3):
            if i != k:
                b[1 + i] = ctx.zero
        if unit:
            b[1 + k] = ctx.one if unit > 0 else -ctx.one
    return f


def axial(a, k):
    """a unit motor about such an axis, on the Study quadric"""
    def f(ctx, lanes):
        along(a, k)(ctx, lanes)
        b = lanes[a]
        b[0] = ctx.sym('unit %s.1' % a, 'alg', ctx.one - b[1 + k] * b[1 + k])
        if len(b) == 8:
            b[4] = b[1 + k] * b[5 + k] / b[0]
    return f


def moment(a, k):
    """of a line along coordinate axis k"""
    def f(ctx, lanes):
        lanes[a][5 + k] = ctx.zero
    return f


def half_turn(a):
    """a unit motor without scalar part"""
    def f(ctx, lanes):
        b = lanes[a]
        b[0] = ctx.zero
        b[1] = ctx.sym('unit %s.e23' % a, 'alg', ctx.one - b[2] * b[2] - b[3] * b[3])
        b[5] = -(b[2] * b[6] + b[3] * b[7]) / b[1]
    return f


def unit(t, a):
    return {'rotor': unit_rotor(a), 'translator': None, 'motor': both(unit_rotor(a), study(a)),
            'plane': unit_plane(a)}[t]


TR = ['rotor', 'translator', 'motor']
APPLIES = {'rotor': ['plane', 'line', 'point', 'direction', 'branch'], 'translator': ['plane', 'line', 'point'],
           'motor': ['plane', 'line', 'point', 'direction'], 'plane': ['plane', 'line', 'point']}
PROD = {('rotor', 'rotor'): 'rotor', ('translator', 'translator'): 'translator'}

# ------------------------------------------------------------------ composition and inversion
for a in TR:
    for b in TR:
        ab = PROD.get((a, b), 'motor')
        for x in APPLIES[ab]:
            if x in APPLIES[a] and x in APPLIES[b]:
                L('law', '(%s * %s)(%s)' % (a, b, x), 'a:%s b:%s x:%s' % (a, b, x), x, '(a * b)(x)',
                  lambda e: e.a.sandwich(e.b.sandwich(e.x)))
                if (a, b) != ('motor', 'motor'):
                    L('law', '%s(%s(%s))' % (a, b, x), 'a:%s b:%s x:%s' % (a, b, x), x, 'a(b(x))',
                      lambda e: (e.a * e.b).sandwich(e.x))
for t in TR:
    for x in APPLIES[t]:
        L('law', '%s undone by its inverse on a %s' % (t, x), 'a:%s x:%s' % (t, x), x, 'a.inverse()(a(x))', lambda e: e.x,
      tags=REG)
        if t != 'translator':
            L('law', '%s undone by its reverse on a %s' % (t, x), 'a:%s x:%s' % (t, x), x, '(~a)(a(x))', lambda e: e.x,
              unit(t, 'a'), tags=REG)
for x in APPLIES['plane']:
    L('law', 'reflection of a %s twice' % x, 'a:plane x:%s' % x, x, 'a(a(x))', lambda e: e.x, unit_plane('a'))
for a in TR:
    for b in TR:
        if (a, b) in (('rotor', 'rotor'), ('translator', 'translator'), ('motor', 'rotor'), ('motor', 'translator'),
                      ('motor', 'motor')):
            L('law', '(%s / %s) * %s' % (a, b, b), 'a:%s b:%s' % (a, b), a, '(a / b) * b', lambda e: e.a,
              tags=REG)
for t in ['plane', 'branch', 'rotor', 'translator', 'motor']:
    L('law', '%s times its inverse' % t, 'a:%s' % t, {'plane': 'motor', 'branch': 'rotor'}.get(t, t), 'a * a.inverse()',
      lambda e: MV.named(e.ctx, {'1': 1}), tags=REG)
for t in ['plane', 'branch', 'rotor', 'translator', 'motor', 'line']:
    L('law', '%s inverted twice' % t, 'a:%s' % t, t, 'a.inverse().inverse()', lambda e: e.a, tags=REG)

# the same transform held by different types
for t in ('rotor', 'translator'):
    for x in APPLIES[t]:
        if x in APPLIES['motor']:
            L('law', 'motor of a %s applied to a %s' % (t, x), 'a:%s x:%s' % (t, x), x, 'kln::motor m(a); kln::%s r = m(x);' % x,
              lambda e: e.a.sandwich(e.x))
L('law', 'image of the origin', 'a:motor', 'point', 'a(kln::point(0.f, 0.f, 0.f))',
  lambda e: e.a.sandwich(MV.named(e.ctx, {'e123': 1})))
L('law', 'ratio of two planes squared is the transform between them', 'a:plane b:plane', 'plane', '(a / b)(b)',
  lambda e: (e.a * e.b).sandwich(e.b), both(unit_plane('b')))
L('law', 'transform between two points', 'a:point b:point', 'point', 'kln::sqrt(a / b)(b)', lambda e: e.a, finite_point('a', 'b'))
L('law', 'transform between two planes', 'a:plane b:plane', 'plane', 'kln::sqrt(a * b)(b)', lambda e: e.a,
  both(unit_plane('a'), unit_plane('b')), tags=REG)
L('law', 'transform between two lines', 'a:branch b:branch', 'branch', 'kln::sqrt(a * b)(b)', lambda e: -e.a,
  both(unit_dir('a'), unit_dir('b')), tags=REG)

# ------------------------------------------------------------------ duality
for t in ['plane', 'point', 'line', 'ideal_line', 'branch', 'dual']:
    L('law', 'dual of the dual of a %s' % t, 'a:%s' % t, t, '!!a', lambda e: e.a)
for a, b, r in [('point', 'point', 'line'), ('point', 'line', 'plane'), ('line', 'point', 'plane')]:
    L('law', 'join of %s and %s by duality' % (a, b), 'a:%s b:%s' % (a, b), r, '!(!a ^ !b)', lambda e: e.a.join(e.b))
L('law', 'meet of planes by duality', 'a:plane b:plane', 'line', '!(!a & !b)', lambda e: e.a ^ e.b)

# ------------------------------------------------------------------ incidence
L('law', 'joined line passes through its first point', 'a:point b:point', 'plane', '(a & b) & a', ZERO)
L('law', 'joined line passes through its second point', 'a:point b:point', 'plane', '(a & b) & b', ZERO)
L('law', 'the line joining a point to itself vanishes', 'a:point', 'line', 'a & a', ZERO)
L('law', 'joined plane contains its points', 'a:point b:point c:point', 'dual',
  'kln::plane p = a & b & c; kln::dual r = (p ^ a) + (p ^ b) + (p ^ c);', ZERO)
L('law', 'joined plane contains its line', 'a:point b:point c:point', 'point', '((a & b) & c) ^ (a & b)', ZERO)
L('law', 'join of three points is associative', 'a:point b:point c:point', 'plane', '(a & b) & c',
  lambda e: e.a.join(e.b.join(e.c)))
L('law', 'meeting line lies in its first plane', 'a:plane b:plane', 'point', '(a ^ b) ^ a', ZERO)
L('law', 'meeting line lies in its second plane', 'a:plane b:plane', 'point', '(a ^ b) ^ b', ZERO)
L('law', 'the meet of a plane with itself vanishes', 'a:plane', 'line', 'a ^ a', ZERO)
L('law', 'meeting point lies in all three planes', 'a:plane b:plane c:plane', 'dual',
  'kln::point p = a ^ b ^ c; kln::dual r = (p ^ a) + (p ^ b) + (p ^ c);', ZERO)
L('law', 'meet of three planes is associative', 'a:plane b:plane c:plane', 'point', 'a ^ (b ^ c)',
  lambda e: (e.a ^ e.b) ^ e.c)
L('law', 'meeting point lies on its line', 'a:plane b:plane c:plane', 'plane', 'kln::line l = a ^ b; kln::plane r = (l ^ c) & l;', ZERO)
L('law', 'a line meets itself', 'l:line', 'dual', 'l ^ l', ZERO, pluecker('l'), tags=REG)
L('law', 'projected point lies on the plane', 'x:point a:plane', 'dual', 'kln::project(x, a) ^ a', ZERO)
L('law', 'projected point lies on the line', 'x:point l:line', 'plane', 'kln::project(x, l) & l', ZERO, pluecker('l'), tags=REG)
L('law', 'projected line lies in the plane', 'l:line a:plane', 'point', 'kln::project(l, a) ^ a', ZERO)
L('law', 'plane projected to a point passes through it', 'a:plane x:point', 'dual', 'kln::project(a, x) ^ x', ZERO)
L('law', 'line projected to a point passes through it', 'l:line x:point', 'plane', 'kln::project(l, x) & x', ZERO)
L('law', 'plane projected to a line contains it', 'a:plane l:line', 'point', 'kln::project(a, l) ^ l', ZERO, pluecker('l'), tags=REG)
L('law', 'projection to a plane is idempotent', 'x:point a:plane', 'point', 'kln::project(kln::project(x, a), a)',
  lambda e: (e.x | e.a) ^ e.a, unit_plane('a'))
L('law', 'projection keeps a point of the plane', 'x:point a:plane', 'dual',
  'kln::point q = kln::project(x, a); kln::dual r = q ^ a;', ZERO, unit_plane('a'))
L('law', 'perpendicular through a point passes through it', 'a:plane x:point', 'plane', '(a | x) & x', ZERO)
L('law', 'perpendicular plane through a point contains it', 'l:line x:point', 'dual', '(l | x) ^ x', ZERO)

# ------------------------------------------------------------------ isometry
BIN = [('point', 'point', 'line', '&'), ('point', 'line', 'plane', '&'), ('plane', 'plane', 'line', '^'),
       ('plane', 'line', 'point', '^'), ('plane', 'point', 'dual', '^'), ('plane', 'plane', 'float', '|'),
       ('line', 'line', 'float', '|'), ('line', 'line', 'dual', '^'), ('plane', 'point', 'line', '|'),
       ('plane', 'line', 'plane', '|'), ('point', 'line', 'plane', '|')]
OPS = {'&': lambda a, b: a.join(b), '^': lambda a, b: a ^ b, '|': lambda a, b: a | b}
for t in TR:
    for a, b, r, op in BIN:
        def ex(e, t=t, op=op, r=r):
            v = OPS[op](e.a, e.b)
            return v if r in ('float', 'dual') else e.t.sandwich(v)
        L('law', '%s preserves %s %s %s' % (t, a, op, b), 't:%s a:%s b:%s' % (t, a, b), r, 't(a) %s t(b)' % op, ex, unit(t, 't'),
          tags=REG if t == 'motor' else [])

# ------------------------------------------------------------------ metric meaning
c_ = lambda e: e.ctx


def vec(e, *names):
    return [e.vals[n] for n in names]


def unit3(e, x, y, z):
    k = e.ctx.rsqrt(x * x + y * y + z * z)
    return [x * k, y * k, z * k]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def turn(e, u, ang, p):
    """rotation of the vector p by ang about the unit vector u (right handed)"""
    co, si = e.ctx.cos(ang), e.ctx.sin(ang)
    k = dot(u, p)
    x = cross(u, p)
    return [p[i] * co + x[i] * si + u[i] * k * (e.ctx.one - co) for i in range(3)]


def pt(e, v, w=None):
    return MV.named(e.ctx, {'e123': w if w is not None else 1, 'e032': v[0], 'e013': v[1], 'e021': v[2]})


def pv(mv):
    return [mv.get(n) for n in ('e032', 'e013', 'e021')]


L('meaning', 'a translator moves a point by its displacement', 'd:float x:float y:float z:float p:point', 'point',
  'kln::translator(d, x, y, z)(p)',
  lambda e: pt(e, [a + e.d * b for a, b in zip(pv(e.p), unit3(e, e.x, e.y, e.z))]), finite_point('p'))
L('meaning', 'a translator moves a plane by its displacement', 'd:float x:float y:float z:float p:plane', 'plane',
  'kln::translator(d, x, y, z)(p)',
  lambda e: e.p + MV.named(e.ctx, {'e0': -e.d * dot(unit3(e, e.x, e.y, e.z), [e.p.get(n) for n in ('e1', 'e2', 'e3')])}))
L('meaning', 'a rotor turns a point about its axis', 'w:float x:float y:float z:float p:point', 'point',
  'kln::rotor(w, x, y, z)(p)',
  lambda e: pt(e, turn(e, unit3(e, e.x, e.y, e.z), -e.w, pv(e.p))), finite_point('p'))
L('meaning', 'a rotor turns a direction about its axis', 'w:float x:float y:float z:float p:direction', 'direction',
  'kln::rotor(w, x, y, z)(p)', lambda e: pt(e, turn(e, unit3(e, e.x, e.y, e.z), -e.w, pv(e.p)), 0))


def dist2(a, b):
    d = [x - y for x, y in zip(pv(a), pv(b))]
    return dot(d, d)


SCAL = lambda f: (lambda e: MV.named(e.ctx, {'1': f(e)}))
L('meaning', 'norm of a joined line is the distance', 'a:point b:point', 'float', '(a & b).norm()',
  SCAL(lambda e: e.ctx.sqrt(dist2(e.a, e.b))), finite_point('a', 'b'), tags=['total'])
L('meaning', 'squared norm of a joined line is the squared distance', 'a:point b:point', 'float', '(a & b).squared_norm()',
  SCAL(lambda e: dist2(e.a, e.b)), finite_point('a', 'b'))


def pl_dist2(e):
    """squared distance of the point a from the unit line l: |u x a + m|^2 with u, m direction and moment"""
    u = [e.l.get(n) for n in ('e23', 'e31', 'e12')]
    m = [e.l.get(n) for n in ('e01', 'e02', 'e03')]
    v = [x + y for x, y in zip(cross(u, pv(e.a)), m)]
    return dot(v, v)


L('meaning', 'norm of the plane joining a point and a line is their distance', 'a:point l:line', 'float', '(a & l).norm()',
  SCAL(lambda e: e.ctx.sqrt(pl_dist2(e))), both(finite_point('a'), unit_line('l')), tags=['total'])
L('meaning', 'meet of a point and a plane is their signed distance', 'a:plane b:point', 'float',
  'kln::dual s = a ^ b; float r = s.e0123();',
  SCAL(lambda e: dot([e.a.get(n) for n in ('e1', 'e2', 'e3')], pv(e.b)) + e.a.get('e0')), finite_point('b'))
L('meaning', 'inner product of planes is the cosine of their angle', 'a:plane b:plane', 'float', 'a.normalized() | b.normalized()',
  SCAL(lambda e: dot(*[unit3(e, *[m.get(n) for n in ('e1', 'e2', 'e3')]) for m in (e.a, e.b)])))
L('meaning', 'point through the meet of three coordinate planes', 'x:float y:float z:float', 'point',
  'kln::plane(1.f, 0.f, 0.f, -x) ^ kln::plane(0.f, 1.f, 0.f, -y) ^ kln::plane(0.f, 0.f, 1.f, -z)',
  lambda e: pt(e, [e.x, e.y, e.z]))


def generic(ctx, lanes):
    """operands outside the zero sets the code tests for"""
    ctx.generic = True


def screw(e):
    """turn by w about and move by d along the unit line l"""
    c = e.ctx
    u = [e.l.get(n) for n in ('e23', 'e31', 'e12')]
    m = [e.l.get(n) for n in ('e01', 'e02', 'e03')]
    q = cross(u, m)             # the point of the line closest to the origin
    p = pv(e.p)
    h = c.sqrt(e.w * e.w) * c.const(HALF)
    ch, sh = c.cos(h), c.sin(h) * e.w * c.rsqrt(e.w * e.w)
    co, si = ch * ch - sh * sh, 2 * ch * sh
    r = [x - y for x, y in zip(p, q)]
    k = dot(u, r)
    x = cross(u, r)
    return pt(e, [q[i] + r[i] * co + x[i] * si + u[i] * k * (c.one - co) + e.d * u[i] for i in range(3)])


L('meaning', 'a motor turns about and moves along its axis', 'w:float d:float l:line p:point', 'point',
  'kln::motor(w, d, l)(p)', screw, both(finite_point('p'), unit_line('l'), generic), tags=REG)

def shift(e):
    u = [e.l.get(n) for n in AXES]
    return pt(e, [a + e.d * b for a, b in zip(pv(e.p), u)])


def spin(e):
    e.vals['d'] = e.ctx.zero
    return screw(e)


L('meaning', 'a motor without angle moves along its axis', 'd:float l:line p:point', 'point',
  'kln::motor(0.f, d, l)(p)', shift, both(finite_point('p'), unit_line('l'), generic), tags=REG)
L('meaning', 'a motor without displacement turns about its axis', 'w:float l:line p:point', 'point',
  'kln::motor(w, 0.f, l)(p)', spin, both(finite_point('p'), unit_line('l'), generic), tags=REG)
for k in range(3):
    for sg in (1, -1):
        L('meaning', 'a motor turns about and moves along the line %s%s' % ('-' if sg < 0 else '', AXES[k]),
          'w:float d:float l:line p:point', 'point', 'kln::motor(w, d, l)(p)', screw,
          both(finite_point('p'), along('l', k, sg), moment('l', k), generic), tags=REG)

# ------------------------------------------------------------------ exponential and logarithm
for k in range(3):
    n = AXES[k]
    L('explaw', 'exponential of the logarithm of a rotor about %s' % n, 'a:rotor', 'rotor', 'kln::exp(kln::log(a))',
      lambda e: e.a, both(axial('a', k), generic), tags=REG)
    L('explaw', 'exponential of the logarithm of a motor about %s' % n, 'a:motor', 'motor', 'kln::exp(kln::log(a))',
      lambda e: e.a, both(axial('a', k), generic), tags=REG)
    L('explaw', 'exponential of a doubled line along %s' % n, 'a:line', 'motor', 'kln::exp(a + a)',
      lambda e: _s.exp_line(e) * _s.exp_line(e), both(along('a', k), generic), tags=REG)
    L('explaw', 'exponential of a branch along %s times that of its negative' % n, 'a:branch', 'rotor',
      'kln::exp(a) * kln::exp(-a)', lambda e: MV.named(e.ctx, {'1': 1}), both(along('a', k), generic), tags=REG)
L('explaw', 'exponential of the logarithm of a rotor', 'a:rotor', 'rotor', 'kln::exp(kln::log(a))', lambda e: e.a,
  both(unit_rotor('a'), generic), tags=REG)
L('explaw', 'exponential of the logarithm of a motor', 'a:motor', 'motor', 'kln::exp(kln::log(a))', lambda e: e.a,
  both(unit_rotor('a'), study('a'), generic), tags=REG)
L('explaw', 'exponential of the logarithm of a motor turning by pi', 'a:motor', 'motor', 'kln::exp(kln::log(a))', lambda e: e.a,
  half_turn('a'), tags=REG)
L('explaw', 'exponential of the logarithm of a translator', 'a:translator', 'translator', 'kln::exp(kln::log(a))', lambda e: e.a)
L('explaw', 'logarithm of the exponential of an ideal line', 'a:ideal_line', 'ideal_line', 'kln::log(kln::exp(a))', lambda e: e.a)
L('explaw', 'exponential of a line times that of its negative', 'a:line', 'motor', 'kln::exp(a) * kln::exp(-a)',
  lambda e: MV.named(e.ctx, {'1': 1}), generic, tags=REG)
L('explaw', 'exponential of a branch times that of its negative', 'a:branch', 'rotor', 'kln::exp(a) * kln::exp(-a)',
  lambda e: MV.named(e.ctx, {'1': 1}), generic, tags=REG)
L('explaw', 'exponential of a doubled line', 'a:line', 'motor', 'kln::exp(a + a)',
  lambda e: _s.exp_line(e) * _s.exp_line(e), generic, tags=REG)
L('explaw', 'exponential of a line is a unit motor', 'a:line', 'motor', 'kln::motor m = kln::exp(a); kln::motor r = m * ~m;',
  lambda e: MV.named(e.ctx, {'1': 1}), generic, tags=REG)
L('explaw', 'exponential of a line keeps the line', 'a:line', 'line', 'kln::exp(a)(a)', lambda e: e.a, generic, tags=REG)
L('explaw', 'logarithm of a motor keeps its axis', 'a:motor', 'line', 'kln::line l = kln::log(a); kln::line r = a(l) - l;',
  ZERO, both(unit_rotor('a'), study('a'), generic), tags=REG)
