"""Reference model: the projective geometric algebra P(R*_{3,0,1}).

Sixteen basis blades as bit masks over (e0, e1, e2, e3); e0^2 = 0, ei^2 = 1.
Coefficients are abstract values (alg.Rat).  Nothing here is derived from the
code under analysis; the only library conventions it knows are the documented
component layouts of the entity types.
"""
from alg import Rat

NAMES = {
    '1': (0, 1), 'e0': (1, 1), 'e1': (2, 1), 'e2': (4, 1), 'e3': (8, 1),
    'e01': (3, 1), 'e02': (5, 1), 'e03': (9, 1),
    'e12': (6, 1), 'e31': (10, -1), 'e23': (12, 1),
    'e021': (7, -1), 'e013': (11, 1), 'e032': (13, -1), 'e123': (14, 1),
    'e0123': (15, 1),
}
BYMASK = {m: (n, s) for n, (m, s) in NAMES.items()}


def grade(m):
    return bin(m).count('1')


def bprod(a, b):
    """(sign, mask) of the product of two basis blades, sign 0 if it vanishes"""
    if a & b & 1:
        return 0, 0
    s = 0
    x = a >> 1
    while x:
        s += bin(x & b).count('1')
        x >>= 1
    return (-1 if s & 1 else 1), a ^ b


class MV:
    def __init__(self, ctx, d=None):
        self.ctx = ctx
        self.d = {m: r for m, r in (d or {}).items() if r.num}

    @staticmethod
    def of(ctx, **kw):
        return MV.named(ctx, kw)

    @staticmethod
    def named(ctx, d):
        out = MV(ctx)
        for n, r in d.items():
            m, s = NAMES[n]
            r = r if isinstance(r, Rat) else ctx.const(r)
            out = out + MV(ctx, {m: r if s > 0 else -r})
        return out

    def get(self, n):
        m, s = NAMES[n]
        r = self.d.get(m, self.ctx.zero)
        return r if s > 0 else -r

    def lift(self, o):
        if isinstance(o, MV):
            return o
        if not isinstance(o, Rat):
            o = self.ctx.const(o)
        return MV(self.ctx, {0: o})

    def __add__(self, o):
        o = self.lift(o)
        d = dict(self.d)
        for m, r in o.d.items():
            d[m] = d[m] + r if m in d else r
        return MV(self.ctx, d)

    __radd__ = __add__

    def __neg__(self):
        return MV(self.ctx, {m: -r for m, r in self.d.items()})

    def __sub__(self, o):
        return self + (-self.lift(o))

    def _prod(self, o, keep):
        o = self.lift(o)
        d = {}
        for a, ra in self.d.items():
            for b, rb in o.d.items():
                s, m = bprod(a, b)
                if not s or not keep(grade(a), grade(b), grade(m)):
                    continue
                t = ra * rb
                if s < 0:
                    t = -t
                d[m] = d[m] + t if m in d else t
        return MV(self.ctx, d)

    def __mul__(self, o):
        return self._prod(o, lambda a, b, c: True)

    def __rmul__(self, o):
        return self.lift(o) * self

    def __xor__(self, o):
        return self._prod(o, lambda a, b, c: c == a + b)

    def __or__(self, o):
        """symmetric inner product |grade(a) - grade(b)|"""
        return self._prod(o, lambda a, b, c: c == abs(a - b))

    def rev(self):
        return MV(self.ctx, {m: (-r if (grade(m) * (grade(m) - 1) // 2) & 1 else r)
                             for m, r in self.d.items()})

    def dual(self):
        """the documented duality map: relabels a blade to the complementary one"""
        pairs = [('1', 'e0123'), ('e0', 'e123'), ('e1', 'e032'), ('e2', 'e013'), ('e3', 'e021'),
                 ('e23', 'e01'), ('e31', 'e02'), ('e12', 'e03')]
        out = {}
        for a, b in pairs:
            out[b] = self.get(a)
            out[a] = self.get(b)
        return MV.named(self.ctx, out)

    def join(self, o):
        return (self.dual() ^ o.dual()).dual()

    def grades(self, *gs):
        return MV(self.ctx, {m: r for m, r in self.d.items() if grade(m) in gs})

    def sandwich(self, o):
        """self * o * ~self"""
        return self * o * self.rev()

    def scalar(self):
        return self.d.get(0, self.ctx.zero)

    def scale(self, r):
        return MV(self.ctx, {m: x * r for m, x in self.d.items()})

    def __str__(self):
        return ' + '.join('(%s)%s' % (self.get(BYMASK[m][0]), BYMASK[m][0]) for m in sorted(self.d)) or '0'


# ---------------------------------------------------------------- entity layouts
# blade stored in each 4-byte lane; None = lane that the type keeps at zero
P0 = ['e0', 'e1', 'e2', 'e3']
P1 = ['1', 'e23', 'e31', 'e12']
P2 = ['e0123', 'e01', 'e02', 'e03']
P3 = ['e123', 'e032', 'e013', 'e021']
LAYOUT = {
    'plane': P0,
    'point': P3,
    'direction': [None] + P3[1:],
    'line': [None] + P1[1:] + [None] + P2[1:],
    'branch': [None] + P1[1:],
    'ideal_line': [None] + P2[1:],
    'rotor': P1,
    'translator': [None] + P2[1:],
    'motor': P1 + P2,
    'dual': ['1', 'e0123'],
    'float': ['1'],
    'origin': [],
}
SIZE = {'plane': 16, 'point': 16, 'direction': 16, 'line': 32, 'branch': 16, 'ideal_line': 16,
        'rotor': 16, 'translator': 16, 'motor': 32, 'dual': 8, 'float': 4, 'mat3x4': 64, 'mat4x4': 64,
        'euler_angles': 12, 'm128': 16, 'bool': 1}


def lanes_to_mv(ctx, ty, vals):
    d = {}
    for n, v in zip(LAYOUT[ty], vals):
        if n is not None:
            d[n] = v
    mv = MV.named(ctx, d)
    if ty == 'translator':
        mv = mv + ctx.one
    return mv


def mv_to_lanes(ctx, ty, mv):
    """lanes of the multivector stored as `ty`; raises if it has other components"""
    rest = dict(mv.d)
    if ty == 'translator':
        s = rest.pop(0, ctx.zero)
        if not (s - ctx.one).is_zero():
            raise ValueError('scalar part of a translator is %s' % s)
    out = []
    for n in LAYOUT[ty]:
        if n is None:
            out.append(ctx.zero)
        else:
            m, s = NAMES[n]
            r = rest.pop(m, ctx.zero)
            out.append(r if s > 0 else -r)
    for m, r in rest.items():
        if not r.is_zero():
            raise ValueError('component %s = %s does not fit a %s' % (BYMASK[m][0], r.short(), ty))
    return out
