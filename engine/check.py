"""Runs the dataflow analysis over generated entry points and compares the
abstract results with the reference specification."""
import math
import random
import traceback
from fractions import Fraction
import llvm as L
from alg import Ctx, Rat, Unsupported, BITS, MASK
from absint import Analyzer, UndefUse, NonFinite, off_const, okey, where
from ga import MV, LAYOUT, SIZE, lanes_to_mv, mv_to_lanes
from specs import SPECS, Env, ctype, NPART
import build

SCALAR = {'float', 'int'}
RAWLEN = {'m128': 4, 'f4': 4, 'f8': 8, 'mat3x4': 16, 'mat4x4': 16, 'euler_angles': 3}
for t in LAYOUT:
    RAWLEN.setdefault(t, len(LAYOUT[t]))

HEADER = '''#include <klein/klein.hpp>
#include <cstddef>
static_assert(sizeof(kln::plane) == 16 && sizeof(kln::point) == 16 && sizeof(kln::direction) == 16, "layout");
static_assert(sizeof(kln::branch) == 16 && sizeof(kln::ideal_line) == 16 && sizeof(kln::rotor) == 16, "layout");
static_assert(sizeof(kln::translator) == 16 && sizeof(kln::line) == 32 && sizeof(kln::motor) == 32, "layout");
static_assert(offsetof(kln::line, p1_) == 0 && offsetof(kln::line, p2_) == 16, "layout");
static_assert(offsetof(kln::motor, p1_) == 0 && offsetof(kln::motor, p2_) == 16, "layout");
static_assert(sizeof(kln::dual) == 8 && offsetof(kln::dual, p) == 0 && offsetof(kln::dual, q) == 4, "layout");
static_assert(sizeof(kln::mat3x4) == 64 && sizeof(kln::mat4x4) == 64, "layout");
static_assert(offsetof(kln::euler_angles, roll) == 0 && offsetof(kln::euler_angles, pitch) == 4
              && offsetof(kln::euler_angles, yaw) == 8, "layout");
'''


def wrapper(s):
    ps, pre = [], ''
    if s.kind.startswith('array'):
        t, x = s.args[0][1], s.args[1][1]
        if s.kind == 'array-inplace':
            return ('extern "C" void %s(kln::%s* out, kln::%s const* pt, std::size_t n)'
                    '{ kln::%s t = *pt; t(out, out, n); }' % (s.id, x, t, t))
        return ('extern "C" void %s(kln::%s* out, kln::%s const* pt, kln::%s* px, std::size_t n)'
                '{ kln::%s t = *pt; t(px, out, n); }' % (s.id, x, t, x, t))
    if s.ret in ('f4', 'f8'):
        ps.append('float* out')
    else:
        ps.append('%s* out' % ctype(s.ret))
    for n, t in s.args:
        if t in SCALAR:
            ps.append('%s %s' % (t, n))
        elif t in ('f4', 'f8'):
            ps.append('float* %s' % n)
        else:
            ps.append('%s const* p_%s' % (ctype(t), n))
            pre += '%s %s = *p_%s; ' % (ctype(t), n, n)
    post = '' if s.ret in ('f4', 'f8') else ' *out = r;'
    return 'extern "C" void %s(%s){ %s%s%s }' % (s.id, ', '.join(ps), pre, s.code, post)


COUNTS = (0, 1, 2, 3, 4, 5, 7, 8, 9)


def source(specs):
    return HEADER + '\n'.join(wrapper(s) for s in specs) + '\n' + '\n'.join(
        fixed_wrapper(s, c) for s in specs if s.kind.startswith('array') for c in COUNTS) + '\n'


def fixed_wrapper(s, c):
    """entry point applying the array form to a constant number of elements"""
    t, x = s.args[0][1], s.args[1][1]
    if s.kind == 'array-inplace':
        return ('extern "C" void %s_n%d(kln::%s* out, kln::%s const* pt)'
                '{ kln::%s t = *pt; t(out, out, %d); }' % (s.id, c, x, t, t, c))
    return ('extern "C" void %s_n%d(kln::%s* out, kln::%s const* pt, kln::%s* px)'
            '{ kln::%s t = *pt; t(px, out, %d); }' % (s.id, c, x, t, x, t, c))


def make_env(s, ctx):
    """abstract operands of a specification"""
    e = Env(ctx)
    for n, t in s.args:
        if t in SCALAR:
            e.vals[n] = ctx.sym(n)
            continue
        lay = LAYOUT.get(t)
        if lay is None:
            lay = ['m%d' % i for i in range(RAWLEN[t])]
            if t == 'euler_angles':
                lay = ['roll', 'pitch', 'yaw']
        e.lanes[n] = [ctx.sym('%s.%s' % (n, b)) if b else ctx.zero for b in lay]
    if s.assume:
        s.assume(ctx, e.lanes)
        for n, ls in e.lanes.items():       # an operand is there before anything is computed
            e.lanes[n] = [Rat(ctx, v.num, v.den) for v in ls]
    for n, t in s.args:
        if n in e.lanes and t in LAYOUT:
            e.vals[n] = lanes_to_mv(ctx, t, e.lanes[n])
    return e


def expected(s, e):
    x = s.exp(e)
    if isinstance(x, MV) and not getattr(s.exp, 'raw', False):
        if s.ret in ('float', 'bool'):
            lanes = mv_to_lanes(e.ctx, 'float', x)
        else:
            lanes = mv_to_lanes(e.ctx, s.ret, x)
    elif isinstance(x, Rat):
        lanes = [x]
    else:
        lanes = list(x)
    return lanes


class Result:
    """outcome of one specification in one configuration"""

    def __init__(self, spec, cfg):
        self.spec, self.cfg = spec, cfg
        self.bad = []           # (lane label, message, blame)
        self.unknown = []       # reasons the analysis has no answer
        self.words = []         # abstract output words
        self.err = []           # lanes with first-order approximation error
        self.an = None
        self.info = {}
        self.notes = []
        self.mem = []           # accesses outside an operand, or demanding more alignment than promised
        self.accesses = 0


def memory_accesses(s, a, r):
    """footprint and alignment of every access to the operands and the result"""
    ext = {'out': SIZE.get(s.ret) or (1 if s.ret == 'bool' else RAWLEN.get(s.ret, 1) * 4)}
    raw = {'out'} if s.ret in ('f4', 'f8') else set()
    for n, t in s.args:
        if t not in SCALAR:
            ext[n] = SIZE.get(t) or RAWLEN[t] * 4
        if t in ('f4', 'f8'):
            raw.add(n)
    acc = [(st.obj, st.off, st.size, L.alignment(st.inst) if st.inst and L.op(st.inst) == 'store' else 1, st.inst,
            'written') for st in a.stores]
    acc += [(obj, off, size, align, inst, 'read') for (obj, off, size, align, inst) in a.loads]
    seen = set()
    for obj, off, size, align, inst, what in acc:
        if obj not in ext:
            continue
        r.accesses += 1
        o = off_const(off)
        if o is None:
            r.unknown.append('%s %s at offset %s' % (obj, what, off))
            continue
        if o < 0 or o + size > ext[obj]:
            m = ('byte %d of "%s"' % (o, obj), 'is %s although the object has %d bytes' % (what, ext[obj]))
        elif obj in raw and align > 4 and L.op(inst) in ('load', 'store'):
            m = ('"%s"' % obj, 'is %s with an instruction that needs %d-byte alignment' % (what, align))
        else:
            continue
        if m not in seen:
            seen.add(m)
            r.mem.append(m + (blame_of(inst),))


def lane_name(s, i):
    lay = LAYOUT.get(s.ret)
    if s.ret == 'translator' and i == 0:
        return 'lane 0'
    if lay and i < len(lay):
        return lay[i] or 'lane %d' % i
    if s.ret == 'euler_angles':
        return ['roll', 'pitch', 'yaw'][i]
    if s.ret in ('mat3x4', 'mat4x4'):
        return 'column %d row %d' % divmod(i, 4)
    return 'element %d' % i


def analyze(s, mod, ctx, e, cfg):
    f = mod.function(s.id)
    objs = {}
    params = []
    cnt = L.count_params(f)
    k = 0
    if s.kind.startswith('array'):
        names = ['out', 't'] + ([] if s.kind == 'array-inplace' else ['x']) + ['n']
        args = [('P', 'out', ctx.zero), ('P', 't', ctx.zero)]
        if s.kind != 'array-inplace':
            args.append(('P', 'x', ctx.zero))
        args.append(('I', ctx.sym('n', 'int')))
        esz = SIZE[s.args[1][1]]
        data = 'out' if s.kind == 'array-inplace' else 'x'

        def init(obj, off, size):
            c = off_const(off)
            if obj == 't':
                if c is not None and c % 4 == 0 and 0 <= c // 4 < len(e.lanes['t']):
                    return ('F', e.lanes['t'][c // 4])
                return None
            if obj == data:
                return elem_symbol(ctx, off, esz, s, e)
            return None
    else:
        args = [('P', 'out', ctx.zero)]
        for n, t in s.args:
            if t == 'float':
                args.append(('F', e.vals[n]))
            elif t == 'int':
                args.append(('I', e.vals[n]))
            else:
                args.append(('P', n, ctx.zero))

        def init(obj, off, size):
            ls = e.lanes.get(obj)
            c = off_const(off)
            if ls is None or c is None or c % 4 or not 0 <= c // 4 < len(ls) or size != 4:
                return None
            return ('F', ls[c // 4])
    if len(args) != cnt:
        raise Unsupported('entry point has %d parameters, expected %d' % (cnt, len(args)))
    a = Analyzer(mod, f, ctx, init)
    a.run(args)
    return a


def elem_symbol(ctx, off, esz, s, e):
    """value of the array element cell at a (symbolic) byte offset"""
    # off = esz*j + c with the index part j carried in the symbol's payload
    const = off.num.get(0, 0) if not off.den else None
    if const is None:
        return None
    base = Rat(ctx, {m: c for m, c in off.num.items() if m}, {})
    c = int(const) % esz
    idx = (base + (int(const) - c)) * ctx.const(Fraction(1, esz))
    lay = LAYOUT[s.args[1][1]]
    if c % 4 or c // 4 >= len(lay):
        return None
    if lay[c // 4] is None:
        return ('F', ctx.zero)
    for (kind, key, v) in ctx.atoms:
        if kind == ('elem', c) and (key - idx).is_zero():
            return ('F', Rat(ctx, {1 << (BITS * v): 1}, {}))
    v = ctx.var('x[%s].%s' % (idx, lay[c // 4]), 'in', idx)
    ctx.atoms.append((('elem', c), idx, v))
    return ('F', Rat(ctx, {1 << (BITS * v): 1}, {}))


# ------------------------------------------------------------------ identity testing
SPECIAL = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 1e-7, -1e-7, 0.25]


SEED = 1
TRIES = 400


def differ(ctx, x, y, seed=None, tries=None):
    """A point at which two abstract values differ, or None when they agree on
    every sampled point (polynomial identity testing on the normal forms)."""
    seed = SEED if seed is None else seed
    tries = TRIES if tries is None else tries
    d = (x - y)
    ins = set()
    todo = set(x.vars() | y.vars() | d.vars())
    seen = set()
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        kind, payload = ctx.kinds[v]
        if isinstance(payload, Rat) and kind not in ('in', 'int', 'err'):
            todo |= payload.vars()
        elif isinstance(payload, (list, tuple)):
            for p in payload:
                if isinstance(p, Rat):
                    todo |= p.vars()
        at = next((key for k, key, w in ctx.atoms if w == v), None)
        if kind not in ('in', 'int', 'err'):
            if isinstance(at, Rat):
                todo |= at.vars()
            elif isinstance(at, list):
                for p in at:
                    todo |= p.vars()
        if kind in ('in', 'int', 'carried'):
            ins.add(v)
    ins = sorted(ins)
    rnd = random.Random(seed)
    ok = 0

    algs = sorted(v for v in seen if ctx.kinds[v][0] == 'alg')

    def points():
        for t in range(tries):
            env = {-1 - v: rnd.choice((1, -1)) for v in algs}
            for v in ins:
                m = t % 4
                if ctx.kinds[v][0] == 'int':
                    env[v] = float(rnd.randint(1, 9) if t % 8 else rnd.randint(1 << 16, 1 << 20))
                elif m == 0:
                    env[v] = rnd.uniform(-0.45, 0.45)
                elif m == 1:
                    env[v] = rnd.uniform(-3, 3)
                elif m == 2:
                    env[v] = rnd.choice(SPECIAL)
                else:
                    env[v] = rnd.uniform(-0.4, 0.4) if rnd.random() < 0.6 else 0.0
            yield env
        yield from aimed(ctx, d, seen, ins, rnd)
    for env in points():
        try:
            a, b = x.evalf(dict(env)), y.evalf(dict(env))
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        if a != a or b != b or abs(a) == math.inf or abs(b) == math.inf:
            continue
        ok += 1
        if abs(a - b) > 1e-6 * (1 + abs(a) + abs(b)) and sure(x, y, env):
            return dict({ctx.names[v]: env[v] for v in ins},
                        **{ctx.names[v]: ctx.atom_value(v, dict(env)) for v in algs}), a, b
    if ok < 5:
        return {}, float('nan'), float('nan')
    return None


def aimed(ctx, d, seen, ins, rnd, rounds=6, limit=60):
    """points in the regions that the predicates of a normal form single out: each region is the set of predicates of
    one term; they are met one after the other by solving for one operand component"""
    algs = sorted(v for v in seen if ctx.kinds[v][0] == 'alg')
    bools = {v for v in seen if ctx.kinds[v][0] == 'bool' and isinstance(ctx.kinds[v][1], tuple)}
    if not bools:
        return
    goals = []
    for m in d.num:
        g, i = {}, 0
        while m:
            if m & MASK and i in bools:
                g[i] = 1.0
            m >>= BITS
            i += 1
        if g and g not in goals:
            goals.append(g)
    goals.sort(key=len)
    mine = sorted({v for g in goals for v in g})
    full = [{v: g.get(v, 0.0) for v in mine} for g in [{}] + goals if len(mine) <= 24]
    goals = full[:1] + goals[:6] + goals[-4:] + full[1:4] + full[-2:] + goals[6:] + full
    goals += [{v: w} for v in sorted(bools) for w in (1.0, 0.0)]
    goals = [g for j, g in enumerate(goals) if g not in goals[:j]]
    if len(goals) > limit:
        rest = goals[16:]
        goals = goals[:16] + rnd.sample(rest, limit - 16)
    for g in goals:
        for r in range(rounds):
            env = {v: float(rnd.randint(1, 9)) if ctx.kinds[v][0] == 'int' else
                   rnd.randint(-96, 96) / 32 if r % 3 else rnd.randint(-24, 24) / 32 for v in ins}
            env.update({-1 - v: rnd.choice((1, -1)) for v in algs})
            for _ in range(3 * len(g) + 2):
                todo = [v for v in g if holds(ctx, v, env) != g[v]]
                if not todo:
                    yield env
                    break
                if not meet(ctx, rnd.choice(todo), g, env, ins, rnd):
                    break


def sure(x, y, env):
    """whether the difference of two values at a point is more than the rounding of their evaluation"""
    try:
        memo = {}
        a, ea = x.bounded(env, memo)
        b, eb = y.bounded(env, memo)
    except (ArithmeticError, ValueError):
        return False
    return abs(a - b) > 1e-6 * (1 + abs(a) + abs(b)) + 2 * (ea + eb)


def holds(ctx, v, env):
    try:
        return ctx.atom_value(v, dict(env))
    except (ValueError, ZeroDivisionError, OverflowError):
        return None


def meet(ctx, p, goal, env, ins, rnd):
    """change one component so that predicate p has the wanted value; True when it was possible"""
    kind, key = ctx.kinds[p][1]
    dep = [v for v in ins if v in all_inputs(ctx, key)]
    rnd.shuffle(dep)

    def at(v, t):
        e = dict(env)
        e[v] = t
        try:
            return key.evalf(e)
        except (ValueError, ZeroDivisionError, OverflowError):
            return None
    for v in dep:
        f0, f1, f2 = at(v, 0.0), at(v, 1.0), at(v, 2.0)
        cand, best = [], None
        if None not in (f0, f1, f2) and f1 != f0 and abs((f2 - f1) - (f1 - f0)) <= 1e-9 * (abs(f0) + abs(f1) + abs(f2)):
            z = -f0 / (f1 - f0)
            cand = [z] if kind == 'eq' and goal[p] else \
                [z + s * w for w in (1e-3 * abs(z), abs(z) / 2, 1.0, abs(z) * 2) for s in (1, -1) if w] + [z]
            rnd.shuffle(cand)
        else:
            grid = [0.0] + [s * 10.0 ** k * rnd.uniform(1, 9) for k in range(-24, 13, 2) for s in (1, -1)] + \
                [rnd.uniform(-9, 9) for _ in range(8)]
            grid.sort()
            vals = [(t, at(v, t)) for t in grid]
            vals = [(t, f) for t, f in vals if f is not None and f == f]
            cand = [t for t, f in vals]
            rnd.shuffle(cand)
            near = rnd.random() < .5
            for (t0, g0), (t1, g1) in zip(vals, vals[1:]):
                if (g0 < 0) != (g1 < 0):
                    for _ in range(200):
                        m = (t0 + t1) / 2
                        h = at(v, m)
                        if h is None or m in (t0, t1):
                            break
                        if (h < 0) == (g0 < 0):
                            t0 = m
                        else:
                            t1 = m
                    off = [t + s * w * max(abs(t), 1e-30) for w in (1e-4, 1e-2, .2) for t, s in ((t0, -1), (t1, 1))]
                    rnd.shuffle(off)
                    cand = off + [t1, t0] + cand if near else cand + off + [t1, t0]
            want = (goal[p] == 1) == (kind == 'lt')         # look for a low value of the key
            if vals and not any((f < 0) == want for t, f in vals):
                best = narrow(lambda t: at(v, t), vals, want)
                cand = [best] + cand
        for t in cand:
            e = dict(env)
            e[v] = t
            if holds(ctx, p, e) == goal[p]:
                env[v] = t
                return True
        if best is not None:                                # as near as this component gets
            env[v] = best
    return False


def narrow(f, vals, low):
    """the extremum nearest to the best of some sampled values, by golden section"""
    s = 1 if low else -1
    j = min(range(len(vals)), key=lambda i: s * vals[i][1])
    a, b = vals[max(j - 1, 0)][0], vals[min(j + 1, len(vals) - 1)][0]
    g = (math.sqrt(5) - 1) / 2
    c, d = b - g * (b - a), a + g * (b - a)
    fc, fd = f(c), f(d)
    for _ in range(80):
        if fc is None or fd is None or c == d:
            break
        if s * fc < s * fd:
            b, d, fd = d, c, fc
            c = b - g * (b - a)
            fc = f(c)
        else:
            a, c, fc = c, d, fd
            d = a + g * (b - a)
            fd = f(d)
    return (a + b) / 2


def all_inputs(ctx, key):
    c = ctx.__dict__.setdefault('input_cache', {})
    k = id(key)
    if k not in c:
        c[k] = (inputs_of(ctx, key), key)
    return c[k][0]


def depends_on_undef(ctx, v):
    u = ctx.index.get('uninitialised')
    return u is not None and u in inputs_of(ctx, v)


def inputs_of(ctx, *rats):
    """input variables a value depends on, through atoms and predicates"""
    ins, seen = set(), set()
    todo = set()
    for r in rats:
        todo |= r.vars()
    atoms = None
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        kind, payload = ctx.kinds[v]
        if kind in ('in', 'int', 'carried', 'undef'):
            ins.add(v)
            continue
        if kind == 'err':
            continue
        if atoms is None:
            atoms = {w: key for _, key, w in ctx.atoms}
        for p in (payload, atoms.get(v)):
            for q in p if isinstance(p, (list, tuple)) else (p,):
                if isinstance(q, Rat):
                    todo |= q.vars()
    return ins


GRID = [0.0, 1.0, -1.0, 0.5, 2.0]


def not_finite(ctx, v, wants, total=False):
    """A point at which the computation of v divides by zero, or takes a root of a
    number outside its domain, although every component of the reference is a finite
    number; None if there is none among the sampled points of each singular set."""
    for i, gates in (v.sing or {}).items():
        kind, key = ctx.sings[i]
        zero = Rat(ctx, key.num, {})
        gs = [g.noerr() for g in gates if g is not None]
        main = sorted(inputs_of(ctx, zero))
        rest = sorted(inputs_of(ctx, *gs, *wants) - set(main))
        if not main or any(ctx.kinds[x][0] != 'in' for x in main + rest):
            continue
        rnd = random.Random(SEED)
        for t in range(300):
            env = {}
            n = t % (len(main) + 1)
            nz = set(rnd.sample(main, n)) if t >= 2 else set()
            for x in main:
                env[x] = rnd.choice(GRID[1:]) if x in nz else 0.0
            for x in rest:
                env[x] = rnd.choice(GRID) if t % 3 == 0 else rnd.uniform(-.9, .9)
            pt = dict(env)
            try:
                z = (zero if kind != 'sqrt' else key).evalf(dict(env))
                if not (z == 0 if kind == 'div' else z <= 0 and (z == 0 or key.evalf(dict(env)) < 0)
                        if kind == 'rsqrt' else z < -1e-9):
                    continue
                if gs and None not in gates and not any(g.evalf(dict(env)) for g in gs):
                    continue
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            try:
                ok = True
                for w in wants:
                    a = w.evalf(dict(env))
                    ok = ok and a == a and abs(a) != math.inf
            except (ValueError, ZeroDivisionError, OverflowError):
                ok = total
            if ok:
                return kind, key, {ctx.names[x]: pt[x] for x in sorted(pt)}
    return None


SING = {'div': 'divides by', 'rsqrt': 'takes the reciprocal square root of', 'sqrt': 'takes the square root of'}


def undefined_at(ctx, v, wants, total=False):
    """description of a point at which the computed value is not a number, or None"""
    if not v.sing:
        return None
    hit = not_finite(ctx, v, [w.noerr() for w in wants if w is not None], total)
    if hit is None:
        return None
    kind, key, pt = hit
    return '%s %s, which is not a number at %s where the specified value is finite' % (
        SING[kind], clip(key, 100), ', '.join('%s=%g' % kv for kv in pt.items()))


def same_value(ctx, got, want, res=None):
    """None if equal, else a description of the difference"""
    try:
        if got.equals(want):
            return None
    except Unsupported:
        pass
    d = differ(ctx, got.noerr(), want.noerr())
    if d is None:
        if res is not None:
            res.notes.append('identity established by evaluation of the normal forms')
        return None
    pt, a, b = d
    return 'computes %s, specified %s%s' % (
        clip(got.noerr()), clip(want), ('; e.g. %s gives %.6g instead of %.6g' % (
            ', '.join('%s=%.4g' % (k, v) for k, v in sorted(pt.items())), a, b)) if pt else '')


def clip(r, n=160):
    s = str(r)
    return s if len(s) <= n else s[:n] + '...'


def blame_of(inst):
    if inst is None:
        return '?'
    try:
        return build.blame(inst)
    except Exception:
        return '?'


DEFECT = ('undef',)


def run_value(s, mod, ctx, e, want, cfg):
    r = Result(s, cfg)
    try:
        a = analyze(s, mod, ctx, e, cfg)
    except UndefUse:
        r.bad.append(('control flow', 'depends on an uninitialised value', '?'))
        return r
    except NonFinite as x:
        r.bad.append(('control flow', 'depends on a value that is not a finite number (%s)' % x, '?'))
        return r
    except Unsupported as x:
        if 'undefined value' in str(x):
            r.bad.append(('control flow', str(x), '?'))
        else:
            r.unknown.append(str(x))
        return r
    r.an = a
    cells = a.mem.cells.get('out', {})
    size = SIZE.get(s.ret) or RAWLEN[s.ret] * 4
    n = RAWLEN.get(s.ret, 1) if s.ret not in ('bool',) else 1
    esz = 1 if s.ret == 'bool' else 4
    if s.ret == 'float':
        n = 1
    for i in range(n):
        off = ctx.const(i * esz)
        hit = cells.get(okey(off))
        lab = lane_name(s, i)
        if hit is None:
            r.bad.append((lab, 'is never written', '?'))
            r.words.append(None)
            continue
        _, w, sz, inst = hit
        if w[0] == 'U':
            r.bad.append((lab, 'is an uninitialised value', blame_of(inst)))
            r.words.append(None)
            continue
        if w[0] == 'N':
            r.bad.append((lab, 'is not a finite number (%s)' % w[1], blame_of(inst)))
            r.words.append(None)
            continue
        if w[0] == '?':
            r.unknown.append('%s: %s' % (lab, w[1]))
            r.words.append(None)
            continue
        try:
            v = a.toB(w) if s.ret == 'bool' else a.toF(w)
        except UndefUse:
            r.bad.append((lab, 'is an uninitialised value', blame_of(inst)))
            r.words.append(None)
            continue
        except NonFinite as x:
            r.bad.append((lab, 'is not a finite number (%s)' % x, blame_of(inst)))
            r.words.append(None)
            continue
        except Unsupported as x:
            r.unknown.append('%s: %s' % (lab, x))
            r.words.append(None)
            continue
        if depends_on_undef(ctx, v):
            r.bad.append((lab, 'is an uninitialised value on some path', blame_of(inst)))
            r.words.append(None)
            continue
        r.words.append(v)
        ep = v.errpart() + v.decided_by_error()
        if not ep.is_zero():
            r.err.append((lab, ep, blame_of(inst)))
        if want is not None and i < len(want):
            d = same_value(ctx, v, want[i], r)
            if not d and v.sing and not s.regular:
                d = undefined_at(ctx, v, want, s.total)
            if d:
                r.bad.append((lab, d, blame_of(inst)))
    memory_accesses(s, a, r)
    if ctx.saw_nan and not s.kind.startswith('array'):
        # accesses on the paths only a NaN takes
        c2 = Ctx()
        c2.nan_paths = True
        try:
            b = analyze(s, mod, c2, make_env(s, c2), cfg)
            r2 = Result(s, cfg)
            memory_accesses(s, b, r2)
            r.mem += [m for m in r2.mem if m not in r.mem]
        except (UndefUse, NonFinite, Unsupported):
            pass
    r.info = {'stores': len(a.stores), 'loads': len(a.loads), 'events': len(a.events)}
    return r


def run_spec(s, mods):
    """analyse one specification in every configuration; returns {cfg: Result}"""
    ctx = Ctx()
    e = make_env(s, ctx)
    want = None
    out = {}
    if s.exp is not None and not s.kind.startswith('array'):
        want = expected(s, e)
    for cfg, mod in mods.items():
        if s.kind.startswith('array'):
            import arrays
            out[cfg] = arrays.run_array(s, mod, cfg)
        else:
            out[cfg] = run_value(s, mod, ctx, e, want, cfg)
    return out
