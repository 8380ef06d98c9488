"""Blade tables of the symbolic utility (sym/ga.cpp): products of basis blades as
functions of the index bits of both operands."""
import os
import signal
import time
import build
import llvm as L
from alg import Ctx, Rat, Unsupported, BITS, MASK
from absint import Analyzer, UndefUse, NonFinite
from check import blame_of
from pool import parallel

FLAGS = ['-std=c++17', '-msse4.2', '-DNDEBUG']


# ------------------------------------------------------------------ reference
def grade(a):
    return bin(a).count('1')


def bits(a):
    return [i for i in range(32) if a >> i & 1]


def product(a, b, metric):
    """sign and blade of the geometric product of two basis blades"""
    seq = bits(a) + bits(b)
    s = 1
    done = False
    while not done:
        done = True
        for i in range(len(seq) - 1):
            if seq[i] > seq[i + 1]:
                seq[i], seq[i + 1] = seq[i + 1], seq[i]
                s = -s
                done = False
    out = []
    for x in seq:
        if out and out[-1] == x:
            s *= metric[x]
            out.pop()
        else:
            out.append(x)
    v = 0
    for x in out:
        v |= 1 << x
    return s, v


def enc(s, v):
    return s * (v + 1) if s else 0


def metric(sig):
    p, q, r = sig
    return [0] * r + [1] * p + [-1] * q


def ref_mul(sig):
    m = metric(sig)
    return lambda a, b: enc(*product(a, b, m))


def ref_ext(sig):
    m = [1] * sum(sig)
    return lambda a, b: 0 if a & b else enc(*product(a, b, m))


def ref_dot(sig):
    m = metric(sig)

    def f(a, b):
        if a == 0 or b == 0:
            return 0
        s, v = product(a, b, m)
        return enc(s, v) if s and grade(v) == abs(grade(a) - grade(b)) else 0
    return f


# canonical basis of P(R*(3,0,1)): blade names with their sign relative to ascending order
NAMES = {'': 1, '0': 1, '1': 1, '2': 1, '3': 1, '23': 1, '31': -1, '12': 1, '01': 1, '02': 1, '03': 1,
         '123': 1, '032': -1, '013': 1, '021': -1, '0123': 1}
COMPL = {'': '0123', '0': '123', '1': '032', '2': '013', '3': '021', '01': '23', '02': '31', '03': '12'}
COMPL.update({v: k for k, v in COMPL.items()})


def mask(n):
    return sum(1 << int(c) for c in n)


DUAL = {}
for _n, _s in NAMES.items():
    DUAL[mask(_n)] = (_s * NAMES[COMPL[_n]], mask(COMPL[_n]))


def ref_dual(a, b=0):
    return enc(*DUAL[a])


def ref_reg(sig):
    e = [1] * 4

    def f(a, b):
        (s1, x), (s2, y) = DUAL[a], DUAL[b]
        if x & y:
            return 0
        s3, z = product(x, y, e)
        s4, w = DUAL[z]
        return enc(s1 * s2 * s3 * s4, w)
    return f


def ref_rev(a, b=0):
    return 1 if grade(a) * (grade(a) - 1) // 2 % 2 else 0


PGA = (3, 0, 1)


def tables(tier):
    """(operation, signature, free index bits, reference, arity)"""
    out = [('mul', PGA, range(4), ref_mul(PGA), 2), ('ext', PGA, range(4), ref_ext(PGA), 2),
           ('dot', PGA, range(4), ref_dot(PGA), 2), ('reg', PGA, range(4), ref_reg(PGA), 2),
           ('dual', PGA, range(4), ref_dual, 1), ('rev', PGA, range(4), ref_rev, 1)]
    sigs = [(2, 0, 1), (3, 0, 0), (1, 2, 1), (0, 2, 2), (4, 1, 0), (1, 3, 0)]
    wide = [((10, 0, 0), (0, 3, 8, 9)), ((4, 4, 4), (1, 4, 8, 11))]
    if tier == 'thorough':
        sigs += [(0, 0, 3), (0, 4, 0), (2, 2, 1), (5, 0, 0), (2, 1, 2), (1, 1, 0), (0, 1, 0), (1, 0, 0), (0, 0, 1),
                 (3, 1, 0), (1, 1, 3)]
        wide += [((16, 8, 4), (0, 7, 15, 27)), ((0, 12, 3), (2, 3, 13, 14)), ((20, 5, 4), (3, 8, 23, 28))]
    for s in sigs:
        fb = range(sum(s))
        out += [('mul', s, fb, ref_mul(s), 2), ('ext', s, fb, ref_ext(s), 2), ('dot', s, fb, ref_dot(s), 2),
                ('rev', s, fb, ref_rev, 1)]
    for s, fb in wide:
        out += [('mul', s, fb, ref_mul(s), 2), ('ext', s, fb, ref_ext(s), 2), ('dot', s, fb, ref_dot(s), 2)]
    return out


def source(ts):
    out = ['#include "%s/sym/ga.cpp"' % build.REPO]
    for k, (op, sig, fb, ref, n) in enumerate(ts):
        out.append('extern "C" void tab_%d(int* o, unsigned l%s) { algebra a{%d, %d, %d}; *o = (int)a.%s(l%s); }' % (
            k, ', unsigned r' if n == 2 else '', *sig, op, ', r' if n == 2 else ''))
    return '\n'.join(out) + '\n'


def values(fb):
    fb = list(fb)
    return [sum(1 << fb[j] for j in range(len(fb)) if k >> j & 1) for k in range(1 << len(fb))]


def table_of(w, ctx, syms):
    """value table of a pseudo-Boolean normal form over the given symbols"""
    n = len(syms)
    pos = {s: k for k, s in enumerate(syms)}
    t = [0] * (1 << n)
    for m, c in w.num.items():
        k = i = 0
        while m:
            if m & MASK:
                k |= 1 << pos[i]
            m >>= BITS
            i += 1
        t[k] += c
    for b in range(n):
        s = 1 << b
        for k in range(1 << n):
            if k & s:
                t[k] += t[k ^ s]
    return t


def name_of(v):
    return 'e' + ''.join(str(i) if i < 10 else '(%d)' % i for i in bits(v)) if v else '1'


def run_table(k, t, mod, fixed):
    """(values over the free operands, source location) with the operands in fixed
    (None: symbolic index bits) given; a string describes a defect"""
    op, sig, fb, ref, n = t
    ctx = Ctx()
    syms, args = [], []
    for p, f in zip('lr'[:n], fixed):
        if f is not None:
            args.append(('I', ctx.const(f)))
            continue
        acc = ctx.zero
        for i in fb:
            b = ctx.boolvar('%s%d' % (p, i))
            syms.append(ctx._single(b))
            acc = acc + b * ctx.const(1 << i)
        args.append(('I', acc))
    a = Analyzer(mod, mod.function('tab_%d' % k), ctx, lambda *x: None)
    try:
        a.run([('P', 'out', ctx.zero)] + args)
    except (UndefUse, NonFinite):
        return 'depends on an undefined value', '?'
    hit = list(a.mem.cells.get('out', {}).values())
    if not hit:
        return 'no result is produced', '?'
    w = hit[0][1]
    if w[0] == 'U':
        return 'the result is uninitialised', '?'
    if w[0] == '?':
        raise Unsupported(w[1])
    v = a.toI(w)
    if ctx.index.get('uninitialised') in v.vars():
        return 'the result is uninitialised on some path', blame_of(hit[0][3])
    if v.den or not v.vars() <= set(syms):
        raise Unsupported('result %s' % v.short())
    return table_of(v, ctx, syms), blame_of(hit[0][3])


def analyse(arg):
    """the table of one operation: all index bits symbolic where the analysis can decide
    that, otherwise by cases on the left and then on both operands"""
    k, t, mod = arg
    op, sig, fb, ref, n = t
    vs = values(fb)
    nb = len(list(fb))
    tab = {}
    cases = 0
    start = time.time()

    def go(l, r):
        nonlocal cases
        if time.time() - start > LIMIT:
            raise Unsupported('the time for one table ran out')
        cases += 1
        try:
            with limit(SHORT if l is None else SHORT / 4):
                got, where = run_table(k, t, mod, (l, r) if n == 2 else (l,))
        except Unsupported as x:
            if l is None:
                return next((w for w in [go(v, r) for v in vs]), '?')
            if n == 2 and r is None:
                return next((w for w in [go(l, v) for v in vs]), '?')
            raise
        if isinstance(got, str):
            raise Defect(got)
        li = None if l is None else vs.index(l)
        ri = 0 if n == 1 else None if r is None else vs.index(r)
        for j, g in enumerate(got):
            if li is None:
                kk = j
            elif ri is None:
                kk = li | j << nb
            else:
                kk = li | ri << nb
            tab[kk] = g
        return where
    try:
        where = go(None, None)
    except Unsupported as x:
        return {'unknown': str(x)}
    except Defect as x:
        return {'bad': [str(x)], 'pairs': 0}
    out = compare(t, tab.get, where)
    out['cases'] = cases
    return out


class Defect(Exception):
    pass


class limit:
    """stop an attempt whose normal forms grow too large"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def late(*_):
            raise Unsupported('normal forms too large')
        self.old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


LIMIT = 150
SHORT = 8


def compare(t, got, where):
    op, sig, fb, ref, n = t
    vs = values(fb)
    nb = len(list(fb))
    bad, pairs = [], 0
    for kk in range(1 << (nb * n)):
        l = vs[kk & ((1 << nb) - 1)]
        r = vs[kk >> nb] if n == 2 else 0
        g, w = got(kk), ref(l, r)
        if g is None:
            return {'unknown': 'the value for %s, %s does not fold to a constant' % (name_of(l), name_of(r))}
        pairs += 1
        if op == 'rev':
            g, w = bool(g), bool(w)
        if g != w:
            def show(x):
                if op == 'rev':
                    return 'reversed sign' if x else 'same sign'
                return ('-' if x < 0 else '') + name_of(abs(int(x)) - 1) if x else '0'
            bad.append('%s(%s) gives %s instead of %s' % (op, name_of(l) + (', ' + name_of(r) if n == 2 else ''),
                                                         show(g), show(w)))
    return {'bad': bad, 'pairs': pairs, 'where': where}


def constants(t, k):
    """fallback: constant propagation of one instance per blade pair"""
    op, sig, fb, ref, n = t
    vs = values(fb)
    nb = len(list(fb))
    out = ['#include "%s/sym/ga.cpp"' % build.REPO]
    for kk in range(1 << (nb * n)):
        l = vs[kk & ((1 << nb) - 1)]
        r = vs[kk >> nb] if n == 2 else 0
        out.append('extern "C" int c_%d() { algebra a{%d, %d, %d}; return (int)a.%s(%du%s); }' % (
            kk, *sig, op, l, ', %du' % r if n == 2 else ''))
    mod = build.load(build.bitcode('symc%d' % k, '\n'.join(out) + '\n', build.BASE + FLAGS,
                                   passes='cgscc(inline),default<O3>'))

    def got(kk):
        f = mod.function('c_%d' % kk)
        bl = list(L.blocks(f))
        if len(bl) != 1:
            return None
        i = L.terminator(bl[0])
        if L.op(i) != 'ret':
            return None
        v = L.operand(i, 0)
        return L.const_sext(v) if L.is_const_int(v) else None
    return compare(t, got, 'sym/ga.cpp')


def check(o, tier):
    ts = tables(tier)
    try:
        mod = build.load(build.bitcode('symtab', source(ts), build.BASE + FLAGS))
    except build.BuildError as e:
        o.error(str(e))
        return
    rs = parallel(analyse, [(k, t, mod) for k, t in enumerate(ts)])
    for k, (t, (r, err)) in enumerate(zip(ts, rs)):
        lab = '%s in signature (%d, %d, %d)' % ((t[0],) + t[1])
        if err:
            r = {'unknown': err.strip().splitlines()[-1]}
        if 'unknown' in r and t[4] * len(list(t[2])) <= 8:
            why = r['unknown']
            try:
                r = constants(t, k)
                o.count('tables decided by constant propagation per blade pair')
            except build.BuildError as e:
                r = {'unknown': why}
        if 'unknown' in r:
            o.error('%s: %s' % (lab, r['unknown']))
            continue
        for m in r['bad'][:3]:
            o.violate(lab, m, r.get('where', '?'))
        o.count('blade pairs decided', r['pairs'])
        o.count('tables')
        if r.get('cases', 1) > 1:
            o.count('tables decided by cases')
        if len(o.samples) < 8:
            o.samples.append({'table': lab, 'entries': r['pairs']})
