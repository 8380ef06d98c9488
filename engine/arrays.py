"""Array (count) forms: which elements are written, from which elements, and
whether the in-place call (in == out) is permitted by the code."""
from fractions import Fraction
import llvm as L
from alg import Ctx, Rat, Unsupported
from absint import UndefUse, NonFinite, off_const, okey
from ga import LAYOUT, SIZE, lanes_to_mv, mv_to_lanes
import check as K

DEFINITE = ('loop-carried dependence', 'every iteration stores', 'undefined')


def block_reaches(src, dst, comp_header):
    """dst reachable from src inside one iteration (without re-entering the header)"""
    seen, todo = set(), [src]
    while todo:
        b = todo.pop()
        for s in L.succs(b):
            if s == comp_header or s in seen:
                continue
            if s == dst:
                return True
            seen.add(s)
            todo.append(s)
    return False


def run_array(s, mod, cfg):
    ctx = Ctx()
    e = K.make_env(s, ctx)
    r = K.Result(s, cfg)
    t, x = s.args[0][1], s.args[1][1]
    esz = SIZE[x]
    lay = LAYOUT[x]
    try:
        a = K.analyze(s, mod, ctx, e, cfg)
    except UndefUse:
        r.bad.append(('control flow', 'depends on an uninitialised value', '?'))
        return r
    except NonFinite as ex:
        r.bad.append(('control flow', 'depends on a non-finite value (%s)' % ex, '?'))
        return r
    except Unsupported as ex:
        why = str(ex)
        if 'undefined value' in why:
            r.bad.append(('control flow', why, '?'))
        else:
            r.unknown.append(why)
        return r
    r.an = a
    n = ctx.sym('n', 'int')
    inplace = s.kind == 'array-inplace'
    outs = [st for st in a.stores if st.obj == 'out']
    for st in a.stores:
        if st.obj != 'out':
            r.bad.append(('operand %s' % (st.obj,), 'is written', K.blame_of(st.inst)))
    if not outs:
        r.bad.append(('out', 'is never written', '?'))
        return r
    loops = []
    for st in outs:
        if st.loop is None:
            # a store outside every loop cannot be a function of count
            c = off_const(st.off)
            r.unknown.append('store outside the element loop at offset %s' % st.off)
            return r
        if st.loop not in loops:
            loops.append(st.loop)
    if len(loops) != 1:
        r.unknown.append('%d element loops' % len(loops))
        return r
    lp = loops[0]
    k = ctx.sym(ctx.names[lp.kvar], 'int')
    for st in outs:
        s1, _ = a.split_k(st.off, lp.kvar)
        if s1 is None or not s1.is_const() or abs(s1.const_value()) != esz:
            r.unknown.append('the element loop does not advance by one element per iteration')
            return r
    if lp.kstar is None:
        r.unknown.append('trip count of the element loop')
        return r
    one = ctx.one
    # executed iterations: kstar when the exit test precedes the body, kstar+1 otherwise
    header = lp.name
    body_after = all(st.inst and block_reaches(lp.exit_block, L.bb_parent(st.inst), header)
                     or (lp.exit_block == header and L.bb_parent(st.inst) != header) for st in outs)
    body_before = all(not (lp.exit_block == header and L.bb_parent(st.inst) != header) and
                      not block_reaches(lp.exit_block, L.bb_parent(st.inst), header) for st in outs)
    if body_after:
        total = lp.kstar
    elif body_before:
        total = lp.kstar + one
    else:
        r.unknown.append('stores on both sides of the exit test')
        return r
    # the guard of the loop, as a set of excluded counts
    zero_guarded = (lp.guard - (one - ctx.is_zero_pred(n))).is_zero()
    neg = one - ctx.is_neg(-n)
    if not (lp.guard - one).is_zero() and not zero_guarded:
        g2 = lp.guard - ctx.is_neg(-n)
        if not g2.is_zero():
            bad = guard_witness(ctx, lp, n)
            if bad is not None:
                r.bad.append(('count = %d' % bad, 'no element is processed', K.blame_of(outs[0].inst)))
            else:
                r.unknown.append('guard of the element loop: %s' % K.clip(lp.guard))
            return r
        zero_guarded = True
    if not (total - n).is_zero():
        w = None
        d = total - n
        if off_const(d) is not None:
            w = 'processes count%+d elements' % int(off_const(d))
        else:
            w = 'processes %s elements instead of count' % K.clip(total)
            pt = K.differ(ctx, total, n)
            if pt is None:
                w = None
        if w:
            r.bad.append(('range', w, K.blame_of(outs[0].inst)))
            return r
    if body_before and not zero_guarded:
        r.bad.append(('count = 0', 'one element is written', K.blame_of(outs[0].inst)))
        return r
    if lp.exit_form in ('eq',) and not unit_step(a, lp, esz):
        r.notes.append('equality exit test')
    # element written by each store
    lanes_by_index = {}
    allowed = [one - lp.exit_pred, one]
    for st in outs:
        base = st.off
        s1, c1 = a.split_k(base, lp.kvar)
        if s1 is None or not s1.is_const():
            r.unknown.append('store at %s is not affine' % st.off)
            return r
        cst = c1.num.get(0, 0) if not c1.den else None
        if cst is None:
            r.unknown.append('store at %s' % st.off)
            return r
        lane = int(cst) % esz
        idx = (base - lane) * ctx.const(Fraction(1, esz))
        up = (idx - k).is_zero()
        down = (idx - (n - one - k)).is_zero()
        if not up and not down:
            r.bad.append(('element %s' % idx, 'is written in iteration %s' % k, K.blame_of(st.inst)))
            return r
        if lane % 4 or st.size != 4:
            r.unknown.append('store of %d bytes at lane offset %d' % (st.size, lane))
            return r
        if not any((st.cond - c).is_zero() for c in allowed):
            pt = cond_witness(ctx, lp, st, total, n)
            if pt:
                r.bad.append(('element %d of %d' % pt, 'is not updated', K.blame_of(st.inst)))
            else:
                r.unknown.append('conditional element update: %s' % K.clip(st.cond))
            return r
        lanes_by_index[lane // 4] = (st, idx, 'up' if up else 'down')
    idx = None
    for i in range(len(lay)):
        if i not in lanes_by_index:
            if lay[i] is None:
                continue
            r.bad.append((lay[i], 'of every element is never written', '?'))
            continue
        st, idx, _ = lanes_by_index[i]
    if r.bad:
        return r
    if len({d for _, _, d in lanes_by_index.values()}) != 1:
        r.unknown.append('mixed directions')
        return r
    # expected element value as a function of the input element
    xl = []
    for i, b in enumerate(lay):
        w = K.elem_symbol(ctx, idx * ctx.const(esz) + ctx.const(4 * i), esz, s, e)
        xl.append(w[1])
    e.vals['x'] = lanes_to_mv(ctx, x, xl)
    e.lanes['x'] = xl
    want = mv_to_lanes(ctx, x, s.exp(e))
    for i, b in enumerate(lay):
        if i not in lanes_by_index:
            continue
        st = lanes_by_index[i][0]
        lab = b or 'lane %d' % i
        w = st.word
        bl = K.blame_of(st.inst)
        if w[0] == 'U':
            r.bad.append((lab, 'is an uninitialised value', bl))
            continue
        if w[0] == 'N':
            r.bad.append((lab, 'is not a finite number (%s)' % w[1], bl))
            continue
        if w[0] == '?':
            if any(w[1].startswith(d) for d in DEFINITE):
                r.bad.append((lab, w[1], bl))
            else:
                r.unknown.append('%s: %s' % (lab, w[1]))
            continue
        try:
            v = a.toF(w)
        except (Unsupported, UndefUse, NonFinite) as ex:
            r.unknown.append('%s: %s' % (lab, ex))
            continue
        if K.depends_on_undef(ctx, v):
            r.bad.append((lab, 'is an uninitialised value on some path', bl))
            continue
        if any(ctx.kinds[z][0] == 'carried' for z in v.vars()):
            r.bad.append((lab, 'depends on a value carried from the previous iteration', bl))
            continue
        if b is None:
            continue
        r.words.append(v)
        ep = v.errpart() + v.decided_by_error()
        if not ep.is_zero():
            r.err.append((lab, ep, bl))
        d = K.same_value(ctx, v, want[i], r) or K.undefined_at(ctx, v, want)
        if d:
            r.bad.append((lab, d, bl))
    # restrict-qualified accesses that overlap when in == out
    if inplace:
        for st, ld in a.alias_conflicts:
            r.bad.append(('in == out', 'the store at %s is declared not to alias the load at %s' % (
                K.blame_of(st), K.blame_of(ld)), K.blame_of(st)))
            break
        else:
            for st in outs:
                for (obj, off, size, align, inst) in a.loads:
                    if obj == 'out' and declared_noalias(a, st.inst, inst):
                        r.bad.append(('in == out', 'the element is loaded through a pointer declared not to alias '
                                      'the output', K.blame_of(st.inst)))
                        break
                else:
                    continue
                break
    r.info = {'stores': len(outs), 'loads': len(a.loads), 'events': len(a.events)}
    return r


COUNT_OPS = ('icmp', 'switch', 'and', 'urem', 'udiv', 'lshr', 'shl', 'sub', 'add', 'mul', 'or', 'xor', 'select', 'phi', 'zext',
             'sext', 'trunc', 'freeze')
MAX_COUNT = 1100


def special_counts(s, mod, done):
    """Element counts around the constants the code compares the count with or divides it by:
    when the element loop is not summarised as a whole, these are analysed one by one."""
    f = mod.function(s.id)
    found, blocks = set(), set()
    ints = [i for b in L.blocks(f) for i in L.insts(b) if L.op(i) in COUNT_OPS]
    for i in ints:
        o = L.op(i)
        for k in range(L.num_operands(i)):
            c = L.operand(i, k)
            if not L.is_const_int(c):
                continue
            v = L.const_sext(c)
            if o in ('icmp', 'switch', 'phi', 'select', 'sub', 'add', 'xor'):
                found.add(abs(v))
                if o in ('add', 'sub') and abs(v) > 1:
                    blocks.add(abs(v))
            elif o == 'lshr' and 0 < v < 12:
                blocks.add(1 << v)
            elif o in ('urem', 'udiv'):
                blocks.add(abs(v))
            elif o == 'and' and v:
                blocks.add(v & -v if v < 0 else v + 1)
                if v > 0 and v + 1 & v:
                    blocks.add(v & -v)
    want = set()
    for c in found:
        want |= {c - 1, c, c + 1}
    for c in blocks:
        want |= {c - 1, c, c + 1, 2 * c - 1, 2 * c, 2 * c + 1}
        for d in found:
            if 1 < c <= 8:
                want |= {d + j for j in range(c + 1)}
    out, total = [], 0
    for c in sorted(want, key=lambda c: (c not in found and c not in blocks, c)):
        if 0 <= c <= MAX_COUNT and c not in done and total + c <= 2 * MAX_COUNT:
            out.append(c)
            total += c
    return sorted(out)[:32]


def run_fixed(s, mod, c, general=False):
    """(bad, unknown) of the array form for a constant element count c"""
    ctx = Ctx()
    e = K.make_env(s, ctx)
    x = s.args[1][1]
    esz, lay = SIZE[x], LAYOUT[x]
    inplace = s.kind == 'array-inplace'
    data = 'out' if inplace else 'x'
    elems = [[ctx.sym('x[%d].%s' % (j, b)) if b else ctx.zero for b in lay] for j in range(c)]

    def init(obj, off, size):
        o = off_const(off)
        if o is None or o % 4 or size != 4 or o < 0:
            return None
        if obj == 't' and o // 4 < len(e.lanes['t']):
            return ('F', e.lanes['t'][int(o) // 4])
        if obj == data and o < c * esz:
            return ('F', elems[int(o) // esz][int(o) % esz // 4])
        return None
    args = [('P', 'out', ctx.zero), ('P', 't', ctx.zero)]
    if not inplace:
        args.append(('P', 'x', ctx.zero))
    bad, unknown, nob = [], [], 0
    lab0 = 'count = %d' % c
    try:
        if general:
            a = K.Analyzer(mod, mod.function(s.id), ctx, init)
            a.UNROLL = 4 * c + 64
            args.append(('I', ctx.const(c)))
        else:
            a = K.Analyzer(mod, mod.function('%s_n%d' % (s.id, c)), ctx, init)
        a.run(args)
    except UndefUse:
        return [(lab0, 'depends on an uninitialised value', '?')], [], 0
    except NonFinite as ex:
        return [(lab0, 'depends on a non-finite value (%s)' % ex, '?')], [], 0
    except Unsupported as ex:
        if 'undefined value' in str(ex):
            return [(lab0, str(ex), '?')], [], 0
        return [], ['%s: %s' % (lab0, ex)], 0
    for st in a.stores:
        if st.obj != 'out':
            bad.append((lab0, 'operand %s is written' % (st.obj,), K.blame_of(st.inst)))
        else:
            o = off_const(st.off)
            if o is None or o < 0 or o + st.size > c * esz:
                bad.append((lab0, 'writes at byte offset %s, outside the %d elements' % (st.off, c),
                            K.blame_of(st.inst)))
    for (obj, off, size, align, inst) in a.loads:
        o = off_const(off)
        if obj == data and (o is None or o < 0 or o + size > c * esz):
            bad.append((lab0, 'reads at byte offset %s, outside the %d elements' % (off, c), K.blame_of(inst)))
    if bad:
        return bad, unknown, nob
    cells = a.mem.cells.get('out', {})
    for j in range(c):
        e.vals['x'] = lanes_to_mv(ctx, x, elems[j])
        e.lanes['x'] = elems[j]
        want = mv_to_lanes(ctx, x, s.exp(e))
        for i, b in enumerate(lay):
            if b is None:
                continue
            nob += 1
            lab = 'count = %d, element %d, %s' % (c, j, b)
            hit = cells.get(okey(ctx.const(j * esz + 4 * i)))
            if hit is None:
                if inplace:
                    v, inst = elems[j][i], None
                else:
                    bad.append((lab, 'is never written', '?'))
                    continue
            else:
                _, w, _, inst = hit
                if w[0] == 'U':
                    bad.append((lab, 'is an uninitialised value', K.blame_of(inst)))
                    continue
                if w[0] == 'N':
                    bad.append((lab, 'is not a finite number (%s)' % w[1], K.blame_of(inst)))
                    continue
                try:
                    v = a.toF(w)
                except (Unsupported, UndefUse, NonFinite) as ex:
                    unknown.append('%s: %s' % (lab, w[1] if w[0] == '?' else ex))
                    continue
            if K.depends_on_undef(ctx, v):
                bad.append((lab, 'is an uninitialised value on some path', K.blame_of(inst)))
                continue
            d = K.same_value(ctx, v, want[i]) or K.undefined_at(ctx, v, want)
            if d:
                bad.append((lab, d, K.blame_of(inst)))
    if inplace and not bad:
        for st, ld in a.alias_conflicts:
            bad.append((lab0 + ', in == out', 'the store at %s is declared not to alias the load at %s' % (
                K.blame_of(st), K.blame_of(ld)), K.blame_of(st)))
            break
    return bad, unknown, nob


def declared_noalias(a, st, ld):
    m = a.mod
    try:
        ls, ln = set(L.scopes(ld, m.kscope)), set(L.scopes(ld, m.knoalias))
        ss, sn = set(L.scopes(st, m.kscope)), set(L.scopes(st, m.knoalias))
    except Exception:
        return False
    return bool((ls and ls <= sn) or (ss and ss <= ln))


def unit_step(a, lp, esz):
    return True


def guard_witness(ctx, lp, n):
    nv = next(iter(n.vars()))
    for c in range(1, 33):
        try:
            if lp.guard.evalf({nv: float(c)}) == 0:
                return c
        except Exception:
            return None
    return None


def cond_witness(ctx, lp, st, total, n):
    nv = next(iter(n.vars()))
    for c in range(1, 17):
        for k in range(c):
            try:
                if st.cond.evalf({nv: float(c), lp.kvar: float(k)}) == 0:
                    return k, c
            except Exception:
                return None
    return None
