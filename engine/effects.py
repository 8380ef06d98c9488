"""Effect analysis: every instruction of every analysed entry point (library code
inlined) is classified by what it may write, read, allocate or call."""
import ctypes as C
import re
import llvm as L
import build

PURE_CALLS = {f + s for f in ('sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'fabs', 'copysign',
                              'fmin', 'fmax', 'hypot', 'floor', 'ceil', 'round', 'trunc', 'exp', 'log', 'pow',
                              'fmod', 'sincos', 'cbrt', 'fma', 'rint', 'nearbyint', 'sinh', 'cosh', 'tanh')
              for s in ('', 'f', 'l')}
PURE_INTRINSICS = ('llvm.x86.sse', 'llvm.x86.avx', 'llvm.x86.fma', 'llvm.sqrt', 'llvm.fabs', 'llvm.sin', 'llvm.cos',
                   'llvm.dbg', 'llvm.lifetime', 'llvm.experimental.noalias.scope.decl', 'llvm.assume', 'llvm.fma',
                   'llvm.fmuladd', 'llvm.copysign', 'llvm.minnum', 'llvm.maxnum', 'llvm.umin', 'llvm.umax',
                   'llvm.smin', 'llvm.smax', 'llvm.abs', 'llvm.vector.reduce', 'llvm.expect', 'llvm.floor',
                   'llvm.ceil', 'llvm.trunc', 'llvm.round', 'llvm.rint', 'llvm.nearbyint', 'llvm.is.constant',
                   'llvm.objectsize', 'llvm.ctpop', 'llvm.exp', 'llvm.log', 'llvm.pow', 'llvm.is.fpclass',
                   'llvm.invariant', 'llvm.launder', 'llvm.strip', 'llvm.tan', 'llvm.acos', 'llvm.asin',
                   'llvm.atan', 'llvm.prefetch', 'llvm.uadd', 'llvm.usub', 'llvm.sadd', 'llvm.ssub')
IMPURE_INTRINSICS = ('llvm.x86.sse.ldmxcsr', 'llvm.x86.sse.stmxcsr', 'llvm.x86.sse.sfence', 'llvm.x86.sse2.lfence',
                     'llvm.x86.sse2.mfence', 'llvm.x86.sse2.clflush', 'llvm.x86.sse2.pause', 'llvm.x86.sse2.maskmov')


def roots(p, params, seen=None):
    """set of ('arg', k) | ('alloca', inst) | ('global', name, const) | ('?', text) a pointer may be based on"""
    seen = set() if seen is None else seen
    if p in seen:
        return set()
    seen.add(p)
    if p in params:
        return {('arg', params[p])}
    if L.is_global_var(p):
        return {('global', L.name(p), bool(L.is_global_const(p)))}
    if L.is_function(p):
        return {('function', L.name(p))}
    if L.is_const_expr(p):
        return roots(L.operand(p, 0), params, seen)
    if L.is_null(p) or L.is_undef(p):
        return {('null',)}
    if L.is_inst(p):
        o = L.op(p)
        if o == 'alloca':
            return {('alloca', p)}
        if o in ('gep', 'bitcast', 'addrspacecast', 'freeze', 'inttoptr', 'ptrtoint', 'add', 'sub', 'and', 'or'):
            return roots(L.operand(p, 0), params, seen)
        if o == 'phi':
            return set().union(*[roots(L.incoming_value(p, k), params, seen) for k in range(L.count_incoming(p))])
        if o == 'select':
            return roots(L.operand(p, 1), params, seen) | roots(L.operand(p, 2), params, seen)
        if o == 'load':
            return {('loaded', p)}
        if o == 'call':
            return {('call', p)}
    return {('?', L.text(p)[:80])}


class Effects:
    def __init__(self):
        self.bad = []        # (message, where)
        self.unknown = []
        self.counts = {'instructions': 0, 'stores': 0, 'loads': 0, 'calls': 0, 'functions': 0}


def where(i):
    fr = build.klein_frames(i)
    return ' <- '.join('%s:%d' % x for x in fr) or '?'


def scan(mod, f, writable, argnames, eff, done=None):
    """effects of function f and of the defined functions it calls.
    writable: argument numbers the entry point may store through"""
    done = set() if done is None else done
    if L.name(f) in done:
        return
    done.add(L.name(f))
    eff.counts['functions'] += 1
    params = {L.get_param(f, k): k for k in range(L.count_params(f))}

    def store_to(p, i, what):
        for r in roots(p, params):
            if r[0] == 'alloca' or r[0] == 'null':
                continue
            if r[0] == 'arg':
                if writable is None or r[1] in writable:
                    continue
                eff.bad.append(('%s operand "%s"' % (what, argnames.get(r[1], r[1])), where(i)))
            elif r[0] == 'global':
                eff.bad.append(('%s static storage "%s"' % (what, r[1]), where(i)))
            elif r[0] == 'function':
                eff.bad.append(('%s code' % what, where(i)))
            else:
                eff.unknown.append('%s memory of unknown origin at %s' % (what, where(i)))

    def load_from(p, i):
        for r in roots(p, params):
            if r[0] == 'global' and not r[2]:
                eff.bad.append(('reads mutable static storage "%s"' % r[1], where(i)))
            elif r[0] in ('loaded', 'call', '?'):
                eff.unknown.append('reads memory of unknown origin at %s' % where(i))

    for b in L.blocks(f):
        for i in L.insts(b):
            o = L.op(i)
            eff.counts['instructions'] += 1
            if o == 'store':
                eff.counts['stores'] += 1
                store_to(L.operand(i, 1), i, 'writes')
                if L.is_volatile(i):
                    eff.bad.append(('volatile access', where(i)))
                for r in (roots(L.operand(i, 0), params) if L.kind(L.typeof(L.operand(i, 0))) == 'ptr' else ()):
                    if r[0] in ('arg', 'alloca'):
                        dst = roots(L.operand(i, 1), params)
                        if any(d[0] in ('arg', 'global') for d in dst):
                            eff.bad.append(('lets an address escape', where(i)))
            elif o == 'load':
                eff.counts['loads'] += 1
                load_from(L.operand(i, 0), i)
                if L.is_volatile(i):
                    eff.bad.append(('volatile access', where(i)))
            elif o in ('fence', 'cmpxchg', 'atomicrmw'):
                eff.bad.append(('synchronises with other threads (%s)' % o, where(i)))
            elif o in ('call', 'invoke', 'callbr'):
                eff.counts['calls'] += 1
                cv = L.called_value(i)
                if not L.is_function(cv):
                    t = L.text(i)
                    if ' asm ' in t:
                        if 'sideeffect' in t or '~{memory}' in t:
                            eff.bad.append(('inline assembly with side effects', where(i)))
                        else:
                            eff.unknown.append('inline assembly at %s' % where(i))
                    else:
                        eff.unknown.append('indirect call at %s' % where(i))
                    continue
                n = L.name(cv)
                if n.startswith('llvm.'):
                    if n.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                        store_to(L.operand(i, 0), i, 'writes')
                        if not n.startswith('llvm.memset'):
                            load_from(L.operand(i, 1), i)
                    elif n.startswith(('llvm.masked.store', 'llvm.x86.sse.storeu', 'llvm.x86.sse2.storeu')):
                        store_to(L.operand(i, 0 if 'x86' in n else 1), i, 'writes')
                    elif n.startswith(IMPURE_INTRINSICS):
                        eff.bad.append(('touches processor state (%s)' % n, where(i)))
                    elif n.startswith(('llvm.trap', 'llvm.ubsantrap', 'llvm.debugtrap')):
                        eff.bad.append(('ends the program (%s)' % n, where(i)))
                    elif not n.startswith(PURE_INTRINSICS):
                        eff.unknown.append('intrinsic %s at %s' % (n, where(i)))
                    continue
                if n in PURE_CALLS:
                    if n.startswith('sincos'):
                        store_to(L.operand(i, 1), i, 'writes')
                        store_to(L.operand(i, 2), i, 'writes')
                    continue
                if L.is_declaration(cv):
                    eff.bad.append(('calls %s' % n, where(i)))
                else:
                    k = len(eff.bad)
                    scan(mod, cv, None, {}, eff, done)
            elif o == 'unreachable':
                pass
            elif o in ('resume', 'landingpad'):
                eff.bad.append(('may unwind', where(i)))


# ------------------------------------------------------------------ entry points operating on the caller's objects
MUTATING = re.compile(r'::(operator(\+|-|\*|/)?=|normalize\(\)|invert\(\)|constrain\(\)|load|load_normalized)')


def is_mutator(s):
    return bool(MUTATING.search(s.name)) or bool(re.search(r'\ba\.(normalize|invert|constrain)\(\)|\ba ?[-+*/]?= ', s.code))


def ref_wrapper(s, mutable):
    import check as K
    from specs import ctype
    if s.kind.startswith('array'):
        t, x = s.args[0][1], s.args[1][1]
        if s.kind == 'array-inplace':
            return ('extern "C" void %s(kln::%s* out, kln::%s const* p_t, std::size_t n)'
                    '{ kln::%s const& t = *p_t; t(out, out, n); }' % (s.id, x, t, t)), {0: 'out', 1: 't'}, {0}
        return ('extern "C" void %s(kln::%s* out, kln::%s const* p_t, kln::%s* x, std::size_t n)'
                '{ kln::%s const& t = *p_t; t(x, out, n); }' % (s.id, x, t, x, t)), {0: 'out', 1: 't', 2: 'in'}, {0}
    ps, pre = [], ''
    names, wr = {0: 'out'}, {0}
    ps.append('float* out' if s.ret in ('f4', 'f8') else '%s* out' % ctype(s.ret))
    for k, (n, t) in enumerate(s.args):
        names[k + 1] = n
        if t in K.SCALAR:
            ps.append('%s %s' % (t, n))
        elif t in ('f4', 'f8'):
            ps.append('float* %s' % n)
        elif mutable and k == 0:
            ps.append('%s* p_%s' % (ctype(t), n))
            pre += '%s& %s = *p_%s; ' % (ctype(t), n, n)
            wr.add(k + 1)
        else:
            ps.append('%s const* p_%s' % (ctype(t), n))
            pre += '%s const& %s = *p_%s; ' % (ctype(t), n, n)
    post = '' if s.ret in ('f4', 'f8') else ' *out = r;'
    return 'extern "C" void %s(%s){ %s%s%s }' % (s.id, ', '.join(ps), pre, s.code, post), names, wr


def const_failures(specs, cfg):
    """specs whose const-operand entry point does not compile, with the diagnostics"""
    import check as K
    head = K.HEADER.count('\n')
    src = K.HEADER + '\n'.join(ref_wrapper(s, False)[0] for s in specs) + '\n'
    import os
    p = os.path.join(build.workdir(), 'const-%s.cpp' % cfg)
    with open(p, 'w') as fh:
        fh.write(src)
    r = build.run([build.CLANG, '-fsyntax-only', '-ferror-limit=0', '-w'] + build.CONFIGS[cfg] +
                  build.simde_flag(cfg) + build.includes() + [p])
    fails = {}
    for m in re.finditer(r'^%s:(\d+):\d+: error: (.*)$' % re.escape(p), r.stdout + r.stderr, re.M):
        k = int(m.group(1)) - head - 1
        if 0 <= k < len(specs):
            fails.setdefault(k, m.group(2))
    if r.returncode and not fails:
        raise build.BuildError('entry points do not compile:\n' + (r.stdout + r.stderr)[:3000])
    return fails


def run(specs, cfg):
    """(bad [(spec name, message, where)], unknown, counts)"""
    import check as K
    fails = const_failures(specs, cfg)
    bad, unknown = [], []
    src, meta = [], []
    for k, s in enumerate(specs):
        if k in fails:
            w = ref_wrapper(s, True)
            if not is_mutator(s):       # an observer that merely lacks the const qualifier
                w = w[0], w[1], {0}
        else:
            w = ref_wrapper(s, False)
        src.append(w[0])
        meta.append((s, w[1], w[2]))
    text = K.HEADER + '\n'.join(src) + '\n'
    mod = build.compile_ir('eff-' + cfg, text, [x for x in build.BASE if x != '-fno-exceptions'] + ['-fexceptions'] +
                           build.CONFIGS[cfg] + build.simde_flag(cfg))
    tot = {}
    for s, names, wr in meta:
        e = Effects()
        f = mod.function(s.id)
        if not f:
            unknown.append('%s: entry point missing' % s.name)
            continue
        scan(mod, f, wr, names, e)
        seen = set()
        for m, w in e.bad:
            if (m, w) not in seen:
                seen.add((m, w))
                bad.append((s.name, m, w))
        unknown += ['%s: %s' % (s.name, u) for u in e.unknown]
        for k, v in e.counts.items():
            tot[k] = tot.get(k, 0) + v
    tot['entry points'] = len(meta)
    tot['entry points with constant operands'] = len(specs) - len(fails)
    return bad, unknown, tot
