"""Tokenizer and parser of the symbolic utility: bounds, progress, recursion depth, basis
indices and completeness, decided by dataflow over their LLVM IR."""
import os
import re
import subprocess
import build
import llvm as L
import linear as N
from flow import FULL, Flow, State, GiveUp, CTYPE, lit

SOURCES = ['parser.cpp', 'ga.cpp', 'poly.cpp']
FLAGS = ['-std=c++17', '-msse4.2', '-O1', '-Xclang', '-disable-llvm-passes', '-DNDEBUG', '-g', '-w',
         '-fno-discard-value-names']
LINK = next((p for p in ('/usr/lib/llvm-18/bin/llvm-link', '/usr/bin/llvm-link-18') if os.path.exists(p)), 'llvm-link')
PASSES = ('cgscc(inline),globaldce,function(sroa,early-cse<memssa>,simplifycfg,jump-threading,simplifycfg,lcssa)')
TOKENIZE = '_Z8tokenizeRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERK7algebra'
PARSE = '_Z5parseRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERK7algebra'
CTOR = '_ZN7algebraC2Ejjj'


def is_std(n):
    return bool(re.match(r'@?_Z(N|NK|ZN|ZNK)?(S[a-z]|\d+__gnu_cxx|S_)', n) or re.match(r'@?_Z(N|NK)?9__gnu_cxx', n))


def compile_sym(name):
    w = build.workdir()
    src = '%s/sym/%s' % (build.REPO, name)
    out = os.path.join(w, name + '.raw.ll')
    r = build.run([build.CLANG] + FLAGS + ['-I%s/sym' % build.REPO, '-I%s' % build.REPO, '-S', '-emit-llvm', src, '-o', out])
    if r.returncode:
        raise build.BuildError('%s does not compile:\n%s' % (src, r.stderr[:3000]))
    return out


def definitions(t):
    defs = {}
    for m in re.finditer(r'^define [^\n]*?(@[\w.$]+)\([^\n]*\{\n(.*?)^\}', t, flags=re.S | re.M):
        body = m.group(2)
        calls = set(re.findall(r'(?:call|invoke) [^\n@]*(@[\w.$]+)\(', body))
        defs[m.group(1)] = (calls, '!llvm.loop' in body)
    return defs


def prepare(files, roots_file, tag):
    """linked module in which the functions of one source file are inlined into each other"""
    w = build.workdir()
    raw, out = os.path.join(w, tag + '.link.ll'), os.path.join(w, tag + '.bc')
    if len(files) > 1:
        r = build.run([LINK, '-S'] + files + ['-o', raw])
        if r.returncode:
            raise build.BuildError('llvm-link failed: ' + r.stderr[:2000])
        t = open(raw).read()
    else:
        t = open(files[0]).read()
    own = {n for n in definitions(open(roots_file).read()) if not is_std(n)}
    defs = definitions(t)
    memo = {}

    def leaf(n, seen=()):
        if n.startswith('@llvm.'):
            return True
        if n not in defs or n in seen:
            return False
        if n not in memo:
            c, l = defs[n]
            memo[n] = not l and all(leaf(x, seen + (n,)) for x in c)
        return memo[n]

    def reach(a):
        s, todo = set(), list(defs[a][0])
        while todo:
            x = todo.pop()
            if x in defs and x not in s:
                s.add(x)
                todo += defs[x][0]
        return s
    recursive = {n for n in defs if n in reach(n)}
    keep = {n for n in defs if n not in own and not leaf(n)} | recursive
    keep |= {n for n in own if n in ('@' + TOKENIZE, '@' + PARSE)}
    lines = []
    for l in t.split('\n'):
        if l.startswith('define '):
            m = re.match(r'define [^\n]*?(@[\w.$]+)\(', l)
            if m and m.group(1) in keep:
                l = re.sub(r'\) ((?:local_)?unnamed_addr )?#(\d+)', r') \1noinline #\2', l, count=1)
        lines.append(l)
    t = '\n'.join(lines)
    t = re.sub(r', !llvm\.loop !\d+', '', t)
    t = re.sub(r'^(attributes #\d+ = \{.*)$',
               lambda m: re.sub(r'\b(noinline|alwaysinline|optnone)\b ?', '', m.group(1)), t, flags=re.M)
    with open(raw, 'w') as f:
        f.write(t)
    r = build.run([build.OPT, '-passes=' + PASSES, '-jump-threading-threshold=10000',
                   '-inline-threshold=100000000', raw, '-o', out])
    if r.returncode:
        raise build.BuildError('opt failed: ' + r.stderr[:2000])
    return out, t, {n[1:] for n in recursive & own}, {n[1:] for n in own}


def layout(t):
    """token layout and the values of its type tag, from the debug information"""
    md = {}

    def get(ref):
        if ref not in md:
            m = re.search(r'^%s = (.*)$' % re.escape(ref), t, flags=re.M)
            md[ref] = m.group(1) if m else ''
        return md[ref]
    m = re.search(r'DW_TAG_enumeration_type, name: "token_type".*?size: (\d+).*?elements: (!\d+)', t)
    s = re.search(r'DW_TAG_structure_type, name: "token", .*?size: (\d+).*?elements: (!\d+)', t)
    if not m or not s:
        return None
    vals = {}
    for e in re.findall(r'!\d+', get(m.group(2))):
        x = re.search(r'DIEnumerator\(name: "(\w+)", value: (\d+)', get(e))
        if x:
            vals[x.group(1)] = int(x.group(2))
    off = None
    for e in re.findall(r'!\d+', get(s.group(2))):
        x = get(e)
        if 'DW_TAG_member' in x and 'name: "type"' in x:
            o = re.search(r'offset: (\d+)', x)
            off = int(o.group(1)) // 8 if o else 0
    if off is None or 'eof' not in vals or not vals:
        return None
    return {'size': int(s.group(1)) // 8, 'type': off, 'type_size': int(m.group(1)) // 8,
            'count': max(vals.values()) + 1, 'eof': vals['eof'], 'values': vals}


class Sym(Flow):
    def __init__(self, mod, enum, pss=None):
        Flow.__init__(self, mod, enum)
        self.pss = pss
        self.npush = 0
        self.stored = {}

    # ---------------------------------------------------------- events
    def extern(self, n, st, nm, args):
        if nm == TOKENIZE and args[0][0] == 'P':
            r = args[0][1]
            st.mem[(r, args[0][2])] = (('P', 'tok', N.const(0)), 8)
            st.mem[(r, N.shift(args[0][2], 8))] = (('P', 'tok', N.sym('LAST', self.enum['size'], self.enum['size'])), 8)
            return None
        if ('emplace_back' in nm or 'push_back' in nm) and 'token' in nm and len(args) == 2:
            self.push(n, st, args[1])
            if n.kind != 'void':
                st.env[n.i] = self.opaque()
            return None
        return NotImplemented

    def push(self, n, st, p):
        self.npush += 1
        v = self.enum['values']
        names = {x: k for k, x in v.items()}
        if p[0] != 'P' or p[1] in ('in', 'tok'):
            st.pushes += (None,)
            return
        reads = st.reads

        def field(off, size):
            c = st.mem.get((p[1], N.shift(p[2], off)))
            if c and c[1] == size:
                return c[0]
            return self.load(st, ('P', p[1], N.shift(p[2], off)), size, 8 * size, n)
        t = self.simplify(st, field(self.enum['type'], self.enum['type_size']))
        kind = names.get(t[1][0]) if t[0] == 'L' and not t[1][1] else None
        ev = {'kind': kind}
        if kind == 'element' and self.pss is not None:
            b = self.bits(st, field(0, 4))
            if b is None:
                self.note('index', 'note', 'the basis indices of the element are not tracked', n)
            elif b & ~self.pss:
                if st.taint:
                    self.note('index', 'note', 'a basis index outside the algebra is not excluded', n)
                else:
                    self.note('index', 'bad', 'an element token may carry the basis index %d, which the algebra '
                              '(dimension %d) does not have' % ((b & ~self.pss).bit_length() - 1,
                                                                self.pss.bit_length()), n)
            else:
                self.note('index', 'ok', '', n)
        elif kind == 'identifier':
            d, s = field(0, 8), field(8, 8)
            if d[0] == 'P' and d[1] == 'in':
                e = self.lin(st, s)
                ev['data'], ev['end'] = d[2], N.add(d[2], e)
                ok = True
                for x, what in ((d[2], 'starts before'), (e, 'has a negative length in'),
                                (N.sub(N.sym('LEN'), ev['end']), 'ends past')):
                    if self.ge(st, x):
                        continue
                    ok = False
                    if not st.taint and (not self.is_weak(x) or not N.possible(st.cons, x)):
                        self.note('bounds', 'bad', 'an identifier token %s the input text' % what, n)
                    else:
                        self.note('bounds', 'note', 'an identifier is not shown to lie inside the input text', n)
                if ok:
                    self.note('bounds', 'ok', '', n)
        elif kind in ('delimiter', 'op'):
            ev['char'] = field(0, 1)
        st.reads = reads
        st.pushes += (tuple(sorted(ev.items(), key=repr)),)

    def positions(self, st, h):
        out = []
        for n in self.fn.code[h]:
            if n.op != 'phi':
                break
            v = st.env.get(n.i)
            if v and v[0] == 'P' and v[1] == 'in':
                out.append((n.i, v[2]))
        return out

    def outer(self):
        loops = self.fn.loops
        return [h for h in loops if not any(h in b and g != h for g, b in loops.items())]

    chars = None            # characters the tokenizer stores in operators and delimiters

    def passed(self, s, rv=None):
        """tokens the parser advances over: their content has been looked at"""
        looked = {k[1] for k in s.reads if k[0] == 'content'}
        for k in s.reads:
            if k[0] != 'passed' or k[1] is None:
                continue
            loc = ('tok', k[1], 'type')
            m = self.mask(s, loc) & ~(1 << self.enum['eof'])
            if k[1] in looked:
                self.note('complete', 'ok', '', k[2])
                self.distinct(s, k, m, rv)
            elif m != self.full(loc) & ~(1 << self.enum['eof']) and m and not self.blocked(s):
                self.note('complete', 'bad', 'a token is skipped without looking at its content', k[2])
            else:
                self.note('complete', 'note', 'a token is passed and its content not seen to be used', k[2])

    def distinct(self, s, k, kinds, rv):
        """an operator the parser advances over has had its own effect"""
        v = self.enum['values']
        kind = next((x for x in ('op', 'delimiter') if kinds == 1 << v.get(x, 99)), None)
        chars = (self.chars or {}).get(kind)
        if not chars:
            return
        locs = [l for l in s.masks if l[0] == 'tok' and l[1] == k[1] and isinstance(l[2], int)]
        m = s.masks[locs[0]] & chars if len(locs) == 1 else chars if not locs else 0
        if not m or not m & (m - 1):
            return
        held = [c[0] for c in s.mem.values()] + [rv] + [x for i, x in s.env.items()
                                                        if i in self.fn.where and self.fn.where[i].op == 'phi']
        msg = 'the tokens %s are passed over alike, whichever of them it is' % \
            ' '.join(chr(x) for x in range(256) if m >> x & 1)
        if ('escape', k[1]) in s.reads or any(x[1] == k[1] for y in held if y is not None for x in self.tokens(y)) \
                or m == chars or self.blocked(s):        # tested by a previous iteration, or nowhere
            self.note('complete', 'note', msg, k[2])
        else:
            self.note('complete', 'bad', msg, k[2])

    def around(self, h, head, back):
        """one iteration of the scanning loop: what it consumed is white space or became a token"""
        self.passed(back)
        if self.fn.name != TOKENIZE or h not in self.outer():
            return
        n = self.fn.code[h][-1]
        old = dict(self.positions(head, h))
        moved = []
        for k, e in self.positions(back, h):
            if k in old and not (self.ge(back, N.sub(e, old[k])) and self.ge(back, N.sub(old[k], e))):
                moved.append((old[k], e))
        if len(moved) != 1 or any(p is None for p in back.pushes) or back.unknown:
            return
        a, b = moved[0]
        d = N.sub(b, a)
        conv = [p for p in back.pushes if p[:1] == ('strto',)]
        evs = [dict(p) for p in back.pushes if p[:1] != ('strto',)]

        def bad(msg):
            if back.taint:
                self.note('complete', 'note', msg, n)
            else:
                self.note('complete', 'bad', msg, n)
        if any(e['kind'] == 'eof' for e in evs):
            bad('an end marker is stored before the end of the text: what follows it is ignored')
            return
        if not evs:
            if not d[1] and d[0] > 0:
                for k in range(d[0]):
                    m = self.mask(back, ('in', N.shift(a, k)))
                    out = [x for x in range(256) if m >> x & 1 and x not in CTYPE['isspace']]
                    if out:
                        bad('the character %r is consumed without a token' % chr(out[0]))
                        return
                self.note('complete', 'ok', '', n)
            else:
                self.note('complete', 'note', 'text consumed without a token is not shown to be white space', n)
            return
        if len(evs) == 1 and evs[0]['kind'] in ('delimiter', 'op'):
            c = evs[0]['char']
            x = self.mask(back, c[1]) if c[0] == 'B' else 1 << (c[1][0] & 255) if c[0] == 'L' and not c[1][1] else None
            self.stored.setdefault(evs[0]['kind'], []).append(x if x != FULL else None)
            if not N.possible(back.cons, N.shift(N.scale(d, -1), 1)):
                bad('more than the one character of an operator token is consumed')
            elif c[0] == 'B' and c[1] == ('in', a) and not d[1] and c[2] == tuple(range(256)) or \
                    c[0] == 'L' and self.mask(back, ('in', a)) == 1 << (c[1][0] & 255):
                self.note('complete', 'ok', '', n)
            else:
                self.note('complete', 'note', 'operator token not matched with its character', n)
            return
        if len(evs) == 1 and evs[0]['kind'] == 'identifier' and 'end' in evs[0]:
            for x, y, what in ((evs[0]['data'], a, 'start'), (b, evs[0]['end'], 'end')):
                e = N.sub(x, y)
                if self.ge(back, e) and self.ge(back, N.scale(e, -1)):
                    self.note('complete', 'ok', '', n)
                elif not N.possible(back.cons, N.scale(e, -1)) or \
                        (N.possible(back.cons, N.shift(e, -1)) and not self.is_weak(e)):
                    bad('characters at the %s of an identifier are consumed but not part of its token' % what)
                else:
                    self.note('complete', 'note', 'extent of an identifier token not matched with the text', n)
            return
        if len(evs) == 1 and evs[0]['kind'] in ('element', 'number'):
            if len(conv) == 1:
                e = N.sub(d, conv[0][2])
                if self.ge(back, e) and self.ge(back, N.scale(e, -1)):
                    self.note('complete', 'ok', '', n)
                elif self.ge(back, N.shift(e, -1)) and (conv[0][1] == ('in', a) or not self.UNROLL):
                    bad('more characters are consumed than the number of the token was read from')
                else:
                    self.note('complete', 'note', 'extent of a number token not matched with the text', n)
                return
            m = self.mask(back, ('in', N.shift(b, -1)))
            other = [x for x in range(33, 127) if m >> x & 1 and not chr(x).isalnum() and x != 46]
            if m == self.full(('in', b)):
                self.note('complete', 'note', 'extent of a number or element token not matched with the text', n)
            elif other:
                bad('the character %r is consumed as part of %s' % (
                    chr(other[0]), {'number': 'a number', 'element': 'a basis element'}[evs[0]['kind']]))
            else:
                self.note('complete', 'ok', '', n)
            return
        self.note('complete', 'ok', '', n)


def base_state():
    st = State()
    st.cons = frozenset({N.sym('LEN'), N.sym('LAST')})
    st.mem[('str', N.const(0))] = (('P', 'in', N.const(0)), 8)
    st.mem[('str', N.const(8))] = (('L', N.sym('LEN'), 64), 8)
    return st


ARGS = [('P', ('o', 'root', 0), N.const(0)), ('P', 'str', N.const(0)), ('P', 'alg', N.const(0))]


def algebra_cells(mod, enum, sig):
    """the members of an algebra object, from its constructor"""
    f = Sym(mod, enum)
    f.fn = f.func(CTOR)
    st = State()
    for p, a in zip(f.fn.params, [('P', 'alg', N.const(0))] + [lit(x, 32) for x in sig]):
        st.env[p] = a
    rets = f.run_function(CTOR, st)
    if len(rets) != 1:
        return {}
    return {k: v for k, v in rets[0][0].mem.items() if k[0] == 'alg'}


def tokenizer(mod, enum, sig, unroll=None):
    pss = (1 << sum(sig)) - 1
    f = Sym(mod, enum, pss)
    if unroll:
        f.UNROLL, (f.OUTER, f.PEEL) = True, unroll
        f.LIMIT = 400000
    st = base_state()
    st.mem.update(algebra_cells(mod, enum, sig))
    f.fn = f.func(TOKENIZE)
    for p, a in zip(f.fn.params, ARGS):
        st.env[p] = a
    rets = f.run_function(TOKENIZE, st)
    if not f.npush:
        f.note('complete', 'note', 'the calls that store tokens are not recognised', f.fn.code[f.fn.entry][-1])
        return f
    for s, _, n in rets:
        pushes = [p for p in s.pushes if p is None or p[:1] != ('strto',)]
        last = pushes[-1] if pushes else ()
        if last is None:
            f.note('complete', 'note', 'last token not tracked', n)
        else:
            k = dict(last).get('kind') if last else None
            if k == 'eof':
                f.note('complete', 'ok', '', n)
            elif (k is None and last) or s.taint:
                f.note('complete', 'note', 'type of the last token not tracked', n)
            else:
                f.note('complete', 'bad', 'returns tokens without the end marker: the parser reads past them', n)
        pos = [e for h in f.outer() for _, e in f.positions(s, h)]
        verdict = 'note'
        for e in pos:
            if f.ge(s, N.sub(e, N.sym('LEN'))):
                verdict = 'ok'
                break
            m = f.mask(s, ('in', e))
            if m == 1:
                verdict = 'ok'
                break
            if not s.taint and not f.is_weak(e):
                verdict = 'bad'
        f.note('complete', verdict, 'returns before the end of the text' if verdict == 'bad' else
               'final position not tracked' if verdict == 'note' else '', n)
    return f


def parser(mod, enum, recursive, stored=None):
    f = Sym(mod, enum)
    f.chars = {}
    for k, ms in (stored or {}).items():
        if None not in ms:
            f.chars[k] = 0
            for m in ms:
                f.chars[k] |= m
    f.RELAX = True
    rec = [r for r in recursive if r in f.funcs and r not in (TOKENIZE, PARSE)]
    rets = f.solve_program(PARSE, base_state(), ARGS, sorted(rec))
    f.fn = f.func(PARSE)
    for s, _, n in rets:
        ptr = [v[2] for (r, o), (v, m) in s.mem.items() if v[0] == 'P' and v[1] == 'tok']
        ptr += [v[2] for v in s.env.values() if v[0] == 'P' and v[1] == 'tok']
        idx = {N.divide(N.shift(e, -(e[0] % enum['size'])), enum['size']) for e in ptr} - {None}
        idx = [i for i in idx if N.symbols(i) - {'LAST'}]
        if any(f.ge(s, N.sub(i, N.sym('LAST'))) for i in idx):
            f.note('complete', 'ok', '', n)
        elif idx and not f.blocked(s) and not any(f.is_weak(i) for i in idx):
            f.note('complete', 'bad', 'an expression is returned although tokens remain: the rest of the input is '
                   'ignored', n)
        else:
            f.note('complete', 'note', 'consumption of all tokens not shown', n)
    recursion(f, rec)
    return f


def recursion(f, rec):
    """every recursive cycle advances a counter that is bounded"""
    edges = []
    for g in rec:
        for caller, line, st, ctx, pre in f.summ[g]['calls']:
            if pre is not None:
                edges.append((caller, g, line, st, ctx, pre))
    # strongly connected parts
    succ = {}
    for e in edges:
        succ.setdefault(e[0], set()).add(e[1])

    def reach(a):
        s, todo = set(), [a]
        while todo:
            for y in succ.get(todo.pop(), ()):
                if y not in s:
                    s.add(y)
                    todo.append(y)
        return s
    rch = {g: reach(g) for g in rec}
    comps = {frozenset(x for x in rec if x in rch[g] and g in rch[x]) for g in rec if g in rch[g]}
    for comp in comps:
        es = [e for e in edges if e[0] in comp and e[1] in comp]
        keys = {}
        for g in comp:
            sm = f.summ[g]
            keys[g] = [k for k, v in sm['preinst'].items() if v[0] == 'L']
        found = None
        for sg in (1, -1):
            found = choose(f, comp, es, keys, sg)
            if found:
                break
        n = es[0]
        if found:
            f.findings.append(('recursion', 'ok', '', n[2], n[0]))
            continue
        clean = [e for e in es if not f.blocked(e[3])]
        if any(len(keys[g]) > 1 for g in comp) and any(choose(f, comp, es, keys, sg, False) for sg in (1, -1)):
            # functions of several numbers are followed less precisely: the limit of the counter can be lost
            clean = []
        if clean and cyc([(e[0], e[1]) for e in clean]):
            f.findings.append(('recursion', 'bad', 'the functions %s call each other to a depth that only the input '
                               'limits' % ', '.join(sorted(pretty(x) for x in comp)), n[2], n[0]))
        else:
            f.findings.append(('recursion', 'note', 'bound of the recursion depth not shown', n[2], n[0]))


def cyc(pairs):
    succ = {}
    for a, b in pairs:
        succ.setdefault(a, set()).add(b)
    for a in succ:
        s, todo = set(), [a]
        while todo:
            for y in succ.get(todo.pop(), ()):
                if y == a:
                    return True
                if y not in s:
                    s.add(y)
                    todo.append(y)
    return False


def choose(f, comp, es, keys, sg, limit=True):
    import itertools
    comp = sorted(comp)
    if any(not keys[g] for g in comp):
        return None
    combos = itertools.islice(itertools.product(*[keys[g] for g in comp]), 5000)
    memo = {}

    def delta(j, kc, kg):
        """lower bound of the change of the counter along call j"""
        if (j, kc, kg) not in memo:
            caller, g, line, st, ctx, pre = es[j]
            a, b = pre[1].get(kc), ctx.get(kg)
            r = '-inf'
            if a and b and a[0] == b[0] == 'L':
                r = N.minimum(st.cons, N.scale(N.sub(b[1], a[1]), sg))
            memo[(j, kc, kg)] = r
        return memo[(j, kc, kg)]
    for combo in combos:
        key = dict(zip(comp, combo))
        flat, ok = [], True
        for j, e in enumerate(es):
            d = delta(j, key[e[0]], key[e[1]])
            if d in ('-inf', None) or d < 0:
                ok = False
                break
            if d == 0:
                flat.append(e)
            else:
                b = N.minimum(e[3].cons, N.scale(e[4][key[e[1]]][1], -sg))
                if limit and (b in ('-inf', None) or b < -10000):
                    ok = False
                    break
        if ok and (not cyc([e[:2] for e in flat]) or len(flat) < len(es) and settled(f, flat, keys)):
            return key
    return None


def settled(f, es, keys):
    """the calls that leave a counter as it is advance another one (a lexicographic order)"""
    succ = {}
    for e in es:
        succ.setdefault(e[0], set()).add(e[1])

    def reach(a):
        s, todo = set(), [a]
        while todo:
            for y in succ.get(todo.pop(), ()):
                if y not in s:
                    s.add(y)
                    todo.append(y)
        return s
    rch = {g: reach(g) for g in succ}
    for comp in {frozenset(x for x in rch if x in rch[g] and g in rch[x]) for g in rch if g in rch[g]}:
        sub = [e for e in es if e[0] in comp and e[1] in comp]
        if not any(choose(f, comp, sub, keys, sg) for sg in (1, -1)):
            return False
    return True


def pretty(n):
    m = re.match(r'_ZL?\d*(?:N\d+)?(\d+)(\w+)', n)
    m = re.match(r'_ZNK?(\d+)(\w+)', n)
    if m:
        k = int(m.group(1))
        x = re.match(r'(\d+)(\w+)', m.group(2)[k:])
        return m.group(2)[:k] + ('::' + x.group(2)[:int(x.group(1))] if x else '')
    m = re.match(r'_ZL(\d+)(.*)', n) or re.match(r'_Z(\d+)(.*)', n)
    return m.group(2)[:int(m.group(1))] if m else n


SIGNATURES = [(3, 0, 1), (0, 0, 0), (1, 0, 0), (2, 0, 0), (2, 0, 1), (4, 1, 0), (9, 0, 0), (5, 5, 0), (10, 0, 1)]
DEEP = SIGNATURES + [(n, 0, 0) for n in (3, 4, 5, 6, 7, 8, 12, 16, 20, 31)] + [(0, 0, 5), (0, 7, 0), (2, 2, 2)]
RULE = {'bounds': 'every address lies inside the object it points into',
        'progress': 'a loop advances a bounded counter on every path',
        'complete': 'consumed text is white space or becomes the token stored for it; every token is consumed',
        'index': 'the basis indices of an element token are below the dimension',
        'lines': 'every line that is not blank, a comment or a command is handed to the parser',
        'errors': 'every error type thrown while parsing is caught by the calculator',
        'erased': 'an element erased from a container is not used again',
        'begin': 'the first element is accessed only where the container is not empty',
        'recursion': 'every recursive cycle advances a counter with a fixed limit'}


def confirm(f, mod, enum, sig):
    """violations are those the first iterations of the loops reach, with nothing generalised"""
    big = max([40] + [n + 3 for r, n in f.sizes.items() if isinstance(r, tuple) and r[0] == 'a' and n < 600])
    seen, bad = set(), []
    for u in ((1, big), (3, 3)):
        try:
            bad += [x for x in tokenizer(mod, enum, sig, u).findings if x[1] == 'bad']
        except (GiveUp, RecursionError):
            continue
    seen = {(x[0], x[4]) for x in bad}
    f.findings = [x if x[1] != 'bad' else (x[0], 'note', 'not shown that no text ' + x[2]) + x[3:]
                  for x in f.findings if x[1] != 'bad' or (x[0], x[4]) not in seen] + bad


def scan(mod, enum, sig):
    f = tokenizer(mod, enum, sig)
    confirm(f, mod, enum, sig)
    return f


def demands(f, what, o):
    oks, notes = {}, {}
    for kind, verdict, msg, line, fn in f.findings:
        if verdict == 'ok':
            oks[kind] = oks.get(kind, 0) + 1
        elif verdict == 'bad':
            o.violate('%s/%s' % (pretty(fn), kind), msg, line, what)
        else:
            notes.setdefault(kind, set()).add('%s: %s: %s' % (pretty(fn), line, msg))
    for k, n in oks.items():
        o.count('%s obligations proved' % k, n)
    for k, ms in notes.items():
        c = o.coverage.setdefault('not decided', [])
        c += [m for m in sorted(ms) if m not in c]


class Plain:
    def __init__(self, findings):
        self.findings = findings


def others():
    import symheap
    import symrepl
    return [('calculator', symrepl.analyse)] + \
        [('containers of ' + s, lambda s=s: Plain(symheap.analyse(s))) for s in ('ga.cpp', 'poly.cpp', 'parser.cpp')]


def check(o, tier):
    try:
        raws = [compile_sym(s) for s in SOURCES]
        path, text, rec, own = prepare(raws, raws[0], 'parse')
        mod = build.load(path)
    except build.BuildError as e:
        o.error(str(e))
        return
    enum = layout(open(raws[0]).read())
    if enum is None or TOKENIZE not in own or PARSE not in own:
        o.error('the token type or the functions tokenize and parse are not found in sym/parser.cpp')
        return
    o.coverage['rules'] = RULE
    stored = None
    sigs = DEEP if tier == 'thorough' else SIGNATURES
    for what, run in [('tokenize, algebra %d,%d,%d' % s, lambda s=s: scan(mod, enum, s)) for s in sigs] + \
            [('parse', lambda: parser(mod, enum, rec, stored))] + others():
        try:
            f = run()
        except (GiveUp, RecursionError, build.BuildError) as e:
            o.coverage.setdefault('not decided', []).append('%s: %s' % (what, e))
            continue
        o.count('analyses')
        stored = stored or getattr(f, 'stored', None)
        demands(f, what, o)
        o.samples.append({'analysis': what, 'functions': sorted({pretty(x[4]) for x in f.findings}),
                          'obligations': sum(x[1] == 'ok' for x in f.findings)})


if __name__ == '__main__':
    import sys
    import time
    t0 = time.time()
    raws = [compile_sym(s) for s in SOURCES]
    path, text, rec, own = prepare(raws, raws[0], 'parse')
    enum = layout(open(raws[0]).read())
    print(enum, sorted(map(pretty, rec)), time.time() - t0)
    mod = build.load(path)
    ST = []
    for what in (lambda: ST.append(tokenizer(mod, enum, (3, 0, 1))) or ST[0], lambda: parser(mod, enum, rec, ST[0].stored)):
        t0 = time.time()
        try:
            f = what()
            from collections import Counter
            print(Counter((x[0], x[1]) for x in f.findings))
            for x in dict.fromkeys(x for x in f.findings if x[1] != 'ok'):
                print(x)
        except GiveUp as e:
            print('give up', e)
        print('time', time.time() - t0)
