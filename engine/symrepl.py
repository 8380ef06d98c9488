"""The loop of the calculator: every line that is neither blank, a comment nor a command is parsed."""
import re
import linear as N
from flow import Flow, State, GiveUp, CTYPE, lit
from symparse import Sym, PARSE, TOKENIZE, compile_sym, prepare, layout
import build

RUN = '_ZN4repl3runEv'
SPACE = sum(1 << x for x in CTYPE['isspace'])
EXEMPT = SPACE | 1 << ord('.') | 1 << ord('#') | 1


def reads_only(nm):
    return bool(re.match(r'_ZNKSt7__cxx1112basic_string', nm) or re.match(r'_ZSt(eq|ne|lt|gt|le|ge|ls|pl)I', nm)
                or re.match(r'_ZNSt7__cxx1112basic_string\w*(C1|C2)ERKS', nm) or re.match(r'_ZNSo|_ZStlsI', nm)
                or re.match(r'_Z\w*(begin|end|size|length|empty|data|c_str|front|back|operator)', nm) and 'K' in nm)


class Repl(Sym):
    lines = 0

    def independent(self, v):
        """the value comes from outside the program and not from the line"""
        if isinstance(v, tuple):
            if v[:1] == ('P',):
                return v[1] == 'stream' or v[1] == 'repl' or isinstance(v[1], tuple) and v[1][:1] == ('g',)
            if v[:1] == ('B',):
                return False
            if v[:1] == ('U',):
                k = self.info[v[1]]
                return k[0] != 'fresh' and all(self.independent(x) for x in k[1:])
            return all(self.independent(x) for x in v)
        return True

    def unsure(self, st, c, want):
        t = st.taint
        out = Flow.unsure(self, st, c, want)
        if self.independent(c):
            for x in out:
                x.taint = t
        return out

    def extern(self, n, st, nm, args):
        strs = [a for a in args if a[0] == 'P' and
                (a[1] == 'in' or st.mem.get((a[1], a[2]), ((0, 0),))[0][:2] == ('P', 'in'))]
        if nm.startswith('_ZSt7getline') and len(args) > 1 and args[1][0] == 'P':
            self.lines += 1
            if len(args) > 2:
                return NotImplemented
            st.cons = frozenset(c for c in st.cons if not N.symbols(c) & {'LEN'}) | {N.sym('LEN')}
            st.masks = {k: m for k, m in st.masks.items() if k[0] != 'in'}
            r, o = args[1][1:]
            st.mem[(r, o)] = (('P', 'in', N.const(0)), 8)
            st.mem[(r, N.shift(o, 8))] = (('L', N.sym('LEN'), 64), 8)
            st.env[n.i] = ('P', 'stream', N.const(0))
            st.pushes = ()
            return None
        if nm == PARSE:
            a = args[1] if len(args) > 2 else args[0]
            p = st.mem.get((a[1], a[2])) if a[0] == 'P' else None
            s = st.mem.get((a[1], N.shift(a[2], 8))) if a[0] == 'P' else None
            whole = bool(p and s) and p[0] == ('P', 'in', N.const(0)) and s[0][:2] == ('L', N.sym('LEN'))
            st.pushes += (('parse', whole),)
            if n.kind != 'void':
                st.env[n.i] = self.opaque()
            return None
        if strs and not (strs == args[:1] and re.match(r'_ZNSt7__cxx1112basic_string\w*(C|D)\dEv', nm)):
            t = self.literal(args[1]) if len(args) == 2 and args[0] == strs[0] and args[0][1] != 'in' else None
            if t is not None and re.match(r'_ZSt(eq|ne)I|_ZNKSt7__cxx1112basic_string\w*7compareE', nm):
                return self.equal(n, st, nm, t)
            if reads_only(nm):
                if n.kind != 'void':
                    st.env[n.i] = self.opaque()
                return None
            st.pushes += (('used', nm),)
        return NotImplemented

    def literal(self, p):
        if p[0] != 'P' or not isinstance(p[1], tuple) or p[1][0] != 'g' or p[2][1]:
            return None
        out = []
        while len(out) < 100:
            v = self.constant_load(State(), p[1], N.shift(p[2], len(out)), 1, 8)
            if v[0] != 'L' or v[1][1]:
                return None
            if not v[1][0] & 255:
                return out
            out.append(v[1][0] & 255)
        return None

    def equal(self, n, st, nm, t):
        """comparison of the line with a constant text"""
        other = st.copy()
        other.env[n.i] = lit(int(not nm.startswith('_ZSteq')), n.width)
        d = N.shift(N.sym('LEN'), -len(t))
        if not (self.assume(st, d) and self.assume(st, N.scale(d, -1)) and
                all(self.restrict(st, ('in', N.const(k)), 1 << c) for k, c in enumerate(t))):
            return [other]
        st.env[n.i] = lit(int(nm.startswith('_ZSteq')), n.width)
        return [st, other]

    def dropped(self, s):
        """a visible character a line that ends up here may begin with"""
        before = True
        for k in range(8):
            e = N.sym('LEN')
            if not N.possible(s.cons, N.shift(e, -k - 1)):
                return None
            m = self.mask(s, ('in', N.const(k)))
            c = [x for x in list(range(33, 127)) + list(range(256)) if m >> x & 1 and not EXEMPT >> x & 1]
            if c:
                return k, chr(c[0])
            if not m & SPACE:
                return None
        return None

    def around(self, h, head, back):
        if h not in self.outer():
            return
        n = self.fn.code[h][-1]
        if any(p and p[0] == 'parse' for p in back.pushes if p):
            w = [p[1] for p in back.pushes if p and p[0] == 'parse']
            self.note('lines', 'ok' if all(w) else 'note', '' if all(w) else 'the text handed to the parser is not '
                      'shown to be the whole line', n)
            return
        d = self.dropped(back)
        if d is None:
            self.note('lines', 'ok', '', n)
        elif back.taint or any(p and p[0] == 'used' for p in back.pushes):
            self.note('lines', 'note', 'a line that is not parsed is not shown to be blank, a comment or a command', n)
        else:
            self.note('lines', 'bad', 'a line whose first visible character is %r can be skipped without being parsed '
                      'or rejected' % d[1], n)


STD = {'_ZTISt%d%s' % (len(a), a): '_ZTISt%d%s' % (len(b), b) for b, xs in {
    'exception': ['runtime_error', 'logic_error'], 'runtime_error': ['range_error', 'overflow_error', 'underflow_error'],
    'logic_error': ['invalid_argument', 'domain_error', 'length_error', 'out_of_range']}.items() for a in xs}
STD['_ZTISt13runtime_error'] = STD['_ZTISt11logic_error'] = '_ZTISt9exception'


def uncaught(f, path, thrower):
    """types thrown while parsing that the loop does not catch: they end the program"""
    r = build.run([build.OPT, '-S', path, '-o', '-'])
    body = re.search(r'^define [^\n]*@%s\(.*?^\}' % re.escape(RUN), r.stdout, flags=re.S | re.M)
    lines = body.group(0).split('\n') if body else []
    pads = [m.group(1) for m in re.finditer(r'invoke [^\n]*@%s\([^\n]*\n[^\n]*unwind label %%([\w.]+)' %
                                            re.escape(PARSE), body.group(0))] if body else []
    if not pads or re.search(r'call [^\n]*@%s\(' % re.escape(PARSE), body.group(0)):
        return
    base = dict(STD)
    t = open(thrower).read()
    for m in re.finditer(r'^@(_ZTI\w+) = .*si_class_type_info.*ptr @(_ZTI\w+)', t, flags=re.M):
        base[m.group(1)] = m.group(2)
    end = f.fn.code[f.fn.entry][-1]
    for pad in pads:
        k = next((j for j, l in enumerate(lines) if l.startswith(pad + ':')), None)
        clause = []
        while k is not None and k + 1 < len(lines) and lines[k + 1].strip():
            k += 1
            m = re.match(r'\s+catch ptr (@?[\w]+)', lines[k])
            if m:
                clause.append(m.group(1).lstrip('@'))
        thrown = set(re.findall(r'@__cxa_throw\([^\n]*?ptr @(_ZTI\w+)', t))
        inner = any(re.search(r'^\s+catch ptr', m.group(0), flags=re.M) for m in re.finditer(
            r'^define [^\n]*?@(?!_ZN?K?S|_ZN?K?9__gnu|__clang)[\w.$]+\(.*?^\}', t, flags=re.S | re.M))
        for x in sorted(thrown):
            y = x
            while y in base and y not in clause:
                y = base[y]
            if 'null' in clause or y in clause:
                f.note('errors', 'ok', '', end)
            elif not inner and x in base and y == '_ZTISt9exception':
                f.note('errors', 'bad', 'an error of type %s thrown while parsing is not caught and ends the program' %
                       x[7:].lstrip('0123456789'), end)
            else:
                f.note('errors', 'note', 'the error type %s is not shown to be caught' % x, end)


def analyse():
    raw = compile_sym('repl.cpp')
    path, text, rec, own = prepare([raw], raw, 'repl')
    if RUN not in own:
        raise GiveUp('repl::run is not found in sym/repl.cpp')
    mod = build.load(path)
    f = Repl(mod, {'size': 8, 'type': 0, 'type_size': 4, 'count': 6, 'eof': 0, 'values': {}})
    f.UNROLL, f.OUTER, f.PEEL, f.LIMIT = True, 1, 4, 400000
    st = State()
    st.cons = frozenset({N.sym('LEN')})
    f.fn = f.func(RUN)
    for p in f.fn.params:
        st.env[p] = ('P', 'repl', N.const(0))
    rets = f.run_function(RUN, st)
    end = f.fn.code[f.fn.entry][-1]
    uncaught(f, path, compile_sym('parser.cpp'))
    if not f.lines:
        f.note('lines', 'note', 'the call that reads a line is not recognised', end)
        return f
    if not rets:
        f.note('progress', 'bad', 'the loop over the lines has no way out: it does not end with the input', end)
    for s, _, n in rets:
        m = f.mask(s, ('in', N.const(0)))
        if m in (f.full(('in', N.const(0))), 0) or s.taint or any(p for p in s.pushes if p):
            continue
        d = f.dropped(s)
        f.note('lines', 'bad' if d else 'ok', 'a line that begins with %r ends the program: the rest of the input is '
               'ignored' % d[1] if d else '', n)
    return f


if __name__ == '__main__':
    import time
    t0 = time.time()
    f = analyse()
    for x in dict.fromkeys(f.findings):
        print(x)
    print(time.time() - t0)
