"""Abstract interpreter for the GLSL source: syntax-directed dataflow over the
functions of glsl/klein.glsl in the algebraic value domain."""
import os
import re
from fractions import Fraction
import build
from alg import Ctx, Rat, Unsupported

TOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|(?P<num>(\d+\.\d*|\.\d+|\d+)([eE][-+]?\d+)?[fFuU]?)|(?P<id>[A-Za-z_]\w*)|'
                 r'(?P<op>\+=|-=|\*=|/=|==|!=|<=|>=|&&|\|\||\+\+|--|[-+*/<>=!?:;,.(){}\[\]%])', re.S)
VEC = {'float': 1, 'int': 1, 'bool': 1, 'vec2': 2, 'vec3': 3, 'vec4': 4, 'uint': 1}
SWZ = {c: i for s in ('xyzw', 'rgba', 'stpq') for i, c in enumerate(s)}
QUAL = {'in', 'const', 'highp', 'mediump', 'lowp', 'inline', 'precise', 'static', 'constexpr'}


class GlslError(Exception):
    """the source is outside the supported language: no answer"""


class Undef(Exception):
    def __init__(self, line, what):
        self.line, self.what = line, what


def preprocess(text, defines=()):
    out, stack, macros = [], [], dict(defines)
    text = text.replace('\r', '').replace('\\\n', ' ')
    for line in text.split('\n'):
        m = re.match(r'\s*#\s*(\w+)\s*(.*)$', line)
        if m:
            d, a = m.group(1), re.sub(r'//.*|/\*.*?\*/', '', m.group(2)).strip()
            if d == 'ifdef':
                stack.append(a in macros)
            elif d == 'ifndef':
                stack.append(a not in macros)
            elif d == 'if':
                if a in ('0', '1'):
                    stack.append(a == '1')
                else:
                    raise GlslError('#if ' + a)
            elif d == 'else':
                stack[-1] = not stack[-1]
            elif d == 'endif':
                stack.pop()
            elif all(stack):
                if d == 'define':
                    p = a.split(None, 1)
                    if '(' in p[0]:
                        mm = re.match(r'(\w+)\(([^)]*)\)\s*(.*)$', a)
                        macros[mm.group(1)] = ([x.strip() for x in mm.group(2).split(',')], mm.group(3))
                    else:
                        macros[p[0]] = p[1] if len(p) > 1 else ''
                elif d == 'undef':
                    macros.pop(a, None)
                elif d in ('version', 'extension', 'pragma', 'line'):
                    pass
                else:
                    raise GlslError('#' + d)
            out.append('')
            continue
        if not all(stack):
            out.append('')
            continue
        for _ in range(20):
            new = line
            for k, v in macros.items():
                if isinstance(v, str):
                    new = re.sub(r'\b%s\b' % k, lambda _: v, new)
                else:
                    mm = re.search(r'\b%s\(' % k, new)
                    if mm:
                        d, j, args, cur = 1, mm.end(), [], ''
                        while d and j < len(new):
                            ch = new[j]
                            d += (ch == '(') - (ch == ')')
                            if d == 0:
                                break
                            if ch == ',' and d == 1:
                                args.append(cur)
                                cur = ''
                            else:
                                cur += ch
                            j += 1
                        args.append(cur)
                        b = v[1]
                        for p, x in zip(v[0], args):
                            b = re.sub(r'\b%s\b' % p, lambda _: '(' + x.strip() + ')', b)
                        new = new[:mm.start()] + b + new[j + 1:]
            if new == line:
                break
            line = new
        out.append(line)
    return '\n'.join(out)


def lex(text):
    pos, out, line = 0, [], 1
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise GlslError('line %d: unexpected %r' % (line, text[pos:pos + 10]))
        if m.lastgroup:
            out.append((m.lastgroup if m.lastgroup in ('num', 'id', 'op') else 'num', m.group(), line))
        line += m.group().count('\n')
        pos = m.end()
    out.append(('end', '', line))
    return out


class Fn:
    def __init__(self, ret, name, params, body, line):
        self.ret, self.name, self.params, self.body, self.line = ret, name, params, body, line


class Parser:
    def __init__(self, text):
        self.t = lex(preprocess(text))
        self.i = 0
        self.structs = {}
        self.fns = []
        self.consts = []
        while self.peek() != '':
            self.toplevel()

    def peek(self, k=0):
        return self.t[self.i + k][1]

    def kind(self, k=0):
        return self.t[self.i + k][0]

    def line(self):
        return self.t[self.i][2]

    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def eat(self, s):
        if self.peek() != s:
            raise GlslError('line %d: expected %r, found %r' % (self.line(), s, self.peek()))
        self.i += 1

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def is_type(self, k=0):
        return self.peek(k) in VEC or self.peek(k) in self.structs

    def quals(self):
        q = set()
        while self.peek() in QUAL or self.peek() in ('out', 'inout'):
            q.add(self.next())
        return q

    def toplevel(self):
        if self.accept(';'):
            return
        if self.accept('precision'):
            while not self.accept(';'):
                self.next()
            return
        if self.accept('struct'):
            n = self.next()
            self.eat('{')
            fields = []
            while not self.accept('}'):
                self.quals()
                t = self.next()
                while True:
                    fields.append((self.next(), t))
                    if not self.accept(','):
                        break
                self.eat(';')
            self.structs[n] = fields
            self.accept(';')
            return
        self.quals()
        line = self.line()
        t = self.next()
        if t != 'void' and t not in VEC and t not in self.structs:
            raise GlslError('line %d: unknown type %s' % (line, t))
        n = self.next()
        if self.accept('('):
            ps = []
            while not self.accept(')'):
                if self.peek() == 'void' and self.peek(1) == ')':
                    self.next()
                    continue
                q = self.quals()
                pt = self.next()
                pn = self.next() if self.kind() == 'id' else ''
                mode = 'inout' if 'inout' in q else 'out' if 'out' in q else 'in'
                ps.append((pn, pt, mode))
                self.accept(',')
            if self.accept(';'):
                return
            self.fns.append(Fn(t, n, ps, self.block(), line))
            return
        self.i -= 1
        self.consts.append(self.decl_rest(t))

    def block(self):
        self.eat('{')
        out = []
        while not self.accept('}'):
            out.append(self.stmt())
        return ('block', out)

    def decl_rest(self, t):
        ds = []
        while True:
            ln = self.line()
            n = self.next()
            init = self.assign() if self.accept('=') else None
            ds.append((n, init, ln))
            if not self.accept(','):
                break
        self.eat(';')
        return ('decl', t, ds)

    def stmt(self):
        ln = self.line()
        if self.peek() == '{':
            return self.block()
        if self.accept(';'):
            return ('block', [])
        if self.accept('return'):
            e = None if self.peek() == ';' else self.expr()
            self.eat(';')
            return ('return', e, ln)
        if self.accept('if'):
            self.eat('(')
            c = self.expr()
            self.eat(')')
            a = self.stmt()
            b = self.stmt() if self.accept('else') else ('block', [])
            return ('if', c, a, b, ln)
        if self.accept('for'):
            self.eat('(')
            init = self.stmt()
            c = None if self.peek() == ';' else self.expr()
            self.eat(';')
            step = None if self.peek() == ')' else self.expr()
            self.eat(')')
            return ('for', init, c, step, self.stmt(), ln)
        if self.accept('while'):
            self.eat('(')
            c = self.expr()
            self.eat(')')
            return ('for', ('block', []), c, None, self.stmt(), ln)
        if self.peek() in QUAL:
            self.quals()
        if self.is_type() and self.kind(1) == 'id':
            return self.decl_rest(self.next())
        e = self.expr()
        self.eat(';')
        return ('expr', e, ln)

    def expr(self):
        e = self.assign()
        while self.accept(','):
            e = ('seq', e, self.assign())
        return e

    def assign(self):
        ln = self.line()
        l = self.cond()
        if self.peek() in ('=', '+=', '-=', '*=', '/='):
            o = self.next()
            return ('assign', o, l, self.assign(), ln)
        return l

    def cond(self):
        c = self.binary(0)
        if self.accept('?'):
            a = self.assign()
            self.eat(':')
            b = self.assign()
            return ('cond', c, a, b)
        return c

    LEVELS = [('||',), ('&&',), ('==', '!='), ('<', '>', '<=', '>='), ('+', '-'), ('*', '/', '%')]

    def binary(self, k):
        if k == len(self.LEVELS):
            return self.unary()
        l = self.binary(k + 1)
        while self.peek() in self.LEVELS[k] and self.kind() == 'op':
            ln = self.line()
            o = self.next()
            l = ('bin', o, l, self.binary(k + 1), ln)
        return l

    def unary(self):
        if self.kind() == 'op' and self.peek() in ('-', '+', '!', '++', '--'):
            o = self.next()
            return ('un', o, self.unary())
        return self.postfix()

    def postfix(self):
        ln = self.line()
        if self.accept('('):
            e = self.expr()
            self.eat(')')
        elif self.kind() == 'num':
            e = ('num', self.next())
        elif self.kind() == 'id':
            n = self.next()
            if self.accept('('):
                a = []
                while not self.accept(')'):
                    a.append(self.assign())
                    self.accept(',')
                e = ('call', n, a, ln)
            else:
                e = ('var', n, ln)
        else:
            raise GlslError('line %d: unexpected %r' % (ln, self.peek()))
        while True:
            if self.accept('.'):
                e = ('member', e, self.next(), ln)
            elif self.accept('['):
                i = self.expr()
                self.eat(']')
                e = ('index', e, i, ln)
            elif self.peek() in ('++', '--'):
                e = ('post', self.next(), e)
            else:
                return e


class V:
    """vector value: lanes are Rat or None (undefined); struct value: fields"""
    __slots__ = ('t', 'l')

    def __init__(self, t, l):
        self.t, self.l = t, l


class Interp:
    def __init__(self, prog, ctx):
        self.p, self.ctx = prog, ctx
        self.depth = 0
        self.steps = 0

    def zero(self, t):
        if t in VEC:
            return V(t, [None] * VEC[t])
        return V(t, {n: self.zero(ft) for n, ft in self.p.structs[t]})

    def copy(self, v):
        return V(v.t, list(v.l) if isinstance(v.l, list) else {k: self.copy(x) for k, x in v.l.items()})

    def merge(self, c, a, b):
        if isinstance(a.l, dict):
            return V(a.t, {k: self.merge(c, a.l[k], b.l[k]) for k in a.l})
        return V(a.t, [x if x is y else None if x is None or y is None else c * x + (self.ctx.one - c) * y
                       for x, y in zip(a.l, b.l)])

    # -------------------------------------------------------------- functions
    def run(self, fn, args):
        self.depth += 1
        if self.depth > 40:
            raise GlslError('recursion in ' + fn.name)
        env = {}
        for c in self.p.consts:
            self.exec(c, [env])
        top = {}
        for (n, t, mode), a in zip(fn.params, args):
            top[n] = self.zero(t) if mode == 'out' else self.copy(a)
        r = self.exec(fn.body, [env, top])
        self.depth -= 1
        outs = {n: top[n] for n, t, mode in fn.params if mode != 'in'}
        if r is None and fn.ret != 'void':
            raise Undef(fn.line, '%s reaches its end without returning a value' % fn.name)
        return r, outs

    def call(self, name, args, line, argex, sc):
        ctx = self.ctx
        if name in VEC:
            flat = []
            for a in args:
                if not isinstance(a.l, list):
                    raise GlslError('line %d: constructor of a struct value' % line)
                flat += a.l
            n = VEC[name]
            if len(args) == 1 and len(flat) == 1:
                return V(name, flat * n)
            if len(flat) < n:
                raise GlslError('line %d: %s with %d components' % (line, name, len(flat)))
            return V(name, flat[:n])
        if name in self.p.structs:
            fs = self.p.structs[name]
            return V(name, {n: self.copy(a) for (n, t), a in zip(fs, args)})
        cands = [f for f in self.p.fns if f.name == name and [t for _, t, _ in f.params] == [a.t for a in args]]
        if len(cands) == 1:
            f = cands[0]
            r, outs = self.run(f, args)
            for (n, t, mode), ex in zip(f.params, argex):
                if mode != 'in':
                    self.store(ex, outs[n], sc, line)
            return r
        if cands:
            raise GlslError('line %d: ambiguous call of %s' % (line, name))
        ls = [self.rd(a, line) for a in args]

        def lanes(f):
            n = max(map(len, ls))
            return V(args[0].t if len(ls[0]) == n else 'vec%d' % n,
                     [f(*[l[k if len(l) > 1 else 0] for l in ls]) for k in range(n)])
        if name == 'dot':
            acc = ctx.zero
            for x, y in zip(*ls):
                acc = acc + x * y
            return V('float', [acc])
        if name == 'cross':
            (a, b, c), (x, y, z) = ls
            return V('vec3', [b * z - c * y, c * x - a * z, a * y - b * x])
        if name == 'sqrt':
            return lanes(ctx.sqrt)
        if name == 'inversesqrt':
            return lanes(lambda x: ctx.one / ctx.sqrt(x))
        if name == 'abs':
            return lanes(ctx.abs)
        if name == 'length':
            acc = ctx.zero
            for x in ls[0]:
                acc = acc + x * x
            return V('float', [ctx.sqrt(acc)])
        if name == 'mix':
            return lanes(lambda x, y, t: x * (ctx.one - t) + y * t)
        if name == 'fma':
            return lanes(lambda x, y, z: x * y + z)
        if name in ('min', 'max'):
            def mm(x, y):
                c = ctx.is_neg(x - y)
                return (c * x + (ctx.one - c) * y) if name == 'min' else (c * y + (ctx.one - c) * x)
            return lanes(mm)
        raise GlslError('line %d: call of %s(%s)' % (line, name, ', '.join(a.t for a in args)))

    def rd(self, v, line):
        if not isinstance(v.l, list):
            raise GlslError('line %d: arithmetic on %s' % (line, v.t))
        if any(x is None for x in v.l):
            raise Undef(line, 'uses a value that was never assigned')
        return v.l

    # -------------------------------------------------------------- statements
    def exec(self, s, sc):
        self.steps += 1
        if self.steps > 200000:
            raise GlslError('loop without a bound')
        k = s[0]
        if k == 'block':
            sc2 = sc + [{}]
            for n, x in enumerate(s[1]):
                if x[0] == 'if':
                    return self.branch(x, ('rest', s[1][n + 1:]), sc2)
                if x[0] == 'block':         # a nested scope may return
                    r = self.exec(x, sc2)
                else:
                    r = self.exec(x, sc2)
                if r is not None:
                    return r
            return None
        if k == 'rest':
            for n, x in enumerate(s[1]):
                if x[0] == 'if':
                    return self.branch(x, ('rest', s[1][n + 1:]), sc)
                r = self.exec(x, sc)
                if r is not None:
                    return r
            return None
        if k == 'decl':
            for n, init, ln in s[2]:
                v = self.zero(s[1])
                if init is not None:
                    x = self.ev(init, sc)
                    v = self.coerce(x, s[1], ln)
                sc[-1][n] = self.copy(v)
            return None
        if k == 'expr':
            self.ev(s[1], sc)
            return None
        if k == 'return':
            return self.copy(self.ev(s[1], sc)) if s[1] is not None else V('void', [])
        if k == 'if':
            return self.branch(s, ('rest', []), sc)
        if k == 'for':
            sc2 = sc + [{}]
            if s[1][0] == 'block':
                for x in s[1][1]:
                    self.exec(x, sc2)
            else:
                self.exec(s[1], sc2)
            while True:
                if s[2] is not None:
                    c = self.rd(self.ev(s[2], sc2), s[5])[0]
                    if not c.is_const():
                        raise GlslError('line %d: loop bound depends on the operands' % s[5])
                    if c.const_value() == 0:
                        break
                r = self.exec(s[4], sc2)
                if r is not None:
                    return r
                if s[3] is not None:
                    self.ev(s[3], sc2)
            return None
        raise GlslError('statement ' + k)

    def branch(self, s, rest, sc):
        c = self.rd(self.ev(s[1], sc), s[4])[0]
        if c.is_const():
            r = self.exec(s[2] if c.const_value() else s[3], sc)
            return r if r is not None else self.exec(rest, sc)
        save = [{k: self.copy(v) for k, v in d.items()} for d in sc]
        r1 = self.exec(s[2], sc)
        after1 = [dict(d) for d in sc]
        for d, o in zip(sc, save):
            d.clear()
            d.update({k: self.copy(v) for k, v in o.items()})
        r2 = self.exec(s[3], sc)
        if r1 is None and r2 is None:
            for d, a in zip(sc, after1):
                for k in d:
                    d[k] = self.merge(c, a[k], d[k])
            return self.exec(rest, sc)
        if r1 is not None and r2 is not None:
            return self.merge(c, r1, r2)
        if r1 is None:
            for d, a in zip(sc, after1):
                d.clear()
                d.update(a)
            x = self.exec(rest, sc)
            return self.merge(c, x, r2) if x is not None else None
        x = self.exec(rest, sc)
        return self.merge(c, r1, x) if x is not None else None

    def coerce(self, x, t, ln):
        if x.t == t or (t in VEC and VEC.get(x.t) == VEC[t]):
            return V(t, x.l)
        raise GlslError('line %d: %s assigned to %s' % (ln, x.t, t))

    # -------------------------------------------------------------- expressions
    def lookup(self, n, sc, ln):
        for d in reversed(sc):
            if n in d:
                return d[n]
        raise GlslError('line %d: unknown name %s' % (ln, n))

    def ev(self, e, sc):
        ctx = self.ctx
        k = e[0]
        if k == 'num':
            s = e[1].rstrip('fFuU')
            return V('float' if '.' in s or 'e' in s.lower() else 'int', [ctx.const(Fraction(s))])
        if k == 'var':
            if e[1] in ('true', 'false'):
                return V('bool', [ctx.one if e[1] == 'true' else ctx.zero])
            return self.lookup(e[1], sc, e[2])
        if k == 'member':
            b = self.ev(e[1], sc)
            if isinstance(b.l, dict):
                if e[2] not in b.l:
                    raise GlslError('line %d: no field %s' % (e[3], e[2]))
                return b.l[e[2]]
            ix = self.swz(e[2], len(b.l), e[3])
            return V('float' if len(ix) == 1 else 'vec%d' % len(ix), [b.l[i] for i in ix])
        if k == 'index':
            b, i = self.ev(e[1], sc), self.const_int(self.ev(e[2], sc), e[3])
            if not 0 <= i < len(b.l):
                raise Undef(e[3], 'index %d is out of bounds' % i)
            return V('float', [b.l[i]])
        if k == 'seq':
            self.ev(e[1], sc)
            return self.ev(e[2], sc)
        if k == 'assign':
            r = self.ev(e[3], sc)
            if e[1] != '=':
                r = self.arith(e[1][0], self.ev(e[2], sc), r, e[4])
            self.store(e[2], r, sc, e[4])
            return r
        if k in ('post', 'un') and e[1] in ('++', '--'):
            old = self.ev(e[2], sc)
            old = self.copy(old)
            new = self.arith(e[1][0], old, V('int', [ctx.one]), 0)
            self.store(e[2], V(old.t, new.l), sc, 0)
            return old if k == 'post' else new
        if k == 'un':
            v = self.ev(e[2], sc)
            l = self.rd(v, 0)
            if e[1] == '-':
                return V(v.t, [-x for x in l])
            if e[1] == '!':
                return V('bool', [ctx.one - l[0]])
            return v
        if k == 'bin':
            return self.arith(e[1], self.ev(e[2], sc), self.ev(e[3], sc), e[4])
        if k == 'cond':
            c = self.rd(self.ev(e[1], sc), 0)[0]
            if c.is_const():
                return self.ev(e[2] if c.const_value() else e[3], sc)
            return self.merge(c, self.ev(e[2], sc), self.ev(e[3], sc))
        if k == 'call':
            return self.call(e[1], [self.ev(a, sc) for a in e[2]], e[3], e[2], sc)
        raise GlslError('expression ' + k)

    def const_int(self, v, ln):
        x = v.l[0]
        if x is None or not x.is_const():
            raise GlslError('line %d: index depends on the operands' % ln)
        return int(x.const_value())

    def swz(self, s, n, ln):
        ix = [SWZ.get(c, 9) for c in s]
        if any(i >= n for i in ix):
            raise GlslError('line %d: no component %s' % (ln, s))
        return ix

    def arith(self, o, a, b, ln):
        ctx = self.ctx
        x, y = self.rd(a, ln), self.rd(b, ln)
        if o in ('<', '>', '<=', '>=', '==', '!='):
            if o in ('==', '!='):
                r = ctx.one
                for p, q in zip(x, y):
                    r = r * ctx.is_zero_pred(p - q)
                return V('bool', [r if o == '==' else ctx.one - r])
            d = x[0] - y[0]
            r = {'<': lambda: ctx.is_neg(d), '>': lambda: ctx.is_neg(-d), '<=': lambda: ctx.one - ctx.is_neg(-d),
                 '>=': lambda: ctx.one - ctx.is_neg(d)}[o]()
            return V('bool', [r])
        if o == '&&':
            return V('bool', [x[0] * y[0]])
        if o == '||':
            return V('bool', [x[0] + y[0] - x[0] * y[0]])
        n = max(len(x), len(y))
        if len(x) not in (1, n) or len(y) not in (1, n):
            raise GlslError('line %d: %s %s %s' % (ln, a.t, o, b.t))
        x = x * n if len(x) == 1 else x
        y = y * n if len(y) == 1 else y
        f = {'+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': lambda p, q: p * q,
             '/': lambda p, q: p / q}.get(o)
        if f is None:
            raise GlslError('operator ' + o)
        t = a.t if len(a.l) == n and (a.t != 'int' or b.t == 'int') else b.t
        return V(t, [f(p, q) for p, q in zip(x, y)])

    def store(self, l, v, sc, ln):
        if l[0] == 'var':
            dst = self.lookup(l[1], sc, ln)
            if isinstance(dst.l, dict):
                if v.t != dst.t:
                    raise GlslError('line %d: %s assigned to %s' % (ln, v.t, dst.t))
                dst.l = self.copy(v).l
                return
            if len(v.l) != len(dst.l):
                raise GlslError('line %d: %s assigned to %s' % (ln, v.t, dst.t))
            dst.l = list(v.l)
            return
        if l[0] == 'member':
            b = self.ev(l[1], sc)
            if isinstance(b.l, dict):
                dst = b.l[l[2]]
                if isinstance(dst.l, dict):
                    dst.l = self.copy(v).l
                elif len(v.l) != len(dst.l):
                    raise GlslError('line %d: %s assigned to %s' % (ln, v.t, dst.t))
                else:
                    dst.l = list(v.l)
                return
            # component assignment
            ix = self.swz(l[2], len(b.l), ln)
            if len(ix) != len(v.l):
                raise GlslError('line %d: component count' % ln)
            new = list(b.l)
            for i, x in zip(ix, v.l):
                new[i] = x
            self.store(l[1], V(b.t, new), sc, ln)
            return
        if l[0] == 'index':
            b, i = self.ev(l[1], sc), self.const_int(self.ev(l[2], sc), ln)
            new = list(b.l)
            new[i] = v.l[0]
            self.store(l[1], V(b.t, new), sc, ln)
            return
        raise GlslError('line %d: assignment target' % ln)


# ------------------------------------------------------------------ obligations
TYPES = {'kln_plane': 'plane', 'kln_line': 'line', 'kln_point': 'point', 'kln_rotor': 'rotor',
         'kln_translator': 'translator', 'kln_motor': 'motor'}
FIELDS = {'plane': ('p0',), 'line': ('p1', 'p2'), 'point': ('p3',), 'rotor': ('p1',), 'translator': ('p2',),
          'motor': ('p1', 'p2')}
EXPECTED = [('kln_mul', ('rotor', 'rotor')), ('kln_mul', ('translator', 'translator')), ('kln_mul', ('motor', 'motor')),
            ('kln_apply', ('rotor', 'plane')), ('kln_apply', ('motor', 'plane')), ('kln_apply', ('rotor', 'point')),
            ('kln_apply', ('motor', 'point')), ('kln_apply', ('motor',))]


def spec_of(name, types):
    from specs import SPECS
    if name == 'kln_mul':
        nm = 'operator*(%s, %s)' % types
    elif len(types) == 1:
        nm = '%s::operator()(origin)' % types
    else:
        nm = '%s::operator()(%s)' % types
    return next((s for s in SPECS if s.name == nm), None)


def check(o):
    import check as K
    from ga import LAYOUT
    path = os.path.join(build.REPO, 'glsl', 'klein.glsl')
    try:
        prog = Parser(open(path).read())
    except GlslError as e:
        o.error('glsl/klein.glsl: %s' % e)
        return
    found = set()
    for fn in prog.fns:
        if fn.name not in ('kln_mul', 'kln_apply'):
            continue
        types = tuple(TYPES.get(t, t) for _, t, _ in fn.params)
        label = '%s(%s)' % (fn.name, ', '.join(types))
        s = spec_of(fn.name, types)
        if s is None:
            o.error('%s: no reference' % label)
            continue
        found.add((fn.name, types))
        ctx = Ctx()
        e = K.make_env(s, ctx)
        want = K.expected(s, e)
        args = []
        for k, t in enumerate(types):
            lanes = e.lanes[s.args[k][0]]
            args.append(V('kln_' + t, {f: V('vec4', list(lanes[4 * j:4 * j + 4])) for j, f in enumerate(FIELDS[t])}))
        where = 'glsl/klein.glsl:%d' % fn.line
        it = Interp(prog, ctx)
        try:
            r, _ = it.run(fn, args)
        except Undef as x:
            o.violate(label, x.what, 'glsl/klein.glsl:%d' % x.line)
            continue
        except (GlslError, Unsupported) as x:
            o.error('%s: %s' % (label, x))
            continue
        rt = TYPES.get(r.t)
        if rt != s.ret:
            o.violate(label, 'returns %s instead of %s' % (r.t, s.ret), where)
            continue
        got = [x for f in FIELDS[rt] for x in r.l[f].l]
        names = LAYOUT[rt]
        n = 0
        for i, (g, w) in enumerate(zip(got, want)):
            if rt == 'translator' and i == 0:
                lab = 'e0123'
            else:
                lab = names[i] or 'lane %d' % i
            if g is None:
                o.violate(label, '%s is never assigned' % lab, where)
                continue
            n += 1
            d = K.same_value(ctx, g, w) or K.undefined_at(ctx, g, want)
            if d:
                o.violate(label, '%s %s' % (lab, d), where)
        o.count('result components compared with the reference', n)
        o.count('functions analysed')
        o.count('statements interpreted', it.steps)
        o.samples.append({'function': label, 'line': fn.line, 'components': n})
    for x in EXPECTED:
        if x not in found:
            o.error('%s(%s) was not found' % (x[0], ', '.join(x[1])))
