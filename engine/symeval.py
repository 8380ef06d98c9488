"""Values of expressions: the parser of the symbolic utility against the
grammar of its operators.

Every function of the parser is interpreted abstractly over the same domain as
symmap (multivectors are formal expressions).  Tokens are symbols with a set
of possible kinds; a reference automaton (operator precedence, signs, grouping)
runs along with the tokens the function consumes and with the calls it makes,
and states what value the text read so far has.  A call of another function of
the parser stands for one operand of a level of the grammar; recursion is cut
there.  Loops are explored until the abstract states repeat."""
import os
import re
import time
from fractions import Fraction
import llvm as L
import build
from symparse import compile_sym, layout
from symmap import (Machine, State, P, GiveUp, Wrong, Late, ptr, is_ptr, atom, num, delta, thaw, ATOMS, aid, ZERO, ONE,
                    module, show, first_line, limited, bilinear, is_multi)

LEVELS = {'+': 0, '-': 0, '*': 1, '^': 2, '&': 3, '|': 4}
UNARY = 5
OPS = '+-~*^&|'
KINDS = frozenset(OPS) | {'number', 'identifier', 'el+', 'el-', '(', ')', 'eof'}
STARTS = frozenset(['+', '-', '~', 'number', 'identifier', 'el+', 'el-', '('])
NAMES = {'el+': 'an element', 'el-': 'an element', 'number': 'a number', 'identifier': 'an identifier', 'eof': 'the end of the text'}


def name(k):
    return NAMES.get(k, "'%s'" % k)


class Again(Exception):
    pass


class Bad(Wrong):
    def __init__(self, kind, msg, where=None):
        Wrong.__init__(self, msg, where)
        self.kind = kind


# ------------------------------------------------------------------ reference
class Ghost:
    """what the text read so far means"""
    __slots__ = ('level', 'frames', 'cur', 'pref', 'maybe', 'cell', 'pos', 'word', 'dead')

    def __init__(self, level, cell, pos):
        self.level, self.frames, self.cur, self.pref, self.maybe = level, (((False, False), ()),), None, (False, False), None
        self.cell, self.pos, self.word, self.dead = cell, pos, (), False

    def copy(self):
        g = Ghost(self.level, self.cell, self.pos)
        g.frames, g.cur, g.pref, g.maybe, g.word, g.dead = self.frames, self.cur, self.pref, self.maybe, self.word, self.dead
        return g

    def key(self):
        if self.dead:
            return 'dead', self.level
        return (self.level, tuple((p, tuple((v.f, o) for v, o in e)) for p, e in self.frames), self.cur and self.cur.f,
                self.pref, self.maybe and self.maybe.f)


class PState(State):
    __slots__ = ('kinds', 'ghost', 'alias')

    def __init__(self):
        State.__init__(self)
        self.kinds, self.ghost, self.alias = {}, None, {}

    def copy(self):
        s = PState()
        s.mem = dict(self.mem)
        s.obj = {k: v.copy() if hasattr(v, 'copy') else v for k, v in self.obj.items()}
        s.sub, s.zero, s.cond, s.cur = dict(self.sub), dict(self.zero), dict(self.cond), dict(self.cur)
        s.zeroed, s.fuzzy = self.zeroed, self.fuzzy
        s.kinds, s.alias = dict(self.kinds), dict(self.alias)
        s.ghost = self.ghost.copy() if self.ghost else None
        return s


def fields(t):
    """{name: (offset, size)} of the parts of a token, from the debug information"""
    md = dict(re.findall(r'^(!\d+) = (.*)$', t, flags=re.M))

    def comp(ref):
        x = md.get(ref, '')
        while 'DW_TAG_typedef' in x or 'DW_TAG_const_type' in x:
            x = md.get(re.search(r'baseType: (!\d+)', x).group(1), '')
        return x

    def members(x):
        m = re.search(r'elements: (!\d+)', x)
        for e in re.findall(r'!\d+', md.get(m.group(1), '')) if m else ():
            y = md.get(e, '')
            if 'DW_TAG_member' in y:
                n = re.search(r'name: "(\w+)"', y)
                o = re.search(r'offset: (\d+)', y)
                b = re.search(r'baseType: (!\d+)', y)
                yield n and n.group(1), int(o.group(1)) // 8 if o else 0, b and b.group(1), \
                    int((re.search(r'size: (\d+)', y) or [0, 0])[1]) // 8

    tok = next((x for x in md.values() if 'DW_TAG_structure_type, name: "token",' in x and 'elements:' in x), None)
    if not tok:
        return None
    out = {}

    def walk(x, base, pre):
        for n, o, b, z in members(x):
            y = comp(b) if b else ''
            if 'elements:' in y and ('DW_TAG_union_type' in y or 'DW_TAG_structure_type' in y):
                walk(y, base + o, pre + (n,) if n else pre)
            else:
                out['.'.join(p for p in pre + (n,) if p)] = (base + o, z)
    walk(tok, 0, ())
    out['size'] = int(re.search(r'size: (\d+)', tok).group(1)) // 8
    return out


ASSOC = '*^&'


def flat(p):
    """products of multivectors with the associative ones flattened"""
    r = {}
    for m, c in p.t.items():
        k = tuple(sorted((norm_atom(a), e) for a, e in m))
        r[k] = r.get(k, 0) + c
    return {k: c for k, c in r.items() if c}


def norm_atom(a):
    x = ATOMS[a]
    if x[0] == 'op2':
        o = x[1]
        parts = []
        for y in x[2:]:
            p = thaw(y)
            (m, c), = p.t.items()
            if o in ASSOC and c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 'op2' and ATOMS[m[0][0]][1] == o:
                parts += norm_atom(m[0][0])[2]
            else:
                parts.append(tuple(sorted(map(repr, flat(p).items()))))
        return ('op2', o, tuple(parts))
    return ('a', repr(a), ())


def same(a, b):
    return a == b or flat(a) == flat(b)


# ------------------------------------------------------------------ machine
class Parser(Machine):
    def __init__(self, mod, own, lay):
        Machine.__init__(self, mod, own)
        self.lay = lay
        self.fields = lay['fields']
        self.types = {v: k for k, v in lay['values'].items()}
        self.unroll = None          # exact mode: iterations of a loop that are followed
        self.wrongs = None          # exact mode: everything found
        self.levels, self.suspects, self.inline, self.general = {}, {}, set(), {}
        self.trying, self.busy, self.nseg, self.done_ = {}, [], 0, []
        self.sr = {}
        self.inside = 0
        self.t0, self.limit = time.time(), 60
        self.complete = 0
        self.first_counts, self.counts = set(), set()     # integers parse passes, integers passed on
        self.deadline, self.laps = self.t0 + self.limit, 2
        self.root, self.symbolic = None, False
        self.nodeaths = {}
        self.states = self.paths = 0

    # ---------------------------------------------------------- tokens
    def split(self, st, key, part):
        """states in which part(kind) is one thing"""
        ks = st.kinds.get(key, KINDS)
        by = {}
        for k in ks:
            by.setdefault(part(k), set()).add(k)
        out = []
        for v in sorted(by, key=str):
            s = st.copy()
            s.kinds[key] = frozenset(by[v])
            out.append((s, v))
        return out

    def where_tok(self, reg, off):
        n = self.fields['size']
        return (reg[1], off // n), off % n

    def tok_type(self, k):
        t = 'op' if k in OPS else 'element' if k in ('el+', 'el-') else 'delimiter' if k in '()' else k
        return self.lay['values'].get(t)

    def tok_byte(self, k):
        """the character stored in the token"""
        return ord(k) if k in OPS or k in '()' else None

    def read(self, st, reg, off, size):
        """[(state, value)] of a part of a token"""
        key, o = self.where_tok(reg, off)
        F = self.fields
        if (o, size) == F.get('type'):
            return [(s, num(v)) for s, v in self.split(st, key, self.tok_type)]
        if size == 1 and (o, 1) in (F.get('op'), F.get('delimiter')):
            out = []
            for s, v in self.split(st, key, self.tok_byte):
                out.append((s, num(v) if v is not None else atom('tok', key, 'raw')))
            return out
        what = {'negative': F.get('e.negative'), 'value': F.get('e.value'), 'num': F.get('num'),
                'data': F.get('id.data'), 'len': F.get('id.size')}
        cand = [n for n, w in what.items() if w == (o, size)]
        need = {'negative': ('el+', 'el-'), 'value': ('el+', 'el-'), 'num': ('number',), 'data': ('identifier',), 'len': ('identifier',)}
        if not cand:
            if not any(w[0] < o + size and o < w[0] + w[1] for w in F.values() if isinstance(w, tuple)):
                return [(st, atom('padding', key, o))]
            raise GiveUp('part of a token')
        out = []
        for s, v in self.split(st, key, lambda k: next(((n, k if n == 'negative' else '') for n in cand if k in need[n]), ('raw', ''))):
            if v[0] == 'negative':
                out.append((s, num(int(v[1] == 'el-'))))
            elif v[0] == 'data':
                out.append((s, ptr(('name', key))))
            else:
                out.append((s, atom('nat' if v[0] in ('value', 'len') else 'tok', key, v[0], o)))
        return out

    def step(self, f, n, st, env, base):
        if n.op == 'load':
            p = self.val(env, n.ops[0])
            if is_ptr(p) and p[1] in st.alias and p[2] is not None:
                lo, hi, r, o = st.alias[p[1]]
                if lo <= p[2] < hi and (p[1], p[2]) not in st.mem:
                    p = ptr(r, o + p[2] - lo)
            if is_ptr(p) and p[1][0] == 'tok':
                if p[2] is None:
                    raise GiveUp('a token at an unknown place')
                out = []
                for s, x in self.read(st, p[1], p[2], n.size):
                    e = dict(env)
                    e[n.i] = x
                    out.append((s, e))
                return out
        return Machine.step(self, f, n, st, env, base)

    def memcpy(self, st, d, s, n):
        a, b = self.place(d), self.place(s)
        if b[0][0] == 'tok':
            k = int(n.const())
            for (r, o) in [q for q in st.mem if q[0] == a[0] and a[1] <= q[1] < a[1] + k]:
                del st.mem[(r, o)]
            st.alias[a[0]] = (a[1], a[1] + k, b[0], b[1])
            return
        if b[0] in st.alias and not any(q[0] == b[0] for q in st.mem):
            lo, hi, r, o = st.alias[b[0]]
            st.alias[a[0]] = (a[1], a[1] + hi - b[1], r, o + b[1] - lo)
            return
        Machine.memcpy(self, st, d, s, n)

    def same_ptr(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if x[1][0] == 'tok' and y[1][0] == 'tokend':
                return [(st, False)]
        return Machine.same_ptr(self, st, a, b)

    def initial(self, st, reg, off, size, kind):
        if reg[0] == 'tok':
            raise GiveUp('a token is read in an unknown way')
        return Machine.initial(self, st, reg, off, size, kind)

    # ---------------------------------------------------------- reference automaton
    def combine_(self, st, a, o, b):
        return a + b if o == '+' else a - b if o == '-' else bilinear(o, a, b)

    def reduce(self, st, g, level):
        pref, pend = g.frames[-1]
        pend = list(pend)
        while pend and LEVELS[pend[-1][1]] >= level:
            v, o = pend.pop()
            g.cur = self.combine_(st, v, o, g.cur)
        g.frames = g.frames[:-1] + ((pref, tuple(pend)),)

    def settle_value(self, st, g):
        """a number or identifier without an element is a scalar"""
        if g.maybe is not None:
            g.cur = self.signed(st, g.maybe * delta('mv', ZERO), g.pref)
            g.maybe, g.pref = None, (False, False)

    def signed(self, st, v, pref):
        if pref[1]:
            v = self.reverse(st, v)
        return -v if pref[0] else v

    def token(self, st, g, k, key):
        """one more token; the text is dead if no well-formed text starts like it"""
        g.word = g.word + (k,)
        if g.dead:
            return
        if g.level == -2:
            raise GiveUp('reading behind the end')
        if g.maybe is not None:
            if k in ('el+', 'el-'):
                v = g.maybe * delta('mv', atom('nat', key, 'value', self.fields['e.value'][0]))
                g.cur = self.signed(st, -v if k == 'el-' else v, g.pref)
                g.maybe, g.pref = None, (False, False)
                return
            self.settle_value(st, g)
        if g.cur is None:
            if k in '+-~':
                n, r = g.pref
                g.pref = (n ^ (k == '-'), r ^ (k == '~'))
                return
            if k == 'number':
                g.maybe = atom('tok', key, 'num', self.fields['num'][0])
                return
            if k == 'identifier':
                g.maybe = delta('poly', delta('mon', atom('name', key)))
                return
            if k in ('el+', 'el-'):
                v = delta('mv', atom('nat', key, 'value', self.fields['e.value'][0]))
                g.cur = self.signed(st, -v if k == 'el-' else v, g.pref)
                g.pref = (False, False)
                return
            if k == '(':
                g.frames = g.frames + ((g.pref, ()),)
                g.pref = (False, False)
                return
            g.dead = True
            return
        if k in LEVELS:
            if len(g.frames) == 1 and LEVELS[k] < g.level:
                raise Bad('takes', 'an operand takes in the operator %s, which binds weaker' % name(k))
            self.reduce(st, g, LEVELS[k])
            pref, pend = g.frames[-1]
            g.frames = g.frames[:-1] + ((pref, pend + ((g.cur, k),)),)
            g.cur = None
            return
        if k == ')':
            if len(g.frames) == 1:
                raise Bad('takes', 'a parenthesis is closed that was not opened here')
            self.reduce(st, g, 0)
            pref = g.frames[-1][0]
            g.frames = g.frames[:-1]
            g.cur = self.signed(st, g.cur, pref)
            return
        if k == 'eof':
            if len(g.frames) == 1 and g.level == -1:
                self.reduce(st, g, 0)
                g.level = -2
                return
            if len(g.frames) == 1:
                raise Bad('takes', 'the end of the text is passed')
            g.dead = True
            return
        g.dead = True

    def operand(self, st, g, level, v):
        g.word = g.word + ('operand',)
        if g.dead or g.cur is not None or g.maybe is not None:
            g.dead = True
            return
        pend = g.frames[-1][1]
        if pend:
            o = pend[-1][1]
            if level < LEVELS[o] or level == LEVELS[o] and o not in ASSOC + '+':
                raise Bad('value', "the right operand of '%s' takes in operators it binds stronger than or as strong as" % o)
        if g.pref != (False, False) and level < UNARY:
            if g.pref[1] or level == 0:
                raise Bad('value', 'a sign or reversal applies to more than its operand')
        if len(g.frames) == 1 and level < g.level:
            raise Bad('takes', 'an operand takes in operators that bind weaker')
        g.cur = self.signed(st, v, g.pref)
        g.pref = (False, False)

    def advance(self, st, cellv):
        """the automaton follows the cursor: [state]"""
        g = st.ghost
        if not (is_ptr(cellv) and cellv[1][0] == 'tok' and cellv[2] is not None):
            raise GiveUp('the position in the text is not known')
        n = self.fields['size']
        seg, idx = cellv[1][1], cellv[2] // n
        if cellv[2] % n or seg != g.pos[0] or idx < g.pos[1]:
            raise GiveUp('the position in the text moves back')
        work = [st]
        for i in range(g.pos[1], idx):
            nxt = []
            for s in work:
                for s2, k in self.split(s, (seg, i), lambda k: k):
                    try:
                        self.token(s2, s2.ghost, k, (seg, i))
                        s2.ghost.pos = (seg, i + 1)
                        nxt.append(s2)
                    except Bad as b:
                        self.report(b)
            work = nxt
        if self.unroll is not None:
            work = [s for s in work if len(s.ghost.word) <= self.unroll]
        return work

    def report(self, b):
        if b.where is None:
            b.where = self.where()
        if self.wrongs is None:
            raise b
        self.wrongs.append(b)

    def cursor(self, st):
        g = st.ghost
        return None if g is None or g.cell is None else st.mem.get(g.cell, (None, 0))[0]

    def viable(self, g, kinds):
        """kinds with which a well-formed text can go on"""
        if g.dead:
            return frozenset()
        if g.cur is None and g.maybe is None:
            return kinds & STARTS
        r = set()
        for k in kinds:
            if k in LEVELS or k == ')' or k == 'eof' and len(g.frames) == 1:
                r.add(k)
            if g.maybe is not None and k in ('el+', 'el-'):
                r.add(k)
        return r

    def thrown(self, f, o):
        st = o[1]
        if st.ghost is None or self.inside:
            return
        v = self.cursor(st)
        if v is None:
            return
        for s in self.advance(st, v):
            ks = self.viable(s.ghost, s.kinds.get(s.ghost.pos, KINDS))
            if s.ghost.level == -1 and s.ghost.cur is not None:
                ks = ks & {'eof'}
            if not ks or self.excused(s):
                continue
            k = sorted(ks)[0]
            self.report(Bad('rejects', 'a well-formed expression is rejected at %s%s' % (name(k), self.context(s.ghost)), f.line(o[2]) if o[2] is not None else None))

    def context(self, g):
        w = [name(k).strip("'") for k in g.word[-6:]]
        return ' after ' + ' '.join(w) if w else ''

    def excused(self, st):
        """the path needs a depth of more than fifty"""
        facts = []
        for f, z in st.zero.items():
            p = thaw(f)
            at = p.atoms()
            if at and all(ATOMS[a][0] == 'nat' and ATOMS[a][1] == 'depth' for a in at):
                facts.append((p, lambda v, z=z: (v == 0) == z))
        for a, w in st.cond.items():
            x = ATOMS[a]
            if 'depth' in repr(x) or any(ATOMS[b][1:2] == ('depth',) for b in range(len(ATOMS)) if ('(%d, 1)' % b) in repr(x)):
                p = thaw(x[1]) if len(x) == 2 and isinstance(x[1], tuple) and x[1][0] == 'P' else None
                if p is None or x[0] != 'sign' and x[0] != 'neg':
                    return True
                facts.append((p, lambda v, w=w: ('+' if v > 0 else '-' if v < 0 else '0') == w))
        for d in self.reachable():
            ok = True
            for p, test in facts:
                v = p.subst({a: num(d) for a in p.atoms()}).const()
                if v is None or not test(v):
                    ok = False
                    break
            if ok:
                return False
        return True

    def reachable(self):
        """values a count of nested calls can have before the nesting is deep"""
        out = set()
        for c in self.first_counts or {0}:
            up, down = any(x > c for x in self.counts), any(x < c for x in self.counts)
            out |= set(range(int(c) - 50 * (down or not up), int(c) + 1 + 50 * (up or not down)))
        return out

    # ---------------------------------------------------------- calls
    def sret(self, nm):
        if nm not in self.sr:
            f = self.func(nm)
            t = ''
            if f is not None:
                fn = next((x for x in self.mod.functions() if L.name(x) == nm), None)
                t = L.text(fn).split('{')[0] if fn is not None else ''
                t = next((l for l in L.text(fn).split('\n') if l.startswith('define')), '')
            self.sr[nm] = bool(re.search(r'sret\(%(class|struct)\.mv\)', t))
        return self.sr[nm]

    def nonterminal(self, st, nm, d, args):
        """index of the argument that holds the cursor, if the function parses something"""
        if re.match(r'(std|__gnu_cxx|mv|poly|mon|algebra|bool|void|decltype)\b', d) or d.startswith('operator') or not self.sret(nm):
            return None
        for i, a in enumerate(args):
            if is_ptr(a) and a[2] is not None:
                v = st.mem.get((a[1], a[2]), (None, 0))[0]
                if is_ptr(v) and v[1][0] == 'tok':
                    return i
        return None

    def call(self, st, nm, args, n=None):
        d = self.dem.get(nm, nm)
        r = self.library(st, nm, d, args)
        if r is not None:
            return r
        if st.ghost is not None and not self.inside:
            i = self.nonterminal(st, nm, d, args)
            if i is not None:
                r = self.parse_call(st, nm, args, i)
                if r is not None:
                    return r
        return Machine.call(self, st, nm, args, n)

    def library(self, st, nm, d, args):
        if nm == '__cxa_allocate_exception':
            return [(st, ptr(('a', 'exception')))]
        if nm in ('__cxa_throw', '__cxa_free_exception') or re.match(r'std::\w+(_error|exception|argument)::', d):
            return [(st, None)]
        m = re.match(r'(mv|poly|mon)::~(mv|poly|mon)\(\)', d)
        if m:
            a = self.place(args[0])
            st.obj.pop(a, None)
            return [(st, None)]
        if d.startswith('tokenize('):
            st.mem[(self.place(args[0])[0], 0)] = (ptr(('vec',)), 8)
            return [(st, None)]
        m = re.match(r'(?:.* )?std::vector<token, std::allocator<token> >::(~?\w+|operator\[\])\(', d)
        if m:
            k = m.group(1)
            if k in ('begin', 'cbegin', 'data'):
                return [(st, ptr(('tok', 't'), 0))]
            if k in ('end', 'cend'):
                return [(st, ptr(('tokend',)))]
            if k == '~vector':
                return [(st, None)]
            if k == 'front':
                return [(st, ptr(('tok', 't'), 0))]
            raise GiveUp('the vector of tokens is used in an unknown way')
        S = self.STR
        if d.startswith(S + '::basic_string') and len(args) >= 3 and is_ptr(args[1]) and args[1][1][0] == 'name':
            key = args[1][1][1]
            v = atom('name', key)
            if args[1][2] != 0 or not isinstance(args[2], P) or args[2] != atom('nat', key, 'len', self.fields['id.size'][0]):
                v = atom('part of name', key, repr(args[1:3]))
            self.assign(st, self.place(args[0]), 'str', v)
            return [(st, None)]
        if re.match(r'std::allocator<char>::', d) or re.match(r'std::__new_allocator<char>::', d):
            return [(st, None)]
        return None

    def parse_call(self, st, nm, args, ci):
        g = st.ghost
        cell = (args[ci][1], args[ci][2])
        if g.cell is None:
            g.cell = cell
        elif g.cell != cell:
            return None
        out = []
        self.stack.append(self.where()) if 0 else None
        for s in self.advance(st, s_cell(st, cell)):
            g = s.ghost
            kinds = s.kinds.get(g.pos, KINDS)
            key = self.key_of(nm, args, ci, kinds)
            if key is None or key in self.inline:
                out += Machine.call(self, s, nm, args)
                continue
            lev = self.resolve(key)
            if lev is None:
                self.inline.add(key)
                out += Machine.call(self, s, nm, args)
                continue
            self.nseg += 1
            seg = ('c', self.nseg)
            v = atom('call', nm, self.nseg)
            try:
                self.operand(s, g, lev, v)
            except Bad as b:
                self.report(b)
                continue
            r = self.place(args[0])
            self.assign(s, r, 'mv', v)
            s.mem[(r[0], r[1] + 48)] = (ptr(('alg',)), 8)
            s.mem[cell] = (ptr(('tok', seg), 0), 8)
            g.pos = (seg, 0)
            s.kinds[(seg, 0)] = frozenset(k for k in KINDS if LEVELS.get(k, -1) < lev and (lev < UNARY or True))
            out.append((s, None))
        return out

    def key_of(self, nm, args, ci, kinds):
        gen = self.general.setdefault(nm, set())
        sig = []
        for i, a in enumerate(args):
            if i == 0:
                sig.append('result')
            elif i == ci:
                sig.append('cursor')
            elif i in gen:
                sig.append('any')
            elif isinstance(a, P):
                if self.symbolic:
                    gen.add(i)
                    sig.append('any')
                elif a.const() is None or not self.near(a.const()):
                    for k in self.busy + [(nm, tuple(sig) + (8,))]:
                        self.general.setdefault(k[0], set()).update(
                            j for j, x in enumerate(k[1]) if isinstance(x, (int, Fraction)) and not self.near(x, 5))
                    gen.add(i)
                    raise Again()
                else:
                    self.counts.add(a.const())
                    sig.append(a.const())
            elif is_ptr(a) and a[1][0] in ('alg', 'tokend'):
                sig.append(a[1])
            else:
                return None
        if self.root and nm == self.root[0] and tuple(sig) == self.root[1]:
            kinds = KINDS
        return (nm, tuple(sig), frozenset(kinds))

    def near(self, x, n=7):
        return any(abs(x - c) <= n for c in self.first_counts or {0})

    def resolve(self, key):
        if key in self.levels:
            return self.levels[key]
        if key in self.busy:
            # a function that calls itself: the level that is being tried
            return 0 if self.root and key[:2] == self.root else self.trying.get(key)
        if len(self.busy) > 100:
            raise GiveUp('recursion')
        self.busy.append(key)
        save = self.unroll, self.wrongs, self.stack, self.depth, self.inside, self.LIMIT, self.deadline, self.complete
        self.LIMIT, self.deadline = Machine.LIMIT, self.t0 + self.limit
        try:
            self.stack, self.depth = [], 0
            cand = None
            for lev in (5, 4, 3, 2, 1, 0):
                self.unroll = self.wrongs = None
                self.trying[key] = lev
                try:
                    self.run_at(key, lev)
                except (Wrong, GiveUp):
                    continue
                self.levels[key] = lev
                return lev
            for lev in (5, 4, 3, 2, 1, 0):
                self.trying[key] = lev
                found = self.exact(key, lev)
                if found and all(getattr(b, 'kind', '') in ('value', 'rejects', 'accepts') + ('partial',) * bool(self.complete)
                                 for b in found):
                    cand = lev
                    self.suspects[key] = found[0]
                    break
            self.levels[key] = cand
            return cand
        finally:
            (self.unroll, self.wrongs, self.stack, self.depth, self.inside, self.LIMIT,
             self.deadline, self.complete) = save
            self.busy.pop()

    def exact(self, key, lev):
        """violations of the first iterations, with nothing generalised"""
        save = self.unroll, self.wrongs, self.LIMIT, self.deadline, self.laps
        try:
            for u, self.laps in ((2, 12), (3, 2), (4, 2), (5, 2)):
                self.unroll, self.wrongs, self.complete = u, [], 0
                self.LIMIT, self.deadline = 100000, time.time() + 10
                try:
                    self.run_at(key, lev)
                except GiveUp:
                    self.in_time()
                except Wrong as w:
                    self.wrongs.append(w)
                if self.wrongs:
                    return self.wrongs
            return []
        finally:
            self.unroll, self.wrongs, self.LIMIT, self.deadline, self.laps = save

    def in_time(self):
        if time.time() - self.t0 > self.limit:
            raise Late('the time limit')

    # ---------------------------------------------------------- functions
    def start(self, key, lev):
        nm, sig, kinds = key
        st = PState()
        cell = (('a', 'it'), 0)
        st.mem[cell] = (ptr(('tok', 's'), 0), 8)
        st.kinds[('s', 0)] = kinds
        st.ghost = Ghost(lev, cell, ('s', 0))
        args = []
        for i, s in enumerate(sig):
            args.append(ptr(('a', 'result')) if s == 'result' else ptr(*cell) if s == 'cursor' else
                        atom('nat', 'depth', nm, i) if s == 'any' else ptr(s) if isinstance(s, tuple) else num(s))
        return st, args

    def run_at(self, key, lev):
        st, args = self.start(key, lev)
        self.steps = 0
        f = self.func(key[0])
        self.analysed.add(key[0])
        for s, _ in self.run(f, args, st):
            self.returned(f, s, (('a', 'result'), 0))

    def returned(self, f, st, res):
        v = self.cursor(st)
        self.paths += 1
        for s in self.advance(st, v):
            g = s.ghost
            if g.dead or g.cur is None and g.maybe is None or len(g.frames) > 1:
                self.report(Bad('accepts' if g.dead else 'partial', 'a text that is not an expression is accepted%s' % self.context(g), first_line(f)))
                continue
            ks = s.kinds.get(g.pos, KINDS)
            if g.level == -2:
                ks = frozenset(['eof'])
            elif g.level == -1 and ks - {'eof'}:
                self.report(Bad('accepts', 'a text that is not an expression is accepted%s' % self.context(g), first_line(f)))
                if 'eof' not in ks:
                    continue
                ks = frozenset(['eof'])
            left = [k for k in ks if g.level >= 0 and k in LEVELS and LEVELS[k] >= g.level]
            if g.maybe is not None:
                left += [k for k in ks if k in ('el+', 'el-')]
            if left:
                self.report(Bad('leaves', '%s is left behind%s' % (name(sorted(left)[0]), self.context(g)), first_line(f)))
                continue
            if not (ks & {'eof', ')'} or any(k in LEVELS for k in ks)) or g.level < 0 and 'eof' not in ks:
                continue
            self.settle_value(s, g)
            self.reduce(s, g, 0)
            self.complete += 1
            got = self.norm(s, self.value(s, res, 'mv'))
            want = self.norm(s, g.cur)
            if not same(got, want):
                if s.fuzzy:
                    raise GiveUp('a loop that may be left early')
                self.report(Bad('value', 'the value%s is %s instead of %s' % (self.context(g).replace(' after', ' of'), pretty_(got),
                                                                             pretty_(want)), first_line(f)))
                continue
            al = s.mem.get((res[0], res[1] + 48), (None, 8))[0]
            if al != ptr(('alg',)):
                raise GiveUp('the algebra of the result')

    # ---------------------------------------------------------- blocks and loops
    def doomed(self, f):
        """blocks from which the function cannot return"""
        x = self.nodeaths.get(id(f))
        if x is None:
            pred, good = {}, []
            for b, code in f.code.items():
                t = code[-1]
                for s in (f.succ[b][:1] if t.op == 'invoke' else f.succ[b]):
                    pred.setdefault(s, []).append(b)
                if t.op == 'ret':
                    good.append(b)
            seen = set(good)
            while good:
                for p in pred.get(good.pop(), ()):
                    if p not in seen:
                        seen.add(p)
                        good.append(p)
            x = self.nodeaths[id(f)] = set(f.code) - seen
        return x

    def block(self, f, b, prev, st, env, base, skip_phis=False):
        if time.time() > self.deadline or self.wrongs and len(self.wrongs) > 30:
            self.in_time()
            raise GiveUp('the time limit')
        if b in self.doomed(f):
            i = next((i for i in f.code[b] if not f.line(i).startswith('?')), None)
            return [('throw', st, i)]
        return Machine.block(self, f, b, prev, st, env, base, skip_phis)

    def other_loop(self, f, h, prev, st, env, active, base):
        if st.ghost is None:
            return Machine.other_loop(self, f, h, prev, st, env, active, base)
        out, seen = [], set()
        born = self.serial
        heads = [n.i for n in f.code[h] if n.op == 'phi']
        work = [(s, env, 0) for s in self.arrive(st)]
        while work:
            s, e, it = work.pop()
            if self.unroll is None:
                for d in (s.mem, s.obj):
                    for a in [a for a in d if a[0][0] == 'a' and len(a[0]) == 3 and a[0][1] > born]:
                        del d[a]
                for a in [a for a in s.alias if a[0] == 'a' and len(a) == 3 and a[1] > born]:
                    del s.alias[a]
                s, e = self.canonical(f, h, s, e)
                k = self.head_key(s, e, heads)
                if k in seen:
                    continue
                seen.add(k)
                if len(seen) > 80:
                    raise GiveUp('a loop with too many states')
            elif it > self.laps:
                continue
            self.states += 1
            for o in self.body(f, h, s, e, active, base):
                if o[0] == 'back':
                    ph = self.phis(f, h, o[2], o[4])
                    e2 = dict(env)
                    e2.update(ph)
                    work += [(s2, e2, it + 1) for s2 in self.arrive(o[3])]
                else:
                    out.append(o)
        return out

    def arrive(self, st):
        v = self.cursor(st)
        return [st] if v is None else self.advance(st, v)

    def canonical(self, f, h, st, env):
        g = st.ghost
        v = self.cursor(st)
        env = dict(env)
        if v is not None:
            seg = ('h', f.name if hasattr(f, 'name') else str(h), str(h), len(g.frames))
            kinds = st.kinds.get(g.pos, KINDS)
            used = set()
            for a, (x, z) in list(st.mem.items()):
                if a != g.cell and is_ptr(x) and x[1][0] in ('tok', 'name'):
                    if x[1][1] == seg or x[1][1][0] == seg:
                        st.mem[a] = (('?',), z)
                    else:
                        used.add(x[1][1])
            for i, x in list(env.items()):
                if is_ptr(x) and x[1][0] == 'tok':
                    if x[1][1] == seg:
                        env[i] = ('?',)
                    else:
                        used.add(x[1][1])
            st.kinds = {k: w for k, w in st.kinds.items() if k[0] in used}
            st.mem[g.cell] = (ptr(('tok', seg), 0), 8)
            st.kinds[(seg, 0)] = kinds
            g.pos = (seg, 0)
        if g.cur is not None and g.maybe is None:
            ks = [LEVELS[k] for k in kinds if k in LEVELS] if v is not None else []
            self.reduce(st, g, max(ks, default=0))
        # one name for each value the automaton keeps
        new = {}

        def nm(p):
            p = self.norm(st, p)
            if p.f not in new:
                new[p.f] = atom('call', 'so far', str(h), len(new))
            return new[p.f]
        g.frames = tuple((pf, tuple((nm(x), o) for x, o in e)) for pf, e in g.frames)
        if g.cur is not None:
            g.cur = nm(g.cur)
        for a, m in list(st.obj.items()):
            if getattr(m, 'kind', None) == 'mv':
                x = self.norm(st, self.value(st, a, 'mv'))
                if x.f in new:
                    self.assign(st, a, 'mv', new[x.f])
        g.word = ('...',) if g.cur is not None or g.frames[-1][1] else ()
        return st, env

    def head_key(self, st, env, heads):
        obj = []
        for a, m in st.obj.items():
            if hasattr(m, 'kind'):
                obj.append((repr(a), self.norm(st, self.value(st, a, m.kind)).f))
            else:
                obj.append((repr(a), getattr(m, 'f', repr(m))))
        val = lambda x: x.f if isinstance(x, P) else repr(x)
        return (frozenset((repr(a), val(x)) for a, (x, z) in st.mem.items()), frozenset(obj), st.ghost.key(),
                tuple(sorted((repr(k), v) for k, v in st.kinds.items())) and
                frozenset((repr(k), v) for k, v in st.kinds.items()), tuple(val(env.get(i)) for i in heads))


def pretty_(p):
    t = show(p)
    t = re.sub(r"call\([^()]*\)", 'x', t)
    return t if len(t) < 200 else t[:200] + '...'


def s_cell(st, cell):
    return st.mem.get(cell, (None, 0))[0]


# ------------------------------------------------------------------ the whole parser
def lay_out():
    t = open(compile_sym('parser.cpp')).read()
    lay = layout(t)
    if lay is None:
        raise GiveUp('the type of a token')
    lay['fields'] = fields(t)
    F = lay['fields'] or {}
    for n in ('e.value', 'e.negative', 'num', 'id.data', 'id.size', 'delimiter', 'op', 'type', 'size'):
        if n not in F:
            raise GiveUp('the layout of a token (%s)' % n)
    for n in ('element', 'number', 'identifier', 'delimiter', 'op', 'eof'):
        if n not in lay['values']:
            raise GiveUp('the kinds of tokens (%s)' % n)
    return lay


def analyse(mod, own, lay):
    """(status, message, where, machine)"""
    M = Parser(mod, own, lay)
    M.symbolic = True
    try:
        r = attempt(M)
    except Late as e:
        r = ('unknown', str(e), None)
    if r[0] == 'holds':
        return r + (M,)
    force, general, counts = set(), {}, set()
    t0 = time.time()
    for _ in range(12):
        M = Parser(mod, own, lay)
        M.t0 = t0
        M.inline |= force
        M.counts |= counts
        M.general = {k: set(v) for k, v in general.items()}
        try:
            r = attempt(M)
        except Late as e:
            return 'unknown', str(e), None, M
        except Again:
            general, counts = M.general, M.counts
            continue
        if r[0] == 'retry':
            force |= set(M.suspects)
            continue
        return r + (M,)
    return 'unknown', 'the analysis does not settle', None, M


def attempt(M):
    nm = next((n for n, d in M.dem.items() if d.startswith('parse(') and M.func(n)), None)
    if nm is None:
        return 'missing', 'there is no function parse', None
    f = M.func(nm)
    M.skip.add(nm)
    calls = []

    def top(unroll):
        st = PState()
        st.ghost = Ghost(-1, None, ('t', 0))
        M.unroll, M.wrongs = unroll, None if unroll is None else []
        M.top = calls
        args = [ptr(('a', 'result')), ptr(('in', 'text')), ptr(('alg',))]
        if len(args) != len(f.params):
            raise GiveUp('the signature of parse')
        for s, _ in M.run(f, args, st):
            M.returned(f, s, (('a', 'result'), 0))
    # the nonterminal parse starts with
    orig = M.parse_call

    def first(st, n2, args, ci):
        if M.root is None:
            M.first_counts = {a.const() for a in args if isinstance(a, P) and a.const() is not None}
        key = M.key_of(n2, args, ci, KINDS)
        if key is not None and M.root is None:
            M.root = key[:2]
            M.levels[key] = 0
        return orig(st, n2, args, ci)
    M.parse_call = first
    g0 = Ghost.__init__
    bad = None
    try:
        top(None)
    except Again:
        raise
    except Wrong as w:
        bad = w
    except GiveUp as e:
        return 'unknown', 'parse: %s' % e, None
    finally:
        M.parse_call = orig
    if bad is not None:
        try:
            top(5)
        except GiveUp as e:
            return 'unknown', 'parse: %s' % e, None
        except Wrong as w:
            M.wrongs.append(w)
        if M.wrongs:
            return 'wrong', 'parse: %s' % M.wrongs[0], M.wrongs[0].where
        return 'unknown', 'parse: %s' % bad, None
    if M.root is None:
        return 'unknown', 'parse does not call a function that reads an expression', None
    key = (M.root[0], M.root[1], KINDS)
    M.levels[key] = 0
    M.busy.append(key)
    M.unroll = M.wrongs = None
    try:
        M.run_at(key, 0)
        ok = True
    except (Wrong, GiveUp) as e:
        ok, why = False, e
    if ok:
        if M.suspects:
            k, b = next(iter(M.suspects.items()))
            return 'wrong', '%s: %s' % (M.dem[k[0]].split('(')[0], b), b.where
        return 'holds', '', None
    if M.suspects:
        return 'retry', '', None
    found = M.exact(key, 0)
    if found:
        return 'wrong', '%s: %s' % (M.dem[key[0]].split('(')[0], found[0]), found[0].where
    return 'unknown', str(why), None



RULE = ('each function of the parser returns, for every sequence of tokens, the value the operator-precedence grammar gives to the '
        'tokens it consumed: | binds tightest, then &, ^, * and last + and -; equal operators group to the left; the signs + and - '
        'and the reversal ~ in front of a factor apply to it alone; a number or name may be followed by a basis element',
        'no function stops in front of an operator that belongs to its operand, and none passes one that does not',
        'no well-formed expression is rejected (nesting of less than fifty aside), every other text is')


def check(o, tier):
    try:
        mod, own = module()
        lay = lay_out()
    except build.BuildError as e:
        o.error(str(e))
        return
    o.coverage['rules'] = list(RULE)
    r = limited(600 if tier == 'thorough' else 300, lambda: analyse(mod, own, lay))
    status, msg, where, M = r[:4]
    if M:
        short = lambda n: M.dem.get(n, n).split('(')[0]
        o.count('functions of the parser analysed', len(M.analysed))
        o.count('states of loops', M.states)
        o.count('outcomes of functions', M.paths)
        for k, lev in M.levels.items():
            if lev is not None:
                o.samples.append({'function': short(k[0]), 'arguments': [str(x) for x in k[1]], 'reads': 'an operand of level %d' % lev})
    if status == 'wrong':
        o.violate('parse', msg, where or 'sym/parser.cpp', None)
    elif status == 'holds':
        o.count('functions proved', len(M.analysed))
    else:
        o.coverage.setdefault('not decided', []).append('parse: %s' % msg)


if __name__ == '__main__':
    import sys
    import time
    t0 = time.time()
    mod, own = module()
    lay = lay_out()
    print(time.time() - t0)
    r = analyse(mod, own, lay)
    print(r[:3], {k[0][4:20] + '%d' % len(k[2]): v for k, v in r[3].levels.items()}, r[3].states, r[3].paths)
    print(len(r[3].inline), [(k[0][:20], str(v)) for k, v in r[3].suspects.items()])
    print(time.time() - t0)
