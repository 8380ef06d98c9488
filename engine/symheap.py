"""Containers of the symbolic utility: no use of an erased element, no access through begin() of a container that may
be empty, and no loop that cannot end (sym/ga.cpp, sym/poly.cpp)."""
import os
import re
import build
import llvm as L
from flow import Func
from symparse import compile_sym, definitions, is_std

PASSES = 'cgscc(inline),globaldce,function(sroa,early-cse<memssa>,simplifycfg,lcssa)'
ERASE = '_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_'
HEADER = 8                      # offset of the header node in a map object


def module(src):
    raw = compile_sym(src)
    t = open(raw).read()
    defs = definitions(t)

    def reach(a):
        s, todo = set(), list(defs[a][0])
        while todo:
            x = todo.pop()
            if x in defs and x not in s:
                s.add(x)
                todo += defs[x][0]
        return s
    keep = {n for n in defs if n in reach(n) or (is_std(n) and defs[n][1]) or
            is_std(n) and any(is_std(x) and defs[x][1] for x in reach(n)) and not re.search('erase|begin|end|pp', n)}
    own = {n[1:] for n in defs if not is_std(n)}
    lines = []
    for l in t.split('\n'):
        if l.startswith('define '):
            m = re.match(r'define [^\n]*?(@[\w.$]+)\(', l)
            if m and m.group(1) in keep:
                l = re.sub(r'\) ((?:local_)?unnamed_addr )?#(\d+)', r') \1noinline #\2', l, count=1)
        lines.append(l)
    t = re.sub(r'^(attributes #\d+ = \{.*)$',
               lambda m: re.sub(r'\b(noinline|alwaysinline|optnone)\b ?', '', m.group(1)), '\n'.join(lines), flags=re.M)
    p, out = raw + '.heap.ll', raw + '.heap.bc'
    with open(p, 'w') as f:
        f.write(t)
    r = build.run([build.OPT, '-passes=' + PASSES, '-inline-threshold=100000', p, '-o', out])
    if r.returncode:
        raise build.BuildError('opt failed: ' + r.stderr[:2000])
    return build.load(out), own


def callee(n):
    f = L.called_value(n.i)
    return L.name(f) if f and L.is_function(f) else ''


class Heap:
    def __init__(self, fn, found):
        self.fn, self.found = fn, found
        self.stats = {}
        self.same = {}
        self.succ = dict(fn.succ)

    def root(self, v):
        """the pointer an address was computed from, and the constant offset or None"""
        off = 0
        while v in self.fn.where:
            n = self.fn.where[v]
            if n.op == 'gep':
                o = offset(self.fn.mod, n.i)
                off = None if off is None or o is None else off + o
                v = n.ops[0]
            elif n.op in ('bitcast', 'freeze'):
                v = n.ops[0]
            elif n.op == 'load' and v in self.same and self.same[v] != v:
                v = self.same[v]
            else:
                break
        return v, off

    def parameters(self):
        """loads of one place of a parameter which the function does not write: each for the first of them"""
        stored, first, same = set(), {}, {}
        code = [n for b in self.fn.blocks for n in self.fn.code[b]]
        for n in code:
            if n.op == 'store':
                stored.add(self.root(n.ops[1])[0])
        for n in code:
            if n.op == 'load' and n.kind == 'ptr':
                r, o = self.root(n.ops[0])
                if r not in self.fn.where and r not in stored and o is not None:
                    same[n.i] = first.setdefault((r, o), n.i)
        return same

    def say(self, kind, verdict, msg, n):
        self.found.append((kind, verdict, msg, self.fn.line(n), self.fn.name))

    def uses(self, n, v):
        """the instruction reads or writes the object v points to"""
        if n.op == 'load':
            return self.root(n.ops[0])[0] == v
        if n.op == 'store':
            return self.root(n.ops[1])[0] == v
        if n.op in ('call', 'invoke') and not callee(n).startswith('llvm.'):
            return any(L.kind(L.typeof(o)) == 'ptr' and self.root(o)[0] == v for o in n.ops[:L.num_args(n.i)])
        return False

    def erased(self):
        for b in self.fn.blocks:
            for k, n in enumerate(self.fn.code[b]):
                if n.op not in ('call', 'invoke') or callee(n) != ERASE:
                    continue
                v = self.root(n.ops[0])[0]
                d = self.fn.where.get(v)
                if d is None or d.op in ('alloca',):
                    continue
                bad = self.after(b, k + 1, v, d)
                if bad is not None:
                    self.say('erased', 'bad', 'an element is used after it was erased from its container', bad)
                else:
                    self.say('erased', 'ok', '', n)

    def after(self, b, k, v, d):
        seen, todo = set(), [(b, k)]
        while todo:
            b, k = todo.pop()
            code = self.fn.code[b]
            stop = False
            for n in code[k:]:
                if n is d:
                    stop = True
                    break
                if n.op == 'phi':
                    continue
                if self.uses(n, v) and not (n.op in ('call', 'invoke') and re.match('_Zd[la]P', callee(n))):
                    return n
            if not stop:
                for s in self.succ[b]:
                    if s not in seen:
                        seen.add(s)
                        todo.append((s, 0))
        return None

    # ------------------------------------------------------------- begin()
    def mentions(self, v, bases, depth=12):
        """the value depends on one of the given pointers"""
        seen, todo = set(), [v]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in bases:
                return True
            n = self.fn.where.get(x)
            if n is not None:
                todo += n.ops
        return False

    def begins(self):
        self.same = self.parameters()
        self.find_maps()
        self.first_elements()
        self.same = {}
        self.find_maps()

    def first_elements(self):
        for b in self.fn.blocks:
            for n in self.fn.code[b]:
                if n.op != 'load' or n.kind != 'ptr':
                    continue
                r, o = self.root(n.ops[0])
                if o is None or not self.is_map(r, o - 24):
                    continue
                use = [m for c in self.fn.blocks for m in self.fn.code[c]
                       if m.op in ('load', 'store') and self.payload(m, n.i)]
                for m in use:
                    if self.unchecked(m, r, o - 24, n.i):
                        self.say('begin', 'bad', 'the first element of a container is accessed although the container '
                                 'may be empty', m)
                    else:
                        self.say('begin', 'ok', '', m)

    def payload(self, m, v):
        r, o = self.root(m.ops[0 if m.op == 'load' else 1])
        return r == v and o is not None and o >= 32

    def is_map(self, r, o):
        """r+o is used as a map object: its header is compared with or passed on as the end"""
        return o in self.maps.get(r, ())

    def unchecked(self, m, r, o, begin):
        """the access is reached when the container is empty: conditions on it are evaluated for that case"""
        seen, todo = {self.fn.entry}, [self.fn.entry]
        while todo:
            b = todo.pop()
            if b == m.block:
                return True
            t = self.fn.code[b][-1]
            nxt = self.succ[b]
            if t.op == 'br' and len(nxt) > 1:
                c = L.condition(t.i)
                v = self.empty(c, r, o)
                if v in (0, 1):
                    nxt = [L.succs(b)[0 if v else 1]]
                elif self.mentions(c, {r, begin}):
                    continue
            elif len(nxt) > 1 and any(self.mentions(x, {r, begin}) for x in t.ops if L.kind(L.typeof(x)) == 'int'):
                continue
            for s in nxt:
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        return False

    def empty(self, v, r, o, depth=0):
        """value when the map at r+o is empty: a number, 'end', or None"""
        if L.is_const_int(v):
            return L.const_sext(v)
        n = self.fn.where.get(v)
        if n is None or depth > 20:
            return None
        if n.op in ('gep', 'bitcast', 'freeze') and n.kind == 'ptr':
            return 'end' if self.root(v) == (r, o + HEADER) else None
        if n.op == 'load':
            p, k = self.root(n.ops[0])
            if p == r and k == o + 40:
                return 0
            if p == r and k in (o + 24, o + 32):
                return 'end'
            return None
        if n.op in ('zext', 'sext', 'trunc', 'ptrtoint'):
            x = self.empty(n.ops[0], r, o, depth + 1)
            return x & ((1 << n.width) - 1) if n.op == 'trunc' and isinstance(x, int) else \
                x & 1 if n.op == 'zext' and isinstance(x, int) and L.int_width(L.typeof(n.ops[0])) == 1 else x
        if n.op in ('icmp', 'and', 'or', 'xor'):
            x, y = (self.empty(k, r, o, depth + 1) for k in n.ops[:2])
            if n.op == 'and' and 0 in (x, y):
                return 0
            if x is None or y is None:
                return None
            if n.op == 'icmp':
                q = L.ICMP[L.icmp_pred(n.i)]
                if 'end' in (x, y):
                    return {'eq': int(x == y), 'ne': int(x != y)}.get(q)
                if q[0] == 'u':
                    x, y = x % 2 ** 64, y % 2 ** 64
                return int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[q[-2:]])
            if 'end' in (x, y):
                return None
            r_ = {'and': x & y, 'or': x | y, 'xor': x ^ y}[n.op]
            return r_ & 1 if n.width == 1 else r_
        return None

    def find_maps(self):
        """objects of which the header address is taken: root -> offsets"""
        self.maps = {}
        for b in self.fn.blocks:
            for n in self.fn.code[b]:
                if n.op == 'load' and n.kind == 'ptr':
                    r, o = self.root(n.ops[0])
                    if o is not None and o >= 24:
                        t = source_struct(n.ops[0], self.fn)
                        if t:
                            self.maps.setdefault(r, set()).add(o - 24)

    # ------------------------------------------------------------- loops
    def loops(self):
        for h, body in self.fn.loops.items():
            n = self.fn.code[h][-1]
            out = [s for b in body for s in self.succ[b] if s not in body and not self.never(b, s)]
            quit = any(self.fn.code[b][-1].op in ('ret', 'resume', 'unreachable') for b in body)
            if not out and not quit:
                if any(m.op in ('invoke',) for b in body for m in self.fn.code[b]):
                    self.say('progress', 'note', 'a loop is left only by an exception', n)
                else:
                    self.say('progress', 'bad', 'a loop has no way out', n)
                continue
            if self.stuck(h, body):
                self.say('progress', 'bad', 'a path through the loop changes nothing: once taken it repeats forever', n)
            else:
                self.say('progress', 'ok', '', n)

    def never(self, b, s):
        """the edge is taken on a condition that no unsigned number satisfies"""
        t = self.fn.code[b][-1]
        if t.op != 'br' or len(self.succ[b]) != 2:
            return False
        c = self.fn.where.get(L.condition(t.i))
        if c is None or c.op != 'icmp' or not L.is_const_int(c.ops[1]) or L.const_sext(c.ops[1]):
            return False
        q = L.ICMP[L.icmp_pred(c.i)]
        return q == 'uge' and s == L.succs(b)[1] or q == 'ult' and s == L.succs(b)[0]

    def quiet(self, n):
        if n.op == 'store':
            return False
        if n.op in ('call', 'invoke'):
            nm = callee(n)
            return nm.startswith('llvm.dbg') or nm.startswith('llvm.ctpop') or nm in ('abs', 'isspace', 'isdigit')
        if n.op == 'load' or n.op in ('fence', 'atomicrmw', 'cmpxchg', 'va_arg'):
            return n.op == 'load' and 'volatile' not in L.text(n.i)
        return True

    def taken(self, b, env):
        """successors, where a switch on a value that is constant along the path goes one way only"""
        t = self.fn.code[b][-1]
        if t.op == 'switch':
            v = env.get(t.ops[0], t.ops[0])
            if L.is_const_int(v):
                hit = [t.ops[j + 1] for j in range(2, len(t.ops), 2) if L.const_sext(t.ops[j]) == L.const_sext(v)]
                return [s for s in self.succ[b] if s == (hit[0] if hit else t.ops[1])]
        return self.succ[b]

    def stuck(self, h, body):
        """a cycle from the header to itself that runs no effect and leaves every value carried around unchanged"""
        todo, seen = [(h, None, ())], 0
        while todo:
            b, prev, env = todo.pop()
            seen += 1
            if seen > 5000:
                return False
            if prev is not None:
                m = dict(env)
                old = dict(env)
                for n in self.fn.code[b]:
                    if n.op != 'phi':
                        break
                    v = next(L.incoming_value(n.i, j) for j in range(L.count_incoming(n.i))
                             if L.incoming_block(n.i, j) == prev)
                    while v in old:
                        v = old[v]
                    m[n.i] = v
                if b == h:
                    if all(m[n.i] == n.i for n in self.fn.code[h] if n.op == 'phi'):
                        return True
                    continue
                env = tuple(m.items())
            if not all(self.quiet(n) for n in self.fn.code[b]):
                continue
            for s in self.taken(b, dict(env)):
                if s in body and (s == h or s not in self.fn.loops):
                    todo.append((s, b, env))
        return False

    def run(self):
        self.find_maps()
        self.erased()
        self.begins()
        self.loops()


def source_struct(p, fn):
    """the address is the leftmost node of a map, judged by the type the address was computed with"""
    n = fn.where.get(p)
    while n is not None and n.op in ('gep', 'bitcast'):
        if n.op == 'gep' and re.search(r'_Rb_tree_(header|node_base|impl)|std::_Rb_tree', L.text(n.i)):
            return True
        n = fn.where.get(n.ops[0])
    return False


def offset(mod, i):
    td = mod.td
    t = L.gep_source_type(i)
    off = 0
    for k in range(1, L.num_operands(i)):
        o = L.operand(i, k)
        if not L.is_const_int(o):
            return None
        c = L.const_sext(o)
        if k == 1:
            off += c * L.abi_size(td, t)
        elif L.kind(t) == 'struct':
            off += L.offset_of(td, t, c)
            t = L.struct_type_at(t, c)
        else:
            t = L.element_type(t)
            off += c * L.abi_size(td, t)
    return off


def analyse(src):
    mod, own = module(src)
    found = []
    for f in mod.functions():
        if L.is_declaration(f) or L.name(f) not in own:
            continue
        Heap(Func(mod, f), found).run()
    return found


if __name__ == '__main__':
    import sys
    import time
    from collections import Counter
    for s in sys.argv[1:] or ['poly.cpp', 'ga.cpp']:
        t0 = time.time()
        r = analyse(s)
        print(s, Counter((x[0], x[1]) for x in r), time.time() - t0)
        for x in r:
            if x[1] != 'ok':
                print(x)
