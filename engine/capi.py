"""The C binding: every declared function against the reference of the C++ operation it binds."""
import copy
import os
import re
import build
import check as K
import llvm as L
from pool import parallel
from specs import SPECS

# C function, reference operation, order of the C arguments in terms of the reference's operands
BIND = [('kln_plane_init', 'plane(a, b, c, d)', None), ('kln_line_init', 'line(a, b, c, d, e, f)', None),
        ('kln_point_init', 'point(x, y, z)', None)]
for verb, t in (('reflect', 'plane'), ('rotate', 'rotor'), ('translate', 'translator'), ('motor', 'motor')):
    for x in ('point', 'line', 'plane'):
        BIND.append(('kln_%s_%s' % (verb, x), '%s::operator()(%s)' % (t, x), (0, 1)))
BIND += [('kln_compose_rotors', 'operator*(rotor, rotor)', (1, 0)),
         ('kln_compose_translators', 'operator*(translator, translator)', (1, 0)),
         ('kln_compose_rotor_translator', 'operator*(translator, rotor)', (1, 0)),
         ('kln_compose_translator_rotor', 'operator*(rotor, translator)', (1, 0)),
         ('kln_compose_motors', 'operator*(motor, motor)', (1, 0)),
         ('motor_log', 'log(motor)', (0,)), ('line_exp', 'exp(line)', (0,))]
CTYPE = {t: 'kln_' + t for t in ('plane', 'line', 'point', 'rotor', 'translator', 'motor', 'direction')}


def clone(k):
    c, ref, order = BIND[k]
    s = copy.copy(next(x for x in SPECS if x.name == ref))
    s.id = 'capi_%d' % k
    s.name = c
    return s


def source(specs):
    out = ['#include "%s/c_src/klein_c.cpp"' % build.REPO]
    for t, f in (('plane', 'p0'), ('point', 'p3'), ('rotor', 'p1'), ('translator', 'p2')):
        out.append('static_assert(sizeof(kln_%s) == 16 && offsetof(kln_%s, %s) == 0, "layout");' % (t, t, f))
    for t in ('line', 'motor'):
        out.append('static_assert(sizeof(kln_%s) == 32 && offsetof(kln_%s, p1) == 0 && offsetof(kln_%s, p2) == 16, '
                   '"layout");' % (t, t, t))
    for (c, ref, order), s in zip(BIND, specs):
        ps = ['%s* out' % CTYPE[s.ret]]
        for n, t in s.args:
            ps.append('float %s' % n if t == 'float' else '%s const* %s' % (CTYPE[t], n))
        if order is None:
            body = '%s(out, %s);' % (c, ', '.join(n for n, _ in s.args))
        else:
            body = '*out = %s(%s);' % (c, ', '.join(s.args[i][0] for i in order))
        out.append('extern "C" void %s(%s) { %s }' % (s.id, ', '.join(ps), body))
    return '#include <cstddef>\n' + '\n'.join(out) + '\n'


def declared(o):
    """functions declared by klein.h, read by a C compiler"""
    h = os.path.join(build.REPO, 'c_src', 'klein.h')
    p = os.path.join(build.workdir(), 'capi.c')
    for std in ('-std=c99', '-std=c11', '-std=c17'):
        with open(p, 'w') as f:
            f.write('#include "%s"\n#include "%s"\nint main(void) { return 0; }\n' % (h, h))
        r = build.run(['clang', '-fsyntax-only', '-w', std, p])
        o.count('C language versions')
        if r.returncode:
            o.violate('klein.h', 'is not usable from C (%s): %s' % (std, r.stderr.strip().splitlines()[0]), 'c_src/klein.h')
    r = build.run(['clang', '-E', '-P', '-w', p])
    t = open(h).read()
    t = re.sub(r'//[^\n]*|/\*.*?\*/', '', t, flags=re.S)
    names = set(re.findall(r'\b(\w+)\s*\([^()]*\)\s*;', t))
    return names


def task(a):
    s, mods = a
    res = K.run_spec(s, mods)
    return {c: {'bad': r.bad, 'unknown': r.unknown, 'mem': r.mem, 'err': [(l, K.clip(e), b) for l, e, b in r.err],
                'lanes': sum(w is not None for w in r.words)} for c, r in res.items()}


def check(o, cfgs):
    import effects
    names = declared(o)
    bound = {c for c, _, _ in BIND}
    for n in sorted(names - bound):
        o.error('%s is declared in klein.h but has no reference' % n)
    for n in sorted(bound - names):
        o.violate(n, 'is not declared in klein.h', 'c_src/klein.h')
    if o.violations:
        return
    specs = [clone(k) for k in range(len(BIND))]
    src = source(specs)
    mods, failed = {}, []
    for c in cfgs:
        try:
            mods[c] = build.load(build.bitcode('capi-' + c, src, build.BASE + build.CONFIGS[c] + build.simde_flag(c),
                                               extra_inc=['-I%s/c_src' % build.REPO]))
        except build.BuildError as e:
            failed.append((c, e))
    o.skipped(failed, mods)
    for c, m in mods.items():
        for n in sorted(bound):
            f = m.function(n)
            if not f or L.is_declaration(f):
                o.violate(n, 'is declared with C linkage but not defined with it', 'c_src/klein_c.cpp', c)
            elif L.linkage(f) not in (0, 5, 6):
                if L.linkage(f) in (8, 9):
                    o.violate(n, 'is not exported', 'c_src/klein_c.cpp', c)
        for s in specs:
            f = m.function(s.id)
            e = effects.Effects()
            effects.scan(m, f, {0}, {k + 1: n for k, (n, _) in enumerate(s.args)}, e)
            for msg, w in e.bad:
                o.violate(s.name, msg, w, c)
            for u in e.unknown:
                o.error('%s (%s): %s' % (s.name, c, u))
            o.count('instructions classified', e.counts['instructions'])
    for s, (r, err) in zip(specs, parallel(task, [(s, mods) for s in specs])):
        if err:
            o.error('%s: %s' % (s.name, err.strip().splitlines()[-1]))
            continue
        for c, x in r.items():
            for lab, msg, bl in x['bad'] + x['mem']:
                o.violate(s.name, '%s %s' % (lab, msg), bl, c)
            for lab, e, bl in x['err']:
                o.violate(s.name, '%s carries the error of an unrefined estimate: %s' % (lab, e), bl, c)
            for u in x['unknown']:
                o.error('%s (%s): %s' % (s.name, c, u))
            o.count('result components compared with the reference', x['lanes'])
        o.samples.append({'function': s.name, 'configurations': list(r)})
    o.coverage['functions'] = len(BIND)
    o.coverage['configurations'] = len(mods)
