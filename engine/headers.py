"""Header hygiene: compile witnesses, linkage of everything the headers define, API inventory."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import build
import check as K
import llvm as L
from specs import SPECS

WITNESS = '''#include <klein/klein.hpp>
#include <type_traits>
#include <cstddef>
#define LAYOUT_OF(T, S) \\
  static_assert(sizeof(kln::T) == S, #T " size"); \\
  static_assert(alignof(kln::T) == 16, #T " alignment"); \\
  static_assert(std::is_trivially_copyable<kln::T>::value, #T " is copied bit by bit"); \\
  static_assert(std::is_trivially_destructible<kln::T>::value, #T " needs no destruction"); \\
  static_assert(std::is_standard_layout<kln::T>::value, #T " standard layout"); \\
  static_assert(std::is_nothrow_copy_constructible<kln::T>::value, #T " copy"); \\
  static_assert(std::is_default_constructible<kln::T>::value, #T " default construction");
LAYOUT_OF(plane, 16) LAYOUT_OF(point, 16) LAYOUT_OF(direction, 16) LAYOUT_OF(branch, 16) LAYOUT_OF(ideal_line, 16)
LAYOUT_OF(rotor, 16) LAYOUT_OF(translator, 16) LAYOUT_OF(line, 32) LAYOUT_OF(motor, 32) LAYOUT_OF(mat3x4, 64)
LAYOUT_OF(mat4x4, 64)
static_assert(sizeof(kln::dual) == 8 && std::is_trivially_copyable<kln::dual>::value, "dual");
static_assert(sizeof(kln::euler_angles) == 12 && std::is_trivially_copyable<kln::euler_angles>::value, "euler_angles");
static_assert(kln::pi == 3.14159265358979323846f, "pi");
static_assert(kln::pi_2 == 1.57079632679489661923f, "pi / 2");
static_assert(kln::pi_4 == 0.78539816339744830962f, "pi / 4");
static_assert(kln::tau == 6.28318530717958647692f, "2 pi");
static_assert(kln::e == 2.71828182845904523536f, "e");
static_assert(kln::sqrt2 == 1.41421356237309504880f, "sqrt 2");
static_assert(kln::sqrt2_2 == 0.70710678118654752440f, "sqrt 2 / 2");
static_assert(kln::pi_v<double> == 3.14159265358979323846, "pi");
static_assert(kln::pi_2_v<double> == 1.57079632679489661923, "pi / 2");
static_assert(kln::pi_4_v<double> == 0.78539816339744830962, "pi / 4");
static_assert(kln::tau_v<double> == 6.28318530717958647692, "2 pi");
static_assert(kln::e_v<double> == 2.71828182845904523536, "e");
static_assert(kln::sqrt2_v<double> == 1.41421356237309504880, "sqrt 2");
static_assert(kln::sqrt2_2_v<double> == 0.70710678118654752440, "sqrt 2 / 2");
'''


def public_headers():
    return sorted('klein/' + os.path.basename(h) for h in glob.glob(build.REPO + '/public/klein/*.hpp'))


def detail_headers():
    return sorted('klein/detail/' + os.path.basename(h) for h in glob.glob(build.REPO + '/public/klein/detail/*.hpp'))


def compilers():
    return [c for c in ('clang++', 'g++') if shutil.which(c)]


def syntax(job):
    name, src, flags, cc = job
    p = os.path.join(build.workdir(), name + '.cpp')
    with open(p, 'w') as f:
        f.write(src)
    r = build.run([cc, '-fsyntax-only', '-w'] + flags + build.includes() + [p])
    err = ''
    if r.returncode:
        m = re.search(r'^(.*?): (?:fatal )?error: (.*)$', r.stderr, re.M)
        if not m:
            return name, None, r.stderr[:300]
        err = '%s: %s' % (m.group(1).replace(build.REPO + '/', '').replace('public/', ''), m.group(2))
    return name, err, None


def flags_of(c):
    return build.CONFIGS[c] + build.simde_flag(c)


def check(o, cfgs, tier):
    hs = public_headers()
    jobs, what = [], {}

    def add(key, text, src, cfg, cc):
        n = 'h%d' % len(jobs)
        jobs.append((n, src, flags_of(cfg), cc))
        what[n] = (key, text, '%s %s' % (cc, cfg))
    for h in hs + detail_headers():
        for cfg in cfgs:
            for cc in compilers():
                add(h, 'cannot be included on its own', '#include <%s>\n#include <%s>\n' % (h, h), cfg, cc)
    for a in hs:
        for b in hs:
            if a != b:
                add(a, 'cannot be included before %s' % b, '#include <%s>\n#include <%s>\n' % (a, b), 'cxx11', 'clang++')
    for cfg in cfgs:
        for cc in compilers():
            add('witnesses', 'a layout or constant guarantee fails', WITNESS, cfg, cc)
    with cf.ThreadPoolExecutor(8) as ex:
        for n, err, broken in ex.map(syntax, jobs):
            key, text, cfg = what[n]
            if broken is not None:
                o.error('%s (%s): %s' % (key, cfg, broken))
            elif err:
                o.violate(key, text + ': ' + err, err.split(':')[0], cfg)
    o.count('compilations', len(jobs))
    o.count('headers', len(hs))
    # every operation is available in every configuration
    full = K.source(SPECS)
    jobs2 = [('api-%s-%s' % (c, cc[0]), full, flags_of(c), cc) for c in cfgs for cc in compilers()]
    with cf.ThreadPoolExecutor(8) as ex:
        for (n, err, broken), j in zip(ex.map(syntax, jobs2), jobs2):
            if broken is not None:
                o.error('%s: %s' % (n, broken))
            elif err:
                o.violate('public interface', 'an operation is not available: ' + err, err.split(':')[0], n)
    o.count('operations required to compile', len(SPECS))
    # linkage
    src = '\n'.join('#include <%s>' % h for h in hs) + '\n'
    use = full
    for c in cfgs:
        try:
            # no inlining: everything the headers define and the entry points use stays visible
            m = build.load(build.bitcode('odr-' + c, src + use, build.BASE + flags_of(c), passes='verify'))
        except build.BuildError as e:
            o.error('%s: %s' % (c, e))
            continue
        ids = {s.id for s in SPECS}
        n = 0
        for f in m.functions():
            nm = L.name(f)
            if L.is_declaration(f) or re.match(r'^[a-z]+_\d+(_n\d+)?$', nm):
                continue
            n += 1
            if L.linkage(f) in (0, 5, 6, 10):        # external, weak: external in (0), weak any/odr (4,5)
                pass
            if L.linkage(f) == 0:
                o.violate(nm, 'is defined in a header with external linkage, so two translation units clash',
                          decl_where(f), c)
        for gl in m.globals():
            nm = L.name(gl)
            n += 1
            if L.linkage(gl) == 0 and L.initializer(gl) and not nm.startswith(('.str', '__const')):
                o.violate(nm, 'is a variable with external linkage defined in a header', '?', c)
        o.count('definitions with checked linkage', n)
    inventory(o)


def decl_where(f):
    for b in L.blocks(f):
        for i in L.insts(b):
            fr = build.klein_frames(i)
            if fr:
                return '%s:%d' % fr[-1]
    return '?'


def inventory(o):
    """public functions declared by the headers, and which of them the analysed entry points use"""
    p = os.path.join(build.workdir(), 'inventory.cpp')
    with open(p, 'w') as f:
        f.write(K.source(SPECS))
    r = build.run([build.CLANG, '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json'] + flags_of('sse41') +
                  ['-Xclang', '-ast-dump-filter=kln'] + build.includes() + [p])
    used, unused = set(), set()
    dec = json.JSONDecoder()
    t = r.stdout
    pos = 0
    tops = []
    while True:
        k = t.find('{', pos)
        if k < 0:
            break
        try:
            v, pos = dec.raw_decode(t, k)
        except ValueError:
            break
        tops.append(v)

    def walk(nd, scope, detail):
        kd = nd.get('kind')
        nm = nd.get('name', '')
        if kd == 'NamespaceDecl':
            if nm == 'detail':
                return
            for x in nd.get('inner', ()):
                walk(x, scope, detail)
        elif kd == 'CXXRecordDecl' and nd.get('completeDefinition'):
            for x in nd.get('inner', ()):
                walk(x, scope + [nm], detail)
        elif kd in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl'):
            if nd.get('isImplicit') or nd.get('explicitlyDefaulted'):
                return
            key = '::'.join(scope + [nm]) + ' ' + nd.get('type', {}).get('qualType', '')
            (used if nd.get('isUsed') or nd.get('isReferenced') else unused).add(key)
        elif kd == 'FunctionTemplateDecl':
            for x in nd.get('inner', ()):
                if x.get('kind') in ('FunctionDecl', 'CXXMethodDecl') and x.get('isUsed'):
                    used.add('::'.join(scope + [nm]))
                    return
            unused.add('::'.join(scope + [nm]) + ' (template)')
    for v in tops:
        if v.get('kind') == 'NamespaceDecl' and v.get('name') == 'kln':
            walk(v, [], False)
    unused -= used
    o.coverage['public functions reached by the analysed entry points'] = len(used)
    o.coverage['public functions not reached'] = sorted(unused)
