"""Generated translation units -> normalised LLVM IR of the current /repo tree."""
import os
import re
import shutil
import subprocess
import tempfile
import threading
import llvm as L

REPO = os.environ.get('KLEIN_REPO', '/repo')
CLANG = 'clang++'
OPT = next((p for p in ('/usr/lib/llvm-18/bin/opt', '/usr/bin/opt-18', '/usr/bin/opt') if os.path.exists(p)), 'opt')

PASSES = ('cgscc(inline),function(sroa,early-cse,simplifycfg,loop-simplify,lcssa,'
          'loop(indvars,loop-unroll-full),sroa,early-cse,simplifycfg,instsimplify,adce,lcssa)')

# the supported build configurations (see CMakeLists.txt and detail/x86/x86_sse.hpp)
CONFIGS = {
    'sse3': ['-std=c++17', '-msse3'],
    'sse41': ['-std=c++17', '-msse4.1', '-DKLEIN_SSE_4_1'],
    'cxx11': ['-std=c++11', '-msse3'],
    'cxx11-sse41': ['-std=c++11', '-msse4.1', '-DKLEIN_SSE_4_1'],
    'native-sse3': ['-std=c++17', '-msse3', '-UKLEIN_USE_SIMDE'],
    'native-sse41': ['-std=c++17', '-msse4.1', '-DKLEIN_SSE_4_1', '-UKLEIN_USE_SIMDE'],
    'cxx20': ['-std=c++20', '-msse3'],
    'cxx14': ['-std=c++14', '-msse3'],
    'cxx20-sse41': ['-std=c++20', '-msse4.1', '-DKLEIN_SSE_4_1'],
    'avx2': ['-std=c++17', '-mavx2', '-mfma', '-DKLEIN_SSE_4_1'],
    'validate': ['-std=c++17', '-msse4.1', '-DKLEIN_SSE_4_1', '-DNDEBUG', '-DKLEIN_VALIDATE'],
}
QUICK = ['sse3', 'sse41', 'cxx11', 'cxx11-sse41', 'native-sse3', 'native-sse41', 'cxx20']
THOROUGH = list(CONFIGS)

BASE = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-ffp-contract=off',
        '-fno-strict-aliasing', '-fno-math-errno', '-g', '-w']


class BuildError(Exception):
    pass


def includes():
    inc = ['-I%s/public' % REPO]
    for d in ('/usr/include/simde',):
        if os.path.isdir(d):
            inc.append('-I' + d)
    return inc


def simde_flag(cfg):
    return [] if '-UKLEIN_USE_SIMDE' in CONFIGS[cfg] else ['-DKLEIN_USE_SIMDE']


_work = None
_lock = threading.Lock()


def workdir():
    global _work
    with _lock:
        if _work is None:
            d = _work = tempfile.mkdtemp(prefix='klein-ir-')
            import atexit
            atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return _work


def run(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def bitcode(name, source, flags, lang='c++', passes=PASSES, extra_inc=()):
    """source text -> path of normalised IR"""
    w = workdir()
    ext = '.cpp' if lang == 'c++' else '.c'
    src = os.path.join(w, name + ext)
    raw = os.path.join(w, name + '.raw.ll')
    out = os.path.join(w, name + '.bc')
    with open(src, 'w') as f:
        f.write(source)
    r = run([CLANG if lang == 'c++' else 'clang'] + flags + includes() + list(extra_inc) +
            ['-S', '-emit-llvm', src, '-o', raw])
    if r.returncode:
        raise BuildError('%s does not compile:\n%s' % (name, r.stderr[:4000]))
    with open(raw) as f:
        t = f.read()
    # calls to helpers must be summarised in their callers whatever their attributes say
    t = re.sub(r'^(attributes #\d+ = \{.*)$',
               lambda m: re.sub(r'\b(noinline|optnone)\b ?', '', m.group(1)), t, flags=re.M)
    t = re.sub(r', !llvm\.loop !\d+', '', t)
    for m in re.finditer(r'^(@[\w.$]+) = [^\n]*\balias [^\n]*, ptr (@[\w.$]+)$', t, flags=re.M):
        t = re.sub(re.escape(m.group(1)) + r'(?=\()', m.group(2), t)     # calls of constructor aliases
    with open(raw, 'w') as f:
        f.write(t)
    r = run([OPT, '-passes=' + passes, '-inline-threshold=100000000', '-unroll-threshold=200000',
             raw, '-o', out])
    if r.returncode:
        raise BuildError('%s: opt failed:\n%s' % (name, r.stderr[:4000]))
    return out


def load(path):
    return L.Module(path)


def compile_ir(*a, **k):
    return load(bitcode(*a, **k))


def klein_bitcode(name, source, cfg, extra=()):
    return bitcode('%s-%s' % (name, cfg), source, BASE + CONFIGS[cfg] + simde_flag(cfg) + list(extra))


def klein_module(name, source, cfg, extra=()):
    return load(klein_bitcode(name, source, cfg, extra))


def klein_frames(i):
    """source frames of an instruction inside the library, innermost first"""
    out = []
    for f, l in L.loc_chain(i):
        if '/public/klein/' in f or f.startswith('klein/') or '/c_src/' in f or '/sym/' in f or '/glsl/' in f:
            out.append((f.split('/public/')[-1].replace(REPO + '/', ''), l))
    return out


def blame(inst):
    """library frames responsible for the value an instruction stores"""
    seen, todo = set(), [inst]
    best = None
    n = 0
    while todo and n < 4000:
        i = todo.pop(0)
        n += 1
        if i in seen:
            continue
        seen.add(i)
        fr = klein_frames(i)
        if fr:
            if any('x86_sse' not in f for f, _ in fr):
                return ' <- '.join('%s:%d' % x for x in fr)
            best = best or ' <- '.join('%s:%d' % x for x in fr)
        for k in range(L.num_operands(i)):
            o = L.operand(i, k)
            if o and L.is_inst(o):
                todo.append(o)
    return best or '?'
