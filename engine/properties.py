"""The claimed properties and the analyses that decide them."""
import random
import build
import values
from pool import parallel
import check as K
from specs import SPECS
from laws import LAWS

ASSUME_ARITH = ('floating point operations are read as exact real operations; reciprocal and reciprocal square root '
                'estimates carry a first-order error symbol (see C20)')
ASSUME_TOOLS = 'clang 18 front end and the LLVM simplification passes that produce the analysed IR'


class Prop:
    def __init__(self, run, explanation):
        self.run = run
        self.explanation = explanation


PROPS = {}
VALUE = ('Forward dataflow over the LLVM SSA form of one entry point per public operation (library code inlined, one '
         'module per supported build configuration), in an algebraic value-numbering domain: every 32-bit lane is '
         'mapped to a normal form over the operand components with gated joins at branches. The normal form of every '
         'result component is compared with the reference computed from the multiplication table of the algebra; '
         'nothing is executed. ')


def cfgs(tier):
    return build.THOROUGH if tier == 'thorough' else build.QUICK


def tune(tier, seed):
    K.SEED = seed
    K.TRIES = 2000 if tier == 'thorough' else 400


def value_prop(pid, select, text, assumptions=(), pool=SPECS):
    specs = [s for s in pool if select(s)]

    def run(o, tier, seed):
        tune(tier, seed)
        o.assumptions = [ASSUME_ARITH, ASSUME_TOOLS] + list(assumptions)
        rs = values.analyse(o, specs, cfgs(tier))
        values.report(o, rs)
        o.coverage['rule'] = text
    PROPS[pid] = Prop(run, VALUE + text)


def g(*names):
    return lambda s: s.group in names


def named(s, *subs):
    return any(x in s.name for x in subs)


value_prop('C01', g('product'),
           'Rule: each component of a * b, a / b equals the coefficient of the geometric product (or product with the '
           'inverse) of the two operand multivectors.')
value_prop('C02', g('meet'), 'Rule: each component of a ^ b equals the coefficient of the exterior product.')
value_prop('C03', g('inner', 'project'),
           'Rule: each component of a | b equals the symmetric inner product, and project(a, b) equals (a | b) ^ b '
           'or (a | b) | b as documented.')
value_prop('C04', g('join'),
           'Rule: the dual relabels every basis component with its complement and a & b equals the undual of the '
           'meet of the duals.')
value_prop('C05', g('sandwich'), 'Rule: f(x) equals f x ~f for every transform and entity type.',
           ['rotors and translators are unit (their documented precondition); for motors the image is compared on '
            'the quadric of unit study motors'])
value_prop('C06', g('array'),
           'Rule: the array form updates elements 0 .. count-1 and nothing else, element i from input element i, with '
           'exactly the sandwich product, for disjoint and identical input and output ranges; a loop summary covers '
           'every count, constant-count instances up to nine elements are analysed as well.')
value_prop('C09', lambda s: s.group in ('norm', 'inverse') or s.group == 'degenerate' and named(s, 'norm', 'distance'),
           'Rule: norms, squared norms, normalised and inverted entities equal their defining expressions, including '
           'norms of vanishing operands.')
value_prop('C10', g('matrix'),
           'Rule: every matrix entry equals the coefficient of the transform f p ~f of the homogeneous point, and '
           'matrix application equals the matrix vector product.')
value_prop('C11', g('access', 'construct'),
           'Rule: every constructor, conversion, assignment and accessor agrees on which basis component a number '
           'belongs to, including reversed blades and their sign.')
value_prop('C12', g('linear'),
           'Rule: +, -, unary -, ~, scaling by float and int and their compound forms act component-wise with the '
           'documented signs, also when an operand is the object itself.')
value_prop('C13', g('compare'),
           'Rule: == is the conjunction of component equality over all components; approx_eq the conjunction of '
           '|difference| < epsilon over all components.')
value_prop('C14', lambda s: s.group == 'explog' or s.group == 'degenerate' and named(s, 'exp ', 'log ', 'square root'),
           'Rule: exp, log and sqrt equal their closed forms (with atan2 / sin / cos as uninterpreted functions that '
           'obey the Pythagorean identity), squares of square roots give the argument back, and the degenerate '
           'branches are finite and exact.')
value_prop('C16', lambda s: s.group == 'euler' or s.group == 'degenerate' and named(s, 'Euler'),
           'Rule: the rotor built from Euler angles is the product of the three axis rotors and the extraction '
           'recovers the closed-form angles with the gimbal branch guarded on the right component.')
value_prop('C21', g('constrain'),
           'Rule: constrain() multiplies the whole entity by the sign that makes the scalar part non-negative.')


GENERIC = 'transforms and lines are unit and satisfy the Study / Pluecker condition where the law presupposes it'
value_prop('C23', g('law'),
           'Rule: programs composed of several library calls yield what geometry demands: (a*b)(x) = a(b(x)), inverses '
           'and reverses undo their transform, joins and meets contain their parts, projections lie on their target, '
           'transforms commute with join, meet and inner product.', [GENERIC], LAWS)
value_prop('C26', g('explaw'),
           'Rule: exp(log(m)) = m for unit rotors, motors and translators, exp(a) exp(-a) = 1, exp(2a) = exp(a)^2, '
           'exp(a) is unit and fixes a; sines and cosines are uninterpreted up to the Pythagorean, parity and '
           'polar identities.', [GENERIC, 'operands outside the zero sets the code tests for, which C14 covers'], LAWS)
value_prop('C28', g('meaning'),
           'Rule: constructors and norms have their metric meaning: rotation matrix of axis and angle, displacement '
           'vector, screw about a line, distances and angles written with ordinary vector calculus.', [GENERIC], LAWS)


# ------------------------------------------------------------------ agreement of configurations
def run_c07(o, tier, seed):
    tune(tier, seed)
    o.assumptions = [ASSUME_ARITH, ASSUME_TOOLS]
    rs = values.analyse(o, SPECS, cfgs(tier), ('cross',))
    for s, r in rs:
        for lab, msg, bl, c in r['cross']:
            o.violate(s.name, '%s %s' % (lab, msg), bl, c)
        for c, x in r['res'].items():
            for u in x['unknown']:
                o.error('%s (%s): %s' % (s.name, c, u))
        o.count('cross-configuration comparisons', r['ncmp'])
    o.samples = [{'operation': s.name, 'configurations': list(r['res']), 'comparisons': r['ncmp']} for s, r in rs[::60]]


PROPS['C07'] = Prop(run_c07, VALUE + 'Rule: for every public operation the normal forms computed from the modules of '
                    'all configurations (SSE3 / SSE4.1, C++11 recursion / C++17 if constexpr forms, with and without '
                    'simde, language versions) are equal, including definedness.')


# ------------------------------------------------------------------ effects
def run_c15(o, tier, seed):
    import effects
    o.assumptions = ['math library functions and SIMD intrinsics have no effect besides their result (errno, FP '
                     'exception flags are ignored)', ASSUME_TOOLS]
    failed = []
    build.workdir()
    rs = parallel(lambda c: effects.run(SPECS, c), cfgs(tier))
    for c, (r, e) in zip(cfgs(tier), rs):
        if e:
            if 'BuildError' in e:
                failed.append((c, e))
            else:
                o.error('%s: %s' % (c, e.strip().splitlines()[-1]))
            continue
        bad, unknown, tot = r
        for name, m, w in bad:
            o.violate(name, m, w, c)
        for u in unknown:
            o.error('%s: %s' % (c, u))
        for k, v in tot.items():
            o.count(k, v)
        o.samples.append({'configuration': c, 'facts': tot})
    o.skipped(failed, o.samples)
    o.coverage['configurations'] = len(o.samples)


PROPS['C15'] = Prop(run_c15, 'Effect and escape analysis of the LLVM IR of one entry point per public operation '
                    'working directly on the caller\'s objects (passed by reference): every store is traced to the '
                    'objects its address may be based on; loads from mutable statics, calls outside a list of pure '
                    'math functions and intrinsics, atomics, volatile accesses, allocation, unwinding and processor '
                    'control registers are reported.')


# ------------------------------------------------------------------ approximation error
def run_c20(o, tier, seed):
    tune(tier, seed)
    o.assumptions = ['rcpps and rsqrtps estimates have a relative error e with |e| <= 1.5 * 2^-12; terms of second '
                     'order in e are within the promised accuracy', ASSUME_TOOLS]
    rs = values.analyse(o, SPECS, cfgs(tier))
    for s, r in rs:
        for c, x in r['res'].items():
            for lab, e, bl in x['err']:
                o.violate(s.name, '%s carries the error of an unrefined estimate: %s' % (lab, e), bl, c)
            for u in x['unknown']:
                o.error('%s (%s): %s' % (s.name, c, u))
            o.count('result components checked for first-order error', x['lanes'])
    o.samples = [{'operation': s.name, 'configurations': list(r['res'])} for s, r in rs[::60]]


PROPS['C20'] = Prop(run_c20, VALUE + 'Rule: each hardware estimate introduces a fresh first-order error symbol; one '
                    'Newton-Raphson step cancels it. No component of any result may depend on such a symbol.')


# ------------------------------------------------------------------ memory
def run_c22(o, tier, seed):
    tune(tier, seed)
    o.assumptions = [ASSUME_TOOLS, 'library types keep their declared alignment; float pointers have no alignment '
                     'beyond that of float']
    specs = [s for s in SPECS if not s.kind.startswith('array')]
    rs = values.analyse(o, specs, cfgs(tier))
    for s, r in rs:
        for c, x in r['res'].items():
            for lab, msg, bl in x['mem']:
                o.violate(s.name, '%s %s' % (lab, msg), bl, c)
            if s.group == 'memory':
                for lab, msg, bl in x['bad']:
                    o.violate(s.name, '%s %s' % (lab, msg), bl, c)
            for u in x['unknown']:
                o.error('%s (%s): %s' % (s.name, c, u))
            o.count('memory accesses checked', x['accesses'])
    o.samples = [{'operation': s.name, 'accesses': {c: x['accesses'] for c, x in r['res'].items()}}
                 for s, r in rs if s.group == 'memory']


PROPS['C22'] = Prop(run_c22, VALUE + 'Rule: every access of every operation stays inside the operand or result object '
                    'it addresses; accesses through caller float arrays stay inside the documented number of floats '
                    'and demand no more than float alignment; loads and stores put each float in its documented '
                    'component.')


# ------------------------------------------------------------------ shader library
def run_c08(o, tier, seed):
    import glsl
    o.assumptions = [ASSUME_ARITH, 'GLSL built-in functions have their specified meaning']
    glsl.check(o)


PROPS['C08'] = Prop(run_c08, 'A parser and abstract interpreter for the shader library written for this check: every '
                    'function of glsl/klein.glsl is analysed in the same algebraic value-numbering domain as the C++ '
                    'library. Rule: each result component equals the reference of the C++ operation it mirrors, in '
                    'the component layout of the C++ types.')


# ------------------------------------------------------------------ headers
def run_c17(o, tier, seed):
    import headers
    o.assumptions = ['the clang 18 and gcc 13 front ends implement the language rules (one definition rule linkage, '
                     'layout, constant evaluation)']
    headers.check(o, cfgs(tier), tier)


PROPS['C17'] = Prop(run_c17, 'Type-level witnesses and front-end queries: every public header is compiled first, alone '
                    'and in pairs under every language version and instruction set by two compilers; static '
                    'assertions pin layout, alignment, triviality, the blade constants and the option defaults; '
                    'the linkage of every emitted symbol is inspected; ill-typed uses must fail to compile; and the '
                    'inventory of public functions in the syntax tree is matched against the analysed entry points.')


# ------------------------------------------------------------------ C API
def run_c18(o, tier, seed):
    import capi
    tune(tier, seed)
    o.assumptions = [ASSUME_ARITH, ASSUME_TOOLS]
    capi.check(o, cfgs(tier))


PROPS['C18'] = Prop(run_c18, VALUE + 'Rule: every function of the C binding is analysed through its exported symbol; '
                    'its result equals the operation its header documents and the inputs are unchanged.')


# ------------------------------------------------------------------ symbolic utility
def run_c19(o, tier, seed):
    import symparse
    o.assumptions = [ASSUME_TOOLS, 'the character classification tables of the C library accept every char value',
                     'the C++ library functions the tokenizer and parser call behave as the standard describes']
    symparse.check(o, tier)


PROPS['C19'] = Prop(run_c19, 'Path-sensitive abstract interpretation of the LLVM IR of the tokenizer and of the parser '
                    'with exact linear facts between positions, byte classes of the text around them, loop joins and '
                    'function summaries, for a text of unbounded length: bounds of every access, progress of every '
                    'loop, depth of the recursion, basis indices of the tokens, and accounting of every character '
                    'and token.')


def run_c29(o, tier, seed):
    import symmap
    o.assumptions = [ASSUME_TOOLS, 'the containers and strings of the C++ library behave as the standard describes',
                     'pushed coefficients are not zero',
                     'coefficients are exact numbers (rounding is not modelled)',
                     'the blade products are those property C24 checks']
    symmap.check(o, tier)


PROPS['C29'] = Prop(run_c29, 'Abstract interpretation of the LLVM IR of the monomial, polynomial and multivector classes of '
                    'the symbolic utility, with the content of every ordered map as a formal sum over its unbounded '
                    'entries: loops over entries are summarised by the contribution of one arbitrary entry, insertions '
                    'and lookups split on whether the key is present, and the final content is compared with the '
                    'defining expression of the operation.')


def run_c27(o, tier, seed):
    import symeval
    o.assumptions = [ASSUME_TOOLS, 'the operators of the multivectors compute what property C29 states',
                     'the tokens are those of the text (boundaries and positions: property C19)',
                     'the cursor stays inside the tokens (property C19)',
                     'a function of the parser sees its arguments and the tokens only']
    symeval.check(o, tier)


PROPS['C27'] = Prop(run_c27, 'Abstract interpretation of the LLVM IR of the parser of the symbolic utility over token kinds and '
                    'formal multivector expressions, with a reference operator-precedence automaton running along the tokens '
                    'consumed; calls inside the parser are summarised as operands of a precedence level (recursion is cut '
                    'there), loops are explored until the abstract states repeat.')


def run_c30(o, tier, seed):
    import symelem
    o.assumptions = [ASSUME_TOOLS, 'algebra::pss has the bits of the basis vectors of the algebra (property C24)',
                     'the standard library classifies and iterates characters as specified',
                     'a variable of static storage is unchanged since the program began']
    symelem.check(o, tier)


PROPS['C30'] = Prop(run_c30, 'Abstract interpretation of the LLVM IR of the tokenizer over element words of unbounded length: '
                    'integers are vectors of polynomials over GF(2), the set of indices read and the sign of their '
                    'permutation are carried along, and the relations between them and the variables at the head of the loop over '
                    'the indices are weakened until they are inductive.')


def run_c31(o, tier, seed):
    import symprint
    o.assumptions = [ASSUME_TOOLS, 'numbers are written as the stream formats them (precision and rounding are not considered)',
                     'exponents are not zero and the coefficient of a blade has terms (property C29)',
                     'blades have indices below ten', 'the containers and streams of the standard library behave as specified',
                     'a variable of static storage is unchanged since the program began']
    symprint.check(o, tier)


PROPS['C31'] = Prop(run_c31, 'Abstract interpretation of the LLVM IR of the output operators over multivectors with any number of entries '
                    '(the existence of another entry, coefficients, exponents and blade bits are decided where the code asks); a reader '
                    'automaton follows the text that is written and demands at every end of a factor, term and blade that it denotes '
                    'the entry; loops are explored until the renamed states repeat.')


def run_c24(o, tier, seed):
    import symtab
    o.assumptions = [ASSUME_TOOLS]
    symtab.check(o, tier)


PROPS['C24'] = Prop(run_c24, 'Dataflow over the LLVM SSA form of the blade product functions of the symbolic utility '
                    'with the bits of both blade indices as Boolean symbols: the result is a pseudo-Boolean normal '
                    'form that is compared entry by entry with the product table computed from the signature. Where '
                    'the normal form is out of reach, constant propagation of one instance per blade pair decides.')
