#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json
import os
V = 'abstract interpretation (algebraic value numbering) of LLVM SSA IR'
TECH = {
    'C08': 'abstract interpretation of the GLSL syntax tree (algebraic value numbering)',
    'C15': 'interprocedural effect and escape analysis on LLVM IR',
    'C17': 'compile-fail and compile-pass witnesses, static assertions, linkage and syntax-tree queries',
    'C18': V + ' and effect analysis of exported C symbols',
    'C20': V + ' with first-order error symbols (error dataflow)',
    'C22': V + ' with region/offset tracking of every memory access',
    'C07': V + ', normal forms compared across build configurations',
    'C06': V + ' with loop summaries and alias/dependence analysis',
    'C24': V + ' in the pseudo-Boolean domain',
    'C29': 'abstract interpretation of LLVM IR with container contents as formal sums (loop summaries per entry)',
    'C31': 'abstract interpretation of LLVM IR over lazily decided containers with a reader automaton for the text (loop fixpoints)',
    'C30': 'abstract interpretation of LLVM IR over GF(2) bit polynomials with inductive relations between bits (Houdini-style weakening)',
    'C27': 'abstract interpretation of LLVM IR over token kinds with a reference precedence automaton (function summaries, loop fixpoints)',
    'C19': 'path-sensitive dataflow (byte classes, linear facts, function summaries) on LLVM IR',
}
NOTE = {
    'C08': 'Exact over the reals for all inputs of all shader functions; trusts the own GLSL subset parser and the reference algebra.',
    'C15': 'Sound for the analysed IR of one entry point per operation and configuration; trusts the list of pure math functions and intrinsics.',
    'C17': 'Decided by the clang and gcc front ends for the enumerated header orders, language versions and instruction sets; trusts those compilers.',
    'C18': 'As C01 for every exported symbol of the C binding; result values exact over the reals, purity by effect analysis.',
    'C20': 'First order in the estimate error, for all inputs; second order terms are taken to be within the promised accuracy.',
    'C22': 'Every access of every analysed operation, all inputs; trusts the clang front end and declared alignments.',
    'C24': 'Exact for every pair of blades over the listed signatures and index bits; other signatures are not covered.',
    'C19': 'All texts of any length (byte classes and linear position facts, loops by widening); an obligation the domain cannot decide '
           'is listed in the evidence and not alarmed; the polynomial evaluation behind the parser is outside.',
    'C29': 'All operands of any number of terms, exact coefficients, distinct or identical operands; an operation whose form the domain '
           'cannot follow is listed in the evidence and not alarmed; trusts the model of the containers of the C++ library.',
    'C31': 'All multivectors with any number of entries; names, exponents and coefficients symbolic; output code whose form the domain '
           'cannot follow is listed in the evidence as not decided and not alarmed; number formatting trusted.',
    'C30': 'All words of any length and index order in every algebra of up to ten dimensions; a tokenizer whose form the domain cannot '
           'follow is listed in the evidence as not decided and not alarmed.',
    'C27': 'All token sequences of any length and nesting; values are formal expressions of the multivector operators; a parser whose '
           'form the domain cannot follow is listed in the evidence as not decided and not alarmed.',
    'C06': 'Exact for every count by loop summary, backed by constant-count instances; exact over the reals.',
}
DEFAULT = ('Decided for all operand values of every entry point in every configuration, exact over the reals (rounding '
           'is not modelled); trusts the clang front end, the simplification passes that produce the analysed IR and '
           'the reference multiplication table. Normal forms that differ are confirmed to differ as functions before '
           'an alarm is raised.')
NA = {
    'C25': 'Rounding error depends on the magnitudes and cancellation of run-time operands; no static bound in reach is '
           'finite for unbounded operands, and a relative bound does not exist under cancellation.',
}


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
    import sys
    sys.path.insert(0, here + '/engine')
    import properties
    checks = []
    for i in ids:
        if i not in properties.PROPS:
            assert i in NA, i
            continue
        checks.append({'property': i, 'quick_cmd': './run.py %s' % i,
                       'thorough_cmd': 'VERIF_TIER=thorough ./run.py %s thorough' % i,
                       'technique': TECH.get(i, V), 'level': 'other', 'level_note': NOTE.get(i, DEFAULT)})
    m = {'version': 1, 'setup_cmd': 'python3 tools/selftest.py', 'checks': checks,
         'not_applicable': [{'property': i, 'reason': NA[i]} for i in ids if i not in properties.PROPS]}
    json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'checks')


main()
