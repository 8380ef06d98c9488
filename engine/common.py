"""Verdicts, evidence files and known findings."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known-findings.txt')


class Outcome:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []     # {'construct':, 'what':, 'where':, 'configs': [...]}
        self.errors = []         # reasons there is no answer
        self.coverage = {}
        self.samples = []
        self.assumptions = []
        self.t0 = time.time()

    def violate(self, construct, what, where='?', config=None):
        for v in self.violations:
            if v['construct'] == construct and v['what'] == what:
                if config and config not in v['configs']:
                    v['configs'].append(config)
                return
        self.violations.append({'construct': construct, 'what': what, 'where': where,
                                'configs': [config] if config else []})

    def error(self, text):
        if text not in self.errors:
            self.errors.append(text)

    def skipped(self, failures, done):
        """configurations that do not compile: C17 decides that; the others are analysed"""
        for c, e in failures:
            if done:
                self.coverage.setdefault('configurations that do not compile (see C17)', []).append(
                    '%s: %s' % (c, str(e)[:300]))
            else:
                self.error('%s: %s' % (c, e))

    def count(self, key, n=1):
        self.coverage[key] = self.coverage.get(key, 0) + n


def known_findings(prop):
    """listed findings: 'finding: property=<id> construct=<name> :: <what fails>'"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split('construct=', 1)[1]
                c, what = rest.split(' :: ', 1)
                out.append((c.strip(), what.strip()))
    return out


def finish(o, tier, seed, explanation):
    os.makedirs(EVID, exist_ok=True)
    known = known_findings(o.prop)
    new, old = [], []
    for v in o.violations:
        k = next((k for k in known if k[0] == v['construct']), None)
        (old if k else new).append((v, k))
    for v, k in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (o.prop, v['construct'], k[1]))
    cov = dict(o.coverage)
    cov['explanation'] = explanation
    cov['samples'] = o.samples[:12]
    ev = {'property': o.prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': o.assumptions, 'wall_s': round(time.time() - o.t0, 2), 'violations': len(new)}
    if o.errors:
        cov['no_answer'] = o.errors[:20]
    with open(os.path.join(EVID, o.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    rep = os.path.join(EVID, 'replay-%s.json' % o.prop)
    if new:
        with open(rep, 'w') as f:
            json.dump({'property': o.prop, 'tier': tier, 'rerun': './run.py %s' % o.prop,
                       'violations': [v for v, _ in new]}, f, indent=1)
            f.write('\n')
        for v, _ in new[:40]:
            print('  %s: %s [%s] (%s)' % (v['construct'], v['what'], v['where'], ', '.join(v['configs'])))
        print('VIOLATION property=%s replay=%s' % (o.prop, rep))
        for e in o.errors[:5]:
            print('note: no answer for: ' + e)
        return 1
    if os.path.exists(rep):
        os.remove(rep)
    if o.errors:
        for e in o.errors[:20]:
            print('ERROR property=%s %s' % (o.prop, e))
        return 2
    print('OK property=%s %s' % (o.prop, ', '.join('%s=%s' % (k, v) for k, v in o.coverage.items()
                                                  if isinstance(v, (int, float)))))
    return 0
