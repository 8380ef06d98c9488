"""Value properties: the abstract result of every entry point against its reference."""
import concurrent.futures as cf
import build
import check as K
import arrays
from pool import parallel
from specs import SPECS


def compile_all(name, make, cfgs, o):
    """{cfg: Module}; make(cfg) -> source text"""
    mods, failed = {}, []
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {c: ex.submit(build.klein_bitcode, name, make(c), c) for c in cfgs}
        for c in cfgs:
            try:
                mods[c] = build.load(futs[c].result())
            except build.BuildError as e:
                failed.append((c, e))
    o.skipped(failed, mods)
    return mods


def task(arg):
    s, mods, want = arg
    res = K.run_spec(s, mods)
    out = {}
    fixed = {}
    if s.kind.startswith('array'):
        for c, m in mods.items():
            fb, fu, fn = [], [], 0
            for n in K.COUNTS:
                b, u, k = arrays.run_fixed(s, m, n)
                fb += b
                fu += u
                fn += k
            counts = K.COUNTS
            if res[c].unknown and not res[c].bad and not fb and not fu:
                more = arrays.special_counts(s, m, K.COUNTS)
                for n in more:
                    b, u, k = arrays.run_fixed(s, m, n, True)
                    fb += b
                    fu += u
                    fn += k
                counts = tuple(counts) + tuple(more)
            fixed[c] = (fb, fu, fn, counts)
    for c, r in res.items():
        bad = list(r.bad)
        unk = list(r.unknown)
        notes = list(r.notes)
        lanes = sum(w is not None for w in r.words)
        if c in fixed:
            fb, fu, fn, counts = fixed[c]
            lanes += fn
            bad += fb
            if unk and not fu and not bad:
                notes.append('general element loop not summarised (%s); counts %s only' % (unk[0], counts))
                unk = []
        out[c] = {'bad': bad, 'unknown': unk, 'notes': notes, 'lanes': lanes, 'info': r.info,
                  'err': [(l, K.clip(e), b) for l, e, b in r.err], 'mem': r.mem, 'accesses': r.accesses}
    cross = []
    ncmp = 0
    if 'cross' in want and not s.kind.startswith('array'):
        cs = list(res)
        ref = cs[0]
        for c in cs[1:]:
            a, b = res[ref], res[c]
            for i in range(max(len(a.words), len(b.words))):
                x = a.words[i] if i < len(a.words) else None
                y = b.words[i] if i < len(b.words) else None
                lab = K.lane_name(s, i)
                if x is None or y is None:
                    dx = next((t[1] for t in a.bad if t[0] == lab), None)
                    dy = next((t[1] for t in b.bad if t[0] == lab), None)
                    if dx != dy:
                        cross.append((lab, 'in %s: %s; in %s: %s' % (ref, dx or 'defined', c, dy or 'defined'), '?', c))
                    continue
                ncmp += 1
                d = K.same_value(res[ref].spec and x.ctx, y, x)
                if d:
                    cross.append((lab, 'in %s %s (the latter in %s)' % (c, d, ref),
                                  next((t[2] for t in b.bad + a.bad if t[0] == lab), '?'), c))
            if a.bad and not b.bad or b.bad and not a.bad:
                if not cross:
                    w = a if a.bad else b
                    cross.append((w.bad[0][0], 'only in %s: %s' % (w.cfg, w.bad[0][1]), w.bad[0][2], w.cfg))
    elif 'cross' in want:
        cs = list(out)
        st = {c: bool(out[c]['bad']) for c in cs}
        ncmp += len(cs) - 1
        if len(set(st.values())) == 2:
            c = next(c for c in cs if st[c])
            good = next(c for c in cs if not st[c])
            cross.append((out[c]['bad'][0][0], 'in %s: %s; as specified in %s' % (c, out[c]['bad'][0][1], good),
                          out[c]['bad'][0][2], c))
    return {'res': out, 'cross': cross, 'ncmp': ncmp}


def analyse(o, specs, cfgs, want=()):
    """[(spec, task result)]"""
    mods = compile_all('v', lambda c: K.source(specs), cfgs, o)
    rs = parallel(task, [(s, mods, want) for s in specs])
    out = []
    for s, (r, e) in zip(specs, rs):
        if e:
            o.error('%s: %s' % (s.name, e.strip().splitlines()[-1]))
        else:
            out.append((s, r))
    o.coverage['operations'] = len(specs)
    o.coverage['build configurations'] = len(mods)
    return out


def report(o, results, what=('bad',)):
    for s, r in results:
        for c, x in r['res'].items():
            for lab, msg, bl in x['bad'] if 'bad' in what else ():
                o.violate(s.name, '%s %s' % (lab, msg), bl, c)
            for u in x['unknown']:
                o.error('%s (%s): %s' % (s.name, c, u))
            o.count('result components compared with the reference', x['lanes'])
            if x['notes']:
                o.count('results with notes')
        if len(o.samples) < 8:
            c = next(iter(r['res']))
            o.samples.append({'operation': s.name, 'configurations': list(r['res']),
                              'components': r['res'][c]['lanes'], 'facts': r['res'][c]['info'],
                              'notes': r['res'][c]['notes'][:2]})
