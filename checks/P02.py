"""Load combinations superpose: all factor vectors over a finite alphabet, all insertion orders, re-additions, shared patterns."""
import itertools as it
import numpy as np
import gen
import real

ID = 'P02'
LEVEL = 'model_checking'
RULE = """A frame with five load patterns (nodal, distributed, concentrated, mixed, empty) is solved by the real code for
every factor vector of {-2,-1,0,0.5,1,37}^3 on every pattern triple, every insertion order of a triple, every pattern
re-added with another factor, and every split of the patterns over two cases of one model; displacements, reactions and
member end forces must equal the factor-weighted sum of the single-pattern cases. A state is one (model, case
composition); non-trivial = distinct non-zero displacement vector."""
ASSUMPTIONS = ['relation between results of the code itself; the absolute values are decided by P01 and P13',
               'agreement to 1e-7 of the sum of magnitudes of the terms']
CHUNK = 1
FACS = [1.0, -1.0, 0.0, 0.5, -2.0, 37.0]
TINY = [1e-12, -1e-9, 1e-7, 3e-5, -1e-3, 1e4, -1e6, 1e9]
PATS = ['PN', 'PD', 'PC', 'PX', 'P0']


def base(which):
    if which == 0:
        s = gen.graph_frame([(0, 1), (1, 2), (1, 3)], gen.P4, 0b010, {'A': gen.F6, 'C': gen.PIN, 'D': gen.F6})
    elif which == 1:
        s = gen.graph_frame([(0, 1), (1, 2), (2, 3), (0, 2)], gen.P4, 0b1001, {'A': gen.F6, 'D': gen.F6})
        s['beams']['m1']['rel'] = [False] * 4 + [True, True] + [False] * 6
        s['beams']['m2']['rel'] = [False] * 11 + [True]
    else:
        s = gen.grid(1, 1, 1)
    nodes, beams = list(s['nodes']), list(s['beams'])
    s['patterns'] = {
        'PN': {'node': {nodes[1]: gen.FULL_NODE, nodes[2]: gen.FULL_NODE[::-1], nodes[-1]: gen.FULL_NODE}},
        'PD': {'dist': {beams[0]: gen.FULL_DIST, beams[1]: gen.FULL_DIST[::-1]}},
        'PC': {'conc': {beams[0]: gen.FULL_CONC, beams[2]: gen.FULL_CONC[:6] + [0.8]}},
        'PX': {'node': {nodes[1]: [0.3, 0.1, -0.7, 0.9, 0.2, -0.4]}, 'dist': {beams[1]: [0.4] * 8, beams[2]: gen.FULL_DIST},
               'conc': {beams[1]: gen.FULL_CONC[3:6] + gen.FULL_CONC[:3] + [0.2]}},
        'P0': {},
    }
    s['cases'] = {'u_' + p: {'pats': [[p, 1.0]]} for p in PATS}
    s['cases']['none'] = {'pats': []}
    return s


def cases(tier):
    facs = FACS if tier == 'quick' else FACS + [1e6, -0.001, 3.0]
    for which in (0, 1, 2):
        for trip in it.combinations(PATS, 3):
            for f0 in facs:
                yield ['combo', which, list(trip), f0, facs]
            yield ['orders', which, list(trip)]
        for p in PATS:
            for q in PATS:
                yield ['readd', which, p, q]
        for k in range(1, 16):
            yield ['split', which, k]
        for p in PATS[:4]:
            yield ['scale', which, p]


def observe(api, spec, case, ctx):
    ctx.op(2)
    if not ctx.check(api.solve_static(case) is True, 'solve', 'solve_static(%s) failed' % case):
        return None
    d = api.result_get_all_nodal_displacement(case)
    if not ctx.check(isinstance(d, dict), 'query', 'no displacements for %s' % case):
        return None
    r = [api.result_get_nodal_reaction(n, case) for n in spec['nodes']]
    e = [api.result_get_beam_end_force(b, case) for b in spec['beams']]
    if not ctx.check(all(x is not None for x in r + e), 'query', 'no reactions or end forces for %s' % case):
        return None
    return {'displacements': np.concatenate([np.ravel(d[n]) for n in spec['nodes']]),
            'reactions': np.concatenate([np.ravel(x) for x in r]), 'end forces': np.concatenate([np.ravel(x) for x in e])}


def run(c, ctx):
    spec = base(c[1])
    extra = {}      # case -> list of (pattern, factor) additions, in order
    if c[0] == 'combo':
        for f1 in c[4]:
            for f2 in c[4]:
                extra['x%d' % len(extra)] = [[c[2][0], c[3]], [c[2][1], f1], [c[2][2], f2]]
    elif c[0] == 'orders':
        fs = dict(zip(c[2], (1.5, -0.5, 2.0)))
        for i, o in enumerate(it.permutations(c[2])):
            extra['x%d' % i] = [[p, fs[p]] for p in o]
    elif c[0] == 'scale':
        for i, f in enumerate(TINY):
            extra['x%d' % i] = [[c[2], f]]
            extra['y%d' % i] = [['P0', 1.0], [c[2], f], [PATS[PATS.index(c[2]) - 1], -2.5 * f]]
    elif c[0] == 'readd':
        p, q = c[2], c[3]
        extra['x0'] = [[p, 3.0], [q, 2.0], [p, -1.5]]       # the later factor counts
        extra['x1'] = [[p, 0.0], [q, 2.0], [p, 1.0], [q, 0.25]]
    else:
        sel = [p for i, p in enumerate(PATS[:4]) if c[2] >> i & 1]
        oth = [p for i, p in enumerate(PATS[:4]) if not c[2] >> i & 1]
        extra['x0'] = [[p, 1.0] for p in sel]
        extra['x1'] = [[p, -3.0] for p in oth] + [[sel[0], 2.0]]
        extra['x2'] = [[p, 1.0] for p in PATS]
    for k, v in extra.items():
        spec['cases'][k] = {'pats': v}
    api = real.build_api(spec, ctx.scratch(), ctx)
    ctx.op()
    if not ctx.check(api.assemble() is True, 'assemble', 'assemble() failed'):
        return
    unit = {}
    need = {p for v in extra.values() for p, _ in v}
    for p in need:
        unit[p] = observe(api, spec, 'u_' + p, ctx)
        if unit[p] is None:
            return
    n = observe(api, spec, 'none', ctx)
    if n:
        ctx.check(not np.any(n['displacements']), 'empty-case', 'a case without patterns moves the structure: %s' % n['displacements'])
        ctx.check(not np.any(n['end forces']), 'empty-case-forces', 'a case without patterns has end forces')
    for k, v in extra.items():
        last = {}
        for p, f in v:
            last[p] = f
        got = observe(api, spec, k, ctx)
        if got is None:
            continue
        for what in got:
            want = sum(f * unit[p][what] for p, f in last.items())
            mag = max(sum(abs(f) * np.max(np.abs(unit[p][what])) for p, f in last.items()), 1e-300)
            ctx.close(got[what], want, 'superposition:' + what,
                      lambda: '%s of a case built from %r (model %d) are not the weighted sum of the pattern results' % (what, v, c[1]),
                      rel=1e-7, scale=mag)
        ctx.trace()
        ctx.state(c[1], sorted(last.items()), [p for p, _ in v])
        if np.any(got['displacements']):
            ctx.outcome([float('%.6g' % x) for x in got['displacements'][:24]])
