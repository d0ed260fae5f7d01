"""Time histories: every computed step satisfies the discrete equation of motion of the modelled structure."""
import itertools as it
import math
import os
import numpy as np
import gen
import ref
import real
from hyperstatic.common.curve import Curve

ID = 'P20'
LEVEL = 'model_checking'
RULE = """(A) All load curves up to length 4 (5 in the thorough tier) over the values {-1, 0, 2} acting on a small damped frame,
and all pairs of curve lengths up to 5 of two patterns; (B) one member along every lattice direction x masses x damping
ratios x global or case restraints; every connected graph on 3 nodes and a set on 4 x orientations x rotational releases
x damping; space frames - all with nodal and member loads under two curves - are integrated by the real code step by step
and every stored displacement, at every step, queried per node, is compared with an independent integration of
M u'' + C u' + K u = f(t) by central differences from rest (Rayleigh damping of the given ratio at periods 1 and 2), as
are member end forces and the reactions of supports at every step; (C) one-mass oscillators against the closed-form solution of the recursion under
step loads and impulses, also over as many as 1300 steps; (D) harmonic curves over a lattice of parameters. A state is one (model, case, step)."""
ASSUMPTIONS = ['every free displacement carries mass (nodal masses with rotational inertia), steps below the stability limit',
               'a case runs for the steps of its shortest curve; the first stored row is the initial state',
               'reactions of time histories are compared at fully restrained nodes (the query leaves out inertia)']
CHUNK = 8
M6 = [2., 3., 4., 1., 1.5, .8]


def cases(tier):
    n = 4 if tier == 'quick' else 5
    for k in range(1, n + 1):
        for cv in it.product((-1, 0, 2), repeat=k):
            yield ['C', list(cv)]
    for a in range(1, 6):
        for b in range(1, 6):
            for xi in (0.0, 0.05):
                yield ['L', a, b, xi]
    dirs = gen.lattice_dirs(1 if tier == 'quick' else 2) + gen.SPECIAL_DIRS[5:8]
    for i, d in enumerate(dirs):
        for xi in (0.0, 0.02, 0.3):
            yield ['A', d, i % 2, xi, gen.KINDS[(i + 1) % 2], (i + int(xi * 100)) % 2]
    for k in (3, 4):
        for g, es in enumerate(gen.connected_graphs(k)):
            m = len(es)
            if k == 4 and tier == 'quick' and g % 4:
                continue
            for o in ([0, 0b101010 & ((1 << m) - 1)] if tier == 'quick' else range(1 << m)):
                for rel in (0, 1):
                    yield ['G', k, es, o, rel, (0.0, 0.05)[(g + o + rel) % 2], (g + rel) % 2]
    for w, h in (((1, 1, 1), 2), ((2, 1, 1), 3), ((1, 1, 2), 2)):
        for xi in (0.0, 0.05):
            yield ['F', w, xi, h]
    for d in ([2., 0, 0], [0, 0, -1.5], [1., 2., 2.]):
        for f in ('step', 'impulse', 'late'):
            yield ['O', d, f]
    for f in (1e-12, 1e-7, 1e-3, 1e6, 1e12):       # other units of force, and loads alone
        for xi in (0.0, 0.05):
            if f >= 1e-3:       # (the nominal rotational mass of members is 1e-12)
                yield ['U', f, xi, 0]
            yield ['U', f, xi, 1]
    for n in (255, 256, 700, 1300):
        yield ['N', n]
    for A in (0.0, 1.0, -2.5):
        for w in (0.0, 1.0, 7.3):
            for phi in (0.0, 1.0, -2.0):
                for dt in (0.1, 0.01, 0.3, 1 / 3):
                    yield ['H', A, w, phi, dt]


def mass(s):
    s['mass'] = {n: [x * (1 + 0.3 * i) for x in M6] for i, n in enumerate(s['nodes'])}


CV = [[1.0, -0.5, 2.0, 0.7, 0.0, -1.2], [0.0, 1.5, -1.0, 0.25, 3.0]]


def spec_of(c):
    if c[0] in 'CLU':
        s = gen.graph_frame([(0, 1), (2, 1), (1, 3)], gen.P4, 0b010, {'A': gen.F6, 'C': gen.F6, 'D': gen.F6})
        curves = CV if c[0] == 'U' else [c[1], c[1]] if c[0] == 'C' else [CV[0][:c[1]], CV[1][:c[2]]]
        s['xi'] = 0.05 if c[0] == 'C' else c[2] if c[0] == 'U' else c[3]
        s['local'] = (len(c[1]) if c[0] == 'C' else c[3] if c[0] == 'U' else c[1] + c[2]) % 2
    elif c[0] == 'A':
        s = gen.single(c[1], c[2], c[4], gen.SEC)
        curves, s['xi'], s['local'] = CV, c[3], c[5]
    elif c[0] == 'G':
        pts = {n: gen.P4[n] for n in list(gen.P4)[:c[1]]}
        s = gen.graph_frame(c[2], pts, c[3], {'A': gen.F6})
        if c[4]:
            s['beams']['m0']['rel'] = [False] * 4 + [True] + [False] * 6 + [True]
        curves, s['xi'], s['local'] = CV, c[5], c[6]
    else:
        s = gen.grid(*c[1])
        curves, s['xi'], s['local'] = CV, c[2], c[3] % 2
    mass(s)
    s['patterns'] = {'P': {'node': {}, 'dist': {}, 'conc': {}}, 'Q': {'node': {}, 'dist': {}, 'conc': {}}}
    for i, n in enumerate(s['nodes']):
        s['patterns']['PQ'[i % 2]]['node'][n] = list(gen.FULL_NODE if i % 3 else gen.FULL_NODE[::-1])
    for i, b in enumerate(s['beams']):
        s['patterns']['PQ'[(i + 1) % 2]]['dist'][b] = list(gen.FULL_DIST)
        if i % 2:
            s['patterns']['P']['conc'][b] = list(gen.FULL_CONC)
    s['curves'] = dict(zip('PQ', curves))
    s['cases'] = {'t': {'pats': [['P', 1.5], ['Q', -0.75]]}}
    if c[0] == 'U' and c[3]:
        s['curves'] = {p: [c[1] * x for x in cv] for p, cv in s['curves'].items()}
    elif c[0] == 'U':
        s = gen.rescale(s, 1.0, c[1])
        s['mass'] = {n: [c[1] * x for x in v] for n, v in s['mass'].items()}
        for b in s['beams'].values():
            b['sec'] = list(b['sec'][:6]) + [b['sec'][6] * c[1]]
    return s


def matrices(F):
    M = np.zeros(F.N)
    for n, v in F.spec['mass'].items():
        M[6 * F.ix[n]:6 * F.ix[n] + 6] += v
    for m in F.members.values():
        for q, i in enumerate(m['dof']):
            if q % 6 < 3:
                M[i] += m['rho'] * m['A'] * m['l'] / 2
    return np.diag(M), F.K


def value(cv, t):
    return cv[t] if t < len(cv) else 0.0


def integrate(M, K, C, dt, loads, free):
    ix = np.ix_(free, free)
    M, K, C = M[ix], K[ix], C[ix]
    H = M / dt ** 2 + C / 2 / dt
    u = [np.zeros(len(free)), np.zeros(len(free))]
    for f in loads:
        v = (u[-1] - u[-2]) / dt
        # acceleration form of the same recursion: M (u+ - 2u + u-)/dt2 + C (u+ - u-)/2dt + K u = f
        r = f[free] - K @ u[-1] - C @ v
        u.append(u[-1] + dt * v + np.linalg.solve(H, r))
    return u[1:]


def build(s, work, dt):
    m = real.Model()
    for n, p in s['nodes'].items():
        m.add_node(n, *p)
    secs = {}
    for b, q in s['beams'].items():
        E, mu, A, I2, I3, J, rho = q['sec']
        if q.get('kind', 'simple') == 'simple':
            m.add_simple_beam(b, q['n'][0], q['n'][1], E, mu, A, I2, I3, J, rho)
        else:
            k = tuple(q['sec'])
            if k not in secs:
                secs[k] = 'S%d' % len(secs)
                m.add_isotropic_material('M' + secs[k], rho, E, mu, 1e-5)
                m.add_beam_section_general(secs[k], 'M' + secs[k], A, A, A, I2, I3, J, 1.0, 1.0)
            m.add_beam(b, q['n'][0], q['n'][1], secs[k])
        if q.get('rel'):
            m.set_beam_releases(b, *[bool(x) for x in q['rel']])
    for n, v in s['mass'].items():
        m.set_nodal_mass(n, *v)
    lc = real.TimeHistoryCase('t')
    for i, (p, f) in enumerate(s['cases']['t']['pats']):
        pat = real.LoadPattern(p)
        for n, v in s['patterns'][p]['node'].items():
            pat.set_nodal_load(n, *v)
        for b, v in s['patterns'][p]['dist'].items():
            pat.set_beam_load_dist(b, *v)
        for b, v in s['patterns'][p]['conc'].items():
            pat.set_beam_load_conc(b, *v)
        cv = s['curves'][p]
        lc.add_pattern(pat, f, Curve(p, [dt * i for i in range(len(cv))], cv).to_array())
    lc.use_direct_time_integration(dt, s['xi'])
    if s['local']:
        for n, v in s['rest'].items():
            lc.set_nodal_restraint(n, *v)
        other = [n for n in s['nodes'] if n not in s['rest']]
        m.set_nodal_restraint(other[0], True, False, False, False, False, False)
    else:
        for n, v in s['rest'].items():
            m.set_nodal_restraint(n, *v)
    real.Assembly(m, [lc]).save(work, 'x.asb')


def rayleigh(M, K, xi):
    wi, wj = 2 * math.pi / 2.0, 2 * math.pi / 1.0
    return xi * 2 * wi * wj / (wi + wj) * M + 2 * xi / (wi + wj) * K


def step_size(M, K, C, free):
    s = 1 / np.sqrt(np.diag(M)[free])
    w2 = np.linalg.eigvalsh(K[np.ix_(free, free)] * np.outer(s, s))[-1]
    return 2.0 ** math.floor(math.log2(0.5 / math.sqrt(w2)))


def run(c, ctx):
    if c[0] == 'H':
        return harmonic(c, ctx)
    if c[0] == 'O':
        return oscillator(c, ctx)
    if c[0] == 'N':
        return oscillator(['O', [1., 2., 2.], 'late'], ctx, c[1])
    s = spec_of(c)
    F = ref.Frame(s)
    fixed = F.fixed('t')
    free = [i for i in range(F.N) if i not in set(fixed)]
    M, K = matrices(F)
    C = rayleigh(M, K, s['xi'])
    dt = step_size(M, K, C, free)
    n = min(len(v) for v in s['curves'].values())
    loads = [F.load('t', {p: value(s['curves'][p], t) for p in 'PQ'}) for t in range(n + 1)]
    if not F.supported:
        ctx.count('unsupported_skipped')
        return
    work = ctx.scratch()
    build(s, work, dt)
    try:
        real.TimeHistorySolver(work, 'x.asb').solve('t')
    except Exception as e:
        ctx.check(False, 'solve', lambda: 'integrating %r raised %r' % (c, e))
        return
    ctx.op(n)
    want = integrate(M, K, C, dt, [f for f, _ in loads[:n]], free)
    got = np.load(os.path.join(work, 't.d.npy'))
    if not ctx.check(got.shape[0] == n + 1 and got.shape[1] in (len(free), F.N), 'shape', lambda: '%r: result of shape %r for %d steps of %d free displacements' % (c, got.shape, n, len(free))):
        return
    r, b = real.NodeResultResolver(work, 'x.asb'), real.BeamResultResolver(work, 'x.asb')
    top = max(np.max(np.abs(u), initial=0) for u in want) or 1.0
    for t in range(n + 1):
        full = np.zeros(F.N)
        full[free] = want[t]
        row = got[t] if got.shape[1] == F.N else None
        if row is None:
            row = np.zeros(F.N)
            row[free] = got[t]
        if not ctx.close(row, full, 'step', lambda: '%r: displacements after step %d (dt %g)' % (c, t, dt), rel=1e-8, scale=top):
            return
        ctx.op(len(F.ix) + len(F.members))
        for nme, i in F.ix.items():
            if not ctx.close(r.resolve_nodal_displacement(nme, 't', t + 1), full[6 * i:6 * i + 6], 'query', lambda: '%r: node %s queried at step %d' % (c, nme, t + 1), rel=1e-8, scale=top):
                return
        for nme, m in F.members.items():
            e = m['Kc'] @ (m['T'] @ full[m['dof']]) - loads[t][1][nme]
            sc = np.max(np.abs(m['Kc'])) * top
            if not ctx.close(np.ravel(b.resolve_beam_end_force(nme, 't', t + 1)), e, 'end-force', lambda: '%r: end forces of member %s at step %d' % (c, nme, t + 1), rel=1e-8, scale=max(sc, np.max(np.abs(e)))):
                return
        full_r = F.K @ full - loads[t][0]
        for nme, v in s['rest'].items():
            if all(v):      # does not move: inertia plays no part
                i = F.ix[nme]
                if not ctx.close(np.ravel(r.resolve_nodal_reaction(nme, 't', t + 1)), full_r[6 * i:6 * i + 6], 'reaction', lambda: '%r: reaction of the support at %s at step %d' % (c, nme, t + 1), rel=1e-8, scale=max(np.max(np.abs(F.K)) * top, np.max(np.abs(full_r)))):
                    return
        ctx.state(c, t)
        ctx.outcome([float('%.5g' % x) for x in want[t][:6]])
    ctx.trace()


def oscillator(c, ctx, n=12):
    d = np.array(c[1])
    l = float(np.linalg.norm(d))
    E, mu, A, I, _, J, _ = gen.SYM
    for m, q in ((7.0, 0.5), (3.0, 0.1)):
        K = [E * A / l, 3 * E * I / l ** 3]
        work = ctx.scratch()
        md = real.Model()
        md.add_node('A', 1, 1, 1)
        md.add_node('B', *(1 + d))
        md.add_simple_beam('b', 'A', 'B', E, mu, A, I, I, J, 0.0)
        md.set_nodal_mass('B', m, m, m, 1, 1, 1)
        md.set_nodal_restraint('A', *gen.F6)
        md.set_nodal_restraint('B', False, False, False, True, True, True)
        k = K[0]
        w = math.sqrt(k / m)
        dt = q / w
        th = math.acos(1 - (w * dt) ** 2 / 2)
        cv = {'step': [1.0] * n, 'impulse': [1.0] + [0.0] * (n - 1), 'late': [0.0] * 4 + [1.0] * (n - 4)}[c[2]]
        p = 5.0
        pat = real.LoadPattern('P')
        pat.set_nodal_load('B', *(list(p * d / l) + [0, 0, 0]))
        lc = real.TimeHistoryCase('t')
        lc.add_pattern(pat, 1.0, np.array([[dt * i for i in range(n)], cv]))
        lc.use_direct_time_integration(dt, 0.0)
        real.Assembly(md, [lc]).save(work, 'x.asb')
        real.TimeHistorySolver(work, 'x.asb').solve('t')
        r = real.NodeResultResolver(work, 'x.asb')

        def step(i):
            return 0.0 if i < 0 else p / k * (1 - math.cos(i * th) + (1 - math.cos(th)) / math.sin(th) * math.sin(i * th))
        for i in range(n + 1) if n < 100 else list(range(0, n, 17)) + [n]:
            want = {'step': step(i), 'impulse': step(i) - step(i - 1), 'late': step(i - 4)}[c[2]]
            got = r.resolve_nodal_displacement('B', 't', i + 1)
            ctx.close(got, list(want * d / l) + [0, 0, 0], 'oscillator', lambda: 'axial oscillator along %r, %s load, step %d' % (c[1], c[2], i), rel=1e-8, scale=p / k)
            ctx.state(c, m, i)
            ctx.op()
        ctx.trace()


def harmonic(c, ctx):
    _, A, w, phi, dt = c
    for n in (1, 2, 3, 7, 10, 100, 101):
        for nm, g in (('sin', Curve.sin), ('cos', Curve.cos)):
            cv = g('h', A, w, phi, dt, n)
            a = cv.to_array()
            ctx.op(2)
            if not ctx.check(np.shape(a) == (2, n), 'curve-size', lambda: '%s curve %r of %d points has shape %r' % (nm, c, n, np.shape(a))):
                continue
            x = [i * dt for i in range(n)]
            ctx.close(a[0], x, 'curve-x', lambda: 'times of a %s curve %r' % (nm, c), rel=1e-12, scale=n * dt)
            ctx.close(a[1], [A * getattr(math, nm)(w * t + phi) for t in x], 'curve-y', lambda: 'values of a %s curve %r' % (nm, c), rel=1e-9, scale=abs(A) or 1.0)
            ctx.check(cv.name == 'h', 'curve-name', 'name of a curve')
            ctx.state(c, n, nm)
    ctx.trace()
    lst = [A, w, phi]
    cv = Curve('k', range(3), lst)
    lst[0] = 99
    ctx.close(cv.to_array(), [[0, 1, 2], [A, w, phi]], 'curve-list', 'a curve from lists', rel=1e-12, scale=10)
