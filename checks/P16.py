"""Natural modes: every extracted pair is an eigenpair of the modelled structure, the lowest ones, in order, orthonormal."""
import itertools as it
import os
import numpy as np
import scipy.linalg as sla
import gen
import ref
import real

ID = 'P16'
LEVEL = 'model_checking'
RULE = """For every model of the family (one member along every lattice direction with each combination of member density and
nodal masses; every connected graph on 3 nodes and a set on 4 x support subsets x mass placements, with rotational
releases; several frames) and every number of requested modes (1 .. all free displacements, and more), through the
interface and through the solver, with global or case restraints, the reported eigenvalues are compared with the exact
generalised eigenvalues of an independent model (massless displacements eliminated), and the reported shapes are checked:
residual, mass-orthonormality, count and ascending order, and frequency = omega/2pi = 1/period. Cantilevers with one mass are
also compared with closed formulas, for masses from micrograms to gigatons. A state is one (model, case, number of modes)."""
ASSUMPTIONS = ['structures with rigid-body modes are outside the family (scaled condition number below 1e6)',
               'as many modes are requested as there are displacements with mass, except where every displacement has mass',
               'member mass is lumped at the member ends (documented default); relative agreement 1e-6']
CHUNK = 4
MASS = [None, [2., 3., 4., 0., 0., 0.], [1., 1., 1., .5, .7, .9], [5., 5., 5., 1., 2., 3.]]


def cases(tier):
    dirs = gen.lattice_dirs(1 if tier == 'quick' else 2) + gen.SPECIAL_DIRS[1:2] + gen.SPECIAL_DIRS[5:8]
    for i, d in enumerate(dirs):
        for m in range(4):
            yield ['A', d, i % 2, m, gen.KINDS[(i + m) % 2]]
    gs = [(3, e) for e in gen.connected_graphs(3)] + [(4, e) for e in (gen.connected_graphs(4)[::4] if tier == 'quick' else gen.connected_graphs(4))]
    for k, es in gs:
        nodes = list(gen.P4)[:k]
        for r in range(1, k):
            for sup in it.combinations(nodes, r):
                for m in range(4):
                    for rel in (0, 1):
                        yield ['B', k, es, list(sup), m, rel]
    for s in [(1, 0, 1), (1, 1, 1), (2, 0, 2)] + ([] if tier == 'quick' else [(1, 1, 2), (2, 1, 1), (2, 1, 2)]):
        for m in (0, 2):
            yield ['C', s, m]
    for d in gen.lattice_dirs(1):
        yield ['F', d]


def mass_of(m, i):
    v = MASS[m]
    return None if v is None else [x * (1 + 0.25 * i) for x in v]


def spec_of(c):
    if c[0] == 'A':
        s = gen.single(c[1], c[2], c[4], gen.SECS[c[3] % 2])
        s['patterns'], s['cases'] = {}, {}
        s['mass'] = {n: mass_of(c[3], i) for i, n in enumerate(s['nodes']) if c[3]}
    elif c[0] == 'B':
        pts = {n: gen.P4[n] for n in list(gen.P4)[:c[1]]}
        s = gen.graph_frame(c[2], pts, 1, {n: gen.F6 for n in c[3]})
        if c[5]:
            s['beams']['m0']['rel'] = [False] * 4 + [True] + [False] * 6 + [True]
        s['mass'] = {n: mass_of(c[4], i) for i, n in enumerate(pts) if c[4] and (i + c[4]) % 3}
    else:
        s = gen.grid(*c[1])
        s['mass'] = {n: mass_of(c[2], i % 5) for i, n in enumerate(s['nodes']) if c[2]}
    s['patterns'], s['cases'] = {}, {'e': {'pats': []}}
    return s


def matrices(spec, F):
    M = np.zeros(F.N)
    for n, v in spec.get('mass', {}).items():
        M[6 * F.ix[n]:6 * F.ix[n] + 6] += v
    for b, m in F.members.items():
        for q, i in enumerate(m['dof']):
            if q % 6 < 3:
                M[i] += m['rho'] * m['A'] * m['l'] / 2
    return F.K, M


def eig(K, M, free):
    K = K[np.ix_(free, free)]
    m = M[free]
    a, r = m > 1e-9, m <= 1e-9
    Kc = K[np.ix_(a, a)] - (K[np.ix_(a, r)] @ np.linalg.solve(K[np.ix_(r, r)], K[np.ix_(r, a)]) if r.any() else 0)
    s = 1 / np.sqrt(m[a])
    w = np.linalg.eigvalsh((Kc + Kc.T) / 2 * np.outer(s, s))
    return w, int(a.sum()), K, m


def judge(ctx, work, name, n, F, spec, fixed, what):
    free = [i for i in range(F.N) if i not in set(fixed)]
    K, M = matrices(spec, F)
    w, nm, Kf, mf = eig(K, M, free)
    k = min(n, len(free))
    try:
        o = np.load(os.path.join(work, name + '.o.npy'))
        d = np.load(os.path.join(work, name + '.d.npy'))
    except Exception as e:
        ctx.check(False, 'files', lambda: '%s: no results: %r' % (what(), e))
        return
    if not ctx.check(np.shape(np.ravel(o)) == (k,), 'count', lambda: '%s: %r eigenvalues for %d requested of %d free' % (what(), np.shape(o), n, len(free))):
        return
    o = np.ravel(o).astype(float)
    ctx.check(d.shape[0] == k and d.shape[1] in (len(free), F.N), 'shapes-shape', lambda: '%s: mode shapes have shape %r' % (what(), d.shape))
    ctx.close(o / w[:k], np.ones(k), 'eigenvalue', lambda: '%s: eigenvalues %r, exact %r' % (what(), o, w[:k]), rel=1e-6, scale=1.0)
    ctx.check(np.all(np.diff(o) >= -1e-9 * abs(o[-1])), 'order', lambda: '%s: eigenvalues are not in ascending order: %r' % (what(), o))
    if d.shape[0] == k:
        nodes_ok(ctx, work, name, d, k, F, free, what)
    if d.shape == (k, F.N) and F.N != len(free):
        ctx.check(np.all(np.abs(d[:, fixed]) < 1e-12), 'support', lambda: '%s: mode shapes move supports' % what())
        d = d[:, free]
    if d.shape != (k, len(free)):
        return
    M1 = np.diag(mf)
    G = d @ M1 @ d.T
    g = np.sqrt(np.abs(np.diag(G)))
    if not ctx.check(bool(np.all(g > 0)), 'zero-shape', lambda: '%s: a mode shape is zero' % what()):
        return
    ctx.close(G / np.outer(g, g), np.eye(k), 'orthogonal', lambda: '%s: mode shapes are not orthogonal with respect to the mass' % what(), rel=1e-6, scale=1.0)
    ctx.close(g, np.ones(k), 'normalised', lambda: '%s: mode shapes are not normalised to unit modal mass' % what(), rel=1e-6, scale=1.0)
    # residual measured in the inverse of the stiffness
    for q in range(k):
        x = d[q] - o[q] * np.linalg.solve(Kf, mf * d[q])
        e = np.sqrt(abs(x @ Kf @ x) / abs(d[q] @ Kf @ d[q]))
        if not ctx.check(e < 1e-5, 'residual', lambda: '%s: mode %d is not an eigenvector (relative residual %g)' % (what(), q, e)):
            break
    return o


def asb(work):
    return '.asb' if os.path.exists(os.path.join(work, '.asb')) else 'x.asb'


def nodes_ok(ctx, work, name, d, k, F, free, what):
    """the shapes reported per node and per member are those of the mode asked for"""
    full = np.zeros((k, F.N))
    if d.shape[1] == F.N:
        full[:] = d
    elif d.shape[1] == len(free):
        full[:, free] = d
    else:
        return
    r = real.NodeResultResolver(work, asb(work))
    b = real.BeamResultResolver(work, asb(work))
    for q in sorted({0, k - 1, k // 2}):
        ctx.op(len(F.ix) + 2)
        sc = np.max(np.abs(full[q]))
        for n, i in F.ix.items():
            got = r.resolve_nodal_displacement(n, name, q + 1)
            if not ctx.close(got, full[q, 6 * i:6 * i + 6], 'node-shape', lambda: '%s: shape of mode %d at node %s' % (what(), q + 1, n), rel=1e-9, scale=sc):
                return
        m = next(iter(F.members))
        T = ref.T12(np.array(F.spec['nodes'][F.spec['beams'][m]['n'][0]], float), np.array(F.spec['nodes'][F.spec['beams'][m]['n'][1]], float))
        e = T @ full[q, F.members[m]['dof']]
        for loc, w in ((0.0, e[:4]), (1.0, e[6:10])):
            got = np.ravel(b.resolve_beam_deformation(m, loc, name, q + 1))[:4]
            if not F.spec['beams'][m].get('rel'):
                ctx.close(got, w, 'member-shape', lambda: '%s: deformation of member %s at %g in mode %d' % (what(), m, loc, q + 1), rel=1e-8, scale=sc)


def freq(ctx, work, name, o, what):
    r = real.StructureResultResolver(work, asb(work)).resolve_modal_frequency(name)
    om = np.sqrt(o)
    for key, v in (('omega', om), ('f', om / 2 / np.pi), ('T', 2 * np.pi / om)):
        ctx.close(np.ravel(r[key]), v, 'frequency:' + key, lambda: '%s: %s' % (what(), key), rel=1e-9)


def run(c, ctx):
    if c[0] == 'F':
        return formulas(c, ctx)
    spec = spec_of(c)
    F = ref.Frame(spec)
    fixed = F.fixed('e')
    if not F.conditioning('e') < 1e6:
        ctx.count('unstable_skipped')
        return
    free = [i for i in range(F.N) if i not in set(fixed)]
    w, nm, _, _ = eig(*matrices(spec, F), free)
    if nm == 0:
        ctx.count('massless_skipped')
        return
    full = nm == len(free)
    ns = sorted({1, 2, min(3, nm), nm // 2 + 1, nm} | ({nm + 4} if full else set()))
    ns = [n for n in ns if 1 <= n <= nm or full]
    work = ctx.scratch()
    api = real.build_api(spec, work, ctx, cases=[])
    ctx.check(api.add_modal_case('e') is True and api.assemble() is True, 'status', 'adding a modal case or assembling failed')
    for n in ns:
        ctx.op(2)
        if not ctx.check(api.solve_modal('e', n) is True, 'solve', lambda: 'solve_modal(%d) of %r failed' % (n, c)):
            continue
        o = judge(ctx, work, 'e', n, F, spec, fixed, lambda: '%d modes of %r' % (n, c))
        if o is not None:
            freq(ctx, work, 'e', o, lambda: '%d modes of %r' % (n, c))
            ctx.outcome([float('%.5g' % x) for x in o])
        ctx.trace()
        ctx.state(c, n)
    # the same through model, assembly and solver, restraints given in the case
    work = ctx.scratch()
    m = real.Model()
    for nme, p in spec['nodes'].items():
        m.add_node(nme, *p)
    for b, q in spec['beams'].items():
        E, mu, A, I2, I3, J, rho = q['sec']
        m.add_simple_beam(b, q['n'][0], q['n'][1], E, mu, A, I2, I3, J, rho)
        if q.get('rel'):
            m.set_beam_releases(b, *[bool(x) for x in q['rel']])
    for nme, v in spec['mass'].items():
        m.set_nodal_mass(nme, *v)
    n = max(1, nm - 1)
    lc = real.ModalCase('case mode', n)
    lc2 = real.ModalCase('two', 1)
    for nme, v in spec['rest'].items():
        lc.set_nodal_restraint(nme, *v)
        lc2.set_nodal_restraint(nme, *v)
    other = [x for x in spec['nodes'] if x not in spec['rest']]
    if other:       # global restraints that the case does not use
        m.set_nodal_restraint(other[0], *gen.F6)
    real.Assembly(m, [lc, lc2]).save(work, 'x.asb')
    S = real.ModalSolver(work, 'x.asb')
    for l, k in ((lc, n), (lc2, 1)):
        ctx.op(2)
        if ctx.check(S.solve_eigen(l.name) is True, 'solve', lambda: 'solve_eigen of %r failed' % (c,)):
            o = judge(ctx, work, l.name, k, F, spec, fixed, lambda: 'case-restrained, %d modes of %r' % (k, c))
            if o is not None:
                freq(ctx, work, l.name, o, lambda: 'case-restrained, %r' % (c,))
        ctx.trace()
        ctx.state(c, l.name, 'solver')
    lc3 = real.ModalCase('s', n)
    ctx.check(lc3.n_modes == n, 'n_modes', 'number of modes of a case')


def formulas(c, ctx):
    """one mass at the end of one member: closed formulas in the member's own axes (equal second moments, any direction)"""
    d = np.array(c[1])
    l = float(np.linalg.norm(d))
    E, mu, A, I, _, J, _ = gen.SYM
    for m, rho in ((7.0, 0.0), (3.0, 2.5), (3e12, 0.0), (2e-6, 0.0)):
        work = ctx.scratch()
        api = real.Api(work)
        st = [api.add_node('A', 1, 1, 1), api.add_node('B', *(1 + d)), api.add_simple_beam('b', 'A', 'B', E, mu, A, I, I, J, rho), api.set_nodal_restraint('A', *gen.F6),
              api.set_nodal_mass('B', m, m, m, 0, 0, 0), api.add_modal_case('e'), api.assemble(), api.solve_modal('e', 3)]
        ctx.op(len(st))
        ctx.check(all(x is True for x in st), 'status', 'one-mass oscillator %r: %r' % (c, st))
        mm = m + rho * A * l / 2
        want = sorted([3 * E * I / l ** 3 / mm] * 2 + [E * A / l / mm])
        o = np.ravel(np.load(os.path.join(work, 'e.o.npy')))
        ctx.close(o, want, 'formula', lambda: 'one-mass oscillator along %r' % (c[1],), rel=1e-6)
        ctx.trace()
        ctx.state(c, m)
        ctx.outcome([float('%.5g' % x) for x in o])
