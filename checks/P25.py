"""Members and assembly: interpolation, stiffness, releases and the assembled system agree in every frame of reference."""
import itertools as it
import math
import numpy as np
import gen
import ref
import real

ID = 'P25'
LEVEL = 'model_checking'
RULE = """(A) every member of lattice and special directions x lengths x cross sections x member kinds x turns about its own
axis: number of end displacements, length, ends, local axes, the interpolation (both forms) at 13 stations against the
independent cubic, its derivative against the derivative of the reported polynomial, and the strain energy of the reported
interpolation against the reported stiffness. (B) every set of the 4096 release sets on members of cycled directions, kinds and
turns: released stiffness in both frames, condensed loads for 14 load vectors, against elimination all at once; the condensed
stiffness resists no motion of a released end. (C) every connected graph on 3 and a set on 4 nodes x node insertion orders x
member orientations: every query of the assembly equals that of the model, numbering is that of insertion, and the assembled
stiffness, mass and load equal the sum over members and nodes of the reported pieces placed by the reported numbers; the count
of free displacements for every support subset. (D) every sequence up to a depth of insertions with duplicate detection, near the origin and far from it, for
nodes, both member kinds and both directions. A state is one member, release set, graph or sequence."""
ASSUMPTIONS = ['relative agreement 1e-9 on pieces, 1e-7 after elimination of released displacements',
               'lumped mass with releases is left open (no consistent definition to compare with)']
CHUNK = 6
ST = [i / 12 for i in range(13)]
LENS = [1e-3, 0.7, 25.0]
TURNS = [0.0, 0.4, -2.5, math.pi / 2]
ORDER = [(0, 0), (6, 0), (1, 1), (5, 1), (7, 1), (11, 1), (2, 2), (4, 2), (8, 2), (10, 2), (3, 3), (9, 3)]   # (end displacement, generalised displacement)


def cases(tier):
    dirs = gen.lattice_dirs(1 if tier == 'quick' else 2) + gen.SPECIAL_DIRS
    for i, d in enumerate(dirs):
        for k in gen.KINDS:
            yield ['A', d, k]
    n = 4096
    for b in range(0, n, 64):
        for v in range(1 if tier == 'quick' else 6):
            yield ['B', b, (b // 64) + 17 * v]
    gs = [(3, e) for e in gen.connected_graphs(3)] + [(4, e) for e in (gen.connected_graphs(4)[::5] if tier == 'quick' else gen.connected_graphs(4))]
    for k, es in gs:
        for perm in it.permutations(range(k)):
            for orient in ((0, 5) if tier == 'quick' else range(2 ** len(es))):
                yield ['C', k, es, list(perm), orient]
    depth = 3 if tier == 'quick' else 4
    for s in it.product(range(9), repeat=depth):
        yield ['D', list(s), 0]
        yield ['D', list(s), 1]
        yield ['D', list(s), 2]


def model(nodes, beams, ctx=None):
    """nodes: {name: xyz}; beams: {name: dict(n, sec, kind, rel, rot)} -> Model"""
    m = real.Model()
    for n, p in nodes.items():
        m.add_node(n, *p)
    k = 0
    for b, q in beams.items():
        E, mu, A, I2, I3, J, rho = q['sec']
        if q.get('kind') == 'beam':
            m.add_isotropic_material('M%d' % k, rho, E, mu, 1e-5)
            m.add_beam_section_general('S%d' % k, 'M%d' % k, A, A, A, I2, I3, J, 1.0, 1.0)
            m.add_beam(b, q['n'][0], q['n'][1], 'S%d' % k)
            k += 1
        else:
            m.add_simple_beam(b, q['n'][0], q['n'][1], E, mu, A, I2, I3, J, rho)
        if any(q.get('rel') or []):
            m.set_beam_releases(b, *[bool(x) for x in q['rel']])
        if q.get('rot'):
            m.set_beam_rotation(b, q['rot'])
    if ctx:
        ctx.op(len(nodes) + len(beams))
    return m


def dense(x):
    return np.asarray(x.toarray() if hasattr(x, 'toarray') else x, float)


def member(c, ctx):
    _, d, kind = c
    d = np.array(d, float)
    o = np.array([0.7, -0.4, 1.1])
    for li, L in enumerate(LENS + [None]):
        v = d if L is None else d * (L / np.linalg.norm(d))
        if np.max(np.abs(v[:2])) < 1e-8 and np.max(np.abs(v[:2])) > 0:
            continue        # neither vertical nor not
        if L == 1e-3 and np.max(np.abs(v[:2])) < 1e-6 and np.max(np.abs(v[:2])) > 0:
            continue
        for si, sec in enumerate(gen.SECS):
            for rot in (TURNS if si == li % 2 else TURNS[:2]):
                p, q = o, o + v
                m = model({'a': p, 'b': q}, {'m': dict(n=['a', 'b'], sec=sec, kind=kind, rot=rot)}, ctx)
                l = float(np.linalg.norm(q - p))
                t = lambda: 'member %s along %r, length %g, section %d, turned by %g' % (kind, list(d), l, si, rot)
                asb = real.Assembly(m, [])
                for who, X in (('model', m), ('assembly', asb)):
                    T = dense(X.get_beam_transform_matrix('m'))
                    ctx.close(T, ref.T12(p, q, rot), 'axes', t, rel=1e-7)
                    ctx.close(T @ T.T, np.eye(12), 'axes-orthonormal', t, rel=1e-12)
                    fs = X.get_beam_shape_function('m')
                    ctx.check(len(fs) == 12, 'functions', lambda: '%d interpolation functions; %s' % (len(fs), t()))
                    S = np.array([[float(f(x)) for f in fs] for x in ST])
                    I = np.array([np.asarray(X.get_beam_interpolate('m', x), float).reshape(12) for x in ST])
                    D = np.array([np.asarray(X.get_beam_interpolate1('m', x), float).reshape(12) for x in ST])
                    W = np.array([[ref.shape(x, l)[g, e] for e, g in ORDER] for x in ST])
                    WD = np.zeros((13, 12))
                    u = np.array([1, 1, 1, l, 1, l, 1, l, 1, l, 1, 1.])   # rotations carry a length
                    ctx.close(S / u, W / u, 'interpolation-functions', lambda: '%s, %s' % (who, t()), rel=1e-12)
                    ctx.close(I / u, W / u, 'interpolation', lambda: '%s, %s' % (who, t()), rel=1e-12)
                    for k in range(12):     # the reported functions are cubics: exact derivative from four of the stations
                        P = np.polynomial.Polynomial(np.linalg.solve(np.vander(np.array(ST[::4]), 4, increasing=True), S[::4, k]))
                        ctx.close(P(np.array(ST)) / u[k], S[:, k] / u[k], 'interpolation-cubic', lambda: 'function %d is no cubic; %s' % (k, t()), rel=1e-12, scale=1)
                        WD[:, k] = P.deriv()(np.array(ST)) / l
                    ctx.close(D / u * l, WD / u * l, 'interpolation-slope', lambda: '%s, %s' % (who, t()), rel=1e-10)
                    # strain energy of the reported interpolation
                    E, mu, A, I2, I3, J, rho = sec
                    G = E / 2 / (1 + mu)
                    K = np.zeros((12, 12))
                    e = [k for k, _ in ORDER]
                    rig = {0: E * A, 1: E * I3, 2: E * I2, 3: G * J}
                    coef = [np.polynomial.Polynomial(np.linalg.solve(np.vander(np.array(ST[::4]), 4, increasing=True), S[::4, k])) for k in range(12)]
                    for a in range(12):
                        for b in range(12):
                            g = ORDER[a][1]
                            if g != ORDER[b][1]:
                                continue
                            n = 1 if g in (0, 3) else 2
                            f = (coef[a].deriv(n) * coef[b].deriv(n)).integ()
                            K[e[a], e[b]] = rig[g] * (f(1) - f(0)) * l / l ** (2 * n)
                    K1 = dense(X.get_beam_K('m'))
                    s = 1 / np.sqrt(np.diag(K))
                    ctx.close(K1 * np.outer(s, s), K * np.outer(s, s), 'stiffness-energy', lambda: '%s: the stiffness is not the strain energy of the interpolation, %s' % (who, t()), rel=1e-9)
                    ctx.close(dense(X.get_beam_condensated_K('m') if who == 'assembly' else X.get_beam_K('m', condensate=True)) * np.outer(s, s), K1 * np.outer(s, s), 'stiffness-unreleased', t, rel=1e-12)
                Kg, Mg = dense(m.get_beam_K('m', local=False)), dense(m.get_beam_M('m', local=False))
                ctx.close(Kg, T.T @ K1 @ T, 'stiffness-global', t, rel=1e-12)
                M1 = dense(m.get_beam_M('m'))
                ctx.close(Mg, T.T @ M1 @ T, 'mass-global', t, rel=1e-12)
                tot = sec[6] * sec[2] * l
                for r in (0, 1, 2):
                    w = np.zeros(12)
                    w[[r, 6 + r]] = 1
                    ctx.close(w @ Mg @ w, tot, 'mass-total', lambda: 'mass felt by a translation along %d, %s' % (r, t()), rel=1e-9)
                ctx.close([m.get_beam_length('m')], [l], 'length', t, rel=1e-12)
                ctx.check(m.get_beam_connection('m') == ('a', 'b') and m.get_beam_node_hids('m') == [0, 1] and asb.get_beam_node_hids('m') == [0, 1], 'connection', t)
                ctx.close(np.array(m.get_beam_location('m')), np.array([p, q]), 'location', t, rel=1e-12)
                ctx.state(('A', tuple(d), kind, li, si, rot))
                ctx.outcome(('A', round(float(np.trace(K1 * np.outer(s, s))), 6)))
                ctx.op(20)
                ctx.trace()


LOADS = [list(r) for r in np.eye(12)] + [[1.0, -2.0, 3.0, -.5, .7, -.9, 1.1, 2.2, -1.3, .8, -.6, .4], [(-1.0) ** i * (i + 1) / 4 for i in range(12)]]
BDIRS = [[2.0, 0, 0], [0, 0, 1.5], [1.0, -1, 0.5], [0, -2.0, 0], [-1.0, 0, -2], [0, 0, -1.0], [0.3, 0.7, 1e-2]]


def releases(c, ctx):
    _, b0, v = c
    for b in range(b0, b0 + 64):
        rel = [bool(b >> k & 1) for k in range(12)]
        i = v + b
        d, kind, sec, rot = np.array(BDIRS[i % 7]), gen.KINDS[i % 2], gen.SECS[i // 2 % 2], TURNS[i % 4]
        p = np.array([0.7, -0.4, 1.1])
        m = model({'a': p, 'b': p + d}, {'m': dict(n=['a', 'b'], sec=sec, kind=kind, rot=rot, rel=rel)}, ctx)
        l = float(np.linalg.norm(d))
        E, mu, A, I2, I3, J, rho = sec
        K0 = ref.stiffness(E, E / 2 / (1 + mu), A, I2, I3, J, l)
        t = lambda: 'releases %s, %s member along %r' % (''.join('01'[x] for x in rel), kind, list(d))
        T = ref.T12(p, p + d, rot)
        s = 1 / np.sqrt(np.diag(K0))
        R = np.array(rel)
        pat = real.LoadPattern('p')
        lc = real.StaticCase('c')
        pat.set_beam_load_dist('m', *gen.FULL_DIST)
        pat.set_beam_load_conc('m', *gen.FULL_CONC)
        lc.add_pattern(pat, -1.5)
        asb = real.Assembly(m, [lc])
        Kw, _, _ = ref.condense(K0, np.zeros(12), rel)
        K1 = dense(m.get_beam_K('m'))
        ctx.close(K1 * np.outer(s, s), K0 * np.outer(s, s), 'stiffness', t, rel=1e-9)
        for k, X in (('model', m.get_beam_K('m', condensate=True)), ('assembly', asb.get_beam_condensated_K('m')), ('matrix', m.get_beam_condensated_matrix('m', m.get_beam_K('m')))):
            X = dense(X)
            ctx.close(X * np.outer(s, s), Kw * np.outer(s, s), 'released-stiffness', lambda: '%s, %s' % (k, t()), rel=1e-7, scale=1)
            ctx.check(not np.any(X[R]) and not np.any(X[:, R]), 'released-row', lambda: 'a released end displacement is still resisted; %s, %s' % (k, t()))
        Kg = dense(m.get_beam_K('m', condensate=True, local=False))
        ctx.close(Kg, T.T @ Kw @ T, 'released-global', t, rel=1e-7, scale=np.max(np.abs(K0)))
        F = ref.dist_load(gen.FULL_DIST, l) + ref.conc_load(gen.FULL_CONC, l)
        for f in LOADS + [F * -1.5]:
            f = np.array(f, float)
            _, fw, ok = ref.condense(K0, f, rel)
            if not ok:      # a load on a displacement nothing resists: no equilibrium to compare with
                ctx.count('unsupported loads')
                continue
            g = f.copy()
            got = dense(m.get_beam_condensated_f('m', f)).reshape(12)
            ctx.check(np.array_equal(f, g), 'load-untouched', lambda: 'the load vector handed over was changed; %s' % t())
            ctx.close(got * s, fw * s, 'released-load', lambda: 'load %r, %s' % (list(f), t()), rel=1e-7, scale=np.max(np.abs(f * s)))
        _, fw, ok = ref.condense(K0, F * -1.5, rel)
        if ok:
            ctx.close(dense(asb.get_beam_condensated_f('m', 'c')).reshape(12) * s, fw * s, 'released-case-load', t, rel=1e-7, scale=np.max(np.abs(F * s)))
        ctx.state(('B', b, v))
        ctx.outcome(('B', int(np.linalg.matrix_rank(Kw * np.outer(s, s), tol=1e-8))))
        ctx.op(20)
        ctx.trace()


def graph(c, ctx):
    _, k, es, perm, orient = c
    base = list(gen.P4)[:k]
    nodes = {base[i]: gen.P4[base[i]] for i in perm}
    beams = {}
    for e, (a, b) in enumerate(es):
        if orient >> e & 1:
            a, b = b, a
        rel = [False] * 12
        if e % 3 == 1:
            rel[[4, 11, 3, 6][e % 4]] = True
        beams['m%d' % e] = dict(n=[base[a], base[b]], sec=gen.SECS[e % 2], kind=gen.KINDS[(e // 2) % 2], rot=[0, .7, -.3][e % 3], rel=rel)
    m = model(nodes, beams, ctx)
    t = lambda: 'graph %r, insertion order %r, orientation %d' % (es, perm, orient)
    pat = real.LoadPattern('p')
    for i, n in enumerate(base):
        pat.set_nodal_load(n, *[x * (i + 1) for x in gen.FULL_NODE])
    for i, b in enumerate(beams):
        pat.set_beam_load_dist(b, *[x * (i + 1) for x in gen.FULL_DIST])
    lc = real.StaticCase('c')
    lc.add_pattern(pat, 0.5)
    mass = {}
    for i, n in enumerate(base):
        if i != 1:
            mass[n] = [1. + i, 2., 3., .1, .2, .3 + i]
            m.set_nodal_mass(n, *mass[n])
    asb = real.Assembly(m, [lc])
    N = 6 * k
    hid = {n: i for i, n in enumerate(nodes)}
    K, M, f = np.zeros((N, N)), np.zeros((N, N)), np.zeros(N)
    for n in base:
        ctx.check(asb.get_node_hid(n) == m.get_node_hid(n) == hid[n], 'node-number', lambda: 'node %s, %s' % (n, t()))
        T = dense(m.get_node_transform_matrix(n))
        ctx.close(T, np.eye(6), 'node-axes', t, rel=1e-12)
        ctx.close(dense(asb.get_node_transform_matrix(n)), T, 'assembly-node-axes', lambda: 'node %s, %s' % (n, t()), rel=1e-12)
        ix = np.arange(6) + 6 * hid[n]
        Mn = dense(m.get_node_M(n))
        ctx.close(Mn, np.diag(mass.get(n, [0.] * 6)), 'node-mass', t, rel=1e-12)
        M[np.ix_(ix, ix)] += Mn
        f[ix] += 0.5 * np.array(gen.FULL_NODE) * (base.index(n) + 1)
    ctx.check(asb.node_count == m.node_count == k, 'node-count', t)
    ctx.check(list(m.get_node_names()) == list(nodes) and list(m.get_beam_names()) == list(beams), 'names', t)
    for i, b in enumerate(beams):
        ctx.check(asb.get_beam_hid(b) == m.get_beam_hid(b) == i, 'member-number', t)
        want = [hid[x] for x in beams[b]['n']]
        ctx.check(list(asb.get_beam_node_hids(b)) == list(m.get_beam_node_hids(b)) == want, 'member-ends', t)
        p, q = (np.array(gen.P4[x], float) for x in beams[b]['n'])
        T = ref.T12(p, q, beams[b]['rot'])
        ctx.close(dense(asb.get_beam_transform_matrix(b)), T, 'assembly-axes', t, rel=1e-9)
        ctx.close(dense(asb.get_beam_K(b)), dense(m.get_beam_K(b)), 'assembly-stiffness', t, rel=1e-12)
        Kc = dense(m.get_beam_K(b, condensate=True))
        ctx.close(dense(asb.get_beam_condensated_K(b)), Kc, 'assembly-released', t, rel=1e-12)
        l = float(np.linalg.norm(q - p))
        fe = ref.dist_load(np.array(gen.FULL_DIST) * (i + 1), l) * 0.5
        fc = dense(m.get_beam_condensated_f(b, fe)).reshape(12)
        ctx.close(dense(asb.get_beam_condensated_f(b, 'c')).reshape(12), fc, 'assembly-load', t, rel=1e-9, scale=np.max(np.abs(fe)))
        ix = np.r_[np.arange(6) + 6 * want[0], np.arange(6) + 6 * want[1]]
        K[np.ix_(ix, ix)] += T.T @ Kc @ T
        if not any(beams[b]['rel']):
            M[np.ix_(ix, ix)] += dense(m.get_beam_M(b, local=False))
        f[ix] += T.T @ fc
    ctx.close(dense(asb.assemble_K()), K, 'assembled-stiffness', t, rel=1e-9)
    ctx.close(dense(asb.assemble_f('c')).reshape(N), f, 'assembled-load', t, rel=1e-9)
    if not any(any(q['rel']) for q in beams.values()):
        ctx.close(dense(asb.assemble_M()), M, 'assembled-mass', t, rel=1e-9)
        ctx.count('mass assemblies')
    # free displacements for every support subset, and what remains of the assembled system
    for r in range(k + 1):
        for sup in it.combinations(base, r):
            fixed = []
            for n in base:      # set on everything, so that nothing stays from the subset before
                v = [(j + base.index(n)) % 3 != 0 for j in range(6)] if n in sup else [False] * 6
                m.set_nodal_restraint(n, *v)
                fixed += [6 * hid[n] + j for j in range(6) if v[j]]
            a2 = real.Assembly(m, [lc])
            ctx.check(a2.DOF == N - len(fixed), 'free-count', lambda: 'DOF %r, expected %d, supports %r %s' % (a2.DOF, N - len(fixed), sup, t()))
            ctx.check(sorted(a2.restraintDOF()) == sorted(fixed), 'restrained', lambda: 'supports %r, %s' % (sup, t()))
            keep = [i for i in range(N) if i not in fixed]
            ctx.close(dense(a2.assemble_boundary('c', a2.assemble_K())), K[np.ix_(keep, keep)], 'reduced-stiffness', lambda: 'supports %r, %s' % (sup, t()), rel=1e-9)
            ctx.close(dense(a2.assemble_boundary('c', a2.assemble_f('c'))).reshape(-1), f[keep], 'reduced-load', lambda: 'supports %r, %s' % (sup, t()), rel=1e-9, scale=np.max(np.abs(f)))
            ctx.state(('C', k, tuple(map(tuple, es)), tuple(perm), orient, sup))
            ctx.op(5)
    ctx.outcome(('C', k, len(es)))
    ctx.trace()


def duplicates(c, ctx):
    """insertions that ask for duplicate detection: an existing object at the same place is reported instead"""
    m = real.Model()
    X = (0., 5000., -7e4)[c[2]]      # far from the origin
    P = {'a': (X, 0., 0.), 'b': (X + 3., 0., 0.5), 'c': (X + 0.5, 2., 0.) if c[2] < 2 else (X, 1e-5, 0.)}
    for n in P:
        m.add_node(n, *P[n])
    m.add_isotropic_material('M', 2.5, 2e4, .25, 1e-5)
    m.add_beam_section_general('S', 'M', .3, .3, .3, .02, .05, .04, 1., 1.)
    nodes, beams = dict(P), {}
    num = {n: i for i, n in enumerate(P)}
    bnum = {}
    for i, o in enumerate(c[1]):
        t = lambda: 'operation %d of %r' % (i, c[1])
        nm = 'x%d' % i
        if o < 4:       # members, both kinds, both directions
            s, e = (('a', 'b'), ('b', 'a'), ('b', 'c'), ('c', 'b'))[o]
            chk = True
            if i % 2 == o % 2:
                r = m.add_beam(nm, s, e, 'S', check_dup=True)
            else:
                r = m.add_simple_beam(nm, s, e, 2e4, .25, .3, .02, .05, .04, 2.5, check_dup=True)
        elif o < 6:     # members without detection
            s, e, chk = 'a', 'bc'[o - 4], False
            if i % 2:
                r = m.add_beam(nm, s, e, 'S')
            else:
                r = m.add_simple_beam(nm, s, e, 2e4, .25, .3, .02, .05, .04, 2.5)
        else:           # nodes at the place of b (detected), beside it (not within tolerance), at the place of b (undetected)
            x = X + [3., 3. if i % 2 else 3.0001, 3.][o - 6]
            y = [0., 1e-6 if i % 2 else 0., 0.][o - 6]
            r = m.add_node(nm, x, y, 0.5, check_dup=o < 8)
            hit = [n for n in nodes if np.linalg.norm(np.array(nodes[n]) - [x, y, .5]) < 1e-9] if o < 8 else []
            if hit:
                w = num[hit[0]]
            else:
                w = num[nm] = len(nodes)
                nodes[nm] = (x, y, .5)
            ctx.check(r == w, 'node-reported', lambda: 'number %r, expected %d, %s' % (r, w, t()))
            ctx.op()
            continue
        hit = [b for b in beams if {nodes[beams[b][0]], nodes[beams[b][1]]} == {nodes[s], nodes[e]}] if chk else []
        if hit:
            w = bnum[hit[0]]
        else:
            w = bnum[nm] = len(beams)
            beams[nm] = (s, e)
        ctx.check(r == w, 'member-reported', lambda: 'number %r, expected %d, %s' % (r, w, t()))
        ctx.op()
    t = lambda: 'after %r' % (c[1],)
    ctx.check(list(m.get_node_names()) == list(nodes) and m.node_count == len(nodes), 'nodes', lambda: '%r, expected %r %s' % (m.get_node_names(), list(nodes), t()))
    ctx.check(list(m.get_beam_names()) == list(beams) and m.beam_count == len(beams), 'members', lambda: '%r, expected %r %s' % (m.get_beam_names(), list(beams), t()))
    for b, (s, e) in beams.items():
        ctx.check(m.get_beam_hid(b) == bnum[b] and m.get_beam_connection(b) == (s, e) and m.get_beam_node_hids(b) == [num[s], num[e]], 'member', lambda: '%s %s' % (b, t()))
    for n in nodes:
        ctx.check(m.get_node_hid(n) == num[n] and tuple(m.get_node_location(n)) == nodes[n], 'node', lambda: '%s %s' % (n, t()))
    ctx.state(('D', tuple(c[1])))
    ctx.outcome(('D', len(nodes), len(beams)))
    ctx.trace()


def run(c, ctx):
    {'A': member, 'B': releases, 'C': graph, 'D': duplicates}[c[0]](c, ctx)
