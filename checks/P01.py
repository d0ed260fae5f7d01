"""Static displacements of every model of the bounded family satisfy equilibrium (independent direct-stiffness oracle)."""
import itertools as it
import gen
import ref
import real

ID = 'P01'
LEVEL = 'model_checking'
RULE = """Every model of these bounded families is built, assembled and solved by the real code, all its static cases, and
compared with an independent solution: (A) one member along every lattice direction of {-2..2}^3 plus degenerate and
near-vertical directions, anchored at either end, both member kinds, one case per load component; (B) every connected
graph on 3 and 4 nodes in general position, edge orientations, every support subset, all loads at once; (C) space
frames of several bays/storeys with 8..27 nodes; (D) the same with structural-steel magnitudes; (L) continuous beams of up to
11025 members (22050 in the thorough tier); (M) two or three members between the same nodes, alike or not, in
either direction, in graphs on 2 and 3 nodes; (U) graphs and a frame in
units of force that make all numbers very small or very large. A state is one loaded
model; non-trivial = the outcome (rounded displacement vector) is non-zero and distinct."""
ASSUMPTIONS = ['structures whose scaled stiffness has a condition number above 1e6 are skipped (counted as unstable)',
               'member local axes follow the documented convention (axis 2 in the plane of the member and global Z, X for vertical members)',
               'double precision: agreement to 1e-6 of the largest displacement of its kind']
CHUNK = 6
CASE_LIMIT = 600.0


def cases(tier):
    for n in (1500, 6000, 11025) if tier == 'quick' else (1500, 3000, 6000, 11025, 22050):
        yield ['L', n]
    dirs = gen.lattice_dirs(2 if tier == 'quick' else 3) + gen.SPECIAL_DIRS
    for i, d in enumerate(dirs):
        for anchored in (0, 1):
            for kind in gen.KINDS:
                yield ['A', d, anchored, kind, i % 2]
    for k in (3, 4):
        nodes = list(gen.P4)[:k]
        for es in gen.connected_graphs(k):
            m = len(es)
            if tier == 'quick':
                orients = sorted({0, (1 << m) - 1, 0b101010 & ((1 << m) - 1)})
            else:
                orients = range(1 << m)
            for o in orients:
                for r in range(1, k + 1):
                    for sup in it.combinations(nodes, r):
                        yield ['B', k, es, o, list(sup)]
    sizes = [(1, 0, 1), (2, 0, 1), (1, 1, 1), (2, 0, 3), (2, 1, 1), (1, 1, 2), (2, 1, 2), (2, 2, 2)]
    if tier != 'quick':
        sizes += [(3, 2, 2), (3, 0, 4), (4, 1, 3), (2, 2, 3)]
    for s in sizes:
        yield ['C', s, 'n']
        yield ['C', s, 'steel']
    for d in gen.lattice_dirs(1):
        for anchored in (0, 1):
            yield ['D', [5 * x for x in d], anchored]
    # several members between the same nodes
    for k in (2, 3):
        for es in gen.connected_graphs(k):
            for more in it.combinations_with_replacement(range(len(es)), 1) if tier == 'quick' else it.chain(*(it.combinations_with_replacement(range(len(es)), q) for q in (1, 2, 3))):
                for n in (1, 2):
                    e2 = list(es) + [es[i] for i in more] * n
                    for o in range(1 << (len(e2) if k == 2 or tier != 'quick' else 2)):
                        for alike in (0, 1):
                            yield ['M', k, e2, o << (len(e2) - 2 if k == 3 and tier == 'quick' else 0), alike]
    # members of very different lengths and far from the origin
    for off in ([0, 0, 0], [1e3, -2e3, 5e2], [-0.5, 1e4, 0]):
        for l in (0.05, 0.5, 1.0, 20.0):
            yield ['E', off, l]
    # other units of force: very small and very large numbers
    for b in (1e-15, 1e-9, 1e-5, 1e6, 1e12):
        for k in (2, 3) if tier == 'quick' else (2, 3, 4):
            for es in gen.connected_graphs(k):
                yield ['U', k, es, 1, b]
        yield ['U', 0, (1, 1, 1), 0, b]


def spec_of(c):
    if c[0] == 'A':
        return gen.single(c[1], c[2], c[3], gen.SECS[c[4]])
    if c[0] == 'B':
        pts = {n: gen.P4[n] for n in list(gen.P4)[:c[1]]}
        return gen.full_loads(gen.graph_frame(c[2], pts, c[3], {n: gen.F6 for n in c[4]}))
    if c[0] == 'C':
        s = gen.grid(*c[1], sec=gen.SECS if c[2] == 'n' else [gen.STEEL])
        return gen.full_loads(s, 1.0 if c[2] == 'n' else 1e4)
    if c[0] == 'M':
        return gen.full_loads(gen.graph_frame(c[2], {n: gen.P4[n] for n in list(gen.P4)[:c[1]]}, c[3], {'A': gen.F6}, secs=[gen.SEC] if c[4] else gen.SECS, kinds=['simple'] if c[4] else gen.KINDS))
    if c[0] == 'D':
        s = gen.single(c[1], c[2], 'simple', gen.STEEL, o=(0, 0, 0))
        for p in s['cases']:
            s['cases'][p]['pats'][0][1] = 1e4
        return s
    if c[0] == 'U':
        s = gen.graph_frame(c[2], {n: gen.P4[n] for n in list(gen.P4)[:c[1]]}, c[3], {'A': gen.F6}) if c[1] else gen.grid(*c[2])
        return gen.rescale(gen.full_loads(s), 1.0, c[4])
    if c[0] == 'L':     # a continuous beam over many supports, loaded in its first and last spans
        n = c[1]
        s = dict(nodes={'n%d' % i: [float(i), 0.5 * i, 0.25 * i] for i in range(n + 1)},
                 beams={'m%d' % i: {'n': ['n%d' % i, 'n%d' % (i + 1)], 'sec': gen.SEC, 'kind': 'simple'} for i in range(n)},
                 rest={'n%d' % i: [True] * 4 + [False] * 2 for i in range(0, n + 1, 25)},
                 patterns={'P': {'node': {'n%d' % i: list(gen.FULL_NODE) for i in (7, n - 7)}, 'dist': {'m%d' % i: list(gen.FULL_DIST) for i in (3, n - 4)}}},
                 cases={'c': {'pats': [['P', 1.0]]}})
        return s
    off, l = c[1], c[2]
    s = dict(nodes={'a': off, 'b': [off[0] + l, off[1], off[2]], 'c': [off[0] + l, off[1] + 1, off[2] + 1]},
             beams={'1': {'n': ['a', 'b'], 'sec': gen.SEC}, '2': {'n': ['c', 'b'], 'sec': gen.SEC2, 'kind': 'beam'}},
             rest={'a': gen.F6, 'c': gen.PIN}, patterns={}, cases={})
    return gen.full_loads(s)


def large(c, spec, ctx):
    """the response dies out within some spans: near either end it is that of a short beam"""
    import numpy as np
    n, k = c[1], 350
    api = real.build_api(spec, ctx.scratch(), ctx)
    if not ctx.check((api.assemble(), api.solve_static('c')) == (True, True), 'large', 'a beam of %d members is not solved' % n):
        return
    ctx.op(3)
    s = spec_of(['L', k])
    F = ref.Frame(s)
    d = F.solve('c')['d'].reshape(-1, 6)
    want = {name: d[i] for i, name in enumerate(F.names)}
    got = api.result_get_all_nodal_displacement('c')
    if not ctx.check(isinstance(got, dict) and len(got) == n + 1, 'nodes', 'not all nodes have displacements'):
        return
    for j in range(101):
        for a, b in ((j, j), (n - j, k - j)):
            for q in (slice(0, 3), slice(3, 6)):
                ctx.close(np.ravel(got['n%d' % a])[q], want['n%d' % b][q], 'displacement', lambda: 'continuous beam of %d members: displacement of node %d' % (n, a),
                          rel=1e-4, scale=float(np.max(np.abs(d[:, q]))))
    mid = [np.max(np.abs(got['n%d' % i])) for i in range(n // 2 - 100, n // 2 + 100)]
    ctx.check(max(mid) < 1e-5 * np.max(np.abs(d)), 'displacement', 'continuous beam of %d members: moves %g far from any load' % (n, max(mid)))
    ctx.state('large', c)
    ctx.outcome(['large', n])
    ctx.trace()


def run(c, ctx):
    spec = spec_of(c)
    ctx.state('model', c)
    if c[0] == 'L':
        return large(c, spec, ctx)
    F = ref.Frame(spec)
    api = real.build_api(spec, ctx.scratch(), ctx)
    ctx.op()
    if not ctx.check(api.assemble() is True, 'assemble', 'assemble() failed for %r' % (c,)):
        return
    for case in spec['cases']:
        want = F.solve(case)
        if want is None:
            ctx.count('unstable_skipped')
            continue
        ctx.op(2)
        if not ctx.check(api.solve_static(case) is True, 'solve', 'solve_static(%s) failed for %r' % (case, c)):
            continue
        got = api.result_get_all_nodal_displacement(case)
        if not ctx.check(isinstance(got, dict) and set(got) == set(spec['nodes']), 'nodes', 'not all nodes have displacements'):
            continue
        import numpy as np
        g = np.concatenate([np.asarray(got[n], float).ravel() for n in F.names])
        fl = 1e-12 * (np.max(np.abs(F.load(case)[0])) if F.N else 0) / (c[4] if c[0] == 'U' else 1.0)
        real.close_disp(ctx, g, want['d'], 'displacement', lambda: 'case %s of %r: nodal displacements' % (case, c), floor=fl)
        n0 = F.names[-1]
        one = api.result_get_nodal_displacement(n0, case)
        ctx.check(one is not None and np.array_equal(one, got[n0]), 'single-query', 'single-node and all-node queries differ')
        if np.max(np.abs(want['d'])) > 0:
            ctx.outcome([float('%.6g' % x) for x in want['d']])
        ctx.trace()
        ctx.state('case', c, case)
