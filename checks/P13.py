"""Post-processing: end forces, reactions and deformations are in equilibrium and compatible with the displacements."""
import itertools as it
import numpy as np
import gen
import ref
import real

ID = 'P13'
LEVEL = 'model_checking'
RULE = """Every model of four families (one member along every lattice direction of {-2..2}^3 and degenerate directions,
either end anchored, one case per load component; every connected graph on 3 and 4 nodes x orientations x support
subsets x release menus under full loads; multi-storey space frames; steel magnitudes; two unconnected parts loaded 1e3 to 1e12 times apart) is solved by the real code. For
every case, every member and node: end forces and reactions equal the independent oracle's; each member is in
equilibrium under its loads; at every node the member end forces balance load plus reaction; reactions balance all
loads of the structure in force and moment; reactions vanish at unrestrained displacements; the deformation of every
member without releases equals its end displacements at both ends and the cubic (linear for axial and torsion)
interpolation at 7 stations; for members without loads it equals the displacements of a model cut at the stations. A
state is one (model, case)."""
ASSUMPTIONS = ['structures whose scaled stiffness has a condition number above 1e6 are skipped (counted)',
               'deformations are compared for members without releases; inside loaded members the documented meaning is the interpolation of the end displacements']
CHUNK = 4
ST = [0.0, 0.1, 0.25, 0.5, 0.7, 0.9, 1.0]


def cases(tier):
    for i, d in enumerate(gen.lattice_dirs(2 if tier == 'quick' else 3) + gen.SPECIAL_DIRS):
        for anchored in (0, 1):
            yield ['A', d, anchored, gen.KINDS[(i + anchored) % 2], i % 2]
    for k in (3, 4):
        nodes = list(gen.P4)[:k]
        for es in gen.connected_graphs(k):
            m = len(es)
            orients = [0b101010 & ((1 << m) - 1)] if tier == 'quick' else range(1 << m)
            for o in orients:
                for r in range(1, k + 1):
                    for sup in it.combinations(nodes, r):
                        for rel in range(3):
                            if rel == 0 or tier != 'quick' or r >= 2:
                                yield ['B', k, es, o, list(sup), rel]
    for s in [(1, 0, 1), (2, 0, 1), (1, 1, 1), (2, 0, 2), (2, 1, 1), (1, 1, 2)] + ([] if tier == 'quick' else [(2, 1, 2), (2, 2, 2), (3, 0, 4)]):
        for m in ('n', 'steel'):
            yield ['C', s, m]
    for l in (0.05, 0.5, 1.0, 20.0):
        for off in ([0, 0, 0], [1e3, -2e3, 5e2]):
            yield ['E', off, l]
    for i, d in enumerate(gen.lattice_dirs(1)):
        yield ['two', d, i % 2]
    for es in gen.connected_graphs(3) + gen.connected_graphs(4)[:6]:
        for e in range(len(es)):
            yield ['cut', es, e]


def spec_of(c):
    if c[0] == 'A':
        return gen.single(c[1], c[2], c[3], gen.SECS[c[4]])
    if c[0] == 'B':
        pts = {n: gen.P4[n] for n in list(gen.P4)[:c[1]]}
        s = gen.full_loads(gen.graph_frame(c[2], pts, c[3], {n: gen.F6 if i % 2 == 0 else gen.PIN for i, n in enumerate(c[4])}))
        b = list(s['beams'])
        if c[5] == 1:
            s['beams'][b[0]]['rel'] = [False] * 4 + [True, True] + [False] * 6
        if c[5] == 2:
            s['beams'][b[-1]]['rel'] = [False] * 9 + [False, True, True]
            s['beams'][b[0]]['rel'] = [True] + [False] * 10 + [True]
        return s
    if c[0] == 'C':
        return gen.full_loads(gen.grid(*c[1], sec=gen.SECS if c[2] == 'n' else [gen.STEEL]), 1.0 if c[2] == 'n' else 1e4)
    off, l = c[1], c[2]
    s = dict(nodes={'a': off, 'b': [off[0] + l, off[1], off[2]], 'c': [off[0] + l, off[1] + 1, off[2] + 1]},
             beams={'1': {'n': ['a', 'b'], 'sec': gen.SEC}, '2': {'n': ['c', 'b'], 'sec': gen.SEC2, 'kind': 'beam'}},
             rest={'a': gen.F6, 'c': gen.PIN}, patterns={}, cases={})
    return gen.full_loads(s)


def wrench(p, v):
    """force and moment about the origin of a 6-vector acting at p"""
    return np.concatenate([v[:3], np.asarray(v[3:6]) + np.cross(p, v[:3])])


def applied(spec, F, case):
    """resultant of all loads by integrating the loads themselves, not their equivalent end forces"""
    W = np.zeros(6)
    mag = 0.0
    for p, fac in spec['cases'][case]['pats']:
        pat = spec['patterns'][p]
        for n, v in pat.get('node', {}).items():
            w = fac * wrench(np.array(spec['nodes'][n], float), np.array(v, float))
            W += w
            mag += np.max(np.abs(w))
        for b, v in pat.get('dist', {}).items():
            i, j = (np.array(spec['nodes'][n], float) for n in spec['beams'][b]['n'])
            A = ref.axes(i, j)
            l = np.linalg.norm(j - i)
            for x, g in zip(ref.GX, ref.GW):
                q = np.array([v[0] * (1 - x) + v[1] * x, v[2] * (1 - x) + v[3] * x, v[4] * (1 - x) + v[5] * x])
                t = np.array([v[6] * (1 - x) + v[7] * x, 0, 0])
                w = fac * g * l * wrench(i + x * (j - i), np.concatenate([A.T @ q, A.T @ t]))
                W += w
                mag += np.max(np.abs(w))
        for b, v in pat.get('conc', {}).items():
            i, j = (np.array(spec['nodes'][n], float) for n in spec['beams'][b]['n'])
            A = ref.axes(i, j)
            w = fac * wrench(i + v[6] * (j - i), np.concatenate([A.T @ np.array(v[:3], float), A.T @ np.array(v[3:6], float)]))
            W += w
            mag += np.max(np.abs(w))
    return W, mag


def defo(N, d12):
    g = N @ d12
    return np.array([g[0], g[1], g[2], g[3], g[5], -g[4]])


def run(c, ctx):
    if c[0] == 'cut':
        return cut(c, ctx)
    if c[0] == 'two':
        return two(c, ctx)
    spec = spec_of(c)
    F = ref.Frame(spec)
    api = real.build_api(spec, ctx.scratch(), ctx)
    ctx.op()
    ctx.check(api.assemble() is True, 'assemble', 'assemble failed')
    for case in spec['cases']:
        F.supported = True
        o = F.solve(case)
        if o is None or not F.supported:
            ctx.count('unstable_skipped')
            continue
        ctx.op(1 + len(spec['nodes']) + len(spec['beams']) * (1 + len(ST)))
        if not ctx.check(api.solve_static(case) is True, 'solve', 'solve failed'):
            continue
        where = lambda: 'case %s of %r' % (case, c)
        reac = {n: api.result_get_nodal_reaction(n, case) for n in spec['nodes']}
        ends = {b: api.result_get_beam_end_force(b, case) for b in spec['beams']}
        disp = {n: api.result_get_nodal_displacement(n, case) for n in spec['nodes']}
        if not ctx.check(all(np.shape(np.ravel(v)) == (6,) for v in list(reac.values()) + list(disp.values())) and all(np.shape(np.ravel(v)) == (12,) for v in ends.values()), 'shape',
                         lambda: '%s: missing or misshapen reactions, displacements or end forces' % where()):
            continue
        reac = {k: np.ravel(v).astype(float) for k, v in reac.items()}
        ends = {k: np.ravel(v).astype(float) for k, v in ends.items()}
        disp = {k: np.ravel(v).astype(float) for k, v in disp.items()}
        ls = max(m['l'] for m in F.members.values())
        sf = max(np.max(np.abs(o['f'])), np.max(np.abs(o['reac'])), max(np.max(np.abs(v)) for v in o['ends'].values()), max(np.max(np.abs(v)) for v in o['loc'].values()))
        if sf == 0:
            continue
        for n in reac:
            i = F.ix[n]
            ctx.close(reac[n], o['reac'][6 * i:6 * i + 6], 'reaction', lambda: '%s: reaction at %s' % (where(), n), scale=sf)
        fx = set(F.fixed(case))
        for n in reac:
            for k in range(6):
                if 6 * F.ix[n] + k not in fx:
                    ctx.check(abs(reac[n][k]) <= 1e-6 * sf, 'reaction-free', lambda: '%s: unrestrained displacement %d of %s has reaction %g' % (where(), k, n, reac[n][k]))
        for b in ends:
            ctx.close(ends[b], o['ends'][b], 'end-force', lambda: '%s: end forces of %s (%s)' % (where(), b, spec['beams'][b]), scale=sf)
        # joint equilibrium from the reported values alone
        sumf = {n: -reac[n] for n in spec['nodes']}
        for b, m in spec['beams'].items():
            g = F.members[b]['T'].T @ ends[b]
            sumf[m['n'][0]] = sumf[m['n'][0]] + g[:6]
            sumf[m['n'][1]] = sumf[m['n'][1]] + g[6:]
        for p, fac in spec['cases'][case]['pats']:
            for n, v in spec['patterns'][p].get('node', {}).items():
                sumf[n] = sumf[n] - fac * np.array(v, float)
        for n in sumf:
            ctx.close(sumf[n], np.zeros(6), 'joint', lambda: '%s: member end forces do not balance load and reaction at %s' % (where(), n), scale=sf)
        # global equilibrium
        W, mag = applied(spec, F, case)
        size = max(1.0, max(np.max(np.abs(v)) for v in spec['nodes'].values()))
        R = sum(wrench(np.array(spec['nodes'][n], float), reac[n]) for n in reac)
        tot = W + R
        ctx.close(tot[:3], np.zeros(3), 'global-force', lambda: '%s: reactions do not balance the loads (force)' % where(), scale=max(mag / size, sf))
        ctx.close(tot[3:], np.zeros(3), 'global-moment', lambda: '%s: reactions do not balance the loads (moment)' % where(), scale=max(mag, sf * size))
        # deformations
        for b, m in spec['beams'].items():
            if m.get('rel') and any(m['rel']):
                continue
            i, j = m['n']
            M = F.members[b]
            dl = M['T'] @ np.concatenate([disp[i], disp[j]])
            for x in ST:
                g = api.result_get_beam_deformation(b, x, case)
                if not ctx.check(g is not None and np.shape(np.ravel(g)) == (6,), 'deformation-shape', lambda: '%s: no deformation of %s at %g' % (where(), b, x)):
                    continue
                w = defo(ref.shape(x, M['l']), dl)
                sc = max(np.max(np.abs(dl)), 1e-300)
                ctx.close(np.ravel(g)[:4], w[:4], 'deformation', lambda: '%s: displacements of %s at %g' % (where(), b, x), rel=1e-7, scale=sc * max(1, M['l']))
                ctx.close(np.ravel(g)[4:], w[4:], 'slope', lambda: '%s: slopes of %s at %g' % (where(), b, x), rel=1e-7, scale=sc * max(1, 1 / M['l']))
        ctx.trace()
        ctx.state(c, case)
        ctx.outcome([float('%.5g' % x) for x in o['d']])


def two(c, ctx):
    """a light part far from a heavy one: its small reactions and end forces are its own"""
    pts = {'A': [0, 0, 0], 'B': list(np.array(c[1], float)), 'X': [50., 20., 5.], 'Y': list(np.array([50., 20., 5.]) + 2 * np.array(c[1], float))}
    for ratio in (1e-3, 1e-6, 1e-9, 1e-12):
        sec = [gen.SEC[0] * (ratio if c[2] else 1)] + gen.SEC[1:]
        s = dict(nodes=pts, beams={'1': {'n': ['A', 'B'], 'sec': gen.SEC}, '2': {'n': ['X', 'Y'], 'sec': sec}}, rest={'A': gen.F6, 'X': gen.F6},
                 patterns={'P': {'node': {'B': gen.FULL_NODE, 'Y': [ratio * v for v in gen.FULL_NODE]}, 'dist': {'1': gen.FULL_DIST}, 'conc': {'2': [ratio * v for v in gen.FULL_CONC[:6]] + [0.3]}}},
                 cases={'c': {'pats': [['P', 1.0]]}})
        F = ref.Frame(s)
        o = F.solve('c')
        api = real.build_api(s, ctx.scratch(), ctx)
        ctx.op(6)
        if not ctx.check(api.assemble() is True and api.solve_static('c') is True, 'solve', 'solve failed'):
            continue
        for n, b, k in (('A', '1', 1.0), ('X', '2', ratio)):
            sc = k * 10
            ctx.close(np.ravel(api.result_get_nodal_reaction(n, 'c')), o['reac'][6 * F.ix[n]:6 * F.ix[n] + 6], 'own-scale', lambda: 'reaction of the part loaded by %g of the other, %r' % (k, c), scale=sc)
            ctx.close(np.ravel(api.result_get_beam_end_force(b, 'c')), o['ends'][b], 'own-scale', lambda: 'end forces of the part loaded by %g of the other, %r' % (k, c), scale=sc)
            n2 = s['beams'][b]['n'][1]
            d = o['d'][6 * F.ix[n2]:6 * F.ix[n2] + 6]
            ctx.close(np.ravel(api.result_get_nodal_displacement(n2, 'c')), d, 'own-scale', lambda: 'displacement of the part loaded by %g of the other, %r' % (k, c), scale=np.max(np.abs(d)))
        ctx.trace()
        ctx.state(c, ratio)
        ctx.outcome([float('%.5g' % x) for x in o['d']])


def cut(c, ctx):
    """the deformation of an unloaded member is the displacement of nodes inserted in it"""
    es, e = c[1], c[2]
    k = 1 + max(max(x) for x in es)
    pts = {n: gen.P4[n] for n in list(gen.P4)[:k]}
    s = gen.graph_frame(es, pts, 1 << e, {'A': gen.F6})
    s['patterns'] = {'P': {'node': {n: gen.FULL_NODE[i:] + gen.FULL_NODE[:i] for i, n in enumerate(pts)}}}
    s['cases'] = {'c': {'pats': [['P', 1.0]]}}
    b = 'm%d' % e
    i, j = s['beams'][b]['n']
    p, q = np.array(s['nodes'][i], float), np.array(s['nodes'][j], float)
    s2 = {k2: (dict(v) if isinstance(v, dict) else v) for k2, v in s.items()}
    s2['nodes'] = dict(s['nodes'])
    s2['beams'] = dict(s['beams'])
    m = s2['beams'].pop(b)
    prev = i
    for x in ST[1:-1]:
        n = 'X%g' % x
        s2['nodes'][n] = list(p + x * (q - p))
        s2['beams']['%s_%g' % (b, x)] = dict(m, n=[prev, n])
        prev = n
    s2['beams'][b + '_end'] = dict(m, n=[prev, j])
    a1 = real.build_api(s, ctx.scratch(), ctx)
    a2 = real.build_api(s2, ctx.scratch(), ctx)
    for a in (a1, a2):
        ctx.op(2)
        if not ctx.check(a.assemble() is True and a.solve_static('c') is True, 'solve', 'solve failed'):
            return
    R = ref.axes(p, q)
    for x in ST[1:-1]:
        g = a1.result_get_beam_deformation(b, x, 'c')
        u = a2.result_get_nodal_displacement('X%g' % x, 'c')
        ctx.op(2)
        if not ctx.check(g is not None and u is not None, 'query', 'no deformation'):
            return
        t, r = R @ u[:3], R @ u[3:]
        w = np.array([t[0], t[1], t[2], r[0], r[2], -r[1]])
        ctx.close(np.ravel(g), w, 'cut', lambda: 'deformation of %s at %g of %r differs from a node inserted there' % (b, x, c), rel=1e-6, scale=max(np.max(np.abs(u)), 1e-300) * 3)
    ctx.trace()
    ctx.state(c)
    ctx.outcome(c)
