"""Stiffness: symmetric, positive, stress-free exactly under rigid motions, correctly oriented - element and structure."""
import itertools as it
import math
import numpy as np
import gen
import ref
import real

ID = 'P18'
LEVEL = 'model_checking'
RULE = """(A) For every lattice direction, length and section and both member kinds: the element stiffness equals the inverse
flexibility of the member, is symmetric, has exactly six zero-energy motions (the rigid ones) and otherwise positive
energy; (B) for each of the 4096 release sets the condensed stiffness stays symmetric, positive and stress-free under
rigid motion; (C) every history up to depth 3 of turning members about their own axis, through elements and through the
model, gives the orientation last set, and frames with turned members solve to the independent solution; (D) every
connected graph on 3 and 4 nodes x orientations, with releases, and frames: the assembled stiffness is symmetric, equals
the independent one, and rigid motions of the whole structure are stress-free. A state is one matrix."""
ASSUMPTIONS = ['agreement to 1e-9 of the matrix after scaling by its diagonal']
CHUNK = 4
ANG = [0.0, 0.5, -math.pi / 2, math.pi, 2.0]


def cases(tier):
    for i, d in enumerate(gen.lattice_dirs(2) + gen.SPECIAL_DIRS):
        yield ['A', d, i % 2]
    for blk in range(64):
        for d in ([1.0, 2.0, 0.5], [0.0, 0.0, 2.0]):
            yield ['R', blk, d]
    for d in ([2.0, 0, 0], [0, 0, 1.5], [1, -2, 0.5], [0, -3, 0], [0, 0, -2]):
        yield ['T', d]
    for k in (3, 4):
        for es in gen.connected_graphs(k):
            m = len(es)
            for o in ([0, 0b101010 & ((1 << m) - 1)] if tier == 'quick' else range(1 << m)):
                for rel in range(3):
                    yield ['D', k, es, o, rel]
            for t in range(3):
                yield ['F', k, es, t]
    for s in [(1, 0, 1), (1, 1, 1), (2, 1, 2)] + ([] if tier == 'quick' else [(2, 2, 2), (3, 2, 3)]):
        yield ['G', s]


def dense(m):
    return np.asarray(m.todense() if hasattr(m, 'todense') else m, float)


def rigid(points):
    """6 rigid motions of the nodes"""
    R = np.zeros((6 * len(points), 6))
    c = np.mean(points, axis=0)
    for i, p in enumerate(points):
        R[6 * i:6 * i + 3, :3] = np.eye(3)
        x, y, z = np.subtract(p, c)
        R[6 * i:6 * i + 3, 3:] = np.array([[0, z, -y], [-z, 0, x], [y, -x, 0]])
        R[6 * i + 3:6 * i + 6, 3:] = np.eye(3)
    return R


def psd(ctx, K, P, key, what, exactly=None):
    """symmetric, positive semidefinite, stress-free under the rigid motions of the points"""
    d = np.sqrt(np.maximum(np.diag(K), 0))
    s = np.where(d > 0, 1 / np.where(d > 0, d, 1), 0)
    Q = K * np.outer(s, s)
    ctx.close(Q, Q.T, key + '-symmetric', lambda: '%s is not symmetric' % what(), rel=1e-9, scale=1.0)
    w = np.linalg.eigvalsh((Q + Q.T) / 2)
    ctx.check(w[0] > -1e-9 * max(1, w[-1]), key + '-positive', lambda: '%s has a negative eigenvalue %g' % (what(), w[0]))
    F = np.abs(K @ rigid(P))
    S = np.abs(K) @ np.abs(rigid(P))
    ctx.check(bool(np.all(F <= 1e-9 * (S + np.max(S) * 1e-3) + 1e-300)), key + '-rigid', lambda: '%s: a rigid motion causes forces %g' % (what(), np.max(F)))
    if exactly is not None:
        n = int(np.sum(w < 1e-9 * max(1, w[-1])))
        ctx.check(n == exactly, key + '-modes', lambda: '%s has %d zero-energy motions, expected %d: %r' % (what(), n, exactly, w))


def same(ctx, K, X, key, what):
    d = np.sqrt(np.maximum(np.diag(X), 0))
    s = np.where(d > 1e-9 * max(d.max(), 1e-300), 1 / np.where(d > 0, d, 1), 0)
    z = s == 0
    m = np.max(np.abs(X)) if X.size else 0
    ctx.close(K * np.outer(s, s), X * np.outer(s, s), key, what, rel=1e-8, scale=1.0)
    ctx.check(np.max(np.abs(K[z]), initial=0) <= 1e-9 * m and np.max(np.abs(K[:, z]), initial=0) <= 1e-9 * m, key, lambda: what() + ': an entry without stiffness is %g' % np.max(np.abs(K[z])))


def elements(p, q, sec):
    from hyperstatic.core.fe_model.node import Node
    from hyperstatic.core.fe_model.element.line.simple_beam import SimpleBeam
    from hyperstatic.core.fe_model.element.line.beam import Beam
    from hyperstatic.core.fe_model.material.isotropy import IsotropicMaterial
    from hyperstatic.core.fe_model.section.beam_section import BeamSection
    E, mu, A, I2, I3, J, rho = sec
    a, b = Node('a', *p), Node('b', *q)
    bs = BeamSection('s', IsotropicMaterial('m', rho, E, mu, 0.), 'general', [], A, A, A, J, I2, I3, 1., 1.)
    return [SimpleBeam('e', a, b, E, mu, A, I2, I3, J, rho), Beam('e', a, b, bs)]


def ref_K(sec, l):
    E, mu, A, I2, I3, J, rho = sec
    return ref.stiffness(E, E / 2 / (1 + mu), A, I2, I3, J, l)


def model_of(s):
    m = real.Model()
    for n, p in s['nodes'].items():
        m.add_node(n, *p)
    for b, q in s['beams'].items():
        E, mu, A, I2, I3, J, rho = q['sec']
        if q.get('kind') == 'beam':
            m.add_isotropic_material('M' + b, rho, E, mu, 0.)
            m.add_beam_section_general('S' + b, 'M' + b, A, A, A, I2, I3, J, 1., 1.)
            m.add_beam(b, *q['n'], 'S' + b)
        else:
            m.add_simple_beam(b, *q['n'], E, mu, A, I2, I3, J, rho)
        if q.get('rel'):
            m.set_beam_releases(b, *q['rel'])
        if 'rot' in q:
            m.set_beam_rotation(b, q['rot'])
    return m


def run(c, ctx):
    if c[0] == 'A':
        p = np.array([0.7, -0.4, 1.1])
        q = p + np.array(c[1])
        l = float(np.linalg.norm(c[1]))
        for sec in (gen.SECS[c[2]], gen.SYM):
            X = ref_K(sec, l)
            T = ref.T12(p, q)
            for e in elements(p, q, sec):
                what = lambda: 'stiffness of %s along %r, %r' % (type(e).__name__, c[1], sec)
                ctx.op(3)
                K = dense(e.integrate_K())
                same(ctx, K, X, 'element', what)
                ctx.close(dense(e.transform_matrix), T, 'axes', lambda: 'axes of a member along %r' % (c[1],), rel=0, abs_=1e-6 if l < 0.1 else 1e-8)
                ctx.check(abs(e.length - l) < 1e-9 * max(l, 1), 'length', lambda: 'length of a member along %r: %r' % (c[1], e.length))
                G = dense(e.transform_matrix).T @ K @ dense(e.transform_matrix)
                psd(ctx, K, [[0, 0, 0], [l, 0, 0]], 'element', what, 6)
                psd(ctx, G, [p, q], 'element-global', what)
                ctx.trace()
                ctx.state(c, sec, type(e).__name__)
                ctx.outcome([float('%.6g' % x) for x in np.diag(G)])
        return
    if c[0] == 'R':
        p = np.array([0.7, -0.4, 1.1])
        q = p + np.array(c[2])
        l = float(np.linalg.norm(c[2]))
        X = ref_K(gen.SEC, l)
        for e in elements(p, q, gen.SEC):
            K0 = e.integrate_K()
            for low in range(64):
                bits = c[1] * 64 + low
                rel = [bool(bits >> i & 1) for i in range(12)]
                e.releases = rel
                ctx.op()
                K = dense(e.static_condensate(K0))
                what = lambda: 'stiffness of %s with releases %r' % (type(e).__name__, [i for i in range(12) if rel[i]])
                Y, _, _ = ref.condense(X, np.zeros(12), rel)
                sc = np.sqrt(np.diag(X))
                ctx.close(K / np.outer(sc, sc), Y / np.outer(sc, sc), 'released', what, rel=1e-8, scale=1.0)
                ctx.close(K / np.outer(sc, sc), K.T / np.outer(sc, sc), 'released-symmetric', what, rel=1e-9, scale=1.0)
                ctx.check(np.min(np.linalg.eigvalsh((K + K.T) / 2 / np.outer(sc, sc))) > -1e-9, 'released-positive', what)
                ctx.check(not np.any(np.abs(K[rel]) > 1e-9 * np.max(X)), 'released-rows', what)
                ctx.check([bool(x) for x in e.releases] == rel, 'releases-query', what)
                ctx.trace()
                ctx.state(c[1], low, c[2])
                ctx.outcome([float('%.5g' % x) for x in np.diag(K)])
            ctx.check(np.allclose(dense(K0), X, rtol=1e-8, atol=1e-9 * np.max(X)), 'condense-pure', 'condensing changed the element stiffness itself')
        return
    if c[0] == 'T':
        p = np.array([1., 2., 3.])
        q = p + np.array(c[1], float)
        for h in it.product(range(len(ANG)), repeat=3):
            E = elements(p, q, gen.SEC)
            m = real.Model()
            m.add_node('a', *p)
            m.add_node('b', *q)
            m.add_simple_beam('e', 'a', 'b', *gen.SEC)
            for i in h:
                for e in E:
                    e.rotation = ANG[i]
                m.set_beam_rotation('e', ANG[i])
                ctx.op(3)
                # every other history looks at each step, the rest only at the last
                if sum(h) % 2:
                    S = ref.T12(p, q, ANG[i])
                    for g in [e.transform_matrix for e in E] + [m.get_beam_transform_matrix('e')]:
                        ctx.close(dense(g), S, 'rotation', lambda: 'axes of a member along %r turned to %r, on the way to %r' % (c[1], ANG[i], [ANG[x] for x in h]), rel=0, abs_=1e-9)
                    m.get_beam_K('e')
            T = ref.T12(p, q, ANG[h[-1]])
            for e in E:
                ctx.close(dense(e.transform_matrix), T, 'rotation', lambda: 'axes of a member along %r turned to %r in succession' % (c[1], [ANG[i] for i in h]), rel=0, abs_=1e-9)
                ctx.check(abs(e.rotation - ANG[h[-1]]) < 1e-12, 'rotation-query', 'rotation query')
            ctx.close(dense(m.get_beam_transform_matrix('e')), T, 'rotation-model', lambda: 'axes of a model member along %r turned to %r in succession' % (c[1], [ANG[i] for i in h]), rel=0, abs_=1e-9)
            ctx.trace()
            ctx.state(c, h[-1])
        ctx.outcome(c)
        return
    if c[0] in 'DF':
        pts = {n: gen.P4[n] for n in list(gen.P4)[:c[1]]}
        s = gen.graph_frame(c[2], pts, c[3] if c[0] == 'D' else 1, {'A': gen.F6})
        b = list(s['beams'])
        if c[0] == 'D' and c[4] >= 1:
            s['beams'][b[0]]['rel'] = [False] * 4 + [True, True] + [False] * 6
        if c[0] == 'D' and c[4] == 2:
            s['beams'][b[-1]]['rel'] = [True] + [False] * 8 + [False, True, True]
        if c[0] == 'F':
            for i, x in enumerate(b):
                s['beams'][x]['rot'] = ANG[(i + c[3]) % 5]
    else:
        s = gen.grid(*c[1])
    F = ref.Frame(s)
    m = model_of(s)
    lc = None
    ctx.op()
    if c[0] == 'F':
        s2 = gen.full_loads(s)
        F = ref.Frame(s2)
        m.set_nodal_restraint('A', *gen.F6)
        pats = {}
        for pn, pat in s2['patterns'].items():
            pats[pn] = real.LoadPattern(pn)
            for n, v in pat.get('node', {}).items():
                pats[pn].set_nodal_load(n, *v)
            for x, v in pat.get('dist', {}).items():
                pats[pn].set_beam_load_dist(x, *v)
            for x, v in pat.get('conc', {}).items():
                pats[pn].set_beam_load_conc(x, *v)
        lcs = []
        for cn, q in s2['cases'].items():
            lc = real.StaticCase(cn)
            for pn, f in q['pats']:
                lc.add_pattern(pats[pn], f)
            lcs.append(lc)
        w = ctx.scratch()
        real.Assembly(m, lcs).save(w, 'x.asb')
        S = real.StaticSolver(w, 'x.asb')
        for cn in s2['cases']:
            o = F.solve(cn)
            if o is None:
                continue
            ctx.op(2)
            ctx.check(S.solve_linear(cn) is True, 'solve', 'solve failed')
            N = real.NodeResultResolver(w, 'x.asb')
            g = np.concatenate([np.ravel(N.resolve_nodal_displacement(n, cn)) for n in s['nodes']])
            real.close_disp(ctx, g, o['d'], 'turned-displacement', lambda: 'frame with turned members %r, case %s' % (c, cn))
            B = real.BeamResultResolver(w, 'x.asb')
            sf = max(np.max(np.abs(o['f'])), np.max(np.abs(o['reac'])))
            for x in s['beams']:
                ctx.close(np.ravel(B.resolve_beam_end_force(x, cn)), o['ends'][x], 'turned-force', lambda: 'end forces of %s in frame with turned members %r' % (x, c), scale=sf)
    K = dense(real.Assembly(m, []).assemble_K())
    ix = np.concatenate([6 * m.get_node_hid(n) + np.arange(6) for n in s['nodes']])
    if not ctx.check(sorted(ix.tolist()) == list(range(F.N)) and K.shape == (F.N, F.N), 'shape', 'assembled stiffness has the wrong size'):
        return
    K = K[np.ix_(ix, ix)]
    what = lambda: 'assembled stiffness of %r' % (c,)
    sc = np.sqrt(np.maximum(np.diag(F.K), 1e-12 * np.max(np.diag(F.K))))
    ctx.close(K / np.outer(sc, sc), F.K / np.outer(sc, sc), 'assembled', what, rel=1e-8, scale=1.0)
    psd(ctx, K, [s['nodes'][n] for n in s['nodes']], 'assembled', what, 6 if c[0] in 'GF' or c[0] == 'D' and c[4] == 0 else None)
    ctx.trace()
    ctx.state(c)
    ctx.outcome([float('%.5g' % x) for x in np.diag(K)])
