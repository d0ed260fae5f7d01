"""Mass: element mass matrices are the exact integrals, no mass is lost or invented, whatever the direction and order."""
import itertools as it
import numpy as np
import gen
import ref
import real

ID = 'P17'
LEVEL = 'model_checking'
RULE = """(A) For every length, section and density of a lattice and both member kinds, the lumped and the consistent element
mass matrices are compared with quadrature of the shape functions: symmetric, positive, exact entries, total mass; (B) for
every connected graph on 3 and 4 nodes x member orientations x creation orders x nodal-mass placements x releases of
rotations, and frames, the assembled mass matrix is compared entry by entry with an independent tributary sum - total mass
in every direction, at every node; nodal masses set again replace earlier ones (all histories up to depth 3); the mass
does not depend on supports or load cases; every section shape carries density times its own area. A state is one model."""
ASSUMPTIONS = ['lumped rotational member mass is a nominal 1e-12 per end (documented default)',
               'translational releases are outside the family (the mass lumped at a released end is not attached to it)']
CHUNK = 8


def cases(tier):
    for l in (0.05, 0.5, 1.0, 2.75, 30.0):
        for d in ([1, 0, 0], [0, 0, 1], [1, -2, 0.5], [-1, 1, 1]):
            yield ['A', l, d]
    for k in (3, 4):
        for es in gen.connected_graphs(k):
            m = len(es)
            for o in ([0, 0b101010 & ((1 << m) - 1)] if tier == 'quick' else range(1 << m)):
                for mass in range(6):
                    yield ['B', k, es, o, mass]
    for s in [(1, 0, 1), (1, 1, 1), (2, 1, 2)] + ([] if tier == 'quick' else [(2, 2, 2), (3, 2, 3)]):
        for mass in range(6):
            yield ['C', s, mass]
    for h in it.product(range(6), repeat=3):
        yield ['H', list(h)]
    yield ['S']


ML = [[2., 2., 2., 0., 0., 0.], [1., 2., 3., 4., 5., 6.], [0., 0., 0., 0., 0., 7.], [0.] * 6]


def exact_consistent(sec, l):
    E, mu, A, I2, I3, J, rho = sec
    M = np.zeros((12, 12))
    D = np.diag([A, A, A, J])
    for x, w in zip(ref.GX, ref.GW):
        N = ref.shape(x, l)[:4]
        M += w * l * rho * N.T @ D @ N
    return M


def dense(m):
    return np.asarray(m.todense() if hasattr(m, 'todense') else m, float)


def element(c, ctx):
    from hyperstatic.core.fe_model.node import Node
    from hyperstatic.core.fe_model.element.line.simple_beam import SimpleBeam
    from hyperstatic.core.fe_model.element.line.beam import Beam
    from hyperstatic.core.fe_model.material.isotropy import IsotropicMaterial
    from hyperstatic.core.fe_model.section.beam_section import BeamSection
    l, d = c[1], np.array(c[2], float)
    p = np.array([1., -2., 3.])
    q = p + l * d / np.linalg.norm(d)
    for sec in (gen.SEC, gen.SEC2, gen.SYM, [1., .2, 2., .1, .3, .25, 7849.], gen.SEC[:6] + [0.]):
        E, mu, A, I2, I3, J, rho = sec
        a, b = Node('a', *p), Node('b', *q)
        mat = IsotropicMaterial('m', rho, E, mu, 0.)
        bs = BeamSection('s', mat, 'general', [], A, A, A, J, I2, I3, 1., 1.)
        for e in (SimpleBeam('e', a, b, E, mu, A, I2, I3, J, rho), Beam('e', a, b, bs)):
            kind = type(e).__name__
            ctx.op(2)
            M = dense(e.integrate_M())
            w = np.diag([rho * A * l / 2] * 3 + [0] * 3 + [rho * A * l / 2] * 3 + [0] * 3)
            ctx.close(M, w, 'lumped', lambda: 'lumped mass of %s, length %g, %r' % (kind, l, sec), rel=1e-9, abs_=1e-9)
            C = dense(e.integrate_M(consistent=True))
            if rho == 0:
                ctx.close(C, 0 * C, 'massless', lambda: '%s without density has consistent mass' % kind, abs_=1e-9, scale=0.0)
                continue
            X = exact_consistent(sec, l)
            ctx.close(C, C.T, 'consistent-symmetry', lambda: 'consistent mass of %s is not symmetric' % kind, rel=1e-12)
            for blk, nm in (([0, 6], 'axial'), ([3, 9], 'torsion'), ([1, 5, 7, 11], 'bending 1-2'), ([2, 4, 8, 10], 'bending 1-3')):
                ix = np.ix_(blk, blk)
                s = np.sqrt(np.outer(np.diag(X)[blk], np.diag(X)[blk]))
                ctx.close(C[ix] / s, X[ix] / s, 'consistent', lambda: 'consistent mass of %s (%s), length %g, %r' % (kind, nm, l, sec), rel=1e-9)
            ctx.check(np.count_nonzero(C) == np.count_nonzero(np.abs(X) > 1e-14 * np.max(np.abs(X))) or np.allclose(C, X, atol=1e-9 * np.max(np.abs(X))), 'consistent-extra', lambda: 'consistent mass of %s has extra entries' % kind)
            for k in range(3):
                r = np.zeros(12)
                r[[k, k + 6]] = 1
                ctx.check(abs(r @ C @ r - rho * A * l) <= 1e-9 * rho * A * l, 'total', lambda: 'consistent mass of %s: total in direction %d is %g, not %g' % (kind, k, r @ C @ r, rho * A * l))
                ctx.check(abs(r @ M @ r - rho * A * l) <= 1e-9 * rho * A * l, 'total', lambda: 'lumped mass of %s: total in direction %d is %g, not %g' % (kind, k, r @ M @ r, rho * A * l))
            ctx.check(np.min(np.linalg.eigvalsh((C + C.T) / 2)) > -1e-9 * np.max(np.abs(C)), 'positive', lambda: 'consistent mass of %s is not positive' % kind)
            ctx.trace()
            ctx.state(c, sec, kind)
            ctx.outcome([float('%.6g' % x) for x in C.ravel()])


def build(s, order=0):
    m = real.Model()
    nn, bb = list(s['nodes']), list(s['beams'])
    if order & 1:
        nn.reverse()
    if order & 2:
        bb.reverse()
    for n in nn:
        m.add_node(n, *s['nodes'][n])
    secs = {}
    for b in bb:
        q = s['beams'][b]
        E, mu, A, I2, I3, J, rho = q['sec']
        if q.get('kind') == 'beam':
            k = tuple(q['sec'])
            if k not in secs:
                secs[k] = 'S%d' % len(secs)
                m.add_isotropic_material('M' + secs[k], rho, E, mu, 0.)
                m.add_beam_section_general(secs[k], 'M' + secs[k], A, A, A, I2, I3, J, 1., 1.)
            m.add_beam(b, *q['n'], secs[k])
        else:
            m.add_simple_beam(b, *q['n'], E, mu, A, I2, I3, J, rho)
        if q.get('rel'):
            m.set_beam_releases(b, *q['rel'])
    for n, v in s.get('rest', {}).items():
        m.set_nodal_restraint(n, *v)
    for n, v in s.get('mass', {}).items():
        m.set_nodal_mass(n, *v)
    return m


def expected(s, m):
    N = 6 * len(s['nodes'])
    D = np.zeros(N)
    for n, v in s.get('mass', {}).items():
        D[6 * m.get_node_hid(n):][:6] += v
    for b, q in s['beams'].items():
        i, j = q['n']
        l = np.linalg.norm(np.subtract(s['nodes'][i], s['nodes'][j]))
        for n in (i, j):
            D[6 * m.get_node_hid(n):][:3] += q['sec'][6] * q['sec'][2] * l / 2
    return D


def run(c, ctx):
    if c[0] == 'A':
        return element(c, ctx)
    if c[0] == 'S':
        return shapes(ctx)
    if c[0] == 'H':
        s = gen.graph_frame([(0, 1), (1, 2)], {k: gen.P4[k] for k in 'ABC'}, 0, {'A': gen.F6})
        m = build(s)
        cur = {}
        for o in c[1]:
            n, v = 'BC'[o % 2], ML[o // 2]
            m.set_nodal_mass(n, *v)
            cur[n] = v
            ctx.op()
        s['mass'] = cur
        for n in 'ABC':
            ctx.close(np.ravel(m.get_nodal_mass(n)), cur.get(n, [0.] * 6), 'nodal-mass', lambda: 'nodal mass of %s after %r' % (n, c), rel=0, abs_=1e-12)
        M = dense(real.Assembly(m, []).assemble_M())
        ctx.close(M, np.diag(expected(s, m)), 'mass-history', lambda: 'assembled mass after %r' % (c,), rel=1e-9, abs_=1e-9)
        ctx.trace()
        ctx.state(c[0], sorted(cur.items()))
        return
    if c[0] == 'B':
        pts = {n: gen.P4[n] for n in list(gen.P4)[:c[1]]}
        s = gen.graph_frame(c[2], pts, c[3], {'A': gen.F6})
    else:
        s = gen.grid(*c[1])
    mass = c[-1]
    s['mass'] = {n: [x * (1 + i) for x in ML[(i + mass) % 4]] for i, n in enumerate(s['nodes']) if mass and (i + mass) % 3 != 2}
    if mass % 2:
        s['beams'][list(s['beams'])[0]]['rel'] = [False] * 4 + [True, True] + [False] * 3 + [False, False, True]
    for order in range(4):
        m = build(s, order)
        lc = real.ModalCase('e', 2)
        lc.set_nodal_restraint('A' if c[0] == 'B' else list(s['nodes'])[0], *gen.F6)
        sc = real.StaticCase('c')
        asb = real.Assembly(m, [lc, sc])
        D = np.diag(expected(s, m))
        for name in (None, 'e'):
            ctx.op()
            M = dense(asb.assemble_M() if name is None else asb.assemble_M(name))
            if not ctx.check(M.shape == D.shape, 'shape', lambda: 'mass matrix of %r has shape %r' % (c, M.shape)):
                continue
            ctx.close(M, D, 'assembled', lambda: 'assembled mass of %r (creation order %d, case %r)' % (c, order, name), rel=1e-9, abs_=1e-9)
            tot = sum(v[0] for v in s['mass'].values()) + sum(q['sec'][6] * q['sec'][2] * np.linalg.norm(np.subtract(s['nodes'][q['n'][0]], s['nodes'][q['n'][1]])) for q in s['beams'].values())
            r = np.zeros(len(D))
            r[0::6] = 1
            ctx.check(abs(r @ M @ r - tot) <= 1e-9 * max(tot, 1), 'total', lambda: 'total mass of %r is %g, not %g' % (c, r @ M @ r, tot))
        ctx.trace()
        ctx.state(c, order)
    ctx.outcome(np.round(np.diag(D), 6).tolist())


def shapes(ctx):
    """every section shape carries density x its own area"""
    for rho in (7849.0, 2.5):
        m = real.Model()
        m.add_node('a', 0, 0, 0)
        m.add_isotropic_material('x', 1.0, 1., .3, 0.)
        m.add_isotropic_material('m', rho, 2e11, .3, 0.)
        sec = [('add_beam_section_rectangle', (0.4, 0.2), 0.08), ('add_beam_section_I', (0.4, 0.2, 0.014, 0.02), 0.4 * 0.2 - 0.186 * 0.36), ('add_beam_section_box', (0.4, 0.2, 0.014, 0.02), 0.08 - 0.36 * 0.172),
               ('add_beam_section_circle', (0.3,), np.pi * 0.0225), ('add_beam_section_pipe', (0.3, 0.02), np.pi * (0.0225 - 0.0169))]
        L = [3.0, 1.0, 2.0, 4.0, 0.5]
        D = np.zeros(36)
        x = 0
        for i, (f, z, A) in enumerate(sec):
            getattr(m, f)('s%d' % i, 'm', *z)
            x += L[i]
            m.add_node('n%d' % i, x, 0, 0)
            m.add_beam('b%d' % i, 'a' if i == 0 else 'n%d' % (i - 1), 'n%d' % i, 's%d' % i)
            D[6 * i:6 * i + 3] += rho * A * L[i] / 2
            D[6 * i + 6:6 * i + 9] += rho * A * L[i] / 2
            ctx.op(3)
        M = dense(real.Assembly(m, []).assemble_M())
        ctx.close(M, np.diag(D), 'section-mass', 'mass of members with catalogue sections', rel=1e-5)
        ctx.trace()
        ctx.state('shapes', rho)
    ctx.outcome('shapes')
