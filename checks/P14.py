"""Section properties over a complete lattice of section dimensions, and how they reach the members."""
import itertools as it
import numpy as np
import gen
import ref
import real

ID = 'P14'
LEVEL = 'model_checking'
RULE = """For every shape and every combination of dimensions on a lattice (rectangles, circles, pipes, boxes, I shapes; thick,
thin and degenerate walls; millimetres and metres; several materials) the section's area, second moments, section moduli,
radii of gyration, torsion constant and shear areas are compared with the exact geometry (integration over the outline,
Prandtl's torsion function in series from the other side, Bredt's formula for boxes) and with conversions between shapes
and units; and a cantilever carrying that section, modelled through the interface, is solved under each unit end force and
compared with the exact tip displacements; the elastic constants, strain and stress tensors of materials for every strain over
{-0.001, 0, 0.002}^6, and the data of shell sections. A state is one section, or one material and strain."""
ASSUMPTIONS = ['the implementation uses a six-digit pi and truncated series: tolerances 1e-5, and 1 % for the torsion constant of thin rectangles',
               'closed thin-walled sections use Bredt torsion, I shapes the sum over their rectangles']
CHUNK = 8
MATS = [(7849.0, 2.0e11, 0.3), (2500.0, 3.0e4, 0.2), (2.5, 1.0, 0.0), (1.0, 7.0e10, 0.45)]


def rects(shape, z):
    """the section as signed rectangles (half height, half width, sign), centred"""
    if shape == 'rectangle':
        return [(z[0] / 2, z[1] / 2, 0, 1)]
    h, b, tw, tf = z
    if shape == 'box':
        return [(h / 2, b / 2, 0, 1), (h / 2 - tf, b / 2 - tw, 0, -1)]
    # I: two flanges and a web
    return [(tf / 2, b / 2, (h - tf) / 2, 1), (tf / 2, b / 2, -(h - tf) / 2, 1), (h / 2 - tf, tw / 2, 0, 1)]


def torsion_rect(a, b):
    """a x b, exact: series along the longer side"""
    a, b = max(a, b), min(a, b)
    n = np.arange(1, 4001, 2, dtype=float)
    return a * b ** 3 * (1 / 3 - 64 * b / (np.pi ** 5 * a) * float(np.sum(np.tanh(n * np.pi * a / 2 / b) / n ** 5)))


def exact(shape, z):
    """A, I22, I33, W22, W33, J, As2, As3, relative tolerance of J.  2 is up (h), 3 is across (b)."""
    if shape in ('circle', 'pipe'):
        d = z[0]
        t = z[1] if shape == 'pipe' else d / 2
        r = (np.polynomial.legendre.leggauss(20)[0] + 1) / 2
        w = np.polynomial.legendre.leggauss(20)[1] / 2
        rad = d / 2 - t + t * r
        A = float(np.sum(2 * np.pi * rad * w * t))
        Jp = float(np.sum(2 * np.pi * rad ** 3 * w * t))
        As = 0.9 * A if shape == 'circle' else np.pi * t * (d - t) / 2
        return A, Jp / 2, Jp / 2, Jp / d, Jp / d, Jp, As, As, 1e-5
    A = I22 = I33 = 0.0
    for hy, hx, y0, s in rects(shape, z):
        a = 4 * hy * hx
        A += s * a
        I33 += s * (a * (2 * hy) ** 2 / 12 + a * y0 ** 2)
        I22 += s * a * (2 * hx) ** 2 / 12
    h, b = z[0], z[1]
    W22, W33 = I22 / (b / 2), I33 / (h / 2)
    if shape == 'rectangle':
        return A, I22, I33, W22, W33, torsion_rect(h, b), 5 / 6 * A, 5 / 6 * A, 1e-2 if max(h / b, b / h) > 4 else 1e-4
    tw, tf = z[2:]
    if shape == 'box':
        Am = (h - tf) * (b - tw)
        J = 4 * Am ** 2 / (2 * (b - tw) / tf + 2 * (h - tf) / tw)
        return A, I22, I33, W22, W33, J, 2 * tw * h, 2 * tf * b, 1e-9
    J = 2 * torsion_rect(tf, b) + torsion_rect(tw, h - 2 * tf)
    return A, I22, I33, W22, W33, J, tw * h, 5 / 3 * tf * b, 1e-2


def cases(tier):
    L = [0.1, 0.25, 0.4, 1.0] if tier == 'quick' else [0.08, 0.1, 0.16, 0.25, 0.3, 0.4, 0.7, 1.0]
    for u in (1.0, 1000.0, 0.01):
        for h, b in it.product([0.05] + L + [2.0], repeat=2):
            yield ['rectangle', [h * u, b * u]]
        for d in [0.05] + L + [3.0]:
            yield ['circle', [d * u]]
            for q in (0.001, 0.005, 0.02, 0.05, 0.1, 0.2, 0.3, 0.45, 0.49, 0.5):
                yield ['pipe', [d * u, d * q * u]]
        for h, b in it.product(L, repeat=2):
            for p, q in it.product((0.004, 0.05, 0.08, 0.15, 0.3, 0.45), (0.004, 0.05, 0.08, 0.2, 0.35, 0.45)):
                yield ['box', [h * u, b * u, b * p * u, h * q * u]]
                if q * h / b > 0.03 and p * b / (h * (1 - 2 * q)) > 0.03:
                    yield ['I', [h * u, b * u, b * p * u, h * q * u]]
    yield ['mat']


NAMES = ['A', 'I22', 'I33', 'W22', 'W33', 'J', 'As2', 'As3']


def classes():
    from hyperstatic.core.fe_model.section.beam_section import BoxSection, PipeSection, ISection, CircleSection, RectangleSection
    return {'box': BoxSection, 'pipe': PipeSection, 'I': ISection, 'circle': CircleSection, 'rectangle': RectangleSection}


def run(c, ctx):
    from hyperstatic.core.fe_model.material.isotropy import IsotropicMaterial
    C = classes()
    if c[0] == 'mat':
        for rho, E, mu in MATS + [(0.1, 5e3, 0.25), (1e4, 2.1e11, 0.33), (5.0, 2e6, -0.25), (5.0, 2e6, 0.49), (5.0, 2e6, -0.9), (0.0, 1e-3, 0.1)]:
            m = IsotropicMaterial('m', rho, E, mu, 1e-5)
            ctx.op()
            ctx.check(m.E == E and m.a == 1e-5 and m.name == 'm', 'material', 'constants of material %r: %r %r %r' % ((rho, E, mu), m.E, m.a, m.name))
            lam, G = E * mu / (1 + mu) / (1 - 2 * mu), E / (2 * (1 + mu))
            ctx.close(m.lamda, lam, 'lame', lambda: 'first Lame parameter of %r' % ((rho, E, mu),), rel=1e-12, abs_=1e-12 * E)
            for e in it.product((-1e-3, 0.0, 2e-3), repeat=6):
                t = np.array([[e[0], e[3] / 2, e[5] / 2], [e[3] / 2, e[1], e[4] / 2], [e[5] / 2, e[4] / 2, e[2]]])
                ctx.op(2)
                ctx.close(m.C(*e), t, 'strain', lambda: 'strain tensor of %r' % (e,), rel=1e-12)
                ctx.close(m.D(*e), lam * np.trace(t) * np.eye(3) + 2 * G * t, 'stress', lambda: 'stress of material %r at strain %r' % ((rho, E, mu), e), rel=1e-9, scale=1e-3 * E)
                ctx.state('mat', rho, E, mu, e)
            ctx.check(abs(m.G - E / (2 * (1 + mu))) <= 1e-12 * E and m.rho == rho and m.mu == mu, 'material', 'material constants of %r' % ((rho, E, mu),))
            s = C['rectangle']('s', m, 2.0, 1.0)
            ctx.check(s.E == E and s.mu == mu and s.rho == rho and s.G == m.G and s.material == 'm' and s.name == 's', 'section-material', 'a section does not report its material')
            ctx.check(abs(s.lamda - rho * s.A) <= 1e-12 * rho * s.A, 'mass-per-length', 'mass per length')
            from hyperstatic.core.fe_model.section.shell_section import ShellSection
            for t, k in it.product((0.02, 0.3, 250.0), ('shell', 'plate', 'membrane')):
                s = ShellSection('q', m, t, k)
                ctx.check(s.E == E and s.mu == mu and s.rho == rho and s.G == m.G and s.material == 'm' and s.name == 'q' and s.t == t and s.ele_type == k,
                          'shell-section', 'a shell section does not report what it was defined with')
        # conversions between shapes
        m = IsotropicMaterial('m', 1., 1., .3, 0.)
        for h, b in it.product((0.3, 1.0, 2.0), repeat=2):
            r = C['rectangle']('r', m, h, b)
            r2 = C['rectangle']('r', m, b, h)
            ctx.close([r.I22, r.I33, r.W22, r.W33, r.A], [r2.I33, r2.I22, r2.W33, r2.W22, r2.A], 'swap', 'exchanging height and width', rel=1e-9)
            ctx.check(abs(r.J - r2.J) < 1e-3 * r.J, 'swap-J', 'torsion constant of %gx%g and %gx%g: %g %g' % (h, b, b, h, r.J, r2.J))
            x = C['box']('x', m, h, b, b / 2, h / 2)
            ctx.close([x.A, x.I22, x.I33], [r.A, r.I22, r.I33], 'solid-box', 'a box without a hole is a rectangle', rel=1e-9)
            i = C['I']('i', m, h, b, b, h / 5)
            ctx.close([i.A, i.I22, i.I33], [r.A, r.I22, r.I33], 'solid-I', 'an I with a web as wide as its flanges is a rectangle', rel=1e-9)
        for d in (0.2, 1.0, 5.0):
            p, o = C['pipe']('p', m, d, d / 2), C['circle']('o', m, d)
            ctx.close([p.A, p.I22, p.I33, p.J, p.W22], [o.A, o.I22, o.I33, o.J, o.W22], 'solid-pipe', 'a pipe without a hole is a circle', rel=1e-9)
        ctx.state('mat')
        ctx.outcome('mat')
        ctx.trace()
        return
    shape, z = c
    rho, E, mu = MATS[int(sum(z) * 1e4) % len(MATS)]
    m = IsotropicMaterial('m', rho, E, mu, 1e-5)
    s = C[shape]('s', m, *z)
    ctx.op()
    w = exact(shape, z)
    got = [s.A, s.I22, s.I33, s.W22, s.W33, s.J, s.As2, s.As3]
    for k, n in enumerate(NAMES):
        ctx.close(got[k], w[k], 'section:' + n, lambda: '%s of %s %r' % (n, shape, z), rel=w[8] if n == 'J' else 1e-5)
    ctx.close([s.i22, s.i33], [(w[1] / w[0]) ** 0.5, (w[2] / w[0]) ** 0.5], 'gyration', lambda: 'radii of gyration of %s %r' % (shape, z), rel=1e-5)
    ctx.check([float(x) for x in s.sizes] == [float(x) for x in z], 'sizes', lambda: 'sizes of %s %r: %r' % (shape, z, s.sizes))
    # through the interface: tip displacements of a cantilever along X, 2 is vertical
    api = real.Api(ctx.scratch())
    l = 10 * max(z)
    f = {'rectangle': api.add_beam_section_rectangle, 'circle': api.add_beam_section_circle, 'pipe': api.add_beam_section_pipe,
         'box': api.add_beam_section_box, 'I': api.add_beam_section_I}[shape]
    st = [api.add_isotropic_material('m', rho, E, mu, 1e-5), f('s', 'm', *z), api.add_node('A', 0, 0, 0), api.add_node('B', l, 0, 0),
          api.add_beam('b', 'A', 'B', 's'), api.set_nodal_restraint('A', *gen.F6)]
    P = E * w[0] * 1e-3
    loads = [[P if i == j else 0.0 for j in range(6)] for i in range(6)]
    for i in range(3):
        loads[3 + i][3 + i] = P * max(z)
    for i in range(6):
        st += [api.add_loadpattern('p%d' % i), api.set_nodal_load('p%d' % i, 'B', *loads[i]), api.add_static_case('c%d' % i), api.add_case_pattern('c%d' % i, 'p%d' % i, 1.0)]
    st.append(api.assemble())
    ctx.op(len(st))
    ctx.check(all(x is True for x in st), 'status', lambda: 'building %s %r: %r' % (shape, z, st))
    G = E / 2 / (1 + mu)
    A, I22, I33, J = w[0], w[1], w[2], w[5]
    M = P * max(z)
    want = [(0, P * l / E / A), (1, P * l ** 3 / 3 / E / I22), (2, P * l ** 3 / 3 / E / I33), (3, M * l / G / J), (4, M * l / E / I33), (5, M * l / E / I22)]
    for i, (k, v) in enumerate(want):
        ctx.op(2)
        ok = api.solve_static('c%d' % i)
        d = api.result_get_nodal_displacement('B', 'c%d' % i)
        if ctx.check(ok is True and d is not None, 'solve', 'cantilever %s %r' % (shape, z)):
            ctx.close(np.ravel(d)[k], v, 'member:%d' % i, lambda: 'tip displacement %d of a cantilever %s %r under unit end force %d' % (k, shape, z, i), rel=w[8] if i == 3 else 2e-5)
    ctx.trace()
    ctx.state(c)
    ctx.outcome(shape, [float('%.6g' % x) for x in w[:8]])
