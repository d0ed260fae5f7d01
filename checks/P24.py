"""Element formulations: compiled kernels, symbolic derivations, interpolation functions and the thick plate agree with the theory."""
import importlib
import itertools as it
import shutil
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import exts
import mc
import P19

ID = 'P24'
LEVEL = 'model_checking'
RULE = """(K) Each of the six compiled shell kernels (rebuilt from the C and Cython sources of the code under test) is evaluated
on every shape of a family x material x thickness x point of a grid over the element and compared with the symbolic
derivation that documents it, evaluated independently of the generated C; (T) the thick plate on the same family: at every point of the
grid the exact energy density of every constant curvature and no shear, at every thickness over six decades, symmetric,
positive, without energy for rigid motions, and in the thin limit the discrete-Kirchhoff plate; the thick shell element the
same in nodal rotations, whatever its place and orientation in space; (I) interpolation functions against every nodal
functional and every monomial; (O) differential operators, Jacobians and the constitutive law against every monomial,
shape and strain of a lattice. A state is one (kernel, shape, material, point) or (function, functional)."""
ASSUMPTIONS = ['the kernels are compared to 1e-9 of their largest entry', 'triangle kernels are compared with their own derivation here and with the theory in P19 (see known findings)']
CHUNK = 2
SRC = {'metaT9': ('membranes.T9', 'BDB'), 'metaGQ12': ('membranes.GQ12', 'BDB_'), 'metaDKT': ('plates.metaDKT', 'BDB'),
       'metaDKQ': ('plates.metaDKQ', 'BDB'), 'metaTMQb': ('plates.TMQ', 'BDBb'), 'metaTMQs': ('plates.TMQ', 'BCBs')}
ARGS = {3: 'E mu t xi eta x1 y1 x2 y2 x3 y3'.split(), 4: 'E mu t xi eta x1 y1 x2 y2 x3 y3 x4 y4'.split()}
ARGS9 = 'E mu t x1 y1 x2 y2 x3 y3'.split()
F, BIN = {}, {}
META = 'hyperstatic.core.fe_model.meta.'


def formula(name):
    """the derivation as a function of numbers; None if it is no longer kept under that name"""
    import sympy as syp
    mod, att = SRC[name]
    m = importlib.import_module(META + mod)
    M = getattr(m, att, None)
    if M is None:
        return None
    sym = {s.name: s for s in M.free_symbols}
    names = ARGS9 if name == 'metaT9' else ARGS[3 if name == 'metaDKT' else 4]
    if set(sym) - set(names):
        return None
    return syp.lambdify([sym.get(n, syp.Symbol(n)) for n in names], M, 'numpy', cse=True)


def prepare(tier, root):
    with ThreadPoolExecutor(1) as ex:       # compilers run beside the derivations
        h = ex.submit(exts.build, mc.REPO, exts.ALL)
        for n in SRC:
            F[n] = formula(n)
        d = h.result()
    for n in SRC:
        BIN[n] = importlib.import_module(n).autofunc_c
    shutil.rmtree(d, ignore_errors=True)
    from hyperstatic.core.fe_model.element.quad import DKGQ     # noqa: F401


GRID = [-1.0, -0.7745966692414834, -0.3, 0.0, 0.5773502691896258, 1.0]
QUADS = dict(P19.QUADS, tiny=[(0, 0), (2e-3, 0), (2e-3, 1e-3), (0, 1e-3)], big=[(1e3, 1e3), (1.2e3, 1.01e3), (1.21e3, 1.3e3), (1.01e3, 1.25e3)])
TRIS = dict(P19.TRIS, tiny=[(0, 0), (2e-3, 1e-4), (5e-4, 1e-3)], big=[(1e3, 1e3), (1.2e3, 1.01e3), (1.1e3, 1.3e3)])
THICK = [1e-3, 0.05, 0.2, 1.0, 20.0]


def cases(tier):
    for n in SRC:
        for s in TRIS if n in ('metaT9', 'metaDKT') else QUADS:
            yield ['K', n, s]
    for s in QUADS:
        yield ['T', s]
        for o in P19.ORI:
            yield ['E', s, o]
    for l in (1.0, 0.5, 3.0):
        yield ['I', l]
    for k in ('op', 'jac', 'law'):
        yield ['O', k]


def run(c, ctx):
    {'K': kernel, 'T': thick, 'E': element, 'I': interp, 'O': helpers}[c[0]](c, ctx)


def kernel(c, ctx):
    n = c[1]
    if F[n] is None:
        ctx.count('derivation_absent_skipped')
        return
    tri = n in ('metaT9', 'metaDKT')
    X = (TRIS if tri else QUADS)[c[2]]
    G = [(x, y) for x in GRID for y in GRID] if not tri else [(x, y) for x in np.linspace(0, 1, 6) for y in np.linspace(0, 1, 6) if x + y <= 1 + 1e-12]
    if n == 'metaT9':
        G = [()]
    for st in range(len(X)):
        Y = [v for p in X[st:] + X[:st] for v in p]
        for (E, mu), t in it.product(P19.MATS, THICK):
            for g in G:
                a = [float(v) for v in (E, mu, t, *g, *Y)]
                ctx.op()
                got, want = np.array(BIN[n](*a), float), np.array(F[n](*a), float)
                if not ctx.close(got, want, 'kernel:' + n, lambda: 'kernel %s at %r' % (n, a), rel=1e-9, scale=max(np.max(np.abs(want)), 1e-300)):
                    return
                ctx.state(n, c[2], st, E, t, g)
            ctx.outcome(n, [float('%.5g' % x) for x in got.ravel()[:6]])
    ctx.trace()


def curved(kap, x, y):
    """deflection and slopes of a constant curvature"""
    kx, ky, kxy = kap
    w = -(kx * x * x + ky * y * y + kxy * x * y) / 2
    return w, -(2 * kx * x + kxy * y) / 2, -(2 * ky * y + kxy * x) / 2


KAP = [k for k in it.product((-1.0, 0.0, 1.0), repeat=3) if any(k)]


def detj(X, xi, eta):
    X = np.array(X, float)
    sx, sy = np.array([-1, 1, 1, -1]), np.array([-1, -1, 1, 1])
    dx, dy = sx * (1 + sy * eta) / 4, sy * (1 + sx * xi) / 4
    return (dx @ X[:, 0]) * (dy @ X[:, 1]) - (dx @ X[:, 1]) * (dy @ X[:, 0])


def density(E, mu, t, kap):
    kx, ky, kxy = kap
    return E * t ** 3 / 12 / (1 - mu * mu) * (kx * kx + ky * ky + 2 * mu * kx * ky + (1 - mu) / 2 * kxy * kxy)


def thick(c, ctx):
    X = QUADS[c[1]]
    L = max(np.ptp([p[0] for p in X]), np.ptp([p[1] for p in X]))
    mid = np.mean(X, axis=0)
    for st in range(4):
        Y = [(p[0] - mid[0], p[1] - mid[1]) for p in X[st:] + X[:st]]
        flat = [v for p in Y for v in p]
        for (E, mu), t in it.product(P19.MATS, [L * q for q in (1e-4, 1e-2, 0.1, 0.5, 2.0, 100.0)]):
            for g in it.product(GRID, repeat=2):
                a = [float(v) for v in (E, mu, t, *g, *flat)]
                B, S = (np.array(BIN[n](*a), float) for n in ('metaTMQb', 'metaTMQs'))
                ctx.op(2)
                what = lambda: 'thick plate %r' % (a,)
                s3 = np.array([1, L, L] * 4)
                for nm, M in (('bending', B), ('shear', S)):
                    N = M / np.outer(s3, s3)        # as if all lengths were of the size of the element
                    sc = max(np.max(np.abs(N)), 1e-300)
                    if not ctx.close(N, N.T, 'symmetry', lambda: '%s: %s is not symmetric' % (what(), nm), rel=1e-9, scale=sc):
                        return
                    if not ctx.check(np.min(np.linalg.eigvalsh((N + N.T) / 2)) > -1e-9 * sc, 'positive', lambda: '%s: %s is not positive' % (what(), nm)):
                        return
                    for k, (w, wx, wy) in enumerate(((1, 0, 0), (0, 1, 0), (0, 0, 1))):
                        u = np.ravel([[w + wx * x + wy * y, wx, wy] for x, y in Y]) / (1 if k == 0 else L)
                        if not ctx.close(M / s3[:, None] @ u, np.zeros(12), 'rigid', lambda: '%s: %s resists the rigid motion %d' % (what(), nm, k), rel=1e-8, scale=np.max(np.abs(M / s3[:, None] / s3[None, :]))):
                            return
                j = detj(Y, *g)
                full = density(E, mu, t, (1, 1, 1)) * abs(j)
                sh = np.max(np.abs(S / np.outer(s3, s3))) * L * L * L * L / L ** 2
                for kap in KAP:
                    u = np.ravel([curved(kap, x, y) for x, y in Y])
                    if not ctx.close(u @ B @ u, density(E, mu, t, kap) * j, 'curvature', lambda: '%s: energy of the curvature %r' % (what(), kap), rel=1e-7, scale=full):
                        return
                    if not ctx.close(u @ S @ u, 0.0, 'no-shear', lambda: '%s: a constant curvature %r is sheared' % (what(), kap), rel=1e-8, scale=max(sh, full)):
                        return
                ctx.state('T', c[1], st, E, t / L, g)
            ctx.outcome(c[1], st, [float('%.4g' % x) for x in np.ravel(B)[:4]])
    ctx.trace()


def element(c, ctx):
    try:
        from hyperstatic.core.fe_model.element.quad.TMGQ import TMGQ
    except ImportError:
        ctx.count('element_absent_skipped')
        return
    from hyperstatic.core.fe_model.element.quad.DKGQ import DKGQ
    from hyperstatic.core.fe_model.node import Node
    from hyperstatic.core.fe_model.material.isotropy import IsotropicMaterial
    from hyperstatic.core.fe_model.section.shell_section import ShellSection
    R = P19.ORI[c[2]]
    X2 = np.array(QUADS[c[1]], float)
    X2 -= X2.mean(axis=0)
    X = np.c_[X2, np.zeros(4)] @ R.T
    L = max(np.ptp(X2[:, 0]), np.ptp(X2[:, 1]))
    area = sum(X2[i, 0] * X2[(i + 1) % 4, 1] - X2[i, 1] * X2[(i + 1) % 4, 0] for i in range(4)) / 2
    for (E, mu), q, kind in it.product(P19.MATS, (1e-3, 0.1, 1.0), ('plate', 'shell', 'membrane')):
        mat = IsotropicMaterial('m', 1., E, mu, 0.)
        t = q * L
        ns = [Node(str(i), *(X[i] + P19.SHIFT * L)) for i in range(4)]
        el, dk = (k('e', ShellSection('s', mat, t, kind), *ns) for k in (TMGQ, DKGQ))
        K, D = (dense(T).T @ dense(Ke) @ dense(T) for Ke, T in ((el.integrate_K(), el.transform_matrix), (dk.integrate_K(), dk.transform_matrix)))
        ctx.op(2)
        s6 = np.array([1, 1, 1, L, L, L] * 4)
        sc = np.max(np.abs(K / np.outer(s6, s6)))
        what = lambda: 'thick shell %r, thickness %g, %s' % (c, t, kind)
        ctx.close(K / np.outer(s6, s6), K.T / np.outer(s6, s6), 'element-symmetry', lambda: what() + ': not symmetric', rel=1e-9, scale=sc)
        B6 = np.array([R @ v for v in np.eye(3)])       # rows: local axes in space
        for k in range(6):
            a, w = np.eye(3)[k % 3], np.zeros(3)
            if k > 2:
                a, w = np.zeros(3), np.eye(3)[k - 3]
            # a rotation about the normal moves the drilling rotations with the material only in the definition of the membrane
            n = R[:, 2]
            u = np.ravel([np.r_[a + np.cross(w, x) / L, (w - n * (n @ w)) / L] for x in X])
            ctx.close(K @ u / s6, np.zeros(24), 'element-rigid', lambda: '%s: resists the rigid motion %d' % (what(), k), rel=1e-7, scale=sc)
        if kind != 'membrane':
            full = density(E, mu, t, (1, 1, 1)) * area
            for kap in KAP:
                u = []
                for x, y in X2:
                    w, wx, wy = curved(kap, x, y)
                    u += list(R @ np.array([0, 0, w])) + list(R @ np.array([wy, -wx, 0]))
                u = np.array(u)
                ctx.close(u @ K @ u, density(E, mu, t, kap) * area, 'element-curvature', lambda: '%s: energy of the curvature %r' % (what(), kap), rel=1e-6, scale=full)
        else:
            ctx.close(K / np.outer(s6, s6), D / np.outer(s6, s6), 'membrane-part', lambda: what() + ': the membrane differs from that of the thin shell', rel=1e-9, scale=sc)
        ctx.state(c, E, q, kind)
    ctx.trace()


def dense(M):
    return np.asarray(M.toarray() if hasattr(M, 'toarray') else M, float)


def interp(c, ctx):
    import sympy as syp
    from hyperstatic.core.fe_model.meta.interpolate import Lagrange, Hermite
    xi, eta, l = syp.symbols('xi eta l')
    L = c[1]
    vals = lambda f, p: float(f.subs({xi: p[0], eta: p[1], l: L}))
    # each function belongs to one nodal functional: it is 1 there and 0 at all the others
    for name, fs, funs in (
            ('Lagrange 1D', Lagrange.N1D(), [(x, 0, 0, 0) for x in (-1, 1)]),
            ('Lagrange 2D', Lagrange.N2D(), [(x, y, 0, 0) for x in (-1, 1) for y in (-1, 1)]),
            ('Hermite 1D', Hermite.N1D(), [(x, 0, a, 0) for x in (0, 1) for a in (0, 1)]),
            ('Hermite 2D', Hermite.N2D(), [(x, y, a, b) for x in (0, 1) for y in (0, 1) for a in (0, 1) for b in (0, 1)])):
        fs = [syp.sympify(f) for f in fs]
        two = '2D' in name
        ctx.op(len(fs) * len(funs))
        if not ctx.check(len(fs) == len(funs), 'basis-count', '%s has %d functions' % (name, len(fs))):
            continue
        M = np.array([[vals(syp.diff(f, xi, a, eta, b) if a + b else f, (x, y)) / L ** (a + b) for x, y, a, b in funs] for f in fs])
        ctx.check(np.allclose(np.sort(M, axis=1)[:, :-1], 0, atol=1e-12) and np.allclose(M.max(axis=1), 1, atol=1e-12) and sorted(np.argmax(M, axis=1)) == list(range(len(fs))),
                  'basis', lambda: '%s is not a nodal basis: functions x functionals\n%s' % (name, M))
        p = 1 if name[0] == 'L' else 3
        for i, j in it.product(range(p + 1), range(p + 1 if two else 1)):
            g = xi ** i * eta ** j
            w = [vals(syp.diff(g, xi, a, eta, b) if a + b else g, (x, y)) / L ** (a + b) for x, y, a, b in funs]
            s = sum(w[int(np.argmax(M[k]))] * fs[k] for k in range(len(fs))) - g
            for q in it.product((-0.8, 0.1, 0.37, 0.9), (-0.6, 0.2, 0.73)):
                ctx.op()
                ctx.close(vals(s, q), 0.0, 'reproduction', lambda: '%s does not reproduce xi^%d eta^%d at %r' % (name, i, j, q), abs_=1e-11)
            ctx.state(name, L, i, j)
        for k, f in enumerate(funs):
            ctx.state(name, L, f)
        ctx.outcome(name, L)
    ctx.trace()


def helpers(c, ctx):
    import sympy as syp
    if c[1] == 'op':
        from hyperstatic.core.fe_model.meta.operator import L2, L3, operator_dot
        x, y, z = syp.symbols('x y z')
        mono = [(i, j, k) for i in range(4) for j in range(4) for k in range(4) if i + j + k <= 4]
        d = lambda m, q: (m[q] * x ** (m[0] - (q == 0)) * y ** (m[1] - (q == 1)) * z ** (m[2] - (q == 2))) if m[q] else syp.Integer(0)
        P = {x: 1.3, y: -0.7, z: 2.1}
        ev = lambda M: np.array([[float(syp.sympify(v).subs(P)) for v in r] for r in M.tolist()])
        f = lambda m: x ** m[0] * y ** m[1] * z ** m[2]
        for a in mono:
            b, e = mono[(mono.index(a) * 7 + 3) % len(mono)], mono[(mono.index(a) * 5 + 11) % len(mono)]
            u = syp.Matrix([[f(a), 2 * f(e)], [f(b), 0], [f(e), f(a)]])
            cols = [((1, a), (1, b), (1, e)), ((2, e), (0, a), (1, a))]
            w3 = syp.zeros(6, 2)
            w2 = syp.zeros(3, 2)
            for q, col in enumerate(cols):
                D = lambda i, k: col[i][0] * d(col[i][1], k)
                w3[:, q] = syp.Matrix([D(0, 0), D(1, 1), D(2, 2), D(0, 1) + D(1, 0), D(2, 1) + D(1, 2), D(2, 0) + D(0, 2)])
                w2[:, q] = syp.Matrix([D(0, 0), D(1, 1), D(0, 1) + D(1, 0)])
            ctx.op(3)
            ctx.close(ev(operator_dot(L3, u)), ev(w3), 'strain-3d', lambda: 'strains of the displacements %s' % u, rel=1e-12)
            ctx.close(ev(operator_dot(L2(x, y), u[:2, :])), ev(w2), 'strain-2d', lambda: 'plane strains of the displacements %s' % u, rel=1e-12)
            A = np.array([[2, 0, -1.5], [0, 1, 3]])
            ctx.close(ev(operator_dot(A, u)), ev(syp.Matrix(A) * u), 'numbers', lambda: 'numbers times %s' % u, rel=1e-12)
            ctx.state(c, a)
            ctx.outcome(c, a)
    elif c[1] == 'jac':
        from hyperstatic.core.fe_model.meta.jacobi import J2D
        from hyperstatic.core.fe_model.meta.interpolate import Lagrange
        xi, eta = syp.symbols('xi eta')
        N = [(1 + a * xi) * (1 + b * eta) / 4 for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
        for s, X in QUADS.items():
            for n, (fs, perm) in enumerate(((N, [0, 1, 2, 3]), (Lagrange.N2D(), None))):
                if perm is None:    # by the corners the functions belong to
                    at = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
                    perm = [max(range(4), key=lambda k: float(f.subs({xi: at[k][0], eta: at[k][1]}))) for f in fs]
                J = J2D(fs, np.array([X[k] for k in perm], float))
                for g in it.product(GRID, repeat=2):
                    ctx.op()
                    got = np.array([[float(J[i, j].subs({xi: g[0], eta: g[1]})) for j in range(2)] for i in range(2)])
                    Xa, sx, sy = np.array(X, float), np.array([-1, 1, 1, -1]), np.array([-1, -1, 1, 1])
                    want = np.array([sx * (1 + sy * g[1]) / 4, sy * (1 + sx * g[0]) / 4]) @ Xa
                    ctx.close(got, want, 'jacobian', lambda: 'Jacobian of %s at %r' % (s, g), rel=1e-9)
                    ctx.state(c, s, n, g)
            ctx.outcome(c, s)
    else:
        m = importlib.import_module(META + 'isotropy')
        names = ['exx', 'eyy', 'ezz', 'gxy', 'gyz', 'gzx']
        if not all(hasattr(m, k) for k in names + ['sig', 'E', 'nu']):
            ctx.count('law_absent_skipped')
            return
        f = syp.lambdify([m.E, m.nu] + [getattr(m, k) for k in names], m.sig.tolist(), 'numpy')
        for (E, nu), e in it.product(((1.0, 0.0), (2.1e11, 0.3), (5.0, -0.4), (3e4, 0.49)), it.product((-1.0, 0.0, 2.0), repeat=6)):
            ctx.op()
            lam, G = E * nu / (1 + nu) / (1 - 2 * nu), E / 2 / (1 + nu)
            t = np.array([[e[0], e[3] / 2, e[5] / 2], [e[3] / 2, e[1], e[4] / 2], [e[5] / 2, e[4] / 2, e[2]]])
            ctx.close(np.array(f(E, nu, *e), float), lam * np.trace(t) * np.eye(3) + 2 * G * t, 'law', lambda: 'stresses of %r, %r' % ((E, nu), e), rel=1e-11, scale=max(E, abs(lam)))
            ctx.state(c, E, e)
        ctx.outcome(c)
    ctx.trace()
