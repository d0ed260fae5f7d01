"""Shells: element stiffness invariants, exact states, an independent discrete-Kirchhoff oracle, objectivity, assembly."""
import itertools as it
import shutil
import numpy as np
import exts
import gen
import mc
import real
import ref

ID = 'P19'
LEVEL = 'model_checking'
RULE = """(Q) for every planar quadrilateral and (T) triangle of a family of shapes x sizes x orientations in space x every
starting corner and sense of numbering x section types x thicknesses x materials, the stiffness of the shell added to a
model: symmetric, positive, exactly the right motions without stress, exact energy of every constant in-plane strain and
constant curvature (triangle membranes: see known findings), equal to an independent discrete-Kirchhoff (bending) and
bilinear (quadrilateral membrane) element, plate + membrane = shell, proportional to E, t and t^3, and the same element
whatever its orientation, size and numbering; (M) meshes of quadrilaterals, triangles and both under every creation order
of a family: interior residuals of constant states vanish, and static solutions under the boundary forces of a constant
moment or in-plane stress state reproduce it, with reactions in equilibrium; (X) frames and shells mixed, against the sum of
element matrices. The compiled kernels are rebuilt from the C and Cython sources of the code under test. A state is one
shell or one mesh."""
ASSUMPTIONS = ['quadpy (not installed) is replaced by quadrature rules of the same degree: lib/quadpy_stub.py',
               'planar convex shells; the drilling rotation of a quadrilateral is a rotation additional to that of the material',
               'the drilling part of the quadrilateral is judged by its invariants only']
CHUNK = 2


def prepare(tier, root):
    d = exts.build(mc.REPO)
    # the libraries are loaded: their files are not needed any more
    shutil.rmtree(d, ignore_errors=True)
    from hyperstatic.core.fe_model.element.quad import DKGQ     # noqa: F401  (binds the rebuilt kernels before the fork)
    from hyperstatic.core.fe_model.element.tria import DKT      # noqa: F401


QUADS = {'square': [(-1, -1), (1, -1), (1, 1), (-1, 1)], 'rect': [(0, 0), (3, 0), (3, 1), (0, 1)],
         'par': [(0, 0), (3, 0), (4, 2), (1, 2)], 'trap': [(0, 0), (4, 0), (3, 2), (1, 2)],
         'gen': [(0, 0), (4, .5), (3, 2.5), (-.5, 2)], 'kite': [(0, -1), (2, 0), (0, 3), (-2, 0)],
         'dart': [(0, 0), (5, 1), (4.5, 2), (1, 2.2)]}
TRIS = {'right': [(0, 0), (1, 0), (0, 1)], 'equi': [(0, 0), (2, 0), (1, 3 ** .5)], 'gen': [(0, 0), (3, 1), (1, 2)],
        'flat': [(0, 0), (4, 0), (1, .5)], 'obt': [(0, 0), (1, 0), (-1.5, 2)]}


def rot(axis, a):
    k = np.array(axis, float)
    k /= np.linalg.norm(k)
    C = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(a) * C + (1 - np.cos(a)) * C @ C


ORI = {'flat': np.eye(3), 'turned': rot((0, 0, 1), 0.7), 'under': rot((1, 0, 0), np.pi), 'wallx': rot((1, 0, 0), np.pi / 2),
       'wally': rot((0, 1, 0), -np.pi / 2), 'skew': rot((1, 2, -.5), 1.1), 'skew2': rot((-1, .3, .8), 2.6),
       'walldiag': rot((0, 0, 1), 0.6) @ rot((1, 0, 0), np.pi / 2), 'roof': rot((1, 0, 0), 0.4)}
SHIFT = np.array([10., -20., 5.])
MATS = [(100., .3), (2.1e11, .2), (3e4, 0.)]


def cases(tier):
    full = tier != 'quick'
    for kind, tab in (('Q', QUADS), ('T', TRIS)):
        n = 4 if kind == 'Q' else 3
        for s in tab:
            for o in ORI:
                for st in range(n):
                    for rev in (0, 1):
                        if not full and o not in ('flat', 'skew') and (st, rev) not in ((0, 0), (1, 1)):
                            continue
                        yield [kind, s, o, st, rev]
    for mesh in MESHES:
        for o in ('flat', 'wallx', 'skew') if not full else ORI:
            if mesh in ('fan', 'tris') and o not in ('flat', 'turned', 'under', 'wallx'):
                continue        # plates only: their in-plane motions are restrained in global directions
            for order in range(6):
                yield ['M', mesh, o, order]
    for j in range(len(MIXED)):
        for order in range(4 if not full else 8):
            yield ['X', j, order]
    for j in range(4):
        yield ['R', j]


def dense(m):
    return np.asarray(m.todense() if hasattr(m, 'todense') else m, float)


def D(E, mu):
    return E / (1 - mu * mu) * np.array([[1, mu, 0], [mu, 1, 0], [0, 0, (1 - mu) / 2]])


# ---------------------------------------------------------------- independent elements
def n_tri6(a, b):
    c = 1 - a - b
    N = [c * (2 * c - 1), a * (2 * a - 1), b * (2 * b - 1), 4 * a * c, 4 * a * b, 4 * b * c]
    da = [1 - 4 * c, 4 * a - 1, 0, 4 * (c - a), 4 * b, -4 * b]
    db = [1 - 4 * c, 0, 4 * b - 1, -4 * a, 4 * a, 4 * (c - b)]
    return np.array(N), np.array([da, db])


def n_quad8(a, b):
    cx, cy = [-1, 1, 1, -1], [-1, -1, 1, 1]
    d = np.zeros((2, 8))
    for i in range(4):
        x, y = cx[i], cy[i]
        d[0, i] = x * (1 + b * y) * (2 * a * x + b * y) / 4
        d[1, i] = y * (1 + a * x) * (2 * b * y + a * x) / 4
    for i, (x, y) in enumerate([(0, -1), (1, 0), (0, 1), (-1, 0)]):
        if x == 0:
            d[0, 4 + i] = -a * (1 + b * y)
            d[1, 4 + i] = (1 - a * a) * y / 2
        else:
            d[0, 4 + i] = (1 - b * b) * x / 2
            d[1, 4 + i] = -b * (1 + a * x)
    return d


def d_lin(n, a, b):
    if n == 3:
        return np.array([[-1., 1, 0], [-1, 0, 1]])
    cx, cy = np.array([-1, 1, 1, -1]), np.array([-1, -1, 1, 1])
    return np.array([cx * (1 + b * cy) / 4, cy * (1 + a * cx) / 4])


def quad_points():
    import quadpy
    s = quadpy.c2.get_good_scheme(2)
    P = []
    s.integrate(lambda x: (P.append(np.array(x)), np.zeros(x.shape[1]))[1], quadpy.c2.rectangle_points([-1., 1.], [-1., 1.]))
    W = []
    for i in range(P[0].shape[1]):
        W.append(float(s.integrate(lambda x, i=i: np.eye(x.shape[1])[i], quadpy.c2.rectangle_points([-1., 1.], [-1., 1.]))))
    return list(zip(P[0][0], P[0][1], W))


def tri_points():
    g, w = np.polynomial.legendre.leggauss(6)
    g, w = (g + 1) / 2, w / 2
    return [(a, b * (1 - a), wa * wb * (1 - a)) for a, wa in zip(g, w) for b, wb in zip(g, w)]


def plate_oracle(X, E, mu, t):
    """discrete Kirchhoff element; freedoms (w, rx, ry) per corner, rx = dw/dy, ry = -dw/dx"""
    n = len(X)
    # Beta at the 2n nodes (corners, then mid sides) as linear functions of the freedoms
    Bx, By = np.zeros((2 * n, 3 * n)), np.zeros((2 * n, 3 * n))
    for i in range(n):
        Bx[i, 3 * i + 2] = 1
        By[i, 3 * i + 1] = -1
    for e in range(n):
        i, j = e, (e + 1) % n
        s = X[j] - X[i]
        L = np.hypot(*s)
        s = s / L
        nn = np.array([-s[1], s[0]])
        bs = np.zeros(3 * n)
        bs[3 * j] -= 1.5 / L
        bs[3 * i] += 1.5 / L
        bn = np.zeros(3 * n)
        for k in (i, j):
            bs -= (s[0] * Bx[k] + s[1] * By[k]) / 4
            bn += (nn[0] * Bx[k] + nn[1] * By[k]) / 2
        Bx[n + e] = s[0] * bs + nn[0] * bn
        By[n + e] = s[1] * bs + nn[1] * bn
    K = np.zeros((3 * n, 3 * n))
    Db = D(E, mu) * t ** 3 / 12
    for a, b, w in (tri_points() if n == 3 else quad_points()):
        J = d_lin(n, a, b) @ X
        d = np.linalg.solve(J, n_tri6(a, b)[1] if n == 3 else n_quad8(a, b))
        B = np.vstack([d[0] @ Bx, d[1] @ By, d[1] @ Bx + d[0] @ By])
        K += w * abs(np.linalg.det(J)) * B.T @ Db @ B
    return K


def membrane_oracle(X, E, mu, t):
    n = len(X)
    K = np.zeros((2 * n, 2 * n))
    for a, b, w in ([(1 / 3, 1 / 3, .5)] if n == 3 else quad_points()):
        J = d_lin(n, a, b) @ X
        d = np.linalg.solve(J, d_lin(n, a, b))
        B = np.zeros((3, 2 * n))
        B[0, 0::2] = d[0]
        B[1, 1::2] = d[1]
        B[2, 0::2] = d[1]
        B[2, 1::2] = d[0]
        K += w * abs(np.linalg.det(J)) * B.T @ (D(E, mu) * t) @ B
    return K


# ---------------------------------------------------------------- one shell
def shell(pts, E, mu, t, ty, ctx, default=False):
    """stiffness in local and in global axes, local axes (rows), of a shell added to a model"""
    m = real.Model()
    for i, p in enumerate(pts):
        m.add_node('n%d' % i, *[float(x) for x in p])
    m.add_isotropic_material('m', 2.5, E, mu, 1e-5)
    if default:
        m.add_shell_section('s', 'm', t)
    else:
        m.add_shell_section('s', 'm', t, ty)
    m.add_shell('e', 's', *['n%d' % i for i in range(len(pts))])
    ctx.op(len(pts) + 3)
    K, T = dense(m.get_shell_K('e')), dense(m.get_shell_transform_matrix('e'))
    return K, T.T @ K @ T, T[:3, :3]


def lin_space(ctx, K, V, key, what, expect=True):
    """the motions V cause no forces"""
    F = np.abs(K @ V)
    S = np.abs(K) @ np.abs(V)
    return ctx.check(bool(np.all(F <= 1e-9 * (S + np.max(S) * 1e-3))), key, lambda: '%s: forces up to %g of %g' % (what, np.max(F), np.max(S)))


IU, IP = [0, 1, 5], [2, 3, 4]


def dofs(n, which):
    return [6 * i + k for i in range(n) for k in which]


def scaled_eig(K):
    d = np.sqrt(np.maximum(np.diag(K), 0))
    s = np.where(d > 0, 1 / np.where(d > 0, d, 1), 0)
    return np.linalg.eigvalsh((K + K.T) / 2 * np.outer(s, s))


def energies(X, Kl, n, A, Dm, Dp):
    """ratio energy / exact energy for constant strains and curvatures in local coordinates"""
    out = {}
    x, y = X[:, 0], X[:, 1]
    for ep in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 2, 3)):
        u = np.zeros((n, 6))
        u[:, 0] = ep[0] * x + ep[2] / 2 * y
        u[:, 1] = ep[1] * y + ep[2] / 2 * x
        v = u.ravel()
        if Dm is not None:
            out['e', ep] = v @ Kl @ v / (A * np.array(ep) @ Dm @ np.array(ep))
        u = np.zeros((n, 6))
        u[:, 2] = -(ep[0] * x * x + ep[1] * y * y + ep[2] * x * y) / 2
        u[:, 3] = -(ep[1] * y + ep[2] / 2 * x)
        u[:, 4] = ep[0] * x + ep[2] / 2 * y
        v = u.ravel()
        if Dp is not None:
            out['k', ep] = v @ Kl @ v / (A * np.array(ep) @ Dp @ np.array(ep))
    return out


def area(X):
    x, y = X[:, 0], X[:, 1]
    return abs(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y)) / 2


def one(c, ctx):
    kind, s, o, st, rev = c
    base = np.array((QUADS if kind == 'Q' else TRIS)[s], float)
    n = len(base)
    perm = [(st + (-k if rev else k)) % n for k in range(n)]
    R = ORI[o]
    tri = kind == 'T'
    for size in (1., 1e-2, 50.):
        P = np.column_stack([base * size, np.zeros(n)])[perm] @ R.T + SHIFT
        for (E, mu), t in it.product(MATS, (.2, .01)):
            if (size != 1. or ctx.tier == 'quick' and (o not in ('flat', 'skew') or st > 1)) and (E, t) != (MATS[0][0], .2):
                continue
            tag = '%s %s %s from corner %d%s, size %g, E %g, nu %g, t %g' % ('quadrilateral' if kind == 'Q' else 'triangle', s, o, st, ' reversed' if rev else '', size, E, mu, t)
            Ks = {}
            for ty in ('shell', 'membrane', 'plate'):
                Ks[ty] = shell(P, E, mu, t, ty, ctx)
            K, Kg, T = Ks['shell']
            ctx.close(shell(P, E, mu, t, 'shell', ctx, default=True)[0], K, 'default', tag + ': the section type by default is not a shell', rel=1e-12)
            # local axes: in the plane of the shell
            ctx.close(T @ T.T, np.eye(3), 'axes', tag + ': axes not orthonormal', rel=1e-9, scale=1)
            ctx.check(np.linalg.det(T) > 0, 'axes', tag + ': axes not right-handed')
            ctx.check(np.max(np.abs((P - P[0]) @ T[2])) <= 1e-9 * np.max(np.abs(P - P[0])), 'axes', tag + ': the third axis is not the normal')
            X = ((P - P.mean(0)) @ T.T)[:, :2]
            A = area(X)
            # parts
            m, p, du, dp = Ks['membrane'][0], Ks['plate'][0], dofs(n, IU), dofs(n, IP)
            sm, sp = np.max(np.abs(m)), np.max(np.abs(p))
            iu, ip = np.ix_(du, du), np.ix_(dp, dp)
            ctx.close(K[iu], m[iu], 'parts', tag + ': in-plane part of the shell is not the membrane', rel=1e-9)
            ctx.close(K[ip], p[ip], 'parts', tag + ': bending part of the shell is not the plate', rel=1e-9)
            for q, keep, nm in ((m, du, 'membrane'), (p, dp, 'plate'), (K, None, 'shell')):
                z = np.ones((6 * n, 6 * n), bool)
                if keep is None:
                    z[iu] = z[ip] = False
                else:
                    z[np.ix_(keep, keep)] = False
                ctx.check(not np.any(q[z]), 'parts', tag + ': the %s couples in-plane motion and bending' % nm)
            for q, nm in ((K, 'shell'), (m, 'membrane'), (p, 'plate')):
                ctx.close(q, q.T, 'symmetric', tag + ': %s not symmetric' % nm, rel=1e-9)
                w = scaled_eig(q)
                ctx.check(w[0] > -1e-9 * w[-1], 'positive', tag + ': %s has a negative eigenvalue %g' % (nm, w[0]))
            # motions without stress
            x, y = X[:, 0], X[:, 1]
            V = np.zeros((n, 6, 5))
            V[:, 0, 0] = V[:, 1, 1] = V[:, 2, 2] = 1
            V[:, 2, 3], V[:, 3, 3] = y, 1           # w = y: rx = dw/dy
            V[:, 2, 4], V[:, 4, 4] = -x, 1
            lin_space(ctx, K, V.reshape(6 * n, 5), 'rigid', tag + ': a translation or a tilt causes stress')
            W = np.zeros((n, 6, 1))
            W[:, 0, 0], W[:, 1, 0] = -y, x
            W = W.reshape(6 * n, 1)
            if not tri:
                lin_space(ctx, K, W, 'rigid', tag + ': an in-plane rotation causes stress')
            else:
                w = scaled_eig(p[ip])
                k = int(np.sum(np.abs(w) < 1e-9 * w[-1]))
                ctx.check(k == 3, 'modes', tag + ': %d motions without bending instead of 3' % k)
            # constant states
            en = energies(X, K, n, A, None if tri else D(E, mu) * t, D(E, mu) * t ** 3 / 12)
            for k, r in en.items():
                ctx.check(abs(r - 1) < 1e-8, 'constant', lambda: tag + ': energy of a constant %s %r is %.9g times the exact one' % ('strain' if k[0] == 'e' else 'curvature', k[1], r))
            # independent elements
            ctx.close(p[ip], plate_oracle(X, E, mu, t), 'plate', tag + ': bending stiffness', rel=1e-8)
            if not tri:
                uv = np.ix_(dofs(n, [0, 1]), dofs(n, [0, 1]))
                ctx.close(m[uv], membrane_oracle(X, E, mu, t), 'membrane', tag + ': in-plane stiffness', rel=1e-8)
            # the same element in any orientation and numbering (triangle membranes: their local axes matter, see findings)
            B = np.column_stack([base * size, np.zeros(n)])
            Kb = dict((ty, shell(B, E, mu, t, ty, ctx)[1]) for ty in ('shell', 'plate'))
            ty = 'plate' if tri else 'shell'
            big = np.kron(np.eye(2 * n), R)
            Z = np.zeros_like(Kb[ty])
            for a in range(n):
                for b in range(n):
                    Z[6 * a:6 * a + 6, 6 * b:6 * b + 6] = Kb[ty][6 * perm[a]:6 * perm[a] + 6, 6 * perm[b]:6 * perm[b] + 6]
            Z = big @ Z @ big.T
            G = Ks[ty][1]
            if not tri and (st + rev) % 2:      # the drilling part depends on the first corner: see the known findings
                N = np.kron(np.eye(2), T)
                full = np.kron(np.eye(n), N)
                l1, l2 = full @ G @ full.T, full @ Z @ full.T
                if o == 'flat' and not rev and size == 1. and (E, t) == (MATS[0][0], .2):
                    e = np.max(np.abs(l1 - l2)) / np.max(np.abs(l2))
                    ctx.check(e < 1e-8, 'drilling:%s:%d:%.3f' % (s, st, e), tag + ': the drilling stiffness depends on the first corner, by %.3g' % e)
                keep = np.ix_(dofs(n, range(5)), dofs(n, range(5)))
                ctx.close(l1[keep], l2[keep], 'objective', tag + ': the stiffness depends on orientation or numbering', rel=1e-8)
            else:
                ctx.close(G, Z, 'objective', tag + ': the %s stiffness depends on orientation or numbering' % ty, rel=1e-8)
            # proportionality
            k2 = shell(P, 2 * E, mu, t, 'shell', ctx)[0]
            ctx.close(k2, 2 * K, 'E', tag + ': stiffness not proportional to E', rel=1e-9)
            kt = shell(P, E, mu, 2 * t, 'shell', ctx)[0]
            ctx.close(kt[iu], 2 * K[iu], 't', tag + ': membrane stiffness not proportional to t', rel=1e-9)
            ctx.close(kt[ip], 8 * K[ip], 't3', tag + ': bending stiffness not proportional to t^3', rel=1e-9)
            ctx.trace()
            ctx.state(c, size, E, t)
            ctx.outcome([float('%.5g' % v) for v in K[iu].ravel()[:20]])
            # triangle membranes
            if tri:
                lin_space(ctx, m, V.reshape(6 * n, 5)[:, :2], 'rigid', tag + ': a translation causes stress in the membrane')
                if o == 'flat' and (st, rev, size, E, t) == (0, 0, 1., MATS[0][0], .2):
                    en = energies(X, m, n, A, D(E, mu) * t, None)
                    en['rotation', 1] = (W.T @ m @ W).item() / (A * E * t) + 1
                    for k, r in en.items():
                        ctx.check(abs(r - 1) < 1e-8, 'tri-membrane:%s:%s:%s:%.4f' % (s, k[0], k[1], r), lambda: tag + ': membrane energy of %s %r is %.6g times the exact one' % (k[0], k[1], r))


# ---------------------------------------------------------------- meshes
def grid(nx, ny, lx, ly, move=(), tri=None):
    P, el = {}, []
    for j in range(ny + 1):
        for i in range(nx + 1):
            P[j * (nx + 1) + i] = [lx * i / nx, ly * j / ny]
    for k, dx, dy in move:
        P[k] = [P[k][0] + dx, P[k][1] + dy]
    for j in range(ny):
        for i in range(nx):
            a = j * (nx + 1) + i
            q = [a, a + 1, a + nx + 2, a + nx + 1]
            if tri and tri(i, j):
                el += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]] if (i + j) % 2 == 0 else [[q[0], q[1], q[3]], [q[1], q[2], q[3]]]
            else:
                el.append(q)
    return {'P': P, 'el': el}


# MacNeal-Harder patch: an inner quadrilateral and four around it
PATCH = {'P': {0: [0, 0], 1: [2.4, 0], 2: [2.4, 1.2], 3: [0, 1.2], 4: [.4, .2], 5: [1.8, .3], 6: [1.6, .8], 7: [.8, .8]},
         'el': [[0, 1, 5, 4], [1, 2, 6, 5], [6, 2, 3, 7], [0, 4, 7, 3], [4, 5, 6, 7]]}
FAN = {'P': {0: [0, 0], 1: [2, 0], 2: [2.5, 1.5], 3: [1, 2.2], 4: [-.5, 1], 5: [.9, .8]},
       'el': [[0, 1, 5], [1, 2, 5], [2, 3, 5], [3, 4, 5], [4, 0, 5]]}
MESHES = {'one': grid(1, 1, 2., 1., [(3, .3, .2)]), 'strip': grid(3, 1, 3., 1., [(1, .2, 0), (6, -.3, 0)]), 'two': grid(2, 2, 3., 2., [(4, .3, -.2)]), 'patch': PATCH,
          'fan': FAN, 'tris': grid(2, 2, 2., 3., [(4, -.2, .3)], lambda i, j: True), 'mix': grid(3, 2, 3., 2., [(5, .2, .1), (6, -.1, .2)], lambda i, j: i == 1 and j == 0)}
E0, MU0, T0 = 3e4, .3, .1
ORDERS = [(0, 0, 0), (1, 0, 1), (0, 1, 2), (1, 1, 3), (2, 2, 1), (2, 1, 0), (1, 2, 2), (0, 2, 3)]


def order_of(items, how):
    items = list(items)
    if how == 1:
        items.reverse()
    if how == 2:
        items = items[1::2] + items[0::2]
    return items


def corner(e, how):
    """the same shell numbered from another corner or in the other sense"""
    # (every second corner of a quadrilateral: the drilling part depends on the first corner, see the known findings)
    k = how % 3 if len(e) == 3 else (0, 2, 2, 0)[how]
    r = e[k:] + e[:k]
    return r[::-1] if how >= 2 and len(e) == 3 else [r[0], r[3], r[2], r[1]] if how >= 2 else r


def mesh_of(c):
    msh, o, order = MESHES[c[1]], ORI[c[2]], ORDERS[c[3]]
    n = len(msh['P'])
    p2 = np.array([msh['P'][i] for i in range(n)], float)
    p3 = np.column_stack([p2, np.zeros(n)]) @ o.T + SHIFT
    el = [corner(e, (order[2] + i) % 4) for i, e in enumerate(msh['el'])]
    return p2, p3, o, el, order_of(range(n), order[0]), order_of(range(len(el)), order[1])


def types(el, p):
    return 'plate' if len(el) == 3 else 'shell'


def model(p3, el, no, eo):
    m = real.Model()
    for i in no:
        m.add_node('N%d' % i, *[float(x) for x in p3[i]])
    m.add_isotropic_material('m', 1., E0, MU0, 0.)
    m.add_shell_section('shell', 'm', T0, 'shell')
    m.add_shell_section('plate', 'm', T0, 'plate')
    for i in eo:
        m.add_shell('S%d' % i, types(el[i], 0), *['N%d' % k for k in el[i]])
    return m


def states(p2, o):
    """displacement fields (n,6) in global axes of constant strain and constant curvature states, at rest at node 0"""
    n = len(p2)
    x, y = (p2 - p2[0]).T
    for a in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, -.5, 2)):
        u = np.zeros((n, 6))
        u[:, 0], u[:, 1] = a[0] * x + a[2] / 2 * y, a[1] * y + a[2] / 2 * x
        yield 'strain', a, u @ np.kron(np.eye(2), o.T)
        u = np.zeros((n, 6))
        u[:, 2] = -(a[0] * x * x + a[1] * y * y + a[2] * x * y) / 2
        u[:, 3] = -(a[1] * y + a[2] / 2 * x)
        u[:, 4] = a[0] * x + a[2] / 2 * y
        yield 'curvature', a, u @ np.kron(np.eye(2), o.T)


def edges(el):
    """boundary edges: those of one shell only, with the shell"""
    cnt = {}
    for k, e in enumerate(el):
        for i in range(len(e)):
            cnt.setdefault(frozenset((e[i], e[(i + 1) % len(e)])), []).append(k)
    return [(sorted(s), v[0]) for s, v in cnt.items() if len(v) == 1]


def boundary_loads(kind, a, p2, el):
    """local work-equivalent loads of a constant stress state, independent of the elements: linear edges in plane,
    discrete-Kirchhoff edges in bending"""
    f = np.zeros((len(p2), 6))
    Dm = D(E0, MU0) * (T0 if kind == 'strain' else T0 ** 3 / 12)
    s = Dm @ np.array(a)
    S = np.array([[s[0], s[2]], [s[2], s[1]]])
    for (i, j), k in edges(el):
        d = p2[j] - p2[i]
        L = np.hypot(*d)
        nn = np.array([d[1], -d[0]]) / L
        c = np.mean(p2[list(el[k])], axis=0)
        if nn @ (c - p2[i]) > 0:
            nn = -nn
        t = S @ nn
        if kind == 'strain':
            f[i, :2] += t * L / 2
            f[j, :2] += t * L / 2
        else:
            # work of the moment t over the edge: beta quadratic along it (Simpson), beta = (ry, -rx)
            e = d / L
            for q in (i, j):
                # beta_mid,n = mean ; beta_mid,s = -3/(2L)(wj-wi) - (bs_i+bs_j)/4
                bn = (t @ np.array([-e[1], e[0]])) * np.array([-e[1], e[0]]) * (1 + 2) / 6 * L
                bs = (t @ e) * e * (1 - 1) / 6 * L
                g = bn + bs
                f[q, 4] += g[0]
                f[q, 3] -= g[1]
            f[j, 2] -= (t @ e) * 4 / 6 * L * 1.5 / L
            f[i, 2] += (t @ e) * 4 / 6 * L * 1.5 / L
    return f


def meshed(c, ctx):
    p2, p3, o, el, no, eo = mesh_of(c)
    n = len(p2)
    B6 = np.kron(np.eye(2), o)
    m = model(p3, el, no, eo)
    ctx.op(n + len(el) + 4)
    for i in eo:
        ctx.check(tuple(m.get_shell_connection('S%d' % i)) == tuple('N%d' % k for k in el[i]), 'connection', 'shell S%d reports other nodes' % i)
    # the sum of the shells
    K0 = np.zeros((6 * n, 6 * n))
    for i, e in enumerate(el):
        Kg = shell(p3[e], E0, MU0, T0, types(e, 0), ctx)[1]
        ix = np.concatenate([6 * k + np.arange(6) for k in e])
        K0[np.ix_(ix, ix)] += Kg
    K = dense(real.Assembly(m, []).assemble_K())
    ix = np.concatenate([6 * m.get_node_hid('N%d' % i) + np.arange(6) for i in range(n)])
    if not ctx.check(sorted(ix.tolist()) == list(range(6 * n)) and K.shape == (6 * n, 6 * n), 'assembled', 'wrong size of the structure'):
        return
    ctx.close(K[np.ix_(ix, ix)], K0, 'assembled', 'structure stiffness of mesh %r is not the sum of its shells' % (c,), rel=1e-9)
    hasquad = all(any(i in e and len(e) == 4 for e in el) for i in range(n))
    bnd = set(i for s, _ in edges(el) for i in s)
    inner = [i for i in range(n) if i not in bnd]
    # supports
    far = max(range(n), key=lambda i: (np.linalg.norm(p2[i] - p2[0]), i))
    path = ctx.scratch()
    api = real.Api(path)
    st = []
    for i in no:
        st.append(api.add_node('N%d' % i, *[float(x) for x in p3[i]]))
    st.append(api.add_isotropic_material('m', 1., E0, MU0, 0.))
    st.append(api.add_shell_section('shell', 'm', T0))
    st.append(api.add_shell_section('plate', 'm', T0, 'plate'))
    for i in eo:
        e = ['N%d' % k for k in el[i]]
        st.append(api.add_shell('S%d' % i, e[0], e[1], e[2], e[3] if len(e) == 4 else None, types(el[i], 0)))
    st.append(api.set_nodal_restraint('N0', *gen.F6))
    # in-plane motions of plates only: restrained; otherwise one restraint more stops the in-plane rotation
    free = np.ones((n, 6), bool)
    free[0] = False
    if not hasquad:
        axes = [k for k in range(3) if np.max(np.abs(o[k, :2])) > .5]      # global directions in the plane
        nz = [k for k in range(3) if k not in axes]
        for i in range(1, n):
            r = [k in axes for k in range(3)] + [k in nz for k in range(3)]
            st.append(api.set_nodal_restraint('N%d' % i, *r))
            free[i] = ~np.array(r)
        g = None
    else:
        tang = np.cross(o[:, 2], p3[far] - p3[0])
        g = int(np.argmax(np.abs(tang)))
        r = [k == g for k in range(6)]
        st.append(api.set_nodal_restraint('N%d' % far, *r))
        free[far, g] = False
    todo = []
    for kind, a, u in states(p2, o):
        f = (K0 @ u.ravel()).reshape(n, 6)
        floc = f @ B6
        big = np.max(np.abs(K0)) * np.max(np.abs(u))
        if kind == 'strain' and not all(len(e) == 4 for e in el):
            continue
        for i in inner:
            ctx.check(np.max(np.abs(floc[i, :5])) <= 1e-9 * big, 'patch-residual', lambda: 'mesh %r: a constant %s %r leaves a force at inner node %d: %r' % (c, kind, a, i, floc[i]))
        want = boundary_loads(kind, a, p2, el)
        q = [0, 1] if kind == 'strain' else [2, 3, 4]
        ctx.close(floc[:, q], want[:, q], 'patch-loads', lambda: 'mesh %r: nodal forces of a constant %s %r' % (c, kind, a), rel=1e-8, scale=max(np.max(np.abs(want)), 1e-9 * big))
        if hasquad:
            w = o[:, 2]
            om = -u[far, g] / tang[g]
            u = u.copy()
            u[:, :3] += om * np.cross(w, p3 - p3[0])
        todo.append((kind, a, u, f))
    for j, (kind, a, u, f) in enumerate(todo):
        st.append(api.add_loadpattern('p%d' % j))
        for i in range(n):
            st.append(api.set_nodal_load('p%d' % j, 'N%d' % i, *[float(x) for x in f[i]]))
        st.append(api.add_static_case('c%d' % j))
        st.append(api.add_case_pattern('c%d' % j, 'p%d' % j, 1.0))
    # one point load as well
    last = [i for i in no if i != 0][-1]
    P = np.zeros((n, 6))
    P[last, :] = [1., 2., -3., .4, -.5, .6]
    P[last][~free[last]] = 0
    P[last, ~free[last]] = 0
    st.append(api.add_loadpattern('pp'))
    st.append(api.set_nodal_load('pp', 'N%d' % last, *[float(x) for x in P[last]]))
    st.append(api.add_static_case('cp'))
    st.append(api.add_case_pattern('cp', 'pp', 1.0))
    st.append(api.assemble())
    ctx.op(len(st))
    ctx.check(all(x is not False for x in st), 'status', 'an operation on a valid shell model failed: %r' % (st,))
    for j, (kind, a, u, f) in enumerate(todo + [('load', None, None, P)]):
        cn = 'cp' if u is None else 'c%d' % j
        fr = free.ravel()
        ref_u = np.zeros(6 * n)
        ref_u[fr] = np.linalg.solve(K0[np.ix_(fr, fr)], f.ravel()[fr])
        ctx.check(api.solve_static(cn) is True, 'solve', 'solving mesh %r, %s %r failed' % (c, kind, a))
        ctx.op()
        d = np.array([np.ravel(api.result_get_nodal_displacement('N%d' % i, cn)) for i in range(n)], float)
        r = np.array([np.ravel(api.result_get_nodal_reaction('N%d' % i, cn)) for i in range(n)], float)
        what = lambda: 'mesh %r, %s %r' % (c, kind, a)
        ref_u = ref_u.reshape(n, 6)
        ctx.close(d, ref_u, 'displacement', what, rel=1e-6)
        if u is not None:
            ctx.close(d, u, 'exact-state', lambda: what() + ' is not reproduced', rel=1e-6)
        rr = (K0 @ ref_u.ravel()).reshape(n, 6) - f
        sc = np.max(np.abs(f)) * max(1, np.max(np.ptp(p2, axis=0)))
        ctx.check(np.max(np.abs(r - rr * ~free)) <= 1e-6 * sc, 'reaction', lambda: what() + ': reactions %r instead of %r' % (r, rr * ~free))
        tot = np.zeros(6)
        for i in range(n):
            tot[:3] += f[i, :3] + r[i, :3]
        ctx.check(np.max(np.abs(tot)) <= 1e-6 * sc, 'equilibrium', lambda: what() + ': loads and reactions do not balance: %r' % tot)
        ctx.trace()
        ctx.state(c, kind, a)
        ctx.outcome([float('%.4g' % v) for v in d.ravel()[:40]])


# ---------------------------------------------------------------- frames with shells
def panel_frame(st, roof):
    s = gen.grid(1, 1, st)
    sh = {}
    for k in range(1, st + 1):
        if roof:
            sh['R%d' % k] = ['0-0-%d' % k, '1-0-%d' % k, '1-1-%d' % k, '0-1-%d' % k]
        else:
            sh['W%d' % k] = ['0-0-%d' % (k - 1), '1-0-%d' % (k - 1), '1-0-%d' % k, '0-0-%d' % k]
            sh['V%d' % k] = ['1-1-%d' % k, '1-0-%d' % k, '1-0-%d' % (k - 1), '1-1-%d' % (k - 1)]
    return s, sh


MIXED = [(1, True), (1, False), (2, True), (2, False), (1, 'tri'), (2, 'tri')]


def mixed(c, ctx):
    stf, roof = MIXED[c[1]]
    s, sh = panel_frame(stf, bool(roof))
    ty = 'shell'
    if roof == 'tri':
        sh = {k + x: [v[i] for i in ix] for k, v in sh.items() for x, ix in (('a', (0, 1, 2)), ('b', (2, 3, 0)))}
        ty = 'plate'
    s = gen.full_loads(s)
    sh = {k: corner(v, (c[2] + i) % 4) for i, (k, v) in enumerate(sh.items())}
    if c[2] >= 2:
        sh = dict(reversed(list(sh.items())))
    names = list(s['nodes'])
    path = ctx.scratch()
    api = real.build_api(s, path, ctx, order={'nodes': order_of(names, c[2] % 3)})
    st = [api.add_isotropic_material('sm', 1., E0, MU0, 0.), api.add_shell_section('ss', 'sm', T0, ty)]
    for k, v in sh.items():
        st.append(api.add_shell(k, v[0], v[1], v[2], v[3] if len(v) == 4 else None, 'ss'))
    st.append(api.assemble())
    ctx.check(all(x is not False for x in st), 'status', 'building a frame with shells failed')
    ctx.op(len(st))
    F = ref.Frame(s)
    K = F.K.copy()
    for v in sh.values():
        Kg = shell([s['nodes'][x] for x in v], E0, MU0, T0, ty, ctx)[1]
        ix = np.concatenate([6 * F.ix[x] + np.arange(6) for x in v])
        K[np.ix_(ix, ix)] += Kg
    for cn in s['cases']:
        fix = np.zeros(F.N, bool)
        fix[list(F.fixed(cn))] = True
        f, loc = F.load(cn)
        d = np.zeros(F.N)
        d[~fix] = np.linalg.solve(K[np.ix_(~fix, ~fix)], f[~fix])
        ctx.check(api.solve_static(cn) is True, 'solve', 'solving a frame with shells failed')
        ctx.op()
        g = np.concatenate([np.ravel(api.result_get_nodal_displacement(x, cn)) for x in s['nodes']])
        real.close_disp(ctx, g, d, 'mixed-displacement', lambda: 'frame with shells %r, case %s' % (c, cn))
        rr = K @ d - f
        r = np.concatenate([np.ravel(api.result_get_nodal_reaction(x, cn)) for x in s['nodes']])
        ctx.check(np.max(np.abs(r - rr * fix)) <= 1e-6 * max(np.max(np.abs(f)), np.max(np.abs(rr))), 'mixed-reaction', lambda: 'reactions of frame with shells %r, case %s' % (c, cn))
        for b in s['beams']:
            e = np.ravel(api.result_get_beam_end_force(b, cn))
            q = F.members[b]
            ctx.close(e, q['Kc'] @ (q['T'] @ d[q['dof']]) - loc[b], 'mixed-force', lambda: 'end forces of %s in frame with shells %r, case %s' % (b, c, cn), scale=max(np.max(np.abs(f)), np.max(np.abs(rr))))
        ctx.trace()
        ctx.state(c, cn)
    ctx.outcome(c)


def redefined(c, ctx):
    """defining a shell again replaces it; shells over the same nodes add up"""
    pts = [[0., 0, 0], [2, 0, 0], [2, 1.5, 0], [0, 1.5, 0], [3.5, .2, 0], [3.5, 1.2, 0]]
    m = real.Model()
    for i, p in enumerate(pts):
        m.add_node('N%d' % i, *p)
    m.add_isotropic_material('m', 1., E0, MU0, 0.)
    m.add_shell_section('a', 'm', T0)
    m.add_shell_section('b', 'm', 2 * T0, 'plate')
    defs = {'q': (['N0', 'N1', 'N2', 'N3'], 'a'), 'r': (['N1', 'N4', 'N5', 'N2'], 'b'), 't': (['N3', 'N0', 'N2'], 'b'), 's': (['N0', 'N1', 'N2', 'N3'], 'b')}
    Ks = {}
    for k, (nn, sec) in defs.items():
        Ks[k] = shell([pts[int(x[1])] for x in nn], E0, MU0, T0 if sec == 'a' else 2 * T0, 'shell' if sec == 'a' else 'plate', ctx)[1]
    for h in it.product(it.product('XY', defs), repeat=2 + (ctx.tier != 'quick')):
        if h[0][1] != list(defs)[c[1]]:
            continue
        m = real.Model()
        for i, p in enumerate(pts):
            m.add_node('N%d' % i, *p)
        m.add_isotropic_material('m', 1., E0, MU0, 0.)
        m.add_shell_section('a', 'm', T0)
        m.add_shell_section('b', 'm', 2 * T0, 'plate')
        cur = {}
        for name, k in h:
            m.add_shell(name, defs[k][1], *defs[k][0])
            cur[name] = k
            ctx.op()
        K0 = np.zeros((36, 36))
        for name, k in cur.items():
            ix = np.concatenate([6 * int(x[1]) + np.arange(6) for x in defs[k][0]])
            K0[np.ix_(ix, ix)] += Ks[k]
        ctx.check(sorted(m.get_shell_names()) == sorted(cur), 'names', 'shell names after %r' % (h,))
        for name, k in cur.items():
            ctx.check(tuple(m.get_shell_connection(name)) == tuple(defs[k][0]), 'connection', 'nodes of shell %s after %r' % (name, h))
            ctx.close(m.get_shell_location(name), [pts[int(x[1])] for x in defs[k][0]], 'location', 'location of shell %s after %r' % (name, h))
        K = dense(real.Assembly(m, []).assemble_K())
        ix = np.concatenate([6 * m.get_node_hid('N%d' % i) + np.arange(6) for i in range(6)])
        ctx.close(K[np.ix_(ix, ix)], K0, 'redefined', 'structure after defining shells %r' % (h,), rel=1e-9)
        ctx.trace()
        ctx.state(c, sorted(cur.items()))
    ctx.outcome(c)


def run(c, ctx):
    {'Q': one, 'T': one, 'M': meshed, 'X': mixed, 'R': redefined}[c[0]](c, ctx)
