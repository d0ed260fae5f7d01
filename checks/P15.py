"""Coordinate frames: every construction and every history of reorientations gives the right-handed orthonormal frame it should."""
import itertools as it
import math
import numpy as np
import real

ID = 'P15'
LEVEL = 'model_checking'
RULE = """(A) Every frame built from three points of a lattice (origin x first-axis point x plane point, including collinear
ones) and every frame built from a lattice normal and guide; (B) every history up to depth 3 (4 in the thorough tier) of
reorientations - about global axes, own axes and arbitrary (non-unit) vectors by a set of angles, three-point
reorientation (valid and collinear), moving the origin, aligning - from three initial frames, on frames and on nodes'
frames, compared step by step with a reference built from Rodrigues' formula: exact orientation, orthonormality, right
hand, origin and name. A state is one (orientation, origin)."""
ASSUMPTIONS = ['angles from {0, 90, -30, 360} degrees and {1, 3.7, -4} rad; lattice coordinates in {-2..2} plus scaled and far-off origins']
CHUNK = 64


def rod(axis, t):
    k = np.asarray(axis, float)
    k = k / np.linalg.norm(k)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * K @ K


def three(o, a, b):
    o, a, b = (np.asarray(v, float) for v in (o, a, b))
    u, v = a - o, b - o
    x = u / np.linalg.norm(u)
    y = v - x * np.dot(x, v)
    y = y / np.linalg.norm(y)
    return np.array([x, y, np.cross(x, y)])


ANG = [math.pi / 2, -math.pi / 6, 1.0, 0.0, 2 * math.pi, 3.7, -4.0]
OPS = [(k, t) for k in ('ex', 'ey', 'ez', 'x', 'y', 'z') for t in ANG[:3]] + [('ex', 0.0), ('z', 2 * math.pi)] + [(k, 3.7) for k in ('ex', 'ey', 'ez', 'x', 'y', 'z')]
OPS += [('vec', (1, 1, 1), 1.0), ('vec', (0, 0, -5), math.pi / 3), ('vec', (-2, 0.5, 3), -2.0), ('vec', (1, -1, 0), 4.5)]
OPS += [('3', (1, 2, 3), (2, 2, 4), (0, 5, 3)), ('3', (0, 0, 0), (0, 0, 2), (1, 0, 0)), ('3', (0, 0, 0), (1, 2, 3), (2, 4, 6)), ('3', (1, 1, 1), (2, 1, 3), (0, 1, -1)),
        ('3', (1, 0, 2), (1, 0, 2), (0, 1, 2)), ('o', (4, -5, 6)), ('align',)]
INIT = [((0, 0, 0), (1, 0, 0), (0, 1, 0)), ((1, 2, 3), (2, 4, 5), (0, 2, 7)), ((-1e3, 0, 1), (-1e3, 0, 0), (-1e3, 3, 1))]
NODEOPS = [(k, t) for k in '123' for t in ANG] + [('init',)]


def cases(tier):
    pts = [list(p) for p in it.product((-1, 0, 2), repeat=3)]
    for o in pts[::3] + [[0, 0, 0], [1e4, -1e4, 3.5]]:
        yield ['pts', o]
    yield ['normal']
    n = 3 if tier == 'quick' else 4
    for i in range(len(INIT)):
        for h in it.product(range(len(OPS)), repeat=n - 1):
            yield ['hist', i, list(h)]
    for h in it.product(range(len(NODEOPS)), repeat=3):
        if tier != 'quick' or len(set(h)) > 1:
            yield ['node', list(h)]


def good(ctx, cs, T, O, name, what):
    M = np.asarray(cs.transform_matrix, float)
    ok = ctx.close(M, T, 'axes', lambda: '%s: axes' % what(), rel=0, abs_=1e-9)
    ok &= ctx.check(np.allclose(M @ M.T, np.eye(3), atol=1e-12) and abs(np.linalg.det(M) - 1) < 1e-12, 'orthonormal', lambda: '%s: axes are not orthonormal and right-handed: %r' % (what(), M))
    ok &= ctx.close(np.array([cs.x, cs.y, cs.z], float), M, 'xyz', lambda: '%s: x, y, z properties' % what(), rel=0, abs_=1e-15)
    ok &= ctx.close(cs.origin, O, 'origin', lambda: '%s: origin' % what(), rel=0, abs_=1e-12)
    ok &= ctx.check(cs.name == name, 'name', lambda: '%s: name %r' % (what(), cs.name))
    return ok


def apply(cs, T, O, o):
    """applies o to the real frame; returns the reference (T, O, raised expected, raised)"""
    k = o[0]
    raised = False
    exp = False
    try:
        if k in ('ex', 'ey', 'ez'):
            getattr(cs, 'rotate_about_external_' + k[1])(o[1])
            R = rod(np.eye(3)['xyz'.index(k[1])], o[1])
            T = T @ R.T
        elif k in 'xyz':
            getattr(cs, 'rotate_about_' + k)(o[1])
            T = T @ rod(T['xyz'.index(k)], o[1]).T
        elif k == 'vec':
            cs.rotate_about_vec(*o[1], o[2])
            T = T @ rod(o[1], o[2]).T
        elif k == '3':
            exp = np.linalg.norm(np.cross(np.subtract(o[2], o[1]), np.subtract(o[3], o[1]))) < 1e-12
            if not exp:
                T, O = three(*o[1:]), np.array(o[1], float)
            cs.set_by_3pts(*o[1:])
        elif k == 'o':
            O = np.array(o[1], float)
            cs.origin = o[1]
        else:
            T = np.eye(3)
            cs.align_with_global()
    except Exception:
        raised = True
        if not exp:
            raise
    return T, O, exp, raised


def run(c, ctx):
    from hyperstatic.common.csys import Cartesian
    if c[0] == 'pts':
        o = c[1]
        for da in it.product((-2, 0, 1), repeat=3):
            for db in it.product((-1, 0, 3), repeat=3):
                a, b = np.add(o, da), np.add(o, db)
                ctx.op()
                bad = not np.any(np.cross(da, db))
                cs = Cartesian((7., 8., 9.), (8., 8., 9.), (7., 8., 5.), 's')
                T0 = three((7., 8., 9.), (8., 8., 9.), (7., 8., 5.))
                try:
                    cs.set_by_3pts(tuple(o), tuple(a), tuple(b))
                    ok = True
                except Exception:
                    ok = False
                if ctx.check(ok != bad, 'set-3pts', lambda: 'setting by %s points %r %r %r %s' % ('collinear' if bad else 'proper', o, a, b, 'accepted' if ok else 'refused')):
                    good(ctx, cs, T0 if bad else three(o, a, b), (7., 8., 9.) if bad else o, 's', lambda: 'set by three points %r %r %r' % (o, a, b))
                try:
                    cs = Cartesian(tuple(o), tuple(a), tuple(b), 'n')
                except Exception:
                    ctx.check(bad, 'refused', lambda: 'three points %r %r %r refused' % (o, a, b))
                    continue
                if bad:
                    ctx.check(False, 'collinear', 'collinear points %r %r %r accepted' % (o, a, b))
                    continue
                good(ctx, cs, three(o, a, b), o, 'n', lambda: 'three points %r %r %r' % (o, a, b))
                ctx.state(o, da, db)
        ctx.outcome(c)
        ctx.trace()
        return
    if c[0] == 'normal':
        vs = [v for v in it.product((-1, 0, 2), repeat=3) if any(v)] + [(1e-3, 0, 1), (5, 5, 0.01), (0, 0, 1e-3)]
        for n in vs:
            for g in [None, (0, 1, 0), (1, 0, 0), (1, 1, 1), (0, 0, -3)]:
                gv = (0, 0, 1) if g is None else g
                ctx.op()
                par = np.linalg.norm(np.cross(n, gv)) < 1e-9
                try:
                    cs = Cartesian.create_by_normal((1., 2., 3.), n, name='q') if g is None else Cartesian.create_by_normal((1., 2., 3.), n, guide=g, name='q')
                except Exception:
                    ctx.check(par, 'refused-normal', lambda: 'normal %r guide %r refused' % (n, g))
                    continue
                if not ctx.check(not par, 'parallel', lambda: 'normal %r parallel to guide %r accepted' % (n, g)):
                    continue
                z = np.array(n, float) / np.linalg.norm(n)
                x = np.cross(gv, z)
                x /= np.linalg.norm(x)
                good(ctx, cs, np.array([x, np.cross(z, x), z]), [1, 2, 3], 'q', lambda: 'normal %r guide %r' % (n, g))
                ctx.state('normal', n, g)
        u = {Cartesian((0, 0, 0), (1, 0, 0), (0, 1, 0)).name for _ in range(20)}
        ctx.check(len(u) == 20, 'unique-name', 'frames without a name do not get distinct names')
        ctx.outcome(c)
        ctx.trace()
        return
    if c[0] == 'node':
        from hyperstatic.core.fe_model.node import Node
        nd = Node('n', 1.0, 2.0, 3.0)
        T = np.eye(3)
        for k, i in enumerate(c[1]):
            o = NODEOPS[i]
            ctx.op()
            if o[0] == 'init':
                nd.initialize_csys()
                T = np.eye(3)
            else:
                {'1': nd.rotate_about_1axis, '2': nd.rotate_about_2axis, '3': nd.rotate_about_3axis}[o[0]](o[1])
                T = T @ rod(T['123'.index(o[0])], o[1]).T
            Z = np.zeros((3, 3))
            ctx.close(nd.transform_matrix, np.block([[T, Z], [Z, T]]), 'node', lambda: 'node frame after %r' % [NODEOPS[j] for j in c[1][:k + 1]], rel=0, abs_=1e-9)
            ctx.check(tuple(map(float, nd.loc)) == (1.0, 2.0, 3.0) and (nd.x, nd.y, nd.z) == (1.0, 2.0, 3.0), 'node-loc', 'turning a node moved it')
            ctx.state('node', np.round(T, 9).tolist())
        ctx.outcome(np.round(T, 6).tolist())
        ctx.trace()
        return
    # one prefix, all last operations
    for last in range(len(OPS)):
        init = INIT[c[1]]
        cs = Cartesian(*init, 'h')
        T, O = three(*init), np.array(init[0], float)
        h = c[2] + [last]
        for k, i in enumerate(h):
            ctx.op()
            T, O, exp, raised = apply(cs, T, O, OPS[i])
            ctx.check(exp == raised, 'collinear-set', lambda: 'collinear points accepted in %r' % ([OPS[j] for j in h],))
        if not good(ctx, cs, T, O, 'h', lambda: 'after %r from %r' % ([OPS[j] for j in h], init)):
            return
        ctx.trace()
        ctx.state(np.round(T, 9).tolist(), O.tolist())
        ctx.outcome(np.round(T, 6).tolist(), O.tolist())
