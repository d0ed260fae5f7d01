"""Stand-in for the (unavailable, proprietary) third-party package `quadpy`.

Only the surface hyperstatic uses: fixed-order quadrature on the reference
triangle (t2) and quadrilateral (c2).  The rules are exact for far higher
polynomial degrees than the integrands need, and follow quadpy's calling
convention: f gets points of shape (2, npts), returns (..., npts), and the
result is area * sum(w*f).
"""
import sys
import types
import numpy as np


class _T2:
    def __init__(self, n):
        x, w = np.polynomial.legendre.leggauss(n)
        x = (x + 1) / 2
        w = w / 2
        pts, ws = [], []
        for a, wa in zip(x, w):
            for b, wb in zip(x, w):      # Duffy map of the unit square
                pts.append((a, b * (1 - a)))
                ws.append(2 * wa * wb * (1 - a))   # weights sum to 1
        self.p, self.w = np.array(pts).T, np.array(ws)

    def integrate(self, f, tri):
        t = np.array(tri, dtype=float)
        P = (np.outer(t[0], 1 - self.p[0] - self.p[1]) + np.outer(t[1], self.p[0])
             + np.outer(t[2], self.p[1]))
        e1, e2 = t[1] - t[0], t[2] - t[0]
        area = abs(e1[0] * e2[1] - e1[1] * e2[0]) / 2
        return area * np.dot(np.asarray(f(P)), self.w)


class _C2:
    # quadpy's "good" degree<=3 rule on the square: Albrecht-Collatz, 4 points
    # on the axes at sqrt(2/3) (confirmed against the repository's own expected
    # values in tests/test_core/test_elm_quad/test_DKGQ.py).
    def __init__(self):
        r = np.sqrt(2.0 / 3.0)
        self.p = np.array([(r, 0.0), (-r, 0.0), (0.0, r), (0.0, -r)]).T
        self.w = np.ones(4)

    def integrate(self, f, quad):
        q = np.array(quad, dtype=float)   # quad[i][j] = corner (xi_i, eta_j)
        a, b = self.p
        sh = [(1 - a) * (1 - b) / 4, (1 + a) * (1 - b) / 4, (1 - a) * (1 + b) / 4, (1 + a) * (1 + b) / 4]
        cs = [q[0][0], q[1][0], q[0][1], q[1][1]]
        P = sum(np.outer(c, s) for c, s in zip(cs, sh))
        ux = (q[1][0] - q[0][0]) / 2
        uy = (q[0][1] - q[0][0]) / 2
        det = abs(ux[0] * uy[1] - ux[1] * uy[0])
        return det * np.dot(np.asarray(f(P)), self.w)


def _rectangle_points(xs, ys):
    return np.array([[[x, y] for y in ys] for x in xs])


def install():
    if 'quadpy' in sys.modules:
        return
    q = types.ModuleType('quadpy')
    q.__doc__ = 'quadpy stand-in (verification harness)'
    q.t2 = types.SimpleNamespace(get_good_scheme=lambda d: _T2(4))
    q.c2 = types.SimpleNamespace(get_good_scheme=lambda d: _C2(),
                                 rectangle_points=_rectangle_points)
    sys.modules['quadpy'] = q
