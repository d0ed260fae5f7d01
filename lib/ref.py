"""Independent reference mechanics (numpy only, nothing imported from /repo).

Frames: member stiffness from the flexibility of a cantilever (not from the
closed-form stiffness entries the implementation uses), consistent loads by
numerical quadrature of the Hermite functions, releases by eliminating the
released end displacements through a pseudo-inverse (all at once).
"""
import numpy as np

GX, GW = np.polynomial.legendre.leggauss(12)
GX = (GX + 1) / 2
GW = GW / 2


def axes(p, q):
    """Local axes (rows): 1 along the member, 2 in the plane of 1 and global Z
    (global X for vertical members), 3 = 1 x 2."""
    p = np.asarray(p, float)
    q = np.asarray(q, float)
    d = q - p
    x = d / np.linalg.norm(d)
    g = np.array([0., 0., 1.])
    if max(abs(d[0]), abs(d[1])) < 1e-9:
        g = np.array([1., 0., 0.])
    z = np.cross(x, g)
    z /= np.linalg.norm(z)
    y = np.cross(z, x)
    return np.array([x, y, z])


def T12(p, q, rot=0.0):
    t = np.zeros((12, 12))
    a = axes(p, q)
    if rot:     # turned about its own axis 1, right-handed
        c, s = np.cos(rot), np.sin(rot)
        a = np.array([[1, 0, 0], [0, c, s], [0, -s, c]]) @ a
    for i in range(4):
        t[3 * i:3 * i + 3, 3 * i:3 * i + 3] = a
    return t


def flexibility(E, G, A, I2, I3, J, l):
    """Tip displacement of a cantilever (fixed at start) per unit tip force."""
    F = np.zeros((6, 6))
    F[0, 0] = l / (E * A)
    F[3, 3] = l / (G * J)
    # bending in the 1-2 plane: moment about 3, rotation +dv/dx
    F[1, 1] = l ** 3 / (3 * E * I3)
    F[1, 5] = F[5, 1] = l ** 2 / (2 * E * I3)
    F[5, 5] = l / (E * I3)
    # bending in the 1-3 plane: rotation about 2 is -dw/dx
    F[2, 2] = l ** 3 / (3 * E * I2)
    F[2, 4] = F[4, 2] = -l ** 2 / (2 * E * I2)
    F[4, 4] = l / (E * I2)
    return F


def stiffness(E, G, A, I2, I3, J, l):
    kjj = np.linalg.inv(flexibility(E, G, A, I2, I3, J, l))
    # equilibrium: start forces balance tip forces
    H = np.zeros((6, 6))
    H[:3, :3] = -np.eye(3)
    H[3:, 3:] = -np.eye(3)
    H[4, 2] = l       # moment about 2 of a tip force along 3: r x F = (l,0,0)x(0,0,f) = (0,-l f,0) -> start +l f
    H[5, 1] = -l
    K = np.zeros((12, 12))
    K[6:, 6:] = kjj
    K[:6, 6:] = H @ kjj
    K[6:, :6] = K[:6, 6:].T
    K[:6, :6] = H @ kjj @ H.T
    return K


def shape(xi, l):
    """4 generalised displacements (u1,u2,u3,theta1) and slopes from the 12 end displacements."""
    N = np.zeros((6, 12))
    a, b = 1 - xi, xi
    h = [1 - 3 * xi ** 2 + 2 * xi ** 3, l * (xi - 2 * xi ** 2 + xi ** 3), 3 * xi ** 2 - 2 * xi ** 3, l * (xi ** 3 - xi ** 2)]
    g = [(-6 * xi + 6 * xi ** 2) / l, 1 - 4 * xi + 3 * xi ** 2, (6 * xi - 6 * xi ** 2) / l, 3 * xi ** 2 - 2 * xi]
    N[0, 0], N[0, 6] = a, b
    N[3, 3], N[3, 9] = a, b
    N[1, 1], N[1, 5], N[1, 7], N[1, 11] = h
    N[2, 2], N[2, 4], N[2, 8], N[2, 10] = h[0], -h[1], h[2], -h[3]
    # rotation about 2 = -dw/dx, rotation about 3 = dv/dx
    N[4, 2], N[4, 4], N[4, 8], N[4, 10] = -g[0], g[1], -g[2], g[3]
    N[5, 1], N[5, 5], N[5, 7], N[5, 11] = g
    return N


def dist_load(v, l):
    """v=(pi,pj,qi2,qj2,qi3,qj3,ti,tj): linearly varying; equivalent end forces int N^T q dx."""
    r = np.zeros(12)
    for x, w in zip(GX, GW):
        q = np.array([v[0] * (1 - x) + v[1] * x, v[2] * (1 - x) + v[3] * x, v[4] * (1 - x) + v[5] * x, v[6] * (1 - x) + v[7] * x])
        N = shape(x, l)
        r += w * l * (N[:4].T @ q)
    return r


def conc_load(v, l):
    """v=(F1,F2,F3,M1,M2,M3,ratio)."""
    return shape(v[6], l).T @ np.asarray(v[:6], float)


def sym_pinv(A):
    """Pseudo-inverse of a positive semidefinite block with wildly different units on the diagonal."""
    if A.size == 0:
        return A.T.copy()
    s = 1 / np.sqrt(np.maximum(np.diag(A), 1e-300))
    B = A * np.outer(s, s)
    w, V = np.linalg.eigh((B + B.T) / 2)
    wi = np.where(w > 1e-9, 1 / np.where(w > 1e-9, w, 1), 0)
    return (V * wi) @ V.T * np.outer(s, s)


def condense(K, f, rel):
    rel = np.asarray(rel, bool)
    c, r = ~rel, rel
    Kc = np.zeros_like(K)
    fc = np.zeros_like(f)
    P = sym_pinv(K[np.ix_(r, r)])
    Kc[np.ix_(c, c)] = K[np.ix_(c, c)] - K[np.ix_(c, r)] @ P @ K[np.ix_(r, c)]
    fc[c] = f[c] - K[np.ix_(c, r)] @ (P @ f[r])
    # is the load on the released displacements resisted at all?
    resid = f[r] - K[np.ix_(r, r)] @ (P @ f[r])
    supported = bool(np.all(np.abs(resid) <= 1e-9 * (np.max(np.abs(f)) if f.size else 0) + 1e-300))
    return Kc, fc, supported


class Frame:
    """spec: see real.py"""

    def __init__(self, spec):
        self.spec = spec
        self.names = list(spec['nodes'])
        self.ix = {n: i for i, n in enumerate(self.names)}
        self.N = 6 * len(self.names)
        self.members = {}
        for b, m in spec['beams'].items():
            i, j = m['n']
            p, q = np.array(spec['nodes'][i], float), np.array(spec['nodes'][j], float)
            l = float(np.linalg.norm(q - p))
            E, mu, A, I2, I3, J, rho = m['sec']
            K = stiffness(E, E / 2 / (1 + mu), A, I2, I3, J, l)
            rel = np.array(m.get('rel') or [False] * 12, bool)
            dof = list(range(6 * self.ix[i], 6 * self.ix[i] + 6)) + list(range(6 * self.ix[j], 6 * self.ix[j] + 6))
            self.members[b] = dict(l=l, T=T12(p, q, m.get('rot', 0.0)), K=K, rel=rel, dof=dof, rho=rho, A=A)
        self.supported = True
        self.K = np.zeros((self.N, self.N))
        for m in self.members.values():
            Kc, _, _ = condense(m['K'], np.zeros(12), m['rel'])
            m['Kc'] = Kc
            self.K[np.ix_(m['dof'], m['dof'])] += m['T'].T @ Kc @ m['T']

    def fixed(self, case):
        rest = self.spec['cases'][case].get('rest') or {}
        if not rest:
            rest = self.spec.get('rest', {})
        return [6 * self.ix[n] + k for n, v in rest.items() for k in range(6) if v[k]]

    def member_load(self, b, case, scale=None):
        m = self.members[b]
        f = np.zeros(12)
        for p, fac in self.spec['cases'][case]['pats']:
            pat = self.spec['patterns'][p]
            g = np.zeros(12)
            if b in pat.get('dist', {}):
                g += dist_load(pat['dist'][b], m['l'])
            if b in pat.get('conc', {}):
                g += conc_load(pat['conc'][b], m['l'])
            f += fac * g * (scale[p] if scale else 1)
        return f

    def load(self, case, scale=None):
        """(nodal load vector incl. member loads, dict of condensed local member loads)"""
        f = np.zeros(self.N)
        for p, fac in self.spec['cases'][case]['pats']:
            for n, v in self.spec['patterns'][p].get('node', {}).items():
                f[6 * self.ix[n]:6 * self.ix[n] + 6] += fac * np.array(v, float) * (scale[p] if scale else 1)
        loc = {}
        for b, m in self.members.items():
            fm = self.member_load(b, case, scale)
            _, fc, ok = condense(m['K'], fm, m['rel'])
            if not ok:
                self.supported = False
            loc[b] = fc
            f[m['dof']] += m['T'].T @ fc
        return f, loc

    def conditioning(self, case):
        fx = set(self.fixed(case))
        free = [i for i in range(self.N) if i not in fx]
        if not free:
            return 1.0
        A = self.K[np.ix_(free, free)]
        d = np.diag(A)
        if np.any(d <= 0):
            return np.inf
        s = 1 / np.sqrt(d)
        w = np.linalg.eigvalsh(A * np.outer(s, s))
        return np.inf if w[0] <= 0 else w[-1] / w[0]

    def solve(self, case):
        """None if the structure is not (numerically) stable."""
        if not (self.conditioning(case) < 1e6):
            return None
        fx = set(self.fixed(case))
        free = [i for i in range(self.N) if i not in fx]
        f, loc = self.load(case)
        d = np.zeros(self.N)
        if free:
            A = self.K[np.ix_(free, free)]
            s = 1 / np.sqrt(np.diag(A))
            d[free] = s * np.linalg.solve(A * np.outer(s, s), s * f[free])
        ends = {b: m['Kc'] @ (m['T'] @ d[m['dof']]) - loc[b] for b, m in self.members.items()}
        return dict(d=d, f=f, reac=self.K @ d - f, ends=ends, loc=loc,
                    node={n: d[6 * i:6 * i + 6] for n, i in self.ix.items()})
