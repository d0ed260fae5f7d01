"""Moving, turning or re-scaling a whole model moves, turns or re-scales its response, nothing else."""
import copy
import itertools as it
import math
import numpy as np
import gen
import real

ID = 'P05'
LEVEL = 'model_checking'
RULE = """Each of several base frames is solved as given and under every rigid motion of a finite set (24 axis rotations of
the cube and skew rotations; rotations about the vertical; translations) and every change of units of a 2-D lattice
(length x force factors); displacements and reactions must map exactly, local end forces and deformations must not
change. A state is one (frame, transformation); non-trivial = distinct transformed displacement vector."""
ASSUMPTIONS = ['for rotations off the vertical the sections are equal about both axes and only axial, torsional and nodal loads act, because the documented local axes depend on the global Z direction',
               'relation between results of the code itself; agreement to 1e-6']
CHUNK = 1
FAR = [[4096.0, 0, 0], [0, -4096.0, 0], [250.0, 250.0, 0], [4096.0, -4096.0, 8192.0], [0, 0, 8192.0]]
GEO = ['L', 'Y', 'loop', 'vert', 'near']


def rots24():
    out = []
    for p in it.permutations(range(3)):
        for s in it.product((1, -1), repeat=3):
            M = np.zeros((3, 3))
            for i in range(3):
                M[i, p[i]] = s[i]
            if np.linalg.det(M) > 0:
                out.append(M)
    return out


def rotv(ax, th):
    ax = np.array(ax, float) / np.linalg.norm(ax)
    K = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]])
    return np.eye(3) + math.sin(th) * K + (1 - math.cos(th)) * K @ K


def base(geo, sym):
    pts = dict(gen.P4)
    if geo == 'L':
        es = [(0, 1), (2, 1)]
        pts = {k: pts[k] for k in 'ABC'}
        rest = {'A': gen.F6, 'C': gen.PIN}
    elif geo == 'Y':
        es = [(0, 3), (3, 1), (2, 3)]
        rest = {'A': gen.F6, 'B': gen.PIN}
    elif geo == 'loop':
        es = [(0, 1), (1, 2), (2, 3), (0, 3), (0, 2)]
        rest = {'A': gen.PIN, 'B': gen.PIN, 'C': gen.PIN}
    else:
        pts = {'A': [0, 0, 0], 'B': [0, 0, 2.5], 'C': [3, 0, 2.5], 'D': [3, 0, 0]}
        if geo == 'near':       # almost vertical members
            pts['B'], pts['D'] = [4e-3, 3e-3, 2.5], [3.0 + 2e-4, -1e-4, 0]
        es = [(0, 1), (1, 2), (3, 2)]
        rest = {'A': gen.F6, 'D': gen.F6}
    s = gen.graph_frame(es, pts, 0b0110, rest, secs=[gen.SYM] if sym else gen.SECS)
    nodes, beams = list(s['nodes']), list(s['beams'])
    s['patterns']['P'] = {'node': {n: gen.FULL_NODE[i:] + gen.FULL_NODE[:i] for i, n in enumerate(nodes)}, 'dist': {}, 'conc': {}}
    for i, b in enumerate(beams):
        D, C = list(gen.FULL_DIST), list(gen.FULL_CONC)
        if sym:
            D[2:6] = [0.0] * 4
            C[1:3] = [0.0] * 2
            C[4:6] = [0.0] * 2
        s['patterns']['P']['dist'][b] = [x * (1 + 0.1 * i) for x in D]
        if i != 1:
            s['patterns']['P']['conc'][b] = C[:6] + [0.2 + 0.15 * i]
    s['cases']['c'] = {'pats': [['P', 1.0]]}
    return s


def cases(tier):
    for geo in GEO:
        for k in range(24):
            yield ['rot24', geo, k]
        for k in range(12 if tier == 'quick' else 60):
            yield ['skew', geo, k]
        if geo != 'vert':
            for k in range(24 if tier == 'quick' else 144):
                yield ['aboutZ', geo, k]
        T = (0, 1.0, -3.3, 250.0) if tier == 'quick' else (0, 1.0, -3.3, 250.0, -1e4, 1e-4)
        for t in it.product(T if geo != 'near' else T[:3], repeat=3):
            yield ['shift', geo, list(t)]
        for t in FAR:
            yield ['shift', geo, t]
        for a in (1e-3, 0.1, 0.3048, 1.0, 39.37, 1e3):
            for b in (1e-12, 1e-7, 1e-3, 1.0, 4.448, 1e6, 1e12):
                yield ['units', geo, a, b]


def transform(s, R, t):
    q = copy.deepcopy(s)
    for n in q['nodes']:
        q['nodes'][n] = [float(x) for x in R @ np.array(q['nodes'][n], float) + t]
    for n, v in q['patterns']['P']['node'].items():
        q['patterns']['P']['node'][n] = [float(x) for x in np.concatenate([R @ np.array(v[:3]), R @ np.array(v[3:])])]
    return q


_memo = {}


def solve(s, ctx):
    api = real.build_api(s, ctx.scratch(), ctx)
    ctx.op(2)
    if not ctx.check(api.assemble() is True and api.solve_static('c') is True, 'solve', 'assemble/solve failed'):
        return None
    d = api.result_get_all_nodal_displacement('c')
    r = {n: api.result_get_nodal_reaction(n, 'c') for n in s['nodes']}
    e = {b: api.result_get_beam_end_force(b, 'c') for b in s['beams']}
    g = {b: [api.result_get_beam_deformation(b, x, 'c') for x in (0.0, 1.0)] for b in s['beams']}
    if not ctx.check(all(x is not None for x in list(d.values()) + list(r.values()) + list(e.values()) + [y for v in g.values() for y in v]), 'query', 'a result query failed'):
        return None
    return {'d': {n: np.ravel(v) for n, v in d.items()}, 'r': {n: np.ravel(v) for n, v in r.items()},
            'e': {b: np.ravel(v) for b, v in e.items()}, 'g': {b: [np.ravel(y)[:4] for y in v] for b, v in g.items()}}


def six(R, v):
    return np.concatenate([R @ v[:3], R @ v[3:]])


def run(c, ctx):
    kind, geo = c[0], c[1]
    sym = kind in ('rot24', 'skew')
    s = base(geo, sym)
    R, t, a, b = np.eye(3), np.zeros(3), 1.0, 1.0
    if kind == 'rot24':
        R = rots24()[c[2]]
    elif kind == 'skew':
        AX = [[1, 0, 0], [0, 1, 0], [1, 1, 0], [1, 1, 1], [1, -2, 0.5], [0.2, 0.1, 1]]
        R = rotv(AX[c[2] % 6], 0.35 + 0.8 * (c[2] // 6))
        t = np.array([0.5, -1.5, 2.0])
    elif kind == 'aboutZ':
        R = rotv([0, 0, 1], 2 * math.pi * c[2] / (24 if c[2] < 24 else 144))
    elif kind == 'shift':
        t = np.array(c[2])
    else:
        a, b = c[2], c[3]
    q = gen.rescale(s, a, b) if kind == 'units' else transform(s, R, t)
    key = (geo, sym)
    if key not in _memo:
        _memo[key] = solve(s, ctx)
    u, w = _memo[key], solve(q, ctx)
    if u is None or w is None:
        _memo.pop(key, None)
        return
    sc = np.array([a] * 3 + [1.0] * 3)
    sf = np.array([b] * 3 + [a * b] * 3)
    txt = lambda what: (lambda: '%s after %r' % (what, c))
    md = [max(np.max(np.abs(v[k * 3:k * 3 + 3])) for v in u['d'].values()) for k in (0, 1)]
    mr = [max(np.max(np.abs(v[k * 3:k * 3 + 3])) for v in u['r'].values()) for k in (0, 1)]
    me = [max(np.max(np.abs(v[[k * 3, k * 3 + 1, k * 3 + 2, 6 + k * 3, 7 + k * 3, 8 + k * 3]])) for v in u['e'].values()) for k in (0, 1)]
    mr[1] = max(mr[1], 0.1 * mr[0])
    me[1] = max(me[1], 0.1 * me[0])
    big = max(abs(x) for x in t) if kind == 'shift' else 0
    rel = 1e-6 + 1e-9 * big

    def cmp(got, want, m, key, what):
        for k in (0, 1):
            f = (a if k == 0 else 1.0) if key == 'displacement' else (b if k == 0 else a * b)
            ctx.close(got[3 * k:3 * k + 3], want[3 * k:3 * k + 3], key, txt(what), rel=rel, scale=m[k] * f)
    for n in s['nodes']:
        cmp(w['d'][n], six(R, u['d'][n]) * sc, md, 'displacement', 'displacement of ' + n)
        cmp(w['r'][n], six(R, u['r'][n]) * sf, mr, 'reaction', 'reaction at ' + n)
    for m in s['beams']:
        for e in (0, 1):
            x, y = w['e'][m][6 * e:6 * e + 6], u['e'][m][6 * e:6 * e + 6] * sf
            gx, gy = w['g'][m][e], u['g'][m][e] * np.array([a, a, a, 1.0])
            if sym:     # the local axes 2, 3 need not turn with the model, axis 1 does
                inv = lambda v: np.array([v[0], math.hypot(v[1], v[2]), v[1] ** 2 * 0, v[3], math.hypot(v[4], v[5]), v[1] * v[4] + v[2] * v[5]])
                x, y = inv(x), inv(y)
                x[5], y[5] = x[5] / me[0], y[5] / me[0]
                gx = np.array([gx[0], math.hypot(gx[1], gx[2]), 0, gx[3]])
                gy = np.array([gy[0], math.hypot(gy[1], gy[2]), 0, gy[3]])
            cmp(x, y, me, 'end-force', 'end force of %s, end %d' % (m, e))
            ctx.close(gx[:3], gy[:3], 'deformation', txt('deformation of %s, end %d' % (m, e)), rel=rel, scale=md[0] * a)
            ctx.close(gx[3], gy[3], 'deformation', txt('twist of %s, end %d' % (m, e)), rel=rel, scale=md[1])
    ctx.trace()
    ctx.state(c)
    ctx.outcome([float('%.5g' % x) for n in s['nodes'] for x in w['d'][n]])
