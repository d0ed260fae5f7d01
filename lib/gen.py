"""Finite alphabets and enumerators shared by the checks.  Nothing random."""
import copy
import itertools as it
import math

SEC = [2.0e4, 0.25, 0.3, 0.02, 0.05, 0.04, 2.5]
SEC2 = [1.1e4, 0.3, 0.5, 0.07, 0.03, 0.06, 1.5]
SYM = [2.0e4, 0.25, 0.3, 0.03, 0.03, 0.05, 2.5]
STEEL = [2e11, 0.3, 0.0188, 4.023e-5, 4.771e-4, 4.133e-6, 7849.0]
F6 = [True] * 6
PIN = [True, True, True, False, False, False]
SECS = [SEC, SEC2]
KINDS = ['simple', 'beam']

P4 = {'A': [0, 0, 0], 'B': [3, 0, 0.5], 'C': [0.5, 2, 0], 'D': [1, 0.5, 2.5]}

# every single component of every load type; magnitudes differ so that mix-ups show
UNIT_NODE = [[(k + 1.0) if i == k else 0.0 for i in range(6)] for k in range(6)]
UNIT_DIST = [[(k + 1.0) if i == k else 0.0 for i in range(8)] for k in range(8)]
UNIT_CONC = [[(k + 1.0) if i == k else 0.0 for i in range(6)] for k in range(6)]
FULL_NODE = [1.0, -2.0, 3.0, -0.5, 0.7, -0.9]
FULL_DIST = [1.0, -0.5, 2.0, 0.8, -1.5, -0.4, 0.3, -0.6]
FULL_CONC = [1.2, -0.7, 0.9, 0.4, -0.8, 0.6, 0.35]


def lattice_dirs(n):
    r = range(-n, n + 1)
    out = [d for d in it.product(r, r, r) if any(d)]
    out.sort(key=lambda d: (sum(abs(x) for x in d), d))
    return [list(map(float, d)) for d in out]


SPECIAL_DIRS = [[0.0, 0.0, 0.01], [0.0, 0.0, -50.0], [1e-3, 0.0, 1.0], [0.0, -1e-3, 2.0], [-1e-5, 1e-5, -1.5],
                [math.pi, -math.e, 0.0], [0.3, 0.7, 1e-3], [10.0, 0.01, 0.0], [-7.0, 3.0, -11.0], [0.1, -0.1, 0.1]]


def single(d, anchored, kind, sec, o=(0.7, -0.4, 1.1)):
    """one member from o along d, fixed at one end; one case per load component"""
    s = dict(nodes={'A': list(o), 'B': [o[k] + d[k] for k in range(3)]},
             beams={'m': {'n': ['A', 'B'], 'sec': sec, 'kind': kind}},
             rest={'AB'[anchored]: F6}, patterns={}, cases={})
    free = 'BA'[anchored]
    for k, v in enumerate(UNIT_NODE):
        s['patterns']['n%d' % k] = {'node': {free: v}}
    for k, v in enumerate(UNIT_DIST):
        s['patterns']['d%d' % k] = {'dist': {'m': v}}
    for k, v in enumerate(UNIT_CONC):
        s['patterns']['c%d' % k] = {'conc': {'m': v + [[0.3, 0.85][k % 2]]}}
    for p in s['patterns']:
        s['cases'][p] = {'pats': [[p, 1.0]]}
    return s


def connected_graphs(k):
    """all connected graphs on nodes 0..k-1 (edge lists), smallest first"""
    E = list(it.combinations(range(k), 2))
    out = []
    for m in range(k - 1, len(E) + 1):
        for es in it.combinations(E, m):
            comp = list(range(k))
            for a, b in es:
                ca, cb = comp[a], comp[b]
                comp = [ca if c == cb else c for c in comp]
            if len(set(comp)) == 1:
                out.append(list(es))
    return out


def graph_frame(es, pts, orient, rest, names=None, secs=SECS, kinds=KINDS):
    """orient: bitmask, bit e reverses edge e"""
    nm = names or list(pts)
    base = list(pts)
    s = dict(nodes={nm[i]: list(pts[base[i]]) for i in range(len(base))}, beams={}, rest=rest, patterns={}, cases={})
    for e, (a, b) in enumerate(es):
        if orient >> e & 1:
            a, b = b, a
        s['beams']['m%d' % e] = {'n': [nm[a], nm[b]], 'sec': secs[e % len(secs)], 'kind': kinds[(e // 2) % len(kinds)]}
    return s


def full_loads(s, scale=1.0):
    """loads on everything, in one pattern per kind; one case with all of them, one per kind"""
    nodes = list(s['nodes'])
    beams = list(s['beams'])
    rot = lambda v, k: v[k % len(v):] + v[:k % len(v)]
    s['patterns'] = {
        'PN': {'node': {n: [x * scale for x in rot(FULL_NODE, i)] for i, n in enumerate(nodes)}},
        'PD': {'dist': {b: [x * scale for x in rot(FULL_DIST, i)] for i, b in enumerate(beams)}},
        'PC': {'conc': {b: [x * scale for x in rot(FULL_CONC[:6], i)] + [[0.35, 0.0, 1.0, 0.6][i % 4]] for i, b in enumerate(beams)}},
    }
    s['cases'] = {'all': {'pats': [['PN', 1.5], ['PD', -2.0], ['PC', 0.5]]},
                  'N': {'pats': [['PN', 1.0]]}, 'M': {'pats': [['PD', 1.0], ['PC', -1.0]]}}
    return s


def grid(bx, by, st, lx=3.0, ly=2.5, h=2.0, name='%d-%d-%d', sec=SECS):
    """(bx x by)-bay, st-storey space frame fixed at the base"""
    s = dict(nodes={}, beams={}, rest={}, patterns={}, cases={})
    for k in range(st + 1):
        for j in range(by + 1):
            for i in range(bx + 1):
                n = name % (i, j, k)
                s['nodes'][n] = [i * lx, j * ly, k * h]
                if k == 0:
                    s['rest'][n] = F6
    q = 0
    for k in range(st + 1):
        for j in range(by + 1):
            for i in range(bx + 1):
                n = name % (i, j, k)
                for di, dj, dk in ((1, 0, 0), (0, 1, 0), (0, 0, 1)):
                    if k == 0 and dk == 0:
                        continue
                    m = name % (i + di, j + dj, k + dk)
                    if m in s['nodes']:
                        s['beams']['b%d' % q] = {'n': [n, m] if q % 3 else [m, n], 'sec': sec[q % len(sec)], 'kind': KINDS[q % 2]}
                        q += 1
    # columns from the base
    for j in range(by + 1):
        for i in range(bx + 1):
            n, m = name % (i, j, 0), name % (i, j, 1)
            if m in s['nodes']:
                s['beams']['b%d' % q] = {'n': [n, m] if q % 2 else [m, n], 'sec': sec[q % len(sec)], 'kind': KINDS[q % 2]}
                q += 1
    # drop duplicates of base columns created above (k==0 skipped only horizontals)
    seen = set()
    for b in list(s['beams']):
        key = frozenset(s['beams'][b]['n'])
        if key in seen:
            del s['beams'][b]
        seen.add(key)
    return s


def rescale(s, a, b):
    """the same structure in other units: lengths times a, forces times b"""
    q = copy.deepcopy(s)
    for n in q['nodes']:
        q['nodes'][n] = [a * x for x in q['nodes'][n]]
    for m in q['beams'].values():
        E, mu, A, I2, I3, J, rho = m['sec']
        m['sec'] = [E * b / a ** 2, mu, A * a ** 2, I2 * a ** 4, I3 * a ** 4, J * a ** 4, rho]
    for P in q['patterns'].values():
        for n, v in P.get('node', {}).items():
            P['node'][n] = [b * x for x in v[:3]] + [a * b * x for x in v[3:]]
        for k, v in P.get('dist', {}).items():
            P['dist'][k] = [b / a * x for x in v[:6]] + [b * x for x in v[6:]]
        for k, v in P.get('conc', {}).items():
            P['conc'][k] = [b * x for x in v[:3]] + [a * b * x for x in v[3:6]] + [v[6]]
    return q
