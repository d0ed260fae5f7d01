"""Equivalent end loads of every member-load component subset, and their totals on fixed-end members through the Api."""
import itertools as it
import numpy as np
import gen
import ref
import real

ID = 'P04'
LEVEL = 'model_checking'
RULE = """All 3^8 sign patterns of a linearly varying load, all 3^6 sign patterns of a point load at each of 9 positions
(ends included), and their 2^8 x 2^6 combined subsets on one member, at several member lengths, against Gauss quadrature
of the Hermite functions; every unit and full load on a fixed-fixed member along all lattice directions through the Api
(end forces, reactions, force and moment balance); load re-definition and several patterns on one member. A state is one
(load vector, length)."""
ASSUMPTIONS = ['member loads act in local axes; M2, M3 are moments, positive by the right-hand rule',
               'agreement to 1e-9 of the largest term (closed forms), 1e-6 through the solver']
CHUNK = 1
LENS = [0.02, 0.5, 1.0, 3.7, 60.0]
RS = [0.5, 0.0, 1.0, 0.25, 1 / 3., 0.75, 0.9, 0.07, 0.999]
MAG_D = [1.0, 2.0, 3.0, 5.0, 7.0, 11.0, 13.0, 17.0]
MAG_C = [1.0, 2.0, 3.0, 5.0, 7.0, 11.0]


def cases(tier):
    for l in LENS if tier == 'quick' else LENS + [1e-3, 7.0, 1000.0]:
        for s0 in (0, 1, -1):
            yield ['dist', l, s0]
        for r in RS if tier == 'quick' else RS + [k / 16 for k in range(17)]:
            yield ['conc', l, r]
    for l in (1.0, 3.7):
        for k in range(0, 256, 16):
            yield ['both', l, k]
    dirs = gen.lattice_dirs(1 if tier == 'quick' else 2) + gen.SPECIAL_DIRS
    for d in dirs:
        for kind in gen.KINDS:
            yield ['fixed', d, kind]
    for k in range(5):
        yield ['redefine', k]
    yield ['superpose']


# quadrature once per length: f = B @ v
_B = {}


def basis(l):
    if l not in _B:
        _B[l] = np.array([ref.dist_load(np.eye(8)[k], l) for k in range(8)]).T
    return _B[l]


def judge(ctx, got, want, key, text):
    # forces and moments have their own scales
    w = np.asarray(want)
    g = np.asarray(got, float).ravel()
    ctx.evals += 1
    if g.shape != (12,):
        ctx.fail(key, '%s: %r' % (text(), got))
        return
    for idx in ([0, 1, 2, 6, 7, 8], [3, 4, 5, 9, 10, 11]):
        s = max(np.max(np.abs(w[idx])), 1e-9 * np.max(np.abs(w)))
        if not np.all(np.abs(g[idx] - w[idx]) <= 1e-9 * s + 1e-300):
            ctx.fail(key, '%s\n  got  %s\n  want %s' % (text(), g, w))
            return


def run(c, ctx):
    kind = c[0]
    if kind == 'dist':
        l, B = c[1], basis(c[1])
        for rest in it.product((0, 1, -1), repeat=7):
            v = [s * m for s, m in zip((c[2],) + rest, MAG_D)]
            p = real.LoadPattern('p')
            p.set_beam_load_dist('b', *v)
            judge(ctx, p.get_beam_f('b', l), B @ np.array(v), 'distributed', lambda: 'line load %r on a member of length %g' % (v, l))
            ctx.op(2)
            ctx.state('d', v, l)
            if any(v):
                ctx.outcome('d', v, l)
        ctx.trace()
    elif kind == 'conc':
        l, r = c[1], c[2]
        S = ref.shape(r, l)
        for sg in it.product((0, 1, -1), repeat=6):
            v = [s * m for s, m in zip(sg, MAG_C)]
            p = real.LoadPattern('p')
            p.set_beam_load_conc('b', *v, r)
            judge(ctx, p.get_beam_f('b', l), S.T @ np.array(v), 'concentrated', lambda: 'point load %r at ratio %g on a member of length %g' % (v, r, l))
            ctx.op(2)
            ctx.state('c', v, r, l)
            if any(v):
                ctx.outcome('c', v, r, l)
        ctx.trace()
    elif kind == 'both':
        l, B = c[1], basis(c[1])
        S = ref.shape(0.3, l)
        for kd in range(c[2], c[2] + 16):
            d = [MAG_D[i] * (-1) ** i if kd >> i & 1 else 0.0 for i in range(8)]
            for kc in range(64):
                v = [MAG_C[i] * (-1) ** (i // 2) if kc >> i & 1 else 0.0 for i in range(6)]
                p = real.LoadPattern('p')
                if kc % 2:
                    p.set_beam_load_dist('b', *d)
                    p.set_beam_load_conc('b', *v, 0.3)
                else:
                    p.set_beam_load_conc('b', *v, 0.3)
                    p.set_beam_load_dist('b', *d)
                p.set_beam_load_dist('other', *d[::-1])
                judge(ctx, p.get_beam_f('b', l), B @ np.array(d) + S.T @ np.array(v), 'combined',
                      lambda: 'line load %r and point load %r together' % (d, v))
                ctx.op(4)
                ctx.state('b', kd, kc, l)
                ctx.outcome('b', kd, kc, l)
        ctx.trace()
    elif kind == 'fixed':
        d = c[1]
        o = [0.3, -0.2, 0.9]
        s = dict(nodes={'A': o, 'B': [o[k] + d[k] for k in range(3)]}, beams={'m': {'n': ['B', 'A'], 'sec': gen.SEC, 'kind': c[2]}},
                 rest={'A': gen.F6, 'B': gen.F6}, patterns={}, cases={})
        for k, v in enumerate(gen.UNIT_DIST):
            s['patterns']['d%d' % k] = {'dist': {'m': v}}
        for k, v in enumerate(gen.UNIT_CONC):
            s['patterns']['c%d' % k] = {'conc': {'m': v + [RS[k % len(RS)]]}}
        s['patterns']['all'] = {'dist': {'m': gen.FULL_DIST}, 'conc': {'m': gen.FULL_CONC}}
        for p in s['patterns']:
            s['cases'][p] = {'pats': [[p, 1.0]]}
        fixed(ctx, s, c)
    elif kind == 'redefine':
        # the latest definition of a member load is the load; the two kinds do not disturb each other
        p = real.LoadPattern('p')
        l = 2.0
        seqs = [['d0', 'd1'], ['c0', 'c1'], ['d0', 'c0', 'd1'], ['c0', 'd0', 'c1'], ['d0', 'c0', 'c1', 'd1', 'd0']]
        cur = {}
        D = [gen.FULL_DIST, gen.FULL_DIST[::-1]]
        C = [gen.FULL_CONC, gen.FULL_CONC[3:6] + gen.FULL_CONC[:3] + [0.8]]
        for o in seqs[c[1]]:
            if o[0] == 'd':
                p.set_beam_load_dist('b', *D[int(o[1])])
                cur['d'] = D[int(o[1])]
            else:
                p.set_beam_load_conc('b', *C[int(o[1])])
                cur['c'] = C[int(o[1])]
            want = (ref.dist_load(cur['d'], l) if 'd' in cur else 0) + (ref.conc_load(cur['c'], l) if 'c' in cur else 0)
            judge(ctx, p.get_beam_f('b', l), want, 'redefine', lambda: 'after %r' % (seqs[c[1]],))
            f = p.get_beam_f('zz', l)
            ctx.check(f is None or not np.any(f), 'absent', 'a member without loads gets %r' % (f,))
            ctx.op(2)
            ctx.state('re', c[1], sorted(cur.items()))
            ctx.outcome('re', sorted(cur.items()))
        ctx.trace()
    else:
        s = dict(nodes={'A': [0, 0, 0], 'B': [2, 1, 1]}, beams={'m': {'n': ['A', 'B'], 'sec': gen.SEC}, 'k': {'n': ['B', 'A'], 'sec': gen.SEC2}},
                 rest={'A': gen.F6, 'B': gen.F6}, cases={},
                 patterns={'d': {'dist': {'m': gen.FULL_DIST, 'k': gen.FULL_DIST[::-1]}}, 'c': {'conc': {'m': gen.FULL_CONC}},
                           'e': {'conc': {'m': gen.FULL_CONC[3:6] + gen.FULL_CONC[:3] + [0.8], 'k': gen.FULL_CONC}}, 'n': {'node': {'A': gen.FULL_NODE}}})
        for i, fs in enumerate(it.product((0.0, 1.0, -2.0), repeat=4)):
            s['cases']['x%d' % i] = {'pats': [[p, f] for p, f in zip('dcen', fs)]}
        fixed(ctx, s, c)


def fixed(ctx, s, c):
    api = real.build_api(s, ctx.scratch(), ctx)
    ctx.check(api.assemble() is True, 'assemble', 'assemble failed')
    F = ref.Frame(s)
    for case in s['cases']:
        ctx.op(4)
        if not ctx.check(api.solve_static(case) is True, 'solve', 'a fully fixed member cannot be solved'):
            continue
        ctx.state(c, case)
        w = F.solve(case)
        fs = np.max(np.abs(w['reac']), initial=0) + np.max(np.abs(w['f']), initial=0)
        for b in s['beams']:
            ctx.close(api.result_get_beam_end_force(b, case), w['ends'][b], 'end-force',
                      lambda: 'end forces of fully fixed member %s, case %s of %r' % (b, case, c), rel=1e-7, scale=fs)
        tot = np.zeros(6)
        for n in s['nodes']:
            r = api.result_get_nodal_reaction(n, case)
            if not ctx.close(r, w['reac'][6 * F.ix[n]:6 * F.ix[n] + 6], 'reaction', lambda: 'reactions at %s, case %s of %r' % (n, case, c), rel=1e-7, scale=fs):
                return
            tot[:3] += r[:3]
            tot[3:] += np.asarray(r[3:]) + np.cross(s['nodes'][n], r[:3])
        app = np.zeros(6)
        for n in s['nodes']:
            f = F.load(case)[0][6 * F.ix[n]:6 * F.ix[n] + 6]
            app[:3] += f[:3]
            app[3:] += f[3:] + np.cross(s['nodes'][n], f[:3])
        ctx.close(tot, -app, 'balance', lambda: 'reactions do not balance the applied loads, case %s of %r' % (case, c), rel=1e-6, scale=10 * fs)
        ctx.trace()
        ctx.outcome([float('%.6g' % x) for x in w['reac']])
