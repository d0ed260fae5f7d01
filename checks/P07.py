"""End releases: all 2^12 subsets transmit nothing through what is released and everything else through the rest."""
import itertools as it
import numpy as np
import gen
import ref
import real

ID = 'P07'
LEVEL = 'model_checking'
RULE = """All 2^12 release subsets of a member held between two cantilever stubs (skew and vertical member, both member
kinds over the models), nodal and member loads, and all pairs of a 12-entry release menu on two members meeting at a
node, release sets replaced by later ones, releases set before and after other model edits, each component of a point
load at either very end of a member with each single release and pairs of releases, pairs of the menu in units of
force that make all numbers very small or very large; displacements, end forces and
reactions against an independent elimination of the released end displacements. A state is one release assignment."""
ASSUMPTIONS = ['member loads that a released member cannot resist at all (a mechanism inside the member) are skipped; nodal loads are always judged',
               'unstable assemblies (scaled condition number above 1e6) are skipped']
CHUNK = 1
MENU = [[], [5], [4, 5], [3, 4, 5], [11], [10, 11], [4, 5, 10, 11], [0], [6], [1, 5], [3, 10], [2, 8, 4]]


def rel(ids):
    return [i in ids for i in range(12)]


def stubs(vertical, kind):
    B = [0.0, 0.0, 2.0] if vertical else [1.2, 0.9, 0.7]
    s = dict(nodes={'A0': [-1.5, 0.2, 0.1], 'A': [0, 0, 0], 'B': B, 'B0': [B[0] + 0.3, B[1] + 1.4, B[2] - 0.2]},
             beams={'s1': {'n': ['A0', 'A'], 'sec': gen.SEC2}, 'm': {'n': ['A', 'B'], 'sec': gen.SEC, 'kind': kind}, 's2': {'n': ['B', 'B0'], 'sec': gen.SEC2, 'kind': 'beam'}},
             rest={'A0': gen.F6, 'B0': gen.F6}, patterns={}, cases={})
    s['patterns'] = {'N': {'node': {'A': gen.FULL_NODE, 'B': gen.FULL_NODE[::-1]}},
                     'D': {'dist': {'m': gen.FULL_DIST, 's1': gen.FULL_DIST[::-1]}}, 'C': {'conc': {'m': gen.FULL_CONC}}}
    s['cases'] = {'n': {'pats': [['N', 1.0]]}, 'd': {'pats': [['D', 1.0]]}, 'c': {'pats': [['C', -1.0], ['N', 0.5]]}}
    return s


def pair():
    s = dict(nodes={'A': [0, 0, 0], 'B': [1.5, 0.3, 0.4], 'C': [2.0, 1.8, 0.1], 'D': [1.4, 0.2, 2.0]},
             beams={'m': {'n': ['A', 'B'], 'sec': gen.SEC}, 'k': {'n': ['C', 'B'], 'sec': gen.SEC2, 'kind': 'beam'}, 's': {'n': ['D', 'B'], 'sec': gen.SEC}},
             rest={'A': gen.F6, 'C': gen.F6, 'D': gen.F6}, patterns={}, cases={})
    s['patterns'] = {'N': {'node': {'B': gen.FULL_NODE}}, 'D': {'dist': {'m': gen.FULL_DIST, 'k': gen.FULL_DIST[::-1]}, 'conc': {'k': gen.FULL_CONC}}}
    s['cases'] = {'n': {'pats': [['N', 1.0]]}, 'd': {'pats': [['D', 2.0], ['N', -1.0]]}}
    return s


def cases(tier):
    for k in range(0, 4096, 32):
        yield ['sub', 0, k, gen.KINDS[k // 32 % 2]]
    for k in range(0, 4096, 32):
        if tier != 'quick' or (k // 32) % 4 == 0:
            yield ['sub', 1, k, gen.KINDS[(k // 32 + 1) % 2]]
    if tier != 'quick':
        for k in range(0, 4096, 32):
            for v in (0, 1):
                yield ['sub', v, k, gen.KINDS[(k // 32 + 1 - v) % 2]]
    for a in range(len(MENU)):
        yield ['pair', a]
    for a in range(len(MENU)):
        yield ['reset', a]
    for b in (1e-16, 1e-10, 1e-6, 1e6, 1e12):
        for a in range(len(MENU)):
            yield ['units', a, b]
    for v in (0, 1):
        for a in range(12):
            for b in range(a, 12):
                if tier != 'quick' or b == a or (a + b) % 3 == 0:
                    yield ['end', v, a, b]


def judge(ctx, c, s, api, what):
    F = ref.Frame(s)
    for case in s['cases']:
        F.supported = True
        w = F.solve(case)
        ctx.state(c[0], what, case)
        if w is None:
            ctx.count('unstable_skipped')
            continue
        if not F.supported:
            ctx.count('member_mechanism_skipped')
            continue
        ctx.op(2)
        if not ctx.check(api.solve_static(case) is True, 'solve', 'solve_static failed: %r' % (what,)):
            continue
        d = api.result_get_all_nodal_displacement(case)
        if not ctx.check(isinstance(d, dict), 'query', 'no displacements'):
            continue
        g = np.concatenate([np.ravel(d[n]) for n in F.names])
        txt = lambda: 'releases %r, case %s' % (what, case)
        real.close_disp(ctx, g, w['d'], 'displacement', txt)
        fs = max(max(np.max(np.abs(v)) for v in w['ends'].values()), np.max(np.abs(w['f'])))
        for b, m in s['beams'].items():
            e = api.result_get_beam_end_force(b, case)
            ctx.close(e, w['ends'][b], 'end-force', lambda: 'end forces of %s: %s' % (b, txt()), scale=fs)
            if m.get('rel') and e is not None:
                ctx.check(np.max(np.abs(np.ravel(e)[np.array(m['rel'], bool)]), initial=0) <= 1e-9 * fs, 'released-force',
                          lambda: 'a released end displacement of %s transmits force: %r: %s' % (b, e, txt()))
        for n in s['rest']:
            ctx.close(api.result_get_nodal_reaction(n, case), w['reac'][6 * F.ix[n]:6 * F.ix[n] + 6], 'reaction', lambda: 'reaction at %s: %s' % (n, txt()), scale=fs)
        ctx.trace()
        ctx.outcome([float('%.6g' % x) for x in g])


def run(c, ctx):
    if c[0] == 'sub':
        # one model per subset: the member is the only thing that differs
        for k in range(c[2], c[2] + 32):
            s = stubs(c[1], c[3])
            s['beams']['m']['rel'] = [bool(k >> i & 1) for i in range(12)]
            # the quick tier observes member loads on every subset and nodal loads on every fourth
            if ctx.tier == 'quick' and k % 4:
                s['cases'].pop('n')
                s['cases'].pop('c' if k % 2 else 'd')
                s['cases'][list(s['cases'])[0]]['pats'] += [['N', 0.25]] if not k % 2 == 0 else []
            api = real.build_api(s, ctx.scratch(), ctx)
            ctx.check(api.assemble() is True, 'assemble', 'assemble failed')
            F = ref.Frame(s)
            # if the member cannot carry its load, nodal loads still count
            probe = list(s['cases'])[0]
            F.load(probe)
            if not F.supported and 'n' not in s['cases']:
                api.add_static_case('n')
                api.add_case_pattern('n', 'N', 1.0)
                s['cases'] = {'n': {'pats': [['N', 1.0]]}}
                ctx.check(api.assemble() is True, 'assemble', 'assemble failed')
            judge(ctx, c, s, api, [c[1], k, c[3]])
    elif c[0] == 'end':
        s = stubs(c[1], gen.KINDS[(c[2] + c[3]) % 2])
        s['beams']['m']['rel'] = rel(c[2:])
        s['patterns'] = {'%d%d' % (k, e): {'conc': {'m': v + [float(e)]}} for k, v in enumerate(gen.UNIT_CONC) for e in (0, 1)}
        s['cases'] = {p: {'pats': [[p, 1.0]]} for p in s['patterns']}
        api = real.build_api(s, ctx.scratch(), ctx)
        ctx.check(api.assemble() is True, 'assemble', 'assemble failed')
        judge(ctx, c, s, api, c[1:])
    elif c[0] in ('pair', 'units'):
        for b in range(len(MENU)):
            if c[0] == 'units' and ctx.tier == 'quick' and (b + c[1]) % 3:
                continue
            s = pair()
            s['beams']['m']['rel'] = rel(MENU[c[1]])
            s['beams']['k']['rel'] = rel(MENU[b])
            if c[0] == 'units':
                s = gen.rescale(s, 1.0, c[2])
            api = real.build_api(s, ctx.scratch(), ctx)
            ctx.check(api.assemble() is True, 'assemble', 'assemble failed')
            judge(ctx, c, s, api, [c[1], b])
    else:
        # set, then replace: only the last set counts; other edits in between do not matter
        s = pair()
        api = real.build_api(s, ctx.scratch(), ctx)
        for b in range(len(MENU)):
            ctx.op(4)
            ctx.check(api.set_beam_release('m', *rel(MENU[c[1]])) is True, 'status', 'set_beam_release failed')
            ctx.check(api.set_beam_release('k', *rel(MENU[(b + 3) % len(MENU)])) is True, 'status', 'set_beam_release failed')
            ctx.check(api.add_node('x%d' % b, 9, 9, b) is True, 'status', 'add_node failed')
            ctx.check(api.set_nodal_restraint('x%d' % b, *gen.F6) is True, 'status', 'restraint failed')
            ctx.check(api.set_beam_release('m', *rel(MENU[b])) is True, 'status', 'set_beam_release failed')
            s['nodes']['x%d' % b] = [9, 9, b]
            s['rest']['x%d' % b] = gen.F6
            s['beams']['m']['rel'] = rel(MENU[b])
            s['beams']['k']['rel'] = rel(MENU[(b + 3) % len(MENU)])
            ctx.check(api.assemble() is True, 'assemble', 'assemble failed')
            judge(ctx, c, s, api, [c[1], b])
