"""Supports: every restraint subset, global and per case, is honoured exactly."""
import itertools as it
import numpy as np
import gen
import ref
import real

ID = 'P03'
LEVEL = 'model_checking'
RULE = """All 2^12 restraint subsets of a two-node member (as global restraints and as case restraints overriding them),
all products of a nine-entry support menu over the three nodes of an angled frame (global; per case over four different
global settings), all definition orders of the supports, and supports set twice. Every structurally stable one is solved
by the real code; restrained DOFs must be exactly zero and the others equal the independent solution. A state is one
(global, case) support assignment."""
ASSUMPTIONS = ['a case with any restraint of its own ignores all global restraints (documented override)',
               'unstable assignments (scaled condition number above 1e6) are enumerated but not judged']
CHUNK = 2
MENU = [[0, 0, 0, 0, 0, 0], [1, 1, 1, 1, 1, 1], [1, 1, 1, 0, 0, 0], [1, 0, 0, 0, 0, 0], [0, 1, 1, 0, 0, 0],
        [0, 0, 1, 1, 0, 0], [0, 0, 0, 1, 1, 1], [1, 1, 0, 0, 0, 1], [0, 1, 0, 0, 1, 0]]
GLOB = [(1, 0, 0), (2, 2, 2), (0, 1, 3), (0, 0, 0)]


def line():
    s = dict(nodes={'A': [0, 0, 0], 'B': [2.0, 1.0, -0.5]}, beams={'m': {'n': ['B', 'A'], 'sec': gen.SEC}},
             rest={}, patterns={}, cases={})
    s['patterns'] = {'P': {'node': {'A': gen.FULL_NODE, 'B': gen.FULL_NODE[::-1]}, 'dist': {'m': gen.FULL_DIST}, 'conc': {'m': gen.FULL_CONC}}}
    return s


def angle(order=(0, 1, 2)):
    pts = {'A': gen.P4['A'], 'B': gen.P4['B'], 'C': gen.P4['D']}
    s = gen.graph_frame([(0, 1), (2, 1)], pts, 0, {})
    s['nodes'] = {n: s['nodes'][n] for n in ['ABC'[i] for i in order]}
    gen.full_loads(s)
    s['cases'] = {}
    return s


def bits(k):
    return [bool(k >> i & 1) for i in range(12)]


def cases(tier):
    for k in range(0, 4096, 64):
        yield ['case12', k]
    for k in range(0, 4096, 16):
        yield ['glob12', k]
    M = range(len(MENU))
    for a in M:
        for b in M:
            yield ['menu-global', a, b]
            for g in range(len(GLOB)):
                yield ['menu-case', g, a, b]
    for o in it.permutations(range(3)):
        for o2 in it.permutations(range(3)):
            yield ['order', list(o), list(o2)]
    for a in M:
        for b in M:
            yield ['twice', a, b]
    if tier != 'quick':
        for a in M:
            for b in M:
                yield ['grid', a, b]


def judge(ctx, c, api, spec, case, F=None):
    F = F or ref.Frame(spec)
    want = F.solve(case)
    ctx.state(sorted(F.fixed(case)), sorted((spec.get('rest') or {}).items()), c[0])
    if want is None:
        ctx.count('unstable_skipped')
        return
    ctx.op(2)
    if not ctx.check(api.solve_static(case) is True, 'solve', 'solve_static failed for %r' % (c,)):
        return
    got = api.result_get_all_nodal_displacement(case)
    if not ctx.check(isinstance(got, dict), 'query', 'no displacements'):
        return
    g = np.concatenate([np.asarray(got[n], float).ravel() for n in F.names])
    fx = F.fixed(case)
    txt = lambda: '%r, supports global %r case %r' % (c, spec.get('rest'), spec['cases'][case].get('rest'))
    ctx.check(len(g) == F.N and not np.any(g[fx]), 'restrained-moves', lambda: 'a restrained DOF moves: %s\n%s' % (txt(), g))
    real.close_disp(ctx, g, want['d'], 'displacement', txt)
    ctx.trace()
    ctx.outcome([float('%.6g' % x) for x in g])


def run(c, ctx):
    kind = c[0]
    if kind == 'case12':
        s = line()
        s['rest'] = {'A': gen.F6, 'B': [True, False, True, False, True, False]}
        for k in range(c[1], c[1] + 64):
            b = bits(k)
            rest = {n: v for n, v in (('A', b[:6]), ('B', b[6:]))}
            if k % 2:
                rest = dict(reversed(list(rest.items())))
            s['cases']['c%d' % k] = {'pats': [['P', 1.0]], 'rest': rest}
        s['cases'] = {k: v for k, v in s['cases'].items() if any(any(x) for x in v['rest'].values())}
        api = real.build_api(s, ctx.scratch(), ctx)
        ctx.check(api.assemble() is True, 'assemble', 'assemble failed')
        F = ref.Frame(s)
        for k in s['cases']:
            judge(ctx, [kind, k], api, s, k, F)
        return
    if kind == 'glob12':
        for k in range(c[1], c[1] + 16):
            s = line()
            b = bits(k)
            s['rest'] = {n: v for n, v in (('A', b[:6]), ('B', b[6:])) if any(v) or k % 3 == 0}
            s['cases'] = {'c': {'pats': [['P', 1.0]]}}
            F = ref.Frame(s)
            if F.solve('c') is None:
                ctx.count('unstable_skipped')
                ctx.state('u', k)
                continue
            api = real.build_api(s, ctx.scratch(), ctx)
            ctx.check(api.assemble() is True, 'assemble', 'assemble failed')
            judge(ctx, [kind, k], api, s, 'c', F)
        return
    PATS = [['PN', 1.5], ['PD', -2.0], ['PC', 0.5]]
    if kind == 'menu-global':
        for k in range(len(MENU)):
            s = angle()
            s['rest'] = {n: [bool(x) for x in MENU[m]] for n, m in zip('ABC', (c[1], c[2], k))}
            s['cases'] = {'c': {'pats': PATS}}
            F = ref.Frame(s)
            if F.solve('c') is None:
                ctx.count('unstable_skipped')
                ctx.state('u', c, k)
                continue
            api = real.build_api(s, ctx.scratch(), ctx)
            ctx.check(api.assemble() is True, 'assemble', 'assemble failed')
            judge(ctx, c + [k], api, s, 'c', F)
        return
    if kind == 'menu-case':
        s = angle()
        s['rest'] = {n: [bool(x) for x in MENU[m]] for n, m in zip('ABC', GLOB[c[1]])}
        for k in range(len(MENU)):
            r = {n: [bool(x) for x in MENU[m]] for n, m in zip('ABC', (c[2], c[3], k))}
            if k % 2:       # nodes left out are free in the case
                r = {n: v for n, v in r.items() if any(v)}
            if any(any(v) for v in r.values()):
                s['cases']['c%d' % k] = {'pats': PATS, 'rest': r}
        s['cases']['plain'] = {'pats': PATS}
        api = real.build_api(s, ctx.scratch(), ctx)
        ctx.check(api.assemble() is True, 'assemble', 'assemble failed')
        F = ref.Frame(s)
        for k in s['cases']:
            judge(ctx, c + [k], api, s, k, F)
        return
    if kind == 'order':
        s = angle(c[1])
        rr = {'A': [True] * 3 + [False] * 3, 'B': [False, True, False, False, True, False], 'C': gen.F6}
        s['rest'] = {'ABC'[i]: rr['ABC'[i]] for i in c[2]}
        s['cases'] = {'c': {'pats': PATS}, 'd': {'pats': PATS, 'rest': {'ABC'[i]: rr['ACB'[i]] for i in c[2]}}}
    elif kind == 'twice':
        s = angle()
        s['cases'] = {'c': {'pats': PATS}, 'd': {'pats': PATS, 'rest': {'A': gen.F6}}}
        s['rest'] = {'C': gen.F6}
        api = real.build_api(s, ctx.scratch(), ctx)
        for x in (c[1], c[2]):      # the later setting replaces the earlier one entirely
            v = [bool(y) for y in MENU[x]]
            ctx.op(2)
            ctx.check(api.set_nodal_restraint('B', *v) is True, 'status', 'set_nodal_restraint failed')
            ctx.check(api.set_loadcase_nodal_restraint('d', 'C', *v) is True, 'status', 'set_loadcase_nodal_restraint failed')
        s['rest']['B'] = v
        s['cases']['d']['rest']['C'] = v
        ctx.check(api.assemble() is True, 'assemble', 'assemble failed')
        for k in s['cases']:
            judge(ctx, c, api, s, k)
        return
    else:   # grid: restraints at upper nodes of a space frame, beside the base
        s = gen.full_loads(gen.grid(1, 1, 1))
        up = [n for n in s['nodes'] if n not in s['rest']]
        s['rest'][up[0]] = [bool(x) for x in MENU[c[1]]]
        s['rest'][up[2]] = [bool(x) for x in MENU[c[2]]]
    api = real.build_api(s, ctx.scratch(), ctx)
    ctx.check(api.assemble() is True, 'assemble', 'assemble failed')
    F = ref.Frame(s)
    for k in s['cases']:
        judge(ctx, c, api, s, k, F)
