"""Saving and loading is invisible: an interrupted-by-save/load session behaves like an uninterrupted one."""
import os
import pickle
import subprocess
import sys
import itertools as it
import numpy as np
import gen
import mc
import real

ID = 'P10'
LEVEL = 'model_checking'
RULE = """Each of several scripted modelling sessions (frames, releases, shells, all section types, masses, case restraints,
combinations, odd names) is executed with a save/load inserted after every operation (all single positions, all pairs of
positions in the thorough tier, save without load, other models
made, solved and saved in between, continuation in another process); afterwards every query and every solved result must equal those
of the uninterrupted session. All histories of length <= 4 over {save x, save y, edit, load x, load y} are compared with
a reference store; those of length 3 also for pairs of names that are alike (one is the other plus a dotted part, a digit, a blank, capitals). A state is one (session, position of the interruption)."""
ASSUMPTIONS = ['file names are plain names in an existing work directory']
CHUNK = 2


NAMES = [['t', 't.v2'], ['t.v2', 't'], ['t.v1', 't.v2'], ['T', 't'], ['a b', 'a'], ['1', '10'], ['楼', '楼2'], ['x.sep', 'x'], ['x', 'x.sep'], ['-', '_']]


def sessions():
    out = []
    base = gen.graph_frame([(0, 1), (2, 1), (1, 3)], gen.P4, 0b010, {'A': gen.F6, 'C': gen.PIN, 'D': gen.F6})
    ops = [('add_node', n, *p) for n, p in base['nodes'].items()]
    ops += [('add_isotropic_material', 'M', 2.5, 2e4, 0.25, 1e-5), ('add_beam_section_general', 'S', 'M', 0.3, 0.3, 0.3, 0.02, 0.05, 0.04, 1., 1.),
            ('add_beam', 'm0', 'A', 'B', 'S'), ('add_simple_beam', 'm1', 'C', 'B', 2e4, 0.25, 0.3, 0.02, 0.05, 0.04, 2.5), ('add_beam', 'm2', 'B', 'D', 'S'),
            ('set_beam_release', 'm1', False, False, False, False, True, True), ('set_nodal_restraint', 'A', *gen.F6), ('set_nodal_restraint', 'C', *gen.F6),
            ('set_nodal_restraint', 'D', *gen.F6), ('set_nodal_mass', 'B', 1., 2., 3., 4., 5., 6.),
            ('add_loadpattern', 'P'), ('set_nodal_load', 'P', 'B', *gen.FULL_NODE), ('set_beam_load_distributed', 'P', 'm0', *gen.FULL_DIST),
            ('add_static_case', 'c'), ('add_case_pattern', 'c', 'P', 1.5), ('set_beam_load_concentrated', 'P', 'm2', *gen.FULL_CONC),
            ('add_static_case', 'd'), ('add_loadpattern', 'Q'), ('set_nodal_load', 'Q', 'B', *gen.FULL_NODE[::-1]), ('add_case_pattern', 'd', 'Q', -2.0),
            ('add_case_pattern', 'd', 'P', 0.5), ('set_loadcase_nodal_restraint', 'd', 'A', *gen.F6), ('set_loadcase_nodal_restraint', 'd', 'D', *gen.F6), ('set_loadcase_nodal_restraint', 'd', 'C', *gen.F6), ('add_modal_case', 'e')]
    out.append((ops, ['c', 'd'], ['A', 'B', 'C', 'D'], ['m0', 'm1', 'm2'], ['P', 'Q']))
    ops = [('add_isotropic_material', '钢 Q355', 7849.0, 2e11, 0.3, 1.17e-5)]
    secs = [('add_beam_section_rectangle', 'r', '钢 Q355', 0.4, 0.2), ('add_beam_section_I', 'i', '钢 Q355', 0.4, 0.2, 0.014, 0.02),
            ('add_beam_section_box', 'b', '钢 Q355', 0.4, 0.2, 0.014, 0.02), ('add_beam_section_circle', 'o', '钢 Q355', 0.3), ('add_beam_section_pipe', 'p', '钢 Q355', 0.3, 0.02)]
    for i, s in enumerate(secs):
        ops += [s, ('add_node', str(i), 1.5 * i, 0.3 * (i % 2), 0.4 * i)]
    ops += [('add_node', '5', 7.0, 1.0, 3.0)]
    ops += [('add_beam', '梁%d' % i, str(i), str(i + 1), s[1]) for i, s in enumerate(secs)]
    ops += [('set_nodal_restraint', '0', *gen.F6), ('set_nodal_restraint', '5', *gen.PIN), ('add_loadpattern', '恒载'), ('add_static_case', 'D+L'), ('add_case_pattern', 'D+L', '恒载', 1.2)]
    ops += [('set_beam_load_distributed', '恒载', '梁%d' % i, 0, 0, 1e3 * i, -2e3, 3e3, 4e3) for i in range(5)] + [('set_nodal_load', '恒载', '3', 1e4, 2e4, -3e4)]
    out.append((ops, ['D+L'], [str(i) for i in range(6)], ['梁%d' % i for i in range(5)], ['恒载']))
    ops = [('add_node', n, *p) for n, p in (('a', (0, 0, 0)), ('b', (1, 0, 0.1)), ('c', (1, 1, 0)), ('d', (0, 1, 0.1)))]
    ops += [('add_isotropic_material', 'M', 2.5, 2e4, 0.25, 1e-5), ('add_shell_section', 'W', 'M', 0.1), ('add_shell', 's1', 'a', 'b', 'c', None, 'W'),
            ('add_shell', 's2', 'a', 'b', 'c', 'd', 'W'), ('add_simple_beam', 'k', 'a', 'c', 2e4, 0.25, 0.3, 0.02, 0.05, 0.04, 2.5), ('set_nodal_restraint', 'a', *gen.F6),
            ('set_nodal_restraint', 'a', *gen.PIN), ('add_beam_section_general', 'bad', 'nomat', 1., 1., 1., 1., 1., 1., 1., 1.)]
    out.append((ops, [], ['a', 'b', 'c', 'd'], ['k'], []))
    return out


def cases(tier):
    for k, s in enumerate(sessions()):
        n = len(s[0])
        for i in range(n + 1):
            yield ['cut', k, [i], 'load']
            yield ['cut', k, [i], 'keep']
        if tier != 'quick':
            for i, j in it.combinations(range(n + 1), 2):
                yield ['cut', k, [i, j], 'load']
        else:
            for i in range(0, n):
                yield ['cut', k, [i, n], 'load']
                yield ['cut', k, [i, i + 1], 'load']
        yield ['cut', k, list(range(n + 1)), 'load']
        for i in range(0, n + 1) if tier != 'quick' else sorted({3, 7, n // 3, n // 2, n - 9, n - 3, n}):
            yield ['fresh', k, [i], 'load']
            yield ['cut', k, [i], 'other']
    ev = ['save x', 'save y', 'edit', 'load x', 'load y']
    for h in it.product(range(5), repeat=4 if tier == 'quick' else 5):
        yield ['store', list(h), ['x', 'y']]
    for xy in NAMES:
        for h in it.product(range(5), repeat=3):
            yield ['store', list(h), xy]


def observe(ctx, api, s, solve=True):
    _, cs, nodes, beams, pats = s
    o = {'nodes': api.get_node_names(), 'beams': api.get_beam_names(), 'shells': api.get_shell_names()}
    flat = lambda v: None if v is None else [float(x) for x in np.ravel(v)]
    for n in nodes:
        o['loc', n] = flat(api.get_node_location(n))
        for p in pats:
            o['load', p, n] = flat(api.get_nodal_load(p, n))
    for b in o['beams']:
        o['bn', b] = api.get_beam_node_names(b)
        o['bl', b] = flat(api.get_beam_location(b))
    for b in o['shells']:
        o['sn', b] = api.get_shell_node_names(b)
        o['sl', b] = flat(api.get_shell_location(b))
    o['rest'] = {k: flat(v) for k, v in (api.get_node_restraints() or {}).items()}
    for c in cs:
        o['rest', c] = {k: flat(v) for k, v in (api.get_node_restraints(c) or {}).items()}
    if solve and cs:
        o['asm'] = api.assemble()
        for c in cs:
            o['solve', c] = api.solve_static(c)
            o['d', c] = {n: flat(v) for n, v in (api.result_get_all_nodal_displacement(c) or {}).items()}
            for b in beams:
                o['e', b, c] = flat(api.result_get_beam_end_force(b, c))
                o['x', b, c] = flat(api.result_get_beam_deformation(b, 0.25, c))
            for n in nodes[:2]:
                o['r', n, c] = flat(api.result_get_nodal_reaction(n, c))
    ctx.op(len(o))
    return o


_memo = {}
ELSEWHERE = """
import pickle, sys
sys.path[:0] = sys.argv[1:4]
import mc
mc.quiet_process()
import P10
w, k, i = sys.argv[4], int(sys.argv[5]), int(sys.argv[6])
S = P10.sessions()[k]
api = P10.real.Api.load(w, 's')
st = [getattr(api, o[0])(*o[1:]) for o in S[0][i:]]
pickle.dump((st, P10.observe(mc.Ctx(), api, S)), open(w + '/answer', 'wb'))
"""


def another_model(ctx):
    """has nodes and members of the same names, and is solved and saved"""
    api = real.Api(ctx.scratch())
    for n, x in (('D', 1.), ('B', 5.), ('A', 3.), ('5', 7.), ('0', -2.), ('b', 4.)):
        api.add_node(n, x, x * x, 1.)
    for b, n in (('m0', 'AB'), ('梁0', '50'), ('k', 'bD')):
        api.add_simple_beam(b, n[0], n[1], 1e3, 0.1, 1., 1., 1., 1., 1.)
    for n in 'DA5':
        api.set_nodal_restraint(n, *gen.F6)
    api.add_loadpattern('P')
    api.set_nodal_load('P', 'B', 1., 2., 3.)
    api.add_static_case('c')
    api.add_case_pattern('c', 'P', 1.)
    api.assemble()
    api.solve_static('c')
    api.save('s')


def run(c, ctx):
    w = ctx.scratch()
    if c[0] in ('cut', 'fresh'):
        S = sessions()[c[1]]
        if c[1] not in _memo:
            api = real.Api(ctx.scratch())
            st = [getattr(api, o[0])(*o[1:]) for o in S[0]]
            _memo[c[1]] = (st, observe(ctx, api, S))
        st0, want = _memo[c[1]]
        api = real.Api(w)
        if c[0] == 'fresh':
            i = c[2][0]
            st = [getattr(api, o[0])(*o[1:]) for o in S[0][:i]]
            ctx.op(len(S[0]) + 1)
            ctx.check(api.save('s') is True, 'save-status', 'save failed')
            here = os.path.dirname(os.path.abspath(__file__))
            p = subprocess.run([sys.executable, '-W', 'ignore', '-c', ELSEWHERE, os.path.join(os.path.dirname(here), 'lib'), here, mc.REPO, w, str(c[1]), str(i)], timeout=150)
            try:
                more, got = pickle.load(open(w + '/answer', 'rb'))
            except Exception as e:
                ctx.check(False, 'elsewhere', 'session %d, saved after %d operations, does not continue in another process (%r, exit %d)' % (c[1], i, e, p.returncode))
                return
            ctx.check(st + more == st0, 'status-differs', lambda: 'session %d reports %r instead of %r when continued in another process after %d operations' % (c[1], st + more, st0, i))
            bad = [k for k in want if got.get(k) != want[k]]
            ctx.check(not bad and set(got) == set(want), 'continuation-differs',
                      lambda: 'session %d continued in another process after %d operations ends differently: %s' % (c[1], i, [(k, got.get(k), want[k]) for k in bad[:3]]))
            ctx.trace()
            ctx.state(c)
            ctx.outcome(c[1], i, 'fresh', sorted((repr(k), repr(v)) for k, v in got.items()))
            return
        old = None
        for i in range(len(S[0]) + 1):
            if i in c[2]:
                ctx.op(2)
                ctx.check(api.save('s') is True, 'save-status', 'save failed')
                if c[3] == 'other':
                    another_model(ctx)
                if c[3] in ('load', 'other'):
                    old = api
                    api = real.Api.load(w, 's')
                    if not ctx.check(isinstance(api, real.Api), 'load', 'a saved model does not load, session %d after %d operations' % (c[1], i)):
                        return
                    ctx.check(observe(ctx, api, S, False) == observe(ctx, old, S, False), 'loaded-differs', 'the loaded model differs from the saved one, session %d position %d' % (c[1], i))
            if i < len(S[0]):
                o = S[0][i]
                ctx.op()
                r = getattr(api, o[0])(*o[1:])
                ctx.check(r is st0[i], 'status-differs', lambda: '%r reports %r instead of %r after save/load at %r' % (o, r, st0[i], c[2]))
                if old is not None and i in c[2]:       # the object that was saved is not the loaded one
                    old.add_node('ghost', 1e3, 1e3, 1e3)
        got = observe(ctx, api, S)
        bad = [k for k in want if got.get(k) != want[k]]
        ctx.check(not bad and set(got) == set(want), 'continuation-differs',
                  lambda: 'session %d interrupted at %r (%s) ends differently: %s' % (c[1], c[2], c[3], [(k, got.get(k), want[k]) for k in bad[:3]]))
        ctx.trace()
        ctx.state(c)
        ctx.outcome(c[1], sorted((repr(k), repr(v)) for k, v in got.items()), c[2], c[3])
        return
    # histories over a store of two names
    api = real.Api(w)
    store, n, cur, xy = {}, 0, [], c[2]
    for k, e in enumerate(c[1]):
        ctx.op()
        if e < 2:
            ctx.check(api.save(xy[e]) is True, 'save-status', 'save failed in %r' % (c,))
            store[xy[e]] = list(cur)
        elif e == 2:
            n += 1
            ctx.check(api.add_node('n%d' % n, n, 0, 0) is True, 'edit', 'add_node failed')
            cur.append('n%d' % n)
        else:
            f = xy[e - 3]
            r = real.Api.load(w, f)
            if f in store:
                if not ctx.check(isinstance(r, real.Api), 'load', 'a saved model does not load in %r' % (c,)):
                    return
                api = r
                cur = list(store[f])
            else:
                ctx.check(r is None, 'load-missing', 'loading a name never saved returned %r' % (r,))
        ctx.check(list(api.get_node_names()) == cur, 'store-content', lambda: '%r: the model has %r, expected %r' % (c[1][:k + 1], api.get_node_names(), cur))
        ctx.state(k, sorted(store.items()), cur)
    ctx.check({x for x in os.listdir(w)} >= {f + '.sep' for f in store}, 'files', 'the saved file is not where it should be')
    ctx.trace()
    ctx.outcome(sorted(store.items()), cur)
