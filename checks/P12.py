"""Workspace histories: editing, assembling and solving in any order; results always belong to one consistent model."""
import copy
import itertools as it
import numpy as np
import gen
import ref as refm
import real

ID = 'P12'
LEVEL = 'model_checking'
RULE = """Every history up to the depth bound (3, and 4 with a final assemble or solve; 5 in the thorough tier) over {change load, grow the model, change supports,
change releases, redefine a case, add a case, assemble, solve c, solve d, solve k, solve the modal case} - cases named alike - from a model
never assembled and from a solved one, up to depth 3 also with all results looked at after every operation - is executed on the real Api and compared with a reference in which assembling
takes a snapshot and solving stores results of the snapshot: statuses after every operation, and at the end displacements,
reactions and end forces of every case (independent frame oracle). Plus every interleaving up to depth 5 (6) of
{edit, assemble, solve} of two sessions with equal names in separate directories. A state is one reference content."""
ASSUMPTIONS = ['between assembling a changed model and solving a case again only its displacements are compared (they stay those of the last solution)',
               'sessions do not share a work directory']
CHUNK = 24
OPS = 'LGRXDKAcdke'
NAME = {'c': 'c', 'd': 'c.1', 'k': 'c.d', 'e': 'c.1.d'}      # dotted names that begin alike


class Ref:
    def __init__(self):
        s = gen.graph_frame([(0, 1), (2, 1), (1, 3)], gen.P4, 0b010, {'A': gen.F6, 'C': gen.F6, 'D': gen.F6})
        s['patterns'] = {'P': {'node': {'B': list(gen.FULL_NODE)}, 'dist': {'m0': list(gen.FULL_DIST)}}, 'Q': {'node': {'B': gen.FULL_NODE[::-1]}, 'conc': {'m2': list(gen.FULL_CONC)}}}
        s['cases'] = {NAME['c']: {'pats': [['P', 1.5]]}, NAME['d']: {'pats': [['Q', -1.0], ['P', 0.5]], 'rest': {'A': gen.F6, 'C': gen.F6}}}
        self.s = s
        self.modal = True
        self.n = {}
        self.snap = None
        self.res = {}       # case -> (snapshot key, snapshot, fresh)

    def key(self):
        return repr(sorted(self.n.items()))


_memo = {}


def oracle(s, key, case):
    k = (key, case)
    if k not in _memo:
        if len(_memo) > 3000:
            _memo.clear()
        F = refm.Frame(s)
        r = F.solve(case)
        assert r is not None and F.supported, k
        _memo[k] = (r, F)
    return _memo[k]


def start(work):
    r = Ref()
    api = real.build_api(r.s, work)
    api.add_modal_case(NAME['e'])
    return api, r


def apply(api, r, o):
    """returns (status, expected status)"""
    s, n = r.s, r.n
    n[o] = n.get(o, 0) + (o not in 'Acdke')
    if o == 'L':
        v = [x * (1 + n['L']) for x in gen.FULL_NODE]
        s['patterns']['P']['node']['B'] = v
        return api.set_nodal_load('P', 'B', *v), True
    if o == 'G':
        g = 'G%d' % n['G']
        p = [4.0 + n['G'], 1.0, 2.0 - n['G']]
        s['nodes'][g] = p
        s['beams']['b' + g] = {'n': [g, 'B'], 'sec': gen.SEC, 'kind': 'simple'}
        s['patterns']['Q']['node'][g] = gen.FULL_NODE
        a = api.add_node(g, *p)
        E, mu, A, I2, I3, J, rho = gen.SEC
        b = api.add_simple_beam('b' + g, g, 'B', E, mu, A, I2, I3, J, rho)
        return a is True and b is True and api.set_nodal_load('Q', g, *gen.FULL_NODE), True
    if o == 'R':
        v = gen.PIN if n['R'] % 2 else gen.F6
        s['rest']['D'] = v
        return api.set_nodal_restraint('D', *v), True
    if o == 'X':
        v = [False] * 4 + [bool(n['X'] % 2), True] + [False] * 6
        s['beams']['m0']['rel'] = v
        return api.set_beam_release('m0', *v), True
    if o == 'D':
        f = 2.0 + n['D']
        s['cases'][NAME['d']] = {'pats': [['Q', f]]}
        return api.add_static_case(NAME['d']) is True and api.add_case_pattern(NAME['d'], 'Q', f), True
    if o == 'K':
        f = -3.0 * n['K']
        s['cases'][NAME['k']] = {'pats': [['P', f]]}
        return api.add_static_case(NAME['k']) is True and api.add_case_pattern(NAME['k'], 'P', f), True
    if o == 'A':
        st = api.assemble()
        r.snap = (r.key(), copy.deepcopy(s))
        for c in r.res:
            r.res[c] = r.res[c][:2] + (r.res[c][0] == r.snap[0],)
        return st, True
    if o == 'e':
        return api.solve_modal(NAME['e'], 2), r.snap is not None
    o = NAME[o]
    ok = r.snap is not None and o in r.snap[1]['cases']
    st = api.solve_static(o)
    if ok:
        r.res[o] = (r.snap[0], r.snap[1], True)
    return st, ok


def compare(ctx, api, r, h):
    for c in (NAME[x] for x in 'cdk'):
        names = list(r.s['nodes'])
        if c not in r.res:
            ctx.check(api.result_get_nodal_displacement('B', c) is None, 'results-of-unsolved', lambda: '%s: displacements are reported for case %s although it was never solved' % (h, c))
            ctx.check(api.result_get_beam_end_force('m0', c) is None and api.result_get_nodal_reaction('A', c) is None, 'results-of-unsolved', lambda: '%s: forces are reported for case %s although it was never solved' % (h, c))
            continue
        key, s, fresh = r.res[c]
        o, F = oracle(s, key, c)
        g = [api.result_get_nodal_displacement(n, c) for n in s['nodes']]
        if not ctx.check(all(x is not None for x in g), 'no-results', lambda: '%s: no displacements for solved case %s' % (h, c)):
            continue
        real.close_disp(ctx, np.concatenate([np.ravel(x) for x in g]), o['d'], 'displacement', lambda: '%s: displacements of case %s' % (h, c))
        if fresh:
            sf = max(np.max(np.abs(o['f'])), np.max(np.abs(o['reac'])))
            ctx.close(np.concatenate([np.ravel(api.result_get_nodal_reaction(n, c)) for n in s['nodes']]), o['reac'], 'reaction', lambda: '%s: reactions of case %s' % (h, c), scale=sf)
            for b in s['beams']:
                ctx.close(np.ravel(api.result_get_beam_end_force(b, c)), o['ends'][b], 'end-force', lambda: '%s: end forces of %s in case %s' % (h, b, c), scale=sf)
        for n in names:
            if n not in s['nodes'] and fresh:
                v = api.result_get_nodal_displacement(n, c)
                ctx.check(v is None or np.size(v) == 0, 'results-of-new-node', lambda: '%s: node %s did not exist when %s was solved but has displacements %r' % (h, n, c, v))


def cases(tier):
    depth = 4 if tier == 'quick' else 5
    for n in range(1, depth + 1):
        for h in it.product(OPS, repeat=n):
            if n >= 2 and not any(o in 'Acdke' for o in h):
                continue
            if n < depth:
                yield ['one', ''.join(h)]
            if n < depth or h[-1] in 'Acdk':
                yield ['pre', ''.join(h)]
            if n <= depth - 1 and n > 1:
                yield ['watch', ''.join(h)]
    depth = 5 if tier == 'quick' else 6
    for n in range(1, depth + 1):
        for h in it.product('LAcMBd', repeat=n):
            if h[0] in 'LAc':
                yield ['two', ''.join(h)]


def run(c, ctx):
    if c[0] != 'two':
        api, r = start(ctx.scratch())
        h = ('AcdLA' if c[0] == 'pre' else 'Acd' if c[0] == 'watch' else '') + c[1]
        for k, o in enumerate(h):
            ctx.op()
            got, want = apply(api, r, o)
            ctx.check(got is want, 'status', lambda: '%s: operation %d (%s) reports %r, expected %r' % (h, k, o, got, want))
            if c[0] == 'watch' and 2 <= k < len(h) - 1:
                compare(ctx, api, r, '%s, after operation %d' % (h, k))
        ctx.op(10)
        compare(ctx, api, r, h)
        ctx.trace()
        ctx.state(c[0], r.key(), r.snap and r.snap[0], sorted((k, v[0], v[2]) for k, v in r.res.items()))
        ctx.outcome(r.key(), sorted((k, v[0], v[2]) for k, v in r.res.items()))
        return
    S = [start(ctx.scratch()), start(ctx.scratch())]
    # the second session has a different model under the same names
    api, r = S[1]
    for o in 'RLL':
        apply(api, r, o)
    mp = {'L': (0, 'L'), 'A': (0, 'A'), 'c': (0, 'c'), 'M': (1, 'G'), 'B': (1, 'A'), 'd': (1, 'c')}
    for k, x in enumerate(c[1]):
        w, o = mp[x]
        ctx.op()
        got, want = apply(*S[w], o)
        ctx.check(got is want, 'status:two', lambda: '%s: operation %d reports %r, expected %r' % (c[1], k, got, want))
    for w in (0, 1):
        compare(ctx, *S[w], 'two sessions %s, session %d' % (c[1], w))
    ctx.trace()
    ctx.state('two', [(r.key(), r.snap and r.snap[0], sorted((k, v[0], v[2]) for k, v in r.res.items())) for _, r in S])
