"""Names, creation order and member direction are labels: no permutation of them changes any result."""
import copy
import itertools as it
import numpy as np
import gen
import real

ID = 'P06'
LEVEL = 'model_checking'
RULE = """For frames of 4 nodes and 4-5 members: all 24 node creation orders x all member creation orders (rotations and
reversal in the quick tier, all in the thorough one), all 2^m member reversals (with loads and releases mirrored), all
24 assignments of names, six naming styles, and every interleaving order of members before/after later nodes; per node
displacements and reactions and per member end forces must equal those of the base model. A state is one relabelling."""
ASSUMPTIONS = ['reversing a member turns its local axes 1 and 3 around and keeps axis 2 for non-vertical and vertical members alike', 'relation between results of the code itself; agreement to 1e-7 of the largest value']
CHUNK = 4
NAMES = [['1', '2', '3', '4'], ['10', '9', '100', '1'], ['d', 'c', 'b', 'a'], ['x', 'X', ' x', 'x '], ['结点', 'é', '0', '-1'], ['A.B', 'A/B', 'A', 'A:B']]


def base(k):
    if k == 0:
        s = gen.graph_frame([(0, 1), (2, 1), (1, 3), (3, 0)], gen.P4, 0, {'A': gen.F6, 'C': gen.F6})
        s['beams']['m1']['rel'] = [False] * 5 + [True] + [False] * 6
        s['beams']['m2']['rel'] = [False] * 4 + [True, False] + [False] * 3 + [True, False, False]
    elif k == 1:
        s = gen.graph_frame([(0, 1), (1, 2), (2, 3), (0, 3), (0, 2)], gen.P4, 0, {'A': gen.PIN, 'B': gen.PIN, 'D': gen.PIN})
    else:
        pts = {'A': [0, 0, 0], 'B': [0, 0, 2.5], 'C': [3, 0.4, 2.5], 'D': [3, 0.4, 0]}
        s = gen.graph_frame([(0, 1), (1, 2), (2, 3), (3, 1)], pts, 0, {'A': gen.F6, 'D': [False, True, True, True, False, True]})
    nodes, beams = list(s['nodes']), list(s['beams'])
    s['patterns'] = {'P': {'node': {n: gen.FULL_NODE[i:] + gen.FULL_NODE[:i] for i, n in enumerate(nodes)},
                           'dist': {b: [x * (1 + 0.2 * i) for x in gen.FULL_DIST] for i, b in enumerate(beams)},
                           'conc': {b: [x * (1 - 0.2 * i) for x in gen.FULL_CONC[:6]] + [0.2 + 0.13 * i] for i, b in enumerate(beams) if i != 1}}}
    s['cases'] = {'c': {'pats': [['P', 1.0]]}}
    return s


def cases(tier):
    for k in range(3):
        m = len(base(k)['beams'])
        beams = list(range(m))
        bo = list(it.permutations(beams)) if tier != 'quick' else [tuple(beams[i:] + beams[:i]) for i in range(m)] + [tuple(beams[::-1])]
        for p in it.permutations(range(4)):
            for q in bo:
                yield ['order', k, list(p), list(q)]
        for r in range(1, 1 << m):
            for p in ((0, 1, 2, 3), (3, 1, 0, 2)):
                yield ['reverse', k, r, list(p)]
        for p in it.permutations(range(4)):
            yield ['names', k, list(p), 0]
        for st in range(len(NAMES)):
            for p in ((0, 1, 2, 3), (2, 3, 0, 1)):
                yield ['names', k, list(p), st]
        for q in it.permutations(range(m)) if tier != 'quick' else bo:
            yield ['inter', k, list(q)]
        for q in it.permutations(range(4)):
            yield ['loads', k, list(q)]


def flip6(e):
    """a local force vector after reversing: axes 1 and 3 turn around, axis 2 stays"""
    return np.array([-e[0], e[1], -e[2], -e[3], e[4], -e[5]])


def reversed_member(s, b):
    m = s['beams'][b]
    m['n'] = m['n'][::-1]
    if m.get('rel'):
        m['rel'] = m['rel'][6:] + m['rel'][:6]
    P = s['patterns']['P']
    if b in P['dist']:
        pi, pj, qi2, qj2, qi3, qj3, ti, tj = P['dist'][b]
        P['dist'][b] = [-pj, -pi, qj2, qi2, -qj3, -qi3, -tj, -ti]
    if b in P['conc']:
        F1, F2, F3, M1, M2, M3, r = P['conc'][b]
        P['conc'][b] = [-F1, F2, -F3, -M1, M2, -M3, 1 - r]


def solve(s, ctx, api=None):
    api = api or real.build_api(s, ctx.scratch(), ctx)
    ctx.op(2)
    if not ctx.check(api.assemble() is True and api.solve_static('c') is True, 'solve', 'assemble/solve failed'):
        return None
    d = api.result_get_all_nodal_displacement('c')
    if not ctx.check(isinstance(d, dict), 'query', 'no displacements'):
        return None
    return ({n: np.ravel(v) for n, v in d.items()},
            {n: np.ravel(api.result_get_nodal_reaction(n, 'c')) for n in s['nodes']},
            {b: np.ravel(api.result_get_beam_end_force(b, 'c')) for b in s['beams']})


_memo = {}


def run(c, ctx):
    k = c[1]
    s = base(k)
    if k not in _memo:
        _memo[k] = solve(s, ctx)
    u = _memo[k]
    if u is None:
        _memo.pop(k)
        return
    q = copy.deepcopy(s)
    nodes, beams = list(s['nodes']), list(s['beams'])
    rn = {n: n for n in nodes}
    rb = {b: b for b in beams}
    flip = set()
    api = None
    if c[0] == 'order':
        q['nodes'] = {nodes[i]: s['nodes'][nodes[i]] for i in c[2]}
        q['beams'] = {beams[i]: s['beams'][beams[i]] for i in c[3]}
    elif c[0] == 'reverse':
        q['nodes'] = {nodes[i]: s['nodes'][nodes[i]] for i in c[3]}
        for i, b in enumerate(beams):
            if c[2] >> i & 1:
                reversed_member(q, b)
                flip.add(b)
    elif c[0] == 'names':
        rn = {nodes[i]: NAMES[c[3]][c[2][i]] for i in range(4)}
        rb = {b: (NAMES[c[3]] + ['zz'])[(i + c[2][0]) % 4 if i < 4 else 4] for i, b in enumerate(beams)}
        P = s['patterns']['P']
        q = dict(nodes={rn[n]: v for n, v in s['nodes'].items()},
                 beams={rb[b]: dict(m, n=[rn[x] for x in m['n']]) for b, m in s['beams'].items()},
                 rest={rn[n]: v for n, v in s['rest'].items()}, cases=s['cases'],
                 patterns={'P': {'node': {rn[n]: v for n, v in P['node'].items()}, 'dist': {rb[b]: v for b, v in P['dist'].items()},
                                 'conc': {rb[b]: v for b, v in P['conc'].items()}}})
    elif c[0] == 'inter':       # members are created as soon as their nodes exist
        api = real.Api(ctx.scratch())
        done, st = set(), []
        for j, i in enumerate(c[2]):
            b = beams[i]
            m = s['beams'][b]
            for n in m['n']:
                if n not in done:
                    done.add(n)
                    st.append(api.add_node(n, *s['nodes'][n]))
                    if n in s['rest']:
                        st.append(api.set_nodal_restraint(n, *s['rest'][n]))
            E, mu, A, I2, I3, J, rho = m['sec']
            if m['kind'] == 'simple':
                st.append(api.add_simple_beam(b, *m['n'], E, mu, A, I2, I3, J, rho))
            else:
                st.append(api.add_isotropic_material('M' + b, rho, E, mu, 1e-5))
                st.append(api.add_beam_section_general('S' + b, 'M' + b, A, A, A, I2, I3, J, 1.0, 1.0))
                st.append(api.add_beam(b, *m['n'], 'S' + b))
            if m.get('rel'):
                st.append(api.set_beam_release(b, *m['rel']))
        st.append(api.add_loadpattern('P'))
        st += real.pattern_into(api, 'P', s['patterns']['P'])
        st.append(api.add_static_case('c'))
        st.append(api.add_case_pattern('c', 'P', 1.0))
        ctx.op(len(st))
        ctx.check(all(x is True for x in st), 'build-status', 'an operation failed: %r' % (st,))
    else:                       # loads entered in another order; restraints in another order
        P = s['patterns']['P']
        rot = lambda d: {list(d)[i % len(d)]: d[list(d)[i % len(d)]] for i in c[2]} if len(d) == 4 else dict(reversed(list(d.items())))
        q['patterns']['P'] = {kk: rot(P[kk]) for kk in ('conc', 'node', 'dist')}
        q['rest'] = dict(reversed(list(s['rest'].items())))
    w = solve(q, ctx, api)
    if w is None:
        return
    txt = lambda what: (lambda: '%s in relabelling %r' % (what, c))
    for j, (what, key) in enumerate((('displacement', 'displacement'), ('reaction', 'reaction'))):
        mt = max(np.max(np.abs(v[:3])) for v in u[j].values())
        mr = max([np.max(np.abs(v[3:])) for v in u[j].values()] + [0.1 * mt])
        for n in nodes:
            ctx.close(w[j][rn[n]][:3], u[j][n][:3], key, txt('%s of %s' % (what, n)), rel=1e-7, scale=mt)
            ctx.close(w[j][rn[n]][3:], u[j][n][3:], key, txt('%s (rotational) of %s' % (what, n)), rel=1e-7, scale=mr)
    me = max(np.max(np.abs(v)) for v in u[2].values())
    for b in beams:
        want = u[2][b]
        if b in flip:
            want = np.concatenate([flip6(want[6:]), flip6(want[:6])])
        ctx.close(w[2][rb[b]], want, 'end-force', txt('end forces of ' + b), rel=1e-7, scale=me)
    ctx.trace()
    ctx.state(c)
    ctx.outcome(c[0], k, c[2:], [float('%.4g' % x) for n in q['nodes'] for x in w[0][n]])
