"""Requests that are refused, premature or beside the point leave every result of the analysis as it is."""
import itertools as it
import os
import shutil
import numpy as np
import exts
import gen
import mc
import real

ID = 'P26'
LEVEL = 'model_checking'
RULE = """Three complete analysis sessions (a frame with releases, two member kinds, two static cases with their own supports; a
frame with nodal masses and a modal case; a shell wall), each a history of requests from the empty model to the last solve. Into
every position of the history, one foreign request is inserted: each of an alphabet of impossible ones (unknown names, members
without length, collinear shells, unusable arguments, unreadable files, solves and queries of what does not exist), each later
request of the session itself (too early), and each of an alphabet of requests that concern nothing the session uses; or a query whose answer the caller then overwrites in place. Impossible
ones must report failure and not raise; then the session is completed and every reported result must equal that of the
undisturbed session. Pairs of foreign requests at pairs of positions for a reduced alphabet. A state is one disturbed history."""
ASSUMPTIONS = ['results are compared to 1e-9 of the largest value of their kind (the numbering may differ)',
               'a foreign request never changes an object the session has finished defining in another way than the session does']
CHUNK = 8


def prepare(tier, root):
    d = exts.build(mc.REPO)
    shutil.rmtree(d, ignore_errors=True)
    from hyperstatic.core.fe_model.element.quad import DKGQ     # noqa: F401
    from hyperstatic.core.fe_model.element.tria import DKT      # noqa: F401


def o(name, *a, **k):
    return [name, list(a), k]


E, MU, A_, I2, I3, J, RHO = gen.SEC
FRAME = [o('add_node', 'A', 0, 0, 0), o('add_node', 'B', 3, 0, .5), o('add_node', 'C', .5, 2, 0),
         o('add_isotropic_material', 'M', 2.5, 2e4, .25, 1e-5), o('add_beam_section_general', 'S', 'M', .3, .3, .3, .02, .05, .04, 1., 1.),
         o('add_beam_section_rectangle', 'R', 'M', .5, .3),
         o('add_node', 'D', 1, .5, 2.5),
         o('add_simple_beam', 'm', 'A', 'B', *gen.SEC2), o('add_beam', 'n', 'B', 'C', 'S'), o('add_beam', 'k', 'D', 'B', 'R'), o('add_simple_beam', 'l', 'C', 'D', *gen.SEC),
         o('set_beam_release', 'n', r3j=True, r2j=True),
         o('set_nodal_restraint', 'A', True, True, True, True, True, True), o('set_nodal_restraint', 'C', True, False, True, False, True, False),
         o('add_loadpattern', 'P'), o('add_loadpattern', 'Q'),
         o('set_nodal_load', 'P', 'B', 1, -2, 3, -.5, .7, -.9), o('set_nodal_load', 'P', 'D', f3=-4),
         o('set_beam_load_distributed', 'Q', 'm', .1, .2, 2, -.8, -1.5, .4, .3, .6), o('set_beam_load_concentrated', 'Q', 'n', .5, 1, -2, .3, .2, -.1, .35),
         o('add_static_case', 'c'), o('add_case_pattern', 'c', 'P', 1.5), o('add_case_pattern', 'c', 'Q', -2.),
         o('add_static_case', 'e'), o('add_case_pattern', 'e', 'Q', 1.), o('set_loadcase_nodal_restraint', 'e', 'D', True, True, True, True, True, True),
         o('assemble'), o('solve_static', 'c'), o('solve_static', 'e')]
MODAL = [o('add_node', 'A', 0, 0, 0), o('add_node', 'B', 0, 0, 3), o('add_node', 'C', 4, 0, 3), o('add_node', 'D', 4, 1, 0),
         o('add_simple_beam', 'm', 'A', 'B', *gen.SEC), o('add_simple_beam', 'n', 'B', 'C', *gen.SEC2), o('add_simple_beam', 'k', 'D', 'C', *gen.SEC),
         o('set_nodal_restraint', 'A', True, True, True, True, True, True), o('set_nodal_restraint', 'D', True, True, True, True, True, True),
         o('set_nodal_mass', 'B', 5, 6, 7, .1, .2, .3), o('set_nodal_mass', 'C', 4, 3, 2, .3, .1, .2),
         o('add_loadpattern', 'P'), o('set_nodal_load', 'P', 'B', 1, 2, 3),
         o('add_static_case', 'c'), o('add_case_pattern', 'c', 'P', 1.), o('add_modal_case', 'e'),
         o('assemble'), o('solve_modal', 'e', 4), o('solve_static', 'c')]
SHELL = [o('add_node', 'A', 0, 0, 0), o('add_node', 'B', 2, 0, 0), o('add_node', 'C', 2.2, 1.5, 0), o('add_node', 'D', 0, 1.3, 0), o('add_node', 'E', 1, 3, 0),
         o('add_isotropic_material', 'M', 2.5, 2e4, .25, 1e-5), o('add_shell_section', 'W', 'M', .2),
         o('add_shell', 'm', 'A', 'B', 'C', 'D', 'W'), o('add_shell', 'n', 'D', 'C', 'E', None, 'W'),
         o('set_nodal_restraint', 'A', True, True, True, True, True, True), o('set_nodal_restraint', 'B', True, True, True, True, True, True),
         *[o('set_nodal_restraint', n, r3=True) for n in 'CDE'],
         o('add_loadpattern', 'P'), o('set_nodal_load', 'P', 'E', 1, 2, 3), o('set_nodal_load', 'P', 'D', -1, .5, 1, .1, .2),
         o('add_static_case', 'c'), o('add_case_pattern', 'c', 'P', 1.),
         o('assemble'), o('solve_static', 'c')]
BASES = [FRAME, MODAL, SHELL]

# impossible whatever has been defined
IMPOSSIBLE = [o('add_simple_beam', 'm', 'A', 'zz', *gen.SEC), o('add_simple_beam', 'm', 'zz', 'A', *gen.SEC), o('add_simple_beam', 'x', 'B', 'zz', *gen.SEC),
              o('add_simple_beam', 'm', 'A', 'A', *gen.SEC), o('add_simple_beam', 'x', 'B', 'B', *gen.SEC),
              o('add_beam', 'n', 'B', 'C', 'zz'), o('add_beam', 'm', 'zz', 'B', 'S'), o('add_beam', 'k', 'B', 'B', 'S'), o('add_beam', 'x', 'A', 'C', 'zz'),
              o('add_beam_section_general', 'S', 'zz', .9, .3, .3, .02, .05, .04, 1., 1.), o('add_beam_section_rectangle', 'R', 'zz', .7, .3),
              o('add_beam_section_I', 'S', 'zz', .5, .3, .02, .03), o('add_beam_section_box', 'S', 'zz', .5, .3, .02, .03), o('add_beam_section_circle', 'S', 'zz', .5),
              o('add_beam_section_pipe', 'R', 'zz', .5, .1), o('add_shell_section', 'W', 'zz', .9),
              o('add_shell', 'm', 'A', 'B', 'C', 'zz', 'W'), o('add_shell', 'm', 'A', 'B', 'C', 'D', 'zz'), o('add_shell', 'x', 'A', 'B', 'zz', None, 'W'), o('add_shell', 'n', 'A', 'A', 'B', None, 'W'), o('add_shell', 'x', 'A', 'B', 'B', 'D', 'W'),
              o('set_beam_release', 'zz', True), o('set_nodal_restraint', 'zz', True, True, True), o('set_nodal_mass', 'zz', 1, 1, 1, 1, 1, 1),
              o('set_nodal_load', 'zz', 'B', 9), o('set_beam_load_distributed', 'zz', 'm', 9), o('set_beam_load_concentrated', 'zz', 'm', 9),
              o('set_loadcase_nodal_restraint', 'zz', 'A', True), o('add_case_pattern', 'zz', 'P', 3.), o('add_case_pattern', 'c', 'zz', 3.), o('add_case_pattern', 'e', 'zz', 0.),
              o('add_node', 'B', 'far', 0, 0), o('add_node', 'x', None, 1, 2), o('solve_static', 'zz'), o('solve_modal', 'zz', 2),
              o('save', os.path.join('no', 'such', 'place'))]
QUERIES = [o('get_node_location', 'zz'), o('get_beam_node_names', 'zz'), o('get_beam_location', 'zz'), o('get_shell_node_names', 'zz'), o('get_shell_location', 'zz'),
           o('get_nodal_load', 'zz', 'A'), o('get_nodal_load', 'P', 'zz'), o('get_all_nodal_load', 'zz'), o('get_node_restraints', 'zz'),
           o('result_get_nodal_displacement', 'zz', 'c'), o('result_get_nodal_displacement', 'A', 'zz'), o('result_get_nodal_reaction', 'zz', 'c'), o('result_get_nodal_reaction', 'A', 'zz'),
           o('result_get_all_nodal_displacement', 'zz'), o('result_get_beam_end_force', 'zz', 'c'), o('result_get_beam_end_force', 'm', 'zz'), o('result_get_beam_deformation', 'zz', .5, 'c'),
           o('result_get_beam_deformation', 'm', .5, 'zz')]
# nothing the session uses
BESIDE = [o('add_isotropic_material', 'M9', 1., 5., .1, 0.), o('add_loadpattern', 'P9'), o('add_static_case', 'c9'), o('add_modal_case', 'c9'),
          o('set_nodal_load', 'P', 'zz', 9, 9, 9), o('set_beam_load_distributed', 'P', 'zz', 9, 9), o('set_beam_load_concentrated', 'P', 'zz', 9, 9),
          o('add_beam_section_circle', 'S9', 'M', .7), o('add_shell_section', 'W9', 'M', .7), o('get_node_names'), o('get_beam_names'), o('get_shell_names'),
          o('get_node_restraints'), o('save', 'kept'), o('assemble'), o('get_all_nodal_load', 'P')]
# with several steps
BESIDE2 = [[o('add_loadpattern', 'P9'), o('set_nodal_load', 'P9', 'B', 9, 9, 9, 9, 9, 9), o('set_beam_load_distributed', 'P9', 'm', 5, 5, 5, 5, 5, 5, 5, 5)],
           [o('add_static_case', 'c9'), o('add_case_pattern', 'c9', 'P', 7.), o('set_loadcase_nodal_restraint', 'c9', 'A', True, True, True, True, True, True)],
           [o('add_static_case', 'c9'), o('add_case_pattern', 'c9', 'P', 7.), o('assemble'), o('solve_static', 'c9')],
           [o('add_modal_case', 'c9'), o('assemble'), o('solve_modal', 'c9', 2)],
           [o('add_isotropic_material', 'M9', 9., 5e6, .4, 1.), o('add_beam_section_rectangle', 'S9', 'M9', 2., 1.), o('add_shell_section', 'W9', 'M9', 3.)],
           [o('assemble'), o('solve_static', 'c')]]


def cases(tier):
    for b, H in enumerate(BASES):
        for p in range(len(H) + 1):
            yield ['imp', b, p]
            yield ['early', b, p]
            yield ['beside', b, p]
            if tier != 'quick' or p % 3 == len(H) % 3:
                yield ['scribble', b, p]
    red = [0, 3, 5, 9, 17, 21, 27, 28, 30, 32]
    for b, H in enumerate(BASES):
        pp = range(0, len(H) + 1, 4 if tier == 'quick' else 2)
        for p, q in it.combinations_with_replacement(pp, 2):
            yield ['pairs', b, p, q, red if tier != 'quick' else red[::2]]


def scribble(v):
    """what a query handed out belongs to the caller"""
    if isinstance(v, dict):
        for x in list(v.values()):
            scribble(x)
        v.clear()
    elif isinstance(v, (list, tuple)):
        for x in v:
            scribble(x)
        if isinstance(v, list):
            v.clear()
    elif isinstance(v, np.ndarray):
        try:
            v[...] = ~v if v.dtype == bool else 1e6
        except ValueError:      # handed out read-only
            pass


def queries(b):
    q = [o('get_node_names'), o('get_beam_names'), o('get_shell_names'), o('get_node_restraints'), o('get_node_restraints', 'c'), o('get_node_restraints', 'e')]
    for n in 'ABCDE':
        q += [o('get_node_location', n), o('get_nodal_load', 'P', n), o('result_get_nodal_displacement', n, 'c'), o('result_get_nodal_reaction', n, 'c')]
    for p in 'PQ':
        q.append(o('get_all_nodal_load', p))
    for m in 'mnkl':
        q += [o('get_beam_node_names', m), o('get_beam_location', m), o('get_shell_node_names', m), o('get_shell_location', m), o('result_get_beam_end_force', m, 'c'), o('result_get_beam_deformation', m, .5, 'c')]
    return q + [o('result_get_all_nodal_displacement', 'c')]


def call(api, op, ctx):
    ctx.op()
    return getattr(api, op[0])(*op[1], **op[2])


def results(api, b, work, ctx):
    r = {}
    ctx.op(10)
    for c in ('c', 'e'):
        if not (b == 1 and c == 'e') and not (b == 2 and c == 'e'):
            for n in 'ABCDE' if b == 2 else 'ABCD':
                r['d', c, n] = api.result_get_nodal_displacement(n, c)
                r['R', c, n] = api.result_get_nodal_reaction(n, c)
            if b != 2:
                for m in 'mnk' if b else 'mnkl':
                    r['F', c, m] = api.result_get_beam_end_force(m, c)
                    r['u', c, m] = api.result_get_beam_deformation(m, .3, c)
    if b == 1:
        s = real.StructureResultResolver(work, '.asb' if os.path.exists(os.path.join(work, '.asb')) else 'x.asb')
        r['T'] = np.ravel(s.resolve_modal_frequency('e')['T'])
        q = real.NodeResultResolver(work, '.asb' if os.path.exists(os.path.join(work, '.asb')) else 'x.asb')
        for n in 'BC':
            v = np.array([np.ravel(q.resolve_nodal_displacement(n, 'e', k + 1)) for k in range(4)])
            r['f', n] = np.abs(v)      # modes have no sign
    return r


_CACHE = {}


def undisturbed(b, ctx):
    if b not in _CACHE:
        w = ctx.scratch()
        api = real.Api(w)
        for op in BASES[b]:
            if call(api, op, ctx) is not True:
                ctx.fail('base', 'session %d: %r reported failure' % (b, op))
        _CACHE[b] = results(api, b, w, ctx)
    return _CACHE[b]


def same(ctx, got, want, t):
    big = {}
    for k, v in want.items():
        if not ctx.check(v is not None, 'no-result', lambda: 'no result %r in the undisturbed session' % (k,)):
            return
        big[k[0]] = max(big.get(k[0], 0.0), float(np.max(np.abs(np.asarray(v, float)))))
    for k, v in want.items():
        if not ctx.check(got[k] is not None, 'result-missing', lambda: 'no result %r %s' % (k, t())):
            return
        if not ctx.close(np.ravel(got[k]), np.ravel(v), 'result:' + str(k[0]), lambda: 'result %r %s' % (k, t()), rel=1e-7 if k[0] in 'fT' else 1e-8, scale=big[k[0]]):
            return


def session(b, ins, ctx, refused, t, scrib=False):
    """ins: {position: [requests]}"""
    w = ctx.scratch()
    api = real.Api(w)
    H = BASES[b]
    for i in range(len(H) + 1):
        for op in ins.get(i, ()):
            try:
                s = call(api, op, ctx)
            except Exception as e:
                ctx.fail('raised:' + op[0], '%s: %s' % (t(), e))
                continue
            if scrib:
                scribble(s)
            if refused:
                ctx.check(s is False or s is None, 'accepted:' + op[0], lambda: '%r reported %r %s' % (op, s, t()))
        if i < len(H):
            s = call(api, H[i], ctx)
            ctx.check(s is True, 'refused', lambda: '%r of the session reported %r %s' % (H[i], s, t()))
    same(ctx, results(api, b, w, ctx), undisturbed(b, ctx), t)
    ctx.cleanup()


def run(c, ctx):
    kind, b, p = c[:3]
    H = BASES[b]
    if kind == 'pairs':
        for i, j in it.product(c[4], repeat=2):
            x, y = IMPOSSIBLE[i], IMPOSSIBLE[j]
            ins = {p: [x], c[3]: [y]} if p != c[3] else {p: [x, y]}
            session(b, ins, ctx, True, lambda: 'session %d, %r before step %d and %r before step %d' % (b, x[:2], p, y[:2], c[3]))
            ctx.state(('pairs', b, p, c[3], i, j))
        ctx.trace()
        return
    if kind == 'imp':
        L = [([x], True) for x in IMPOSSIBLE] + [(QUERIES, True)]
    elif kind == 'scribble':
        for q in queries(b):
            session(b, {i: [q] for i in ([p, len(H)] if p < len(H) else [p])}, ctx, False, lambda: 'session %d, the answer to %r before step %d and at the end overwritten by the caller' % (b, q[:2], p), True)
            ctx.state((kind, b, p, tuple(map(str, q))))
        ctx.trace()
        return
    elif kind == 'early':
        L = [([x], False) for x in H[p + 1:]]
    else:
        L = [([x], False) for x in BESIDE] + [(x, False) for x in BESIDE2]
    for q, (x, r) in enumerate(L):
        session(b, {p: x}, ctx, r, lambda: 'session %d, before step %d: %r' % (b, p, [y[:2] for y in x]))
        ctx.state((kind, b, p, q))
    ctx.outcome((kind, b, len(L)))
    ctx.trace()
