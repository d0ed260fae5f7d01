"""Names are only names: calling the things of a model anything else changes nothing but the names."""
import itertools as it
import os
import shutil
import numpy as np
import exts
import gen
import mc
import real

ID = 'P27'
LEVEL = 'model_checking'
RULE = """A session (frame with two materials, two sections, releases and case supports, a shell wall in the larger session, two
load patterns, two static cases and a modal case) is run once with plain names; then for every kind of thing (node, material,
member section, shell section, member, shell, load pattern, case) two of that kind are given every ordered pair of a pool of
names (blanks at either end, letter case, digits, prefixes of each other, composed and decomposed letters, other scripts,
punctuation, format directives, words of the language, names of result files), and every pair is also given to all kinds at
once; larger scope: every pair of kinds. All statuses, all name queries, all results by name, the frequencies, and the content
of a saved and reloaded file must be those of the plain session with the names replaced. A state is one naming."""
ASSUMPTIONS = ['names of cases are usable as names of files (results are stored under them)', 'names are non-empty strings', 'results to 1e-9 of the largest of their kind']
CHUNK = 2
POOL = ['A', 'a', 'A ', ' A', 'AB', 'A.d', 'A.d.npy', '0', '1', '01', '1.0', 'None', '__class__', 'case', '节点', 'é', 'e\u0301', 'ß', 'ss',
        'A,B', "A'", '%s', '{0}', 'A\nB', 'A' * 90]
MORE = ['A.k', '-1', '1e0', 'True', 'nan', 'name', 'ſ', 's', 'A:B', 'A"', 'A#1', '~', '*', 'A\tB', 'A\\B', '.A', '..', 'I', 'i', 'ı', 'A\u00a0', '\ufeffA']
UNSAFE = ['a/b', '/a', 'A' * 900]          # not for cases
KINDS = ['node', 'material', 'section', 'plate', 'member', 'shell', 'pattern', 'case']
K = dict(n='node', m='material', s='section', w='plate', b='member', h='shell', p='pattern', c='case')
# a name is written kind letter + ':' + key
SEC = gen.SEC
FRAME = [('add_node', 'n:1', 0, 0, 0), ('add_node', 'n:2', 3, 0, .5), ('add_node', 'n:3', .5, 2, 0), ('add_node', 'n:4', 1, .5, 2.5),
         ('add_isotropic_material', 'm:1', 2.5, 2e4, .25, 1e-5), ('add_isotropic_material', 'm:2', 1.5, 1.1e4, .3, 1e-5),
         ('add_beam_section_general', 's:1', 'm:1', .3, .3, .3, .02, .05, .04, 1., 1.), ('add_beam_section_rectangle', 's:2', 'm:2', .5, .3),
         ('add_beam_section_pipe', 's:3', 'm:1', .5, .03),
         ('add_simple_beam', 'b:1', 'n:1', 'n:2') + tuple(gen.SEC2), ('add_beam', 'b:2', 'n:2', 'n:3', 's:1'), ('add_beam', 'b:3', 'n:4', 'n:2', 's:2'),
         ('add_simple_beam', 'b:4', 'n:3', 'n:4') + tuple(SEC), ('add_beam', 'b:5', 'n:1', 'n:4', 's:3'),
         ('set_beam_release', 'b:2', False, False, False, False, True, True), ('set_nodal_mass', 'n:2', 5, 6, 7, .1, .2, .3), ('set_nodal_mass', 'n:4', 2, 3, 4, .3, .2, .1),
         ('set_nodal_restraint', 'n:1') + (True,) * 6, ('set_nodal_restraint', 'n:3', True, False, True, False, True, False)]
WALL = [('add_shell_section', 'w:1', 'm:1', .2), ('add_shell_section', 'w:2', 'm:2', .1),
        ('add_shell', 'h:1', 'n:1', 'n:2', 'n:4', None, 'w:1'), ('add_shell', 'h:2', 'n:1', 'n:3', 'n:4', None, 'w:2')]
LOADS = [('add_loadpattern', 'p:1'), ('add_loadpattern', 'p:2'), ('add_loadpattern', 'p:3'),
         ('set_nodal_load', 'p:1', 'n:2', 1, -2, 3, -.5, .7, -.9), ('set_nodal_load', 'p:1', 'n:4', 0, 0, -4, 0, 0, 0), ('set_nodal_load', 'p:3', 'n:4', 1, 0, 2, 0, 0, 0),
         ('set_beam_load_distributed', 'p:2', 'b:1', .1, .2, 2, -.8, -1.5, .4, .3, .6), ('set_beam_load_concentrated', 'p:2', 'b:2', .5, 1, -2, .3, .2, -.1, .35),
         ('set_beam_load_distributed', 'p:1', 'b:3', .1, .2, 2, -.8, -1.5, .4),
         ('add_static_case', 'c:1'), ('add_case_pattern', 'c:1', 'p:1', 1.5), ('add_case_pattern', 'c:1', 'p:2', -2.),
         ('add_static_case', 'c:2'), ('add_case_pattern', 'c:2', 'p:2', 1.), ('add_case_pattern', 'c:2', 'p:3', .5), ('set_loadcase_nodal_restraint', 'c:2', 'n:4') + (True,) * 6,
         ('add_modal_case', 'c:3'),
         ('assemble',), ('solve_static', 'c:1'), ('solve_static', 'c:2'), ('solve_modal', 'c:3', 4)]
SESSIONS = {'frame': FRAME + LOADS, 'wall': FRAME + WALL + LOADS}


def prepare(tier, root):
    d = exts.build(mc.REPO)
    shutil.rmtree(d, ignore_errors=True)
    from hyperstatic.core.fe_model.element.quad import DKGQ     # noqa: F401
    from hyperstatic.core.fe_model.element.tria import DKT      # noqa: F401


def pool(kind, tier):
    return POOL + (UNSAFE if kind != 'case' else []) + (MORE if tier != 'quick' else [])


def cases(tier):
    for k in KINDS:
        for i in range(len(pool(k, tier))):
            yield ['one', k, i]
    for i in range(len(POOL)):
        yield ['all', '', i]
    if tier != 'quick':
        for a, b in it.combinations(KINDS, 2):
            for i in range(len(POOL)):
                yield ['two', a + ' ' + b, i]


def plain(x):
    return 'plain %s %s' % (K[x[0]], x[2:])


def run_session(ops, nm, path):
    api = real.Api(path)
    st = []
    for o in ops:
        st.append(getattr(api, o[0])(*[nm(x) if isinstance(x, str) else x for x in o[1:]]))
    return api, st


def names(ops):
    out = {}
    for o in ops:
        for x in o[1:]:
            if isinstance(x, str) and x not in out:
                out[x] = 1
    return list(out)


def listing(api, ops, back):
    """everything the queries report about the definition, with names translated back"""
    f = lambda s: back.get(s, ('?', s))
    al = names(ops)
    r = {'nodes': [f(('n', x)) for x in api.get_node_names()], 'members': [f(('b', x)) for x in api.get_beam_names()], 'shells': [f(('h', x)) for x in api.get_shell_names()],
         'supports': sorted((f(('n', k)), list(map(bool, v))) for k, v in api.get_node_restraints().items())}
    fwd = {v: k[1] for k, v in back.items()}
    r['where'] = [list(api.get_node_location(fwd[x])) for x in al if x[0] == 'n']
    r['ends'] = [[f(('n', y)) for y in api.get_beam_node_names(fwd[x])] for x in al if x[0] == 'b']
    r['corners'] = [[y and f(('n', y)) for y in api.get_shell_node_names(fwd[x])] for x in al if x[0] == 'h']
    r['loads'] = [sorted((f(('n', k)), [float(z) for z in v]) for k, v in api.get_all_nodal_load(fwd[x]).items()) for x in al if x[0] == 'p']
    return r


def results(api, ops, nm, path):
    al = names(ops)
    r = {}
    for c in ('c:1', 'c:2'):
        r[c, 'displacements'] = [api.result_get_nodal_displacement(nm(x), nm(c)) for x in al if x[0] == 'n']
        r[c, 'reactions'] = [api.result_get_nodal_reaction(nm(x), nm(c)) for x in ('n:1', 'n:2')[:2 if c == 'c:1' else 1]]
        r[c, 'end forces'] = [api.result_get_beam_end_force(nm(x), nm(c)) for x in ('b:1', 'b:2', 'b:3')]
        r[c, 'deformations'] = [api.result_get_beam_deformation(nm(x), .3, nm(c)) for x in ('b:1', 'b:2')]
        d = api.result_get_all_nodal_displacement(nm(c))
        r[c, 'all displacements'] = [d[nm(x)] for x in al if x[0] == 'n'] if isinstance(d, dict) else d
    r['omega'] = [np.sort(np.load(os.path.join(path, nm('c:3') + '.o.npy')))]
    return r


BASE = {}


def base(s, ctx):
    if s not in BASE:
        p = ctx.scratch()
        ops = SESSIONS[s]
        api, st = run_session(ops, plain, p)
        bad = [o for o, x in zip(ops, st) if x is False]
        if not ctx.check(not bad, 'plain', lambda: 'refused with plain names: %r' % bad[:3]):
            return None
        back = {(x[0], plain(x)): x for x in names(ops)}
        r = results(api, ops, plain, p)
        if not all(np.all(np.isfinite(np.array(v, dtype=float))) for v in r.values()):
            ctx.fail('plain', 'no finite results with plain names')
            return None
        BASE[s] = (st, listing(api, ops, back), r)
    return BASE[s]


def one(s, ren, what, ctx, light):
    ops = SESSIONS[s]
    b = base(s, ctx)
    if b is None:
        return
    nm = lambda x: ren.get(x) if x in ren else plain(x)
    p = ctx.scratch()
    api, st = run_session(ops, nm, p)
    ctx.op(len(ops))
    txt = lambda: '%s session with %s' % (s, what)
    bad = [o for o, x, y in zip(ops, st, b[0]) if x != y]
    if not ctx.check(not bad, 'status', lambda: txt() + ': refused: %r' % (bad[:3],)):
        return
    back = {(x[0], nm(x)): x for x in names(ops)}
    l = listing(api, ops, back)
    for k in b[1]:
        ctx.check(repr(l[k]) == repr(b[1][k]), 'query', lambda: '%s: %s are %r instead of %r' % (txt(), k, l[k], b[1][k]))
    r = results(api, ops, nm, p)
    for k, v in b[2].items():
        ctx.close(r[k], v, 'results', lambda: '%s: %s' % (txt(), k), rel=1e-9)
    if not light:
        if ctx.check(api.save('file') is True, 'save', lambda: txt() + ': not saved'):
            q = real.Api.load(p, 'file')
            if ctx.check(q is not None, 'save', lambda: txt() + ': not loaded'):
                l = listing(q, ops, back)
                for k in b[1]:
                    ctx.check(repr(l[k]) == repr(b[1][k]), 'query', lambda: '%s: after saving and loading %s are %r instead of %r' % (txt(), k, l[k], b[1][k]))
    ctx.state(s, sorted(ren.items()))
    ctx.trace()
    ctx.outcome([len(v) for v in ren.values()])
    shutil.rmtree(p, ignore_errors=True)


def run(c, ctx):
    mode, kinds, i = c
    ks = kinds.split() if kinds else KINDS
    P = pool(ks[0], ctx.tier) if mode == 'one' else POOL
    letter = {v: k for k, v in K.items()}
    first = True
    for j in range(len(P)):
        if i == j:
            continue
        ren = {}
        for k in ks:
            ren[letter[k] + ':1'], ren[letter[k] + ':2'] = P[i], P[j]
        s = 'wall' if mode == 'one' and ks[0] in ('plate', 'shell') or mode == 'all' and j < 6 else 'frame'
        one(s, ren, '%s named %r and %r' % (' and '.join(k + 's' for k in ks) if kinds else 'two of everything', P[i], P[j]), ctx, not first)
        first = False
