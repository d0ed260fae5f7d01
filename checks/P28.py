"""Models in one process do not influence one another: preemptive interleavings of two sessions."""
import gc
import itertools as it
import os
import pickle
import shutil
import sys
import tempfile
import threading
import numpy as np
import exts
import gen
import mc
import real
from hyperstatic.common.csys import Cartesian
from hyperstatic.app.seismic.wave2spec import wave2spectrum, fft2spec

ID = 'P28'
LEVEL = 'model_checking'
RULE = """Six kinds of session (frame and shell under names of its variant; frame with releases, case supports, static and modal case through the interface; mass model
integrated over time; shell wall; element and section objects, axes and assembly queried directly; record spectra), each in two
variants that use the same names for other values, run in separate directories of one process under a controlled scheduler:
(A) one preemption at line granularity: at every line of the code under test that a request of the first session executes (the
first three times in the request that runs it first, once for sessions of different kinds; up to five times in every request in the thorough tier) the whole second session runs, then the first
continues; (B) two preemptions: the first session stops at a line of a function, the second runs up to a line of the same
function, the first runs to its end, the second resumes - every line with itself and the next one (thorough tier: every pair); (C) every interleaving of the two sessions cut
into four blocks each (six in the thorough tier); (D) sessions one after the other, eight (24) in a row of every pattern of two
variants up to length 3, each dropped and its memory freed before the next begins, in the same directory or another. Every reported status and result of both sessions must equal that of the session alone. A state is one
schedule."""
ASSUMPTIONS = ['switches happen between lines of the Python code (no switch inside a library call)', 'each session has a working directory of its own',
               'results to 1e-10 of the largest of their kind']
CHUNK = 1
PARTS = 4
CASE_LIMIT = 800.0


def prepare(tier, root):
    d = exts.build(mc.REPO)
    shutil.rmtree(d, ignore_errors=True)
    from hyperstatic.core.fe_model.element.quad import DKGQ     # noqa: F401
    from hyperstatic.core.fe_model.element.tria import DKT      # noqa: F401
    for kind in KINDS:
        for v in (0, 1):
            ALONE[kind, v] = in_child(kind, v, root)


def in_child(kind, v, root):
    """the results of a session in a process that has run nothing else"""
    f = os.path.join(root, 'alone-%s-%d' % (kind, v))
    pid = os.fork()
    if not pid:
        try:
            mc.quiet_process()
            d = tempfile.mkdtemp(dir=root)
            os.chdir(d)
            s = Session(kind, v, 'alone')
            s.all()
            with open(f, 'wb') as g:
                pickle.dump(s.out, g)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    try:
        with open(f, 'rb') as g:
            return pickle.load(g)
    except Exception as e:
        return [['raised in a process of its own: no results (%s)' % e]]


# ---- sessions: a list of six blocks of requests; a request is a function of the session's own state
def frame(v, path):
    f = 1.0 + 0.7 * v
    e = {}

    def A(name, *a, **k):
        return lambda: getattr(e['api'], name)(*a, **k)
    def new():
        e['api'] = real.Api(path)
    b0 = [new, A('add_node', 'A', 0, 0, 0), A('add_node', 'B', 3 * f, 0, .5), A('add_node', 'C', .5, 2, v),
          A('add_isotropic_material', 'M', 2.5, 2e4 * f, .25, 1e-5), A('add_beam_section_rectangle', 'S', 'M', .5, .3 * f)]
    b1 = [A('add_simple_beam', 'm', 'A', 'B', *gen.SEC2), A('add_beam', 'n', 'B', 'C', 'S') if not v else A('add_beam', 'n', 'C', 'B', 'S'), A('set_beam_release', 'n', r3j=not v, r2j=True),
          A('set_nodal_restraint', 'A', *[True] * 6), A('set_nodal_restraint', 'C', True, bool(v), True, False, True, False), A('set_nodal_mass', 'B', 5 * f, 6, 7, .1, .2, .3), A('set_nodal_mass', 'C', 1, 2, 3 * f, .3, .3, .2)]
    b2 = [A('add_loadpattern', 'P'), A('add_loadpattern', 'Q'), A('set_nodal_load', 'P', 'B', 1, -2 * f, 3, -.5, .7, -.9),
          A('set_beam_load_distributed', 'Q', 'm', .1, .2, 2, -.8, -1.5 * f, .4, .3, .6), A('set_beam_load_concentrated', 'Q', 'n', .5, 1 * f, -2, .3, .2, -.1, .35),
          A('add_static_case', 'c'), A('add_case_pattern', 'c', 'P', 1.5), A('add_case_pattern', 'c', 'Q', -2. * f), A('set_loadcase_nodal_restraint', 'c', 'A', *[True] * 6),
          A('set_loadcase_nodal_restraint', 'c', 'C', True, True, True, False, False, bool(v)), A('add_modal_case', 'e')]
    b3 = [A('assemble'), A('save', 'file')]
    b4 = [A('solve_static', 'c'), A('solve_modal', 'e', 2)]
    b5 = [A('result_get_all_nodal_displacement', 'c'), A('result_get_nodal_reaction', 'A', 'c'), A('result_get_beam_end_force', 'n', 'c'), A('result_get_beam_deformation', 'm', .3, 'c'),
          A('get_node_restraints'), A('get_all_nodal_load', 'P'), A('get_beam_location', 'n'),
          lambda: np.sort(np.load(os.path.join(path, 'e.o.npy'))), lambda: real.Api.load(path, 'file').get_node_names()]
    return [b0, b1, b2, b3, b4, b5]


def history(v, path):
    f = 1.0 + 0.7 * v
    e = {}

    def new():
        e['m'] = real.Model()
    def nodes():
        m = e['m']
        m.add_node('A', 0, 0, 0)
        m.add_node('B', 2 * f, 1, 0)
        m.add_isotropic_material('M', 2.5, 2e2, .25, 1e-5)
        m.add_beam_section_circle('S', 'M', .3 * f)
    def members():
        m = e['m']
        m.add_beam('b', 'A', 'B', 'S')
        m.set_nodal_restraint('A', *[True] * 6)
        m.set_nodal_mass('B', 5, 6, 7, 1 * f, 2, 3)
    def load():
        p = real.LoadPattern('P')
        p.set_nodal_load('B', 1, 2, 3 * f, 0, .5, .2)
        q = real.LoadPattern('Q')
        q.set_beam_load_dist('b', *gen.FULL_DIST) if hasattr(q, 'set_beam_load_dist') else None
        c = real.TimeHistoryCase('t')
        c.add_pattern(p, 1.5 * f, np.array([[0., .1, .2, .3], [1., -1. * f, .5, 2.]]))
        c.use_direct_time_integration(.1, .03)
        e['c'] = c
    def asm():
        os.makedirs(path, exist_ok=True)
        a = real.Assembly(e['m'], [e['c']])
        a.save(path, 'x.asb')
    def solve():
        real.TimeHistorySolver(path, 'x.asb').solve('t')
    def res(s):
        def g():
            r, b = real.NodeResultResolver(path, 'x.asb'), real.BeamResultResolver(path, 'x.asb')
            return [r.resolve_nodal_displacement('B', 't', s), np.ravel(r.resolve_nodal_reaction('A', 't', s)), np.ravel(b.resolve_beam_end_force('b', 't', s))]
        return g
    return [[new, nodes], [members], [load], [asm], [solve], [res(1), res(3), res(5)]]


def wall(v, path):
    f = 1.0 + 0.4 * v
    e = {}

    def A(name, *a, **k):
        return lambda: getattr(e['api'], name)(*a, **k)
    def new():
        e['api'] = real.Api(path)
    b0 = [new, A('add_node', 'A', 0, 0, 0), A('add_node', 'B', 2 * f, 0, 0), A('add_node', 'C', 2.2 * f, 1.5, .2 * v), A('add_node', 'D', 0, 1.3, .1 * v), A('add_node', 'E', 1, 3 * f, 0)]
    b1 = [A('add_isotropic_material', 'M', 2.5, 2e4, .25 - .05 * v, 1e-5), A('add_shell_section', 'W', 'M', .2 * f), A('add_shell', 'm', 'A', 'B', 'C', None, 'W'), A('add_shell', 'n', 'A', 'C', 'D', None, 'W'),
          A('add_shell', 'k', 'D', 'C', 'E', None, 'W'), A('add_simple_beam', 'b', 'D', 'E', *gen.SEC)]
    b2 = [A('set_nodal_restraint', 'A', *[True] * 6), A('set_nodal_restraint', 'B', *[True] * 6)] + [A('set_nodal_restraint', n, r3=True) for n in 'CDE'] + [
        A('add_loadpattern', 'P'), A('set_nodal_load', 'P', 'E', 1, 2 * f, 3), A('add_static_case', 'c'), A('add_case_pattern', 'c', 'P', f)]
    return [b0, b1, b2, [A('assemble')], [A('solve_static', 'c')], [A('result_get_all_nodal_displacement', 'c'), A('result_get_nodal_reaction', 'A', 'c'), A('get_shell_location', 'k')]]


def objects(v, path):
    f = 1.0 + 0.7 * v
    e = {}

    def new():
        m = e['m'] = real.Model()
        for i, n in enumerate('ABC'):
            m.add_node(n, i * f, .5 * i * i, v)
    def axes():
        c = Cartesian((0, 0, v), (1, f, 0), (0, 1, v))
        r = [np.array(c.transform_matrix)]
        c.rotate_about_x(.3 * f)
        c.rotate_about_z(.2)
        return r + [np.array(c.transform_matrix)]
    def members():
        m = e['m']
        m.add_simple_beam('a', 'A', 'B', *gen.SEC)
        m.add_simple_beam('b', 'C', 'B', *gen.SEC2)
        m.set_beam_rotation('a', 20. * f)
        m.set_beam_releases('a', r3i=True, r2j=bool(v))
        m.set_nodal_restraint('A', *[True] * 6)
        m.set_nodal_restraint('C', *[True] * 6)
    def load():
        p = real.LoadPattern('P')
        p.set_nodal_load('B', 1, 2, 3 * f, 0, .5, .2)
        c = real.StaticCase('c')
        c.add_pattern(p, 1.5 * f)
        e['c'] = c
    def asm():
        e['a'] = real.Assembly(e['m'], [e['c']])
    def mat():
        m = e['m']
        return [np.asarray(x.todense() if hasattr(x, 'todense') else x) for x in (m.get_beam_K('a'), m.get_beam_transform_matrix('a'), m.get_beam_condensated_matrix('a', m.get_beam_K('a')))]
    def mats():
        a = e['a']
        return [np.asarray(x.todense() if hasattr(x, 'todense') else x) for x in (a.assemble_K(), a.assemble_M(), a.assemble_f('c'))]
    return [[new, axes], [members], [load], [asm], [mat, mats], [lambda: e['m'].get_nodal_restraint_dict()]]


def spectra(v, path):
    a = [0., 1., -2., .5 + v, 3., 0., -1., 2. * v, 0., 0., 0., 0.]
    f = os.path.join(path, 'r.txt')

    def put():
        os.makedirs(path, exist_ok=True)
        with open(f, 'w') as g:
            g.write('\n'.join('%r' % x for x in a))
    return [[put], [lambda: [list(x) for x in wave2spectrum(f, .5, .05 + .1 * v, 35.)]], [lambda: [list(x) for x in fft2spec(f, .5, .05 + .1 * v, 35.)]], [], [], []]


def named(v, path):
    """as much of everything in both variants, under other names"""
    e = {}
    n = lambda x: x + 'xy'[v]

    def A(name, *a, **k):
        return lambda: getattr(e['api'], name)(*[n(x) if isinstance(x, str) else x for x in a], **k)
    def new():
        e['api'] = real.Api(path)
    b0 = [new, A('add_node', 'A', 0, 0, 0), A('add_node', 'B', 3, v, .5), A('add_node', 'C', .5, 2, v), A('add_isotropic_material', 'M', 2.5, 2e4, .25, 1e-5),
          A('add_beam_section_rectangle', 'S', 'M', .5, .3), A('add_shell_section', 'W', 'M', .2)]
    b1 = [A('add_simple_beam', 'm', 'A', 'B', *gen.SEC2), A('add_beam', 'n', 'B', 'C', 'S'), A('add_shell', 'k', 'A', 'B', 'C', None, 'W'), A('set_nodal_restraint', 'A', *[True] * 6)]
    b2 = [A('add_loadpattern', 'P'), A('set_nodal_load', 'P', 'B', 1, -2, 3, -.5, .7, -.9), A('set_beam_load_distributed', 'P', 'n', .1, .2, 2, -.8), A('add_static_case', 'c'), A('add_case_pattern', 'c', 'P', 1.5)]
    b5 = [A('result_get_all_nodal_displacement', 'c'), A('result_get_nodal_reaction', 'A', 'c'), A('result_get_beam_end_force', 'n', 'c'), lambda: e['api'].get_node_names(), lambda: e['api'].get_beam_names(),
          A('get_beam_node_names', 'm'), A('get_shell_node_names', 'k'), lambda: e['api'].get_node_restraints(), A('get_all_nodal_load', 'P')]
    return [b0, b1, b2, [A('assemble')], [A('solve_static', 'c')], b5]


KINDS = {'named': named, 'frame': frame, 'history': history, 'wall': wall, 'objects': objects, 'spectra': spectra}


def flat(x):
    if isinstance(x, dict):
        return [('k', str(k)) for k in x] + [y for k in x for y in flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [y for k in x for y in flat(k)]
    if isinstance(x, np.ndarray):
        return [x.astype(float)] if x.dtype != object else flat(list(x))
    return [x]


class Session:
    def __init__(self, kind, v, path):
        self.blocks = KINDS[kind](v, path)
        self.out = []

    def request(self, f):
        try:
            r = f()
        except Exception as e:
            r = 'raised %s: %s' % (type(e).__name__, e)
        self.out.append(flat(r))

    def block(self, i):
        for f in self.blocks[i]:
            self.request(f)

    def all(self):
        for i in range(6):
            self.block(i)


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if len(x) != len(y):
            return False
        for p, q in zip(x, y):
            if isinstance(q, np.ndarray) or isinstance(q, float):
                try:
                    p, q = np.asarray(p, dtype=float), np.asarray(q, dtype=float)
                except Exception:
                    return False
                if p.shape != q.shape or not np.all(np.abs(p - q) <= 1e-10 * np.max(np.abs(q), initial=0)):
                    return False
            elif type(p) is not type(q) or p != q:
                return False
    return True


ALONE = {}       # filled before the workers are forked


def alone(kind, v):
    return ALONE[kind, v]


ROOT = os.path.join(os.path.realpath(mc.REPO), '')


def ours(code, memo={}):
    r = memo.get(code)
    if r is None:
        r = memo[code] = os.path.realpath(code.co_filename).startswith(ROOT) and code.co_name != '<module>'
    return r


def tracer(hit):
    """hit(code, line) at every line of the code under test, in the calling thread"""
    def local(fr, ev, arg):
        if ev == 'line':
            hit(fr.f_code, fr.f_lineno)
        return local

    def glob(fr, ev, arg):
        return local if ours(fr.f_code) else None
    return glob


def sites(kind, v, k):
    """the lines request k of a session executes, with counts, in order of first execution"""
    shutil.rmtree('a', ignore_errors=True)
    s = Session(kind, v, 'a')
    fs = [f for b in s.blocks for f in b]
    for f in fs[:k]:
        s.request(f)
    seen = {}

    def hit(code, line):
        key = (code.co_filename, code.co_qualname, line)
        seen[key] = seen.get(key, 0) + 1
    sys.settrace(tracer(hit))
    try:
        s.request(fs[k])
    finally:
        sys.settrace(None)
    return seen


def requests(kind):
    return sum(len(b) for b in KINDS[kind](0, 'a'))


def pairs(tier):
    ks = list(KINDS)
    if tier != 'quick':
        return list(it.product(ks, ks))
    return [(k, k) for k in ks] + [('frame', 'objects'), ('objects', 'frame'), ('history', 'frame'), ('wall', 'frame')]


def cases(tier):
    for a, b in pairs(tier):
        for p in range(4):
            yield ['C', a, b, p]
    for a, b in pairs(tier):
        for n in (1, 2, 3):
            for pat in it.product((0, 1), repeat=n):
                yield ['D', a, b, list(pat)]
    for a, b in pairs(tier):
        for k in range(requests(a) if a != 'named' or tier != 'quick' else 0):
            for p in range(PARTS if k > 9 or a == 'history' else 1):
                yield ['A', a, b, k, p]
    for a, b in pairs(tier):
        if a == b and a != 'named' or tier != 'quick':
            for k in range(requests(a)):
                for p in range(PARTS if k > 9 or a == 'history' else 1):
                    yield ['B', a, b, k, p]


def judge(c, ctx, A, B, what):
    ok = True
    for s, kind, v in ((A, c[1], 0), (B, c[2], 1)):
        w = alone(kind, v)
        ctx.evals += 1
        if not same(s.out, w):
            i = [same([x], [y]) for x, y in zip(s.out, w)] + [False]
            i = i.index(False)
            ctx.fail('influence', '%s: the %s session (variant %d) differs from the same session alone in request %d: %s instead of %s' % (
                what(), kind, v, i, repr(s.out[i:i + 1])[:500], repr(w[i:i + 1])[:500]))
            ok = False
    return ok


def fresh():
    for d in ('a', 'b'):
        shutil.rmtree(d, ignore_errors=True)


def run(c, ctx):
    os.chdir(ctx.scratch())
    try:
        explore(c, ctx)
    finally:
        sys.settrace(None)
        os.chdir('/')


def one_after_the_other(c, ctx):
    n = 8 if ctx.tier == 'quick' else 24
    for where in 'ab':
        fresh()
        for i in range(n):
            v = c[3][i % len(c[3])]
            if where == 'b':
                shutil.rmtree('a', ignore_errors=True)
            s = Session(c[1 + v], v, 'a' if where == 'b' else 'ab'[v])
            s.all()
            ctx.op()
            w = alone(c[1 + v], v)
            ctx.evals += 1
            ctx.state(c, where, i)
            if not same(s.out, w):
                j = ([same([x], [y]) for x, y in zip(s.out, w)] + [False]).index(False)
                ctx.fail('influence', 'sessions %r one after the other, %s: number %d differs from the same session alone in request %d: %s instead of %s' % (
                    c[1:], 'in the same directory' if where == 'b' else 'in two directories', i, j, repr(s.out[j:j + 1])[:500], repr(w[j:j + 1])[:500]))
                return
            del s
            gc.collect()
        ctx.trace()


def explore(c, ctx):
    mode, a, b, k = c[:4]
    if mode == 'D':
        return one_after_the_other(c, ctx)
    parts = PARTS if k > 9 or a == 'history' else 1
    for q, v in ((a, 0), (b, 1)):
        if not ctx.check(not any(isinstance(y, str) and y.startswith('raised') or y is False and q != 'frame' for x in alone(q, v) for y in x), 'alone',
                         lambda: 'the %s session alone: %r' % (q, [x for x in alone(q, v) if any(isinstance(y, str) and y.startswith('raised') for y in x)][:2])):
            return
    if mode == 'C':
        cut = [(0, 1), (2, 3), (4,), (5,)] if ctx.tier == 'quick' else [(i,) for i in range(6)]
        m = len(cut)
        for n, order in enumerate(it.combinations(range(2 * m), m)):
            if n % 4 != k:
                continue
            fresh()
            A, B = Session(a, 0, 'a'), Session(b, 1, 'b')
            i = j = 0
            for t in range(2 * m):
                if t in order:
                    for q in cut[i]:
                        A.block(q)
                    i += 1
                else:
                    for q in cut[j]:
                        B.block(q)
                    j += 1
            ctx.op(2 * m)
            ctx.trace()
            ctx.state(c, order)
            if not judge(c, ctx, A, B, lambda: 'blocks of the first session at turns %r of %d' % (order, 2 * m)):
                return
        return
    seen = sites(a, 0, k)
    if mode == 'A':
        top = 5 if ctx.tier != 'quick' else 3 if a == b else 1
        old = set(key for j in range(k) for key in sites(a, 0, j)) if ctx.tier == 'quick' else ()
        for key, count in seen.items():
            if key in old or key[2] % parts != c[4]:          # (old) explored with the request that runs it first
                continue
            for n in range(1, min(top, count) + 1):
                fresh()
                A, B = Session(a, 0, 'a'), Session(b, 1, 'b')
                one_preemption(A, B, k, key, n)
                ctx.op(2)
                ctx.trace()
                ctx.state(c, key[2], n)
                if not judge(c, ctx, A, B, lambda: 'the second session runs when request %d of the first reaches %s line %d for the %d. time' % (k, key[1], key[2], n)):
                    return
        ctx.outcome([len(seen)])
        return
    by = {}
    for key in seen:
        by.setdefault(key[:2], []).append(key)
    before = set(key[:2] for j in range(k) for key in sites(a, 0, j))
    near = 1 if ctx.tier == 'quick' else 10 ** 6
    for fn, keys in by.items():
        if fn in before:        # explored with the request that runs it first
            continue
        for i, x in enumerate(keys):
            if i % parts != c[4]:
                continue
            for y in keys[i if near == 1 else 0:i + near + 1]:
                fresh()
                A, B = Session(a, 0, 'a'), Session(b, 1, 'b')
                reached = two_preemptions(A, B, k, x, y)
                ctx.op(3)
                ctx.trace()
                ctx.count('two_preemptions' if reached else 'second_line_not_reached')
                ctx.state(c, x[2], y[2])
                if not judge(c, ctx, A, B, lambda: 'the first session stops in %s at line %d, the second runs to line %d of it, the first finishes, the second finishes' % (x[1], x[2], y[2])):
                    return


def run_traced(s, k, hit):
    fs = [f for b in s.blocks for f in b]
    for i, f in enumerate(fs):
        if i == k:
            sys.settrace(tracer(hit))
        try:
            s.request(f)
        finally:
            sys.settrace(None)


def one_preemption(A, B, k, key, n):
    left = [n]

    def hit(code, line):
        if left[0] and line == key[2] and code.co_qualname == key[1] and code.co_filename == key[0]:
            left[0] -= 1
            if not left[0]:
                B.all()         # tracing is off inside a trace function
    run_traced(A, k, hit)
    if left[0]:
        B.all()


def two_preemptions(A, B, k, x, y):
    """A to line x; B (another thread) to line y; A to its end; B to its end"""
    started, parked, go = [False], threading.Event(), threading.Event()
    state = [False]

    def second():
        done = [False]

        def hit(code, line):
            if not done[0] and line == y[2] and code.co_qualname == y[1] and code.co_filename == y[0]:
                done[0] = state[0] = True
                parked.set()
                go.wait(60)
        sys.settrace(tracer(hit))
        try:
            B.all()
        finally:
            sys.settrace(None)
            parked.set()
    th = threading.Thread(target=second, daemon=True)

    def hit(code, line):
        if not started[0] and line == x[2] and code.co_qualname == x[1] and code.co_filename == x[0]:
            started[0] = True
            th.start()
            parked.wait(60)
    run_traced(A, k, hit)
    if not started[0]:
        th.start()
        parked.wait(60)
    go.set()
    th.join(60)
    return state[0]
