"""Model definition: every operation history agrees with a reference model (names, indices, geometry, statuses)."""
import itertools as it
import numpy as np
import gen
import real

ID = 'P08'
LEVEL = 'model_checking'
RULE = """Every history up to the depth bound (3 in the quick tier, 4 in the thorough one) over an alphabet of definition
operations (adding and re-adding nodes, coincident nodes, materials, sections, members, shells, restraints, masses,
releases, with valid and dangling references) from an empty model and from a prepared model is executed on the real Api
and in lockstep on a Model; after every operation all queries are compared with a reference dictionary model, failed
operations must change nothing, indices must be a bijection onto 0..n-1 and never change. A state is one reference-model
content. Plus every history of duplicate-checked insertions."""
ASSUMPTIONS = ['re-defining a node that members or shells already use is outside the alphabet (members keep the position they were attached at)',
               'a case where the interface returns normally is a success; Model operations signal failure by an exception']
CHUNK = 4
P = {'p': (0.0, 0.0, 0.0), 'q': (3.0, 0.0, 0.0), 'r': (1.0, 2.0, 0.5), 's': (0.0, 2.0, 0.25), 't': (0.0, 0.0, 4.0)}

OPS = [('node', 'A', 'p'), ('node', 'B', 'q'), ('node', 'C', 'r'), ('node', 'C', 't'), ('node', 'D', 'p'), ('node', 'E', 's'),
       ('mat', 'M', 2.0e4), ('mat', 'M', 5.0e4),
       ('sec', 'S', 'M', 0.3), ('sec', 'S', 'M', 0.7), ('sec', 'T', 'nomat', 0.3), ('rect', 'R', 'M'),
       ('ssec', 'W', 'M'),
       ('sb', 'm', 'A', 'B'), ('sb', 'm', 'B', 'C'), ('sb', 'k', 'B', 'A'), ('sb', 'k', 'A', 'nowhere'), ('sb', 'k', 'A', 'D'),
       ('beam', 'n', 'A', 'C', 'S'), ('beam', 'n', 'C', 'B', 'nosec'), ('beam', 'm', 'A', 'B', 'S'),
       ('shell', 'w', ('A', 'B', 'C', 'E'), 'W'), ('shell', 'w', ('A', 'B', 'C', None), 'W'), ('shell', 'v', ('A', 'B', 'C', 'zz'), 'W'),
       ('rest', 'A', (1, 1, 1, 1, 1, 1)), ('rest', 'A', (0, 1, 0, 0, 0, 1)), ('rest', 'nowhere', (1, 1, 1, 0, 0, 0)), ('rest', 'B', (0, 0, 0, 0, 0, 0)),
       ('mass', 'B', (1., 2., 3., 4., 5., 6.)), ('mass', 'nowhere', (1., 0., 0., 0., 0., 0.)),
       ('rel', 'm', (5, 11)), ('rel', 'm', ()), ('rel', 'nobeam', (0,))]
PREP = [('node', 'A', 'p'), ('node', 'B', 'q'), ('node', 'C', 'r'), ('mat', 'M', 2.0e4), ('sec', 'S', 'M', 0.3), ('ssec', 'W', 'M'), ('sb', 'm', 'A', 'B')]
DUP = [('A', 'p'), ('B', 'q'), ('C', 'p'), ('B', 'p'), ('A', 'r'), ('D', 'r'), ('E', 'near'), ('F', 'far')]
POS = dict(P, near=(1e-10, 0.0, 0.0), far=(1e-7, 0.0, 0.0))
DUPB = [('a', 'A', 'B'), ('b', 'B', 'A'), ('c', 'A', 'B'), ('d', 'B', 'C'), ('a', 'C', 'A'), ('e', 'A', 'C'), ('b', 'C', 'D'), ('f', 'D', 'C')]


# definitions of materials and sections under a shared name: the latest one is what a member created afterwards has
DEFS = [('general', 0.3, 1., 1., .02, .05, .04, 1., 1.), ('general', 0.7, 1., 1., .03, .06, .01, 1., 1.), ('rectangle', .4, .3), ('rectangle', .2, .5),
        ('I', .4, .2, .01, .02), ('I', .3, .3, .01, .015), ('box', .4, .2, .01, .02), ('box', .25, .3, .02, .01), ('circle', .3), ('circle', .2),
        ('pipe', .3, .02), ('pipe', .4, .01), ('M', 5.0e4, .2), ('M', 3.0e4, .4), ('beam',)]


class Ref:
    def __init__(self):
        self.nodes, self.beams, self.shells, self.rest, self.mass = {}, {}, {}, {}, {}
        self.mats, self.secs, self.ssecs = {}, {}, {}

    def usable(self, n):
        """may node n be re-defined?"""
        return all(n not in b[0] for b in self.beams.values()) and all(n not in s for s in self.shells.values())

    def apply(self, op):
        """returns expected status, or None if the operation is outside the alphabet in this state"""
        k = op[0]
        if k == 'node':
            if op[1] in self.nodes and not self.usable(op[1]):
                return None
            self.nodes[op[1]] = P[op[2]]
            self.mass[op[1]] = (0.,) * 6
            return True
        if k == 'mat':
            self.mats[op[1]] = op[2]
            return True
        if k in ('sec', 'rect'):
            if op[2] not in self.mats:
                return False
            self.secs[op[1]] = (k,) + op[2:] + (self.mats[op[2]],)
            return True
        if k == 'ssec':
            if op[2] not in self.mats:
                return False
            self.ssecs[op[1]] = op[2]
            return True
        if k in ('sb', 'beam'):
            if op[2] not in self.nodes or op[3] not in self.nodes or (k == 'beam' and op[4] not in self.secs):
                return False
            if self.nodes[op[2]] == self.nodes[op[3]]:
                return False
            self.beams[op[1]] = [(op[2], op[3]), () if k == 'sb' else self.secs[op[4]], ()]
            return True
        if k == 'shell':
            ns = tuple(n for n in op[2] if n is not None)
            if op[3] not in self.ssecs or any(n not in self.nodes for n in ns):
                return False
            pts = [self.nodes[n] for n in ns]
            if len(set(pts)) < len(pts):
                return None
            self.shells[op[1]] = ns
            return True
        if k == 'rest':
            if op[1] not in self.nodes:
                return False
            self.rest[op[1]] = op[2]
            return True
        if k == 'mass':
            if op[1] not in self.nodes:
                return False
            self.mass[op[1]] = op[2]
            return True
        if k == 'rel':
            if op[1] not in self.beams:
                return False
            self.beams[op[1]][2] = op[2]
            return True

    def canon(self):
        return (tuple(self.nodes.items()), tuple((k, tuple(map(tuple, v))) for k, v in self.beams.items()), tuple(self.shells.items()),
                tuple(sorted(self.rest.items())), tuple(sorted(self.mass.items())), tuple(sorted(self.mats.items())), tuple(sorted(self.secs.items())), tuple(self.ssecs))


def on_api(api, op):
    k = op[0]
    if k == 'node':
        return api.add_node(op[1], *P[op[2]])
    if k == 'mat':
        return api.add_isotropic_material(op[1], 2.5, op[2], 0.25, 1e-5)
    if k == 'sec':
        return api.add_beam_section_general(op[1], op[2], op[3], 1.0, 1.0, 0.02, 0.05, 0.04, 1.0, 1.0)
    if k == 'rect':
        return api.add_beam_section_rectangle(op[1], op[2], 0.4, 0.3)
    if k == 'ssec':
        return api.add_shell_section(op[1], op[2], 0.2)
    if k == 'sb':
        return api.add_simple_beam(op[1], op[2], op[3], 2e4, 0.25, 0.3, 0.02, 0.05, 0.04, 2.5)
    if k == 'beam':
        return api.add_beam(op[1], op[2], op[3], op[4])
    if k == 'shell':
        return api.add_shell(op[1], *op[2], op[3])
    if k == 'rest':
        return api.set_nodal_restraint(op[1], *[bool(x) for x in op[2]])
    if k == 'mass':
        return api.set_nodal_mass(op[1], *op[2])
    return api.set_beam_release(op[1], *[i in op[2] for i in range(12)])


def on_model(m, op):
    """True / False in the same sense as the Api"""
    try:
        k = op[0]
        if k == 'node':
            m.add_node(op[1], *P[op[2]])
        elif k == 'mat':
            m.add_isotropic_material(op[1], 2.5, op[2], 0.25, 1e-5)
        elif k == 'sec':
            m.add_beam_section_general(op[1], op[2], op[3], 1.0, 1.0, 0.02, 0.05, 0.04, 1.0, 1.0)
        elif k == 'rect':
            m.add_beam_section_rectangle(op[1], op[2], 0.4, 0.3)
        elif k == 'ssec':
            m.add_shell_section(op[1], op[2], 0.2)
        elif k == 'sb':
            m.add_simple_beam(op[1], op[2], op[3], 2e4, 0.25, 0.3, 0.02, 0.05, 0.04, 2.5)
        elif k == 'beam':
            m.add_beam(op[1], op[2], op[3], op[4])
        elif k == 'shell':
            m.add_shell(op[1], op[3], *[n for n in op[2] if n is not None])
        elif k == 'rest':
            return m.set_nodal_restraint(op[1], *[bool(x) for x in op[2]])
        elif k == 'mass':
            m.set_nodal_mass(op[1], *op[2])
        else:
            m.set_beam_releases(op[1], *[i in op[2] for i in range(12)])
        return True
    except Exception:
        return False


def cases(tier):
    for prep in (0, 1):
        for a in range(len(OPS)):
            if tier == 'quick':
                yield ['hist', prep, [a], 3]
            else:
                for b in range(len(OPS)):
                    yield ['hist', prep, [a, b], 4]
    for a in range(len(DEFS)):
        yield ['redef', a, 2 if tier == 'quick' else 3]
    for a in range(len(DUP)):
        for b in range(len(DUP)):
            yield ['dup', a, b, 4 if tier == 'quick' else 5]
            yield ['dupbeam', a, b, 4 if tier == 'quick' else 5]


def compare(ctx, api, m, ref, hist, hid):
    t = lambda: 'after %r' % (hist,)
    ck = ctx.check
    ck(list(api.get_node_names()) == list(ref.nodes), 'node-names', lambda: 'node names %r, expected %r %s' % (api.get_node_names(), list(ref.nodes), t()))
    ck(m.node_count == len(ref.nodes) and m.beam_count == len(ref.beams), 'counts', t)
    for n, p in ref.nodes.items():
        l = api.get_node_location(n)
        ck(l is not None and tuple(float(x) for x in l) == p, 'node-location', lambda: 'node %s at %r, expected %r %s' % (n, l, p, t()))
        ck(tuple(m.get_nodal_mass(n)) == tuple(ref.mass[n]), 'mass', t)
    ck(list(api.get_beam_names()) == list(ref.beams), 'beam-names', t)
    for b, (ij, sec, rel) in ref.beams.items():
        ck(api.get_beam_node_names(b) == ij, 'beam-nodes', lambda: 'member %s joins %r, expected %r %s' % (b, api.get_beam_node_names(b), ij, t()))
        l = api.get_beam_location(b)
        ck(l is not None and [tuple(map(float, x)) for x in l] == [ref.nodes[x] for x in ij], 'beam-location', t)
    ck(list(api.get_shell_names()) == list(ref.shells), 'shell-names', t)
    for s, ns in ref.shells.items():
        ck(api.get_shell_node_names(s) == ns, 'shell-nodes', lambda: 'shell %s joins %r, expected %r %s' % (s, api.get_shell_node_names(s), ns, t()))
        l = api.get_shell_location(s)
        ck(l is not None and [tuple(map(float, x)) for x in l] == [ref.nodes[x] for x in ns], 'shell-location', t)
    r = api.get_node_restraints()
    ck(isinstance(r, dict) and {k: tuple(bool(x) for x in v) for k, v in r.items()} == {k: tuple(bool(x) for x in v) for k, v in ref.rest.items()}, 'restraints',
       lambda: 'restraints %r, expected %r %s' % (r, ref.rest, t()))
    for bad in (api.get_node_location('??'), api.get_beam_node_names('??'), api.get_beam_location('??'), api.get_shell_node_names('??')):
        ck(bad is None, 'unknown-query', t)
    # indices: a bijection onto 0..n-1, and stable
    for what, names, get in (('node', ref.nodes, m.get_node_hid), ('beam', ref.beams, m.get_beam_hid), ('shell', ref.shells, m.get_shell_hid)):
        h = {n: get(n) for n in names}
        ck(sorted(h.values()) == list(range(len(names))), 'index-bijection', lambda: '%s indices %r %s' % (what, h, t()))
        for n in h:
            ck(hid.get((what, n), h[n]) == h[n], 'index-stable', lambda: 'the index of %s %s changed %s' % (what, n, t()))
            hid[(what, n)] = h[n]
    for b, (ij, _s, _r) in ref.beams.items():
        ck(list(m.get_beam_node_hids(b)) == [m.get_node_hid(x) for x in ij], 'beam-node-index', t)
    ctx.evals += 1


def play(ctx, hist, prep):
    api, m, ref = real.Api(ctx.scratch_once), real.Model(), Ref()
    hid = {}
    for op in PREP[:prep * len(PREP)]:
        ref.apply(op)
        ctx.check(on_api(api, op) is True and on_model(m, op), 'status', 'preparing: %r failed' % (op,))
    for i, op in enumerate(hist):
        want = ref.apply(op)
        if want is None:
            return False
        a, b = on_api(api, op), on_model(m, op)
        ctx.op(2)
        ctx.check(a is want, 'status', lambda: 'operation %r reported %r, expected %r, after %r' % (op, a, want, hist[:i]))
        ctx.check(b == want, 'status-model', lambda: 'operation %r on the model: success %r, expected %r, after %r' % (op, b, want, hist[:i]))
        if i >= len(hist) - 1:      # prefixes are histories of their own
            compare(ctx, api, m, ref, hist, hid)
        else:
            for n in ref.nodes:
                hid.setdefault(('node', n), m.get_node_hid(n))
            for n in ref.beams:
                hid.setdefault(('beam', n), m.get_beam_hid(n))
    ctx.trace()
    ctx.state(ref.canon())
    ctx.outcome(ref.canon())
    # what the model says must agree with what it computes with
    for b, (ij, sec, rel) in ref.beams.items():
        K = m.get_beam_K(b)
        l = np.linalg.norm(np.subtract(ref.nodes[ij[0]], ref.nodes[ij[1]]))
        E, A = 2e4, 0.3
        if sec:
            E = sec[3] if sec[0] == 'sec' else sec[2]
            A = sec[2] if sec[0] == 'sec' else 0.12
        ctx.close(K[0, 0], E * A / l, 'section-used', lambda: 'axial stiffness of %s after %r' % (b, hist), rel=1e-9)
        Kc = m.get_beam_K(b, condensate=True).toarray()
        z = [i for i in range(12) if not np.any(np.abs(Kc[i]) > 1e-9 * E)]
        ctx.check(set(rel) <= set(z), 'release-used', lambda: 'releases of %s not applied after %r' % (b, hist))
        if not rel:
            ctx.check(np.array_equal(Kc, K.toarray()), 'release-none', lambda: 'member %s without releases is condensed after %r' % (b, hist))
    return True


def define(o, d, mats):
    if d[0] == 'M':
        o.add_isotropic_material('M', 2.5, d[1], d[2], 1e-5)
    elif d[0] == 'beam':
        o.add_beam('x', 'A', 'B', 'S')
    else:
        getattr(o, 'add_beam_section_' + d[0])('S', 'M', *d[1:])


def redef(ctx, h):
    def fresh(ops):
        m = real.Model()
        m.add_node('A', 0., 0., 0.)
        m.add_node('B', 1.5, 1., 0.5)
        m.add_isotropic_material('M', 2.5, 2e4, .25, 1e-5)
        m.add_beam_section_general('S', 'M', .1, 1., 1., .01, .02, .03, 1., 1.)
        for d in ops:
            define(m, d, None)
            ctx.op()
        m.add_beam('y', 'A', 'B', 'S')
        return m
    # what is in force at the end: the last section, with the material as it was when that section was defined
    s = max([i for i, d in enumerate(h) if d[0] not in ('M', 'beam')], default=None)
    mat = [d for d in h[:s or 0] if d[0] == 'M'][-1:]
    m, w = fresh(h), fresh(mat + ([h[s]] if s is not None else []))
    ctx.check(np.array_equal(m.get_beam_K('y').toarray(), w.get_beam_K('y').toarray()) and np.array_equal(m.get_beam_M('y').toarray(), w.get_beam_M('y').toarray()), 'latest-definition',
              lambda: 'a member created after %r does not have the section defined last' % (h,))
    ctx.state('redef', h)
    ctx.outcome('redef', m.get_beam_K('y').toarray().round(6).tolist())
    ctx.trace()


def run(c, ctx):
    if c[0] == 'redef':
        for n in range(c[2] + 1):
            for tail in it.product(range(len(DEFS)), repeat=n):
                redef(ctx, [DEFS[i] for i in (c[1],) + tail])
        return
    ctx.scratch_once = ctx.scratch()
    if c[0] == 'hist':
        _, prep, pre, depth = c
        n = len(OPS)
        hs = [pre]
        if len(pre) == 2 and pre[1] == 0:
            play(ctx, [OPS[pre[0]]], prep)
        while hs:
            h = hs.pop()
            if play(ctx, [OPS[i] for i in h], prep) and len(h) < depth:
                hs.extend(h + [i] for i in range(n))
    elif c[0] == 'dup':
        for tail in it.product(range(len(DUP)), repeat=c[3] - 2):
            m = real.Model()
            ref = {}
            order = []
            for i in (c[1], c[2]) + tail:
                name, pos = DUP[i]
                x = POS[pos]
                same = [k for k, v in ref.items() if np.linalg.norm(np.subtract(v, x)) < 1e-9]
                h = m.add_node(name, *x, check_dup=True)
                ctx.op()
                if same:
                    ctx.check(h == m.get_node_hid(same[0]), 'dup-index', lambda: 'node %s at %r coincides with %s but got index %r; history %r' % (name, x, same[0], h, (c, tail)))
                else:
                    if name not in ref:
                        order.append(name)
                    ref[name] = x
                    ctx.check(h == m.get_node_hid(name), 'dup-new-index', lambda: 'history %r' % ((c, tail),))
                ctx.check(list(m.get_node_names()) == order, 'dup-names', lambda: '%r after %r' % (m.get_node_names(), (c, tail)))
            ctx.check(sorted(m.get_node_hid(k) for k in ref) == list(range(len(ref))), 'dup-bijection', lambda: 'history %r' % ((c, tail),))
            ctx.check(all(tuple(m.get_node_location(k)) == ref[k] for k in ref), 'dup-location', lambda: 'history %r' % ((c, tail),))
            ctx.state('dup', tuple(ref.items()))
            ctx.outcome('dup', tuple(ref.items()))
            ctx.trace()
    else:
        for tail in it.product(range(len(DUPB)), repeat=c[3] - 2):
            m = real.Model()
            for n, p in zip('ABCD', 'pqrr'):
                m.add_node(n, *P[p])
            m.add_node('D', 1.0, 2.0, 0.5 + 1e-10)      # coincides with C
            ref = {}
            for i in (c[1], c[2]) + tail:
                b, x, y = DUPB[i]
                if b in 'bf' and 'D' in (x, y) and 'C' in (x, y):
                    y = 'B' if y != 'B' else 'A'        # C-D has no length: B-D or A-...
                    x = 'D'
                pos = {k: 'C' if k == 'D' else k for k in 'ABCD'}
                key = frozenset((pos[x], pos[y]))
                same = [k for k, v in ref.items() if v[0] == key]
                h = m.add_simple_beam(b, x, y, 2e4, 0.2, 1, 1, 1, 1, 1, check_dup=True)
                ctx.op()
                if same:
                    ctx.check(h == m.get_beam_hid(same[0]), 'dupbeam-index', lambda: 'member %s coincides with %s but got %r: %r' % (b, same[0], h, (c, tail)))
                else:
                    ref[b] = (key, (x, y))
                    ctx.check(h == m.get_beam_hid(b), 'dupbeam-new-index', lambda: '%r' % ((c, tail),))
                ctx.check(set(m.get_beam_names()) == set(ref), 'dupbeam-names', lambda: '%r' % ((c, tail),))
            ctx.check(sorted(m.get_beam_hid(k) for k in ref) == list(range(len(ref))), 'dupbeam-bijection', lambda: '%r' % ((c, tail),))
            ctx.check(all(tuple(m.get_beam_connection(k)) == ref[k][1] for k in ref), 'dupbeam-nodes', lambda: '%r' % ((c, tail),))
            ctx.state('dupb', tuple((k, v[1]) for k, v in ref.items()))
            ctx.outcome('dupb', tuple((k, v[1]) for k, v in ref.items()))
            ctx.trace()
