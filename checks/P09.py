"""Load patterns and cases: every bookkeeping history agrees with a reference dictionary model."""
import itertools as it
import numpy as np
import gen
import ref as refm
import real

ID = 'P09'
LEVEL = 'model_checking'
RULE = """Every history up to the depth bound (3; 4 in the thorough tier) over an alphabet of load operations (nodal loads,
prescribed displacements, line and point member loads set and re-set in two patterns; patterns added to two cases with
factors and time curves of different lengths; factors changed; case restraints), from an empty and from a prepared set,
executed on real LoadPattern and case objects; every query - per node, per member, per time step, whole dictionaries,
step ranges - is compared with a reference model, twice (queries must not change anything). A state is one reference
content. The same histories on the Api's status returns and pattern queries."""
ASSUMPTIONS = ['factors are only changed for patterns already in the case', 'beyond the end of its time curve a pattern contributes nothing to a nodal time history']
CHUNK = 2
V = [np.array(gen.FULL_NODE), np.array([0.25, 0.0, -3.0, 1.0, 0.0, 2.0]), np.zeros(6)]
D = [gen.FULL_DIST, gen.FULL_DIST[::-1], [0.0] * 8]
CC = [gen.FULL_CONC, gen.FULL_CONC[3:6] + gen.FULL_CONC[:3] + [0.8], [0.0] * 6 + [0.3]]
CURVES = {None: None, 's': [[0, .1], [2.0, -1.0]], 'l': [[0, .1, .2, .3], [0.5, 1.0, -0.25, 3.0]]}
OPS = [('nl', 'P', 'a', 0), ('nl', 'P', 'a', 1), ('nl', 'P', 'a', 2), ('nd', 'P', 'a', 2), ('bd', 'P', 'm', 2), ('bc', 'P', 'm', 2), ('nl', 'P', 'b', 0), ('nl', 'Q', 'a', 1), ('nl', 'Q', 'c', 0),
       ('nd', 'P', 'a', 1), ('nd', 'Q', 'a', 0),
       ('bd', 'P', 'm', 0), ('bd', 'P', 'm', 1), ('bd', 'Q', 'm', 1), ('bc', 'P', 'm', 0), ('bc', 'Q', 'm', 1), ('bc', 'Q', 'k', 0),
       ('add', 'S', 'P', 1.5, None), ('add', 'S', 'Q', -2.0, None), ('add', 'S', 'P', 0.0, None),
       ('add', 'T', 'P', 2.0, 's'), ('add', 'T', 'Q', -1.0, 'l'), ('add', 'T', 'P', 0.5, 'l'), ('add', 'T', 'Q', 3.0, 's'),
       ('fac', 'S', 'P', 4.0), ('fac', 'S', 'Q', 0.0), ('fac', 'T', 'Q', 0.0), ('fac', 'T', 'P', -3.0), ('fac', 'T', 'Q', 0.5),
       ('rs', 'S', 'a', (1, 0, 0, 0, 1, 0)), ('rs', 'S', 'a', (0, 1, 1, 0, 0, 0)), ('rs', 'T', 'b', (1, 1, 1, 1, 1, 1))]
PREP = [('nl', 'P', 'a', 0), ('nl', 'Q', 'a', 1), ('bd', 'P', 'm', 0), ('bc', 'Q', 'm', 1), ('add', 'S', 'P', 1.5, None), ('add', 'S', 'Q', -2.0, None), ('add', 'T', 'P', 2.0, 's'), ('add', 'T', 'Q', -1.0, 'l')]
L = 2.5
BASIS_D = [refm.dist_load(x, L) for x in D]
BASIS_C = [refm.conc_load(x, L) for x in CC]


def cases(tier):
    depth = 3 if tier == 'quick' else 4
    for prep in (0, 1):
        for a in range(len(OPS)):
            if tier == 'quick':
                yield ['hist', prep, [a], depth]
            else:
                for b in range(len(OPS)):
                    yield ['hist', prep, [a, b], depth]
    for a in range(len(OPS)):
        yield ['api', a]


class R:
    def __init__(self):
        self.nl, self.nd, self.bd, self.bc = ({'P': {}, 'Q': {}} for _ in range(4))
        self.cases = {'S': {}, 'T': {}}
        self.rest = {'S': {}, 'T': {}}

    def apply(self, op):
        k = op[0]
        if k in ('nl', 'nd', 'bd', 'bc'):
            getattr(self, k)[op[1]][op[2]] = op[3]
        elif k == 'add':
            self.cases[op[1]][op[2]] = [op[3], op[4]]
        elif k == 'fac':
            if op[2] not in self.cases[op[1]]:
                return False
            self.cases[op[1]][op[2]][0] = op[3]
        else:
            self.rest[op[1]][op[2]] = op[3]
        return True

    def canon(self):
        s = lambda d: tuple(sorted((k, tuple(sorted(v.items()))) for k, v in d.items()))
        return s(self.nl), s(self.nd), s(self.bd), s(self.bc), tuple((c, tuple(sorted((p, tuple(map(str, x))) for p, x in v.items()))) for c, v in self.cases.items()), s(self.rest)

    def curve(self, c, p):
        return np.array(CURVES[self.cases[c][p][1]][1] if self.cases[c][p][1] else [1.0, 1.0])

    def node(self, c, n, t=0):
        f = np.zeros(6)
        for p, (fac, _) in self.cases[c].items():
            if n in self.nl[p]:
                f += fac * self.curve(c, p)[t] * V[self.nl[p][n]]
        return f

    def beam(self, c, b, t=0):
        f = np.zeros(12)
        for p, (fac, _) in self.cases[c].items():
            f += fac * self.curve(c, p)[t] * self.pat_beam(p, b)
        return f

    def pat_beam(self, p, b):
        f = np.zeros(12)
        if b in self.bd[p]:
            f = f + BASIS_D[self.bd[p][b]]
        if b in self.bc[p]:
            f = f + BASIS_C[self.bc[p][b]]
        return f

    def steps(self, c):
        n = [len(self.curve(c, p)) for p in self.cases[c]]
        return (max(n), min(n)) if n else None

    def history(self, c, n):
        N = max([len(self.curve(c, p)) for p in self.cases[c]], default=0)
        f = np.zeros((N, 6))
        for p, (fac, _) in self.cases[c].items():
            if n in self.nl[p]:
                cv = self.curve(c, p)
                f[:len(cv)] += fac * np.outer(cv, V[self.nl[p][n]])
        return f

    def fdict(self, c, which):
        out = {}
        for p, (fac, _) in self.cases[c].items():
            for n, v in getattr(self, which)[p].items():
                out[n] = out.get(n, np.zeros(6)) + fac * V[v]
        return out


def do(objs, op):
    k = op[0]
    if k == 'nl':
        objs[op[1]].set_nodal_load(op[2], *V[op[3]])
    elif k == 'nd':
        objs[op[1]].set_nodal_disp(op[2], *V[op[3]])
    elif k == 'bd':
        objs[op[1]].set_beam_load_dist(op[2], *D[op[3]])
    elif k == 'bc':
        objs[op[1]].set_beam_load_conc(op[2], *CC[op[3]])
    elif k == 'add':
        if op[1] == 'S':
            objs['S'].add_pattern(objs[op[2]], op[3])
        else:
            objs['T'].add_pattern(objs[op[2]], op[3], np.array(CURVES[op[4]]) if op[4] else None)
    elif k == 'fac':
        objs[op[1]].set_pattern_factor(op[2], op[3])
    else:
        objs[op[1]].set_nodal_restraint(op[2], *[bool(x) for x in op[3]])


def eq(a, b):
    if b is None:
        return a is None
    if a is None:
        return not np.any(b)        # nothing stored is as good as a stored zero
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-12 * max(1.0, np.max(np.abs(b), initial=0))))


def eqd(a, b):
    return isinstance(a, dict) and set(a) <= set(b) and all(eq(a.get(k), b[k]) for k in b)


def look(ctx, objs, r, hist, again):
    t = lambda: 'after %r%s' % (hist, ' (asked again)' if again else '')
    for p in 'PQ':
        o = objs[p]
        for n in 'abc':
            ctx.check(eq(o.get_nodal_f(n), V[r.nl[p][n]] if n in r.nl[p] else None), 'pattern-nodal', lambda: 'load of %s in %s: %r %s' % (n, p, o.get_nodal_f(n), t()))
            ctx.check(eq(o.get_nodal_d(n), V[r.nd[p][n]] if n in r.nd[p] else None), 'pattern-disp', t)
        ctx.check(eqd(o.get_nodal_f_dict(), {n: V[i] for n, i in r.nl[p].items()}), 'pattern-nodal-dict', t)
        ctx.check(eqd(o.get_nodal_d_dict(), {n: V[i] for n, i in r.nd[p].items()}), 'pattern-disp-dict', t)
        for b in 'mk':
            ctx.check(eq(o.get_beam_f(b, L), r.pat_beam(p, b)), 'pattern-beam', lambda: 'member load of %s in %s: %r %s' % (b, p, o.get_beam_f(b, L), t()))
            v = o.get_beam_distributed(b)
            i = r.bd[p].get(b)
            want = None if i is None else [D[i][0], D[i][2], D[i][4], D[i][6], 0, 0, D[i][1], D[i][3], D[i][5], D[i][7], 0, 0]
            ctx.check(eq(v, want), 'pattern-dist', lambda: 'stored line load %r %s' % (v, t()))
            v2 = o.get_beam_concentrated(b)
            ctx.check(eq(v2, CC[r.bc[p][b]] if b in r.bc[p] else None), 'pattern-conc', lambda: 'stored point load %r %s' % (v2, t()))
    for c in 'ST':
        o = objs[c]
        st = r.steps(c)
        if st:
            ctx.check(tuple(o.get_max_min_step()) == st, 'steps', lambda: 'step range %r, expected %r %s' % (o.get_max_min_step(), st, t()))
        for n in 'abc':
            for k in range(st[1] if st else 1):
                ctx.check(eq(o.get_nodal_f(n, k), r.node(c, n, k)), 'case-nodal',
                          lambda: 'case %s, node %s, step %d: %r, expected %r %s' % (c, n, k, o.get_nodal_f(n, k), r.node(c, n, k), t()))
            if c == 'T':
                ctx.check(eq(o.get_nodal_f_time_history(n), r.history(c, n)), 'history', lambda: 'history of %s: %r, expected %r %s' % (n, o.get_nodal_f_time_history(n), r.history(c, n), t()))
        for b in 'mk':
            for k in range(st[1] if st else 1):
                ctx.check(eq(o.get_beam_f(b, L, k), r.beam(c, b, k)), 'case-beam',
                          lambda: 'case %s, member %s, step %d: %r, expected %r %s' % (c, b, k, o.get_beam_f(b, L, k), r.beam(c, b, k), t()))
        ctx.check(eqd(o.get_beam_f_dict({'m': L, 'k': L}), {b: r.beam(c, b) for b in 'mk'}), 'case-beam-dict', t)
        ctx.check(eqd(o.get_nodal_f_dict(), r.fdict(c, 'nl')), 'case-nodal-dict', lambda: '%r, expected %r %s' % (o.get_nodal_f_dict(), r.fdict(c, 'nl'), t()))
        ctx.check(eqd(o.get_nodal_d_dict(), r.fdict(c, 'nd')), 'case-disp-dict', t)
        ctx.check(eqd(o.get_nodal_restraint_dict(), {n: np.array(v, float) for n, v in r.rest[c].items()}), 'case-restraints', t)
        if c == 'T':
            h = o.get_nodal_f_time_history_dict()
            ctx.check(eqd(h, {n: r.history(c, n) for p in r.cases[c] for n in r.nl[p]}), 'history-dict', t)


def play(ctx, hist, prep):
    objs = {'P': real.LoadPattern('P'), 'Q': real.LoadPattern('Q'), 'S': real.StaticCase('S'), 'T': real.TimeHistoryCase('T')}
    r = R()
    for op in (PREP if prep else []) + hist:
        if not r.apply(op):
            return False
        do(objs, op)
        ctx.op()
    look(ctx, objs, r, hist, False)
    look(ctx, objs, r, hist, True)
    ctx.trace()
    ctx.state(r.canon())
    ctx.outcome(r.canon())
    return True


def run(c, ctx):
    n = len(OPS)
    if c[0] == 'hist':
        _, prep, pre, depth = c
        if len(pre) == 2 and pre[1] == 0:
            play(ctx, [OPS[pre[0]]], prep)
        hs = [pre]
        while hs:
            h = hs.pop()
            if play(ctx, [OPS[i] for i in h], prep) and len(h) < depth:
                hs.extend(h + [i] for i in range(n))
        return
    # through the Api: statuses, and pattern queries
    for b in range(n):
        for d in range(n):
            api = real.Api(ctx.scratch())
            r = R()
            made = {'P': b % 2 == 0, 'Q': True, 'S': d % 2 == 0}
            for k, v in made.items():
                if v:
                    ctx.check((api.add_loadpattern if k in 'PQ' else api.add_static_case)(k) is True, 'api-status', 'creation failed')
            for op in (OPS[c[1]], OPS[b], OPS[d]):
                k = op[0]
                if k in ('nd', 'fac') or op[1] == 'T':
                    continue
                if k == 'nl':
                    st, ok = api.set_nodal_load(op[1], op[2], *V[op[3]]), made[op[1]]
                elif k == 'bd':
                    st, ok = api.set_beam_load_distributed(op[1], op[2], *D[op[3]]), made[op[1]]
                elif k == 'bc':
                    st, ok = api.set_beam_load_concentrated(op[1], op[2], *CC[op[3]]), made[op[1]]
                elif k == 'add':
                    st, ok = api.add_case_pattern(op[1], op[2], op[3]), made[op[1]] and made[op[2]]
                else:
                    st, ok = api.set_loadcase_nodal_restraint(op[1], op[2], *[bool(x) for x in op[3]]), made[op[1]]
                ctx.op()
                ctx.check(st is ok, 'api-status', lambda: '%r reported %r, expected %r' % (op, st, ok))
                if ok:
                    r.apply(op)
            for p in 'PQ':
                for nd in 'abc':
                    g = api.get_nodal_load(p, nd)
                    w = tuple(V[r.nl[p][nd]]) if nd in r.nl[p] else None
                    ctx.check(eq(g, w), 'api-nodal', lambda: '%s %s: %r, expected %r' % (p, nd, g, w))
                g = api.get_all_nodal_load(p)
                ctx.check(eqd(g, {x: V[i] for x, i in r.nl[p].items()}) if made[p] else g is None, 'api-all-nodal', lambda: repr(g))
            g = api.get_node_restraints('S')
            ctx.check(eqd(g, {x: np.array(v, float) for x, v in r.rest['S'].items()}) if made['S'] else g is None, 'api-restraints', lambda: repr(g))
            ctx.trace()
            ctx.state('api', made.items(), r.canon())
            ctx.outcome('api', r.canon())
