"""Drives the real code of /repo through its public interfaces only."""
import os
import numpy as np

import quadpy_stub
quadpy_stub.install()
from hyperstatic.core import Api                                    # noqa: E402
from hyperstatic.core.fe_model.model import Model                   # noqa: E402
from hyperstatic.core.fe_model.assembly import Assembly             # noqa: E402
from hyperstatic.core.fe_model.load.pattern import LoadPattern      # noqa: E402
from hyperstatic.core.fe_model.load import LoadCase                # noqa: E402
from hyperstatic.core.fe_model.load.loadcase import StaticCase, ModalCase, TimeHistoryCase  # noqa: E402
from hyperstatic.core.fe_solver.static import StaticSolver          # noqa: E402
from hyperstatic.core.fe_solver.dynamic import ModalSolver, TimeHistorySolver  # noqa: E402
from hyperstatic.core.fe_post.node import NodeResultResolver        # noqa: E402
from hyperstatic.core.fe_post.beam import BeamResultResolver        # noqa: E402
from hyperstatic.core.fe_post.structure import StructureResultResolver  # noqa: E402

# E, mu, A, I2, I3, J, rho : well scaled, every value different
SEC = [2.0e4, 0.25, 0.3, 0.02, 0.05, 0.04, 2.5]
SEC2 = [1.1e4, 0.3, 0.5, 0.07, 0.03, 0.06, 1.5]
SYM = [2.0e4, 0.25, 0.3, 0.03, 0.03, 0.05, 2.5]
STEEL = [2e11, 0.3, 0.0188, 4.023e-5, 4.771e-4, 4.133e-6, 7849.0]
FIX = [True] * 6


def pattern_into(api, p, pat):
    """returns the list of reported statuses"""
    st = []
    for n, v in pat.get('node', {}).items():
        st.append(api.set_nodal_load(p, n, *v))
    for b, v in pat.get('dist', {}).items():
        st.append(api.set_beam_load_distributed(p, b, *v))
    for b, v in pat.get('conc', {}).items():
        st.append(api.set_beam_load_concentrated(p, b, *v))
    return st


def build_api(spec, path, ctx=None, cases=None, order=None):
    """spec = dict(nodes={n:[x,y,z]}, beams={b:{n:[i,j],sec:[..7],rel:[..12],kind:'simple'|'beam'}},
    rest={n:[6]}, patterns={p:{node,dist,conc}}, cases={c:{pats:[[p,f]],rest:{}}})"""
    api = Api(path)
    st = []
    for n in (order or {}).get('nodes') or spec['nodes']:
        st.append(api.add_node(n, *spec['nodes'][n]))
    secs = {}
    for b in (order or {}).get('beams') or spec['beams']:
        m = spec['beams'][b]
        E, mu, A, I2, I3, J, rho = m['sec']
        if m.get('kind', 'simple') == 'simple':
            st.append(api.add_simple_beam(b, m['n'][0], m['n'][1], E, mu, A, I2, I3, J, rho))
        else:
            key = tuple(m['sec'])
            if key not in secs:
                secs[key] = 'S%d' % len(secs)
                st.append(api.add_isotropic_material('M' + secs[key], rho, E, mu, 1e-5))
                st.append(api.add_beam_section_general(secs[key], 'M' + secs[key], A, A, A, I2, I3, J, 1.0, 1.0))
            st.append(api.add_beam(b, m['n'][0], m['n'][1], secs[key]))
        if m.get('rel') and any(m['rel']):
            st.append(api.set_beam_release(b, *[bool(x) for x in m['rel']]))
    for n, v in spec.get('rest', {}).items():
        st.append(api.set_nodal_restraint(n, *[bool(x) for x in v]))
    for n, v in spec.get('mass', {}).items():
        st.append(api.set_nodal_mass(n, *v))
    for p, pat in spec['patterns'].items():
        st.append(api.add_loadpattern(p))
        st.extend(pattern_into(api, p, pat))
    for c in cases or spec['cases']:
        cs = spec['cases'][c]
        st.append(api.add_static_case(c))
        for p, f in cs['pats']:
            st.append(api.add_case_pattern(c, p, f))
        for n, v in (cs.get('rest') or {}).items():
            st.append(api.set_loadcase_nodal_restraint(c, n, *[bool(x) for x in v]))
    if ctx is not None:
        ctx.op(len(st))
        ctx.check(all(s is True for s in st), 'build-status', 'an operation on valid arguments did not report success: %r' % (st,))
    return api


def tr_rot(v):
    v = np.asarray(v, float).reshape(-1, 6)
    return v[:, :3].ravel(), v[:, 3:].ravel()


def close_disp(ctx, got, want, key, text, rel=1e-6, floor=0.0):
    """Displacements: translations and rotations have their own units, hence their own scales."""
    got = np.asarray(got, float).ravel()
    want = np.asarray(want, float).ravel()
    if got.shape != want.shape:
        ctx.check(False, key, lambda: '%s: shape %r, expected %r' % (text, got.shape, want.shape))
        return False
    gt, gr = tr_rot(got)
    wt, wr = tr_rot(want)
    # a vanishing family is judged against the other one (coordinates in the models are of order one)
    m = max(np.max(np.abs(wt), initial=0), np.max(np.abs(wr), initial=0), floor)
    ok = ctx.close(gt, wt, key, lambda: (text() if callable(text) else text) + ' (translations)', rel=rel, scale=max(np.max(np.abs(wt), initial=0), 1e-2 * m))
    ok2 = ctx.close(gr, wr, key, lambda: (text() if callable(text) else text) + ' (rotations)', rel=rel, scale=max(np.max(np.abs(wr), initial=0), 1e-2 * m))
    return ok and ok2


def all_disp(api, spec, case):
    """{node: 6-vector} through the all-nodes query."""
    r = api.result_get_all_nodal_displacement(case)
    return r
