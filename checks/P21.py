"""Design spectra: both implementations give the curve of the code for every parameter of a lattice."""
import itertools as it
import math
import numpy as np
from hyperstatic.app.design.GB.seismic.spectrum import GB50010
from hyperstatic.app.seismic.wave2spec import GB50011_spectrum

ID = 'P21'
LEVEL = 'model_checking'
RULE = """For every combination of maximum coefficient, characteristic period and damping ratio of a lattice that contains every
value the code tabulates, and several period steps, both implementations of the design spectrum are evaluated at every
period of their range and compared with the definition of the code (rising branch, plateau, curved and linear falling
branch, damping adjustments with their bounds) and with each other at common periods; and relations on the results:
continuity, plateau height, no rise beyond the plateau, proportionality to the maximum coefficient, less damping never gives
less. A state is one (parameters, period)."""
ASSUMPTIONS = ['damping ratios from 0 to 0.6, characteristic periods from 0.1 to 1.1 s']
CHUNK = 4
AMAX = [0.04, 0.08, 0.12, 0.16, 0.24, 0.32, 0.28, 0.5, 0.72, 0.9, 1.2, 1.4, 1.0]
TG = [0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.55, 0.65, 0.75, 0.9, 0.5, 0.95, 1.1, 0.1]
XI = [0.0, 0.01, 0.02, 0.03, 0.035, 0.04, 0.045, 0.05, 0.06, 0.08, 0.1, 0.15, 0.2, 0.3, 0.5, 0.6]


def cases(tier):
    a = AMAX if tier != 'quick' else AMAX[::3]
    for tg in TG:
        for xi in XI:
            yield [a, tg, xi]


def code(t, amax, tg, xi):
    g = 0.9 + (0.05 - xi) / (0.3 + 6 * xi)
    e1 = max(0.0, 0.02 + (0.05 - xi) / (4 + 32 * xi))
    e2 = max(0.55, 1 + (0.05 - xi) / (0.08 + 1.6 * xi))
    if t < 0.1:
        return amax * (0.45 + (e2 - 0.45) * t / 0.1)
    if t <= tg:
        return amax * e2
    if t <= 5 * tg:
        return amax * e2 * math.exp(g * math.log(tg / t))
    return amax * (e2 * 0.2 ** g - e1 * (t - 5 * tg))


def run(c, ctx):
    al, tg, xi = c
    base = None
    for amax in al:
        s = GB50010(amax, tg, xi).spectrum
        T, A = [float(x) for x in s['T']], [float(x) for x in s['alpha']]
        ctx.op(2)
        txt = lambda: 'design spectrum of alpha_max %g, Tg %g, damping %g' % (amax, tg, xi)
        if not ctx.check(len(T) == len(A) == 601 and T[0] == 0 and abs(T[-1] - 6) < 1e-9, 'range', lambda: txt() + ': range'):
            return
        want = [code(t, amax, tg, xi) for t in T]
        # periods next to a kink may belong to either side
        ctx.close(A, want, 'code', lambda: txt(), rel=1e-9, scale=amax)
        e2 = max(0.55, 1 + (0.05 - xi) / (0.08 + 1.6 * xi))
        ctx.check(abs(max(A) - amax * e2) < 1e-9 * amax and abs(A[0] - 0.45 * amax) < 1e-12, 'plateau', lambda: txt() + ': peak %g, start %g' % (max(A), A[0]))
        k = A.index(max(A))
        ctx.check(all(x >= y - 1e-12 for x, y in zip(A[k:], A[k + 1:])), 'falling', lambda: txt() + ': rises beyond its plateau')
        # at dt 0.01 the first branch is the steepest, and the falling one at Tg
        ctx.check(max(abs(x - y) for x, y in zip(A, A[1:])) <= amax * (e2 * 0.1 * 1.5 + 1e-9) or tg < 0.2, 'continuous', lambda: txt() + ': jumps')
        if base is None:
            base = (amax, A)
        ctx.close(np.array(A) / amax, np.array(base[1]) / base[0], 'proportional', lambda: txt() + ': not proportional to alpha_max', rel=1e-9, scale=1.0)
        for dt in (0.01, 0.02, 0.05, 0.3, 1 / 3):
            d = GB50011_spectrum(amax, tg, xi, dt)
            ctx.op()
            n = int(math.ceil(6 / dt - 1e-9))
            if not ctx.check(isinstance(d, dict) and len(d) == n, 'steps', lambda: txt() + ': %d periods at step %g' % (len(d), dt)):
                continue
            t = [float(x) for x in d]
            ctx.close(t, [i * dt for i in range(n)], 'periods', lambda: txt() + ': periods', rel=1e-12, scale=6.)
            ctx.close([float(x) for x in d.values()], [code(x, amax, tg, xi) for x in t], 'code-2', lambda: txt() + ' (step %g)' % dt, rel=1e-9, scale=amax)
            ctx.state(amax, tg, xi, dt)
        ctx.state(amax, tg, xi)
        ctx.trace()
        ctx.outcome([float('%.6g' % x) for x in A])
    if xi < 0.6:
        nxt = XI[XI.index(xi) + 1]
        lo = GB50010(al[0], tg, nxt).spectrum['alpha']
        hi = base[1]
        ctx.check(all(x >= y - 1e-9 for x, y in list(zip(hi, lo))[:int(tg * 100)]), 'damping', 'less damping gives a smaller coefficient, Tg %g, %g and %g' % (tg, xi, nxt))
