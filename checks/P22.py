"""Response spectra of records: for every record of a bounded family the peak response of each oscillator."""
import itertools as it
import math
import os
import numpy as np
from hyperstatic.app.seismic.wave2spec import wave2spectrum, fft2spec, read_wave, amptitude

ID = 'P22'
LEVEL = 'model_checking'
RULE = """(A) Every record of length up to 4 (6 in the thorough tier) over {-1, 0, 0.5, 2} that is not zero everywhere, followed by
a quiet tail, x steps x damping ratios x design peaks, written to a file and evaluated by convolution: at every period the
acceleration, velocity and displacement spectra equal the peaks of the response of a damped oscillator to the scaled record
(superposition of exact impulse responses); (B) smooth pulses of either sign (every sign and spacing pattern up to three
pulses) by convolution and by Fourier transform against a step-by-step exact integration of the equation of motion; (C)
relations: reversing the sign of a record, multiplying it by a factor, a quiet tail and the design peak. A state is one
(record, step, damping)."""
ASSUMPTIONS = ['spectral acceleration and velocity are pseudo values (w^2 and w times the displacement)', 'the gravity used is 9.8 m/s2',
               'smooth pulses last at least 20 steps; Fourier and exact integration agree to 3 % for periods of at least 10 steps']
CHUNK = 4
V = (-1.0, 0.0, 0.5, 2.0)


def cases(tier):
    n = 4 if tier == 'quick' else 6
    for k in range(1, n + 1):
        for r in it.product(V, repeat=k):
            if any(r):
                yield ['A', list(r)]
    for sg in it.product((1, -1, 0), repeat=3):
        if any(sg):
            for gap in (0, 15, 60) if tier != 'quick' else (0, 40):
                yield ['B', list(sg), gap]
    for n in (300, 700, 5000, 9000, 17000) if tier == 'quick' else (300, 700, 1500, 3000, 5000, 9000, 17000, 33000, 66000):
        yield ['L', n]


def put(ctx, a):
    f = os.path.join(ctx.scratch(), 'rec.txt')
    with open(f, 'w') as g:
        for x in a:
            g.write('%.17g\n' % x)
    return f


def impulse(w, xi, t):
    wd = w * math.sqrt(1 - xi * xi)
    return np.exp(-xi * w * t) * np.sin(wd * t) / wd


def exact(a, dt, w, xi):
    """peak displacement under a piecewise linear record: exact stepping by the state transition matrix"""
    A = np.array([[0, 1.], [-w * w, -2 * xi * w]])
    E = np.zeros((4, 4))
    E[:2, :2] = A
    E[1, 2] = 1.0
    E[2, 3] = 1.0
    from scipy.linalg import expm
    P = expm(E * dt)
    z, top = np.zeros(2), 0.0
    for i in range(len(a) - 1):
        z = P[:2, :2] @ z + P[:2, 2] * a[i] + P[:2, 3] * (a[i + 1] - a[i]) / dt
        top = max(top, abs(z[0]))
    return top


def pulses(sg, gap, m=40):
    p = np.sin(np.pi * np.arange(m + 1) / m) ** 2
    out = [np.zeros(5)]
    for k, s in enumerate(sg):
        out += [s * (1 - 0.2 * k) * p, np.zeros(gap)]
    return np.concatenate(out)


def run(c, ctx):
    if c[0] == 'A':
        for peak in (35.0, 220.0, 1.0):
            ctx.op()
            ctx.close(amptitude(c[1], peak), np.array(c[1]) * peak / np.max(np.abs(c[1])), 'scaling', lambda: 'record %r scaled to the peak %g' % (c[1], peak), rel=1e-12)
        if len(c[1]) <= 2 or ctx.tier != 'quick':
            P = list(it.product((0.02, 0.05), (0.0, 0.05, 0.3), (35.0, 220.0)))
        else:
            P = [(0.05, 0.3, 70.0), (0.05, 0.02, 110.0)]
        for dt, xi, peak in P:
            a = c[1] + [0.0] * 40
            T, sa, sv, sd = wave2spectrum(put(ctx, a), dt, xi, peak)
            ctx.op()
            txt = lambda: 'spectrum of record %r, step %g, damping %g, peak %g' % (c[1], dt, xi, peak)
            n = len(np.arange(dt, 6 + dt, dt))
            if not ctx.check(len(T) == len(sa) == len(sv) == len(sd) == n and abs(T[0] - dt) < 1e-12, 'periods', lambda: txt() + ': periods'):
                return
            g = np.array(a) * 0.01 * peak / np.max(np.abs(a))
            t = np.arange(len(a)) * dt
            want = np.zeros((3, n))
            for i, Ti in enumerate(T):
                w = 2 * np.pi / Ti
                h = impulse(w, xi, t)
                u = np.zeros(len(a))
                for j, x in enumerate(g):
                    if x:
                        u[j:] += x * h[:len(a) - j] * dt
                D = np.max(np.abs(u))
                want[:, i] = w * w * D / 9.8, w * D, D
            for k, (got, nm) in enumerate(((sa, 'acceleration'), (sv, 'velocity'), (sd, 'displacement'))):
                ctx.close(got, want[k], nm, lambda: '%s %s' % (nm, txt()), rel=1e-8)
            ctx.state(c, dt, xi, peak)
            ctx.trace()
            ctx.outcome([float('%.5g' % x) for x in want[2][::7]])
        return
    if c[0] == 'B':
        base = pulses(c[1], c[2])
        what = 'pulses %r, gap %d' % (c[1], c[2])
    else:
        base = np.concatenate([pulses([1, -1, 1], 10), np.zeros(c[1] - 200), 3 * pulses([-1, 1, 0], 0)])
        what = 'record of %d points with its peak at the end' % len(base)
    every = 23 if c[0] == 'B' else 61 if c[1] < 6000 else 113
    for dt, xi in ((0.02, 0.05), (0.01, 0.2)) if c[0] == 'B' else ((0.02, 0.05),):
        a = np.concatenate([base, np.zeros(int(6 / dt))])
        f = put(ctx, a)
        g = a * 0.01 * 70.0 / np.max(np.abs(a))
        Tc, sa, sv, sd = wave2spectrum(f, dt, xi, 70.0)
        Tf, fa = fft2spec(f, dt, xi, 70.0)
        ctx.op(2)
        if not ctx.check(len(Tc) == len(Tf) == len(sa) == len(fa), 'periods', what + ': the two methods have different periods'):
            return
        top = max(sa)
        for i in list(range(10, len(Tc), every)) + [len(Tc) - 1]:
            w = 2 * np.pi / Tc[i]
            x = w * w * exact(g, dt, w, xi) / 9.8
            ctx.close(sa[i], x, 'convolution', lambda: '%s, step %g, damping %g, period %g: by convolution' % (what, dt, xi, Tc[i]), rel=3e-2, abs_=2e-3 * top)
            ctx.close(fa[i], x, 'fourier', lambda: '%s, step %g, damping %g, period %g: by Fourier transform' % (what, dt, xi, Tc[i]), rel=3e-2, abs_=2e-3 * top)
            ctx.state(c, dt, xi, i)
        # sign, factor and quiet tail do not matter
        for nm, b in (('sign', -a), ('factor', 7.5 * a), ('tail', np.concatenate([a, np.zeros(50)]))):
            if c[0] == 'L' and nm != 'sign':
                continue
            q = put(ctx, b)
            ctx.op(2)
            if nm != 'tail':
                ctx.close(wave2spectrum(q, dt, xi, 70.0)[1], sa, 'relation', lambda: '%s, convolution: %s of the record' % (what, nm), rel=1e-8)
            ctx.close(fft2spec(q, dt, xi, 70.0)[1], fa, 'relation', lambda: '%s, Fourier: %s of the record' % (what, nm), rel=1e-8 if nm != 'tail' else 3e-2)
        ctx.close(read_wave(f), a, 'read', what + ': as read from its file', rel=1e-12)
        ctx.trace()
        ctx.outcome([float('%.4g' % x) for x in sa[::11]])
