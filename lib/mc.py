"""Bounded exhaustive explorer.

A check module (checks/Pnn.py) defines

    ID, LEVEL, RULE, ASSUMPTIONS
    def cases(tier):       yields every case of the bounded space, simplest first
                           (JSON-able; one case = one subtree / one model / one crash point ...)
    def run(case, ctx):    drives the REAL code of /repo through that case and reports to ctx

The driver enumerates ALL cases (never a sample), runs them in forked workers,
re-executes each failing case to make sure the failure is reproducible, writes
the replay artefact and the evidence file, and prints the verdict lines.
"""
import argparse
import concurrent.futures as cf
import hashlib
import importlib
import io
import json
import logging
import math
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class CaseTimeout(BaseException):
    pass


class Ctx:
    """What one execution of a case reports."""

    def __init__(self, tier='quick'):
        self.tier = tier
        self.failures = []          # (key, text)
        self.states = set()         # 64-bit hashes of canonical states reached
        self.outcomes = set()       # hashes of distinct observed outcomes
        self.transitions = 0        # operations executed on the real code
        self.traces = 0             # complete traces compared with the oracle
        self.evals = 0              # oracle comparisons
        self.extra = {}             # named counters
        self._tmp = []

    # -- coverage
    def state(self, *canon):
        self.states.add(h64(canon))

    def outcome(self, *canon):
        self.outcomes.add(h64(canon))

    def op(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # -- verdicts
    def fail(self, key, text):
        key = str(key)
        if len(self.failures) < 300 and all(k != key for k, _t in self.failures):
            self.failures.append((key, str(text)[:4000]))

    def check(self, cond, key, text):
        self.evals += 1
        if not cond:
            self.fail(key, text() if callable(text) else text)
            return False
        return True

    def close(self, got, want, key, text, rel=1e-6, abs_=0.0, scale=None):
        """got == want up to rel*scale (scale: by default the largest magnitude in want)."""
        import numpy as np
        self.evals += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
            ok = g.shape == w.shape
            if ok:
                s = scale if scale is not None else (float(np.max(np.abs(w))) if w.size else 0.0)
                ok = bool(np.all(np.abs(g - w) <= rel * s + abs_))   # False for nan
        except Exception as e:      # not numeric at all
            g, w, ok = got, want, False
        if not ok:
            t = text() if callable(text) else text
            self.fail(key, '%s\n  got  %s\n  want %s' % (t, fmt(got), fmt(want)))
        return ok

    # -- scratch
    def scratch(self):
        d = tempfile.mkdtemp(prefix='vfy')
        self._tmp.append(d)
        return d

    def cleanup(self):
        for d in self._tmp:
            shutil.rmtree(d, ignore_errors=True)
        self._tmp = []


def fmt(v):
    import numpy as np
    try:
        return np.array2string(np.asarray(v), precision=8, max_line_width=200, threshold=200)
    except Exception:
        return repr(v)


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), 'big')


def scratch_root():
    for d in ('/dev/shm', tempfile.gettempdir()):
        try:
            p = tempfile.mkdtemp(prefix='vfyroot', dir=d)
            return p
        except OSError:
            continue
    return tempfile.mkdtemp(prefix='vfyroot')


def quiet_process():
    """The code under test prints and logs; keep that out of the verdict stream."""
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = io.TextIOWrapper(os.fdopen(1, 'wb', closefd=False))
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')


def _alarm(sig, frm):
    raise CaseTimeout()


_MOD = None
_TIER = 'quick'
_LIMIT = 200.0


def _winit(root):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    quiet_process()
    tempfile.tempdir = tempfile.mkdtemp(prefix='w', dir=root)
    os.chdir(tempfile.tempdir)


def execute(case):
    ctx = Ctx(_TIER)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, _LIMIT)
    try:
        _MOD.run(case, ctx)
    except CaseTimeout:
        ctx.fail('no-termination', 'the code under test did not come back within %g s' % _LIMIT)
    except MemoryError:
        ctx.fail('memory', 'the code under test exhausted the memory')
    except BaseException as e:      # an exception that no oracle expects is a wrong answer
        if isinstance(e, KeyboardInterrupt):
            raise
        ctx.fail('exception:' + type(e).__name__,
                 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.cleanup()
    return ctx


def _chunk(chunk):
    out = {'f': [], 's': set(), 'o': set(), 't': 0, 'tr': 0, 'e': 0, 'x': {}, 'n': 0}
    for case in chunk:
        c = execute(case)
        out['n'] += 1
        out['s'] |= c.states
        out['o'] |= c.outcomes
        out['t'] += c.transitions
        out['tr'] += c.traces
        out['e'] += c.evals
        for k, v in c.extra.items():
            out['x'][k] = out['x'].get(k, 0) + v
        for key, text in c.failures:
            out['f'].append((case, key, text))
    return out


def _rerun(case, q):
    quiet_process()
    c = execute(case)
    q.put([(k, t) for k, t in c.failures])


def load_findings(prop):
    known, fixed = {}, []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                body = line.split('key=', 1)[1]
                key, _, what = body.partition(' | ')
                known[key.strip()] = what.strip()
    return known


def setup_imports():
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
    sys.dont_write_bytecode = True
    for v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    for d in (os.path.join(VERIF, 'checks'), os.path.join(VERIF, 'lib')):
        if d not in sys.path:
            sys.path.insert(0, d)
    sys.path = [REPO] + [p for p in sys.path if p != REPO]
    import quadpy_stub
    quadpy_stub.install()


def chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) >= n:
            yield buf
            buf = []
    if buf:
        yield buf


def main(argv=None):
    global _MOD, _TIER, _LIMIT
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 1)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    setup_imports()
    _TIER = tier
    prop = a.prop
    out = sys.stdout
    root = scratch_root()
    rc = 2
    try:
        rc = _main(prop, tier, seed, a, t0, root, out)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    out.flush()
    return rc


def _violation(out, prop, case, key, text, idx, tier):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (prop, idx))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'key': key, 'case': case, 'what': text}, f, indent=1, default=str)
    out.write('property %s broken [%s]\n%s\n' % (prop, key, text))
    out.write('  replay: /verif/check %s --replay %s\n' % (prop, path))
    out.write('VIOLATION property=%s replay=%s\n' % (prop, path))


def _main(prop, tier, seed, a, t0, root, out):
    global _MOD, _LIMIT
    import_error = None
    try:
        # keep import-time chatter of the code under test away from the verdict
        logging.disable(logging.CRITICAL)
        so, sys.stdout = sys.stdout, io.StringIO()
        try:
            _MOD = importlib.import_module(prop)
            if hasattr(_MOD, 'prepare'):
                _MOD.prepare(tier, root)
        finally:
            sys.stdout = so
    except BaseException as e:
        import_error = traceback.format_exc()
    if import_error is not None:
        # the code under test cannot even be loaded: no property of it holds
        _violation(out, prop, None, 'load', import_error[-3000:], 0, tier)
        write_evidence(prop, tier, seed, 'exploration', {'evaluations': 1, 'distinct_nontrivial': 1,
                       'rule': 'the code under test could not be loaded', 'samples': [import_error[-500:]]},
                       time.time() - t0, 1, [])
        return 1
    _LIMIT = getattr(_MOD, 'CASE_LIMIT', 200.0)
    known = load_findings(prop)

    if a.replay:
        case = json.load(open(a.replay))['case']
        c = _in_process(case, root)
        for k, t in c:
            out.write('reproduced [%s]%s\n%s\n' % (k, ' (known finding)' if k in known else '', t))
        bad = [k for k, t in c if k not in known]
        if not c:
            out.write('not reproduced\n')
        return 1 if bad else 0

    budget = float(os.environ.get('VERIF_BUDGET', '0')) or (700.0 if tier == 'quick' else 6 * 3600.0)
    chunk = getattr(_MOD, 'CHUNK', 8)
    tot = {'n': 0, 't': 0, 'tr': 0, 'e': 0, 'x': {}}
    states, outcomes, failures = set(), set(), []
    n_cases = 0
    capped = None
    rng = random.Random(seed)
    samples = []

    def merge(r):
        tot['n'] += r['n']
        tot['t'] += r['t']
        tot['tr'] += r['tr']
        tot['e'] += r['e']
        for k, v in r['x'].items():
            tot['x'][k] = tot['x'].get(k, 0) + v
        states.update(r['s'])
        outcomes.update(r['o'])
        failures.extend(r['f'])

    def sampled(it):
        nonlocal n_cases
        for c in it:
            n_cases += 1
            if len(samples) < 3:
                samples.append(c)
            else:
                j = rng.randrange(n_cases)
                if j < 3:
                    samples[j] = c
            yield c

    dead = None
    gen = chunks(sampled(_MOD.cases(tier)), chunk)
    ctxmp = multiprocessing.get_context('fork')
    ex = cf.ProcessPoolExecutor(max_workers=a.jobs, mp_context=ctxmp, initializer=_winit, initargs=(root,))
    pend = {}
    unlisted = 0
    try:
        exhausted = False
        while True:
            while not exhausted and len(pend) < a.jobs * 4:
                if time.time() - t0 > budget:
                    capped = 'time budget of %g s' % budget
                    exhausted = True
                    break
                try:
                    ch = next(gen)
                except StopIteration:
                    exhausted = True
                    break
                pend[ex.submit(_chunk, ch)] = ch
            if not pend:
                break
            done, _ = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
            for f in done:
                ch = pend.pop(f)
                try:
                    r = f.result()
                except cf.process.BrokenProcessPool:
                    dead = ch
                    raise
                merge(r)
                unlisted += sum(1 for x in r['f'] if x[1] not in known)
            if unlisted >= 40:
                capped = 'stopped after %d violating cases' % unlisted
                break
    except cf.process.BrokenProcessPool:
        failures.append((dead[0] if dead else None, 'worker-died',
                         'the process running the code under test was killed (crash or memory); chunk: %r' % (dead,)))
    finally:
        ex.shutdown(wait=(capped is None and dead is None), cancel_futures=True)

    # distinct failures; simplest case first; each must reproduce
    bykey = {}
    for case, key, text in failures:
        bykey.setdefault(key, (case, text))
    violations = 0
    idx = 0
    for key, (case, text) in bykey.items():
        if key in known:
            out.write('KNOWN-FINDING: property=%s [%s] %s\n' % (prop, key, known[key]))
            continue
        if violations >= 5:
            violations += 1
            continue
        if key != 'worker-died':
            rep = False
            for _ in range(3):
                got = _in_process(case, root)
                if any(k == key for k, _t in got):
                    rep = True
                    break
            if not rep:
                out.write('note: property=%s a failure [%s] did not reproduce in 3 re-executions: %s\n' % (prop, key, text[:500]))
                tot['x']['unreproduced'] = tot['x'].get('unreproduced', 0) + 1
                continue
        violations += 1
        _violation(out, prop, case, key, text, idx, tier)
        idx += 1

    cov = {
        'states': len(states), 'transitions': tot['t'], 'traces_validated_against_impl': tot['tr'],
        'evaluations': tot['n'], 'distinct_nontrivial': len(outcomes) or len(states),
        'oracle_comparisons': tot['e'], 'distinct_outcomes': len(outcomes),
        'cases_enumerated': n_cases, 'rule': _MOD.RULE.strip(),
        'samples': [json.loads(json.dumps(s, default=str)) for s in samples],
        'exhaustive': capped is None,
    }
    cov.update(tot['x'])
    if capped:
        cov['capped'] = capped
    write_evidence(prop, tier, seed, _MOD.LEVEL, cov, time.time() - t0, violations, list(_MOD.ASSUMPTIONS))
    if violations:
        return 1
    if tot['n'] == 0 or (not states):
        out.write('error: nothing was explored\n')
        return 2
    out.write('ok property=%s tier=%s cases=%d states=%d transitions=%d traces=%d comparisons=%d outcomes=%d %.1fs%s\n' % (
        prop, tier, tot['n'], len(states), tot['t'], tot['tr'], tot['e'], len(outcomes), time.time() - t0,
        ' CAPPED: ' + capped if capped else ''))
    return 0


def _in_process(case, root):
    """Re-execute one case in a fresh forked process."""
    ctxmp = multiprocessing.get_context('fork')
    q = ctxmp.Queue()
    p = ctxmp.Process(target=_rerun_entry, args=(case, q, root))
    p.start()
    try:
        r = q.get(timeout=_LIMIT + 60)
    except Exception:
        r = [('no-termination', 'no answer')]
    p.join(10)
    if p.is_alive():
        p.kill()
    return r


def _rerun_entry(case, q, root):
    tempfile.tempdir = tempfile.mkdtemp(prefix='r', dir=root)
    os.chdir(tempfile.tempdir)
    _rerun(case, q)


def write_evidence(prop, tier, seed, level, cov, wall, violations, assumptions):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
                   'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': violations}, f, indent=1,
                  default=str)
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    sys.exit(main())
