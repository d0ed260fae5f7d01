"""Crash points and torn writes: an interrupted or failing save/assemble/solve never yields a wrong model or wrong results."""
import os
import resource
import signal
import sys
import numpy as np
import gen
import real
from P10 import sessions, observe

ID = 'P11'
LEVEL = 'model_checking'
RULE = """For each scripted session, the real saving (and assembling and solving) of a new version over an old one - or over
nothing - is executed in a child process that is killed, or whose writes fail, at every crash point: before every file
event (open, rename, remove) and, for every file it writes, after every byte written so far (every torn prefix of every
file; in the quick tier every 11th byte of the long ones), or that runs to the end. What a fresh process then reads must
be the complete old or the complete new version (the old one when the operation reported failure, the new one when it
reported success); results must be the complete old or new ones, or a reported failure. The work is then resumed without
faults and must succeed. All histories of two successive interrupted saves at coarser crash points are included. A state
is one (operation, file event, number of bytes) crash point."""
ASSUMPTIONS = ['NumPy does not report every failed write, so a solve whose write failed may report success; its results must then be a reported failure',
               'bytes reach the file system in the order written (no reordering below the system-call interface)',
               'after an interrupted solve only displacements are compared (forces combine the new loads with the displacements on disk)']
CHUNK = 1
BLOCK = 48


def build(k, work, part):
    """part 0: old version, 1: new version"""
    s = sessions()[k]
    api = real.Api(work)
    n = {0: 24, 1: 25, 2: 6}[k]
    for o in (s[0] if part else s[0][:n]):
        getattr(api, o[0])(*o[1:])
    if not part:
        api.add_node('OLD', 5.0, 5.0, 5.0)
        if k < 2:
            api.set_nodal_restraint('OLD', *gen.F6)
    return api, s


class Hook:
    """one audit hook per child process; counts file events inside the scratch directory"""

    def __init__(self, root):
        self.root = root
        self.n = 0
        self.log = []
        self.die_at = None
        self.limit_at = None
        self.limit = 0
        self.on = False
        sys.addaudithook(self)

    def __call__(self, ev, args):
        if not self.on:
            return
        if ev == 'open':
            path, mode, flags = args
            if not isinstance(path, (str, bytes)) or not isinstance(flags, int):
                return
            w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
            if not w:
                return
        elif ev in ('os.rename', 'os.remove', 'os.link', 'os.truncate', 'shutil.move', 'shutil.copyfile'):
            path = args[0]
            if not isinstance(path, (str, bytes)):
                return
        else:
            return
        path = os.fsdecode(path)
        if not os.path.abspath(path).startswith(self.root):
            return
        self.n += 1
        self.log.append((ev, os.path.basename(path)))
        if self.die_at == self.n:
            os._exit(77)
        if self.limit_at == self.n:
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.limit, resource.RLIM_INFINITY))


def do(op, api, s):
    if op == 'save':
        return api.save('m') is True
    if op == 'asm':
        return api.assemble() is True
    return api.solve_static(s[1][0]) is True


def child(op, api, s, root, fault, dry=False):
    """fault: ('die', n) | ('crash', n, k) | ('err', n, k) | None. Returns ('killed',None) / ('done', status)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            h = Hook(root)
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            if fault:
                if fault[0] == 'die':
                    h.die_at = fault[1]
                else:
                    h.limit_at, h.limit = fault[1], fault[2]
                    if fault[0] == 'crash':
                        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            h.on = True
            ok = do(op, api, s)
            h.on = False
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            if dry:
                os.write(w, repr(h.log).encode())
            else:
                os.write(w, b'1' if ok else b'0')
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    if dry:
        return eval(data.decode())
    if data in (b'0', b'1'):
        return 'done', data == b'1'
    return 'killed', None


_snap = {}


def setup(k, op, prior, work):
    """the work directory before the operation, and the session that performs it"""
    for f in os.listdir(work):
        os.remove(os.path.join(work, f))
    key = (k, op, prior, work)
    if key not in _snap:
        _snap.clear()
        api, s = setup1(k, op, prior, work)
        files = {}
        for f in os.listdir(work):
            with open(os.path.join(work, f), 'rb') as g:
                files[f] = g.read()
        _snap[key] = (api, s, files)
        return api, s
    api, s, files = _snap[key]
    for f, b in files.items():
        with open(os.path.join(work, f), 'wb') as g:
            g.write(b)
    return api, s


def setup1(k, op, prior, work):
    if prior:
        old, s = build(k, work, 0)
        if op == 'save':
            assert old.save('m')
        elif op in ('asm', 'solve'):
            assert old.assemble() and old.solve_static(s[1][0])
    new, s = build(k, work, 1)
    if op == 'solve':
        new.assemble()
    return new, s


_files = {}


def profile(k, op, prior):
    key = (k, op, prior)
    if key not in _files:
        import tempfile
        import shutil
        w = tempfile.mkdtemp(prefix='vfyp')
        try:
            api, s = setup(k, op, prior, w)
            log = child(op, api, s, w, None, True)
            sizes = []
            for ev, name in log:
                size = 0
                if ev == 'open':
                    sz = [os.path.getsize(os.path.join(w, f)) for f in os.listdir(w) if f == name or (name.endswith('.tmp') and f == name[:-4])]
                    size = max(sz) if sz else max([os.path.getsize(os.path.join(w, f)) for f in os.listdir(w)] + [0])
                sizes.append(size)
            _files[key] = sizes
        finally:
            shutil.rmtree(w, ignore_errors=True)
    return _files[key]


def cases(tier):
    big = 11 if tier == 'quick' else 1
    for k, op, prior in ((2, 'save', 1), (2, 'save', 0), (0, 'save', 1), (0, 'asm', 1), (0, 'asm', 0), (0, 'solve', 1), (0, 'solve', 0), (1, 'save', 1), (1, 'save', 0), (1, 'solve', 1), (1, 'asm', 1)):
        sizes = profile(k, op, prior)
        yield ['die', k, op, prior]
        for n, size in enumerate(sizes):
            if size:
                step = 1 if size < 1500 else big
                for mode in ('crash', 'err'):
                    for b in range(0, size + 2, BLOCK * step):
                        yield [mode, k, op, prior, n + 1, b, step]
    for k in (0, 2):
        for i in range(12):
            yield ['two', k, i]


def after(ctx, c, k, op, prior, w, new, s, res, where, obs):
    ctx.op(3)
    if op == 'save':
        got = real.Api.load(w, 'm')
        if got is None:
            ok = not prior
            which = 'none'
        else:
            o = observe(ctx, got, s, False)
            which = 'new' if o == obs['new'] else 'old' if prior and o == obs['old'] else 'neither'
            ok = which != 'neither'
        ctx.check(ok, 'torn:save', lambda: 'after a save interrupted %s, loading gives %s' % (where, 'nothing: the model saved earlier is lost' if which == 'none' else 'neither the old nor the new model'))
        if res[0] == 'done':
            ctx.check(which == 'new' if res[1] else which == ('old' if prior else 'none'), 'status:save',
                      lambda: 'save %s reported %s but loading gives the %s model' % (where, 'success' if res[1] else 'failure', which))
    else:
        case = s[1][0]
        if (k, w) not in _rd:
            _rd.clear()
            _rd[k, w] = build(k, w, 1)[0]
        reader = _rd[k, w]
        # a fresh process: results of the nodes both versions have
        vals = {}
        for n in s[2]:
            v = reader.result_get_nodal_displacement(n, case)
            vals[n] = None if v is None else tuple(float(x) for x in np.ravel(v))
        known = [x for x in (obs['dold'] if prior else None, obs['dnew']) if x is not None]
        if op == 'asm':
            known = [obs['dold']] if prior else []
            if not prior:
                ctx.check(all(v is None for v in vals.values()), 'torn:asm', lambda: 'results exist although nothing was solved (interrupted %s): %r' % (where, vals))
        good = all(v is None or any(np.shape(v) == np.shape(x[n]) and np.allclose(v, x[n], rtol=1e-9, atol=1e-12) for x in known) for n, v in vals.items())
        ctx.check(good, 'torn:' + op, lambda: 'after %s interrupted %s a displacement query returns %r; complete results are %r' % (op, where, vals, known))
        if op == 'asm':
            # solving on whatever is there: a failure, or complete results of the old or the new model
            r = reader.solve_static(case)
            ctx.check(r in (True, False), 'status:asm', 'no status from solving after an interrupted assemble')
            if r is True:
                v = {n: tuple(float(x) for x in np.ravel(reader.result_get_nodal_displacement(n, case))) for n in s[2]}
                ctx.check(any(np.shape(v[n]) == np.shape(x[n]) and all(np.allclose(v[m], x[m], rtol=1e-9, atol=1e-12) for m in v) for x in (obs['dold'], obs['dnew']) for n in list(v)[:1]),
                          'torn:asm', lambda: 'after an assemble interrupted %s solving gives %r' % (where, v))
            if res[0] == 'done' and res[1]:
                ctx.check(r is True, 'status:asm', lambda: 'assembling reported success %s but solving fails' % where)
    # resume without faults
    ctx.op(2)
    if op == 'save':
        ctx.check(new.save('m') is True, 'resume', lambda: 'saving again after an interruption %s fails' % where)
        again = real.Api.load(w, 'm')
        ctx.check(again is not None and observe(ctx, again, s, False) == obs['new'], 'resume', lambda: 'saving again after an interruption %s does not restore the model' % where)
    else:
        ctx.check(new.assemble() is True and new.solve_static(s[1][0]) is True, 'resume', lambda: '%s again after an interruption %s fails' % (op, where))
        v = new.result_get_all_nodal_displacement(s[1][0])
        ctx.check(v is not None and all(np.allclose(v[n], obs['dnew'][n], rtol=1e-9, atol=1e-12) for n in s[2]), 'resume', lambda: '%s again after an interruption %s gives other results' % (op, where))


_obs = {}
_rd = {}


def observations(ctx, k, op):
    if (k, op) in _obs:
        return _obs[k, op]
    o = {}
    w = ctx.scratch()
    for part, nm in ((0, 'old'), (1, 'new')):
        api, s = build(k, w, part)
        o[nm] = observe(ctx, api, s, False)
        if op != 'save':
            assert api.assemble() and api.solve_static(s[1][0])
            o['d' + nm] = {n: tuple(float(x) for x in np.ravel(api.result_get_nodal_displacement(n, s[1][0]))) for n in s[2]}
    _obs[k, op] = o
    return o


def run(c, ctx):
    w = ctx.scratch()
    if c[0] == 'two':
        # old, then two interrupted saves, each of a different newer version
        k = c[1]
        obs = observations(ctx, k, 'save')
        sizes = profile(k, 'save', 1)
        pts = [(n + 1, int(f * sz)) for n, sz in enumerate(sizes) for f in ((0.0, 0.3, 0.7, 0.999) if sz else (0,))]
        pts += [None] * (12 - len(pts)) if len(pts) < 12 else []
        if c[2] >= len(pts):
            return
        for p2 in pts:
            new, s = setup(k, 'save', 1, w)
            mid, _ = build(k, w, 1)
            mid.add_node('MID', 9., 9., 9.)
            omid = observe(ctx, mid, s, False)
            for api, p in ((mid, pts[c[2]]), (new, p2)):
                ctx.op()
                child('save', api, s, w, p and ('crash', p[0], p[1]))
            got = real.Api.load(w, 'm')
            o = got and observe(ctx, got, s, False)
            ctx.check(got is not None and o in (obs['old'], obs['new'], omid), 'torn:two', lambda: 'two interrupted saves (%r, %r) leave %s' % (pts[c[2]], p2, 'nothing' if got is None else 'a model that was never saved'))
            ctx.check(new.save('m') is True and observe(ctx, real.Api.load(w, 'm'), s, False) == obs['new'], 'resume', lambda: 'saving after two interrupted saves fails')
            ctx.trace()
            ctx.state('two', k, c[2], p2)
            ctx.outcome('two', o)
        return
    k, op, prior = c[1:4]
    obs = observations(ctx, k, op)
    if c[0] == 'die':
        for n in range(1, 40):
            new, s = setup(k, op, prior, w)
            res = child(op, new, s, w, ('die', n))
            after(ctx, c, k, op, prior, w, new, s, res, 'before file event %d' % n, obs)
            ctx.trace()
            ctx.state(k, op, prior, 'die', n)
            ctx.outcome(k, op, prior, n, res)
            if res[0] == 'done':
                break
        return
    mode, n, b, step = c[0], c[4], c[5], c[6]
    for byte in range(b, b + BLOCK * step, step):
        new, s = setup(k, op, prior, w)
        res = child(op, new, s, w, (mode, n, byte))
        after(ctx, c, k, op, prior, w, new, s, res, 'in file %d after %d bytes (%s)' % (n, byte, 'process killed' if mode == 'crash' else 'write error'), obs)
        ctx.trace()
        ctx.state(k, op, prior, mode, n, byte)
        ctx.outcome(k, op, prior, mode, n, byte, res)
        if res == ('done', True):
            break       # beyond the end of the file: nothing was interrupted
