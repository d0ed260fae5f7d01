"""The work directory: created on demand, holds all results, cleared completely and alone; faults while clearing."""
import itertools as it
import os
import shutil
import signal
import sys
import numpy as np
import gen
import ref as refm
import real

ID = 'P23'
LEVEL = 'model_checking'
RULE = """Every history up to depth 3 (and 4 without the modal case and foreign files; all up to 5 in the thorough tier) over {change the load, assemble, solve a case, solve the modal case,
save, load what was saved, clear the workspace, put foreign files, directories and links (to a directory and a file beside it, to nowhere) into it, remove it from outside, let a
session in a neighbouring directory solve and save}, for work directories given absolutely (and, one step shallower,
relatively, with a trailing slash, and with blanks), on the real Api against a reference: statuses, results (independent
oracle), what is loaded, the content of the work directory after clearing, and every byte around it. Plus every fault
point of clearing: each file-system call it makes fails, or the process is killed before it - after every kind of content -
followed by queries, a second clearing and a new solution. A state is one (directory, assembled, results, saved) content."""
ASSUMPTIONS = ['the parent of the work directory exists', 'the work directory is not a symbolic link and holds no foreign processes']
CHUNK = 24
OPS = 'LASEVOCFXZ'
STYLES = ['abs', 'rel', 'slash', 'blank']
EVENTS = ('os.remove', 'os.rmdir', 'os.mkdir', 'os.rename', 'os.link', 'os.truncate', 'shutil.rmtree', 'shutil.move', 'os.symlink', 'os.chmod', 'os.chown')


class Guard:
    """keeps deletions and writes of the code under test inside the scratch directory, whatever it was changed to do"""

    def __init__(self):
        self.root = None
        self.n = 0
        self.at = None
        self.how = None
        self.armed = False
        sys.addaudithook(self)

    def where(self, path, fd):
        path = os.fsdecode(path) if isinstance(path, (str, bytes, os.PathLike)) else None
        if path is None:
            return None
        if not os.path.isabs(path) and isinstance(fd, int) and fd >= 0:
            path = os.path.join(os.readlink('/proc/self/fd/%d' % fd), path)
        return os.path.abspath(path)

    def __call__(self, ev, args):
        if self.root is None:
            return
        if ev in ('os.system', 'subprocess.Popen', 'os.exec', 'os.posix_spawn', 'os.kill'):
            raise PermissionError('not in a check')
        if ev == 'open':
            path, mode, flags = args
            if not isinstance(flags, int) or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                return
            if isinstance(path, int):
                return
            fd = None
        elif ev in EVENTS:
            path = args[0]
            fd = {'os.remove': 1, 'os.rmdir': 1, 'os.mkdir': 2, 'shutil.rmtree': 1}.get(ev)
            fd = args[fd] if fd is not None and len(args) > fd else None
        else:
            return
        if isinstance(path, int):
            return
        p = self.where(path, fd)
        if p is not None and p != '/dev/null' and not (p + '/').startswith(self.root + '/'):
            raise PermissionError('outside of the scratch directory: ' + p)
        if self.armed and ev != 'open':
            self.n += 1
            if self.at == self.n:
                if self.how == 'kill':
                    os._exit(77)
                raise OSError(5, 'injected')


_guard = []


def guard():
    if not _guard:
        _guard.append(Guard())
    return _guard[0]


def spec():
    s = gen.graph_frame([(0, 1), (2, 1)], {k: gen.P4[k] for k in 'ABC'}, 0b01, {'A': gen.F6, 'C': gen.F6})
    s['patterns'] = {'P': {'node': {'B': list(gen.FULL_NODE)}, 'dist': {'m0': list(gen.FULL_DIST)}}}
    s['cases'] = {'c': {'pats': [['P', 1.5]]}}
    return s


_o = {}


def oracle(n):
    if n not in _o:
        s = spec()
        s['patterns']['P']['node']['B'] = [x * (1 + n) for x in gen.FULL_NODE]
        _o[n] = refm.Frame(s).solve('c')
    return _o[n]


def session(work):
    api = real.build_api(spec(), work)
    api.add_modal_case('e')
    return api


def tree(d, skip=None):
    out = {}
    for r, ds, fs in os.walk(d):
        if skip:
            ds[:] = [x for x in ds if os.path.join(r, x) != skip]
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d)] = None
        for x in fs:
            with open(os.path.join(r, x), 'rb') as f:
                out[os.path.relpath(os.path.join(r, x), d)] = f.read()
    return out


class World:
    def __init__(self, ctx, style='abs'):
        self.top = ctx.scratch()
        self.dir = os.path.join(self.top, 'out')
        os.mkdir(self.dir)
        for n in ('ws.txt', 'w', 'wsx'):
            with open(os.path.join(self.dir, n), 'w') as f:
                f.write(n)
        os.mkdir(os.path.join(self.dir, 'ws2'))
        self.ws = os.path.join(self.dir, 'my ws' if style == 'blank' else 'ws')
        self.given = {'abs': self.ws, 'rel': 'ws', 'slash': self.ws + '/', 'blank': self.ws}[style]
        os.chdir(self.dir)
        self.n = 0          # version of the load
        self.exists = True
        self.asm = False    # assembled data in the directory
        self.base = None    # version assembled
        self.res = None     # version solved
        self.modal = False
        self.saved = None   # version saved
        self.foreign = False
        self.z = 0
        self.api = session(self.given)
        self.other = None

    def gone(self):
        self.asm = False
        self.res = self.saved = None
        self.modal = self.foreign = False

    def key(self):
        return (self.n, self.exists, self.asm, self.base if self.asm else None, self.res, self.modal, self.saved, self.foreign, min(self.z, 2))


def step(w, o, ctx, h):
    a = w.api
    if o == 'L':
        w.n += 1
        return a.set_nodal_load('P', 'B', *[x * (1 + w.n) for x in gen.FULL_NODE]), True
    if o == 'A':
        st = a.assemble()
        w.exists = w.asm = True
        w.base = w.n
        return st, True
    if o == 'S':
        st = a.solve_static('c')
        if w.asm:
            w.res = w.base
        return st, w.asm
    if o == 'E':
        st = a.solve_modal('e', 2)
        if w.asm:
            w.modal = True
        return st, w.asm
    if o == 'V':
        if w.exists:
            w.saved = w.n
        return a.save('s'), w.exists
    if o == 'O':
        b = real.Api.load(w.given, 's')
        if w.saved is None:
            ctx.check(b is None, 'load-after-clear', lambda: '%s: a model is loaded although none is saved' % h)
        elif ctx.check(isinstance(b, real.Api), 'load', lambda: '%s: nothing is loaded' % h):
            v = w.saved
            n = len(os.listdir(w.ws))
            ctx.check(b.get_node_names() == a.get_node_names() and b.get_beam_names() == a.get_beam_names(), 'load', lambda: '%s: another model is loaded' % h)
            if w.res == v == w.n:    # the loaded session reads the results of the same directory
                d = b.result_get_nodal_displacement('B', 'c')
                ctx.check(d is not None and np.allclose(d, a.result_get_nodal_displacement('B', 'c')), 'load', lambda: '%s: the loaded session reports other results' % h)
        return True, True
    if o == 'C':
        st = a.clear_workspace()
        if w.exists:
            ctx.check(os.path.isdir(w.ws) and os.listdir(w.ws) == [], 'not-empty', lambda: '%s: the work directory contains %r after clearing' % (h, sorted(os.listdir(w.ws)) if os.path.isdir(w.ws) else 'nothing, it is missing'))
        w.gone()
        return st, w.exists
    if o == 'F':
        if w.exists:
            os.makedirs(os.path.join(w.ws, 'sub', 'deep'), exist_ok=True)
            for f, to in (('link', w.dir + '/ws2'), ('.hidden link', w.dir + '/ws.txt'), ('broken', 'nowhere'), ('sub/up', '..')):
                if not os.path.lexists(os.path.join(w.ws, f)):
                    os.symlink(to, os.path.join(w.ws, f))
            os.makedirs(os.path.join(w.ws, '.hidden'), exist_ok=True)
            for f in ('notes.txt', '.hidden/z', 'sub/x.npy', 'sub/deep/y'):
                with open(os.path.join(w.ws, f), 'w') as g:
                    g.write('foreign')
            w.foreign = True
        return True, True
    if o == 'X':
        if w.exists:
            shutil.rmtree(w.ws)
        w.exists = False
        w.gone()
        return True, True
    if o == 'Z':
        if w.other is None:
            w.other = session(os.path.join(w.dir, 'ws2'))
        w.z += 1
        w.other.set_nodal_load('P', 'B', *[x * (1 + w.z) for x in gen.FULL_NODE])
        return (w.other.assemble(), w.other.solve_static('c'), w.other.save('s')), (True, True, True)


def results(w, ctx, h):
    a = w.api
    d = [a.result_get_nodal_displacement(n, 'c') for n in 'ABC']
    if w.res is None:
        ctx.check(all(x is None for x in d) and a.result_get_beam_end_force('m0', 'c') is None and a.result_get_nodal_reaction('A', 'c') is None,
                  'results-after-clear', lambda: '%s: results of case c are reported although there are none' % h)
    elif ctx.check(all(x is not None for x in d), 'no-results', lambda: '%s: no displacements' % h):
        o = oracle(w.res)
        real.close_disp(ctx, np.concatenate([np.ravel(x) for x in d]), o['d'], 'displacement', lambda: '%s: displacements' % h)
        if w.asm and w.base == w.res:
            sf = np.max(np.abs(o['reac']))
            ctx.close(np.concatenate([np.ravel(a.result_get_nodal_reaction(n, 'c')) for n in 'ABC']), o['reac'], 'reaction', lambda: '%s: reactions' % h, scale=sf)
            ctx.close(np.ravel(a.result_get_beam_end_force('m0', 'c')), o['ends']['m0'], 'end-force', lambda: '%s: end forces' % h, scale=sf)
    if w.other is not None:
        o = oracle(w.z)
        real.close_disp(ctx, np.concatenate([np.ravel(w.other.result_get_nodal_displacement(n, 'c')) for n in 'ABC']), o['d'], 'neighbour', lambda: '%s: displacements of the neighbouring session' % h)
        ctx.check(isinstance(real.Api.load(os.path.join(w.dir, 'ws2'), 's'), real.Api), 'neighbour', lambda: '%s: what the neighbouring session saved is gone' % h)


def cases(tier):
    D = 4 if tier == 'quick' else 5
    for k in range(1, D + 1):
        for h in it.product(OPS, repeat=k):
            if k > 2 and not set(h) & set('CX') or k == D and tier == 'quick' and set(h) & set('EF'):
                continue
            for s in STYLES:
                if s == 'abs' or k < D:
                    yield ['H', s, ''.join(h)]
    for pre in ('', 'A', 'AS', 'ASV', 'ASEVF', 'F', 'VFZ', 'ASX', 'C'):
        for how in ('fail', 'kill'):
            yield ['F', pre, how]


def run(c, ctx):
    g = guard()
    if c[0] == 'H':
        w = World(ctx, c[1])
        g.root, g.armed = w.top, False
        try:
            ctx.check(os.path.isdir(w.ws), 'created', 'the work directory %r was not created' % w.given)
            around = tree(w.dir, w.ws)
            for k, o in enumerate('AS' + c[2]):
                h = '%s, directory %r, operation %d' % (c[2], w.given, k - 1)
                ctx.op()
                got, want = step(w, o, ctx, h)
                ctx.check(got == want, 'status:' + o, lambda: '%s (%s) reports %r, expected %r' % (h, o, got, want))
                now = tree(w.dir, w.ws)
                if o == 'Z':
                    around = now
                ctx.check(now == around, 'outside', lambda: '%s (%s) changed what is outside of the work directory: %r' % (h, o, sorted(set(now) ^ set(around))))
                if w.foreign:
                    ctx.check(os.path.isfile(os.path.join(w.ws, 'notes.txt')) and os.path.isfile(os.path.join(w.ws, 'sub/deep/y')), 'foreign', lambda: '%s (%s) removed foreign files' % (h, o))
                if o in 'CXSZ':
                    results(w, ctx, h)
                ctx.state(w.key())
            results(w, ctx, c[2])
            # the session goes on
            ctx.check((w.api.assemble(), w.api.solve_static('c')) == (True, True), 'resume', lambda: c[2] + ': cannot be solved afterwards')
            w.asm, w.base, w.res = True, w.n, w.n
            results(w, ctx, c[2] + ', solved again')
            ctx.trace()
            ctx.outcome(w.key())
        finally:
            g.root = None
            os.chdir('/')
        return
    at = 0
    while at < 200:
        at += 1
        w = World(ctx)
        h = 'clearing after %r, %s at file operation %d' % (c[1], 'failure' if c[2] == 'fail' else 'killed', at)
        for o in c[1]:
            step(w, o, ctx, h)
        around = tree(w.dir, w.ws)
        old = w.res
        r, q = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                g.root, g.armed, g.n, g.at, g.how = w.top, True, 0, at, c[2]
                st = w.api.clear_workspace()
                g.armed = False
                os.write(q, b'%d %d' % (1 if st is True else 0 if st is False else 2, g.n))
            except BaseException:
                os.write(q, b'3 0')
            finally:
                os._exit(0)
        os.close(q)
        data = b''
        while True:
            b = os.read(r, 4096)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        ctx.op()
        ctx.state('fault', c, at)
        ctx.check(tree(w.dir, w.ws) == around, 'outside', lambda: h + ': changed what is outside of the work directory')
        if data:
            st, n = map(int, data.split())
            ctx.check(st in (0, 1), 'fault-status', lambda: h + ': status %d' % st)
            if st == 1:
                ctx.check(os.path.isdir(w.ws) and not os.listdir(w.ws), 'not-empty', lambda: h + ': success is reported, but the work directory is not empty')
        # what is left: complete old results or none
        d = [w.api.result_get_nodal_displacement(x, 'c') for x in 'ABC']
        if any(x is not None for x in d):
            ctx.check(old is not None and all(x is not None for x in d), 'half-cleared', lambda: h + ': some displacements are left')
            if old is not None and all(x is not None for x in d):
                real.close_disp(ctx, np.concatenate([np.ravel(x) for x in d]), oracle(old)['d'], 'half-cleared', lambda: h + ': displacements')
        b = real.Api.load(w.ws, 's')
        ctx.check(b is None or (isinstance(b, real.Api) and w.saved is not None and b.get_node_names() == w.api.get_node_names()), 'half-cleared', lambda: h + ': what is loaded afterwards')
        there = os.path.isdir(w.ws)
        g.root = w.top
        try:
            ctx.check(w.api.clear_workspace() is there, 'again', lambda: h + ': clearing again')
        finally:
            g.root = None
        ctx.check(not there or os.listdir(w.ws) == [], 'again', lambda: h + ': not empty after clearing again')
        ctx.check((w.api.assemble(), w.api.solve_static('c')) == (True, True), 'resume', lambda: h + ': cannot be solved afterwards')
        w.gone()
        w.asm, w.base, w.res = True, w.n, w.n
        results(w, ctx, h + ', solved again')
        ctx.trace()
        os.chdir('/')
        ctx.cleanup()
        if data and n < at:
            break
    ctx.outcome(c, at)
