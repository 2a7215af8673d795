"""Simulation core: one case = a scratch disk, simulated processes ("nodes")
that run the real simplegrid code on it, and a record of what they did.

The worker process that drives a case never runs simplegrid code itself: every
node is forked from the same pristine image (modules imported, nothing called),
so what a node returns depends on nothing but its own steps, its disk and its
plan of faults.
"""
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import threading
import traceback

import numpy as np

from . import disk

REPO = os.environ.get('SIM_REPO', '/repo')
CPU_LIMIT = int(os.environ.get('SIM_CPU_LIMIT', '25'))
WALL_LIMIT = 100
# what memory holds that was allocated and not written yet: in no two consecutive
# processes the same, and large numbers as floating point
POISON = (0x47, 0x4b, 0x53, 0x59, 0x61)


class HarnessError(Exception):
    """The harness, not simplegrid, went wrong."""


# ---------------------------------------------------------------------------
# canonical form of a value: what is compared and digested

def canon(v):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ['obj', list(v.shape), [canon(x) for x in v.ravel().tolist()]]
        w = np.ascontiguousarray(v.astype(v.dtype.newbyteorder('<')))
        # byte order of a result array is a storage detail, not a value
        return ['nd', w.dtype.newbyteorder('=').str.lstrip('<>=|'), list(v.shape), hashlib.sha1(w.tobytes()).hexdigest()]
    if isinstance(v, dict):
        return ['dict', [[str(k), canon(v[k])] for k in sorted(v, key=str)]]
    if isinstance(v, (list, tuple)):
        return ['seq', [canon(x) for x in v]]
    if isinstance(v, (bool, np.bool_)):
        return ['b', bool(v)]
    if isinstance(v, (int, np.integer)):
        return ['i', int(v)]
    if isinstance(v, (float, np.floating)):
        return ['f', struct.pack('<d', float(v)).hex()]
    if isinstance(v, (str, bytes)) or v is None or v is Ellipsis:
        return ['s', repr(v)]
    if isinstance(v, slice):
        return ['slice', canon((v.start, v.stop, v.step))]
    return ['o', type(v).__name__, repr(v)]


def digest(v):
    return hashlib.sha1(json.dumps(canon(v), sort_keys=True).encode()).hexdigest()[:16]


def jdigest(v):
    return hashlib.sha1(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:16]


# ---------------------------------------------------------------------------
# outcomes

class Outcome:
    """What a node did: kind is 'ok' (value), 'raise' (etype, msg), 'killed'
    (crash point), 'stuck' (used up its budget of operations or cpu time) or
    'died' (signal other than the simulator's)."""

    def __init__(self, kind, value=None, etype=None, msg='', mro=(), extra=None):
        self.kind, self.value, self.etype, self.msg, self.mro = kind, value, etype, msg, mro
        self.extra = extra
        self.log = None

    @property
    def ok(self):
        return self.kind == 'ok'

    def isa(self, *names):
        return self.kind == 'raise' and any(n in self.mro for n in names)

    def key(self):
        """Compared between runs: the value, or the type of the error."""
        if self.kind == 'ok':
            return ['ok', digest(self.value)]
        return [self.kind, self.etype]

    def brief(self):
        if self.kind == 'ok':
            return 'ok:' + digest(self.value)
        if self.kind == 'raise':
            return 'raise %s: %s' % (self.etype, self.msg[:160])
        return self.kind + (' ' + self.msg if self.msg else '')


def outcome_of(fn, *a):
    try:
        return ('ok', fn(*a))
    except BaseException as e:
        return exc_outcome(e)


def exc_outcome(e):
    mro = [c.__name__ for c in type(e).__mro__]
    msg = str(e)
    extra = None
    if isinstance(e, SystemExit):
        extra = e.code
    elif isinstance(e, OSError):
        extra = e.errno
    tb = traceback.extract_tb(e.__traceback__)
    where = ''
    for fr in tb:
        if fr.filename.startswith(REPO + os.sep):
            where = '%s:%s' % (os.path.basename(fr.filename), fr.name)
    return ('raise', type(e).__name__, msg, mro, extra, where)


def make_outcome(t):
    if t[0] == 'ok':
        return Outcome('ok', value=t[1])
    o = Outcome('raise', etype=t[1], msg=t[2], mro=t[3], extra=t[4])
    o.where = t[5]
    return o


pending_alloc = []


def with_allocs(fn, *a):
    """fn(*a), with the allocation faults of the node armed around it."""
    L = disk.lib()
    off = L.simio_alloc_disarm
    if not pending_alloc:
        return fn(*a)
    args = tuple(pending_alloc)
    on = L.simio_alloc_arm
    try:
        on(*args)
        return fn(*a)
    finally:
        off()


# ---------------------------------------------------------------------------
# the disk of a case

def scratch_base():
    for d in ('/dev/shm', os.environ.get('TMPDIR') or '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return '/tmp'


def snapshot(root):
    """All files below root: {relative name: bytes}, and directories."""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        rel = os.path.relpath(d, root)
        for x in dirs:
            out[os.path.normpath(os.path.join(rel, x)) + '/'] = None
        for x in sorted(files):
            with open(os.path.join(d, x), 'rb') as f:
                out[os.path.normpath(os.path.join(rel, x))] = f.read()
    return out


def wipe(root):
    for x in os.listdir(root):
        p = os.path.join(root, x)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)


def restore(root, snap):
    wipe(root)
    for k in sorted(snap):
        p = os.path.join(root, k)
        if k.endswith('/'):
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(snap[k])


EPOCH = 1700000000


def stamp(d, tick):
    """Give the files changed since the last time a stamp of the simulated clock."""
    for e in os.scandir(d):
        if e.is_dir(follow_symlinks=False):
            stamp(e.path, tick)
        elif e.is_file(follow_symlinks=False):
            if not EPOCH <= e.stat(follow_symlinks=False).st_mtime <= EPOCH + 10**6:
                os.utime(e.path, (EPOCH + tick, EPOCH + tick))


def snapdigest(snap):
    return jdigest([[k, None if v is None else hashlib.sha1(v).hexdigest()] for k, v in sorted(snap.items())])


class Zygote:
    """A process forked once, before anything has run, which forks the simulated
    processes: each of them starts from the very same image, whatever the
    worker has done in the meantime."""

    def __init__(self):
        self.shared = disk.lib().simio_shared_new()
        self.ctl_r, self.ctl_w = os.pipe()
        self.req_r, self.req_w = os.pipe()
        self.rsp_r, self.rsp_w = os.pipe()
        self.st_r, self.st_w = os.pipe()
        gc.collect()
        gc.freeze()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.ctl_w)
                self.serve()
            finally:
                os._exit(0)
        for fd in (self.ctl_r, self.req_r, self.rsp_w, self.st_w):
            os.close(fd)

    def serve(self):
        while os.read(self.ctl_r, 1):
            disk.lib().simio_shared_reset(self.shared)
            pid = os.fork()
            if pid == 0:
                self.child()
            os.write(self.st_w, struct.pack('ii', pid, -1))
            _, st = os.waitpid(pid, 0)
            os.write(self.st_w, struct.pack('ii', pid, st))

    def child(self):
        code = 98
        try:
            for fd in (self.ctl_r, self.st_w):
                os.close(fd)
            gc.disable()
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGINT, signal.default_int_handler)
            n, = struct.unpack('q', readn(self.req_r, 8))
            req = pickle.loads(readn(self.req_r, n))
            os.close(self.req_r)
            os.chdir(req['root'])
            disk.poison(req['poison'])
            mod, name = req['fn'].split(':')
            fn = getattr(importlib.import_module('simgrid.' + mod), name)
            if req['quiet']:
                dn = os.open('/dev/null', os.O_RDWR)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                os.close(dn)
            L = disk.lib()
            disk.begin(self.shared, req['root'], req['plan'], req['budget'], req['dirseed'], req['stdio_buf'], req['tick'])
            if req['alloc'] and req['alloc_at'] == 'start':
                L.simio_alloc_arm(*req['alloc'])
            elif req['alloc']:
                pending_alloc[:] = req['alloc']
            # an interrupt that arrives after the last step still ends the process
            t = None
            while True:
                try:
                    if t is None:
                        try:
                            v = fn(*req['args'])
                            L.simio_alloc_disarm()
                            t = ('ok', v)
                        except BaseException as e:
                            L.simio_alloc_disarm()
                            t = exc_outcome(e)
                    signal.signal(signal.SIGINT, signal.SIG_IGN)
                    break
                except KeyboardInterrupt as e:
                    L.simio_alloc_disarm()
                    t = exc_outcome(e)
            # what a process still holds open is closed when it ends
            try:
                gc.collect()
            except BaseException:
                pass
            disk.stop()
            sys.settrace(None)
            threading.settrace(None)
            writen(self.rsp_w, pickle.dumps(t, protocol=4))
            code = 0
        except BaseException:
            try:
                disk.stop()
                writen(self.rsp_w, pickle.dumps(('harness', traceback.format_exc())))
                code = 97
            except BaseException:
                pass
        finally:
            os._exit(code)

    def run(self, data):
        os.write(self.ctl_w, b'g')
        writen(self.req_w, struct.pack('q', len(data)) + data)
        chunks, pid, st = [], 0, None
        self.timed_out = False
        while st is None:
            rl, _, _ = select.select([self.rsp_r, self.st_r], [], [], WALL_LIMIT)
            if not rl:
                if pid:
                    self.timed_out = True
                    os.kill(pid, signal.SIGKILL)
                    continue
                raise HarnessError('zygote does not answer')
            if self.rsp_r in rl:
                chunks.append(os.read(self.rsp_r, 1 << 20))
                continue
            p, s = struct.unpack('ii', readn(self.st_r, 8))
            pid = p
            if s != -1:
                st = s
        while select.select([self.rsp_r], [], [], 0)[0]:
            chunks.append(os.read(self.rsp_r, 1 << 20))
        return st, b''.join(chunks)

    def close(self):
        os.close(self.ctl_w)
        os.waitpid(self.pid, 0)


def readn(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError
        out += b
    return out


def writen(fd, data):
    n = 0
    while n < len(data):
        n += os.write(fd, data[n:n + (1 << 16)])


class Ctx:
    """One simulated machine: scratch disk plus the record of a case."""

    def __init__(self, zygote, base):
        self.zygote = zygote
        self.shared = zygote.shared
        self.root = os.path.join(base, 'disk')
        os.makedirs(self.root, exist_ok=True)
        self.reset()

    def reset(self):
        wipe(self.root)
        self.trace = []          # event log of the case (digested)
        self.stats = {}          # counters
        self.sigs = set()        # distinct things reached
        self.nontrivial = False
        self.nodes = 0

    def sig(self, *a):
        self.sigs.add('/'.join(str(x) for x in a))

    def p(self, *a):
        return os.path.join(self.root, *a)

    def put(self, name, data):
        p = self.p(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)

    def get(self, name):
        try:
            with open(self.p(name), 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def rm(self, name):
        try:
            os.unlink(self.p(name))
        except FileNotFoundError:
            pass

    def snap(self):
        return snapshot(self.root)

    def restore(self, snap):
        restore(self.root, snap)

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # -- run fn(*args) in a fresh simulated process
    def node(self, fn, *args, plan=(), dirseed=0, stdio_buf=4096, budget=150000, quiet=True, probe=False,
             alloc=None, alloc_at='start'):
        """fn: 'module:function' below simgrid.  alloc: None, or [nth, more, min]
        (nth -1: only count allocations), counted from the start of fn or from
        the moment it calls with_allocs."""
        req = dict(poison=POISON[self.nodes % len(POISON)], alloc_at=alloc_at, fn=fn, args=args, root=self.root, plan=list(plan), dirseed=dirseed, stdio_buf=stdio_buf,
                   budget=budget, quiet=quiet, alloc=alloc, tick=self.nodes + 1)
        stamp(self.root, self.nodes)
        st, data = self.zygote.run(pickle.dumps(req, protocol=4))
        self.nodes += 1
        log = disk.Log(self.shared)
        if os.WIFEXITED(st):
            code = os.WEXITSTATUS(st)
            if code == 0:
                o = make_outcome(pickle.loads(data))
            elif code == 137:
                o = Outcome('killed')
            elif code == 99:
                o = Outcome('stuck', msg='more than %d file operations' % budget)
            elif code == 97:
                raise HarnessError(pickle.loads(data)[1])
            else:
                o = Outcome('died', msg='exit code %d' % code)
        else:
            sig = os.WTERMSIG(st)
            if sig == signal.SIGXCPU:
                o = Outcome('stuck', msg='more than %d s of cpu time' % CPU_LIMIT)
            elif sig == signal.SIGKILL:
                if not self.zygote.timed_out:
                    raise HarnessError('a node was killed from outside')
                o = Outcome('stuck', msg='no end within %d s' % WALL_LIMIT)
            else:
                o = Outcome('died', msg='signal %d' % sig)
        o.log = log
        if not hasattr(o, 'where'):
            o.where = ''
        if not probe:
            self.count('io_ops', len(log.ents))
            for k, n in log.fired.items():
                self.count('fault:' + k, n)
            for e in log.ents:
                if e[6]:
                    self.count('fault_at:%s/%s' % (e[6], e[0]), 1)
            self.trace.append([fn, o.kind, o.etype,
                               o.msg.replace(self.root, '<root>') if o.kind == 'raise' and 'alloc' not in log.fired else '',
                               digest(o.value) if o.ok else '', jdigest(log.ents)])
        return o

    def event(self, *a):
        self.trace.append(list(a))


def make_rng(seed, prop, index):
    return random.Random('%s/%s/%s' % (seed, prop, index))


def nprng(rng):
    return np.random.Generator(np.random.PCG64(rng.getrandbits(64)))
