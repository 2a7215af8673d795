"""What a process keeps apart from the results of its calls."""
import builtins
import decimal
import gc
import glob
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import threading
import warnings

import numpy as np
import pyproj
import pyproj.datadir
import pyproj.network

from . import ops


FUNCTIONS = ((builtins, 'open'), (builtins, 'print'), (np, 'fromfile'), (np, 'memmap'), (np, 'array'), (np, 'loadtxt'), (np, 'zeros'),
             (np, 'sqrt'), (np, 'arccos'), (glob, 'glob'), (os, 'listdir'), (os, 'stat'), (os.path, 'exists'), (pyproj, 'Geod'))


def public(m):
    return {k: repr(v) for k, v in vars(m).items() if not k.startswith('_') and isinstance(v, (int, float, str, tuple, list, bool))}


def fds():
    out = []
    for x in os.listdir('/proc/self/fd'):
        try:
            out.append(os.readlink('/proc/self/fd/' + x))
        except OSError:
            pass
    return sorted(t for t in out if not t.startswith('/proc/'))


def state():
    gc.collect()
    um = os.umask(0o777)
    os.umask(um)
    s = {
        'warning filters': repr(warnings.filters),
        'numpy error settings': repr(np.geterr()), 'numpy error callback': repr(np.geterrcall()),
        'numpy buffer size': np.getbufsize(),
        'numpy print settings': repr({k: v for k, v in np.get_printoptions().items() if k != 'formatter'}),
        'random state': repr(random.getstate()), 'numpy random state': repr(np.random.get_state()),
        'working directory': os.getcwd(), 'umask': um, 'environment': repr(sorted(os.environ.items())),
        'signal handlers': repr([(int(n), repr(signal.getsignal(n))) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGALRM,
                                                                                signal.SIGPIPE, signal.SIGUSR1, signal.SIGUSR2, signal.SIGCHLD)]),
        'signal mask': repr(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))),
        'alarm': repr(signal.getitimer(signal.ITIMER_REAL)),
        'open files': repr(fds()), 'threads': repr(sorted(t.name for t in threading.enumerate())),
        'locale': repr(locale.setlocale(locale.LC_ALL)), 'recursion limit': sys.getrecursionlimit(),
        'arguments': repr(sys.argv), 'import path': repr(sys.path), 'garbage collector': gc.isenabled(),
        'decimal context': repr(decimal.getcontext()),
        'standard streams': repr([id(sys.stdin), id(sys.stdout), id(sys.stderr)]), 'excepthook': id(sys.excepthook),
        'switch interval': sys.getswitchinterval(), 'garbage thresholds': gc.get_threshold(),
        'trace functions': repr((sys.gettrace(), sys.getprofile())), 'hooks': repr([id(x) for x in (sys.displayhook, sys.unraisablehook, warnings.showwarning)]),
        'socket timeout': socket.getdefaulttimeout(),
        'logging': repr((logging.root.level, logging.root.handlers, logging.root.manager.disable)),
        'limits': repr([resource.getrlimit(getattr(resource, n)) for n in sorted(dir(resource)) if n.startswith('RLIMIT_')]),
        'priority': os.getpriority(os.PRIO_PROCESS, 0), 'stack size': threading.stack_size(),
        'functions': repr([(m.__name__, n, id(getattr(m, n))) for m, n in FUNCTIONS]),
        'network of pyproj': repr((pyproj.network.is_network_enabled(), pyproj.datadir.get_data_dir())),
    }
    for m in ops.MODULES:
        for k, v in public(ops.pkg[m]).items():
            s['%s.%s' % (m, k)] = v
    return s


PRESETS = ('plain', 'npraise', 'npignore', 'print', 'umask', 'warnall', 'warnerror', 'seed', 'sigint')


def preset(name):
    """What the caller had set up before."""
    if name == 'npraise':
        np.seterr(over='raise', under='ignore')
    elif name == 'npignore':
        np.seterr(all='ignore')
    elif name == 'print':
        np.set_printoptions(precision=3, threshold=7, suppress=True, linewidth=33)
    elif name == 'umask':
        os.umask(0o027)
    elif name == 'warnall':
        warnings.simplefilter('always')
    elif name == 'warnerror':
        warnings.simplefilter('error', DeprecationWarning)
    elif name == 'seed':
        random.seed(5)
        np.random.seed(5)
    elif name == 'sigint':
        signal.signal(signal.SIGTERM, lambda *a: None)


def diff(a, b):
    """Names of what changed (new public settings of a module are not judged)."""
    return sorted(k for k in a if a[k] != b.get(k))


def text(a, b, k):
    x, y = str(a[k]), str(b.get(k))
    return '%s: was %s, is %s' % (k, x[:120], y[:120])
