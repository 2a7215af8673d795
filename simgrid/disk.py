"""Python side of the simulated disk (simio.c, loaded with LD_PRELOAD)."""
import ctypes
import errno
import os

OPS = {'any': 0, 'open': 1, 'read': 2, 'write': 3, 'close': 4, 'trunc': 5, 'rename': 6, 'unlink': 7,
       'mkdir': 8, 'opendir': 9, 'readdir': 10, 'stat': 11, 'mmap': 12, 'fsync': 13, 'dup': 14, 'other': 15}
OPNAME = {v: k for k, v in OPS.items()}
KINDS = {'err': 1, 'short': 2, 'nospc': 3, 'crash': 4, 'action': 5, 'sticky': 6, 'lose': 7, 'sigint': 8}
KINDNAME = {v: k for k, v in KINDS.items()}


class Ent(ctypes.Structure):
    _fields_ = [('seq', ctypes.c_int64), ('type', ctypes.c_int32), ('pathid', ctypes.c_int32),
                ('flags', ctypes.c_int32), ('fault', ctypes.c_int32), ('off', ctypes.c_int64),
                ('len', ctypes.c_int64), ('res', ctypes.c_int64), ('err', ctypes.c_int32),
                ('pad', ctypes.c_int32)]


_lib = None
shared = None


def lib():
    global _lib
    if _lib is None:
        path = os.environ['SIMIO_LIB']
        L = ctypes.CDLL(path)
        L.simio_shared_new.restype = ctypes.c_void_p
        for f in ('simio_shared_free', 'simio_shared_reset'):
            getattr(L, f).argtypes = [ctypes.c_void_p]
        for f in ('simio_nops', 'simio_nlog', 'simio_crashed', 'simio_budget_hit', 'simio_nalloc', 'simio_alloc_failed'):
            getattr(L, f).argtypes = [ctypes.c_void_p]
            getattr(L, f).restype = ctypes.c_int64
        L.simio_fired.argtypes = [ctypes.c_void_p, ctypes.c_int]
        L.simio_fired.restype = ctypes.c_int64
        L.simio_log.argtypes = [ctypes.c_void_p, ctypes.c_int64, ctypes.POINTER(Ent)]
        L.simio_path.argtypes = [ctypes.c_void_p, ctypes.c_int]
        L.simio_path.restype = ctypes.c_char_p
        L.simio_begin.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int64, ctypes.c_uint64, ctypes.c_int, ctypes.c_long]
        L.simio_plan.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
        L.simio_action.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p]
        L.simio_alloc_arm.argtypes = [ctypes.c_int64, ctypes.c_int64, ctypes.c_int64]
        L.simio_space.argtypes = [ctypes.c_int64]
        L.simio_np_handler.argtypes = [ctypes.c_int]
        L.simio_np_handler.restype = ctypes.c_void_p
        _lib = L
    return _lib


def err(name):
    return getattr(errno, name)


def begin(shared, root, plan, budget=150000, dirseed=0, stdio_buf=4096, tick=0):
    """Arm the simulated disk for this process.  plan: list of fault dicts
    {'on': optype, 'nth': k, 'kind': kind, 'errno': name, 'n': bytes, 'act': [kind, src, dst]}"""
    L = lib()
    globals()['shared'] = shared
    L.simio_begin(shared, os.fsencode(root), budget, dirseed, stdio_buf, tick)
    nact = 0
    for f in plan:
        kind = KINDS[f['kind']]
        arg = arg2 = 0
        if f['kind'] in ('err', 'sticky'):
            arg = err(f['errno'])
        elif f['kind'] == 'lose':
            arg, arg2 = err(f['errno']), f.get('n', 1)
        elif f['kind'] in ('short', 'nospc', 'crash'):
            arg = f.get('n', 0)
        elif f['kind'] == 'action':
            what, src, dst = f['act']
            L.simio_action(nact, {'rename': 1, 'unlink': 2}[what], os.fsencode(os.path.join(root, src)),
                           os.fsencode(os.path.join(root, dst)) if dst else b'')
            arg = nact
            nact += 1
        L.simio_plan(OPS[f.get('on', 'any')], f['nth'], kind, arg, arg2)
    L.simio_go()


_set_handler = _capsule = None
_poison = 0


def poison(byte=None):
    """From here on, in this thread, numpy memory that has not been written holds
    this byte (the one given last)."""
    global _set_handler, _capsule, _poison
    if byte is not None:
        _poison = byte
    if _set_handler is None:
        import numpy.core._multiarray_umath as u
        py = ctypes.pythonapi
        py.PyCapsule_GetPointer.restype = ctypes.c_void_p
        py.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
        py.PyCapsule_New.restype = ctypes.py_object
        py.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        api = ctypes.cast(py.PyCapsule_GetPointer(u._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
        _set_handler = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(api[304])  # PyDataMem_SetHandler
        _capsule = py.PyCapsule_New(lib().simio_np_handler(_poison), b'mem_handler', None)
    lib().simio_np_handler(_poison)
    _set_handler(_capsule)


def stop():
    lib().simio_stop()


class Log:
    """What the disk saw in one process: survives the process being killed."""

    def __init__(self, shared):
        L = lib()
        self.nops = L.simio_nops(shared)
        self.crashed = bool(L.simio_crashed(shared))
        self.budget_hit = bool(L.simio_budget_hit(shared))
        self.fired = {KINDNAME[k]: L.simio_fired(shared, k) for k in KINDNAME if L.simio_fired(shared, k)}
        self.nalloc = L.simio_nalloc(shared)
        n = L.simio_alloc_failed(shared)
        if n:
            self.fired['alloc'] = n
        n = L.simio_fired(shared, 0)
        if n:
            self.fired['enospc_write'] = n
        e = Ent()
        self.ents = []
        for i in range(L.simio_nlog(shared)):
            L.simio_log(shared, i, ctypes.byref(e))
            self.ents.append((OPNAME.get(e.type, '?'), L.simio_path(shared, e.pathid).decode('utf-8', 'replace'),
                              e.off, e.len, e.res, e.err, KINDNAME.get(e.fault, '') if e.fault else '', e.flags))

    def count(self, op):
        if op == 'any':
            return len(self.ents)
        return sum(1 for x in self.ents if x[0] == op)
