"""Minimisation: delete list elements and shrink numbers of a case while a
violation of the same class remains."""
import re
import copy
import time

LISTS = {'faults', 'steps', 'switches', 'threads', 'fields', 'tiles', 'history', 'none', 'inject', 'old', 'targets',
         'damage', 'ops', 'sets', 'events'}
INTS = {'ni': 1, 'nj': 1, 'n': 0, 'nth': 0, 'lon_subscale': 1, 'lat_subscale': 1, 'nrec': 1, 'nz': 0, 'dirseed': 0,
        'at': 0, 'seed': 0}
DROP = {'verbose': False, 'special': False, 'layout': 'C', 'strict': False, 'order': 'C', 'opcodes': False,
        'comments': False}


def paths(x, pre=()):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from paths(x[k], pre + (k,))
            yield pre + (k,), x[k]
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from paths(y, pre + (i,))


def getp(c, p):
    for k in p:
        c = c[k]
    return c


def setp(c, p, v):
    for k in p[:-1]:
        c = c[k]
    c[p[-1]] = v


def why(v):
    """Of errors out of place, also the kind (another one may come from a case that
    minimisation has made meaningless)."""
    m = re.search(r'\b\w*(Error|Exception|Interrupt|Exit)\b', v['msg']) if v['cls'] in ('spurious-error', 'no-recovery') else None
    return m and m.group()


def candidates(case):
    # big deletions first
    for p, v in paths(case):
        if p[-1] in LISTS and isinstance(v, list) and v:
            n = len(v)
            size = n
            while size >= 1:
                for a in range(0, n, size):
                    c = copy.deepcopy(case)
                    setp(c, p, v[:a] + v[a + size:])
                    yield 'delete', c
                size //= 2
    for p, v in paths(case):
        if p[-1] in INTS and isinstance(v, int) and not isinstance(v, bool):
            lo = INTS[p[-1]]
            for w in sorted({lo, (v + lo) // 2, v - 1}):
                if lo <= w < v:
                    c = copy.deepcopy(case)
                    setp(c, p, w)
                    yield 'number', c
        elif p[-1] in DROP and v != DROP[p[-1]]:
            c = copy.deepcopy(case)
            setp(c, p, DROP[p[-1]])
            yield 'option', c


def size(case):
    import json
    return len(json.dumps(case))


def minimise(P, case, v, ctx, run, limit=150, seconds=40):
    t0 = time.monotonic()
    tried = kept = 0
    best, bv = case, v
    progress = True
    while progress and tried < limit:
        progress = False
        cands = P.shrink(best) if hasattr(P, 'shrink') else ()
        import itertools
        for _, c in itertools.chain(cands, candidates(best)):
            if tried >= limit or time.monotonic() - t0 > seconds:
                break
            tried += 1
            try:
                vs = run(c)
            except Exception:
                continue
            same = [x for x in vs if x['cls'] == v['cls'] and why(x) == why(v)]
            if same:
                best, bv = c, same[0]
                kept += 1
                progress = True
                break
        if time.monotonic() - t0 > seconds:
            break
    return best, bv, '%d of %d attempts kept' % (kept, tried)
