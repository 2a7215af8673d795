"""C07: inputs are never modified, however the operation ends."""
import numpy as np

from .. import core, opgen, ops, sched
from .common import *

CASES = {'quick': 800, 'thorough': 30000}
RULE = ('a run builds a small world of files and arrays and carries out 2-5 seeded operations, each in its own process with disk '
        'faults, interrupts at a line or bytecode, failing allocations or a crash; every argument is compared with a copy at '
        'scheduler events and at the end, every input file after the end; non-trivial: a fault, crash or interrupt happened')
ASSUMPTIONS = ASSUME + ['arrays are compared between bytecodes of the package, not inside a single library call']
SIG = 'operation x ending x trouble'
WATCHED = tuple(k for k in opgen.ALL if k not in ('read_grid', 'scanforfiles', 'parsemeta')) + ('read_grid', 'getobcs', 'regrid', 'write_grid', 'matchedges', 'rdmds', 'rdmds')


def freeze(x):
    """A copy to compare with: type, shape, layout and bytes."""
    if isinstance(x, np.ndarray):
        return ('nd', x.dtype.str, x.shape, x.strides, x.tobytes(), x.flags.writeable)
    if isinstance(x, dict):
        return ('dict', [(k, id(v), freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    return ('v', repr(x))


def differs(x, f, path):
    g = freeze(x)
    if g == f:
        return None
    if isinstance(x, dict) and f[0] == 'dict':
        if [e[0] for e in f[1]] != list(x):
            return '%s has keys %s, had %s' % (path, sorted(map(str, x)), sorted(str(e[0]) for e in f[1]))
        for k, i, h in f[1]:
            d = differs(x[k], h, '%s[%s]' % (path, k))
            if d:
                return d
            if id(x[k]) != i:
                return '%s[%s] was replaced' % (path, k)
    if g[0] == 'nd' and f[0] == 'nd' and g[1:4] != f[1:4]:
        return '%s is now %s, was %s' % (path, g[1:3], f[1:3])
    if g[0] == 'nd' and f[0] == 'nd' and g[4] == f[4] and g[5] != f[5]:
        return '%s became %s' % (path, 'writeable' if g[5] else 'read-only')
    return '%s changed' % path


def watch(op, inject, opcodes, period, sites=False):
    """Node entry.  -> (how it ended, first change seen, events, where injected)"""
    p = ops.prepare(op)
    first = freeze(p.inputs)
    seen = []

    def look():
        if not seen:
            d = differs(p.inputs, first, 'argument')
            if d:
                seen.append(d)

    t = sched.Tracer(opcodes=opcodes, inject={int(n): e for n, e in inject}, every=look, period=period, sites=sites)
    if core.pending_alloc:
        o = core.outcome_of(core.with_allocs, p.call)
    else:
        o = core.outcome_of(t.run, p.call)
    look()
    return (o[0], o[1] if o[0] == 'raise' else None), seen[:1], t.n, t.where, t.some_events() if sites else None


def gen(rng, ctx, tier, i):
    w = opgen.gen_world(rng)
    case = {'world': w, 'steps': []}
    fs = opgen.files(w)
    for k in range(rng.randint(2, 5)):
        st = {'op': opgen.gen_op(rng, w, WATCHED, out='o%d' % k, bad=0.15), 'inject': [], 'opcodes': rng.random() < 0.2,
              'period': rng.choice([1, 3, 10, 40, 200]), 'faults': [], 'alloc': [], 'stdio_buf': bufs(rng),
              'dirseed': rng.choice([0, rng.randint(1, 10**6)])}
        if st['opcodes']:
            st['period'] = rng.choice([20, 100, 500])
        r = rng.random()
        if r < 0.9:
            core.restore(ctx.root, fs)
            o = ctx.node('props.c07:watch', st['op'], [], st['opcodes'], 0, True, dirseed=st['dirseed'], stdio_buf=st['stdio_buf'],
                         probe=True)
            ol = oplist(o.log)
            if r < 0.4:
                st['inject'] = [[sched.pick_event(rng, o.value[4], o.value[2]) if o.ok else 0, rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])]]
            elif r < 0.65 and ol:
                st['faults'] = gen_faults(rng, ol)
            elif r < 0.75 and ol:
                st['faults'] = [gen_crash(rng, ol)]
            elif r < 0.8 and ol:
                a = rng.choice(ol)
                st['faults'] = [{'on': a[0], 'nth': a[1], 'kind': 'sigint'}]
            elif r < 0.9:
                m = rng.choice([0, -1])
                o = ctx.node('props.c07:watch', st['op'], [], False, 0, dirseed=st['dirseed'], stdio_buf=st['stdio_buf'],
                             alloc=[-1, 0, m], alloc_at='call', probe=True)
                st['alloc'] = [rng.randrange(max(1, o.log.nalloc)), rng.choice([0, 0, 3, 50]), m]
        if r < 0.9 and rng.random() < (0.5 if st['op']['op'] == 'rdmds' else 0.12):
            n = sorted({x[4] for x in ol if x[0] == 'open' and x[4] in fs and opgen.in_scope(x[4])})
            if n:
                n = rng.choice([x for x in n if x.endswith('.data') and rng.random() < 0.8] or n)
                st['damage'] = [{'file': n, 'at': rng.randrange(max(1, len(fs[n])))}]
        case['steps'].append(st)
    return case


def place(ctx, fs, st):
    fs = dict(fs)
    for d in st.get('damage', ()):
        fs[d['file']] = fs[d['file']][:d['at']]
    core.restore(ctx.root, fs)


def allowed(name):
    return not opgen.in_scope(name) or name.startswith('par_obcs/')


def run(case, ctx):
    fs = opgen.files(case['world'])
    for k, st in enumerate(case['steps']):
        place(ctx, fs, st)
        before = ctx.snap()
        o = ctx.node('props.c07:watch', st['op'], st['inject'], st['opcodes'], st['period'], plan=st['faults'],
                     dirseed=st['dirseed'], stdio_buf=st['stdio_buf'], alloc=st['alloc'] or None, alloc_at='call')
        kind = st['op']['op']
        end = o.value[0] if o.ok else (o.kind, o.etype)
        if o.ok:
            ctx.count('events', o.value[2])
            if o.value[3]:
                ctx.count('fault:' + st['inject'][0][1])
        if fired(o) or o.ok and o.value[3]:
            ctx.nontrivial = True
        ctx.sig(kind, *end, *sorted(o.log.fired), *(o.value[3] if o.ok else ()))
        b = bad_end(o, allow=('died',) if st['alloc'] else ())
        if b:
            return [b]
        what = '%s (step %d, ended with %s)' % (kind, k, end)
        if o.ok and o.value[1]:
            return [vio('argument-changed', '%s: %s' % (what, o.value[1][0]))]
        if o.ok and end[0] == 'raise' and not (fired(o) or o.value[3]) and not st['op'].get('bad'):
            ctx.count('plain_errors')
        after = ctx.snap()
        for n in sorted(set(before) | set(after)):
            if not allowed(n) and before.get(n, 0) != after.get(n, 0):
                return [vio('file-changed', '%s: input file %s was %s' % (what, n, 'changed' if n in before and n in after else
                                                                        'removed' if n in before else 'created'))]
        for t, path, off, ln, res, err, fault, flags in o.log.ents:
            if t in ('write', 'trunc', 'rename', 'unlink') and path in before and not allowed(path) and res >= 0:
                return [vio('file-changed', '%s: %s on input file %s' % (what, t, path))]
    return []
