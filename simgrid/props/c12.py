"""C12: interrupted workflows that are retried converge to the fault-free result."""
from .. import codec, core, flow, opgen, ops
from .common import *
from . import c11

CASES = {'quick': 300, 'thorough': 12000}
RULE = ('a run is a workflow of 3-8 operations connected by files (create, refine, split, add fringe, join, read), each step tried up '
        'to three times under death, disk faults, SIGINT, interrupts and failing allocations before it is left alone; steps are '
        'commands or calls in processes of their own, or one script restarted from its start or from the failed step; outputs '
        'exist beforehand in some runs; the next step is also tried early on what a failed one left; non-trivial: a fault fired')
ASSUMPTIONS = ASSUME + ['a failed step is run again before what it feeds (a step run early must fail on incomplete input)',
                        'no step overwrites its own input']
SIG = 'operation x how it was run x trouble x ending x state left'


def build(rng):
    f = flow.Flow(rng, sources=('file', 'file', 'mem', 'xgyg'))
    n = rng.randint(3, 8)
    while len(f.steps) < n:
        r = rng.random()
        if r < 0.1:
            f.mkgrid(3)
        elif r < 0.35:
            f.regrid()
        elif r < 0.5:
            f.split()
        else:
            f.join()
    o = None
    if rng.random() < 0.3:
        # boundary conditions for some of them
        o = opgen.gen_obcs(rng, 2)
        for _ in range(rng.choice([1, 1, 2])):
            f.obcs(o)
    for op in f.steps:
        f.options(op)
    return f, o


def gen(rng, ctx, tier, i):
    f, obcs = build(rng)
    case = {'files': f.files, 'mode': rng.choice(['steps', 'steps', 'steps', 'script', 'resume']), 'stale': [], 'steps': [], 'script': [], 'obcs': obcs}
    if case['mode'] != 'steps':
        for op in f.steps:
            s = op.get('src')
            if s and s['kind'] == 'xgyg':
                op['src'] = {'kind': 'file', 'file': s['of'], 'ni': s['ni'], 'nj': s['nj']}
    for op in f.steps:
        if rng.random() < 0.15:
            case['stale'].append([op.get('out') or 'obcs/OB' + rng.choice('NSEW') + 't', rng.choice(['junk', 'long', 'grid']), rng.randrange(1000)])
    core.restore(ctx.root, flow.given(case))
    for op in f.steps:
        via = 'cmd' if rng.random() < 0.4 and not (op.get('src') or {}).get('kind') == 'mem' else 'call'
        st = {'op': op, 'via': via, 'style': rng.randrange(10**6), 'tries': []}
        flow.export(ctx, op)
        o = go(ctx, st, {}, probe=True)
        case['steps'].append(st)
        if case['mode'] == 'steps' and o.ok:
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                st['tries'].append(trouble(rng, ctx, o, lambda t, **k: go(ctx, st, t, probe=True, **k)))
    if case['mode'] != 'steps':
        core.restore(ctx.root, flow.given(case))
        o = gos(ctx, case, 0, {}, probe=True)
        if o.ok:
            for _ in range(rng.randint(1, 4)):
                case['script'].append(trouble(rng, ctx, o, lambda t, **k: gos(ctx, case, 0, t, probe=True, **k)))
    return case


def trouble(rng, ctx, o, again):
    t = {'faults': [], 'inject': [], 'alloc': [], 'early': rng.random() < 0.7, 'dirseed': 0, 'stdio_buf': bufs(rng)}
    ol = oplist(o.log)
    r = rng.random()
    if not ol:
        r = max(r, 0.72)
    if r < 0.4:
        t['faults'] = [gen_crash(rng, ol)]
        if rng.random() < 0.15:
            g = gen_fault(rng, ol, kinds=('short',))
            t['faults'] += [g] if g else []
    elif r < 0.65:
        t['faults'] = gen_faults(rng, ol)
    elif r < 0.72:
        a = rng.choice(ol)
        t['faults'] = [{'on': a[0], 'nth': a[1], 'kind': 'sigint'}]
    elif r < 0.9:
        n = max(1, events(o))
        late = rng.random() < 0.5
        t['inject'] = [[n - 1 - rng.randrange(min(n, 80)) if late else rng.randrange(n),
                        rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])]]
    else:
        here = ctx.snap()
        q = again({}, count=True)
        ctx.restore(here)
        m = rng.choice([0, 0, 512])
        t['alloc'] = [rng.randrange(max(1, q.log.nalloc if not m else 60)), rng.choice([0, 3, 10**9]), m]
    return t


def events(o):
    return o.value[1] if len(o.value) == 3 else o.value[2]


def kw(t, count=False):
    return dict(plan=t.get('faults', ()), dirseed=t.get('dirseed', 0), stdio_buf=t.get('stdio_buf', 4096),
                alloc=[-1, 0, 0] if count else t.get('alloc') or None, alloc_at='call')


def go(ctx, st, t, probe=False, count=False):
    op = st['op']
    if st['via'] == 'cmd':
        return ctx.node('props.c11:command', op['op'], c11.argv(op, st['style']), {'to': 'null', 'line': False}, t.get('inject', []), False,
                        probe=probe, **kw(t, count))
    return ctx.node('flow:script', [op], t.get('inject', []), False, probe=probe, **kw(t, count))


def gos(ctx, case, start, t, probe=False, count=False):
    return ctx.node('flow:script', [st['op'] for st in case['steps'][start:]], t.get('inject', []), False, probe=probe, **kw(t, count))


def good(o):
    return o.ok and (len(o.value) == 3 or o.value[0] == 0)


def seen(ctx, case, st, t, o, state):
    if fired(o) or o.ok and o.value[-1] or t.get('inject') and o.kind == 'raise' and o.msg == 'injected':
        ctx.nontrivial = True
        for x in t.get('inject', []):
            ctx.count('fault:' + x[1])
    ctx.count('try_ok' if good(o) else 'try_failed')
    ctx.sig(case['mode'], st['op']['op'] if st else 'script', st['via'] if st else '', *sorted(o.log.fired), *[x[1] for x in t.get('inject', [])],
            o.kind, good(o), state)


def outs(ctx, op):
    """Files a step has written, after it."""
    if op.get('out'):
        return [op['out']]
    d = op['kw']['resultsdir'] + '/'
    return sorted(n for n in ctx.snap() if n.startswith(d + 'OB'))


def usable(ctx, steps):
    """The user removes weights that a death left incomplete."""
    from . import c15
    torn = [n for d in sorted({st['op']['kw']['resultsdir'] for st in steps if st['op']['op'] == 'getobcs'}) for n in c15.torn_weights(ctx, d)]
    for n in torn:
        ctx.rm(n)
    return torn


def stale(case, want):
    out = {}
    for n, how, k in case['stale']:
        b = want.get(n)
        if b is None:
            continue
        if how == 'junk':
            out[n] = b'junk' * (k + 1)
        elif how == 'long':
            out[n] = b[:8] * (len(b) // 8 + k + 1)
        else:
            out[n] = b[8:] + b[:8]
    return out


def run(case, ctx):
    start = flow.given(case)
    core.restore(ctx.root, start)
    # the run without faults; steps that lost their input to minimisation are left out
    steps, want = [], dict(start)
    for st in case['steps']:
        if any(n not in want for n in flow.needs(st['op'])):
            continue
        flow.export(ctx, st['op'])
        o = go(ctx, st, {}, probe=True)
        if not good(o):
            return [vio('spurious-error', 'step %s fails without trouble: %s' % (st['op']['op'], o.value[:2] if o.ok else o.brief()))]
        # (of two steps that write one file, the last)
        st = dict(st, outs={n: ctx.get(n) for n in outs(ctx, st['op'])})
        want.update(st['outs'])
        steps.append(st)
    case = dict(case, steps=steps)
    core.restore(ctx.root, dict(start, **stale(case, want)))
    old = stale(case, want)

    def wrong(names):
        return sorted(n for n, b in names.items() if ctx.get(n) != b)

    if case['mode'] == 'steps':
        for k, st in enumerate(steps):
            op = st['op']
            flow.export(ctx, op)
            for t in st['tries']:
                o = go(ctx, st, t)
                b = bad_end(o, allow=('died',) if t['alloc'] else ())
                if b:
                    return [b]
                data = {n: ctx.get(n) for n in st['outs']}
                state = 'new' if data == st['outs'] else 'none' if not any(x is not None for x in data.values()) else \
                    'old' if data == {n: old.get(n) for n in data} else 'torn'
                seen(ctx, case, st, t, o, state)
                if good(o) and state != 'new':
                    return [vio('wrong-success', 'step %d (%s) reports success but %s is not what it should be; %s' % (k, op['op'], wrong(st['outs']), t))]
                if not good(o) and t['early'] and op.get('out'):
                    v = early(ctx, steps, k, state)
                    if v:
                        return [v]
            o = go(ctx, st, {})
            if not good(o) and usable(ctx, steps):
                o = go(ctx, st, {})
            if not good(o):
                return [bad_end(o) or vio('no-recovery', 'step %d (%s) keeps failing after the faults stopped: %s'
                                          % (k, op['op'], o.value[:2] if o.ok else o.brief()))]
            if wrong(st['outs']):
                return [vio('not-converged', 'step %d (%s) repeated gives a different %s' % (k, op['op'], wrong(st['outs'])))]
    else:
        at = 0
        for t in case['script']:
            o = gos(ctx, case, at, t)
            b = bad_end(o, allow=('died',) if t['alloc'] else ())
            if b:
                return [b]
            seen(ctx, case, None, t, o, at)
            if good(o) and wrong({n: want[n] for st in steps[at:] for n in st['outs']}):
                return [vio('wrong-success', 'the script reports success but files differ: %s; %s' % (wrong(want), t))]
            if case['mode'] == 'resume':
                # go on from the first step whose output is not complete
                at = next((k for k, st in enumerate(steps) if wrong(st['outs'])), len(steps))
        o = gos(ctx, case, at, {})
        if not good(o) and usable(ctx, steps):
            o = gos(ctx, case, at, {})
        if not good(o):
            return [bad_end(o) or vio('no-recovery', 'the script keeps failing after the faults stopped: %s' % o.brief())]
    w = wrong(want)
    if w:
        return [vio('not-converged', 'at the end %s differ from a run without faults' % w)]
    return []


def early(ctx, steps, k, state):
    """The next step that uses the output of step k, on what k left."""
    name = steps[k]['op']['out']
    for st in steps[k + 1:]:
        op = st['op']
        if name not in flow.needs(op) or (op.get('src') or {}).get('kind') == 'xgyg':
            continue
        if any(ctx.get(n) is None for n in flow.needs(op) if n != name):
            continue
        here = ctx.snap()
        o = go(ctx, st, {})
        ctx.restore(here)
        ctx.count('early_step')
        if state in ('none', 'torn') and good(o):
            return vio('used-incomplete', 'step %s succeeds on an incomplete %s' % (op['op'], name))
        return bad_end(o)
    return None
