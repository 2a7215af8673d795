"""C08: concurrent callers get exactly the results they would get alone."""
import sys

import numpy as np

from .. import core, opgen, ops, sched
from .common import *
from .c07 import differs, freeze

CASES = {'quick': 330, 'thorough': 14000}
RULE = ('a run lets 2-4 threads of one process carry out 1-2 operations each (often the same operation on different arguments) on '
        'shared inputs under 2-5 seeded schedules, with line or bytecode switching, some with a disk fault or an interrupt in one '
        'thread; each thread is compared with the same operations run alone in a fresh process; non-trivial: threads were switched')
ASSUMPTIONS = ASSUME + ['threads are switched between lines or bytecodes of the package; calls into numpy, pyproj and libc are atomic',
                        'an interrupt in one of several threads is injected between lines only (CPython 3.12 crashes when a trace function raises between bytecodes while another thread is traced)']
SIG = 'operations of the threads x number of switches x trouble x endings'


def conc(progs, plan, opcodes, inject, period):
    """Node entry: progs[k] is the list of operations of thread k.
    -> (outcomes per thread, changes of inputs, events, events per thread, switches, aborted)"""
    env = {'share': True}
    calls, inputs = [], []
    for ol in progs:
        row = []
        for op in ol:
            c, inp = ops.do(op, env)
            row.append(c)
            inputs.append(inp)
        calls.append(row)
    first = freeze(inputs)
    seen = []

    def look():
        if not seen:
            d = differs(inputs, first, 'inputs')
            if d:
                seen.append(d)

    res = [[] for _ in progs]

    def body(k):
        def f():
            for c in calls[k]:
                try:
                    sys.settrace(S.glob)
                    v = c()
                    sys.settrace(None)
                    r = ('ok', core.digest(v))
                except sched.SimAbort:
                    raise
                except BaseException as e:
                    sys.settrace(None)
                    r = ('raise', type(e).__name__, str(e)[:200])
                res[k].append(r)
        return f

    S = sched.Scheduler([body(k) for k in range(len(progs))], plan, opcodes=opcodes, inject=inject, every=look, period=period)
    S.run()
    look()
    return res, seen[:1], S.n, S.per, S.switches, S.abort


def gen_plan(rng, n, nt):
    """Where the baton is handed over."""
    r = rng.random()
    if r < 0.3:
        k = rng.randint(1, 4)
    elif r < 0.7:
        k = rng.randint(5, 40)
    else:
        k = rng.randint(40, 250)
    ev = sorted({rng.randrange(n + 1) for _ in range(k)})
    if rng.random() < 0.2 and n > 60:
        # dense switching in one stretch
        a = rng.randrange(n - 50)
        ev = sorted(set(ev) | set(range(a, a + rng.randint(10, 50))))
    t, out = 0, [[-1, rng.randrange(nt)]]
    for e in ev:
        out.append([e, rng.randrange(nt)])
    return out


def gen(rng, ctx, tier, i):
    w = opgen.gen_world(rng, top=3)
    nt = rng.choice([2, 2, 2, 3, 4])
    case = {'world': w, 'progs': [], 'runs': []}
    same = rng.choice(opgen.ALL) if rng.random() < 0.6 else None
    for k in range(nt):
        case['progs'].append([opgen.gen_op(rng, w, [same] if same else opgen.ALL, out='t%d_%d' % (k, j), bad=0.1)
                              for j in range(rng.choice([1, 1, 2]))])
    fs = opgen.files(w)
    case['opcodes'] = rng.random() < 0.3
    core.restore(ctx.root, fs)
    o = ctx.node('props.c08:conc', case['progs'], [], case['opcodes'], [], 0, probe=True)
    n, per = (o.value[2], o.value[3]) if o.ok else (100, [50] * nt)
    ol = oplist(o.log)
    for k in range(rng.randint(2, 5)):
        st = {'switches': gen_plan(rng, n, nt), 'period': rng.choice([0, 25, 100]), 'faults': [], 'inject': [], 'dirseed': 0,
              'stdio_buf': bufs(rng)}
        r = rng.random()
        if r < 0.15 and ol:
            st['faults'] = gen_faults(rng, ol)
        elif r < 0.3 and not case['opcodes']:
            t = rng.randrange(nt)
            st['inject'] = [[t, rng.randint(1, max(1, per[t])), rng.choice(['KeyboardInterrupt', 'MemoryError'])]]
        elif r < 0.45:
            st['dirseed'] = rng.randint(1, 10**6)
        case['runs'].append(st)
    return case


def outputs(snap, pre):
    return {n: b for n, b in snap.items() if n.startswith('out/' + pre)}


def run(case, ctx):
    fs = opgen.files(case['world'])
    alone, files = [], []
    core.restore(ctx.root, fs)
    start = ctx.snap()
    for k, prog in enumerate(case['progs']):
        core.restore(ctx.root, fs)
        o = ctx.node('props.c08:conc', [prog], [], case['opcodes'], [], 0)
        if not o.ok:
            return [bad_end(o) or vio('no-result', 'thread %d alone: %s' % (k, o.brief()))]
        alone.append(o.value[0][0])
        files.append(outputs(ctx.snap(), 't%d_' % k))
    for r, st in enumerate(case['runs']):
        core.restore(ctx.root, fs)
        o = ctx.node('props.c08:conc', case['progs'], st['switches'], case['opcodes'], st['inject'], st['period'], plan=st['faults'],
                     dirseed=st['dirseed'], stdio_buf=st['stdio_buf'])
        b = bad_end(o)
        if b:
            return [b]
        if not o.ok:
            return [vio('no-result', 'schedule %d: %s' % (r, o.brief()))]
        res, changed, n, per, sw, abort = o.value
        ctx.count('events', n)
        ctx.count('switches', sw)
        if sw:
            ctx.nontrivial = True
        kinds = '+'.join(sorted({op['op'] for p in case['progs'] for op in p}))
        ctx.sig(kinds, sw if sw < 10 else sw // 10 * 10, *sorted(o.log.fired), *[x[2] for x in st['inject']],
                *[e[0] if e[0] == 'ok' else e[1] for t in res for e in t])
        what = 'schedule %d (%d switches) of %s' % (r, sw, [[op['op'] for op in p] for p in case['progs']])
        if abort:
            return [vio('deadlock', '%s: %s' % (what, abort))]
        if changed:
            return [vio('input-changed', '%s: %s' % (what, changed[0]))]
        nf = fired(o)
        hit = {t for t, _, _ in st['inject']}
        after = ctx.snap()
        for k in range(len(case['progs'])):
            clean = True
            for j, got in enumerate(res[k]):
                want = alone[k][j]
                if got[0] == 'raise' and (nf or k in hit) and got != want:
                    ctx.count('troubled')
                    clean = False
                    continue
                if got[:2] != want[:2]:
                    return [vio('different', '%s: thread %d operation %d (%s) gave %s, alone it gives %s; faults %s, injected %s'
                                % (what, k, j, case['progs'][k][j]['op'], got, want, o.log.fired, st['inject']))]
            if len(res[k]) != len(alone[k]):
                return [vio('no-progress', '%s: thread %d did not end' % (what, k))]
            if clean and not nf and outputs(after, 't%d_' % k) != files[k]:
                return [vio('different-file', '%s: the files written by thread %d differ' % (what, k))]
        if not nf and not hit:
            for n in sorted(set(after) | set(start)):
                if (opgen.in_scope(n)) and after.get(n, 0) != start.get(n, 0):
                    return [vio('stray-file', '%s: %s was changed or created' % (what, n))]
            extra = [n for n in after if n.startswith('out/') and n != 'out/' and not any(n in f for f in files)]
            if extra:
                return [vio('stray-file', '%s: %s was left behind' % (what, extra[0]))]
    return []


def shrink(case):
    import copy
    for k in range(len(case['progs'])):
        for j in range(len(case['progs'][k])):
            if len(case['progs'][k]) > 1:
                c = copy.deepcopy(case)
                del c['progs'][k][j]
                yield 'operation', c
    for r in range(len(case['runs'])):
        if len(case['runs']) > 1:
            c = copy.deepcopy(case)
            c['runs'] = [c['runs'][r]]
            yield 'run', c
