"""C10: interrupts and failed allocations never end as success with wrong data."""
import copy

from .. import core, opgen, ops, sched
from .common import *

CASES = {'quick': 900, 'thorough': 20000}
RULE = ('a run is one operation, carried out 4-10 times with an interrupt or MemoryError raised at a seeded line or bytecode, SIGINT '
        'delivered at a file operation, or failing allocations (one, some, all from a point on, or only large ones), half of them '
        'followed by the same operation once more in the same process; non-trivial: the trouble happened')
ASSUMPTIONS = ASSUME + ['a process may die when an allocation fails inside a library (numpy, PROJ, the interpreter)',
                        'a repeated operation that fails after an interrupt counts only if interrupts at 7 consecutive lines around it '
                        'make it fail (an interrupt may strike while a setting is being restored)']
SIG = 'operation x kind of trouble x where x ending'
KINDS = ('mds2mitgrid', 'mds2mitgrid', 'rdmds', 'rdmds', 'getobcs', 'wrmds') + opgen.ALL
WINDOW, SHIFTS = 7, 8


def once(op, tracer=None):
    call, _ = ops.do(op)
    try:
        if core.pending_alloc:
            v = core.with_allocs(call)
        elif tracer:
            v = tracer.run(call)
        else:
            v = call()
        return ('ok', core.digest(v))
    except Exception as e:
        return ('raise', type(e).__name__)
    except KeyboardInterrupt as e:
        return ('raise', type(e).__name__)


def twice(op, inject, opcodes, retry, sites=False):
    """Node entry -> (first outcome, second outcome or None, events, where)"""
    t = sched.Tracer(opcodes=opcodes, inject={int(n): e for n, e in inject}, sites=sites)
    r = once(op, t)
    core.pending_alloc.clear()
    q = once(op) if retry else None
    return (r, q, t.n, t.where) + ((t.some_events(),) if sites else ())


def gen(rng, ctx, tier, i):
    w = opgen.gen_world(rng, top=3)
    op = opgen.gen_op(rng, w, KINDS, out='o', bad=0.05)
    case = {'world': w, 'op': op, 'steps': [], 'dirseed': rng.choice([0, rng.randint(1, 10**6)]), 'stdio_buf': bufs(rng)}
    fs = opgen.files(w)

    def probe(opcodes, alloc):
        core.restore(ctx.root, fs)
        return ctx.node('props.c10:twice', op, [], opcodes, False, True, dirseed=case['dirseed'], stdio_buf=case['stdio_buf'],
                        alloc=alloc, alloc_at='call', probe=True)
    o = probe(False, None)
    if not o.ok:
        return case
    lines, ol = (o.value[4], o.value[2]), oplist(o.log)
    codes = nalloc = None
    for _ in range(rng.randint(4, 10)):
        st = {'inject': [], 'opcodes': False, 'faults': [], 'alloc': [], 'retry': rng.random() < 0.5}
        r = rng.random()
        if r < 0.3:
            st['inject'] = [[sched.pick_event(rng, *lines), rng.choice(['KeyboardInterrupt', 'MemoryError'])]]
        elif r < 0.5:
            if codes is None:
                q = probe(True, None)
                codes = q.value[4], q.value[2]
            st['opcodes'] = True
            st['inject'] = [[sched.pick_event(rng, *codes), rng.choice(['KeyboardInterrupt', 'MemoryError'])]]
        elif r < 0.65 and ol:
            a = rng.choice(ol)
            st['faults'] = [{'on': a[0], 'nth': a[1], 'kind': 'sigint'}]
        else:
            if nalloc is None:
                nalloc = probe(False, [-1, 0, 0]).log.nalloc
                narr = probe(False, [-1, 0, -1]).log.nalloc
            # any memory, larger pieces of it, the data of arrays
            m = rng.choice([0, 0, 64, 512, -1, -1, -1])
            st['alloc'] = [pick(rng, narr if m < 0 else nalloc if not m else max(1, nalloc // 8)), rng.choice([0, 0, 1, 3, 20, 10**9]), m]
        case['steps'].append(st)
    return case


def pick(rng, n):
    n = max(1, n)
    return rng.randrange(n) if rng.random() < 0.7 else rng.randrange(min(n, 60)) if rng.random() < 0.5 else n - 1 - rng.randrange(min(n, 60))


def outs(ctx):
    return {n: b for n, b in ctx.snap().items() if n.startswith(('out/', 'par_obcs'))}


def attempt(case, st, ctx, fs, probe=False):
    core.restore(ctx.root, fs)
    return ctx.node('props.c10:twice', case['op'], st['inject'], st['opcodes'], st['retry'], plan=st['faults'], dirseed=case['dirseed'],
                    stdio_buf=case['stdio_buf'], alloc=st['alloc'] or None, alloc_at='call', probe=probe)


def judge(case, st, o, files, want, ctx):
    """The violation in one attempt, or None."""
    b = bad_end(o, allow=('died',) if st['alloc'] else ())
    if b:
        return b
    if not o.ok:
        return None
    r, q, n, where = o.value
    nf = fired(o)
    trouble = 'trouble: %s' % (st['inject'] or st['faults'] or st['alloc'])
    if r[0] == 'ok' and r != want:
        return vio('wrong-success', '%s reported success with another result; %s %s' % (case['op']['op'], trouble, where))
    if r[0] == 'raise' and not nf and not where and r != want:
        return vio('spurious-error', '%s failed with %s without trouble' % (case['op']['op'], r[1]))
    if st['retry'] and q != want:
        return vio('bad-retry', '%s repeated in the same process gives %s instead of %s; %s %s' % (case['op']['op'], q, want, trouble, where))
    if (q or r)[0] == 'ok' and outs(ctx) != files:
        return vio('wrong-file', '%s reported success but its files differ; %s %s' % (case['op']['op'], trouble, where))
    return None


def run(case, ctx):
    fs = opgen.files(case['world'])
    core.restore(ctx.root, fs)
    o = ctx.node('props.c10:twice', case['op'], [], False, False, dirseed=case['dirseed'], stdio_buf=case['stdio_buf'])
    if not o.ok:
        return [bad_end(o) or vio('no-result', o.brief())]
    want, files = o.value[0], outs(ctx)
    for st in case['steps']:
        o = attempt(case, st, ctx, fs)
        if o.ok:
            ctx.count('events', o.value[2])
            ctx.count('ended_ok' if o.value[0][0] == 'ok' else 'ended_error')
            for _, e in st['inject'] if o.value[3] else ():
                ctx.count('fault:' + e)
        if fired(o) or o.ok and o.value[3]:
            ctx.nontrivial = True
        ctx.sig(case['op']['op'], *sorted(o.log.fired), *[x[1] for x in st['inject']], o.kind, *(o.value[3] + list(o.value[0][:1]) if o.ok else []))
        v = judge(case, st, o, files, want, ctx)
        if v and v['cls'] in ('bad-retry', 'wrong-file') and st['retry'] and st['inject']:
            # could nobody have avoided it?
            st = dict(st, opcodes=False)
            at = st['inject'][0]
            if case['steps'] and any(s['opcodes'] for s in case['steps'] if s['inject'] == st['inject']):
                at = [line_of(case, st, ctx, fs), at[1]]
            hit = 0
            for d in (1, -1):
                for x in range(0 if d == 1 else 1, SHIFTS):
                    if at[0] + d * x < 0:
                        break
                    s2 = dict(st, inject=[[at[0] + d * x, at[1]]])
                    u = judge(case, s2, attempt(case, s2, ctx, fs, probe=True), files, want, ctx)
                    if not u or u['cls'] != v['cls']:
                        break
                    hit += 1
            if hit < WINDOW:
                ctx.count('unprotected_instants')
                v = None
        if v:
            return [v]
    return []


def line_of(case, st, ctx, fs):
    """Number of the line event at which a bytecode event falls."""
    core.restore(ctx.root, fs)
    o = ctx.node('props.c10:lines_before', case['op'], st['inject'][0][0], dirseed=case['dirseed'], stdio_buf=case['stdio_buf'], probe=True)
    return o.value if o.ok else 0


def lines_before(op, n):
    """Node entry: line events before bytecode event n."""
    import sys
    lines, codes = [0], [0]
    got = []

    def local(f, ev, a):
        if ev == 'line':
            lines[0] += 1
        elif ev == 'opcode':
            if codes[0] == n:
                got.append(max(0, lines[0] - 1))
            codes[0] += 1
        return local

    def glob(f, ev, a):
        if sched._ours(f.f_code):
            f.f_trace_opcodes = True
            return local
    call, _ = ops.do(op)
    sys.settrace(glob)
    try:
        call()
    except Exception:
        pass
    finally:
        sys.settrace(None)
    return got[0] if got else 0
