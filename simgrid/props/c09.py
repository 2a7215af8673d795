"""C09: what a call does never depends on earlier calls and leaves no residue."""
import copy

import numpy as np

from .. import codec, core, disk, opgen, ops, procstate, sched
from .common import *

CASES = {'quick': 480, 'thorough': 14000}
RULE = ('a run is a history of 3-8 calls in one process (operations repeated, on changed arrays and replaced files, failing by '
        'themselves, by disk faults, by interrupts between lines), the caller overwriting results and inputs between calls; each '
        'undisturbed call is compared with the same call in a fresh process, and the process state with the one before; '
        'non-trivial: the history has more than one step')
ASSUMPTIONS = ASSUME + ['an interrupt may strike in the few lines between changing and protecting a setting, or while it is being restored: '
                        'a difference after an interrupt counts only if interrupts at 7 consecutive lines around it give one']
SIG = 'operation x its ending x what came before it'
WINDOW, SHIFTS = 7, 8


def poke(env, ps):
    """The caller changes arrays it had passed (equal descriptions share one object)."""
    import json
    for gs, f in ps:
        k = json.dumps(gs, sort_keys=True)
        if k not in env:
            env[k] = ops.grid_of(gs)
        for v in env[k].values():
            if isinstance(v, np.ndarray) and v.flags.writeable:
                with np.errstate(all='ignore'):
                    v *= f


def spoil(v, depth=0):
    """The caller overwrites a result it was given."""
    if isinstance(v, np.ndarray):
        if v.flags.writeable:
            try:
                v[...] = 77
            except (TypeError, ValueError):
                pass
    elif isinstance(v, dict) and depth < 3:
        for k in list(v):
            spoil(v[k], depth + 1)
        v.clear()
    elif isinstance(v, (list, tuple)) and depth < 3:
        for x in v:
            spoil(x, depth + 1)
        if isinstance(v, list):
            v.clear()


def both(a, b, plan):
    """Two calls at once, in two threads: -> ('pair', outcomes)."""
    def body(c):
        def f():
            try:
                return ('ok', core.digest(c()))
            except sched.SimAbort:
                raise
            except BaseException as e:
                return ('raise', type(e).__name__)
        return f

    S = sched.Scheduler([body(a), body(b)], plan)
    res = S.run()
    return ('pair', *[tuple(x) if x else ('lost',) for x in res], S.abort or '')


def history(steps, preset, sites=False):
    """Node entry: -> list of (outcome, changed state, text, faults fired, events, injected)"""
    env = {'share': True}
    L = disk.lib()
    procstate.preset(preset)
    out = []
    for st in steps:
        if st.get('swap') or st.get('gone'):
            import os
            for n in st.get('swap', ()):
                for _ in range(4):
                    try:
                        os.replace('alt/' + n, n)
                        break
                    except OSError:
                        pass
            for n in st.get('gone', ()):
                for _ in range(4):
                    try:
                        os.remove(n)
                        break
                    except OSError:
                        pass
        poke(env, st.get('pokes', ()))
        if 'op' not in st:
            out.append(None)
            continue
        call, _ = ops.do(st['op'], env)
        mate = ops.do(st['with'], env)[0] if st.get('with') else None
        before = procstate.state()
        n0 = sum(L.simio_fired(disk.shared, k) for k in (0, *disk.KINDNAME))
        t = sched.Tracer(inject={int(n): e for n, e in st.get('inject', ())}, sites=sites)
        v = None
        if mate:
            r = both(call, mate, st.get('switches', []))
        else:
            try:
                v = t.run(call)
                r = ('ok', core.digest(v))
            except Exception as e:
                r = ('raise', type(e).__name__)
            except KeyboardInterrupt as e:
                r = ('raise', type(e).__name__)
        n1 = sum(L.simio_fired(disk.shared, k) for k in (0, *disk.KINDNAME))
        after = procstate.state()
        d = procstate.diff(before, after)
        out.append((r, d, [procstate.text(before, after, k) for k in d], n1 - n0, t.n, t.where) + ((t.some_events(),) if sites else ()))
        if st.get('spoil'):
            spoil(v)
        v = None
    return out


def second(w, alter=()):
    """The same world with other values in its files, perhaps stored in another
    way (as long as before), of another shape, at other times."""
    w = copy.deepcopy(w)
    for s in w['sets'] + w['fields'] + (w['obcs']['resp'] if w['obcs'] else []):
        par = w['obcs'] and s in w['obcs']['resp']
        if 'prec' in alter:
            s['prec'] = {'float32': 'float64', 'float64': 'float32'}[s['prec']]
        if 'xy' in alter and not par and s['layout'] != 'packed':
            for a, b in (('nx', 'ny'), ('tx', 'ty'), ('px', 'py')):
                s[a], s[b] = s[b], s[a]
        if s['its'] and 'later' in alter:
            s['its'] = s['its'] + [max(s['its']) + 7]
        if len(s['its']) > 1 and 'fewer' in alter:
            s['its'] = s['its'][1:]
    g = w['geo']
    d = (g['lon2'] - g['lon1']) / g['ni'] * 0.01
    g['lon1'] += d
    g['lon2'] += d
    w['rand']['seed'] += 1
    for s in w['sets'] + w['fields'] + (w['obcs']['resp'] if w['obcs'] else []):
        s['seed'] += 1
    return w


def build(case):
    fs = opgen.files(case['world'])
    for n, b in opgen.files(second(case['world'], case.get('alter', ()))).items():
        if opgen.in_scope(n) and b is not None and fs.get(n) != b:
            fs['alt/' + n] = b
    return fs


def gen(rng, ctx, tier, i):
    w = opgen.gen_world(rng, top=3)
    case = {'world': w, 'steps': [], 'faults': [], 'preset': rng.choice(procstate.PRESETS) if rng.random() < 0.6 else 'plain', 'dirseed': 0,
            'stdio_buf': bufs(rng)}
    if rng.random() < 0.3:
        case['dirseed'] = rng.randint(1, 10**6)
    if rng.random() < 0.5:
        case['alter'] = [x for x in ('prec', 'xy', 'later', 'fewer') if rng.random() < 0.4]
    fs = build(case)
    alts = sorted(n[4:] for n in fs if n.startswith('alt/'))
    now = opgen.files(second(w, case.get('alter', ())))
    lost = sorted(n for n in fs if opgen.in_scope(n) and fs[n] is not None and not n.startswith('alt/') and n not in now)
    swapped = set()
    seen, fresh = [], ()
    for k in range(rng.randint(3, 8)):
        if seen and rng.random() < (0.75 if fresh else 0.45):
            op = copy.deepcopy(rng.choice([x for x in seen if reads(x, fresh)] or seen) if rng.random() < 0.7 else rng.choice(seen))
            rename(op, 's%d' % k)
            if rng.random() < 0.1:
                op['verbose'] = not op.get('verbose', False)
        else:
            op = opgen.gen_op(rng, w, out='s%d' % k, bad=0.12)
        st = {'op': op, 'spoil': rng.random() < 0.5, 'name': 's%d' % k}
        if k and rng.random() < 0.2:
            # data sets are replaced whole, as a new run of a model would do
            cls = [('big.mitgrid', 'l.mitgrid', 'h.mitgrid', 'rand.mitgrid', 'xg.', 'yg.'), ('mds/',), ('grid/',), ('par/',)]
            # (of those read before by this call, mostly)
            cl = rng.choice([c for c in cls if reads(op, c) and any(same_but_name(op, x) for x in seen)] or
                            [c for c in cls if any(reads(x, c) for x in seen)] or cls)
            st['swap'] = [n for n in alts if n.startswith(cl) and n not in swapped]
            swapped.update(st['swap'])
            st['gone'] = [n for n in lost if n.startswith(cl) and n not in swapped]
            swapped.update(st['gone'])
            fresh = cl
        if k and rng.random() < 0.2:
            st['pokes'] = [[gs, rng.choice([1.0001, 0.9999])] for gs in opgen.grids(w) if rng.random() < 0.7]
        seen.append(op)
        if rng.random() < 0.15:
            # another thread calls something at the same time
            st['with'] = copy.deepcopy(op) if rng.random() < 0.5 else opgen.gen_op(rng, w, out='s%d' % k)
            rename(st['with'], 's%d.b' % k)
            n = 10 ** rng.uniform(1, 3.5)
            st['switches'] = sorted([int(rng.random() * n), rng.randrange(2)] for _ in range(rng.choice([2, 5, 20, 60])))
        case['steps'].append(st)
    core.restore(ctx.root, fs)
    o = ctx.node('props.c09:history', case['steps'], case['preset'], True, dirseed=case['dirseed'], stdio_buf=case['stdio_buf'], probe=True)
    r = rng.random()
    if o.ok and r < 0.4:
        k = rng.choice([j for j, s in enumerate(case['steps']) if 'with' not in s] or [None])
        if k is not None:
            case['steps'][k]['inject'] = [[sched.pick_event(rng, o.value[k][6], o.value[k][4]), rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])]]
    elif o.ok and r < 0.7:
        ol = oplist(o.log)
        if ol:
            case['faults'] = gen_faults(rng, ol, most=3)
    return case


def reads(op, cl):
    """Does the call read files whose names begin with one of cl?"""
    t = str(op)
    return any("'" + c in t for c in cl) or op['op'] == 'getobcs' and ('par/' in cl or 'parent.' in cl)


def same_but_name(a, b):
    a, b = copy.deepcopy(a), copy.deepcopy(b)
    rename(a, 'x')
    rename(b, 'x')
    return a == b


def rename(op, out):
    if op.get('out'):
        op['out'] = 'out/%s.mitgrid' % out
    if op['op'] == 'write_grid':
        op['file'] = 'out/%s.mitgrid' % out
    elif op['op'] == 'wrmds' and op['fbase'].startswith('out/'):
        op['fbase'] = 'out/%s' % out
    elif op['op'] == 'getobcs':
        op['kw']['resultsdir'] = 'out/%s.obcs' % out


def outs(snap, st):
    return {n: b for n, b in snap.items() if n.startswith('out/%s.' % st['name'])}


def judge(case, ctx, refs, probe=False):
    """Violations of one history."""
    fs = build(case)
    core.restore(ctx.root, fs)
    o = ctx.node('props.c09:history', case['steps'], case['preset'], plan=case['faults'], dirseed=case['dirseed'],
                 stdio_buf=case['stdio_buf'], probe=probe)
    b = bad_end(o)
    if b:
        return [b], o
    if not o.ok:
        if o.etype in ('KeyboardInterrupt', 'MemoryError'):
            return [], o
        return [vio('no-result', 'the history ended with %s' % o.brief())], o
    after = ctx.snap()
    injected = False
    for k, (st, res) in enumerate(zip(case['steps'], o.value)):
        r, changed, texts, nf, n, where = res
        if not probe:
            ctx.count('events', n)
            ctx.count('calls')
            for _, e in st.get('inject', ()) if where else ():
                ctx.count('fault:' + e)
            if 'with' in st:
                ctx.count('pairs')
            if k:
                ctx.nontrivial = True
            prev = o.value[k - 1] if k else None
            ctx.sig(st['op']['op'], st['with']['op'] if 'with' in st else '', *r[:1], r[1] if r[0] == 'raise' else '', nf, *(where), '' if not prev else case['steps'][k - 1]['op']['op'] + prev[0][0])
        injected = injected or bool(where)
        what = 'call %d (%s)' % (k, st['op']['op'])
        if changed:
            return [vio('residue', '%s ended with %s and left changed: %s' % (what, r, '; '.join(texts[:3])), 'residue')], o
        if nf or where:
            continue
        want, files = refs(k)
        if r != want:
            return [vio('depends-on-history', '%s gave %s, in a fresh process it gives %s; before it: %s' % (
                what, r, want, [[s['op']['op'], v[0][0]] for s, v in zip(case['steps'][:k], o.value)]))], o
        if outs(after, st) != files:
            return [vio('depends-on-history', '%s wrote other files than in a fresh process' % what)], o
    return [], o


def run(case, ctx):
    fs = build(case)
    cache = {}

    def refs(k):
        if k not in cache:
            # the same arguments and files, nothing called before
            steps = []
            for st in case['steps'][:k]:
                steps.append({x: st[x] for x in ('swap', 'gone', 'pokes') if x in st})
            steps.append({x: y for x, y in case['steps'][k].items() if x in ('swap', 'gone', 'pokes', 'op', 'with', 'switches')})
            saved = ctx.snap()
            core.restore(ctx.root, fs)
            o = ctx.node('props.c09:history', steps, case['preset'], dirseed=case['dirseed'], stdio_buf=case['stdio_buf'])
            if not o.ok:
                raise core.HarnessError('reference: ' + o.brief())
            cache[k] = o.value[-1][0], outs(ctx.snap(), case['steps'][k])
            core.restore(ctx.root, saved)
        return cache[k]

    vs, o = judge(case, ctx, refs)
    if not vs or not any(s.get('inject') for s in case['steps']) or vs[0]['cls'] in ('no-progress', 'died'):
        return vs
    # does it need the interrupt?
    c = copy.deepcopy(case)
    for s in c['steps']:
        s.pop('inject', None)
    w, _ = judge(c, ctx, refs, probe=True)
    if any(x['cls'] == vs[0]['cls'] for x in w):
        return vs
    k = [j for j, s in enumerate(case['steps']) if s.get('inject')][0]
    run_ = 1
    for d in (1, -1):
        for x in range(1, SHIFTS):
            c = copy.deepcopy(case)
            n = c['steps'][k]['inject'][0][0] + d * x
            if n < 0:
                break
            c['steps'][k]['inject'][0][0] = n
            w, _ = judge(c, ctx, refs, probe=True)
            if not any(y['cls'] == vs[0]['cls'] for y in w):
                break
            run_ += 1
    if run_ >= WINDOW:
        return vs
    ctx.count('unprotected_instants')
    return []
