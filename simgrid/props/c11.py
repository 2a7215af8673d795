"""C11: exit status 0 of a command means its output file is the function's result."""
import copy
import errno
import gc
import io
import os
import sys

from .. import codec, core, opgen, ops, sched
from .common import *

CASES = {'quick': 480, 'thorough': 14000}
RULE = ('a run is a history of 2-5 commands (sgmkgrid, sgregrid, sgaddfringe, sgstitch, sggetobcs) on one disk, each with seeded '
        'spelling and order of arguments, output path (new, existing, replacing an input, no such directory), standard output '
        '(ordinary, file on the faulty disk, full, broken pipe, closed; buffered or not) and trouble (disk fault, death, SIGINT, '
        'interrupt at a line, failing allocation, wrong arguments, damaged input); non-trivial: trouble of any kind')
ASSUMPTIONS = ASSUME + ['the interpreter turns an uncaught exception into status 1, SystemExit into its code, an interrupt into 130 and a '
                        'failing last flush of standard output into 120 (reproduced by the simulator around main())',
                        'an interpolation library stub stands in for xesmf']
SIG = 'command x trouble x standard output x status'
BUFF = 8192


class Counting(io.TextIOWrapper):
    """Standard output that knows whether it was given anything."""
    n = 0

    def write(self, s):
        self.n += len(s)
        return super().write(s)


def command(prog, argv, stdout, inject, opcodes):
    """Node entry: the console script.  -> (status, why, events, where, characters printed)"""
    fd = None
    if stdout['to'] == 'file':
        fd = os.open('stdout.log', os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    elif stdout['to'] == 'full':
        fd = os.open('/dev/full', os.O_WRONLY)
    elif stdout['to'] == 'pipe':
        r, fd = os.pipe()
        os.close(r)
    if fd is not None:
        os.dup2(fd, 1)
        os.close(fd)
    if stdout['to'] == 'closed':
        os.close(1)
        sys.stdout = None
    else:
        sys.stdout = Counting(open(1, 'wb', buffering=BUFF, closefd=False), encoding='utf-8', line_buffering=bool(stdout['line']))
    out = sys.stdout
    t = sched.Tracer(opcodes=opcodes, inject={int(n): e for n, e in inject})
    call = ops.prepare({'op': 'cmd', 'prog': prog, 'argv': argv}).call

    def main():
        return t.run(call)
    why = ''
    try:
        r = core.with_allocs(main)
        status = 0 if r is None else r if isinstance(r, int) else 1
    except SystemExit as e:
        status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        why = 'SystemExit'
    except KeyboardInterrupt:
        status, why = 130, 'KeyboardInterrupt'
    except Exception as e:
        # messages about failed allocations mention addresses
        status, why = 1, type(e).__name__ + ('' if core.pending_alloc else ': ' + str(e)[:100])
    gc.collect()
    if out is not None:
        try:
            out.flush()
        except Exception as e:
            if not status:
                status, why = 120, 'stdout: %s' % type(e).__name__
            # nothing more to be flushed when the process ends
            try:
                dn = os.open('/dev/null', os.O_WRONLY)
                os.dup2(dn, 1)
            except OSError:
                pass
    return status & 255, why, t.n, t.where, out.n if out is not None else 0


def reference(op):
    """Node entry: the function the command stands for, and what it should store."""
    r = ops.prepare(op).call()
    return ops.result_grid(op, r) if op['op'] != 'getobcs' else None


FLAGS = {'mkgrid': ['lon1', 'lat1', 'lon2', 'lat2', 'lon_subscale', 'lat_subscale'],
         'regrid': ['lon1', 'lat1', 'lon2', 'lat2', 'lon_subscale', 'lat_subscale'],
         'addfringe': ['tilea', 'nia', 'nja', 'tileb', 'nib', 'njb'], 'stitch': ['tilea', 'nia', 'nja', 'tileb', 'nib', 'njb']}


def argv(op, style):
    """The command line of an operation; style: seed of its spelling."""
    import random
    rng = random.Random(style)
    kv = []
    if op['op'] == 'getobcs':
        for k, v in op['kw'].items():
            kv.append((k, [str(x) for x in (v['np'] if isinstance(v, dict) else v)] if isinstance(v, (list, dict)) else v))
    else:
        kv = [(k, op[k]) for k in FLAGS[op['op']] if k in op]
        kv.append(('outfile', op['out']))
        s = op.get('src')
        if s and s['kind'] == 'file':
            kv += [('mitgridfile', s['file']), ('ni', s['ni']), ('nj', s['nj'])]
        elif s:
            kv += [('xg_file', s['xg']), ('yg_file', s['yg']), ('ni', s['ni']), ('nj', s['nj'])]
    rng.shuffle(kv)
    out = []
    for k, v in kv:
        if isinstance(v, list):
            out.append(['--' + k] + v)
        elif isinstance(v, float):
            s = repr(v)
            out.append(['--%s=%s' % (k, s)] if 'e' in s or rng.random() < 0.7 else ['--' + k, s])
        else:
            out.append(['--%s=%s' % (k, v)] if rng.random() < 0.5 else ['--' + k, str(v)])
    if op.get('verbose'):
        out.append([rng.choice(['-v', '--verbose'])])
    if op.get('strict'):
        out.append([rng.choice(['-s', '--strict'])])
    rng.shuffle(out)
    return [x for y in out for x in y]


def spoil_args(a, how):
    a = list(a)
    k, kind = how
    k %= len(a)
    if kind in ('drop', 'dropfile'):
        # an option with its value
        opts = [i for i, x in enumerate(a) if x.startswith('--') and x not in ('--verbose', '--strict')
                and not x.startswith(('--resultsdir', '--OB_'))]
        if kind == 'dropfile':
            opts = [i for i in opts if a[i].startswith(('--xg', '--yg', '--mitgridfile', '--tile', '--parent_m', '--regional_m'))] or opts
        i = opts[k % len(opts)]
        j = i + 1
        while j < len(a) and not a[j].startswith('--') and '=' not in a[i] and a[j] not in ('-v', '-s'):
            j += 1
        return a[:i] + a[j:]
    if kind == 'junk':
        return a[:k] + ['--no-such-option=1'] + a[k:]
    return [('--ni=x' if x.startswith('--ni') else x) for x in a] + ['--nia=x', '--lon_subscale=1.5', '--ni_parent=y']


def gen(rng, ctx, tier, i):
    w = opgen.gen_world(rng, top=3)
    case = {'world': w, 'dirty': [], 'steps': [], 'dirseed': 0}
    if rng.random() < 0.3:
        case['dirty'] = [[rng.choice(['big', 'l', 'h']), rng.randrange(10**6)]]
    if rng.random() < 0.15:
        case['cut'] = [rng.choice(['big.mitgrid', 'l.mitgrid', 'h.mitgrid', 'xg.bin', 'yg.csv']), rng.randrange(10**6)]
    fs = files(case)
    core.restore(ctx.root, fs)
    for k in range(rng.randint(2, 5)):
        op = gen_cmd(rng, w, k)
        st = {'op': op, 'style': rng.randrange(10**6), 'args': [], 'faults': [], 'inject': [], 'opcodes': False, 'alloc': [],
              'dirseed': rng.choice([0, rng.randint(1, 10**6)]), 'stdio_buf': bufs(rng),
              'stdout': {'to': rng.choice(['null', 'null', 'file', 'file', 'file', 'full', 'pipe', 'closed']), 'line': rng.random() < 0.5}}
        if rng.random() < (0.25 if op.get('src', {}).get('kind') == 'xgyg' else 0.1):
            st['args'] = [[rng.randrange(100), rng.choice(['drop', 'drop', 'dropfile', 'dropfile', 'junk', 'bad'])]]
        here = ctx.snap()
        r = rng.random()
        if st['args'] and rng.random() < 0.7:
            # nothing else
            r *= 0.25
        o = go(ctx, st, probe=True, alloc=[-1, 0, 0] if r > 0.85 else None)
        if o.ok:
            ol = oplist(o.log)
            if r < 0.25:
                pass
            elif r < 0.55:
                st['faults'] = gen_faults(rng, ol)
                said = [x for x in ol if x[0] == 'write' and x[4] == 'stdout.log']
                if said and rng.random() < 0.5:
                    t = said[-1] if rng.random() < 0.5 else rng.choice(said)
                    st['faults'] = [{'on': 'write', 'nth': t[1], 'kind': rng.choice(['err', 'sticky']), 'errno': rng.choice(['EIO', 'ENOSPC'])}]
            elif r < 0.62 and ol:
                st['faults'] = [gen_crash(rng, ol)]
            elif r < 0.68 and ol:
                a = rng.choice(ol)
                st['faults'] = [{'on': a[0], 'nth': a[1], 'kind': 'sigint'}]
            elif r < 0.85:
                n = max(1, o.value[2])
                late = rng.random() < 0.4
                st['inject'] = [[n - 1 - rng.randrange(min(n, 60)) if late else rng.randrange(n),
                                 rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])]]
            else:
                m = rng.choice([0, 0, 512])
                st['alloc'] = [rng.randrange(max(1, o.log.nalloc if not m else 60)), rng.choice([0, 0, 3, 50, 10**9]), m]
        ctx.restore(here)
        go(ctx, st, probe=True)
        case['steps'].append(st)
    return case


def gen_cmd(rng, w, k):
    kind = rng.choice(['mkgrid', 'regrid', 'regrid', 'addfringe', 'stitch', 'stitch'] + (['getobcs'] if w['obcs'] else []))
    while True:
        if kind == 'getobcs':
            o = w['obcs']
            op = {'op': kind, 'kw': opgen.gen_obkw(rng, o, rng.choice(['out/obcs', 'out/obcs', 'out/%d.obcs' % k]))}
            kw = op['kw']
            for x in ('parent_mitgrid_matrices', 'regional_mitgrid_matrices'):
                kw.pop(x, None)
            kw.update(parent_mitgridfile='parent.mitgrid', ni_parent=o['parent']['ni'], nj_parent=o['parent']['nj'],
                      regional_mitgridfile='region.mitgrid', ni_regional=o['region']['ni'], nj_regional=o['region']['nj'])
            if rng.random() < 0.3:
                del kw['resultsdir']
            break
        op = opgen.gen_kind(rng, w, kind, '%d' % k)
        if op.get('src', {}).get('kind') != 'mem':
            break
    r = rng.random()
    if kind != 'getobcs':
        ins = inputs(op)
        if r < 0.25:
            op['out'] = 'out/%d.mitgrid' % rng.randrange(2)
        elif r < 0.45 and ins:
            op['out'] = rng.choice(ins)
        elif r < 0.5:
            op['out'] = 'rand.mitgrid'
        elif r < 0.55:
            op['out'] = rng.choice(['nodir/x.mitgrid', 'out', 'mds'])
    if rng.random() < 0.05:
        # fails by itself
        if kind == 'regrid':
            op['lon2'], op['lat2'] = op['lon1'], op['lat1']
        elif kind in ('addfringe', 'stitch'):
            op.update(tileb='rand.mitgrid', nib=w['rand']['ni'], njb=w['rand']['nj'])
    if rng.random() < 0.5:
        op['verbose'] = True
    if rng.random() < 0.4 and kind != 'mkgrid':
        op['strict'] = True
    return op


def inputs(op):
    if op['op'] in ('addfringe', 'stitch'):
        return [op['tilea'], op['tileb']]
    s = op.get('src')
    if s:
        return [s['file']] if s['kind'] == 'file' else [s['xg'], s['yg']]
    if op['op'] == 'getobcs':
        return ['parent.mitgrid', 'region.mitgrid']
    return []


def files(case):
    fs = opgen.files(case['world'])
    w = case['world']
    for name, at in case['dirty']:
        n = name + '.mitgrid'
        if name == 'big':
            ni, nj = w['geo']['ni'], w['geo']['nj']
        else:
            ni, nj = opgen.dims_of(opgen.tile_specs(w)['lh'.index(name)])
        # a non-zero value somewhere in the padding
        pads = []
        for f, (fn, di, dj) in enumerate(codec.FIELDS):
            for i in range(ni + 1):
                for j in range(nj + 1):
                    if i >= ni + di or j >= nj + dj:
                        pads.append((f * (nj + 1) + j) * (ni + 1) + i)
        p = pads[at % len(pads)] * 8
        b = fs[n]
        fs[n] = b[:p] + b'\x40' + b[p + 1:]
    if case.get('cut'):
        n, at = case['cut']
        fs[n] = fs[n][:at % len(fs[n])]
    return fs


def go(ctx, st, probe=False, alloc=None):
    a = argv(st['op'], st['style'])
    for how in st['args']:
        a = spoil_args(a, how)
    return ctx.node('props.c11:command', st['op']['op'], a, st['stdout'], st['inject'], st['opcodes'], plan=st['faults'],
                    dirseed=st['dirseed'], stdio_buf=st['stdio_buf'], alloc=alloc or st['alloc'] or None, alloc_at='call', probe=probe)


def outname(op):
    if op['op'] == 'getobcs':
        return op['kw'].get('resultsdir', op['kw']['parent_resultsdir'] + '_obcs') + '/'
    return os.path.normpath(op['out'])


def run(case, ctx):
    core.restore(ctx.root, files(case))
    for k, st in enumerate(case['steps']):
        op = st['op']
        before = ctx.snap()
        ref = ctx.node('props.c11:reference', op)
        b = bad_end(ref)
        if b:
            return [b]
        after_ref = ctx.snap()
        ctx.restore(before)
        o = go(ctx, st)
        b = bad_end(o, allow=('died',) if st['alloc'] else ())
        if b:
            return [b]
        after = ctx.snap()
        after.pop('stdout.log', None)
        before.pop('stdout.log', None)
        after_ref.pop('stdout.log', None)
        out = outname(op)
        mine = lambda n: n == out or out.endswith('/') and n.startswith(out)
        status = o.value[0] if o.ok else 137 if o.kind == 'killed' else 130 if o.isa('KeyboardInterrupt') else 1
        where = o.value[3] if o.ok else []
        for x in where:
            ctx.count('fault:' + st['inject'][0][1])
        nf = fired(o)
        badout = op.get('verbose') and (st['stdout']['to'] in ('full', 'pipe', 'closed') or st['stdout']['to'] == 'file' and nf)
        if nf or where or st['args'] or st['stdout']['to'] in ('full', 'pipe') and op.get('verbose') or not ref.ok:
            ctx.nontrivial = True
        ctx.count('status_%d' % status)
        ctx.sig(op['op'], *sorted(o.log.fired), *[x[1] for x in st['inject']], *[x[1] for x in st['args']],
                st['stdout']['to'] + str(op.get('verbose', False)), status, ref.kind, out in inputs(op))
        what = 'command %d (%s)' % (k, op['op'])
        trouble = 'faults %s %s %s, stdout %s' % (o.log.fired, st['inject'], st['args'], st['stdout']['to'])
        # whatever happened, nothing but the output is touched
        for n in sorted(before):
            if not mine(n) and after.get(n, 0) != before[n]:
                return [vio('input-changed', '%s %s %s; status %d, %s' % (what, 'removed' if n not in after else 'changed', n, status, trouble))]
        if status == 0:
            if st['args']:
                return [vio('bad-arguments', '%s exits with 0 although its arguments are wrong: %s' % (what, st['args']))]
            if not ref.ok:
                return [vio('wrong-success', '%s exits with 0, but the function raises %s; %s' % (what, ref.brief(), trouble))]
            for n in sorted(after):
                if n not in before and not mine(n):
                    return [vio('stray-file', '%s left %s behind; %s' % (what, n, trouble))]
            lost = [e[0] for e in o.log.ents if e[1] == 'stdout.log' and e[0] == 'write' and e[5] not in (0, errno.EINTR)]
            if lost or o.value[4] and st['stdout']['to'] in ('full', 'pipe'):
                return [vio('lost-output', '%s exits with 0, but what it printed was lost; %s' % (what, trouble))]
            if op['op'] == 'getobcs':
                e = {n: v for n, v in after_ref.items() if mine(n)}
                g = {n: v for n, v in after.items() if mine(n)}
                if e != g:
                    return [vio('wrong-output', '%s exits with 0, but %s differ from those of the function; %s'
                                % (what, sorted(n for n in set(e) | set(g) if e.get(n, 0) != g.get(n, 0)), trouble))]
            else:
                grid, ni, nj = ref.value
                bad = check_grid_file(after.get(out), grid, ni, nj)
                if bad:
                    return [vio('wrong-output', '%s exits with 0, but in %s: %s; %s' % (what, out, bad, trouble))]
        else:
            if ref.ok and not nf and not where and not st['args'] and not badout and o.ok and writable(out, before):
                return [vio('spurious-status', '%s exits with %d (%s) without trouble' % (what, status, o.value[1]))]
            early = not ref.ok or st['args']
            if not early and not nf:
                pass
            elif not early:
                hit = [e for e in o.log.ents if e[6]]
                # nothing but inputs failed, and the output is none of them
                early = bool(hit) and set(o.log.fired) <= {'err', 'sticky', 'short'} and not st['alloc'] and not where and out not in inputs(op) and not badout \
                    and all(e[0] in ('open', 'read') and not e[7] and os.path.normpath(e[1]) in inputs(op) for e in hit)
            if early:
                ctx.count('failed_before_output')
                for n in sorted(set(before) | set(after)):
                    if mine(n) and not n.endswith('/') and before.get(n, 0) != after.get(n, 0):
                        return [vio('output-touched', '%s failed with %d before it had a result (%s) but touched %s; %s'
                                    % (what, status, ref.brief() if not ref.ok else o.log.fired, n, trouble))]
    return []


def writable(out, before):
    if out.endswith('/'):
        return True
    d = os.path.dirname(out)
    return out + '/' not in before and (not d or d + '/' in before)
