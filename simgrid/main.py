"""Driver: seeded search over cases of one property, minimisation, replay,
evidence."""
import argparse
import copy
import importlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

from simgrid import core, ops, sched, shrink          # noqa: E402

LEVEL = 'exploration'


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(p) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [x for x in d.get('findings', []) if x['property'] == prop]


def load_prop(prop):
    return importlib.import_module('simgrid.props.%s' % prop.lower())


def run_case(P, case, ctx):
    """-> list of violations [{'cls','key','msg'}]; ctx carries trace and stats."""
    ctx.reset()
    return P.run(copy.deepcopy(case), ctx)


def worker(prop, seed, tier, idx, nworkers, total, deadline, wfd, stop_r):
    base = tempfile.mkdtemp(prefix='simgrid-', dir=core.scratch_base())
    z = None
    try:
        z = core.Zygote()
        ctx = core.Ctx(z, base)
        P = load_prop(prop)
        i, bad = idx, 0
        limit = total
        while i < limit:
            if time.monotonic() > deadline:
                break
            while select.select([stop_r], [], [], 0)[0]:
                b = os.read(stop_r, 8)
                if not b:
                    return
                limit = min(limit, int.from_bytes(b, 'little'))
            if i >= limit:
                break
            rng = core.make_rng(seed, prop, i)
            ctx.reset()
            try:
                case = P.gen(rng, ctx, tier, i)
                v = run_case(P, case, ctx)
            except Exception:
                # (not an answer for this run; others may still give one)
                bad += 1
                if bad > 20:
                    raise
                data = json.dumps({'error': traceback.format_exc()}).encode()
                core.writen(wfd, len(data).to_bytes(8, 'little') + data)
                i += nworkers
                continue
            if os.environ.get('SIM_DUMP') == str(i):
                sys.stderr.write(json.dumps(case) + '\n' + '\n'.join(str(t) for t in ctx.trace) + '\n')
            rec = {'i': i, 'case_digest': core.jdigest(case), 'trace': core.jdigest(ctx.trace),
                   'stats': ctx.stats, 'sigs': sorted(ctx.sigs), 'nontrivial': ctx.nontrivial,
                   'nodes': ctx.nodes, 'violations': v}
            if v or i < 3 * nworkers and i % nworkers == idx and i < 6:
                rec['case'] = case
            data = json.dumps(rec).encode()
            core.writen(wfd, len(data).to_bytes(8, 'little') + data)
            i += nworkers
    except BaseException:
        data = json.dumps({'error': traceback.format_exc()}).encode()
        core.writen(wfd, len(data).to_bytes(8, 'little') + data)
    finally:
        if z is not None:
            try:
                z.close()
            except BaseException:
                pass
        shutil.rmtree(base, ignore_errors=True)


class Single:
    """One machine in this process, for minimisation and replay."""

    def __enter__(self):
        self.base = tempfile.mkdtemp(prefix='simgrid-', dir=core.scratch_base())
        self.z = core.Zygote()
        return core.Ctx(self.z, self.base)

    def __exit__(self, *a):
        self.z.close()
        shutil.rmtree(self.base, ignore_errors=True)


def unlisted(vs, known):
    keys = set()
    for k in known:
        keys.update(k['keys'])
    return [v for v in vs if v['key'] not in keys], sorted({v['key'] for v in vs if v['key'] in keys})


def search(prop, seed, tier, total, wall, nworkers):
    known = known_findings(prop)
    procs, stops, bufs = [], [], {}
    deadline = time.monotonic() + wall
    nworkers = max(1, min(nworkers, total))
    for w in range(nworkers):
        r, wfd = os.pipe()
        sr, sw = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.close(sw)
                for (rr, ss) in stops:
                    os.close(rr)
                    os.close(ss)
                worker(prop, seed, tier, w, nworkers, total, deadline, wfd, sr)
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(wfd)
        os.close(sr)
        procs.append(pid)
        stops.append((r, sw))
        bufs[r] = b''
    live = set(bufs)
    recs, errors, best = [], [], None
    hard = deadline + 200
    while live:
        rl, _, _ = select.select(list(live), [], [], 5)
        if time.monotonic() > hard:
            errors.append('workers did not end in time')
            for p in procs:
                os.kill(p, signal.SIGKILL)
            break
        for r in rl:
            b = os.read(r, 1 << 20)
            if not b:
                live.discard(r)
                continue
            bufs[r] += b
            while len(bufs[r]) >= 8:
                n = int.from_bytes(bufs[r][:8], 'little')
                if len(bufs[r]) < 8 + n:
                    break
                rec = json.loads(bufs[r][8:8 + n])
                bufs[r] = bufs[r][8 + n:]
                if 'error' in rec:
                    errors.append(rec['error'])
                    continue
                rec['new'], rec['known'] = unlisted(rec['violations'], known)
                recs.append(rec)
                if rec['new'] and (best is None or rec['i'] < best):
                    best = rec['i']
                    for _, sw in stops:
                        try:
                            os.write(sw, best.to_bytes(8, 'little'))
                        except OSError:
                            pass
    for p in procs:
        try:
            os.waitpid(p, 0)
        except ChildProcessError:
            pass
    for r, sw in stops:
        os.close(r)
        os.close(sw)
    recs.sort(key=lambda x: x['i'])
    if best is not None:
        recs = [x for x in recs if x['i'] <= best]
    return recs, errors, best


def write_replay(prop, case, v, extra):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    name = os.path.join(d, '%s-%s.json' % (prop, core.jdigest([case, v['cls']])))
    with open(name, 'w') as f:
        json.dump(dict(property=prop, violation=v, case=case, **extra), f, indent=1, sort_keys=True)
        f.write('\n')
    return name


def replay(path):
    with open(path) as f:
        d = json.load(f)
    P = load_prop(d['property'])
    with Single() as ctx:
        vs = run_case(P, d['case'], ctx)
        tr = core.jdigest(ctx.trace)
    same = [v for v in vs if v['cls'] == d['violation']['cls']]
    for v in vs:
        print('%s: %s' % (v['cls'], v['msg']))
    print('trace %s' % tr)
    if same:
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('not reproduced')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--digests', help='write the trace digest of every case to this file')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--case', type=int, help='run one case index and print what it does')
    a = ap.parse_args()
    ops.load()
    sched.patch_locks()
    if a.replay:
        return replay(a.replay)
    prop, t0 = a.prop, time.time()
    P = load_prop(prop)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    if a.case is not None:
        with Single() as ctx:
            case = P.gen(core.make_rng(a.seed, prop, a.case), ctx, tier, a.case)
            print(json.dumps(case, indent=1))
            vs = run_case(P, case, ctx)
            for t in ctx.trace:
                print(t)
            print(ctx.stats, sorted(ctx.sigs))
            for v in vs:
                print('VIOLATES', v)
        return 0
    total = a.cases or P.CASES[tier]
    wall = a.wall or {'quick': 240, 'thorough': 650}[tier]
    nw = a.workers or min(16, os.cpu_count() or 4)
    recs, errors, best = search(prop, a.seed, tier, total, wall, nw)
    if a.digests:
        with open(a.digests, 'w') as f:
            for r in recs:
                f.write('%d %s %s\n' % (r['i'], r['case_digest'], r['trace']))
    rc, nviol, lines = 0, 0, []
    rep = None
    if best is not None:
        rec = [x for x in recs if x['i'] == best][0]
        v = rec['new'][0]
        known = known_findings(prop)
        with Single() as ctx:
            case, v2, info = shrink.minimise(P, rec['case'], v, ctx, lambda c: unlisted(run_case(P, c, ctx), known)[0],
                                             limit=150 if tier == 'quick' else 600)
        rep = write_replay(prop, case, v2, dict(seed=a.seed, case_index=best, minimised=info,
                                                original_case=rec['case']))
        env = dict(os.environ)
        p = subprocess.run([sys.executable, os.path.join(HERE, 'main.py'), '--replay', rep],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=300)
        again = p.returncode == 1
        if not again:
            rep = write_replay(prop, rec['case'], v, dict(seed=a.seed, case_index=best, minimised='no: the minimised case did not replay'))
        print('%s: %s' % (v2['cls'], v2['msg']))
        print('case %d of seed %d, minimised: %s, replayed in a fresh process: %s' % (best, a.seed, info, again))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(rep, VERIF)))
        rc, nviol = 1, 1
    seen_known = {}
    for r in recs:
        for k in r['known']:
            seen_known[k] = seen_known.get(k, 0) + 1
    for f in known_findings(prop):
        n = sum(seen_known.get(k, 0) for k in f['keys'])
        print('KNOWN-FINDING: property=%s %s (seen in %d runs)' % (prop, f['what'], n))
    if errors:
        print('harness error:\n' + errors[0])
        if rc == 0:
            rc = 2
    wall_s = time.time() - t0
    if not a.no_evidence:
        evidence(prop, P, tier, a.seed, recs, wall_s, nviol, seen_known, rc, total, nw)
    print('%s %s: %d runs, %d processes, %.1f s, exit %d' % (prop, tier, len(recs), sum(r['nodes'] for r in recs), wall_s, rc))
    return rc


def evidence(prop, P, tier, seed, recs, wall_s, nviol, seen_known, rc, total, nw):
    stats, sigs, nt = {}, set(), set()
    for r in recs:
        for k, n in r['stats'].items():
            stats[k] = stats.get(k, 0) + n
        sigs.update(r['sigs'])
        if r['nontrivial']:
            nt.add(r['case_digest'])
    faults = {k[6:]: n for k, n in stats.items() if k.startswith('fault:')}
    at = {k[9:]: n for k, n in stats.items() if k.startswith('fault_at:')}
    other = {k: n for k, n in stats.items() if not k.startswith('fault')}
    samples = [r['case'] for r in recs if 'case' in r][:3]
    cov = {
        'evaluations': len(recs), 'planned_runs': total,
        'distinct_nontrivial': len(nt), 'rule': P.RULE,
        'samples': samples,
        'simulated_processes': sum(r['nodes'] for r in recs),
        'runs_per_hour': round(len(recs) / wall_s * 3600), 'seeds_per_hour': round(len(recs) / wall_s * 3600),
        'seed_derivation': 'one run per (VERIF_SEED, property, run number); every run has its own generator seed',
        'simulated_time': {'unit': 'simulated steps (file operations, scheduler events); the code reads no clock',
                           'steps': other.get('io_ops', 0) + other.get('events', 0),
                           'file_operations': other.get('io_ops', 0), 'scheduler_events': other.get('events', 0)},
        'faults_injected': faults, 'faults_by_operation': at,
        'distinct_behaviours': len({r['trace'] for r in recs}),
        'distinct_behaviours_measure': 'digest of all outcomes and file operation logs of a run',
        'distinct_signatures': len(sigs), 'signature_measure': getattr(P, 'SIG', 'outcome kinds and fault positions'),
        'probes': other, 'components': P.COMPONENTS, 'workers': nw, 'exit': rc,
        'known_findings_seen': seen_known,
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, '%s.json' % prop), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL, 'coverage': cov,
                   'assumptions': P.ASSUMPTIONS, 'wall_s': round(wall_s, 2), 'violations': nviol}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
