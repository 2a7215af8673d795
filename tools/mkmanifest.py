"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {
 'C01': 'deterministic simulation: seeded disk faults under the real writer, independent decoder as oracle',
 'C02': 'deterministic simulation: seeded crash points and write faults, readers in fresh processes',
 'C03': 'deterministic simulation: seeded read faults, truncation and padding damage against an independent encoder',
 'C04': 'deterministic simulation: seeded directory orders, read faults and outside actions against a reference array',
 'C05': 'deterministic simulation: seeded disk faults and crash points in the two-file write, reference decoder and reader',
 'C06': 'deterministic simulation: seeded faults, interrupts and allocation failures during import against a reference array',
 'C07': 'deterministic simulation: inputs watched at scheduler events of faulted and interrupted runs',
 'C08': 'deterministic simulation: seeded thread schedules at line and bytecode granularity, serial runs as reference',
 'C09': 'deterministic simulation: seeded histories with faults and interrupts, fresh process as reference, process state watched',
 'C10': 'deterministic simulation: interrupts and allocation failures injected at seeded execution points',
 'C11': 'deterministic simulation: commands run to exit on a faulty simulated disk, Python call as reference',
 'C12': 'deterministic simulation: seeded crashes and faults over file workflows, retried; fault-free run as reference',
 'C13': 'deterministic simulation: histories with crashes and faults, refinement against a reference geometry model',
 'C14': 'deterministic simulation: joining histories with crashes and faults, refinement against a reference model',
 'C15': 'deterministic simulation: seeded faults and crash-retry histories around a stub interpolator, reference model',
}
NOTE = {}
NOTE['default'] = ('Seeded search over sampled inputs, faults and schedules: evidence, not proof. Real simplegrid, numpy, pyproj and '
        'CPython code runs; system calls pass through a simulated disk that decides faults. A violation is replayed in a fresh process.')
NA = {
 'N01': 'pure function of its input: no schedule, clock, fault or interleaving for simulation to decide (its use inside regrid is covered by C13)',
 'N02': 'pure function of its input; C13 compares areas with a model to a loose tolerance, the accuracy claim itself is numerical analysis',
 'N03': 'pure function of its input (matching and non-matching tiles occur in C14, the exact threshold is not a simulation target)',
 'N04': 'pure function of its input: a grammar; damaged and truncated metadata met through the disk are part of C04 and C06',
 'N05': 'ranges over machines and library builds; a simulation runs on one machine and cannot vary them',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'simgrid/props/%s.py' % i.lower())):
        checks.append({'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': TECH[i], 'level': 'exploration', 'level_note': NOTE.get(i, NOTE['default'])})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'none (no hooks in /repo)',
     'enable': 'nothing to enable: the seams are LD_PRELOAD of build/libsimio.so and sys.settrace', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. ./check --replay FILE replays a violation; tools/selftest.sh checks determinism.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
