"""C01: a grid write that reports success has stored the complete, exact file."""
from .. import codec, core, ops
from .common import *

CASES = {'quick': 2600, 'thorough': 60000}
RULE = ('a run is a sequence of 1-4 grid writes to one path by separate processes, with previous contents, grids, memory '
        'layouts, stdio buffer size and disk faults drawn from the run seed; non-trivial: at least one fault fired or the '
        'path held something before')
ASSUMPTIONS = ASSUME
SIG = 'write outcome x fired fault kinds x operation they hit'


def gen(rng, ctx, tier, i):
    ni, nj = dims(rng)
    steps = []
    name = rng.choice(['a.mitgrid', 'sub/dir.mitgrid', 'x y.grid', 'tile.bin'])
    old = rng.choice(['none', 'none', 'grid', 'longer', 'shorter', 'garbage', 'empty', 'dir'] if rng.random() < 0.9 else ['missingdir'])
    calm = rng.random() < 0.2
    for s in range(rng.choice([1, 1, 2, 3])):
        if s and rng.random() < 0.4:
            ni, nj = dims(rng)
        steps.append({'ni': ni, 'nj': nj, 'grid': rand_grid(rng, ni, nj), 'faults': [], 'stdio_buf': bufs(rng, ni * nj),
                      'abs': rng.random() < 0.3})
    case = {'file': name, 'prev': old, 'prev_seed': rng.randint(0, 10**9), 'steps': steps}
    if not calm:
        setup(ctx, case)
        for st in steps:
            o = ctx.node('props.c01:do_write', st, case['file'], stdio_buf=st['stdio_buf'], probe=True)
            if o.log.ents and rng.random() < 0.8:
                st['faults'] = gen_faults(rng, oplist(o.log), most=2)
    return case


def setup(ctx, case):
    import os
    n = case['file']
    st = case['steps'][0] if case['steps'] else {'ni': 1, 'nj': 1}
    size = 128 * (st['ni'] + 1) * (st['nj'] + 1)
    r = __import__('random').Random(case['prev_seed'])
    k = case['prev']
    if k == 'missingdir':
        return
    os.makedirs(os.path.dirname(ctx.p(n)), exist_ok=True)
    if k == 'grid':
        ctx.put(n, codec.encode_grid(ops.grid_of({'kind': 'rand', 'seed': case['prev_seed'], 'ni': st['ni'], 'nj': st['nj']}),
                                     st['ni'], st['nj']))
    elif k == 'longer':
        ctx.put(n, r.randbytes(size + r.choice([1, 8, 128, 5000])))
    elif k == 'shorter':
        ctx.put(n, r.randbytes(r.randint(1, size)))
    elif k == 'garbage':
        ctx.put(n, r.randbytes(size))
    elif k == 'empty':
        ctx.put(n, b'')
    elif k == 'dir':
        os.makedirs(ctx.p(n))


def do_write(st, name):
    import os
    fn = os.path.abspath(name) if st.get('abs') else name
    return ops.run_op({'op': 'write_grid', 'file': fn, 'ni': st['ni'], 'nj': st['nj'], 'grid': st['grid']})


def run(case, ctx):
    for st in case['steps']:
        st['ni'], st['nj'] = ops.grid_shape(st['grid'])
    setup(ctx, case)
    out = []
    hopeless = case['prev'] == 'dir' or (case['prev'] == 'missingdir' and '/' in case['file'])
    if case['prev'] not in ('none', 'missingdir'):
        ctx.nontrivial = True
    for k, st in enumerate(case['steps']):
        o = ctx.node('props.c01:do_write', st, case['file'], plan=st['faults'], stdio_buf=st['stdio_buf'])
        nf = fired(o)
        if nf:
            ctx.nontrivial = True
        ctx.sig(o.kind, o.etype, *sorted(o.log.fired))
        b = bad_end(o)
        if b:
            out.append(b)
            break
        success = o.ok and o.value is not False
        if success:
            ctx.count('writes_reported_ok')
            if nf:
                ctx.count('writes_ok_despite_faults')
            data = None if case['prev'] == 'dir' else ctx.get(case['file'])
            w = check_grid_file(data, ops.grid_of(st['grid']), st['ni'], st['nj'])
            if w:
                cls = 'silent-loss' if nf else 'wrong-file'
                out.append(vio(cls, 'write %d (%dx%d) reported success but the file is wrong: %s; faults fired: %s'
                               % (k, st['ni'], st['nj'], w, o.log.fired)))
                break
        else:
            ctx.count('writes_reported_error')
            if not nf and not hopeless:
                out.append(vio('spurious-error', 'write %d (%dx%d) failed without any fault: %s' % (k, st['ni'], st['nj'], o.brief())))
                break
    return out
