""" C11: channel order follows names, not directory enumeration. """
import os

from .. import boot, ref, world
from ..core import InvalidWorkload

rzb = boot.rzb
ID = 'C11'
SHRINK = ['clients', 'clients.*', 'dirs', 'dirs.*.files', 'dirs.*.junk']

STEMS = ['a', 'b', 'B', 'c1', 'c10', 'c2', '_x', '0', 'Z9', 'é', 'x.y', 'x y', 'ats', '1-2', 'TEx', 'TEy',
         'THx', 'THy', 'THz', '084_V01_C00_R000_TEx_BL_128H', '084_V01_C01_R000_TEy_BL_128H',
         '084_V01_C02_R000_THx_BL_128H']
JUNK = ['readme.txt', 'notes', 'x.ats.bak', 'y.atss', 'z.xml', '.hidden', '.h.ats', 'sub/q.ats', 'w.ts',
        'aats', 'ats']


def gen(rng, tier):
    dirs = []
    for i in range(rng.choice([1, 1, 2])):
        dirs.append(dict(
            name=rng.choice([f'd{i}', f'site{i}/meas', f'site [{i}]', f'x{i}*', f'run{i}.ats', f'?{i}']),
            files=sorted(rng.sample(STEMS, rng.choice([1, 2, 2, 3, 5, 8])), key=lambda x: rng.random()),
            junk=rng.sample(JUNK, rng.choice([0, 0, 1, 3])), seed=rng.randrange(1 << 28),
            n=rng.choice([2, 9, 30]), rate=rng.choice([1., 128., 4096., 150.]),
            start=rng.choice(world.EPOCHS),
            # copies and links of a recording are channels of their own
            twin=rng.choice([None, None, None, 'link', 'symlink', 'copy']), cals=rng.random() < .7))
    clients = [[dict(d=rng.randrange(9), how=rng.choice(['abs', 'abs', 'rel', 'slash']))
                for _ in range(rng.randint(1, 4))] for _ in range(rng.choice([1, 1, 2, 3]))]
    if len(clients) > 1:        # the working directory is shared by all threads
        for c in clients:
            for o in c:
                o['how'] = 'abs'
    cfg = world.disk_cfg(rng, ['eio', 'eacces', 'emfile', 'enomem', 'memerr', 'part', 'part'], p_none=.4)
    cfg['permute'] = True
    return dict(dirs=dirs, clients=clients, sim=world.sim_opts(rng), disk=cfg,
                chunk_size=rng.choice(['128MiB', '128MiB', '64B']))


def run(ctx):
    w = ctx.w
    want = []
    for d in w['dirs']:
        if not d['files']:
            raise InvalidWorkload
        chans = {}
        for k, stem in enumerate(d['files']):
            raw = world.rnd_samples(d['seed'] + k, d['n'])
            ctx.write(f"{d['name']}/{stem}.ats", ref.ats_bytes(raw, d['rate'], d['start'], .5 + k))
            chans[stem + '.ats'] = (.5 + k) * raw
        if d['twin']:
            old = sorted(chans)[d['seed'] % len(chans)]
            new = ['00', 'bb', '~'][d['seed'] % 3] + '.ats'
            a, b = ctx.path(d['name'], old), ctx.path(d['name'], new)
            if d['twin'] == 'link':
                os.link(a, b)
            elif d['twin'] == 'symlink':
                os.symlink(old if d['seed'] % 2 else a, b)
            else:
                with boot.disk.REAL['open'](a, 'rb') as h:
                    ctx.write(f"{d['name']}/{new}", h.read())
            chans[new] = chans[old]
            ctx.probe('same recording twice')
        for j in d['junk']:
            ctx.write(f"{d['name']}/{j}", b'not a recording')
        names = sorted(chans)
        cals = [2. + k for k in range(len(names))] if d['cals'] else None
        want.append((ctx.path(d['name']), [chans[n] for n in names], cals, d))

    def client(c, ops):
        for op in ops:
            path, chans, cals, d = want[op['d'] % len(want)]
            if op['how'] == 'rel':
                os.chdir(os.path.dirname(path))
                path = os.path.basename(path)
            elif op['how'] == 'slash':
                path += '/'
            o = ctx.attempt(f"load {d['name']}", lambda: rzb.io.ats.load_ats_from(
                path, list(cals) if cals else None))
            if not ctx.must_succeed(o):
                ctx.probe('failed loads')
                continue
            ctx.probe('loads despite faults' if o.excused else 'loads')
            sig = o.value
            if len(sig.data) != len(chans):
                ctx.fail('subset', f"{d['name']}: {len(sig.data)} channels of {len(chans)}")
            if (sig.sampling_rate, sig.start) != (d['rate'], d['start']):
                ctx.fail('wrong-meta', f'rate {sig.sampling_rate}, start {sig.start}')
            with ctx.quiet():
                got = [f(1.) for f in sig.calibrations]
            if got != (cals or [1.] * len(chans)):
                ctx.fail('wrong-calibration', f'calibrations {got}, expected {cals}')
            o = ctx.attempt('read', lambda: boot.dask.compute(*sig.data))
            if ctx.must_succeed(o):
                for k, (a, b) in enumerate(zip(o.value, chans)):
                    ctx.equal(a, b, f"{d['name']}: channel {k}", 'wrong-order')

    for c, ops in enumerate(w['clients']):
        ctx.client(f'client{c}', lambda c=c, ops=ops: client(c, ops))
    ctx.go()
