""" C03: samples of distinct recordings never mix. """
import os

import numpy as np

from .. import boot, ref, world
from ..core import InvalidWorkload

rzb = boot.rzb
ID = 'C03'
SHRINK = ['clients', 'clients.*']


def gen(rng, tier):
    nd = rng.choice([1, 2, 3])
    names = ['a.ats', 'b.ats', 'sub/a.ats'][:rng.choice([1, 2, 3])]
    n = rng.choice([2, 8, 40, 100])
    rate, start = rng.choice(world.RATES_EXACT), rng.choice(world.EPOCHS)
    same_lsb = rng.random() < 0.8
    lsb = 0.5
    files = []
    for d in range(nd):
        for nm in names:
            s = world.gen_ats(rng, n=n, rate=rate, start=start, name=f'd{d}/{nm}')
            s['hl'] = 1024
            if same_lsb:
                s['lsb'] = lsb
            if rng.random() < 0.15:
                s['n'] = rng.choice([n, n + 1, n * 2])
            files.append(s)
    sizes = ['128MiB'] + [f'{max(8, n * 4 // k)}B' for k in (1, 2, 3, 5)]
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(4, 12)):
            k = rng.choice(['cd', 'load', 'load', 'load', 'joint', 'joint', 'read', 'chunk',
                            'replace', 'mix', 'cat', 'multi'])
            if k == 'cd':
                ops.append(['cd', rng.randrange(nd)])
            elif k == 'load':
                ops.append(['load', rng.choice(['rel', 'rel', 'abs', 'dot']), rng.choice(names),
                            rng.randrange(nd)])
            elif k == 'multi':
                ops.append(['multi', [rng.choice(names) for _ in range(rng.randint(1, 3))]])
            elif k in ('joint', 'mix', 'cat'):
                ops.append([k, [rng.randrange(99) for _ in range(rng.randint(2, 4))]])
            elif k == 'read':
                ops.append(['read', rng.randrange(99), world.gen_slice(rng, n, True)])
            elif k == 'chunk':
                ops.append(['chunk', rng.choice(sizes)])
            else:
                ops.append(['replace', rng.randrange(len(files)), rng.randrange(1 << 30),
                            rng.choice([n, n, n + 3]), rng.choice([None, None, .25, 3.])])
        clients.append(ops)
    return dict(nd=nd, files=files, clients=clients, chunk_size=rng.choice(sizes),
                sim=world.sim_opts(rng),
                disk=world.disk_cfg(rng, ['eio', 'emfile', 'memerr'], p_none=0.6, permute=0))


def run(ctx):
    w = ctx.w
    files = [dict(s) for s in w['files']]
    content = {}            # absolute path -> spec now on disk
    gen_of = {}
    for s in files:
        p = world.write_ats(ctx, s)
        content[p] = s
        gen_of[p] = 0
    for d in range(w['nd']):
        os.makedirs(ctx.path(f'd{d}'), exist_ok=True)
    os.chdir(ctx.path('d0'))
    sim = ctx.sim
    busy = dict(loads=0, moving=False)
    items = []      # [array, expected, path, generation]

    def exclusive(fn):
        """ an environment change that does not run inside somebody's load """
        sim.block_until(lambda: not busy['loads'] and not busy['moving'], 'harness')
        busy['moving'] = True
        fn()
        busy['moving'] = False

    def loading(fn, label):
        sim.block_until(lambda: not busy['moving'], 'harness')
        busy['loads'] += 1
        o = ctx.attempt(label, fn)
        busy['loads'] -= 1
        return o

    def fresh(it):
        return gen_of[it[2]] == it[3]

    def add(sig, paths):
        with ctx.quiet():
            data = sig.data
        for d, p in zip(data, paths):
            items.append([d, world.ats_values(content[p]), p, gen_of[p]])
            if len(d) != content[p]['n']:
                ctx.fail('size', f'{p}: {len(d)} samples, the file has {content[p]["n"]}')

    def client(ops):
        def pick(ks):
            return [items[k % len(items)] for k in ks]

        for op in ops:
            k = op[0]
            if k == 'cd':
                exclusive(lambda: os.chdir(ctx.path(f'd{op[1]}')))
                sim.probe('chdir')
                sim.event('chdir', op[1])
            elif k == 'chunk':
                ctx.chunk_size(op[1])
            elif k == 'replace':
                def replace():
                    i = op[1]
                    old = files[i]
                    new = dict(old, seed=op[2], n=op[3])
                    if op[4] is not None:
                        new['lsb'] = op[4]
                    files[i] = new
                    p = ctx.path(new['name'])
                    data = ref.ats_bytes(world.ats_raw(new), new['rate'], new['start'],
                                         new['lsb'], new['hl'])
                    with boot.disk.REAL['open'](p + '.new', 'wb') as f:
                        f.write(data)
                    boot.disk.REAL['rename'](p + '.new', p)
                    content[p] = new
                    gen_of[p] += 1
                exclusive(replace)
                sim.probe('replaced')
                sim.event('replace', op[1])
            elif k == 'load':
                _, how, name, d = op
                sim.block_until(lambda: not busy['moving'], 'harness')
                if how == 'abs':
                    arg = ctx.path(f'd{d}', name)
                elif how == 'dot':
                    arg = f'../d{d}/./{name}'
                else:
                    arg = name
                full = os.path.abspath(arg)
                if full not in content:
                    continue
                o = loading(lambda: rzb.io.load_ats([arg]), f'load {how} {name}')
                if ctx.must_succeed(o):
                    add(o.value, [full])
            elif k == 'multi':
                sim.block_until(lambda: not busy['moving'], 'harness')
                fulls = [os.path.abspath(x) for x in op[1]]
                if any(f not in content for f in fulls):
                    continue
                if len({content[f]['n'] for f in fulls}) > 1:
                    continue
                o = loading(lambda: rzb.io.load_ats(list(op[1])), f'load {op[1]}')
                if ctx.must_succeed(o):
                    add(o.value, fulls)
            elif not items:
                continue
            elif k == 'read':
                it = items[op[1] % len(items)]
                idx = world.as_index(op[2])
                n = len(it[1])
                if isinstance(idx, int) and not -n <= idx < n:
                    continue
                ok0 = fresh(it)
                o = ctx.attempt('read', lambda: np.asarray(it[0][idx]))
                if ok0 and fresh(it) and ctx.must_succeed(o):
                    ctx.equal(o.value, it[1][idx], f'read of {os.path.relpath(it[2], ctx.root)}')
            else:
                sel = pick(op[1])
                if k == 'joint':
                    expr = [it[0] for it in sel]
                    want = [it[1] for it in sel]
                elif k == 'mix':
                    m = min(len(it[1]) for it in sel)
                    expr = [sel[0][0][:m] - it[0][:m] for it in sel[1:]]
                    want = [sel[0][1][:m] - it[1][:m] for it in sel[1:]]
                else:
                    expr = [np.concatenate([it[0] for it in sel])]
                    want = [np.concatenate([it[1] for it in sel])]
                ok0 = [fresh(it) for it in sel]
                o = ctx.attempt(k, lambda: boot.dask.compute(*expr))
                ok1 = [a and fresh(it) for a, it in zip(ok0, sel)]
                if not all(ok1):
                    if k == 'joint' and o.ok:
                        for a, v, e, it in zip(ok1, o.value, want, sel):
                            if a:
                                ctx.equal(v, e, f'joint read of {os.path.relpath(it[2], ctx.root)}')
                    continue
                if ctx.must_succeed(o):
                    for v, e in zip(o.value, want):
                        ctx.equal(v, e, f'{k} of ' + ', '.join(
                            os.path.relpath(it[2], ctx.root) for it in sel))

    for i, ops in enumerate(w['clients']):
        ctx.client(f'client{i}', lambda ops=ops: client(ops))
    ctx.go()
    ctx.disk.heal_all()
    ctx.disk.armed = False

    def final():
        good = [it for it in items if fresh(it)]
        if good:
            o = ctx.attempt('joint read of everything',
                            lambda: boot.dask.compute(*[it[0] for it in good]))
            ctx.must_succeed(o)
            for v, it in zip(o.value, good):
                ctx.equal(v, it[1], f'final joint read of {os.path.relpath(it[2], ctx.root)}')
    ctx.client('final', final)
    ctx.go()
