""" C17: results do not depend on hash randomisation. """
import errno
import hashlib
import os
import random
import re

import numpy as np

from .. import boot, mt, peer, survey, world
from ..core import InvalidWorkload
from .c07 import cal_files

rzb = boot.rzb
ID = 'C17'
SHRINK = ['ops', 'sites', 'sites.*.runs']
SEEDS = [0, 1, 2, 3, 4]
PEERS = None


def start(base):
    global PEERS
    PEERS = peer.Peers(ID, base)
    PEERS.start(SEEDS)
    return PEERS.stop


def gen(rng, tier):
    w = survey.gen_sites(rng, nsites=rng.choice([1, 2, 3]), max_runs=3)
    names = [n for s in w['sites'] for n in s['names'] if n]
    names += [g for s in w['sites'] for g in s['groups']] + ['nope']
    if rng.random() < .3:       # the same names at every site
        for s in w['sites']:
            s['names'] = [n and n[:2] for n in s['names']]
    for s in w['sites']:        # second names of single channels
        for k in range(len(s['names'])):
            if rng.random() < .3:
                s['groups'][f'alias{k}_{s["names"][k]}'] = [k]
    s = mt.gen_survey(rng, n=rng.choice([128, 160]), shapes=[(2, 2), (2, 2), (1, 2)])
    ops = []
    for _ in range(rng.randint(4, 12)):
        k = rng.choice(['edit'] * 6 + ['pack'] * 4 + ['invedit'] * 3 + ['tags'] * 3 + [
            'groups', 'imp', 'mass', 'spectrum', 'paths', 'paths', 'loaddir', 'metronix', 'phoenix',
            'error', 'error', 'show', 'build'])
        op = dict(k=k, i=rng.randrange(99), v=rng.randrange(1 << 20),
                  names=[rng.choice(names) for _ in range(rng.choice([1, 2, 3]))])
        if k == 'edit':
            op['edit'] = survey.gen_op(rng, names)
        elif k in ('spectrum', 'imp', 'mass'):
            o = mt.gen_opts(rng, s)
            o['fourier']['Nper'] = rng.choice([2, 3])
            if k == 'mass':
                o['weights'] = 'ls'
            op['opts'] = o
            op['freqs'] = [mt.gen_freq(rng, s, o['fourier'], 10, 24)]
            if rng.random() < .3:
                op['freqs'].append(s['rate'] * .8)
        ops.append(op)
    sim = world.sim_opts(rng)
    sim.pop('opcodes', None)
    places = [rng.choice(['mt', 's0']), 'dir', 'data', 'box.cts']
    w.update(survey=s, ops=ops, sim=sim, sched=rng.randrange(1 << 30),
             hashseeds=rng.sample(SEEDS, 2),
             shuffle=rng.randrange(1 << 20),
             # files of which every reading fails
             bad=[[rng.choice(places), rng.choice(['open', 'fd', 'list', 'stat'])]
                  for _ in range(rng.choice([0, 0, 0, 1, 2]))],
             permute=rng.random() < .4,
             cal=dict(seed=rng.randrange(1 << 20), rate=rng.choice([128., 4096.])),
             chunk_size=rng.choice(['128MiB', '400B']))
    return w


def run(ctx):
    w = ctx.w
    compare(ctx, PEERS, w['hashseeds'], 'hash seed', 'hash-dependent')


def compare(ctx, peers, two, what, kind, extra=lambda h: {}):
    """ run the same workload in two interpreters; all observations must agree """
    w = ctx.w
    a, b = two
    got = []
    for h in (a, b):
        inner = dict(w, disk=dict(permute=w['permute'], rates={}, max=0), **extra(h))
        root = os.path.join(os.path.dirname(ctx.root), 'peer')
        ans = peers.ask(h, dict(workload=inner, seed=w['sched'], root=root))
        if ans is None or 'harness' in ans:
            raise RuntimeError((ans or {}).get('harness', 'a peer ended without an answer'))
        if ans.get('invalid'):
            raise InvalidWorkload
        got.append(ans)
    ctx.sim.event('observed', [g['obs'] for g in got])
    x, y = got
    for g in got:
        ctx.sim.step += g['steps']
        ctx.sim.nswitch += g['switches']
        ctx.sim.sched_hash.update(g['sched'].encode())
        ctx.simulated_seconds += g['seconds']
        for mine, its in ((ctx.disk.opkinds, g['ops']), (ctx.disk.fired_kinds, g['faults'])):
            for n, v in its.items():
                mine[n] = mine.get(n, 0) + v
    ctx.probe('nontrivial')
    for k, (p, q) in enumerate(zip(x['obs'], y['obs'])):
        ctx.checks += 1
        ctx.probe('operations compared')
        ctx.probe('op ' + p['k'])
        if not p['ok']:
            ctx.probe('failures compared')
        for field in p:
            if p[field] != q.get(field):
                u, v = str(p[field]), str(q.get(field))
                i = next((i for i, (c, d) in enumerate(zip(u, v)) if c != d), 0)
                i = max(0, i - 60)
                ctx.fail(kind, f'operation {k} ({p["label"]}): {field} is '
                         f'...{u[i:i + 300]!r} under {what} {a}, ...{v[i:i + 300]!r} under {b}')
    for g in got:
        if g['violation']:
            ctx.fail(g['violation']['kind'], g['violation']['msg'])
    if len(x['obs']) != len(y['obs']):
        ctx.fail(kind, f'{len(x["obs"])} operations under {what} {a}, '
                 f'{len(y["obs"])} under {b}')


# ---------------------------------------------------------- what the peers do
def plain(x, depth=0):
    """ JSON view of a result: exact, ordered, free of addresses """
    if isinstance(x, rzb.SignalSet):
        return ['set', [[t, list(map(int, v))] for t, v in x.tags.items()], x.nb_channels,
                [plain(s) for s in x.signals], clean(str(x)), clean(repr(x.tags)), clean(str(x.tags))]
    if isinstance(x, rzb.SyncSignal):
        try:
            vals = [sha(v) for v in boot.dask.compute(*x.data)]
        except Exception as e:
            vals = clean(f'{type(e).__name__}: {e}')
        return ['signal', repr(x.sampling_rate), repr(x.start), x.size,
                [repr(c(3.5)) for c in x.calibrations], vals, clean(str(x))]
    if isinstance(x, rzb.Inventory):
        return ['inventory'] + [plain(s) for s in x]
    if isinstance(x, rzb.Tags):
        return ['tags', [[t, list(map(int, v))] for t, v in x.items()], clean(repr(x)), clean(str(x))]
    if isinstance(x, (set, frozenset)):
        return ['unordered'] + sorted(map(repr, x))
    if isinstance(x, dict):
        return ['dict'] + [[repr(k), plain(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return sha(x)
    if hasattr(x, 'dask'):
        return sha(x.compute())
    return clean(repr(x))


def sha(a):
    a = np.asarray(a)
    return [str(a.dtype), list(a.shape), hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest()[:16]]


def clean(s):
    return re.sub(r'0x[0-9a-f]+', '0x', s)


def observe(ctx, out):
    w = ctx.w
    base = []
    rnd = np.random.Generator(np.random.PCG64(w['shuffle']))
    for i in range(len(w['sites'])):
        runs = [survey.build_run(ctx, w, i, j)[0] for j in range(len(w['sites'][i]['runs']))]
        tags = survey.site_tags(w, i)
        n = len(w['sites'][i]['names'])
        if not runs:
            raise InvalidWorkload
        try:
            base.append(rzb.SignalSet(rzb.Tags(n, **tags), *runs))
        except AssertionError:
            raise InvalidWorkload
    s = w['survey']
    mtset = mt.build_survey(ctx, s, 'mt')
    for n in range(3):
        world.write_ats(ctx, world.gen_ats_fixed(n), f'dir/site{"AB"[n % 2]}_{n}.ats')
    p1, p2 = cal_files(ctx, w['cal'])
    os.chdir(ctx.root)
    # pieces of the sites, in some order
    pieces = []
    for x in base:
        for r in range(x.nb_runs):
            for t in x.tags:
                if rnd.random() < .8:
                    pieces.append(x.select_channels(t).select_runs(r))
    rnd.shuffle(pieces)
    invs = [rzb.Inventory(pieces), rzb.Inventory(base),
            rzb.Inventory(mtset.select_channels(t) for t in mtset.tags)]
    pool = list(base)

    def failing(kind, rel):
        for prefix, op in w['bad']:
            if prefix in ('mt', 's0') and not re.search('r0+/c0*.ats$', rel):
                continue        # which of several bad files is met first is up to dask
            if rel.startswith(prefix) and kind == op and not rel.endswith('1.ats'):
                fired = ctx.disk.fired_kinds
                fired['bad file'] = fired.get('bad file', 0) + 1
                raise OSError(errno.EIO, 'simulated bad file', rel)

    def body():
        t = ctx.sim.current
        for n, op in enumerate(w['ops']):
            made = make(op)
            if made is None:
                continue
            label, fn = made
            del t.out[:]
            o = ctx.attempt(label, fn)
            text = ''.join(t.out)
            rec = dict(k=op['k'], label=clean(label), ok=o.ok,
                       error=None if o.ok else clean(f'{type(o.error).__name__}: {o.error}'),
                       printed=clean(text), warnings=[list(x) for x in o.warnings])
            box = ctx.attempt('look', lambda: plain(o.value))
            rec['value'] = box.value if box.ok else clean(f'{type(box.error).__name__}: {box.error}')
            out.append(rec)
            if o.ok and isinstance(o.value, rzb.SignalSet) and o.value.nb_channels:
                pool.append(o.value)
            elif o.ok and isinstance(o.value, rzb.Inventory):
                invs.append(o.value)

    def make(op):
        k = op['k']
        sset = pool[op['i'] % len(pool)]
        inv = invs[op['i'] % len(invs)]
        names = op['names']
        if k == 'edit':
            return edit(op['edit'])
        if k == 'pack':
            return 'pack', lambda: inv.pack(bool(op['v'] % 3))
        if k == 'invedit':
            r = op['v'] % 4
            pats = [x[:1] + '*' for x in names]
            return 'inventory', lambda: (
                inv.filter(*pats) if r == 0 else inv.select_channels(*names) if r == 1 else
                inv.extract_t(*sorted([base[0].starts[0] + r, base[0].stops[-1]])) if r == 2
                else inv + invs[op['v'] % len(invs)])
        if k == 'tags':
            pats = [x[:1] + '*' for x in names] + ['*'] * (op['v'] % 2)
            t = sset.tags
            return f'tags.filter{tuple(pats)}', lambda: (
                t.filter(*pats), t.filter_get(*pats), list(t), dict(t), repr(t), str(t), inv.tags,
                [list(x) for x in inv.starts], [list(x.tags) for x in inv])
        if k == 'groups':
            i2 = invs[2]
            tags = [t for t in mtset.tags][::1 - 2 * (op['v'] % 2)]
            if op['v'] % 3 == 0:
                return 'extract_groups', lambda: inv.extract_groups([('New', names), ('Two', names[:1])])
            return 'extract_groups', lambda: i2.extract_groups([('New', tags), ('Two', tags[:1])])
        if k == 'spectrum':
            o = op['opts']['fourier']
            return 'spectrum', lambda: mtset.fourier_coefficients(
                op['freqs'][-1], o['Nper'], o['overlap'], mt.make_window(o['window']))
        if k == 'imp':
            kw = mt.kwargs_for(op['opts'])
            return 'impedance', lambda: tuple(rzb.utils.impedance(mtset, op['freqs'], **kw))
        if k == 'mass':
            kw = mt.kwargs_for(op['opts'])
            kw.pop('remote')
            rem = ['R'] if s['nr'] else []
            return 'mass', lambda: tuple(rzb.utils.impedance_mass_proc(
                invs[2], rem, op['freqs'], [(-1e12, 1e12)], kw))
        if k == 'paths':
            def load():
                files = [os.path.join(r, f) for r, _, fs in os.walk('dir') for f in fs]
                return rzb.Inventory(
                    rzb.SignalSet({t: 0 for t in tags}, rzb.io.load_ats([n])) for n, tags in
                    rzb.utils.tags_from_path(files, 'dir/site{site}_{n}.ats', '{site}_{n}', 'S{n}'))
            return 'tags_from_path', load
        if k == 'loaddir':
            return 'load_ats_from', lambda: rzb.io.ats.load_ats_from('dir')
        if k == 'metronix':
            return 'metronix', lambda: [rzb.calibrations.metronix('MFS06_1.txt', w['cal']['rate'])(f)
                                        for f in (20., 300.)]
        if k == 'phoenix':
            return 'phoenix', lambda: [f(200.) for f in rzb.calibrations.phoenix(p2, 2)]
        if k == 'show':
            return 'show', lambda: (str(sset), repr(sset), [str(x) for x in sset.signals])
        if k == 'build':
            tags = {n: [j % 2, (j + 1) % 2][:1 + j % 2] for j, n in enumerate(names)}
            return 'build', lambda: rzb.SignalSet(tags, rzb.SyncSignal(
                [np.arange(9.), np.arange(9.) ** 2], 4., 2.5))
        if k == 'error':
            r = op['v'] % 9
            y = base[-1]
            return f'error {r}', [
                lambda: sset.merge(*[base[0], base[0]][:1 + op['v'] % 2]),
                lambda: sset.join(mtset),
                lambda: sset.select_channels(names + ['unknown', 'other']),
                lambda: rzb.Tags(2, **{n: [0, 5, 9] for n in names}),
                lambda: list(rzb.utils.tags_from_path(['a'], '{x}_{y}', '{z}{x}', '{t}{u}{v}')),
                lambda: rzb.data.get_data_file('zz', 'metronix_calibration'),
                lambda: sset.merge(sset, y),
                lambda: y.join(sset),
                lambda: rzb.Inventory([y, sset]).extract_groups([('A', names + ['unknown', 'other'])])][r]
        raise KeyError(k)

    def edit(op):
        # bounds relative to the real sets
        k = op[0]
        x = pool[op[1] % len(pool)]
        if k == 'chan':
            ids = survey.as_ids(op[2])
            return f'select_channels({ids!r})', lambda: x.select_channels(ids)
        if k == 'runs':
            sel = survey.as_runs(op[2], x.nb_runs)
            return f'select_runs({sel!r})', lambda: x.select_runs(sel)
        if k == 'item':
            key = survey.as_key(op, x.nb_runs)
            return f'[{key!r}]', lambda: x[key]
        if k == 'attr':
            return f'attribute {op[2]}', lambda: getattr(x, op[2])
        if k == 'untag':
            return f'untag {op[2:]}', lambda: survey.untag(x, *op[2:])
        if k == 'wrap':
            perm = random.Random(op[2]).sample(range(x.nb_channels), x.nb_channels)
            tags = {t: [perm[c] for c in v] for t, v in x.tags.items()}
            return f'wrap {tags}', lambda: survey.wrap(x, x.nb_channels, tags, op[3])
        if k == 'piece':
            return f'piece {op[2:]}', lambda: rzb.SignalSet(x.tags, x.signals[
                op[2] % x.nb_runs].extract_i(op[-4] if op[3] == 'i' else 1, op[-3] if op[3] == 'i' else 3))
        if k in ('cut', 'excl', 'resplit'):
            t = (x.starts[0] if x.nb_runs else 0.) + 3.
            u = x.stops[-1] if x.nb_runs else 5.
            if k == 'resplit':
                return 'split and join', lambda: x.extract_t(-1e18, t) | x.extract_t(t, 1e18)
            return f'extract_t {k}', lambda: x.extract_t(t, max(t, u), k == 'excl')
        if k == 'consec':
            return 'merge_consecutive_runs', x.merge_consecutive_runs
        if k == 'tag':
            return f'tag {op[2:]}', lambda: survey.tag_it(x, *op[2:])
        if k == 'renum':
            perm = random.Random(op[2]).sample(range(x.nb_channels), x.nb_channels)

            def renumbered():
                tags = {t: [perm.index(c) for c in v] for t, v in x.tags.items()}
                return rzb.SignalSet(rzb.Tags(x.nb_channels, **tags),
                                     *[r.select(*perm) for r in x.signals])
            return f'renumber {perm}', renumbered
        ss = [pool[j % len(pool)] for j in op[2]]
        return k, lambda: (x.join if k == 'join' else x.merge)(*ss)

    ctx.disk.on_op = None
    ctx.client('client', body)
    ctx.disk.on_op = failing
    ctx.go()
    ctx.disk.on_op = None
    if ctx.disk.left_open():
        ctx.fail('leak', f'{ctx.disk.left_open()} left open')
