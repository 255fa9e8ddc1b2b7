""" C09: unsynchronised clocks are detected, never silently misaligned. """
import math

from .. import boot, survey, world
from ..core import InvalidWorkload
from ..survey import F, MInv, MSet, Refuse, Unknown

rzb = boot.rzb
ID = 'C09'
SHRINK = ['ops', 'sites', 'sites.*.runs']


def gen_offset(rng, rate, epoch):
    """ seconds the clock of a recorder is off during one run """
    k = rng.random()
    sign = rng.choice([-1, 1])
    if k < .45:
        return 0.
    if k < .55:         # as computed by another formula: agrees to the last bits
        return sign * rng.choice([1, 2]) * math.ulp(float(epoch) or 1.)
    if k < .65 and rate > 4000:     # less than a microsecond
        return sign * rng.uniform(3e-7, 1e-6)
    if k < .85:         # a fraction of a sample
        return sign * rng.choice([.01, .03, .05, .1, .25, .4, .5, .6, .75, .9, .97]) / rate
    if k < .93:         # whole samples
        return sign * rng.choice([1, 2, 5]) / rate
    return sign * (rng.choice([1, 2, 7]) + rng.choice([.1, .5, .9])) / rate


def gen(rng, tier):
    w = survey.gen_sites(rng, nsites=rng.choice([1, 2, 2, 2, 3]), max_runs=3,
                         rates=rng.choice([None, None, None, [4096., 24000., 65536.]]))
    faulty = rng.random() < .8
    for s in w['sites']:
        s['groups'] = {g: v for g, v in s['groups'].items() if len(v) > 1}
        s['names'] = [n or 'Hz8' for n in s['names'][:-1]] + [s['names'][-1] or f"Q{w['epoch']}"[:2]]
        s['offsets'] = [gen_offset(rng, r, w['epoch']) if faulty else 0. for r, _, _ in s['runs']]
        if rng.random() < .3:           # one error for the whole campaign
            s['offsets'] = s['offsets'][:1] * len(s['runs'])
        if w['store'] != 'file' and rng.random() < .1:
            # a skewed clock: the rate is slightly off
            j = rng.randrange(len(s['runs']))
            s['runs'][j][0] *= 1 + rng.choice([-1, 1]) * rng.choice([1e-9, 1e-6, 1e-3])
    if w['store'] == 'file':            # files tell whole seconds
        for s in w['sites']:
            s['offsets'] = [rng.choice([0, 0, 0, 1, -1, 3]) if faulty else 0 for _ in s['runs']]
    # the same name for every recorder would be refused: names are unique
    for i, s in enumerate(w['sites']):
        s['names'] = [f'{"ABCDE"[c]}{i}' for c in range(len(s['names']))]
    ops = []
    for _ in range(rng.randint(2, 9)):
        k = rng.choice(['merge', 'merge', 'merge', 'join', 'join', 'consec', 'pack', 'pack', 'cut'])
        if k == 'merge':
            ops.append([k, rng.randrange(99), [rng.randrange(99) for _ in range(rng.choice([1, 1, 2]))]])
        elif k == 'join':
            ops.append(['runs', rng.randrange(99), rng.randrange(99), rng.randrange(99)])
        elif k == 'cut':
            ops.append([k, rng.randrange(99), survey.gen_bound(rng), survey.gen_bound(rng)])
        elif k == 'pack':
            ops.append([k, rng.randrange(1, 64), rng.randrange(1 << 20)])
        else:
            ops.append([k, rng.randrange(99)])
    w.update(ops=ops, sim=world.sim_opts(rng), clients=rng.choice([1, 1, 2]),
             disk=world.disk_cfg(rng, ['eio', 'emfile', 'memerr'], p_none=.5, permute=0),
             chunk_size=rng.choice(['128MiB', '64B']))
    return w


def run(ctx):
    w = ctx.w
    single, sites = [], []
    for i, s in enumerate(w['sites']):
        if not s['runs']:
            raise InvalidWorkload
        tags, n = survey.site_tags(w, i), len(s['names'])
        pairs = [survey.build_run(ctx, w, i, j) for j in range(len(s['runs']))]
        mine = [(rzb.SignalSet(rzb.Tags(n, **tags), a), MSet(tags, n, [b])) for a, b in pairs]
        single.append(mine)
        ctx.probe('offset clocks', sum(bool(x) for x in s['offsets']))
        try:
            model = MSet(tags, n, [b for _, b in pairs])
        except Refuse:
            # the clock was set back: its runs can't be one recording
            ctx.probe('set back')
            for how in (lambda: rzb.SignalSet(rzb.Tags(n, **tags), *[a for a, _ in pairs]),
                        lambda: mine[0][0].join(*[a for a, _ in mine[1:]])):
                try:
                    got = how()
                except Exception:       # noqa
                    continue
                ctx.fail('not-refused', f'runs of recorder {i} overlap, yet they are joined: {got}')
            continue
        except Unknown:
            continue
        try:
            sites.append((rzb.SignalSet(rzb.Tags(n, **tags), *[a for a, _ in pairs]), model))
        except Exception as e:      # noqa
            ctx.fail('refused', f'runs of recorder {i} do not overlap but are refused: {e}')

    def client(c):
        pool = list(sites)
        for s in single:
            pool += s
        if not pool:
            return
        pool = pool[c:] + pool[:c]
        for n, op in enumerate(w['ops']):
            data = True
            if op[0] == 'pack':
                import random
                sel = [x for i, m in enumerate(single) for x in m if op[1] >> i & 1]
                if not sel:
                    continue
                random.Random(op[2]).shuffle(sel)
                label = f'pack of {len(sel)} runs'
                real = lambda: rzb.Inventory([a for a, _ in sel]).pack()
                model = lambda: MInv([m for _, m in sel]).pack()
            elif op[0] == 'runs':
                mine = single[op[1] % len(single)]
                a, b = mine[op[2] % len(mine)], mine[op[3] % len(mine)]
                label = 'join of two runs'
                real = lambda: a[0] | b[0]
                model = lambda: a[1].join(b[1])
            else:
                label, _, real, model = survey.prepare(op, pool)
            try:
                want, verdict = model(), 'ok'
            except Refuse as e:
                verdict = f'refused ({e})'
            except Unknown as e:
                verdict = 'unknown'
            ctx.probe('verdict ' + verdict)
            o = ctx.attempt(label, real)
            if verdict.startswith('refused') and o.ok:
                ctx.fail('not-refused', f'{label} gave {o.value}, it has to be {verdict}')
            if verdict == 'ok' and ctx.must_succeed(o, 'refused'):
                if not want.runs:
                    if o.value.nb_runs:
                        ctx.fail('wrong-runs', f'{label}: {o.value.nb_runs} runs, expected none')
                    continue
                o2 = ctx.attempt('read', lambda: survey.by_tags(ctx, o.value, want, label,
                                                                kind='wrong-runs'))
                ctx.must_succeed(o2)
                if op[0] != 'pack':
                    pool.append((o.value, want))
    for c in range(w['clients']):
        ctx.client(f'client{c}', lambda c=c: client(c))
    ctx.go()
