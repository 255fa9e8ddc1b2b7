""" C08: survey assembly keeps exactly the common recorded data. """
import os
import random

from .. import boot, ref, survey, world
from ..core import InvalidWorkload
from ..survey import F, MInv, MRun, MSet, Refuse, Unknown

rzb = boot.rzb
ID = 'C08'
SHRINK = ['clients', 'clients.*.ops', 'sites', 'sites.*.runs']


def gen(rng, tier):
    w = survey.gen_sites(rng, nsites=rng.choice([1, 2, 2, 3, 3, 4]), max_runs=rng.choice([2, 4, 7]))
    for s in w['sites']:
        s['groups'] = {g: v for g, v in s['groups'].items() if len(v) > 1}
        s['perm'] = rng.randrange(1 << 20) if rng.random() < .4 else None
        s['layout'] = rng.choice(['whole', 'whole', 'joined', 'split', 'split', 'parts'])
        if s['layout'] == 'split':
            s['groups'] = {}
            s['names'] = [n or 'Hz9' for n in s['names']]
            # each channel has its own history: [lost, cut at the start, cut at the end]
            s['trims'] = [[[rng.random() < .08, rng.choice([0, 0, 0, 1, 3]),
                            rng.choice([0, 0, 0, 1, 2, 9])] if rng.random() < .5 else [False, 0, 0]
                           for _ in s['runs']] for _ in s['names']]
        elif len(s['names']) > 1 and s['names'][0] and rng.random() < .25:
            # names that differ by their case or that start with another one
            s['names'][1] = rng.choice([s['names'][0].lower(), s['names'][0].swapcase(),
                                        s['names'][0] + 'b', s['names'][0] + '1'])
    names = [n for s in w['sites'] for n in s['names'] if n]
    names += [g for s in w['sites'] for g in s['groups']]
    pats = ['*', 'E*', '*0', '*1', '?x*', '[EB]*', '[!E]*', 'G*', '*z*', 'Ex?', 'none*',
            'Ex', 'ex*', 'ex0', 'Ex0', 'Ex1*', 'eX*']
    clients = []
    for _ in range(rng.choice([1, 1, 2])):
        ops = []
        for _ in range(rng.randint(1, 7)):
            k = rng.choice(['pack', 'pack', 'pack', 'filter', 'select', 'cut', 'rate', 'add',
                            'single', 'rebuild', 'groups', 'merge', 'tag', 'filter'])
            i = rng.randrange(99)
            if k == 'filter':
                op = [k, i, rng.sample(pats + names, rng.randint(1, 3))]
            elif k == 'select':
                op = [k, i, rng.sample(names + ['nope'], min(len(names), rng.randint(1, 3)))]
            elif k == 'cut':
                op = [k, i, survey.gen_bound(rng), survey.gen_bound(rng), rng.random() < .3,
                      rng.randrange(99)]
            elif k == 'tag':
                op = [k, i, rng.randrange(99), rng.choice(['Ex7', 'Bz7', 'Gnew0', 'ex0']), rng.randrange(9)]
                # and the same question before and after
                op.append(rng.choice([['*'], [op[3][0] + '*'], [op[3]], ['?' + op[3][1:]],
                                      ['none*', op[3][:2] + '?'], rng.sample(pats, 2)]))
            elif k == 'groups':
                op = [k, i, rng.sample(names, min(len(names), rng.randint(1, 3)))]
            else:
                op = [k, i, rng.randrange(1 << 20)]
            ops.append(op)
        clients.append(dict(order=rng.randrange(1 << 20),
                            how=rng.choice(['ctor', 'append', 'extend', 'add']),
                            ops=ops + [['pack', 0, 0]]))
    w.update(clients=clients, sim=world.sim_opts(rng),
             disk=world.disk_cfg(rng, ['eio', 'emfile', 'memerr'], p_none=.5, permute=1),
             chunk_size=rng.choice(['128MiB', '64B']), discover=rng.random() < .7)
    w['disk']['ops'] = ['read', 'open', 'fd']
    return w


def site_sets(ctx, w, i):
    """ [(SignalSet, MSet)] of one recorder; 'split' files only get written """
    s = w['sites'][i]
    if s['layout'] != 'split':
        pairs = [survey.build_run(ctx, w, i, j) for j in range(len(s['runs']))]
        tags, n = survey.site_tags(w, i), len(s['names'])
        if s['layout'] == 'joined':
            parts = [pairs]
        elif s['layout'] == 'parts':
            parts = [pairs[::2], pairs[1::2]]
        else:
            parts = [[p] for p in pairs]
        models = [MSet(tags, n, [b for _, b in p]) for p in parts if p]
        sets = [(rzb.SignalSet(rzb.Tags(n, **tags), *[a for a, _ in p]), m)
                for p, m in zip(parts, models)]
        if s.get('perm') is not None:       # each with a numbering of its own
            r = random.Random(s['perm'])
            sets = [survey.renumber(a, m, r.sample(range(n), n)) for a, m in sets]
        return sets
    out = []
    for j, (rate, start, cols, cals) in enumerate(survey.site_runs(w, i)):
        for c, name in enumerate(s['names']):
            lost, a, b = s['trims'][c][j] if j < len(s['trims'][c]) else (False, 0, 0)
            if w['store'] == 'file':
                a = 0
            if lost or len(cols[c]) - a - b < 2:
                continue
            x = cols[c][a:len(cols[c]) - b]
            at = float(F(start) + F(a) / F(rate))
            m = MSet({name: (0,)}, 1, [MRun(rate, at, [x], [cals[c]])])
            if w['store'] == 'file':
                path = ctx.write(f'surv/site{i}/run{j:02d}/d_T{name[:-1]}_q.ats',
                                 ref.ats_bytes((2 * x).astype(int), rate, int(at), .5))
                ctx.simulated_seconds += len(x) / rate
                out.append((path, m, cals[c]))
            else:
                y = x.copy()
                if w['store'] == 'dask':
                    y = boot.dask.array.from_array(y, chunks=max(1, len(y) // 2))
                out.append((rzb.SignalSet({name: 0}, rzb.SyncSignal([y], rate, at, [cals[c]])), m))
    return out


def discover(ctx, w, files):
    """ the way the documentation builds an inventory from a tree of files """
    found = []
    known = {os.path.normpath(p): (m, cal) for p, m, cal in files}
    names = (os.path.join(r, f) for r, _, fs in os.walk(ctx.path('surv')) for f in fs)
    if not w['discover']:
        names = list(known)
    for fname, [tag] in rzb.utils.tags_from_path(
            names, '**/site{site}/*/*_T{channel}_*.ats', '{channel}{site}'):
        m, cal = known.pop(os.path.normpath(fname))
        if list(m.tags) != [tag]:
            ctx.fail('wrong-tag', f'{fname} is given the tag {tag}, expected {list(m.tags)}')
        found.append((rzb.SignalSet({tag: 0}, rzb.io.load_ats([fname], [cal])), m))
    if known:
        ctx.fail('lost-file', f'files without tag: {sorted(known)}')
    return found


def run(ctx):
    w = ctx.w
    sets, files = [], []
    for i in range(len(w['sites'])):
        s = w['sites'][i]
        if s['layout'] == 'split':
            # tags are <channel><site>
            s = w['sites'][i] = dict(s, names=[n[:2] + str(i) for n in s['names']])
        try:
            for x in site_sets(ctx, w, i):
                (files if len(x) == 3 else sets).append(x)
        except (Refuse, Unknown):
            raise InvalidWorkload
    if len(sets) + len(files) == 0:
        raise InvalidWorkload

    def client(c, spec):
        mine = list(sets)
        if files:
            o = ctx.calm(lambda: ctx.attempt('discover', lambda: discover(ctx, w, files)))
            ctx.must_succeed(o)
            mine += o.value
        import random
        pools = []

        def build(order, how):
            seq = list(mine)
            random.Random(order).shuffle(seq)
            reals, models = [a for a, _ in seq], [b for _, b in seq]
            if how == 'ctor':
                inv = rzb.Inventory(reals)
            elif how == 'append':
                inv = rzb.Inventory()
                for x in reals:
                    inv.append(x)
            elif how == 'extend':
                inv = rzb.Inventory(reals[:1])
                inv.extend(iter(reals[1:]))
            else:
                h = len(reals) // 2
                inv = rzb.Inventory(reals[:h]) + rzb.Inventory(reals[h:])
            pools.append((inv, MInv(models)))
        build(spec['order'], spec['how'])

        def same_sets(got, m, label):
            if len(got) != len(m.sets):
                ctx.fail('wrong-inventory', f'{label}: {len(got)} sets, expected {len(m.sets)}')
            for k, (a, b) in enumerate(zip(got, m.sets)):
                survey.check_meta(ctx, a, b, f'{label}: set {k}', 'wrong-inventory')
            if set(got.tags) != m.tags:
                ctx.fail('wrong-inventory', f'{label}: tags {sorted(got.tags)}, '
                         f'expected {sorted(m.tags)}')

        for n, op in enumerate(spec['ops']):
            k = op[0]
            if k == 'rebuild':
                build(op[2], ['ctor', 'append', 'extend', 'add'][op[1] % 4])
                continue
            inv, m = pools[op[1] % len(pools)]
            if k == 'tag':
                # give a new name to a channel of one set of the inventory; the sets of
                # other inventories may be the same objects, they are left alone
                if len(w['clients']) > 1 or not m.sets:
                    continue
                j = op[2] % len(m.sets)
                a, b = inv[j], m.sets[j]
                if not b.tags or not b.runs or op[3] in b.tags:
                    continue
                o = ctx.attempt(f'filter{op[5]}', lambda: inv.filter(*op[5]))
                a.tags[op[3]] = op[4] % b.n
                b.tags[op[3]] = (op[4] % b.n,)
                pools[:] = [(inv, m)]
                ctx.probe('tagged')
                k, op = 'filter', ['filter', 0, op[5]]
            with ctx.quiet():
                before = [survey.digest(x) for x, _ in pools]
            packed = k in ('pack', 'single', 'merge', 'groups')
            label = f'{k}{op[1:]}'
            if k == 'pack':
                real, model = inv.pack, m.pack
            elif k == 'single':
                real, model = (lambda: inv.pack(keep_multi_tags=False)), (lambda: m.pack(False))
            elif k == 'merge':
                rates = sorted({r.rate for x in m.sets for r in x.runs})
                if not rates:
                    continue
                r0 = rates[op[2] % len(rates)]
                if len(rates) > 1:
                    inv = inv.select_runs([x == r0 for x in inv.sampling_rates])
                m1 = m.at_rate({r0})
                real = inv.merge

                def model(m1=m1, pack=m1.pack):
                    p = pack()
                    q = MSet.consecutive
                    try:
                        MSet.consecutive = lambda self: self
                        return pack()
                    finally:
                        MSet.consecutive = q
            elif k == 'filter':
                real = lambda: inv.filter(*op[2])
                model = lambda: m.filter(*op[2])
            elif k == 'select':
                real = lambda: inv.select_channels(*op[2])
                model = lambda: m.select(*op[2])
            elif k == 'cut':
                if not m.sets:
                    continue
                x = m.sets[op[5] % len(m.sets)]
                a, b = survey.bound(x, op[2]), survey.bound(x, op[3])
                if a > b:
                    a, b = b, a
                real = lambda: inv.extract_t(a, b, op[4])
                model = lambda: m.cut(a, b, op[4])
                label = f'extract_t({a!r}, {b!r}, exclude={op[4]})'
            elif k == 'rate':
                rates = sorted({r.rate for x in m.sets for r in x.runs})
                if not rates:
                    continue
                r0 = rates[op[2] % len(rates)]
                real = lambda: inv.select_runs([x == r0 for x in inv.sampling_rates])
                model = lambda: m.at_rate({r0})
            elif k == 'add':
                other, m2 = pools[op[2] % len(pools)]
                real = lambda: inv + other
                model = lambda: MInv(m.sets + m2.sets)
            elif k == 'groups':
                old = [t for t in op[2] if t in m.tags]
                if not old:
                    continue
                real = lambda: inv.extract_groups([('New', old)])

                def model():
                    p = m.select(*[t for t in m.tags if t in old]).pack()
                    if not p.tags or any(len(p.tags[t]) == 0 for t in old):
                        raise Unknown('nothing in common')
                    p.tags['New'] = sum((p.tags[t] for t in old), ())
                    return p
            try:
                want, verdict = model(), 'ok'
            except Refuse as e:
                verdict = f'refused ({e})'
            except Unknown as e:
                ctx.probe('undecided')
                verdict = 'unknown'
            o = ctx.attempt(label, real)
            ctx.probe(k)
            if verdict.startswith('refused') and o.ok:
                ctx.fail('not-refused', f'{label} gave {o.value}, it has to be {verdict}')
            if verdict == 'ok' and ctx.must_succeed(o, 'refused'):
                with ctx.quiet():
                    if packed:
                        got = o.value[0] if k == 'groups' else o.value
                        if not want.runs:
                            if got.nb_runs:
                                ctx.fail('wrong-pack', f'{label} has {got.nb_runs} runs, expected none')
                            ctx.probe('nothing in common')
                        else:
                            survey.by_tags(ctx, got, want, label, data=False)
                    else:
                        same_sets(o.value, want, label)
                if packed and want.runs:
                    ctx.probe('packed')
                    if len(want.runs) > 1:
                        ctx.probe('several runs')
                    o2 = ctx.attempt('read', lambda: survey.by_tags(ctx, got, want, label))
                    ctx.must_succeed(o2)
                if not packed:
                    pools.append((o.value, want))
                    before.append(survey.digest(o.value))
            with ctx.quiet():
                for j, (d, (x, _)) in enumerate(zip(before, pools)):
                    if survey.digest(x) != d:
                        ctx.fail('modified', f'{label} modified inventory {j}')

    for c, spec in enumerate(w['clients']):
        ctx.client(f'client{c}', lambda c=c, spec=spec: client(c, spec))
    ctx.go()
