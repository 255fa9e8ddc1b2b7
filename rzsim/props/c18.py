""" C18: any history of survey edits conserves samples, times and names. """
from .. import boot, survey, world
from ..core import InvalidWorkload
from ..survey import Refuse, Unknown

rzb = boot.rzb
ID = 'C18'
SHRINK = ['clients', 'clients.*', 'sites', 'sites.*.runs']


def gen(rng, tier):
    w = survey.gen_sites(rng, many=.03)
    names = [n for s in w['sites'] for n in s['names'] if n]
    names += [g for s in w['sites'] for g in s['groups']] + ['nope']
    deep = tier != 'quick' and rng.random() < .3
    clients = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        clients.append([survey.gen_op(rng, names) for _ in range(rng.randint(2, 30 if deep else 10))])
    w.update(clients=clients, sim=world.sim_opts(rng),
             disk=world.disk_cfg(rng, ['eio', 'emfile', 'memerr', 'cut', 'vanish'],
                                 p_none=.4, permute=0),
             chunk_size=rng.choice(['128MiB', '64B']), peek=rng.choice([0, .3, 1]))
    return w


def run(ctx):
    w = ctx.w
    base = []
    for i in range(len(w['sites'])):
        if not w['sites'][i]['runs']:
            raise InvalidWorkload
        try:
            base.append(survey.build_site(ctx, w, i))
        except (Refuse, Unknown):
            raise InvalidWorkload
    for k, (s, m) in enumerate(base):
        survey.check_meta(ctx, s, m, f'site {k}')
    pools = {}

    def client(c, ops):
        pool = pools[c] = list(base)        # the sites are shared by all clients
        names = [f'site{i}' for i in range(len(pool))]
        digests = [survey.digest(s) for s, _ in pool]
        for k, op in enumerate(ops):
            if op[0] in ('tag', 'untag') and op[1] % 3 and len(pool) > len(base):
                i = len(base) + op[1] % (len(pool) - len(base))
                inplace(op, i, pool, names, digests)
                continue
            if op[0] in ('join', 'merge') and k % 2:
                # prefer sets that can be combined
                op = [op[0], op[1]] + [[j % max(1, len(base)) for j in op[2]]]
            label, ins, real, model = survey.prepare(op, pool)
            label = f'{label} of {", ".join(names[i] for i in ins)}'
            want = None
            try:
                want, verdict = model(), 'ok'
            except Refuse as e:
                verdict = f'refused ({e})'
            except Unknown as e:
                verdict = 'unknown'
                ctx.probe('undecided')
            o = ctx.attempt(label, real)
            ctx.probe('refusals' if verdict.startswith('ref') else 'edits')
            if verdict.startswith('refused') and o.ok:
                ctx.fail('not-refused', f'{label} gave {o.value}, it has to be {verdict}')
            if verdict == 'ok':
                ctx.must_succeed(o, 'refused')
                if o.ok:
                    with ctx.quiet():
                        survey.check_meta(ctx, o.value, want, label)
                    pool.append((o.value, want))
                    names.append(f'#{k}')
                    with ctx.quiet():
                        digests.append(survey.digest(o.value))
            with ctx.quiet():
                for n, d, (s, m) in zip(names, digests, pool):
                    if survey.digest(s) != d:
                        ctx.fail('modified', f'{label} modified {n}: {s}')
            if o.ok and verdict == 'ok' and (op[1] % 10) < 10 * w['peek']:
                read(pool[-1], label)

    def inplace(op, i, pool, names, digests):
        """ tags changed on an object of this client itself """
        s, m = pool[i]
        label, _, _, model = survey.prepare([op[0], i] + op[2:], pool)
        label += f' in place on {names[i]}'
        before = dict(s.tags), s.tags.indices
        try:
            want = model()
        except Refuse:
            want = None
        except Unknown:
            return
        o = ctx.attempt(label, lambda: survey.TAGGING[op[0], op[2]](s, *op[3:]))
        if want is None:
            if o.ok:
                ctx.fail('not-refused', f'{label}: it has to be refused')
            if (dict(s.tags), s.tags.indices) != before:
                ctx.fail('tag-stored', f'{label}: refused but the tags are {s.tags!r}, were {before}')
            return
        ctx.must_succeed(o, 'refused')
        if not o.ok:
            return
        ctx.probe('edits in place')
        pool[i] = s, want
        with ctx.quiet():
            survey.check_meta(ctx, s, want, label)
            # selected by the new names, on the same object
            for t in want.tags:
                for how, x in (('attribute', lambda: getattr(s, t)), ('item', lambda: s[t])):
                    survey.check_meta(ctx, x(), want.channels(t), f'{label}, {how} {t}')
            digests[i] = survey.digest(s)
            for n, d, (x, _) in zip(names, digests, pool):
                if survey.digest(x) != d:
                    ctx.fail('modified', f'{label} modified {n}: {x}')

    def read(item, label):
        s, m = item
        box = []
        o = ctx.attempt('read', lambda: box.extend(boot.dask.compute(*[list(x.data) for x in s.signals])))
        if ctx.must_succeed(o):
            for k, (vals, r) in enumerate(zip(box, m.runs)):
                for c, (v, x) in enumerate(zip(vals, r.cols)):
                    ctx.equal(v, x, f'{label}: run {k} channel {c}', 'wrong-samples')

    for c, ops in enumerate(w['clients']):
        ctx.client(f'client{c}', lambda c=c, ops=ops: client(c, ops))
    ctx.go()
    ctx.disk.heal_all()
    ctx.disk.armed = False
    for c in sorted(pools):
        for k, (s, m) in enumerate(pools[c]):
            survey.check_meta(ctx, s, m, f'object {k} of client {c} at the end')
            survey.check_data(ctx, s, m, f'object {k} of client {c} at the end')
