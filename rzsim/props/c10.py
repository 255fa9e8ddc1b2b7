""" C10: selecting and assembling never touches sample data. """
from .. import boot, survey, world
from ..core import InvalidWorkload
from ..survey import MInv, MSet, Refuse, Unknown

rzb = boot.rzb
ID = 'C10'
SHRINK = ['clients', 'clients.*', 'sites', 'sites.*.runs', 'outages']


def gen(rng, tier):
    w = survey.gen_sites(rng, nsites=rng.choice([1, 2, 2, 3]),
                         rates=[1., 4., 64., 512., 4096., 150., 24000., .125])
    w['store'] = 'file'
    w['epoch'] = rng.choice([0, 1000, 1_300_000_000, 1_600_000_123])
    for s in w['sites']:
        s['groups'] = {g: v for g, v in s['groups'].items() if len(v) > 1}
        runs, end = [], 0
        for rate, k, n in s['runs']:        # starts on whole seconds
            if float(world.np.float32(rate)) != rate:
                continue
            t = max(end, -(-int(k) // max(1, int(rate))))
            runs.append([rate, int(t * rate), n])
            end = t + int(n / rate) + 1 + rng.choice([0, 0, 5])
        s['runs'] = [r for r in runs if r[1] == int(r[1])]
    names = [n for s in w['sites'] for n in s['names'] if n]
    names += [g for s in w['sites'] for g in s['groups']]
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(2, 10)):
            r = rng.random()
            if r < .55:
                ops.append(['edit', survey.gen_op(rng, names)])
            elif r < .75:
                ops.append(['inv', rng.choice(['pack', 'filter', 'cut', 'single']),
                            rng.randrange(1, 64), rng.randrange(99)])
            elif r < .9:
                ops.append(['look', rng.randrange(99)])
            else:
                ops.append(['read', rng.randrange(99)])
        clients.append(ops)
    # the disk comes and goes while they work; last state: available
    w.update(clients=clients, sim=world.sim_opts(rng),
             outages=[rng.choice([1, 2, 5, 20]) for _ in range(rng.randint(0, 6))],
             down=rng.random() < .8,
             disk=dict(rates={}, max=0), chunk_size=rng.choice(['128MiB', '64B', '16B']))
    return w


def run(ctx):
    w = ctx.w
    base = []
    for i in range(len(w['sites'])):
        if not w['sites'][i]['runs']:
            raise InvalidWorkload
        try:
            base.append(survey.build_site(ctx, w, i))
        except (Refuse, Unknown):
            raise InvalidWorkload
    disk, sim = ctx.disk, ctx.sim
    touched, busy, pools = [], {}, {}

    def on_op(kind, rel):
        label = busy.get(sim.current.owner)
        if label and kind in ('read', 'fd', 'seek'):
            touched.append((label, kind, rel))
    disk.on_op = on_op

    def structural(label, fn):
        tid = sim.current.tid
        busy[tid] = label
        try:
            o = ctx.attempt(label, fn)
        finally:
            busy[tid] = None
        if touched:
            ctx.fail('samples-read', f'{touched[0][0]} reads from {touched[0][2]}')
        return o

    def look(s):
        """ everything an object tells without its samples """
        str(s), repr(s), s.tags, s.nb_channels, s.nb_runs, s.sizes, s.starts, s.stops
        s.sampling_rates, s.intervals, list(s.tags.items())
        for x in s.signals:
            str(x), repr(x), x.interval, x.calibrations, [len(d) for d in x.data]
        inv = rzb.Inventory([s])
        str(inv), inv.tags, [list(x) for x in (inv.sampling_rates, inv.starts, inv.stops,
                                               inv.intervals)], len(inv), bool(inv), inv[0]
        return s.tags.filter('*'), s.tags.filter_get('*')

    def client(c, ops):
        pool = pools[c] = list(base)
        for k, op in enumerate(ops):
            if op[0] == 'read':
                s, m = pool[op[1] % len(pool)]
                hits = disk.offline_hits
                o = ctx.attempt('read', lambda: survey.check_data(ctx, s, m, 'read during outages'))
                if disk.offline_hits == hits:
                    ctx.must_succeed(o)
                    ctx.probe('reads')
                else:
                    ctx.probe('reads hit by an outage')
                continue
            down = disk.offline
            packed = False
            if op[0] == 'look':
                s, m = pool[op[1] % len(pool)]
                label, real, model = 'look', lambda: look(s), lambda: None
            elif op[0] == 'inv':
                sel = [x for i, x in enumerate(pool) if op[2] >> i & 1] or pool[:1]
                inv, mi = rzb.Inventory([a for a, _ in sel]), MInv([b for _, b in sel])
                if not all(b.runs for _, b in sel):
                    continue
                label = f'{op[1]} of an inventory of {len(sel)}'
                packed = True
                if op[1] == 'pack':
                    real, model = inv.pack, mi.pack
                elif op[1] == 'single':
                    real, model = (lambda: inv.pack(keep_multi_tags=False)), (lambda: mi.pack(False))
                elif op[1] == 'filter':
                    pat = ['*0', 'E*', '*', '?x*'][op[3] % 4]
                    real = lambda: inv.filter(pat).pack()
                    model = lambda: mi.filter(pat).pack()
                else:
                    t = survey.bound(sel[0][1], ['between', op[3], op[3] // 3, .5])
                    real = lambda: inv.extract_t(-1e300, t).pack()
                    model = lambda: mi.cut(-1e300, t).pack()
            else:
                label, _, real, model = survey.prepare(op[1], pool)
            want = None
            try:
                want, verdict = model(), 'ok'
            except Refuse as e:
                verdict = f'refused ({e})'
            except Unknown:
                verdict = 'unknown'
            o = structural(label, real)
            if down or disk.offline:
                ctx.probe('edits during an outage')
            if verdict == 'ok':
                ctx.must_succeed(o, 'edit-failed')
            if verdict == 'ok' and want is not None and o.ok:
                if packed:
                    if want.runs:
                        survey.by_tags(ctx, o.value, want, label, data=False)
                        # number the model as the object
                        src = {}
                        for t in want.tags:
                            src.update(zip(o.value.tags[t], want.tags[t]))
                        n = o.value.nb_channels
                        want = MSet({t: tuple(o.value.tags[t]) for t in want.tags}, n, [
                            survey.MRun(r.rate, r.start, [r.cols[src[i]] for i in range(n)],
                                        [r.cals[src[i]] for i in range(n)]) for r in want.runs])
                    else:
                        continue
                with ctx.quiet():
                    survey.check_meta(ctx, o.value, want, label)
                pool.append((o.value, want))

    def environment():
        for n in w['outages']:
            disk.offline = not disk.offline
            sim.event('outage', disk.offline)
            if disk.offline:
                disk.fired_kinds['outage'] = disk.fired_kinds.get('outage', 0) + 1
            for _ in range(n):
                sim.pause('environment')
        disk.offline = False
    if w['outages']:
        disk.offline = w['down']
        sim.spawn(environment, 'environment')
    for c, ops in enumerate(w['clients']):
        ctx.client(f'client{c}', lambda c=c, ops=ops: client(c, ops))
    ctx.go()
    # the disk is back: every object holds what it would have held without the outage
    disk.offline = False
    for c in sorted(pools):
        for k, (s, m) in enumerate(pools[c]):
            survey.check_meta(ctx, s, m, f'object {k} of client {c} at the end')
            survey.check_data(ctx, s, m, f'object {k} of client {c} at the end')
