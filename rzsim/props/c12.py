""" C12: calibration tables load completely or not at all. """
import os

import numpy as np

from .. import boot, disk, ref, world
from ..core import InvalidWorkload, stream

rzb = boot.rzb
ID = 'C12'
SHRINK = ['clients', 'clients.*', 'files']

MET = 'data/metronix_calibration'
STEMS = ['Cal_MFS06_01', 'cal_MFS07e_22', 'MFS06', 'x MFS07 é', 'MFS07_MFS06', 'Cal_MFS10', 'coil-a', 'LAB3_x']


def gen_table(rng, n=None):
    """ seed of rows of ascending frequencies """
    return dict(seed=rng.randrange(1 << 28), n=n or rng.choice([2, 3, 5, 12, 60, 60, 60, 1200] if rng.random() < .3 else [2, 3, 5, 12]))


def gen_version(rng, kind):
    if kind == 'met':
        return dict(on=gen_table(rng), off=gen_table(rng), swap=rng.random() < .3,
                    missing=rng.choice([None] * 8 + ['on', 'off']),
                    # a row of one section lacks a column (or its number is no number)
                    broken=rng.choice([None] * 6 + [[rng.choice(['on', 'off']), rng.randrange(60),
                                                     rng.choice(['short', 'word'])]]), tail=rng.random() < .3,
                    mark=rng.choice(['Chopper On', 'chopper on', 'Chopper   ON', '  CHOPPER On  ']))
    return dict(nchan=rng.choice([1, 2, 3]), junk=rng.random() < .6,
                levels=sorted(rng.sample([2, 3, 4, 5], rng.choice([1, 2, 3]))),
                broken=rng.choice([None] * 6 + [['', rng.choice([0, rng.randrange(60)]),
                                                 rng.choice(['short', 'word'])]]),
                mixed=rng.random() < .5, shuffle=rng.random() < .25, table=gen_table(rng))


def gen(rng, tier):
    files = []
    for i in range(rng.choice([1, 2, 2, 3])):
        kind = rng.choice(['met', 'met', 'pho'])
        v = [gen_version(rng, kind)]
        v += [gen_version(rng, kind) for _ in range(rng.choice([0, 1, 2]))]
        files.append(dict(kind=kind, dir=rng.choice(['w0', 'w0', 'w1', 'pkg']) if kind == 'met'
                          else rng.choice(['w0', 'w1']),
                          name=(rng.choice(STEMS) + '.txt') if kind == 'met' else f'a{i}.cts',
                          versions=v, present=rng.random() < .93))
    many = rng.random() < .5
    clients = []
    for _ in range(rng.choice([2, 2, 3]) if many else 1):
        ops = []
        for _ in range(rng.randint(2, 9)):
            k = rng.choice(['load', 'load', 'load', 'eval', 'eval', 'replace', 'remove', 'mutate']
                           + ([] if many else ['chdir', 'globals']))
            i = rng.randrange(99)
            if k == 'load':
                op = [k, i, dict(rate=rng.choice([1., 128., 511.9, 512., 512.1, 4096., 65536.]),
                                 limit=rng.choice([None, None, 512., 0., 100., 1e9]),
                                 pattern=rng.choice([None] * 4 + [r'.*(MFS\d\d).*', r'(\w+\d)_.*']),
                                 alpha=rng.choice([None, None, {'MFS06': 3., 'MFS10': 11., 'LAB3': 2.}]),
                                 level=rng.choice([2, 2, 3, 4, 5]),
                                 path=rng.choice(['abs', 'abs', 'Path'] if many else
                                                 ['abs', 'rel', 'rel', 'Path']))]
            elif k == 'replace':
                op = [k, i, rng.randrange(9)]
            elif k == 'globals':
                op = [k, rng.choice([None, 5., 40.]), rng.choice([None, 64., 512., 5000.])]
            else:
                op = [k, i, rng.randrange(1 << 20)]
            ops.append(op)
        clients.append(ops)
    return dict(files=files, clients=clients, sim=world.sim_opts(rng, workers=False),
                disk=world.disk_cfg(rng, ['eio', 'eacces', 'emfile', 'enomem', 'memerr', 'vanish'],
                                    p_none=.4))


def rows(t):
    g = np.random.Generator(np.random.PCG64(t['seed']))
    f = np.cumsum(g.uniform(.05, 3, t['n'])) ** 1.5
    return [(f[k], g.uniform(.1, 2), g.uniform(-180, 180)) for k in range(t['n'])]


def pho_rows(v):
    g = np.random.Generator(np.random.PCG64(v['table']['seed']))
    out = []
    for lev in v['levels']:
        f = np.cumsum(g.uniform(.05, 3, v['table']['n'])) ** 1.5
        out += [[x, lev] + list(g.normal(size=2 * v['nchan'])) for x in f]
    if v['mixed']:
        # the levels interleave in the file
        out.sort(key=lambda r: r[0])
    if v['shuffle']:
        out = [out[i] for i in g.permutation(len(out))]
    return out


def spoil(lines, k, how, sep):
    k %= len(lines)
    cells = lines[k].split(sep)
    lines[k] = sep.join(cells[:-1] if how == 'short' else cells[:-1] + ['1.2.3'])
    return lines


def content(kind, v):
    if kind == 'pho':
        lines = ref.phoenix_text(v['nchan'], pho_rows(v), junk=v['junk']).strip('\n').split('\n')
        if v['broken']:
            h = 1 + v['junk']
            # an unreadable second line is taken for the column names
            d = 0 if v['junk'] or len(lines) < 3 else 1
            lines[h + d:] = spoil(lines[h + d:], *v['broken'][1:], ', ')
        return ('\n'.join(lines) + '\n').encode()

    def text(which):
        lines = ['%.6e\t%.6e\t%.6e' % r for r in rows(v[which])]
        if v['broken'] and v['broken'][0] == which:
            spoil(lines, *v['broken'][1:], '\t')
        return '\n'.join(lines)
    parts = [f'{v["mark"]}\n' + text('on'), 'Chopper Off\n' + text('off')]
    keep = [p for p, n in zip(parts, ['on', 'off']) if n != v['missing']]
    if v['swap']:
        keep.reverse()
    return ('Calibration measurement with MFS\nMagnetometer: #001\nFrequency  Magnitude Phase\n\n'
            + '\n\n'.join(keep) + ('' if v['tail'] else '\n\n')).encode()


class Model:
    """ what loading a version of a file with some options has to give """

    def __init__(self, f, v, opts, glob):
        self.fail = None
        self.funcs, self.probes = [], []
        if v is None:
            self.fail = 'no file'
            return
        if f['kind'] == 'pho':
            rs = pho_rows(v)
            if opts['level'] not in v['levels']:
                self.fail = 'no such level'
                return
            if v['broken']:
                self.fail = 'broken row'
                return
            self.funcs = ref.phoenix_ref(v['nchan'], rs, opts['level'])
            fr = [float('%.9e' % r[0]) for r in rs if r[1] == opts['level']]
        else:
            import re
            limit = opts['limit'] if opts['limit'] is not None else glob['limit']
            chopper = opts['rate'] <= limit
            which = 'on' if chopper else 'off'
            if v['missing'] == which:
                self.fail = 'no such section'
                return
            if v['broken'] and v['broken'][0] == which:
                self.fail = 'broken row'
                return
            m = re.match(opts['pattern'] or r'.*(MFS\d\d).*', f['name'][:-4])
            amap = opts['alpha'] if opts['alpha'] is not None else glob['alpha']
            if m is None or m.group(1) not in amap:
                self.fail = 'unknown sensor'
                return
            t = rows(v[which])
            self.funcs = [ref.metronix_cal(t, amap[m.group(1)], chopper)]
            fr = [float('%.6e' % r[0]) for r in t]
        fr = sorted(fr)
        self.freqs = [fr[0], fr[-1], fr[0] * .3, fr[-1] * 2, (fr[0] + fr[1]) / 2,
                      (2 * fr[-2] + fr[-1]) / 3, fr[len(fr) // 2], fr[0] * (1 + 1e-9)]

    def values(self, freqs):
        """ None where the function has to raise """
        out = []
        for c in self.funcs:
            for f in freqs:
                try:
                    out.append(complex(c(f)))
                except ref.Fail:
                    out.append(None)
        return out


def run(ctx):
    w = ctx.w
    cal = rzb.calibrations
    glob = dict(limit=512., alpha={'MFS06': 4.0, 'MFS07': 32.0})
    saved = dict(cal.METRONIX_ALPHA_MAP), cal.METRONIX_CHOPPER_ON_LIMIT
    ctx.disk.redirect.append((boot.PREFIX + 'data', ctx.path('pkg/data')))
    for d in ('w0', 'w1', 'pkg'):
        os.makedirs(ctx.path(d, MET))
    files = []
    seen = set()
    for f in w['files']:
        rel = f"{f['dir']}/{MET}/{f['name']}" if f['kind'] == 'met' else f"{f['dir']}/{f['name']}"
        if rel in seen or f['name'] in [os.path.basename(x) for x in seen] and f['kind'] == 'met':
            continue            # one file of each name: where it is found is another property
        seen.add(rel)
        files.append(dict(f, rel=rel, now=None, history=[]))
        if f['present']:
            put(ctx, files[-1], 0)
        else:
            files[-1]['history'].append((-1, None))
    if not files:
        raise InvalidWorkload
    os.chdir(ctx.path('w0'))
    cwd = ['w0']

    def client(c, ops):
        loaded = []             # (functions, model, label, opts)

        def evaluate(k, what):
            funcs, models, label, _ = loaded[k]
            with ctx.quiet():
                freqs = models[0][1].freqs
            got = []
            for fn in funcs:
                for x in freqs:
                    o = ctx.attempt(f'{label} at {x}', lambda: complex(fn(x)))
                    got.append(o.value if o.ok else None)
                    if not o.ok and not isinstance(o.error, ValueError):
                        ctx.fail('depends-on-disk', f'{what}: {o.describe()}')
            ok = []
            for _, m in models:
                exp = m.values(freqs)
                if len(exp) == len(got) and all(
                        (a is None) == (b is None) and (a is None or abs(a - b) <= 1e-9 * abs(b))
                        for a, b in zip(got, exp)):
                    ok.append((_, m))
            ctx.checks += 1
            if not ok:
                exp = models[0][1].values(freqs)
                bad = [i for i, (a, b) in enumerate(zip(got, exp)) if a is None or b is None
                       or abs(a - b) > 1e-9 * abs(b)]
                ctx.fail('wrong-values', f'{what}: {len(funcs)} functions, expected '
                         f'{len(models[0][1].funcs)}; differs at {bad}: {got[:16]} expected {exp[:16]}')
            models[:] = ok
            return got

        for op in ops:
            if op[0] == 'chdir':
                cwd[0] = 'w0' if op[1] % 2 else 'w1'
                os.chdir(ctx.path(cwd[0]))
            elif op[0] == 'globals':
                if op[1] is not None:
                    cal.METRONIX_ALPHA_MAP['MFS06'] = glob['alpha']['MFS06'] = op[1]
                if op[2] is not None:
                    cal.METRONIX_CHOPPER_ON_LIMIT = glob['limit'] = op[2]
            elif op[0] in ('replace', 'remove'):
                f = files[op[1] % len(files)]
                if not any(p[1] == ctx.path(f['rel']) for p in ctx.disk.pending):
                    put(ctx, f, op[2] % len(f['versions']) if op[0] == 'replace' else None)
            elif op[0] == 'mutate':
                if loaded:
                    opts = loaded[op[1] % len(loaded)][3]
                    opts['limit'] = 0. if opts['limit'] else 1e9
                    if opts['alpha'] is not None:
                        opts['alpha']['MFS06'] = opts['alpha']['LAB3'] = 77.
            elif op[0] == 'eval':
                if loaded:
                    evaluate(op[1] % len(loaded), 'later')
            else:
                load(op, loaded, evaluate)
        for k in range(len(loaded)):
            evaluate(k, 'at the end')

    def load(op, loaded, evaluate):
        f = files[op[1] % len(files)]
        opts = dict(op[2])
        if opts['alpha'] is not None:
            opts['alpha'] = dict(opts['alpha'])
        path = ctx.path(f['rel'])
        if opts['path'] == 'rel' and f['kind'] == 'met':
            # resolved below the working directory, then in the package
            path = f['name']
            there = f['dir'] in (cwd[0], 'pkg')
        elif opts['path'] == 'rel':
            path, there = f['name'], f['dir'] == cwd[0]
        else:
            there = True
        if opts['path'] == 'Path':
            import pathlib
            path = pathlib.Path(path)
        label = f"{f['rel']} with {opts}"
        snap = dict(limit=glob['limit'], alpha=dict(glob['alpha']))
        kw = {k: opts[a] for k, a in [('chopper_on_limit', 'limit'), ('version_pattern', 'pattern'),
                                      ('alpha_map', 'alpha')] if opts[a] is not None}
        first = len(f['history']) - 1
        if f['kind'] == 'met':
            o = ctx.attempt(label, lambda: [cal.metronix(path, opts['rate'], **kw)])
        else:
            o = ctx.attempt(label, lambda: list(cal.phoenix(path, opts['level'])))
        if opts['alpha'] is not None and opts['alpha'] != op[2]['alpha']:
            ctx.fail('modified', f"{label}: the alpha map became {opts['alpha']}")
        frozen = dict(op[2])
        models = [(k, Model(f, f['versions'][k] if k is not None and there else None, frozen, snap))
                  for _, k in f['history'][first:]]
        fails = [m.fail for _, m in models if m.fail]
        good = [(k, m) for k, m in models if not m.fail]
        if not o.ok:
            ctx.probe('refused loads' if fails else 'failed loads')
            if not fails:
                ctx.must_succeed(o)
            if not isinstance(o.error, Exception):
                ctx.fail('bad-error', o.describe())
            return
        if not good:
            ctx.fail('accepted', f'{label} loads although: {fails}')
        ctx.probe('loads despite faults' if o.excused else 'loads')
        if len(good) > 1:
            ctx.probe('loads of a file being replaced')
        loaded.append((o.value, good, label, opts))
        evaluate(len(loaded) - 1, 'just loaded')

    try:
        for c, ops in enumerate(w['clients']):
            ctx.client(f'client{c}', lambda c=c, ops=ops: client(c, ops))
        ctx.go()
    finally:
        cal.METRONIX_ALPHA_MAP.clear()
        cal.METRONIX_ALPHA_MAP.update(saved[0])
        cal.METRONIX_CHOPPER_ON_LIMIT = saved[1]
    if ctx.disk.left_open():
        ctx.fail('open-files', f'{ctx.disk.left_open()} still open')


def put(ctx, f, k):
    """ the environment installs version k of a file atomically (None removes it) """
    path = ctx.path(f['rel'])
    if k is None:
        try:
            disk.REAL['unlink'](path)
        except FileNotFoundError:
            pass
    else:
        tmp = ctx.path('incoming~')
        with disk.REAL['open'](tmp, 'wb') as h:
            h.write(content(f['kind'], f['versions'][k]))
        disk.REAL['replace'](tmp, path)
    f['now'] = k
    f['history'].append((ctx.sim.step, k))
