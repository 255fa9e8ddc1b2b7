""" A model of surveys: signal sets as exact rational time lines.

`MSet` mirrors what a SignalSet means; every operation of a history is applied to
the real object and to the model, and both are compared.  Times are exact
fractions, so that rounding in the system under test shows up.
"""
import math
import random
from fractions import Fraction as F

import numpy as np

from . import boot, ref, world
from .core import Violation

rzb = boot.rzb


class Refuse(Exception):
    """ the operation has to be refused """


class Unknown(Exception):
    """ the model does not decide this operation (rounding, or unspecified) """


def ulp(t):
    return math.ulp(abs(float(t)) or 1e-300)


class MRun:
    __slots__ = ('rate', 'start', 'cols', 'cals')

    def __init__(self, rate, start, cols, cals):
        self.rate, self.start, self.cols, self.cals = rate, F(start), list(cols), list(cals)

    @property
    def n(self):
        return len(self.cols[0])

    def time(self, k):
        return self.start + F(k) / F(self.rate)

    @property
    def stop(self):
        return self.time(self.n - 1)

    def index(self, t, side):
        """ first index at or after t ('right'), last at or before t ('left') """
        x = (F(t) - self.start) * F(self.rate)
        near = round(x)
        dist = abs(x - near)
        tol = F(ulp(max(abs(t), abs(self.start), abs(self.stop)))) * F(self.rate)
        if dist <= 3 * tol:
            return near
        if dist < F(1, 1000) or dist < 14 * tol:
            raise Unknown('time too close to a sample')
        return math.ceil(x) if side == 'right' else math.floor(x)

    def part(self, i, j):
        """ samples i..j included, None when fewer than two """
        i, j = max(i, 0), min(j, self.n - 1)
        if j - i + 1 < 2:
            return None
        return MRun(self.rate, self.time(i), [c[i:j + 1] for c in self.cols], self.cals)

    def cut(self, t0, t1):
        i = 0 if t0 == -math.inf else self.n if t0 == math.inf else self.index(t0, 'right')
        j = self.n - 1 if t1 == math.inf else -1 if t1 == -math.inf else self.index(t1, 'left')
        return self.part(i, j)


class MSet:
    def __init__(self, tags, n, runs):
        self.tags = {k: tuple(v) for k, v in tags.items()}
        self.n = n
        self.runs = sorted(runs, key=lambda r: r.start)
        for a, b in zip(self.runs, self.runs[1:]):
            gap = b.start - a.stop
            if gap < 0:
                if gap > -8 * F(ulp(a.stop)):
                    raise Unknown('runs touch to within rounding')
                raise Refuse('runs overlap')

    # ------------------------------------------------------------- operations
    def channels(self, ids):
        if isinstance(ids, slice):
            idx = list(range(self.n))[ids]
        else:
            if isinstance(ids, (str, int)):
                ids = [ids]
            idx = []
            for c in ids:
                if isinstance(c, str):
                    if c not in self.tags:
                        raise Refuse('unknown tag')
                    idx += self.tags[c]
                else:
                    if not 0 <= c < self.n:
                        raise Refuse('unknown channel')
                    idx.append(c)
        idx = sorted(set(idx))
        if not idx:
            raise Unknown('nothing selected')
        pos = {c: i for i, c in enumerate(idx)}
        tags = {t: tuple(pos[c] for c in v) for t, v in self.tags.items() if set(v) <= set(idx)}
        return MSet(tags, len(idx), [MRun(r.rate, r.start, [r.cols[c] for c in idx],
                                          [r.cals[c] for c in idx]) for r in self.runs])

    def select_runs(self, sel):
        try:
            idx = list(np.arange(len(self.runs))[sel].flat)
        except IndexError:
            raise Refuse('no such run')
        return MSet(self.tags, self.n, [self.runs[i] for i in idx])

    def cut(self, t0, t1, exclude=False):
        if exclude:
            if not self.runs:
                raise Unknown('empty')
            left = self.cut(-math.inf, t0)
            right = self.cut(t1, math.inf)
            return MSet(self.tags, self.n, left.runs + right.runs)
        runs = [r.cut(t0, t1) for r in self.runs]
        return MSet(self.tags, self.n, [r for r in runs if r is not None])

    def retag(self, tags, n):
        """ the same channels under the numbering of `tags` """
        if self.tags == tags and self.n == n:
            return self
        if set(tags) != set(self.tags) or any(len(tags[t]) != len(self.tags[t]) for t in tags):
            raise Refuse('different tags')
        if not tags:
            raise Unknown('no tags')
        src = {}
        for t in tags:
            for a, b in zip(tags[t], self.tags[t]):
                if src.setdefault(a, b) != b:
                    raise Refuse('tags group channels differently')
        if not self.runs and set(src) <= set(range(n)):
            raise Unknown('no runs to renumber')
        if n != self.n or set(src) != set(range(n)):
            if set(src) > set(range(n)) or self.n < n or not set(range(self.n)) <= set(src):
                raise Refuse('channels without tag')
            raise Unknown('different channels')
        return MSet(tags, n, [MRun(r.rate, r.start, [r.cols[src[i]] for i in range(n)],
                                   [r.cals[src[i]] for i in range(n)]) for r in self.runs])

    def join(self, *others):
        others = [o.retag(self.tags, self.n) for o in others]
        return MSet(self.tags, self.n, sum((o.runs for o in others), list(self.runs)))

    def merge(self, *others):
        seq = (self,) + others
        names = [t for s in seq for t in s.tags]
        if len(set(names)) != len(names):
            raise Refuse('tag in both')
        if any(not s.runs for s in seq):
            raise Unknown('merge of nothing')
        tags, n = {}, 0
        for s in seq:
            for t, v in s.tags.items():
                tags[t] = tuple(c + n for c in v)
            n += s.n
        runs = []

        def walk(i, chosen, d, f):
            if i == len(seq):
                yield chosen, d, f
                return
            for r in seq[i].runs:
                dd, ff = max(d, r.start), min(f, r.stop)
                if abs(ff - dd) <= 8 * F(ulp(ff)):
                    continue        # at most one instant in common
                if ff > dd:
                    yield from walk(i + 1, chosen + [r], dd, ff)
        for chosen, d, f in walk(0, [], min(s.runs[0].start for s in seq),
                                 max(s.runs[-1].stop for s in seq)):
            rates = {r.rate for r in chosen}
            if len(rates) > 1:
                # nothing in common at one rate; with less than two samples of one
                # of them the operation may also be refused
                for r in chosen:
                    if r.cut(d, f) is None:
                        raise Unknown('different rates, short overlap')
                continue
            rate = chosen[0].rate
            tol = F(ulp(max(abs(d), abs(f))))
            ij = []
            for r in chosen:
                x = (d - r.start) * F(rate)
                off = abs(x - round(x)) / F(rate)
                if off > 3 * tol:
                    if off < 16 * tol or off * F(rate) < F(1, 1000):
                        raise Unknown('clock offset near the resolution')
                    raise Refuse('clocks are not synchronised')
                ij.append((round(x), round((f - r.start) * F(rate))))
            parts = [r.part(i, j) for r, (i, j) in zip(chosen, ij)]
            if any(p is None for p in parts):
                raise Unknown('short overlap')
            if len({p.n for p in parts}) > 1:
                raise Unknown('lengths hang on rounding')
            runs.append(MRun(rate, d, sum((p.cols for p in parts), []),
                             sum((p.cals for p in parts), [])))
        return MSet(tags, n, runs)

    def consecutive(self):
        runs = []
        for r in self.runs:
            if runs and runs[-1].rate == r.rate:
                p = runs[-1]
                gap = (r.start - p.stop) * F(r.rate) - 1
                tol = F(ulp(r.start)) * F(r.rate)
                if abs(gap) <= max(3 * tol, F(1, 10 ** 7)):
                    runs[-1] = MRun(p.rate, p.start, [np.concatenate([a, b]) for a, b
                                                      in zip(p.cols, r.cols)], p.cals)
                    continue
                if abs(gap) < F(1, 400) or abs(gap) < 16 * tol:
                    raise Unknown('gap near the resolution')
            runs.append(r)
        return MSet(self.tags, self.n, runs)


# ----------------------------------------------------------------- comparisons
def cal_value(c):
    return c


def check_meta(ctx, got, m, what, kind='wrong-survey'):
    """ everything but the samples """
    if {k: tuple(v) for k, v in got.tags.items()} != m.tags:
        ctx.fail(kind, f'{what}: tags {dict(got.tags)}, expected {m.tags}')
    if got.nb_channels != m.n:
        ctx.fail(kind, f'{what}: {got.nb_channels} channels, expected {m.n}')
    if got.nb_runs != len(m.runs):
        ctx.fail(kind, f'{what}: {got.nb_runs} runs {got.intervals.tolist()}, expected '
                 f'{[[float(r.start), float(r.stop)] for r in m.runs]}')
    for k, (s, r) in enumerate(zip(got.signals, m.runs)):
        if s.sampling_rate != r.rate:
            ctx.fail(kind, f'{what}: run {k} at {s.sampling_rate} Hz, expected {r.rate}')
        if s.size != r.n or any(len(d) != r.n for d in s.data):
            ctx.fail(kind, f'{what}: run {k} has {s.size} samples from {s.start!r}, expected '
                     f'{r.n} from {float(r.start)!r}')
        if len(s.data) != m.n:
            ctx.fail(kind, f'{what}: run {k} has {len(s.data)} channels')
        for a, b, n in ((s.start, r.start, 'start'), (s.stop, r.stop, 'stop')):
            if abs(F(float(a)) - b) > 12 * F(ulp(max(abs(r.start), abs(r.stop)))):
                ctx.fail(kind, f'{what}: run {k} {n} {a!r}, expected {float(b)!r}')
        if len(s.calibrations) != m.n:
            ctx.fail(kind, f'{what}: run {k} has {len(s.calibrations)} calibrations')
        for c, (f, v) in enumerate(zip(s.calibrations, r.cals)):
            if f(3.5) != v:
                ctx.fail('calibration', f'{what}: run {k} channel {c} has calibration {f(3.5)!r}, '
                         f'expected {v!r}')
    check_views(ctx, got, m, what, kind)
    ctx.checks += 1


def check_views(ctx, got, m, what, kind):
    """ the same facts through the other attributes of a signal set and of its tags """
    for name, one in (('starts', 'start'), ('stops', 'stop'), ('sizes', 'size'),
                      ('sampling_rates', 'sampling_rate'), ('intervals', 'interval')):
        a, b = getattr(got, name), [getattr(s, one) for s in got.signals]
        tol = 12 * ulp(max(map(abs, [got.starts[0], *np.ravel(b)]))) if b else 0
        if np.shape(a) != np.shape(b) or any(abs(x - y) > tol
                                             for x, y in zip(np.ravel(a), np.ravel(b))):
            ctx.fail(kind, f'{what}: {name} are {list(a)}, those of the runs are {b}')
    for r, i in zip(m.runs, got.intervals):
        if any(abs(F(float(x)) - y) > 12 * F(ulp(max(abs(r.start), abs(r.stop))))
               for x, y in zip(i, (r.start, r.stop))):
            ctx.fail(kind, f'{what}: interval {i}, expected {float(r.start)!r} to {float(r.stop)!r}')
    names = sorted(m.tags)
    patterns = [('*',), ('[!G]*',), ('?' + n[1:] for n in names[:1]), ('nope', 'E*', '*0')]
    for ps in [tuple(p) for p in patterns]:
        want = [t for t in got.tags if any(glob_match(p, t) for p in ps)]
        if list(got.tags.filter(*ps)) != want:
            ctx.fail(kind, f'{what}: tags filtered with {ps}: {got.tags.filter(*ps)}, of {names}')
        idx = sorted({i for t in want for i in m.tags[t]})
        if list(got.tags.filter_get(*ps)) != idx:
            ctx.fail(kind, f'{what}: channels filtered with {ps}: {got.tags.filter_get(*ps)}, '
                     f'expected {idx}')
    for n in names:
        if not hasattr(dict, n) and getattr(got.tags, n) != m.tags[n]:
            ctx.fail(kind, f'{what}: tags.{n} is {getattr(got.tags, n)}, expected {m.tags[n]}')
    if set(got.tags.indices) != set(range(m.n)):
        ctx.fail(kind, f'{what}: channels {sorted(got.tags.indices)}, expected {m.n}')
    text = str(got)
    if f'{m.n} channel' not in text or f'{len(m.runs)} run' not in text \
            or not all(n in text for n in names):
        ctx.fail(kind, f'{what}: printed as {text!r}')


def check_data(ctx, got, m, what, kind='wrong-samples', compute=None):
    compute = compute or (lambda a: boot.dask.compute(*a))
    for k, (s, r) in enumerate(zip(got.signals, m.runs)):
        vals = compute(list(s.data))
        for c, (v, w) in enumerate(zip(vals, r.cols)):
            ctx.equal(v, w, f'{what}: run {k} channel {c}', kind)


def digest(s):
    """ what an object shows without reading samples; lazily loaded data by name """
    if isinstance(s, rzb.SignalSet):
        return ('set', tuple(s.tags.items()), s.tags.indices, tuple(digest(x) for x in s.signals))
    if isinstance(s, rzb.Inventory):
        return ('inv', tuple(id(x) for x in s), tuple(digest(x) for x in s))
    if isinstance(s, rzb.SyncSignal):
        return ('sig', s.sampling_rate, s.start, s.size, tuple(map(id, s.calibrations)),
                tuple(digest(d) for d in s.data))
    if isinstance(s, np.ndarray):
        return ('arr', s.shape, str(s.dtype), s.tobytes())
    if hasattr(s, 'dask'):
        return ('lazy', s.name, s.shape, s.chunks)
    if isinstance(s, dict):
        return ('dict', tuple((k, digest(v)) for k, v in s.items()))
    if isinstance(s, (list, tuple)):
        return (type(s).__name__, tuple(digest(x) for x in s))
    if callable(s):
        return ('fn', id(s))
    return repr(s)


# ------------------------------------------------------------------ generation
RATES = [1., 4., 64., 512., 4096., 65536., 150., 2400., 15., 0.1, 50., 24000., 1 / 60]
EPOCHS = [0, 0.5, 1000, 1_300_000_000, 1_500_000_000.25, 1_600_000_123, -1000, -86400.5, -7]


def gen_sites(rng, nsites=None, offsets=False, rates=None, max_runs=4, many=0):
    """ recorders on a common sample grid, each with its own runs """
    rate = rng.choice(rates or RATES)
    rates = [rate]
    if rng.random() < .35:
        r2 = rng.choice(RATES)
        if r2 != rate and max(r2, rate) / min(r2, rate) <= 5000:
            rates.append(r2)
    rotate = rng.random() < .3      # recorders at distinct rates at the same time
    if rotate and len(rates) == 1:
        rates += [r for r in RATES if r != rate and 1 / 4 <= r / rate <= 4][:1]
    store = rng.choice(['memory', 'memory', 'dask', 'file'])
    epoch = rng.choice(EPOCHS)
    if store == 'file':
        rates = [r for r in rates if float(np.float32(r)) == r] or [64.]
        epoch = abs(int(epoch))         # the format has no negative times
    many = rng.random() < many
    sites, seed = [], rng.randrange(1 << 28)
    for i in range(nsites or rng.choice([1, 2, 2, 3])):
        nc = rng.choice([1, 1, 2, 2, 3])
        names = [f'{t}{i}' for t in ('Ex', 'Ey', 'Bz')[:nc]]
        if rng.random() < .2:
            names = names[::-1]
        groups = {}
        if nc > 1 and rng.random() < .6:
            groups[f'G{i}'] = sorted(rng.sample(range(nc), rng.randint(1, nc)),
                                     key=lambda x: rng.random())
        if rng.random() < .1:
            names[-1] = None
        runs = []
        for q, rt in enumerate(rates[::-1] if rotate and i % 2 else rates):
            # sample positions on the grid of this rate
            k = rng.randrange(0, 30)
            if len(rates) > 1:
                k += q * int(60 * rt * (1 + len(runs))) if rt < 1000 else q * 200000
            for _ in range(rng.randint(130, 150) if many and i == 0 and store != 'file'
                           else rng.randint(1, max_runs)):
                n = rng.choice([2, 3, 5, 12, 20, 33])
                if store == 'file':
                    step = max(1, int(rt))          # starts on whole seconds
                    k = -(-k // step) * step if rt >= 1 else k
                runs.append([rt, k, n])
                k += n + rng.choice([0, 0, 1, 2, 7, 30])
        sites.append(dict(names=names, groups=groups, runs=runs, seed=seed + 1000 * i,
                          same=nc > 1 and rng.random() < .15,
                          cals=rng.random() < .6))
    return dict(epoch=epoch, store=store, sites=sites)


def site_runs(w, i):
    """ [(rate, float start, exact values per channel, cals)] """
    s = w['sites'][i]
    out = []
    for j, (rate, k, n) in enumerate(s['runs']):
        start = float(F(w['epoch']) + F(k) / F(rate))
        if 'offsets' in s:
            start = float(F(start) + F(s['offsets'][j]))
        if w['store'] == 'file':
            start = int(round(start))
        cols = [0.5 * world.rnd_samples(s['seed'] + 20 * j + c, n, 16).astype(float)
                for c in range(len(s['names']))]
        if s.get('same'):       # two channels made of the same samples
            cols[1] = cols[0]
        cals = [1.5 + c + 10 * i if s['cals'] else 1. for c in range(len(s['names']))]
        out.append((rate, start, cols, cals))
    return out


def site_tags(w, i):
    s = w['sites'][i]
    t = {n: (c,) for c, n in enumerate(s['names']) if n}
    t.update({g: tuple(v) for g, v in s['groups'].items()})
    return t


def build_run(ctx, w, i, j, name='s'):
    """ (SyncSignal, MRun) """
    rate, start, cols, cals = site_runs(w, i)[j]
    ctx.simulated_seconds += len(cols[0]) / rate
    if w['store'] == 'file':
        paths = [ctx.write(f'{name}{i}/r{j:02d}/c{c}.ats', ref.ats_bytes(
            (2 * x).astype(int), rate, start, .5)) for c, x in enumerate(cols)]
        sig = rzb.io.load_ats(paths, calibrations=list(cals))
    else:
        data = [x.copy() for x in cols]
        if w['store'] == 'dask':
            data = [boot.dask.array.from_array(x, chunks=max(1, len(x) // 2)) for x in data]
        if w['sites'][i].get('same'):
            data[1] = data[0]
        sig = rzb.SyncSignal(data, rate, start, list(cals))
    return sig, MRun(rate, start, cols, cals)


def build_site(ctx, w, i, name='s'):
    """ (SignalSet, MSet) or raises Refuse/Unknown from the model """
    pairs = [build_run(ctx, w, i, j, name) for j in range(len(w['sites'][i]['runs']))]
    tags = site_tags(w, i)
    n = len(w['sites'][i]['names'])
    m = MSet(tags, n, [b for _, b in pairs])
    return rzb.SignalSet(rzb.Tags(n, **tags), *[a for a, _ in pairs]), m


def renumber(s, m, perm):
    """ the same channels, channel k being the one numbered perm[k] before """
    pos = {c: k for k, c in enumerate(perm)}
    tags = {t: tuple(pos[c] for c in v) for t, v in m.tags.items()}
    runs = [MRun(r.rate, r.start, [r.cols[c] for c in perm], [r.cals[c] for c in perm])
            for r in m.runs]
    return (rzb.SignalSet(rzb.Tags(m.n, **tags), *[x.select(*perm) for x in s.signals]),
            MSet(tags, m.n, runs))


TAGGING = {
    ('tag', 'attr'): lambda x, name, value: setattr(x.tags, name, value),
    ('tag', 'item'): lambda x, name, value: x.tags.__setitem__(name, value),
    ('tag', 'update'): lambda x, name, value: x.tags.update({name: value}),
    ('tag', 'set'): lambda x, name, value: setattr(x, 'tags', dict(x.tags, **{name: value})),
    ('untag', 'attr'): lambda x, name: delattr(x.tags, name),
    ('untag', 'pop'): lambda x, name: x.tags.pop(name),
    ('untag', 'del'): lambda x, name: x.tags.__delitem__(name),
}


def tag_it(s, how, name, value):
    """ a copy of s with one more tag; a refused tag leaves the mapping as it was """
    x = s.select_runs(slice(None))
    before = dict(x.tags), x.tags.indices
    try:
        TAGGING['tag', how](x, name, value)
    except Exception as e:
        if (dict(x.tags), x.tags.indices) != before:
            raise Violation('tag-stored', f'tag {name}={value} is refused ({e!r}) but the tags '
                            f'are {x.tags!r}, were {before}')
        raise
    return x


def untag(s, how, name):
    x = s.select_runs(slice(None))
    before = dict(x.tags), x.tags.indices
    try:
        TAGGING['untag', how](x, name)
    except Exception as e:
        if (dict(x.tags), x.tags.indices) != before:
            raise Violation('tag-stored', f'removing {name} is refused ({e!r}) but the tags '
                            f'are {x.tags!r}, were {before}')
        raise
    return x


# -------------------------------------------------------------------- programs
def gen_bound(rng):
    return rng.choice([
        ['sample', rng.randrange(9), rng.randrange(40)],
        ['sample', rng.randrange(9), rng.randrange(40)],
        ['between', rng.randrange(9), rng.randrange(40), rng.choice([.003, .01, .1, .25, .5, .75, .9, .99])],
        ['start', rng.randrange(9)], ['stop', rng.randrange(9)], ['inf', rng.choice([-1, 1])]])


def gen_op_ids(rng, names):
    ids = [rng.choice(names + [0, 1, 2]) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < .3:
        ids = ids[0]
    elif rng.random() < .15:
        ids = ['slice', rng.choice([None, 0, 1]), rng.choice([None, 1, 2])]
    return ids


def gen_op_runs(rng):
    return rng.choice([0, -1, [0], [0, 1], ['slice', 0, 1], ['slice', 1, None],
                       ['slice', None, None], ['mask', rng.randrange(64)], 1, 2])


def gen_op(rng, names):
    k = rng.choice(['chan', 'chan', 'runs', 'cut', 'cut', 'cut', 'excl', 'join', 'join', 'merge',
                    'merge', 'consec', 'consec', 'resplit', 'renum', 'tag',
                    'item', 'item', 'attr', 'untag', 'wrap', 'piece'])
    i = rng.randrange(99)
    if k == 'item':
        a, b = gen_op_ids(rng, names), gen_op_runs(rng)
        return ['item', i, *rng.choice([[a], [['slice', None, None], b], [a, b]])]
    if k in ('attr', 'untag'):
        name = rng.choice([n for n in names if isinstance(n, str)] + ['nope'])
    if k == 'attr':
        return ['attr', i, name]
    if k == 'untag':
        return ['untag', i, rng.choice(['del', 'attr', 'pop']), name]
    if k == 'wrap':
        return ['wrap', i, rng.randrange(1 << 20), rng.choice(['call', 'or', 'dict', 'sync'])]
    if k == 'piece':
        if rng.random() < .6:
            return ['piece', i, rng.randrange(9), 't', gen_bound(rng), gen_bound(rng), rng.random() < .6]
        return ['piece', i, rng.randrange(9), 'i', rng.choice([None, 0, 1, 2, 5, -1, 40]),
                rng.choice([None, 3, 5, 11, 12, 40, 1]), rng.random() < .6, rng.random() < .5]
    if k == 'chan':
        return ['chan', i, gen_op_ids(rng, names)]
    if k == 'runs':
        return ['runs', i, gen_op_runs(rng)]
    if k in ('cut', 'excl'):
        return [k, i, gen_bound(rng), gen_bound(rng)]
    if k in ('join', 'merge'):
        return [k, i, [rng.randrange(99) for _ in range(rng.choice([1, 1, 2]))]]
    if k == 'resplit':      # cut one set in two and join the halves again
        return [k, i, gen_bound(rng), rng.random() < .5]
    if k == 'renum':
        return [k, i, rng.randrange(1 << 20)]
    if k == 'tag':
        return [k, i, rng.choice(['attr', 'item', 'update', 'set']),
                rng.choice([n for n in names if isinstance(n, str)] + ['New', 'Other', '1x', '']),
                rng.choice([0, [0], [0, 1], 1, [1, 0], 2, [0, 9], [], -1])]
    return ['consec', i]


def bound(m, b):
    """ the time a user would write down """
    if b[0] == 'inf':
        return math.inf * b[1]
    if not m.runs:
        return 0.
    r = m.runs[b[1] % len(m.runs)]
    if b[0] == 'start':
        return float(r.start)
    if b[0] == 'stop':
        return float(r.start) + (r.n - 1) / r.rate
    k = b[2] % r.n
    if b[0] == 'sample':
        return float(r.start) + k / r.rate
    return float(r.start + (F(k) + F(b[3])) / F(r.rate))


def as_ids(ids):
    if isinstance(ids, list) and ids and ids[0] == 'slice':
        return slice(*ids[1:])
    return ids


def as_runs(sel, n):
    if isinstance(sel, list) and sel and sel[0] == 'slice':
        return slice(*sel[1:])
    if isinstance(sel, list) and sel and sel[0] == 'mask':
        return np.array([bool(sel[1] >> k & 1) for k in range(n)], bool)
    return sel


def as_key(op, nb_runs):
    key = [as_ids(op[2])] + [as_runs(x, nb_runs) for x in op[3:]]
    return tuple(key) if len(key) > 1 else key[0]


def wrap(s, n, tags, how):
    T = rzb.Tags(n, **tags)
    if how == 'or':
        return T | s
    if how == 'sync':
        return rzb.SignalSet(T, *s.signals)
    return rzb.SignalSet(tags if how == 'dict' and s.nb_runs else T, s)


def prepare(op, pool):
    """ -> (label, indices of the inputs, real callable, model callable) """
    k, i = op[0], op[1] % len(pool)
    s, m = pool[i]
    if k == 'chan':
        ids = as_ids(op[2])
        return f'select_channels({ids!r})', [i], lambda: s.select_channels(ids), lambda: m.channels(ids)
    if k == 'item':
        key = as_key(op, len(m.runs))

        def model():
            if isinstance(key, tuple):
                return m.channels(key[0]).select_runs(key[1])
            return m.channels(key)
        return f'[{key!r}]', [i], lambda: s[key], model
    if k == 'attr':
        def model():
            if op[2] not in m.tags:
                raise Refuse('no such tag')
            return m.channels(op[2])
        return f'attribute {op[2]}', [i], lambda: getattr(s, op[2]), model
    if k == 'untag':
        def model():
            if op[3] not in m.tags:
                raise Refuse('no such tag')
            return MSet({t: v for t, v in m.tags.items() if t != op[3]}, m.n, m.runs)
        return f'untag {op[2]} {op[3]}', [i], lambda: untag(s, *op[2:]), model
    if k == 'wrap':
        perm = random.Random(op[2]).sample(range(m.n), m.n)
        tags = {t: tuple(perm[c] for c in v) for t, v in m.tags.items()}

        def model():
            if op[3] == 'sync':     # runs without names: channels by position
                return MSet(tags, m.n, m.runs)
            if op[3] == 'dict' and {c for v in tags.values() for c in v} != set(range(m.n)):
                raise Unknown('channels without name')
            return m.retag(tags, m.n)
        return f'wrap {op[3]} {tags}', [i], lambda: wrap(s, m.n, tags, op[3]), model
    if k == 'piece':
        j = op[2] % max(1, len(m.runs))

        def real():
            r = s.signals[j]
            p = r.extract_t(a, b, op[6]) if op[3] == 't' else r.extract_i(a, b, op[6], op[7])
            return rzb.SignalSet(s.tags, p)

        def model():
            if not m.runs:
                raise Unknown('no run')
            r, n = m.runs[j], m.runs[j].n
            if op[3] == 't':
                if op[6]:
                    for t in (a, b):
                        if math.isinf(t):
                            raise Refuse('outside of the run')
                        tol = 3 * F(ulp(max(abs(t), abs(r.start), abs(r.stop))))
                        if not r.start - tol <= t <= r.stop + tol:
                            raise Refuse('outside of the run')
                        if not r.start + tol <= t <= r.stop - tol and F(t) not in (r.start, r.stop):
                            raise Unknown('at the end')
                x = 0 if a == -math.inf else n if a == math.inf else r.index(a, 'right')
                y = n - 1 if b == math.inf else -1 if b == -math.inf else r.index(b, 'left')
                if x >= n or y < 0:
                    raise Unknown('nothing left')
                x, y = max(x, 0), min(y, n - 1)
            else:
                x, y = a or 0, n if b is None else b + op[7]
                if op[6] and not (0 <= x < n and 0 <= y <= n):
                    raise Refuse('outside of the run')
                if x < 0:
                    x += n
                y = min(y, n) - 1
                if x < 0 or y < 0:
                    raise Unknown('nothing left')
            if y - x < 1:
                raise Unknown('less than two samples')
            return MSet(m.tags, m.n, [r.part(x, y)])
        if op[3] == 't':
            a, b = sorted([bound(m, op[4]), bound(m, op[5])])
        else:
            a, b = op[4], op[5]
        return f'run {j}, extract_{op[3]}({a!r}, {b!r}, {op[6:]})', [i], real, model
    if k == 'runs':
        sel = as_runs(op[2], len(m.runs))
        return f'select_runs({sel!r})', [i], lambda: s.select_runs(sel), lambda: m.select_runs(sel)
    if k in ('cut', 'excl'):
        a, b = bound(m, op[2]), bound(m, op[3])
        if a > b:
            a, b = b, a
        e = k == 'excl'
        return (f'extract_t({a!r}, {b!r}, exclude={e})', [i],
                lambda: s.extract_t(a, b, exclude=e), lambda: m.cut(a, b, e))
    if k == 'resplit':
        t = bound(m, op[2])
        swap = op[3]

        def real():
            x, y = s.extract_t(-math.inf, t), s.extract_t(t, math.inf)
            return (y.join(x) if swap else x | y)

        def model():
            x, y = m.cut(-math.inf, t), m.cut(t, math.inf)
            return y.join(x) if swap else x.join(y)
        return f'split at {t!r} and join', [i], real, model
    if k == 'consec':
        return 'merge_consecutive_runs', [i], s.merge_consecutive_runs, m.consecutive
    if k == 'renum':
        perm = random.Random(op[2]).sample(range(m.n), m.n)
        return (f'renumber {perm}', [i], lambda: renumber(s, m, perm)[0],
                lambda: renumber(s, m, perm)[1])
    if k == 'tag':
        how, name, value = op[2:]
        idx = tuple(value) if isinstance(value, list) else (value,)

        def model():
            if not m.runs:
                raise Unknown('no channels')
            if how == 'set' and any(c >= m.n for c in idx):
                raise Unknown('tags given anew')
            if not name[:1].isalpha() or not idx or any(not 0 <= c < m.n for c in idx):
                raise Refuse('bad tag')
            return MSet(dict(m.tags, **{name: idx}), m.n, m.runs)
        return f'tag {how} {name!r}={value}', [i], lambda: tag_it(s, how, name, value), model
    js = [j % len(pool) for j in op[2]]
    ss, ms = [pool[j][0] for j in js], [pool[j][1] for j in js]
    if k == 'join':
        if len(js) == 1 and op[1] % 2:
            return 'join |', [i] + js, lambda: s | ss[0], lambda: m.join(*ms)
        return 'join', [i] + js, lambda: s.join(*ss), lambda: m.join(*ms)
    if len(js) == 1 and op[1] % 2:
        return 'merge &', [i] + js, lambda: s & ss[0], lambda: m.merge(*ms)
    return 'merge', [i] + js, lambda: s.merge(*ss), lambda: m.merge(*ms)


# ----------------------------------------------------------------- inventories
def glob_match(pattern, name):
    """ '*', '?', '[seq]', '[!seq]' """
    if not pattern:
        return not name
    c = pattern[0]
    if c == '*':
        return any(glob_match(pattern[1:], name[i:]) for i in range(len(name) + 1))
    if not name:
        return False
    if c == '?':
        return glob_match(pattern[1:], name[1:])
    if c == '[' and ']' in pattern[2:]:
        j = pattern.index(']', 2)
        seq, neg = pattern[1:j], False
        if seq.startswith('!'):
            seq, neg = seq[1:], True
        return (name[0] in seq) != neg and glob_match(pattern[j + 1:], name[1:])
    return c == name[0] and glob_match(pattern[1:], name[1:])


class MInv:
    """ model of an inventory: a list of MSet """

    def __init__(self, sets):
        self.sets = list(sets)

    @property
    def tags(self):
        return {t for m in self.sets for t in m.tags}

    def filter(self, *patterns):
        return self.select(*{t for t in self.tags if any(glob_match(p, t) for p in patterns)})

    def select(self, *keys):
        out = []
        for m in self.sets:
            ks = [k for k in keys if k in m.tags]
            if ks:
                out.append(m.channels(ks))
        return MInv(out)

    def cut(self, t0, t1, exclude=False):
        out = [m.cut(t0, t1, exclude) for m in self.sets]
        return MInv([m for m in out if m.runs])

    def at_rate(self, rates):
        out = [m.select_runs([i for i, r in enumerate(m.runs) if r.rate in rates])
               if m.runs else m for m in self.sets]
        return MInv([m for m in out if m.runs])

    def uniform(self):
        """ every tag comes with the same companions in every set that has it,
        otherwise what to pack is not specified """
        seen = {}
        for m in self.sets:
            if any(len(set(v)) != len(v) for v in m.tags.values()):
                raise Unknown('a tag naming a channel twice')
            for t, v in m.tags.items():
                near = {(u, tuple(v.index(c) if c in v else -1 for c in w))
                        for u, w in m.tags.items() if set(w) & set(v)}
                if seen.setdefault(t, near) != near:
                    raise Unknown('tags grouped differently')

    def pack(self, keep_multi=True):
        """ one run by maximal piece common to all the tags, for each rate """
        self.uniform()
        inv = self
        if not keep_multi:
            single = {t for m in self.sets for t, v in m.tags.items() if len(v) == 1}
            names = {}
            for m in self.sets:
                for t, v in m.tags.items():
                    if len(v) == 1 and names.setdefault((id(m), v), t) != t:
                        raise Unknown('aliases')
            inv = MInv([MSet({t: v for t, v in m.tags.items() if t in single}, m.n, m.runs)
                        for m in self.sets if single & set(m.tags)])
        tags = sorted(inv.tags)
        rates = {r.rate for m in inv.sets for r in m.runs}
        ncol, at = 0, {}
        for t in tags:
            k = next(len(m.tags[t]) for m in inv.sets if t in m.tags)
            at[t] = tuple(range(ncol, ncol + k))
            ncol += k
        out = []
        for rate in rates:
            lacking = any(not any(t in m.tags and any(r.rate == rate for r in m.runs)
                                  for m in inv.sets) for t in tags)
            try:
                per_tag = []
                for t in tags:
                    runs = [MRun(r.rate, r.start, [r.cols[c] for c in m.tags[t]],
                                 [r.cals[c] for c in m.tags[t]])
                            for m in inv.sets if t in m.tags for r in m.runs if r.rate == rate]
                    if runs:
                        k = len(runs[0].cols)
                        per_tag.append(MSet({t: range(k)}, k, runs))
                if not per_tag:
                    continue
                both = per_tag[0].merge(*per_tag[1:])
            except (Refuse, Unknown):
                if lacking:
                    raise Unknown('trouble at a rate that is left out')
                raise
            if not lacking:
                out += both.runs
        return MSet(at, ncol, out).consecutive() if out else MSet({}, 0, [])


def by_tags(ctx, got, m, what, data=True, kind='wrong-pack', compute=None):
    """ compare through the names only, whatever the numbering of the channels """
    if set(got.tags) != set(m.tags):
        ctx.fail(kind, f'{what}: tags {sorted(got.tags)}, expected {sorted(m.tags)}')
    if got.nb_runs != len(m.runs):
        ctx.fail(kind, f'{what}: runs {got.intervals.tolist()} at {got.sampling_rates.tolist()}, '
                 f'expected {[[float(r.start), float(r.stop), r.rate] for r in m.runs]}')
    used = {c for t in got.tags for c in got.tags[t]}
    if used != set(range(got.nb_channels)):
        ctx.fail(kind, f'{what}: {got.nb_channels} channels, tags name {sorted(used)}')
    order, src = [], []
    for t in sorted(m.tags):
        if len(got.tags[t]) != len(m.tags[t]):
            ctx.fail(kind, f'{what}: tag {t} has {len(got.tags[t])} channels, '
                     f'expected {len(m.tags[t])}')
        order += got.tags[t]
        src += m.tags[t]
    for k, (s, r) in enumerate(zip(got.signals, m.runs)):
        if s.sampling_rate != r.rate or s.size != r.n:
            ctx.fail(kind, f'{what}: run {k}: {s.size} samples at {s.sampling_rate} Hz from '
                     f'{s.start!r}, expected {r.n} at {r.rate} from {float(r.start)!r}')
        for a, b, n in ((s.start, r.start, 'start'), (s.stop, r.stop, 'stop')):
            if abs(F(float(a)) - b) > 12 * F(ulp(max(abs(r.start), abs(r.stop)))):
                ctx.fail(kind, f'{what}: run {k} {n} {a!r}, expected {float(b)!r}')
        for c, d in zip(order, src):
            if s.calibrations[c](3.5) != r.cals[d]:
                ctx.fail('calibration', f'{what}: run {k} channel {c} has calibration '
                         f'{s.calibrations[c](3.5)!r}, expected {r.cals[d]!r}')
        if data:
            vals = (compute or (lambda a: boot.dask.compute(*a)))([s.data[c] for c in order])
            for v, d, c in zip(vals, src, order):
                ctx.equal(v, r.cols[d], f'{what}: run {k} channel {c}', 'wrong-samples')
    ctx.checks += 1
