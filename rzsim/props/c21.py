""" C21: results do not depend on the clock, time zone or environment of the machine. """
import os
import random
import time

from .. import peer, simclock
from . import c17

ID = 'C21'
SHRINK = c17.SHRINK
PEERS = None
COMMON = dict(PYTHONHASHSEED='0', RZSIM_CLOCK='1')
# (POSIX rules: no time zone data base is needed)
SETUPS = {
    'utc': dict(TZ='UTC0'),
    'east': dict(TZ='IST-5:30', LANG='C', COLUMNS='40', HOME='/nonexistent', USER='a'),
    'west': dict(TZ='EST5EDT,M3.2.0,M11.1.0', LC_ALL='C.UTF-8', COLUMNS='200', TMPDIR='/dev/shm'),
    'south': dict(TZ='NZST-12NZDT,M9.5.0,M4.1.0/3', LANG='POSIX', HOME='/', USER='b'),
}


def start(base):
    global PEERS
    PEERS = peer.Peers(ID, base)
    PEERS.start(list(SETUPS), {k: dict(COMMON, **v) for k, v in SETUPS.items()})
    return PEERS.stop


def gen(rng, tier):
    w = c17.gen(rng, tier)
    del w['hashseeds']
    w['machines'] = rng.sample(sorted(SETUPS), 2)
    w['clocks'] = [[rng.choice([1e6, 1.2e9, 1.7e9, 2.2e9, 4e9]) + rng.random(), rng.randrange(1 << 20),
                    rng.choice([0, .1, .5])] for _ in range(2)]
    w['times'] = [rng.randrange(1 << 20) for _ in range(2)]
    return w


def run(ctx):
    w = ctx.w
    two = w['machines']
    c17.compare(ctx, PEERS, two, 'machine', 'machine-dependent', lambda h: dict(
        clock=w['clocks'][two.index(h)], mtimes=w['times'][two.index(h)],
        umask=[0o22, 0o77][two.index(h)]))


def observe(ctx, out):
    w = ctx.w
    time.tzset()
    os.umask(w['umask'])
    simclock.CLOCK.reset(*w['clock'])
    rng = random.Random(w['mtimes'])
    write = ctx.write

    def dated(rel, data):       # files were made at any time
        p = write(rel, data)
        t = rng.choice([1e6, 1.3e9, 1.7e9, 4e9]) + rng.random() * 1e6
        os.utime(p, (t, t))
        return p
    ctx.write = dated
    n0 = simclock.CLOCK.asked
    c17.observe(ctx, out)
    ctx.probe('questions to the clock', simclock.CLOCK.asked - n0)
