""" A simulated clock of the machine: `time` and `datetime` tell what the run wants.

Installed before razorback is imported, in the interpreters that ask for it
(RZSIM_CLOCK=1). The time goes on with each question, and jumps when a seeded
schedule says so: corrections of some milliseconds, hours, or years, both ways.
"""
import datetime
import random
import time

REAL = {n: getattr(time, n) for n in (
    'time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter', 'perf_counter_ns',
    'process_time', 'localtime', 'gmtime', 'strftime', 'ctime')}
RealDatetime = datetime.datetime


class Clock:
    def __init__(self):
        self.wall, self.mono, self.rng, self.asked = 1.6e9, 100., None, 0
        self.rate = 0.

    def reset(self, base, seed, rate):
        self.wall, self.mono, self.rng, self.asked = base, 100. + seed % 1000, random.Random(seed), 0
        self.rate = rate

    def tick(self):
        self.asked += 1
        self.mono += 1e-4
        self.wall += 1e-4
        if self.rng and self.rng.random() < self.rate:
            self.wall += self.rng.choice([-1, 1]) * self.rng.choice([.01, 1., 3600., 86400., 3.2e7])
            self.mono += self.rng.choice([0, 1e-3, 3600.])
            self.wall = min(4e9, max(1e6, self.wall))

    def time(self):
        self.tick()
        return self.wall

    def monotonic(self):
        self.tick()
        return self.mono


CLOCK = Clock()


def install():
    c = CLOCK
    time.time = c.time
    time.time_ns = lambda: int(c.time() * 1e9)
    time.monotonic = time.perf_counter = time.process_time = c.monotonic
    time.monotonic_ns = time.perf_counter_ns = lambda: int(c.monotonic() * 1e9)
    time.localtime = lambda s=None: REAL['localtime'](c.time() if s is None else s)
    time.gmtime = lambda s=None: REAL['gmtime'](c.time() if s is None else s)
    time.ctime = lambda s=None: REAL['ctime'](c.time() if s is None else s)
    time.strftime = lambda f, t=None: REAL['strftime'](f, time.localtime() if t is None else t)

    class datetime_(RealDatetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(c.time(), tz)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(c.time(), datetime.timezone.utc).replace(tzinfo=None)
    datetime_.__name__ = datetime_.__qualname__ = 'datetime'
    datetime.datetime = datetime_
