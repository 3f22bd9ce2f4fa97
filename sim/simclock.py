"""The simulated clock.  Installed over time.time & co before the code under test is imported,
so every deadline in the system reads it.  Nothing sleeps for real."""
import time as _t

REAL = {n: getattr(_t, n) for n in ('time', 'monotonic', 'perf_counter', 'process_time', 'sleep',
                                    'time_ns', 'monotonic_ns', 'perf_counter_ns')}


class SimClock(object):
    def __init__(self, start=1000000.0):
        self.now = start
        self.total = 0.0
        self.reads = 0
        self.sleeps = 0

    def read(self):
        self.reads += 1
        return self.now

    def advance(self, dt):
        self.now += dt
        if dt > 0:
            self.total += dt

    def sleep(self, dt):
        self.sleeps += 1
        self.advance(max(0.0, dt))


CURRENT = None
BUSY = False


def _time():
    return CURRENT.read() if CURRENT is not None else REAL['time']()


def _mono():
    return CURRENT.read() if CURRENT is not None else REAL['monotonic']()


def _perf():
    return CURRENT.read() if CURRENT is not None else REAL['perf_counter']()


def _sleep(dt):
    if CURRENT is not None:
        CURRENT.sleep(dt)
    else:
        REAL['sleep'](dt)


def install():
    _t.time = _time
    _t.monotonic = _mono
    _t.perf_counter = _perf
    _t.sleep = _sleep
    _t.time_ns = lambda: int(_time() * 1e9)
    _t.monotonic_ns = lambda: int(_mono() * 1e9)
    _t.perf_counter_ns = lambda: int(_perf() * 1e9)


def start(at=1000000.0):
    global CURRENT
    CURRENT = SimClock(at)
    return CURRENT


def stop():
    global CURRENT
    CURRENT = None
