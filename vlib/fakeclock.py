"""Deterministic clock: must be imported before sporco."""
import time
import timeit


class Clock(object):
    now = 0.0

    def __call__(self):
        return self.now


CLOCK = Clock()
timeit.default_timer = CLOCK
time.perf_counter = CLOCK


def install(*mods):
    """Replace timer references already bound in modules."""
    for m in mods:
        if hasattr(m, 'timer') and callable(getattr(m, 'timer')):
            m.timer = CLOCK
