"""A virtual clock: time.sleep() only advances time.time()."""
import time

real_time, real_sleep = time.time, time.sleep
state = {'offset': 0.0, 'now': None, 'slept': 0.0}


def now():
    if state['now'] is not None:
        return state['now']
    return real_time() + state['offset']


def sleep(seconds):
    state['slept'] += seconds
    if state['now'] is not None:
        state['now'] += max(0, seconds)
    else:
        state['offset'] += max(0, seconds)


def install(start=None):
    """start: a fixed time; None follows the real clock plus all sleeps."""
    state.update(offset=0.0, now=start, slept=0.0)
    time.time, time.sleep = now, sleep


def set_time(t):
    state['now'] = t
