"""Loaded before anything else: the time functions are replaced by ones that ask the clock in force, so that code which
binds them when it is imported (from time import sleep) runs in virtual time as well."""
import threading as _threading
import time as _time

REAL_SLEEP, REAL_TIME, REAL_MONO = _time.sleep, _time.time, _time.monotonic


class _Slot:
    """What is in force for the process, or for the thread alone once it works by itself."""

    def __init__(self):
        self.shared, self.own = None, _threading.local()

    def __getitem__(self, i):
        return self.own.__dict__.get("value", self.shared)

    def __setitem__(self, i, value):
        if "value" in self.own.__dict__:
            self.own.value = value
        else:
            self.shared = value

    def separate(self, value=None):
        self.own.value = value

    def join(self):
        self.own.__dict__.pop("value", None)


clock = _Slot()
hosts = _Slot()
hosts[0] = {}


def _sleep(secs):
    c = clock[0]
    return REAL_SLEEP(secs) if c is None else c.sleep(secs)


def _now():
    c = clock[0]
    return REAL_TIME() + (0 if c is None else c.skew)


def _mono():
    c = clock[0]
    return REAL_MONO() + (0 if c is None else c.skew)


_time.sleep, _time.time, _time.monotonic = _sleep, _now, _mono
