"""Objective functions: the client boundary of the system under test.

An Objective is a plain, deterministic function of the vector it is given.  Each call is recorded at the
boundary (before anything in mealpy sees the result), together with the epoch it happened in and, in process
mode, through an append-only file shared with the worker processes.
"""
import os
import pickle
import time
import zlib
import threading
import numpy as np


def _w(n):
    return 0.5 + (np.arange(n) % 7) / 7.0


def _c(n):
    # interior optimum, different per dimension, nowhere near 0 or the middle of the usual ranges
    return ((np.arange(n) * 37 % 11) - 5) * 0.35 + 0.123


def sphere(x):
    d = x - _c(len(x))
    return float(np.sum(_w(len(x)) * d * d))


def rastrigin(x):
    d = (x - _c(len(x)))
    return float(np.sum(d * d - 3.0 * np.cos(2 * np.pi * d) + 3.0))


def linear(x):
    return float(np.dot(_w(len(x)), x))


def const(x):
    return 3.25


def step(x):
    return float(np.sum(np.floor(np.abs(x - _c(len(x))) / 2.0)))


def negative(x):
    return -5000.0 + sphere(x)


def mixed(x):
    return sphere(x) - 50.0


def huge(x):
    return 1e9 * sphere(x) + 1e6


def tiny(x):
    return 1e-9 * sphere(x)


def asint(x):
    return int(np.floor(sphere(x)))


def np32(x):
    return np.float32(sphere(x))


def penalty(x):
    v = sphere(x)
    return v + (1e6 if x[0] > 0.5 else 0.0)


def aslist(x):
    return [sphere(x)]


def multi2(x):
    return [sphere(x), rastrigin(x) * 0.1]


def multi3(x):
    return np.array([sphere(x), linear(x), step(x)])


def multi2t(x):
    return (sphere(x), -linear(x))


def multi4(x):
    return [asint(x), np.float32(0.25), -rastrigin(x), np.int64(3)]


def multi6(x):
    return np.array([[sphere(x), -1.0, 2.5], [linear(x), step(x), 0.0]])


def intarr(x):
    return np.array([asint(x), -7])


def arr1(x):
    return np.array([sphere(x)])


def arr0(x):
    return np.array(sphere(x))


def tup1(x):
    return (sphere(x),)


def np64(x):
    return np.float64(sphere(x))


def npint(x):
    return np.int64(asint(x))


def big2(x):
    return [1e12 + sphere(x), -1e12]


def maxabs(x):
    return float(np.max(np.abs(x - _c(len(x)))))


def edge(x):
    """Best value on the boundary of the box."""
    return float(-np.sum(np.abs(x)))


def zero_at_origin(x):
    return float(np.sum(np.square(x)))


FUNCS = {f.__name__: f for f in (sphere, rastrigin, linear, const, step, negative, mixed, huge, tiny, asint, np32,
                                 penalty, aslist, multi2, multi3, maxabs, edge, zero_at_origin, multi2t, multi4, multi6, intarr, arr1, arr0, tup1,
                                 np64, npint, big2)}
N_OBJS = {"multi2": 2, "multi3": 3, "multi2t": 2, "multi4": 4, "multi6": 6, "intarr": 2, "big2": 2}


class InjectedFault(Exception):
    """Raised by the objective on purpose (fault injection)."""


class Objective:
    def __init__(self, name, sign=1.0, delay=0.0, fail_at=None, log_path=None, budget=None, clock=None):
        self.name, self.sign, self.delay, self.fail_at = name, sign, delay, fail_at
        self.log_path = log_path
        self.budget = budget
        self.clock = clock            # (VirtualClock, seconds per call) or None
        self.owner = os.getpid()
        self.lock = threading.Lock()
        self.evals = []               # list of (x copy, objs, phase)
        self.phase = 0                # 0 = before the first epoch, k = during epoch k
        self.inflight = 0
        self.max_inflight = 0
        self.bad_type = []

    def __getstate__(self):
        d = dict(self.__dict__)
        d["lock"], d["evals"], d["bad_type"], d["clock"] = None, None, None, None
        return d

    def __setstate__(self, d):
        self.__dict__.update(d)
        self.lock = threading.Lock()
        self.evals, self.bad_type = [], []

    def pure(self, x):
        v = FUNCS[self.name](np.asarray(x, dtype=float))
        if self.sign == 1.0:
            return v
        if isinstance(v, (list, tuple)):
            return type(v)(-k for k in v)
        return -v

    def __call__(self, x):
        if os.getpid() != self.owner:
            return self._call_remote(x)
        with self.lock:
            self.inflight += 1
            self.max_inflight = max(self.max_inflight, self.inflight)
            n = len(self.evals)
            xc = np.array(x, copy=True)
            rec = [xc, None, self.phase]
            self.evals.append(rec)
            if not isinstance(x, np.ndarray):
                self.bad_type.append(type(x).__name__)
            if self.clock is not None:
                self.clock[0].advance(self.clock[1])
        try:
            if self.budget is not None and n > self.budget:
                raise BudgetExceeded(f"more than {self.budget} objective calls")
            if self.fail_at is not None and n + 1 == self.fail_at:
                raise InjectedFault(f"injected at evaluation {n + 1}")
            if self.delay:
                h = zlib.crc32(xc.tobytes()) & 0xffff
                time.sleep(self.delay * (h / 65535.0))
            v = self.pure(xc)
            rec[1] = v
            return v
        finally:
            with self.lock:
                self.inflight -= 1

    def _call_remote(self, x):
        xc = np.array(x, copy=True)
        if self.delay:
            time.sleep(self.delay * ((zlib.crc32(xc.tobytes()) & 0xffff) / 65535.0))
        fault = None
        v = None
        if self.fail_at is not None:
            # exactly one worker wins the marker file for the n-th evaluation
            try:
                size = os.path.getsize(self.log_path)
            except OSError:
                size = 0
            if size >= self.fail_at * 64:
                fault = InjectedFault("injected in worker process")
        if fault is None:
            v = self.pure(xc)
        if self.log_path:
            blob = pickle.dumps((xc, v, os.getpid()))
            fd = os.open(self.log_path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
            try:
                os.write(fd, len(blob).to_bytes(4, "little") + blob)
            finally:
                os.close(fd)
        if fault is not None:
            raise fault
        return v

    def collect_remote(self):
        """Append the evaluations that happened in worker processes to the record."""
        out = []
        if self.log_path and os.path.exists(self.log_path):
            data = open(self.log_path, "rb").read()
            i = 0
            while i + 4 <= len(data):
                n = int.from_bytes(data[i:i + 4], "little")
                out.append(pickle.loads(data[i + 4:i + 4 + n]))
                i += 4 + n
        return out


class BudgetExceeded(Exception):
    """The run used far more evaluations than any epoch structure explains (possible endless loop)."""
