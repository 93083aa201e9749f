"""Closed runs of the simulation layer: a scripted driver, a controlled clock, a scratch store."""
import contextlib
import itertools
import logging
import os
import pickle
import random
import shutil
import sys
import tempfile
import time

from mc import env
from mc import sched  # noqa: F401  (controlled rx)
from algorithms.base.driver import Driver
from simulation import factory, log_helper, worker
from simulation.model import SimulationCase

sched.install()


class Clock:
    def __init__(self, t=1000.0):
        self.t = t

    def __call__(self):
        return self.t


_references = {}


def references(original):
    """(module, name) of every reference the repository's modules and the defining module hold"""
    key = id(original), len(sys.modules)
    if key not in _references:
        found = []
        for mod in list(sys.modules.values()):
            where = getattr(mod, "__file__", None) or ""
            home = mod.__name__ == getattr(original, "__module__", None) or mod in (random, time)
            if home or where.startswith(env.REPO + os.sep):
                found += [(mod, name) for name, value in list(vars(mod).items()) if value is original]
        _references[key] = original, found
    return _references[key][1]


@contextlib.contextmanager
def replaced(*pairs):
    """every reference to each original is replaced, under whatever name it was imported"""
    undo = []
    for original, new in pairs:
        for mod, name in references(original):
            undo.append((mod, name, original))
            setattr(mod, name, new)
    try:
        yield
    finally:
        for mod, name, value in undo:
            setattr(mod, name, value)


def controlled_clock(clock):
    pairs = []
    for n in ("time", "monotonic", "perf_counter"):
        pairs += [(getattr(time, n), clock), (getattr(time, n + "_ns"), lambda: int(clock() * 10 ** 9))]
    return replaced(*pairs)


class Boom(Exception):
    pass


class Script:
    """what a simulation does"""

    def __init__(self, increments=(), first=0, cost0=0, fail=None, exc=Boom, clock=None, durations=(), overhead=0.0,
                 later=None, tail=1):
        self.increments, self.cost0, self.fail, self.exc = list(increments), cost0, fail, exc
        self.clock, self.durations, self.overhead = clock, list(durations), overhead
        self.tail = tail
        self.log = []                 # everything that happened, in order

    def raise_if(self, *what):
        if self.fail == what or self.fail == list(what):
            self.log.append(("raise",) + what)
            raise self.exc("scripted failure %r" % (what,))


class ScriptedDriver(Driver):
    LIMIT = 3000
    """population after k steps: [[k, 0.5], [-k, 1.5], [k, 0.5]], cost: sum of the increments so far"""

    def __init__(self, script, *args, **kwargs):
        script.raise_if("construct")
        super().__init__(*args, **kwargs)
        self.script = script
        self.cost = script.cost0
        self.k = 0
        self.finals = 0
        self.live = None
        script.log.append(("constructed",))

    def step(self):
        s = self.script
        if self.k > self.LIMIT:
            raise env.Horizon("the driver is stepped more than %d times" % self.LIMIT)
        s.raise_if("step", self.k)
        if s.clock is not None:
            d = s.durations[self.k] if self.k < len(s.durations) else s.tail
            s.clock.t += d
        self.cost += s.increments[self.k] if self.k < len(s.increments) else s.tail
        self.k += 1
        s.log.append(("step", self.k, self.cost))

    def finalized_population(self):
        s = self.script
        self.finals += 1
        s.raise_if("final", self.finals)
        s.log.append(("final", self.k))
        if s.clock is not None:
            s.clock.t += s.overhead
        return population(self.k)

    def shutdown(self):
        self.script.log.append(("shutdown",))


def population(k):
    return [[float(k), 0.5], [-float(k), 1.5], [float(k), 0.5]]


def f1(x):
    return x[0] * 2 + x[1]


def f2(x):
    return x[1] - x[0]


class Problem:
    fitnesses = [f1, f2]
    dims = [(-1000.0, 1000.0), (0.0, 2.0)]
    pareto_front = [[0.0, 0.0]]


def fits(pop):
    return [[f1(x), f2(x)] for x in pop]


@contextlib.contextmanager
def scripted(table):
    """table: (problem, algorithm) -> Script or callable raising"""
    def prepare(algo, problem):
        s = table[(problem, algo)]
        s.log.append(("prepare",))
        s.raise_if("prepare")
        return (lambda *a, **k: ScriptedDriver(s, *a, **k)), Problem

    with replaced((factory.prepare, prepare), (log_helper.init, lambda *a, **k: None)):
        yield


@contextlib.contextmanager
def store_dir():
    d = tempfile.mkdtemp(dir=env.SCRATCH)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def case(d, problem="P", algo="A", run_id=0, **params):
    return SimulationCase(problem, algo, run_id, None, d, **params)


def stored(sim):
    """name -> Result for every file in the simulation's directory, by plain unpickling"""
    path = os.path.join(sim.results_dir, sim.problem_name, sim.algorithm_name, sim.id)
    out = {}
    if os.path.isdir(path):
        for n in sorted(os.listdir(path)):
            with open(os.path.join(path, n), "rb") as fh:
                out[n] = pickle.load(fh)
    return out


def compositions(total, parts):
    for c in itertools.product(parts, repeat=total):
        yield c
