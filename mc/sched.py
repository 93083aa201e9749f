"""Controlled execution of rx "new thread" work.

The repository runs islands and tree nodes through rx's NewThreadScheduler and blocks in
Observable.run().  Here every such piece of work is a task of one controller: by default
tasks run to completion in the order they were created; with `CTRL.explore(pick)` the next
task to run, and every preemption at a `CTRL.point()` (objective evaluations, random draws),
is a choice of the explorer."""
import contextlib

import greenlet
import rx.core.run as rx_run
from rx.disposable import Disposable
from rx.internal.exceptions import SequenceContainsNoElementsError
from rx.scheduler import NewThreadScheduler
from rx.scheduler import currentthreadscheduler as cts
from rx.scheduler.trampoline import Trampoline


class Deadlock(Exception):
    """Observable.run() waits, nothing is left to run."""


class Task:
    n = 0

    def __init__(self, fn, name):
        self.fn, self.name = fn, name
        self.cancelled = False
        self.tramp = Trampoline()
        self.glet = None
        self.error = None


class Controller:
    def __init__(self):
        self.reset()

    def reset(self):
        self.queue = []
        self.current = None
        self.root_tramp = Trampoline()
        self.pick = None
        self.preempt_left = 0
        self.created = 0
        self.switches = 0
        self.last = None

    # -- trampolines of "threads"
    @property
    def tramp(self):
        return self.current.tramp if self.current else self.root_tramp

    @tramp.setter
    def tramp(self, t):
        if self.current:
            self.current.tramp = t
        else:
            self.root_tramp = t

    def spawn(self, fn):
        t = Task(fn, self.created)
        self.created += 1
        self.queue.append(t)
        return t

    @contextlib.contextmanager
    def explore(self, pick, preemptions):
        """pick(n): choice among n; at most `preemptions` switches away from a task that
        could have gone on"""
        self.reset()
        self.pick, self.preempt_left = pick, preemptions
        try:
            yield self
        finally:
            self.reset()

    def point(self):
        """a place where the current task may be preempted"""
        if self.pick is None or self.current is None or self.preempt_left <= 0:
            return
        if not self.queue:
            return
        if self.pick(2):
            self.preempt_left -= 1
            self.switches += 1
            self.queue.append(self.current)
            greenlet.getcurrent().parent.switch()

    def run_one(self):
        """runs one task until it ends or is preempted"""
        if not self.queue:
            raise Deadlock("blocked in run() with no runnable work")
        i = 0
        if self.pick is not None and len(self.queue) > 1:
            cand = [t for t in self.queue if t is not self.last] if self.last in self.queue else self.queue
            j = self.pick(len(cand))
            i = self.queue.index(cand[j])
        t = self.queue.pop(i)
        if t.cancelled:
            return
        saved, self.current = self.current, t
        try:
            if self.pick is None:
                t.fn()
                return
            if t.glet is None:
                def body():
                    try:
                        t.fn()
                    except BaseException as e:  # noqa
                        t.error = e
                t.glet = greenlet.greenlet(body)
            t.glet.parent = greenlet.getcurrent()
            t.glet.switch()
            self.last = t if not t.glet.dead else None
            if t.error is not None:
                raise t.error
        finally:
            self.current = saved


CTRL = Controller()


class _Tramps:
    @property
    def tramp(self):
        return CTRL.tramp

    @tramp.setter
    def tramp(self, t):
        CTRL.tramp = t


def _schedule(self, action, state=None):
    holder = []

    def go():
        d = action(self, state)
        if d is not None:
            holder.append(d)

    t = CTRL.spawn(go)

    def dispose():
        t.cancelled = True
    return Disposable(dispose)


def _run(source):
    box = {"done": False, "has": False, "res": None, "exc": None}

    def on_next(v):
        box["res"], box["has"] = v, True

    def on_error(e):
        box["exc"], box["done"] = e, True

    def on_completed():
        box["done"] = True

    source.subscribe_(on_next, on_error, on_completed, scheduler=rx_run.scheduler)
    while not box["done"]:
        CTRL.run_one()
    if box["exc"] is not None and isinstance(box["exc"], Exception):
        raise box["exc"]
    if not box["has"]:
        raise SequenceContainsNoElementsError
    return box["res"]


_saved = {}


def install():
    if _saved:
        return
    _saved.update(schedule=NewThreadScheduler.schedule, run=rx_run.run,
                  local=cts.CurrentThreadSchedulerSingleton._local)
    NewThreadScheduler.schedule = _schedule
    rx_run.run = _run
    cts.CurrentThreadSchedulerSingleton._local = _Tramps()


def uninstall():
    if not _saved:
        return
    NewThreadScheduler.schedule = _saved["schedule"]
    rx_run.run = _saved["run"]
    cts.CurrentThreadSchedulerSingleton._local = _saved["local"]
    _saved.clear()
