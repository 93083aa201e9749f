"""A controlled actor system: the repository's real actors, messages copied on sending (they
live in different processes), in order per pair of actors, delivered when the explorer says.

Must be imported before anything that imports thespian's ActorSystem."""
import copy

import thespian.actors
from rx.scheduler import currentthreadscheduler as cts
from rx.scheduler.trampoline import Trampoline

_current = []


class Stuck(Exception):
    """A question was asked, and nothing is left to deliver."""


class Address(thespian.actors.ActorAddress):
    """compared by what it denotes, not hashable (like the real one)"""

    @property
    def name(self):
        return self.addressDetails

    def __deepcopy__(self, memo):
        return Address(self.name)

    __repr__ = thespian.actors.ActorAddress.__str__
    __hash__ = None


class Ref:
    def __init__(self, system, address):
        self.system, self.address, self.globalName = system, address, None

    def actor_send(self, target, msg):
        self.system.put(self.address.name, target.name, msg)

    def createActor(self, cls, *a, **k):
        return self.system.create(cls, self.address.name)


class System:
    def __init__(self, choose):
        """choose(system, channels): the channel to deliver from; channels oldest message first"""
        self.choose = choose
        self.actors = {}
        self.channels = {}          # (src, dst) -> [(seq, message, moment it was sent)]
        self.seq = 0
        self.asked = 0              # questions asked so far
        self.delivered = 0
        self.sent_at = None         # moment the message being processed was sent
        self.moment = 0             # set by the harness
        self.exited = []
        self.trace = []

    def create(self, cls, by):
        name = "%s%d" % (cls.__name__, len(self.actors))
        a = cls()
        a._myRef = Ref(self, Address(name))
        self.actors[name] = a
        return a._myRef.address

    def put(self, src, dst, msg):
        self.channels.setdefault((src, dst), []).append((self.seq, copy.deepcopy(msg), self.moment))
        self.seq += 1

    def enabled(self):
        return sorted((c for c, q in self.channels.items() if q), key=lambda c: self.channels[c][0][0])

    def deliver(self, c):
        _, msg, sent = self.channels[c].pop(0)
        self.delivered += 1
        if c[1] == "external":
            return msg
        a = self.actors[c[1]]
        if isinstance(msg, thespian.actors.ActorExitRequest):
            self.exited.append(c[1])
            return None
        saved, self.sent_at = self.sent_at, sent
        # an actor is a process of its own: rx work of whoever asked does not hold up its work
        here = cts.CurrentThreadSchedulerSingleton._local
        tramp, here.tramp = here.tramp, Trampoline()
        try:
            a.receiveMessage(msg, self.actors[c[0]]._myRef.address if c[0] in self.actors else Address(c[0]))
        finally:
            self.sent_at = saved
            here.tramp = tramp
        return None

    def step(self):
        en = self.enabled()
        c = self.choose(self, en)
        msg = self.deliver(c)
        return c, msg

    # -- what the repository calls
    def createActor(self, cls, *a, **k):
        return self.create(cls, "external")

    def ask(self, address, msg, timeout=None):
        self.asked += 1
        self.put("external", address.name, msg)
        while True:
            if not self.enabled():
                raise Stuck("question %d is never answered" % self.asked)
            c, m = self.step()
            if c[1] == "external":
                return m

    def tell(self, address, msg):
        self.put("external", address.name, msg)

    def listen(self, timeout=None):
        while self.enabled():
            c, m = self.step()
            if c[1] == "external":
                return m
        return None

    def shutdown(self):
        pass

    def drain(self):
        """delivers everything; messages that reached the outside"""
        out = []
        while self.enabled():
            c, m = self.step()
            if c[1] == "external":
                out.append(m)
        return out


def ActorSystem(*a, **k):
    return _current[-1]


thespian.actors.ActorSystem = ActorSystem


class running:
    def __init__(self, system):
        self.system = system

    def __enter__(self):
        _current.append(self.system)
        return self.system

    def __exit__(self, *a):
        _current.pop()
        return False


# ---------------------------------------------------------------- delivery orders


def fifo(system, en):
    return en[0]


def lifo(system, en):
    return max(en, key=lambda c: system.channels[c][0][0])


def slow(channels):
    """oldest first, but these (source, destination) channels only when nothing else is left"""
    def choose(system, en):
        fast = [c for c in en if c not in channels and ("*", c[1]) not in channels and (c[0], "*") not in channels]
        return (fast or en)[0]
    return choose


class SleepSets:
    """All orders of delivery, up to commuting deliveries to different actors, within the
    questions of `window`; oldest first elsewhere.  Stateless: run(choose) is repeated."""

    def __init__(self, window, budget=None):
        self.window, self.budget = window, budget
        self.runs = self.blocked = self.points = 0
        self.capped = False

    class Blocked(BaseException):
        pass

    def explore(self, run):
        stack = []          # frames: sleep set, deliveries done, current delivery, alternatives
        while True:
            if self.budget is not None and self.runs + self.blocked >= self.budget:
                self.capped = True
                return
            depth = [0]

            def choose(system, en):
                if system.asked not in self.window:
                    return en[0]
                i = depth[0]
                depth[0] += 1
                if i < len(stack):
                    return stack[i]["now"]
                sleep = set()
                if i:
                    p = stack[i - 1]
                    sleep = {c for c in p["sleep"] | set(p["done"]) if c[1] != p["now"][1]}
                free = [c for c in en if c not in sleep]
                if not free:
                    raise self.Blocked()
                stack.append({"sleep": sleep, "done": [], "now": free[0], "free": free})
                self.points += 1
                return free[0]

            try:
                res = run(choose)
                self.runs += 1
                yield res
            except self.Blocked:
                self.blocked += 1
            while stack:
                f = stack[-1]
                f["done"].append(f["now"])
                rest = [c for c in f["free"] if c not in f["done"]]
                if rest:
                    f["now"] = rest[0]
                    break
                stack.pop()
            if not stack:
                return
