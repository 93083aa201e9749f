"""Closes the system: paths, scratch directory, controlled randomness, silenced output.

Must be imported before anything of the repository.  Every source of randomness the
repository uses (the functions of the stdlib module ``random``) is re-bound to one
object, ``RNG``, whose two primitives -- a float in [0,1) and an integer below n -- are
choice points decided by the explorer (mc.core)."""
import atexit
import collections
import os
import random
import shutil
import sys
import tempfile
import types
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
REPO = os.environ.get("EVOGIL_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = tempfile.mkdtemp(prefix="evogil-mc-")
_OWNER = os.getpid()


def _cleanup():
    if os.getpid() == _OWNER:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)

TOP = 1.0 - 2.0 ** -53


class Horizon(Exception):
    """Too many choice points in one execution."""


class ControlledRandom(random.Random):
    """random.Random whose primitives ask the current chooser."""

    chooser = None

    def random(self):
        return self.chooser.unit() if self.chooser else random.Random.random(self)

    def _randbelow(self, n):
        if self.chooser is None:
            return int(random.Random.random(self) * n)
        return self.chooser.below(n)

    def getrandbits(self, k):
        if self.chooser is None:
            return random.Random.getrandbits(self, k)
        return self.chooser.below(1 << k) if k <= 16 else int(self.chooser.unit() * (1 << k))

    def gauss(self, mu, sigma):
        # with no spread the draw cannot influence anything: no choice points
        if self.chooser is not None and sigma == 0:
            return mu
        return random.Random.gauss(self, mu, sigma)

    def seed(self, *a, **k):
        self.gauss_next = None
        if self.chooser is None:
            random.Random.seed(self, 1)

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        return random.Random.choices(self, population, weights, cum_weights=cum_weights, k=k)


RNG = ControlledRandom(1)


class NumpyRandomGuard:
    pass


def _install_random():
    for name in ("random", "uniform", "randint", "choice", "choices", "sample", "shuffle",
                 "randrange", "gauss", "normalvariate", "lognormvariate", "expovariate",
                 "vonmisesvariate", "gammavariate", "triangular", "betavariate",
                 "paretovariate", "weibullvariate", "getrandbits", "seed", "randbytes"):
        if hasattr(random, name):
            setattr(random, name, getattr(RNG, name))
    random._inst = RNG


def _install_scipy_stub():
    """NSLS needs scipy.spatial.distance.euclidean; scipy is not installed here."""
    try:
        import scipy.spatial.distance  # noqa
        return
    except Exception:
        pass
    import math

    def euclidean(a, b):
        return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))

    sc = types.ModuleType("scipy")
    sp = types.ModuleType("scipy.spatial")
    d = types.ModuleType("scipy.spatial.distance")
    d.euclidean = euclidean
    sc.spatial = sp
    sp.distance = d
    sys.modules.update({"scipy": sc, "scipy.spatial": sp, "scipy.spatial.distance": d})


def _silence_logging():
    import logging
    logging.disable(logging.CRITICAL)


_install_random()
_install_scipy_stub()
_silence_logging()
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.chdir(REPO)          # some problem modules read data files relative to the repository root
import numpy  # noqa  (before chdir to scratch)


def leave_repo():
    """After imports: nothing may be written into /repo by accident."""
    os.chdir(SCRATCH)


class Silence:
    """The repository prints a lot; keep it off stdout."""

    def __enter__(self):
        self.saved = sys.stdout
        sys.stdout = open(os.devnull, "w")
        return self

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.saved
        return False
