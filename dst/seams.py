"""The seams: every source of nondeterminism wampproto can reach is owned by the simulator.

install() must run before wampproto is imported. It replaces, inside this process only:
  * os.urandom / random._urandom (hence random.SystemRandom, secrets, uuid4)   -> World.entropy
  * the module level functions of `random` (Mersenne Twister)                  -> World.mt, biased to extreme draws
  * unseeded random.Random() objects, os.getrandom, nacl's random bytes                                    -> World.entropy
  * time.time, monotonic, perf_counter and the rest of `time` and `datetime` that reads a clock -> World.wall() and World.mono()
The harness itself keeps private references to the real clock (REAL_*) and uses its own random.Random objects.
"""

import datetime as _dt_mod
import hashlib
import os
import random as _random_mod
import sys
import time as _time_mod

REAL_PERF = _time_mod.perf_counter
REAL_TIME = _time_mod.time
REAL_URANDOM = os.urandom
REAL_DATETIME = _dt_mod.datetime
REAL_DATE = _dt_mod.date
Random = _random_mod.Random  # harness PRNG class

EPOCH = 1_700_000_000.0


class _World:
    """The current simulated environment of this process (one run = one reset)."""

    def __init__(self):
        self.reset(0)

    def reset(self, seed: int):
        self.seed = seed
        self.now = EPOCH  # time the scheduler has let pass
        self.skew = 0.0  # what the wall clock shows beside that
        self.idle = 0.0  # time that passed while nothing was scheduled
        self.frozen = False
        self.entropy_ctr = 0
        self.entropy_draws = 0
        self.entropy_bytes = 0
        self.mt_draws = 0
        self.extreme_p = 0.0
        self.extreme_entropy = False
        self.extreme_hits = 0
        self.mt = ExtremeRandom(seed ^ 0x5EED)
        self._ext = Random(seed ^ 0xE87)

    def wall(self) -> float:
        return self.now + self.skew

    def mono(self) -> float:
        return self.now - EPOCH + self.idle

    def jump(self, seconds: float):
        """Forward: nothing happens for that long. Back: the wall clock is set back, the monotonic one is not."""
        self.skew += seconds
        self.idle += max(0.0, seconds)

    def entropy(self, n: int) -> bytes:
        self.entropy_draws += 1
        self.entropy_bytes += n
        if self.extreme_entropy and self._ext.random() < self.extreme_p * 0.5:
            self.extreme_hits += 1
            return self._ext.choice([b"\0", b"\xff", b"\x80"]) * n
        out = b""
        while len(out) < n:
            self.entropy_ctr += 1
            out += hashlib.sha256(b"entropy/%d/%d" % (self.seed, self.entropy_ctr)).digest()
        return out[:n]


class ExtremeRandom(Random):
    """Mersenne Twister whose draws the simulator may replace by boundary values."""

    def random(self):
        w = WORLD
        if w is not None:
            w.mt_draws += 1
            if w.extreme_p and w._ext.random() < w.extreme_p:
                w.extreme_hits += 1
                return w._ext.choice([0.0, 2.0**-53, 0.5, 1.0 - 2.0**-53])
        return super().random()

    def getrandbits(self, k):
        w = WORLD
        if w is not None:
            w.mt_draws += 1
            if w.extreme_p and k > 0 and w._ext.random() < w.extreme_p:
                w.extreme_hits += 1
                return w._ext.choice([0, 1 % (1 << k), (1 << (k - 1)) - 1, (1 << (k - 1)) - 2 if k > 1 else 0])
        return super().getrandbits(k)


WORLD = None
WORLD = _World()


class _Stands(type):
    """Instances of the real class are instances of its stand-in."""

    def __instancecheck__(cls, x):
        return isinstance(x, cls.__mro__[1])


class SimDateTime(REAL_DATETIME, metaclass=_Stands):
    @classmethod
    def utcnow(cls):
        return REAL_DATETIME.fromtimestamp(WORLD.wall(), _dt_mod.timezone.utc).replace(tzinfo=None)

    @classmethod
    def now(cls, tz=None):
        base = REAL_DATETIME.fromtimestamp(WORLD.wall(), _dt_mod.timezone.utc)
        return base.astimezone(tz) if tz is not None else base.replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


class SimDate(REAL_DATE, metaclass=_Stands):
    @classmethod
    def today(cls):
        return SimDateTime.now().date()


class SeededRandom(Random):
    """random.Random: unseeded, it is seeded by the operating system, which here is the simulator."""

    def __new__(cls, *a, **k):
        return super().__new__(cls)

    def __init__(self, x=None):
        super().__init__(int.from_bytes(WORLD.entropy(16), "big") if x is None else x)

    def seed(self, a=None, version=2):
        super().seed(int.from_bytes(WORLD.entropy(16), "big") if a is None else a, version)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    assert "wampproto" not in sys.modules, "seams must be installed before wampproto is imported"
    # third party dependencies are loaded with the real environment
    import cbor2  # noqa: F401
    import msgpack  # noqa: F401
    import nacl.bindings.randombytes
    import nacl.public
    import nacl.secret
    import nacl.signing
    import nacl.utils
    import secrets  # noqa: F401
    import uuid  # noqa: F401

    def urandom(n):
        return WORLD.entropy(n)

    os.urandom = urandom
    _random_mod._urandom = urandom

    def dispatch(name):
        def f(*a, **k):
            return getattr(WORLD.mt, name)(*a, **k)

        f.__name__ = name
        return f

    for name in (
        "seed random uniform triangular randint choice randrange sample shuffle choices getrandbits randbytes "
        "normalvariate gauss expovariate getstate setstate betavariate"
    ).split():
        setattr(_random_mod, name, dispatch(name))

    _time_mod.time = lambda: WORLD.wall()
    _time_mod.time_ns = lambda: int(WORLD.wall() * 1e9)
    _time_mod.monotonic = _time_mod.perf_counter = lambda: WORLD.mono()
    _time_mod.monotonic_ns = _time_mod.perf_counter_ns = lambda: int(WORLD.mono() * 1e9)
    _dt_mod.datetime = SimDateTime
    _dt_mod.date = SimDate
    _time_mod.process_time = _time_mod.thread_time = _time_mod.monotonic
    _time_mod.process_time_ns = _time_mod.thread_time_ns = _time_mod.monotonic_ns
    _time_mod.clock_gettime = lambda clock: WORLD.wall() if clock == _time_mod.CLOCK_REALTIME else WORLD.mono()
    _time_mod.clock_gettime_ns = lambda clock: int(_time_mod.clock_gettime(clock) * 1e9)
    _time_mod.sleep = lambda s: WORLD.jump(s)

    def now_by_default(real):
        return lambda t=None: real(WORLD.wall() if t is None else t)

    _time_mod.gmtime, _time_mod.localtime = gmtime, localtime = now_by_default(_time_mod.gmtime), now_by_default(_time_mod.localtime)
    _time_mod.ctime = now_by_default(_time_mod.ctime)
    strftime, asctime = _time_mod.strftime, _time_mod.asctime
    _time_mod.strftime = lambda fmt, t=None: strftime(fmt, localtime() if t is None else t)
    _time_mod.asctime = lambda t=None: asctime(localtime() if t is None else t)

    os.getrandom = lambda n, flags=0: WORLD.entropy(n)
    for mod in (nacl.utils, nacl.bindings, nacl.bindings.randombytes, nacl.signing, nacl.public, nacl.secret):
        for name in ("random", "randombytes"):
            if callable(getattr(mod, name, None)):
                setattr(mod, name, WORLD_ENTROPY[name])
    _random_mod.Random = SeededRandom


WORLD_ENTROPY = {"random": lambda size=32: WORLD.entropy(size), "randombytes": lambda size: WORLD.entropy(size)}


def repo_path() -> str:
    return os.environ.get("VERIF_REPO", "/repo")


def import_wampproto():
    """Import the code under test from /repo's working tree, never from stale byte code."""
    sys.dont_write_bytecode = True
    install()
    root = repo_path()
    if root not in sys.path:
        sys.path.insert(0, root)
    import wampproto

    got = os.path.realpath(wampproto.__file__)
    want = os.path.realpath(os.path.join(root, "wampproto", "__init__.py"))
    assert got == want, (got, want)
    import wampproto.acceptor  # noqa: F401
    import wampproto.broker  # noqa: F401
    import wampproto.dealer  # noqa: F401
    import wampproto.joiner  # noqa: F401
    import wampproto.session  # noqa: F401
    import wampproto.transports.rawsocket  # noqa: F401
    import wampproto.serializers.payload  # noqa: F401

    return wampproto
