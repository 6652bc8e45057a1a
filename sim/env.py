"""Clock and randomness seams. Outside a simulated run the real functions are used; inside one the clock is simulated
(it stands still except for sleeps and a small seeded advance) and random tokens come from a seeded generator."""
import os
import random
import secrets
import time
import uuid

_rng = None
_now = 0.0
_step = None
_real = {}


def start(seed):
    global _rng, _now, _step
    _rng = random.Random(f"env/{seed}")
    _step = random.Random(f"clock/{seed}")
    _now = 1_700_000_000.0
    random.seed(seed)


def stop():
    global _rng
    _rng = None


def _time():
    global _now
    if _rng is None:
        return _real["time"]()
    # coarse clock: it mostly stands still, as coarse clocks do, and sometimes moves
    if _step.random() < 0.1:
        _now += _step.choice([1e-6, 1e-3, 0.5, 30.0])
    return _now


def _monotonic():
    return _real["monotonic"]() if _rng is None else _time() - 1_600_000_000.0


def _sleep(s):
    global _now
    if _rng is None:
        return _real["sleep"](s)
    _now += s
    from . import sched
    sched.seam_point()


def _bytes(n=None):
    n = 32 if n is None else n
    return _real["token_bytes"](n) if _rng is None else _rng.randbytes(n)


def install():
    _real.update(time=time.time, monotonic=time.monotonic, sleep=time.sleep, token_bytes=secrets.token_bytes, uuid4=uuid.uuid4,
                 urandom=os.urandom)
    time.time = _time
    time.time_ns = lambda: int(_time() * 1e9)
    real_perf = time.perf_counter
    time.perf_counter = lambda: real_perf() if _rng is None else _monotonic()
    real_mono = time.monotonic
    time.monotonic = lambda: real_mono() if _rng is None else _monotonic()
    time.sleep = _sleep
    secrets.token_bytes = _bytes
    secrets.token_hex = lambda n=None: _bytes(n).hex()
    real_url = secrets.token_urlsafe
    secrets.token_urlsafe = lambda n=None: real_url(n) if _rng is None else _bytes(n).hex()
    uuid.uuid4 = lambda: _real["uuid4"]() if _rng is None else uuid.UUID(bytes=_rng.randbytes(16), version=4)
    uuid.uuid1 = uuid.uuid4
