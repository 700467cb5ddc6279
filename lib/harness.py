"""Driver-side helpers: run the real code, record events for the TLA+ trace specs."""
import npbridge  # noqa: F401  (must precede torch)
import contextlib, io, json, os, random, signal, sys, time, traceback
import numpy as np
import torch

torch.set_num_threads(int(os.environ.get("VERIF_THREADS", "1")))
BIG = 1 << 30          # sentinel: "not representable / not on the grid"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


def rng(*salt):
    return random.Random("%d|%s" % (SEED, "|".join(map(str, salt))))


def q1(v, scale, tol=0.02):
    """float -> integer numerator over scale; BIG when it is not (nearly) one."""
    v = float(v) * scale
    if v != v or abs(v) > (1 << 29):
        return BIG
    r = round(v)
    return int(r) if abs(v - r) <= tol else BIG


def q(t, scale, tol=0.02):
    """nested list of exact integer numerators of a tensor/array"""
    if isinstance(t, torch.Tensor):
        t = t.detach().cpu().to(torch.float64).numpy()
    a = np.asarray(t, dtype=np.float64) * scale
    bad = ~np.isfinite(a)
    a = np.where(bad, 0.0, a)
    r = np.rint(a)
    bad |= (np.abs(a - r) > tol) | (np.abs(r) > (1 << 29))
    r = np.where(bad, BIG, r)
    return r.astype(np.int64).tolist()


def qa(t, scale, lim=1 << 24):
    """approximate quantisation (rounding), saturated; NaN -> BIG"""
    if isinstance(t, torch.Tensor):
        t = t.detach().cpu().to(torch.float64).numpy()
    a = np.asarray(t, dtype=np.float64) * scale
    nan = ~np.isfinite(a)
    a = np.clip(np.where(nan, 0.0, a), -lim, lim)
    r = np.where(nan, BIG, np.rint(a))
    return r.astype(np.int64).tolist()


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


class Hang(BaseException):
    pass


class Launched(Exception):
    """the code under test tried to start a process where it should not"""


HANGS = []


def contain():
    """the code under test starts no processes and does not end this one (git, which it asks for a hash, excepted)"""
    import subprocess
    popen, system = subprocess.Popen, os.system

    class Popen(popen):
        def __init__(self, args, *a, **k):
            first = args.split()[0] if isinstance(args, str) else str(list(args)[0])
            if os.path.basename(first) not in ("git", "fc-list"):
                raise Launched("started %r" % (args,))
            super().__init__(args, *a, **k)
    subprocess.Popen = Popen

    def refuse(name):
        def f(*a, **k):
            raise Launched("%s%r" % (name, a[:1]))
        return f
    for name in dir(os):
        if name.startswith(("exec", "spawn", "posix_spawn")) or name in ("fork", "forkpty", "kill", "killpg", "popen"):
            setattr(os, name, refuse(name))

    def left(code=0):
        raise SystemExit("os._exit(%r)" % (code,))
    os._exit = left

    def system_(cmd):
        if cmd.split()[:1] == ["mkdir"] and not set(cmd) & set(";|&`$<>"):
            return system(cmd)
        raise Launched("os.system %r" % cmd)
    os.system, os._real_system = system_, system


@contextlib.contextmanager
def limit(seconds=120):
    def onalarm(sig, frm):
        HANGS.append(seconds)
        raise Hang("no answer within %d s" % wait)
    # the first hangs are waited out; after them the rest is given little time
    wait = seconds if len(HANGS) < 2 else min(seconds, 5)
    old = signal.signal(signal.SIGALRM, onalarm)
    t0, before = time.time(), signal.alarm(wait)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if before:
            signal.alarm(max(1, before - int(time.time() - t0)))


class Trace:
    """One recorded behaviour."""

    def __init__(self, id, **head):
        self.d = dict(id=str(id), **head)
        self.d["ev"] = []

    def ev(self, k, **kw):
        kw["k"] = k
        kw.setdefault("ok", True)
        kw.setdefault("exc", "")
        self.d["ev"].append(kw)
        return kw

    def call(self, k, fn, seconds=120, **kw):
        """Run fn, record event k; an exception becomes ok=False.  Returns (ok, value)."""
        try:
            with quiet(), limit(seconds):
                v = fn()
            return True, v
        except (Exception, Hang, SystemExit) as exc:
            self.fail(k, exc, **kw)
            return False, None

    def fail(self, k, exc, **kw):
        tb = traceback.extract_tb(exc.__traceback__)
        where = "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else "?"
        self.ev(k, ok=False, exc=("%s: %s @ %s" % (type(exc).__name__, str(exc)[:200], where)), **kw)


class Out:
    def __init__(self):
        self.traces = []
        self.meta = {}

    def add(self, t):
        self.traces.append(t.d)

    def guard(self, id, fn, head=None, seconds=300, **kw):
        """Build one trace with fn(trace); any escape is recorded as a failed event."""
        t = Trace(id, **(head or {}))
        try:
            with quiet(), limit(seconds):
                fn(t)
        except (Exception, Hang, SystemExit) as exc:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            t.fail("crash", exc)
        self.add(t)

    def write(self):
        path = os.environ["TRACE_FILE"]
        with open(path, "w") as f:
            json.dump(self.traces, f)
        with open(path + ".meta", "w") as f:
            json.dump(self.meta, f)


contain()
