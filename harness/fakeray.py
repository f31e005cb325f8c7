"""Stand-in for the ray runtime with a deterministic, seeded scheduler.

install() puts a fake ``ray`` module into sys.modules.  Actors run in real threads, but only the thread
holding the baton executes; inside hermespy/core/pymonte the baton may move at every source line.
Arguments and results are pickled like in ray, so no state is shared between actors.
"""
import sys, types, threading as _th, random, time as _time, importlib.util, os, io, traceback
from collections import deque

_RealLock = _th.Lock


class Deadlock(Exception): pass
class Livelock(Exception): pass
class Abort(BaseException): pass


class Scheduler:
    def __init__(self, seed=0, mode="line", switch=0.3, max_steps=200000, files=("core/pymonte/",), log=None, weights=None):
        self.rng = random.Random(seed); self.mode = mode; self.switch = switch
        self.max_steps = max_steps; self.files = files; self.steps = 0
        self.cv = _th.Condition(_RealLock())
        self.threads = {}      # ident -> record
        self.current = None
        self.error = None
        self.over = False
        self.delayed = {}      # record name -> step until which it is not scheduled if others can run
        self.log = log if log is not None else []
        self.switches = 0
        self.weights = weights; self.picks = 0; self.wcache = {}
        self._cache = {}

    # -- thread management
    def register(self, name):
        r = {"name": name, "pred": None, "id": _th.get_ident(), "done": False, "timed": False}
        self.threads[r["id"]] = r
        return r

    def me(self): return self.threads.get(_th.get_ident())

    def spawn(self, name, fn):
        started = _th.Event()
        def run():
            with self.cv:
                r = self.register(name)
                started.set()
                try: self._wait_turn(r)
                except Abort: return
            sys.settrace(self._trace)
            try:
                fn()
            except Abort:
                pass
            except BaseException as e:      # pragma: no cover
                self.fail(e)
            finally:
                sys.settrace(None)
                with self.cv:
                    r["done"] = True
                    self.threads.pop(r["id"], None)
                    self._pick(exclude=r)
        t = _th.Thread(target=run, daemon=True)
        t.start()
        if not started.wait(20): raise RuntimeError("thread did not start")

    def fail(self, e):
        if self.error is None: self.error = e
        with self.cv:
            self.over = True
            self.cv.notify_all()

    def _runnable(self):
        out = []
        for r in self.threads.values():
            if r["done"]: continue
            if r["pred"] is None or r["timed"] or r["pred"](): out.append(r)
        return out

    def _pick(self, exclude=None):
        """Choose the next baton holder (cv held)."""
        cand = [r for r in self._runnable() if r is not exclude]
        if not cand:
            if self.threads and not self.over:
                self.error = self.error or Deadlock("no thread can run: " + ", ".join(r["name"] for r in self.threads.values()))
                self.over = True
            self.current = None
            self.cv.notify_all()
            return
        free = [r for r in cand if self.delayed.get(r["name"], -1) < self.steps]
        # threads that only poll (timed waits) go last most of the time
        busy = [r for r in (free or cand) if not r["timed"]]
        pool = busy if busy and self.rng.random() < 0.8 else (free or cand)
        if self.weights:   # some roles (e.g. the collector's run thread) are slow for the whole run
            w = []
            pool = cand
            for r in pool:
                role = r["name"].split("#")[0] + r["name"].split(".")[-1]
                if role not in self.wcache: self.wcache[role] = self.rng.choice(self.weights)
                w.append(self.wcache[role] * (1e-4 if r["timed"] else 1))
            hungry = [r for r in cand if self.picks - r.get("last", self.picks) > 400]   # every runnable thread runs eventually
            for r in cand: r.setdefault("last", self.picks)
            self.current = self.rng.choice(hungry) if hungry else self.rng.choices(pool, w)[0]
            self.picks += 1; self.current["last"] = self.picks
        else: self.current = self.rng.choice(pool)
        self.switches += 1
        self.cv.notify_all()

    def _wait_turn(self, r):
        while self.current is not r:
            if self.over: raise Abort()
            if not self.cv.wait(150):
                if self.current is not r and not self.over:
                    self.error = self.error or Livelock("a thread holds the processor forever")
                    self.over = True
                    self.cv.notify_all()
        if self.over: raise Abort()

    # -- scheduling points
    def yield_(self, pred=None, timed=False):
        r = self.me()
        if r is None: return
        with self.cv:
            if self.over: raise Abort()
            r["pred"] = pred; r["timed"] = timed
            self._pick()
            self._wait_turn(r)
            r["pred"] = None; r["timed"] = False

    def point(self):
        self.steps += 1
        if self.over: raise Abort()
        if self.steps > self.max_steps:
            self.fail(Livelock("step limit exceeded")); raise Abort()
        if self.rng.random() < self.switch:
            r = self.me()
            if r is not None and not self.weights and self.rng.random() < 0.15:
                self.delayed[r["name"]] = self.steps + self.rng.choice([20, 80, 300])
            self.yield_()

    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        hit = self._cache.get(fn)
        if hit is None:
            hit = any(p in fn for p in self.files); self._cache[fn] = hit
        if not hit: return None
        if event == "call" and self.mode == "call": self.point(); return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line" or event == "return": self.point()
        return self._line

    def run(self, fn, name="driver", timeout=400):
        """Run fn in a managed thread, return ('ok', value) / ('exc', name) / ('deadlock'|'livelock', text)."""
        box = {}
        def body():
            try:
                box["v"] = ("ok", fn())
            except Abort: raise
            except BaseException as e:
                box["v"] = ("exc", type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])
            with self.cv:
                self.over = True
                self.cv.notify_all()
        self.spawn(name, body)
        with self.cv:
            if self.current is None: self._pick()
        t0 = _time.monotonic()
        with self.cv:
            while "v" not in box and self.error is None and _time.monotonic() - t0 < timeout:
                self.cv.wait(0.5)
            self.over = True
            self.cv.notify_all()
        if "v" in box: return box["v"]
        if isinstance(self.error, Deadlock): return ("deadlock", str(self.error))
        if isinstance(self.error, Livelock): return ("livelock", str(self.error))
        if self.error is not None: return ("exc", type(self.error).__name__, str(self.error))
        return ("livelock", "wall clock limit")


SCHED: Scheduler | None = None


def managed():
    return SCHED is not None and SCHED.me() is not None


# ------------------------------------------------------------------ cooperative locks
class CoopLock:
    def __init__(self): self._l = _RealLock()
    def acquire(self, blocking=True, timeout=-1):
        if not managed(): return self._l.acquire(blocking, timeout)
        while True:
            if self._l.acquire(False): return True
            if not blocking: return False
            SCHED.yield_(lambda: not self._l.locked(), timed=timeout >= 0)
            if timeout >= 0: return self._l.acquire(False)
    def release(self):
        self._l.release()
    def locked(self): return self._l.locked()
    __enter__ = lambda self: self.acquire()
    def __exit__(self, *a): self.release()
    def _at_fork_reinit(self): self._l = _RealLock()


class CoopRLock:
    def _at_fork_reinit(self): self.__init__()
    def __init__(self): self._l = CoopLock(); self._o = None; self._n = 0
    def acquire(self, blocking=True, timeout=-1):
        me = _th.get_ident()
        if self._o == me: self._n += 1; return True
        if self._l.acquire(blocking, timeout): self._o = me; self._n = 1; return True
        return False
    def release(self):
        self._n -= 1
        if self._n == 0: self._o = None; self._l.release()
    __enter__ = lambda self: self.acquire()
    def __exit__(self, *a): self.release()


class CoopEvent:
    def __init__(self): self._f = False
    def is_set(self): return self._f
    def set(self): self._f = True
    def clear(self): self._f = False
    def wait(self, timeout=None):
        if not managed():
            t0 = _time.monotonic()
            while not self._f and (timeout is None or _time.monotonic() - t0 < timeout): _time.sleep(0.001)
            return self._f
        SCHED.yield_(lambda: self._f, timed=timeout is not None)
        return self._f


class CoopCondition:
    def __init__(self, lock=None):
        self._l = lock if lock is not None else CoopRLock(); self._gen = 0
        self.acquire = self._l.acquire; self.release = self._l.release
    def __enter__(self): return self._l.__enter__()
    def __exit__(self, *a): return self._l.__exit__(*a)
    def wait(self, timeout=None):
        g = self._gen; self._l.release()
        if managed(): SCHED.yield_(lambda: self._gen != g, timed=timeout is not None)
        else:
            t0 = _time.monotonic()
            while self._gen == g and (timeout is None or _time.monotonic() - t0 < timeout): _time.sleep(0.001)
        ok = self._gen != g
        self._l.acquire(); return ok
    def wait_for(self, predicate, timeout=None):
        while not predicate():
            if not self.wait(timeout) and timeout is not None: return predicate()
        return True
    def notify(self, n=1): self._gen += 1
    notify_all = notify


class _patched_threading:
    """Modules imported inside see the cooperative primitives."""
    names = {"Lock": CoopLock, "RLock": CoopRLock, "Event": CoopEvent, "Condition": CoopCondition}
    def __enter__(self):
        self.old = {n: getattr(_th, n) for n in self.names}
        for n, v in self.names.items(): setattr(_th, n, v)
    def __exit__(self, *a):
        for n, v in self.old.items(): setattr(_th, n, v)


# ------------------------------------------------------------------ fake ray objects
_store = {}
_next = [0]


class ObjectRef:
    __slots__ = ("id",)
    def __class_getitem__(cls, x): return cls
    def __init__(self, id): self.id = id
    def __hash__(self): return hash(self.id)
    def __eq__(self, o): return isinstance(o, ObjectRef) and o.id == self.id
    def __repr__(self): return f"ObjectRef({self.id})"
    def __reduce__(self): return (ObjectRef, (self.id,))


def _newref():
    _next[0] += 1
    return ObjectRef(_next[0])


def _dumps(x):
    from ray import cloudpickle
    return cloudpickle.dumps(x)


def _loads(b):
    import pickle
    return pickle.loads(b)


def put(value):
    r = _newref(); _store[r.id] = ("v", _dumps(value))
    if managed(): SCHED.yield_()
    return r


def _ready(r): return r.id in _store


def get(refs, timeout=None):
    if isinstance(refs, (list, tuple)): return [get(r, timeout=timeout) for r in refs]
    if not _ready(refs) or managed():
        if managed(): SCHED.yield_(lambda: _ready(refs))
    kind, data = _store[refs.id]
    if kind == "e":
        raise _loads(data)
    return _loads(data)


def wait(refs, *, num_returns=1, timeout=None, fetch_local=True):
    refs = list(refs)
    if not refs: raise ValueError("wait() expects a non-empty list")
    if num_returns > len(refs): raise ValueError("num_returns cannot be greater than the number of objects provided to ray.wait.")
    if managed():
        SCHED.yield_(lambda: sum(map(_ready, refs)) >= num_returns, timed=timeout is not None)
    ready = [r for r in refs if _ready(r)][:num_returns]
    return ready, [r for r in refs if r not in ready]


class RayTaskError(Exception): pass
class RayActorError(Exception): pass


ACTORS = {}


class _Actor:
    def __init__(self, cls, args, kwargs, concurrency):
        _next[0] += 1
        self.id = _next[0]; ACTORS[self.id] = self
        self.cls = cls; self.queue = deque(); self.running = 0; self.con = concurrency
        self.inst = None; self.dead = None
        data = _dumps((cls, args, kwargs))
        self.submit("__init__", data, None)

    def submit(self, method, data, ref):
        self.queue.append((method, data, ref))
        self.pump()

    def pump(self):
        # the constructor completes before any other task starts
        while self.queue and self.running < self.con:
            if self.inst is None and self.dead is None and self.running: return
            task = self.queue.popleft(); self.running += 1
            SCHED.spawn(f"{self.cls.__name__}#{self.id}.{task[0]}", lambda t=task: self.execute(t))
            if task[0] == "__init__": return

    def execute(self, task):
        method, data, ref = task
        r = SCHED.me(); r["actor"] = self
        try:
            if method == "__init__":
                cls, args, kwargs = _loads(data)
                self.inst = cls(*args, **kwargs)
            else:
                if self.dead is not None: raise RayActorError(self.dead)
                args, kwargs = _loads(data)
                v = getattr(self.inst, method)(*args, **kwargs)
                SCHED.log.append(("call", self.cls.__name__, self.id, method, v))
                _store[ref.id] = ("v", _dumps(v))
        except Abort: raise
        except BaseException as e:
            SCHED.log.append(("actor-exc", self.cls.__name__, self.id, method, type(e).__name__, str(e)[:200], traceback.format_exc()[-800:]))
            if method == "__init__": self.dead = repr(e)
            if ref is not None: _store[ref.id] = ("e", _dumps(RayTaskError(f"{type(e).__name__}: {e}")))
        self.running -= 1
        self.pump()


class ActorHandle:
    def __init__(self, id): self._id = id
    def __reduce__(self): return (ActorHandle, (self._id,))
    def __eq__(self, o): return isinstance(o, ActorHandle) and o._id == self._id
    def __hash__(self): return hash(self._id)
    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        return _Method(self._id, name)


class _Method:
    def __init__(self, id, name): self.id = id; self.name = name
    def options(self, **k): return self
    def remote(self, *args, **kwargs):
        a = ACTORS[self.id]; ref = _newref()
        caller = SCHED.me()
        SCHED.log.append(("submit", a.cls.__name__, a.id, self.name, caller["actor"].id if caller and caller.get("actor") else 0, ref.id))
        a.submit(self.name, _dumps((args, kwargs)), ref)
        SCHED.yield_()
        return ref


class RemoteClass:
    def __init__(self, cls, opts=None): self.cls = cls; self.opts = opts or {}
    def options(self, **k): return RemoteClass(self.cls, {**self.opts, **k})
    def remote(self, *args, **kwargs):
        a = _Actor(self.cls, args, kwargs, self.opts.get("max_concurrency") or 1)
        SCHED.yield_()
        return ActorHandle(a.id)


def remote(*args, **kwargs):
    if args and isinstance(args[0], type): return RemoteClass(args[0])
    return lambda cls: RemoteClass(cls, kwargs)


def install():
    spec = importlib.util.find_spec("ray")
    m = types.ModuleType("ray")
    m.__path__ = list(spec.submodule_search_locations)
    m.__file__ = spec.origin
    m.__version__ = "2.0-stand-in"
    for n in ("put", "get", "wait", "remote", "ObjectRef"): globals()[n] and setattr(m, n, globals()[n])
    m.init = lambda *a, **k: types.SimpleNamespace(dashboard_url="")
    m.is_initialized = lambda: True
    m.shutdown = lambda: None
    m.kill = lambda *a, **k: None
    m.available_resources = lambda: {"CPU": 2.0}
    m.cluster_resources = lambda: {"CPU": 2.0}
    exc = types.ModuleType("ray.exceptions")
    exc.RayTaskError = RayTaskError; exc.RayActorError = RayActorError; exc.RayError = Exception
    exc.GetTimeoutError = TimeoutError
    m.exceptions = exc
    sys.modules["ray"] = m; sys.modules["ray.exceptions"] = exc
    sys.modules["ray.actor"] = types.ModuleType("ray.actor"); sys.modules["ray.actor"].ActorHandle = ActorHandle
    real_sleep = _time.sleep
    def sleep(t):
        if managed(): SCHED.yield_(lambda: False, timed=True)
        else: real_sleep(t)
    _time.sleep = sleep
    return m


def import_pymonte():
    """Import the Monte Carlo package with cooperative threading primitives."""
    with _patched_threading():
        import hermespy.core.pymonte as pm
    return pm


def simulate(fn, seed, **kw):
    """Run fn() under a fresh scheduler; returns (outcome, log)."""
    global SCHED
    _store.clear(); ACTORS.clear()
    SCHED = Scheduler(seed, **kw)
    out = SCHED.run(fn)
    return out, SCHED.log, SCHED
