"""Common machinery of all checks: TLC model runs, trace validation, findings, evidence.

A check drives the real hermespy code from /repo's working tree, records operation histories and
lets TLC decide them against the TLA+ specification in /verif/specs.
"""
from __future__ import annotations
import os, sys, json, re, time, random, shutil, signal, subprocess, tempfile, traceback, collections, warnings, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BIG = 2000000000  # sentinel for "not representable": never expected by a specification


def setup_imports(warn_off: bool = True):
    """Import hermespy from /repo's working tree (never from a build copy)."""
    sys.dont_write_bytecode = True
    sys.meta_path[:] = [f for f in sys.meta_path if "Redirect" not in type(f).__name__]
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    os.environ.setdefault("MPLBACKEND", "Agg")
    import logging
    logging.disable(logging.CRITICAL)
    if warn_off:
        warnings.simplefilter("ignore")


class quiet:
    """Silence stdout/stderr chatter of imported libraries (file descriptors included)."""
    def __enter__(self):
        sys.stdout.flush(); sys.stderr.flush()
        self.fd = [os.dup(1), os.dup(2)]
        n = os.open(os.devnull, os.O_WRONLY)
        os.dup2(n, 1); os.dup2(n, 2); os.close(n)
    def __exit__(self, *a):
        sys.stdout.flush(); sys.stderr.flush()
        for i, f in enumerate(self.fd):
            os.dup2(f, i + 1); os.close(f)
        return False


class Timeout(Exception):
    pass


class time_limit:
    """Raise Timeout in the main thread if the body takes too long (hanging code under test)."""
    def __init__(self, seconds): self.s = seconds
    def __enter__(self):
        def h(*a): raise Timeout("time limit")
        self.old = signal.signal(signal.SIGALRM, h); signal.setitimer(signal.ITIMER_REAL, self.s)
    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, self.old)
        return False


def xint(x, scale=1) -> int:
    """Exact integer image of a real number (times scale), or the BIG sentinel."""
    try:
        x = x.item() if hasattr(x, "item") else x
        if isinstance(x, complex):
            if abs(x.imag) > 1e-9: return BIG + 1
            x = x.real
        v = float(x) * scale
        r = round(v)
        if abs(v - r) > 1e-6 * max(1.0, abs(v)) or abs(r) >= 1000000000: return BIG
        return int(r)
    except Exception:
        return BIG + 2


def gint(x, scale=1):
    """Gaussian integer image of a complex number: [re, im]."""
    x = complex(x)
    return [xint(x.real, scale), xint(x.imag, scale)]


def imat(a, scale=1):
    """Nested integer lists of a real array (sentinel where not integral)."""
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 0: return xint(a, scale)
    return [imat(b, scale) for b in a]


def gmat(a, scale=1):
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 0: return gint(a, scale)
    return [gmat(b, scale) for b in a]


def attempt(fn, *a, **k):
    """(value, exception name or '') of a call into the code under test."""
    try:
        return fn(*a, **k), ""
    except Timeout:
        raise
    except Exception as e:
        if os.environ.get("VDEBUG"):
            with open(os.environ["VDEBUG"], "a") as f: f.write(traceback.format_exc()[-1800:] + "\n----\n")
        return None, type(e).__name__


_pmap_fn = None
ITEM_SECONDS = 100


def _pmap_worker(a):
    k, jobs, n, deadline = a
    out = []
    with quiet():
        for i in range(k, n, jobs):
            if time.time() > deadline: break
            try:
                with time_limit(ITEM_SECONDS): out.append((i, _pmap_fn(i)))
            except Timeout: return ("EXC", True, f"item {i}: does not terminate " + traceback.format_exc()[-3000:])
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                return ("EXC", any(f.filename.startswith(REPO + "/hermespy") for f in tb), f"item {i}: " + traceback.format_exc()[-3000:])
    return out


class CodeCrash(Exception):
    """An exception of the code under test outside any recorded operation, in a forked process."""


def pmap(fn, n, seconds=1e9, jobs=7):
    """[fn(0), ..., fn(n-1)] computed by forked processes until the deadline (results keep their order)."""
    import multiprocessing as mp
    global _pmap_fn
    _pmap_fn = fn
    jobs = max(1, min(jobs, n, int(os.environ.get("VJOBS", "7"))))
    with mp.get_context("fork").Pool(jobs) as pool:
        res = pool.map(_pmap_worker, [(k, jobs, n, time.time() + seconds) for k in range(jobs)], chunksize=1)
    for r in res:
        if isinstance(r, tuple):
            if r[1]: raise CodeCrash(r[2])
            raise MachineryError(r[2])
    return [v for _, v in sorted((x for r in res for x in r), key=lambda x: x[0])]


# ------------------------------------------------------------------ TLA+ value parsing (TLC output)
_tok = re.compile(r'\s*(<<|>>|\[|\]|\{|\}|\(|\)|\|->|:>|@@|,|"(?:[^"\\]|\\.)*"|-?\d+|[A-Za-z_][A-Za-z_0-9]*)')


def parse_tla(text):
    toks = _tok.findall(text); pos = 0
    def val():
        nonlocal pos
        t = toks[pos]; pos += 1
        if t == "<<":
            out = []
            while toks[pos] != ">>":
                out.append(val())
                if toks[pos] == ",": pos += 1
            pos += 1; return out
        if t == "{":
            out = []
            while toks[pos] != "}":
                out.append(val())
                if toks[pos] == ",": pos += 1
            pos += 1; return out
        if t == "[":
            out = {}
            while toks[pos] != "]":
                k = toks[pos]; pos += 2
                out[k] = val()
                if toks[pos] == ",": pos += 1
            pos += 1; return out
        if t == "(":
            out = {}
            while toks[pos] != ")":
                k = val(); pos += 1
                out[str(k)] = val()
                if toks[pos] == "@@": pos += 1
            pos += 1; return out
        if t[0] == '"': return json.loads(t)
        if t in ("TRUE", "FALSE"): return t == "TRUE"
        try: return int(t)
        except ValueError: return t
    return val()


class MachineryError(Exception):
    pass


def _java(args, env, timeout, heap="3g"):
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", f"-Xmx{heap}", "-cp", JAR, "tlc2.TLC"] + args
    try:
        p = subprocess.run(cmd, cwd=SPECS, env={**os.environ, **env}, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True)
    except subprocess.TimeoutExpired as e:
        raise MachineryError(f"TLC timed out after {timeout}s: {' '.join(args)}")
    return p.returncode, p.stdout


def _stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0].replace(",", "")), int(m[-1][1])) if m else (0, 0)


class Check:
    def __init__(self, pid: str, module: str | None = None):
        self.pid = pid; self.module = module
        self.t0 = time.time()
        self.rng = random.Random(SEED * 1000003 + sum(map(ord, pid)))
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
        atexit.register(shutil.rmtree, self.scratch, True)
        self.states = 0; self.transitions = 0; self.traces = 0; self.samples = []
        self.violations = []; self.findings = []; self.extra = {}; self.assumptions = []
        self.known = self._load_known()
        self.model_results = {}

    # ---------------------------------------------------------------- model checking
    def model(self, module=None, cfg=None, emit=False, workers=4, timeout=600, env=None, expect_ops=None, heap="3g", expect_violation=None):
        """Exhaustive TLC run.  A violated invariant of the specification is a machinery error: the
        specification itself must satisfy the property; only the code can violate it."""
        module = module or f"MC{self.module}"
        cfg = cfg or f"{module}.cfg"
        meta = tempfile.mkdtemp(dir=self.scratch)
        e = {"VEMIT": "1" if emit else "0", "VTIER": TIER, "VTRACE": "", **(env or {})}
        rc, out = _java(["-workers", str(1 if emit else workers), "-deadlock", "-noGenerateSpecTE", "-metadir", meta,
                         "-config", cfg, module + ".tla"], e, timeout, heap)
        gen, dist = _stats(out)
        shutil.rmtree(meta, True)
        if expect_violation:   # a deliberately defective design: the model must tell it apart
            if expect_violation not in out: raise MachineryError(f"{module}/{cfg}: the defective design was not rejected:\n" + out[-3000:])
            self.states += dist; self.transitions += gen
            self.model_results[f"{module}/{cfg}"] = {"generated": gen, "distinct": dist, "rejected_as_expected": expect_violation}
            return []
        if rc != 0 or "No error has been found" not in out:
            raise MachineryError(f"TLC failed on {module}/{cfg} (rc={rc}):\n" + out[-4000:])
        self.states += dist; self.transitions += gen
        edges = []
        if emit:
            for line in out.splitlines():
                if line.startswith('<<"T",'):
                    v = parse_tla(line)
                    edges.append((v[1], json.loads(v[2]), v[3]))
        ops = collections.Counter(x[1].get("op", "?") for x in edges) if emit else {}
        if expect_ops:
            for o in expect_ops:
                if not ops.get(o): raise MachineryError(f"vacuous model {module}: operation {o} never taken")
        self.model_results[f"{module}/{cfg}"] = {"generated": gen, "distinct": dist, "transitions_by_operation": dict(ops)}
        return edges

    def tour(self, edges, init_states=None, max_len=40, max_paths=100000):
        """Histories (lists of operations) from initial states that cover every transition emitted by TLC.
        Returns [(initial state json, [op, ...])]."""
        succ = collections.defaultdict(list)
        indeg = set()
        for i, (a, op, b) in enumerate(edges):
            succ[a].append((i, op, b))
        nodes = set(succ) | {b for _, _, b in edges}
        if init_states is None:
            targets = {b for a, _, b in edges if a != b}
            init_states = [n for n in succ if n not in targets]
            if not init_states and edges:
                init_states = [edges[0][0]]
        seen = set(); paths = []
        # shortest-path tree from initial states
        parent = {}; order = collections.deque()
        for n in init_states: parent[n] = None; order.append(n)
        bfs = []
        while order:
            n = order.popleft(); bfs.append(n)
            for i, op, b in succ[n]:
                if b not in parent: parent[b] = (n, op, i); order.append(b)
        todo = {n: list(succ[n]) for n in bfs}
        for n in bfs:
            while True:
                todo[n] = [x for x in todo[n] if x[0] not in seen]
                if not todo[n] or len(paths) >= max_paths: break
                # path to n, then greedily along unseen edges
                pre = []; m = n
                while parent[m] is not None:
                    pm, op, i = parent[m]; pre.append((i, op)); m = pm
                start = m; pre.reverse()
                hist = [op for _, op in pre]; seen.update(i for i, _ in pre)
                cur = n
                while len(hist) < max_len + len(pre):
                    cand = [x for x in todo.get(cur, []) if x[0] not in seen]
                    if not cand: break
                    i, op, b = cand[0]; seen.add(i); hist.append(op); cur = b
                paths.append((json.loads(start), hist))
        return paths

    # ---------------------------------------------------------------- trace validation
    def validate(self, traces, module=None, cfg=None, timeout=600, jobs=4, chunk=None, describe=None, env=None):
        """Let TLC validate recorded histories.  traces: [{"key":..., "c": config, "ev": [...]}, ...]
        Every history gets a total verdict: ACCEPT, or REJECT with the failing line and clauses."""
        module = module or f"Trace{self.module}"
        cfg = cfg or f"{module}.cfg"
        if not traces: raise MachineryError("no traces to validate")
        n = len(traces)
        jobs = max(1, min(jobs, (n + 19) // 20, int(os.environ.get("VJOBS", "7"))))
        # balance by event count
        groups = [[] for _ in range(jobs)]
        load = [0] * jobs
        for i in sorted(range(n), key=lambda i: -len(traces[i]["ev"])):
            k = load.index(min(load)); groups[k].append(i); load[k] += len(traces[i]["ev"]) + 1
        def run(g):
            f = tempfile.mktemp(suffix=".json", dir=self.scratch)
            with open(f, "w") as fh:
                json.dump([{"c": traces[i].get("c", {}), "ev": traces[i]["ev"]} for i in g], fh)
            meta = tempfile.mkdtemp(dir=self.scratch)
            rc, out = _java(["-workers", "1", "-deadlock", "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, module + ".tla"],
                            {"VTRACE": f, "VTIER": TIER, "VEMIT": "0", **(env or {})}, timeout)
            shutil.rmtree(meta, True)
            if rc != 0 or "No error has been found" not in out:
                raise MachineryError(f"TLC failed validating traces with {module} (rc={rc}):\n" + out[-6000:])
            verdict = {}
            buf = None
            for line in out.splitlines():
                # TLC wraps long values over several lines
                if line.startswith('<<"ACCEPT"') or line.startswith('<<"REJECT"') or line.startswith('<< "REJECT"') or line.startswith('<< "ACCEPT"'):
                    buf = line
                elif buf is not None:
                    buf += " " + line
                if buf is not None and _balanced(buf):
                    v = parse_tla(buf); buf = None
                    verdict[g[v[1] - 1]] = ("ACCEPT",) if v[0] == "ACCEPT" else ("REJECT", v[2], v[3], v[4] if len(v) > 4 else None)
            os.unlink(f)
            return verdict, _stats(out)
        verdicts = {}
        with ThreadPoolExecutor(jobs) as ex:
            for v, (gen, dist) in ex.map(run, [g for g in groups if g]):
                verdicts.update(v); self.transitions += gen; self.states += dist
        if len(verdicts) != n:
            raise MachineryError(f"verdicts are not total: {len(verdicts)} of {n}")
        self.traces += n
        for t in traces[:: max(1, n // 3)][:3]:
            if len(self.samples) < 6:
                self.samples.append(_trim({"key": t.get("key", ""), "config": t.get("c", {}), "events": t["ev"][:6]}))
        rejects = []
        for i in range(n):
            v = verdicts[i]
            if v[0] == "REJECT":
                t = traces[i]
                rejects.append(dict(key=str(t.get("key", "")), line=v[1], clauses=sorted(map(str, v[2])), spec_state=v[3],
                                    event=t["ev"][v[1] - 1] if 0 < v[1] <= len(t["ev"]) else None, trace=t, module=module))
        for r in rejects: self.report(r)
        return rejects

    # ---------------------------------------------------------------- verdicts
    def _load_known(self):
        out = []
        path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"finding: property=(\S+) key=(\S+) clause=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.pid: out.append(m.groups()[1:])
        return out

    def require(self, cond, what):
        """A sanity condition on the explored histories; meaningless once a violation was found."""
        if not cond and not self.violations: raise MachineryError(what)

    def report(self, r):
        for key, clause, what in self.known:
            if key == r["key"] and all(c == clause for c in r["clauses"]):
                self.findings.append((key, clause, what)); return
        self.violations.append(r)

    def crash(self, what, exc):
        """An exception from code under test outside any recorded operation."""
        self.report(dict(key="crash", line=0, clauses=["crash"], event={"what": what, "exc": repr(exc)}, spec_state=None,
                         trace={"traceback": traceback.format_exc()}, module=""))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        for key, clause, what in sorted(set(self.findings)):
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples,
                           "models": self.model_results, **self.extra},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replays"); os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.pid}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "repeat": f"VERIF_SEED={SEED} VERIF_TIER={TIER} /verif/check.sh {self.pid}",
                           "violations": self.violations[:20], "count": len(self.violations)}, f, indent=1, default=str)
            for v in self.violations[:5]:
                print(f"  rejected {v['key']!r} at line {v['line']}: clauses {v['clauses']} event {str(v['event'])[:400]}")
            print(f"VIOLATION property={self.pid} replay={path}")
            sys.stdout.flush()
            os._exit(1)
        print(f"OK property={self.pid} states={self.states} transitions={self.transitions} traces={self.traces} wall={ev['wall_s']}s")
        sys.stdout.flush()
        shutil.rmtree(self.scratch, True)
        os._exit(0)


def _balanced(s):
    s = re.sub(r'"(?:[^"\\]|\\.)*"', '""', s)
    return s.count("<<") == s.count(">>") and s.count("[") == s.count("]") and s.count("{") == s.count("}") and s.count("(") == s.count(")")


def _trim(x, depth=0):
    if isinstance(x, dict): return {k: _trim(v, depth + 1) for k, v in list(x.items())[:24]}
    if isinstance(x, list): return [_trim(v, depth + 1) for v in x[:16]] if depth < 6 else "..."
    return x


def main(pid, module, body):
    """Run a check body; code-under-test failures outside recorded operations are violations,
    failures of the machinery are errors (exit 2)."""
    c = Check(pid, module)
    try:
        with quiet():
            setup_imports()
        body(c)
    except MachineryError as e:
        print("MACHINERY ERROR", e); sys.stdout.flush(); os._exit(2)
    except Timeout as e:
        c.crash("timeout", e)
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any(f.filename.startswith(REPO + "/hermespy") for f in tb)
        if inrepo or isinstance(e, (ImportError, SyntaxError, CodeCrash)):
            c.crash("uncaught exception from code under test", e)
        else:
            traceback.print_exc(); sys.stderr.flush(); os._exit(2)
    c.finish()
