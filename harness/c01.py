"""C01: Monte Carlo dispatch accounting."""
from vlib import *

SHAPES = [(), (1,), (2,), (3,), (5,), (1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (4, 3), (2, 1, 3), (2, 2, 2), (1, 1, 4), (3, 2, 2)]


def body(c: Check):
    import numpy as np
    with quiet():
        from hermespy.core.pymonte.actors import MonteCarloQueueManager
        from hermespy.core.pymonte.grid import GridDimensionInfo, SamplePoint
        from hermespy.core import ValueType

    def manager(shape, n, batch):
        grid = [GridDimensionInfo([SamplePoint(j) for j in range(m)], f"d{i}", "linear", ValueType.LIN) for i, m in enumerate(shape)]
        return MonteCarloQueueManager(grid, n, batch) if batch is not None else MonteCarloQueueManager(grid, n)

    def flat(shape, coords):
        try:
            coords = tuple(int(x) for x in coords)
            if len(coords) != len(shape) or any(x < 0 or x >= m for x, m in zip(coords, shape)): return 0
            return 1 + (int(np.ravel_multi_index(coords, shape)) if shape else 0)
        except Exception:
            return 0

    def run(shape, n, batch, hist, drain, key):
        k = int(np.prod(shape)) if shape else 1
        ev = []
        with time_limit(60):
            q = manager(shape, n, batch)
            def do(op, sec=0):
                if op == "batch":
                    r, x = attempt(q.next_batch)
                    e = {"op": op, "exc": x, "ret": [] if x else [flat(shape, b) for b in r]}
                elif op == "disable":
                    crd = tuple(int(v) for v in np.unravel_index(sec - 1, shape)) if shape else ()
                    _, x = attempt(q.disable_section, crd)
                    e = {"op": op, "exc": x, "sec": sec}
                else:
                    r, x = attempt(q.query_progress)
                    e = {"op": op, "exc": x, "ret": BIG, "flags": []}
                    if not x:
                        p = r[0] * k * n
                        e["ret"] = xint(p)
                        e["flags"] = [bool(v) for v in np.asarray(r[1]).reshape(-1)]
                ev.append(e)
                return e
            for op, sec in hist:
                if do(op, sec)["exc"]: break
            else:
                if drain:
                    for _ in range(k * n + 2):
                        e = do("batch")
                        if e["exc"] or not e["ret"]: break
                        if c.rng.random() < 0.4: do("progress")
                    do("progress"); do("batch"); do("progress")
        return {"key": key, "c": {"k": k, "n": n, "shape": list(shape)}, "ev": ev}

    edges = c.model(emit=True, expect_ops=["batch", "disable", "progress"])
    traces = []
    paths = c.tour(edges, max_len=12)
    shapes_of = {1: [(), (1,), (1, 1)], 2: [(2,), (1, 2), (2, 1)], 3: [(3,), (1, 3), (3, 1)]}
    if not THOROUGH: paths = paths[::4]
    for init, hist in paths:
        k, n = len(init["count"]), init["n"]
        ops = [(o["op"], o.get("sec", 0)) for o in hist]
        batch = c.rng.choice([None, 1, 2, 3, 7])
        traces.append(run(c.rng.choice(shapes_of[k]), n, batch, ops, True, "tour"))
    for _ in range(4000 if THOROUGH else 600):
        shape = c.rng.choice(SHAPES); k = int(np.prod(shape)) if shape else 1
        n = c.rng.choice([1, 1, 2, 3, 4, 7])
        batch = c.rng.choice([None, None, 1, 2, 3, k, k + 1, 2 * k])
        hist = []
        pd = c.rng.choice([0.0, 0.1, 0.4])
        for _ in range(c.rng.randint(0, 14)):
            r = c.rng.random()
            hist.append(("disable", c.rng.randint(1, k)) if r < pd else ("progress", 0) if r < pd + 0.3 else ("batch", 0))
        traces.append(run(shape, n, batch, hist, c.rng.random() < 0.85, "random"))
    c.validate(traces)
    c.assumptions.append("the queue manager is an actor with one thread: its methods never overlap")

main("C01", "Dispatch", body)
