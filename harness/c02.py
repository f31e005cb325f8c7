"""C02: no Monte Carlo sample is lost or counted twice under any interleaving."""
from vlib import *
import fakeray


def body(c: Check):
    import numpy as np
    fakeray.install()
    with quiet():
        pm = fakeray.import_pymonte()
        import mcbench
        mcbench.build()
        from rich.console import Console
    null = open(os.devnull, "w")
    c.model(expect_ops=None)
    c.model("CollectDesign", "CollectDesign.cfg", workers=6)
    for cfg in ("CollectDesign_unlocked", "CollectDesign_noawait"):   # the model tells the defective designs apart
        c.model("CollectDesign", cfg + ".cfg", expect_violation="Invariant NothingLost is violated")

    def run(i):
        r = random.Random(f"{SEED}/{i}")
        n = r.choice([1, 1, 2, 3, 4]); workers = r.choice([1, 2, 2, 3])
        ndim = r.choice([0, 1, 1, 2, 2])
        dims = [(f"p_{r.choice('n012')}_{r.choice('n012')}_{d}" if r.random() < 0.8 else f"plain_{d}",
                 [100 * (d + 1) + j for j in range(r.choice([1, 2, 3] if ndim > 1 else [1, 2, 4]))]) for d in range(ndim)]
        m = r.choice([1, 1, 2])
        fail = None if r.random() < 0.7 else (r.randint(0, 5), r.choice([3, 5, 9, 17]))
        catch = r.random() < 0.8
        stop = None if r.random() < 0.7 else r.choice([1, 2])
        batch = r.choice([None, None, 1, 2, 5])
        switch = r.choice([0.02, 0.1, 0.3, 0.3, 0.6])
        weights = None if r.random() < 0.4 else [1, 1, 0.03, 0.003]
        if r.random() < 0.15: n, dims, workers, fail, stop, weights = r.choice([12, 20, 40]), dims[:1] if r.random() < 0.4 else [], r.choice([1, 1, 2]), None, None, [1, 1e-4]
        def fn():
            o = mcbench.Bench(); o.fail = fail
            mc = pm.MonteCarlo(o, n, [mcbench.BenchEvaluator(o, v, stop) for v in range(m)], num_actors=workers, batch_size=batch,
                               console_mode="SILENT", progress_log_interval=0.01, console=Console(file=null), catch_exceptions=catch)
            for name, pts in dims: mc.new_dimension(name, pts)
            res = mc.simulate(mcbench.BenchActor)
            return [([(d.title, [p.value for p in d.sample_points]) for d in x.grid], list(x.entries)) for x in res.evaluation_results]
        out, log, sched = fakeray.simulate(fn, i, switch=switch, weights=weights, max_steps=3000000)
        # the grid order the results refer to
        shape_of = {name: pts for name, pts in dims}
        order = [t for t, _ in out[1][0][0]] if out[0] == "ok" and m else None
        if order is None: order = sorted(shape_of)
        k = int(np.prod([len(p) for p in shape_of.values()])) if dims else 1
        def flat_vals(vals):
            try:
                return 1 + sum(int(np.prod([len(shape_of[x]) for x in order[j + 1:]])) * shape_of[t].index(vals[t]) for j, t in enumerate(order))
            except Exception: return 0
        def flat(coords):
            if len(coords) != len(order): return 0
            return flat_vals({t: shape_of[t][x] if 0 <= x < len(shape_of[t]) else None for t, x in zip(order, coords)})
        ev = []; caller = {}
        for e in log:
            if e[0] == "submit" and e[3] == "next_batch": caller.setdefault(e[2], []).append(e[4])
            elif e[0] == "call" and e[3] == "next_batch":
                q = caller.get(e[2], [])
                a = fakeray.ACTORS.get(q.pop(0)) if q else None
                if a is not None and a.inst is not None: ev.append({"op": "batch", "w": a.inst.index + 1})
            elif e[0] == "eval": ev.append({"op": "compute", "w": e[1] + 1, "ev": e[2] + 1, "id": e[3], "sec": flat_vals(e[4])})
            elif e[0] == "fail": ev.append({"op": "fail", "w": e[1] + 1})
            elif e[0] == "merge": ev.append({"op": "merge", "ev": e[1] + 1, "id": e[2], "sec": flat(e[3]) if out[0] == "ok" else None})
            elif e[0] == "stop": ev.append({"op": "stop", "sec": flat(e[1])})
        if out[0] == "ok":
            ev.append({"op": "return", "exc": "", "res": [[x, v + 1, flat(crd)] for v, (_, ent) in enumerate(out[1]) for crd, x in ent]})
        elif out[0] == "exc":
            ev = [e for e in ev if e["op"] not in ("merge", "stop")]
            ev.append({"op": "return", "exc": "caught" if catch or fail is None else "raised", "what": str(out[1:])[:600]})
        else:
            ev = [e for e in ev if e["op"] not in ("merge", "stop")]
            ev.append({"op": "hang", "what": str(out[1])})
        st = {"steps": sched.steps, "switches": sched.switches, "with_failures": fail is not None, "with_early_stop": stop is not None}
        return {"stats": st, "key": f"sim{i}", "c": {"n": n, "k": k, "m": m, "w": workers}, "ev": ev}

    traces = pmap(lambda i: run(i + (SEED - 1) * 100000), 20000 if THOROUGH else 700, 500 if THOROUGH else 30)
    stats = collections.Counter()
    for t in traces:
        for k, v in t.pop("stats").items(): stats[k] += v
    c.extra["schedules"] = dict(stats, runs=len(traces))
    c.validate(traces, jobs=6)
    c.assumptions += ["ray is replaced by a stand-in with one runnable thread at a time and switch points at every source line of the Monte Carlo package; arguments and results are pickled",
                      "only failures of pipeline stages are modelled, not losses of whole processes"]

main("C02", "Collect", body)
