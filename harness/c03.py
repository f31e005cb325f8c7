"""C03: each Monte Carlo sample is computed at the grid point it is filed under."""
from vlib import *
import fakeray


def body(c: Check):
    import numpy as np
    fakeray.install()
    with quiet():
        pm = fakeray.import_pymonte()
        import mcbench
        mcbench.build()
        from hermespy.core.pymonte.grid import GridDimension, SamplePoint
        from rich.console import Console
    null = open(os.devnull, "w")
    NS = mcbench.N_STAGES
    c.model()
    c.model("GridDesign", "GridDesign.cfg", workers=6)
    c.model("GridDesign", "GridDesign_sloppy.cfg", expect_violation="Invariant Consistent is violated")

    def pick_dims(r, ndim):
        out = []
        for d in range(ndim):
            pts = [100 * (d + 1) + j for j in range(r.choice([1, 2, 2, 3]))]
            x = r.random()
            if x < 0.68:
                a, b = r.choice("n012"), r.choice("n012")
                if a != "n" and b != "n" and a > b: a, b = b, a
                out.append((f"p_{a}_{b}_{d}", pts, "self", 1 if a == "n" else int(a) + 1, NS if b == "n" else int(b) + 1))
            elif x < 0.76: out.append((f"plain_{d % 3}", pts, "self", 1, NS))
            elif any(o[0] in ("part.x", "part.y") for o in out) and x < 0.82: out.append((f"plain_{d % 3}", pts, "self", 1, NS))
            elif x < 0.79: out.append(("part.x", pts, "self", 1, NS))
            elif x < 0.82: out.append(("part.y", pts, "self", 2, 3))
            elif x < 0.86: out.append(("poke", pts, "self", 1, NS))
            elif x < 0.90: out.append(("level", pts, "self", 1, NS))
            elif x < 0.95: out.append(("x", pts, "pair", 1, NS))
            else: out.append(("y", pts, "pair", 2, 3))
        # a parameter must not appear twice
        seen = set(); res = []
        for o in out:
            k = {"part.y": "part.x", "y": "x"}.get(o[0], o[0])
            if k in seen: o = (f"p_n_n_{out.index(o) % 3}", o[1], "self", 1, NS); k = o[0]
            if k in seen: continue
            seen.add(k); res.append(o)
        return res

    def objs(o, kind): return (o.left, o.right) if kind == "pair" else (o,)

    def ix(dims, vals):
        out = []
        for name, pts, *_ in dims:
            v = vals.get(name, -1)
            out.append(pts.index(v) + 1 if v in pts else 0)
        return out

    def arg_no(args): return int(args[0]) if args else 1

    def events(log, dims, nargs, single):
        """dims: in the order the coordinates refer to"""
        ev = []
        for e in log:
            if e[0] == "stage": ev.append({"op": "stage", "w": e[1] + 1, "st": e[2] + 1, "arg": arg_no(e[3]), "vals": ix(dims, e[4])})
            elif e[0] == "eval": ev.append({"op": "eval", "w": e[1] + 1, "id": e[3], "vals": ix(dims, e[4])})
            elif e[0] == "batch": ev.append({"op": "begin", "w": 1})
            elif e[0] == "batch-end" and single: ev.append({"op": "end", "w": 1, "nargs": nargs})
        return ev

    def stage_arguments(r):
        nargs = [1] * NS; d = None
        if r.random() < 0.5:
            d = {}
            for st in range(NS):
                if r.random() < 0.5:
                    n = r.choice([1, 2, 3]); nargs[st] = n
                    d[mcbench.with_stage[st]] = [(j + 1,) for j in range(n)]
        return nargs, d

    def direct(i):
        """One worker driven with arbitrary batches."""
        r = random.Random(f"{SEED}/d/{i}")
        dims = pick_dims(r, r.choice([1, 1, 2, 2, 3])) if r.random() < 0.97 else []
        shape = [len(p) for _, p, *_ in dims]
        nargs, sa = stage_arguments(r)
        single = r.random() < 0.25
        sect = list(np.ndindex(*shape))
        batches = []
        for _ in range(r.choice([1, 1, 2, 3])):
            n = 1 if single else r.choice([1, 2, 3, 5, 8])
            order = r.choice(["random", "sweep", "pingpong"])
            if order == "random": b = [r.choice(sect) for _ in range(n)]
            elif order == "sweep": s0 = r.randrange(len(sect)); b = [sect[(s0 + j) % len(sect)] for j in range(n)]
            else: a, z = r.choice(sect), r.choice(sect); b = [(a, z)[j % 2] for j in range(n)]
            batches.append(b)
        if any(not x for x in batches): batches = [x for x in batches if x]
        def fn():
            import ray
            o = mcbench.Bench()
            grid = [GridDimension(objs(o, kind), name, [SamplePoint(p) if r.random() < 0.3 else p for p in pts]) for name, pts, kind, *_ in dims]
            src = ray.remote(mcbench.BatchSource).remote(batches)
            a = ray.remote(mcbench.BenchActor).options(max_concurrency=2).remote(src, (o, grid, [mcbench.BenchEvaluator(o, 0)]), 0, sa, False)
            ray.get(a.run.remote())
            return [(tuple(int(x) for x in s.grid_section), s.artifacts[0].id) for ref in ray.get(a.fetch_results.remote()) for s in ray.get(ref)]
        out, log, _ = fakeray.simulate(fn, i, switch=0.0, files=())
        # batch borders, as seen by the queue
        l2 = []; open_ = False
        for e in log:
            if e[0] == "call" and e[3] == "next_batch":
                if open_: l2.append(("batch-end",))
                open_ = bool(e[4])
                if open_: l2.append(("batch",))
            else: l2.append(e)
        ev = events(l2, dims, nargs, single)
        if out[0] == "ok":
            ev += [{"op": "file", "id": x, "vals": [v + 1 for v in crd]} for crd, x in out[1]]
            ev.append({"op": "finish", "exc": ""})
        else: ev.append({"op": "finish", "exc": str(out[0]), "what": str(out[1:])[:600]})
        return {"key": f"direct{i}", "c": {"ns": NS, "w": 1, "dims": [{"f": f, "l": l} for *_, f, l in dims]}, "ev": ev}

    def e2e(i):
        """Whole simulations: dimensions added in any order, several workers."""
        r = random.Random(f"{SEED}/e/{i}")
        dims = pick_dims(r, r.choice([1, 2, 2, 3]))
        extra = r.random() < 0.3 and len(dims) > 1
        nargs, sa = stage_arguments(r)
        workers = r.choice([1, 2, 3])
        def fn():
            o = mcbench.Bench()
            mc = pm.MonteCarlo(o, r.choice([1, 2, 3]), [mcbench.BenchEvaluator(o, 0)], num_actors=workers, console_mode="SILENT",
                               progress_log_interval=0.01, console=Console(file=null), catch_exceptions=False)
            add = None
            for j, (name, pts, kind, *_) in enumerate(dims):
                if extra and j == len(dims) - 1: add = {GridDimension(objs(o, kind), name, pts)}
                else: mc.new_dimension(name, pts, *(() if kind == "self" else objs(o, kind)))
            res = mc.simulate(mcbench.BenchActor, add, sa)
            x = res.evaluation_results[0]
            return [(d.title, [p.value for p in d.sample_points]) for d in x.grid], list(x.entries)
        out, log, _ = fakeray.simulate(fn, i, switch=r.choice([0, 0.05, 0.2]), files=())
        order = dims
        ev = None
        if out[0] == "ok":
            grid, entries = out[1]
            # the returned dimensions are identified by their points, which are unique per dimension
            order = []
            for _, pts in grid:
                m = [d for d in dims if d[1][0] == pts[0] and len(d[1]) == len(pts)]
                order.append(m[0] if m else dims[0])
            ev = events(log, order, nargs, False)
            ev += [{"op": "file", "id": x, "vals": [v + 1 for v in crd]} for crd, x in entries]
            ev.append({"op": "finish", "exc": "" if len(grid) == len(dims) else "dimensions-missing"})
        else:
            ev = events(log, order, nargs, False) + [{"op": "finish", "exc": str(out[0]), "what": str(out[1:])[:600]}]
        return {"key": f"e2e{i}", "c": {"ns": NS, "w": workers, "dims": [{"f": f, "l": l} for *_, f, l in order]}, "ev": ev}

    traces = pmap(direct, 12000 if THOROUGH else 1200, 200 if THOROUGH else 25)
    traces += pmap(e2e, 2500 if THOROUGH else 300, 200 if THOROUGH else 25)
    c.extra["direct_batches"] = sum(1 for t in traces for e in t["ev"] if e["op"] == "begin")
    c.validate(traces, jobs=6)
    c.assumptions += ["stage identifiers named by dimensions and stage arguments exist", "ray is replaced by a stand-in (see C02)"]

main("C03", "Grid", body)
