"""C10: the algebra of multi-stream signal models."""
from vlib import *
import pickle

FS, CF = 8.0, 1e3
NONE = 99999


def body(c: Check):
    import numpy as np
    with quiet():
        from hermespy.core import Signal, DenseSignal, SparseSignal
        from hermespy.core.signal_model import SignalBlock

    def rows(m, k, n): return [[gint(m[i, j]) for j in range(n)] for i in range(k)]

    def snap(x):
        """Everything a user can read off a signal."""
        if x is None: return {"exc": "", "k": 0, "n": 0, "d": 0, "nz": 0, "m": [], "bl": [], "en": [], "pw": [], "meta": "", "kind": "d"}
        def look():
            D = x.to_dense().view(np.ndarray)
            k, n = int(x.num_streams), int(x.num_samples)
            if D.shape != (k, n) or tuple(x.shape) != (k, n): return {"exc": "shape"}
            bl = [{"o": int(b.offset), "k": int(b.shape[0]), "n": int(b.shape[1]), "m": rows(b.view(np.ndarray), *b.shape)} for b in x.blocks]
            en = imat(np.asarray(x.energy).reshape(-1)) if n > 0 else []
            pw = imat(np.asarray(x.power).reshape(-1) * n) if n > 0 else []
            meta = []
            if x.sampling_rate != FS: meta.append("rate")
            if x.carrier_frequency != CF: meta.append("carrier")
            if abs(x.duration - n / FS) > 1e-12: meta.append("duration")
            if len(x.timestamps) != n or list(x.block_offsets) != [b["o"] for b in bl] or x.num_blocks != len(bl): meta.append("blocks")
            return {"exc": "", "k": k, "n": n, "d": xint(x.delay * FS), "nz": xint(x.noise_power), "m": rows(D, k, n), "bl": bl,
                    "en": en, "pw": pw, "meta": "-".join(meta), "kind": "s" if isinstance(x, SparseSignal) else "d"}
        v, e = attempt(look)
        if v is None or v["exc"]: return {"exc": e or "shape", "k": -1, "n": -1, "d": -1, "nz": -1, "m": [], "bl": [], "en": [], "pw": [], "meta": "", "kind": "d"}
        return v

    def mat(m, k, n):
        return np.array([[complex(*z) for z in r] for r in m], dtype=complex).reshape(k, n)

    def build(r, o):
        x, M = construct(r, o)
        M += 1000   # the caller's samples are not the signal's
        return x

    def construct(r, o):
        M, kw = mat(o["m"], o["k"], o["n"]), dict(sampling_rate=FS, carrier_frequency=CF, noise_power=float(o["nz"]), delay=o["d"] / FS)
        k, n = M.shape
        via = o.get("via") or ("array" if o["kind"] == "d" else "sparse")
        if via == "array": return Signal.Create(M, **kw), M
        if via == "from": return DenseSignal.FromNDArray(M, **kw), M
        if via == "new": return DenseSignal(k, n, buffer=M.copy(), **kw), M
        if via == "empty": return Signal.Empty(num_streams=k, num_samples=n, **kw), M
        if via == "zeros": return DenseSignal.Zeros(k, n, **kw), M
        if via == "offset":
            b = SignalBlock(k, n, o["off"], M.tobytes())
            return Signal.Create([b] if o["nz"] else b, **kw), M
        if via == "offsets": return Signal.Create([M], offsets=[o["off"]], **kw), M
        if via == "sparse": return SparseSignal(M, **kw), M
        if via == "blocks":
            cuts = o["cuts"]
            bl = [SignalBlock(k, b - a, a, np.ascontiguousarray(M[:, a:b]).tobytes()) for a, b in zip(cuts, cuts[1:])]
            bl = [b for i, b in enumerate(bl) if np.any(b.view(np.ndarray)) or i == len(bl) - 1]
            return (Signal.Create(bl, **kw) if len(bl) != 1 else SparseSignal(bl, **kw)), M
        raise MachineryError(via)

    def history(r, K, ops, key):
        slot = [None] * K
        ev = []
        for o in ops:
            o = dict(o)
            if callable(o.get("fill")): o = o.pop("fill")(slot, o)
            if o is None: continue
            t, op = o["t"], o["op"]
            if op == "poke" and (not ev or ev[-1]["exc"] or ev[-1]["t"] != t or ev[-1]["op"] not in ("copy", "sup", "apps", "mul")): continue
            a = slot[o["a"] - 1] if o.get("a") else None
            b = slot[o["b"] - 1] if o.get("b") else None
            if (o.get("a") and a is None) or (o.get("b") and b is None): continue
            def sl(q):
                q = [None if v == NONE else v for v in q]
                return slice(*q)
            def go():
                if op == "new": return build(r, o)
                if op == "sup":
                    if o["none"]: return a.superimpose(b)
                    q = [i - 1 for i in o["idx"]]
                    return a.superimpose(b, stream_indices=np.array(q, dtype=int) if o.get("arr") else q)
                if op == "apps": return a.append_samples(b.to_dense().view(np.ndarray).copy() if o.get("raw") else b)
                if op == "appst": return a.append_streams(b.to_dense().view(np.ndarray).copy() if o.get("raw") else b)
                if op == "slice":
                    rs = sl(o["rows"]) if o["rsl"] else [i - 1 for i in o["rows"]]
                    if not o["rsl"] and o.get("one"): rs = rs[0]
                    return a[rs, sl(o["cols"])]
                if op == "mul": return a * complex(*o["z"])
                if op == "copy": return a.copy()
                if op == "dense": return a.to_dense()
                if op == "pickle": return pickle.loads(pickle.dumps(a))
                if op == "up":
                    # sinc interpolation keeps the samples at the original instants; anti-aliasing works for any length
                    f = o.setdefault("f", r.choice([2, 3, 4]))
                    y = a.resample(f * FS, aliasing_filter=False)
                    D = np.array(y.to_dense().view(np.ndarray))
                    if np.allclose(D[:, ::f], np.round(D[:, ::f]), atol=1e-9): D = np.where(np.arange(D.shape[1]) % f == 0, np.round(D), D)   # rounding errors
                    z = Signal.Create(np.ascontiguousarray(D[:, ::f]), FS, y.carrier_frequency, y.noise_power, y.delay)
                    ok = y.sampling_rate == f * FS and D.shape == (a.num_streams, f * a.num_samples)
                    for g, q in ((f, f * a.num_samples), (1 / f, -(-a.num_samples // f))):
                        w = a.resample(g * FS)
                        ok = ok and w.sampling_rate == g * FS and w.num_streams == a.num_streams and abs(w.delay - a.delay) < 1e-12 and w.noise_power == a.noise_power
                        if not isinstance(a, SparseSignal): ok = ok and w.num_samples == q
                    return z if ok else z * 1000 + 1
                if op == "inter":
                    return DenseSignal.FromInterleaved(a.to_interleaved(scale=False), scale=False, sampling_rate=FS, carrier_frequency=CF,
                                                       noise_power=a.noise_power, delay=a.delay)
                if op == "poke":
                    slot[t - 1][o["i"] - 1:o["i"], o["j"] - 1:o["j"]] = complex(*o["z"]); return slot[t - 1]
                raise MachineryError(op)
            x, e = attempt(go)
            if not e: slot[t - 1] = x
            e = {k: v for k, v in o.items() if k not in ("via", "cuts", "raw", "arr", "one", "exc", "kind" if op != "new" else "")} | {"exc": e}
            e["all"] = [snap(g) for g in slot]
            ev.append(e)
            if any(g["exc"] for g in e["all"]): break
        return {"key": key, "c": {"K": K}, "ev": ev}

    edges = c.model(emit=True, expect_ops=["new", "sup", "apps", "appst", "slice", "copy", "dense", "pickle", "up"])
    paths = [h for _, h in c.tour(edges, max_len=4)]
    rp = random.Random(SEED); rp.shuffle(paths)
    if not THOROUGH: paths = paths[:1200]

    def run_tour(i):
        return history(random.Random(f"{SEED}/t{i}"), 2, paths[i], "tour")

    def rnd_new(r, t, K):
        k, n = r.choice([1, 1, 2, 2, 2, 3, 3, 4]), r.choice([0, 1, 2, 3, 4, 5, 7, 9])
        d = r.choice([0, 0, 0, 1, 2, 3, 6])
        kind = r.choice("dds")
        dens = r.choice([0.2, 0.5, 1.0])
        M = [[[r.randint(-3, 3), r.randint(-3, 3)] if r.random() < dens else [0, 0] for _ in range(n)] for _ in range(k)]
        if r.random() < 0.2 and k > 1:   # streams cancelling each other
            M[1] = [[-z[0], -z[1]] for z in M[0]]
        if kind == "s" and n > 2 and r.random() < 0.6:
            g = r.randrange(n)
            for row in M:
                for j in range(g, min(n, g + r.randint(1, 3))): row[j] = [0, 0]
        o = {"op": "new", "t": t, "kind": kind, "k": k, "n": n, "d": d, "off": 0, "nz": r.randint(0, 2), "m": M}
        if kind == "d":
            o["via"] = r.choice(["array", "array", "from", "new", "offset", "offsets", "empty", "zeros"])
            if o["via"] in ("offset", "offsets"): o["off"] = r.randint(0, 4)
            if o["via"] in ("empty",): o["n"] = 0; o["m"] = [[] for _ in range(k)]
            if o["via"] == "zeros": o["m"] = [[[0, 0]] * n for _ in range(k)]
        else:
            o["via"] = r.choice(["sparse", "blocks"]) if n > 0 else "sparse"
            if o["via"] == "blocks":
                o["cuts"] = sorted({0, n} | {r.randrange(n + 1) for _ in range(r.randint(0, 3))})
        return o

    def rnd_op(r, K):
        t, a, b = r.randint(1, K), r.randint(1, K), r.randint(1, K)
        x = r.random()
        if x < 0.2: return rnd_new(r, t, K)
        if x < 0.5:
            def fill(slot, o):
                A, B_ = slot[a - 1], slot[b - 1]
                if A is None or B_ is None: return None
                o["none"] = r.random() < 0.5
                o["idx"] = []
                if not o["none"]:
                    q = r.sample(range(1, max(1, A.num_streams) + 1), r.randint(0, A.num_streams)) if A.num_streams else []
                    if r.random() < 0.5 and B_.num_streams <= A.num_streams: q = r.sample(range(1, A.num_streams + 1), B_.num_streams)
                    if r.random() < 0.05: q = q + [A.num_streams + 1]
                    o["idx"] = q; o["arr"] = r.random() < 0.3
                return o
            return {"op": "sup", "t": t, "a": a, "b": b, "fill": fill}
        if x < 0.65:
            op = r.choice(["apps", "appst"])
            return {"op": op, "t": t, "a": a, "b": b, "raw": r.random() < 0.3}
        if x < 0.8:
            def fill(slot, o):
                A = slot[a - 1]
                if A is None: return None
                k, n = int(A.num_streams), int(A.num_samples)
                def rq(n): return [r.choice([NONE, 0, r.randint(-n - 1, n + 1)]), r.choice([NONE, n, r.randint(-n - 1, n + 2)]), r.choice([NONE, 1, 2, 3])]
                o["rsl"] = r.random() < 0.5 or k == 0
                o["rows"] = [NONE, NONE, NONE] if r.random() < 0.5 else rq(k)
                if not o["rsl"]:
                    o["rows"] = [r.randint(1, k) for _ in range(r.randint(1, 3))]
                    if r.random() < 0.4: o["rows"] = o["rows"][:1]; o["one"] = True
                o["cols"] = rq(n)
                return o
            return {"op": "slice", "t": t, "a": a, "fill": fill}
        if x < 0.85: return {"op": "mul", "t": t, "a": a, "z": [r.randint(-1, 2), r.randint(-1, 1)]}
        if x < 0.97: return {"op": r.choice(["copy", "copy", "dense", "pickle", "inter", "up"]), "t": t, "a": a}
        return None

    def run(i):
        r = random.Random(f"{SEED}/{i}")
        K = 3
        ops = [rnd_new(r, t, K) for t in range(1, K + 1)]
        own = {t: True for t in range(1, K + 1)}
        n = r.randint(2, 10)
        while len(ops) < K + n:
            o = rnd_op(r, K)
            if o is not None: ops.append(o)
            if r.random() < 0.25:
                # write into a freshly computed signal: nothing else may change
                t = r.randint(1, K); a, b = r.randint(1, K), r.randint(1, K)
                kind = r.choice(["copy", "sup", "apps", "mul"])
                base = {"op": kind, "t": t, "a": a, "b": b, "z": [1, 0]} if kind in ("sup", "apps") else {"op": kind, "t": t, "a": a, "z": [1, 0]}
                if kind == "sup": base |= {"none": True, "idx": []}
                if kind in ("sup", "apps", "copy"): base.pop("z")
                ops.append(base)
                def fill(slot, o, t=t):
                    A = slot[t - 1]
                    if not isinstance(A, DenseSignal) or A.num_samples < 1 or A.num_streams < 1: return None
                    o["i"], o["j"] = r.randint(1, int(A.num_streams)), r.randint(1, int(A.num_samples))
                    return o
                ops.append({"op": "poke", "t": t, "z": [7, 5], "fill": fill, "pair": len(ops)})
        for o in ops: o.pop("pair", None)
        return history(r, K, ops, "random")

    traces = pmap(run_tour, len(paths))
    traces += pmap(run, 20000 if THOROUGH else 2500)
    c.extra["tours"] = len(paths)
    c.validate(traces, jobs=7)
    cnt = collections.Counter(e["op"] for t in traces for e in t["ev"] if not e["exc"])
    c.extra["operations"] = dict(cnt)
    for o in ("new", "sup", "apps", "appst", "slice", "mul", "copy", "dense", "pickle", "inter", "up", "poke"): c.require(cnt[o] > 20, f"too few {o}")

main("C10", "Signals", body)
