"""C22: resource grids of orthogonal multicarrier frames."""
from vlib import *
BW = 1024.0


def body(c: Check):
    import numpy as np
    with quiet():
        from hermespy.core import Factory
        from hermespy.modem import (CustomPilotSymbolSequence, ElementType, GridElement, GridResource, GuardSection, OCDMWaveform, OFDMWaveform, OrthogonalLeastSquaresChannelEstimation, OTFSWaveform,
                                    PilotSection, PrefixType, StatedSymbols, SymbolSection, Symbols)
        factory = Factory()
    T = {"D": ElementType.DATA, "R": ElementType.REFERENCE, "N": ElementType.NULL}
    PX = {"cyclic": PrefixType.CYCLIC, "zero": PrefixType.ZEROPAD, "none": PrefixType.NONE}
    KIND = {"ofdm": OFDMWaveform, "otfs": OTFSWaveform, "ocdm": OCDMWaveform}

    def resource(x): return GridResource(x["reps"], PX[x["px"]], x["num"] / x["den"], [GridElement(T[e["t"]], e["r"]) for e in x["els"]])
    def section(x): return GuardSection(x["g"] / BW, x["reps"]) if x["k"] == "guard" else SymbolSection(x["reps"], [i - 1 for i in x["pat"]], x["off"])
    def pilot(p): return None if p["k"] == "none" else PilotSection() if p["k"] == "default" else PilotSection(Symbols(np.array([complex(*v) / 1000 for v in p["v"]]).reshape(1, -1, 1)))
    def milli(a): return [[int(round(v.real * 1000)), int(round(v.imag * 1000))] for v in np.asarray(a).flatten()]
    def build(kind, n, dc, order, res, secs, pil=None, refs=None):
        kw = dict(dc_suppression=dc) if kind != "ocdm" else {}
        if refs is not None: kw["pilot_sequence"] = CustomPilotSymbolSequence(np.array(refs, complex))
        return KIND[kind](grid_resources=res, grid_structure=secs, num_subcarriers=n, modulation_order=order, pilot_section=pil, **kw)
    def bare(kind, n, dc): return build(kind, n, dc, 4, [GridResource(1, PrefixType.NONE, 0.0, [GridElement(ElementType.DATA, n)])], [SymbolSection(1, [0])])
    def pilots(kind, n, dc, os_, samples): return milli(bare(kind, n, dc).demodulate(samples, BW, os_).raw)
    def default_pilot(n, order):
        w = build("ocdm", n, False, order, [GridResource(1, PrefixType.NONE, 0.0, [GridElement(ElementType.DATA, n)])], [SymbolSection(1, [0])], PilotSection())
        return pilots("ocdm", n, False, 1, np.asarray(w.pilot_signal(BW, 1).view(np.ndarray)).flatten())
    table = {(n, o): default_pilot(n, o) for n in range(1, 17) for o in (4, 16)}

    def width(x): return x["reps"] * sum(e["r"] for e in x["els"])

    def random_resource(r, n):
        while True:
            els = [{"t": r.choice("DDDRRN"), "r": r.choice([1, 1, 2, 3])} for _ in range(r.randint(1, 4))]
            reps = r.choice([1, 1, 2, 3])
            x = {"reps": reps, "px": r.choice(["cyclic", "cyclic", "zero", "none"]), "num": r.choice([0, 1, 1, 2, 3]), "den": r.choice([4, 4, 8]), "els": els}
            if width(x) <= n: return x

    def random_secs(r, nres, offs):
        secs = []
        for _ in range(r.randint(1, 4)):
            if r.random() < 0.25: secs.append({"k": "guard", "reps": r.choice([1, 1, 2]), "g": r.randint(0, 5)})
            else: secs.append({"k": "symbols", "reps": r.choice([1, 1, 2, 3]), "pat": [r.randint(1, nres) for _ in range(r.randint(1, 3))], "off": r.choice([0, 0, 1, 2]) if offs else 0})
        if all(x["k"] == "guard" for x in secs): secs.insert(r.randint(0, len(secs)), {"k": "symbols", "reps": 1, "pat": [1], "off": 0})
        return secs

    def random_pilot(r): return r.choice([{"k": "none"}, {"k": "default"}, {"k": "custom", "v": [[1000 * r.randint(-3, 3), 1000 * r.randint(1, 3)] for _ in range(r.randint(1, 5))]}])

    def history(r, cfg, plan, key):
        if cfg is None:
            n = r.choice([1, 2, 3, 4, 4, 5, 6, 7, 8, 8, 12]) if r.random() < 0.9 else 16
            kind = r.choice(["ofdm", "ofdm", "ofdm", "ocdm", "otfs"])
            nres = r.randint(1, 3)
            cfg = {"kind": kind, "os": r.choice([1, 1, 2, 3, 4]), "n": n, "dc": kind != "ocdm" and r.random() < 0.4, "order": r.choice([4, 16]), "refs": [-i for i in range(1, r.choice([1, 3, 7]) + 1)],
                   "res": [random_resource(r, n) for _ in range(nres)], "pilot": random_pilot(r)}
            cfg["secs"] = random_secs(r, nres, kind == "ofdm")
        cfg = dict(cfg, pil=[{"n": a, "order": b, "v": v} for (a, b), v in table.items() if a == cfg["n"] or not plan or any(o["op"] == "subcarriers" for o in plan)])
        kind, os_ = cfg["kind"], cfg["os"]
        off = kind == "ofdm"
        m = {"n": cfg["n"], "res": [dict(x) for x in cfg["res"]], "secs": cfg["secs"], "pilot": cfg["pilot"]}
        w = build(kind, cfg["n"], cfg["dc"], cfg["order"], [resource(x) for x in cfg["res"]], [section(x) for x in cfg["secs"]], pilot(cfg["pilot"]), cfg["refs"])
        ev = []

        def words(): return [i for x in m["secs"] if x["k"] != "guard" for _ in range(x["reps"]) for i in x["pat"]]
        def ndata(): return sum(x["reps"] * sum(e["r"] for e in x["els"] if e["t"] == "D") for i in words() for x in [m["res"][i - 1]])
        def frame(g): return np.array(w.modulate(Symbols(np.array(g, complex).reshape(1, len(words()), m["n"])), BW, os_))
        def integers(a): return [[xint(v) for v in row] for row in np.asarray(a).reshape(-1, m["n"])]
        def labels(lo=100): return [[lo + i * m["n"] + k for k in range(m["n"])] for i in range(len(words()))]
        for o in plan:
            o = dict(o); op = o["op"]
            if op == "place" and "d" not in o:
                o["d"] = [r.randint(1, 99) for _ in range(ndata() + r.choice([0] * 9 + [-1, 1]))] if ndata() else []
            if op == "pick" or op == "demodulate": o["g"] = [[r.randint(-9, 9) for _ in range(m["n"])] for _ in words()] if op == "demodulate" else labels(r.randint(1, 50))
            if op == "spread":
                if kind == "otfs" or m["n"] < 3: continue
                o.setdefault("w", r.randint(1, len(words())))
            if op == "resource" and "i" not in o:
                o["i"], o["r"] = r.randint(1, len(m["res"])), random_resource(r, m["n"])
                if r.random() < 0.07: o["r"]["reps"] = r.choice([0, -1])
            if op == "structure" and "q" not in o:
                o["q"] = random_secs(r, len(m["res"]), off)
                if r.random() < 0.07: o["q"][0] = dict(o["q"][0], reps=0)
            if op == "pilot" and "p" not in o: o["p"] = random_pilot(r)
            if op == "order": o.setdefault("v", r.choice([4, 16]))
            if op == "repeat": o.setdefault("v", r.random() < 0.5)
            if op == "dc":
                if kind == "ocdm": continue
                o.setdefault("v", r.random() < 0.5)
            if op == "subcarriers":
                o.setdefault("v", r.choice([0, -1] if r.random() < 0.1 else range(max(width(x) for x in m["res"]), 17)))
            if op == "estimate":
                h = r.choice([1, 2, -3, 5])
                o["h"] = [[h if o.get("const") else r.randint(1, 9) for _ in range(m["n"])] for _ in words()]
            if op == "pilot" and o["p"]["k"] == "custom": o["p"] = dict(o["p"], v=[list(v) if isinstance(v, (list, tuple)) else [1000 * v, 0] for v in o["p"]["v"]])

            def go():
                nonlocal w
                if op == "read":
                    o["data"], o["ref"], o["syms"], o["words"] = int(w.num_data_symbols), int(w.references_per_frame), int(w.symbols_per_frame), int(w.words_per_frame)
                    o["samples"], o["secs"] = int(w.samples_per_frame(BW, os_)), [int(x.num_samples(BW, os_)) for x in w.grid_structure]
                    q = np.asarray(w.resource_mask)
                    o["mask"] = [["".join(t for t in "RDN" if q[T[t].value, i, k]) or "." for k in range(q.shape[2])] for i in range(q.shape[1])]
                    o["n"], o["order"], o["dc"] = int(w.num_subcarriers), int(w.modulation_order), bool(getattr(w, "dc_suppression", False))
                elif op == "place": o["g"] = integers(w.place(Symbols(np.array(o["d"], complex).reshape(1, -1, 1))).raw)
                elif op == "pick":
                    g = np.array(o["g"], complex)
                    k = r.choice([0, 0, 1])     # the stream carrying the labels
                    raw, states = np.zeros((k + 1, *g.shape), complex), np.zeros((k + 1, 2, *g.shape), complex)
                    raw[k], states[k, 1] = g, g
                    p = w.pick(StatedSymbols(raw, states))
                    o["v"] = [xint(v) for v in np.asarray(p.raw)[k].flatten()]
                    o["h"] = [xint(v) for v in np.asarray(p.dense_states())[k, 1].flatten()]
                elif op == "spread":
                    g = np.zeros((len(words()), m["n"]), complex)
                    z = frame(g)
                    g[o["w"] - 1] = [complex(r.uniform(1, 2), r.uniform(1, 2)) for _ in range(m["n"])]
                    f = frame(g)
                    o["len"] = int(f.size)
                    q = f - z
                    at = [i for i in range(f.size) if abs(q[i]) > 1e-9]
                    o["at"] = [[i, next(j + 1 for j, k in enumerate(at) if abs(q[i] - q[k]) < 1e-9)] for i in at]
                elif op == "blank":
                    np.full(4096, 7.0, complex)      # stale memory to be handed out again
                    f = frame(np.zeros((len(words()), m["n"])))
                    p = np.asarray(w.pilot_signal(BW, os_).view(np.ndarray)).flatten()
                    head = m["n"] * os_ if m["pilot"]["k"] != "none" else 0
                    o["len"], o["alone"] = int(f.size), int(p.size)
                    o["rest"] = int(np.sum(~(np.abs(f[head:]) < 1e-12)))
                    o["pilot"] = pilots(kind, m["n"], bool(getattr(w, "dc_suppression", False)), os_, f[:head]) if head else []
                    if head and not np.allclose(p, f[:head]): o["pilot"] = [["differs", "from pilot signal"]]
                elif op == "demodulate":
                    f = frame(o["g"]); keep = f.copy()
                    o["back"] = integers(w.demodulate(f, BW, os_).raw)
                    if not np.array_equal(keep, f): o["back"] = [[BIG]]
                elif op == "estimate":
                    if any(e["t"] == "R" for i in words() for e in m["res"][i - 1]["els"]):
                        x = w.place(Symbols(np.ones((1, ndata(), 1), complex))).raw[0]
                    else: x = np.ones((len(words()), m["n"]), complex)
                    est = OrthogonalLeastSquaresChannelEstimation(w).estimate_channel(Symbols((x * np.array(o["h"]))[None]), BW, os_)
                    q = np.asarray(est.dense_states())[0, 0]
                    ref = np.asarray(w.resource_mask)[T["R"].value]
                    o["est"] = [[xint(complex(round(q[i, k].real, 6), round(q[i, k].imag, 6))) if ref[i, k] or o.get("const") else 0 for k in range(m["n"])] for i in range(len(words()))]
                elif op == "resource":
                    x, q = w.grid_resources[o["i"] - 1], o["r"]
                    if r.random() < 0.3 and q["reps"] > 0: resource(q)
                    x.repetitions = q["reps"]
                    x.prefix_type, x.prefix_ratio, x.elements = PX[q["px"]], q["num"] / q["den"], [GridElement(T[e["t"]], e["r"]) for e in q["els"]]
                elif op == "structure": w.grid_structure = [section(x) for x in o["q"]]
                elif op == "pilot":
                    if w.pilot_section is not None and o["p"]["k"] != "none" and r.random() < 0.6: w.pilot_section.pilot_elements = pilot(o["p"]).pilot_elements
                    else: w.pilot_section = pilot(o["p"])
                elif op == "order": w.modulation_order = o["v"]
                elif op == "repeat": w.repeat_pilot_symbol_sequence = o["v"]
                elif op == "dc": w.dc_suppression = o["v"]
                elif op == "subcarriers": w.num_subcarriers = o["v"]
                elif op == "load":
                    with tempfile.TemporaryDirectory() as d:
                        factory.to_HDF(d + "/w.h5", w); w = factory.from_HDF(d + "/w.h5", KIND[kind])
            if op == "demodulate" and any(x["k"] != "guard" and x["off"] and any(m["res"][i - 1]["px"] != "cyclic" or m["n"] * os_ * m["res"][i - 1]["num"] // m["res"][i - 1]["den"] < x["off"] for i in x["pat"]) for x in m["secs"]): continue
            _, e = attempt(go)
            o["exc"] = e
            ev.append(o)
            if not e:
                if op == "resource": m["res"][o["i"] - 1] = o["r"]
                elif op == "structure": m["secs"] = o["q"]
                elif op == "pilot": m["pilot"] = o["p"]
                elif op == "subcarriers": m["n"] = o["v"]
        return {"key": key + f" {kind} os {os_}", "c": cfg, "ev": ev}

    c.model(cfg="MCResourcesDeep.cfg")
    edges = c.model(emit=True, expect_ops=["place", "pick", "spread", "blank", "demodulate", "load", "resource", "structure", "pilot", "order", "subcarriers"])
    tours = c.tour(edges, max_len=40)
    random.Random(SEED).shuffle(tours)

    def run_tour(i):
        r = random.Random(f"{SEED}/t{i}")
        init, ops = tours[i]
        cfg = dict(init["c"], os=r.choice([1, 2, 3]), kind=r.choice(["ofdm", "ofdm", "ocdm"]))
        return history(r, cfg, [{k: v for k, v in o.items() if k != "exc"} for o in ops] + [{"op": "read"}], "tour")

    def run(i):
        r = random.Random(f"{SEED}/{i}")
        names = ["read", "place", "pick", "spread", "blank", "demodulate", "estimate", "estimate", "resource", "structure", "pilot", "order", "subcarriers", "repeat", "dc", "load"]
        plan = [{"op": "read"}, {"op": "demodulate"}, {"op": "place"}, {"op": "pick"}, {"op": "blank"}] if r.random() < 0.5 else []
        for _ in range(r.randint(5, 18)):
            o = {"op": r.choices(names, [3, 3, 2, 3, 3, 4, 1, 1, 2, 1.5, 2, 0.7, 0.7, 0.5, 0.7, 0.7])[0]}
            if o["op"] == "estimate" and r.random() < 0.5: o["const"] = True
            plan.append(o)
        return history(r, None, plan + [{"op": k} for k in ("read", "demodulate", "place", "blank")], "random")

    traces = pmap(run_tour, len(tours), seconds=60)
    traces += pmap(run, 20000 if THOROUGH else int(os.environ.get("NR", 2500)), seconds=120)
    c.validate(traces, jobs=7)
    cnt = collections.Counter(e["op"] + ("!" if e["exc"] else "") for t in traces for e in t["ev"])
    c.extra["operations"] = dict(cnt); c.extra["tours"] = len(tours)
    for o in ("read", "place", "place!", "pick", "spread", "blank", "demodulate", "estimate", "resource", "resource!", "structure", "structure!", "pilot", "order", "subcarriers", "repeat", "dc", "load"): c.require(cnt[o] > 30, f"too few {o}")

main("C22", "Resources", body)
