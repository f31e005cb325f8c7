"""C20: forward error correction chains."""
from vlib import *


def body(c: Check):
    import numpy as np
    with quiet():
        from hermespy.core import Factory
        from hermespy.fec import BlockInterleaver, CyclicRedundancyCheck, EncoderManager, RepetitionEncoder
        from hermespy.fec.scrambler import Scrambler3GPP, Scrambler80211a
        factory = Factory()
    SEEDS = [[0, 1, 0, 1, 1, 0, 1], [1, 1, 1, 1, 1, 1, 1], [1, 0, 0, 1, 0, 0, 1], [0, 0, 0, 0, 0, 0, 1]]
    SEEDS3 = SEEDS + [[1, 0, 1, 1, 0, 0, 1, 1, 1, 0], [0, 1, 1, 0, 0, 1]]
    def bits(a): return [int(v) for v in np.asarray(a).astype(int)]
    N3, N8 = 480, 254
    keys3 = [bits(Scrambler3GPP(np.array(q)).encode(np.zeros(N3, int))) for q in SEEDS3]
    keys8 = [bits(Scrambler80211a(np.array(q)).encode(np.zeros(N8, int))) for q in SEEDS]
    def code(d): return d["b"] * d["k"] if d["kind"] == "rep" else d["b"] + d["k"] if d["kind"] == "crc" else d["b"]

    def entry(r, kind, b):
        if kind == "rep": k = r.choice([1, 3, 3, 5]); return {"kind": "rep", "b": b, "k": k, "key": []}, lambda: RepetitionEncoder(b, k)
        if kind == "int": k = r.choice([x for x in range(1, b + 1) if b % x == 0]); return {"kind": "int", "b": b, "k": k, "key": []}, lambda: BlockInterleaver(b, k)
        if kind == "crc": k = r.randint(0, 5); return {"kind": "crc", "b": b, "k": k, "key": []}, lambda: CyclicRedundancyCheck(b, k)
        if kind == "gpp": i = r.randrange(len(SEEDS3)); return {"kind": "scr", "b": 1, "k": 0, "key": keys3[i]}, lambda: Scrambler3GPP(None if i == 0 and r.random() < 0.3 else np.array(SEEDS3[i]))
        i = r.randrange(len(SEEDS))
        def make():
            if r.random() < 0.5: return Scrambler80211a(np.array(SEEDS[i]))
            x = Scrambler80211a(); x.seed = np.array(SEEDS[i]); return x
        return {"kind": "scr", "b": 1, "k": 0, "key": keys8[i], "wifi": SEEDS[i]}, make

    def history(r, pool, plan, key):
        m = EncoderManager(seed=r.randint(0, 99)) if r.random() < 0.8 else EncoderManager(True, True)
        chain, ev, last = [], [], None    # chain: mirrors the sorted order, used to steer the generation only
        used = 0
        ok = lambda q: all(b["b"] % code(a) == 0 for j, b in enumerate(q) for a in q[:j])
        for p, (d, _) in enumerate(pool):
            if "wifi" in d: ev.append({"op": "keystream", "p": p + 1, "seed": d["wifi"], "exc": ""})
        scr = lambda: any(x["kind"] == "scr" and x["on"] for x in chain)
        for o in plan:
            o = dict(o); op = o["op"]
            if op == "add":
                d = dict(pool[o["p"] - 1][0], on=True)
                at = sum(x["b"] <= d["b"] for x in chain)
                new = chain[:at] + [d] + chain[at:]
                if not ok(new): continue
            if op in ("enable", "reps"):
                if not chain: continue
                o.setdefault("i", r.randint(1, len(chain)))
                if o["i"] > len(chain): continue
                x = chain[o["i"] - 1]
                if op == "enable": o.setdefault("v", not x["on"])
                else:
                    if x["kind"] != "rep": continue
                    o["v"] = r.choice([1, 3, 5, 7, 2, 0])
                    if o["v"] % 2 and not ok(chain[:o["i"] - 1] + [dict(x, k=o["v"])] + chain[o["i"]:]): continue
            act = [x for x in chain if x["on"]]
            B, C = 1, 1
            for x in act: B, C = (x["b"] if x is act[0] else B * (x["b"] // C)), code(x)
            if op == "flags":
                o.setdefault("pad", r.random() < 0.7); o.setdefault("trunc", r.random() < 0.7)
            if op == "encode":
                if "x" not in o:
                    k = r.choice([0, 1, 2, 3]) * B + (0 if r.random() < 0.5 else r.randint(0, B))
                    o["x"] = [r.randint(0, 1) for _ in range(k)]
                    f = -(-k // B) * C
                    o["n"] = 0 if r.random() < 0.6 else max(0, f + r.choice([0, 0, 1, C - 1, C, C + 1, -1, r.randint(0, C)]))
                    if f > 150: continue
                o.pop("y", None)
                if used > 400: continue
            if op == "decode":
                if "n" not in o or last is None:
                    if last is None or r.random() < 0.15: y, n = [r.randint(0, 1) for _ in range(r.randint(0, 3) * C + r.choice([0, 0, r.randint(0, C)]))], 0
                    else: y, n = last
                    y = list(y)
                    for _ in range(r.choice([0, 0, 0, 1, 2, 4])):
                        if y: j = r.randrange(len(y)); y[j] = 1 - y[j]
                    f = len(y) // C * B
                    o["n"] = r.choice([-1, f, n, max(0, f - 1), f + 1, 0])
                else: y = last[0]
                if used > 400 or len(y) > 200: continue
                o["y"] = y
            def go():
                nonlocal m, chain
                if op == "add":
                    m.add_encoder(pool[o["p"] - 1][1]()); chain = new
                elif op == "enable": m.encoders[o["i"] - 1].enabled = o["v"]; chain[o["i"] - 1]["on"] = o["v"]
                elif op == "reps": m[o["i"] - 1].repetitions = o["v"]; chain[o["i"] - 1]["k"] = o["v"]
                elif op == "flags": m.allow_padding, m.allow_truncating = o["pad"], o["trunc"]
                elif op == "load":
                    with tempfile.TemporaryDirectory() as d:
                        factory.to_HDF(d + "/c.h5", m); m = factory.from_HDF(d + "/c.h5", EncoderManager)
                elif op == "encode":
                    x = np.array(o["x"], dtype=r.choice([int, bool, np.int8])); keep = x.copy()
                    y = m.encode(x, o["n"]) if o["n"] else m.encode(x) if r.random() < 0.7 else m.encode(x, None)
                    o["y"] = bits(y); o["intact"] = "yes" if np.array_equal(x, keep) else "no"
                elif op == "decode":
                    y = np.array(o["y"], dtype=r.choice([int, bool])); keep = y.copy()
                    x = m.decode(y, o["n"]) if o["n"] >= 0 else m.decode(y)
                    o["x"] = bits(x); o["intact"] = "yes" if np.array_equal(y, keep) else "no"
                elif op == "read":
                    o["n"] = r.randint(0, 200)
                    o["bits"], o["code"], o["req"] = int(m.bit_block_size), int(m.code_block_size), int(m.required_num_data_bits(o["n"]))
                    o["rate"] = xint(m.rate * C)
                    o["chain"] = [{"b": int(x.bit_block_size), "c": int(x.code_block_size), "on": bool(x.enabled)} for x in m.encoders]
                    o["pad"], o["trunc"] = bool(m.allow_padding), bool(m.allow_truncating)
            was = scr()
            _, e = attempt(go)
            o["exc"] = e
            ev.append(o)
            if e and op in ("add", "load", "enable"): break
            if op == "encode":
                if e and was: break      # where a rejected frame leaves the scrambler is not specified
                if not e: last = (o["y"], len(o["x"])); used += len(o["y"])
            if op == "decode":
                used += len(o["y"])
            if op in ("enable", "reps", "load", "add"): last = None
            if op == "load": used = 0
        return {"key": key, "c": {"pool": [{k: v for k, v in d.items() if k != "wifi"} for d, _ in pool]}, "ev": ev}

    c.model(cfg="MCFecDeep.cfg")
    edges = c.model(emit=True, expect_ops=["add", "enable", "flags", "load", "encode", "decode"])
    tours = c.tour(edges, max_len=40)
    random.Random(SEED).shuffle(tours)
    if not THOROUGH: tours = tours[:500]

    def run_tour(i):
        r = random.Random(f"{SEED}/t{i}")
        init, ops = tours[i]
        real = Scrambler80211a if r.random() < 0.5 else Scrambler3GPP
        key = keys8[0] if real is Scrambler80211a else keys3[0]
        mk = {"scr": lambda d: real, "rep": lambda d: (lambda: RepetitionEncoder(d["b"], d["k"])), "int": lambda d: (lambda: BlockInterleaver(d["b"], d["k"])), "crc": lambda d: (lambda: CyclicRedundancyCheck(d["b"], d["k"]))}
        pool = [(dict(d, key=key) if d["kind"] == "scr" else dict(d, key=[]), mk[d["kind"]](d)) for d in init["pool"]]
        plan = []
        for o in ops:
            o = {k: v for k, v in o.items() if k not in ("exc", "y")}
            plan.append(o)
            if r.random() < 0.2: plan.append({"op": "read"})
        return history(r, pool, plan + [{"op": "read"}], "tour")

    def run(i):
        r = random.Random(f"{SEED}/{i}")
        kinds = r.sample(["rep", "rep", "int", "int", "crc", "crc", "gpp", "wifi"], r.randint(1, 4))
        if r.random() < 0.4 and not {"gpp", "wifi"} & set(kinds): kinds.append(r.choice(["gpp", "wifi"]))
        pool, b = [], r.choice([1, 2, 3, 4, 6])
        for k in kinds:
            d, f = entry(r, k, b)
            pool.append((d, f))
            if k not in ("gpp", "wifi"): b = code(d) * r.choice([1, 1, 2, 3])
            if b > 60: break
        r.shuffle(pool)
        plan = [{"op": "add", "p": p + 1} for p in range(len(pool)) if r.random() < 0.9]
        rest = [{"op": r.choices(["encode", "decode", "enable", "reps", "flags", "load", "read"], [7, 7, 1.2, 0.6, 0.8, 0.6, 2])[0]} for _ in range(r.randint(6, 24))]
        for o in plan:
            if r.random() < 0.3: rest.insert(r.randint(0, len(rest)), o)
            else: rest.insert(0, o)
        return history(r, pool, rest + [{"op": "read"}], "random")

    traces = pmap(run_tour, len(tours), seconds=60)
    traces += pmap(run, 30000 if THOROUGH else 3000, seconds=80)
    c.validate(traces, jobs=7)
    cnt = collections.Counter(e["op"] + ("!" if e["exc"] else "") for t in traces for e in t["ev"])
    c.extra["operations"] = dict(cnt); c.extra["tours"] = len(tours)
    for o in ("add", "enable", "reps", "load", "encode", "encode!", "decode", "decode!", "read", "keystream"): c.require(cnt[o] > 30, f"too few {o}")

main("C20", "Fec", body)
