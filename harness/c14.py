"""C14: radio-frequency chains."""
from vlib import *


def body(c: Check):
    import numpy as np
    with quiet():
        from hermespy.core import Factory, Signal
        from hermespy.simulation.rf import (ADC, DAC, IdealMixer, Mixer, MixerType, N0, PowerAmplifier, RFBlock, RFBlockPort, RFBlockPortType, RFBlockRealization, RFChain, RFSignal, Shift, Source, Split, Sum, X4)
        from hermespy.simulation.rf.block import DSPInputBlock, DSPOutputBlock
        from hermespy.simulation.rf.chain import RFBlockPortReference
        factory = Factory()
    class Custom:
        def __init__(self, m, ni, no):
            self.m, self.ni, self.no = np.array(m, complex).reshape((no, ni)), ni, no
            RFBlock.__init__(self, seed=1)
            self.i, self.o = RFBlockPort(self, range(ni), RFBlockPortType.IN), RFBlockPort(self, range(no), RFBlockPortType.OUT)
        num_input_ports = property(lambda s: s.ni)
        num_output_ports = property(lambda s: s.no)
        def realize(self, bandwidth, oversampling_factor, carrier_frequency): return RFBlockRealization(bandwidth, oversampling_factor, self.noise_model.realize(0.0))
        def _propagate(self, realization, input):
            f = input.carrier_frequencies
            keep = f if self.ni == self.no else np.full(self.no, f[0] if len(f) else 0.)
            return RFSignal.FromNDArray(self.m @ input.view(np.ndarray), input.sampling_rate, keep.copy())
    class Lin(Custom, RFBlock): ...
    class LinIn(Custom, DSPInputBlock): ...
    class LinOut(Custom, DSPOutputBlock): ...

    PH = [[1, 0], [0, 1], [-1, 0], [0, -1]]
    def eye(n, z=(1, 0)): return [[list(z) if i == j else [0, 0] for i in range(n)] for j in range(n)]
    def blk(make, ni, no, m, dsp="no", kind="lin", fm="keep", fs=0, ser=True):
        return {"make": make, "ser": ser, "d": {"kind": kind, "ni": ni, "no": no, "dsp": dsp, "m": m, "fm": fm, "fs": fs}}
    def entry(r, kind):
        if kind == "dac": n = r.randint(1, 3); return blk(lambda: (DAC, dict(num_ports=n)), n, n, eye(n), "in")
        if kind == "adc": n = r.randint(1, 3); return blk(lambda: (ADC, dict(num_ports=n)), n, n, eye(n), "out", fm="any")
        if kind == "split": n = r.randint(1, 3); return blk(lambda: (Split, dict(num_outputs=n)), 1, n, [[[1, 0]]] * n)
        if kind == "sum": n = r.randint(1, 3); return blk(lambda: (Sum, dict(num_input_ports=n)), n, 1, [[[1, 0]] * n])
        if kind == "shift": n, k = r.randint(1, 3), r.randint(0, 3); return blk(lambda: (Shift, dict(phase=k * np.pi / 2, num_ports=n)), n, n, eye(n, PH[k]))
        if kind == "pa": g = r.randint(0, 3); return blk(lambda: (PowerAmplifier, dict(gain=float(g))), 1, 1, eye(1, (g, 0)))
        if kind == "x4": return blk(lambda: (X4, {}), 1, 1, eye(1), fm="x4")
        if kind == "imix": u, f = r.random() < 0.5, r.choice([0, 10, 30]); return blk(lambda: (IdealMixer, dict(mixer_type=MixerType.UP if u else MixerType.DOWN, lo_frequency=float(f))), 1, 1, eye(1), fm="up" if u else "down", fs=f)
        if kind == "mix": u = r.random() < 0.5; return blk(lambda: (Mixer, dict(mixer_type=MixerType.UP if u else MixerType.DOWN)), 2, 1, [], kind="mul", fm="up" if u else "down")
        if kind == "src": a, f = r.randint(0, 3), r.choice([0, 40]); return blk(lambda: (Source, dict(carrier_frequency=float(f), amplitude=float(a))), 0, 1, [[[a, 0]]], kind="src", fs=f)
        no, ni = r.randint(1, 3), r.randint(1, 3)
        m = [[r.choice([[0, 0], *PH]) for _ in range(ni)] for _ in range(no)]
        C, dsp = {"lin": (Lin, "no"), "lin-in": (LinIn, "in"), "lin-out": (LinOut, "out")}[kind]
        return blk(lambda: (C, dict(m=[[complex(*z) for z in q] for q in m], ni=ni, no=no)), ni, no, m, dsp, ser=False)

    def history(r, pool, plan, key, shared=True):
        chain = RFChain(seed=3)
        refs, kinds, ev = [], [], []
        calls = collections.Counter()
        objs = {}
        def watch(block, b):
            if "_propagate" in block.__dict__: return
            inner = block._propagate
            def wrapped(*a, **k): calls[b] += 1; return inner(*a, **k)
            block._propagate = wrapped
        def links():
            out, back = [], []
            at = {id(x): i + 1 for i, x in enumerate(refs)}
            for i, x in enumerate(refs):
                for q, (po, pi) in x.outgoing_connections.items(): out += [[i + 1, int(a) + 1, at[id(q)], int(b) + 1] for a, b in zip(po, pi, strict=True)]
                for q, (po, pi) in x.incoming_connections.items(): back += [[at[id(q)], int(a) + 1, i + 1, int(b) + 1] for a, b in zip(po, pi, strict=True)]
            return out, back
        def obs():
            out, back = links()
            return {"oi": [[int(p) + 1 for p in x.open_input_ports] for x in refs], "oo": [[int(p) + 1 for p in x.open_output_ports] for x in refs],
                    "cn": [[int(x.num_connected_input_ports), int(x.num_connected_output_ports)] for x in refs], "links": out, "back": back,
                    "dig": [int(chain.num_digital_input_ports), int(chain.num_digital_output_ports)]}
        def ports(ref, ix, out):
            b = pool[kinds[refs.index(ref)]]["d"]
            name = "o" if out else "i"
            if b["kind"] == "mul" and not out:
                if len(ix) == 1 and ix[0] == 2: p = ref.port("lo"); return p
                if ix != [1]: return RFBlockPortReference(ref, [k - 1 for k in ix], RFBlockPortType.IN)
                return ref.i if r.random() < 0.5 else ref.port("i")
            p = ref.port(name) if r.random() < 0.5 else getattr(ref, name)
            n = p.num_ports
            if ix == list(range(1, n + 1)) and r.random() < 0.5: return p
            if len(ix) == 1 and (n > 1 or r.random() < 0.3): return p[ix[0] - 1]
            if ix == list(range(ix[0], ix[0] + len(ix))): return p[ix[0] - 1:ix[-1]]
            type_, lst = (RFBlockPortType.OUT if out else RFBlockPortType.IN), [k - 1 for k in ix]
            return RFBlockPortReference(ref, lst, type_)
        for o in plan:
            o = dict(o); op = o["op"]
            if op == "connect":
                if not refs: continue
                if "ro" not in o:
                    ro, ri = r.randrange(len(refs)), r.randrange(len(refs))
                    if r.random() < 0.85:
                        if len(refs) < 2: continue
                        ro, ri = sorted(r.sample(range(len(refs)), 2))
                    po, pi = pool[kinds[ro]]["d"], pool[kinds[ri]]["d"]
                    no, ni = (0 if po["dsp"] == "out" else po["no"]), (0 if pi["dsp"] == "in" else pi["ni"])
                    if not no or not ni: continue
                    free = [p + 1 for p in refs[ri].open_input_ports]
                    k = r.choice([1, 1, 1, 2, 3])
                    o.update(ro=ro + 1, ri=ri + 1, op1=[r.randint(1, no) for _ in range(k)], ip=(r.sample(free, k) if len(free) >= k and r.random() < 0.8 else [r.randint(1, ni) for _ in range(k)]), same=False)
                    if r.random() < 0.3: k = min(no, ni); o["op1"], o["ip"] = list(range(1, k + 1)), list(range(1, k + 1))
                    if r.random() < 0.04: o["op1"] = o["op1"] + [1]
                    if r.random() < 0.04: o["same"] = True
                elif o["ro"] > len(refs) or o["ri"] > len(refs): continue
            if op == "load" and not all(pool[k]["ser"] for k in kinds): continue
            def go():
                nonlocal chain, refs
                if op == "add":
                    b, n = o["b"] - 1, o["n"]
                    C, kw = pool[b]["make"]()
                    how = r.choice(["obj", "new"]) if not (shared and b in objs and r.random() < 0.5) else "again"
                    if how == "again": x = objs[b]; got = chain.add_blocks(x, n) if n > 1 else [chain.add_block(x)]
                    elif how == "obj": x = C(**kw); got = chain.add_blocks(x, n) if n > 1 or r.random() < 0.3 else [chain.add_block(x)]
                    else: got = chain.new_blocks(C, n, **kw) if n > 1 or r.random() < 0.3 else [chain.new_block(C, **kw)]; x = got[0].block
                    objs[b] = x
                    refs += got; kinds.extend([b] * n)
                    for y in got: watch(y.block, b)
                elif op == "connect":
                    a, b = ports(refs[o["ro"] - 1], o["op1"], True), ports(refs[o["ri"] - 1], o["ip"], False)
                    if o["same"]: a = b if r.random() < 0.5 else a; b = a
                    chain.connect(a, b) if r.random() < 0.5 else chain.connect(b, a)
                elif op == "load":
                    with tempfile.TemporaryDirectory() as d:
                        factory.to_HDF(d + "/c.h5", chain)
                        chain = factory.from_HDF(d + "/c.h5", RFChain)
                    refs = list(chain.realize(8.0, 1, 0.0).block_states)
                    objs.clear()
                    for y, b in zip(refs, kinds, strict=True): watch(y.block, b)
                else:
                    real = chain.realize(8.0, 1, float(o["cf"]))
                    k = o.pop("k")
                    x = np.array([[complex(*z) for z in q["v"]] for q in o["x"]]).reshape((len(o["x"]), o["n"]))
                    f = np.array([float(q["f"]) for q in o["x"]])
                    if len(set(f.tolist())) <= 1 and r.random() < 0.5: s = Signal.Create(x, 8.0, f[0] if len(f) else 0.)
                    else: s = RFSignal.FromNDArray(x, 8.0, f)
                    keep = np.array(s)
                    calls.clear()
                    y = chain.transmit(s, real) if op == "transmit" else chain.receive(s, real)
                    for _ in range(k): calls.clear(); y = chain.transmit(s, real) if op == "transmit" else chain.receive(s, real)
                    fy = y.carrier_frequencies if isinstance(y, RFSignal) else np.full(y.num_streams, y.carrier_frequency)
                    o["y"] = [{"v": v, "f": xint(g)} for v, g in zip(gmat(np.asarray(y.view(np.ndarray))), fy, strict=True)]
                    o["calls"] = [calls[b] for b in range(len(pool))]
                    o["intact"] = "yes" if np.array_equal(keep, np.asarray(s)) else "no"
            if op in ("transmit", "receive"):
                d = [pool[k]["d"] for k in kinds]
                if op == "transmit": n = sum(b["ni"] for b in d if b["dsp"] == "in")
                else: n = sum(len(x.open_input_ports) for x, b in zip(refs, d) if b["dsp"] != "in")
                o["n"], o["cf"], o["k"] = r.randint(1, 4), 20, r.choice([0, 0, 1])
                f0 = r.choice([0, 20])
                o["x"] = [{"v": [[r.randint(-3, 3), r.randint(-3, 3)] for _ in range(o["n"])], "f": f0 if n < 2 or r.random() < 0.7 else r.choice([0, 20, 60])} for _ in range(n)]
            _, e = attempt(go)
            o["exc"] = e
            for k in ("k", "how"): o.pop(k, None)
            if e and op in ("transmit", "receive"): o.pop("y", None)
            if op in ("add", "connect", "load"): o["obs"] = obs()
            ev.append(o)
            if e and op in ("add", "load"): break
        return {"key": key, "c": {"pool": [b["d"] for b in pool]}, "ev": ev}

    c.model(cfg="MCRFDeep.cfg")
    edges = c.model(emit=True, expect_ops=["add", "connect"])
    tours = c.tour(edges, max_len=30)
    random.Random(SEED).shuffle(tours)
    if not THOROUGH: tours = tours[:700]
    mpool = lambda r: [entry_dac1, entry_split, entry_sum, entry_adc1]
    I1 = [[[1, 0]]]
    entry_dac1 = blk(lambda: (DAC, dict(num_ports=1)), 1, 1, I1, "in")
    entry_split = blk(lambda: (Lin, dict(m=[[1], [1j]], ni=1, no=2)), 1, 2, [[[1, 0]], [[0, 1]]], ser=False)
    entry_sum = blk(lambda: (Lin, dict(m=[[1, 2]], ni=2, no=1)), 2, 1, [[[1, 0], [2, 0]]], ser=False)
    entry_adc1 = blk(lambda: (ADC, dict(num_ports=1)), 1, 1, I1, "out", fm="any")

    def run_tour(i):
        r = random.Random(f"{SEED}/t{i}")
        plan = []
        for o in tours[i][1]:
            plan.append({k: v for k, v in o.items() if k != "exc"})
            if r.random() < 0.25: plan.append({"op": r.choice(["transmit", "receive"])})
        plan += [{"op": "transmit"}, {"op": "receive"}]
        return history(r, mpool(r), plan, "tour")

    def run(i):
        r = random.Random(f"{SEED}/{i}")
        builtin = r.random() < 0.5
        names = ["dac", "adc"] + [r.choice(["split", "sum", "shift", "pa", "x4", "imix", "src", "split", "sum"] + ([] if builtin else ["lin", "lin", "lin-in", "lin-out"])) for _ in range(r.randint(1, 4))]
        mix = r.random() < 0.3
        if mix: names.append("mix")
        r.shuffle(names)
        pool = [entry(r, k) for k in names]
        mixed = False
        plan, n = [], 0
        for _ in range(r.randint(6, 24)):
            x = r.random()
            if (x < 0.4 or n < 2) and n < 7:
                b = r.randint(1, len(pool))
                if names[b - 1] == "mix":
                    if mixed: continue
                    mixed = True
                k = r.choice([1, 1, 1, 2]) if names[b - 1] != "mix" and n < 6 else 1
                plan.append({"op": "add", "b": b, "n": k}); n += k
            elif x < 0.8: plan.append({"op": "connect"})
            elif x < 0.95: plan.append({"op": r.choice(["transmit", "receive"])})
            elif builtin: plan.append({"op": "load"})
        plan += [{"op": "transmit"}, {"op": "receive"}]
        return history(r, pool, plan, "random")

    traces = pmap(run_tour, len(tours), seconds=60)
    traces += pmap(run, 25000 if THOROUGH else 2500, seconds=80)
    c.validate(traces, jobs=7)
    cnt = collections.Counter(e["op"] + ("!" if e["exc"] else "") for t in traces for e in t["ev"])
    c.extra["operations"] = dict(cnt); c.extra["tours"] = len(tours)
    for o in ("add", "connect", "connect!", "transmit", "receive", "load"): c.require(cnt[o] > 30, f"too few {o}")

main("C14", "RF", body)
