"""C08: trigger models: sharing, delays, and exact sample shifts."""
from vlib import *

FS = 8.0


def body(c: Check):
    import numpy as np
    with quiet():
        from hermespy.core import Signal, SparseSignal, SignalTransmitter, Receiver, Reception
        from hermespy.simulation import (SimulationScenario, SimulatedDevice, StaticTrigger, SampleOffsetTrigger, TimeOffsetTrigger, RandomTrigger)
        from hermespy.simulation.simulated_device import NormalTrigger, TriggerRealization
        from hermespy.channel import IdealChannel

    class Rx(Receiver):
        def _receive(self, signal, state): return Reception(signal)
        def frame_duration(self, bandwidth): return 0.0
        @property
        def power(self): return 0.0
        def samples_per_frame(self, bandwidth, oversampling_factor): return 0

    def model(kind, k, frac):
        if kind == "static": return StaticTrigger()
        if kind == "off": return SampleOffsetTrigger(k)
        if kind == "time": return TimeOffsetTrigger((k + frac) / FS)
        if kind == "normal": return NormalTrigger((k + frac) / FS, 0.0)
        return RandomTrigger()

    def row(x): return [gint(z) for z in np.asarray(x.to_dense().view(np.ndarray))[0]]

    def history(r, cc, plan, key):
        nd, nm = cc["nd"], len(cc["kind"])
        fs = cc["fs"]
        sc = SimulationScenario(IdealChannel(), seed=r.randrange(1 << 20))
        models = [model(kd, k, r.choice([0, 0, 0.3]) if kd == "time" else 0.3 if kd == "normal" else 0) if kd not in ("time", "normal") else None for kd, k in zip(cc["kind"], cc["k"])]
        for i, kd in enumerate(cc["kind"]):
            if kd == "time": models[i] = TimeOffsetTrigger((cc["k"][i] + r.choice([0, 0, 0.4])) / fs)
            if kd == "normal": models[i] = NormalTrigger((cc["k"][i] + 0.4) / fs, 0.0)
        devs = []
        for d in range(nd):
            x = SimulatedDevice(carrier_frequency=1e9, bandwidth=fs, oversampling_factor=1)
            x.operator_separation = cc["sep"]
            x.transmitters.add(SignalTransmitter(Signal.Create(np.array([[complex(*z) for z in cc["tx"][d]]]), fs)))
            x.receivers.add(Rx())
            devs.append(x); sc.add_device(x)
        own = [x.trigger_model for x in devs]
        asg0 = [0] * nd
        def ident(m):
            for i, x in enumerate(models):
                if x is m: return i + 1
            return 0 if any(m is o for o in own) else -1
        ev = []
        for o in plan:
            o = dict(o); op = o["op"]
            def go():
                if op == "assign":
                    d, m = devs[o["d"] - 1], models[o["m"] - 1]
                    if r.random() < 0.5: d.trigger_model = m
                    else: m.add_device(d)
                elif op == "setk":
                    m, kd = models[o["m"] - 1], cc["kind"][o["m"] - 1]
                    if kd == "off": m.num_offset_samples = o["v"]
                    elif kd == "time": m.offset = o["v"] / fs
                    elif kd == "normal": m.mean = (o["v"] + 0.4) / fs
                elif op == "members":
                    o["mem"] = [[i + 1 for i, d in enumerate(devs) if d in m.devices] for m in models]
                    o["num"] = [int(m.num_devices) for m in models]
                    o["asg"] = [ident(d.trigger_model) for d in devs]
                elif op == "realize":
                    t = sc.realize_triggers([devs[i - 1] for i in o["ds"]]) if o["ds"] != list(range(1, nd + 1)) or r.random() < 0.5 else sc.realize_triggers()
                    o["t"] = [xint(x.trigger_delay * fs) for x in t]
                elif op == "many":
                    o["ts"] = [[xint(x.trigger_delay * fs) for x in sc.realize_triggers()] for _ in range(60)]
                elif op == "drop":
                    x = r.random()
                    if x < 0.6:
                        with quiet(): dr = sc.drop()
                        tr, rec = dr.device_transmissions, dr.device_receptions
                    elif x < 0.8:
                        S = [d.state(0.0) for d in devs]
                        tr = sc.transmit_devices(S)
                        p, _ = sc.propagate(tr, S)
                        rec = sc.receive_devices(p, S, trigger_realizations=[q.trigger_realization for q in tr])
                    else:
                        S = [d.state(0.0) for d in devs]
                        tr = sc.generate_outputs(sc.transmit_operators(S), S)
                        p, _ = sc.propagate(tr, S)
                        ins = sc.process_inputs(p, S, [q.trigger_realization for q in tr])
                        ops = sc.receive_operators(ins, S)
                        rec = ins
                        class R: pass
                        rec = []
                        for a, b in zip(ins, ops):
                            q = R(); q.operator_receptions = b; q.trigger_realization = a.trigger_realization; rec.append(q)
                    o["t"] = [xint(q.trigger_realization.trigger_delay * fs) for q in tr]
                    o["t2"] = [xint(q.trigger_realization.trigger_delay * fs) for q in rec]
                    o["dl"] = [xint(q.mixed_signal.delay * fs) for q in tr]
                    o["rec"] = [row(q.operator_receptions[0].signal) for q in rec]
                elif op == "input":
                    M = np.array([[complex(*z) for z in o["q"]]])
                    s = SparseSignal(M, fs, 1e9, delay=o["v"] / fs) if o["sp"] else Signal.Create(M, fs, 1e9, delay=o["v"] / fs)
                    R = devs[0].receive([s] if r.random() < 0.5 else s, trigger_realization=TriggerRealization(o["t"], fs))
                    o["rec"] = row(R.operator_receptions[0].signal)
                    if row(s) != row(Signal.Create(M, fs, 1e9)) + [] and not o["sp"]: o["rec"] = [[BIG, BIG]]
                    if abs(s.delay * fs - o["v"]) > 1e-9: o["rec"] = [[BIG, BIG]]
            _, e = attempt(go)
            o["exc"] = e
            if e: o |= {"mem": [], "num": [], "asg": [], "t": [], "ts": [], "t2": [], "dl": [], "rec": []}
            o.pop("sp", None)
            ev.append(o)
            if e: break
        return {"key": key, "c": {k: cc[k] for k in ("nd", "kind", "k", "fd", "tx")}, "ev": ev}

    edges = c.model(emit=True, expect_ops=["assign", "drop", "setk"])
    tours = c.tour(edges, max_len=8)
    random.Random(SEED).shuffle(tours)
    if not THOROUGH: tours = tours[:250]

    def run_tour(i):
        r = random.Random(f"{SEED}/t{i}")
        init, ops = tours[i]
        cc = {"nd": init["nd"], "kind": init["kind"], "k": init["k"], "fd": init["fd"], "tx": init["tx"], "sep": False, "fs": FS}
        plan = []
        for o in ops:
            plan.append({k: v for k, v in o.items() if k in ("op", "d", "m", "v")})
            if o["op"] == "assign": plan.append({"op": "members"})
        plan.append({"op": "realize", "ds": list(range(1, cc["nd"] + 1))})
        return history(r, cc, plan, "tour")

    def run(i):
        r = random.Random(f"{SEED}/{i}")
        nd = r.choice([1, 2, 2, 3, 3, 4])
        kind = [r.choice(["static", "off", "off", "time", "normal", "rand", "rand"]) for _ in range(r.randint(1, 4))]
        n = [r.choice([1, 2, 3, 4, 6, 9]) for _ in range(nd)]
        fs = r.choice([8.0, 1e6, 3e5, 30.72e6, 7.0, 100.0])
        cc = {"nd": nd, "kind": kind, "k": [r.choice([0, 1, 2, 3, 5, 7, 29, 58]) if kd in ("off", "time", "normal") else 0 for kd in kind], "fd": n, "fs": fs,
              "tx": [[[r.randint(-3, 3), r.randint(-3, 3)] for _ in range(k)] for k in n], "sep": r.random() < 0.3}
        # random spans are derived from the frame durations in samples: keep them exact
        for d in range(nd):
            q = int(n[d] / fs * fs)
            cc["fd"][d] = q
        plan = []
        for _ in range(r.randint(4, 12)):
            x = r.random()
            if x < 0.4: plan.append({"op": "assign", "d": r.randint(1, nd), "m": r.randint(1, len(kind))})
            elif x < 0.5:
                m = r.randint(1, len(kind))
                if kind[m - 1] in ("off", "time", "normal"): plan.append({"op": "setk", "m": m, "v": r.choice([0, 1, 2, 4, 6])})
            elif x < 0.6: plan.append({"op": "members"})
            elif x < 0.7: plan.append({"op": "realize", "ds": r.sample(range(1, nd + 1), r.randint(1, nd)) if r.random() < 0.5 else list(range(1, nd + 1))})
            elif x < 0.75: plan.append({"op": "many"})
            elif x < 0.92: plan.append({"op": "drop"})
            else:
                q = [[r.randint(-3, 3), r.randint(-3, 3)] for _ in range(r.randint(1, 7))]
                plan.append({"op": "input", "q": q, "v": r.choice([0, 0, 1, 3, 5]), "t": r.choice([0, 0, 1, 2, 3, 6]), "sp": r.random() < 0.4 and q[-1] != [0, 0] and any(z != [0, 0] for z in q)})
        return history(r, cc, plan, "random")

    traces = pmap(run_tour, len(tours), seconds=60)
    traces += pmap(run, 12000 if THOROUGH else 1200, seconds=200)
    c.validate(traces, jobs=7)
    cnt = collections.Counter(e["op"] for t in traces for e in t["ev"] if not e["exc"])
    c.extra["operations"] = dict(cnt)
    for o in ("assign", "setk", "members", "realize", "many", "drop", "input"): c.require(cnt[o] > 50, f"too few {o}")

main("C08", "Trigger", body)
