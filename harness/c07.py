"""C07: what a simulated drop delivers to every device."""
from vlib import *

FS, CF = 4.0, 1e9


def body(c: Check):
    import numpy as np
    with quiet():
        from hermespy.core import (Signal, SparseSignal, Transmitter, Transmission, Receiver, Reception, Transformation, AntennaMode)
        from hermespy.simulation import SimulatedDevice, SimulatedCustomArray, SimulatedIdealAntenna, SimulationScenario
        from hermespy.simulation.simulation import SimulationRunner
        from hermespy.channel.ideal import IdealChannel, IdealChannelRealization, IdealChannelSample

    class CountedRealization(IdealChannelRealization):
        """An ideal channel realization with an amplitude identifying it and the time of its samples."""
        def __init__(self, hooks, g):
            IdealChannelRealization.__init__(self, hooks, 1.0)
            self.g = g
        def _sample(self, state): return IdealChannelSample(float((self.g + round(state.time)) ** 2), state)
        def _reciprocal_sample(self, sample, state): return IdealChannelSample(float((self.g + round(state.time)) ** 2), state)

    class CountedChannel(IdealChannel):
        def __init__(self, h):
            IdealChannel.__init__(self)
            self.h, self.n, self.log = h, 0, []
        def _realize(self):
            self.n += 1
            g = 1 + 7 * self.h + 3 * (self.n % 5) + self.n // 5
            self.log.append(g)
            return CountedRealization(self.sample_hooks, g)

    def sig(m, k, kind="d"):
        M = np.array([[complex(*z) for z in r] for r in m], dtype=complex).reshape(k, -1)
        return SparseSignal(M, FS, 0.) if kind == "s" and M.shape[1] else Signal.Create(M, FS, 0.)

    def rows(x): return gmat(np.asarray(x.to_dense().view(np.ndarray)))

    class Tx(Transmitter):
        def __init__(self, n, kind): self.n, self.kind, self.m = n, kind, []; Transmitter.__init__(self)
        def _transmit(self, state, duration): return Transmission(sig(self.m, self.n, self.kind))
        @property
        def power(self): return 1.0
        def samples_per_frame(self, bandwidth, oversampling_factor): return 0
    class Rx(Receiver):
        def __init__(self, ports): self.got = None; Receiver.__init__(self, selected_receive_ports=ports)
        def _receive(self, signal, state): self.got = rows(signal); return Reception(signal)
        @property
        def power(self): return 0.0
        def samples_per_frame(self, bandwidth, oversampling_factor): return 0

    def history(r, cc, plan, key):
        nd, nc = cc["nd"], cc["nc"]
        chans = [CountedChannel(h) for h in range(nc + 1)]
        sc = SimulationScenario(chans[0])
        devs, txs, rxs = [], [], []
        for d in range(nd):
            nt, nr = cc["nt"][d], cc["nr"][d]
            modes = [AntennaMode.TX] * max(0, nt - nr) + [AntennaMode.DUPLEX] * min(nt, nr) + [AntennaMode.RX] * max(0, nr - nt)
            r.shuffle(modes)
            ants = SimulatedCustomArray([SimulatedIdealAntenna(m) for m in modes])
            dev = SimulatedDevice(antennas=ants, carrier_frequency=CF, bandwidth=FS, oversampling_factor=1, pose=Transformation.From_Translation(np.array([10. * d, 3., 1.])))
            sc.add_device(dev); devs.append(dev)
            q = Tx(nt, r.choice("dds")); q.m = cc["tx"][d]; txs.append(q); dev.transmitters.add(q)
            z = Rx(None if cc["all"][d] else [p - 1 for p in cc["sel"][d]]); rxs.append(z); dev.receivers.add(z)
        runner = SimulationRunner(sc) if r.random() < 0.8 else None
        ev = []
        def drop(t, how):
            """events of one drop (one per timestamp)"""
            for h in chans: h.log.clear()
            for z in rxs: z.got = None
            o = {"op": "drop", "t": t, "full": how != "runner", "tx": [], "imp": [], "rep": []}
            if how == "drop":
                D = sc.drop() if t == 0 and r.random() < 0.5 else sc.drop(float(t) if r.random() < 0.7 else t)
                o["tx"] = [rows(x.mixed_signal) for x in D.device_transmissions]
                o["imp"] = [[rows(y) for y in x.impinging_signals] for x in D.device_receptions]
                o["rep"] = [rows(x.operator_receptions[0].signal) for x in D.device_receptions]
            elif how == "staged":
                T = sc.transmit_devices()
                S = [d.state(float(t)) for d in devs] if r.random() < 0.5 else None
                Z = sc.realize_channels() if r.random() < 0.5 else None
                P, Z2 = sc.propagate(T, S, Z, float(t))
                R = sc.receive_devices(P, S)
                o["tx"] = [rows(x.mixed_signal) for x in T]
                o["imp"] = [[rows(y) for y in x] for x in P]
                o["rep"] = [rows(x.operator_receptions[0].signal) for x in R]
            else:
                for k, f in zip(runner_stages, (runner.realize_channels, lambda: runner.sample_states(float(t)) if t or r.random() < 0.5 else runner.sample_states(),
                                                runner.transmit_operators, runner.generate_outputs, runner.propagate, runner.process_inputs, runner.receive_operators)):
                    f()
            o["rec"] = [z.got if z.got is not None else [] for z in rxs]
            o["g"] = [list(h.log) for h in chans]
            return o
        runner_stages = range(7)
        for o in plan:
            o = dict(o); op = o["op"]
            def go():
                if op == "set": sc.set_channel(devs[o["a"] - 1], devs[o["b"] - 1], chans[o["ch"]])
                elif op == "send": txs[o["a"] - 1].m = o["m"]
                elif op == "sel": rxs[o["a"] - 1].selected_receive_ports = [p - 1 for p in o["p"]]
                elif op == "drop":
                    how = o.pop("how")
                    if how == "runner" and runner is None: how = "staged"
                    o.update(drop(o["t"], how))
            _, e = attempt(go)
            if e and op == "drop": o = {"op": "drop", "t": o["t"], "full": False, "tx": [], "imp": [], "rep": [], "rec": [], "g": []}
            o["exc"] = e
            ev.append(o)
            if e: break
        return {"key": key, "c": {k: cc[k] for k in ("nd", "nc", "nt", "nr", "all", "sel", "tx")}, "ev": ev}

    C0 = {"nd": 3, "nc": 1, "nt": [1, 2, 2], "nr": [2, 2, 1], "all": [True, False, True], "sel": [[], [2], []],
          "tx": [[[[1, 0], [0, 2]]], [[[10, 0]], [[0, 20]]], [[[100, 0], [300, 0]], [[0, 200], [0, 0]]]]}
    edges = c.model(emit=True, expect_ops=["set", "send"])
    tours = c.tour(edges, max_len=25)
    random.Random(SEED).shuffle(tours)

    def run_tour(i):
        r = random.Random(f"{SEED}/t{i}")
        plan = []
        for o in tours[i][1]:
            plan.append({k: v for k, v in o.items() if k != "exc"})
            if r.random() < 0.25: plan.append({"op": "drop", "t": r.choice([0, 0, 1, 3]), "how": r.choice(["drop", "staged", "runner"])})
        plan.append({"op": "drop", "t": 0, "how": "drop"})
        return history(r, C0, plan, "tour")

    def rmat(r, k, n, dens=0.8): return [[[r.randint(-3, 3), r.randint(-3, 3)] if r.random() < dens else [0, 0] for _ in range(n)] for _ in range(k)]

    def run(i):
        r = random.Random(f"{SEED}/{i}")
        nd, nc = r.randint(1, 4), r.randint(0, 3)
        ant = [r.choice([(1, 1), (2, 2), (3, 3), (1, 2), (2, 1), (2, 3), (3, 2), (4, 4), (1, 4)]) for _ in range(nd)]
        cc = {"nd": nd, "nc": nc, "nt": [a for a, _ in ant], "nr": [b for _, b in ant], "all": [], "sel": [], "tx": []}
        for nt, nr in ant:
            al = r.random() < 0.5
            cc["all"].append(al); cc["sel"].append([] if al else r.sample(range(1, nr + 1), r.randint(1, nr)))
            cc["tx"].append(rmat(r, nt, r.choice([1, 2, 3, 5])))
        plan = []
        for _ in range(r.randint(2, 12)):
            x = r.random()
            d = r.randint(1, nd)
            if x < 0.4: plan.append({"op": "set", "a": d, "b": r.randint(1, nd), "ch": r.randint(0, nc)})
            elif x < 0.5: plan.append({"op": "send", "a": d, "m": rmat(r, cc["nt"][d - 1], r.choice([1, 2, 4, 7]))})
            elif x < 0.6: plan.append({"op": "sel", "a": d, "p": r.sample(range(1, cc["nr"][d - 1] + 1), r.randint(1, cc["nr"][d - 1]))})
            else: plan.append({"op": "drop", "t": r.choice([0, 0, 0, 1, 2, 5]), "how": r.choice(["drop", "drop", "staged", "runner"])})
        plan.append({"op": "drop", "t": r.choice([0, 4]), "how": r.choice(["drop", "staged", "runner"])})
        return history(r, cc, plan, "random")

    if not THOROUGH: tours = tours[:400]
    traces = pmap(run_tour, len(tours), seconds=60)
    traces += pmap(run, 15000 if THOROUGH else 1500, seconds=60)
    c.validate(traces, jobs=7)
    cnt = collections.Counter(e["op"] for t in traces for e in t["ev"] if not e["exc"])
    c.extra["operations"] = dict(cnt); c.extra["tours"] = len(tours)
    for o in ("set", "send", "sel", "drop"): c.require(cnt[o] > 50, f"too few {o}")

main("C07", "Drop", body)
