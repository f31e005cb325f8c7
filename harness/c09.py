"""C09: operators of a device and the routing of their signals over its ports."""
from vlib import *

FS, CF = 4.0, 1e9


def body(c: Check):
    import numpy as np
    with quiet():
        from hermespy.core import (Device, DeviceState, DeviceInput, Signal, DenseSignal, SparseSignal, SignalTransmitter, Transmitter,
                                   Transmission, Receiver, Reception, CustomAntennaArray, IdealAntenna, AntennaMode)
        from hermespy.simulation import SimulatedDevice, SimulatedCustomArray, SimulatedIdealAntenna, SimulatedUniformArray

    def sig(m, k, kind="d", CF=CF):
        M = np.array([[complex(*z) for z in r] for r in m], dtype=complex).reshape(k, -1)
        return SparseSignal(M, FS, CF) if kind == "s" and M.shape[1] else Signal.Create(M, FS, CF)

    def rows(x): return gmat(np.asarray(x.to_dense().view(np.ndarray)))

    class Rx(Receiver):
        def __init__(self, ports):
            Receiver.__init__(self, selected_receive_ports=ports)
        def _receive(self, signal, state): return Reception(signal)
        @property
        def power(self): return 0.0
        def samples_per_frame(self, bandwidth, oversampling_factor): return 0

    class Duplex(Transmitter, Rx):
        def __init__(self, signal, tp, rp):
            self.sent = signal
            Rx.__init__(self, rp)
            Transmitter.__init__(self, selected_transmit_ports=tp)
            self.selected_receive_ports = rp
        @property
        def signal(self): return self.sent
        def _transmit(self, state, duration): return Transmission(self.sent)

    class Plain(Device):
        """A minimal device using the generic transmit and receive paths."""
        def __init__(self, nt, nr):
            modes = [AntennaMode.TX] * max(0, nt - nr) + [AntennaMode.DUPLEX] * min(nt, nr) + [AntennaMode.RX] * max(0, nr - nt)
            self.arr = CustomAntennaArray([IdealAntenna(m) for m in modes])
            Device.__init__(self)
        def state(self):
            return DeviceState(id(self), 0.0, self.pose, self.velocity, CF, FS, 1, self.arr.state(self.pose), self.num_transmit_dsp_ports,
                               self.num_receive_dsp_ports, self.num_transmit_rf_ports, self.num_receive_rf_ports)
        antennas = property(lambda s: s.arr)
        velocity = property(lambda s: np.zeros(3))
        sampling_rate = property(lambda s: FS)
        carrier_frequency = property(lambda s: CF)
        bandwidth = property(lambda s: FS)
        oversampling_factor = property(lambda s: 1)

    def device(kind, nt, nr, amp, order):
        if kind == "plain": return Plain(nt, nr)
        modes = [AntennaMode.TX] * max(0, nt - nr) + [AntennaMode.DUPLEX] * min(nt, nr) + [AntennaMode.RX] * max(0, nr - nt)
        order.shuffle(modes)
        ants = SimulatedCustomArray([SimulatedIdealAntenna(m) for m in modes])
        d = SimulatedDevice(antennas=ants, carrier_frequency=CF, bandwidth=FS, oversampling_factor=1, power=float(amp * amp))
        d.operator_separation = kind == "sep"
        return d

    def history(r, kind, cc, plan, key):
        nt, nr = cc["nt"], cc["nr"]
        d = device(kind, nt, nr, cc["pw"], r)
        ops = []
        for q in cc["ops"]:
            tp = None if q["tall"] else [p - 1 for p in q["tp"]]
            rp = None if q["rall"] else [p - 1 for p in q["rp"]]
            if rp is not None and r.random() < 0.2: rp = np.array(rp, dtype=int)
            s = sig(q["tm"], nt if q["tall"] else len(q["tp"]), r.choice("dds"), CF if kind == "plain" else 0.0)
            if q["role"] == "t": ops.append(SignalTransmitter(s, selected_transmit_ports=tp))
            elif q["role"] == "r": ops.append(Rx(rp)); ops[-1].signal = s
            else: ops.append(Duplex(s, tp, rp))
        ids = {id(o): i + 1 for i, o in enumerate(ops)}
        who = lambda o: ids.get(id(o), 0)
        ev, exp = [], {"tx": [], "rx": []}
        for o in plan:
            o = dict(o); op = o["op"]
            q = ops[o["o"] - 1] if "o" in o else None
            role = cc["ops"][o["o"] - 1]["role"] if "o" in o else "d"
            def go():
                if op in ("add", "rem"):
                    o["t"], o["r"] = o["t"] and role in "td", o["r"] and role in "rd"
                    slots = ([d.transmitters] if o["t"] else []) + ([d.receivers] if o["r"] else [])
                    if op == "add" and len(slots) == (2 if role == "d" else 1) and r.random() < 0.4: d.add_dsp(q)
                    else:
                        for sl in slots: (sl.add if op == "add" else sl.remove)(q)
                elif op == "tsel":
                    if role == "r": o["all"], o["p"] = cc["ops"][o["o"] - 1]["tall"], cc["ops"][o["o"] - 1]["tp"]
                    else: q.selected_transmit_ports = None if o["all"] else [p - 1 for p in o["p"]]
                elif op == "rsel":
                    if role != "t": q.selected_receive_ports = None if o["all"] else [p - 1 for p in o["p"]]
                elif op == "list":
                    T, R = d.transmitters, d.receivers
                    o["tx"], o["rx"] = [who(x) for x in T], [who(x) for x in R]
                    o["txn"] = int(len(T)) if len(T) == T.num_operators else -1
                    o["rxn"] = int(len(R)) if len(R) == R.num_operators else -1
                    o["tin"] = [i + 1 for i, x in enumerate(ops) if x in T] if all((x in T) == T.registered(x) for x in ops) else [-1]
                    o["rin"] = [i + 1 for i, x in enumerate(ops) if x in R] if all((x in R) == R.registered(x) for x in ops) else [-1]
                    if [T[i] for i in range(len(T))] != list(T) or T[:] != list(T) or any(T.operator_index(x) != i for i, x in enumerate(T)): o["tx"] = [-1]
                elif op == "transmit":
                    how = r.random()
                    o["mute"] = []
                    if how < 0.5: t = d.transmit(); ts, out = t.operator_transmissions, t
                    else:
                        ts = d.transmit_operators()
                        gone = {i for i in range(len(ts)) if how > 0.75 and r.random() < 0.4}
                        o["mute"] = [who(list(d.transmitters)[i]) for i in sorted(gone)]
                        out = d.generate_output([None if i in gone else x for i, x in enumerate(ts)])
                    o["n"], o["m"] = int(out.mixed_signal.num_samples), rows(out.mixed_signal)
                    o["ts"] = [{"o": who(list(d.transmitters)[i]) if i < len(d.transmitters) else 0, "m": rows(x.signal)} for i, x in enumerate(ts)]
                    o["own"] = [rows(x.signal) if cc["ops"][i]["role"] != "r" else cc["ops"][i]["tm"] for i, x in enumerate(ops)]
                elif op == "receive":
                    S = [sig(m, nr, r.choice("dds")) for m in o["imp"]]
                    arg = S
                    x = r.random()
                    if len(S) == 1 and x < 0.4: arg = S[0]
                    elif x < 0.6: arg = DeviceInput(S)
                    o["rs"] = []
                    if r.random() < 0.5: recs = d.receive(arg).operator_receptions
                    else: recs = d.receive_operators(d.process_input(arg))
                    o["rs"] = [{"o": who(list(d.receivers)[i]) if i < len(d.receivers) else 0, "m": rows(x.signal)} for i, x in enumerate(recs)]
                    o["imp2"] = [rows(x) for x in S]
            _, e = attempt(go)
            if e and op == "transmit": o |= {"mute": [], "n": 0, "m": [], "ts": [], "own": []}
            if e and op == "receive": o |= {"rs": [], "imp2": []}
            if e and op == "list": o |= {"tx": [], "rx": [], "txn": 0, "rxn": 0, "tin": [], "rin": []}
            o["exc"] = e
            ev.append(o)
            if e: break
        return {"key": f"{key}-{kind}", "c": {k: cc[k] for k in ("nt", "nr", "pw", "ops")}, "ev": ev}

    C0 = {"nt": 2, "nr": 2, "pw": 2, "ops": [
        {"role": "d", "tall": True, "tp": [], "tm": [[[1, 0], [0, 1]], [[2, 0], [0, 0]]], "rall": True, "rp": []},
        {"role": "d", "tall": False, "tp": [2], "tm": [[[10, 0], [20, 0], [0, 30]]], "rall": False, "rp": [2]},
        {"role": "d", "tall": False, "tp": [2, 1], "tm": [[[100, 0]], [[0, 200]]], "rall": False, "rp": [2, 1]}]}
    edges = c.model(emit=True, expect_ops=["add", "rem", "transmit", "receive", "rsel"])
    tours = c.tour(edges, max_len=12)
    random.Random(SEED).shuffle(tours)
    if not THOROUGH: tours = tours[:900]

    def run_tour(i):
        r = random.Random(f"{SEED}/t{i}")
        plan = [{k: v for k, v in o.items() if k in ("op", "o", "t", "r", "all", "p", "imp")} for o in tours[i][1]]
        plan.append({"op": "list"})
        kind = ["sim", "sep", "plain"][i % 3]
        return history(r, kind, C0 | {"pw": 1 if kind == "plain" else 2}, plan, "tour")

    def rmat(r, k, n, dens=0.8): return [[[r.randint(-3, 3), r.randint(-3, 3)] if r.random() < dens else [0, 0] for _ in range(n)] for _ in range(k)]

    def run(i):
        r = random.Random(f"{SEED}/{i}")
        kind = r.choice(["sim", "sim", "sep", "plain"])
        nt, nr = r.choice([(1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (4, 4), (1, 3), (4, 2)])
        def sel(n): return (True, []) if r.random() < 0.3 else (False, r.sample(range(1, n + 1), r.randint(1, n)))
        ops = []
        for _ in range(r.randint(1, 5)):
            ta, tp = sel(nt); ra, rp = sel(nr)
            if not ra and r.random() < 0.15: rp = rp + [r.choice(rp)]
            ops.append({"role": r.choice("ddtr"), "tall": ta, "tp": tp, "tm": rmat(r, nt if ta else len(tp), r.choice([1, 2, 3, 5, 8])), "rall": ra, "rp": rp})
        cc = {"nt": nt, "nr": nr, "pw": 1 if kind == "plain" else r.choice([1, 1, 2, 3]), "ops": ops}
        plan = []
        for _ in range(r.randint(3, 14)):
            o = r.randint(1, len(ops))
            x = r.random()
            if x < 0.35: plan.append({"op": "add", "o": o, "t": True, "r": True} if r.random() < 0.5 else {"op": "add", "o": o, "t": r.random() < 0.5, "r": r.random() < 0.5})
            elif x < 0.45: plan.append({"op": "rem", "o": o, "t": r.random() < 0.6, "r": r.random() < 0.6})
            elif x < 0.52:
                q = ops[o - 1]; k = len(q["tm"])
                # a selection change keeps the number of streams the operator sends
                plan.append({"op": "tsel", "o": o, "all": False, "p": r.sample(range(1, nt + 1), k)} if r.random() < 0.8 or k < nt else {"op": "tsel", "o": o, "all": True, "p": []})
            elif x < 0.58:
                ra, rp = sel(nr); plan.append({"op": "rsel", "o": o, "all": ra, "p": rp})
            elif x < 0.75: plan.append({"op": "transmit"})
            elif x < 0.93:
                plan.append({"op": "receive", "imp": [rmat(r, nr, r.choice([1, 2, 3, 5, 9]), r.choice([0.2, 0.8])) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]})
            else: plan.append({"op": "list"})
        return history(r, kind, cc, plan, "random")

    traces = pmap(run_tour, len(tours), seconds=60)
    traces += pmap(run, 20000 if THOROUGH else 2500, seconds=60)
    c.validate(traces, jobs=7)
    cnt = collections.Counter(e["op"] for t in traces for e in t["ev"] if not e["exc"])
    c.extra["operations"] = dict(cnt)
    c.extra["tours"] = len(tours)
    for o in ("add", "rem", "tsel", "rsel", "transmit", "receive", "list"): c.require(cnt[o] > 50, f"too few {o}")

main("C09", "Ports", body)
