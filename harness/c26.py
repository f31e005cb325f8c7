"""C26: listeners of operators and devices, announced transmissions of sensing operators."""
from vlib import *


def body(c: Check):
    import numpy as np
    with quiet():
        from hermespy.core import Signal, SignalReceiver, SignalTransmitter, SilentTransmitter
        from hermespy.jcas import MatchedFilterJcas, OFDMRadar
        from hermespy.modem import DuplexModem, ElementType, GridElement, GridResource, OFDMWaveform, PrefixType, RectangularWaveform, SymbolSection
        from hermespy.simulation import SimulatedDevice, SimulationScenario

    def waveform(): return RectangularWaveform(num_preamble_symbols=0, num_data_symbols=60, modulation_order=4)
    def ofdm(): return OFDMWaveform(grid_resources=[GridResource(1, PrefixType.NONE, 0.0, [GridElement(ElementType.DATA, 16)])], grid_structure=[SymbolSection(4, [0])], num_subcarriers=16, modulation_order=4, dc_suppression=False)

    def sensing(r, plan, key):
        """an operator whose reception refers to its last announced transmission"""
        dev = SimulatedDevice(bandwidth=1.0, oversampling_factor=1, carrier_frequency=1e9)
        k = r.choice(["ofdm", "mf"])
        op = OFDMRadar(ofdm(), seed=r.randint(0, 99)) if k == "ofdm" else MatchedFilterJcas(8 * 1.5e8, waveform=waveform(), seed=r.randint(0, 99))
        st = dev.state()
        sigs, ev = [], []
        for o in plan:
            o = dict(o)
            def go():
                if o["op"] == "send": sigs.append(op.transmit(st, 0.0, o["notify"]).signal)
                else:
                    y = np.array((sigs[o["i"] - 1].to_dense() if hasattr(sigs[0], "to_dense") else sigs[o["i"] - 1]).view(np.ndarray))
                    cube = op.receive(Signal.Create(y, 1.0, carrier_frequency=1e9), st, r.random() < 0.5).cube
                    d = cube.data[0, cube.data.shape[1] // 2]
                    # the matching reference concentrates the whole power in the zero range bin
                    o["match"] = bool(d[0] > 0.9 * (4.0 if k == "ofdm" else np.sum(np.abs(y) ** 2) ** 2 / y.shape[1]))
            _, o["exc"] = attempt(go)
            ev.append(o)
        return {"key": key + " " + k, "c": {"tx": [1], "rx": [1]}, "ev": ev}

    def history(r, cfg, plan, key):
        tx, rx = (cfg["tx"], cfg["rx"]) if cfg else ([r.randint(0, 2) for _ in range(2)], [r.randint(0, 2) for _ in range(2)])
        tx, rx = list(tx), list(rx)
        sc = SimulationScenario(seed=r.randint(0, 99))
        devs = [sc.new_device(bandwidth=1.0, oversampling_factor=1, carrier_frequency=0.0) for _ in tx]
        T, R, owner = [], [], []
        for d, dev in enumerate(devs):
            # a modem both transmits and receives
            mod = DuplexModem(waveform=waveform(), seed=1) if tx[d] and rx[d] and r.random() < 0.5 else None
            nt = [SignalTransmitter(Signal.Create(np.ones((1, 3), complex), 1.0)) if r.random() < 0.7 else SilentTransmitter(4) for _ in range(tx[d] - (mod is not None))]
            nr = [SignalReceiver(4) for _ in range(rx[d] - (mod is not None))]
            for x in nt: dev.transmitters.add(x)
            for x in nr: dev.receivers.add(x)
            if mod: dev.add_dsp(mod); nt.append(mod); nr.append(mod)
            T += nt; R += nr
        state = [d.state() for d in devs]
        def dev_of(f, k):
            for d in range(len(f)):
                if k <= sum(f[:d + 1]): return d
        hooks, reg, calls = {}, {}, []     # listener -> hook, hookable -> registered listeners
        def target(h):
            k = h[1] - 1
            if h[0] == "t": return T[k].add_transmit_callback
            if h[0] == "r": return R[k].add_receive_callback
            return {"o": devs[k].output_callbacks, "s": devs[k].simulated_output_callbacks, "i": devs[k].input_callbacks, "j": devs[k].simulated_input_callbacks}[h[0]].add_callback if h[0] in "osij" else None
        def register(h, l, act):
            t = tuple(h)
            def cb(x):
                calls.append((t, l, x))
                a = act["k"]
                if a == "self": drop(t, l)
                elif a == "kill" and act["l"] in reg.get(t, ()): drop(t, act["l"])
                elif a == "add" and act["l"] not in reg.get(t, ()): register(t, act["l"], {"k": "plain", "l": 0})
            hooks[l] = target(h)(cb); reg.setdefault(t, set()).add(l)
        def drop(t, l):
            reg.get(t, set()).discard(l); hooks[l].remove()
        where = {}
        ev = []
        for o in plan:
            o = dict(o); op = o["op"]
            H = [["t", k + 1] for k in range(len(T))] + [["r", k + 1] for k in range(len(R))] + [[x, d + 1] for x in "osij" for d in range(len(devs))]
            if op == "add":
                if "h" not in o:
                    o["h"] = r.choice(H); o["l"] = max([0] + list(where) ) + 1
                    x = r.random()
                    here = [l for l in where if where[l] == o["h"]]
                    if x < 0.6 or (0.75 < x < 0.9 and not here): o["act"] = {"k": "plain", "l": 0}
                    elif x < 0.75: o["act"] = {"k": "self", "l": 0}
                    elif x < 0.9: o["act"] = {"k": "kill", "l": r.choice(here)}
                    else: o["act"] = {"k": "add", "l": o["l"] + 1}
                if any(a not in H for a in [list(o["h"])]): continue
                where[o["l"]] = list(o["h"])
                if o["act"]["k"] == "add": where[o["act"]["l"]] = list(o["h"])
            if op in ("remove", "again"):
                if "h" not in o:
                    ls = [l for l in hooks if op == "remove" or where[l][0] in "osij"]
                    if not ls: continue
                    o["l"] = r.choice(ls); o["h"] = where[o["l"]]
                if o["l"] not in hooks: continue
                if where[o["l"]] != list(o["h"]): continue      # a hook belongs to a single hookable
            if op == "fire":
                o.setdefault("k", r.choice(["optx", "oprx", "devtx", "devout", "devrx", "devin", "devops", "scentx", "drop"]))
                k = o["k"]
                n = {"optx": len(T), "oprx": len(R)}.get(k, len(devs))
                if not n: continue
                o.setdefault("i", r.randint(1, n)); o.setdefault("notify", r.random() < 0.75)
                if k == "drop": o["notify"] = True
            del calls[:]
            expected = {}
            def go():
                if op == "add": register(o["h"], o["l"], o["act"])
                elif op == "remove": drop(tuple(o["h"]), o["l"])
                elif op == "again":
                    d = devs[o["h"][1] - 1]
                    {"o": d.output_callbacks, "s": d.simulated_output_callbacks, "i": d.input_callbacks, "j": d.simulated_input_callbacks}[o["h"][0]].add_hook(hooks[o["l"]])
                    reg[tuple(o["h"])].add(o["l"])
                elif op == "fire":
                    k, i = o["k"], o["i"] - 1
                    air = Signal.Create(np.ones((1, 70), complex), 1.0)
                    to, ro = lambda d: range(sum(tx[:d]), sum(tx[:d + 1])), lambda d: range(sum(rx[:d]), sum(rx[:d + 1]))
                    def etx(d, t):
                        for m, j in enumerate(to(d)): expected[("t", j + 1)] = t.operator_transmissions[m]
                    def erx(d, q):
                        for m, j in enumerate(ro(d)): expected[("r", j + 1)] = q[m]
                    if k == "optx": expected[("t", i + 1)] = T[i].transmit(state[dev_of(tx, i + 1)], 0.0, o["notify"])
                    elif k == "oprx": expected[("r", i + 1)] = R[i].receive(air, state[dev_of(rx, i + 1)], o["notify"])
                    elif k == "devtx": etx(i, devs[i].transmit(notify=o["notify"]) if r.random() < 0.5 else devs[i].transmit(state[i], o["notify"]))
                    elif k == "devout": expected[("o", i + 1)] = expected[("s", i + 1)] = devs[i].generate_output(devs[i].transmit_operators(notify=False))
                    elif k == "devrx": erx(i, devs[i].receive(air, notify=o["notify"]).operator_receptions)
                    elif k == "devin": expected[("i", i + 1)] = expected[("j", i + 1)] = devs[i].process_input(air)
                    elif k == "devops": erx(i, devs[i].receive_operators([air] * rx[i], state[i], o["notify"]))
                    elif k == "scentx":
                        for d, t in enumerate(sc.transmit_devices(notify=o["notify"])): etx(d, t)
                    elif k == "drop":
                        q = sc.drop()
                        for d in range(len(devs)): etx(d, q.device_transmissions[d]); erx(d, q.device_receptions[d].operator_receptions)
            _, o["exc"] = attempt(go)
            if op == "fire":
                o["calls"] = [{"h": list(h), "l": [l for g, l, _ in calls if g == h]} for h in dict.fromkeys(g for g, _, _ in calls)]
                own = True
                for h in {g for g, _, _ in calls}:
                    xs = [x for g, _, x in calls if g == h]
                    if any(x is not xs[0] for x in xs) or (h in expected and xs[0] is not expected[h]): own = False
                o["own"] = own
            ev.append(o)
        return {"key": key, "c": {"tx": tx, "rx": rx}, "ev": ev}

    def campaign(r):
        """listeners hear of replayed drops, which are the recorded ones"""
        sc = SimulationScenario(seed=r.randint(0, 99))
        nd = r.randint(1, 2)
        devs = [sc.new_device(bandwidth=1.0, oversampling_factor=1, carrier_frequency=1e9) for _ in range(nd)]
        for d in devs:
            for _ in range(r.randint(1, 2)):
                d.add_dsp(r.choice([lambda: DuplexModem(waveform=waveform(), seed=1), lambda: OFDMRadar(ofdm(), seed=2), lambda: MatchedFilterJcas(8 * 1.5e8, waveform=waveform(), seed=3)])())
        tx = [len(d.transmitters) for d in devs]; rx = [len(d.receivers) for d in devs]
        T = [x for d in devs for x in d.transmitters]; R = [x for d in devs for x in d.receivers]
        ev, calls, f = [], [], tempfile.mkdtemp()
        def cb(h, l): return lambda x: calls.append((h, l, x))
        l = 0
        for k, x in enumerate(T):
            for _ in range(r.randint(0, 2)): l += 1; x.add_transmit_callback(cb(("t", k + 1), l)); ev.append({"op": "add", "h": ["t", k + 1], "l": l, "act": {"k": "plain", "l": 0}, "exc": ""})
        for k, x in enumerate(R):
            for _ in range(r.randint(1, 2)): l += 1; x.add_receive_callback(cb(("r", k + 1), l)); ev.append({"op": "add", "h": ["r", k + 1], "l": l, "act": {"k": "plain", "l": 0}, "exc": ""})
        def samples(x): return np.array((x.signal.to_dense() if hasattr(x.signal, "to_dense") else x.signal).view(np.ndarray))
        def fire(k, heard):
            o = {"op": "fire", "k": k, "i": 1, "notify": True}
            del calls[:]
            _, o["exc"] = attempt(sc.drop)
            o["calls"] = [{"h": list(h), "l": [l for g, l, _ in calls if g == h]} for h in dict.fromkeys(g for g, _, _ in calls)]
            data = {g: samples(x) for g, _, x in calls}
            data |= {("c",) + g: np.array(x.cube.data) for g, _, x in calls if g[0] == "r" and hasattr(x, "cube")}
            o["own"] = all(x is y for g, _, x in calls for h, _, y in calls if g == h)
            if heard is not None: o["own"] = o["own"] and data.keys() == heard.keys() and all(data[g].shape == heard[g].shape and np.allclose(data[g], heard[g]) for g in data)
            ev.append(o)
            return data
        try:
            n = r.randint(1, 3)
            path = os.path.join(f, "x.h5")
            _, x = attempt(sc.record, path)
            seen = [fire("drop", None) for _ in range(n)]
            attempt(sc.stop); attempt(sc.replay, path)
            for q in seen: fire("replay", q)
            attempt(sc.stop)
        finally: shutil.rmtree(f, ignore_errors=True)
        return {"key": "campaign", "c": {"tx": tx, "rx": rx}, "ev": ev}

    c.model(cfg="MCHooksDeep.cfg")
    edges = c.model(emit=True, expect_ops=["add", "remove", "fire", "send", "sense"])
    tours = c.tour(edges, max_len=60)
    random.Random(SEED).shuffle(tours)
    def clean(o): return {k: v for k, v in o.items() if k not in ("exc", "calls", "own", "match")}

    def run_tour(i):
        r = random.Random(f"{SEED}/t{i}")
        init, ops = tours[i]
        ops = [clean(o) for o in ops]
        if ops and ops[0]["op"] in ("send", "sense"): return sensing(r, [o for o in ops if o["op"] in ("send", "sense")], "tour")
        return history(r, init["c"], [o for o in ops if o["op"] not in ("send", "sense")], "tour")

    def run(i):
        r = random.Random(f"{SEED}/{i}")
        if i % 8 == 0: return campaign(r)
        if i % 8 == 1:
            plan, n = [], 0
            for _ in range(r.randint(3, 8)):
                if r.random() < 0.5 or not n: plan.append({"op": "send", "notify": r.random() < 0.6}); n += 1
                else: plan.append({"op": "sense", "i": r.randint(1, n)})
            return sensing(r, plan, "sensing")
        return history(r, None, [{"op": r.choice(["add", "add", "add", "remove", "again", "fire", "fire"])} for _ in range(r.randint(6, 20))], "random")

    traces = pmap(run_tour, len(tours), seconds=60)
    traces += pmap(run, 12000 if THOROUGH else 2000, seconds=60)
    c.validate(traces, jobs=7)
    cnt = collections.Counter(e["op"] + e.get("k", "") + ("!" if e["exc"] else "") for t in traces for e in t["ev"])
    c.extra["operations"] = dict(cnt); c.extra["tours"] = len(tours)
    for o in ("add", "remove", "again", "fireoptx", "fireoprx", "firedevtx", "firedevout", "firedevrx", "firedevin", "firedevops", "firescentx", "firedrop", "firereplay", "send", "sense", "sense!"): c.require(cnt[o] > 30, f"too few {o}")

main("C26", "Hooks", body)
