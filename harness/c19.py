"""C19: seeded random trees."""
from vlib import *
import hashlib


def body(c: Check):
    import numpy as np
    with quiet():
        from hermespy.core import RandomNode, Signal, Transformation, SignalReceiver, SignalTransmitter
        from hermespy.fec import EncoderManager
        from hermespy.modem import RandomBitsSource, TransmittingModem, ChirpFSKWaveform
        from hermespy.simulation import SimulatedDevice, SimulationScenario, AWGN, RandomTrigger, N0, SimulatedUniformArray, SimulatedIdealAntenna, PowerAmplifier, RFChain, DAC, ADC, Mixer, IdealMixer, MixerType, Source, OscillatorPhaseNoise
        from hermespy.channel import MultipathFadingChannel, Exponential, Cost259, TDL, IdealChannel, RandomDelayChannel, SpatialDelayChannel, SingleTargetRadarChannel, UrbanMicrocells, IndoorFactory, RuralMacrocells, IndoorOffice, CDL, CDLType, TDLType, FactoryType, OfficeType, Cost259Type
    def digest(*v):
        h = hashlib.sha1()
        for x in v: h.update(np.ascontiguousarray(x).tobytes())
        return h.hexdigest()[:16]
    def fading(): return MultipathFadingChannel(np.array([0., 1e-6]), np.array([1., .5]), np.array([0., 2.]), los_angle=.5)
    MAKE = {"node": lambda: RandomNode(), "bits": RandomBitsSource, "noise": AWGN, "trigger": RandomTrigger, "modem": TransmittingModem, "device": SimulatedDevice, "scenario": SimulationScenario,
            "channel": fading, "delay": lambda: RandomDelayChannel((1e-7, 1e-6)), "enc": EncoderManager, "amp": PowerAmplifier, "chain": RFChain}

    def history(r, cc, plan, key):
        N, free = [], True
        for x in cc["nodes"]:
            k = x.get("kind", "node")
            sd = x["seed"] if x["seed"] >= 0 else None
            if k == "node":
                m = N[x["mother"] - 1] if x["mother"] else None
                y = RandomNode(m, sd) if r.random() < 0.5 else (RandomNode(m, seed=sd) if m is not None else (RandomNode(seed=sd) if sd is not None else RandomNode()))
            else:
                y = MAKE[k]()
                if x["seed"] >= 0: y.seed = x["seed"]
            N.append(y)
        kinds = [x.get("kind", "node") for x in cc["nodes"]]
        S = SimulatedDevice(carrier_frequency=1e9, bandwidth=1e6, pose=Transformation.From_Translation(np.array([30., 4., 1.])))
        D2 = SimulatedDevice(carrier_frequency=1e9, bandwidth=1e6)
        ev, registered = [], set()
        def attach(n, m):
            x = N[n - 1]
            if m == 0: x.random_mother = None; return
            y, k = N[m - 1], (kinds[n - 1], kinds[m - 1])
            if r.random() < 0.15: x.random_mother = y
            elif k == ("bits", "modem"): y.bits_source = x
            elif k == ("enc", "modem"): y.encoder_manager = x
            elif k in (("noise", "device"), ("noise", "scenario")): y.noise_model = x
            elif k == ("chain", "device"): y.rf = x
            elif k[1] == "scenario" and k[0] in ("channel", "delay"): x.scenario = y
            elif k == ("device", "scenario") and n not in registered: registered.add(n); y.add_device(x)
            else: x.random_mother = y
        def draw(n, k):
            x = N[n - 1]
            if k == "n": return digest(x._rng.normal(size=2))
            if k == "i": return digest(x._rng.integers(0, 2 ** 60, 3))
            if k[0] == "b": return digest(x.generate_bits(int(k[1:])))
            if k == "w": return digest(np.asarray(x.realize(2.).add_to(Signal.Create(np.zeros((2, 3), complex), 1.)).view(np.ndarray)))
            if k == "a": return digest(np.asarray(x.add_noise(Signal.Create(np.zeros((1, 4), complex), 1.), 1.).view(np.ndarray)))
            if k == "t": return "skip"
            if k[0] == "f":
                z = x.realize().sample(S, D2, 0., 1e9, 1e6)
                return digest(np.asarray(z.propagate(Signal.Create(np.arange(1, 9).reshape((1, -1)).astype(complex), 1e6, 1e9)).view(np.ndarray)))
        for o in plan:
            o = dict(o); op = o["op"]
            def go():
                if op == "seed": N[o["n"] - 1].seed = o["v"] if o["v"] >= 0 else None
                elif op == "attach": attach(o["n"], o["m"])
                elif op == "give": N[o["n"] - 1]._rng = N[o["m"] - 1]._rng
                elif op == "draw": o["got"] = draw(o["n"], o["k"])
                elif op == "read":
                    x = N[o["n"] - 1]
                    o["root"], o["seed"] = bool(x.is_random_root), -1 if x.seed is None else int(x.seed)
                    o["mother"] = next((i + 1 for i, y in enumerate(N) if y is x.random_mother), 0 if x.random_mother is None else -9)
                    g = x._rng
                    o["peers"] = [i + 1 for i, y in enumerate(N) if y._rng is g]
            _, e = attempt(go)
            o["exc"] = e
            if e: o.setdefault("got", "?"); ev.append(o); break
            ev.append(o)
        return {"key": key, "c": {"nodes": [{"seed": x["seed"], "mother": x["mother"] if x.get("kind", "node") == "node" else 0} for x in cc["nodes"]]}, "ev": ev}

    c.model(cfg="MCRandDeep.cfg")
    edges = c.model(emit=True, expect_ops=["seed", "attach", "draw"])
    tours = c.tour(edges, max_len=30)
    random.Random(SEED).shuffle(tours)
    if not THOROUGH: tours = tours[:1500]

    def run_tour(i):
        r = random.Random(f"{SEED}/t{i}")
        init, ops = tours[i]
        cc = {"nodes": [{"seed": x["seed"], "mother": x["mother"]} for x in init["nodes"]]}
        plan = []
        for o in ops:
            plan.append({k: v for k, v in o.items() if k not in ("exc", "got")})
            if r.random() < 0.5: plan.append({"op": "read", "n": r.randint(1, 3)})
        return history(r, cc, plan + [{"op": "read", "n": n} for n in (1, 2, 3)], "tour")

    PAIRS = {("bits", "modem"), ("enc", "modem"), ("noise", "device"), ("noise", "scenario"), ("chain", "device"), ("channel", "scenario"), ("delay", "scenario"), ("device", "scenario"), ("noise", "amp")}
    DRAWS = {"bits": ["b64", "b80", "n"], "noise": ["w", "a", "n"], "channel": ["f", "f", "i"], "delay": ["fd", "n"]}

    def run(i):
        r = random.Random(f"{SEED}/{i}")
        n = r.randint(2, 8)
        typed = r.random() < 0.6
        nodes = []
        for k in range(n):
            kind = r.choice(list(MAKE)) if typed else "node"
            nodes.append({"kind": kind, "seed": r.choice([-1, -1, 0, 1, 2, 7]), "mother": r.randint(0, k) if kind == "node" and r.random() < 0.5 else 0})
            if nodes[-1]["mother"] and nodes[nodes[-1]["mother"] - 1]["kind"] != "node": nodes[-1]["mother"] = 0
        mother = [x["mother"] for x in nodes]
        def above(m):
            q = set()
            while m: q.add(m); m = mother[m - 1]
            return q
        plan, script = [], []
        for _ in range(r.randint(5, 40)):
            x = r.random()
            k = r.randint(1, n)
            if x < 0.15: script.append({"op": "seed", "n": k, "v": r.choice([-1, 0, 1, 2, 7])})
            elif x < 0.4:
                m = r.randint(0, n)
                good = [m for m in range(1, n + 1) if (nodes[k - 1]["kind"], nodes[m - 1]["kind"]) in PAIRS]
                if good and r.random() < 0.7: m = r.choice(good)
                if k in above(m): continue
                mother[k - 1] = m
                script.append({"op": "attach", "n": k, "m": m})
            elif x < 0.44 and not typed: script.append({"op": "give", "n": k, "m": r.randint(1, n)})
            elif x < 0.85: script.append({"op": "draw", "n": k, "k": r.choice(DRAWS.get(nodes[k - 1]["kind"], ["n", "i"]))})
            else: script.append({"op": "read", "n": k})
        plan = script
        if r.random() < 0.6:  # re-seed every root and repeat the draws
            v = r.choice([0, 1, 3])
            draws = [o for o in script if o["op"] == "draw"]
            roots = [k for k in range(1, n + 1) if not mother[k - 1]]
            again = [{"op": "seed", "n": k, "v": v} for k in roots] + draws
            plan = script + again + again
        return history(r, {"nodes": nodes}, plan + [{"op": "read", "n": k} for k in range(1, n + 1)], "random")

    def run_scenario(i):
        """drops of whole scenarios: everything random below the scenario follows its seed"""
        r = random.Random(f"{SEED}/s{i}")
        L = SimulatedDevice
        def channel():
            g = r.choice([1., 2.])
            return r.choice([lambda: IdealChannel(gain=g), lambda: fading(), lambda: Exponential(1e-7, 1e-6), lambda: Cost259(Cost259Type.RURAL, los_angle=.2), lambda: Cost259(Cost259Type.HILLY), lambda: TDL(r.choice(list(TDLType)), 1e-7),
                             lambda: RandomDelayChannel((1e-7, 1e-6)), lambda: RandomDelayChannel(1e-6), SpatialDelayChannel, lambda: SingleTargetRadarChannel((10., 40.), 1.),
                             lambda: UrbanMicrocells(), lambda: IndoorOffice(office_type=OfficeType.MIXED) if False else UrbanMicrocells(), lambda: RuralMacrocells(), lambda: CDL(CDLType.A, 1e-7)])()
        def build():
            nonlocal r
            r = random.Random(f"{SEED}/S{i}")
            sc = SimulationScenario(channel() if r.random() < 0.6 else None)
            if r.random() < 0.3: sc.noise_model = AWGN()
            devs = []
            for d in range(r.randint(2, 3)):
                m = r.choice([1, 1, 2])
                dev = sc.new_device(carrier_frequency=1e9, bandwidth=1e6, antennas=SimulatedUniformArray(SimulatedIdealAntenna, 1e-2, [m, 1, 1]), pose=Transformation.From_Translation(np.array([0., 40. * d, 10. - 8. * (d > 0)])), noise_level=N0(.5) if r.random() < .5 else None)
                if r.random() < 0.3: dev.trigger_model = RandomTrigger()
                dev.transmitters.add(SignalTransmitter(Signal.Create(np.exp(1j * np.arange(12 * m)).reshape((m, 12)), 1e6, 1e9 if False else 0.)))
                if r.random() < 0.3:
                    ch = RFChain(); dac, src, mix, adc, dn = ch.add_block(DAC()), ch.new_block(Source, carrier_frequency=1e9, amplitude=1., phase_noise=OscillatorPhaseNoise()), ch.new_block(Mixer, mixer_type=MixerType.UP), ch.add_block(ADC()), ch.new_block(IdealMixer, mixer_type=MixerType.DOWN, noise_level=N0(.1))
                    amp = ch.new_block(PowerAmplifier, noise_level=N0(.1))
                    if m == 1: ch.connect(dac.o, mix.i); ch.connect(src.o, mix.lo); ch.connect(mix.o, amp.i); ch.connect(dn.port("o"), adc.port("i")); dev.rf = ch
                if r.random() < 0.3 and m == 1: 
                    modem = TransmittingModem(waveform=ChirpFSKWaveform(chirp_duration=8e-6, num_pilot_chirps=0, num_data_chirps=3))
                    modem.random_mother = dev  # operators are only random below a device when attached explicitly
                    dev.transmitters.add(modem)
                dev.receivers.add(SignalReceiver(16, expected_power=1.))
                devs.append(dev)
            for a in range(len(devs)):
                for b in range(a, len(devs)):
                    if a == b or r.random() < 0.7: sc.set_channel(devs[a], devs[b], channel() if a != b else r.choice([lambda: IdealChannel(0.), lambda: SingleTargetRadarChannel((10., 40.), 1.)])())
            return sc
        objs = [build()]  # some channels draw once when created, before they are attached
        seeds = [r.choice([-1, 3, 4]) for _ in objs]
        for x, v in zip(objs, seeds):
            if v >= 0: x.seed = v
        ev = []
        def digest_drop(D):
            return digest(*[np.asarray(y.view(np.ndarray)) for q in D.device_receptions for z in (q.impinging_signals, [p.signal for p in q.operator_receptions]) for y in z])
        for o in [{"op": r.choice(["draw", "draw", "draw", "seed", "seed"]), "n": 1} for _ in range(r.randint(8, 16))]:
            o = dict(o)
            def go():
                sc = objs[o["n"] - 1]
                if o["op"] == "seed": o["v"] = r.choice([3, 3, 4]); sc.seed = o["v"]
                else:
                    o["k"] = r.choice(["d0", "d0", "c", "t"])
                    if o["k"] == "d0": D = sc.drop(); o["got"] = digest(sc._rng.normal(size=1)) + digest_drop(D)
                    elif o["k"] == "c":
                        dv = sc.devices[0]; Z = [x.realize() for x in sc.channels] if r.random() < 0.5 else sc.realize_channels()
                        o["got"] = digest(sc._rng.normal(size=2), *[np.asarray(z.sample(dv, sc.devices[-1]).propagate(Signal.Create(np.ones((dv.num_transmit_antennas, 5), complex), 1e6, 1e9)).view(np.ndarray)) for z in Z])
                    else: o["got"] = digest(sc._rng.normal(size=1), np.array([x.num_offset_samples for x in sc.realize_triggers()]))
            _, e = attempt(go)
            o["exc"] = e; o.setdefault("got", "?"); o.setdefault("k", "?"); o.setdefault("v", 0)
            ev.append(o)
            if e: break
        return {"key": "scenario", "c": {"nodes": [{"seed": v, "mother": 0} for v in seeds]}, "ev": ev}

    traces = pmap(run_tour, len(tours), seconds=60)
    traces += pmap(run, 8000 if THOROUGH else 1500, seconds=90)
    traces += pmap(run_scenario, 1200 if THOROUGH else 250, seconds=150)
    c.validate(traces, jobs=7)
    cnt = collections.Counter(e["op"] + e.get("k", "") for t in traces for e in t["ev"])
    c.extra["operations"] = dict(cnt); c.extra["tours"] = len(tours)
    for o in ("seed", "attach", "give", "read", "drawn", "drawf", "draww", "drawa", "drawb64", "drawd0", "drawc"): c.require(cnt[o] > 20, f"too few {o}")

main("C19", "Rand", body)
