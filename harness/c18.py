"""C18: channel realizations are frozen draws, sample listeners and gains."""
from vlib import *


def body(c: Check):
    import numpy as np
    with quiet():
        from hermespy.channel import (IdealChannel, SpatialDelayChannel, RandomDelayChannel, MultipathFadingChannel, TDL, TDLType, Cost259, Cost259Type, Exponential, CDL, CDLType, LOSState, O2IState, OfficeType, FactoryType,
                                      IndoorOffice, IndoorFactory, RuralMacrocells, UrbanMacrocells, UrbanMicrocells, SingleTargetRadarChannel, MultiTargetRadarChannel, VirtualRadarTarget, PhysicalRadarTarget, FixedCrossSection)
        from hermespy.channel.fading import StandardAntennaCorrelation, CorrelationType, DeviceType
        from hermespy.core import Factory, Signal, Transformation
        from hermespy.simulation import SimulationScenario, SimulatedUniformArray, SimulatedIdealAntenna, StaticTrajectory
    factory = Factory()
    FS, FC = 1e7, 1e9
    def T(*x): return StaticTrajectory(Transformation.From_Translation(np.array(x, float)))

    def multi(**k):
        ch = MultiTargetRadarChannel(**k)
        ch.add_target(VirtualRadarTarget(FixedCrossSection(1.0), T(50, 60, 3)))
        return ch
    KINDS = {   # kind: (constructor, every realization differs, the links it supports, edits after realization)
        "ideal": (lambda **k: IdealChannel(**k), False, "both"),
        "spatial": (lambda **k: SpatialDelayChannel(**k), False, "bi"),
        "random-delay": (lambda **k: RandomDelayChannel((1e-7, 2e-6), **k), False, "both"),
        "random-delay-consistent": (lambda **k: RandomDelayChannel((1e-7, 2e-6), decorrelation_distance=20.0, model_propagation_loss=False, **k), False, "both"),
        "fading": (lambda **k: MultipathFadingChannel(np.array([0, 2e-7]), np.array([1.0, 0.5]), np.array([0.0, 2.0]), num_sinusoids=5, doppler_frequency=1e5, **k), True, "both"),
        "fading-consistent": (lambda **k: MultipathFadingChannel(np.array([0, 2e-7]), np.array([1.0, 0.5]), np.array([0.0, 2.0]), 30.0, num_sinusoids=5, los_angle=0.3, doppler_frequency=1e5, **k), True, "both"),
        "fading-correlated": (lambda **k: MultipathFadingChannel(np.array([0, 2e-7]), np.array([1.0, 0.5]), np.array([0.0, 2.0]), num_sinusoids=5, antenna_correlation=StandardAntennaCorrelation(CorrelationType.MEDIUM, device=DeviceType.TERMINAL) if 0 else None, **k), True, "both"),
        "tdl": (lambda **k: TDL(TDLType.E, 1e-7, num_sinusoids=5, **k), True, "both"),
        "cost": (lambda **k: Cost259(Cost259Type.HILLY, num_sinusoids=4, **k), True, "both"),
        "exponential": (lambda **k: Exponential(1e-7, 2e-7, num_sinusoids=5, **k), True, "both"),
        "cdl": (lambda **k: CDL(CDLType.D, 1e-7, **k), True, "bi"),
        "office": (lambda **k: IndoorOffice(OfficeType.MIXED, **k), True, "bi"),
        "factory": (lambda **k: IndoorFactory(1e4, 3e3, FactoryType.SH, clutter_height=2.0, **k), True, "bi"),
        "rural": (lambda **k: RuralMacrocells(**k), True, "bi"),
        "macro": (lambda **k: UrbanMacrocells(expected_state=O2IState.NLOS, **k), True, "bi"),
        "micro": (lambda **k: UrbanMicrocells(**k), True, "bi"),
        "single": (lambda **k: SingleTargetRadarChannel((20.0, 60.0), 1.0, attenuate=False, velocity=(0.0, 1e4), target_azimuth=(0.0, 1.0), decorrelation_distance=50.0, **k), True, "mono"),
        "multi": (lambda **k: multi(**k), True, "mono"),
        "multi-bistatic": (lambda **k: multi(decorrelation_distance=30.0, **k), True, "both"),
    }

    def history(r, nd, plan, key, kind):
        make, rnd, links = KINDS[kind]
        seed = r.randint(0, 9999)
        ch, twin = make(seed=seed), make(seed=seed, gain=4.0)
        sc = SimulationScenario(seed=r.randint(0, 99))
        def place(d, p): return T(25 * d + 3 * p, 7 * p, (10 if d == 0 else 1.5) + p)
        nant = 1 if kind in ("cost", "rural") else 2
        devs = [sc.new_device(carrier_frequency=FC, bandwidth=FS, oversampling_factor=1, antennas=SimulatedUniformArray(SimulatedIdealAntenna, 0.15, (r.randint(1, nant), 1, 1)), pose=place(d, 0)) for d in range(nd)]
        mono = links == "mono" or (links == "both" and r.random() < 0.2)
        pair = (1, 1) if mono else (1, 2)
        sc.set_channel(devs[pair[0] - 1], devs[pair[1] - 1], ch)
        def pairs():
            if links == "mono" or (mono and r.random() < 0.5): a = r.randint(1, nd); return a, a
            return tuple(r.sample(range(1, nd + 1), 2))
        reals, twins, prints, hooks, calls, ev = [], [], [], [], [], []
        def fingerprint(x):
            for i, y in enumerate(prints):
                if x.shape == y.shape and np.allclose(x, y, rtol=0, atol=1e-8 * max(np.max(np.abs(y)), 1e-300)): return i + 1
            prints.append(x)
            return len(prints)
        def response(smp, pattern):
            x = Signal.Create(pattern[:smp.num_transmit_antennas], smp.bandwidth, carrier_frequency=smp.carrier_frequency)
            y = smp.propagate(x)
            H = smp.state(4, 6).dense_state()
            return np.concatenate([np.array(y.to_dense().view(np.ndarray)).ravel() if hasattr(y, "to_dense") else np.array(y).ravel(), np.asarray(H).ravel()])
        g = np.random.default_rng(seed)
        pattern = g.standard_normal((4, 9)) + 1j * g.standard_normal((4, 9))
        last = lambda: next((i + 1 for i, x in enumerate(reals) if x is ch.realization), 0 if ch.realization is None else BIG)
        pos = [0] * nd
        for o in plan:
            o = dict(o); op = o["op"]
            if op == "realize": o.setdefault("cache", r.random() < 0.7)
            if op == "sample":
                if not reals: continue
                o.setdefault("r", r.randint(1, len(reals)))
                if "a" not in o or links == "mono": o["a"], o["b"] = pairs()
                if o["a"] == o["b"] and links == "bi": continue
                o.setdefault("t", r.choice([0, 0, 1])); o.setdefault("rec", r.random() < 0.35)
                if "f" not in o or (o["f"] == 0 and key == "random"): o["f"], o["w"] = r.choice([(0, 0), (0, 0), (1, 0), (1, 1), (0, 1)])
                o["copy"] = not o["rec"] and r.random() < 0.2
            if op == "propagate" or op == "drop":
                if op == "propagate": o["a"], o["b"] = pairs(); o["t"] = r.choice([0, 1])
            if op == "listen": o.setdefault("tx", r.choice([0, 0, r.randint(1, nd)])); o.setdefault("rx", r.choice([0, 0, r.randint(1, nd)]))
            if op == "forget":
                on = [i + 1 for i, h in enumerate(hooks) if h is not None]
                if not on: continue
                o.setdefault("l", r.choice(on))
            if op == "move": o.setdefault("d", r.randint(1, nd)); o.setdefault("p", r.randint(0, 2))
            del calls[:]
            def go():
                if op == "realize":
                    reals.append(ch.realize(o["cache"]) if not o["cache"] or r.random() < 0.5 else ch.realize()); twins.append(twin.realize())
                    o["last"] = last()
                elif op == "sample":
                    A, B = devs[o["a"] - 1], devs[o["b"] - 1]
                    fc, w, t = (None, 2 * FC)[o["f"]], (None, 2 * FS)[o["w"]], float(o["t"])
                    how = r.choice(["device", "state"])
                    def draw(R, how, noisy):
                        args = (fc, w)
                        k, p = {}, []
                        style = r.random() if noisy else 0
                        if fc is None and w is None and style < 0.7: pass
                        elif style < 0.5 and not (fc is None): p = [fc] if w is None else [fc, w]
                        else: k = {n: v for n, v in (("carrier_frequency", fc), ("bandwidth", w)) if v is not None or r.random() < 0.3}
                        if o["rec"]:
                            base = R.sample(B, A, t, *([2 * FC] if fc else []))
                            del calls[:]
                            return R.reciprocal_sample(base, A, B, t, *p, **k) if how == "device" else R.reciprocal_sample(base, A.state(t), B.state(t), *p, **k)
                        return R.sample(A, B, t, *p, **k) if how == "device" else R.sample(A.state(t), B.state(t), t, *p, **k)
                    R = reals[o["r"] - 1]
                    if o["copy"]:
                        f = tempfile.mkdtemp()
                        try: q = os.path.join(f, "r.h5"); factory.to_HDF(q, R); R = factory.from_HDF(q, type(R))
                        finally: shutil.rmtree(f, ignore_errors=True)
                    smp = draw(R, how, True)
                    o["calls"] = [l for l, _ in calls]; o["own"] = all(x is smp for _, x in calls)
                    x = response(smp, pattern)
                    o["fp"] = fingerprint(np.append(x, [smp.carrier_frequency / 1e9 * np.max(np.abs(x)), smp.bandwidth / 1e7 * np.max(np.abs(x)), smp.time * np.max(np.abs(x))]))
                    y = response(draw(twins[o["r"] - 1], "device", False), pattern)
                    o["gain"] = 128 if x.shape == y.shape and np.allclose(y, 2 * x, rtol=0, atol=1e-8 * np.max(np.abs(x))) else xint(64 * np.linalg.norm(y) / max(np.linalg.norm(x), 1e-300))
                elif op == "propagate":
                    A, B = devs[o["a"] - 1], devs[o["b"] - 1]
                    ch.propagate(Signal.Create(pattern[:A.num_transmit_antennas], FS, carrier_frequency=FC), A, B, float(o["t"]))
                    o["calls"] = [l for l, _ in calls]
                    twins.append(twin.realize()); reals.append(ch.realization); o["last"] = last() if sum(x is ch.realization for x in reals) == 1 else BIG
                elif op == "drop":
                    sc.drop()
                    o["calls"] = [l for l, _ in calls]; o["links"] = [list(pair)] if pair[0] == pair[1] else [list(pair), list(pair)[::-1]]
                    twins.append(twin.realize()); reals.append(ch.realization); o["last"] = last() if sum(x is ch.realization for x in reals) == 1 else BIG
                elif op == "listen":
                    l = len(hooks) + 1
                    args = {n: devs[o[k] - 1] for n, k in (("transmitter", "tx"), ("receiver", "rx")) if o[k]}
                    hooks.append(ch.add_sample_hook(lambda s, l=l: calls.append((l, s)), **args))
                elif op == "forget": ch.remove_sample_hook(hooks[o["l"] - 1]); hooks[o["l"] - 1] = None
                elif op == "move": devs[o["d"] - 1].trajectory = place(o["d"] - 1, o["p"]); pos[o["d"] - 1] = o["p"]
                elif op == "configure":
                    v = r.choice([0.25, 2.0, 9.0]); ch.gain = v; twin.gain = 4 * v
                    if kind.startswith("multi"):
                        for x in (ch, twin): x.add_target(VirtualRadarTarget(FixedCrossSection(2.0), T(70, 20 + v, 4)))
                    if "fading" in kind:
                        v = r.choice([0.0, 2e5])
                        for x in (ch, twin): x.doppler_frequency = v; x.los_angle = v
                    if kind == "random-delay":
                        v = r.choice([0.0, (1e-7, 3e-6)])
                        for x in (ch, twin): x.delay = v
                    if kind.startswith("single"):
                        v = r.random() < 0.8
                        for x in (ch, twin): x.target_exists = v
            with quiet(): _, o["exc"] = attempt(go)
            ev.append(o)
            if o["exc"]: break
        return {"key": key + " " + kind, "c": {"nd": nd, "rnd": rnd and all(e["op"] != "configure" for e in ev)}, "ev": ev}

    c.model(cfg="MCChannelsDeep.cfg")
    edges = c.model(emit=True, expect_ops=["realize", "sample", "listen", "forget", "move", "configure"])
    tours = c.tour(edges, max_len=80)
    random.Random(SEED).shuffle(tours)
    kinds = sorted(KINDS)
    def clean(o): return {k: v for k, v in o.items() if k not in ("exc", "fp", "gain", "own", "calls", "last", "copy")}

    def run_tour(i):
        r = random.Random(f"{SEED}/t{i}")
        init, ops = tours[i]
        return history(r, 2, [clean(o) for o in ops], "tour", r.choice(["ideal", "spatial", "random-delay", "fading", "fading-consistent", "cdl", "single", "multi"]))

    def run(i):
        r = random.Random(f"{SEED}/{i}")
        plan = [{"op": "realize"}] + [{"op": r.choice(["realize"] + ["sample"] * 8 + ["propagate", "drop", "listen", "listen", "forget", "move", "configure"])} for _ in range(r.randint(8, 22))]
        return history(r, r.choice([2, 2, 3]), plan, "random", kinds[i % len(kinds)])

    if not THOROUGH: tours = tours[:600]
    traces = pmap(run_tour, len(tours), seconds=90)
    traces += pmap(run, 6000 if THOROUGH else 900, seconds=120)
    c.validate(traces, jobs=7)
    cnt = collections.Counter(e["op"] + ("!" if e["exc"] else "") for t in traces for e in t["ev"])
    c.extra["operations"] = dict(cnt); c.extra["tours"] = len(tours)
    for o in ("realize", "sample", "propagate", "drop", "listen", "forget", "move", "configure"): c.require(cnt[o] > 30, f"too few {o}")
    c.require(sum(1 for t in traces for e in t["ev"] if e.get("copy")) > 50, "too few stored copies")

main("C18", "Channels", body)
