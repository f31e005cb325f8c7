"""C23: radar detections, ranges and radar evaluations."""
from vlib import *


def body(c: Check):
    import numpy as np
    with quiet():
        from scipy.constants import speed_of_light
        from hermespy.channel import SingleTargetRadarChannel
        from hermespy.core import GridDimensionInfo, SamplePoint, Signal, ValueType
        from hermespy.jcas import MatchedFilterJcas, OFDMRadar
        from hermespy.modem import ElementType, GridElement, GridResource, OFDMWaveform, PrefixType, RectangularWaveform, SymbolSection
        from hermespy.radar import (FMCW, CFARDetector, DetectionProbEvaluator, MaxDetector, PointDetection, Radar, RadarCube, RadarPointCloud, RadarReception, ReceiverOperatingCharacteristic,
                                    ThresholdDetector)
        from hermespy.radar.evaluators import RocEvaluation, RocEvaluationResult, RootMeanSquareError, RootMeanSquareErrorResult, RootMeanSquareEvaluation
        from hermespy.simulation import SimulatedDevice, SimulationScenario
    q = np.pi / 2
    def build(a):
        return RadarCube(np.array(a["data"], float), np.array(a["ang"], float) * q, np.array(a["dop"], float), np.array(a["rng"], float), speed_of_light)
    def point(p, v=(0, 0, 0), w=1.0): return PointDetection(np.array(p, float), np.array(v, float), w)
    def cloud(ps):
        k = RadarPointCloud(100.0)
        for p in ps: k.add_point(point(p))
        return k
    def vec(a): return [xint(x) for x in a]

    def randcube(r, small):
        na, nd, nr = r.choice([1, 1, 2, 3]), r.choice([1, 2, 3, 4]), r.choice([1, 2, 3, 5])
        if small: na, nd, nr = r.choice([1, 2]), r.choice([3, 4, 5]), r.choice([3, 4, 6])
        top = r.choice([1, 2, 5, 9]) if not small else r.choice([1, 2, 4])
        dens = r.choice([0.2, 0.6, 1.0]) if r.random() < 0.95 else 0.0
        data = [[[r.randint(0, top) if r.random() < dens else 0 for _ in range(nr)] for _ in range(nd)] for _ in range(na)]
        return {"data": data, "ang": [[r.randint(-2, 3), r.randint(0, 2)] for _ in range(na)], "dop": r.sample(range(-6, 7), nd), "rng": sorted(r.sample(range(0, 12), nr)) if r.random() < 0.8 else r.sample(range(0, 12), nr)}

    def detector(o):
        if o["k"] == "threshold": return ThresholdDetector(o["num"] / o["den"], normalize=o["norm"], peak_detection=o["peak"])
        if o["k"] == "max": return MaxDetector()
        return CFARDetector(tuple(o["t"]), tuple(o["g"]), 2.0 ** -o["pfa"])

    def target(r):
        """a radar observing a single static target at a known delay"""
        k = r.choice(["fmcw", "mf", "ofdm"])
        os_ = r.choice([1, 2, 4]); bw = r.choice([1.0, 1e3, 1e8]); fc = r.choice([1e9, 60e9])
        seed = r.randint(0, 99)
        dev = SimulatedDevice(bandwidth=bw, oversampling_factor=os_, carrier_frequency=fc, seed=seed)
        state = dev.state()
        if k == "fmcw":
            n = r.choice([16, 20, 32, 64]); chirps = r.randint(1, 5); gap = r.choice([0, 0, 8])
            adc = None if r.random() < 0.5 else bw / 2
            w = FMCW(chirps, n / bw * (1 + 1e-9), (n + gap) / bw * (1 + 1e-9), adc)
            bins = n if adc is None else n // 2
            b = r.randint(0, int(0.35 * bins)); m = r.choice([0, 0, r.randint(0, bins - 1)])
            res = speed_of_light / (2 * bw); radar = Radar(w, detector=MaxDetector(), min_range=max(0.0, (m - 0.25) * res))
            d = b * os_
        elif k == "mf":
            w = RectangularWaveform(num_preamble_symbols=0, num_data_symbols=r.randint(40, 80), modulation_order=r.choice([4, 16]))
            bins = r.randint(4, 20); res = speed_of_light / (2 * bw * os_)
            b = r.randint(0, bins - 1); m = r.choice([0, 0, r.randint(0, bins - 1)])
            mx = r.choice([0.0, 0.0, 1.0])
            radar = MatchedFilterJcas((bins + 0.25) * res, waveform=w, detector=MaxDetector(), min_range=max(0.0, (m - 0.25) * res), max_velocity=mx, seed=seed)
            d = b
        else:
            nsc = r.choice([8, 12, 16]); words = r.randint(1, 4)
            w = OFDMWaveform(grid_resources=[GridResource(1, PrefixType.CYCLIC, 0.5, [GridElement(ElementType.DATA, nsc)])], grid_structure=[SymbolSection(words, [0])], num_subcarriers=nsc, modulation_order=4, dc_suppression=False)
            bins = nsc; b = r.randint(0, nsc // 2); m = r.choice([0, 0, r.randint(0, bins - 1)]); res = speed_of_light / (2 * bw)
            radar = OFDMRadar(w, detector=MaxDetector(), min_range=max(0.0, (m - 0.25) * res), seed=seed)
            d = b * os_
        o = {"op": "target", "radar": k, "b": b, "m": m, "n": bins}
        def go():
            t = radar.transmit(state)
            y = np.array(t.signal.to_dense().view(np.ndarray) if hasattr(t.signal, "to_dense") else t.signal.view(np.ndarray))
            phase = np.exp(1j * r.random() * 6)
            y = phase * np.concatenate([np.zeros((1, d), complex), y], axis=1)[:, :y.shape[1] + (d if r.random() < 0.5 else 0)]
            rec = radar.receive(Signal.Create(y, state.sampling_rate, carrier_frequency=fc), state, r.random() < 0.5)
            cube = rec.cube
            rb = cube.range_bins
            i = np.unravel_index(np.argmax(cube.data), cube.data.shape)
            o["first"], o["len"], o["at"] = xint(rb[0] / res), len(rb), xint(rb[i[2]] / res)
            o["vel"] = xint(round(float(cube.velocity_bins[i[1]]) * 1e6))
            p = rec.cloud.points
            o["z"] = xint(p[0].position[2] / res) if len(p) == 1 and np.allclose(p[0].position[:2], 0) else -1
        _, e = attempt(go)
        o["exc"] = e
        return o

    def link(r):
        """a device observing a target over a radar channel"""
        bw, fc, os_ = 1e8, 10e9, r.choice([1, 2])
        res = speed_of_light / (2 * bw)
        n = r.choice([32, 48]); b = 0
        sc = SimulationScenario(seed=r.randint(0, 999))
        dev = [sc.new_device(bandwidth=bw, oversampling_factor=os_, carrier_frequency=fc) for _ in range(r.randint(1, 2))]
        x = r.randrange(len(dev)); dx = dev[x]
        ch = SingleTargetRadarChannel(res, 1.0, attenuate=r.random() < 0.5)
        sc.set_channel(dx, dx, ch)
        radar = Radar(FMCW(r.randint(2, 4), n / bw * (1 + 1e-9), n / bw * (1 + 1e-9)), detector=MaxDetector())
        dx.add_dsp(radar)
        roc = ReceiverOperatingCharacteristic(radar, dx, dx, ch); err = RootMeanSquareError(radar, dx, dx, ch); pd = DetectionProbEvaluator(radar)
        o = {"op": "link", "os": os_, "n": n, "drops": []}
        def go():
            for _ in range(r.randint(1, 2)):
                b = r.randint(1, int(0.3 * n)); ch.target_range = (b + 0.25) * res      # delays are truncated to samples
                sc.drop()
                h = roc.evaluate().artifact(); a = err.evaluate().artifact()
                o["drops"].append({"b": b, "null": bool(h.h0_value <= 1e-6 * h.h1_value), "hit": bool(h.h1_value > 0), "err": xint(round(a.cummulation / res ** 2)), "num": int(a.num_errors), "pd": bool(pd.evaluate().artifact().to_scalar())})
        _, e = attempt(go)
        o["exc"] = e
        return o

    def history(r, plan, key):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        grid = [GridDimensionInfo([SamplePoint(1), SamplePoint(2)], "dim", "linear", ValueType.LIN)]
        T = r.choice([3, 5, 9, 17])
        if any(o.get("n") == 5 and o["op"] == "roc" for o in plan): T = 5
        roc = RocEvaluationResult(grid, None, T)
        rms = RootMeanSquareErrorResult([GridDimensionInfo([SamplePoint(1)], "dim", "linear", ValueType.LIN)], None)
        radar = Radar(FMCW())
        dev = SimulatedDevice(carrier_frequency=1e9, bandwidth=1e8)
        pd = DetectionProbEvaluator(radar)
        tot = [0, 0]; ns = [0, 0]
        ev = []
        for o in plan:
            o = dict(o); op = o["op"]
            if op in ("target", "link"):
                ev.append(target(r) if op == "target" else link(r)); continue
            def go():
                if op == "detect":
                    cube = build(o["q"])
                    before = [np.array(x) for x in (cube.data, cube.angle_bins, cube.doppler_bins, cube.range_bins)]
                    k = detector(o).detect(cube)
                    o["det"] = [{"p": vec(p.position), "v": vec(p.velocity), "w": xint(p.power)} for p in k.points]
                    o["mr"] = xint(k.max_range)
                    o["same"] = all(np.array_equal(x, y) for x, y in zip(before, (cube.data, cube.angle_bins, cube.doppler_bins, cube.range_bins)))
                    if k.num_points != len(k.points): o["mr"] = -7
                elif op == "sample":
                    h = []
                    for x in (o["h0"], o["h1"]):
                        d = np.array([[[r.randint(0, x) for _ in range(3)] for _ in range(2)]], float); d[0, r.randrange(2), r.randrange(3)] = x
                        h.append(RadarCube(d, np.zeros((1, 2)), np.arange(2.0), np.arange(3.0), 1e9))
                    a = RocEvaluation(*h).artifact()
                    o["a0"], o["a1"] = xint(a.h0_value), xint(a.h1_value)
                    roc.add_artifact((o["i"] - 1,), a)
                    ns[o["i"] - 1] += 1
                elif op == "roc":
                    o["n"] = T
                    v = roc.to_array()
                    o["nan"] = [bool(np.all(np.isnan(v[i]))) for i in range(2)]
                    o["v"] = [[[xint(x * ns[i]) for x in p] for p in v[i]] if ns[i] else [] for i in range(2)]
                    o["shown"] = r.random() < 0.15; o["plot"] = [[], []]
                    if o["shown"]:
                        z = roc.visualize()
                        ls = z.lines[0, 0]
                        o["plot"] = [[[xint(y * ns[i]), xint(x * ns[i])] for x, y in zip(*ls[i].get_data())] if ns[i] else [] for i in range(2)]
                        plt.close("all")
                elif op == "error":
                    a = RootMeanSquareEvaluation(cloud(o["p"]), np.array(o["t"], float)).artifact()
                    o["a"] = [xint(a.cummulation), int(a.num_errors)]
                    rms.add_artifact((0,), a)
                    tot[1] += len(o["p"]) * len(o["t"])
                elif op == "rms":
                    with np.errstate(all="ignore"): v = rms.to_array()[0]
                    o["v"] = xint(v ** 2 * tot[1]) if tot[1] else 0
                elif op == "receive":
                    cube = RadarCube(np.zeros((1, 1, 2)), carrier_frequency=1e9)
                    s = Signal.Create(np.zeros((1, 4), complex), 1.0)
                    got = RadarReception(s, cube, None if o["n"] < 0 else cloud([[0, 0, 1 + i] for i in range(o["n"])]))
                    radar._receive = lambda *a: got
                    try: radar.receive(s, dev.state())
                    finally: del radar._receive
                elif op == "probability":
                    o["v"] = bool(pd.evaluate().artifact().to_scalar())
            _, e = attempt(go)
            o["exc"] = e
            ev.append(o)
            if e and op in ("sample", "error", "receive"): break
        return {"key": key, "c": {"x": 0}, "ev": ev}

    c.model(cfg="MCRadarDeep.cfg")
    edges = c.model(emit=True, expect_ops=["detect", "sample", "roc", "error", "rms", "receive", "probability"])
    tours = c.tour(edges, max_len=120)
    random.Random(SEED).shuffle(tours)

    def run_tour(i):
        r = random.Random(f"{SEED}/t{i}")
        return history(r, [{k: v for k, v in o.items() if k != "exc"} for o in tours[i][1]], "tour")

    def run(i):
        r = random.Random(f"{SEED}/{i}")
        plan = []
        mode = r.choice(["detect", "detect", "roc", "rms", "receive", "target", "target"])
        if i % 6 == 0: mode = "link"
        for _ in range(r.randint(3, 8)):
            if mode == "detect":
                k = r.choice(["threshold", "threshold", "max", "cfar"])
                o = {"op": "detect", "k": k}
                if k == "threshold": o.update(num=r.choice([1, 1, 2, 3, 4, 5]), den=r.choice([1, 2, 4]), norm=r.random() < 0.5, peak=r.random() < 0.5)
                o["q"] = randcube(r, k == "cfar")
                if k == "cfar":
                    g = r.choice([[0, 0], [0, 0], [1, 0], [0, 1]]); o.update(t=[1, 1], g=g, pfa=r.choice([0, 1, 2, 3, 4]))
                    # powers of the specification's exact threshold stay within 31 bits
                    d = o["q"]["data"]
                    cells = [(a, x, y) for a in range(len(d)) for x in range(len(d[0])) for y in range(len(d[0][0]))]
                    r.shuffle(cells)
                    def worst():
                        w = 0
                        for a, x, y in cells:
                            t = sum(d[a][u][v] for (b, u, v) in cells if b == a and abs(u - x) <= 1 + g[0] and abs(v - y) <= 1 + g[1] and not (abs(u - x) <= g[0] and abs(v - y) <= g[1]))
                            n_ = sum(1 for (b, u, v) in cells if b == a and abs(u - x) <= 1 + g[0] and abs(v - y) <= 1 + g[1] and not (abs(u - x) <= g[0] and abs(v - y) <= g[1]))
                            w = max(w, (t + d[a][x][y]) ** n_, t ** n_ * 2 ** o["pfa"])
                        return w
                    while worst() >= 2 ** 31:
                        big = [z for z in cells if d[z[0]][z[1]][z[2]] > 0]
                        z = r.choice(big); d[z[0]][z[1]][z[2]] = 0
                plan.append(o)
            elif mode == "roc":
                i_ = r.randint(1, 2)
                for _ in range(r.randint(1, 4)): plan.append({"op": "sample", "i": i_, "h0": r.randint(0, 20), "h1": r.randint(0, 30)})
                plan.append({"op": "roc"})
            elif mode == "rms":
                p = lambda: [r.randint(-9, 9) for _ in range(3)]
                plan += [{"op": "error", "p": [p() for _ in range(r.randint(0, 3))], "t": [p() for _ in range(r.randint(1, 2))]}, {"op": "rms"}]
            elif mode == "receive": plan += [{"op": "receive", "n": r.choice([-1, 0, 0, 1, 3])}, {"op": "probability"}]
            else: plan.append({"op": mode})
        if mode == "link": plan = plan[:1]
        return history(r, plan, "random-" + mode)

    traces = pmap(run_tour, len(tours), seconds=120)
    traces += pmap(run, 16000 if THOROUGH else 2400, seconds=120)
    c.validate(traces, jobs=7)
    cnt = collections.Counter(e["op"] + e.get("k", e.get("radar", "")) + ("!" if e["exc"] else "") for t in traces for e in t["ev"])
    c.extra["operations"] = dict(cnt); c.extra["tours"] = len(tours)
    for o in ("detectthreshold", "detectmax", "detectcfar", "sample", "roc", "error", "rms", "receive", "probability", "probability!", "targetfmcw", "targetmf", "targetofdm", "link"): c.require(cnt[o] > 30, f"too few {o}")
    c.require(sum(len(e["det"]) > 0 for t in traces for e in t["ev"] if e["op"] == "detect" and e["k"] == "cfar" and not e["exc"]) > 20, "no constant false alarm rate detections")

main("C23", "Radar", body)
