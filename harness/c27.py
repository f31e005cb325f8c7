"""C27: trajectories, moving devices, the states channels and targets see."""
from vlib import *
import fakeray


def body(c: Check):
    import numpy as np
    fakeray.install()
    with quiet():
        import numba.core.compiler, scipy.signal, scipy.spatial.transform, matplotlib.pyplot   # with the usual threading primitives
        pm = fakeray.import_pymonte()
        from hermespy.channel import FixedCrossSection, MultiTargetRadarChannel, PhysicalRadarTarget, VirtualRadarTarget
        from hermespy.core import Factory, Signal, Transformation, Transmission, Transmitter
        from hermespy.simulation import Simulation, SimulationScenario, SimulatedCustomArray, SimulatedIdealAntenna, StaticTrajectory
        from hermespy.simulation.animation import BITrajectoryB, LinearTrajectory
        from rich.console import Console
    factory = Factory()
    null = open(os.devnull, "w")

    def pose(p, a): return Transformation.From_RPY(rpy=np.array([0.0, 0.0, a * np.pi / 2]), pos=np.array(p, float))
    def build(x):
        if x["k"] == "linear": return LinearTrajectory(pose(x["p"], x["a"]), pose(x["q"], x["b"]), x["d"] / 4, x["s"] / 4)
        if x["k"] == "static": return StaticTrajectory(pose(x["p"], x["a"]), np.array(x["v"], float))
        return BITrajectoryB(2 * x["s"], 5 * x["d"] / 4)
    def v64(v):
        return [xint(float(z) * 64) for z in np.asarray(v, float).ravel()]
    def angle(R):
        a = np.arctan2(R[1, 0], R[0, 0]); k = a / (np.pi / 2) * 64
        W = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
        if not np.allclose(R, W, atol=1e-9): return BIG
        k = xint(k)
        return k if k == BIG else k % 256

    def observe(s, gazing):
        """s: anything with timestamp, pose, velocity"""
        P = np.asarray(s.pose)
        ts = xint(s.timestamp * 4)
        o = {"ts": ts, "pos": v64(P[:3, 3]), "vel": v64(s.velocity), "ang": -1, "look": [0, 0, 0]}
        R = P[:3, :3]
        if gazing is None: o["ang"] = angle(R)
        elif not np.allclose(R @ R.T, np.eye(3), atol=1e-9): o["look"] = [BIG] * 3
        else: o["look"] = v64(R[:, 2] * np.linalg.norm(gazing - P[:3, 3]))
        return o

    def history(r, cfg, plan, key):
        if not cfg:
            def point(): return [r.randint(-8, 8) for _ in range(3)]
            def trajectory():
                k = r.choice(["linear", "linear", "linear", "static", "bit"])
                a = r.randint(0, 3)
                return {"k": k, "p": point(), "q": point(), "a": a, "b": (a + r.choice([-1, 0, 0, 1])), "s": r.choice([0, 0, 1, 3, 6]) if k != "bit" else r.randint(1, 4), "d": r.choice([1, 2, 4, 8, 16]) if k != "bit" else r.choice([1, 2, 4]), "v": point() if r.random() < 0.5 else [0, 0, 0]}
            n = r.randint(2, 4)
            cfg = {"tr": [trajectory() for _ in range(n)], "dev": [{"tr": r.randint(1, n), "ant": [point() for _ in range(r.randint(1, 3))]} for _ in range(r.choice([1, 2, 2, 3]))]}
        tr = [build(x) for x in cfg["tr"]]
        sc = SimulationScenario(seed=r.randint(0, 99))
        devs = []
        for d in cfg["dev"]:
            array = SimulatedCustomArray([SimulatedIdealAntenna(pose=Transformation.From_Translation(np.array(p, float))) for p in d["ant"]])
            if r.random() < 0.5: dev = sc.new_device(antennas=array, pose=tr[d["tr"] - 1], bandwidth=1e3, carrier_frequency=1e9)
            else:
                dev = sc.new_device(antennas=array, bandwidth=1e3, carrier_frequency=1e9); dev.trajectory = tr[d["tr"] - 1]
            devs.append(dev)
        follows = [d["tr"] - 1 for d in cfg["dev"]]
        # a monostatic radar channel observing a target on the first device
        td = r.randint(2, len(devs)) if len(devs) > 1 and r.random() < 0.4 else 0
        tt = r.randint(1, len(tr))
        radar = MultiTargetRadarChannel(attenuate=False, interference=False, seed=1)
        target = PhysicalRadarTarget(FixedCrossSection(1.0), devs[td - 1]) if td else VirtualRadarTarget(FixedCrossSection(1.0), tr[tt - 1])
        radar.add_target(target)
        if key != "course": sc.set_channel(devs[0], devs[0], radar)
        seen, truth = [], []
        ids = {}
        def hook(sample):
            for st in (sample.transmitter_state, sample.receiver_state):
                seen.append(st)
        for i, a in enumerate(devs):
            for b in devs[i:]: sc.channel(a, b).add_sample_hook(hook)
        radar.add_sample_hook(lambda s: truth.append([p.ground_truth for p in s.paths if p.ground_truth is not None]))
        gaze = [None] * len(tr); on = [False] * len(tr)
        ev = []
        for o in plan:
            o = dict(o); op = o["op"]
            if op in ("sample", "lookat", "disable", "enable", "max", "reload"): o.setdefault("i", r.randint(1, len(tr)))
            if op in ("sample", "state", "drop"): o.setdefault("t", r.choice([0, 0, r.randint(-2, 24), r.randint(0, 12), r.randint(0, 6)] if op != "drop" else [0, r.randint(0, 24), r.randint(1, 8)]))
            if op in ("state", "assign", "length"): o.setdefault("d", r.randint(1, len(devs)))
            if op == "assign": o.setdefault("i", r.randint(1, len(tr)))
            if op == "lookat": o.setdefault("t", r.randint(1, len(tr)))
            if op == "reload" and (on[o["i"] - 1] or gaze[o["i"] - 1] is not None): continue
            if op == "drop": o["td"], o["tt"] = td, tt
            if op == "course": o.setdefault("step", r.choice([1, 2, 3, 4, 5, 8, 40]))
            i = o.get("i", 0) - 1
            def gazing(i, t): return np.asarray(tr[gaze[i]].sample_translation(t), float) if on[i] else None
            def go():
                nonlocal target
                if op == "sample": o["o"] = observe(tr[i].sample(o["t"] / 4), gazing(i, o["t"] / 4))
                elif op == "max": o["v"] = xint(tr[i].max_timestamp * 4)
                elif op == "length": o["v"] = xint(devs[o["d"] - 1].max_trajectory_timestamp * 4)
                elif op == "state":
                    st = devs[o["d"] - 1].state(o["t"] / 4)
                    o["o"] = observe(st, gazing(follows[o["d"] - 1], o["t"] / 4))
                    o["ant"] = [v64(a.global_position) for a in st.antennas.antennas]
                    if not np.allclose(st.position, np.asarray(st.pose)[:3, 3]) or not np.allclose(st.antennas.topology, [np.asarray(p, float) for p in cfg["dev"][o["d"] - 1]["ant"]]): o["ant"] = [[BIG] * 3]
                elif op == "assign": devs[o["d"] - 1].trajectory = tr[i]
                elif op == "lookat":
                    if r.random() < 0.5: tr[i].lookat(tr[o["t"] - 1])
                    else: tr[i].lookat(tr[o["t"] - 1], np.array([r.choice([-1.0, 1.0]), r.choice([0.0, 2.0]), r.choice([0.0, 1.0])]))
                elif op == "disable": tr[i].lookat_disable()
                elif op == "enable": tr[i].lookat_enable()
                elif op == "reload":
                    f = tempfile.mkdtemp()
                    try:
                        p = os.path.join(f, "t.h5"); factory.to_HDF(p, tr[i]); new = factory.from_HDF(p, type(tr[i]))
                    finally: shutil.rmtree(f, ignore_errors=True)
                    for k, g in enumerate(gaze):
                        if g == i: raise MachineryError("gazed at")
                    if tt - 1 == i and not td:
                        radar.remove_target(target) if hasattr(radar, "remove_target") else None
                    tr[i] = new
                    for k, d in enumerate(devs):
                        if follows[k] == i: d.trajectory = new
                elif op == "drop":
                    del seen[:], truth[:]
                    sc.drop(o["t"] / 4)
                    by = {}
                    o["seen"] = [{"d": k, "pos": v64(st.position), "vel": v64(st.velocity), "ts": xint(st.timestamp * 4)} for k, st in ((1 + [id(d) for d in devs].index(s.device_id), s) for s in seen)]
                    (p, v), = truth[0] if len(truth) == 1 and len(truth[0]) == 1 else [([np.nan] * 3, [np.nan] * 3)]
                    o["tpos"], o["tvel"] = v64(p), v64(v)
                elif op == "course":
                    f = tempfile.mkdtemp()
                    try:
                        path = os.path.join(f, "log")
                        o["drops"] = course(sc, devs, o["step"], path, r)
                    finally: shutil.rmtree(f, ignore_errors=True)
            if op == "reload" and (any(g == i for g in gaze) or (not td and tt - 1 == i)): continue
            _, o["exc"] = attempt(go)
            if o["exc"]: o = {k: v for k, v in o.items() if k not in ("o", "v", "ant", "seen", "tpos", "tvel", "drops")}
            elif op == "assign": follows[o["d"] - 1] = i
            elif op == "lookat": gaze[i] = o["t"] - 1; on[i] = True
            elif op == "disable": on[i] = False
            elif op == "enable": on[i] = True
            ev.append(o)
        return {"key": key, "c": cfg, "ev": ev}

    def course(sc, devs, step, path, r):
        """timestamps and positions of the devices in each drop of a simulation"""
        class Reporter(Transmitter):
            def __init__(self, d): Transmitter.__init__(self, seed=1); self.d = d
            sampling_rate = 1e3
            frame_duration = 1e-3
            power = 0.0
            def _transmit(self, state, duration):
                with open(path, "a") as f: f.write(json.dumps([self.d, float(state.timestamp), [float(x) for x in state.position]]) + "\n")
                return Transmission(Signal.Create(np.zeros((1, r.choice([1, 4])), complex), state.bandwidth if r.random() < 0.5 else state.sampling_rate))
            def serialize(self, process): pass
            @classmethod
            def Deserialize(cls, process): return cls(0)
            def _recall_transmission(self, process): return Transmission.Deserialize(process)
        rep = [Reporter(k) for k in range(len(devs))]
        for d, x in zip(devs, rep): d.transmitters.add(x)
        try:
            def fn():
                sim = Simulation(sc, num_samples=1, drop_interval=step / 4, num_actors=1, console_mode="SILENT", dump_results=False, plot_results=False, seed=1)
                sim.console = Console(file=null)
                sim.run()
            out, log, sched = fakeray.simulate(fn, r.randint(0, 99), switch=0.0, max_steps=3000000, files=())
            if out[0] != "ok": raise CodeCrash(str(out)[:300]) if out[0] != "exc" else RuntimeError(str(out)[-1500:])
        finally:
            for d, x in zip(devs, rep): d.transmitters.remove(x)
        drops = []
        for line in open(path):
            k, t, p = json.loads(line)
            if k == 0: drops.append({"ts": xint(t * 4), "pos": [[BIG] * 3 for _ in devs]})
            drops[-1]["pos"][k] = v64(p)
            if xint(t * 4) != drops[-1]["ts"]: drops[-1]["ts"] = BIG
        return drops

    c.model(cfg="MCMotionDeep.cfg")
    edges = c.model(emit=True, expect_ops=["sample", "state", "max", "assign", "lookat", "disable", "enable"])
    tours = c.tour(edges, max_len=60)
    random.Random(SEED).shuffle(tours)
    def clean(o): return {k: v for k, v in o.items() if k not in ("exc", "o", "ant", "v")}

    def run_tour(i):
        r = random.Random(f"{SEED}/t{i}")
        init, ops = tours[i]
        return history(r, init["c"], [clean(o) for o in ops], "tour")

    def run(i):
        r = random.Random(f"{SEED}/{i}")
        if i % 16 == 0: return history(r, None, [{"op": o} for o in ["state", "course", r.choice(["assign", "lookat"]), "course"]], "course")
        return history(r, None, [{"op": r.choice(["sample", "sample", "sample", "state", "state", "max", "length", "assign", "lookat", "disable", "enable", "reload", "drop", "drop"])} for _ in range(r.randint(6, 20))], "random")

    traces = pmap(run_tour, len(tours), seconds=60)
    traces += pmap(run, 16000 if THOROUGH else 2000, seconds=120)
    c.validate(traces, jobs=7)
    cnt = collections.Counter(e["op"] + ("!" if e["exc"] else "") for t in traces for e in t["ev"])
    c.extra["operations"] = dict(cnt); c.extra["tours"] = len(tours)
    for o in ("sample", "state", "max", "length", "assign", "lookat", "disable", "enable", "enable!", "reload", "drop", "course"): c.require(cnt[o] > 30, f"too few {o}")

main("C27", "Motion", body)
