"""C13: antenna arrays."""
from vlib import *


def body(c: Check):
    import numpy as np
    with quiet():
        from scipy.constants import speed_of_light
        from hermespy.core import (Transformation, Direction, AntennaMode, UniformArray, CustomAntennaArray, IdealAntenna, LinearAntenna, PatchAntenna, Dipole, Signal)
        from hermespy.simulation import (SimulatedDevice, SimulatedCustomArray, SimulatedUniformArray, SimulatedIdealAntenna, SimulatedPatchAntenna, SimulatedLinearAntenna, SimulatedDipole)
    MODE = {"t": AntennaMode.TX, "r": AntennaMode.RX, "d": AntennaMode.DUPLEX}
    BACK = {v: k for k, v in MODE.items()}
    FC = speed_of_light / 4

    def pmat(T):
        T = np.asarray(T)
        return {"r": imat(T[:3, :3]), "t": imat(T[:3, 3])}
    def trafo(q, t): return Transformation.From_RPY(np.array(q, float) * np.pi / 2, np.array(t, float))
    def element(kind, m, t=(0, 0, 0), w=(1, 0)):
        m, p = MODE[m], Transformation.From_Translation(np.array(t, float))
        w = complex(*w)
        return {"ideal": lambda: SimulatedIdealAntenna(m, p, w), "patch": lambda: SimulatedPatchAntenna(m, p, w), "lin": lambda: SimulatedLinearAntenna(m, .25 * np.pi, p, w), "dip": lambda: SimulatedDipole(m, p, w),
                "cideal": lambda: IdealAntenna(m, p), "cpatch": lambda: PatchAntenna(m, p), "clin": lambda: LinearAntenna(m, .3, p), "cdip": lambda: Dipole(m, p)}[kind]()
    def mat(x): return imat(x) if len(x) else []
    def top(x): return [list(r) for r in imat(x)] if np.asarray(x).shape[0] else []
    def chars(x): return [[xint(v, 1e6) for v in r] for r in np.asarray(x)]

    def report(o, a):
        els = list(a.antennas)
        who = lambda q: [next((i + 1 for i, e in enumerate(els) if e is x), 0) for x in q]
        o["n"] = [int(a.num_antennas), int(a.num_transmit_antennas), int(a.num_receive_antennas)]
        o["modes"] = [BACK[e.mode] for e in els]
        o["tid"], o["rid"] = who(a.transmit_antennas), who(a.receive_antennas)
        o["top"], o["ttop"], o["rtop"] = top(a.topology), top(a.transmit_topology), top(a.receive_topology)

    def history(r, cfg, plan, key):
        kind, sim, ek = cfg["kind"], cfg["sim"], cfg["ek"]
        T = trafo(*cfg["pose"])
        dev = None
        if kind == "uniform": arr = (SimulatedUniformArray if sim else UniformArray)(element(ek, cfg["proto"]), float(cfg["sp"]), tuple(cfg["dims"]), T)
        else: arr = (SimulatedCustomArray if sim else CustomAntennaArray)([element(ek, e["m"], e["p"], e["w"]) for e in cfg["el"]], T)
        el0 = cfg["el"]
        if kind == "uniform": el0 = [{"m": cfg["proto"], "p": imat(a.position), "w": [1, 0]} for a in arr.antennas]
        devp = cfg["devp"]
        if devp is not None: dev = SimulatedDevice(antennas=arr if sim else None, pose=trafo(*devp))
        if devp is not None and not sim: dev.antennas = arr
        cc = {"kind": kind, "el": el0, "dims": cfg["dims"], "sp": cfg["sp"], "proto": cfg["proto"], "pose": pmat(T)}
        ev = []
        if kind == "uniform": ev.append({"op": "dims", "d": cfg["dims"], "pos": [e["p"] for e in el0], "exc": ""})
        snaps = []
        def target(k): return arr if k == 0 else snaps[k - 1]
        for o in plan:
            o = dict(o); op = o["op"]
            if "i" in o:
                n = len(arr.antennas)
                if n == 0: continue
                o["i"] = (o["i"] - 1) % n + 1
            if "k" in o:
                if o["k"] > len(snaps) or (op in ("old", "sub") and o["k"] == 0): continue
            x = arr.antennas[o["i"] - 1] if "i" in o else None
            if op in ("wave", "near", "char") and len(target(o["k"]).antennas) == 0: continue
            if op == "sub":
                cand = [a for a in snaps[o["k"] - 1].antennas if o["mode"] == "d" or a.mode in (AntennaMode.DUPLEX, MODE[o["mode"]])]
                if not cand: continue
            def go():
                if op == "add": arr.add_antenna(element(ek, o["m"], o["t"], o["w"]))
                elif op == "mode": x.mode = MODE[o["m"]]
                elif op == "weight": x.weight = complex(*o["w"])
                elif op == "move":
                    if r.random() < 0.5: x.position = np.array(o["t"], float)
                    else: x.pose = Transformation.From_Translation(np.array(o["t"], float))
                elif op == "pose":
                    P = trafo(*o.pop("at")); o["p"] = pmat(P)
                    if r.random() < 0.5: arr.pose = P
                    else: arr.position = P.translation.copy(); arr.orientation = P.rotation_rpy
                elif op == "dims":
                    d = tuple(o["d"])
                    while len(d) > 1 and d[-1] == 1 and r.random() < 0.6: d = d[:-1]
                    arr.dimensions = d[0] if len(d) == 1 and r.random() < 0.5 else d
                    o["pos"] = [imat(a.position) for a in arr.antennas]
                elif op == "space":
                    arr.spacing = float(o["sp"]); o["pos"] = [imat(a.position) for a in arr.antennas]
                elif op == "read":
                    report(o, arr); o["pose"] = pmat(arr.pose)
                    o["dims"] = [int(v) for v in arr.dimensions] if kind == "uniform" else cc["dims"]
                    o["sp"] = xint(arr.spacing) if kind == "uniform" else cc["sp"]
                elif op == "state":
                    if dev is not None and r.random() < 0.6: o["base"] = pmat(trafo(*devp)); o.pop("at"); st = dev.state().antennas
                    else: P = trafo(*o.pop("at")); o["base"] = pmat(P); st = arr.state(P)
                    snaps.append(st)
                elif op == "old": report(o, snaps[o["k"] - 1]); o["pose"] = pmat(snaps[o["k"] - 1].forwards_transformation)
                elif op == "sub":
                    st, how, m = snaps[o["k"] - 1], o.pop("how"), o["mode"]
                    n = len(cand)
                    if how == "int": j = r.randint(-n, n - 1); o["ix"] = [j % n + 1]; arg = j
                    elif how == "slice":
                        arg = slice(r.choice([None, r.randint(-n, n)]), r.choice([None, r.randint(-n, n)]), r.choice([None, 1, 2, -1])); o["ix"] = [j + 1 for j in range(n)[arg]]
                    else: js = [r.randint(-n, n - 1) for _ in range(r.randint(0, n + 1))]; o["ix"] = [j % n + 1 for j in js]; arg = js if r.random() < 0.5 else np.array(js, int)
                    z = st[arg] if m == "d" and r.random() < 0.5 else st.select_subarray(arg, MODE[m])
                    o["modes"] = [BACK[a.mode] for a in z.antennas]; o["top"] = top(z.topology); o["pose"] = pmat(z.forwards_transformation)
                    if len(z) != len(z.antennas): o["modes"] = []
                elif op == "wave":
                    a, d, m = target(o["k"]), o["dir"], MODE[o["mode"]]
                    az, el, ze = float(np.arctan2(d[1], d[0])), float(np.arcsin(d[2])), float(np.arccos(d[2]))
                    o["resp"] = gmat(a.horizontal_phase_response(FC, az, el, m) if r.random() < 0.5 else a.spherical_phase_response(FC, az, ze, m))
                elif op == "near":
                    a, m = target(o["k"]), MODE[o["mode"]]
                    loc = np.array(o["x"], float)
                    o["resp"] = gmat(a.cartesian_phase_response(FC, loc, "local", m))
                    o["gresp"] = gmat(a.cartesian_phase_response(FC, a.forwards_transformation.transform_position(loc), "global", m))
                elif op == "char":
                    a, m = target(o["k"]), MODE[o["mode"]]
                    loc = np.array(o["x"], float); glob = a.forwards_transformation.transform_position(loc)
                    dl = Direction.From_Cartesian(loc, True)
                    o["full"] = chars(a.characteristics(loc, AntennaMode.DUPLEX)); o["sel"] = chars(a.characteristics(loc, m, "local"))
                    o["glob"] = chars(a.characteristics(glob, m, "global")); o["dir"] = chars(a.characteristics(dl, m))
                elif op in ("tx", "rx"):
                    k = arr.num_transmit_antennas if op == "tx" else arr.num_receive_antennas
                    k += o.pop("extra"); k = max(k, 1)
                    o["x"] = [[[r.randint(-3, 3), r.randint(-3, 3)] for _ in range(3)] for _ in range(k)]; o["y"] = []
                    s = Signal.Create(np.array([[complex(*z) for z in q] for q in o["x"]]), 1., 0.)
                    y = arr.transmit(s) if op == "tx" else arr.receive(s)
                    o["y"] = gmat(np.asarray(y.to_dense().view(np.ndarray)))
            _, e = attempt(go)
            for k in ("at", "how", "extra"): o.pop(k, None)
            if e:
                o = {k: v for k, v in o.items() if k in ("op", "x", "i", "k", "mode")} | ({"x": []} if op in ("tx", "rx") and "x" not in o else {})
            o["exc"] = e
            ev.append(o)
            if e and op not in ("tx", "rx"): break
            if op in ("mode", "move", "weight", "pose", "add", "dims", "space", "state") and r.random() < 0.5:
                q = {"op": "read", "exc": ""}
                report(q, arr); q["pose"] = pmat(arr.pose)
                q["dims"] = [int(v) for v in arr.dimensions] if kind == "uniform" else cc["dims"]
                q["sp"] = xint(arr.spacing) if kind == "uniform" else cc["sp"]
                ev.append(q)
        return {"key": f"{key}-{kind}-{ek}", "c": cc, "ev": ev}

    c.model(cfg="MCArraysDeep.cfg")
    edges = c.model(emit=True, expect_ops=["add", "mode", "move", "state"])
    tours = c.tour(edges, max_len=25)
    random.Random(SEED).shuffle(tours)
    if not THOROUGH: tours = tours[:400]
    SIM, CORE = ["ideal", "patch", "lin", "dip"], ["cideal", "cpatch", "clin", "cdip"]
    AX = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]
    def look(r):
        m = r.choice("trd")
        return r.choice([{"op": "read"}, {"op": "old", "k": r.randint(1, 2)}, {"op": "sub", "k": r.randint(1, 2), "mode": m, "how": r.choice(["int", "slice", "list"])},
                         {"op": "wave", "k": r.randint(0, 2), "mode": m, "dir": r.choice(AX)}, {"op": "near", "k": r.randint(0, 2), "mode": m, "x": [r.randint(-6, 6) for _ in range(3)]},
                         {"op": "char", "k": r.randint(0, 2), "mode": m, "x": [r.choice([-5, -3, -1, 2, 4]), r.choice([-4, -2, 1, 3]), r.choice([-3, -1, 1, 5])]}])

    def run_tour(i):
        r = random.Random(f"{SEED}/t{i}")
        sim = r.random() < 0.7
        plan = []
        for o in tours[i][1]:
            o = {k: v for k, v in o.items() if k != "exc"}
            if o["op"] == "state": o["at"] = ([0, 0, 0], [7, 0, 0]); del o["base"]
            plan.append(o)
            if r.random() < 0.3: plan.append(look(r))
        plan.append({"op": "read"}); plan.append({"op": "old", "k": 1})
        return history(r, {"kind": "custom", "sim": sim, "ek": r.choice(SIM if sim else CORE), "pose": ([0, 0, 0], [0, 0, 0]), "el": [], "dims": [0, 0, 0], "sp": 1, "proto": "d", "devp": None}, plan, "tour")

    def run(i):
        r = random.Random(f"{SEED}/{i}")
        kind, sim = r.choice(["uniform", "custom"]), r.random() < 0.7
        ek = r.choice(SIM if sim else CORE)
        at = lambda: ([r.randint(0, 3), r.choice([0, 1, 2, 3]), r.randint(0, 3)], [r.randint(-9, 9) for _ in range(3)])
        dims = [r.randint(1, 3), r.choice([1, 1, 2, 3]), r.choice([1, 1, 2])]
        el = [{"m": r.choice("tdrd"), "p": [r.randint(-3, 3) for _ in range(3)], "w": [r.randint(1, 3), r.randint(-2, 2)] if sim else [1, 0]} for _ in range(r.randint(0, 4))]
        cfg = {"kind": kind, "sim": sim, "ek": ek, "pose": ([0, 0, 0], [0, 0, 0]) if r.random() < 0.3 else at(), "el": el, "dims": dims if kind == "uniform" else [0, 0, 0],
               "sp": r.randint(1, 3), "proto": r.choice("ddtr"), "devp": at() if r.random() < 0.5 else None}
        plan = []
        for _ in range(r.randint(4, 20)):
            x = r.random()
            if x < 0.1 and kind == "custom": plan.append({"op": "add", "m": r.choice("trd"), "t": [r.randint(-3, 3) for _ in range(3)], "w": [r.randint(1, 3), r.randint(-2, 2)] if sim else [1, 0]})
            elif x < 0.06: plan.append({"op": "dims", "d": [r.randint(1, 3), r.choice([1, 1, 2]), r.choice([1, 1, 2])]})
            elif x < 0.1: plan.append({"op": "space", "sp": r.randint(1, 4)})
            elif x < 0.22: plan.append({"op": "mode", "i": r.randint(1, 9), "m": r.choice("trd")})
            elif x < 0.28 and sim: plan.append({"op": "weight", "i": r.randint(1, 9), "w": [r.randint(-2, 2), r.randint(1, 3)]})
            elif x < 0.36: plan.append({"op": "move", "i": r.randint(1, 9), "t": [r.randint(-4, 4) for _ in range(3)]})
            elif x < 0.43: plan.append({"op": "pose", "at": at()})
            elif x < 0.53: plan.append({"op": "state", "at": at()})
            elif x < 0.63 and sim: plan.append({"op": r.choice(["tx", "rx"]), "extra": r.choice([0, 0, 0, 1])})
            else: plan.append(look(r))
        plan.append({"op": "read"})
        return history(r, cfg, plan, "random")

    traces = pmap(run_tour, len(tours), seconds=60)
    traces += pmap(run, 20000 if THOROUGH else 2500, seconds=60)
    c.validate(traces, jobs=7)
    cnt = collections.Counter(e["op"] for t in traces for e in t["ev"] if not e["exc"])
    c.extra["operations"] = dict(cnt); c.extra["tours"] = len(tours)
    for o in ("add", "mode", "weight", "move", "pose", "dims", "space", "state", "old", "sub", "wave", "near", "char", "tx", "rx", "read"): c.require(cnt[o] > 30, f"too few {o}")

main("C13", "Arrays", body)
