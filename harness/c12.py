"""C12: kinematic chains of linked coordinate frames."""
from vlib import *


def body(c: Check):
    import numpy as np
    with quiet():
        from hermespy.core import Transformation, AntennaMode, UniformArray, IdealAntenna
        from hermespy.core.transformation import Transformable, TransformableBase
        from hermespy.simulation import SimulatedDevice, SimulatedCustomArray, SimulatedUniformArray, SimulatedIdealAntenna, SimulatedPatchAntenna

    def pmat(T):
        T = np.asarray(T)
        if T.shape != (4, 4) or np.abs(T[3] - [0, 0, 0, 1]).max() > 1e-9: return {"r": [[BIG]], "t": [BIG]}
        return {"r": imat(T[:3, :3]), "t": imat(T[:3, 3])}

    def turns(v): return [xint(x, 2 / np.pi) if abs(x * 2 / np.pi - round(x * 2 / np.pi)) < 1e-6 else BIG // 10 for x in np.asarray(v)]
    def rpy(q): return np.array(q, float) * np.pi / 2
    def trafo(q, t): return Transformation.From_RPY(rpy(q), np.array(t, float))
    I = {"r": [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "t": [0, 0, 0]}

    def build(r, kinds):
        """frames, fixed, base and initial pose of the objects of the listed kinds"""
        F, fixed, base = [], [], []
        def add(o, b=0, fx=False): F.append(o); fixed.append(fx); base.append(b); return len(F)
        for k in kinds:
            if k == "T": add(Transformable() if r.random() < 0.5 else Transformable(trafo([r.randint(0, 3) for _ in range(3)], [r.randint(-9, 9) for _ in range(3)])))
            elif k == "B": add(TransformableBase(), fx=True)
            elif k == "A": add(r.choice([SimulatedIdealAntenna, IdealAntenna, SimulatedPatchAntenna])())
            elif k == "D":
                d = SimulatedDevice(pose=trafo([r.randint(0, 3) for _ in range(3)], [r.randint(-9, 9) for _ in range(3)]),
                                    antennas=r.choice([SimulatedCustomArray([SimulatedIdealAntenna(), SimulatedIdealAntenna()]), SimulatedUniformArray(SimulatedIdealAntenna, 2., (2, 1, 1))]))
                i = add(d); j = add(d.antennas, i)
                for a in d.antennas.antennas: add(a, j)
            elif k == "U":
                arr = SimulatedUniformArray(SimulatedIdealAntenna, 3., (1, 2, 1)); j = add(arr)
                for a in arr.antennas: add(a, j)
        return F, fixed, base

    def history(r, F, fixed, base, plan, key):
        idx = {id(f): i + 1 for i, f in enumerate(F)}
        n = len(F)
        b = list(base)
        cc = {"n": n, "fixed": fixed, "base": base, "pose": [I if fx else pmat(f.pose) for f, fx in zip(F, fixed)]}
        def below(g, f):
            while g:
                if g == f: return True
                g = b[g - 1]
            return False
        ev = []
        def read(f):
            o, x = {"op": "read", "f": f + 1}, F[f]
            def go():
                fields = ["fw", "bw", "gt", "gq", "lo", "t", "q", "isb"]
                r.shuffle(fields)
                for k in fields:
                    o[k] = (pmat(x.forwards_transformation) if k == "fw" else pmat(x.backwards_transformation) if k == "bw" else imat(x.global_position) if k == "gt" else
                            turns(x.global_orientation) if k == "gq" else pmat(x.pose) if k == "lo" else imat(x.position) if k == "t" else turns(x.orientation) if k == "q" else bool(x.is_base))
            _, o["exc"] = attempt(go); ev.append(o)
            return not o["exc"]
        for o in plan:
            o = dict(o); op = o["op"]; f = o.get("f", 1)
            if op in ("base", "link"):
                if fixed[f - 1] or (op == "link" and o["b"] == 0) or (o["b"] and below(o["b"], f)): continue
            if op in ("pos", "ori", "pose", "look", "unlink", "read", "quat", "local") and fixed[f - 1]: continue
            if op == "read":
                if not read(f - 1): break
                continue
            x = F[f - 1]
            def go():
                if op == "base": x.set_base(F[o["b"] - 1] if o["b"] else None)
                elif op == "link": F[o["b"] - 1].add_link(x)
                elif op == "unlink": F[o["b"] - 1].remove_link(x, o["force"]) if not o["force"] or r.random() < 0.5 else F[o["b"] - 1].remove_link(x)
                elif op == "pos":
                    v = np.array(o["t"], float)
                    if o["t"][2] == 0 and r.random() < 0.5: v = v[:2]
                    x.position = v
                elif op == "ori": x.orientation = rpy(o["q"])
                elif op == "pose":
                    T = trafo(o["q"], o["t"])
                    x.pose = T
                    T[:3, 3] = 77   # the argument is the caller's
                elif op == "look":
                    u = np.array(o["u"], float)
                    x.lookat(np.array(o["t"], float), u)
                    o["p"] = pmat(x.pose)
                elif op == "quat":
                    q = np.array(x.pose.rotation_quaternion)
                    o["r"] = imat(Transformation.From_Quaternion(q, np.zeros(3), False)[:3, :3])
                elif op == "kids": o["kids"] = [idx.get(id(k), -1) for k in F[o["b"] - 1].linked_frames]
                elif op == "local":
                    o["o"] = I
                    if o["g"]: z = x.to_local_coordinates(F[o["g"] - 1])
                    else:
                        T = trafo(o["q"], o["t"]); o["o"] = pmat(T)
                        z = x.to_local_coordinates(T) if r.random() < 0.5 else x.to_local_coordinates(np.array(o["t"], float), rpy(o["q"]))
                    o["p"] = pmat(z)
            _, e = attempt(go)
            o["exc"] = e
            o.setdefault("p", I); o.setdefault("r", []); o.setdefault("kids", [])
            ev.append(o)
            if e and op not in ("unlink",): break
            if not e:
                if op in ("base", "link"): b[f - 1] = o["b"]
                elif op == "unlink" and b[f - 1] == o["b"]: b[f - 1] = 0
            # reading in between populates whatever is remembered
            for g in range(n):
                if not fixed[g] and r.random() < 0.35:
                    if not read(g): return {"key": key, "c": cc, "ev": ev}
        for g in range(n):
            if not fixed[g]: read(g)
        return {"key": key, "c": cc, "ev": ev}

    edges = c.model(emit=True, expect_ops=["base", "link", "unlink", "pos", "ori", "pose"])
    tours = c.tour(edges, max_len=20)
    random.Random(SEED).shuffle(tours)
    if not THOROUGH: tours = tours[:300]

    def run_tour(i):
        r = random.Random(f"{SEED}/t{i}")
        plan = []
        for o in tours[i][1]:
            plan.append({k: v for k, v in o.items() if k != "exc"})
            if r.random() < 0.3: plan.append({"op": "kids", "b": r.randint(1, 3)})
        F = [Transformable(), Transformable(), TransformableBase()]
        return history(r, F, [False, False, True], [0, 0, 0], plan, "tour")

    AX = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]

    def run(i):
        r = random.Random(f"{SEED}/{i}")
        F, fixed, base = build(r, [r.choice("TTTTBADU") for _ in range(r.randint(1, 4))])
        n = len(F)
        pos = [f.position.copy() if not fx else np.zeros(3) for f, fx in zip(F, fixed)]
        plan = []
        for _ in range(r.randint(3, 25)):
            x = r.random(); f = r.randint(1, n); g = r.randint(1, n)
            q, t = [r.randint(-3, 4) for _ in range(3)], [r.randint(-9, 9), r.randint(-9, 9), r.choice([0, 0, 5, -7])]
            if x < 0.15: plan.append({"op": "base", "f": f, "b": r.choice([0, g, g, g])})
            elif x < 0.27: plan.append({"op": "link", "f": f, "b": g})
            elif x < 0.33: plan.append({"op": "unlink", "f": f, "b": g, "force": r.random() < 0.5})
            elif x < 0.45: plan.append({"op": "pos", "f": f, "t": t}); pos[f - 1] = np.array(t)
            elif x < 0.57: plan.append({"op": "ori", "f": f, "q": q})
            elif x < 0.67: plan.append({"op": "pose", "f": f, "q": q, "t": t}); pos[f - 1] = np.array(t)
            elif x < 0.74:
                d, k = r.choice(AX), r.randint(1, 4)
                plan.append({"op": "look", "f": f, "t": [int(a + k * b) for a, b in zip(pos[f - 1], d)], "u": r.choice(AX)})
            elif x < 0.8: plan.append({"op": "quat", "f": f})
            elif x < 0.88: plan.append({"op": "kids", "b": g})
            elif x < 0.96: plan.append({"op": "local", "f": f, "g": g if not fixed[g - 1] and r.random() < 0.6 else 0, "q": q, "t": t})
            else: plan.append({"op": "read", "f": f})
        return history(r, F, fixed, base, plan, "random")

    traces = pmap(run_tour, len(tours), seconds=60)
    traces += pmap(run, 20000 if THOROUGH else 1200, seconds=60)
    c.validate(traces, jobs=7)
    cnt = collections.Counter(e["op"] for t in traces for e in t["ev"] if not e["exc"])
    c.extra["operations"] = dict(cnt); c.extra["tours"] = len(tours)
    for o in ("base", "link", "unlink", "pos", "ori", "pose", "look", "quat", "kids", "local", "read"): c.require(cnt[o] > 50, f"too few {o}")

main("C12", "Frames", body)
