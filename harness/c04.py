"""C04: exact means and confident stops of scalar Monte Carlo results."""
from vlib import *
import math


def body(c: Check):
    import numpy as np
    from scipy.stats import norm
    with quiet():
        from hermespy.core.pymonte.grid import GridDimensionInfo, SamplePoint
        from hermespy.core.pymonte.artifact import Artifact, ArtifactTemplate
        from hermespy.core.pymonte.scalar import ScalarEvaluator, ScalarEvaluationResult
        from hermespy.core import ValueType, PAPR, AntennaMode, ReceivePowerEvaluator, TransmitPowerEvaluator, PowerArtifact
        from hermespy.simulation import SimulatedDevice
        from hermespy.modem import BitErrorEvaluator, BlockErrorEvaluator, FrameErrorEvaluator, ThroughputEvaluator, DuplexModem
    class Ev(ScalarEvaluator):
        abbreviation = "E"; title = "T"
        def evaluate(self): raise NotImplementedError
    class Art(Artifact):
        def __init__(self, v): self.v = v
        def __str__(self): return str(self.v)
        def to_scalar(self): return self.v
    with quiet():
        dev = SimulatedDevice(); m1 = DuplexModem(); m2 = DuplexModem()

    def evaluators(conf, tol, mn, r):
        k = r.choice(["own", "own", "direct", "papr", "rx", "tx", "ber", "bler", "fer"])
        if k == "own": return k, Ev(conf, tol, mn)
        if k == "direct": return k, None
        if k == "papr": return k, PAPR(dev, r.choice([AntennaMode.TX, AntennaMode.RX]), conf, tol, mn)
        if k == "rx": return k, ReceivePowerEvaluator(m1, conf, tol, mn)
        if k == "tx": return k, TransmitPowerEvaluator(m1, conf, tol, mn)
        cls = {"ber": BitErrorEvaluator, "bler": BlockErrorEvaluator, "fer": FrameErrorEvaluator}[k]
        e = cls(m1, m2, confidence=conf, tolerance=tol, min_num_samples=mn)
        return k, e

    SC = 4
    def run(i):
        r = random.Random(f"{SEED}/{i}")
        shape = r.choice([(1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2), ()])
        grid = [GridDimensionInfo([SamplePoint(j) for j in range(m)], f"d{a}", "linear", ValueType.LIN) for a, m in enumerate(shape)]
        conf = r.choice([0.0, 0.001, 0.05, 0.1, 0.32, 0.5, 0.9, 1.0, 1.0])
        tolq = r.choice([0, 1, 2, 4, 8, 16, 20]); tol = tolq / SC
        mn = r.choice([2, 2, 3, 4, 5])
        kind, e = evaluators(conf, tol, mn, r)
        res = ScalarEvaluationResult(grid, Ev(), tol, conf, mn) if e is None else e.initialize_result(grid)
        k = int(np.prod(shape)) if shape else 1
        if conf == 0: zlo = zhi = 0
        elif conf == 1: zlo = zhi = 0
        else:
            z2 = norm.ppf(1 - conf / 2) ** 2 * 1000
            zlo, zhi = math.floor(z2 - 1), math.ceil(z2 + 1)
        ev = []
        n = [0] * k
        spread = r.choice([1, 2, 5, 20])
        base = r.choice([0, 0, 3, -7])
        for _ in range(r.randint(1, 40)):
            if r.random() < 0.12:
                f = r.choice([res.to_array, res.runtime_estimates])
                a, x = attempt(f)
                q = {"op": "query", "exc": x, "ret": [], "nan": []}
                if not x:
                    a = np.asarray(a, dtype=float)
                    if a.shape == tuple(shape):
                        a = a.reshape(-1)
                        q["nan"] = [bool(np.isnan(v)) for v in a]
                        q["ret"] = [0 if np.isnan(v) else xint(v * m * SC) for v, m in zip(a, n)]
                ev.append(q)
                if x: break
                continue
            p = r.randrange(k)
            if n[p] >= 12:
                continue
            none = r.random() < 0.1
            xq = base + r.randint(-spread, spread)
            xq = max(-20, min(20, xq))
            req = r.random() < 0.8
            crd = tuple(int(v) for v in np.unravel_index(p, shape)) if shape else ()
            v = xq / SC
            art = Art(None) if none else r.choice([Art(v), ArtifactTemplate(v), PowerArtifact(np.array([v, 0.0])), Art(np.float64(v))])
            st, x = attempt(res.add_artifact, crd, art, req) if r.random() < 0.8 or not req else attempt(res.add_artifact, crd, art)
            if not none: n[p] += 1
            ev.append({"op": "add", "p": p + 1, "none": none, "x": xq, "req": req, "stop": bool(st) if not x else False, "exc": x})
            if x: break
        return {"key": kind, "c": {"k": k, "min": mn, "tol": tolq, "zlo": zlo, "zhi": zhi, "never": conf == 0}, "ev": ev}

    c.model()
    traces = pmap(run, 40000 if THOROUGH else 4000)
    c.extra["stops"] = sum(e.get("stop", False) for t in traces for e in t["ev"])
    if not c.extra["stops"]: c.extra["stops"] = 0
    c.validate(traces, jobs=6)
    c.assumptions += ["scalars are small dyadic rationals, so sums are exact", "confidence thresholds within 0.001 of the decision boundary of z^2 are accepted either way"]

main("C04", "Scalar", body)
