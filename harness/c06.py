"""C06: the channel link table of a simulation scenario."""
from vlib import *


def body(c: Check):
    import numpy as np
    with quiet():
        from hermespy.simulation import SimulationScenario, SimulatedDevice
        from hermespy.core import Transformation
        from hermespy.channel import IdealChannel, SpatialDelayChannel, RandomDelayChannel, MultipathFadingChannel, SingleTargetRadarChannel

    def place(a): return Transformation.From_Translation(np.array([10. + 7. * a, 3. * a, 1.]))

    def channel(r):
        k = r.choice(["ideal", "ideal", "spatial", "delay", "fading", "radar"])
        g = 1.0
        if k == "ideal": return IdealChannel(gain=g)
        if k == "spatial": return SpatialDelayChannel(gain=g)
        if k == "delay": return RandomDelayChannel(1e-9, gain=g)
        if k == "fading": return MultipathFadingChannel(np.zeros(1), np.ones(1), np.ones(1) * np.inf, gain=g)
        return SingleTargetRadarChannel(10., 1., gain=g)

    def history(r, nd, nc, ops, kind):
        """ops: [(op, a, b, ch, on)] is executed on a scenario built for this history; every operation is observed."""
        sc = None
        default_given = r.random() < 0.5
        chans = [channel(r) for _ in range(nc + 1)]
        sc = SimulationScenario(chans[0]) if default_given else SimulationScenario()
        if not default_given: chans[0] = sc.channels[0]
        idx = {id(h): i for i, h in enumerate(chans)}
        devs = [None] * nd
        def dev(a):
            if devs[a - 1] is None: devs[a - 1] = SimulatedDevice(carrier_frequency=1e9, pose=place(a))
            return devs[a - 1]
        def ident(h): return idx.get(id(h), -9)
        log = {"real": [], "samples": []}
        def spy(h, i):
            orig = h._realize
            def realize():
                log["real"].append(i)
                n = len(log["real"])
                z = orig()
                s0, r0 = z.sample, z.reciprocal_sample
                def sample(t, x, *a, **k):
                    log["samples"].append((i, n, t, x)); return s0(t, x, *a, **k)
                def recip(sm, t, x, *a, **k):
                    log["samples"].append((i, n, t, x)); return r0(sm, t, x, *a, **k)
                z.sample, z.reciprocal_sample = sample, recip
                return z
            h._realize = realize
        for i, h in enumerate(chans): spy(h, i)
        ev = []
        def do(op, a=0, b=0, ch=0, on=False):
            e = {"op": op, "a": a, "b": b, "ch": ch, "on": on, "exc": ""}
            if op == "add":
                if devs[a - 1] is None and r.random() < 0.5:
                    d, e["exc"] = attempt(sc.new_device, carrier_frequency=1e9, pose=place(a)); devs[a - 1] = d
                else: _, e["exc"] = attempt(sc.add_device, dev(a))
            elif op == "set": _, e["exc"] = attempt(sc.set_channel, dev(a), dev(b), chans[ch])
            elif op == "gain":
                def g(): chans[ch].gain = 1.0 if on else 0.0
                _, e["exc"] = attempt(g)
            elif op == "chan":
                x, e["exc"] = attempt(sc.channel, dev(a), dev(b)); e["ret"] = ident(x)
            elif op == "list":
                x, e["exc"] = attempt(lambda: list(sc.channels)); e["ret"] = [ident(h) for h in x or []]
            elif op == "devch":
                x, e["exc"] = attempt(lambda: list(sc.device_channels(dev(a), on) if on or r.random() < 0.5 else sc.device_channels(dev(a))))
                e["ret"] = [ident(h) for h in x or []]
            elif op == "realize":
                log["real"].clear()
                x, e["exc"] = attempt(sc.realize_channels); e["ret"] = list(log["real"])
                if not e["exc"] and len(x) != len(e["ret"]): e["ret"].append(-8)
            elif op == "drop":
                log["real"].clear(); log["samples"].clear()
                with quiet(): x, e["exc"] = attempt(sc.drop)
                e["ret"] = list(log["real"])
                ds = list(sc.devices); n = len(ds)
                states = [d.state(0.) for d in ds]
                used = [[-7] * n for _ in range(n)]
                if not e["exc"]:
                    for i, m, t, x in log["samples"]:
                        # the states handed to the realization identify the linked devices
                        ta = [q for q in range(n) if t.device_id == states[q].device_id]
                        xa = [q for q in range(n) if x.device_id == states[q].device_id]
                        if len(ta) == 1 and len(xa) == 1: used[ta[0]][xa[0]] = i if used[ta[0]][xa[0]] in (-7, i) else -6
                e["used"] = used
            ev.append(e)
            return e
        for o in ops:
            e = do(*o)
            if o[0] == "drop" and e["exc"]: break
        for a in range(1, nd + 1):
            for b in range(1, nd + 1): do("chan", a, b)
            do("devch", a, on=False); do("devch", a, on=True)
        do("list"); do("realize")
        return {"key": kind, "c": {"nd": nd, "nc": nc}, "ev": ev}

    edges = c.model(emit=True, expect_ops=["add", "set", "gain"])
    paths = [h for _, h in c.tour(edges, max_len=30)]

    def run_tour(i):
        r = random.Random(f"{SEED}/t{i}")
        ops = []
        for o in paths[i]:
            ops.append((o["op"], o.get("a", 0), o.get("b", 0), o.get("ch", 0), o.get("on", False)))
            if r.random() < 0.3: ops.append(("list",))
        return history(r, 2, 2, ops, "tour")

    def run(i):
        r = random.Random(f"{SEED}/{i}")
        nd, nc = r.randint(1, 4), r.randint(0, 4)
        ops = []
        early = r.random() < 0.7
        if early: ops += [("add", a) for a in range(1, r.randint(1, nd) + 1)]
        dr = r.choice([0, 0.05, 0.1])
        for _ in range(r.randint(1, 30)):
            x = r.random()
            a, b, ch = r.randint(1, nd), r.randint(1, nd), r.randint(0, nc)
            if x < 0.1: ops.append(("add", a))
            elif x < 0.6: ops.append(("set", a, b, ch))
            elif x < 0.67: ops.append(("gain", 0, 0, ch, r.random() < 0.5))
            elif x < 0.77: ops.append(("chan", a, b))
            elif x < 0.84: ops.append(("list",))
            elif x < 0.9: ops.append(("devch", a, 0, 0, r.random() < 0.5))
            elif x < 0.95 - dr: ops.append(("realize",))
            else: ops.append(("drop",))
        return history(r, nd, nc, ops, "random")

    traces = pmap(run_tour, len(paths))
    traces += pmap(run, 12000 if THOROUGH else 1500)
    c.extra["tours"] = len(paths)
    c.validate(traces, jobs=6)
    drops = sum(e["op"] == "drop" and not e["exc"] for t in traces for e in t["ev"])
    c.extra["drops"] = drops
    c.require(drops > 50, "no drops were generated")

main("C06", "Links", body)
