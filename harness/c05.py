"""C05: recorded drops replay in order, unchanged; modes gate the operations."""
from vlib import *
import hashlib

CAMPS = [None, "alpha", "beta", "gamma"]
RESERVED = ["state", "state", "drops", "arrays"]


def body(c: Check):
    import numpy as np
    with quiet():
        from hermespy.core import Signal, SignalTransmitter, SignalReceiver, Factory, ScenarioMode
        from hermespy.simulation import SimulationScenario, SimulatedDevice, SampleOffsetTrigger as OffsetTrigger, SNR, SimulatedIdealAntenna, SimulatedUniformArray
        from hermespy.channel import IdealChannel, TDL
        from hermespy.modem import DuplexModem, RootRaisedCosineWaveform
        Factory()

    def h(*parts):
        m = hashlib.sha1()
        def feed(x):
            if x is None: m.update(b"N")
            elif isinstance(x, np.ndarray):
                a = np.ascontiguousarray(x); m.update(str((a.shape, a.dtype.kind)).encode()); m.update(a.tobytes())
            elif isinstance(x, (list, tuple)):
                m.update(b"[%d" % len(x))
                for y in x: feed(y)
            elif isinstance(x, Signal):
                d = x.to_dense()
                feed(np.array([b for b in d.blocks]).reshape(d.num_streams, -1).astype(complex) if d.num_blocks else np.zeros((d.num_streams, 0), complex))
                feed([float(x.sampling_rate), float(x.carrier_frequency), float(x.noise_power), float(x.delay), x.num_streams, x.num_samples])
            elif isinstance(x, (float, np.floating)): m.update(repr(float(x)).encode())
            elif isinstance(x, (int, np.integer)): m.update(b"i%d" % int(x))
            elif isinstance(x, str): m.update(x.encode())
            else: m.update(repr(x).encode())
        for q in parts: feed(q)
        return m.hexdigest()

    def optx(t):
        p = [t.signal]
        for a in ("bits", "symbols"):
            if hasattr(t, a):
                v = getattr(t, a)
                p.append(np.asarray(v.raw if hasattr(v, "raw") else v))
        return p

    def oprx(r): return optx(r) + [type(r).__name__]

    def parts(d):
        """identities of the parts of a drop"""
        dt, dr = d.device_transmissions, d.device_receptions
        return [h(float(d.timestamp)),
                h([[optx(t) for t in x.operator_transmissions] for x in dt]),
                h([list(x.impinging_signals) for x in dr]),
                h([list(x.operator_inputs) for x in dr]),
                h([[oprx(r) for r in x.operator_receptions] for x in dr]),
                h([x.mixed_signal for x in dt] + [float(x.sampling_rate) for x in dt] + [float(x.carrier_frequency) for x in dt]),
                h([float(x.trigger_realization.trigger_delay) for x in dt] + [float(x.trigger_realization.sampling_rate) for x in dt]
                  + [x.num_operator_transmissions for x in dt] + [list(x.leaking_signals) if getattr(x, "leaking_signals", None) else None for x in dt]),
                h([type(x).__name__ for x in d.channel_realizations])]

    def make_device(seed):
        r = random.Random(seed)
        n = r.choice([1, 1, 2])
        kw = {}
        if n == 2: kw["antennas"] = SimulatedUniformArray(SimulatedIdealAntenna, 1e-2, (2, 1, 1))
        if r.random() < 0.4: kw["carrier_frequency"] = 1e9
        d = SimulatedDevice(**kw)
        if r.random() < 0.4: d.trigger_model = OffsetTrigger(r.choice([0, 1, 3]))
        if n == 1 and r.random() < 0.3:
            m = DuplexModem(waveform=RootRaisedCosineWaveform(num_preamble_symbols=0, num_data_symbols=4, modulation_order=4))
            d.transmitters.add(m); d.receivers.add(m)
        else:
            for _ in range(r.choice([1, 1, 2])):
                d.transmitters.add(SignalTransmitter(Signal.Create(np.zeros((n, 4), complex), sampling_rate=d.sampling_rate)))
            for _ in range(r.choice([1, 1, 2])): d.receivers.add(SignalReceiver(4))
        return d

    def make_scenario(structure):
        s = SimulationScenario(seed=17)
        r = random.Random(str(structure))
        for q in structure: s.add_device(make_device(q))
        if len(structure) > 1 and r.random() < 0.4:
            s.set_channel(s.devices[0], s.devices[1], r.choice([IdealChannel(0.5), TDL(rms_delay=1e-7)]))
        if r.random() < 0.3: s.noise_level = SNR(10.0, s.devices[0])
        return s

    def load_content(r, s, uid):
        """the next drop carries unique samples"""
        for i, d in enumerate(s.devices):
            for j, t in enumerate(d.transmitters):
                if isinstance(t, SignalTransmitter):
                    n = t.signal.num_streams
                    a = (np.arange(n * 4).reshape(n, 4) + 1) * (1 + uid) + 1j * (100 * i + 10 * j + r.random())
                    t.signal = Signal.Create(a, sampling_rate=t.signal.sampling_rate)

    def run(i):
        import tempfile
        r = random.Random(f"{SEED}/{i}"); np.random.seed(r.randrange(1 << 30))
        tmp = tempfile.mkdtemp(prefix=f"c05_{i}_", dir=c.scratch)
        files = {1: os.path.join(tmp, "a.h5"), 2: os.path.join(tmp, "b.h5")}
        struct0 = [r.randrange(10 ** 6) for _ in range(r.choice([1, 1, 2]))]
        struct = {1: list(struct0), 2: list(struct0)}
        sl = {k: make_scenario(struct[k]) for k in (1, 2)}
        table = {}
        def ident(q, x): return table.setdefault((q, x), len(table) + 1)
        heard = {1: ([], []), 2: ([], [])}
        hooked = set()
        def hook(k):
            for d in sl[k].devices:
                if id(d) in hooked: continue
                hooked.add(id(d)); keep.append(d)
                for t in d.transmitters: t.add_transmit_callback(lambda x, k=k, t=t: heard[k][0].append((t, x)))
                for q in d.receivers: q.add_receive_callback(lambda x, k=k, q=q: heard[k][1].append((q, x)))
        keep = []
        hook(1); hook(2)
        # the generator's own view, only used to choose operations that are worth trying
        mode = {1: 0, 2: 0}; busy = {1: 0, 2: 0}; rfile = {1: 0, 2: 0}; cur = {}
        stored = {}             # (file, campaign) -> [number of drops, structure]
        ev = []; uid = 0
        def emit(k, e, x):
            s = sl[k]
            e["exc"] = x; e["m"] = int(s.mode); e["n"] = int(s.num_drops); e["dev"] = s.num_devices
            e["cp"] = CAMPS.index(s.campaign) if s.campaign in CAMPS else (0 if s.campaign == "default" else 99)
            ev.append(e)
        def new(k, op): return {"i": k, "op": op, "exc": "", "v": [0] * 7, "cbt": 0, "cbr": 0, "ret": 0}
        def stop(k):
            _, x = attempt(sl[k].stop)
            if not x: mode[k] = 0; busy[k] = 0
            emit(k, new(k, "stop"), x)
        kinds = ["new", "record", "record", "drop", "drop", "drop", "stop", "stop", "campaign", "replay", "replay", "load", "tdrop"]
        for _ in range(r.randint(4, 26)):
            k = r.choice([1, 1, 2]); s = sl[k]
            op = r.choice(kinds)
            if r.random() < 0.35: op = "drop"
            if op == "drop" and mode[k] == 0 and r.random() < 0.6: op = r.choice(["record", "replay", "load"])
            e = new(k, "drop" if op == "tdrop" else op); x = ""
            if op == "stop": stop(k); continue
            if op == "new":
                if mode[k] == 0 and r.random() < 0.8: continue
                seed = r.randrange(10 ** 6)
                _, x = attempt(s.add_device, make_device(seed))
                if not x: struct[k] = struct[k] + [seed]; hook(k)
            elif op == "record":
                f = r.choice([1, 1, 2]); kk = r.choice([0, 1, 1, 2, 3])
                if stored and r.random() < 0.4: f, kk = r.choice(sorted(stored))
                if busy[3 - k] == f: continue
                name = CAMPS[kk]
                if r.random() < 0.1: kk = 9; name = r.choice(RESERVED)
                ow = r.random() < 0.12
                if (f, kk) in stored and stored[(f, kk)][1] != struct[k] and not ow: continue
                e.update(f=f, k=kk, ow=ow)
                _, x = attempt(s.record, files[f], name, ow)
                if not x:
                    mode[k] = 1; busy[k] = f
                    if ow:
                        for q in [q for q in stored if q[0] == f]: del stored[q]
                    stored.setdefault((f, kk), [0, list(struct[k])]); cur[k] = (f, kk)
            elif op in ("drop", "tdrop"):
                if op == "tdrop" and mode[k] == 2: continue
                uid += 1; load_content(r, s, uid)
                heard[k][0].clear(); heard[k][1].clear()
                d, x = attempt(s.drop) if op == "drop" else attempt(s.drop, r.choice([0.0, 0.5, 1.25]))
                if not x:
                    e["v"] = [ident(q, y) for q, y in enumerate(parts(d))]
                    tx, rx = heard[k]
                    nt = sum(len(list(dv.transmitters)) for dv in s.devices); nr = sum(len(list(dv.receivers)) for dv in s.devices)
                    e["cbt"] = ident(1, h([[optx(y) for t in dv.transmitters for z, y in tx if z is t] for dv in s.devices])) if len(tx) == nt else -1
                    e["cbr"] = ident(3, h([[y.signal for q in dv.receivers for z, y in rx if z is q] for dv in s.devices])) if len(rx) == nr else -1
                    if mode[k] == 1: stored[cur[k]][0] += 1
            elif op == "campaign":
                kk = r.choice([1, 2, 3]); name = CAMPS[kk]
                if r.random() < 0.2: kk = 9; name = r.choice(RESERVED)
                e.update(k=kk)
                _, x = attempt(setattr, s, "campaign", name)
            else:
                f = r.choice([1, 1, 2]); kk = r.choice([0, 1, 1, 2, 3])
                if stored and r.random() < 0.8: f, kk = r.choice(sorted(stored))
                if op == "replay" and r.random() < 0.25: f = 0
                g = rfile[k] if f == 0 else f
                if g and busy[3 - k] == g and mode[3 - k] == 1: continue
                if (g, kk) in stored and op == "replay" and stored[(g, kk)][1] != struct[k]: continue
                n = stored.get((g, kk), [0, 0])[0]
                off = r.choice([0, 0, 0, 0, 0, 1, 1, 2, n - 1, n, n + 1, -1])
                e.update(f=f, k=kk, off=off)
                if op == "replay":
                    v, x = attempt(s.replay, files[f] if f else None, CAMPS[kk], off)
                    if not x: e["ret"] = int(v)
                else:
                    if mode[k]: stop(k)     # the replaced scenario releases its file first
                    v, x = attempt(SimulationScenario.Replay, files[f], CAMPS[kk], off)
                    if not x:
                        sl[k] = v[0]; struct[k] = list(stored[(f, kk)][1]); hook(k); e["ret"] = int(v[1])
                if not x: mode[k] = 2; rfile[k] = busy[k] = g
            emit(k, e, x)
        for k in sl: attempt(sl[k].stop)
        shutil.rmtree(tmp, True)
        return {"key": f"h{i}", "c": {"dev": [len(struct0)] * 2}, "ev": ev}

    c.model(workers=6)
    if THOROUGH: c.model(cfg="MCRecord_thorough.cfg", workers=7, timeout=3000)
    traces = pmap(run, 4000 if THOROUGH else 500, seconds=500 if THOROUGH else 60)
    ops = collections.Counter((e["op"], bool(e["exc"]), e["m"]) for t in traces for e in t["ev"])
    c.extra["operations"] = {f"{a}{'!' if b else ''} -> mode {m}": n for (a, b, m), n in sorted(ops.items())}
    c.validate(traces, jobs=6)
    c.require(ops[("drop", False, 2)] >= 20, "too few replayed drops")

main("C05", "Record", body)
