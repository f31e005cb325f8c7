"""C11: precoding chains."""
from vlib import *


def body(c: Check):
    import numpy as np
    from types import SimpleNamespace
    with quiet():
        from hermespy.core import Signal, Transformation, AntennaMode
        from hermespy.core.precoding import TransmitStreamEncoder, ReceiveStreamDecoder, TransmitSignalCoding, ReceiveSignalCoding
        from hermespy.modem import StatedSymbols, SimplexLink, TransmittingModem, ReceivingModem
        from hermespy.modem.precoding.symbol_precoding import TransmitSymbolEncoder, ReceiveSymbolDecoder, TransmitSymbolCoding, ReceiveSymbolCoding
        from hermespy.modem.precoding import Alamouti, Ganesan, DFT, MaximumRatioCombining, SingleCarrier
        from hermespy.modem.precoding.dft import DFTNorm
        from hermespy.simulation import SimulatedDevice, SimulatedUniformArray, SimulatedCustomArray, SimulatedIdealAntenna
        from hermespy.beamforming import ConventionalBeamformer, SphericalFocus, CoordinateFocus
    from scipy.constants import speed_of_light as SOL

    def enc(k, x, out):
        n, b, s = x.shape
        if out != (2 * n if k == "dup" else n): raise ValueError("stage asked for an impossible number of streams")
        j = 1j ** np.arange(1, n + 1)
        if k == "g": return x * j[:, None, None]
        if k == "rot": return np.roll(x, -1, axis=0)
        if k == "dup": return np.stack([x, 1j * x], axis=1).reshape(out, b, s)
        if k == "rep": return np.stack([x, -x], axis=2).reshape(n, 2 * b, s)
        if k == "acc": return np.cumsum(x, axis=1)
        raise MachineryError(k)

    def dec(k, x, out):
        n, b, s = x.shape
        if out != (n // 2 if k == "dup" else n): raise ValueError("stage asked for an impossible number of streams")
        j = (-1j) ** np.arange(1, n + 1)
        if k == "g": return x * j[:, None, None]
        if k == "rot": return np.roll(x, 1, axis=0)
        if k == "dup": return x[::2]
        if k == "rep": return x[:, ::2]
        if k == "acc": return np.diff(x, axis=1, prepend=0)
        raise MachineryError(k)

    class Count:
        def __init__(self, k):
            self.k = k
            super().__init__()
        def num_transmit_input_streams(self, n): return (n // 2 if n % 2 == 0 else -1) if self.k == "dup" else n
        def num_receive_output_streams(self, n): return (n // 2 if n % 2 == 0 else -1) if self.k == "dup" else n
        num_transmit_input_symbols = num_receive_output_symbols = property(lambda s: 1)
        num_transmit_output_symbols = num_receive_input_symbols = property(lambda s: 2 if s.k == "rep" else 1)
        def serialize(self, process): pass
        @classmethod
        def Deserialize(cls, process): raise NotImplementedError

    class TSym(Count, TransmitSymbolEncoder):
        def encode_symbols(self, symbols, n):
            y = enc(self.k, symbols.raw, n)
            return StatedSymbols(y, np.ones((y.shape[0], 1) + y.shape[1:], dtype=complex))

    class RSym(Count, ReceiveSymbolDecoder):
        def decode_symbols(self, symbols, n):
            y = dec(self.k, symbols.raw, n)
            return StatedSymbols(y, np.ones((y.shape[0], 1) + y.shape[1:], dtype=complex))

    class TSig(Count, TransmitStreamEncoder):
        def encode_streams(self, streams, n, device):
            return Signal.Create(enc(self.k, streams.to_dense().view(np.ndarray)[:, :, None], n)[:, :, 0], streams.sampling_rate, streams.carrier_frequency)

    class RSig(Count, ReceiveStreamDecoder):
        def decode_streams(self, streams, n, device):
            return Signal.Create(dec(self.k, streams.to_dense().view(np.ndarray)[:, :, None], n)[:, :, 0], streams.sampling_rate, streams.carrier_frequency)

    REAL = {"alam": Alamouti, "gan": Ganesan, "dftb": lambda: DFT(DFTNorm.BACKWARD), "dfto": DFT, "dftf": lambda: DFT(DFTNorm.FORWARD),
            "mrc": MaximumRatioCombining, "sc": SingleCarrier, "beam": ConventionalBeamformer}
    CLS = {"tsym": (TSym, TransmitSymbolCoding), "rsym": (RSym, ReceiveSymbolCoding), "tsig": (TSig, TransmitSignalCoding), "rsig": (RSig, ReceiveSignalCoding)}

    states = {}
    def state(n):
        if n not in states:
            with quiet():
                states[n] = SimulatedDevice(antennas=SimulatedUniformArray(SimulatedIdealAntenna, 1e-2, (n, 1, 1))).state(0.)
        return states[n]

    def cube(x): return [[[gint(v) for v in b] for b in s] for s in np.asarray(x)]
    def arr(X): return np.array([[[complex(*v) for v in b] for b in s] for s in X], dtype=complex)
    def stated(x): return StatedSymbols(x, np.ones((x.shape[0], 1) + x.shape[1:], dtype=complex))
    def rnd(r, n, b, s, scale=64):
        return scale * (np.array([r.randint(-3, 3) for _ in range(n * b * s)]).reshape(n, b, s) + 1j * np.array([r.randint(-3, 3) for _ in range(n * b * s)]).reshape(n, b, s))

    def make(cls, via, objs):
        t = cls[0] == "t"
        C = CLS[cls][1]
        if via == "empty": return C()
        if via == "device":
            d = SimulatedDevice(**{"transmit_encoding" if t else "receive_decoding": objs[0] if len(objs) == 1 else objs})
            return d.transmit_coding if t else d.receive_coding
        name = ("transmit" if t else "receive") + ("_symbol" if cls[1:] == "sym" else "_signal") + "_coding"
        if via in ("chain", "linkchain"):
            ch = C()
            for i, o in enumerate(objs): ch[i] = o
            m = (SimplexLink if via == "linkchain" else TransmittingModem if t else ReceivingModem)(**{name: ch})
        else:
            m = (SimplexLink if via == "link" else TransmittingModem if t else ReceivingModem)(**{name: objs})
        return getattr(m, name)

    def history(r, cls, pool, init, via, ops, key):
        stage, C = CLS[cls]
        tx, sym = cls[0] == "t", cls[1:] == "sym"
        objs = [REAL[k]() if k in REAL else stage(k) for k in pool]
        ident = lambda o: next((i + 1 for i, p in enumerate(objs) if p is o), 0)
        ch, e0 = attempt(lambda: make(cls, via, [objs[i - 1] for i in init]))
        kinds = [pool[i - 1] for i in init]

        def obs():
            how = r.randrange(4)
            lst = [list(ch), [ch[i] for i in range(len(ch))], ch[:], list(reversed(list(reversed(ch))))][how] if how < 3 else list(reversed(list(reversed(ch))))
            cnt = []
            for n in range(1, 6):
                v, e = attempt(lambda: ch.num_transmit_input_streams(n) if tx else ch.num_receive_output_streams(n))
                cnt.append(-1 if e else xint(v))
            rate = [int(q) for q in (ch.encode_rate if tx else ch.decode_rate).as_integer_ratio()] if sym else []
            bl = [xint((ch.num_encoded_blocks if tx else ch.num_decoded_blocks)(n)) for n in range(1, 13)] if sym else []
            return {"list": [ident(o) for o in lst], "len": len(ch), "att": [o.precoding is ch for o in objs], "cnt": cnt, "rate": rate, "bl": bl}
        NO = {"list": [], "len": -1, "att": [False] * len(objs), "cnt": [], "rate": [], "bl": []}
        if e0: return {"key": key, "c": {"tx": tx, "pool": pool}, "ev": [{"op": "init", "list": init, "via": via, "exc": e0, "obs": NO}]}
        o, e = attempt(obs)
        ev = [{"op": "init", "list": init, "via": via, "exc": e, "obs": o or NO}]

        def codable(n):
            """Block number for which every stage of the chain has exact integer results, or None."""
            ks = [pool[ident(o) - 1] for o in ch]
            if not tx:
                if any(k in ("alam", "gan", "mrc", "sc", "beam") for k in ks): return None
                ks = ks[::-1]
            elif "beam" in ks: return None
            for b in r.sample([1, 2, 3, 4, 6, 12], 6):
                q, ok, seen = b, True, False
                for k in ks:
                    if k in ("dftb", "dftf") and q not in (1, 2, 4) or k == "dfto" and q not in (1, 4): ok = False
                    if k == "alam" and q % 2 or k == "gan" and q % 3: ok = False
                    if k == "gan": q = q // 3 * 4
                    if k == "rep": q *= 2
                if ok and q <= 16: return b if tx else q
            return None

        for o in ops:
            o = dict(o); op = o["op"]
            if op == "set":
                def go(): ch[o["i"]] = objs[o["k"] - 1]
                _, e = attempt(go)
                v, e2 = attempt(obs)
                ev.append(o | {"exc": e, "obs": v or NO})
            elif op == "pop":
                v, e = attempt(lambda: ch.pop_precoder(o["i"]))
                q, e2 = attempt(obs)
                ev.append(o | {"k": ident(v) if not e else 0, "exc": e, "obs": q or NO})
            elif op == "get":
                v, e = attempt(lambda: ch[o["i"]])
                ev.append(o | {"k": ident(v) if not e else 0, "exc": e})
            elif op in ("code", "wrong"):
                n = o["n"]
                b = codable(n)
                if b is None: continue
                s = r.randint(1, 2) if sym else 1
                if tx:
                    m, e = attempt(lambda: ch.num_transmit_input_streams(n))
                    if e or m < 1: m = 1
                    if op == "wrong":
                        if sym: continue
                        m += r.choice([1, 2, -1]) if m > 1 else 1
                    x = rnd(r, m, b, s)
                    if sym:
                        src = stated(x.copy())
                        y, e = attempt(lambda: ch.encode_symbols(src, n))
                        y, now = (y.raw if not e else None), src.raw
                    else:
                        src = Signal.Create(x[:, :, 0].copy(), 1., 1e9)
                        y, e = attempt(lambda: ch.encode_streams(src, state(n)))
                        y, now = (y.to_dense().view(np.ndarray)[:, :, None] if not e else None), src.to_dense().view(np.ndarray)[:, :, None]
                    ev.append({"op": "enc" if op == "code" else op, "n": n, "x": cube(x), "y": cube(y) if not e else [], "exc": e,
                               "intact": "yes" if np.array_equal(now, x) else "no"})
                elif op == "code":
                    y = rnd(r, n, b, s)
                    if sym:
                        src = stated(y.copy())
                        x, e = attempt(lambda: ch.decode_symbols(src))
                        x, now = (x.raw if not e else None), src.raw
                    else:
                        src = Signal.Create(y[:, :, 0].copy(), 1., 1e9)
                        x, e = attempt(lambda: ch.decode_streams(src, state(n)))
                        x, now = (x.to_dense().view(np.ndarray)[:, :, None] if not e else None), src.to_dense().view(np.ndarray)[:, :, None]
                    ev.append({"op": "dec", "y": cube(y), "x": cube(x) if not e else [], "exc": e, "intact": "yes" if np.array_equal(now, y) else "no"})
        return {"key": key, "c": {"tx": tx, "pool": pool}, "ev": ev}

    edges = c.model(emit=True, expect_ops=["set", "pop", "get", "code"])
    tours = c.tour(edges, max_len=14)
    rp = random.Random(SEED)

    def run_tour(i):
        init, ops = tours[i]
        r = random.Random(f"{SEED}/t{i}")
        t = init["tx"]
        t = t if isinstance(t, bool) else t == "TRUE"
        cls = ("t" if t else "r") + r.choice(["sym", "sig"])
        return history(r, cls, ["g", "rot", "dup", "rep"], [], "empty", ops, f"tour-{cls}")

    def random_history(i):
        r = random.Random(f"{SEED}/r{i}")
        cls = r.choice(["tsym", "rsym", "tsym", "rsym", "tsig", "rsig"])
        ks = ["g", "g", "rot", "dup", "rep", "acc"]
        if cls[1:] == "sym": ks = ks + ["dftb", "dfto", "dftf", "alam", "gan"] + (["mrc", "sc"] if cls == "rsym" else [])
        elif r.random() < .1: ks = ks + ["beam"]
        pool = [r.choice(ks) for _ in range(r.randint(2, 6))]
        via = r.choice(["empty", "device"] if cls[1:] == "sig" and r.random() < .5 else ["empty", "modem", "link", "chain", "linkchain"])
        init = [] if via == "empty" else [r.randint(1, len(pool)) for _ in range(r.randint(1, 4))]
        ops, n = [], len(init)
        for _ in range(r.randint(3, 12)):
            q = r.random()
            if q < .4 and n < 6:
                j = r.randint(-1, n + (r.random() < .1)); ops.append({"op": "set", "i": j, "k": r.randint(1, len(pool))})
                n += j < 0 or j == n
            elif q < .5 and n:
                j = r.randint(-n, n); ops.append({"op": "pop", "i": j}); n -= -n <= j < n
            elif q < .55: ops.append({"op": "get", "i": r.randint(-n - 1, n)})
            else: ops.append({"op": r.choice(["code", "code", "code", "wrong"]), "n": r.choice([1, 2, 2, 3, 4, 4, 4, 6, 8])})
        return history(r, cls, pool, init, via, ops, f"random-{cls}-{via}")

    def link(i):
        r = random.Random(f"{SEED}/l{i}")
        kind = r.choice(["alam", "alam", "gan", "gan", "mrc", "sc"])
        T = {"alam": 2, "gan": 4}.get(kind, 1)
        R = r.randint(1, 3)
        pre = [] if kind == "sc" else r.choice([[], [], ["acc"], ["rep"], ["dftb"], ["acc", "rep"], ["rep", "acc"]])
        b = 3 * r.choice([1, 2]) if kind == "gan" else 2 * r.choice([1, 2, 2, 3]) if kind == "alam" else r.randint(1, 4)
        if "dftb" in pre and b not in (1, 2, 4): pre = []
        s = r.randint(1, 3)
        x = rnd(r, 1, b, s, 16)
        h = np.array([[complex(r.randint(-2, 2), r.randint(-2, 2)) or 1 for _ in range(T)] for _ in range(R)])
        tc, rc = TransmitSymbolCoding(), ReceiveSymbolCoding()
        for k in pre: tc[len(tc)] = REAL[k]() if k in REAL else TSym(k)
        if T > 1: tc[len(tc)] = REAL[kind]()
        rc[0] = REAL[kind]()
        for k in reversed(pre): rc[len(rc)] = REAL[k]() if k in REAL else RSym(k)
        def go():
            t = tc.encode_symbols(stated(x), T).raw
            y = np.einsum("rt,tbs->rbs", h, t)
            st = np.broadcast_to(h[:, :, None, None], (R, T) + t.shape[1:]).copy()
            return t, rc.decode_symbols(StatedSymbols(y, st)).raw
        v, e = attempt(go)
        return {"key": f"link-{kind}", "c": {"tx": True, "pool": []}, "ev": [
            {"op": "link", "pre": pre, "stbc": [kind] if T > 1 else [], "rx": kind, "h": [[gint(z) for z in q] for q in h], "x": cube(x),
             "tx": cube(v[0]) if not e else [], "y": cube(v[1]) if not e else [], "exc": e}]}

    def beam(i):
        r = random.Random(f"{SEED}/b{i}")
        N = r.randint(1, 5)
        pos = [[r.randint(-3, 3) for _ in range(3)] for _ in range(N)]
        quarter = lambda: Transformation.From_RPY(np.array([r.randrange(4) * np.pi / 2 for _ in range(3)]), np.array([r.randint(-5, 5) for _ in range(3)], dtype=float))
        flat = r.random() < .3
        P, A = (Transformation.No() if flat else quarter() for _ in range(2))
        rot = np.rint((P.view(np.ndarray) @ A.view(np.ndarray))[:3, :3]).astype(int)
        d = [0, 0, 0]; d[r.randrange(3)] = r.choice([-1, 1])
        how = r.choice(["angles", "local", "global"])
        x, z = rnd(r, 1, 1, 2, 4 * 60), rnd(r, N, 1, 2, 4 * 60)
        def go():
            ant = SimulatedCustomArray([SimulatedIdealAntenna(AntennaMode.DUPLEX, Transformation.From_Translation(np.array(p, dtype=float))) for p in pos], A)
            st = SimulatedDevice(antennas=ant, pose=P, carrier_frequency=SOL / 4).state(0.)
            bf = ConventionalBeamformer()
            if how == "angles": f = SphericalFocus(np.arctan2(d[1], d[0]), np.arccos(d[2]))
            else: f = CoordinateFocus(np.array(d, dtype=float), how)
            if r.random() < .5:
                bf.transmit_focus = f; bf.receive_focus = f; a = ()
            else: a = (f,)
            t = bf.encode_streams(Signal.Create(x[:, 0, :], 1., SOL / 4), N, st, *a).to_dense().view(np.ndarray)[:, None, :]
            y = bf.decode_streams(Signal.Create(z[:, 0, :], 1., SOL / 4), 1, st, *a).to_dense().view(np.ndarray)[:, None, :]
            return t, y
        v, e = attempt(go)
        return {"key": f"beam-{how}", "c": {"tx": True, "pool": []}, "ev": [
            {"op": "beam", "pos": pos, "rot": rot.tolist(), "d": d, "glob": how == "global", "x": cube(x), "z": cube(z),
             "tx": cube(v[0]) if not e else [], "y": cube(v[1]) if not e else [], "exc": e}]}

    def reach(tr):
        return max((len(e["list"]) if e["op"] == "init" else 0 for e in tr["ev"]), default=0)
    n = (1500, 400, 200) if not THOROUGH else (12000, 3000, 1500)
    tr = pmap(run_tour, len(tours)) + pmap(random_history, n[0]) + pmap(link, n[1]) + pmap(beam, n[2])
    c.validate(tr)
    cnt = lambda p: sum(1 for t in tr for e in t["ev"] if p(e))
    c.require(cnt(lambda e: e["op"] == "enc" and not e["exc"] and len(e["y"]) != len(e["x"])) > 20, "stream-expanding encodings observed")
    c.require(cnt(lambda e: e["op"] == "dec" and not e["exc"]) > 100, "decodings observed")
    c.require(cnt(lambda e: e["op"] in ("enc", "dec") and e["exc"]) > 10, "rejected chains observed")
    c.require(cnt(lambda e: e["op"] == "link" and not e["exc"]) > 50, "links observed")


main("C11", "Precode", body)
