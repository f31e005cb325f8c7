"""C21: modem links and communication evaluators."""
from vlib import *


def body(c: Check):
    import numpy as np
    with quiet():
        from hermespy.core import Signal
        from hermespy.fec import BlockInterleaver, CyclicRedundancyCheck, EncoderManager, RepetitionEncoder
        from hermespy.fec.scrambler import Scrambler3GPP, Scrambler80211a
        from hermespy.modem import (BitErrorEvaluator, BlockErrorEvaluator, ChirpFSKWaveform, CommunicationReception, CommunicationReceptionFrame, CommunicationTransmission,
                                    CommunicationTransmissionFrame, ConstellationEVM, CustomPilotSymbolSequence, DuplexModem, ElementType, FMCWWaveform, FrameErrorEvaluator, GridElement, GridResource,
                                    OCDMWaveform, OFDMWaveform, OTFSWaveform, PrefixType, RaisedCosineWaveform, RandomBitsSource, ReceivingModem, RectangularWaveform, RootRaisedCosineWaveform,
                                    SimplexLink, StreamBitsSource, SymbolSection, Symbols, ThroughputEvaluator, TransmittingModem)
        from hermespy.simulation import SimulatedDevice, SimulatedIdealAntenna, SimulatedUniformArray
    def bits(a): return [int(v) for v in np.asarray(a).astype(int)]
    def usable(): return None

    def waveform(r, os_):
        """a waveform together with its announced frame layout: data symbols per stream and samples per frame"""
        k = r.choice(["rrc", "rc", "rect", "fmcw", "cfsk", "ofdm", "otfs", "ocdm"])
        order = r.choice([2, 4, 8, 16, 16, 64, 256])
        if k == "cfsk":
            order = r.choice([2, 4, 8, 16]); p, d, g = r.randint(0, 2), r.randint(1, 8), r.choice([0, 0, 3])
            n = 32 * order // 8 if order > 8 else 32     # samples of a chirp at one sample per 1/bandwidth
            w = ChirpFSKWaveform(chirp_duration=float(n), num_pilot_chirps=p, num_data_chirps=d, guard_interval=float(g), modulation_order=order)
            return w, order, d, n * os_ * (p + d) + g * os_
        if k in ("rrc", "rc", "rect", "fmcw"):
            pre, d, post, rate = r.choice([0, 0, 1, 4]), r.randint(1, 12), r.choice([0, 0, 2]), r.choice([0, 0, 1, 2, 3])
            kw = dict(num_preamble_symbols=pre, num_data_symbols=d, num_postamble_symbols=post, pilot_rate=rate, modulation_order=order)
            pil = max(0, d // rate - 1) if rate else 0
            nf = pre + d + pil + post
            if k == "rect": return RectangularWaveform(**kw), order, d, nf * os_
            if k == "fmcw": n = r.choice([4, 8, 16]); return FMCWWaveform(n, **kw), order, d, nf * n * os_
            # raised cosines are filtered twice, and root raised cosines alias without oversampling
            if k == "rc" and os_ > 1: order = kw["modulation_order"] = r.choice([2, 4])
            if k == "rrc" and os_ == 1: k = "rc"
            if k == "rrc": w = RootRaisedCosineWaveform(roll_off=r.choice([0.5, 1.0]), filter_length=r.choice([32, 33, 64, 63]), **kw)
            else: w = RaisedCosineWaveform(roll_off=r.choice([0.0, 0.5]) if os_ == 1 else 0.0, filter_length=r.choice([16, 17, 31]), **kw)
            return w, order, d, None
        nsc = r.choice([4, 8, 12])
        ratio, pt = r.choice([(0.0, PrefixType.NONE), (0.25, PrefixType.CYCLIC), (0.25, PrefixType.ZEROPAD), (0.0, PrefixType.CYCLIC)])
        used = r.randint(1, nsc)
        kinds = [r.choice([ElementType.DATA, ElementType.DATA, ElementType.REFERENCE, ElementType.NULL]) for _ in range(used)]
        if ElementType.DATA not in kinds: kinds[0] = ElementType.DATA
        res = GridResource(1, pt, ratio, [GridElement(t, 1) for t in kinds])
        words = r.randint(1, 4)
        dc = False if k != "ofdm" else r.random() < 0.3 and used < nsc
        C = {"ofdm": OFDMWaveform, "otfs": OTFSWaveform, "ocdm": OCDMWaveform}[k]
        kw = dict(dc_suppression=bool(dc)) if k == "ofdm" else {}
        w = C(grid_resources=[res], grid_structure=[SymbolSection(words, [0])], num_subcarriers=nsc, modulation_order=order, **kw)
        return w, order, words * sum(t is ElementType.DATA for t in kinds), None

    def chain(r, n):
        """encoders whose blocks fit into n code bits"""
        enc, bb, cb = [], 1, 1
        x = r.random()
        if x < 0.35: return [], 1, 1
        if r.random() < 0.4: enc.append(r.choice([Scrambler3GPP, Scrambler80211a]))
        b = r.choice([1, 2, 4])
        k = r.choice(["rep", "int", "crc", "none"])
        if k == "rep" and 3 * b <= n: enc.append(lambda: RepetitionEncoder(b, 3)); bb, cb = b, 3 * b
        if k == "int" and 2 * b <= n: enc.append(lambda: BlockInterleaver(2 * b, 2)); bb, cb = 2 * b, 2 * b
        if k == "crc" and b + 2 <= n: enc.append(lambda: CyclicRedundancyCheck(b, 2)); bb, cb = b, b + 2
        if k == "rep" and cb > 1 and r.random() < 0.4 and 2 * cb <= n: z = cb; enc.append(lambda: BlockInterleaver(2 * z, 2)); bb, cb = 2 * bb, 2 * cb
        return enc, bb, cb

    def frame_tx(b, bs, y, d): return CommunicationTransmissionFrame(Signal.Create(np.zeros((1, d), complex), 1.0), np.array(b, np.uint8), bs, np.array(b, np.uint8), bs, Symbols(np.array([complex(*q) for q in y]).reshape((1, -1, 1))) if y else Symbols(), Symbols(), 0.0)
    def frame_rx(b, bs, y, d):
        s = Signal.Create(np.zeros((1, d), complex), 1.0)
        q = Symbols(np.array([complex(*q) for q in y]).reshape((1, -1, 1))) if y else Symbols()
        return CommunicationReceptionFrame(s, s, q, q, 0.0, q, np.array(b, np.uint8), bs, np.array(b, np.uint8), bs)

    def history(r, cfg, plan, key):
        os_ = r.choice([1, 2, 4])
        w = order = None
        if cfg is None:
            while True:
                os_ = r.choice([1, 2, 4])
                w, order, nds, fs = waveform(r, os_)
                st = 1 if r.random() < 0.7 else r.choice([2, 3])
                bps = order.bit_length() - 1
                enc, bb, cb = chain(r, st * nds * bps)
                k = st * nds * bps // cb * bb
                if 0 < k <= 120: break
        else:
            w = RectangularWaveform(num_preamble_symbols=0, num_data_symbols=2, modulation_order=2)
            order, nds, fs, st, bps, enc, bb, cb, k = 2, 2, None, 1, 1, [], 1, 1, 2
        bw = 1.0
        kw = dict(antennas=SimulatedUniformArray(SimulatedIdealAntenna, 1e-2, (st, 1, 1))) if st > 1 else {}
        device = SimulatedDevice(bandwidth=bw, oversampling_factor=os_, carrier_frequency=0.0, seed=r.randint(0, 99), **kw)
        if fs is None: fs = int(w.samples_per_frame(bw, os_))
        src, tmp = [], None
        if cfg is not None or (k % 8 == 0 and r.random() < 0.7):
            tmp = tempfile.NamedTemporaryFile(delete=False)
            src = [r.randint(0, 1) for _ in range(k * 40)] if cfg is None else (cfg["src"] * 8)[:64]
            tmp.write(np.packbits(np.array(src, np.uint8)).tobytes()); tmp.flush()
        if cfg is not None: src = []      # two bits per frame cannot be read from a byte stream
        def source(): return StreamBitsSource(tmp.name) if src else RandomBitsSource(seed=r.randint(0, 99))
        def coding():
            e = [f() for f in enc]
            if not {Scrambler3GPP, Scrambler80211a} & set(enc): r.shuffle(e)
            if r.random() < 0.5: return e
            m = EncoderManager()
            for x in e: m.add_encoder(x)
            return m
        how = r.choice(["simplex", "duplex", "pair"])
        kw = dict(waveform=w, encoding=coding(), seed=r.randint(0, 99))
        if how == "simplex": tx = rx = SimplexLink(bits_source=source(), **kw)
        elif how == "duplex": tx = rx = DuplexModem(bits_source=source(), **kw)
        else: tx = TransmittingModem(bits_source=source(), **kw); rx = ReceivingModem(waveform=w, encoding=coding() if not enc else kw["encoding"] if r.random() < 0.5 else coding())
        direct = r.random() < 0.5 or os_ > 1 or fs < 40     # the radio-frequency chain filters oversampled signals and needs some samples to do so
        if not direct: device.transmitters.add(tx); device.receivers.add(rx)
        E = {"ber": BitErrorEvaluator(tx, rx), "bler": BlockErrorEvaluator(tx, rx), "fer": FrameErrorEvaluator(tx, rx), "drx": ThroughputEvaluator(tx, rx), "evm": ConstellationEVM(tx, rx)}
        c = {"st": st, "nds": nds, "bps": bps, "bb": bb, "cb": cb, "fs": fs, "src": src}
        info = f"{type(w).__name__} {how} order {order} os {os_}"
        ev, air, lasttx, sent = [], None, [], 0
        cur = {"tx": [], "rx": []}
        inject = False
        synced = True     # all scrambled frames sent so far have been received
        scr = any(f in (Scrambler3GPP, Scrambler80211a) for f in enc)
        for o in plan:
            o = dict(o); op = o["op"]
            if op == "transmit":
                o.setdefault("d", r.choice([0, 0, 2, 3, 4, 5])); o.setdefault("notify", r.random() < 0.8)
                if scr: o["notify"] = True
                if sent + o["d"] // 2 > 36: continue
                if scr and not synced: continue
                if not direct: o["d"], o["notify"] = 0, True
            if op == "receive":
                if air is None: continue
                o["cut"] = min(o.get("cut", r.choice([0, 99, 99, 99])), len(air.frames))
                o.setdefault("notify", True)
                if scr and synced: continue
                if scr: o["cut"], o["notify"] = len(air.frames), True
                if not direct: o["cut"], o["notify"] = len(air.frames), True
                if not direct and o["cut"] == 0: continue
            if op in ("tx", "rx") and "f" not in o:
                bs = r.choice([1, 2, 4])
                if op == "rx" and lasttx and r.random() < 0.85:
                    f = [{"b": list(x["b"]), "bs": x["bs"], "y": [list(q) for q in x["y"]], "d": x["d"]} for x in lasttx]
                    for x in f:
                        for _ in range(r.choice([0, 0, 1, 1, 3])):
                            if x["b"]: j = r.randrange(len(x["b"])); x["b"][j] ^= 1
                        for q in x["y"]:
                            if r.random() < 0.3: q[0] += r.randint(-2, 2)
                    if r.random() < 0.25: f = f[:-1]
                    if r.random() < 0.1: f.append({"b": [1, 0, 1, 1], "bs": bs, "y": [[1, 1]], "d": 3})
                    if r.random() < 0.1 and f: f[-1]["b"] = f[-1]["b"][:-1]
                else:
                    nb = r.choice([1, 2, 3])
                    f = [{"b": [r.randint(0, 1) for _ in range(bs * nb)], "bs": bs, "y": [[r.randint(-2, 2), r.randint(-2, 2)] for _ in range(r.randint(1, 4))], "d": r.randint(1, 5)} for _ in range(r.choice([0, 1, 1, 2, 3]))]
                o["f"] = f
            if op in ("tx", "rx"):
                o["f"] = [dict(x, y=[list(q) for q in x["y"]], b=list(x["b"])) for x in o["f"]]
                if any(not x["b"] for x in o["f"]): continue
                if op == "tx": lasttx = o["f"]
                inject = True
            if op == "evaluate":
                o.setdefault("k", r.choice(["ber", "bler", "fer", "drx", "evm"]))
                if o["k"] == "evm" and not inject: continue      # symbols of real links are no integers
                if o["k"] == "evm" and ev and any(x["op"] in ("transmit", "receive") for x in ev): continue
            def go():
                nonlocal air
                if op == "transmit":
                    if direct:
                        dur = o["d"] / 2 * w.frame_duration(bw)
                        t = tx.transmit(device.state(), dur, o["notify"]) if not (dur == 0 and o["notify"] and r.random() < 0.5) else tx.transmit(device.state())
                        s = t.signal
                    else:
                        full = device.transmit()
                        t = full.operator_transmissions[0]; s = t.signal
                    air = t
                    o["f"] = [{"b": bits(x.bits), "bs": int(x.bit_block_size), "y": [], "d": int(x.signal.num_samples), "enc": len(x.encoded_bits), "sym": [int(x.symbols.num_streams), int(x.symbols.num_symbols * x.symbols.num_blocks)]} for x in t.frames]
                    o["samples"] = int(s.num_samples)
                elif op == "receive":
                    s = air.signal
                    if direct:
                        q = s.to_dense() if hasattr(s, "to_dense") else s
                        z = np.asarray(q.view(np.ndarray))[:, :o["cut"] * fs]
                        q = Signal.Create(np.array(z).reshape((st, -1)), s.sampling_rate)
                        rec = rx.receive(q, device.state(), o["notify"])
                    else:
                        rec = device.receive(air.signal).operator_receptions[0]
                    o["f"] = [{"b": bits(x.decoded_bits), "bs": int(x.bit_block_size), "y": [], "d": int(x.signal.num_samples), "at": xint(x.timestamp * s.sampling_rate)} for x in rec.frames]
                elif op == "tx":
                    tx.notify_transmit_callbacks(CommunicationTransmission(Signal.Create(np.zeros((1, 4), complex), 1.0), [frame_tx(x["b"], x["bs"], x["y"], x["d"]) for x in o["f"]]))
                elif op == "rx":
                    got = CommunicationReception(Signal.Create(np.zeros((1, 4), complex), 1.0), [frame_rx(x["b"], x["bs"], x["y"], x["d"]) for x in o["f"]])
                    rx._receive = lambda *a: got
                    try: rx.receive(Signal.Create(np.zeros((st, 4), complex), 1.0), device.state())
                    finally: del rx._receive
                elif op == "evaluate":
                    v = E[o["k"]].evaluate()
                    a = v.artifact().to_scalar()
                    if o["k"] in ("ber", "bler", "fer"):
                        o["q"] = [int(z) for z in np.asarray(v.evaluation).flatten().astype(int)]
                        o["v"] = xint(a * len(o["q"])) if o["q"] else 0
                    elif o["k"] == "drx":
                        f = cur["rx"]
                        nf = max(len(cur["tx"]), len(f))
                        o["v"] = xint(a * nf * f[0]["d"] / (os_ * bw if f[0].get("real") else 1.0)) if f else xint(a)
                    else:
                        n = min(sum(len(x["y"]) for x in cur["tx"]), sum(len(x["y"]) for x in cur["rx"]))
                        o["v"] = xint(a ** 2 * n) if n else 0
                elif op == "read": o["bpf"], o["spf"] = int(w.bits_per_frame()), int(tx.samples_per_frame(bw, os_))
            _, e = attempt(go)
            o["exc"] = e
            ev.append(o)
            if e and op != "evaluate": break
            if op == "transmit":
                sent += len(o["f"]); synced = not scr or not o["f"]
                if o["notify"]: cur["tx"] = [dict(x, real=True) for x in o["f"]]
            if op == "receive":
                synced = True
                if o["notify"]: cur["rx"] = [dict(x, real=True) for x in o["f"]]
            if op == "tx": cur["tx"] = o["f"]
            if op == "rx": cur["rx"] = o["f"]
        if tmp: os.unlink(tmp.name)
        return {"key": key + " " + info, "c": c, "ev": ev}

    c.model(cfg="MCModemDeep.cfg")
    edges = c.model(emit=True, expect_ops=["transmit", "receive", "tx", "rx"])
    tours = c.tour(edges, max_len=30)
    random.Random(SEED).shuffle(tours)
    if not THOROUGH: tours = tours[:300]

    def run_tour(i):
        r = random.Random(f"{SEED}/t{i}")
        init, ops = tours[i]
        plan = []
        for o in ops:
            o = {k: v for k, v in o.items() if k not in ("exc",)}
            if o["op"] in ("transmit", "receive"): o.pop("f", None)
            plan.append(o)
            plan += [{"op": "evaluate", "k": k} for k in r.sample(["ber", "bler", "fer", "drx"], 2)]
        return history(r, init["c"], plan, "tour")

    def run(i):
        r = random.Random(f"{SEED}/{i}")
        plan = [{"op": "read"}]
        mode = r.choice(["link", "link", "inject", "mixed"])
        for _ in range(r.randint(4, 12)):
            x = r.random()
            if mode != "inject" and x < 0.6: plan += [{"op": "transmit"}, {"op": "receive"}] if r.random() < 0.8 else [{"op": "transmit"}]
            elif x < 0.5 and mode != "link": plan += [{"op": r.choice(["tx", "rx"])}]
            elif x < 0.7 and mode != "link": plan += [{"op": "tx"}, {"op": "rx"}]
            else: plan.append({"op": "evaluate"})
        return history(r, None, plan + [{"op": "evaluate", "k": k} for k in ("ber", "bler", "fer", "drx")], "random")

    traces = pmap(run_tour, len(tours), seconds=60)
    traces += pmap(run, 16000 if THOROUGH else 2000, seconds=120)
    c.validate(traces, jobs=7)
    cnt = collections.Counter(e["op"] + (e.get("k", "")) + ("!" if e["exc"] else "") for t in traces for e in t["ev"])
    c.extra["operations"] = dict(cnt); c.extra["tours"] = len(tours)
    c.extra["waveforms"] = dict(collections.Counter(t["key"].split()[1] for t in traces))
    for o in ("transmit", "receive", "tx", "rx", "evaluateber", "evaluatebler", "evaluatefer", "evaluatedrx", "evaluateevm", "evaluateber!"): c.require(cnt[o] > 30, f"too few {o}")

main("C21", "Modem", body)
