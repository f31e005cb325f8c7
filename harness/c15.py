"""C15: serialization of object graphs."""
from vlib import *
import hashlib


def body(c: Check):
    import numpy as np
    with quiet():
        from hermespy.core import Factory
        from hermespy.core.factory import Serializable
        Factory()

    def pack(v):
        """digest of an array: shape and values"""
        a = np.asarray(v)
        return f"{a.shape}" + hashlib.sha1(np.ascontiguousarray(a.astype(complex)).tobytes()).hexdigest()[:10]
    class Leaf(Serializable):
        def __init__(self, v): self.v = v
        def serialize(self, p): p.serialize_integer(self.v, "v"); p.serialize_array(np.full((1, 2), self.v), "m")
        @classmethod
        def Deserialize(cls, p): o = cls(p.deserialize_integer("v")); return cls(o.v if np.all(p.deserialize_array("m", np.int64) == o.v) else -1)
    class Node(Serializable):
        """an object of the stored graph; its payload is written redundantly in every supported kind"""
        def __init__(self, serial, v, a=None, b=None, q=(), extra=None): self.serial, self.v, self.a, self.b, self.q, self.extra = serial, v, a, b, list(q), extra
        def arrays(self): return np.arange(self.serial * 3).reshape((self.serial, 3)) * (1 + 2j), np.full((2, self.serial), len(self.v), int)
        def serialize(self, p):
            p.serialize_integer(self.serial, "serial")
            p.serialize_string(self.v, "v")
            p.serialize_floating(len(self.v) / 3, "f")
            p.serialize_complex(complex(self.serial, len(self.v)), "z")
            x, y = self.arrays()
            if self.extra is not None: p.serialize_array(self.extra, "shared")
            p.serialize_array(x, "x"); p.serialize_array(y, "y", cache=False)
            p.serialize_range((1.0, float(self.serial)) if self.serial % 2 else float(self.serial), "r")
            if self.a is not None: p.serialize_object(self.a, "a")
            p.serialize_object_sequence(self.q, "q")
            for k in range(3): p.serialize_object(Leaf(self.serial * 10 + k), f"leaf{k}")  # temporary objects, gone once written
            if self.b is not None: p.serialize_custom("deep", lambda q: q.serialize_object(self.b, "b"))
            else: p.serialize_custom("deep", lambda q: None)
        @classmethod
        def Deserialize(cls, p):
            o = cls(p.deserialize_integer("serial"), p.deserialize_string("v"), p.deserialize_object("a", Node, None), p.deserialize_custom("deep", lambda q: q.deserialize_object("b", Node, None)),
                    p.deserialize_object_sequence("q", Node), p.deserialize_array("shared", np.complex128, None))
            x, y = o.arrays()
            gx, gy = p.deserialize_array("x", np.complex128), p.deserialize_array("y", np.int64)
            same = np.array_equal(x, gx) and gx.shape == x.shape and np.array_equal(y, gy) and gy.dtype == np.int64
            same &= p.deserialize_floating("f") == len(o.v) / 3 and p.deserialize_complex("z") == complex(o.serial, len(o.v)) and p.deserialize_range("r", None) == ((1.0, float(o.serial)) if o.serial % 2 else float(o.serial))
            same &= p.deserialize_floating("no", 3.5) == 3.5 and p.deserialize_range("none", None) is None
            same &= [p.deserialize_object(f"leaf{k}", Leaf).v for k in range(3)] == [o.serial * 10 + k for k in range(3)]
            if not same: o.v = "corrupt"
            return o
    class Diamond(Node):
        """writes its fields once per base class"""
        def serialize(self, p): Node.serialize(self, p); Node.serialize(self, p)
    class Other(Serializable):
        def serialize(self, p): p.serialize_integer(1, "serial")
        @classmethod
        def Deserialize(cls, p): return cls()
    class Alien(Serializable):
        def serialize(self, p): p.serialize_integer(1, "serial")
        @classmethod
        def Deserialize(cls, p): return cls()
    factory = Factory({k.serialization_tag(): k for k in (Node, Diamond, Other, Leaf)})
    CAMP = [None, "alpha", "beta/gamma", "delta"]
    ROOT = os.path.join(tempfile.gettempdir(), "c15-" + str(os.getpid()))

    def closure(heap, X):
        X, todo = set(), list(X)
        while todo:
            o = todo.pop()
            if o and o not in X: X.add(o); todo += [heap[o - 1]["a"], heap[o - 1]["b"], *heap[o - 1]["q"]]
        return X

    def history(r, heap, camps, plan, key):
        shared = np.array([[1 + 1j, r.randint(0, 9)]])
        objs = []
        for i, h in enumerate(heap):
            C = Diamond if r.random() < 0.15 else Node
            g = lambda k: objs[k - 1] if k else None
            objs.append(C(i + 1, h["v"], g(h["a"]), g(h["b"]), [g(k) for k in h["q"]], shared if r.random() < 0.4 else None))
        ev = []
        d = tempfile.mkdtemp(prefix="c15")
        path = os.path.join(d, "f.h5")
        p, ids, keep, dom, cur, camp, mode = None, {}, [], 0, 0, 0, "no"
        ent = [dict() for _ in range(camps + 1)]
        def discover(x, via, new):
            """number x and everything below it, in order"""
            if id(x) in ids: return ids[id(x)]
            keep.append(x); ids[id(x)] = len(ids) + 1
            n = {"orig": int(x.serial), "v": str(x.v), "dom": via}
            if x.extra is not None and not np.array_equal(x.extra, shared): n["v"] = "corrupt"
            if (x.extra is None) != (objs[x.serial - 1].extra is None) or type(x) is not type(objs[x.serial - 1]): n["v"] = "corrupt"
            new.append(n)
            n["a"], n["b"] = (discover(x.a, via, new) if x.a is not None else 0), (discover(x.b, via, new) if x.b is not None else 0)
            n["q"] = [discover(y, via, new) for y in x.q]
            return ids[id(x)]
        KIND = {"int": ("integer", lambda v: int(v)), "float": ("floating", lambda v: float.fromhex(v)), "complex": ("complex", lambda v: complex(*[float.fromhex(q) for q in v.split()])), "str": ("string", lambda v: v),
                "range": ("range", lambda v: None if v == "none" else (float(v) if " " not in v else tuple(float(q) for q in v.split())))}
        def show(k, v):
            if v is None: return "none"
            if k == "float": return float(v).hex()
            if k == "complex": return complex(v).real.hex() + " " + complex(v).imag.hex()
            if k == "range": return " ".join(repr(float(q)) for q in v) if isinstance(v, tuple) else repr(float(v))
            return str(v) if (k == "str") == isinstance(v, str) else f"{type(v)}"
        try:
            for o in plan:
                o = dict(o); op = o["op"]
                if op in ("open", "ropen") and (mode != "no" or (op == "ropen" and not os.path.exists(path))): continue
                if op == "hdf" and mode != "no": continue
                if op == "close" and mode == "no": continue
                if op[0] == "w" and mode != "w" or op in ("rval", "rarr", "robj", "rseq", "rlen") and mode != "r": continue
                E = ent[camp]
                if op == "wobj" and o["o"] and o["n"] in E and not (E[o["n"]] == [(cur, o["o"])] and not o["root"]): continue
                if op == "warr" and o["n"] in E and E[o["n"]] != o["v"]: continue
                if op == "wseq" and not o["append"]:
                    own = lambda q: {(dd, y) for dd, k in q for y in list(closure(heap, [k])) + [-1] * any(objs[j - 1].extra is not None for j in closure(heap, [k]))}
                    if any(n != o["n"] and isinstance(q, list) and own(q) & own(E.get(o["n"], [])) for n, q in E.items()): continue
                def go():
                    nonlocal p, dom, cur, camp, mode
                    if op == "open": p = factory.serialize(path, CAMP[o["c"] - 1]) if CAMP[o["c"] - 1] or r.random() < 0.5 else factory.serialize(path); mode, camp, dom = "w", o["c"], dom + 1; cur = dom
                    elif op == "ropen": p = factory.deserialize(path, CAMP[o["c"] - 1]); mode, camp = "r", o["c"]; ids.clear(); keep.clear()
                    elif op == "close": p.finalize(); p = None; mode, camp = "no", 0; ids.clear(); keep.clear()
                    elif op == "wval": n, f = KIND[o["k"]]; getattr(p, "serialize_" + n)(f(o["v"]), o["n"]); E[o["n"]] = o["v"]
                    elif op == "warr": p.serialize_array(arrays[o["v"]], o["n"], cache=r.random() < 0.7); E[o["n"]] = o["v"]
                    elif op == "wobj":
                        x = objs[o["o"] - 1] if o["o"] else Alien()
                        p.serialize_object(x, o["n"], o["root"]) if o["root"] or r.random() < 0.5 else p.serialize_object(x, o["n"])
                        E.setdefault(o["n"], [(dom + 1 if o["root"] else cur, o["o"])]); dom += o["root"]
                    elif op == "wseq":
                        l = [objs[k - 1] for k in o["l"]]
                        p.serialize_object_sequence(tuple(l) if r.random() < 0.3 else l, o["n"], append=o["append"], root=o["root"])
                        E[o["n"]] = (E.get(o["n"], []) if o["append"] else []) + [(dom + i + 1 if o["root"] else cur, k) for i, k in enumerate(o["l"])]
                        dom += len(o["l"]) if o["root"] else 0
                    elif op == "rval":
                        n, f = KIND[o["k"]]
                        o["got"] = show(o["k"], getattr(p, "deserialize_" + n)(o["n"], *([f(o["dflt"]) if o["dflt"] != "nil" else None] if o["dflt"] else [])))
                        if o["dflt"] == "nil" and o["got"] == "none": o["got"] = "nil"
                    elif op == "rarr":
                        y = p.deserialize_array(o["n"], np.dtype(o["dt"]).type, *([None] if o["dflt"] else []))
                        o["got"], o["gdt"] = (o["dflt"], "") if y is None else (pack(y), str(y.dtype))
                    elif op == "robj":
                        want = {"node": (Node,), "any": (), "base": (Serializable,), "other": (Other,)}[o["want"]]
                        marker = object()
                        y = p.deserialize_object(o["n"], *want, *((marker,) if o["dflt"] else ()))
                        o["new"], o["ids"] = [], []
                        if y is marker: o["got"] = o["dflt"]
                        else: o["got"] = "object"; o["ids"] = [discover(y, E.get(o["n"], [(0, 0)])[0][0], o["new"])]
                    elif op == "rseq":
                        kw = {} if o["start"] == 0 and r.random() < 0.5 else {"start": o["start"]}
                        if o["stop"] >= 0: kw["stop"] = o["stop"]
                        l = p.deserialize_object_sequence(o["n"], Node, **kw)
                        q = E.get(o["n"], [])[o["start"]:]
                        o["new"], o["ids"] = [], []
                        o["ids"] = [discover(y, q[i][0] if i < len(q) else 0, o["new"]) for i, y in enumerate(l)]
                    elif op == "rlen": o["len"] = int(p.sequence_length(o["n"]))
                    elif op == "hdf":
                        with tempfile.TemporaryDirectory() as t:
                            if r.random() < 0.5: factory.to_HDF(t + "/o.h5", objs[-1])
                            factory.to_HDF(t + "/o.h5", objs[o["o"] - 1]); y = factory.from_HDF(t + "/o.h5", type(objs[o["o"] - 1]))
                        o["new"], o["ids"] = [], []
                        ids.clear(); keep.clear(); o["ids"] = [discover(y, 0, o["new"])]; ids.clear(); keep.clear()
                arrays = o.pop("_arrays", None)
                _, e = attempt(go)
                o["exc"] = e
                if e: [o.pop(k, None) for k in ("got", "new", "ids", "gdt", "len")]
                ev.append(o)
                if e and op in ("open", "close", "hdf", "wseq", "warr", "wval"): break
        finally:
            if p is not None: attempt(p.finalize)
            shutil.rmtree(d, True)
        return {"key": key, "c": {"heap": heap, "camps": camps}, "ev": ev}

    def reads(r, names, seqs, n):
        out = []
        for _ in range(n):
            if r.random() < 0.5: out.append({"op": "robj", "n": r.choice(names), "want": r.choice(["node", "node", "any", "base", "other"]), "dflt": r.choice(["", "fallback"])})
            else: out.append(r.choice([{"op": "rlen", "n": r.choice(seqs)}, *([{"op": "rseq", "n": r.choice(seqs), "start": r.choice([0, 0, 1, 2, 5]), "stop": r.choice([-1, -1, 0, 1, 2, 3, 9])}] * 3)]))
        return out

    c.model(cfg="MCStoreDeep.cfg")
    edges = c.model(emit=True, expect_ops=["open", "ropen", "close", "wobj", "wseq", "wval"])
    tours = c.tour(edges, max_len=25)
    random.Random(SEED).shuffle(tours)
    if not THOROUGH: tours = tours[:900]
    MC = [{"v": "p", "a": 0, "b": 0, "q": []}, {"v": "q", "a": 1, "b": 1, "q": []}, {"v": "r", "a": 2, "b": 0, "q": [1, 2]}]

    def run_tour(i):
        r = random.Random(f"{SEED}/t{i}")
        plan = []
        for o in tours[i][1]:
            plan.append({k: v for k, v in o.items() if k != "exc"})
            if o["op"] == "ropen": plan += reads(r, ["x", "y"], ["s"], 3)
        plan.append({"op": "close"})
        for k in (1, 2):
            plan.append({"op": "ropen", "c": k})
            plan += reads(r, ["x", "y"], ["s"], 3) + [{"op": "robj", "n": "y", "want": "node", "dflt": "d"}, {"op": "rseq", "n": "s", "start": 0, "stop": -1}, {"op": "robj", "n": "x", "want": "node", "dflt": "d"}, {"op": "rval", "n": "i", "k": "int", "dflt": "7"}, {"op": "close"}]
        return history(r, MC, 2, plan, "tour")

    def scalar(r, k):
        if k == "int": return str(r.choice([0, -1, 1, 2 ** 31, -2 ** 62, r.randint(-1000, 1000)]))
        if k == "float": return r.choice([0.0, -0.0, 1e-300, float("inf"), r.uniform(-9, 9), 1e22]).hex()
        if k == "complex": return f"{r.uniform(-3, 3).hex()} {r.choice([0.0, r.uniform(-3, 3)]).hex()}"
        if k == "str": return r.choice(["", "text", "UNDEFINED", "äöü €", "None", "line\nbreak", "x" * 300, str(r.random())])
        return r.choice(["none", repr(float(r.randint(0, 5))), f"{float(r.randint(0, 3))!r} {float(r.randint(3, 6))!r}"])

    def run(i):
        r = random.Random(f"{SEED}/{i}")
        heap = []
        for k in range(r.randint(2, 9)):
            g = lambda: r.choice([0, 0] + list(range(1, k + 1)))
            heap.append({"v": r.choice(["", "p", "qq", "rrr", "ß"]), "a": g(), "b": g(), "q": [r.randint(1, k) for _ in range(r.choice([0, 0, 1, 2, 3]))] if k else []})
        camps = r.randint(1, 4)
        names, seqs, plan = ["x", "y", "z", "w0", "arrays"], ["s", "t", "drops"], []
        pool = {}
        for _ in range(6):
            a = np.array(r.choice([[], [1.5], [[1, 2], [3, 4]], [[[1j]]], 3.0, [1, 2, 3]]))
            a = a.astype(np.complex128)
            if r.random() < 0.3 and a.ndim: a = np.tile(a, 3)[..., ::2]
            pool[pack(a) + f"/{len(pool)}"] = a
        by = {}
        for v in list(pool.values()): by[pack(v)] = v
        kinds = {"i": "int", "f": "float", "c": "complex", "g": "str", "h": "range", "i2": "int"}
        # the kind a name holds is fixed, except for deliberate type errors; ranges keep their shape
        for _ in range(r.randint(2, 6)):
            k = r.randint(1, camps)
            if r.random() < 0.55 or not plan:
                plan.append({"op": "open", "c": k})
                done = set()
                for _ in range(r.randint(1, 7)):
                    x = r.random()
                    if x < 0.3: plan.append({"op": "wobj", "n": r.choice(names), "o": r.randint(1, len(heap)) if r.random() < 0.95 else 0, "root": r.random() < 0.2})
                    elif x < 0.65: plan.append({"op": "wseq", "n": r.choice(seqs), "l": [r.randint(1, len(heap)) for _ in range(r.choice([0, 1, 1, 2, 3, 12]))], "append": r.random() < 0.7, "root": r.random() < 0.3})
                    elif x < 0.85:
                        n = r.choice(list(kinds)); v = scalar(r, kinds[n])
                        if kinds[n] == "range" and (any(o["op"] == "wval" and o["n"] == n for o in plan)): continue
                        plan.append({"op": "wval", "n": n, "k": kinds[n], "v": v})
                    else:
                        v = r.choice(list(by)); plan.append({"op": "warr", "n": r.choice(["m", "n", "o"]), "v": v, "_arrays": by})
                plan.append({"op": "close"})
            else:
                plan.append({"op": "ropen", "c": k})
                for _ in range(r.randint(1, 8)):
                    x = r.random()
                    if x < 0.6: plan += reads(r, names, seqs, 1)
                    elif x < 0.85:
                        n = r.choice(list(kinds)); k = kinds[n]
                        if r.random() < 0.1 and k in ("int", "float", "complex"): k = r.choice(["int", "float", "complex"])
                        dflt = r.choice(["", scalar(r, k), "nil"]) if k != "str" else r.choice(["", "dd"])
                        if dflt == "none": dflt = "nil"
                        plan.append({"op": "rval", "n": n, "k": k, "dflt": dflt if dflt != "" else ""})
                    else: plan.append({"op": "rarr", "n": r.choice(["m", "n", "o"]), "dt": r.choice(["complex128", "complex128", "complex64"]), "dflt": r.choice(["", "nothing"])})
                plan.append({"op": "close"})
            if r.random() < 0.1: plan.append({"op": "hdf", "o": r.randint(1, len(heap))})
        for k in range(1, camps + 1):
            plan.append({"op": "ropen", "c": k})
            q = [{"op": "robj", "n": n, "want": "any", "dflt": "d"} for n in names] + [{"op": "rseq", "n": n, "start": 0, "stop": -1} for n in seqs]
            r.shuffle(q)
            plan += q + [{"op": "close"}]
        return history(r, heap, camps, plan, "random")

    traces = pmap(run_tour, len(tours), seconds=80)
    traces += pmap(run, 12000 if THOROUGH else 1500, seconds=80)
    c.validate(traces, jobs=7)
    cnt = collections.Counter(e["op"] + ("!" if e["exc"] else "") for t in traces for e in t["ev"])
    c.extra["operations"] = dict(cnt); c.extra["tours"] = len(tours)
    for o in ("open", "ropen", "ropen!", "wobj", "wseq", "wval", "warr", "rval", "rval!", "rarr", "robj", "robj!", "rseq", "rseq!", "rlen", "hdf"): c.require(cnt[o] > 20, f"too few {o}")

main("C15", "Store", body)
