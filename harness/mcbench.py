"""Observed Monte Carlo pipeline: investigated object, actor, evaluator and result used by C02 and C03.

Lives in an importable module so that the stand-in ray runtime pickles the classes by reference; every
observation is appended to the scheduler's log, which is totally ordered because one thread runs at a time.
"""
import fakeray

with_stage = ["s0", "s1", "s2"]
N_STAGES = len(with_stage)


def log(*e): fakeray.SCHED.log.append(e)


def build():
    """Define the observed classes (hermespy must be imported already)."""
    from hermespy.core.pymonte.actors import MonteCarloActor
    from hermespy.core.pymonte.artifact import Artifact
    from hermespy.core.pymonte.evaluation import Evaluation, EvaluationResult, Evaluator
    from hermespy.core.pymonte.grid import register
    import numpy as np
    g = globals()

    from hermespy.core import ScalarDimension
    class Part:
        """Nested object whose attributes are grid parameters as well."""
        def __init__(self): self._x = -1
        x = property(lambda self: self._x, lambda self, v: setattr(self, "_x", v))
    Part.y = register(first_impact="s1", last_impact="s2")(property(lambda self: self._x, lambda self, v: setattr(self, "_x", v)))

    class Level(ScalarDimension):
        def __init__(self): self.v = -1
        def __lshift__(self, scalar): self.v = scalar
        title = "level"

    class Bench:
        def __init__(self):
            self.vals = {}; self.worker = -1; self.seen = [None] * N_STAGES
            self.part = Part(); self.left = Part(); self.right = Part(); self._level = Level(); self.fail = None; self.count = 0
        def poke(self, value):  # a callable grid dimension
            self.vals["poke"] = value
        def set_level(self, v): self._level << v
        level = property(lambda self: self._level, set_level)
        def values(self):
            v = dict(self.vals); v["part.x"] = v["part.y"] = self.part.x
            v["level"] = self._level.v
            v["x"] = v["y"] = self.left.x if self.left.x == self.right.x else -2
            return v

    def prop(name):
        def fget(self): return self.vals.get(name, -1)
        def fset(self, v): self.vals[name] = v
        return property(fget, fset)

    for a in (None, 0, 1, 2):
        for b in (None, 0, 1, 2):
            for i in range(3):
                name = f"p_{'n' if a is None else a}_{'n' if b is None else b}_{i}"
                kw = {}
                if a is not None: kw["first_impact"] = with_stage[a]
                if b is not None: kw["last_impact"] = with_stage[b]
                setattr(Bench, name, register(**kw)(prop(name)))
    for i in range(3): setattr(Bench, f"plain_{i}", prop(f"plain_{i}"))

    class BenchActor(MonteCarloActor):
        def _stage(self, st, args):
            o = self._investigated_object
            o.worker = self.index
            log("stage", self.index, st, list(args), o.values())
            if o.fail is not None:
                n, every = o.fail
                o.count += 1
                if (o.count + n * (self.index + 1)) % every == 0:
                    log("fail", self.index)
                    raise RuntimeError("stage failed")
        def s0(self, *args): self._stage(0, args)
        def s1(self, *args): self._stage(1, args)
        def s2(self, *args): self._stage(2, args)
        @staticmethod
        def stage_identifiers(): return list(with_stage)
        def stage_executors(self): return [self.s0, self.s1, self.s2]

    class BenchArtifact(Artifact):
        def __init__(self, id): self.id = id
        def __str__(self): return str(self.id)
        def to_scalar(self): return float(self.id)

    class BenchEvaluation(Evaluation):
        def __init__(self, a): Evaluation.__init__(self); self.a = a
        title = "bench"
        def artifact(self): return self.a
        def _prepare_visualization(self, *a, **k): raise NotImplementedError
        def _update_visualization(self, *a, **k): raise NotImplementedError

    class BenchResult(EvaluationResult):
        def __init__(self, grid, evaluator, stop_after):
            EvaluationResult.__init__(self, grid, evaluator)
            self.entries = []; self.stop_after = stop_after; self.which = evaluator.which
            self.counts = {}
        title = "bench"
        def add_artifact(self, coordinates, artifact, compute_confidence=True):
            c = tuple(int(x) for x in coordinates)
            log("merge", self.which, artifact.id, list(c), bool(compute_confidence))
            self.entries = self.entries + [(c, artifact.id)]
            self.counts[c] = self.counts.get(c, 0) + 1
            stop = bool(compute_confidence) and self.stop_after is not None and self.counts[c] >= self.stop_after
            if stop: log("stop", list(c))
            return stop
        def runtime_estimates(self): return None
        def to_array(self):
            return np.array([d.num_sample_points for d in self.grid])

    class BenchEvaluator(Evaluator):
        def __init__(self, obj, which, stop_after=None):
            Evaluator.__init__(self); self.obj = obj; self.which = which; self.n = 0; self.stop_after = stop_after
        def evaluate(self):
            self.n += 1
            id = 1 + self.n + 10000 * self.obj.worker + 1000000 * self.which
            log("eval", self.obj.worker, self.which, id, self.obj.values())
            return BenchEvaluation(BenchArtifact(id))
        abbreviation = "B"; title = "bench"
        def initialize_result(self, grid): return BenchResult(grid, self, self.stop_after)

    class BatchSource:
        """Stand-in queue manager handing out given batches."""
        def __init__(self, batches): self.b = [list(map(tuple, x)) for x in batches]
        def next_batch(self): return self.b.pop(0) if self.b else []
        def disable_section(self, c): pass
        def query_progress(self): return 0.0, np.zeros(1, dtype=bool)

    for x in (Part, Level, Bench, BenchActor, BenchArtifact, BenchEvaluation, BenchResult, BenchEvaluator, BatchSource):
        x.__module__ = __name__; x.__qualname__ = x.__name__; g[x.__name__] = x
