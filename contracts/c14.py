"""C14: repeating, concatenating, blending."""
from lib import *
from megatron.energon.wrappers.repeat_dataset import RepeatDataset
from megatron.energon.wrappers.concat_dataset import ConcatDataset
from megatron.energon.wrappers.blend_dataset import BlendDataset
import megatron.energon.wrappers.blend_dataset as blend_module


class RepeatFinite(Contract):
    name = "RepeatDataset.__iter__ (repeats given)"
    covers = ("yield", "end")

    def run(self, P):
        wc, nw, w = worker(self, P)
        inner = Passes(P, self, wc)
        reps = P.int("repeats", 0)
        R_ = RepeatDataset(inner, repeats=reps, worker_config=wc)
        o = P.int("offset", 0)
        P.assume(o <= reps)
        R_._offset[w] = o
        c0 = inner.total
        P.roots.update(R=R_)
        g = P.ghost
        g.k = 0
        P.hints = lambda P: {"offset": o + inner.ended, "pos": c0 + g.k}
        P.invs = lambda P: [("k", g.k >= 0), ("in step", inner.total == c0 + g.k), ("ended", inner.ended >= 0), ("passes", implies(inner.active, o + inner.ended < reps)),
                            ("passes2", o + inner.ended <= reps)]
        for v in R_:
            P.cover("yield")
            P.prove("every value of every pass is yielded in order, without a gap", and_(v == inner.Y.at(c0 + g.k), inner.total == c0 + g.k + 1))
            P.prove("the offset is the number of completed repetitions", R_._offset[w] == o + inner.ended)
            P.prove("no more than the given number of repetitions", o + inner.ended < reps)
            g.k = g.k + 1
        P.cover("end")
        P.prove("exactly the given number of repetitions", o + inner.ended == reps)
        P.prove("the last repetition was completed", not_(inner.active))
        P.prove("nothing pulled is dropped", inner.total == c0 + g.k)
        P.prove("the next pass starts over", R_._offset[w] == 0)


class RepeatInfinite(Contract):
    name = "RepeatDataset.__iter__ (endless)"
    covers = ("yield",)

    def run(self, P):
        wc, nw, w = worker(self, P)
        inner = Passes(P, self, wc)
        R_ = RepeatDataset(inner, repeats=None, worker_config=wc)
        R_._offset[w] = P.int("offset", 0)
        c0 = inner.total
        P.roots.update(R=R_)
        g = P.ghost
        g.k = 0
        P.hints = lambda P: {"pos": c0 + g.k}
        P.invs = lambda P: [("k", g.k >= 0), ("in step", inner.total == c0 + g.k)]
        for v in R_:
            P.cover("yield")
            P.prove("every value of every pass is yielded in order, without a gap", and_(v == inner.Y.at(c0 + g.k), inner.total == c0 + g.k + 1))
            g.k = g.k + 1
        P.prove("an endless repetition does not end", False)


class RepeatLen(Contract):
    name = "RepeatDataset.__len__"
    covers = ("x",)

    def run(self, P):
        wc, nw, w = worker(self, P)
        inner = StateDS(P, wc)
        P.cover("x")
        if P.choose(2):
            P.prove("endless: the inner length", RepeatDataset(inner, worker_config=wc).__len__() == inner.length)
        else:
            r = P.int("repeats", 0)
            P.prove("repeats times the inner length", RepeatDataset(inner, repeats=r, worker_config=wc).__len__() == inner.length * r)


class Sub(SavableDataset):
    """The i-th of a symbolic number of datasets: yields X(i, p), ..., X(i, n(i) - 1) from its position on."""
    _ghost = True

    def __init__(self, P, wc, i, X, n, pos):
        super().__init__(wc)
        self._nosnap_P, self.i, self.X, self.n, self.pos = P, i, X, n, pos

    def __sym_iter__(self):
        return SubCursor(self)

    def worker_has_samples(self):
        return predicate("has_samples", self.i)
    __iter__ = __len__ = None
    save_state = merge_states = restore_state = config = lambda self, *a: Unsupported


class SubCursor(Cursor):
    def __init__(self, d):
        self.d, self.pos = d, d.pos

    def step(self):
        if self.pos < self.d.n:
            self.pos = self.pos + 1
            return app("X", self.d.i, self.pos - 1)
        return END


class ConcatIter(Contract):
    name = "ConcatDataset.__iter__"
    covers = ("yield", "end")

    def run(self, P):
        self.patch_name("add_sample_restore_key", add_key)
        wc, nw, w = worker(self, P)
        N = P.int("datasets", 0)
        n = P.int_stream("n", N, lambda i, v: v >= 0)
        o = P.int("dataset_idx", 0)
        P.assume(or_(o < N, and_(o == 0, N == 0)))
        p0 = P.int("pos_of_active", 0)
        P.assume(implies(N > 0, p0 <= n.at(o)))
        ds = SList(Seq(n=N, f=lambda i: Sub(P, wc, i, None, n.at(i), ite(i == o, p0, 0))), True)
        self.sum = lambda P, s, start: P.int("total_len", 0)
        C = ConcatDataset.__new__(ConcatDataset)
        C.worker_config = wc
        C.datasets = ds
        C._dataset_idx = SList(seq_const(symmax(nw, 1), 0))
        C._dataset_idx[w] = o
        P.roots.update(C=C)
        g = P.ghost
        g.i, g.j = o, p0           # the sample expected next: dataset i, position j (unless j == n(i))
        P.hints = lambda P: {"i": g.i, "j": g.j}
        P.invs = lambda P: [("start", g.j == ite(g.i == o, p0, 0)), ("i", g.i >= o), ("i2", g.i <= N), ("j", g.j >= 0), ("j2", implies(g.i < N, g.j <= n.at(g.i)))]
        orig = SubCursor.step

        def step(cur):
            v = orig(cur)
            if v is END:
                P.prove("a dataset is left only at its end", and_(cur.d.i == g.i, g.j == n.at(g.i)))
                g.i, g.j = g.i + 1, 0
            return v
        self.patch(SubCursor, "step", step)
        for v in C:
            P.cover("yield")
            P.prove("the datasets are yielded completely, one after the other", v == add_key(app("X", g.i, g.j), g.i, src=C))
            P.prove("the saved position names the active dataset", C._dataset_idx[w] == g.i)
            g.j = g.j + 1
        P.cover("end")
        P.prove("all datasets are yielded", g.i == N)
        P.prove("the next pass starts with the first dataset", C._dataset_idx[w] == 0)


class BlendRepeat(Contract):
    name = "BlendDataset._repeat"
    covers = ("yield",)

    def run(self, P):
        wc, nw, w = worker(self, P)
        inner = Passes(P, self, wc)
        B = BlendDataset((inner, 1.0), worker_config=wc)
        c0 = inner.total
        P.roots.update(B=B)
        g = P.ghost
        g.k = 0
        P.hints = lambda P: {"pos": c0 + g.k}
        P.invs = lambda P: [("k", g.k >= 0), ("in step", inner.total == c0 + g.k)]
        for v in B._repeat(inner):
            P.cover("yield")
            P.prove("every value of every pass is yielded in order, without a gap", and_(v == inner.Y.at(c0 + g.k), inner.total == c0 + g.k + 1))
            g.k = g.k + 1
        P.prove("the sequence does not end", False)


class Weights:
    """Contract of torch.tensor(weights) / weights.sum()."""

    def __init__(self, seq, scaled=None):
        self.seq, self.scaled = seq, scaled

    def sum(self):
        return ("sum", self)

    def __truediv__(self, o):
        return Weights(self.seq, o)


class BlendIter(Contract):
    name = "BlendDataset.__iter__"
    covers = ("yield",)
    assumptions = ("torch.tensor(w) / torch.tensor(w).sum() are the normalised weights in the same order; torch.multinomial draws an index with the probability given for it",)

    def run(self, P):
        self.patch_name("add_sample_restore_key", add_key)
        wc, nw, w = worker(self, P)
        N = P.int("datasets", 1)
        wf = z3.Function("weight", z3.IntSort(), z3.RealSort())
        pos = SList(P.int_stream("pos", N, lambda i, v: v >= 0))
        subs = lambda i: Sub(P, wc, i, None, None, 0)
        B = BlendDataset.__new__(BlendDataset)
        B.worker_config = wc
        B.dataset_weights = SList(Seq(n=N, f=lambda i: (subs(i), SReal(wf(num(i))))), True)
        some = P.int("some", 0)
        P.assume(and_(some < N, predicate("has_samples", some)))
        P.witness.append(some)
        g = P.ghost
        g.pos = pos
        g.i = g.p = 0
        g.weight = SReal(wf(num(0)))
        g.draws = 0
        g.pulls = 0
        created = []

        class Rep(Cursor):
            def __init__(self, d):
                self.d = d

            def step(self):
                i = self.d.i
                g.pulls = g.pulls + 1
                r = app("X", i, g.pos[i])
                g.i, g.p = i, g.pos[i]
                g.pos[i] = g.pos[i] + 1
                return r
        B._repeat = lambda d: Rep(d)
        torch = types.SimpleNamespace(tensor=lambda ws, dtype=None: Weights(seq_of(ws)), float32=None)
        self.patch(blend_module, "torch", torch)

        class Rng:
            _ghost = True

            def choice_idx(_, probs):
                F = P.filters[-1] if P.filters else None
                P.prove("the weights are normalised by their own sum", isinstance(probs, Weights) and isinstance(probs.scaled, tuple) and probs.scaled[1].seq is probs.seq)
                m = probs.seq.n
                r = SInt(P.fresh_int("drawn"))
                P.assume(and_(r >= 0, r < m))
                g.draws = g.draws + 1
                g.weight = probs.seq.at(r)
                return r
        B._worker_rng = Rng()
        P.roots.update(B=B)
        P.hints = lambda P: {}
        P.invs = lambda P: [("draws", g.draws == g.pulls), ("len", g.pos.c.n == N)]
        for v in B:
            P.cover("yield")
            P.prove("the sample is the next one of a dataset which has samples, labelled with the number of this dataset", and_(v == add_key(app("X", g.i, g.p), g.i, src=B), predicate("has_samples", g.i)))
            P.prove("the dataset is drawn with its own weight", g.weight == SReal(wf(num(g.i))))
            P.prove("one draw and one sample of a dataset for each sample yielded", and_(g.draws == g.pulls))
        P.prove("blending does not end", False)


class BlendEligible(Contract):
    name = "BlendDataset.__iter__: every dataset with samples can be drawn"
    covers = ("x",)

    def run(self, P):
        """The datasets the draw chooses from are all those which have samples, each once (position i of the datasets is number rho(i) of the choices)."""
        wc, nw, w = worker(self, P)
        N = P.int("datasets", 1)
        wf = z3.Function("weight", z3.IntSort(), z3.RealSort())
        B = BlendDataset.__new__(BlendDataset)
        B.worker_config = wc
        B.dataset_weights = SList(Seq(n=N, f=lambda i: (Sub(P, wc, i, None, None, 0), SReal(wf(num(i))))), True)
        i = P.int("i", 0)
        P.witness.append(i)
        P.assume(and_(i < N, predicate("has_samples", i)))
        made = []
        B._repeat = lambda d: made.append(d.i) or StreamCursor(P.stream("S"), 0)
        self.patch(blend_module, "torch", types.SimpleNamespace(tensor=lambda ws, dtype=None: Weights(seq_of(ws)), float32=None))

        class Rng:
            def choice_idx(_, probs):
                P.cover("x")
                F = P.filters
                if F:
                    j = F[-1].complete(i)
                    P.prove("a dataset with samples is among the choices", and_(j >= 0, j < probs.seq.n))
                    P.prove("with its own weight", probs.seq.at(j) == SReal(wf(num(i))))
                raise PathEnd
        B._worker_rng = Rng()
        next(iter(B))


class RepeatState(RoundTrip):
    name = "RepeatDataset save/merge/restore"

    def make(self, P, wc, tag):
        return RepeatDataset(StateDS(P, wc), repeats=P.int("repeats", 0), worker_config=wc)

    def arbitrary(self, P, d, tag=""):
        d._offset = int_list(P, tag + "offset", d._offset.c.n)

    def view(self, P, d, i):
        return dict(offset=d._offset[i])


class ConcatState(RoundTrip):
    name = "ConcatDataset save/merge/restore (3 datasets)"

    def make(self, P, wc, tag):
        return ConcatDataset(*[StateDS(P, wc, f"X{i}") for i in range(3)], worker_config=wc)

    def inner(self, d):
        return list(d.datasets)

    def arbitrary(self, P, d, tag=""):
        d._dataset_idx = int_list(P, tag + "idx", d._dataset_idx.c.n)

    def view(self, P, d, i):
        return dict(index=d._dataset_idx[i])


class BlendState(RoundTrip):
    name = "BlendDataset save/merge/restore (3 datasets)"

    def make(self, P, wc, tag):
        B = BlendDataset(*[(StateDS(P, wc, f"X{i}"), 1.0 + i) for i in range(3)], worker_config=wc)
        B._worker_rng = RngStub(wc, tag)
        return B

    def inner(self, d):
        return [x for x, _ in d.dataset_weights]

    def arbitrary(self, P, d, tag=""):
        pass

    def view(self, P, d, i):
        return {}

    def _same(self, P, name, a, b, w):
        if a._worker_rng.restored is None:
            P.prove(f"{name}: random generator reset", True)
            return
        if isinstance(a._worker_rng.restored, str):
            P.prove(f"{name}: random generator", False)
        got = a._worker_rng.restored.states[w]
        if "without" in name:
            P.prove(f"{name}: random generator", got is None)
        elif got is None:
            P.prove(f"{name}: random generator", False)
        else:
            P.prove_eq(f"{name}: random generator", got, app("rng.state", w))


CONTRACTS = [RepeatFinite, RepeatInfinite, RepeatLen, ConcatIter, BlendRepeat, BlendIter, BlendEligible] + with_reset(RepeatState, ConcatState, BlendState)
