"""C18: a sample rebuilt from its restore key is the same sample.

Per stage: the key set on a result names the sample index (and number of the result) it was made under and the keys of the samples it was made of (the
iteration contracts of C09 to C12, C14); restore_sample makes the result again of the samples with these keys, under the same sample index, and puts the
same key on it (here).  Random functions are the same functions again under the same sample index (the contracts of C23)."""
from lib import *
import c08, c09, c10, c11, c12, c14, c17, c23
import megatron.energon.flavors.base_dataset as base_dataset_module
from megatron.energon.flavors.base_dataset import Sample, set_sample_restore_key, add_sample_restore_key
import megatron.energon.savable_loader as loader_module
from megatron.energon.savable_loader import SimpleSavableDatasetWrapper, SavableDatasetWrapper
from megatron.energon.wrappers.blend_dataset import BlendDataset
from megatron.energon.wrappers.concat_dataset import ConcatDataset
from megatron.energon.wrappers.filter_dataset import FilterDataset
from megatron.energon.wrappers.iter_map_dataset import IterMapDataset
from megatron.energon.wrappers.limit_dataset import LimitDataset
from megatron.energon.wrappers.repeat_dataset import RepeatDataset
from megatron.energon.wrappers.epochize_dataset import EpochizeDataset
from megatron.energon.wrappers.log_sample_dataset import LogSampleDataset
from megatron.energon.wrappers.gc_dataset import GcDataset
from megatron.energon.wrappers.shuffle_buffer_dataset import ShuffleBufferDataset


class Rebuilt:
    """What an inner dataset rebuilds: which dataset was asked for which key."""
    _stub = True

    def __init__(self, i, key):
        self.i, self.key = i, key


class Sub(Partial):
    def __init__(self, i, check=None):
        self.i, self.check = i, check

    def restore_sample(self, key):
        if self.check:
            self.check()
        return Rebuilt(self.i, key)

    def can_restore_sample(self):
        return True

    def assert_can_restore(self):
        pass


def a_key(P, *front):
    """The key of a sample: any number of elements after the given ones."""
    n = P.int("key_len", 1)
    K = P.stream("key", n)
    return SList(K), SList(seq_concat(Seq(list(front)), K), True)


class Selecting(Contract):
    covers = ("x",)

    def run(self, P):
        wc, nw, w = worker(self, P)
        N = P.int("datasets", 1)
        i = P.int("which", 0)
        P.assume(i < N)
        D = self.cls.__new__(self.cls)
        D.worker_config = wc
        self.put(D, N)
        g = types.SimpleNamespace(keyed=0)

        def add(sample, *key, src, fail_otherwise=False):
            g.keyed += 1
            P.prove("the dataset named by the key rebuilds the sample", sample.i == i)
            P.prove_eq("from the rest of the key", SList(seq_of(sample.key)), K)
            P.prove("the same key is put on the sample again", and_(len(key) == 1, key[0] == i, src is D))
            return sample
        self.patch_name("add_sample_restore_key", add)
        K, key = a_key(P, self.cls.__name__, i)
        r = D.restore_sample(key)
        P.cover("x")
        P.prove("the rebuilt sample is returned with its key", isinstance(r, Rebuilt) and g.keyed == 1)


class BlendRestore(Selecting):
    name = "BlendDataset.restore_sample"
    cls = BlendDataset

    def put(self, D, N):
        D.dataset_weights = SList(Seq(n=N, f=lambda i: (Sub(i), 1.0)), True)


class ConcatRestore(Selecting):
    name = "ConcatDataset.restore_sample"
    cls = ConcatDataset

    def put(self, D, N):
        D.datasets = SList(Seq(n=N, f=lambda i: Sub(i)), True)


class IterMapRestore(Contract):
    name = "IterMapDataset.restore_sample"
    covers = ("x", "too few")

    def run(self, P):
        wc, nw, w = worker(self, P)
        inner = StateDS(P, wc)
        i, j, m, n = P.int("key_index", 0), P.int("key_local", 0), P.int("size", 1), P.int("results", 0)
        K = P.stream("inner_key", m)
        g = P.ghost
        g.k = 0
        g.keyed = False
        g.closed = False

        def fn(it):
            P.prove_eq("the function gets the same samples, in order", SList(seq_of(it)), SList(Seq(n=m, f=lambda i: app("X.restore", K.at(i)))))
            return Produce()

        class Produce(GenCursor):
            _ghost = True

            def step(self):
                P.prove("each result is made under the sample index it had", top() == i - j + g.k)
                if not (g.k < n):
                    return END
                g.k = g.k + 1
                return app("gen", g.k - 1)

        def set_key(sample, *k, src, fail_otherwise=False):
            parts = joined(k)
            P.prove("the key of the sample rebuilt is the key asked for", and_(sample == app("gen", j), src is D, parts.n == 2 + m, parts.at(0) == i, parts.at(1) == j))
            P.prove_eq("with the keys of the samples", SList(seq_slice(parts, 2, parts.n)), SList(K))
            g.keyed = True
            return sample
        self.patch_name("set_sample_restore_key", set_key)
        D = IterMapDataset(inner, fn, stateless_iter_fn=True, worker_config=wc)
        s0 = used_index(P, D, w)
        P.roots.update(D=D)
        P.hints = lambda P: {"k": g.k}
        P.invs = lambda P: [("k", and_(g.k >= 0, g.k <= j, g.k <= n))]
        P.rels = lambda P: []
        depth = WC._sample_index_stack.sym_len()
        try:
            r = D.restore_sample(SList(seq_concat(Seq(["IterMapDataset", i, j]), K), True))
            P.cover("x")
            P.prove("the result named by the key", and_(r == app("gen", j), g.keyed, j < n))
        except RuntimeError:
            P.cover("too few")
            P.prove("only a function which gives fewer results than before fails", j >= n)
        P.prove("restoring counts no sample index", D._sample_index.current_idx == s0)
        P.prove("no sample index stays active", WC._sample_index_stack.sym_len() == depth)


class PassedOn(Contract):
    name = "restore_sample of stages which do not change samples"
    covers = tuple(c.__name__ for c in (FilterDataset, LimitDataset, RepeatDataset, EpochizeDataset, LogSampleDataset, GcDataset, ShuffleBufferDataset))

    def run(self, P):
        wc, nw, w = worker(self, P)
        inner = StateDS(P, wc)
        inner.restore_sample = lambda k: Rebuilt(0, k)
        make = [lambda: FilterDataset(inner, filter_fn=lambda s: True, worker_config=wc), lambda: LimitDataset(inner, 5, worker_config=wc), lambda: RepeatDataset(inner, worker_config=wc),
                lambda: EpochizeDataset(inner, 5, worker_config=wc), lambda: LogSampleDataset(inner, mode="train", worker_config=wc), lambda: GcDataset(inner, worker_config=wc),
                lambda: ShuffleBufferDataset(inner, 5, worker_config=wc)]
        D = make[P.choose(len(make))]()
        K, key = a_key(P)
        r = D.restore_sample(key)
        P.cover(type(D).__name__)
        P.prove("the inner dataset rebuilds the sample", isinstance(r, Rebuilt))
        P.prove_eq("with the same key", SList(seq_of(r.key)), K)
        P.prove("it can be restored if the inner one can", D.can_restore_sample() is True)


class LoaderRestore(Contract):
    name = "SavableDatasetWrapper, SimpleSavableDatasetWrapper.restore_sample"
    covers = ("x", "fails")

    def run(self, P):
        wc, nw, w = worker(self, P)
        cls = (SavableDatasetWrapper, SimpleSavableDatasetWrapper)[P.choose(2)]
        self.patch(WC, "active_worker_config", None)
        self.patch(WC, "_sample_index_stack", None)
        self.patch(WC, "_worker_override_global_rank", None)
        gw, ix = P.int("global_worker", 0), P.int("key_index", 0)
        fails = P.choose(2)

        def check():
            P.prove("the worker configuration is active", WC.active_worker_config is wc)
            P.prove("as the worker which made the sample", WC._worker_override_global_rank == gw)
            P.prove("under the sample index the sample had", and_(WC._sample_index_stack.sym_len() == 1 if isinstance(WC._sample_index_stack, SList) else len(WC._sample_index_stack) == 1, top() == ix))
            if fails:
                raise ValueError
        D = cls.__new__(cls)
        D.worker_config, D.dataset = wc, Sub(0, check)
        g = types.SimpleNamespace(keyed=0)

        def add(sample, *key, src, fail_otherwise=False):
            g.keyed += 1
            P.prove_eq("the inner dataset rebuilds the sample from the rest of the key", SList(seq_of(sample.key)), K)
            P.prove("the same key is put on the sample again", and_(len(key) == 2, key[0] == gw, key[1] == ix, src is D))
            return sample
        self.patch_name("add_sample_restore_key", add)
        K, key = a_key(P, cls.__name__, gw, ix)
        try:
            r = D.restore_sample(key)
            P.cover("x")
            P.prove("the rebuilt sample is returned with its key", isinstance(r, Rebuilt) and g.keyed == 1)
        except ValueError:
            P.cover("fails")
            P.prove("errors are passed on", fails)
        P.prove("no worker stays active", WC.active_worker_config is None and WC._worker_override_global_rank is None)


class Keys(Contract):
    name = "set_sample_restore_key, add_sample_restore_key"
    covers = ("set", "add", "none")

    def run(self, P):
        src = Sub(0)
        K, key = a_key(P, "Inner")
        a, b = P.val("a"), P.val("b")
        which = P.choose(3)
        f = (set_sample_restore_key, add_sample_restore_key)[P.choose(2)]
        if which == 0:
            s = Sample.__new__(Sample)
            s.__restore_key__ = key
            get = lambda x: x.__restore_key__
        elif which == 1:
            s = {"__restore_key__": key, "other": 1}
            get = lambda x: x["__restore_key__"]
        else:
            s = P.val("plain value")
            if P.choose(2):
                try:
                    f(5, a, b, src=src, fail_otherwise=True)
                    P.prove("a value without a place for a key is refused if asked for", False)
                except RuntimeError:
                    pass
            P.prove("a value without a place for a key is left alone", f(5, a, b, src=src) == 5)
            P.cover("none")
            return
        r = f(s, a, b, src=src)
        P.prove("the sample itself is returned", r is s)
        parts = seq_of(get(r))
        P.prove("the key starts with the class and the given values", and_(parts.at(0) == "Sub", parts.at(1) == a, parts.at(2) == b))
        if f is set_sample_restore_key:
            P.cover("set")
            P.prove("and has nothing else", parts.n == 3)
        else:
            P.cover("add")
            P.prove_eq("and goes on with the key before", SList(seq_slice(parts, 3, parts.n)), SList(seq_of(key)))


CONTRACTS = [Keys, BlendRestore, ConcatRestore, IterMapRestore, PassedOn, LoaderRestore, c12.MapRestore, c09.BatchRestore, c10.GroupRestore, c11.PackingRestore,
             c12.SampleIndexCtx, c12.SampleIndexIter, c23.SeededCall, c23.SeededGen, c23.FewResults, c23.NotSeeded, c12.IterMapBounded, c12.MapIter, c12.MapGenIter,
             c14.ConcatIter, c14.BlendIter, c09.BatchIter, c09.BatchGenIter, c11.PackingIter, c11.PackingGenIter]
