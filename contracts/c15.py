"""C15: saving, merging and restoring a pipeline.

A pipeline is continued exactly for every worker if for each of its stages (1) what save_state writes, merge_states collects and restore_state
takes back is all the state of the worker that the iteration depends on (the state contracts), and (2) the iteration, started in any state, goes on
as that state says, and the state kept during the iteration is the one which belongs to the samples yielded so far (the iteration contracts, which
start in arbitrary states).  The inner stages are held by the same contracts."""
from lib import *
import c08, c09, c10, c11, c12, c13, c14, c17, c23
import megatron.energon.wrappers.gc_dataset as gc_module
from megatron.energon.wrappers.gc_dataset import GcDataset
from megatron.energon.wrappers.mix_batch_dataset import MixBatchDataset
from megatron.energon.wrappers.batch_dataset import BatchDataset
from megatron.energon.wrappers.blend_dataset import BlendDataset


def no_gc(self):
    nothing = lambda *a: None
    self.patch(gc_module, "gc", types.SimpleNamespace(collect=nothing, freeze=nothing, unfreeze=nothing))
    self.patch(gc_module, "torch", types.SimpleNamespace(utils=types.SimpleNamespace(data=types.SimpleNamespace(get_worker_info=nothing))))


class GcIter(Contract):
    name = "GcDataset.__iter__"
    covers = ("yield", "end")

    def run(self, P):
        no_gc(self)
        wc, nw, w = worker(self, P)
        n, p0 = P.int("n", 0), P.int("pos", 0)
        P.assume(p0 <= n)
        inner = Inner(P, wc, n=n, pos=p0)
        D = GcDataset(inner, worker_config=wc, every_n_iter=P.int("every", 1), freeze=bool(P.choose(2)))
        P.roots.update(D=D)
        g = P.ghost
        g.k = 0
        P.hints = lambda P: {"pos": p0 + g.k}
        P.invs = lambda P: [("k", g.k >= 0), ("avail", p0 + g.k <= n)]
        for v in D:
            P.cover("yield")
            P.prove("the samples are passed through in order", v == inner.X.at(p0 + g.k))
            P.prove("one sample is taken for each sample yielded", inner.pos == p0 + g.k + 1)
            g.k = g.k + 1
        P.cover("end")
        P.prove("all samples are passed through", p0 + g.k == n)


class Delegating(RoundTrip):
    def arbitrary(self, P, d, tag=""):
        pass

    def view(self, P, d, i):
        return {}


class GcState(Delegating):
    name = "GcDataset save/merge/restore"

    def make(self, P, wc, tag):
        return GcDataset(StateDS(P, wc), worker_config=wc)


class MixBatchState(Delegating):
    name = "MixBatchDataset save/merge/restore"

    def make(self, P, wc, tag):
        d = MixBatchDataset((StateDS(P, wc, "A"), 1.0), batch_size=2, worker_config=wc)
        d.dataset = StateDS(P, wc, "B")
        return d


class MixBatchParts(Contract):
    name = "MixBatchDataset: a batch dataset over a blend of the datasets"
    covers = ("x", "yield", "end")

    def run(self, P):
        wc, nw, w = worker(self, P)
        a, b = StateDS(P, wc, "A"), StateDS(P, wc, "B")
        bs = P.int("batch_size", 1)
        f = lambda x: x
        d = MixBatchDataset((a, 1.0), (b, 2.0), batch_size=bs, batch_mix_fn=f, worker_config=wc)
        P.cover("x")
        P.prove("a batch dataset of the given size and function", type(d.dataset) is BatchDataset and d.dataset.batcher is f and d.dataset.drop_last is False)
        P.prove("the batch size is the one given", d.dataset.batch_size == bs)
        B = d.dataset.dataset
        P.prove("over a blend of the datasets with their weights", type(B) is BlendDataset and len(B.dataset_weights) == 2 and B.dataset_weights[0][0] is a and B.dataset_weights[1][0] is b)
        n, p0 = P.int("n", 0), P.int("pos", 0)
        P.assume(p0 <= n)
        inner = Inner(P, wc, n=n, pos=p0)
        d.dataset = inner
        P.roots.update(d=d)
        g = P.ghost
        g.k = 0
        P.hints = lambda P: {"pos": p0 + g.k}
        P.invs = lambda P: [("k", g.k >= 0), ("avail", p0 + g.k <= n)]
        for v in d:
            P.cover("yield")
            P.prove("the batches are passed through in order", v == inner.X.at(p0 + g.k))
            g.k = g.k + 1
        P.cover("end")
        P.prove("all batches are passed through", p0 + g.k == n)


CONTRACTS = with_reset(c08.BufferState, c08.ShuffleState, c09.BatchState, c11.PackingState, c12.FilterState, c12.IterMapState, c12.MapState, c12.LogState,
                       c13.LimitState, c13.EpochizeState, c14.RepeatState, c14.ConcatState, c14.BlendState, GcState, MixBatchState)
CONTRACTS += [c23.WorkerState, GcIter, MixBatchParts, c12.SampleIndexCtx, c12.SampleIndexIter, c12.FilterIter, c12.MapIter, c12.MapGenIter, c12.MapGenResume, c12.LogIter,
              c13.LimitIter, c13.EpochizeIter, c13.EpochizeInfinite, c14.RepeatFinite, c14.RepeatInfinite, c14.ConcatIter, c14.BlendRepeat, c14.BlendIter,
              c09.BatchIter, c09.BatchGenIter, c09.BatchGenResume, c08.Ops, c08.Start, c08.AppendIter, c08.Restoring, c08.ShuffleIter]
CONTRACTS += c10.CONTRACTS + [c11.PackingIter, c11.PackingLeft, c11.PackingGenIter]
