"""C13: limits and virtual epochs."""
from lib import *
from megatron.energon.wrappers.limit_dataset import LimitDataset
from megatron.energon.wrappers.epochize_dataset import EpochizeDataset


def share_of(length, nw, w):
    return ite(nw <= 1, length, length // symmax(nw, 1) + ite(w < length % symmax(nw, 1), 1, 0))


class LimitIter(Contract):
    name = "LimitDataset.__iter__"
    covers = ("yield", "end")

    def run(self, P):
        wc, nw, w = worker(self, P)
        length = P.int("length", 0)
        n = P.int("inner_n", 0)
        inner = Inner(P, wc, n=n)
        L = LimitDataset(inner, length, worker_config=wc)
        o = P.int("offset", 0)
        inner.pos = o
        P.assume(o <= n)
        L._current_offset[w] = o
        share = share_of(length, nw, w)
        P.assume(o <= share)
        P.roots.update(L=L)
        g = P.ghost
        g.k = 0
        P.hints = lambda P: {"pos": o + g.k, "k": g.k}
        P.invs = lambda P: [("k", g.k >= 0), ("bound", o + g.k <= share), ("avail", o + g.k <= n)]
        for v in L:
            P.cover("yield")
            P.prove("the k-th sample yielded is the k-th sample of the inner dataset", v == inner.X.at(o + g.k))
            P.prove("no more samples than the share of the worker", o + g.k < share)
            P.prove("the offset counts the samples of this pass", L._current_offset[w] == o + g.k + 1)
            g.k = g.k + 1
        P.cover("end")
        P.prove("the pass ends at the share or at the end of the inner dataset", or_(o + g.k == share, o + g.k == n))
        P.prove("the offset starts over", L._current_offset[w] == 0)
        P.prove("the inner dataset starts over", inner.pos == 0)


class EpochizeIter(Contract):
    name = "EpochizeDataset.__iter__"
    covers = ("yield", "end")
    resume = True

    def run(self, P):
        wc, nw, w = worker(self, P)
        length = P.int("length", 0)
        inner = Passes(P, self, wc)
        E = EpochizeDataset(inner, length, worker_config=wc)
        share = share_of(length, nw, w)
        o = P.int("offset", 0)
        P.assume(or_(o < share, and_(o == 0, share == 0)))
        E._offset[w] = o
        c0 = P.int("consumed", 0)
        starts = []

        def infinite():
            starts.append(1)
            return StreamCursor(inner.Y, c0)
        E._infinite = infinite
        if P.choose(2):
            E._active_iter = StreamCursor(inner.Y, c0)
            starts.append(1)
        P.roots.update(E=E)
        g = P.ghost
        g.k = 0
        P.hints = lambda P: {"pos": c0 + g.k, "off": ite(o + g.k == share, 0, o + g.k), "k": g.k}
        P.invs = lambda P: [("k", g.k >= 0), ("bound", or_(o + g.k < share, and_(g.k > 0, o + g.k == share)))]
        for v in iter(E):
            P.cover("yield")
            P.prove("the samples continue the inner sequence where it was left", v == inner.Y.at(c0 + g.k))
            P.prove("no more samples than the share of the worker", o + g.k < share)
            P.prove("the offset counts the samples of this epoch", E._offset[w] == (o + g.k + 1) % symmax(share, 1))
            P.prove("the inner iterator is kept", E._active_iter.pos == c0 + g.k + 1)
            g.k = g.k + 1
        P.cover("end")
        P.prove("the epoch has the share of the worker", o + g.k == share)
        P.prove("the next epoch starts at its beginning", E._offset[w] == 0)
        P.prove("the inner sequence is entered at most once", len(starts) <= 1)
        if share > 0:
            P.prove("the inner sequence goes on in the next epoch", and_(E._active_iter is not None, E._active_iter.pos == c0 + g.k))


class EpochizeInfinite(Contract):
    name = "EpochizeDataset._infinite"
    covers = ("yield",)

    def run(self, P):
        wc, nw, w = worker(self, P)
        inner = Passes(P, self, wc)
        E = EpochizeDataset(inner, P.int("length", 0), worker_config=wc)
        c0 = inner.total
        P.roots.update(E=E)
        g = P.ghost
        g.k = 0
        P.hints = lambda P: {"pos": c0 + g.k, "k": g.k}
        P.invs = lambda P: [("k", g.k >= 0), ("in step", inner.total == c0 + g.k)]
        for v in E._infinite():
            P.cover("yield")
            P.prove("every value of every pass is yielded in order, without a gap", and_(v == inner.Y.at(c0 + g.k), inner.total == c0 + g.k + 1))
            g.k = g.k + 1
        P.prove("the sequence does not end", False)


class Shares(Contract):
    name = "shares of all workers"
    covers = ("sum",)

    def run(self, P):
        """Lemma over the shares proved above: they add up to the length and differ by at most one."""
        nw, length, w, v = P.int("num_workers", 1), P.int("length", 0), P.int("w", 0), P.int("v", 0)
        P.assume(and_(w < nw, v < nw))
        a, b = share_of(length, nw, w), share_of(length, nw, v)
        P.cover("sum")
        P.prove("shares of two workers differ by at most one", and_(a - b <= 1, b - a <= 1))
        # partial sums S(w) = sum of the first w shares = w*(length // nw) + min(w, length % nw): by induction over w
        q, r = length // nw, length % nw
        S = lambda i: i * q + ite(i < r, i, r)
        P.prove("partial sums: induction step", S(w) + share_of(length, nw, w) == S(w + 1))
        P.prove("partial sums: start and end", and_(S(0) == 0, S(nw) == length))


class LimitLen(Contract):
    name = "LimitDataset.__len__"
    covers = ("x",)

    def run(self, P):
        wc, nw, w = worker(self, P)
        inner = StateDS(P, wc)
        n = P.int("length", 0)
        P.cover("x")
        r = LimitDataset(inner, n, worker_config=wc).__len__()
        P.prove("the reported length is the limit or the inner length, if smaller", r == ite(n < inner.length, n, inner.length))
        P.prove("the reported epoch length is the length", EpochizeDataset(inner, n, worker_config=wc).__len__() == n)


class LimitState(RoundTrip):
    name = "LimitDataset save/merge/restore"

    def make(self, P, wc, tag):
        return LimitDataset(StateDS(P, wc), P.int("length", 0), worker_config=wc)

    def arbitrary(self, P, d, tag=""):
        d._current_offset = int_list(P, tag + "offset", d._current_offset.c.n)

    def view(self, P, d, i):
        return dict(offset=d._current_offset[i])


class EpochizeState(RoundTrip):
    name = "EpochizeDataset save/merge/restore"

    def make(self, P, wc, tag):
        return EpochizeDataset(StateDS(P, wc), P.int("length", 0), worker_config=wc)

    def arbitrary(self, P, d, tag=""):
        d._offset = int_list(P, tag + "offset", d._offset.c.n)
        if tag:
            d._active_iter = Box()

    def view(self, P, d, i):
        return dict(offset=d._offset[i], active=d._active_iter is None)


CONTRACTS = [LimitIter, EpochizeIter, EpochizeInfinite, Shares, LimitLen] + with_reset(LimitState, EpochizeState)
