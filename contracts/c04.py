"""C04: the sample reader of a worker yields every sample of its slices once per epoch, and a saved state continues exactly there.

The reader of one slice (_read_multicolumn_shard: C05 for one column, C26 for several) yields arbitrary samples and ends at an arbitrary point.
The contract of _shards_iter is a monitor over the readers: which slice each of them was opened on, where it is, which ones are open."""
from lib import *
from eng import Cursor
import megatron.energon.flavors.webdataset.sample_loader as loader_module
from megatron.energon.flavors.webdataset.sample_loader import WebdatasetSampleLoaderDataset as Loader, SampleLoaderState, SampleLoaderMergedState
from megatron.energon.flavors.webdataset.structs import ShardInfo, ShardState

I = z3.IntSort()
COLUMNS = 2


class Slices:
    """The slices of the worker: slice i is a group of one shard per column."""

    def __init__(self, P, n, name="", columns=1):
        self.P, self.columns, self.name = P, columns, name
        self.n = n
        self.off, self.cnt = z3.Function(name + "slice_offset", I, I), z3.Function(name + "slice_count", I, I)

    def count(self, i):
        v = mkint(self.cnt(num(i)))
        self.P.assume_value(v >= 1)
        return v

    def info(self, i, c):
        return ShardInfo(name=i, path=f"path{c}", offset=mkint(self.off(num(i))), count=self.count(i))

    def at(self, i):
        return SList(Seq([self.info(i, c) for c in range(self.columns)]))

    def list(self):
        return SList(Seq(n=self.n, f=self.at))


class CState(ShardState):
    """The state of a reader as the specification has it."""
    _stub = True

    def __init__(self, r, c):
        self.__dict__.update(_nosnap_r=r, _nosnap_c=c)

    shard = property(lambda self: self._nosnap_r._nosnap_T.slices.info(self._nosnap_r.q, self._nosnap_c))
    offset = property(lambda self: self._nosnap_r.off)
    byte_offset = property(lambda self: self._nosnap_r.boff)


class Reader(GenCursor):
    """The iterator over the samples of one slice."""
    _ghost = True

    def __init__(self, T, j):
        self._nosnap_T = T
        self._ref = self._nosnap_j = f"reader{j}"
        self._nosnap_cs = [CState(self, c) for c in range(T.slices.columns)]
        self._nosnap_live = []
        self.q = self.off = self.boff = self.given = 0
        self.open = False
        T.P.refs[self._nosnap_j] = self

    def states(self):
        return SList(Seq(list(self._nosnap_cs)))

    def step(self):
        T = self._nosnap_T
        g = T.P.ghost
        T.P.prove("an open reader is read", self.open)
        T.P.prove("no sample is taken from a reader before the last one was yielded", not_(g.waiting))
        if self.given == (T.SAMPLES if g.e < 2 else 1) or g.e < 2 and T.P.choose(2):
            self.open = False
            return END
        self.given += 1
        self.off = T.P.int(T.P.fresh_name("off"), 0)
        self.boff = T.P.int(T.P.fresh_name("boff"), 0)
        for s in self._nosnap_live:
            s.offset, s.byte_offset = self.off, self.boff
        g.waiting = True
        g.last = app("sample", self.q, self.off)
        return g.last


for _j in range(4):
    globals()[f"Reader{_j}"] = type(f"Reader{_j}", (Reader,), {"_ref": f"reader{_j}"})


class Torch(Partial):
    """Contract of the tensor of weights: a list of numbers of fixed length."""
    float32 = float = "float32"

    def __init__(self, T):
        self.T = T

    def empty(self, n, dtype=None, **k):
        return Weights(self.T, [self.T.P.int(self.T.P.fresh_name("uninitialised")) for _ in range(n)])

    def zeros(self, n, dtype=None, **k):
        return Weights(self.T, [0] * n)

    def count_nonzero(self, w):
        r = 0
        for x in w.all():
            r = r + ite(x == 0, 0, 1)
        return Box(item=lambda: r)


class Weights:
    def __init__(self, T, xs):
        self._nosnap_T, self._nosnap_n = T, len(xs)
        for i, x in enumerate(xs):
            setattr(self, f"weight{i}", x)

    def all(self):
        return [getattr(self, f"weight{i}") for i in range(self._nosnap_n)]

    def __len__(self):
        return self._nosnap_n

    def __getitem__(self, i):
        return self.all()[i]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if (i.start, i.stop, i.step) != (None, None, None):
                raise Unsupported("slice of weights")
            for j in range(self._nosnap_n):
                setattr(self, f"weight{j}", v)
        else:
            self._nosnap_T.P.prove("there is a weight for every parallel iterator", and_(i >= 0, i < self._nosnap_n))
            setattr(self, f"weight{int(i)}", v)


class Row:
    """A list with an entry per worker, of which only the one of this worker is used."""
    def __init__(self, T, w, v):
        self._nosnap_T, self._nosnap_w = T, w
        self.v = v

    def _at(self, i):
        self._nosnap_T.P.prove("only the counters of the worker are touched", i == self._nosnap_w)

    def __getitem__(self, i):
        self._at(i)
        return self.v

    def __setitem__(self, i, v):
        self._at(i)
        self.v = v


class Rng(Partial):
    """Contract of WorkerRng (C23)."""
    _stub = True

    def __init__(self, T):
        self.T = T

    def choice(self, l, probs=None):
        T = self.T
        xs = seq_of(l).items
        if not isinstance(probs, Weights):
            raise Unsupported("choice without weights")
        w = probs.all()
        T.P.prove("there is a weight for every parallel iterator", len(w) == len(xs))
        for x, p in zip(xs, w):
            # proportional to the size of its slice, or not at all
            if isinstance(x, Reader):
                T.P.prove("the weight of a slice is its number of samples", p == T.slices.count(x.q))
            else:
                T.P.prove("nothing is drawn from a place without iterator", p == 0)
        j = T.P.choose(len(xs))
        T.P.assume(w[j] > 0)
        return xs[j]

    def randbelow(self, n):
        T = self.T
        T.P.prove("slices are drawn from all slices", n == T.slices.n)
        r = T.P.int(T.P.fresh_name("drawn"), 0)
        T.P.assume(r < n)
        T.drawn = r
        return r


class ShardsIter(Contract):
    name = "WebdatasetSampleLoaderDataset._shards_iter"
    assumptions = ("every slice has samples (the sharder leaves out empty slices: C01)", "torch weights are treated as exact numbers")
    covers = ("yield", "a slice is opened", "end of an epoch", "resumed")

    def __init__(self, p, mode, resumed):
        self.p, self.mode, self.resumed = p, mode, resumed
        self.name += f" [{p} parallel, {mode}{', resumed' if resumed else ''}]"
        self.covers = tuple(x for x in self.covers if (x != "end of an epoch" or mode != "replacement") and (x != "resumed" or resumed))
        self.bounded = f"{p} parallel iterators, 2 columns, 2 worker processes, {self.SLICES} slices, {self.SAMPLES} samples of a slice and 2 epochs (1 sample per slice in the second, which is left out for several slices read in parallel) at most; every order of the slices, every choice among the iterators"

    SLICES = property(lambda self: 2 if self.p == 1 else 3)
    SAMPLES = property(lambda self: 2 if self.p == 1 else 1)

    def unroll(self, loop_id):
        return True

    def run(self, P):
        nw, w = few_workers(P) if not self.resumed and self.p == 1 else (2, 1) if self.resumed else (0, 0)
        wc, nw, w = worker(self, P, nw, w)
        self.P = P
        p = self.p
        S = self.slices = Slices(P, 1 + P.choose(self.SLICES) if p == 1 or not self.resumed and self.mode != "replacement" else 2, columns=1 + P.choose(COLUMNS) if p == 1 else 1)
        few = p > 1 and S.n > 1
        opens = []
        shuf = {"in order": None, "replacement": -1}.get(self.mode) if self.mode != "shuffled" else 1 if few else 1 + P.choose(2)
        loop = self.mode == "replacement" or not few and P.choose(2) == 0
        D = Loader.__new__(Loader)
        D.worker_config = wc
        D.shards = SList(Seq([SList(Seq([])) for _ in range(max(nw, 1))]))
        D.loop, D.shuffle_over_epochs, D.parallel_shard_iters = loop, shuf, p
        D.dataset_join_method, D.exclude, D.part_filter, D.handler = "inner_match", set(), None, None
        D._worker_rng = Rng(self)
        self.patch(loader_module, "torch", Torch(self))
        rs = self.readers = [globals()[f"Reader{j}"](self, j) for j in range(p)]
        g = P.ghost
        # order of the slices in epoch e: order(e, 0) .. order(e, m-1); the first t of them have been opened
        order = z3.Function("order", I, I, I)

        def Q(e, i):
            v = mkint(order(num(e), num(i)))
            P.assume_value(and_(v >= 0, v < S.n))
            return v
        g.e, g.t, g.m = 0, 0, 0
        g.waiting = False
        g.last = P.val("none yet")
        g.k = 0
        self.drawn = None
        resuming = []
        counts = [P.int(n, 0) for n in ("sample_count", "epoch_count", "epoch_sample_count")]
        D._sample_count, D._epoch_count, D._epoch_sample_count = (Row(self, w, v) for v in counts)
        pending = lambda: Seq(n=g.m - g.t, f=lambda i: S.at(Q(g.e, g.m - 1 - i)))
        other = lambda i: SList(Seq([None] * p))
        if self.resumed:
            P.cover("resumed")
            g.m, g.t = 2, 2 - P.choose(3 if self.mode != "replacement" else 1)
            acts = []
            for j, r in enumerate(rs):
                if P.choose(2):
                    r.q, r.off, r.boff, r.open = P.int(f"q{j}", 0), P.int(f"off{j}", 0), P.int(f"boff{j}", 0), True
                    P.assume(r.q < S.n)
                    r._nosnap_live = [ShardState(shard=S.info(r.q, c), offset=r.off, byte_offset=r.boff) for c in range(S.columns)]
                    acts.append(SList(Seq(list(r._nosnap_live))))
                    resuming.append(r)
                else:
                    acts.append(None)
            if not resuming or len(resuming) < p and (g.t < g.m or self.mode == "replacement"):
                raise PathEnd
            act0, pend0 = SList(Seq(acts)), SList(pending())
        else:
            act0, pend0 = other(0), SList(Seq([]))
        D._active_shards_state = SList(Seq([act0 if i == w else SList(Seq([None] * p)) for i in range(max(nw, 1))]))
        D._pending_shards = SList(Seq([pend0 if i == w else SList(Seq([])) for i in range(max(nw, 1))]))
        shards = S.list()

        def once(l):
            P.prove("an epoch starts only when all of the one before is done", and_(g.t == g.m, *[not_(r.open) for r in rs]))
            P.prove("an epoch consists of the slices of the worker", l is shards or seq_of(l) is shards.c)
            g.e = g.e + 1
            if g.e == 3:
                raise PathEnd
            g.t = 0
            if self.mode == "in order":
                g.m = S.n
            elif self.mode == "replacement":
                g.m = p
            else:
                g.m = S.n * shuf
            e, m = g.e, g.m
            return SList(Seq(n=m, f=lambda i: S.at(Q(e, i))))
        D._shards_once = once

        def read(states):
            if resuming:
                r = resuming.pop(0)
                P.prove_eq("a reader of a restored state continues where it was", states, SList(Seq(list(r._nosnap_cs))))
                r._nosnap_live = list(seq_of(states).items)
                return r
            P.cover("a slice is opened")
            opens.append(1)
            if len(opens) > 4 and self.mode == "replacement":
                raise PathEnd
            free = [r for r in rs if not r.open]
            P.prove("no more slices are open than asked for", len(free) > 0)
            if not free:
                raise PathEnd
            r = free[0]
            if self.mode == "replacement" and g.t == g.m:
                q = self.drawn
                P.prove("a slice was drawn", q is not None)
                self.drawn = None
            else:
                P.prove("no slice is opened twice", g.t < g.m)
                q = Q(g.e, g.t)
                g.t = g.t + 1
            r.q, r.off, r.boff, r.open, r.given = q, 0, 0, True, 0
            P.prove_eq("every slice is read from its start, in the order of the epoch", states, SList(Seq(list(r._nosnap_cs))))
            r._nosnap_live = list(seq_of(states).items)
            return r
        D._read_multicolumn_shard = read
        P.roots.update(D=D, **{f"R{j}": r for j, r in enumerate(rs)})
        opened = lambda: [r if r.open else None for r in rs]
        n0, e0 = counts[0], counts[1]
        for sample in D._shards_iter(shards):
            P.cover("yield")
            P.prove("every sample read is yielded, unchanged", and_(g.waiting, sample == g.last))
            g.waiting = False
            P.prove_eq("the saved active slices are those being read, at the positions reached", D._active_shards_state[w], SList(Seq([None if r is None else r.states() for r in opened()])))
            P.prove_eq("the saved pending slices are those not opened yet, in order", D._pending_shards[w], SList(pending()))
            g.k = g.k + 1
            if self.mode == "replacement" and g.k == 3:
                raise PathEnd
            P.prove("the samples are counted", and_(D._sample_count.v == counts[0] + g.k))
        P.cover("end of an epoch")
        P.prove("the iteration ends only without looping", not loop)
        P.prove("all slices were read to the end", and_(g.t == g.m, *[not_(r.open) for r in rs]))
        P.prove("no sample is left", not_(g.waiting))


class ShardsOnce(Contract):
    name = "WebdatasetSampleLoaderDataset._shards_once"
    covers = ("in order", "replacement", "shuffled", "refused")
    bounded = "shuffling over 3 epochs and 3 parallel iterators at most (the number of slices is any)"

    def run(self, P):
        wc, nw, w = worker(self, P)
        S = self.slices = Slices(P, P.int("n", 1))
        self.P = P
        D = Loader.__new__(Loader)
        D.worker_config, D.parallel_shard_iters = wc, 1 + P.choose(3)
        D.shuffle_over_epochs = k = (None, -1, 1, 2, 3, 0)[P.choose(6)]
        D._worker_rng = rng = Rng(self)
        drawn, below = [], rng.randbelow

        def randbelow(n):
            drawn.append(below(n))
            return drawn[-1]
        rng.randbelow = randbelow
        shuffled = []

        def shuffle(l):
            shuffled.append(l)
            return SList(Seq(n=seq_of(l).n, f=lambda i: app("shuffled", i)))
        rng.shuffle = shuffle
        shards = S.list()
        try:
            r = D._shards_once(shards)
        except ValueError:
            P.cover("refused")
            P.prove("only an impossible setting is refused", k == 0)
            P.prove_eq("the slices of the worker stay as they are", shards, S.list())
            return
        P.prove("an impossible setting is refused", k != 0)
        P.prove("the result is a new list", r is not shards)
        if k is None:
            P.cover("in order")
            P.prove_eq("all slices in order", r, S.list())
        elif k == -1:
            P.cover("replacement")
            P.prove("one drawn slice for every parallel iterator", and_(r.sym_len() == D.parallel_shard_iters if isinstance(r, SList) else len(r) == D.parallel_shard_iters, len(drawn) == D.parallel_shard_iters))
            for i, q in enumerate(drawn):
                P.prove_eq("the drawn slice", r[i], S.at(q))
        else:
            P.cover("shuffled")
            P.prove("the slices are shuffled once", len(shuffled) == 1)
            l = seq_of(shuffled[0])
            P.prove("every slice once per epoch", l.n == S.n * k)
            i, e = P.int("slice", 0), P.int("epoch", 0)
            P.assume(and_(i < S.n, e < k))
            P.prove_eq("every slice once per epoch", l.at(e * S.n + i), S.at(i))
            P.prove("the shuffled slices are the result", r.sym_len() == S.n * k)
        P.prove_eq("the slices of the worker stay as they are", shards, S.list())


class LoaderRng(RngStub):
    n_restores = 0

    def restore_state(self, s):
        self.restored, self.n_restores = s, self.n_restores + 1


class LoaderRoundTrip(RoundTrip):
    name = "WebdatasetSampleLoaderDataset: save/merge/restore"
    bounded = "2 workers with 2 slices each, 2 columns and 2 parallel iterators at most; any offsets, counts and positions"

    def workers(self, P):
        return few_workers(P)

    def make(self, P, wc, tag):
        n = max(wc.num_workers, 1)
        if tag == "a":
            self.cols, self.par = 1 + P.choose(2), 1 + P.choose(2)
        cnt = lambda i, j: P.int(f"count{i}.{j}", 1)
        self.wc = wc
        self.patch(loader_module, "WorkerRng", lambda wc: LoaderRng(wc, "rng"))
        return Loader([[[ShardInfo(name=f"s{i}.{j}.{c}", path=f"path{c}", offset=5 * j, count=cnt(i, j)) for c in range(self.cols)] for j in range(2)] for i in range(n)],
                      worker_config=wc, exclude=set(), parallel_shard_iters=self.par)

    def arbitrary(self, P, d, tag=""):
        w = d.worker_config.rank_worker_id()
        for i in range(len(d.shards)):
            # the other worker: any one state
            pend = [[1, 0], [], [0]][P.choose(3)] if i == w and not tag else [i % 2]
            d._pending_shards[i] = [d.shards[i][j] for j in pend]
            d._active_shards_state[i] = [None if (P.choose(2) if i == w and not tag else a == 1) else
                                         [ShardState(shard=s, offset=P.int(f"{tag}off{i}.{a}.{c}", 0), byte_offset=P.int(f"{tag}boff{i}.{a}.{c}", 0)) for c, s in enumerate(d.shards[i][a])] for a in range(self.par)]
            d._sample_count[i], d._epoch_count[i], d._epoch_sample_count[i] = (P.int(f"{tag}{n}{i}", 0) for n in ("samples", "epochs", "epoch_samples"))

    def inner(self, d):
        return [d._worker_rng]

    def view(self, P, d, i):
        return dict(pending=SList(Seq(list(seq_of(d._pending_shards[i]).items) if isinstance(d._pending_shards[i], SList) else d._pending_shards[i])),
                    active=SList(Seq([None if a is None else SList(Seq([SList(Seq([s.shard, s.offset, s.byte_offset])) for s in a])) for a in d._active_shards_state[i]])),
                    slices=SList(Seq(list(d.shards[i]))),
                    samples=d._sample_count[i], epochs=d._epoch_count[i], in_epoch=d._epoch_sample_count[i])


class LoaderSnapshot(Contract):
    """A saved state does not change when the dataset goes on."""
    name = "WebdatasetSampleLoaderDataset.save_state"
    bounded = LoaderRoundTrip.bounded
    covers = ("saved",)

    def run(self, P):
        rt = LoaderRoundTrip()
        wc, nw, w = worker(self, P, *few_workers(P))
        d = rt.make(P, wc, "a")
        self._patches = getattr(self, "_patches", []) + getattr(rt, "_patches", [])
        rt.arbitrary(P, d)
        s = d.save_state()
        P.cover("saved")
        st = lambda: (s.sample_count, s.epoch_count, s.epoch_sample_count, [list(x) for x in s.pending_shards], [None if a is None else [(x.shard, x.offset, x.byte_offset) for x in a] for a in s.active_shards])
        flat = lambda x: SList(Seq([flat(y) for y in x])) if isinstance(x, (list, tuple)) else SList(Seq([flat(y) for y in x.c.items])) if isinstance(x, SList) and x.c.concrete() else x
        before = flat(st())
        for a in d._active_shards_state[w]:
            for x in a or ():
                x.offset = x.offset + 1
                x.byte_offset = x.byte_offset + 512
        if len(d._pending_shards[w]) > 0:
            d._pending_shards[w].pop()
        d._active_shards_state[w][0] = None
        d._sample_count[w] += 1
        P.prove_eq("a saved state stays as it is when the iteration goes on", flat(st()), before)


class RestoreSample(Contract):
    name = "WebdatasetSampleLoaderDataset.restore_sample"
    covers = ("restored", "without column", "other columns")
    bounded = "3 columns at most"

    def run(self, P):
        wc, nw, w = worker(self, P)
        n = 1 + P.choose(3)
        D = Loader.__new__(Loader)
        D.worker_config = wc
        name = lambda i, c: f"shard{i}.{c}"
        D.shards = [[[ShardInfo(name=name(i, c), path=f"path{i}.{c}", offset=0, count=7) for c in range(n)] for i in range(2)]]
        D._shard_paths_by_name = None
        k = P.choose(2)
        offs = [P.int("offset0", 0)] + [P.int(f"offset{c}", -1) for c in range(1, n)]
        sample = P.val("sample")
        g = types.SimpleNamespace(closed=False)

        def read(states):
            P.cover("restored")
            P.prove("a reader per column", len(states) == n)
            for c, (s, o) in enumerate(zip(states, offs)):
                P.prove("of the shard named by the key", and_(s.shard.name == name(k, c), s.shard.path == f"path{k}.{c}"))
                P.prove("at the sample of the key, which is the only one read", and_(s.shard.offset == ite(o >= 0, o, 0), s.shard.count == ite(o >= 0, 1, 0), s.offset == 0, s.byte_offset == 0, s.shard.byte_offset is None, s.shard.byte_size is None))
            try:
                yield sample
                P.prove("nothing more is read", False)
            finally:
                g.closed = True
        D._read_multicolumn_shard = read
        wrong = P.choose(2)
        key = ("Webdataset",) + tuple(x for c in range(n) for x in (name(k, c), offs[c]))
        if wrong:
            P.cover("other columns")
            try:
                D.restore_sample(key + ("more", 3))
                P.prove("a key of other columns is refused", False)
            except AssertionError:
                pass
            return
        if P.choose(2) and n > 1:
            P.cover("without column")
        r = D.restore_sample(key)
        P.prove("the sample read is the result", r == sample)
        P.prove("the reader is closed", g.closed)
        P.prove("nothing is needed to restore samples", D.can_restore_sample() is True)


def _si(p, mode, resumed):
    def make():
        return ShardsIter(p, mode, resumed)
    make.name = ShardsIter.name + f" [{p} parallel, {mode}{', resumed' if resumed else ''}]"
    return make


CONTRACTS = [_si(1, "in order", False), _si(1, "in order", True), _si(2, "shuffled", False), _si(2, "shuffled", True), _si(2, "replacement", False), _si(2, "replacement", True),
             ShardsOnce, *with_reset(LoaderRoundTrip), LoaderSnapshot, RestoreSample]
