"""C17: worker ids, seeds and sample indices."""
import torch.utils.data
from lib import *
import megatron.energon.worker as worker_module
from c12 import SampleIndexCtx, SampleIndexIter, SampleIndexIterNext, IndexState, sym_index


class Info:
    _stub = True

    def __init__(self, id, n):
        self.id, self.num_workers = id, n


class Ids(Contract):
    """The process of a rank number `id` of n (or the main process), with the workers rotated by an offset."""

    def process(self, P, nw, tag=""):
        o = P.int("rotation", 0)
        self.patch(WC, "worker_id_offset", o)
        self.cur = None
        self.patch(torch.utils.data, "get_worker_info", lambda: self.cur)
        return o

    def config(self, P, nw, tag=""):
        ws = P.int("world", 1)
        r = P.int("rank" + tag, 0)
        P.assume(r < ws)
        return WC(rank=r, world_size=ws, num_workers=nw, seed_offset=P.int("seed_offset"))


class RankWorkerId(Ids):
    name = "WorkerConfig.rank_worker_id"
    covers = ("worker", "main", "restoring")

    def run(self, P):
        nw = P.int("num_workers", 0)
        o = self.process(P, nw)
        wc = self.config(P, nw)
        c = P.choose(3)
        if c == 0:
            P.assume(and_(nw > 0, o < nw))
            i, j = P.int("process", 0), P.int("other_process", 0)
            P.assume(and_(i < nw, j < nw))
            self.cur = Info(i, nw)
            a = wc.rank_worker_id()
            P.cover("worker")
            P.prove("the id is below the number of workers", and_(a >= 0, a < nw))
            P.lemma("the workers are rotated by the offset", a == ite(i + o < nw, i + o, i + o - nw))
            self.cur = Info(j, nw)
            b = wc.rank_worker_id()
            P.prove("the workers of a rank have different ids", implies(i != j, a != b))
        elif c == 1:
            P.assume(o == 0)
            P.cover("main")
            P.prove("the main process is worker 0", wc.rank_worker_id() == 0)
        else:
            P.assume(o == 0)
            g = P.int("global", 0)
            self.patch(WC, "_worker_override_global_rank", g)
            P.cover("restoring")
            a = wc.rank_worker_id()
            P.prove("a restored sample sees the id of the worker which made it", a == g - (g // symmax(nw, 1)) * symmax(nw, 1))
            P.prove("a restored sample sees the global id of the worker which made it", wc.global_worker_id() == g)


class GlobalId(Ids):
    name = "WorkerConfig.global_worker_id"
    covers = ("given", "current")

    def run(self, P):
        nw = P.int("num_workers", 0)
        k = symmax(nw, 1)
        self.process(P, nw)
        a, b = self.config(P, nw), self.config(P, nw, "2")
        given = P.choose(2)
        P.cover("given" if given else "current")

        def gid(wc, i, o):
            if given:
                return wc.global_worker_id(i)
            wc.rank_worker_id = lambda: i
            wc.assert_worker = lambda: None
            return wc.global_worker_id()
        i, j = P.int("worker", 0), P.int("other", 0)
        P.assume(and_(i < k, j < k))
        x, y = gid(a, i, 0), gid(b, j, 0)
        P.lemma("the id is made of the rank and the id within the rank", x == a.rank * k + i)
        P.prove("the id is not negative", x >= 0)
        # ids of all workers: 0 .. world * k - 1, each once; products of two variables are written out by a lemma
        ws = a.world_size
        P.assume_value(implies(a.rank < b.rank, b.rank * k >= a.rank * k + k))           # (b - a) * k >= k for b - a >= 1, k >= 1
        P.assume_value(implies(b.rank < a.rank, a.rank * k >= b.rank * k + k))
        P.assume_value(ws * k >= a.rank * k + k)
        P.prove("workers have different ids", implies(or_(a.rank != b.rank, i != j), x != y))
        P.prove("ids are below the number of global workers", x < ws * k)


class Multiples(Contract):
    name = "products of ranks and numbers of workers (lemma)"
    covers = ("x",)

    def run(self, P):
        a, d, k = P.int("a", 0), P.int("d", 1), P.int("k", 1)
        P.cover("x")
        m = d - 1
        P.prove("d * k >= k for d >= 1: induction start", 1 * k >= k)
        s = P.int("s")      # s = m * k for some m >= 1 with s >= k
        P.assume(s >= k)
        P.prove("d * k >= k for d >= 1: induction step", s + k >= k)


class Digest:
    _stub = True

    def __init__(self, data):
        self.data = data

    def digest(self):
        return bytes(range(230, 250))


class Seeds(Ids):
    name = "WorkerConfig.worker_seed"
    covers = ("same", "current")
    assumptions = ("sha1 is a function of its input (its distribution is not looked at)",)

    def run(self, P):
        seen = []
        self.patch(worker_module, "hashlib", types.SimpleNamespace(sha1=lambda d: (seen.append(d), Digest(d))[1]))
        nw, nw2 = P.int("num_workers", 0), P.int("num_workers2", 0)
        self.process(P, nw)
        a, b = self.config(P, nw), self.config(P, nw2, "2")
        i, j = P.int("worker", 0), P.int("other", 0)
        P.assume(and_(i < symmax(nw, 1), j < symmax(nw2, 1)))
        for wc, k in ((a, i), (b, j)):
            wc.rank_worker_id = lambda k=k: k
            wc.assert_worker = lambda: None
        gx, gy = a.global_worker_id(), b.global_worker_id()
        x = a.worker_seed()
        P.cover("current")
        if gx == gy:
            y = b.worker_seed()
            P.cover("same")
            P.prove("a seed depends on the global worker id and the seed offset only", seen[-1] == seen[0])
            P.prove("a seed is a number of 32 bits", and_(x == y, 0 <= x, x < 2 ** 32))
        else:
            a.worker_seed(i)
            P.prove("the seed of a worker can be computed in advance", seen[-1] == seen[0])


class SampleNumbers(Ids):
    name = "WorkerConfig.active_worker_sample_index, active_worker_batch_index"
    covers = ("index",)

    def run(self, P):
        nw = P.int("num_workers", 0)
        k = symmax(nw, 1)
        wc = self.config(P, nw)
        which = P.choose(2)
        deeper = P.choose(2)
        cur = [None]
        wc.rank_worker_id = lambda: cur[0]

        def index(w, s):
            """As the loader and the wrappers activate it."""
            cur[0] = w
            wc.worker_activate(P.int("batch", 0) if not which else s)
            try:
                if not which or deeper:
                    wc.worker_push_sample_index(P.int("middle", 0))
                    wc.worker_push_sample_index(s if not which else P.int("deep", 0))
                r = wc.active_worker_batch_index if which else wc.active_worker_sample_index
                if not which or deeper:
                    P.prove("indices are popped in reverse order", wc.worker_pop_sample_index() == (s if not which else P.int("deep", 0)))
                    wc.worker_pop_sample_index()
            finally:
                wc.worker_deactivate()
            P.prove("nothing stays active", WC.active_worker_config is None and WC._sample_index_stack is None)
            return r
        self.patch(WC, "active_worker_config", None)
        self.patch(WC, "_sample_index_stack", None)
        self.patch(WC, "_worker_override_global_rank", None)
        w, v = P.int("worker", 0), P.int("other", 0)
        P.assume(and_(w < k, v < k))
        s, d = P.int("index", 0), P.int("distance", 0)
        x = index(w, s)
        y = index(v, s + d)
        P.cover("index")
        P.lemma("the index counts over all workers of the rank", x == s * k + w)
        P.assume_value(and_((s + d) * k == s * k + d * k, implies(d > 0, d * k >= k)))
        P.prove("indices are unique over the workers of a rank", implies(or_(d > 0, w != v), x != y))
        P.prove("indices of a worker increase", implies(and_(w == v, d > 0), y > x))


class GetNext(Contract):
    name = "SampleIndex.get_next"
    covers = ("x",)

    def run(self, P):
        wc, nw, w = worker(self, P)
        S = SampleIndex(wc, src=self)
        s0 = P.int("sample_index", 0)
        S._sample_index[w] = s0
        v = P.int("other", 0)
        P.assume(and_(v < symmax(nw, 1), v != w))
        before = S._sample_index[v]
        a = S.get_next()
        b = S.get_next()
        P.cover("x")
        P.prove("indexes are consecutive", and_(a == s0, b == s0 + 1, S.current_idx == s0 + 2))
        P.prove("the state is the index of the next sample", S.save_state() == s0 + 2)
        P.prove("the indexes of other workers are untouched", S._sample_index[v] == before)


CONTRACTS = [RankWorkerId, GlobalId, Multiples, Seeds, SampleNumbers, GetNext, SampleIndexCtx, SampleIndexIter, SampleIndexIterNext]
