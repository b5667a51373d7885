"""C10: batching by group.

The argument looks at one arbitrary group: `group` with the batch size bs.  What the dataset does to the bucket of this group is followed exactly;
the buckets of the other groups are arbitrary buckets with fewer samples than their batch size (what the argument shows of the group looked at)."""
from lib import *
import megatron.energon.wrappers.group_batch_dataset as group_module
from megatron.energon.wrappers.group_batch_dataset import GroupBatchDataset, Bucket, BucketState
from megatron.energon.wrappers.buffer import SampleBufferState
from c08 import Rows, key


def size_of(k):
    return SInt(z3.Function("batch_size_of", U, z3.IntSort())(box(k)))


class Buf:
    """Contract of SavableSampleBuffer (proved under C08), as a bucket uses it: a list of samples with their keys."""
    _stub = True

    def __init__(self, dataset=None, worker_config=None, batch_size=None, items=None):
        self.items = SList(Seq([])) if items is None else items
        self.started, self.real = False, None

    def append(self, s):
        if self.real is not None:
            return self.real.append(s)
        T.put(self, s)
        self.items.append(s)
        return s

    def sym_len(self):
        return s_len(self.items) if self.real is None else self.real.sym_len()

    def worker_start(self):
        (self.real or self).started = True

    def flush(self):
        if self.real is not None:
            return self.real.flush()
        xs, self.items = self.items, SList(Seq([]))
        T.flushed(self, xs)
        return xs, SList(Seq(n=s_len(xs), f=lambda i: key(xs[i])), True)


class Mine(Buf):
    """The buffer of the group looked at: samples base .. base + n of the group."""
    _ghost = True

    def __init__(self, n):
        self.n, self.started, self.real = n, False, None

    def append(self, s):
        T.put(self, s)
        self.n = self.n + 1
        return s

    def sym_len(self):
        return self.n

    def flush(self):
        a = T.g.base
        n = self.n
        xs = SList(Seq(n=n, f=lambda i: T.Y.at(a + i)))
        T.flushed(self, xs)
        self.n = 0
        return xs, SList(Seq(n=n, f=lambda i: key(T.Y.at(a + i))), True)


class Groups:
    """The dict of the worker's buckets (contract of dict)."""
    _stub = True
    _ghost = True

    def __init__(self, present, bucket):
        self.present, self._nosnap_bucket, self.cleared = present, bucket, 0

    def get(self, k, default=None):
        if k == T.K:
            return self._nosnap_bucket if bool(self.present) else default
        T.asked = k
        if T.P.choose(2):
            return default
        n = T.P.int(T.P.fresh_name("others"), 0)
        T.P.assume(n < T.size(k))
        O = T.P.stream(T.P.fresh_name("other"))
        return Bucket(batch_size=T.size(k), samples=Buf(items=SList(Seq(n=n, f=O.at))))

    def __setitem__(self, k, b):
        T.P.prove("a new bucket has the batch size of its group and is empty", and_(b.batch_size == T.size(k), s_len(b.samples) == 0))
        if k == T.K:
            T.P.prove("the bucket of a group is not replaced", not_(self.present))
            self.present = True
            self._nosnap_bucket.samples.n = 0
            b.samples.real = self._nosnap_bucket.samples

    def __getitem__(self, k):
        b = self.get(k)
        if b is None:
            raise KeyError(k)
        return b

    def __contains__(self, k):
        return self.get(k) is not None

    def setdefault(self, k, b):
        r = self.get(k)
        if r is None:
            self[k] = b
            return b
        return r

    def values(self):
        return All(self)

    def items(self):
        return All(self, lambda b: (T.K if b is self._nosnap_bucket else T.asked, b))

    def clear(self):
        self.present = False
        self._nosnap_bucket.samples.n = 0
        self.cleared = self.cleared + 1


class All(GenCursor):
    """Every bucket once, in any order: the group looked at comes after any number of others."""
    _ghost = True

    def __init__(self, groups, f=lambda b: b):
        self._nosnap_groups, self._nosnap_f, self.seen = groups, f, False
        T.alls.append(self)

    def step(self):
        G, P = self._nosnap_groups, T.P
        c = P.choose(3)
        if c == 0:
            if not bool(or_(self.seen, not_(G.present))):
                raise PathEnd
            return END
        if c == 1:
            if bool(or_(self.seen, not_(G.present))):
                raise PathEnd
            self.seen = True
            return self._nosnap_f(G._nosnap_bucket)
        k = app("other group", P.val(P.fresh_name("o")))
        P.assume(k != T.K)
        b = None
        T.asked = k
        n = P.int(P.fresh_name("others"), 0)
        P.assume(n < T.size(k))
        O = P.stream(P.fresh_name("other"))
        return self._nosnap_f(Bucket(batch_size=T.size(k), samples=Buf(items=SList(Seq(n=n, f=O.at)))))


class T:
    """What the stubs share."""


class GroupIter(Contract):
    covers = ("yield", "yield other", "end", "error handled", "key error handled", "fatal", "new")

    def __init__(self, fix, drop, left):
        self.fix, self.drop, self.left = fix, drop, left
        self.name = f"GroupBatchDataset.__iter__ ({'fixed batch size' if fix else 'batch size per group'}{', rest dropped' if drop else ''}{', only the rest left' if left else ''})"
        if left:
            self.covers = ("end",) + (("yield", "yield other", "error handled", "fatal", "rest") if not drop else ())

    def isinstance(self, P, v, cls):
        return False

    def run(self, P):
        self.patch_name("get_sample_restore_key", key)
        self.patch_name("compact_str", lambda *a: "sample")
        self.patch(group_module, "SavableSampleBuffer", Buf)
        wc, nw, w = worker(self, P)
        inner = Passes(P, self, wc)
        p0 = inner.total
        fixed = P.int("fixed_batch_size", 1) if self.fix else None
        drop = self.drop
        K = P.val("group")
        size = lambda k: size_of(k) if fixed is None else fixed
        bs = size(K)
        P.assume(bs >= 1)
        T.alls = []
        T.P, T.K, T.size, T.Y = P, K, size, P.stream("of_group")
        g = T.g = P.ghost
        g.base = g.calls = g.kcalls = 0
        g.pending = g.failed = g.fatal = g.owed = g.kfailed = False
        n0 = P.int("held", 0)
        P.assume(n0 < bs)
        g.c = n0
        present = P.bool("present")
        P.assume(implies(not_(present), n0 == 0))
        mine = Mine(n0)
        M = Groups(present, Bucket(batch_size=bs, samples=mine))
        depth = WC._sample_index_stack.sym_len()
        T.b_size, T.b_keyed, T.b_mine, T.b_owed_mine, T.xs = 0, False, False, False, None

        def idle(what):
            P.prove(f"{what}, everything before is done: the sample is in its bucket, its batch yielded or reported", not_(or_(g.owed, g.pending, g.failed, g.kfailed)))

        def group(s):
            idle("before the next sample is looked at")
            P.prove("every sample is looked at once, in order", and_(s == inner.Y.at(p0 + g.kcalls), inner.total == p0 + g.kcalls + 1))
            P.prove("the group function sees a sample index of its own", top() == k0 + g.kcalls)
            g.kcalls = g.kcalls + 1
            c = P.choose(8)
            if c < 2:
                k = K
                if c:
                    k = app("group of", s)
                    P.assume(and_(k != K, size(k) >= 1))
                else:
                    P.assume(s == T.Y.at(g.c))
                g.owed, T.b_owed_mine = True, not c
                return k, size_of(k) if fixed is None else None
            if c == 2:
                g.kfailed = True
                return K, None if fixed is None else bs       # no size or two sizes: an error
            if c == 3:
                g.kfailed = True
                raise ValueError("group function fails")
            if c == 4:
                raise SkipSample
            g.fatal = True
            raise (FatalSampleError("x") if c == 5 else MemoryError("x"))

        def put(buf, s):
            P.prove("a sample is put into a bucket once", and_(g.owed, s == inner.Y.at(inner.total - 1)))
            P.prove("a sample is put into the bucket of its group", iff(T.b_owed_mine, buf is mine))
            if buf is mine:
                P.cover("new")
                P.assume(s == T.Y.at(g.c))
                g.c = g.c + 1
            g.owed = False
        T.put = put

        def flushed(buf, xs):
            idle("before a batch is made")
            m = s_len(xs)
            T.b_mine = buf is mine
            T.b_size = m
            T.xs = xs
            full = m == (bs if buf is mine else size(T.asked))
            if not full:
                P.cover("rest")
                P.prove("a shorter batch is only made of the rest at the end, if it is not dropped", and_(not drop, m > 0, or_(left, inner.ended == 1), M.cleared == 0))
        T.flushed = flushed

        def fn(xs):
            P.prove("one batch for the samples taken from a bucket", not_(or_(g.pending, g.failed)))
            P.prove_eq("a batch is made of all samples taken from the bucket of one group, in order", xs, T.xs)
            P.prove("the batcher sees a sample index of its own", top() == b0 + g.calls)
            g.calls = g.calls + 1
            k = OUTCOMES[P.choose(5)]
            g.pending = k == "value"
            T.b_keyed = False
            g.failed = k == "error"
            g.fatal = k in ("fatal", "system")
            if T.b_mine and not g.pending and not g.failed:
                g.base = g.base + T.b_size
            outcome(P, k)
            return app("batch", g.calls)

        def set_key(sample, *k, src, fail_otherwise=False):
            P.prove("the key is set on the batch made last", and_(sample == app("batch", g.calls), src is D))
            parts = joined(k)
            P.prove("the key starts with the sample index of the batch", and_(parts.n == 1 + T.b_size, parts.at(0) == b0 + g.calls - 1))
            xs = T.xs
            P.prove_eq("the key goes on with the keys of the samples in the batch, in order", SList(seq_slice(parts, 1, parts.n)), SList(Seq(n=s_len(xs), f=lambda i: key(xs[i]))))
            T.b_keyed = True
            return sample
        self.patch_name("set_sample_restore_key", set_key)

        def handler(e, xs):
            if bool(g.kfailed):
                P.cover("key error handled")
                P.prove("the handler gets the sample whose group function fails", and_(isinstance(e, (ValueError, AssertionError)), s_len(xs) == 1, xs[0] == inner.Y.at(inner.total - 1)))
                g.kfailed = False
                return
            P.cover("error handled")
            P.prove("the handler gets the error", and_(g.failed, isinstance(e, ValueError)))
            P.prove_eq("the handler gets the samples of the failing batch", xs, T.xs)
            g.failed = False
            g.base = g.base + ite(T.b_mine, T.b_size, 0)
        D = GroupBatchDataset(inner, fixed, group, fn, error_handler=handler, drop_last=drop, worker_config=wc)
        b0 = P.int("batch_index0", 0)
        k0 = P.int("key_index0", 0)
        for x, v in ((D._batch_sample_index, b0), (D._group_key_sample_index, k0)):
            x._sample_index[w] = v
            x._rank
        D._buckets = Rows(w, M)
        left = self.left
        D._exhausted[w] = left
        P.free = ("base", "calls", "c", "n", "present", "seen", "started")
        P.roots.update(D=D, M=M, mine=mine)
        P.hints = lambda P: {"!batches|_batch_sample_index": b0 + g.calls, "!keys|_group_key_sample_index": k0 + g.kcalls}
        P.invs = lambda P: [("calls", g.calls >= 0), ("kcalls", g.kcalls >= 0), ("base", g.base >= 0), ("held", and_(mine.n == g.c - g.base, mine.n >= 0)), ("open", mine.n < bs),
                            ("avail", inner.total == p0 + g.kcalls), ("absent", implies(not_(M.present), mine.n == 0)),
                            ("idle", not_(or_(g.owed, g.pending, g.failed, g.kfailed, g.fatal))), ("cleared", M.cleared == 0),
                            ("seen", and_(*[implies(a.seen, mine.n == 0 if i else mine.started) for i, a in enumerate(T.alls)]))]
        try:
            for v in D:
                P.cover("yield")
                P.prove("each batch is yielded with its sample index and the keys of its own samples", and_(g.pending, v == app("batch", g.calls), T.b_keyed))
                P.prove("the sample indexes count the batches and the samples looked at", and_(D._batch_sample_index._sample_index[w] == b0 + g.calls,
                                                                                              D._group_key_sample_index._sample_index[w] == k0 + g.kcalls))
                P.prove("the samples of the batch yielded are no longer held, those after them are", mine.n == g.c - g.base - ite(T.b_mine, T.b_size, 0))
                P.prove("it is remembered whether only the rest was left", iff(D._exhausted[w], or_(left, inner.ended == 1)))
                if not bool(T.b_mine):
                    P.cover("yield other")
                g.base = g.base + ite(T.b_mine, T.b_size, 0)
                g.pending = False
            P.cover("end")
            idle("at the end")
            P.prove("all samples were looked at, in exactly one pass, or none if only the rest was left", and_(not_(inner.active), inner.ended == (0 if left else 1), inner.total == p0 + g.kcalls))
            if drop:
                P.prove("only an incomplete rest of the group is dropped", and_(g.c - g.base >= 0, g.c - g.base < bs))
            else:
                P.prove("every sample of the group is in a batch", g.c == g.base)
            P.prove("the next pass starts from the beginning, without samples", and_(not_(D._exhausted[w]), not_(M.present)))
        except FatalSampleError:
            P.cover("fatal")
            P.prove("only fatal errors stop the iteration", g.fatal)
        P.prove("the restored samples of the group are rebuilt", implies(present, mine.started))
        P.prove("no sample index stays active", WC._sample_index_stack.sym_len() == depth)


class GroupState(RoundTrip):
    name = "GroupBatchDataset save/merge/restore"
    bounded = "at most 2 workers and 2 groups per worker, with any number of samples each"

    def workers(self, P):
        return few_workers(P)

    def make(self, P, wc, tag):
        return GroupBatchDataset(StateDS(P, wc), None, lambda s: s, lambda b: b, worker_config=wc)

    def as_worker(self, P, d, i):
        for x in (d._batch_sample_index, d._group_key_sample_index):
            x._SampleIndex__rank = i

    def arbitrary(self, P, d, tag=""):
        N = max(d.worker_config.num_workers, 1)
        d._batch_sample_index._sample_index = int_list(P, tag + "batch_index", N)
        d._group_key_sample_index._sample_index = int_list(P, tag + "key_index", N)
        d._exhausted = [True] * N if tag else SList(P.bool_stream(tag + "exhausted", N))
        for i in range(N):
            for j in range(1 if tag else P.choose(3)):
                B = group_module.SavableSampleBuffer(d.dataset, worker_config=d.worker_config)
                B._SavableSampleBuffer__rank_id = i
                X = P.stream(f"{tag}keys.{i}.{j}", P.int(f"{tag}held.{i}.{j}", 0))
                B._restore_keys[i] = SList(X)
                d._buckets[i][f"group {j}" if not tag else f"group {j + 1}"] = Bucket(batch_size=P.int(f"{tag}batch_size.{j}", 1), samples=B)

    def view(self, P, d, i):
        row = list(d._buckets[i].items())
        out = dict(batch_index=d._batch_sample_index._sample_index[i], key_index=d._group_key_sample_index._sample_index[i], exhausted=d._exhausted[i], groups=len(row))
        for j in range(2):
            k, b = row[j] if j < len(row) else (None, None)
            out.update({f"key {j}": k, f"batch size {j}": None if b is None else b.batch_size, f"samples {j}": None if b is None else b.samples._restore_keys[i],
                        f"rebuilding {j}": None if b is None or d is not self.restored else b.samples._restore_pending})
        return out
    restored = None

    def _same(self, P, name, a, b, w):
        x = self.view(P, a, w)
        y = self.view(P, b, w)
        for k in x:
            if k.startswith("rebuilding"):
                continue
            P.prove_eq(f"{name}: {k}", x[k], y[k])
        for bucket in a._buckets[w].values():
            P.prove("the samples of a restored group are to be rebuilt", bucket.samples._restore_pending)


class GroupRestore(Contract):
    name = "GroupBatchDataset.restore_sample"
    covers = ("x",)

    def isinstance(self, P, v, cls):
        return False

    def run(self, P):
        wc, nw, w = worker(self, P)
        inner = StateDS(P, wc)
        i, m = P.int("key_index", 0), P.int("size", 1)
        K = P.stream("inner_key", m)

        def fn(xs):
            P.prove_eq("the batch is made again of the same samples, in order", xs, SList(Seq(n=m, f=lambda i: app("X.restore", K.at(i)))))
            P.prove("the batcher sees the same sample index", top() == i)
            return P.val("batch")
        self.keyed = False

        def set_key(sample, *k, src, fail_otherwise=False):
            parts = joined(k)
            P.prove("the key of the batch restored is the key asked for", and_(sample == P.val("batch"), src is D, parts.n == 1 + m, parts.at(0) == i))
            P.prove_eq("with the keys of the samples", SList(seq_slice(parts, 1, parts.n)), SList(K))
            self.keyed = True
            return sample
        self.patch_name("set_sample_restore_key", set_key)
        D = GroupBatchDataset(inner, None, lambda s: None, fn, batcher_stateless=True, worker_config=wc)
        x = D._batch_sample_index
        x._sample_index[w] = P.int("s0", 0)
        x._rank
        P.roots.update(D=D)
        r = D.restore_sample(SList(seq_concat(Seq(["GroupBatchDataset", i]), K), True))
        P.cover("x")
        P.prove("the batch named by the key", and_(r == P.val("batch"), self.keyed))
        P.prove("restoring counts no sample index", x.current_idx == P.int("s0", 0))


def variants():
    for fix in (True, False):
        for drop in (False, True):
            for left in (False, True):
                yield lambda a=(fix, drop, left): GroupIter(*a)


CONTRACTS = [GroupRestore] + with_reset(GroupState)
for v in variants():
    v.name = v().name
    CONTRACTS.append(v)
