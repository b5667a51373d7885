"""C09: batching."""
from lib import *
import megatron.energon.wrappers.batch_dataset as batch_module
from megatron.energon.wrappers.batch_dataset import BatchDataset


def key(s):
    return app("key", s)


class BatchIter(Contract):
    """ghost base: number of input samples which belong to finished batches; batch i of the pass is made of X[base .. base + size)."""
    name = "BatchDataset.__iter__ (plain batcher)"
    covers = ("yield", "end", "error handled", "fatal", "rest", "rest dropped")

    def isinstance(self, P, v, cls):
        return False

    def run(self, P):
        self.patch_name("get_sample_restore_key", key)
        self.patch_name("compact_str", lambda *a: "sample")
        wc, nw, w = worker(self, P)
        n, p0, B = P.int("n", 0), P.int("pos", 0), P.int("batch_size", 1)
        P.assume(p0 <= n)
        inner = Inner(P, wc, n=n, pos=p0)
        g = P.ghost
        g.base = p0
        g.calls = g.size = 0
        g.pending = g.failed = g.fatal = g.rest = g.keyed = False
        drop = bool(P.choose(2))
        depth = WC._sample_index_stack.sym_len()
        part = lambda a, m, f=lambda x: x: Seq(n=m, f=lambda i: f(inner.X.at(a + i)))

        def fn(xs):
            P.prove("a batch is yielded, or its failure reported, before the next one is made", not_(or_(g.pending, g.failed, g.rest)))
            size = xs.sym_len()
            if size == B:
                P.prove("a batch is only made of samples which arrived", g.base + size == inner.pos)
            else:
                P.cover("rest")
                g.rest = True
                P.prove("a shorter batch is only made of the rest at the end, if it is not dropped", and_(not drop, size > 0, size < B, inner.pos == n, g.base + size == n))
            P.prove_eq("a batch is made of the next samples, in order", xs, SList(part(g.base, size)))
            P.prove("the batcher sees a sample index of its own", top() == s0 + g.calls)
            g.calls = g.calls + 1
            g.size = size
            k = OUTCOMES[P.choose(5)]
            g.pending = k == "value"
            g.keyed = False
            g.failed = k == "error"
            g.fatal = k in ("fatal", "system")
            if not g.pending and not g.failed:
                g.base = g.base + size
            outcome(P, k)
            return app("batch", g.base)

        def set_key(sample, *k, src, fail_otherwise=False):
            P.prove("the key is set on the batch made last", and_(sample == app("batch", g.base), src is D))
            parts = joined(k)
            P.prove("the key starts with the sample index of the batch", and_(parts.n == 1 + g.size, parts.at(0) == s0 + g.calls - 1))
            P.prove_eq("the key goes on with the keys of the samples in the batch, in order", SList(seq_slice(parts, 1, parts.n)), SList(part(g.base, g.size, key)))
            g.keyed = True
            return sample
        self.patch_name("set_sample_restore_key", set_key)

        def handler(e, xs):
            P.cover("error handled")
            P.prove("the handler gets the error", and_(g.failed, isinstance(e, ValueError)))
            P.prove_eq("the handler gets the samples of the failing batch", xs, SList(part(g.base, g.size)))
            g.failed = False
            g.base = g.base + g.size
        D = BatchDataset(inner, B, fn, error_handler=handler, drop_last=drop, worker_config=wc)
        s0 = used_index(P, D, w)
        ex = P.choose(2)
        if ex:
            P.assume(p0 == n)
            D._exhausted[w] = True
        P.roots.update(D=D)
        P.hints = lambda P: {"pos|pos": g.base, "idx|sample_index": s0 + g.calls,
                             "batch": SList(Seq(n=inner.pos - g.base, f=lambda i: inner.X.at(g.base + i))),
                             "keys": SList(Seq(n=inner.pos - g.base, f=lambda i: key(inner.X.at(g.base + i))))}
        P.invs = lambda P: [("calls", g.calls >= 0), ("base", and_(g.base >= p0, g.base <= inner.pos)), ("avail", inner.pos <= n), ("open", inner.pos - g.base < B)]
        try:
            for v in D:
                P.cover("yield")
                P.prove("each batch is yielded with its sample index and the keys of its own samples", and_(g.pending, v == app("batch", g.base), g.keyed))
                P.prove("the sample index counts the batches", D._sample_index._sample_index[w] == s0 + g.calls)
                P.prove("it is remembered whether only the rest was left", iff(D._exhausted[w], g.rest))
                P.prove("no generator is remembered for a plain batch", and_(D._generator_offsets[w] is None, D._generator_sample_keys[w] is None))
                g.base = g.base + g.size
                g.pending = False
            P.cover("end")
            P.prove("all samples were taken", inner.pos == n)
            if drop:
                P.cover("rest dropped")
                P.prove("only an incomplete rest is dropped", and_(n - g.base >= 0, n - g.base < B))
            else:
                P.prove("every sample is in a batch", g.base == n)
            P.prove("nothing is left over", not_(or_(g.pending, g.failed, g.fatal)))
            P.prove("the next pass starts from the beginning", not_(D._exhausted[w]))
        except FatalSampleError:
            P.cover("fatal")
            P.prove("only fatal errors stop the iteration", g.fatal)
        P.prove("no sample index stays active", WC._sample_index_stack.sym_len() == depth)


class BatchGenIter(Contract):
    name = "BatchDataset.__iter__ (generator batcher)"
    covers = ("yield", "end", "error handled", "fatal")
    resume = False

    def run(self, P):
        self.patch_name("get_sample_restore_key", key)
        self.patch_name("compact_str", lambda *a: "sample")
        self.patch(batch_module, "inspect", types.SimpleNamespace(isgeneratorfunction=lambda f: True))
        IterCtxStub(self)
        wc, nw, w = worker(self, P)
        n, p0, B = P.int("n", 0), P.int("pos", 0), P.int("batch_size", 1)
        P.assume(p0 <= n)
        inner = Inner(P, wc, n=n, pos=p0)
        m = P.int("resumed_size", 1)
        K, O = P.stream("resume_key", m), P.int("resume_offset", 0)
        g = P.ghost
        g.base = p0
        g.calls = g.size = g.k = g.target = g.idx = 0
        g.pending = g.failed = g.fatal = g.open = g.keyed = g.resumed = g.old = False
        drop = bool(P.choose(2))
        s1 = P.int("sample_index", 1)
        part = lambda a, m, f=lambda x: x: Seq(n=m, f=lambda i: f(inner.X.at(a + i)))

        def batch_now():
            return Seq(n=m, f=lambda i: app("X.restore", K.at(i))) if bool(g.old) else part(g.base, g.size)

        def keys_now():
            return K if bool(g.old) else part(g.base, g.size, key)

        def done():
            """The batch under way is finished."""
            if not bool(g.old):
                g.base = g.base + g.size
            g.old = False

        class Made(Results):
            def step(self):
                try:
                    r = Results.step(self)
                except SkipSample:
                    done()
                    raise
                if r is END:
                    done()
                return r

        def fn(xs):
            P.prove("all results of a batch are yielded before the next one is made", not_(or_(g.pending, g.failed, g.open)))
            g.k = 0
            size = xs.sym_len()
            if bool(g.resumed):
                P.cover("resumed")
                g.resumed = False
                g.old = True
                g.target = O
                g.idx = s1 - 1
                P.prove_eq("the batch whose results were not finished is rebuilt from its keys", xs, SList(batch_now()))
                P.prove("the batcher sees the same sample index as before", top() == s1 - 1)
            else:
                g.old = False
                g.target = 0
                g.idx = s1 + g.calls
                g.size = size
                if size == B:
                    P.prove("a batch is only made of samples which arrived", g.base + size == inner.pos)
                else:
                    P.prove("a shorter batch is only made of the rest at the end, if it is not dropped", and_(not drop, size > 0, size < B, inner.pos == n, g.base + size == n))
                P.prove_eq("a batch is made of the next samples, in order", xs, SList(part(g.base, size)))
                P.prove("the batcher sees a sample index of its own", top() == s1 + g.calls)
                g.calls = g.calls + 1
            k = OUTCOMES[P.choose(5)]
            g.failed = k == "error"
            g.fatal = k in ("fatal", "system")
            if k == "skip":
                done()
            outcome(P, k)
            g.open = True
            return Made(P, g, app("batch", g.base, g.old))

        def set_key(sample, *k, src, fail_otherwise=False):
            P.prove("the key is set on the result made last", and_(sample == app("gen", app("batch", g.base, g.old), g.k - 1), src is D))
            parts = joined(k)
            ks = keys_now()
            P.prove("the key starts with the sample index of the batch and the number of the result", and_(parts.n == 2 + ks.n, parts.at(0) == g.idx, parts.at(1) == g.k - 1))
            P.prove_eq("the key goes on with the keys of the samples in the batch, in order", SList(seq_slice(parts, 2, parts.n)), SList(ks))
            g.keyed = True
            return sample
        self.patch_name("set_sample_restore_key", set_key)

        def handler(e, xs):
            P.cover("error handled")
            P.prove("the handler gets the error", and_(g.failed, isinstance(e, ValueError)))
            P.prove_eq("the handler gets the samples of the failing batch", xs, SList(batch_now()))
            P.prove("no generator is remembered after a failure", and_(D._generator_offsets[w] is None, D._generator_sample_keys[w] is None))
            g.failed = False
            done()
        D = BatchDataset(inner, B, fn, error_handler=handler, drop_last=drop, worker_config=wc)
        used_index(P, D, w)
        P.assume(s1 == D._sample_index._sample_index[w] + 0)
        D._sample_index._sample_index[w] = s1
        if self.resume:
            # the samples still to come are the other contract's matter: what is left of the resumed batch would show up in the rest
            P.assume(p0 == n)
            D._generator_sample_keys[w] = SList(K)
            D._generator_offsets[w] = O
            g.resumed = True
            ex = P.choose(2)
            if ex:
                D._exhausted[w] = True
        P.roots.update(D=D)
        P.hints = lambda P: {"pos|pos": g.base, "idx|sample_index": s1 + g.calls, "off|offsets": g.k,
                             "batch": SList(Seq(n=inner.pos - g.base, f=lambda i: inner.X.at(g.base + i))),
                             "keys": SList(Seq(n=inner.pos - g.base, f=lambda i: key(inner.X.at(g.base + i))))}
        P.invs = lambda P: [("calls", g.calls >= 0), ("base", and_(g.base >= p0, g.base <= inner.pos)), ("avail", inner.pos <= n), ("open", inner.pos - g.base < B), ("k", g.k >= 0)]
        try:
            for v in D:
                P.cover("yield")
                P.prove("the results are yielded in order, with their keys", and_(g.pending, g.keyed, v == app("gen", app("batch", g.base, g.old), g.k - 1)))
                P.prove("no result is repeated", g.k > g.target)
                P.prove("the number of results yielded is remembered", D._generator_offsets[w] == g.k)
                P.prove_eq("the keys of the samples in the batch are remembered", D._generator_sample_keys[w], SList(keys_now()))
                g.pending = False
                g.keyed = False
            P.cover("end")
            P.prove("all samples were taken", inner.pos == n)
            P.prove("every sample is in a batch", and_(n - g.base >= 0, n - g.base < B) if drop else g.base == n)
            P.prove("nothing is left over", not_(or_(g.pending, g.failed, g.fatal, g.open, g.resumed)))
            P.prove("no generator is remembered after the end", and_(D._generator_offsets[w] is None, D._generator_sample_keys[w] is None))
            P.prove("the next pass starts from the beginning", not_(D._exhausted[w]))
        except FatalSampleError:
            P.cover("fatal")
            P.prove("only fatal errors stop the iteration", g.fatal)


class BatchGenResume(BatchGenIter):
    name = "BatchDataset.__iter__ (generator batcher, resumed within the results of a batch)"
    covers = BatchGenIter.covers + ("resumed",)
    resume = True


class BatchLen(Contract):
    name = "BatchDataset.__len__"
    covers = ("x",)

    def run(self, P):
        wc, nw, w = worker(self, P)
        inner = StateDS(P, wc)
        B = P.int("batch_size", 1)
        drop = bool(P.choose(2))
        n, N = inner.length, symmax(nw, 1)
        P.cover("x")
        r = BatchDataset(inner, B, lambda b: b, drop_last=drop, worker_config=wc).__len__()
        b = lambda s: s // B if drop else s // B + ite(s % B == 0, 0, 1)
        q, rest = n // N, n % N
        P.prove("the sum over all workers of the batches made of the share of the worker (lemma of C13: rest workers have one sample more)",
                r == b(q) * (N - rest) + b(q + 1) * rest)


class BatchState(RoundTrip):
    name = "BatchDataset save/merge/restore"

    def make(self, P, wc, tag):
        return BatchDataset(StateDS(P, wc), P.int("batch_size", 1), lambda b: b, worker_config=wc)

    def as_worker(self, P, d, i):
        d._sample_index._SampleIndex__rank = i

    def arbitrary(self, P, d, tag=""):
        n = d._generator_offsets.c.n
        d._sample_index._sample_index = int_list(P, tag + "sample_index", n)
        d._exhausted = SList(P.bool_stream(tag + "exhausted", n))
        act = P.bool_stream(tag + "active", n)
        off, ks = P.int_stream(tag + "off", n, lambda i, v: v >= 0), P.stream(tag + "key", n)
        d._generator_offsets = SList(Seq(n=n, f=lambda i: off.at(i) if act.at(i) else None))
        d._generator_sample_keys = SList(Seq(n=n, f=lambda i: ks.at(i) if act.at(i) else None))

    def view(self, P, d, i):
        return dict(sample_index=d._sample_index._sample_index[i], key=d._generator_sample_keys[i], offset=d._generator_offsets[i], exhausted=d._exhausted[i])


class BatchRestore(Contract):
    name = "BatchDataset.restore_sample"
    covers = ("plain", "generator")
    module, cls = batch_module, "BatchDataset"

    def make(self, P, wc, inner, fn):
        return BatchDataset(inner, P.int("batch_size", 1), fn, batcher_stateless=True, worker_config=wc)

    def index(self, D):
        return D._sample_index

    def isinstance(self, P, v, cls):
        return False

    def run(self, P):
        gen = P.choose(2)
        self.patch(self.module, "inspect", types.SimpleNamespace(isgeneratorfunction=lambda f: bool(gen)))
        IterCtxStub(self)
        wc, nw, w = worker(self, P)
        inner = StateDS(P, wc)
        i, j, m, n = P.int("key_index", 0), P.int("key_local", 0), P.int("size", 1), P.int("results", 0)
        K = P.stream("inner_key", m)
        P.assume(j < n)
        g = P.ghost
        g.k = 0
        g.keyed = False

        def fn(xs):
            P.prove_eq("the batch is made again of the same samples, in order", xs, SList(Seq(n=m, f=lambda i: app("X.restore", K.at(i)))))
            P.prove("the batcher sees the same sample index", top() == i)
            return Produce() if gen else P.val("batch")

        class Produce(GenCursor):
            _ghost = True

            def step(self):
                P.prove("the generator sees the same sample index", top() == i)
                if not (g.k < n):
                    return END
                g.k = g.k + 1
                return app("gen", g.k - 1)
        want = app("gen", j) if gen else P.val("batch")

        def set_key(sample, *k, src, fail_otherwise=False):
            parts = joined(k)
            h = 2 if gen else 1
            P.prove("the key of the batch restored is the key asked for", and_(sample == want, src is D, parts.n == h + m, parts.at(0) == i))
            if gen:
                P.prove("with the number of the result", parts.at(1) == j)
            P.prove_eq("with the keys of the samples", SList(seq_slice(parts, h, parts.n)), SList(K))
            g.keyed = True
            return sample
        self.patch_name("set_sample_restore_key", set_key)
        P.invs = lambda P: [("not reached", g.k <= j), ("n", g.k <= n)]
        D = self.make(P, wc, inner, fn)
        ix = self.index(D)
        s0 = P.int("sample_index", 0)
        ix._sample_index[w] = s0
        ix._rank
        P.roots.update(D=D)
        index = SList(seq_concat(Seq([self.cls, i] + ([j] if gen else [])), K), True)
        r = D.restore_sample(index)
        P.cover("generator" if gen else "plain")
        P.prove("the batch named by the key", and_(r == want, g.keyed))
        P.prove("restoring counts no sample index", ix.current_idx == s0)


CONTRACTS = [BatchIter, BatchGenIter, BatchGenResume, BatchLen, BatchRestore] + with_reset(BatchState)
