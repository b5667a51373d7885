"""C11: packing.

The pre packer's result in round r is any list of np(r) packs; pack j has L(r, j) samples, E(r, off(r, j)), E(r, off(r, j) + 1), ... where off adds up the lengths."""
from lib import *
import megatron.energon.wrappers.packing_dataset as packing_module
from megatron.energon.wrappers.packing_dataset import PackingDataset
from c08 import BufStateStub, Rows, key
from c09 import BatchRestore

I = z3.IntSort()


class Packs:
    """What the pre packer gave in every round."""
    _stub = True

    def __init__(self, P):
        self.P = P
        self.f = dict(np=z3.Function("np", I, I), L=z3.Function("pack_len", I, I, I), off=z3.Function("pack_off", I, I, I), E=z3.Function("packed", I, I, U))

    def np(self, r):
        v = mkint(self.f["np"](num(r)))
        self.P.assume_value(v >= 0)
        return v

    def L(self, r, j):
        v = mkint(self.f["L"](num(r), num(j)))
        self.P.assume_value(v >= 0)
        return v

    def off(self, r, j):
        return mkint(self.f["off"](num(r), num(j)))

    def pack(self, r, j, f=lambda x: x):
        o = self.off(r, j)
        return Seq(n=self.L(r, j), f=lambda i: f(SVal(self.f["E"](num(r), num(o + i)))))

    def next(self, r, j):
        self.P.assume_value(self.off(r, j + 1) == self.off(r, j) + self.L(r, j))


class T:
    """What the stubs share."""


class Reading(Partial):
    """The reading buffer (contract of SavableSampleBuffer, proved under C08): it holds the last n samples taken from the inner dataset."""
    _ghost = True

    def __init__(self, inner, n):
        self.inner, self.n, self.started = inner, n, False

    def worker_start(self):
        self.started = True

    def sym_len(self):
        return self.n

    def append(self, s):
        P = T.P
        T.idle("before a sample is taken")
        P.prove("every sample taken is put into the buffer, once", and_(s == self.inner.Y.at(self.inner.total - 1), self.inner.total == T.g.read + 1))
        T.g.read = T.g.read + 1
        self.n = self.n + 1
        P.prove("the buffer holds at most the given number of samples", or_(self.n <= T.B))
        return s

    def __sym_seq__(self):
        a, n, Y = self.inner.total - self.n, self.n, self.inner.Y
        return Seq(n=n, f=lambda i: Y.at(a + i))

    def __iter__(self):
        raise Unsupported("iteration over the reading buffer")

    def clear(self):
        T.g.window = self.n
        self.n = 0


class Waiting(Partial):
    """The buffer of packs (contract of SavableSampleBuffer): the samples of packs `taken` .. `put` of the current round."""
    _ghost = True

    def __init__(self):
        self.started = False

    def worker_start(self):
        self.started = True

    def sym_len(self):
        return T.K.off(T.g.r, T.g.put) - T.K.off(T.g.r, T.g.taken)

    def extend(self, xs):
        g = T.g
        T.P.prove("the packs are put into the buffer in the order given, all of them once", and_(g.put < T.K.np(g.r), g.taken == 0))
        T.P.prove_eq("with all their samples", xs, SList(T.K.pack(g.r, g.put)))
        T.K.next(g.r, g.put)
        g.put = g.put + 1

    def first(self, s):
        g = T.g
        if not isinstance(s, slice) or s.start not in (None, 0) or s.step not in (None, 1):
            raise Unsupported("another part of the buffer")
        T.P.prove("exactly the first pack is taken", and_(g.taken < g.put, s.stop == T.K.L(g.r, g.taken)))

    def __getitem__(self, s):
        self.first(s)
        return SList(T.K.pack(T.g.r, T.g.taken))

    def __delitem__(self, s):
        self.first(s)
        T.K.next(T.g.r, T.g.taken)
        T.g.taken = T.g.taken + 1
        T.g.rounds = 0


class PackingIter(Contract):
    name = "PackingDataset.__iter__ (plain packer)"
    covers = ("yield", "end", "pre packer fails", "final packer fails", "fatal", "skip", "ten rounds")
    gen, left = False, False

    def isinstance(self, P, v, cls):
        return self.gen

    def run(self, P):
        self.patch_name("get_sample_restore_key", key)
        self.patch_name("compact_str", lambda *a: "sample")
        self.patch(packing_module, "inspect", types.SimpleNamespace(isgeneratorfunction=lambda f: self.gen))
        wc, nw, w = worker(self, P)
        inner = Passes(P, self, wc)
        B = P.int("buffer_size", 1)
        K = Packs(P)
        g = P.ghost
        T.P, T.K, T.g, T.B, T.out = P, K, g, B, None
        p0 = inner.total
        left = self.left
        g.read = p0
        n0 = P.int("reading0", 0)
        P.assume(n0 <= (0 if left else B))
        g.r = P.int("round0", 0)
        g.put = K.np(g.r)
        g.taken = P.int("taken0", 0)
        P.assume(g.taken <= g.put)
        g.final = g.taken
        g.window = g.pre = g.calls = g.empty = g.before = g.rounds = 0
        g.pending = g.failed = g.fatal = g.prefailed = g.open = False
        g.k = g.target = 0
        R, W = Reading(inner, n0), Waiting()
        lens = SList(Seq(n=g.put - g.taken, f=lambda j, r=g.r, t=g.taken: K.L(r, t + j)))
        depth = WC._sample_index_stack.sym_len()

        def idle(what):
            P.prove(f"{what}, all packs made before are finalised, and the result is yielded or reported", and_(g.final == g.taken, not_(or_(g.pending, g.failed, g.prefailed))))
            P.prove(f"{what}, all samples taken from the reading buffer were given to the pre packer", g.window == 0)
        T.idle = idle

        def pre(xs):
            n = g.window
            P.prove("a window is only packed after all packs of the window before are finalised", and_(g.put == K.np(g.r), g.taken == g.put, g.final == g.taken))
            P.prove("the pre packer gets the samples taken since the window before, in order, none left out", and_(n > 0, inner.total == g.read, n <= B))
            a = g.read - n
            P.prove_eq("the pre packer gets the samples taken since the window before, in order, none left out", xs, SList(Seq(n=n, f=lambda i: inner.Y.at(a + i))))
            P.prove("a window has the size given, except for the last one", or_(n == B, inner.ended == 1))
            P.prove("the pre packer sees a sample index of its own", top() == a0 + g.pre)
            g.pre = g.pre + 1
            g.r = g.r + 1
            g.window = 0
            g.put = g.taken = g.final = 0
            g.before, g.rounds = g.empty, g.rounds + 1
            k = OUTCOMES[P.choose(5)]
            if k == "value":
                np = K.np(g.r)
                g.empty = ite(np == 0, g.empty + 1, 0)
            else:
                P.assume(K.np(g.r) == 0)
                g.empty = g.empty + 1
            g.prefailed = k == "error"
            T.xs = xs
            g.fatal = k in ("fatal", "system")
            outcome(P, k)
            P.assume_value(K.off(g.r, 0) == 0)
            r = g.r
            return SList(Seq(n=K.np(r), f=lambda j: SList(K.pack(r, j))))

        def final(xs):
            P.prove("the packs are finalised in order, each once", g.final + 1 == g.taken)
            P.prove("all packs of the window are known before the first one is finalised", g.put == K.np(g.r))
            P.prove_eq("a pack is made of exactly its own samples", xs, SList(K.pack(g.r, g.final)))
            P.prove("the result before is yielded or reported", not_(or_(g.pending, g.failed, g.open)))
            P.prove("the final packer sees a sample index of its own", top() == b0 + g.calls)
            g.calls = g.calls + 1
            k = OUTCOMES[P.choose(5)]
            g.pending = k == "value" and not self.gen
            T.keyed = False
            g.failed = k == "error"
            g.fatal = k in ("fatal", "system")
            T.out = app("pack", g.calls)
            if k in ("skip", "fatal", "system"):
                g.final = g.final + 1
            if k == "skip":
                P.cover("skip")
            outcome(P, k)
            return self.made(P, g)

        def set_key(sample, *k, src, fail_otherwise=False):
            self.check_key(P, g, K, D, b0, sample, joined(k), src)
            T.keyed = True
            return sample
        self.patch_name("set_sample_restore_key", set_key)

        def handler(e, xs):
            P.prove("the handler gets the error", and_(or_(g.failed, g.prefailed), isinstance(e, ValueError)))
            if bool(g.prefailed):
                P.cover("pre packer fails")
                P.prove_eq("the handler gets the samples of the failing window", xs, T.xs)
                g.prefailed = False
                return
            P.cover("final packer fails")
            P.prove_eq("the handler gets the samples of the failing pack", xs, SList(K.pack(g.r, g.final)))
            g.failed = False
            g.final = g.final + 1
        D = PackingDataset(inner, B, pre, final, error_handler=handler, worker_config=wc)
        a0, b0 = P.int("pre_index0", 0), P.int("final_index0", 0)
        for x, v in ((D._pre_packing_sample_index, a0), (D._final_packing_sample_index, b0)):
            x._sample_index[w] = v
            x._rank
        D._reading_buffer, D._pre_packing_buffer = R, W
        D._pre_packing_lengths = Rows(w, lens)
        D._exhausted[w] = left
        P.roots.update(D=D, lens=lens, R=R, W=W)
        P.free = ("read", "r", "taken", "final", "window", "pre", "calls", "empty", "before", "rounds", "n", "total", "ended", "active", "pulled_in_pass", "done", "pending", "open")
        P.preset = P.free + ("put",)
        P.hints = lambda P: {"!rounds|pre_pack_round": g.rounds + 0, "!lens|lens.[*]": SList(Seq(n=g.put - g.taken, f=lambda j, r=g.r, t=g.taken: K.L(r, t + j))),
                             "!pre|_pre_packing_sample_index._sample_index.[*]": a0 + g.pre, "!final|_final_packing_sample_index._sample_index.[*]": b0 + g.calls}
        P.invs = lambda P: [("packs", and_(g.r >= 0, g.taken >= 0, g.taken <= g.put, g.put <= K.np(g.r))), ("all put", g.put == K.np(g.r)), ("empty", implies(g.put == g.taken, g.empty >= g.rounds)), ("rounds", g.rounds == 0), ("counts", and_(g.pre >= 0, g.calls >= 0, g.empty >= 0)),
                            ("read", and_(inner.total == g.read, R.n >= 0, R.n <= B)), ("final", g.final == ite(g.open, g.taken - 1, g.taken)), ("closed", not_(g.open)), ("window", g.window == 0), ("read all", implies(inner.ended == 1, R.n == 0)),
                            ("ended", and_(inner.ended >= 0, inner.ended <= 1, iff(inner.ended == 1, not_(inner.active)))),
                            ("idle", not_(or_(g.pending, g.failed, g.fatal, g.prefailed)))] + self.more_invs(P, g)
        try:
            for v in D:
                P.cover("yield")
                P.prove("each result is yielded with its sample index and the keys of its own samples", and_(g.pending, v == self.result(g), T.keyed))
                T.keyed = False
                P.prove("what is still to be finalised is held", and_(g.final + 1 == g.taken, g.put == K.np(g.r)))
                P.prove_eq("the lengths of the packs held are remembered", lens, SList(Seq(n=K.np(g.r) - g.taken, f=lambda j, r=g.r, t=g.taken: K.L(r, t + j))))
                P.prove("the sample indexes count the windows and packs", and_(D._pre_packing_sample_index._sample_index[w] == a0 + g.pre,
                                                                              D._final_packing_sample_index._sample_index[w] == b0 + g.calls))
                P.prove("it is remembered whether all samples were taken", iff(D._exhausted[w], or_(left, inner.ended == 1)))
                P.prove("no sample waits if all samples were taken", implies(D._exhausted[w], R.n == 0))
                self.taken(P, g)
            P.cover("end")
            idle("at the end")
            P.prove("all packs are finalised", and_(g.put == K.np(g.r), g.taken == g.put))
            P.prove("all samples were given to the pre packer", and_(inner.total == g.read, R.n == 0))
            P.prove("exactly one pass over the inner dataset, or none if all samples were taken before", and_(inner.ended == (0 if left else 1), True if not left else inner.total == p0))
            P.prove("the next pass starts from the beginning", not_(D._exhausted[w]))
        except FatalSampleError:
            P.cover("fatal")
            P.prove("only fatal errors stop the iteration", g.fatal)
        except RuntimeError:
            P.cover("ten rounds")
            P.prove("the iteration gives up after ten windows without packs only", g.before >= 10)
        P.prove("restored samples are rebuilt", and_(R.started, W.started))
        P.prove("no sample index stays active", WC._sample_index_stack.sym_len() == depth)

    def result(self, g):
        return app("pack", g.calls)

    def made(self, P, g):
        return self.result(g)

    def more_invs(self, P, g):
        return []

    def taken(self, P, g):
        g.final = g.final + 1
        g.pending = False

    def check_key(self, P, g, K, D, b0, sample, parts, src):
        P.prove("the key is set on the result made last", and_(sample == self.result(g), src is D))
        ks = K.pack(g.r, g.final, key)
        P.prove("the key starts with the sample index of the pack", and_(parts.n == 1 + ks.n, parts.at(0) == b0 + g.calls - 1))
        P.prove_eq("the key goes on with the keys of the samples in the pack, in order", SList(seq_slice(parts, 1, parts.n)), SList(ks))


class PackingLeft(PackingIter):
    """All samples were taken before (state of a pass which only had packs left)."""
    name = "PackingDataset.__iter__ (plain packer, only packs left)"
    covers = ("yield", "end", "final packer fails", "fatal", "skip")
    left = True


class Made(Results):
    """The results of a final packer which is a generator function."""

    def step(self):
        g = self._nosnap_g
        try:
            r = Results.step(self)
        except SkipSample:
            T.P.cover("skip")
            g.final = g.final + 1
            raise
        if r is END:
            g.final = g.final + 1
        return r


class PackingGenIter(PackingIter):
    name = "PackingDataset.__iter__ (generator packer)"
    gen = True

    def run(self, P):
        IterCtxStub(self)
        super().run(P)

    def made(self, P, g):
        g.k = 0
        g.open = True
        return Made(P, g, app("pack", g.calls))

    def more_invs(self, P, g):
        return [("k", g.k >= 0)]

    def result(self, g):
        return app("gen", app("pack", g.calls), g.k - 1)

    def taken(self, P, g):
        g.pending = False

    def check_key(self, P, g, K, D, b0, sample, parts, src):
        P.prove("the key is set on the result made last", and_(sample == self.result(g), src is D))
        ks = K.pack(g.r, g.final, key)
        P.prove("the key starts with the sample index of the pack and the number of the result", and_(parts.n == 2 + ks.n, parts.at(0) == b0 + g.calls - 1, parts.at(1) == g.k - 1))
        P.prove_eq("the key goes on with the keys of the samples in the pack, in order", SList(seq_slice(parts, 2, parts.n)), SList(ks))


class PackingRestore(BatchRestore):
    name = "PackingDataset.restore_sample"
    module, cls = packing_module, "PackingDataset"

    def make(self, P, wc, inner, fn):
        return PackingDataset(inner, P.int("buffer_size", 1), lambda xs: [], fn, final_packer_stateless=True, worker_config=wc)

    def index(self, D):
        return D._final_packing_sample_index


class PackingState(RoundTrip):
    name = "PackingDataset save/merge/restore"
    fresh = None

    def make(self, P, wc, tag):
        d = PackingDataset(StateDS(P, wc), P.int("buffer_size", 1), lambda xs: [], lambda x: x, worker_config=wc)
        d._reading_buffer, d._pre_packing_buffer = BufStateStub(wc, "reading"), BufStateStub(wc, "waiting")
        return d

    def as_worker(self, P, d, i):
        d._pre_packing_sample_index._SampleIndex__rank = i
        d._final_packing_sample_index._SampleIndex__rank = i

    def arbitrary(self, P, d, tag=""):
        n = symmax(d.worker_config.num_workers, 1)
        d._pre_packing_sample_index._sample_index = int_list(P, tag + "pre_index", n)
        d._final_packing_sample_index._sample_index = int_list(P, tag + "final_index", n)
        d._exhausted = SList(P.bool_stream(tag + "exhausted", n))
        m = z3.Function(tag + "held", I, I)
        L = z3.Function(tag + "held_len", I, I, I)

        def row(i):
            k = mkint(m(num(i)))
            P.assume_value(k >= 0)
            return SList(Seq(n=k, f=lambda j: mkint(L(num(i), num(j)))))
        d._pre_packing_lengths = SList(Seq(n=n, f=row))

    def view(self, P, d, i):
        out = dict(pre_index=d._pre_packing_sample_index._sample_index[i], final_index=d._final_packing_sample_index._sample_index[i], exhausted=d._exhausted[i],
                   lengths=d._pre_packing_lengths[i])
        for k, x in (("the samples read", d._reading_buffer), ("the packs", d._pre_packing_buffer)):
            r = x.restored
            if isinstance(r, Merged):
                r = r.states[i]
            elif r == "nothing":
                r = None if d is self.fresh else x.save_state()
            out[k] = r
        return out

    def _same(self, P, name, a, b, w):
        self.fresh = b if "beginning" in name else None
        super()._same(P, name, a, b, w)


CONTRACTS = [PackingIter, PackingLeft, PackingGenIter, PackingRestore] + with_reset(PackingState)
