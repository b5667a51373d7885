"""C12: mapping and filtering."""
from lib import *
import megatron.energon.wrappers.map_dataset as map_module
from megatron.energon.errors import FatalSampleError
from megatron.energon.worker import WorkerConfig as WC
from megatron.energon.wrappers.base import SampleIndex
from megatron.energon.wrappers.filter_dataset import FilterDataset
from megatron.energon.wrappers.map_dataset import MapDataset
from megatron.energon.wrappers.iter_map_dataset import IterMapDataset
from megatron.energon.wrappers.log_sample_dataset import LogSampleDataset
from megatron.energon.wrappers.skip import SkipSample


class FilterIter(Contract):
    name = "FilterDataset.__iter__"
    covers = ("yield", "end", "asked")

    def run(self, P):
        wc, nw, w = worker(self, P)
        n, p0 = P.int("n", 0), P.int("pos", 0)
        P.assume(p0 <= n)
        inner = Inner(P, wc, n=n, pos=p0)
        g = P.ghost
        g.calls = 0
        g.pending = False

        def fn(v):
            P.cover("asked")
            P.prove("an accepted sample is yielded before the next one is looked at", not_(g.pending))
            P.prove("every sample is given to the filter once, in order", and_(v == inner.X.at(p0 + g.calls), inner.pos == p0 + g.calls + 1))
            P.prove("the filter sees a sample index of its own", top() == s0 + g.calls)
            g.calls = g.calls + 1
            g.pending = predicate("accept", v)
            return g.pending
        F = FilterDataset(inner, filter_fn=fn, worker_config=wc)
        s0 = used_index(P, F, w)
        P.roots.update(F=F)
        P.hints = lambda P: {"pos": p0 + g.calls, "idx": s0 + g.calls}
        P.invs = lambda P: [("calls", g.calls >= 0), ("avail", p0 + g.calls <= n), ("done", not_(g.pending))]
        depth = WC._sample_index_stack.sym_len()
        for v in F:
            P.cover("yield")
            P.prove("only accepted samples are yielded, unchanged and in order", and_(g.pending, v == inner.X.at(p0 + g.calls - 1)))
            P.prove("the sample index counts the samples looked at", F._sample_index._sample_index[w] == s0 + g.calls)
            g.pending = False
        P.cover("end")
        P.prove("all samples were looked at", p0 + g.calls == n)
        P.prove("the last accepted sample is yielded", not_(g.pending))
        P.prove("no sample index stays active", WC._sample_index_stack.sym_len() == depth)


class MapIter(Contract):
    name = "MapDataset.__iter__ (plain function)"
    covers = ("yield", "end", "error handled", "fatal")

    def isinstance(self, P, v, cls):
        return False      # a plain value

    def run(self, P):
        self.patch_name("add_sample_restore_key", add_key)
        self.patch_name("compact_str", lambda *a: "sample")
        wc, nw, w = worker(self, P)
        n, p0 = P.int("n", 0), P.int("pos", 0)
        P.assume(p0 <= n)
        inner = Inner(P, wc, n=n, pos=p0)
        g = P.ghost
        g.calls = 0
        g.pending = g.failed = g.fatal = False
        depth = WC._sample_index_stack.sym_len()

        def fn(v):
            P.prove("a result is yielded before the next sample is mapped", not_(g.pending))
            P.prove("a failure is reported before the next sample is mapped", not_(g.failed))
            P.prove("every sample is mapped once, in order", and_(v == inner.X.at(p0 + g.calls), inner.pos == p0 + g.calls + 1))
            P.prove("the function sees a sample index of its own", top() == s0 + g.calls)
            g.calls = g.calls + 1
            k = OUTCOMES[P.choose(5)]
            g.pending = k == "value"
            g.failed = k == "error"
            g.fatal = k in ("fatal", "system")
            outcome(P, k)
            return app("map", v)

        def handler(e, v):
            P.cover("error handled")
            P.prove("the handler gets the failing sample", and_(g.failed, v == inner.X.at(p0 + g.calls - 1)))
            P.prove("the handler gets the error", isinstance(e, ValueError))
            g.failed = False
        M = MapDataset(inner, fn, error_handler=handler, worker_config=wc)
        s0 = used_index(P, M, w)
        P.roots.update(M=M)
        P.hints = lambda P: {"pos": p0 + g.calls, "idx": s0 + g.calls}
        P.invs = lambda P: [("calls", g.calls >= 0), ("avail", p0 + g.calls <= n)]
        try:
            for v in M:
                P.cover("yield")
                P.prove("the result for the last sample is yielded, with its sample index in the key", and_(g.pending, v == add_key(app("map", inner.X.at(p0 + g.calls - 1)), s0 + g.calls - 1, src=M)))
                P.prove("the sample index counts the samples mapped", M._sample_index._sample_index[w] == s0 + g.calls)
                P.prove("no generator is remembered for a plain result", and_(M._generator_offsets[w] is None, M._generator_sample_keys[w] is None))
                g.pending = False
            P.cover("end")
            P.prove("all samples were mapped", p0 + g.calls == n)
            P.prove("the last result is yielded, the last failure reported", and_(not_(g.pending), not_(g.failed)))
            P.prove("fatal errors stop the iteration", not_(g.fatal))
        except FatalSampleError:
            P.cover("fatal")
            P.prove("only fatal errors stop the iteration", g.fatal)
        P.prove("no sample index stays active", WC._sample_index_stack.sym_len() == depth)


class MapGenIter(Contract):
    name = "MapDataset.__iter__ (generator function)"
    covers = ("yield", "end", "error handled", "fatal")
    resume = False
    assumptions = ("the generator of the user is stood for by a cursor which may give a value, end, skip or fail at each step",)

    def run(self, P):
        self.patch_name("add_sample_restore_key", add_key)
        self.patch_name("compact_str", lambda *a: "sample")
        self.patch_name("get_sample_restore_key", lambda s: app("key", s))
        self.patch(map_module, "inspect", types.SimpleNamespace(isgeneratorfunction=lambda f: True))
        IterCtxStub(self)
        wc, nw, w = worker(self, P)
        n, p0 = P.int("n", 0), P.int("pos", 0)
        P.assume(p0 <= n)
        inner = Inner(P, wc, n=n, pos=p0)
        g = P.ghost
        g.calls = g.k = 0
        g.pending = g.failed = g.fatal = g.open = False
        depth = WC._sample_index_stack.sym_len()
        resume = self.resume
        K, O = P.val("resume_key"), P.int("resume_offset", 0)
        g.cur = P.val("first")
        g.idx = s1 = P.int("sample_index", 1)
        g.target = 0
        g.resumed = False

        def fn(v):
            P.prove("all results of a sample are yielded before the next sample is mapped", not_(or_(g.pending, g.failed, g.open)))
            g.k = 0
            if bool(g.resumed):
                P.cover("resumed")
                P.prove("the sample whose results were not finished is rebuilt from its key", v == app("X.restore", K))
                P.prove("the function sees the same sample index as before", top() == s1 - 1)
                g.idx = s1 - 1
                g.target = O
                g.resumed = False
            else:
                P.prove("every sample is mapped once, in order", and_(v == inner.X.at(p0 + g.calls), inner.pos == p0 + g.calls + 1))
                P.prove("the function sees a sample index of its own", top() == s1 + g.calls)
                g.idx = s1 + g.calls
                g.calls = g.calls + 1
                g.target = 0
            g.cur = v
            k = OUTCOMES[P.choose(5)]
            g.failed = k == "error"
            g.fatal = k in ("fatal", "system")
            outcome(P, k)
            g.open = True
            return Results(P, g, v)

        def handler(e, v):
            P.cover("error handled")
            P.prove("the handler gets the failing sample", and_(g.failed, v == g.cur))
            P.prove("no generator is remembered after a failure", and_(M._generator_offsets[w] is None, M._generator_sample_keys[w] is None))
            g.failed = False
        M = MapDataset(inner, fn, error_handler=handler, worker_config=wc)
        used_index(P, M, w)
        if resume:
            P.assume(p0 == n)
            M._generator_sample_keys[w] = K
            M._generator_offsets[w] = O
            g.resumed = True
        P.roots.update(M=M)
        P.hints = lambda P: {"pos|pos": p0 + g.calls, "idx|sample_index": s1 + g.calls, "off|offsets": g.k}
        P.invs = lambda P: [("calls", g.calls >= 0), ("avail", p0 + g.calls <= n), ("k", g.k >= 0)]
        try:
            for v in M:
                # results below the target have been yielded before the state was saved
                P.cover("yield")
                P.prove("all results of the sample are yielded, in order, with the sample index and their number in the key",
                        and_(g.pending, v == add_key(app("gen", g.cur, g.k - 1), g.idx, g.k - 1, src=M)))
                P.prove("no result is repeated", g.k > g.target)
                P.prove("the number of results yielded is remembered", M._generator_offsets[w] == g.k)
                g.pending = False
            P.cover("end")
            P.prove("all samples were mapped", p0 + g.calls == n)
            P.prove("nothing is left over", not_(or_(g.pending, g.failed, g.fatal, g.open, g.resumed)))
            P.prove("no generator is remembered after the end", and_(M._generator_offsets[w] is None, M._generator_sample_keys[w] is None))
        except FatalSampleError:
            P.cover("fatal")
            P.prove("only fatal errors stop the iteration", g.fatal)


class MapGenResume(MapGenIter):
    name = "MapDataset.__iter__ (generator function, resumed within the results of a sample)"
    covers = MapGenIter.covers + ("resumed",)
    resume = True


class SampleIndexCtx(Contract):
    name = "SampleIndex.ctx"
    covers = ("inside", "body fails")

    def run(self, P):
        wc, nw, w = worker(self, P)
        S = SampleIndex(wc, src=self)
        s0 = P.int("sample_index", 0)
        S._sample_index[w] = s0
        v = P.int("other", 0)
        P.assume(and_(v < symmax(nw, 1), v != w))
        before = S._sample_index[v]
        given = P.choose(2)
        want = P.int("given", 0) if given else s0
        outer = top()
        depth = WC._sample_index_stack.sym_len()
        fail = P.choose(2)
        try:
            with S.ctx(want) if given else S.ctx() as i:
                P.cover("inside")
                P.prove("the index is the one given, or the next one of the worker", and_(i == want, top() == want, WC._sample_index_stack.sym_len() == depth + 1))
                if fail:
                    raise KeyError
        except KeyError:
            P.cover("body fails")
        P.prove("the outer index is active again", and_(WC._sample_index_stack.sym_len() == depth, top() == outer))
        P.prove("every index is handed out once", S.current_idx == (s0 if given else s0 + 1))
        P.prove("the indexes of other workers are untouched", S._sample_index[v] == before)


class SampleIndexIter(Contract):
    name = "SampleIndex.iter_ctx"
    covers = ("yield", "end", "fails")
    given = True

    def run(self, P):
        wc, nw, w = worker(self, P)
        S = SampleIndex(wc, src=self)
        s0 = used_index(P, Box(_sample_index=S), w)
        i0 = P.int("given", 0)
        V, n = P.stream("V"), P.int("n", 0)
        g = P.ghost
        g.k = g.m = 0
        g.bad = False
        depth = WC._sample_index_stack.sym_len()
        given = self.given
        want = lambda k: i0 if given else s0 + k

        class It(GenCursor):
            _ghost = True

            def step(self):
                P.prove("each value is made under its own index", and_(top() == want(g.m), WC._sample_index_stack.sym_len() == depth + 1))
                if not (g.m < n):
                    return END
                if P.choose(2):
                    g.bad = True
                    raise ValueError
                g.m = g.m + 1
                return V.at(g.m - 1)
        P.roots.update(S=S)
        P.hints = lambda P: {"k": g.k, "idx": s0 + g.k}
        P.invs = lambda P: [("k", g.k >= 0), ("in step", g.m == g.k), ("n", g.m <= n)]
        try:
            for i, x in (S.iter_ctx(It(), i0) if given else S.iter_ctx(It())):
                P.cover("yield")
                P.prove("every value is passed on with the index it was made under", and_(i == want(g.k), x == V.at(g.k), g.m == g.k + 1))
                P.prove("no index is active outside", and_(WC._sample_index_stack.sym_len() == depth))
                g.k = g.k + 1
            P.cover("end")
            P.prove("all values are passed on", and_(g.k == n, not_(g.bad)))
        except ValueError:
            P.cover("fails")
            P.prove("errors are passed on", and_(g.bad, g.k == g.m))
        P.prove("no index is active afterwards", WC._sample_index_stack.sym_len() == depth)
        if given:
            P.prove("given indexes are not counted", S.current_idx == s0)


class SampleIndexIterNext(SampleIndexIter):
    name = "SampleIndex.iter_ctx (no index given)"
    given = False


class MapRestore(Contract):
    name = "MapDataset.restore_sample"
    covers = ("plain", "generator")

    def isinstance(self, P, v, cls):
        return False

    def run(self, P):
        self.patch_name("add_sample_restore_key", add_key)
        gen = P.choose(2)
        self.patch(map_module, "inspect", types.SimpleNamespace(isgeneratorfunction=lambda f: bool(gen)))
        IterCtxStub(self)
        wc, nw, w = worker(self, P)
        inner = StateDS(P, wc)
        i, j, K = P.int("key_index", 0), P.int("key_local", 0), P.val("inner_key")
        g = P.ghost
        g.k = g.target = 0
        g.pending = g.failed = g.fatal = g.open = False

        def fn(v):
            P.prove("the same sample is mapped again", v == app("X.restore", (K,)))
            P.prove("the function sees the same sample index", top() == i)
            return Produce(v) if gen else app("map", v)
        n = P.int("n", 0)

        class Produce(GenCursor):
            _ghost = True

            def __init__(self, v):
                self.v, self.k = v, 0

            def step(self):
                P.prove("the generator sees the same sample index", top() == i)
                if not (self.k < n):
                    return END
                self.k = self.k + 1
                g.k = self.k
                return app("gen", self.v, self.k - 1)
        P.invs = lambda P: [("not reached", g.k <= j), ("n", g.k <= n)]
        M = MapDataset(inner, fn, stateless_map_fn=True, worker_config=wc)
        s0 = used_index(P, M, w)
        P.roots.update(M=M)
        key = ("MapDataset", i, j, K) if gen else ("MapDataset", i, K)
        P.assume(j < n)
        r = M.restore_sample(key)
        if gen:
            P.cover("generator")
            P.prove("the result named by the key", r == add_key(app("gen", app("X.restore", (K,)), j), i, j, src=M))
        else:
            P.cover("plain")
            P.prove("the result for the sample named by the key", r == add_key(app("map", app("X.restore", (K,))), i, src=M))
        P.prove("restoring counts no sample index", M._sample_index.current_idx == s0)


class IterMapBounded(Contract):
    name = "IterMapDataset.__iter__"
    covers = ("yield", "end", "handled", "fatal")
    bounded = "at most 3 input samples; every combination of one result, no result, failure, fatal failure per sample"

    def unroll(self, loop_id):
        return True

    def run(self, P):
        self.patch_name("compact_str", lambda *a: "sample")
        self.patch_name("get_sample_restore_key", lambda s: app("key", s))
        self.patch_name("set_sample_restore_key", set_key)
        wc, nw, w = worker(self, P)
        n = P.choose(4)
        inner = Inner(P, wc, n=n, pos=0)
        g = P.ghost
        expected, handled, kinds = [], [], []

        def fn(it):
            for v in it:
                k = ("value", "skip", "error", "fatal")[P.choose(4)]
                kinds.append(k)
                if k == "skip":
                    continue
                outcome(P, k)
                P.prove("the function sees the sample index of its result", top() == s0 + len([k for k in kinds[:-1] if k != "skip"]))
                yield app("map", v)
        idx = [0]
        handled = []
        D = IterMapDataset(inner, fn, error_handler=lambda e, v: handled.append(v), worker_config=wc)
        s0 = used_index(P, D, w)
        got, keys, iter_idx = 0, [], 0
        seen = 0
        try:
            for v in D:
                P.cover("yield")
                # the samples taken since the last result or failure
                keys, it = [], 0
                while kinds[seen] != "value":
                    if kinds[seen] == "error":
                        keys, it = [], 0
                        idx[0] += 1
                    else:
                        keys.append(app("key", inner.X.at(seen)))
                    seen += 1
                keys.append(app("key", inner.X.at(seen)))
                P.prove("the results come in order, with the keys of their own samples", v == set_key(app("map", inner.X.at(seen)), s0 + idx[0], 0, *keys, src=D))
                idx[0] += 1
                seen += 1
            P.cover("end")
            P.prove("all samples are taken", len(kinds) == n)
            P.prove("no result is lost", all(k != "value" for k in kinds[seen:]))
            P.prove("fatal errors are passed on", "fatal" not in kinds)
        except FatalSampleError:
            P.cover("fatal")
            P.prove("only fatal errors end the iteration", kinds[-1] == "fatal")
        bad = [i for i, k in enumerate(kinds) if k == "error"]
        if bad:
            P.cover("handled")
        P.prove("every failing sample is reported", len(handled) == len(bad))
        for i, v in zip(bad, handled):
            P.prove("every failing sample is reported", v == inner.X.at(i))


class LogIter(Contract):
    name = "LogSampleDataset.__iter__"
    covers = ("yield", "end")

    def run(self, P):
        wc, nw, w = worker(self, P)
        n, p0 = P.int("n", 0), P.int("pos", 0)
        P.assume(p0 <= n)
        inner = Inner(P, wc, n=n, pos=p0)
        g = P.ghost
        g.k = 0
        L = LogSampleDataset(inner, mode="train", worker_config=wc)
        s0 = P.int("step", 0)
        L._step[w] = s0

        def log(s):
            P.prove("every sample is logged once, in order", s == inner.X.at(p0 + g.k))
            P.prove("with its number", L._step[w] == s0 + g.k)
        L._log = log
        P.roots.update(L=L)
        P.hints = lambda P: {"pos": p0 + g.k, "step": s0 + g.k}
        P.invs = lambda P: [("k", g.k >= 0), ("n", p0 + g.k <= n)]
        for v in L:
            P.cover("yield")
            P.prove("all samples are passed on, in order", v == inner.X.at(p0 + g.k))
            g.k = g.k + 1
        P.cover("end")
        P.prove("no sample is lost", p0 + g.k == n)


def sym_index(P, d, tag):
    d._sample_index._sample_index = int_list(P, tag + "sample_index", d._sample_index._sample_index.c.n)


class IndexState(RoundTrip):
    def as_worker(self, P, d, i):
        d._sample_index._SampleIndex__rank = i

    def arbitrary(self, P, d, tag=""):
        sym_index(P, d, tag)

    def view(self, P, d, i):
        return dict(sample_index=d._sample_index._sample_index[i])


class FilterState(IndexState):
    name = "FilterDataset save/merge/restore"

    def make(self, P, wc, tag):
        return FilterDataset(StateDS(P, wc), filter_fn=lambda s: True, worker_config=wc)


class IterMapState(IndexState):
    name = "IterMapDataset save/merge/restore"

    def make(self, P, wc, tag):
        return IterMapDataset(StateDS(P, wc), lambda s: s, worker_config=wc)


class MapState(IndexState):
    name = "MapDataset save/merge/restore"

    def make(self, P, wc, tag):
        return MapDataset(StateDS(P, wc), lambda s: s, worker_config=wc)

    def arbitrary(self, P, d, tag=""):
        super().arbitrary(P, d, tag)
        n = d._generator_offsets.c.n
        act = P.bool_stream(tag + "active", n)
        off, key = P.int_stream(tag + "off", n, lambda i, v: v >= 0), P.stream(tag + "key", n)
        d._generator_offsets = SList(Seq(n=n, f=lambda i: off.at(i) if act.at(i) else None))
        d._generator_sample_keys = SList(Seq(n=n, f=lambda i: key.at(i) if act.at(i) else None))

    def view(self, P, d, i):
        return dict(super().view(P, d, i), key=d._generator_sample_keys[i], offset=d._generator_offsets[i])


class LogState(RoundTrip):
    name = "LogSampleDataset save/merge/restore"

    def make(self, P, wc, tag):
        return LogSampleDataset(StateDS(P, wc), mode="train", worker_config=wc)

    def arbitrary(self, P, d, tag=""):
        d._step = int_list(P, tag + "step", d._step.c.n)

    def view(self, P, d, i):
        return dict(step=d._step[i])


CONTRACTS = [FilterIter, MapIter, MapGenIter, MapGenResume, SampleIndexCtx, SampleIndexIter, SampleIndexIterNext, MapRestore, LogIter, IterMapBounded] + with_reset(FilterState, IterMapState, MapState, LogState)
