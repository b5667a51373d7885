"""C26: joined samples are made of the samples at the same position, under one name; restore keys name their parts.

The reader of one tar file is stubbed by its contract (C05): with a name asked for it gives the sample of this name or raises."""
from lib import *
import megatron.energon.flavors.webdataset.sample_loader as loader_module
import megatron.energon.flavors.webdataset.joined_webdataset as joined_module
from megatron.energon.flavors.webdataset.sample_loader import WebdatasetSampleLoaderDataset as Loader
from megatron.energon.flavors.webdataset.joined_webdataset import JoinedWebdatasetFactory as Joined
from megatron.energon.flavors.webdataset.structs import ShardInfo, ShardState
from megatron.energon.flavors.base_dataset import Sample

COLUMNS = 3


class Column(Partial):
    """Contract of SingleShardReader: the samples of one tar file, one after the other."""
    _ghost = True

    def __init__(self, c, T):
        self._nosnap_c, self._nosnap_T = c, T
        self.open = False
        self.got = False

    def __enter__(self):
        self.open = True
        return self

    def __exit__(self, *a):
        self.open = False

    @property
    def shard_state(self):
        return self._nosnap_T.states[self._nosnap_c]

    def read_next(self, for_group_name=None, must_match=False):
        T, c = self._nosnap_T, self._nosnap_c
        P, g = T.P, T.P.ghost
        P.prove("an open file is read", self.open)
        P.prove("nothing is read before the last failure is reported", not_(or_(g.failed, g.broken)))
        P.prove("nothing is read before the last joined sample is yielded", not_(and_(*[r.got for r in T.readers])))
        if c == 0:
            P.prove("the first column gives the name", for_group_name is None)
            P.prove("the end is the end", not_(g.end))
            for r in T.readers:
                r.got = False
            g.given_up = False
            k = P.choose(4)
            if k == 0:
                g.name = P.val(P.fresh_name("name"))
        else:
            if g.end:
                if P.choose(2):
                    g.broken = True
                    return P.val("surplus name"), P.val("surplus")
                self.at_end = True
                raise StopIteration
            P.prove("the columns of a sample are read once, after its first", and_(T.readers[0].got, not_(self.got), not_(g.given_up)))
            P.prove("the sample of the same name is asked for", and_(must_match is True, for_group_name == g.name))
            k = P.choose(4)
        if k == 0:
            self.got = True
            return g.name, app("part", g.name, c)
        if k == 1:
            if c == 0:
                g.end = True
            else:
                g.broken = True
            raise StopIteration
        if k == 2:
            P.cover("a part fails")
            g.failed = g.given_up = True
            for r in T.readers:
                r.got = False
            g.at = c
            raise ValueError("this part fails")
        g.broken = True
        raise MemoryError


class ReadColumns(Contract):
    name = "WebdatasetSampleLoaderDataset._read_multicolumn_shard"
    covers = ("yield", "a part fails", "end", "broken")
    bounded = f"{COLUMNS} columns at most; any number of samples and failures"

    def run(self, P):
        wc, nw, w = worker(self, P, 0, 0)
        self.P = P
        n = 1 + P.choose(COLUMNS)
        self.states = [ShardState(shard=ShardInfo(name=f"shard{c}", path=f"path{c}", offset=0, count=9), offset=0, byte_offset=0) for c in range(n)]
        self.readers = [Column(c, self) for c in range(n)]
        g = P.ghost
        g.name = P.val("no name")
        g.failed = g.broken = g.end = g.given_up = False
        g.at = 0
        made = []

        def reader(wc_, exclude, state, part_filter, handler):
            c = len(made)
            P.prove("one file per column, with the settings of the loader", and_(wc_ is wc, exclude is D.exclude, state is self.states[c], part_filter is D.part_filter, handler is D.handler))
            made.append(c)
            return self.readers[c]
        self.patch(loader_module, "SingleShardReader", reader)

        def handler(e, key):
            P.prove("a failing part is reported once, with its file", and_(g.failed, *[or_(not_(g.at == c), key == f"shard{c}") for c in range(n)]))
            g.failed = False
        D = Loader.__new__(Loader)
        D.worker_config, D.exclude, D.part_filter, D.handler, D.dataset_join_method = wc, set(), None, handler, "inner_match"
        P.roots.update(**{f"R{c}": r for c, r in enumerate(self.readers)})
        P.free = ("name", "at", "given_up", *[f"R{c}.got" for c in range(n)])
        P.free = ("name", "at", "given_up", "got")
        P.invs = lambda P: [("complete samples are yielded", not_(and_(*[r.got for r in self.readers]))), ("no end", not_(g.end)), ("fine", not_(or_(g.failed, g.broken)))]
        try:
            for s in D._read_multicolumn_shard(self.states):
                P.cover("yield")
                P.prove("only complete samples are yielded", and_(*[r.got for r in self.readers]))
                P.prove("a joined sample has one part per column", len(s) == n)
                for c in range(n):
                    P.prove("the parts of a joined sample are those of the same name, in column order", s[c] == app("part", g.name, c))
                for r in self.readers:
                    r.got = False
        except FatalSampleError:
            P.cover("broken")
            P.prove("only files which do not correspond, or a failing machine, end it with an error", g.broken)
        else:
            P.cover("end")
            P.prove("the samples end with those of the first column", g.end)
            P.prove("it does not end quietly if something is wrong", not_(or_(g.broken, g.failed)))
            P.prove("the other columns are checked to have ended, too", all(getattr(r, "at_end", False) for r in self.readers[1:]))
        P.prove("no complete sample is dropped", not_(and_(*[r.got for r in self.readers])))
        P.prove("all files are closed", not_(or_(*[r.open for r in self.readers])))


class LoadJoined(Contract):
    name = "JoinedWebdatasetFactory.load_sample"
    covers = ("dict", "object", "missing part", "by name")
    bounded = f"{COLUMNS} joined datasets at most"

    def run(self, P):
        n = 1 + P.choose(COLUMNS)
        present = [True] + [P.choose(2) == 0 for _ in range(n - 1)]
        if not all(present):
            P.cover("missing part")
        offs = [P.int(f"index{c}", 0) for c in range(n)]
        D = Joined.__new__(Joined)
        parts = [dict(__key__=f"key{c}", __shard__=f"shard{c}", __restore_key__=("Webdataset", f"shard{c}", offs[c]), content=P.val(f"content{c}")) if p else None for c, p in enumerate(present)]

        class Inner:
            def __init__(s, c):
                s.c = c

            def load_sample(s, sample):
                P.prove("every part is loaded by its own dataset", sample is parts[s.c])
                return app("loaded", s.c)
        inner = [Inner(c) for c in range(n)]
        D.inner_datasets = inner
        named = P.choose(2)
        obj = P.choose(2)

        def make(xs):
            P.prove("a part per dataset", len(xs) == n)
            for c in range(n):
                if present[c]:
                    P.prove("the parts are joined in the order of the datasets", xs[c] == app("loaded", c))
                else:
                    P.prove("a missing part is missing", xs[c] is None)
            if obj:
                P.cover("object")
                s = Sample.__new__(Sample)
                s.__restore_key__ = None
                return s
            P.cover("dict")
            return {"__restore_key__": ()}
        if named:
            P.cover("by name")
        D._sample_joiner = lambda *xs: make(xs)
        r = D.load_sample(tuple(parts))
        key = r.__restore_key__ if obj else r["__restore_key__"]
        P.prove("the restore key names the position of every part", len(key) == 1 + 2 * n)
        P.prove("the restore key is one of the sample loader", key[0] == "Webdataset")
        for c in range(n):
            P.prove("the restore key names the position of every part", and_(key[1 + 2 * c] == (f"shard{c}" if present[c] else ""), key[2 + 2 * c] == (offs[c] if present[c] else -1)))


class JoinInit(Contract):
    name = "JoinedWebdatasetFactory.__init__, build"
    covers = ("joined", "refused", "built", "named")
    bounded = "3 datasets of 3 shards at most; any number of samples"

    def run(self, P):
        n = 1 + P.choose(3)
        wc, nw, w = worker(self, P)
        ds, sizes = [], []
        excludes = [set(), {"shard0"}]
        ex0 = P.choose(2)
        k0 = P.choose(4)
        odd = P.choose(1 + 3 * (n > 1))         # what is different in the last dataset: nothing, the number of shards, the excluded samples, (maybe) the number of samples
        for d in range(n):
            last = odd and d == n - 1
            k = k0 + 1 if last and odd == 1 else k0
            cs = [P.int(f"count{j}" if not (last and odd == 3) else f"other{j}", 0) for j in range(k)]
            sizes.append(cs)
            ds.append(types.SimpleNamespace(shards=[ShardInfo(name=f"d{d}s{j}", path=f"path{d}", offset=0, count=c) for j, c in enumerate(cs)],
                                            sample_excludes=set(excludes[1 - ex0 if last and odd == 2 else ex0]), path=f"path{d}", tag=d))
        fits = and_(*[len(sizes[d]) == len(sizes[0]) for d in range(n)], odd != 2, *[a == b for d in range(n) for a, b in zip(sizes[d], sizes[0])])
        named = P.choose(2)
        given = []
        joiner = lambda *a, **k: given.append((a, k)) or "joined"
        training = P.choose(2) == 0
        par = (None, 3)[P.choose(2)]
        names = [f"name{d}" for d in range(n)]
        err = lambda e, k: None
        flt = lambda s: True
        try:
            D = Joined(dict(zip(names, ds)) if named else list(ds), training=training, worker_config=wc, shuffle_over_epochs=4, parallel_shard_iters=par, max_samples_per_sequence=7,
                       part_filter=flt, joiner=joiner, handler=err)
        except AssertionError:
            P.cover("refused")
            P.prove("only datasets which do not correspond are refused", not_(fits))
            return
        P.cover("joined")
        P.prove("datasets which do not correspond are refused", fits)
        P.prove("the shards at the same position are joined", len(D.shards) == k0)
        for j in range(k0):
            P.prove("the shards at the same position are joined", len(D.shards[j]) == n and all(D.shards[j][d] is ds[d].shards[j] for d in range(n)))
        P.prove("the datasets stay in order", all(a is b for a, b in zip(D.inner_datasets, ds)) and len(D.inner_datasets) == n)
        P.prove("the excluded samples are those of the datasets", D.sample_exclude == ds[0].sample_excludes)
        D._sample_joiner(*[10 + d for d in range(n)])
        if named:
            P.cover("named")
        P.prove("the joiner gets the parts in order, or under their names", given == [((), {f"name{d}": 10 + d for d in range(n)}) if named else (tuple(10 + d for d in range(n)), {})])
        total = 0
        for c in sizes[0]:
            total = total + c
        P.prove("the length is the number of positions", D.__len__() == total)
        built, got = [], []

        class Built:
            def __init__(s, **k):
                built.append(k)
        self.patch(joined_module, "WebdatasetSampleLoaderDataset", Built)
        split = [[[ShardInfo(name="x", path="y", offset=0, count=5)] * n] * j for j in (k0, 5, 8)]

        def shard_workers(shards, wc_, **k):
            got.append((shards, wc_, k))
            return split
        D.shard_workers = shard_workers
        D._process_samples = lambda x: ("processed", x)
        rot = P.int("rotation", 0)
        r = D.build(rot)
        P.cover("built")
        P.prove("the joined shards are split among the workers", len(got) == 1 and got[0][0] is D.shards and got[0][1] is wc and set(got[0][2]) == {"max_samples_per_sequence", "rotation_offset"}
                and got[0][2]["max_samples_per_sequence"] == 7)
        P.prove("with the rotation asked for", got[0][2]["rotation_offset"] == rot)
        b = built[0] if len(built) == 1 else {}
        P.prove("one loader reads them, with the settings of the dataset", len(built) == 1 and b.get("rank_shards") is split and b.get("worker_config") is wc and b.get("part_filter") is flt and b.get("exclude") == ds[0].sample_excludes
                and b.get("loop", False) is training and b.get("shuffle_over_epochs") == (4 if training else None) and b.get("dataset_join_method", "inner_match") == "inner_match"
                and b.get("parallel_shard_iters", 1) == (par or (16 if training else 1)))
        P.prove("failing samples go to the handler of the dataset", "handler" in b and getattr(b["handler"], "__func__", None) is Joined.sample_error_handler)
        P.prove("the samples read are joined", isinstance(r, tuple) and r[0] == "processed" and isinstance(r[1], Built))


CONTRACTS = [ReadColumns, LoadJoined, JoinInit]
