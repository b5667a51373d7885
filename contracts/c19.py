"""C19: mixtures - what every leaf dataset is loaded with, and its weight."""
from lib import *
import megatron.energon.metadataset.metadataset as v1
import megatron.energon.metadataset.metadataset_v2 as v2
import megatron.energon.metadataset.dataset_loader as dl
import megatron.energon.metadataset.join_dataset_loader as jl
import megatron.energon.dataset_config as dc
from megatron.energon.metadataset.loader_interface import multiply_shuffle_over_epochs
from megatron.energon.epathlib import EPath


def mult(P, name):
    m = P.int(name, -1)
    P.assume(m != 0)
    return m


def product(a, b):
    """The specified product of shuffle factors."""
    return ite(or_(a == -1, b == -1), -1, a * b)


def subs(P, name, which=None):
    """Subflavors: none at all, none, or some; values are arbitrary."""
    k = P.choose(3) if which is None else which
    return [None, {}, {"x": P.val(name + ".x"), name: P.val(name + ".own")}][k]


def merged(outer, inner):
    """Outer values take precedence."""
    return {**(inner or {}), **(outer or {})}


def same(P, text, a, b):
    a, b = a or {}, b or {}
    P.prove(text, set(a) == set(b))
    for k in b:
        P.prove(text, a.get(k) is b[k])


def ref_args(P):
    return dict(split_part=["inner", None][P.choose(2)], subflavor=[None, "inner"][P.choose(2)], subflavors=subs(P, "inner"), shuffle_over_epochs_multiplier=mult(P, "inner factor"))


def call_args(P, wc):
    o = mult(P, "outer factor")
    return dict(training=bool(P.choose(2)), split_part="outer", worker_config=wc, subflavor=[None, "outer"][P.choose(2)], subflavors=subs(P, "outer"), shuffle_over_epochs_multiplier=o, other=7)


class Loaded:
    """A loader of a nested dataset (stub): any leaf datasets, whose weights sum to one."""
    _stub = True

    def __init__(self, leaves):
        self.leaves, self.calls = leaves, []

    def get_datasets(self, **kw):
        self.calls.append(kw)
        return list(self.leaves)

    def prepare(self, path):
        self.prepared = path


class Multiply(Contract):
    name = "multiply_shuffle_over_epochs"
    covers = ("infinite", "finite")

    def run(self, P):
        a, b = mult(P, "a"), mult(P, "b")
        r = multiply_shuffle_over_epochs(a, b)
        if or_(a == -1, b == -1):
            P.cover("infinite")
            P.prove("infinite stays infinite", r == -1)
        else:
            P.cover("finite")
            P.prove("the factors are multiplied", r == a * b)


class Reference(Contract):
    """A reference to a nested (meta) dataset: what the nested one is asked for."""
    name = "DatasetReference.get_datasets"
    covers = ("v1", "v2")

    def run(self, P):
        wc = WC(rank=0, world_size=1, num_workers=0)
        cls, c = [(v1.DatasetReference, "v1"), (v2.DatasetReference, "v2")][P.choose(2)]
        P.cover(c)
        a, kw = ref_args(P), call_args(P, wc)
        R = cls(path="p", **a)
        leaf = ("leaf", P.real("w"))
        R._dataset = Loaded([leaf])
        inner_before, outer_before = dict(a["subflavors"] or {}), dict(kw["subflavors"] or {})
        r = R.get_datasets(**kw)
        P.prove("the nested dataset is loaded once, all of its leaves are used", len(R._dataset.calls) == 1 and len(r) == 1 and r[0][0] == "leaf")
        P.prove("the weight within the nested dataset is kept", r[0][1] == leaf[1])
        k = R._dataset.calls[0]
        P.prove("the split part of the reference goes first", k["split_part"] == (a["split_part"] or "outer"))
        P.prove("the outer subflavor goes first", k["subflavor"] == (kw["subflavor"] or a["subflavor"]))
        same(P, "subflavors are merged, outer values take precedence", k["subflavors"], merged(kw["subflavors"], a["subflavors"]))
        P.prove("the shuffle factors are multiplied, infinite stays infinite", k["shuffle_over_epochs_multiplier"] == product(kw["shuffle_over_epochs_multiplier"], a["shuffle_over_epochs_multiplier"]))
        P.prove("everything else is handed on", k["training"] is kw["training"] and k["worker_config"] is wc and k.get("other") == 7)
        same(P, "the configuration itself is not changed", R.subflavors, inner_before)
        same(P, "the configuration itself is not changed", kw["subflavors"], outer_before)


def leaf_file(c, P, calls):
    """Stub of get_dataset_from_config (contract verified below)."""
    def get(path, **kw):
        calls.append((path, kw))
        return ("dataset", len(calls))
    c.patch(dl, "get_dataset_from_config", get)


class Leaf(Contract):
    """A reference which is a dataset folder: what the dataset is loaded with."""
    name = "DatasetReference.prepare, DatasetLoader.get_datasets"
    covers = ("v1", "v2")

    def run(self, P):
        wc = WC(rank=0, world_size=1, num_workers=0)
        cls, c = [(v1.DatasetReference, "v1"), (v2.DatasetReference, "v2")][P.choose(2)]
        P.cover(c)
        a, kw = ref_args(P), call_args(P, wc)
        files = {"dataset_config": ["dataset.yaml", "d2.yaml"][P.choose(2)], "split_config": "s2.yaml"}
        R = cls(path="sub/ds", **a, **files)
        self.patch(EPath, "is_file", lambda p: str(p).endswith("/.nv-meta/.info.yaml"))
        calls = []
        leaf_file(self, P, calls)
        R.prepare(EPath("/root/md"))
        r = R.get_datasets(**kw)
        P.prove("the leaf dataset appears exactly once", len(r) == 1 and len(calls) == 1 and r[0][0] == ("dataset", 1))
        P.prove("a single dataset has weight one", r[0][1] == 1)
        path, k = calls[0]
        P.prove("the dataset is the one referred to, relative to the file", str(path) == "/root/md/sub/ds")
        P.prove("the split part of the reference goes first", k["split_part"] == (a["split_part"] or "outer"))
        P.prove("the outer subflavor goes first", k["subflavor"] == (kw["subflavor"] or a["subflavor"]))
        same(P, "subflavors are merged, outer values take precedence", k["subflavors"], merged(kw["subflavors"], a["subflavors"]))
        P.prove("the shuffle factors are multiplied once, infinite stays infinite", k["shuffle_over_epochs"] == product(kw["shuffle_over_epochs_multiplier"], a["shuffle_over_epochs_multiplier"]))
        P.prove("the configuration files are those given", k["dataset_config"] == files["dataset_config"] and k["split_config"] == files["split_config"])
        P.prove("everything else is handed on", k["training"] is kw["training"] and k["worker_config"] is wc and k.get("other") == 7)


class Nested(Contract):
    """A reference to a metadataset file: the nested file is loaded, relative to its own folder."""
    name = "DatasetReference.prepare (metadataset)"
    covers = ("v1", "v2", "missing")

    def run(self, P):
        mod, name = [(v1, "v1"), (v2, "v2")][P.choose(2)]
        there = bool(P.choose(2))
        self.patch(EPath, "is_file", lambda p: there and str(p) == "/root/md/sub/x.yaml")
        got = []
        obj = Loaded([])
        self.patch(mod, "load_config", lambda path, **kw: (got.append((path, kw)), obj)[1])
        R = mod.DatasetReference(path="sub/x.yaml", **ref_args(P))
        try:
            R.prepare(EPath("/root/md"))
        except FileNotFoundError:
            P.cover("missing")
            P.prove("only a missing dataset is reported as missing", not there)
            return
        P.cover(name)
        P.prove("a missing dataset is not ignored", there)
        P.prove("the nested file is loaded once", len(got) == 1 and str(got[0][0]) == "/root/md/sub/x.yaml")
        P.prove("paths in the nested file are relative to its folder", str(got[0][1]["default_kwargs"]["parent_path"]) == "/root/md/sub")
        P.prove("unknown fields are rejected", got[0][1]["strict"] is True)
        P.prove("the nested dataset is used", R._dataset is obj)


class Blend(Contract):
    """The weights of a blend are normalised and multiplied with the weights within each entry."""
    name = "MetadatasetBlender.get_datasets, MetadatasetBlend.get_datasets"
    covers = ("v1", "v2")
    bounded = "1 to 3 entries with 1 to 2 leaf datasets each; any weights"

    def run(self, P):
        wc = WC(rank=0, world_size=1, num_workers=0)
        n = P.choose(3) + 1
        ms = [P.choose(2) + 1 for _ in range(n)]
        ws = [P.real(f"w{i}") for i in range(n)]
        entries, lw = [], []
        for i in range(n):
            P.assume(ws[i] > 0)
            if ms[i] == 1:
                ls = [1.0]
            else:
                x = P.real(f"leaf{i}")
                P.assume(and_(x >= 0, x <= 1))
                ls = [x, 1 - x]
            e = Loaded([((i, j), l) for j, l in enumerate(ls)])
            e.weight = ws[i]
            entries.append(e)
            lw.append(ls)
        c = P.choose(2)
        P.cover(["v1", "v2"][c])
        M = [v1.MetadatasetBlender, v2.MetadatasetBlend][c](entries)
        kw = dict(training=True, split_part="outer", worker_config=wc, subflavor="sf", subflavors={"x": P.val("x")}, shuffle_over_epochs_multiplier=mult(P, "factor"), other=7)
        r = M.get_datasets(**kw)
        for e in entries:
            P.prove("every entry is loaded once", len(e.calls) == 1)
            k = e.calls[0]
            P.prove("the entries are asked for what the blend is asked for", set(k) == set(kw) and all(k[x] is kw[x] for x in kw))
        P.prove("every leaf dataset appears exactly once for each place it is listed", [x[0] for x in r] == [(i, j) for i in range(n) for j in range(ms[i])])
        total = sum(ws[1:], ws[0])
        for (i, j), w in r:
            P.prove("the weight is the normalised weight of the entry times the weight within the entry", w * total == lw[i][j] * ws[i])


class Splits(Contract):
    """The split asked for is used, with its arguments."""
    name = "Metadataset.get_datasets, MetadatasetV2.get_datasets"
    covers = ("v1", "v2")

    def run(self, P):
        c = P.choose(2)
        P.cover(["v1", "v2"][c])
        wc = WC(rank=0, world_size=1, num_workers=0)
        leaf = ("leaf", P.real("w"))
        ls = {"train": Loaded([leaf]), "val": Loaded([])}
        M = [v1.Metadataset, v2.MetadatasetV2][c](parent_path=EPath("/root/md"), splits=ls)
        P.prove("every split is prepared with the folder of the file", all(str(x.prepared) == "/root/md" for x in ls.values()))
        kw = dict(training=True, split_part="train", worker_config=wc, subflavor="sf", subflavors={"x": P.val("x")}, shuffle_over_epochs_multiplier=mult(P, "factor"), other=7)
        r = M.get_datasets(**kw)
        P.prove("only the split asked for is used", not ls["val"].calls and len(ls["train"].calls) == 1)
        k = ls["train"].calls[0]
        P.prove("the split is asked for what the file is asked for", set(k) == set(kw) and all(k[x] is kw[x] for x in kw))
        P.prove("all leaves of the split are used with their weights", len(r) == 1 and r[0][0] == "leaf" and r[0][1] is leaf[1])


class Join(Contract):
    """A join: what the joined datasets are loaded with."""
    name = "MetadatasetJoin, JoinDatasetLoader.get_datasets"
    covers = ("list", "dict")
    bounded = "joins of two datasets; any parameters"

    def run(self, P):
        wc = WC(rank=0, world_size=1, num_workers=0)
        named = bool(P.choose(2))
        P.cover("dict" if named else "list")
        a, kw = ref_args(P), call_args(P, wc)
        ra = [dict(split_part=["part0", None][P.choose(2)], subflavors={"x": P.val("r0.x"), "r": P.val("r0.r")}, subflavor=None), dict(split_part=None, subflavors=None, subflavor="ref")]
        refs = [v2.JoinDatasetReference(path=f"d{i}", split_config="own.yaml", **ra[i]) for i in range(2)]
        over = [None, "join.yaml"][P.choose(2)]
        joiner = lambda *a: None
        M = v2.MetadatasetJoin(join=dict(zip("ab", refs)) if named else refs, joiner=joiner, join_method="inner_match", split_config=over, **a)
        self.patch(EPath, "is_file", lambda p: str(p).endswith("/.nv-meta/.info.yaml"))
        calls, made = [], []

        class Web(jl.BaseWebdatasetFactory):
            def __init__(self):
                pass
            build = __len__ = None
        Web.__abstractmethods__ = frozenset()

        def get(path, **k):
            calls.append((path, k))
            w = Web()
            w.i = len(calls) - 1
            return w
        self.patch(dl, "get_dataset_from_config", get)
        self.patch(jl, "JoinedWebdatasetFactory", lambda **k: (made.append(k), "joined")[1])
        M.prepare(EPath("/root/md"))
        r = M.get_datasets(**kw)
        P.prove("one joined dataset, with weight one", len(r) == 1 and r[0][0] == "joined" and r[0][1] == 1 and len(made) == 1)
        P.prove("every joined dataset is loaded once, in order", [str(p) for p, _ in calls] == ["/root/md/d0", "/root/md/d1"])
        j = made[0]
        P.prove("the datasets are joined under their names, in order", [(k, d.i) for k, d in j["inner_datasets"].items()] == [("a", 0), ("b", 1)] if named else [d.i for d in j["inner_datasets"]] == [0, 1])
        f = product(kw["shuffle_over_epochs_multiplier"], a["shuffle_over_epochs_multiplier"])
        P.prove("the shuffle factors are multiplied, infinite stays infinite", j["shuffle_over_epochs"] == f)
        P.prove("joiner, method and training are those given", j["joiner"] is joiner and j["join_method"] == "inner_match" and j["training"] is kw["training"] and j["worker_config"] is wc)
        for (path, k), x in zip(calls, ra):
            P.prove("split part: innermost first", k["split_part"] == (x["split_part"] or a["split_part"] or "outer"))
            P.prove("the outer subflavor goes first", k["subflavor"] == (kw["subflavor"] or a["subflavor"] or x["subflavor"]))
            same(P, "subflavors are merged, outer values take precedence", k["subflavors"], merged(merged(kw["subflavors"], a["subflavors"]), x["subflavors"]))
            P.prove("the split file of the join overrides those of the references", k["split_config"] == (over or "own.yaml"))


class FromConfig(Contract):
    """Loading one dataset: subflavors given from outside override those of the dataset's own configuration."""
    name = "get_dataset_from_config"
    covers = ("x", "no dataset")

    def run(self, P):
        there = bool(P.choose(2))
        self.patch(EPath, "is_file", lambda p: there)
        got = []
        own = subs(P, "own")
        before = dict(own or {})

        class D:
            subflavors = own
        d = D()
        self.patch(dc, "load_config", lambda path, **k: (got.append((path, k)), d)[1])
        wc = WC(rank=0, world_size=1, num_workers=0)
        given = subs(P, "given")
        n = P.int("size")
        try:
            r = dc.get_dataset_from_config(EPath("/ds"), dataset_config="d.yaml", split_config="s.yaml", split_part="part", training=True, subflavor="sf", subflavors=given, worker_config=wc, max_samples_per_sequence=n)
        except ValueError:
            P.cover("no dataset")
            P.prove("only a folder without dataset is rejected", not there)
            return
        P.cover("x")
        P.prove("a folder without dataset is rejected", there)
        P.prove("the dataset is loaded once from its configuration", r is d and len(got) == 1 and str(got[0][0]) == "/ds/.nv-meta/d.yaml")
        k = got[0][1]["default_kwargs"]
        P.prove("the parameters reach the dataset", str(k["path"]) == "/ds" and k["split_config"] == "s.yaml" and k["split_part"] == "part" and k["training"] is True and k["subflavor"] == "sf" and k["worker_config"] is wc)
        P.prove("the parameters reach the dataset", k["max_samples_per_sequence"] == n)
        same(P, "subflavors are merged, outer values take precedence", d.subflavors, merged(given, before))


CONTRACTS = [Multiply, Reference, Leaf, Nested, Blend, Splits, Join, FromConfig]
