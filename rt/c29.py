"""C29 - task encoders build the pipeline of every configured step, once each, in the documented order."""
from tarutil import *
from sim import *

RULE = ("training / validation x datasets and weights x cookers x encode_sample x packing x grouping x batch size x drop_last x encode_batch x shuffle buffer x virtual epoch "
        "or limit x workers; parameters reaching the datasets; default task encoder types; non-trivial: at least three configurable steps are active")


def gen(tier, rng):
    q = tier == "quick"
    base = dict(train=True, n=[7], w=[1.], nw=0, ws=1, rank=0, cook=False, enc=None, pack=None, group=None, bs=None, drop=False, encb=False, shuf=None, ve=0, lim=None)
    for tr in (True, False):
        for on in ("cook", "enc", "pack", "group", "bs", "encb", "shuf", "ve", "lim"):
            c = dict(base, train=tr)
            c[on] = {"cook": True, "enc": "map", "pack": 4, "group": "fixed", "bs": 3, "encb": True, "shuf": 5, "ve": 4, "lim": 3}[on]
            if on == "encb":
                c["bs"] = 2
            if on == "group":
                c["bs"] = 2
            yield c
    for o in range(40 if q else 400):
        yield dict(k="loader", train=bool(o % 2), sp=["train", "val", "x"][o % 3], msp=[None, 3][o % 2], mult=[1, 3, -1][o % 3], par=[None, 2][(o // 2) % 2], sub=[None, {"a": 1}][(o // 3) % 2],
                   many=o % 4 == 3, bs=[1, 4][o // 2 % 2], drop=o % 5 == 0, pack=[None, 7][o // 3 % 2], shuf=[None, 11][o // 2 % 2], ve=[0, 5][o // 4 % 2], lim=[None, 6][o // 3 % 2], cfg=o % 7 == 0)
    for e in (None, "dict", "dc", "nt"):
        for r in (None, "dict", "dc", "nt"):
            for b in (None, "dict", "dc", "nt", "same"):
                yield dict(k="default", e=e, r=r, b=b)
    for _ in range(700 if q else 30000):
        tr = rng.random() < .6
        c = dict(train=tr, n=[rng.randint(0 if not tr else 1, 20) for _ in range(rng.choice([1, 1, 2, 3]))], nw=rng.choice([0, 1, 2, 3]), ws=rng.choice([1, 2]), rank=0)
        c["rank"] = rng.randrange(c["ws"])
        c["w"] = [rng.choice([.5, 1., 2.]) for _ in c["n"]]
        if len(c["w"]) > 1 and rng.random() < .3:
            c["w"][rng.randrange(len(c["w"]))] = 0.
        c.update(cook=rng.random() < .4, enc=rng.choice([None, "map", "gen"]), pack=rng.choice([None, None, 1, 3, 6]), group=rng.choice([None, None, "fixed", "own"]), bs=rng.choice([None, 1, 2, 4]),
                 drop=rng.random() < .4, shuf=rng.choice([None, None, 0, 1, 2, 9]) if tr else None, ve=rng.choice([0, 0, 3, 8]) if tr else 0, lim=rng.choice([None, 0, 2, 5, 50]) if not tr else None)
        c["encb"] = rng.random() < .5 and (c["bs"] is not None or c["group"] is not None)
        if c["group"] == "fixed" and c["bs"] is None:
            c["group"] = "own"
        if c["group"] == "own":
            c["bs"] = None
        yield c


def nontrivial(c):
    return c.get("k") or sum(bool(c[x]) for x in ("cook", "enc", "pack", "group", "bs", "encb", "shuf", "ve", "lim")) > 2


def gsize(g):
    return g + 2


def make_encoder(c, opened):
    from megatron.energon import TaskEncoder, Cooker, stateless

    def grp(v):
        while isinstance(v, (list, tuple)):
            v = v[-1]
        return h(v) % 3

    def mk(s, v):
        return S(__key__=s.__key__, __restore_key__=s.__restore_key__, __subflavor__=None, __subflavors__=None, value=v)
    ns = {}
    if c["cook"]:
        ns["cookers"] = [Cooker(lambda s: S(**{k: s[k] for k in ("__key__", "__restore_key__", "__subflavor__", "__subflavors__")}, value=("c", s["v"])))]
    if c["enc"] == "map":
        ns["encode_sample"] = stateless(lambda self, s: mk(s, ("e", s.value)))
    if c["enc"] == "gen":
        def encode_sample(self, s):
            for i in range(2):
                yield mk(s, ("g", i, s.value))
        ns["encode_sample"] = stateless(encode_sample)
    if c["pack"]:
        def select_samples_to_pack(self, samples):
            opened.append(len(samples))
            return [samples[i:i + 2] for i in range(0, len(samples), 2)]
        ns["select_samples_to_pack"] = select_samples_to_pack
        ns["pack_selected_samples"] = stateless(lambda self, ss: mk(ss[0], ("p", [s.value for s in ss])))
    if c["group"]:
        ns["batch_group_criterion"] = lambda self, s: (grp(s.value), gsize(grp(s.value)) if c["group"] == "own" else None)
    if c["bs"] is not None or c["group"]:
        ns["batch"] = stateless(lambda self, ss: mk(ss[0], ("b", [s.value for s in ss])))
    if c["encb"]:
        ns["encode_batch"] = stateless(lambda self, b: mk(b, ("B", b.value)))
    return type("TE", (TaskEncoder,), ns)(), grp


def h(*a):
    import zlib
    return zlib.crc32(repr(a).encode())


def model(c, leaves, grp, final):
    """Outputs for the leaves in this order; `final`: the input ends here (else only complete output)."""
    xs = list(leaves)
    if c["cook"]:
        xs = [("c", x) for x in xs]
    if c["enc"] == "map":
        xs = [("e", x) for x in xs]
    if c["enc"] == "gen":
        xs = [("g", i, x) for x in xs for i in range(2)]
    if c["pack"]:
        ys = []
        for i in range(0, len(xs), c["pack"]):
            win = xs[i:i + c["pack"]]
            if len(win) < c["pack"] and not final:
                break
            ys += [("p", win[j:j + 2]) for j in range(0, len(win), 2)]
        xs = ys
    if c["group"]:
        buckets, ys = {}, []
        for x in xs:
            g = grp(x)
            b = buckets.setdefault(g, [])
            b.append(x)
            if len(b) == (gsize(g) if c["group"] == "own" else c["bs"]):
                ys.append(("b", list(b)))
                b.clear()
        rest = [("b", b) for b in buckets.values() if b] if final and not c["drop"] else []
        xs = ys + rest
    elif c["bs"] is not None:
        ys = [("b", xs[i:i + c["bs"]]) for i in range(0, len(xs), c["bs"])]
        if ys and len(ys[-1][1]) < c["bs"] and (c["drop"] or not final):
            ys.pop()
        xs = ys
    if c["encb"]:
        xs = [("B", x) for x in xs]
    return xs


def flat(v, out):
    if isinstance(v, str):
        if "." in v:
            out.append(v)
    elif isinstance(v, (list, tuple)):
        for y in v:
            flat(y, out)
    return out


def norm(v):
    return [norm(y) for y in v] if isinstance(v, (list, tuple)) else v


def run(c):
    if c.get("k") == "loader":
        return run_loader(c)
    if c.get("k") == "default":
        return run_default(c)
    from megatron.energon.flavors.crude import CrudeSample
    wc = WorkerConfig(rank=c["rank"], world_size=c["ws"], num_workers=c["nw"], seed_offset=3)
    nw = max(1, c["nw"])
    gw = nw * c["ws"]

    class MySrc(Src):
        def mk(self, w, i):
            s = super().mk(w, i)
            if c["cook"]:
                return CrudeSample(__key__=s.__key__, __restore_key__=s.__restore_key__, __subflavor__=None, __subflavors__={}, v=s.value)
            return s

    class Fac:
        def __init__(self, j, n):
            self.j, self.n = j, n
            self.rot = None

        def __len__(self):
            return self.n * gw

        def build(self, worker_rotation_offset=0):
            self.rot = worker_rotation_offset
            return MySrc(wc, [[f"{self.j}.{w}.{i}" for i in range(self.n)] for w in range(nw)], name=f"D{self.j}", loop=c["train"])

    class Fac2(Fac):
        def __len__(self):
            return self.n
    facs = [(Fac if c["train"] and j % 2 else Fac2)(j, n) for j, n in enumerate(c["n"])]
    opened = []
    te, grp = make_encoder(c, opened)
    kw = dict(datasets=list(zip(facs, c["w"])), worker_config=wc, batch_size=c["bs"], batch_drop_last=c["drop"], packing_buffer_size=c["pack"])
    if c["train"]:
        if all(w == 0 for w in c["w"]):
            return
        ds = te.build_train_datasets(virtual_epoch_length=c["ve"], shuffle_buffer_size=c["shuf"], **kw)
        if len(facs) > 1:
            eq([f.rot for f in facs], [sum(len(g) for g in facs[:j]) % gw for j in range(len(facs))], "rotation offsets of the datasets")
        else:
            eq(facs[0].rot, 0, "rotation offset of a single dataset")
    else:
        ds = te.build_val_datasets(limit=c["lim"], **kw)
        eq([f.rot for f in facs], [0] * len(facs), "rotation offsets")
    active = [j for j in range(len(facs)) if c["w"][j] > 0 or len(facs) == 1 or not c["train"]]
    ve_share = lambda w: c["ve"] // nw + (1 if w < c["ve"] % nw else 0)
    for w in range(nw):
        sw = SimWorker(ds, wc, w)
        if c["train"]:
            if c["group"] and c["pack"]:
                pass
            n = 24
            if c["ve"]:
                share = ve_share(w)
                if share == 0:
                    continue
                got = []
                while len(got) < n:
                    ep = sw.epoch(1000)
                    eq(len(ep), share, f"worker {w}: samples in a virtual epoch of length {c['ve']}")
                    got += ep
            else:
                got, ended = sw.take(n)
                req(not ended, f"worker {w}: an endless training dataset ended after {len(got)} outputs")
        else:
            if sum(f.n for f in facs) == 0:
                continue
            got = sw.epoch(3000)
            again = sw.epoch(3000)
            eq(norm(val(again)), norm(val(got)), f"worker {w}: second pass")
        got = [norm(x.value) for x in got]
        if not c["train"]:
            leaves = [f"{j}.{w}.{i}" for j, f in enumerate(facs) for i in range(f.n)]
            want = norm(model(c, leaves, grp, True))
            if c["lim"]:
                want = want[:c["lim"] // nw + (1 if w < c["lim"] % nw else 0)]
            eq(got, want, f"worker {w}: validation outputs")
            continue
        lv = flat(got, [])
        if c["enc"] == "gen":
            dedup = []
            for x in lv:
                if dedup.count(x) * 2 > lv[:len(lv)].count(x):
                    pass
            # both results of one sample: keep the first ones
            first = []
            flatg(got, first)
            lv = first
        for j in range(len(facs)):
            if j not in active:
                req(not [x for x in lv if x.startswith(f"{j}.")], f"dataset {j} has weight 0 but was drawn")
        shuffled = c["shuf"] is not None and c["shuf"] > 1
        if not shuffled and len(active) == 1:
            j = active[0]
            src = [f"{j}.{w}.{i % facs[j].n}" for i in range(600)]
            want = norm(model(c, src, grp, False))[:len(got)]
            eq(got, want, f"worker {w}: training outputs")
        elif not c["group"]:
            want = norm(model(c, lv, grp, False))
            # the last window/batch may be incomplete in what was observed
            eq(got[:len(want)], want[:len(got)], f"worker {w}: training outputs from the samples drawn")
            req(len(want) >= len(got) - 1 - (c["pack"] or 0), f"worker {w}: outputs do not follow from the samples drawn: {got}")
            for j in active:
                mine = [int(x.split(".")[2]) for x in lv if x.startswith(f"{j}.")]
                if not shuffled:
                    eq(mine, [i % facs[j].n for i in range(len(mine))], f"worker {w}: samples of dataset {j} in order")
                elif len(active) == 1:
                    n = facs[j].n
                    size = c["shuf"]
                    # sample number p of the output was among the first p + size inputs, each input at most once
                    avail, nxt = [], 0
                    for p, i in enumerate(mine):
                        while nxt < p + size:
                            avail.append(nxt % n)
                            nxt += 1
                        req(i in avail, f"worker {w}: output {p} of a shuffle buffer of {size} is sample {i}, not in the buffer {avail}")
                        avail.remove(i)
            if shuffled and len(active) == 1 and c["shuf"] >= 9 and facs[active[0]].n >= 9 and len(lv) >= 20:
                req([int(x.split(".")[2]) for x in lv] != [i % facs[active[0]].n for i in range(len(lv))], "a configured shuffle buffer does not shuffle")
        if c["pack"]:
            eq(set(opened) - {c["pack"]}, set(), "sizes of the windows given to select_samples_to_pack")


def flatg(v, out):
    """Leaves of ('g', i, x) values with i == 0 only (one per encoded sample)."""
    if isinstance(v, (list, tuple)):
        if len(v) == 3 and v[0] == "g":
            if v[1] == 0:
                flat(v[2], out)
            return
        for y in v:
            flatg(y, out)


def run_loader(c):
    from megatron.energon import TaskEncoder, get_train_dataset, get_val_dataset, get_val_datasets
    from c26 import types
    import types as _t, importlib
    rec = []

    class TE(TaskEncoder):
        def build_train_datasets(self, **kw):
            rec.append(("train", kw))
            return "D"

        def build_val_datasets(self, **kw):
            rec.append(("val", kw))
            return "D"
    with scratch() as d:
        yml = "sample_type:\n  __module__: megatron.energon\n  __class__: TextSample\nfield_map:\n  text: txt\n"
        for n in ("a", "b"):
            simple_dataset(d / n, [3, 4, 2], exts=("txt",), yaml_=yml)
            meta(d / n, {"s0.tar": 3, "s1.tar": 4, "s2.tar": 2}, splits={"train": ["s0.tar"], "val": ["s1.tar"], "x": ["s2.tar"], "y": ["s0.tar", "s2.tar"]}, dataset_yaml=yml)
            (d / n / ".nv-meta/alt.yaml").write_text("split_parts:\n  train: [s2.tar]\n  val: [s2.tar]\n  x: [s0.tar]\nexclude: []\n")
        kw = {}
        if c["sub"] is not None:
            kw["subflavors"] = c["sub"]
        if c["par"] is not None:
            kw["parallel_shard_iters"] = c["par"]
        if c["cfg"]:
            kw["split_config"] = "alt.yaml"
        wc = WorkerConfig(rank=0, world_size=1, num_workers=2)
        path = d / "a"
        if c["many"]:
            (d / "m.yaml").write_text("__module__: megatron.energon\n__class__: Metadataset\nsplits:\n" + "".join(f"  {k}:\n    datasets:\n      - weight: 3\n        path: a\n        split_part: y\n      - weight: 1\n        path: b\n" for k in ("train", "val")))
            path = d / "m.yaml"
            if c["sp"] == "x":
                return
            kw.pop("split_config", None)
        try:
            if c["train"]:
                get_train_dataset(path, split_part=c["sp"], worker_config=wc, batch_size=c["bs"], batch_drop_last=c["drop"], packing_buffer_size=c["pack"], shuffle_buffer_size=c["shuf"],
                                  max_samples_per_sequence=c["msp"], virtual_epoch_length=c["ve"], shuffle_over_epochs_multiplier=c["mult"], task_encoder=TE(), **kw)
            else:
                f = get_val_datasets if c["ve"] else get_val_dataset
                res = f(path, split_part=c["sp"], worker_config=wc, batch_size=c["bs"], batch_drop_last=c["drop"], packing_buffer_size=c["pack"], limit=c["lim"], task_encoder=TE(), **kw)
        except ImportError as e:
            raise Inapplicable(str(e))
        want = dict(worker_config=wc, batch_size=c["bs"], batch_drop_last=c["drop"], packing_buffer_size=c["pack"])
        if c["train"]:
            want.update(virtual_epoch_length=c["ve"], shuffle_buffer_size=c["shuf"])
        else:
            want.update(limit=c["lim"])
        dss = []
        for mode, k in rec:
            eq(mode, "train" if c["train"] else "val", "pipeline built")
            dss += k["datasets"]
            for a, b in want.items():
                eq(k.get(a), b, f"argument {a}")
        if not c["train"] and c["ve"]:
            eq(len(rec), len(dss), "pipelines of get_val_datasets")
            req(all(r[1] is x[0] for r, x in zip(res, dss)), "source datasets returned by get_val_datasets")
        else:
            eq(len(rec), 1, "pipelines built")
        alt = {"train": "s2.tar", "val": "s2.tar", "x": "s0.tar"} if "split_config" in kw else {"train": "s0.tar", "val": "s1.tar", "x": "s2.tar"}
        own = [alt[c["sp"]]]
        eq([[s.name for s in f.shards] for f, _ in dss], [["s0.tar", "s2.tar"], own] if c["many"] else [own], "shards of the datasets")
        if c["many"] and (c["train"] or not c["ve"]):
            ws = [w for _, w in dss]
            req(abs(ws[0] - 3 * ws[1]) < 1e-9, f"weights {ws}")
        for f, _ in dss:
            eq(f.training, c["train"], "training flag of the dataset")
            eq(f.worker_config, wc, "worker config of the dataset")
            if c["train"]:
                eq(f.max_samples_per_sequence, c["msp"], "max_samples_per_sequence of the dataset")
                eq(f.shuffle_over_epochs, c["mult"], "shuffle over epochs of the dataset")
            if c["par"]:
                eq(f.parallel_shard_iters, c["par"], "parallel_shard_iters of the dataset")
            eq(f.subflavors, c["sub"] or {}, "subflavors of the dataset")


def run_default(c):
    import collections, dataclasses
    from megatron.energon import DefaultTaskEncoder, Sample
    E = dataclasses.make_dataclass("E", ["__key__", "__restore_key__", "__subflavor__", "__subflavors__", "value", "idx"])
    N = collections.namedtuple("N", ["value", "idx"])
    fields = ["__key__", "__restore_key__", "__subflavor__", "__subflavors__", "value", "idx"]
    # namedtuple fields can not start with an underscore: convert to it from a plain dataclass only
    P = dataclasses.make_dataclass("P", ["value", "idx"])
    Q = dataclasses.make_dataclass("Q", ["value", "idx"])
    T = {None: None, "dict": dict, "dc": Q, "nt": N}
    r = T[c["r"]]
    b = T[c["r"]] if c["b"] == "same" else T[c["b"]]
    te = DefaultTaskEncoder(encoded_sample_type=T[c["e"]], raw_batch_type=r, batch_type=b)

    def as_dict(x):
        return x if isinstance(x, dict) else x._asdict() if hasattr(x, "_asdict") else {f.name: getattr(x, f.name) for f in dataclasses.fields(x)}
    ss = [P(value=i, idx=str(i)) for i in range(3)]
    enc = [te.encode_sample(s) for s in ss]
    for s, e in zip(ss, enc):
        eq(type(e), T[c["e"]] or P, "type of the encoded sample")
        eq(as_dict(e), as_dict(s), "fields of the encoded sample")
    raw = te.batch(enc)
    eq(type(raw), r or type(enc[0]), "type of the raw batch")
    want = {"value": [0, 1, 2], "idx": ["0", "1", "2"]}
    eq({k: v.tolist() if hasattr(v, "tolist") else v for k, v in as_dict(raw).items()}, want, "fields of the raw batch")
    bt = te.encode_batch(raw)
    eq(type(bt), b or type(raw), "type of the batch")
    eq({k: v.tolist() if hasattr(v, "tolist") else v for k, v in as_dict(bt).items()}, want, "fields of the batch")
    inputs = ss
    for one in ({"value": 1, "idx": 2}, N(1, 2)):
        e = te.encode_sample(one)
        eq(type(e), T[c["e"]] or type(one), "type of the encoded sample")
        eq(as_dict(e), {"value": 1, "idx": 2}, "fields of the encoded sample")
