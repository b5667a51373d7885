"""C19 - nested mixtures: leaf datasets, weights, split parts, subflavors, shuffle factors."""
from tarutil import *
from sim import *
from fractions import Fraction

RULE = "trees of metadataset files (both versions), blends, joins and references with random weights, split parts, subflavors, shuffle factors and split configs; non-trivial: nesting or several leaves"

DS = ("a", "b", "c")
SPLITS = {"split.yaml": {"train": ["s0.tar"], "val": ["s1.tar"], "test": ["s2.tar"], "q": ["s0.tar", "s2.tar"]},
          "alt.yaml": {"train": ["s1.tar"], "val": ["s2.tar"], "test": ["s0.tar"], "q": ["s1.tar", "s2.tar"]}}
YSUB = {"a": None, "b": {"own": "b", "x": "yaml"}, "c": {}}


def gen(tier, rng):
    q = tier == "quick"

    def subs():
        return rng.choice([None, None, {}, {k: rng.randrange(5) for k in rng.sample("xyz", rng.randint(1, 3))}])

    def opts(kind):
        o = {}
        if rng.random() < .4:
            o["split_part"] = rng.choice(["train", "val", "q"] if kind == "ds" else ["train", "val"])
        s = subs()
        if s is not None:
            o["subflavors"] = s
        if rng.random() < .2:
            o["subflavor"] = rng.choice("mn")
        if rng.random() < .4:
            o["shuffle_over_epochs_multiplier"] = rng.choice([1, 2, 3, 5, -1])
        if kind in ("ds", "join") and rng.random() < .25:
            o["split_config"] = rng.choice(["alt.yaml", "split.yaml"])
        return o

    def ref(depth, v):
        if depth > 0 and rng.random() < .6:
            return dict(t="md", md=md(depth - 1, rng.choice([1, 2]) if v == 2 else 1), **opts("md"))
        return dict(t="ds", path=rng.choice(DS), **opts("ds"))

    def join():
        n = rng.choice([2, 2, 3])
        return dict(t="join", join=[dict(t="ds", path=rng.choice(DS), **{k: v for k, v in opts("ds").items() if k != "shuffle_over_epochs_multiplier"}) for _ in range(n)],
                    named=rng.random() < .4, **opts("join"))

    def blend(depth, v):
        items = []
        for _ in range(rng.randint(1, 4)):
            it = join() if v == 2 and rng.random() < .25 else ref(depth, v)
            if rng.random() < .8:
                it["weight"] = rng.choice([1, 2, 3, .5, .25, 7, 1.5])
            items.append(it)
        return dict(t="blend", items=items)

    def node(depth, v):
        if v == 1:
            return blend(depth, v)
        r = rng.random()
        return blend(depth, v) if r < .65 else join() if r < .8 else ref(depth, v)

    def md(depth, v):
        return dict(v=v, splits={s: node(depth, v) for s in ("train", "val")})
    for i in range(250 if q else 20000):
        yield dict(md=md(rng.choice([0, 1, 1, 2, 3]), rng.choice([1, 2, 2])), split=rng.choice(["train", "val"]), subs=rng.choice([None, None, {"x": "outer", "w": 1}]),
                   mult=rng.choice([1, 1, 2, 4, -1]), train=rng.random() < .7)
    for i in range(20):
        yield dict(md=None, ds=rng.choice(DS), split=rng.choice(["train", "val", "q"]), subs=rng.choice([None, {"x": 1}]), mult=rng.choice([1, 3, -1]), train=i % 2 == 0)


def nontrivial(c):
    return c["md"] is not None and len(json.dumps(c["md"])) > 300


def mul(a, b):
    return -1 if -1 in (a, b) else a * b


def leaves(node, sp, sub, subs, mult):
    t = node["t"]
    if t == "blend":
        tot = sum(Fraction(i.get("weight", 1)) for i in node["items"])
        return [(w * Fraction(i.get("weight", 1)) / tot, l) for i in node["items"] for w, l in leaves(i, sp, sub, subs, mult)]
    sp = node.get("split_part") or sp
    sub = sub or node.get("subflavor")
    if node.get("subflavors") is not None:
        subs = {**node["subflavors"], **(subs or {})}
    mult = mul(mult, node.get("shuffle_over_epochs_multiplier", 1))
    if t == "md":
        return leaves(node["md"]["splits"][sp], sp, sub, subs, mult)
    if t == "ds":
        return [(Fraction(1), leaf(node, sp, sub, subs, mult, None))]
    parts = []
    for j in node["join"]:
        (_, l), = leaves(j, sp, sub, subs, mult)
        if node.get("split_config"):
            l = leaf(j, j.get("split_part") or sp, None, None, None, node["split_config"]) | {k: l[k] for k in ("subs", "mult", "sub")}
        parts.append(l)
    return [(Fraction(1), dict(join=parts, mult=mult))]


def leaf(node, sp, sub, subs, mult, cfg):
    y = YSUB[node["path"]]
    full = subs if y is None else {**y, **(subs or {})}
    return dict(path=node["path"], shards=SPLITS[cfg or node.get("split_config", "split.yaml")][sp], subs=full or {}, mult=mult, sub=sub)


def write(d, md, n):
    """Writes the metadataset file, returns its name."""
    import yaml

    def conv(x):
        o = {k: v for k, v in x.items() if k in ("split_part", "subflavors", "subflavor", "shuffle_over_epochs_multiplier", "split_config", "weight")}
        if x["t"] == "blend":
            return {"blend" if md["v"] == 2 else "datasets": [conv(i) for i in x["items"]]}
        if x["t"] == "join":
            js = [conv(j) for j in x["join"]]
            o["join"] = {f"k{i}": j for i, j in enumerate(js)} if x["named"] else js
            o["joiner"] = {"__module__": "megatron.energon", "__class__": "TextSample"}
        elif x["t"] == "md":
            o["path"] = write(d, x["md"], n)
        else:
            o["path"] = x["path"]
        return o
    n[0] += 1
    name = f"m{n[0]}.yaml"
    doc = {"__module__": "megatron.energon", "__class__": "MetadatasetV2" if md["v"] == 2 else "Metadataset", "splits": {k: conv(s) for k, s in md["splits"].items()}}
    (d / name).write_text(yaml.dump(doc))
    return name


_tmpl = {}


def datasets(d):
    if "d" not in _tmpl:
        import atexit
        t = scratch()
        r = t.__enter__()
        atexit.register(lambda: t.__exit__())
        for j, n in enumerate(DS):
            y = "sample_type:\n  __module__: megatron.energon\n  __class__: TextSample\nfield_map:\n  text: txt\n" + ("" if YSUB[n] is None else "subflavors: " + json.dumps(YSUB[n]) + "\n")
            simple_dataset(r / n, [2, 2, 2], exts=("txt",), yaml_=y)
            import yaml
            for f, s in SPLITS.items():
                (r / n / ".nv-meta" / f).write_text(yaml.dump({"split_parts": s, "exclude": []}))
        _tmpl["d"], _tmpl["t"] = r, t
    for n in DS:
        shutil.copytree(_tmpl["d"] / n, d / n)


def desc(f):
    from megatron.energon.flavors.webdataset.joined_webdataset import JoinedWebdatasetFactory
    if isinstance(f, JoinedWebdatasetFactory):
        parts = [desc(x) for x in f.inner_datasets]
        return dict(join=parts, mult=f.shuffle_over_epochs)
    return dict(path=f.path.name, shards=[s.name for s in f.shards], subs=f.subflavors or {}, mult=f.shuffle_over_epochs, sub=f.subflavor)


def run(c):
    from megatron.energon.metadataset.loader import load_dataset
    wc = WorkerConfig(rank=0, world_size=1, num_workers=0)
    with scratch() as d:
        datasets(d)
        if c["md"] is None:
            path = d / c["ds"]
            want = leaves(dict(t="ds", path=c["ds"]), c["split"], None, c["subs"], c["mult"])
        else:
            path = d / write(d, c["md"], [0])
            want = leaves(c["md"]["splits"][c["split"]], c["split"], None, c["subs"], c["mult"])
        outer = copy.deepcopy(c["subs"])
        ld = load_dataset(path)
        if any(len({len(p["shards"]) for p in l["join"]}) > 1 for _, l in want if "join" in l):
            try:
                ld.get_datasets(training=c["train"], split_part=c["split"], worker_config=wc)
            except AssertionError:
                return
            raise Violation("datasets with different numbers of shards were joined")
        for again in range(2):
            got = ld.get_datasets(training=c["train"], split_part=c["split"], worker_config=wc, shuffle_over_epochs_multiplier=c["mult"],
                                  **({} if c["subs"] is None else {"subflavors": outer}))
            eq([desc(f) for f, _ in got], [l for _, l in want], "leaf datasets" + (" of a second load" if again else ""))
            for (f, w), (ww, l) in zip(got, want):
                req(abs(w - float(ww)) < 1e-9, f"weight of {l}: {w}, expected {float(ww)}")
                eq(f.training, c["train"], "training flag")
            req(abs(sum(w for _, w in got) - 1) < 1e-9, f"weights sum to {sum(w for _, w in got)}")
        eq(outer, c["subs"], "subflavors passed by the caller (must not be modified)")
        req(len({id(f) for f, _ in got}) == len(got), "leaf datasets are distinct objects")
        # what the samples show
        for f, _ in got:
            if "join" in desc(f):
                continue
            s = [x for x in SimWorker(f.build(), wc, 0, fork=False).take(2)[0]] if not c["train"] else []
            for x in s:
                eq(x.__subflavors__, desc(f)["subs"], "subflavors of a sample")
