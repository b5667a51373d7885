"""C27 - cookers, exclusion, field mappings and failing samples: the first matching rule decides, for the sample concerned only."""
from tarutil import *
from sim import *

RULE = ("cooker lists x crude samples x failing cookers; field descriptions x nested values; datasets with excluded shards and samples, decoding "
        "failures x workers x cookers; non-trivial: at least one rule matches and one does not, or something is excluded or fails")

VALS = ["a", "b", 1, None, True]
KEYS = ["k", "l", "m"]


def gen(tier, rng):
    q = tier == "quick"
    for n in range(0, 3):
        for c in range(3):
            yield dict(k="cook", cookers=[dict(sub="a" if i == c else "b") for i in range(n)], samples=[dict(sub="a", subs={}), dict(sub="c", subs={})], nw=0)
    fixed = ["a", "a,b", "json[x]", "json[x][y]", "json[x],json[y]", "json[l][0],b", "json[l][1][y]", "c,json[x]", "json[q],txt", "a.b[c-d][e f]", "json[0]", "json[l][9],txt",
             "json[l][z],txt", "txt[x],a"]
    for f in fixed:
        for v in range(4):
            yield dict(k="field", f=f, v=v)
    for j in range(6):
        yield dict(k="ds", counts=[3, 2, 4], excl=[["s", 1]] if j % 2 else [["x", 0, 1], ["x", 2, 3]], fail=[j], cook=j % 3, nw=j % 3, msp=None, train=False, seed=j)
    for i in range(400 if q else 20000):
        r = rng.random()
        if r < .6:
            def dic():
                return {rng.choice(KEYS): rng.choice(VALS) for _ in range(rng.randint(0, 3))}
            n = rng.randint(1, 5)
            yield dict(k="cook", nw=rng.choice([0, 1, 2]),
                       cookers=[dict(sub=rng.choice([None, None, "a", "b", ""]), subs=rng.choice([None, dic(), {}]), cond=rng.choice([None, None, 0, 1, 2]),
                                     fail=rng.random() < .15) for _ in range(n)],
                       samples=[dict(sub=rng.choice(["a", "b", None, ""]), subs=dic(), crude=rng.random() < .9) for _ in range(rng.randint(1, 8))])
        elif r < .8:
            def path():
                return rng.choice(["a", "b", "json", "txt", "c"]) + "".join(f"[{rng.choice(['x', 'y', 'l', '0', '1', 'z'])}]" for _ in range(rng.choice([0, 0, 1, 1, 2, 3])))
            yield dict(k="field", f=",".join(path() for _ in range(rng.randint(1, 3))), v=rng.randrange(4))
        elif r < .9 or not q:
            counts = [rng.randint(0, 5) for _ in range(rng.randint(1, 4))]
            yield dict(k="ds", counts=counts, fail=[rng.randrange(20) for _ in range(rng.randint(0, 3))], cook=rng.randrange(3), nw=rng.choice([0, 1, 2, 3]), train=rng.random() < .4,
                       msp=rng.choice([None, None, 1, 2]), seed=rng.randrange(100),
                       excl=[rng.choice([["s", rng.randrange(len(counts))], ["x", rng.randrange(len(counts)), rng.randrange(6)], ["b", rng.randrange(len(counts)), 0, rng.randrange(1, 4)]])
                             for _ in range(rng.randint(0, 3))])


def nontrivial(c):
    return len(c.get("cookers", [])) > 1 or "," in c.get("f", "") or bool(c.get("excl") or c.get("fail"))


VALUES = [{"a": 1, "b": [1, 2], "json": {"x": {"y": 5, "x": 6}, "y": None, "l": [{"y": 3}, [7, 8]], "0": "zero", "z": 0}, "txt": "hello"},
          {"b": {"x": 3}, "json": [1, {"x": 2}, [3]], "txt": ""}, {"json": {"x": False}, "c": {"x": {"x": {"x": 1}}, "l": []}}, {"a": None, "txt": "t", "a.b": {"c-d": {"e f": 9}}}]


class Missing(Exception):
    pass


def ref_access(value, f):
    def one(v, path):
        for p in path:
            if isinstance(v, dict):
                if p not in v:
                    raise Missing
                v = v[p]
            elif isinstance(v, list):
                try:
                    v = v[int(p)]
                except (ValueError, IndexError):
                    raise Missing
            else:
                raise Missing
        return v
    opts = []
    for o in f.split(","):
        name, *rest = o.split("[")
        opts.append([name] + [r[:-1] for r in rest])
    for o in opts:
        try:
            return one(value, o)
        except Missing:
            pass
    raise Missing


def run(c):
    return {"cook": run_cook, "field": run_field, "ds": run_ds}[c["k"]](c)


def run_field(c):
    from megatron.energon.flavors.webdataset.field_access import split_field_access, field_access
    v = VALUES[c["v"]]
    try:
        want = ("value", ref_access(v, c["f"]))
    except Missing:
        want = ("error",)
    try:
        got = ("value", field_access(v, split_field_access(c["f"])))
    except (KeyError, ValueError, IndexError, TypeError):
        got = ("error",)
    if got != want or (len(got) > 1 and type(got[1]) is not type(want[1])):
        raise Violation(f"field {c['f']!r} of {v!r}: got {got}, expected {want}")
    parts = {o[0] for o in split_field_access(c["f"])}
    eq(parts, {o.split("[")[0] for o in c["f"].split(",")}, f"parts needed by {c['f']!r}")


def conds(i):
    return [lambda s: s["n"] % 2 == 0, lambda s: s["n"] % 3 == 1, lambda s: "k" in s["__subflavors__"]][i]


def matches(ck, s):
    if ck.get("sub") is not None and s["__subflavor__"] != ck["sub"]:
        return False
    if ck.get("subs") is not None and not all(k in s["__subflavors__"] and s["__subflavors__"][k] == v for k, v in ck["subs"].items()):
        return False
    return ck.get("cond") is None or bool(conds(ck["cond"])(s))


def run_cook(c):
    from megatron.energon import Cooker, basic_sample_keys, TaskEncoder
    from megatron.energon.flavors.crude import CrudeSample
    from megatron.energon.wrappers import MapDataset
    wc = WorkerConfig(rank=0, world_size=1, num_workers=c["nw"])
    seen, errors = [], []

    def mkcook(i, fail):
        def cook(s):
            seen.append((i, s["__key__"]))
            if fail:
                raise ValueError(f"cook {i}")
            return S(**basic_sample_keys(s), value=(i, s["n"]))
        return cook

    class TE(TaskEncoder):
        cookers = [Cooker(cook=mkcook(i, k.get("fail")), is_subflavor=k.get("sub"), has_subflavors=copy.deepcopy(k.get("subs")),
                          condition=None if k.get("cond") is None else conds(k["cond"])) for i, k in enumerate(c["cookers"])]
    te = TE()

    class CrudeSrc(Src):
        def mk(self, w, i):
            s = c["samples"][self.items[w][i]]
            base = dict(__key__=f"{w}/{i}", __restore_key__=("Src", self.name, w, i), __subflavor__=s["sub"], __subflavors__=copy.deepcopy(s["subs"]))
            n = self.items[w][i]
            return CrudeSample(n=n, **base) if s.get("crude", True) else S(value=("plain", n), **base)
    src = CrudeSrc(wc, split_items(len(c["samples"]), c["nw"]))
    ds = te.build_cook_crude_sample(src, worker_config=wc)
    if not c["cookers"]:
        for w in range(max(1, c["nw"])):
            got = SimWorker(ds, wc, w, fork=False).epoch()
            eq([g.__key__ if isinstance(g, S) else g["__key__"] for g in got], [f"{w}/{i}" for i in range(len(src.items[w]))], "samples without cookers")
        with as_worker(wc, 0):
            wc.worker_activate(0)
            try:
                te.cook_crude_sample(CrudeSample(__key__="x", __subflavor__=None, __subflavors__={}, n=0))
            except NotImplementedError:
                pass
            else:
                raise Violation("no error for a crude sample without a cooker")
            finally:
                wc.worker_deactivate()
        return
    ds.error_handler = lambda e, s: errors.append((type(e).__name__, str(e), s["__key__"]))
    for w in range(max(1, c["nw"])):
        want, wseen, werr = [], [], []
        for i, n in enumerate(src.items[w]):
            s = src.mk(w, i)
            if isinstance(s, S):
                want.append((s.__key__, ("plain", n)))
                continue
            m = [j for j, ck in enumerate(c["cookers"]) if matches(ck, s)]
            if not m:
                werr.append(("NotImplementedError", s["__key__"]))
                continue
            wseen.append((m[0], s["__key__"]))
            if c["cookers"][m[0]].get("fail"):
                werr.append(("ValueError", s["__key__"]))
            else:
                want.append((s["__key__"], (m[0], n)))
        seen.clear(), errors.clear()
        sw = SimWorker(ds, wc, w, fork=False)
        got = sw.epoch()
        eq([(g.__key__, g.value) for g in got], want, f"worker {w}: cooked samples")
        eq(seen, wseen, f"worker {w}: cookers called")
        eq([(t, k) for t, _, k in errors], werr, f"worker {w}: errors reported")
        for g in got:
            i = int(g.__key__.split("/")[1])
            eq((g.__subflavor__, g.__subflavors__), (c["samples"][src.items[w][i]]["sub"], c["samples"][src.items[w][i]]["subs"]), "subflavors of a cooked sample")
            eq(sig(sw.restore_sample(g.__restore_key__)), sig(g), "cooked sample rebuilt from its restore key")


_types = {}


def types():
    if not _types:
        from dataclasses import make_dataclass
        from megatron.energon import Sample
        from megatron.energon.flavors.webdataset.default_decoder_webdataset import DefaultDecoderWebdatasetFactory
        T = make_dataclass("Txt", [("text", object), ("num", object)], bases=(Sample,))
        _types["T"] = T
        _types["F"] = type("TxtFactory", (DefaultDecoderWebdatasetFactory,), {"__sample_type__": T})
    return _types["T"], _types["F"]


def run_ds(c):
    from megatron.energon.epathlib import EPath
    from megatron.energon import CrudeWebdataset, Cooker, TaskEncoder, basic_sample_keys
    total = sum(c["counts"])
    if total == 0:
        return
    T, F = types()
    fails = {f % total for f in c["fail"]}
    nr = {}

    def data(i, j, e):
        n = sum(c["counts"][:i]) + j
        return (b"{bad json" if n in fails else json.dumps({"n": n, "sub": [n * 2]}).encode()) if e == "json" else f"text {n}".encode()
    excl, gone = [], set()
    for e in c["excl"]:
        if e[0] == "s":
            excl.append(f"s{e[1]}.tar")
            gone |= {(e[1], j) for j in range(c["counts"][e[1]])}
        else:
            off = sum(c["counts"][:e[1]])
            js = [e[2]] if e[0] == "x" else list(range(e[2], e[3] + 1))
            excl.append(f"s{e[1]}.tar/{off + js[0]:05d}" if len(js) == 1 else "s%d.tar/{%05d..%05d}" % (e[1], off + js[0], off + js[-1]))
            gone |= {(e[1], j) for j in js if j < c["counts"][e[1]]}
    if not [1 for i, k in enumerate(c["counts"]) if f"s{i}.tar" not in excl]:
        return
    want = [sum(c["counts"][:i]) + j for i, k in enumerate(c["counts"]) for j in range(k) if (i, j) not in gone]
    errors = []

    def handler(e, key):
        errors.append(key)
    with scratch() as d:
        simple_dataset(d / "ds", c["counts"], exts=("json", "txt"), data=data, exclude=excl)
        wc = WorkerConfig(rank=0, world_size=1, num_workers=c["nw"])
        kw = dict(split_part="train", training=c["train"], worker_config=wc, max_samples_per_sequence=c["msp"], handler=handler, subflavors={"set": "one"})
        if c["cook"]:
            fac = CrudeWebdataset(EPath(str(d / "ds")), **kw)
        else:
            fac = F(EPath(str(d / "ds")), field_map=dict(text="txt", num="json[n]"), **kw)
        with contextlib.redirect_stdout(io.StringIO()):
            ds = fac.build()
        if c["cook"]:
            def cook(s):
                n = int(s["txt"].split()[1])
                if c["cook"] == 2 and n % 4 == 0:
                    raise ValueError("cook")
                return T(**basic_sample_keys(s), text=s["txt"], num=s["json"]["n"])

            class TE(TaskEncoder):
                cookers = [Cooker(cook, has_subflavors={"set": "two"}), Cooker(cook, has_subflavors={"set": "one"}), Cooker(lambda s: 1 / 0)]
            ds = TE().build_cook_crude_sample(ds, worker_config=wc)
            cerr = []
            ds.error_handler = lambda e, s: cerr.append(s["__key__"])
        good = [n for n in want if n not in fails and not (c["cook"] == 2 and n % 4 == 0)]
        got, ended = [], 0
        for w in range(max(1, c["nw"])):
            sw = SimWorker(ds, wc, w, fork=False)
            part = []
            if c["train"]:
                with as_worker(wc, w):
                    has = ds.worker_has_samples()
                if not has:
                    continue
                # one epoch: the inner loader counts them
                continue
            part = sw.epoch(1000)
            ns = [s.num for s in part]
            eq(ns, sorted(ns), f"worker {w}: order of the samples")
            for s in part:
                eq(s.text, f"text {s.num}", "text of the sample")
                eq(s.__key__.rsplit("/", 1)[-1], f"{s.num:05d}", "key of the sample")
                eq(s.__subflavors__, {"set": "one"}, "subflavors")
            got += ns
        if not c["train"]:
            eq(sorted(got), sorted(good), f"samples yielded (excluded {sorted(gone)}, undecodable {sorted(fails)})")
            eq(sorted(k.rsplit("/", 1)[-1] for k in errors), sorted(f"{n:05d}" for n in want if n in fails), "samples reported to the error handler")
            if c["cook"]:
                eq(sorted(k.rsplit("/", 1)[-1] for k in cerr), sorted(f"{n:05d}" for n in want if n not in fails and c["cook"] == 2 and n % 4 == 0), "samples which could not be cooked")
        elif good:
            # endless: all and only the wanted samples appear
            need = 0
            for w in range(max(1, c["nw"])):
                with as_worker(wc, w):
                    rs = ds.worker_has_samples()
                mine = [n for n in good]
                sw = SimWorker(ds, wc, w, fork=False)
                if not rs:
                    continue
                shards_w = fac.shard_workers([(s,) for s in fac.shards], wc, max_samples_per_sequence=None)[w]
                mine = sorted(n for (sh,) in shards_w for j in range(sh.offset, sh.offset + sh.count)
                              for n in [sum(c["counts"][:int(sh.name[1:-4])]) + j] if n in good)
                if not mine:
                    continue
                part = [s.num for s in sw.run(2 * len(mine)) if s is not None]
                eq(sorted(part[:len(mine)]), mine, f"worker {w}: samples of the first epoch")
                eq(sorted(part[len(mine):]), mine, f"worker {w}: samples of the second epoch")
