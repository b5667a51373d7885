"""C24 - batching of tensors and samples."""
from core import *
import dataclasses, collections, typing

RULE = ("random ranks, shapes, dtypes and batch sizes for the padding, stacking and concatenating batchers; nested samples (dict, dataclass, named tuple, plain values) for generic batching and for "
        "TaskEncoder.batch with per-field actions; compared element by element with nested Python lists; non-trivial: more than one sample and different shapes")


def gen(tier, rng):
    q = tier == "quick"

    def shape(r):
        return [rng.choice([0, 1, 1, 2, 3, 4]) for _ in range(r)]

    def field(d):
        k = rng.choice(["t", "t", "v"] + (["d", "dc", "nt"] if d else []))
        if k == "t":
            return [k, rng.randint(0, 3), rng.choice(["int64", "float32", "bool", "uint8", "float64"])]
        if k == "v":
            return [k]
        return [k, {n: field(d - 1) for n in rng.sample(["a", "b", "c", "k"], rng.randint(1, 3))}]
    for _ in range(900 if q else 60000):
        r = rng.randint(0, 4)
        k = rng.choice(["pad", "pad", "stack", "concat", "list"])
        n = rng.randint(1, 5)
        if k == "concat":
            r = max(r, 1)
        sh = [shape(r)] * n if k == "stack" or rng.random() < .15 else [shape(r) for _ in range(n)]
        yield dict(k=k, sh=sh, dt=rng.choice(["int64", "float32", "bool", "uint8", "float16"]), tr=r > 1 and rng.random() < .3)
    for _ in range(900 if q else 60000):
        n = rng.randint(1, 5)
        yield dict(k=rng.choice(["generic", "gconcat"]), f=field(3), n=n, s=rng.randint(0, 10 ** 6))
    for _ in range(500 if q else 30000):
        fs = {x: field(1) for x in rng.sample(["a", "b", "c", "d", "e"], rng.randint(1, 4))}
        yield dict(k="task", t=rng.choice(["dict", "dc", "nt", "sample"]), to=rng.choice(["same", "dict", "dc", "nt"]), fs=fs, acts={x: rng.choice(["list", "pad", "stack"]) for x in fs if rng.random() < .3 and fs[x][0] == "t"},
                   none=rng.random() < .3, n=rng.randint(1, 4), s=rng.randint(0, 10 ** 6), default=rng.random() < .3)


def nontrivial(c):
    return len(c.get("sh", [0] * c.get("n", 1))) > 1


def tens(shape, dt, base, tr=False):
    import torch
    n = 1
    for s in shape:
        n *= s
    x = [((base + i) * 7919 + 3) % 1000 + 1 for i in range(n)]
    dt = getattr(torch, dt)
    t = torch.tensor([(v % 2 if dt is torch.bool else v % 250 + 1) for v in x], dtype=dt).reshape(shape)
    if tr:
        t = t.transpose(0, 1).contiguous().transpose(0, 1)
    return t


def padded(ts):
    """Reference: nested lists of the padded tensors, one entry per slot."""
    m = [max(t.shape[d] for t in ts) for d in range(ts[0].dim())]

    def go(t, d):
        if d == len(m):
            return t.item()
        out = [go(t[i], d + 1) for i in range(t.shape[0])]
        return out + [zero(d + 1) for _ in range(m[d] - len(out))]

    def zero(d):
        return 0 if d == len(m) else [zero(d + 1) for _ in range(m[d])]
    return m, [go(t, 0) for t in ts]


def cmp(got, want, shape, dtype, what):
    import torch
    req(isinstance(got, torch.Tensor), lambda: f"{what}: got {type(got)}, expected a tensor")
    eq(tuple(got.shape), tuple(shape), f"{what}: shape")
    eq(got.dtype, dtype, f"{what}: dtype")
    eq(got.tolist(), want, f"{what}: elements")


def run(c):
    import torch
    from megatron.energon.task_encoder import base
    from megatron.energon.wrappers import mix_batch_dataset as mb
    k = c["k"]
    if k in ("pad", "stack", "concat", "list"):
        ts = [tens(s, c["dt"], 100 * i, c.get("tr")) for i, s in enumerate(c["sh"])]
        keep = [t.clone() for t in ts]
        fn = {"pad": "batch_pad_stack", "stack": "batch_stack", "list": "batch_list", "concat": "concat_pad"}[k]
        mod = mb if k == "concat" else base
        if not hasattr(mod, fn):
            raise Inapplicable(fn + " is gone")
        got = getattr(mod, fn)(list(ts))
        what = f"{fn}({[tuple(s) for s in c['sh']]})"
        req(all(a.shape == b.shape and bool((a == b).all()) for a, b in zip(ts, keep)), what + ": changed its inputs")
        if k == "list":
            req(len(got) == len(ts) and all(a is b for a, b in zip(got, ts)), what + ": not the same elements in order")
        elif k == "concat":
            rest = [max(t.shape[d] for t in ts) for d in range(1, ts[0].dim())]
            rows = []
            for t in ts:
                rows += padded_rows(t, rest)
            cmp(got, rows, [sum(t.shape[0] for t in ts)] + rest, ts[0].dtype, what)
        else:
            m, w = padded(ts)
            cmp(got, w, [len(ts)] + m, ts[0].dtype, what)
        return
    import random as R
    rng = R.Random(c["s"])
    if k in ("generic", "gconcat"):
        fn = "generic_batch" if k == "generic" else "generic_concat"
        mod = base if k == "generic" else mb
        if not hasattr(mod, fn):
            raise Inapplicable(fn + " is gone")
        T = {}
        f = c["f"]
        if k == "gconcat":
            f = norank0(f)
        xs = [mk(f, rng, i, T) for i in range(c["n"])]
        chk(getattr(mod, fn)(list(xs)), f, xs, k, fn, T)
        return
    te(c, rng, base)


def norank0(f):
    if f[0] == "t":
        return [f[0], max(1, f[1]), f[2]]
    return f if f[0] == "v" else [f[0], {k: norank0(x) for k, x in f[1].items()}]


def padded_rows(t, rest):
    import torch
    if not rest:
        return t.tolist()

    def go(t, d):
        if d == len(rest):
            return t.item()
        out = [go(t[i], d + 1) for i in range(t.shape[0])]
        return out + [zero(d + 1) for _ in range(rest[d] - len(out))]

    def zero(d):
        return 0 if d == len(rest) else [zero(d + 1) for _ in range(rest[d])]
    return [go(t[i], 0) for i in range(t.shape[0])]


def cls_of(f, T):
    key = json.dumps(f)
    if key not in T:
        names = list(f[1])
        if f[0] == "dc":
            T[key] = dataclasses.make_dataclass("D", names)
        else:
            T[key] = collections.namedtuple("N", names)
    return T[key]


def mk(f, rng, i, T):
    if f[0] == "t":
        return tens([rng.choice([0, 1, 2, 3]) for _ in range(f[1])], f[2], rng.randint(0, 999))
    if f[0] == "v":
        return rng.choice([f"s{i}", i, None, [i, "x"], (i, 2)])
    v = {n: mk(x, rng, i, T) for n, x in f[1].items()}
    return v if f[0] == "d" else cls_of(f, T)(**v)


def get(x, n):
    return x[n] if isinstance(x, dict) else getattr(x, n)


def chk(got, f, xs, k, what, T):
    if f[0] == "t":
        if k == "gconcat":
            rest = [max(t.shape[d] for t in xs) for d in range(1, xs[0].dim())]
            rows = [r for t in xs for r in padded_rows(t, rest)]
            cmp(got, rows, [sum(t.shape[0] for t in xs)] + rest, xs[0].dtype, what)
        else:
            m, w = padded(xs)
            cmp(got, w, [len(xs)] + m, xs[0].dtype, what)
    elif f[0] == "v":
        req(isinstance(got, list) and len(got) == len(xs) and all(a is b for a, b in zip(got, xs)), lambda: f"{what}: got {got!r}, expected the list {xs!r}")
    else:
        eq(type(got), dict if f[0] == "d" else cls_of(f, T), f"{what}: type")
        if f[0] == "d":
            eq(list(got), list(f[1]), f"{what}: keys")
        for n, x in f[1].items():
            chk(get(got, n), x, [get(v, n) for v in xs], k, f"{what}.{n}", T)


def te(c, rng, base):
    from megatron.energon import DefaultTaskEncoder, Sample
    T = {}
    if c["t"] == "sample":
        fs = dict(c["fs"])
        cls = dataclasses.make_dataclass("S", list(fs), bases=(Sample,), kw_only=True)
        xs = [cls(__key__=f"k{i}", __restore_key__=("rk", i), __subflavor__=f"sf{i}", __subflavors__={"i": i}, **{n: mk(x, rng, i, T) for n, x in fs.items()}) for i in range(c["n"])]
        names = ["__key__", "__restore_key__", "__subflavor__", "__subflavors__"] + list(fs)
        fs = dict({n: ["v"] for n in names[:3]}, __subflavors__=["d", {"i": ["v"]}], **fs)
    else:
        fs = c["fs"]
        f = [dict(dict="d", dc="dc", nt="nt")[c["t"]], fs]
        xs = [mk(f, rng, i, T) for i in range(c["n"])]
        cls = dict if c["t"] == "dict" else cls_of(f, T)
        names = list(fs)
    if c["to"] == "same":
        rt = cls
    elif c["to"] == "dict":
        rt = dict
    elif c["to"] == "dc":
        rt = dataclasses.make_dataclass("R", names)
    else:
        if c["t"] == "sample":
            return
        rt = collections.namedtuple("R", names)
    t = DefaultTaskEncoder()
    if not hasattr(t, "_batch"):
        raise Inapplicable("TaskEncoder._batch is gone")
    acts = dict(c["acts"])
    fnm = dict(list=base.batch_list, pad=base.batch_pad_stack, stack=base.batch_stack)
    for n, a in list(acts.items()):
        if a == "stack" and len({tuple(get(x, n).shape) for x in xs}) > 1:
            del acts[n]
    if c["default"] and c["to"] == "same" and hasattr(t, "batch"):
        acts, got = {}, t.batch(list(xs))
        if c["t"] == "sample" and isinstance(get(got, "__subflavors__"), list):
            fs["__subflavors__"] = ["v"]
    else:
        got = t._batch(list(xs), rt, *([None] if c["none"] and not acts else [{n: fnm[a] for n, a in acts.items()}]))
    what = f"batch of {c['t']} to {c['to']}"
    eq(type(got), rt, what + ": type")
    for n, x in fs.items():
        if acts.get(n) == "list":
            req(all(a is get(b, n) for a, b in zip(get(got, n), xs)) and len(get(got, n)) == len(xs), what + f": field {n}")
        else:
            chk(get(got, n), x, [get(v, n) for v in xs], "generic", f"{what}: field {n}", T)


def shrink(c):
    if "n" in c and c["n"] > 1:
        yield dict(c, n=c["n"] - 1)
    if "sh" in c:
        for i in range(len(c["sh"])):
            if len(c["sh"]) > 1:
                yield dict(c, sh=c["sh"][:i] + c["sh"][i + 1:])
