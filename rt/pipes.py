"""Pipelines of real wrappers built from a JSON spec, and generators of such specs.

spec := ["src", n, loop]            n samples per rank, spread over the workers
      | ["map", m, inner]           m: {salt, fail, skip, gen}
      | ["filter", m, inner] | ["itermap", m, inner]
      | ["batch", {bs, drop, salt, fail, skip, gen}, inner]
      | ["group", {bs or null, groups, drop, salt, fail, skip}, inner]
      | ["pack", {buf, salt, fail, skip, gen}, inner]
      | ["shuffle", size, inner] | ["limit", n, inner] | ["epochize", n, inner] | ["repeat", r, inner]
      | ["concat", inner...] | ["blend", [w...], inner...]
      | ["log", inner] | ["gc", k, inner]
User functions depend on their input value only (and on the sample index where `idx` is set).
"""
import zlib
from sim import *
from megatron.energon.wrappers import *
from megatron.energon.wrappers.skip import SkipSample
from megatron.energon.wrappers.log_sample_dataset import LogSampleDataset
from megatron.energon.wrappers.gc_dataset import GcDataset
from megatron.energon.wrappers.group_batch_dataset import GroupBatchDataset
from megatron.energon.wrappers.packing_dataset import PackingDataset
from megatron.energon.wrappers.iter_map_dataset import IterMapDataset
from megatron.energon.wrappers.filter_dataset import FilterDataset
from megatron.energon.wrappers.limit_dataset import LimitDataset
from megatron.energon.wrappers.repeat_dataset import RepeatDataset
from megatron.energon.wrappers.concat_dataset import ConcatDataset
from megatron.energon.wrappers.blend_dataset import BlendDataset
from megatron.energon.wrappers.epochize_dataset import EpochizeDataset
from megatron.energon.wrappers.shuffle_buffer_dataset import ShuffleBufferDataset
from megatron.energon.wrappers.batch_dataset import BatchDataset
from megatron.energon.wrappers.map_dataset import MapDataset


class UserError(Exception):
    pass


def h(*a):
    return zlib.crc32(repr(a).encode())


def happens(m, what, v):
    """Does user function with settings m fail/skip on value v?  m[what] is a percentage."""
    p = m.get(what, 0)
    return p > 0 and h(what, m.get("salt", 0), v) % 100 < p


def trouble(m, v):
    if happens(m, "fail", v):
        raise UserError(f"user function fails on {v!r}"[:200])
    if happens(m, "skip", v):
        raise SkipSample()


def idx(m):
    return WorkerConfig.active_worker_config.active_worker_sample_index if m.get("idx") else None


def gen_count(m, v):
    return h("gen", m.get("salt", 0), v) % 4


class MapFn:
    def __init__(self, m):
        self.m = m

    def __call__(self, s):
        v = val(s)
        trouble(self.m, v)
        return mk(s, ("m", self.m.get("salt", 0), v), idx(self.m), s.idx)


def mk(src, value, *index):
    return S(__key__=src.__key__, __restore_key__=src.__restore_key__, __subflavor__=None, __subflavors__=None,
             value=value, idx=index)


def mapgen_fn(m):
    def f(s):
        v = val(s)
        trouble(m, v)
        n = gen_count(m, v)
        for i in range(n):
            if i == n - 1 and happens(m, "late", v):
                raise UserError("late failure")
            yield mk(s, ("g", m.get("salt", 0), i, v), idx(m), s.idx)
    return f


class FilterFn:
    def __init__(self, m):
        self.m = m

    def __call__(self, s):
        return not happens(self.m, "skip", val(s))


def itermap_fn(m):
    def f(it):
        for s in it:
            v = val(s)
            if happens(m, "skip", v):
                continue
            if happens(m, "fail", v):
                raise UserError("itermap")
            yield mk(s, ("i", m.get("salt", 0), v), idx(m), s.idx)
    return f


class BatchFn:
    def __init__(self, m, tag="b"):
        self.m, self.tag = m, tag

    def __call__(self, samples):
        v = [val(s) for s in samples]
        trouble(self.m, v)
        return mk(samples[0], (self.tag, tuple(samples and [s.value for s in samples])), idx(self.m),
                  *[s.idx for s in samples])


def batchgen_fn(m, tag="bg"):
    def f(samples):
        v = [val(s) for s in samples]
        trouble(m, v)
        for i in range(gen_count(m, v)):
            yield mk(samples[0], (tag, i, tuple(s.value for s in samples)), idx(m), *[s.idx for s in samples])
    return f


class GroupKey:
    def __init__(self, m):
        self.m = m

    def __call__(self, s):
        v = val(s)
        if happens(self.m, "keyfail", v):
            raise UserError("group key")
        if happens(self.m, "keyskip", v):
            raise SkipSample()
        g = group_of(self.m, v)
        return g, (None if self.m["bs"] is not None else g + 1)


def group_of(m, v):
    return h("group", m.get("salt", 0), v) % m["groups"]


def partition(m, vals):
    """Deterministic partition of positions 0..n-1 into packs; may reorder and leave out samples."""
    n = len(vals)
    order = sorted(range(n), key=lambda i: (h("ord", m.get("salt", 0), vals[i]) % 7, i)) if m.get("reorder") else list(range(n))
    packs, i = [], 0
    while i < n:
        k = 1 + h("pk", m.get("salt", 0), vals[order[i]]) % 3
        packs.append(order[i:i + k])
        i += k
    return packs


class PrePack:
    def __init__(self, m):
        self.m = m

    def __call__(self, samples):
        vals = [val(s) for s in samples]
        mm = dict(self.m, fail=self.m.get("prefail", 0), skip=self.m.get("preskip", 0), salt=("pre", self.m.get("salt", 0)))
        trouble(mm, vals)
        return [[samples[i] for i in p] for p in partition(self.m, vals)]


class Errors:
    """Error handler recording what it was told."""

    def __init__(self, sink=None):
        self.n = 0

    def __call__(self, exc, sample):
        if not isinstance(exc, UserError):
            raise exc
        self.n += 1

    def __deepcopy__(self, memo):
        return self


class Ctx:
    def __init__(self, wc, quiet=True):
        self.wc, self.nsrc = wc, 0
        self.err = Errors()


EXTRA = {}


def build(spec, wc, ctx=None):
    ctx = ctx or Ctx(wc)
    k, a = spec[0], spec[1:]
    kw = dict(worker_config=wc)
    if k == "src":
        n, loop = a
        name = f"D{ctx.nsrc}"
        ctx.nsrc += 1
        items = [[f"{name}.{x}" for x in w] for w in split_items(n, wc.num_workers)]
        return Src(wc, items, name=name, loop=loop)
    if k in ("concat",):
        return ConcatDataset(*[build(s, wc, ctx) for s in a], **kw)
    if k == "blend":
        return BlendDataset(*[(build(s, wc, ctx), w) for w, s in zip(a[0], a[1:])], **kw)
    inner = build(a[-1], wc, ctx)
    m = a[0]
    if k in EXTRA:
        return EXTRA[k](spec, inner, wc)
    if k == "map":
        return MapDataset(inner, mapgen_fn(m) if m.get("gen") else MapFn(m), stateless_map_fn=True, error_handler=ctx.err, **kw)
    if k == "filter":
        return FilterDataset(inner, filter_fn=FilterFn(m), **kw)
    if k == "itermap":
        return IterMapDataset(inner, itermap_fn(m), stateless_iter_fn=True, error_handler=ctx.err, **kw)
    if k == "batch":
        return BatchDataset(inner, m["bs"], batchgen_fn(m) if m.get("gen") else BatchFn(m), batcher_stateless=True,
                            drop_last=m.get("drop", False), error_handler=ctx.err, **kw)
    if k == "group":
        return GroupBatchDataset(inner, fixed_batch_size=m["bs"], sample_group_key=GroupKey(m), batcher=BatchFn(m, "gb"),
                                 batcher_stateless=True, drop_last=m.get("drop", False), error_handler=ctx.err, **kw)
    if k == "pack":
        return PackingDataset(inner, m["buf"], PrePack(m), batchgen_fn(m, "pg") if m.get("gen") else BatchFn(m, "p"),
                              final_packer_stateless=True, error_handler=ctx.err, **kw)
    if k == "shuffle":
        return ShuffleBufferDataset(inner, size=m, **kw)
    if k == "limit":
        return LimitDataset(inner, length=m, **kw)
    if k == "epochize":
        return EpochizeDataset(inner, length=m, **kw)
    if k == "repeat":
        return RepeatDataset(inner, repeats=m, **kw)
    if k == "log":
        return LogSampleDataset(inner, mode="train", **kw)
    if k == "gc":
        return GcDataset(inner, every_n_iter=m, **kw)
    raise ValueError(k)


# -- reference semantics on lists of values (deterministic wrappers only) ------------------------
def ref(spec, w, nw, names=None):
    """Values of one pass of worker w."""
    names = names if names is not None else [0]
    k, a = spec[0], spec[1:]
    if k == "src":
        name = f"D{names[0]}"
        names[0] += 1
        return [f"{name}.{x}" for x in split_items(a[0], nw)[w]]
    if k == "concat":
        return [v for s in a for v in ref(s, w, nw, names)]
    inner = ref(a[-1], w, nw, names)
    m = a[0]
    bad = lambda v, mm=None: happens(mm or m, "fail", v) or happens(mm or m, "skip", v)
    if k == "map":
        if m.get("gen"):
            out = []
            for v in inner:
                if bad(v):
                    continue
                n = gen_count(m, v)
                for i in range(n):
                    if i == n - 1 and happens(m, "late", v):
                        break
                    out.append(["g", m.get("salt", 0), i, v])
            return out
        return [["m", m.get("salt", 0), v] for v in inner if not bad(v)]
    if k == "filter":
        return [v for v in inner if not happens(m, "skip", v)]
    if k == "itermap":
        return [["i", m.get("salt", 0), v] for v in inner if not bad(v)]
    if k == "batch":
        bs = m["bs"]
        cs = [inner[i:i + bs] for i in range(0, len(inner), bs)]
        if m.get("drop") and cs and len(cs[-1]) < bs:
            cs.pop()
        return collate(cs, m, "b", "bg", bad)
    if k == "group":
        buckets, out = {}, []
        for v in inner:
            if happens(m, "keyfail", v) or happens(m, "keyskip", v):
                continue
            g = group_of(m, v)
            bs = m["bs"] if m["bs"] is not None else g + 1
            b = buckets.setdefault(g, [])
            b.append(v)
            if len(b) == bs:
                out.append(list(b))
                b.clear()
        if not m.get("drop"):
            out += [b for b in buckets.values() if b]
        return collate(out, m, "gb", None, bad)
    if k == "pack":
        out = []
        mm = dict(m, fail=m.get("prefail", 0), skip=m.get("preskip", 0), salt=("pre", m.get("salt", 0)))
        for i in range(0, len(inner), m["buf"]):
            win = inner[i:i + m["buf"]]
            if bad(win, mm):
                continue
            out += [[win[j] for j in p] for p in partition(m, win)]
        return collate(out, m, "p", "pg", bad)
    if k == "limit":
        n = m // max(nw, 1) + (1 if w < m % max(nw, 1) else 0)
        return inner[:n]
    if k == "repeat":
        return inner * m
    if k in ("log",):
        return inner
    if k == "gc":
        return inner
    raise Inapplicable(f"no reference for {k}")


def collate(groups, m, tag, gtag, bad):
    out = []
    for c in groups:
        if bad(c):
            continue
        if m.get("gen") and gtag:
            out += [[gtag, i, list(c)] for i in range(gen_count(m, c))]
        else:
            out.append([tag, list(c)])
    return out


# -- random specs ---------------------------------------------------------------------------------
def pct(rng):
    return rng.choice([0, 0, 0, 15, 40])


def rmap(rng, gen=None):
    g = rng.random() < 0.3 if gen is None else gen
    return dict(salt=rng.randrange(100), fail=pct(rng), skip=pct(rng), gen=g, idx=rng.random() < 0.5,
                **({"late": rng.choice([0, 30])} if g else {}))


def stage(rng, kind, inner, finite=True):
    m = rmap(rng)
    if kind == "map":
        return ["map", m, inner]
    if kind == "filter":
        return ["filter", dict(salt=m["salt"], skip=rng.choice([0, 20, 60])), inner]
    if kind == "itermap":
        return ["itermap", dict(salt=m["salt"], skip=pct(rng), fail=pct(rng), idx=m["idx"]), inner]
    if kind == "batch":
        m.pop("late", None)
        return ["batch", dict(m, bs=rng.randint(1, 5), drop=rng.random() < 0.4), inner]
    if kind == "group":
        return ["group", dict(salt=m["salt"], fail=m["fail"], skip=m["skip"], idx=m["idx"], bs=rng.choice([None, 1, 2, 3, 4]),
                              groups=rng.randint(1, 4), drop=rng.random() < 0.4, keyfail=rng.choice([0, 0, 20]),
                              keyskip=rng.choice([0, 0, 20])), inner]
    if kind == "pack":
        return ["pack", dict(salt=m["salt"], fail=m["fail"], skip=m["skip"], idx=m["idx"], buf=rng.randint(1, 6), gen=False,
                             reorder=rng.random() < 0.5, prefail=rng.choice([0, 0, 20]), preskip=rng.choice([0, 0, 20])), inner]
    if kind == "shuffle":
        return ["shuffle", rng.randint(1, 6), inner]
    if kind == "limit":
        return ["limit", rng.randint(0, 14), inner]
    if kind == "epochize":
        return ["epochize", rng.randint(1, 9), inner]
    if kind == "repeat":
        return ["repeat", rng.choice([1, 2, 3]), inner]
    if kind == "log":
        return ["log", inner]
    if kind == "gc":
        return ["gc", rng.randint(1, 4), inner]
    raise ValueError(kind)


def sub_specs(spec):
    return [s for s in spec[1:] if isinstance(s, list) and s and isinstance(s[0], str)]


def simpler(spec):
    """Simpler specs for shrinking."""
    for s in sub_specs(spec):
        yield s
    if spec[0] == "src":
        if spec[1] > 1:
            yield ["src", spec[1] // 2, spec[2]]
            yield ["src", spec[1] - 1, spec[2]]
        return
    for i, s in enumerate(spec):
        if isinstance(s, list) and s and isinstance(s[0], str):
            for t in simpler(s):
                yield spec[:i] + [t] + spec[i + 1:]
        elif isinstance(s, dict):
            for k in ("fail", "skip", "late", "prefail", "preskip", "keyfail", "keyskip", "reorder", "gen", "idx", "drop"):
                if s.get(k):
                    yield spec[:i] + [{**s, k: type(s[k])(0)}] + spec[i + 1:]
