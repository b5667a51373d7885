"""C26 - joined datasets pair the samples at the same position; mismatches are rejected."""
from tarutil import *
from sim import *

RULE = "shard sizes x number of joined datasets x workers x ranks x sequence limit x mismatches (shard sizes, sample keys, missing files); non-trivial: several shards and several workers or a mismatch"


def gen(tier, rng):
    q = tier == "quick"
    for counts in ([3], [2, 4], [1, 0, 5]):
        for nw in (0, 2):
            for nj in (1, 2, 3):
                yield dict(counts=counts, nw=nw, ws=1, nj=nj, msp=None, train=False, seed=1)
    for bad in ("count", "shards", "key", "decode", "excl"):
        for at in range(0, 4):
            for tol in (False, True):
                yield dict(counts=[3, 2], nw=0, ws=1, nj=2, msp=None, train=False, seed=1, bad=bad, at=at, tol=tol)
    for _ in range(40 if q else 3000):
        yield dict(counts=[rng.randint(0, 6) for _ in range(rng.randint(1, 4))], nw=rng.choice([0, 1, 2, 3]), ws=rng.choice([1, 2]),
                   nj=rng.choice([2, 2, 3]), msp=rng.choice([None, 1, 2, 3]), train=rng.random() < .4, seed=rng.randrange(100),
                   bad=rng.choice([None, None, None, "key", "decode", "excl", "swap"]), at=rng.randrange(6), tol=rng.random() < .5,
                   par=rng.choice([None, 1, 2]))


def nontrivial(c):
    return bool(c.get("bad")) or (len(c["counts"]) > 1 and c["nw"] > 1)


_types = {}


def types():
    if not _types:
        from dataclasses import make_dataclass, field
        from megatron.energon import Sample, DefaultGenericWebdatasetFactory
        for j in range(3):
            T = make_dataclass(f"Part{j}", [(f"f{j}", object)], bases=(Sample,))
            _types[j] = T, type(f"Fac{j}", (DefaultGenericWebdatasetFactory,), {"__sample_type__": T})
        _types["J"] = make_dataclass("Joined", [(f"f{j}", object, field(default=None)) for j in range(3)], bases=(Sample,))
    return _types


def run(c):
    from megatron.energon.flavors.webdataset.joined_webdataset import JoinedWebdatasetFactory
    from megatron.energon.epathlib import EPath
    if sum(c["counts"]) == 0:
        return
    T = types()
    bad, at = c.get("bad"), c.get("at", 0)
    total = sum(c["counts"])
    at = at % total
    errors = []

    def handler(e, key):
        errors.append((e, key))
        if not c.get("tol"):
            raise e
    with scratch() as d:
        keys = []
        for j in range(c["nj"]):
            counts = list(c["counts"])
            if j == c["nj"] - 1 and j > 0 and bad == "count":
                counts[at % len(counts)] += 1
            if j == c["nj"] - 1 and j > 0 and bad == "shards":
                counts.append(1)
            n = [0]

            def key(i, k, j=j, n=n):
                p = n[0]
                n[0] += 1
                if bad == "key" and j == c["nj"] - 1 and j > 0 and p == at:
                    return f"{p:05d}x"
                if bad == "swap" and j == c["nj"] - 1 and j > 0 and p in (at, at + 1):
                    return f"{2 * at + 1 - p:05d}"
                return f"{p:05d}"
            excl = [f"s0.tar/{0:05d}"] if bad == "excl" else []
            ks = simple_dataset(d / f"d{j}", counts, exts=("txt",), key=key, exclude=excl)
            keys.append(ks)
        expect_reject = bad in ("count", "shards") and c["nj"] > 1
        yielded = {}
        lost_ok = set()
        for rank in range(c["ws"]):
            wc = WorkerConfig(rank=rank, world_size=c["ws"], num_workers=c["nw"], seed_offset=c["seed"])
            inner = []
            for j in range(c["nj"]):
                def ld(s, j=j):
                    if bad == "decode" and j == c["nj"] - 1 and s["__key__"].endswith(f"/{at:05d}"):
                        raise ValueError("decode")
                    return {f"f{j}": s["txt"].decode()}
                inner.append(T[j][1](EPath(str(d / f"d{j}")), sample_loader=ld, part_filter=["txt"], split_part="train", training=c["train"],
                                     worker_config=wc, handler=handler))
            try:
                fac = JoinedWebdatasetFactory(inner, training=c["train"], worker_config=wc, max_samples_per_sequence=c["msp"],
                                              parallel_shard_iters=c.get("par") if c["train"] else None, joiner=T["J"], handler=handler)
            except (AssertionError, ValueError) as e:
                req(expect_reject, f"valid datasets rejected: {e}")
                return
            req(not expect_reject, f"datasets with differing {bad} were not rejected")
            eq(len(fac), total, "len() of the joined dataset")
            ds = fac.build()
            for w in range(max(c["nw"], 1)):
                sw = SimWorker(ds, wc, w)
                try:
                    with as_worker(wc, w):
                        has = ds.worker_has_samples()
                    if not has:
                        continue
                    own = [sub for sub in ds.dataset.shards[w]]
                    nown = sum(s[0].count for s in own)
                    if c["train"] and bad in ("excl", "decode", "key", "swap"):
                        continue
                    got = []
                    if c["train"]:
                        got, _ = sw.take(nown)
                    else:
                        while True:
                            try:
                                got.append(sw.next())
                            except StopIteration:
                                break
                    err = None
                except Violation:
                    raise
                except Exception as e:
                    err = e
                if err is not None:
                    req(bad in ("key", "swap", "decode") and c["nj"] > 1 or bad == "decode", f"joining corresponding datasets failed: {type(err).__name__}: {err}")
                    lost_ok.add("all")
                for s in got:
                    k = s.__key__
                    sh, name = k.split("/", 1)
                    pos = keys[0][sh].index(name)
                    for j in range(c["nj"]):
                        # (samples which were swapped may still meet again by their key)
                        wantk = name if bad == "swap" else keys[j][sh][pos]
                        eq(getattr(s, f"f{j}"), content(f"d{j}/{sh}", f"{wantk}.txt").decode(), f"column {j} of the joined sample {k}")
                        eq(wantk, name, f"sample key of column {j} paired with {k}")
                    gpos = sum(c["counts"][:int(sh[1:-4])]) + pos
                    yielded[gpos] = yielded.get(gpos, 0) + 1
                    if not (bad == "excl"):
                        rk = s.__restore_key__
                        back = sw.restore_sample(rk)
                        eq((back.__key__, back.__restore_key__, [getattr(back, f"f{j}") for j in range(3)]),
                           (k, rk, [getattr(s, f"f{j}") for j in range(3)]), f"joined sample restored from {rk}")
        if c["train"] and bad:
            return
        want = {p: 1 for p in range(total)}
        if bad == "excl":
            first = next(i for i, n in enumerate(c["counts"]) if True)
            if c["counts"][0] > 0:
                want.pop(0)
        if bad == "decode":
            want.pop(at)
            if "all" in lost_ok:
                return
        if bad in ("key", "swap") and c["nj"] > 1:
            req(errors or "all" in lost_ok, f"samples with different keys were joined without any error: {yielded}") if bad == "key" or at + 1 < total else None
            req(set(yielded) <= set(want), "positions")
            return
        eq(yielded, want, "how often every position was yielded")


def shrink(c):
    for i in range(len(c["counts"])):
        if c["counts"][i] > 0:
            l = list(c["counts"])
            l[i] -= 1
            yield dict(c, counts=l)
    if c["nw"]:
        yield dict(c, nw=c["nw"] - 1)
