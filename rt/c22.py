"""C22 - preparing a dataset."""
import re, struct
from tarutil import *
import c05

RULE = ("numbers of shards x ratio lists or patterns x shuffle seeds; tar files with several kinds of members, empty and broken ones; the written .info.yaml, split.yaml and tar indexes are compared with an "
        "independent count and the partition rules; non-trivial: at least two parts and three shards")


def gen(tier, rng):
    q = tier == "quick"
    ratios = [[1], [0.7, 0.2, 0.1], [0.8, 0.1, 0.1], [1, 1, 1], [0.1] * 10, [3, 0, 1], [0, 1], [0.9, 0.1], [1 / 3, 1 / 3, 1 / 3], [8, 1, 1], [70, 20, 10], [0.6, 0.3, 0.1], [1e-9, 1], [0.5, 0.25, 0.25], [0.33, 0.33, 0.34], [5, 3, 2, 7]]
    for r in ratios:
        for n in (1, 2, 3, 7, 10, 20) if q else range(1, 60):
            yield dict(k="ratio", n=n, r=r, seed=rng.choice([42, None, 7]))
    for _ in range(250 if q else 20000):
        n = rng.choice([0, 1, 2, 3, 5, 9, 10, 13, 30])
        kind = rng.random()
        if kind < .5:
            r = [rng.choice([rng.random(), rng.randint(0, 10), rng.choice([.1, .2, .3, .7, .9])]) for _ in range(rng.randint(1, 6))]
            if sum(r) <= 0:
                r[0] = 1
            yield dict(k="ratio", n=n, r=r, seed=rng.choice([42, None, 7, 0]), bad=rng.random() < .3)
        else:
            pats = rng.sample(["s0.*", "s[0-4].tar", ".*", "s{0..3}.tar", "s{1,2,11}[.]tar", "x", "s1.*", "s{5..9}.tar", "1"], rng.randint(1, 4))
            yield dict(k="pat", n=n, p=pats, bad=rng.random() < .2)
    for _ in range(40 if q else 3000):
        pats = rng.sample(["d0/.*", "d1/s1.*", "d[01]/s.*[.]tar", "d{0,2}/.*", "s1.*", ".*/s1[.]tar", "d2/s{0..9}.tar", "x/.*"], rng.randint(1, 4))
        yield dict(k="pat", n=rng.choice([3, 5, 9, 12]), p=pats, bad=rng.random() < .2, sub=True)
    for _ in range(60 if q else 3000):
        yield dict(k="count", members=[c05.names(rng, rng.randint(0, 9)) for _ in range(rng.randint(1, 4))])


def nontrivial(c):
    return (c["k"] == "count" and len(c["members"]) > 1) or (c.get("n", 0) > 2 and len(c.get("r", c.get("p", []))) > 1)


class Pool:
    """Stands in for multiprocessing.Pool: the same calls in this process."""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def imap(self, f, xs, *a, **k):
        return map(f, xs)
    imap_unordered = imap

    def map(self, f, xs, *a, **k):
        return [f(x) for x in xs]

    def starmap(self, f, xs, *a, **k):
        return [f(*x) for x in xs]

    def close(self):
        pass
    join = terminate = close


_tar = {}


def tarbytes(n):
    if n not in _tar:
        b = io.BytesIO()
        with tarfile.open(fileobj=b, mode="w") as t:
            for i in range(n):
                ti = tarfile.TarInfo(f"{i}.txt")
                ti.size = 1
                t.addfile(ti, io.BytesIO(b"x"))
        _tar[n] = b.getvalue()
    return _tar[n]


def run(c):
    import yaml, logging
    from megatron.energon.flavors.webdataset import prepare
    logging.disable(logging.CRITICAL)
    P = getattr(prepare, "WebdatasetPreparator", None)
    if P is None or not hasattr(P, "prepare_dataset"):
        raise Inapplicable("WebdatasetPreparator.prepare_dataset is gone")
    mods = [m for m in (getattr(prepare, "mp", None), getattr(prepare, "multiprocessing", None)) if m is not None]
    old = [(m, m.Pool) for m in mods]
    with scratch() as d:
        want = {}
        if c["k"] == "count":
            names = [f"s{i}.tar" for i in range(len(c["members"]))]
            for i, m in enumerate(c["members"]):
                write_tar(d / names[i], m)
                n = len(c05.bases(m))
                if n:
                    want[names[i]] = n
        else:
            names = [f"s{i}.tar" for i in range(c["n"])]
            if c.get("sub"):
                names = [f"d{i % 3}/{nm}" for i, nm in enumerate(names)]
                for i in range(3):
                    (d / f"d{i}").mkdir()
            for i, nm in enumerate(names):
                n = (i * 7) % 4 + 1
                if c.get("bad") and i % 3 == 1:
                    (d / nm).write_bytes(b"" if i % 2 else tarbytes(0))
                else:
                    (d / nm).write_bytes(tarbytes(n))
                    want[nm] = n
        kw = dict(split_parts_patterns=[(f"p{i}", p) for i, p in enumerate(c["p"])]) if c["k"] == "pat" else \
            dict(split_parts_ratio=[(f"p{i}", r) for i, r in enumerate(c.get("r", [1]))], shuffle_seed=c.get("seed", 42))
        try:
            for m in mods:
                m.Pool = Pool
            paths = ["s{0..%d}.tar" % (len(names) - 1)] if len(names) > 1 and len(names) % 2 and not c.get("sub") else list(names)
            P.prepare_dataset(d, paths, workers=1, **kw)
        finally:
            for m, p in old:
                m.Pool = p
        info = yaml.safe_load((d / ".nv-meta/.info.yaml").read_text())
        split = yaml.safe_load((d / ".nv-meta/split.yaml").read_text())
        eq(info["shard_counts"], want, "recorded numbers of samples")
        eq(split.get("exclude", []), [], "exclusions")
        parts = split["split_parts"]
        for nm, n in want.items():
            eq(len((d / (nm + ".idx")).read_bytes()) // 8, n + 1, f"entries of the tar index of {nm}")
        if c["k"] == "pat":
            import braceexpand
            eq(set(parts), {f"p{i}" for i in range(len(c["p"]))}, "split parts")
            for i, p in enumerate(c["p"]):
                rs = list(braceexpand.braceexpand(p))
                eq(sorted(parts[f"p{i}"]), sorted(nm for nm in want if any(re.match(r, nm) for r in rs)), f"shards of the part with the pattern {p!r}")
            return
        r = c.get("r", [1])
        eq(set(parts), {f"p{i}" for i in range(len(r))}, "split parts")
        listed = [x for i in range(len(r)) for x in parts[f"p{i}"]]
        eq(sorted(listed), sorted(want), f"shards in all parts together for the ratios {r}")
        if c.get("seed", 42) is None:
            eq(listed, list(want), "order of the shards without shuffling")
        tot, cum, n = 0, 0, 0
        from fractions import Fraction as Fr
        S = sum(map(Fr, r))
        for i, x in enumerate(r):
            tot += Fr(x) / S * len(want)
            n += len(parts[f"p{i}"])
            req(abs(tot - n) < 1 + Fr(1, 10 ** 6), lambda: f"ratios {r}, {len(want)} shards: the first {i + 1} parts got {n} shards, expected about {float(tot):.3f}")
            if x == 0:
                eq(parts[f"p{i}"], [], "part with ratio 0")


def shrink(c):
    if c.get("n", 0) > 1:
        yield dict(c, n=c["n"] - 1)
    for f in ("r", "p", "members"):
        for i in range(len(c.get(f, []))):
            if len(c[f]) > 1:
                yield dict(c, **{f: c[f][:i] + c[f][i + 1:]})
