"""C09 - batching."""
from passes import *

RULE = "input length x batch size x drop_last x workers x failing/skipping/generating batchers; non-trivial: more than one batch"


def gen(tier, rng):
    q = tier == "quick"
    for n in range(0, 14 if q else 40):
        for bs in range(1, 6 if q else 12):
            for drop in (False, True):
                for nw in (0, 1, 2, 3):
                    yield dict(n=n, m=dict(bs=bs, drop=drop, salt=1), nw=nw)
    for _ in range(400 if q else 20000):
        m = rmap(rng)
        m.pop("late", None)
        yield dict(n=rng.randint(0, 30), nw=rng.choice([0, 1, 2, 3, 4]),
                   m=dict(m, bs=rng.randint(1, 7), drop=rng.random() < .4))


def nontrivial(c):
    return c["n"] > c["m"]["bs"]


def run(c):
    spec = ["batch", c["m"], ["src", c["n"], False]]
    nw, m = c["nw"], c["m"]
    ds, out = check_ref(spec, nw)
    plain = not m.get("fail") and not m.get("skip") and not m.get("gen")
    if plain:
        eq(len(ds), sum(len(norm(ref(spec, w, nw))) for w in workers(nw)), "len() against the batches yielded over all workers")
    for sw, got in out:
        seen = {}
        for s in got:
            groups = s.value[1] if not m.get("gen") else s.value[2]
            names = [x for x in groups]
            k = s.__restore_key__
            eq(k[0], "BatchDataset", "restore key head")
            inner = k[3:] if m.get("gen") else k[2:]
            want = tuple(("Src", "D0", sw.wid, src_index(sw, x)) for x in names)
            eq(tuple(inner), want, "restore keys inside the batch key")
            seen.setdefault(k[1], []).append(k)
        # one own sample index per batch, in increasing order
        idxs = [s.__restore_key__[1] for s in got]
        if m.get("gen"):
            req(all(a <= b for a, b in zip(idxs, idxs[1:])), f"sample indices of batches {idxs}")
        else:
            req(all(a < b for a, b in zip(idxs, idxs[1:])), f"sample indices of batches {idxs}")
    if c["n"]:
        k = c["n"] % 5
        resume_check(spec, nw, [[(k + w) % 4 for w in workers(nw)]], 12)


def src_index(sw, name):
    items = sw_src(sw.ds).items[sw.wid]
    return items.index(name)


def sw_src(ds):
    while not isinstance(ds, Src):
        ds = ds.dataset
    return ds
