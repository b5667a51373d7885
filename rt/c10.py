"""C10 - group batching."""
from passes import *

RULE = "input length x number of groups x batch sizes x drop_last x workers x failing keys/batchers x saves; non-trivial: two or more groups and more samples than one batch"


def gen(tier, rng):
    q = tier == "quick"
    for n in (0, 1, 2, 3, 5, 8, 13, 21):
        for bs in (None, 1, 2, 3, 4):
            for g in (1, 2, 3):
                for drop in (False, True):
                    for nw in (0, 1, 2):
                        yield dict(n=n, m=dict(bs=bs, groups=g, drop=drop, salt=n), nw=nw, save=(n + g) % 4)
    for _ in range(700 if q else 30000):
        yield dict(n=rng.randint(0, 40), nw=rng.choice([0, 1, 2, 3]), m=stage(rng, "group", None)[1], save=rng.randint(0, 8))


def nontrivial(c):
    return c["m"]["groups"] > 1 and c["n"] > (c["m"]["bs"] or 1)


def run(c):
    spec = ["group", c["m"], ["src", c["n"], False]]
    nw, m = c["nw"], c["m"]
    ds, out = check_ref(spec, nw)
    for sw, got in out:
        for s in got:
            k = s.__restore_key__
            inner = tuple(x for x in k if isinstance(x, tuple))
            want = tuple(("Src", "D0", sw.wid, sw_src(sw.ds).items[sw.wid].index(x)) for x in s.value[1])
            eq(inner, want, "restore keys inside the batch key")
    # indices of batches: one of its own per batcher call
    for w in workers(nw):
        idxs = [s.idx[0] for sw, got in out if sw.wid == w for s in got]
        if m.get("idx") and len(idxs) > 1:
            req(all(a < b for a, b in zip(idxs, idxs[1:])) or not got_one_pass(out, w), f"sample indices of batches {idxs}")
    if c["n"]:
        resume_check(spec, nw, [[c["save"]] * max(nw, 1), [(c["save"] + w) % 3 for w in workers(nw)]], 14)


def got_one_pass(out, w):
    return True


def sw_src(ds):
    while not isinstance(ds, Src):
        ds = ds.dataset
    return ds


def shrink(c):
    if c["n"] > 0:
        yield dict(c, n=c["n"] - 1)
    if c["save"]:
        yield dict(c, save=c["save"] - 1)
    for k in ("fail", "skip", "keyfail", "keyskip", "drop", "idx"):
        if c["m"].get(k):
            yield dict(c, m={**c["m"], k: type(c["m"][k])(0)})
