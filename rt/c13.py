"""C13 - limits and virtual epochs."""
from passes import *

RULE = "limit / virtual epoch length x inner length x workers x passes x saves; non-trivial: length not divisible by the number of workers"


def gen(tier, rng):
    q = tier == "quick"
    for nw in (0, 1, 2, 3, 4):
        for n in range(0, 14 if q else 30):
            for inner in (1, 2, 5, 12):
                yield dict(k="epochize", n=n, inner=inner * max(nw, 1), nw=nw, loop=bool(n % 2))
                yield dict(k="limit", n=n, inner=inner * max(nw, 1) + n, nw=nw, loop=False)
    for _ in range(500 if q else 30000):
        nw = rng.choice([0, 1, 2, 3, 4, 6])
        k = rng.choice(["limit", "epochize"])
        yield dict(k=k, n=rng.randint(0, 60), inner=rng.randint(1, 60) * max(nw, 1), nw=nw, loop=rng.random() < .3)


def nontrivial(c):
    return c["n"] % max(c["nw"], 1) != 0


def run(c):
    nw, n, k = c["nw"], c["n"], c["k"]
    wc = WorkerConfig(rank=0, world_size=1, num_workers=nw)
    spec = [k, n, ["src", c["inner"], c["loop"]]]
    ds = build(spec, wc)
    items = [[f"D0.{i}" for i in w] for w in split_items(c["inner"], nw)]
    if k == "limit":
        eq(len(ds), min(n, c["inner"]), "len()")
    else:
        eq(len(ds), n, "len()")
    sizes = [[] for _ in range(3)]
    for w in workers(nw):
        sw = SimWorker(ds, wc, w)
        seq = []
        for p in range(3):
            got = [val(x) for x in sw.epoch(n + 5)]
            sizes[p].append(len(got))
            if k == "limit":
                eq(got, (items[w] * (n + 1))[:len(got)] if c["loop"] else items[w][:len(got)], f"worker {w} pass {p}: a prefix of the inner dataset")
                if not c["loop"] and len(got) < n // max(nw, 1):
                    eq(got, items[w], f"worker {w} pass {p}: fewer samples than its share although the inner dataset has more")
            seq += got
        if k == "epochize":
            eq(seq, (items[w] * (len(seq) + 1))[:len(seq)], f"worker {w}: concatenated virtual epochs against the endless inner sequence")
    enough = c["loop"] or k == "epochize" or all(len(i) >= n // max(nw, 1) + 1 for i in items)
    for p, s in enumerate(sizes):
        if enough:
            eq(sum(s), n, f"pass {p}: samples over all workers {s}")
            req(max(s) - min(s) <= 1, f"pass {p}: shares of the workers {s}")
    for s in ([[n // 2] * max(nw, 1)], [[(n + w) % 4 for w in workers(nw)], [1] * max(nw, 1)]):
        if n >= max(nw, 1):
            resume_check(spec, nw, s, 14)
    # interrupted in the middle: the pass completes to exactly its share
    if n >= max(nw, 1):
        for w in workers(nw):
            one = SimWorker(build(spec, wc), wc, w)
            share = len(one.epoch(n + 5))
            for cut in {0, 1, share // 2, max(share - 1, 0)}:
                if cut > share:
                    continue
                a = SimWorker(build(spec, wc), wc, w)
                a.take(cut)
                states = [None] * max(nw, 1)
                states[w] = a.save()
                b = build(spec, wc)
                with as_worker(wc, w):
                    b.restore_state(b.merge_states(states))
                b = SimWorker(b, wc, w)
                rest = len(b.epoch(n + 5))
                if cut == share and k == "epochize":
                    continue
                eq(cut + rest, share, f"worker {w}: samples of a pass interrupted after {cut}")


def shrink(c):
    if c["n"] > 0:
        yield dict(c, n=c["n"] - 1)
    if c["inner"] > max(c["nw"], 1):
        yield dict(c, inner=c["inner"] - max(c["nw"], 1))
