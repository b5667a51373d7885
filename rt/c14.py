"""C14 - repeat, concat, blend."""
from passes import *

RULE = "repeat counts x concatenations x blends over inner lengths x weights x workers x saves; non-trivial: several datasets or several repetitions"


def gen(tier, rng):
    q = tier == "quick"
    for nw in (0, 1, 2, 3):
        for n in (1, 2, 5):
            for r in (1, 2, 3, None):
                for s in range(0, 3 * n + 2, 1 if n < 5 else 3):
                    yield dict(k="repeat", r=r, lens=[n * max(nw, 1)], nw=nw, save=s)
        for lens in ([0], [3], [0, 4], [3, 0], [2, 5], [5, 0, 1], [1, 2, 3]):
            for s in range(0, 6):
                yield dict(k="concat", lens=lens, nw=nw, save=s)
                if sum(1 for x in lens if x >= max(nw, 1)):
                    yield dict(k="blend", lens=lens, ws=[1 + i for i in range(len(lens))], nw=nw, save=s)
    for _ in range(400 if q else 20000):
        nw = rng.choice([0, 1, 2, 3])
        k = rng.choice(["repeat", "concat", "blend", "blend"])
        lens = [rng.choice([0, rng.randint(1, 12), 7]) for _ in range(1 if k == "repeat" else rng.randint(1, 5))]
        if k == "repeat":
            lens = [max(lens[0], max(nw, 1))]
        if k == "blend" and not any(x >= max(nw, 1) for x in lens):
            lens[0] = max(nw, 1)
        yield dict(k=k, r=rng.choice([1, 2, 3, 5, None]), lens=lens, ws=[rng.choice([1, 2, 5, .5]) for _ in lens], nw=nw, save=rng.randint(0, 12))
    for i in range(6 if q else 60):
        n = rng.randint(2, 4)
        yield dict(k="freq", lens=[rng.randint(1, 9) for _ in range(n)], ws=[rng.choice([1, 2, 5, 9, .25]) for _ in range(n)], nw=0, rank=i, save=0)


def nontrivial(c):
    return len(c["lens"]) > 1 or c.get("r") != 1


def run(c):
    nw, k = c["nw"], c["k"]
    wc = WorkerConfig(rank=c.get("rank", 0), world_size=100, num_workers=nw)
    srcs = [["src", n, False] for n in c["lens"]]
    if k == "freq":
        return run_freq(c, wc)
    spec = {"repeat": lambda: ["repeat", c["r"], srcs[0]], "concat": lambda: ["concat"] + srcs,
            "blend": lambda: ["blend", c["ws"]] + srcs}[k]()
    ds = build(spec, wc)
    items = [[[f"D{d}.{i}" for i in w] for w in split_items(n, nw)] for d, n in enumerate(c["lens"])]
    total = 3 * sum(c["lens"]) + 10
    for w in workers(nw):
        sw = SimWorker(ds, wc, w)
        its = [it[w] for it in items]
        if k == "repeat":
            if c["r"] is None:
                got, ended = sw.take(total)
                req(not ended, "an unlimited repetition ended")
                eq([val(x) for x in got], (its[0] * total)[:total], f"worker {w}")
            else:
                for p in range(3):
                    eq([val(x) for x in sw.epoch()], its[0] * c["r"], f"worker {w} pass {p}")
        elif k == "concat":
            for p in range(3):
                eq([val(x) for x in sw.epoch()], [x for i in its for x in i], f"worker {w} pass {p}")
        else:
            if not any(its):
                continue
            got, ended = sw.take(total)
            req(not ended, "the blend ended")
            for d, i in enumerate(its):
                mine = [val(x) for x in got if val(x).startswith(f"D{d}.")]
                eq(mine, (i * (total + 1))[:len(mine)], f"worker {w}: samples taken from dataset {d}")
            for x in got:
                eq(x.__restore_key__[:3], ("BlendDataset", int(val(x)[1:].split(".")[0]), "Src"), "restore key of a blended sample")
    if k == "blend" and not all(any(it[w] for it in items) for w in workers(nw)):
        return
    resume_check(spec, nw, [[c["save"]] * max(nw, 1), [(c["save"] + w) % 4 for w in workers(nw)]], min(total, 30))


def run_freq(c, wc):
    spec = ["blend", c["ws"]] + [["src", n, False] for n in c["lens"]]
    sw = SimWorker(build(spec, wc), wc, 0)
    N = 6000
    got, _ = sw.take(N)
    tot = sum(c["ws"])
    cnt = [0] * len(c["ws"])
    for x in got:
        cnt[int(val(x)[1:].split(".")[0])] += 1
    for d, w in enumerate(c["ws"]):
        p = w / tot
        sd = (N * p * (1 - p)) ** .5
        req(abs(cnt[d] - N * p) <= 7 * sd + 1, f"dataset {d} with weight {p:.3f} was drawn {cnt[d]} times out of {N} (more than 7 standard deviations off)")


def shrink(c):
    for i in range(len(c["lens"])):
        if c["lens"][i] > max(c["nw"], 1):
            l = list(c["lens"])
            l[i] -= 1
            yield dict(c, lens=l)
    if c["save"]:
        yield dict(c, save=c["save"] - 1)
