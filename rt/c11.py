"""C11 - packing."""
from passes import *

RULE = "input length x buffer size x partitions (in order, reordering) x failing/skipping packers x workers x saves; non-trivial: more than one window"


def gen(tier, rng):
    q = tier == "quick"
    for n in range(0, 14 if q else 30):
        for buf in range(1, 6 if q else 9):
            for nw in (0, 1, 2):
                yield dict(n=n, m=dict(buf=buf, salt=n, reorder=bool(n % 2)), nw=nw, save=(n + buf) % 6)
    for _ in range(900 if q else 40000):
        m = stage(rng, "pack", None)[1]
        if rng.random() < .2:
            m["gen"] = True
        yield dict(n=rng.randint(0, 34), nw=rng.choice([0, 1, 2, 3]), m=m, save=rng.randint(0, 10))


def nontrivial(c):
    return c["n"] > c["m"]["buf"]


def empty_rounds(spec, w, nw):
    """Windows of the pass which give no packs at all, in a row (the code gives up after ten)."""
    m = spec[1]
    inner = ref(spec[2], w, nw)
    mm = dict(m, fail=m.get("prefail", 0), skip=m.get("preskip", 0), salt=("pre", m.get("salt", 0)))
    best = cur = 0
    for i in range(0, len(inner), m["buf"]):
        win = inner[i:i + m["buf"]]
        cur = cur + 1 if happens(mm, "fail", win) or happens(mm, "skip", win) else 0
        best = max(best, cur)
    return best


def run(c):
    spec = ["pack", c["m"], ["src", c["n"], False]]
    nw, m = c["nw"], c["m"]
    if any(empty_rounds(spec, w, nw) >= 9 for w in workers(nw)):
        return
    windows = []
    ds, out = check_ref(spec, nw)
    for sw, got in out:
        for s in got:
            names = s.value[2] if m.get("gen") else s.value[1]
            k = s.__restore_key__
            inner = tuple(x for x in k if isinstance(x, tuple))
            want = tuple(("Src", "D0", sw.wid, sw_src(sw.ds).items[sw.wid].index(x)) for x in names)
            eq(inner, want, "restore keys inside the pack key")
            again = sw.restore_sample(k)
            eq((val(again), again.__restore_key__, again.idx), (val(s), k, s.idx), "pack rebuilt from its restore key")
    # the windows given to the pre packer
    wc = WorkerConfig(rank=0, world_size=1, num_workers=nw)
    for w in workers(nw):
        ds = build(spec, wc)
        rec = []
        orig = ds.pre_packer

        def pre(samples, orig=orig, rec=rec):
            rec.append([val(s) for s in samples])
            return orig(samples)
        ds.pre_packer = pre
        sw = SimWorker(ds, wc, w, fork=False)
        for p in range(2):
            rec.clear()
            sw.epoch()
            eq([x for win in rec for x in win], ref(spec[2], w, nw), f"worker {w}: samples given to the pre packer, in order")
            req(all(0 < len(x) <= m["buf"] for x in rec), f"worker {w}: window sizes {[len(x) for x in rec]} for a buffer of {m['buf']}")
    if c["n"] and not m.get("gen"):
        resume_check(spec, nw, [[c["save"]] * max(nw, 1), [(c["save"] + w) % 3 for w in workers(nw)]], 14)


def sw_src(ds):
    while not isinstance(ds, Src):
        ds = ds.dataset
    return ds


def shrink(c):
    if c["n"] > 0:
        yield dict(c, n=c["n"] - 1)
    if c["save"]:
        yield dict(c, save=c["save"] - 1)
    for k in ("fail", "skip", "prefail", "preskip", "reorder", "idx"):
        if c["m"].get(k):
            yield dict(c, m={**c["m"], k: type(c["m"][k])(0)})
