"""C12 - map, iter map, filter: per sample effects only."""
from passes import *
from megatron.energon.errors import FatalSampleError

RULE = "map / generator map / filter / iter map over input length x failing and skipping samples x workers; fatal errors; non-trivial: some samples fail or are skipped"


def gen(tier, rng):
    q = tier == "quick"
    for n in (0, 1, 2, 3, 7):
        for nw in (0, 1, 2, 3):
            for k in ("map", "genmap", "filter", "itermap", "log", "gc"):
                yield dict(k=k, n=n, nw=nw, m=dict(salt=n, fail=0, skip=0, idx=True), save=n % 3)
    for _ in range(900 if q else 40000):
        k = rng.choice(["map", "genmap", "filter", "itermap", "log"])
        m = dict(salt=rng.randrange(1000), fail=rng.choice([0, 20, 50, 100]), skip=rng.choice([0, 20, 50]), idx=True, late=rng.choice([0, 30]))
        yield dict(k=k, n=rng.randint(0, 30), nw=rng.choice([0, 1, 2, 3]), m=m, save=rng.randint(0, 9))
    for n in range(1, 8):
        for k in ("map", "genmap", "itermap"):
            yield dict(k=k, n=n, nw=0, fatal=n // 2, m=dict(salt=1), save=0)


def nontrivial(c):
    return bool(c["m"].get("fail") or c["m"].get("skip"))


def spec_of(c):
    k, m = c["k"], dict(c["m"])
    inner = ["src", c["n"], False]
    if k == "genmap":
        return ["map", dict(m, gen=True), inner]
    if k == "map":
        m.pop("late", None)
        return ["map", m, inner]
    if k in ("filter", "itermap"):
        m.pop("late", None)
        return [k, m, inner]
    if k == "gc":
        return ["gc", 2, inner]
    return ["log", inner]


def run(c):
    if "fatal" in c:
        return run_fatal(c)
    if c["k"] == "gc":
        c = dict(c, nw=0)
    spec = spec_of(c)
    nw, m = c["nw"], spec[1] if isinstance(spec[1], dict) else {}
    ds, out = check_ref(spec, nw)
    nexti = {w: 0 for w in workers(nw)}
    for sw, got in out:
        for s in got:
            k = s.__restore_key__
            i = sw_src(sw.ds).items[sw.wid].index(leaf(s.value))
            want = ("Src", "D0", sw.wid, i)
            if c["k"] in ("filter", "log", "gc"):
                eq(k, want, "restore key of an unchanged sample")
            elif c["k"] == "itermap":
                eq(tuple(k[-1]) if isinstance(k[-1], tuple) else tuple(k[-4:]), want, "sample named by the restore key")
            else:
                eq(tuple(k[3:] if c["k"] == "genmap" else k[2:]), want, "sample named by the restore key")
                eq(k[1] * max(nw, 1) + sw.wid, s.idx[0], "sample index in the key and as seen by the function")
    for w in workers(nw):
        if c["k"] == "map":
            wc = WorkerConfig(rank=0, world_size=1, num_workers=nw)
            d2 = build(spec, wc)
            calls = []
            f = d2.map_fn

            def rec(s, f=f):
                calls.append(WorkerConfig.active_worker_config.active_worker_sample_index)
                return f(s)
            d2.map_fn = rec
            sw = SimWorker(d2, wc, w, fork=False)
            sw.epoch()
            eq([x // max(nw, 1) for x in calls], list(range(len(ref(spec[-1], w, nw)))), f"worker {w}: sample indices passed to the function, per worker")
            eq([x % max(nw, 1) for x in calls], [w] * len(calls), f"worker {w}: sample indices are the worker's own")
    if c["n"]:
        resume_check(spec, nw, [[c["save"]] * max(nw, 1)], 16)


def leaf(v):
    while isinstance(v, (tuple, list)):
        v = v[-1]
    return v


def run_fatal(c):
    wc = WorkerConfig(rank=0, world_size=1, num_workers=0)
    src = build(["src", c["n"], False], wc)
    at = c["fatal"]

    def f(s):
        if leaf(s.value).endswith(f".{at}"):
            raise MemoryError("boom")
        return s

    def fg(s):
        yield f(s)

    def fi(it):
        for s in it:
            yield f(s)
    ds = {"map": lambda: MapDataset(src, f, stateless_map_fn=True, worker_config=wc, error_handler=Errors()),
          "genmap": lambda: MapDataset(src, fg, stateless_map_fn=True, worker_config=wc, error_handler=Errors()),
          "itermap": lambda: IterMapDataset(src, fi, stateless_iter_fn=True, worker_config=wc, error_handler=Errors())}[c["k"]]()
    sw = SimWorker(ds, wc, 0)
    got = []
    try:
        while True:
            got.append(leaf(sw.next().value))
    except StopIteration:
        raise Violation("a fatal error (MemoryError) in the function did not stop the iteration")
    except (FatalSampleError, MemoryError):
        pass
    eq(got, [f"D0.{i}" for i in range(at)], "samples before the fatal error")


def sw_src(ds):
    while not isinstance(ds, Src):
        ds = ds.dataset
    return ds


def shrink(c):
    if "fatal" in c:
        return
    if c["n"] > 0:
        yield dict(c, n=c["n"] - 1)
    if c["save"]:
        yield dict(c, save=c["save"] - 1)
