"""C17 - worker identities, seeds and sample indices."""
from sim import *
from megatron.energon.wrappers.base import SampleIndex

RULE = "worker grids x rotation offsets x index histories; non-trivial: at least two workers and a rotation, override or nested indices"
CHUNK = 200


def gen(tier, rng):
    N = 5 if tier == "quick" else 8
    for ws in range(1, N):
        for nw in range(0, N):
            for off in range(0, max(nw, 1)):
                yield dict(kind="ids", ws=ws, nw=nw, off=off, so=rng.choice([0, 0, 3, 1234567]))
    for _ in range(400 if tier == "quick" else 20000):
        nw = rng.randint(0, 6)
        yield dict(kind="index", ws=rng.randint(1, 4), nw=nw, off=rng.randrange(max(nw, 1)), ops=[
            [rng.randrange(max(nw, 1)), rng.choice(["ctx", "ctx", "next", "fixed", "fail", "iter", "nest", "save"]), rng.randint(0, 9)]
            for _ in range(rng.randint(3, 25))])


def nontrivial(c):
    return c["nw"] > 1 and (c["off"] > 0 or c["kind"] == "index" or c["ws"] > 1)


def run(c):
    return globals()["run_" + c["kind"]](c)


class rotated:
    def __init__(self, off):
        self.off = off

    def __enter__(self):
        WorkerConfig.worker_id_offset = self.off

    def __exit__(self, *a):
        WorkerConfig.worker_id_offset = 0


def run_ids(c):
    ws, nw, off = c["ws"], c["nw"], c["off"]
    k = max(nw, 1)
    seen, seeds = [], {}
    for r in range(ws):
        wc = WorkerConfig(rank=r, world_size=ws, num_workers=nw, seed_offset=c["so"])
        local = []
        for p in range(k):
            with rotated(off), as_worker(wc, p):
                w = wc.rank_worker_id()
                g = wc.global_worker_id()
                s = wc.worker_seed()
                local.append(w)
            eq(w, (p + off) % k, f"process {p} of {k} shifted by {off}: worker id in the rank")
            eq(g, r * k + w, f"rank {r}, worker {w}: global worker id")
            seen.append(g)
            if nw:
                eq(wc.worker_seed(w), s, f"seed of worker {w} computed in advance")
                eq(wc.global_worker_id(w), g, "global id of a given worker")
            req(0 <= s < 2 ** 32, f"seed {s}")
            seeds[g] = s
            # the same identity by override (for restoring samples), in any process of any rank
            other = WorkerConfig(rank=(r + 1) % ws, world_size=ws, num_workers=nw, seed_offset=c["so"])
            other.worker_activate(5, override_global_rank=g)
            try:
                eq((other.rank_worker_id(), other.global_worker_id(), other.worker_seed(), other.active_worker_sample_index,
                    other.active_worker_batch_index), (w, g, s, 5 * k + w, 5 * k + w), f"rank {r}, worker {w} taken on by rank {(r + 1) % ws}")
            finally:
                other.worker_deactivate()
            eq(other.rank_worker_id(), 0, "worker id of the main process after acting for another worker")
        eq(sorted(local), list(range(k)), "worker ids of the rank")
        eq(local[0], off % k, "the first process is the worker whose turn it is")
    eq(sorted(seen), list(range(ws * k)), "global worker ids of all ranks")
    req(len(set(seeds.values())) == len(seeds), f"seeds of different workers are equal: {seeds}")
    # seeds depend on nothing but the global worker id and the offset
    if nw:
        one = WorkerConfig(rank=0, world_size=1, num_workers=ws * k, seed_offset=c["so"])
        for g, s in seeds.items():
            eq(one.worker_seed(g), s, f"seed of global worker {g} with another number of ranks")
    else:
        for g, s in seeds.items():
            eq(WorkerConfig(rank=g, world_size=ws + 1, num_workers=1, seed_offset=c["so"]).worker_seed(0), s, f"seed of rank {g} with a worker process")
    moved = WorkerConfig(rank=0, world_size=1, num_workers=1, seed_offset=c["so"] + 1)
    req(moved.worker_seed(0) != seeds[0], "the seed offset has no effect")


def run_index(c):
    nw = c["nw"]
    k = max(nw, 1)
    wc = WorkerConfig(rank=c["ws"] - 1, world_size=c["ws"], num_workers=nw)
    # one SampleIndex per process; process p acts for worker (p+off)%k
    sis = {}
    count = [0] * k
    got = []
    with rotated(c["off"]):
        for p in range(k):
            with as_worker(wc, p):
                sis[wc.rank_worker_id()] = (p, SampleIndex(wc, src=None))
        for w, op, x in c["ops"]:
            p, si = sis[w]
            with as_worker(wc, p):
                wc.worker_activate(1000 + x)
                try:
                    batch = (1000 + x) * k + w
                    eq(wc.active_worker_batch_index, batch, "batch index")
                    if op == "next":
                        eq(si.get_next(), count[w], f"next index of worker {w}")
                        count[w] += 1
                    elif op in ("ctx", "fail", "nest"):
                        try:
                            with si.ctx() as i:
                                eq(i, count[w], f"index in worker {w}")
                                count[w] += 1
                                got.append(wc.active_worker_sample_index)
                                eq(got[-1], i * k + w, "sample index given to user code")
                                eq(wc.active_worker_batch_index, batch, "batch index within")
                                if op == "nest":
                                    with si.ctx(x):
                                        eq(wc.active_worker_sample_index, x * k + w, "inner sample index")
                                    eq(wc.active_worker_sample_index, i * k + w, "sample index after an inner one")
                                if op == "fail":
                                    raise KeyError()
                        except KeyError:
                            pass
                    elif op == "fixed":
                        with si.ctx(x) as i:
                            eq((i, wc.active_worker_sample_index), (x, x * k + w), "given sample index")
                    elif op == "iter":
                        seen = []

                        def inner(n):
                            for j in range(n):
                                seen.append(wc.active_worker_sample_index)
                                yield j
                        n = x % 4
                        out = list(si.iter_ctx(inner(n)))
                        eq(out, [(count[w] + j, j) for j in range(n)], "indices of an iteration")
                        eq(seen, [(count[w] + j) * k + w for j in range(n)], "sample indices while iterating")
                        got += seen
                        req(count[w] + n <= si.current_idx <= count[w] + n + 1, "indices used by an iteration")
                        count[w] = si.current_idx
                    elif op == "save":
                        st = si.save_state()
                        new = SampleIndex(wc, src=None)
                        all_states = [count[i] if i != w else st for i in range(k)]
                        merged = new.merge_states(list(all_states))
                        new.restore_state(merged)
                        sis[w] = (p, new)
                        eq(new.current_idx, count[w], "restored index")
                    eq(wc.active_worker_sample_index, batch, "sample index afterwards")
                finally:
                    wc.worker_deactivate()
    req(len(set(got)) == len(got), lambda: f"sample indices repeat: {got}")


def shrink(c):
    if c["kind"] == "index":
        for i in range(len(c["ops"])):
            yield dict(c, ops=c["ops"][:i] + c["ops"][i + 1:])
