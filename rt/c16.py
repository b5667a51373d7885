"""C16 - loader checkpoints resume the stream exactly (real SavableDataLoader with worker processes)."""
import gc, time
import torch
import torch.utils.data._utils.signal_handling
from passes import *
from megatron.energon import SavableDataLoader
from megatron.energon.savable_loader import SavableDatasetWrapper

RULE = ("pipelines x workers 0..4 x checkpoint settings x chains of save positions, on the real loader with worker processes; "
        "non-trivial: at least one save strictly inside the stream")
WALL, CPU = 60, 40
CHUNK = 2
WARM = False


class RandFn:
    """A user function drawing from the global generators."""

    def __call__(self, s):
        import random as r, numpy as np, torch
        return mk(s, ("r", r.randrange(10**6), int(np.random.randint(10**6)), int(torch.randint(10**6, ())), s.value),
                  WorkerConfig.active_worker_config.active_worker_sample_index,
                  WorkerConfig.active_worker_config.active_worker_batch_index)


_frozen = []


def make(c):
    if not _frozen:
        # every sample of a loader is followed by a garbage collection
        gc.collect()
        gc.freeze()
        _frozen.append(1)
    wc = WorkerConfig(rank=c.get("rank", 0), world_size=c.get("world", 1), num_workers=c["nw"])
    ds = build(c["spec"] or ["src", 1, False], wc)
    if c.get("rand") and c["nw"]:
        ds = MapDataset(ds, RandFn(), stateless_map_fn=False, worker_config=wc)
    if c.get("uneven"):
        # worker w has uneven[w] samples
        ds = Src(wc, [[f"u{w}.{i}" for i in range(n)] for w, n in enumerate(c["uneven"])], loop=False)
    kw = {}
    if c.get("min_n"):
        kw["checkpoint_every_min_n_samples"] = c["min_n"]
    return SavableDataLoader(ds, checkpoint_every_sec=c["every"], n_checkpoints=c.get("keep", 2), **kw)


class Reader:
    def __init__(self, loader):
        self.loader, self.it = loader, None

    def take(self, k, marks=True):
        """k samples; ends of passes (None) are included, except after the last sample."""
        out, n, empty = [], 0, 0
        while n < k:
            if self.it is None:
                self.it = iter(self.loader)
            try:
                out.append(sig(next(self.it)))
                n += 1
                empty = 0
            except StopIteration:
                self.it = None
                out.append(None)
                empty += 1
                if empty > 2:
                    break
        return out

    def end_pass(self):
        try:
            x = next(self.it)
        except StopIteration:
            self.it = None
            return
        raise Violation(f"expected the end of the pass, got {short(sig(x))}")

    def close(self):
        self.it = None
        it = getattr(self.loader, "_persistent_iterator", None)
        self.loader._persistent_iterator = None
        i = getattr(it, "_iterator", None)
        if i is not None and hasattr(i, "_workers"):
            if getattr(i, "_worker_pids_set", False):
                torch.utils.data._utils.signal_handling._remove_worker_pids(id(i))
                i._worker_pids_set = False
            for w in i._workers:
                w.kill()
            for w in i._workers:
                w.join(10)
            i._shutdown = True
            for q in list(i._index_queues) + [i._worker_result_queue]:
                q.cancel_join_thread()
                q.close()
        self.loader._iterator = None
        self.loader = None


def gen(tier, rng):
    inf = ["src", 13, True]
    first = []
    for nw in (0, 1, 2, 3, 4):
        first.append(dict(spec=inf, nw=nw, every=60, saves=[1, 1, 0, 2], total=6))
        first.append(dict(spec=inf, nw=nw, every=0, saves=[0, 5, 4], total=8, rand=True))
        first.append(dict(spec=inf, nw=nw, every=0, saves=[7, 0, 2], total=8, rand=True, pause=True))
        first.append(dict(spec=["batch", dict(bs=2, gen=True, idx=True), ["shuffle", 3, ["map", dict(idx=True, gen=True), inf]]], nw=nw, every=0, saves=[3, 4, 1], total=8))
        first.append(dict(spec=["src", 12, False], nw=nw, every=0, saves=["end", 0], total=14))
        if nw:
            first.append(dict(spec=None, uneven=[7] * nw, nw=nw, every=0, saves=[6 * nw], total=nw + 2, pause=True))
            first.append(dict(spec=None, uneven=[9] * (nw - 1) + [12], nw=nw, every=0, saves=[8 * nw], total=5, pause=True))
    rng.shuffle(first)
    yield from first
    n = 150 if tier == "quick" else 8000
    for _ in range(n):
        nw = rng.choice([0, 1, 2, 2, 3, 3, 4])
        c = dict(nw=nw, every=rng.choice([0, 0, 60]), keep=rng.choice([2, 2, 3]), pause=rng.random() < .3,
                 min_n=rng.choice([None, None, 2 * nw + 1, 2 * nw + 3]) if nw else None)
        if rng.random() < .3:
            c.update(world=3, rank=rng.randrange(3))
        kind = rng.random()
        if kind < .65:
            s = ["src", rng.randint(8, 30), True]
            for _ in range(rng.randint(0, 2)):
                s = stage(rng, rng.choice(["map", "batch", "shuffle", "filter", "pack"]), s)
                if isinstance(s[1], dict):
                    for k in ("fail", "skip", "prefail", "preskip"):
                        if s[1].get(k, 0) > 20:
                            s[1][k] = 20
                    if s[0] == "pack":
                        s[1].update(prefail=0, preskip=0)
            c.update(spec=s, saves=[rng.randint(0, 12) for _ in range(rng.randint(1, 4))], total=10, rand=rng.random() < .5)
            if not alive(s, nw):
                continue
        elif kind < .85:
            c.update(spec=["src", rng.randint(6, 20), False], saves=["end"] * rng.randint(0, 1) + [rng.randint(0, 5), "end"], total=25)
        else:
            k = max(nw, 1)
            lens = [rng.randint(4, 12) for _ in range(k)]
            c.update(spec=None, uneven=lens, saves=[rng.randint(0, (min(lens) - 1) * k)], total=12)
        yield c


def unrolled(s):
    """A finite part of an endless stream; the order within a shuffle buffer does not matter here."""
    if s[0] == "src":
        return ["repeat", 12, ["src", s[1], False]]
    if s[0] == "shuffle":
        return unrolled(s[-1])
    return s[:-1] + [unrolled(s[-1])]


def alive(s, nw):
    """Some samples are left over for every worker."""
    return all(len(ref(unrolled(s), w, nw)) > 0 for w in workers(nw)) and ("shuffle" not in json.dumps(s) or '"filter"' not in json.dumps(s))


def nontrivial(c):
    return any(s not in (0, "end") for s in c["saves"])


def wid_of(s):
    """Worker id in the restore key of a signature (wrapper name, global worker id, sample index, ...)."""
    return s[2][1]


def passes_of(seq):
    out = [[]]
    for x in seq:
        if x is None:
            out.append([])
        else:
            out[-1].append(x)
    return out


def run(c):
    nw = c["nw"]
    saves = list(c["saves"])
    plain = Reader(make(c))
    try:
        need = c["total"] + sum(s for s in saves if s != "end") + 40
        want = plain.take(need)
    finally:
        plain.close()
    cur = Reader(make(c))
    at = 0                     # position in `want` (samples and pass ends)
    rotated = False
    try:
        for step, k in enumerate(saves + [None]):
            if k == "end":
                # to the end of the current pass
                e = next((i for i in range(at, len(want)) if want[i] is None), None)
                if e is None:
                    continue
                got = cur.take(e - at)
                compare(got, want[at:e], c, step)
                if cur.it is None:
                    cur.it = iter(cur.loader)
                cur.end_pass()
                at = e + 1
                if rotated:
                    return              # known limitation: later passes start with another worker
            else:
                k = c["total"] if k is None else k
                # do not save while some workers have finished their pass and others have not
                e = at + k
                while sum(x is not None for x in want[at:e]) < k and e < len(want):
                    e += 1
                if step > 0 and rotated and None in want[at:e]:
                    e = at + want[at:e].index(None)
                if step < len(saves):
                    while e > at and not saveable(want, e, nw):
                        e -= 1
                got = cur.take(sum(x is not None for x in want[at:e]))
                compare(got, want[at:e], c, step)
                at = e
            if step == len(saves):
                break
            if c.get("pause"):
                time.sleep(0.15)
            state = cur.loader.save_state_rank()
            frozen = pickle.dumps(state)
            if step % 2 == 0 and k != "end":
                # saving must not disturb the running loader, and can be repeated
                e = at
                while e < min(len(want), at + 2) and want[e] is not None:
                    e += 1
                compare(cur.take(e - at), want[at:e], c, step, "the loader whose state was saved continues with")
                eq(pickle.dumps(state), frozen, "saved state after further iteration")
            cur.close()
            cur = Reader(make(c))
            cur.loader.restore_state_rank(pickle.loads(frozen))
            rotated = turn(want, at, nw) != 0
            if step % 3 == 2 or c.get("again"):
                # state taken right after a restore
                state = cur.loader.save_state_rank()
                cur.close()
                cur = Reader(make(c))
                cur.loader.restore_state_rank(pickle.loads(pickle.dumps(state)))
    finally:
        cur.close()


def turn(want, at, nw):
    if at == 0 or want[at - 1] is None:
        return 0
    return (wid_of(want[at - 1]) % max(nw, 1) + 1) % max(nw, 1)


def saveable(want, e, nw):
    """At a pass end, or every worker has samples left in the pass."""
    if e == 0 or want[e - 1] is None:
        return True
    rest = []
    for x in want[e:]:
        if x is None:
            break
        rest.append(wid_of(x) % max(nw, 1))
    else:
        return True
    return len(set(rest)) == max(nw, 1)


def compare(got, want, c, step, what="the loader yields"):
    if got == want:
        return
    i = next((i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i]), 0)
    g = got[i] if i < len(got) else "nothing"
    w = want[i] if i < len(want) else "nothing"
    raise Violation(f"after {step} restores: {what} {short(g, 300)} as sample {i}, uninterrupted it is {short(w, 300)}")


def shrink(c):
    for i in range(len(c["saves"])):
        yield dict(c, saves=c["saves"][:i] + c["saves"][i + 1:])
    for i, s in enumerate(c["saves"]):
        if s != "end" and s > 0:
            yield dict(c, saves=c["saves"][:i] + [s - 1] + c["saves"][i + 1:])
    if c.get("rand") and c["nw"]:
        yield dict(c, rand=False)
    if c["spec"]:
        for s in simpler(c["spec"]):
            yield dict(c, spec=s)
