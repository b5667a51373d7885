"""C04 - sample loader: every sample of the slices exactly once per epoch, exact resume."""
from tarutil import *
from sim import *

RULE = "shard sizes x workers x sequence limit x parallel iterators x shuffling (off, 1, 2 epochs, with replacement) x seed x save positions over several epochs; non-trivial: at least two slices per worker"


def gen(tier, rng):
    q = tier == "quick"
    for counts in ([3], [2, 3], [1, 0, 4], [5, 5, 2]):
        for nw in (0, 2):
            for par, sh in ((1, None), (1, 1), (2, 1), (3, 2), (16, 1), (2, -1)):
                yield dict(counts=counts, nw=nw, ws=1, par=par, shuf=sh, msp=2, seed=0, saves=[0, 2, 5, sum(counts) // max(nw, 1)])
    for _ in range(70 if q else 4000):
        sh = rng.choice([None, 1, 1, 2, 3, -1])
        nw = rng.choice([0, 1, 2, 3])
        yield dict(counts=[rng.choice([0, 1, rng.randint(1, 9), 6]) for _ in range(rng.randint(1, 5))], nw=nw, ws=rng.choice([1, 1, 2]),
                   par=1 if sh is None else rng.choice([1, 2, 3, 5, 16]), shuf=sh, msp=rng.choice([None, 1, 2, 3]), seed=rng.randrange(1000),
                   excl=rng.choice([0, 0, 30]), saves=sorted(rng.randint(0, 18) for _ in range(rng.choice([1, 2, 3]))),
                   loop=rng.random() < .7)


def nontrivial(c):
    return len(c["counts"]) > 1 or bool(c["msp"])


def run(c):
    from megatron.energon.flavors.webdataset.sample_loader import WebdatasetSampleLoaderDataset
    from megatron.energon.flavors.webdataset.sharder import Sharder
    from megatron.energon.flavors.webdataset.structs import ShardInfo
    from megatron.energon.epathlib import EPath
    if sum(c["counts"]) == 0:
        return
    with scratch() as d:
        keys = simple_dataset(d / "ds", c["counts"], exts=("txt",))
        for rank in range(c["ws"]):
            wc = WorkerConfig(rank=rank, world_size=c["ws"], num_workers=c["nw"], seed_offset=c["seed"])
            infos = [(ShardInfo(name=n, path=EPath(str(d / "ds" / n)), offset=0, count=len(k)),) for n, k in keys.items()]
            excl = {f"{n}/{k}" for n, ks in keys.items() for k in ks if zlib_(c["seed"], k) % 100 < c.get("excl", 0)}
            loop = c.get("loop", True) or c["shuf"] == -1

            def build():
                shards = Sharder.shard_workers(infos, wc, max_samples_per_sequence=c["msp"], rotation_offset=0)
                return WebdatasetSampleLoaderDataset([list(s) for s in shards], worker_config=wc, exclude=set(excl), loop=loop,
                                                     shuffle_over_epochs=c["shuf"], parallel_shard_iters=c["par"], handler=raiser), shards
            ds, shards = build()
            for w in range(max(c["nw"], 1)):
                slices = [(s[0].name, s[0].offset, s[0].count) for s in shards[w]]
                own = [(n, o + i) for n, o, k in slices for i in range(k) if f"{n}/{keys[n][o + i]}" not in excl]
                per = own * max(c["shuf"] or 1, 1)
                total = min(4 * len(per) + 3, 60) if loop else len(per)
                if not own:
                    continue
                sw = SimWorker(ds, wc, w)
                ref = [strip(x) for x in sw.run(total, passes=6) if x is not None]
                what = f"rank {rank} worker {w}"
                req(len(ref) == total or not loop and len(ref) >= total, f"{what}: only {len(ref)} samples")
                for s in ref:
                    rk = s["__restore_key__"]
                    req(rk[0] == "Webdataset" and (rk[1], rk[2]) in own, f"{what}: sample {s} is not in the slices of the worker {slices}")
                    eq((s["__key__"], s["txt"]), (f"{rk[1]}/{keys[rk[1]][rk[2]]}", content("ds/" + rk[1], keys[rk[1]][rk[2]] + ".txt").decode()), f"{what}: sample named by its restore key {rk}")
                    back = strip(sw.restore_sample(rk))
                    eq(back, s, f"{what}: sample restored from its key")
                if c["shuf"] != -1:
                    for e in range(0, len(ref) - len(per) + 1, len(per)):
                        ep = [tuple(s["__restore_key__"][1:]) for s in ref[e:e + len(per)]]
                        if c["shuf"] is None:
                            eq(ep, own, f"{what} epoch {e // len(per)}: samples in slice order")
                        eq(sorted(ep), sorted(per), f"{what} epoch {e // len(per)}: every sample of the slices exactly once")
                if not loop:
                    sw2 = SimWorker(ds, wc, w)
                    eq(len(sw2.epoch()), len(per), f"{what}: length of the pass")
                # resume
                got, cur = [], SimWorker(build()[0], wc, w)
                for k in list(c["saves"]) + [None]:
                    n = (total if k is None else min(k, total)) - len(got)
                    if n > 0:
                        got += [strip(x) for x in cur.run(n, passes=6) if x is not None]
                    if got != ref[:len(got)]:
                        i = next(i for i in range(len(got)) if got[i] != ref[i])
                        return f"{what}: resumed at {c['saves']}: sample {i} is {got[i]['__restore_key__']}, uninterrupted it is {ref[i]['__restore_key__']}"
                    if k is None:
                        break
                    st = cur.save()
                    fresh = build()[0]
                    sts = [None] * max(c["nw"], 1)
                    sts[w] = st
                    with as_worker(wc, w):
                        merged = pickle.loads(pickle.dumps(fresh.merge_states(sts)))
                        fresh.restore_state(merged)
                    cur = SimWorker(fresh, wc, w)
                    cur.n = len(got)
                req(len(got) >= total, f"{what}: only {len(got)} samples after resuming, expected {total}")


def zlib_(*a):
    import zlib
    return zlib.crc32(repr(a).encode())


def raiser(e, k):
    raise e


def strip(x):
    x = x[0]
    return {"__key__": x["__key__"], "__restore_key__": x["__restore_key__"], "txt": x["txt"].decode()}


def shrink(c):
    for i in range(len(c["counts"])):
        if c["counts"][i] > 0:
            l = list(c["counts"])
            l[i] -= 1
            yield dict(c, counts=l)
    for i in range(len(c["saves"])):
        yield dict(c, saves=c["saves"][:i] + c["saves"][i + 1:])
    if c.get("excl"):
        yield dict(c, excl=0)
