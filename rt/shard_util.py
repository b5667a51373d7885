import itertools
from core import *


def mk_shards(counts, joined=1):
    from megatron.energon.epathlib import EPath
    from megatron.energon.flavors.webdataset.structs import ShardInfo
    return [[ShardInfo(name=f"shard_{i}_{j}.tar", path=EPath(f"/nodir/{j}/shard_{i}_{j}.tar"), offset=0, count=n)
             for j in range(joined)] for i, n in enumerate(counts)]


def shard(shards, ws, rank, nw, msp, rot):
    from megatron.energon import WorkerConfig
    from megatron.energon.flavors.webdataset.sharder import Sharder
    if not hasattr(Sharder, "shard_workers"):
        raise Inapplicable("Sharder.shard_workers is gone")
    return [list(w) for w in Sharder.shard_workers(
        shards, WorkerConfig(rank=rank, world_size=ws, num_workers=nw),
        max_samples_per_sequence=msp, rotation_offset=rot)]


def small_counts(maxlen, maxn):
    for l in range(1, maxlen + 1):
        for c in itertools.product(range(0, maxn + 1), repeat=l):
            if sum(c) > 0:
                yield list(c)


def random_case(rng, joined=True):
    l = rng.choice([1, 1, 2, 3, 4, 7, 12])
    m = rng.choice([1, 3, 10, 40, 150])
    counts = [rng.choice([0, 1, rng.randint(0, m), m]) for _ in range(l)]
    if sum(counts) == 0:
        counts[rng.randrange(l)] = rng.randint(1, m)
    ws = rng.choice([1, 1, 2, 3, 4, 5, 8, 13])
    nw = rng.choice([0, 1, 2, 3, 4, 6])
    return dict(counts=counts, ws=ws, nw=nw, rot=rng.randrange(ws * max(nw, 1)),
                msp=rng.choice([None, None, 1, 2, 3, 5, 7, 10, 100]), joined=rng.choice([1, 1, 2, 3]) if joined else 1)
