"""C03 - max_samples_per_sequence cuts a worker's ranges exactly."""
from core import *
from shard_util import *

RULE = "range starts, ends, limits and joined files, through shard_workers for every worker; non-trivial: some range is longer than 1.5 limits"


def gen(tier, rng):
    # one worker, one shard: every length x limit
    N = 60 if tier == "quick" else 400
    for n in range(1, N):
        for m in range(1, n + 1):
            yield dict(counts=[n], ws=1, nw=1, rot=0, msp=m, joined=1)
    for n in (99, 149, 565, 1000, 997, 10007):
        for m in range(1, 60):
            yield dict(counts=[n], ws=1, nw=1, rot=0, msp=m, joined=1)
    for _ in range(600 if tier == "quick" else 30000):
        c = random_case(rng)
        c["msp"] = c["msp"] or rng.randint(1, 30)
        yield c
    for _ in range(100):
        yield dict(random_case(rng), msp=None)


CHUNK = 40


def nontrivial(c):
    return c["msp"] is not None and max(c["counts"]) > 1.5 * c["msp"]


def run(c):
    shards = mk_shards(c["counts"], c["joined"])
    for rank in range(c["ws"]):
        whole = shard(shards, c["ws"], rank, c["nw"], None, c["rot"])
        cut = shard(shards, c["ws"], rank, c["nw"], c["msp"], c["rot"])
        for w, (a, b) in enumerate(zip(whole, cut)):
            where = f"rank {rank} worker {w}: "
            rest = list(b)
            for sub in a:
                o, e = sub[0].offset, sub[0].offset + sub[0].count
                lens = []
                pos = o
                while pos < e:
                    req(rest, where + f"range [{o},{e}) of {sub[0].name} is cut short at {pos}")
                    p = rest.pop(0)
                    eq([x.name for x in p], [x.name for x in sub], where + "files of the piece")
                    eq({(x.offset, x.count) for x in p}, {(p[0].offset, p[0].count)}, where + "positions of joined files")
                    eq(p[0].offset, pos, where + f"start of the next piece of [{o},{e})")
                    req(p[0].count > 0, where + "empty piece")
                    pos += p[0].count
                    lens.append(p[0].count)
                eq(pos, e, where + f"end of the pieces of [{o},{e})")
                if c["msp"] is not None:
                    req(max(lens) <= 1.5 * c["msp"], where + f"piece longer than 1.5 x {c['msp']}: {lens}")
                    req(max(lens) - min(lens) <= 1, where + f"pieces of one range differ by more than one: {lens}")
                else:
                    eq(len(lens), 1, where + "pieces without a limit")
            eq(rest, [], where + "pieces beyond the range")
