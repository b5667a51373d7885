"""C01 - run-time contract of Sharder.shard_workers: exact, balanced, contiguous partition."""
from core import *
from shard_util import *

RULE = "shard count lists x world size x workers per rank x rotation x sequence limit; non-trivial: more than one global worker and more than one shard"


def gen(tier, rng):
    big = tier != "quick"
    # exhaustive small part
    for counts in small_counts(4 if big else 3, 3 if big else 2):
        for ws, nw in [(1, 0), (1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1), (3, 2), (2, 0), (5, 1)]:
            g = ws * max(nw, 1)
            for rot in range(g):
                yield dict(counts=counts, ws=ws, nw=nw, rot=rot, msp=None, joined=1)
    n = 60000 if big else 2500
    for _ in range(n):
        yield random_case(rng)


def nontrivial(c):
    return c["ws"] * max(c["nw"], 1) > 1 and len(c["counts"]) > 1


def run(c):
    shards = mk_shards(c["counts"], c["joined"])
    total = sum(c["counts"])
    nw = max(c["nw"], 1)
    seen = []
    sizes = []
    for rank in range(c["ws"]):
        got = shard(shards, c["ws"], rank, c["nw"], c["msp"], c["rot"])
        eq(len(got), nw, f"number of worker entries of rank {rank}")
        for w, pieces in enumerate(got):
            pos = []
            for sub in pieces:
                eq(len(sub), c["joined"], "number of joined files per slice")
                i = sub[0].path_index if hasattr(sub[0], "path_index") else int(sub[0].name.split("_")[1])
                for j, s in enumerate(sub):
                    eq((s.offset, s.count), (sub[0].offset, sub[0].count), "range of joined files of one slice")
                    eq(s.name, shards[i][j].name, "joined file of a slice")
                    eq(str(s.path), str(shards[i][j].path), "path of a slice")
                o, k = sub[0].offset, sub[0].count
                req(k > 0, f"rank {rank} worker {w} got an empty slice")
                req(0 <= o and o + k <= c["counts"][i], f"slice [{o},{o+k}) outside of shard {i} with {c['counts'][i]} samples")
                pos += [(i, x) for x in range(o, o + k)]
            sizes.append(len(pos))
            seen.append(pos)
    order = [(i, x) for i, n in enumerate(c["counts"]) for x in range(n)]
    flat = [p for s in seen for p in s]
    if sorted(flat) != order:
        miss = sorted(set(order) - set(flat))
        dup = sorted({p for p in flat if flat.count(p) > 1}) if len(flat) < 3000 else "?"
        return f"samples lost {miss[:5]} or assigned twice {dup[:5]} (total {total})"
    for k, s in enumerate(seen):
        if s:
            a = order.index(s[0])
            eq(s, order[a:a + len(s)], f"global worker {k}: contiguous part in dataset order")
    req(max(sizes) - min(sizes) <= 1, f"worker sizes differ by more than one: {sizes}")
