"""C02 - slices are a function of (shards, global workers, global position, rotation); surplus order."""
from core import *
from shard_util import *

RULE = "shard lists x factorisations of the global worker count x rotations x sequences of datasets; non-trivial: at least two factorisations or a surplus"


def gen(tier, rng):
    for g in range(1, 13):
        for total in range(1, 2 * g + 2):
            yield dict(kind="order", g=g, total=total)
    for k in range(1, 40 if tier == "quick" else 300):
        yield dict(kind="perm", n=k)
    for _ in range(700 if tier == "quick" else 20000):
        c = random_case(rng, joined=False)
        g = rng.choice([1, 2, 3, 4, 6, 8, 12, 24, 7])
        yield dict(kind="factor", counts=c["counts"], g=g, msp=c["msp"], rot=rng.randrange(g))
    for _ in range(150 if tier == "quick" else 4000):
        yield dict(kind="chain", ws=rng.choice([1, 2, 3, 4, 5]), nw=rng.choice([0, 1, 2, 3, 4]),
                   sets=[[rng.randint(1, 9) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 5))])


def glob(counts, ws, nw, msp, rot):
    shards = mk_shards(counts)
    res = []
    for rank in range(ws):
        for w in shard(shards, ws, rank, nw, msp, rot):
            res.append([(s[0].name, s[0].offset, s[0].count) for s in w])
    return res


def sizes(counts, g, rot):
    return [sum(k for _, _, k in w) for w in glob(counts, g, 1, None, rot)]


def run(c):
    if c["kind"] == "factor":
        ref = None
        for ws in range(1, c["g"] + 1):
            if c["g"] % ws:
                continue
            for nw in ([c["g"] // ws] + ([0] if ws == c["g"] else [])):
                cur = glob(c["counts"], ws, nw, c["msp"], c["rot"])
                if ref is None:
                    ref = cur
                eq(cur, ref, f"slices with {ws} ranks x {nw} workers")
    elif c["kind"] == "order":
        g, total = c["g"], c["total"]
        order = []
        for r in range(g):
            s = sizes([1], g, r)
            eq(sorted(s), [0] * (g - 1) + [1], "one sample goes to one worker")
            order.append(s.index(1))
        eq(sorted(order), list(range(g)), "surplus order is a permutation of the workers")
        for r in range(g):
            s = sizes([total], g, r)
            up = {i for i in range(g) if s[i] > total // g}
            eq(up, {order[(r + i) % g] for i in range(total % g)}, f"surplus workers for {total} samples at rotation {r}")
    elif c["kind"] == "perm":
        from megatron.energon.flavors.webdataset.sharder import Sharder
        f = getattr(Sharder, "_generalized_bit_reversal", None)
        if f is None:
            raise Inapplicable("no bit reversal helper")
        n = c["n"]
        p = list(f(n))
        eq(sorted(p), list(range(n)), "generalised bit reversal is a permutation")
        if n & (n - 1) == 0:
            b = n.bit_length() - 1
            eq(p, [int(format(i, f"0{b}b")[::-1], 2) if b else 0 for i in range(n)], "bit reversal for a power of two")
    else:
        run_chain(c)


def run_chain(c):
    from megatron.energon import WorkerConfig, DefaultTaskEncoder
    from megatron.energon.flavors.base_dataset import BaseCoreDatasetFactory
    from megatron.energon.flavors.webdataset.sharder import Sharder
    from sim import Src
    nwk = max(c["nw"], 1)
    tot = [0] * (c["ws"] * nwk)
    for rank in range(c["ws"]):
        wc = WorkerConfig(rank=rank, world_size=c["ws"], num_workers=c["nw"])
        recs = []

        class F(BaseCoreDatasetFactory):
            __sample_type__ = dict

            def __init__(self, counts, i):
                self.counts, self.i = counts, i
                self.paths, self.subflavor, self.subflavors = [], None, {}

            def __len__(self):
                return sum(self.counts)

            def build(self, worker_rotation_offset=0):
                recs.append((self.counts, worker_rotation_offset))
                return Src(wc, [[1]] * nwk, name=f"F{self.i}")

        DefaultTaskEncoder().build_train_datasets(
            datasets=[(F(s, i), 1.0) for i, s in enumerate(c["sets"])], worker_config=wc, batch_size=1)
        eq([r[0] for r in recs], c["sets"], "datasets built, in order")
        for counts, rot in recs:
            req(0 <= rot < c["ws"] * nwk, f"rotation {rot} outside of the global workers")
            for w, pieces in enumerate(shard(mk_shards(counts), c["ws"], rank, c["nw"], None, rot)):
                tot[rank * nwk + w] += sum(s[0].count for s in pieces)
    total = sum(sum(s) for s in c["sets"])
    eq(sum(tot), total, "samples assigned over all datasets")
    req(max(tot) - min(tot) <= 1, f"samples per worker over all datasets differ by more than one: {tot}")
