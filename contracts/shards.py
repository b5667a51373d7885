"""Shard lists of arbitrary length."""
from lib import *
from megatron.energon.flavors.webdataset.structs import ShardInfo


def shard_seq(P, name, n, count=None, offset=None):
    """n shards; every field is an arbitrary function of the position."""
    ints = {k: z3.Function(f"{name}.{k}", z3.IntSort(), z3.IntSort()) for k in ("count", "offset", "byte_offset", "byte_size")}
    vals = {k: z3.Function(f"{name}.{k}", z3.IntSort(), U) for k in ("name", "path")}

    def at(i):
        c = count(i) if count else mkint(ints["count"](num(i)))
        if not count:
            P.assume_value(c >= 0)
        return ShardInfo(SVal(vals["name"](num(i))), SVal(vals["path"](num(i))), offset(i) if offset else mkint(ints["offset"](num(i))), c, mkint(ints["byte_offset"](num(i))), mkint(ints["byte_size"](num(i))))
    return Seq(n=n, f=at)


SIZES = [(1, 0), (1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (4, 1), (5, 1), (3, 2), (2, 3)]
SIZES_THOROUGH = SIZES + [(1, 7), (4, 2), (2, 4), (3, 3)]


def sizes():
    return SIZES_THOROUGH if THOROUGH else SIZES


class ShardWorkersBase(Contract):
    """shard_workers for every rank of a world: where it cuts the samples."""
    assumptions = ("_split_shards covers exactly the samples between the given positions (its contract, proved under C01)",)

    def setup(self, P):
        from megatron.energon.flavors.webdataset.sharder import Sharder
        self.Sharder = Sharder
        self.got = []
        pc_ = z3.Function("piece.count", z3.IntSort(), z3.IntSort(), z3.IntSort())
        m_ = z3.Function("pieces", z3.IntSort(), z3.IntSort())
        self.pieces = lambda k: mkint(m_(num(k)))

        def lists(k):
            P.assume_value(self.pieces(k) >= 0)


            def piece(i):
                n = mkint(pc_(num(k), num(i)))
                P.assume_value(n >= 0)
                return SList(Seq([ShardInfo(app("piece", k, i), "path", 0, n)]))
            return SList(Seq(n=self.pieces(k), f=piece))
        self.lists = lists

        def split_shards(cls, shards, offsets, *, max_samples_per_sequence):
            self.got.append((shards, offsets, max_samples_per_sequence))
            return SList(Seq(n=s_len(offsets) - 1, f=lists))
        self.patch(Sharder, "_split_shards", classmethod(split_shards))

    def dataset(self, P, name):
        """Shards with an arbitrary number of samples each; sum() over them gives their total (>= 0, otherwise arbitrary)."""
        N = P.int(name + ".shards", 1)
        count = P.int_stream(name + ".count", N, lambda i, v: v >= 0)
        shards = SList(Seq(n=N, f=lambda i: SList(Seq([ShardInfo(i, "path", 0, count.at(i))]))))
        d = dict(N=N, count=count, shards=shards, total=P.int(name + ".total", 0))
        self.__dict__.setdefault("datasets", []).append(d)
        return d

    def sum(self, P, s, start):
        d = self.current
        P.prove("[the samples of all shards are summed up]", and_(s.n == d["N"], start == 0))
        if P.branch():
            k = P.int("k", 0)
            P.assume(k < s.n)
            P.prove("[the samples of all shards are summed up]", s.at(k) == d["count"].at(k))
            raise PathEnd
        return d["total"]

    def cut(self, P, d, world, nw, rot, limit=None):
        """The positions at which the samples are cut, over all ranks: [start, end) for every global worker."""
        self.current = d
        parts = []
        W = max(nw, 1)
        for r in range(world):
            self.got = []
            wc = WorkerConfig(rank=r, world_size=world, num_workers=nw)
            R = self.Sharder.shard_workers(d["shards"], wc, max_samples_per_sequence=limit, rotation_offset=rot)
            P.prove("the shards are split once per rank", len(self.got) == 1)
            shards, offsets, lim = self.got[0]
            P.prove("all shards are split, with the limit given", shards is d["shards"] and (lim is limit))
            P.prove("there is a part for every worker of the rank", and_(s_len(offsets) == W + 1, s_len(R) == W))
            parts += [(offsets[k], offsets[k + 1]) for k in range(W)]
        return parts


class ShardWorkers(ShardWorkersBase):
    """All samples are given out, exactly once, in balanced parts."""
    name = "Sharder.shard_workers"
    covers = ("cut",)
    bounded = "up to 6 global workers (thorough: 9); any number of shards, samples and rotation offset"

    def run(self, P):
        self.setup(P)
        d = self.dataset(P, "d")
        world, nw = sizes()[P.choose(len(sizes()))]
        rot = P.int("rotation", 0)
        limit = P.int("limit", 1) if P.choose(2) else None
        parts = self.cut(P, d, world, nw, rot, limit)
        P.cover("cut")
        G = len(parts)
        P.prove("the first worker starts with the first sample", parts[0][0] == 0)
        P.prove("the last worker ends with the last sample", parts[-1][1] == d["total"])
        for j in range(G - 1):
            P.prove("every worker starts where the one before ends", parts[j][1] == parts[j + 1][0])
        q = P.int("average", 0)
        P.assume(and_(q * G <= d["total"], d["total"] < q * G + G))
        for a, b in parts:
            P.prove("every worker gets the average or one more", and_(b - a >= q, b - a <= q + 1))


class ShardWorkersFilter(ShardWorkersBase):
    """Empty pieces are left out, all others are kept in order."""
    name = "Sharder.shard_workers [pieces]"
    covers = ("kept", "left out")
    bounded = "up to 2 workers, one rank; any number of shards and samples"

    def run(self, P):
        self.setup(P)
        d = self.dataset(P, "d")
        self.current = d
        nw = P.choose(2) + 1
        wc = WorkerConfig(rank=0, world_size=1, num_workers=nw)
        R = self.Sharder.shard_workers(d["shards"], wc, max_samples_per_sequence=None, rotation_offset=P.int("rotation", 0))
        k = P.choose(nw)
        i = P.int("piece_index", 0)
        P.assume(i < self.pieces(k))
        g, r = self.lists(k)[i], R[k]
        pos = P.filters[k].complete(i) if P.filters else i
        if pos is not None:
            P.cover("kept")
            P.prove_eq("no piece with samples is lost", r[pos], g)
            if P.filters and P.branch():
                P.assume(pos < s_len(r) - 1)
                P.prove("the pieces stay in order", P.filters[k].sigma(pos) < P.filters[k].sigma(pos + 1))
                raise PathEnd
        else:
            P.cover("left out")
            P.prove("only empty pieces are left out", g[0].count == 0)


class BitReversal(Contract):
    """The permutation of the workers is one."""
    name = "Sharder._generalized_bit_reversal"
    bounded = "lengths up to 300"
    covers = ("permutation",)

    def run(self, P):
        from megatron.energon.flavors.webdataset.sharder import Sharder
        n = P.choose(300) + 1
        r = Sharder._generalized_bit_reversal(n)
        P.cover("permutation")
        P.prove("all workers are there, each once", sorted(list(r)) == list(range(n)))


class SameForRanks(ShardWorkersBase):
    """The same global workers over a different number of ranks: the same parts."""
    name = "Sharder.shard_workers [ranks]"
    covers = ("cut",)
    bounded = "up to 6 global workers (thorough: 9); any number of shards, samples and rotation offset"

    def run(self, P):
        self.setup(P)
        d = self.dataset(P, "d")
        world, nw = sizes()[P.choose(len(sizes()))]
        G = world * max(nw, 1)
        rot = P.int("rotation", 0)
        parts = self.cut(P, d, world, nw, rot)
        P.cover("cut")
        for w2 in range(1, G + 1):
            if G % w2 == 0 and w2 != world:
                other = self.cut(P, d, w2, G // w2, rot)
                for x, y in zip(parts, other):
                    P.prove("the part of a global worker does not depend on the number of ranks", and_(x[0] == y[0], x[1] == y[1]))


class SurplusContinues(ShardWorkersBase):
    """Datasets whose rotation offset is the number of samples before them share their surplus."""
    name = "Sharder.shard_workers [surplus]"
    covers = ("cut",)
    bounded = "1 to 6 global workers (thorough: 8); any number of shards and samples before and in the dataset"
    G = 1

    def run(self, P):
        self.setup(P)
        G = self.G
        before, d, both = (self.dataset(P, x) for x in ("before", "d", "both"))
        # every number of samples: quotient and remainder
        qa, qb, ra, rb = P.int("qa", 0), P.int("qb", 0), P.choose(G), P.choose(G)
        before["total"], d["total"], both["total"] = qa * G + ra, qb * G + rb, (qa + qb) * G + (ra + rb)
        # by induction over the datasets: all samples before, shared as one dataset of this size would be, plus this dataset,
        # are shared as one dataset of the size of both
        a = self.cut(P, before, 1, G, 0)
        b = self.cut(P, d, 1, G, ra)
        c = self.cut(P, both, 1, G, 0)
        P.cover("cut")
        q = qa + qb + (ra + rb) // G
        for j in range(G):
            s = a[j][1] - a[j][0] + b[j][1] - b[j][0]
            P.prove("the surplus of the samples so far and of the next dataset is spread as that of one dataset", s == c[j][1] - c[j][0])
            P.prove("over several datasets any two workers differ by at most one sample", and_(s >= q, s <= q + 1))


def surplus(n):
    return type(f"SurplusContinues{n}", (SurplusContinues,), dict(G=n, name=f"Sharder.shard_workers [surplus of {n} workers]"))
