"""C01: dividing shards over workers."""
from lib import *
from shards import *
import megatron.energon.flavors.webdataset.sharder as sharder_module
from megatron.energon.flavors.webdataset.sharder import Sharder


class Piece:
    """Contract of _split_shard: the pieces of one shard group together are exactly the range [start, end) (proved under C03)."""
    _stub = True

    def __init__(self, shard, start, end):
        self.shard, self.start, self.end = shard, start, end


class SplitShards(Contract):
    """Every list yielded covers exactly the samples from one given position to the next."""
    name = "Sharder._split_shards"
    covers = ("yield", "several shards", "one shard", "end")
    assumptions = ("shards hold their samples from offset 0 on (as the factories create them)",)

    def sum(self, P, s, start):
        """sum(lists, start=[]): concatenation.  Each list stands for the pieces of one shard, which is one token here."""
        k = SInt(P.fresh_int("k"))
        if P.branch():
            P.assume(and_(k >= 0, k < s.n))
            P.prove("[one token per shard]", s_len(s.at(k)) == 1)
            raise PathEnd
        return SList(seq_concat(seq_of(start), Seq(n=s.n, f=lambda i: s.at(i)[0])))

    def run(self, P):
        N, W = P.int("shards", 1), P.int("workers", 1)
        pre_ = z3.Function("samples_before", z3.IntSort(), z3.IntSort())
        P.add(pre_(0) == 0)
        count = P.int_stream("count", N, lambda i, v: and_(v >= 0, mkint(pre_(num(i) + 1)) == mkint(pre_(num(i))) + v, mkint(pre_(num(i))) >= 0,
                                                           implies(i < N, mkint(pre_(num(i) + 1)) <= mkint(pre_(num(N))))))

        def pre(i):
            v = mkint(pre_(num(i)))
            P.assume_value(mkint(pre_(num(i) + 1)) == v + count.at(i))
            P.assume_value(v >= 0)
            return v
        ids = lambda g: g[0].name
        shards = SList(Seq(n=N, f=lambda i: SList(Seq([ShardInfo(i, "path", 0, count.at(i))]))))
        cut = P.int_stream("cut", W + 1)
        g = P.ghost
        g.k = 0
        # positions in order, within the samples there are
        P.assume(and_(cut.at(0) >= 0))
        total = mkint(pre_(num(N)))

        def cut_at(i):
            v = cut.at(i)
            P.assume_value(and_(v >= 0, implies(i < W, v <= mkint(z3.Function("cut", z3.IntSort(), z3.IntSort())(num(i) + 1))), v <= total))
            return v
        offsets = SList(Seq(n=W + 1, f=cut_at))
        limit = P.int("limit", 1) if P.choose(2) else None

        def split_shard(sub, start_offset, end_offset, max_samples_per_sequence):
            P.prove("the limit is handed on", max_samples_per_sequence is limit if limit is None else max_samples_per_sequence == limit)
            return SList(Seq([Piece(ids(sub), start_offset, end_offset)]))
        self.patch(Sharder, "_split_shard", staticmethod(split_shard))
        # templates for the positions and offsets which the walk over the shards keeps
        P.rels = lambda P: {"samples before a shard": pre, "position of the cut in a shard": lambda v: cut_at(g.k) - pre(v), "shard": lambda v: shards.c.at(v)}
        P.where = lambda P, v: {"first": v >= 0, "within": v < N, "before the cut": or_(v == 0, pre(v) < cut_at(g.k)), "before the next cut": or_(v == 0, g.k >= W, pre(v) <= cut_at(g.k + 1)),
                                "in the shard": and_(cut_at(g.k) >= pre(v), cut_at(g.k) <= pre(v) + count.at(v))}
        P.invs = lambda P: [('k', g.k >= 0), ('k2', g.k <= W)]
        for lst in Sharder._split_shards(shards, offsets, max_samples_per_sequence=limit):
            P.cover("yield")
            n = s_len(lst)
            a, b = offsets[g.k], offsets[g.k + 1]
            P.prove("no more lists than workers", g.k < W)
            P.prove("every list has a piece", n >= 1)
            P.cover("one shard" if n == 1 else "several shards")
            first, last = lst[0], lst[n - 1]
            P.prove("a worker's samples start where those of the previous one end", pre(first.shard) + first.start == a)
            P.prove("a worker's samples end where those of the next one start", pre(last.shard) + last.end == b)
            j = P.int("j", 0)
            if P.branch():
                P.assume(j < n)
                x = lst[j]
                pre(x.shard)
                P.prove("every piece lies within its shard", and_(x.shard >= 0, x.shard < N, x.start >= 0, x.start <= x.end, x.end <= count.at(x.shard)))
                raise PathEnd
            if P.branch():
                P.assume(j < n - 1)
                x, y = lst[j], lst[j + 1]
                P.prove("a piece starts where the one before ends, across shards", and_(pre(x.shard) + x.end == pre(y.shard) + y.start, x.shard < y.shard))
                raise PathEnd
            g.k = g.k + 1
        P.cover("end")
        P.prove("every worker gets a list", g.k == W)


CONTRACTS = [SplitShards, ShardWorkers, ShardWorkersFilter, BitReversal]
