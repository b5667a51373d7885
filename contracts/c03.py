"""C03: cutting a range of a shard into pieces."""
from lib import *
from shards import *
from megatron.energon.flavors.webdataset.sharder import Sharder
from megatron.energon.flavors.webdataset.structs import ShardInfo


class SplitShard(Contract):
    name = "Sharder._split_shard"
    covers = ("cut", "not cut", "no limit")
    limit = True

    def round(self, P, x):
        """Rounding gives an integer at a distance of at most 1/2 (round half to even, as Python does)."""
        r = SInt(P.fresh_int("rounded"))
        P.assume_value(and_(x - r <= 0.5, r - x <= 0.5))
        self.rounded = r
        return r

    def run(self, P):
        m = P.int("joined", 1)
        group = SList(shard_seq(P, "shard", m))
        s, e = P.int("start", 0), P.int("end", 0)
        P.assume(s < e)
        limit = P.int("limit", 1) if P.choose(2) else None
        self.rounded = None
        R = Sharder._split_shard(group, start_offset=s, end_offset=e, max_samples_per_sequence=limit)
        K = s_len(R)
        L = e - s
        cut = isinstance(K, SInt)
        P.cover("no limit" if limit is None else "cut" if isinstance(K, SInt) else "not cut")
        P.prove("there is at least one piece", K >= 1)
        t, j = P.int("t", 0), P.int("j", 0)
        P.assume(and_(t < m, j < K))
        offset = lambda j, t=0: R[j][t].offset
        count = lambda j, t=0: R[j][t].count
        if cut:
            # arithmetic used below: half the number of samples fits a piece and a half, rounding gives at least two pieces
            P.lemma("rounding up or down by half a limit", and_(2 * L <= 2 * K * limit + limit, 2 * L >= 2 * K * limit - limit))
            P.lemma("a range of more than one and a half limits gives at least two pieces", K >= 2)
            P.lemma("no more pieces than samples", K <= L)
        if P.branch():
            P.prove("every joined shard is in every piece", s_len(R[j]) == m)
            x, y = R[j][t], group[t]
            P.prove("the pieces are of the same shard", and_(x.name == y.name, x.path == y.path))
            P.prove("all joined shards are cut at the same positions", and_(x.offset == offset(j), x.count == count(j)))
            P.prove("the byte position of the whole shard is not taken over", and_(x.byte_offset is None, x.byte_size is None))
            raise PathEnd
        if P.branch():
            P.prove("the first piece starts with the range", offset(0) == s)
            P.prove("the last piece ends with the range", offset(K - 1) + count(K - 1) == e)
            raise PathEnd
        if P.branch():
            P.assume(j < K - 1)
            P.prove("a piece starts where the previous one ends", offset(j) + count(j) == offset(j + 1))
            raise PathEnd
        c = count(j)
        if cut:
            q, r = L // K, L % K
            self.share(P, c, q, r, K)
            P.lemma("a piece has the average length, rounded down or up", and_(c >= q, c <= q + 1, implies(r == 0, c == q)))
            P.lemma("the average is at least one", q >= 1)
            if P.branch():
                i = P.int("i", 0)
                P.assume(i < K)
                d = count(i)
                self.share(P, d, q, r, K)
                P.lemma("a piece has the average length, rounded down or up", and_(d >= q, d <= q + 1))
                P.prove("the pieces differ by at most one sample", and_(c - d <= 1, d - c <= 1))
                raise PathEnd
            P.lemma("average", and_(q * K <= L, (c - 1) * K < L))
            # 2 c > 3 limit would give 3 limit K + K <= 2 c K < 2 L + 2 K <= 2 K limit + limit + 2 K
            P.lemma("steps", implies(2 * c >= 3 * limit + 1, 2 * c * K >= (3 * limit + 1) * K))
            P.lemma("steps", implies(2 * c >= 3 * limit + 1, and_(limit * (K - 1) < K, limit <= 1)))
        elif P.branch():
            i = P.int("i", 0)
            P.assume(i < K)
            P.prove("the pieces differ by at most one sample", and_(c - count(i) <= 1, count(i) - c <= 1))
            raise PathEnd
        P.prove("no piece is empty", c >= 1)
        if limit is not None:
            P.prove("no piece is longer than one and a half times the limit", 2 * c <= 3 * limit)

    def share(self, P, c, q, r, K):
        """Facts about sums of the divisions made: a = q * b + r for each."""
        for a, b, qq, rr in P.divs:
            P.add(z3.And(rr >= 0, rr < b))
        d = c - q
        P.lemma("the distance from the average", and_(d * K < 2 * K, d * K > -K))
        P.lemma("the distance from the average is 0 or 1", and_(d >= 0, d <= 1))


CONTRACTS = [SplitShard]
