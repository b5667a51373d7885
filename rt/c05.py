"""C05 - shard slices read exactly the tar samples in their index range."""
import re, struct
from tarutil import *

RULE = "sequences of tar members (several files per sample, directories, links, meta and unnamed entries, nested paths, long names) x every slice; non-trivial: at least two samples with an interior slice"
EXTS = ["txt", "json", "img.png", "a.b.c", ""]


def names(rng, n):
    out = []
    k = 0
    while len(out) < n:
        k += 1
        base = rng.choice([f"{k:04d}", f"dir/{k}", f"a.d/x{k}" , "n" * 120 + str(k), f"sub/deep/{k}", f"k{k}"])
        r = rng.random()
        if r < .12:
            out.append(["dir", f"d{k}"])
        elif r < .18:
            out.append(["link", f"{k}.lnk", "other"])
        elif r < .26:
            out.append(rng.choice([f"__meta{k}__/{k}.txt", "__info__", f"noext{k}", f"x/noext{k}"]))
        else:
            for e in rng.sample(EXTS, rng.randint(1, 3)):
                out.append(f"{base}.{e}")
            if rng.random() < .2:        # entries which belong to no sample, between the files of one
                out.insert(len(out) - 1, rng.choice([["dir", "mid"], ["link", "mid.lnk", "other"], f"README{k}", f"x/noext{k}b", f"__meta{k}b__/y.txt"]))
    return out


def gen(tier, rng):
    q = tier == "quick"
    fixed = [["1.txt"], ["1.txt", "2.txt"], ["1.txt", "1.json", "2.txt", "2.json", "3.txt"], [["dir", "d"], "1.txt", "2.txt"],
             ["1.txt", ["dir", "d"], "1.json", "2.txt", "__meta__/x.txt"], ["a/1.txt", "a/1.img.png", "b/1.txt"], ["noext", "1.a", "noext2", "2.a", "noext3"],
             ["1.txt", "README", "1.json", "2.txt", "2.json"], ["1.txt", "__info__", "1.json", "2.txt"], ["1.txt", ["link", "l.x", "other"], "1.json", "2.txt"],
             ["a.d/1.txt", "a.d/1.json", "a.d/2.txt"], [["x.txt", ""], "y.txt"], ["n" * 130 + ".txt", "n" * 130 + ".json", "m" * 130 + ".txt", "o.txt"]]
    for f in fixed:
        f = [(m if not (isinstance(m, list) and m[0] not in ("dir", "link")) else m[0]) for m in f]
        yield dict(members=f)
    for _ in range(120 if q else 6000):
        yield dict(members=names(rng, rng.randint(1, 14)), big=rng.choice([0, 0, 700, 11000]))


def nontrivial(c):
    return len(c["members"]) > 3


def bases(members):
    """Independent grouping: member names -> [(base, {ext: name}, first member position)]."""
    out = []
    for pos, m in enumerate(members):
        if isinstance(m, list):
            continue
        last = m.rsplit("/", 1)[-1]
        if re.match(r"__[^/]*__($|/)", m):
            continue
        if "." not in last or last.startswith("."):
            continue
        stem, ext = last.split(".", 1)
        base = m[:len(m) - len(last)] + stem
        if not out or out[-1][0] != base:
            out.append((base, {}, pos))
        out[-1][1][ext] = m
    return out


def run(c):
    from megatron.energon import WorkerConfig
    from megatron.energon.flavors.webdataset import structs, single_shard_reader as ssr
    from megatron.energon.epathlib import EPath
    want = bases(c["members"])
    wc = WorkerConfig(rank=0, world_size=1, num_workers=0)
    with scratch() as d:
        p = d / "shard.tar"
        data = {m: (content("shard.tar", m) * (1 + c.get("big", 0) // 20)) for m in c["members"] if not isinstance(m, list)}
        write_tar(p, [m if isinstance(m, list) else (m, data[m]) for m in c["members"]])
        info, parts = build_index(p)
        eq(info.count, len(want), "number of samples counted")
        eq(set(parts), {e for _, f, _ in want for e in f}, "parts found")
        if not want:
            return
        raw = (d / "shard.tar.idx").read_bytes()
        idx = list(struct.unpack(f"<{len(raw) // 8}Q", raw))
        eq(len(idx), len(want) + 1, "entries of the tar index")
        # expected byte offsets from an independent walk
        with tarfile.open(p) as t:
            ms = t.getmembers()
            offs = [m.offset for m in ms]
            end = t.offset
        eq(idx, [offs[w[2]] for w in want] + [end], "tar index")

        def handler(e, k):
            raise e
        n = len(want)
        for o in range(n):
            for cnt in range(1, n - o + 1):
                if n > 6 and cnt not in (1, 2, n - o):
                    continue
                for resume in (None, 1):
                    if resume and cnt < 2:
                        continue
                    shard = structs.ShardInfo(name="shard.tar", path=EPath(str(p)), offset=o, count=cnt)
                    st = structs.ShardState(shard=shard, offset=0, byte_offset=0)
                    got = []
                    mk = lambda: ssr.SingleShardReader(wc, set(), st, None, handler)
                    with mk() as r:
                        while True:
                            try:
                                got.append(r.read_next())
                            except StopIteration:
                                break
                            if resume and len(got) == resume:
                                break
                    if resume:
                        st = structs.ShardState(shard=shard, offset=st.offset, byte_offset=st.byte_offset)
                        with mk() as r:
                            while True:
                                try:
                                    got.append(r.read_next())
                                except StopIteration:
                                    break
                    what = f"slice [{o},{o + cnt}) of {n} samples" + (f" resumed after {resume}" if resume else "")
                    eq([g[0] for g in got], [w[0] for w in want[o:o + cnt]], what + ": sample names")
                    for i, ((name, s), w) in enumerate(zip(got, want[o:o + cnt])):
                        eq(s["__key__"], "shard.tar/" + w[0], what + ": key")
                        eq(tuple(s["__restore_key__"]), ("Webdataset", "shard.tar", o + i), what + ": restore key")
                        eq({k: v for k, v in s.items() if not k.startswith("__")}, {e: data[m] for e, m in w[1].items()}, what + ": files")


def shrink(c):
    for i in range(len(c["members"])):
        if len(c["members"]) > 1:
            yield dict(c, members=c["members"][:i] + c["members"][i + 1:])
