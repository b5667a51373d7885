"""C08 - sample buffer and shuffle buffer."""
from passes import *
from megatron.energon.wrappers.buffer import SavableSampleBuffer

RULE = "operation sequences on the sample buffer against two plain lists; shuffle buffers over sizes x lengths x workers x restores; non-trivial: more than three operations / more samples than the buffer holds"
OPS = ["append", "extend", "extend_keys", "pop", "flush", "set", "setslice", "del", "delslice", "clear", "restore", "restore_merged", "append_iter", "iter"]


def gen(tier, rng):
    q = tier == "quick"
    for n in range(0, 10 if q else 25):
        for size in range(1, 6 if q else 14):
            for nw in (0, 1, 2, 3):
                yield dict(t="shuffle", n=n, size=size, nw=nw, save=[(n + size + w) % 5 for w in range(max(nw, 1))])
    for _ in range(1500 if q else 60000):
        nw = rng.choice([0, 1, 2, 3])
        yield dict(t="buf", nw=nw, wid=rng.randrange(max(nw, 1)),
                   ops=[[rng.choice(OPS), rng.randrange(-4, 8), rng.randrange(-4, 8), rng.randrange(4)] for _ in range(rng.randint(1, 14))])
    for _ in range(200 if q else 8000):
        nw = rng.choice([0, 1, 2, 4])
        yield dict(t="shuffle", n=rng.randint(0, 60), size=rng.randint(1, 25), nw=nw, save=[rng.randint(0, 20) for _ in range(max(nw, 1))])


def nontrivial(c):
    return len(c["ops"]) > 3 if c["t"] == "buf" else c["n"] > c["size"]


def run(c):
    return (run_buf if c["t"] == "buf" else run_shuffle)(c)


def run_buf(c):
    nw, w = c["nw"], c["wid"]
    wc = WorkerConfig(rank=0, world_size=1, num_workers=nw)
    src = Src(wc, [[f"{x}.{i}" for i in range(100)] for x in range(max(nw, 1))])
    buf = SavableSampleBuffer(src, worker_config=wc)
    other = [x for x in range(max(nw, 1)) if x != w]
    with as_worker(wc, w):
        buf.worker_start()
        b, k = [], []
        n = 0

        def new():
            nonlocal n
            n += 1
            return src.mk(w, n - 1)
        for step, (op, i, j, m) in enumerate(c["ops"]):
            try:
                want = None
                if op == "append":
                    s = new()
                    b.append(s); k.append(s.__restore_key__)
                    want = buf.append(s) is s
                elif op == "append_iter":
                    got = buf.append_iter()
                    for _ in range(m):
                        s = next(got)
                        b.append(s); k.append(s.__restore_key__)
                    got.close()
                elif op == "extend":
                    s = [new() for _ in range(m)]
                    b += s; k += [x.__restore_key__ for x in s]
                    buf.extend(s)
                elif op == "extend_keys":
                    s = [new() for _ in range(m)]
                    b += s; k += [x.__restore_key__ for x in s]
                    buf.extend(s, [x.__restore_key__ for x in s])
                elif op == "pop":
                    if not -len(b) <= i < len(b):
                        continue
                    x = b.pop(i); k.pop(i)
                    eq(sig(buf.pop(i)), sig(x), "popped sample")
                elif op == "flush":
                    got = buf.flush()
                    eq(([sig(x) for x in got[0]], tuple(got[1])), ([sig(x) for x in b], tuple(k)), "flush()")
                    b, k = [], []
                elif op == "set":
                    if not -len(b) <= i < len(b):
                        continue
                    s = new()
                    b[i] = s; k[i] = s.__restore_key__
                    buf[i] = s
                elif op == "setslice":
                    s = [new() for _ in range(m)]
                    b[i:j] = s; k[i:j] = [x.__restore_key__ for x in s]
                    buf[i:j] = s
                elif op == "del":
                    if not -len(b) <= i < len(b):
                        continue
                    del b[i], k[i]
                    del buf[i]
                elif op == "delslice":
                    del b[i:j], k[i:j]
                    del buf[i:j]
                elif op == "clear":
                    b, k = [], []
                    buf.clear()
                elif op == "iter":
                    eq([sig(x) for x in buf[i:j]], [sig(x) for x in b[i:j]], "slice of the buffer")
                else:
                    st = buf.save_state()
                    raw = pickle.loads(pickle.dumps(st))
                    ok = SavableSampleBuffer(src, worker_config=wc)
                    sts = [None] * max(nw, 1)
                    sts[w] = st
                    if op == "restore_merged":
                        for x in other:
                            sts[x] = type(st)(buffer=[("Src", "Src", x, y) for y in range(m)])
                    merged = ok.merge_states(sts)
                    ok.restore_state(merged)
                    ok.worker_start()
                    eq(sig(st.buffer), sig(raw.buffer), "saved state after restoring")
                    keep = merged.buffer[w] if hasattr(merged, "buffer") else None
                    buf = ok
                    buf.append(new())
                    buf.pop(-1)
                    n -= 1
            except Violation as e:
                raise Violation(f"step {step} {op}: {e}")
            st = buf.save_state()
            what = f"after step {step} {c['ops'][step]}"
            eq([sig(x) for x in buf], [sig(x) for x in b], f"buffered samples {what}")
            eq([sig(buf[x]) for x in range(len(b))], [sig(x) for x in b], f"samples by index {what}")
            eq(len(buf), len(b), f"len {what}")
            eq(list(st.buffer), k, f"saved restore keys {what}")
            eq(tuple(buf.restore_key()), tuple(k), f"restore keys {what}")
            keys, samples = buf.restore_samples(tuple(k))
            eq((tuple(keys), [sig(x) for x in samples]), (tuple(k), [sig(x) for x in b]), f"restore_samples {what}")


class Probe(Src):
    """Knows how many samples are taken but not given away yet."""
    out = 0


def run_shuffle(c):
    nw = c["nw"]
    wc = WorkerConfig(rank=0, world_size=1, num_workers=nw)
    items = split_items(c["n"], nw)
    for w in workers(nw):
        src = Src(wc, items)
        ds = ShuffleBufferDataset(src, size=c["size"], worker_config=wc)
        sw = SimWorker(ds, wc, w)
        inner = sw_src(sw.ds)
        n = len(items[w])
        seen_orders = set()
        for p in range(3):
            got = []
            taken = 0
            while True:
                try:
                    s = sw.next()
                except StopIteration:
                    break
                got.append(s)
                taken = inner.pos[w] if inner.pos[w] else n
                held = taken - len(got)
                # before this sample was emitted, the buffer held one more
                req(held + 1 <= c["size"], f"worker {w}: buffer of size {c['size']} held {held + 1} samples")
                req(held + 1 == min(c["size"], n - len(got) + 1) , f"worker {w} pass {p}: sample {len(got)} emitted while the buffer held {held + 1} of {c['size']} samples and the input had {n - taken} left")
            eq(sorted(val(x) for x in got), sorted(items[w]), f"worker {w} pass {p}: samples")
            for s in got:
                eq(sig(s), sig(inner.mk(w, s.__restore_key__[3])), "sample and its restore key")
            seen_orders.add(tuple(val(x) for x in got))
    spec = ["shuffle", c["size"], ["src", c["n"], False]]
    if c["n"] >= max(nw, 1):
        resume_check(spec, nw, [c["save"], [2] * max(nw, 1)], c["n"] + 8)


def sw_src(ds):
    while not isinstance(ds, Src):
        ds = ds.dataset
    return ds


def shrink(c):
    if c["t"] == "buf":
        for i in range(len(c["ops"])):
            yield dict(c, ops=c["ops"][:i] + c["ops"][i + 1:])
    else:
        if c["n"] > 0:
            yield dict(c, n=c["n"] - 1)
        if c["size"] > 1:
            yield dict(c, size=c["size"] - 1)
