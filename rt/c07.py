"""C07 - retrying streams return the exact bytes."""
from core import *

RULE = "file size x sequences of read/seek x fault schedules of the underlying file (errors on open, seek, read, close; short reads); non-trivial: at least one injected fault is hit"
FAULTS = ["ok", "short", "err", "short1"]


def gen(tier, rng):
    q = tier == "quick"
    # single faults at every place
    for n in (-1, 1, 4, 10, 13, 20):
        for place in ("read", "open", "seek", "close"):
            for at in range(0, 4):
                for kind in ("err", "short"):
                    yield dict(size=13, ops=[["read", n], ["seek", 3, 0], ["read", 4], ["read", n]], faults={place: [[at, kind]]})
    for k in range(1, 14):
        yield dict(size=13, ops=[["read", 5], ["read", -1]], faults={"read": [[i, "err"] for i in range(k)]})
        yield dict(size=40, ops=[["read", 30], ["read", -1]], faults={"read": [[i, "short1"] for i in range(k)]})
        yield dict(size=13, ops=[["seek", 2, 0], ["read", 5]], faults={"open": [[i, "err"] for i in range(k)]})
    for _ in range(1500 if q else 100000):
        size = rng.choice([0, 1, 7, 30, 300])
        ops = []
        for _ in range(rng.randint(1, 9)):
            if rng.random() < .7:
                ops.append(["read", rng.choice([-1, 0, 1, 2, 5, 10, 50, 400])])
            else:
                ops.append(["seek", rng.choice([0, 1, 5, -1, -3, 20, 400]), rng.choice([0, 1, 2])])
        faults = {p: [[rng.randrange(12), rng.choice(["err", "short", "short1"])] for _ in range(rng.choice([0, 1, 3, 6]))] for p in ("read", "open", "seek", "close")}
        yield dict(size=size, ops=ops, faults=faults)


def nontrivial(c):
    return any(c["faults"].values())


class Under:
    def __init__(self, path):
        self.p, self.b, self.closed = path, io.BytesIO(path.data), False

    def read(self, n=-1):
        req(not self.closed, "read of a closed file")
        f = self.p.fault("read")
        if f == "err":
            self.b.seek(self.p.garbage % (len(self.p.data) + 1))   # position after an error is undefined
            raise OSError("injected read error")
        if f in ("short", "short1"):
            want = len(self.p.data) - self.b.tell() if n is None or n < 0 else n
            k = 1 if f == "short1" else want // 2
            return self.b.read(min(k, want))
        return self.b.read(n)

    def seek(self, o, w=0):
        req(not self.closed, "seek of a closed file")
        if self.p.fault("seek") == "err":
            raise OSError("injected seek error")
        return self.b.seek(o, w)

    def tell(self):
        return self.b.tell()

    def close(self):
        self.closed = True
        if self.p.fault("close") == "err":
            raise OSError("injected close error")


class Path:
    garbage = 7

    def __init__(self, data, faults):
        self.data, self.faults = data, {k: dict(map(tuple, v)) for k, v in faults.items()}
        self.n = {}
        self.streak = self.hits = 0

    def fault(self, place):
        i = self.n.get(place, 0)
        self.n[place] = i + 1
        f = self.faults.get(place, {}).get(i)
        if f and (f == "err" or place == "read"):
            self.hits += 1
        return f

    def size(self):
        return len(self.data)

    def open(self, mode="rb"):
        if self.fault("open") == "err":
            raise OSError("injected open error")
        return Under(self)


def run(c):
    from megatron.energon.retry_stream import RetryReadStream
    data = bytes((i * 37 + i // 251) % 256 for i in range(c["size"]))
    path = Path(data, c["faults"])
    f = RetryReadStream(path)
    pos = 0
    for i, op in enumerate(c["ops"]):
        what = f"step {i} {op} at {pos}"
        h0 = path.hits
        if op[0] == "read":
            end = c["size"] if op[1] < 0 else min(pos + op[1], c["size"])
            try:
                got = f.read(op[1])
            except OSError as e:
                req(path.hits - h0 >= 9, f"{what}: failed after only {path.hits - h0} faults: {e}")
                return
            except Exception as e:
                raise Violation(f"{what}: raised {type(e).__name__}: {e} instead of retrying")
            if got != data[pos:end]:
                return f"{what}: got {short(got, 80)}, expected {short(data[pos:end], 80)} ({path.hits} faults injected)"
            pos = end
        else:
            base = [0, pos, c["size"]][op[2]]
            pos = max(0, min(base + op[1], c["size"]))
            try:
                eq(f.seek(op[1], op[2]), pos, what + ": returned position")
            except OSError as e:
                raise Violation(f"{what}: raised {e}")
        eq(f.tell(), pos, what + ": tell()")


def shrink(c):
    for i in range(len(c["ops"])):
        yield dict(c, ops=c["ops"][:i] + c["ops"][i + 1:])
    for p, l in c["faults"].items():
        for i in range(len(l)):
            yield dict(c, faults={**c["faults"], p: l[:i] + l[i + 1:]})
