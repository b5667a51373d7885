"""C06 - a sub file window behaves like a file with only those bytes."""
from core import *

RULE = "window position and size x sequences of read/seek/tell against io.BytesIO of the window (seek targets clamped to the window); non-trivial: bytes exist on both sides of the window and at least three operations"


def gen(tier, rng):
    q = tier == "quick"
    for off in (0, 1, 3):
        for size in (0, 1, 2, 5):
            for op in (["read", -1], ["read", 0], ["read", 1], ["read", 2], ["read", 9], ["read", -2], ["seek", 0, 0], ["seek", 2, 0],
                       ["seek", 1, 1], ["seek", -1, 1], ["seek", 0, 2], ["seek", -2, 2], ["seek", -3, 0], ["seek", 99, 0], ["seek", 4, 2]):
                for op2 in (["read", -1], ["read", 1], ["seek", 1, 1]):
                    yield dict(off=off, size=size, tail=4, ops=[op, op2, ["read", 2], ["read", -1], ["read", 1]])
    for _ in range(1500 if q else 100000):
        size = rng.choice([0, 1, 5, 20, 600])
        ops = []
        for _ in range(rng.randint(1, 12)):
            if rng.random() < .6:
                ops.append(["read", rng.choice([-1, -5, 0, 1, 2, 3, 7, 50, 700])])
            else:
                ops.append(["seek", rng.choice([0, 1, 5, -1, -3, 19, 20, 25, -30, 700, -700]), rng.choice([0, 1, 2])])
        yield dict(off=rng.choice([0, 1, 7, 512]), size=size, tail=rng.choice([0, 1, 9, 800]), ops=ops, prepos=rng.choice([0, 0, 5]))


def nontrivial(c):
    return c["off"] > 0 and c["tail"] > 0 and len(c["ops"]) > 2


def run(c):
    from megatron.energon.flavors.webdataset import itar
    if not hasattr(itar, "SubFileReader"):
        raise Inapplicable("SubFileReader is gone")
    data = bytes((i * 37 + i // 251) % 256 for i in range(c["off"] + c["size"] + c["tail"]))
    under = io.BytesIO(data)
    under.seek(c.get("prepos", 0))
    f = itar.SubFileReader(under, c["off"], c["size"])
    g = io.BytesIO(data[c["off"]:c["off"] + c["size"]])
    eq(f.tell(), 0, "position of a new window")
    for i, op in enumerate(c["ops"]):
        what = f"step {i} {op}"
        if op[0] == "read":
            want = g.read(op[1] if op[1] >= 0 else -1)
            got = f.read(op[1])
            if got != want:
                return f"{what}: got {len(got)} bytes {short(got, 60)}, expected {len(want)} bytes {short(want, 60)}"
        else:
            base = [0, g.tell(), c["size"]][op[2]]
            want = max(0, min(base + op[1], c["size"]))
            g.seek(want)
            eq(f.seek(op[1], op[2]), want, what + ": returned position")
        eq(f.tell(), g.tell(), what + ": tell()")


def shrink(c):
    for i in range(len(c["ops"])):
        yield dict(c, ops=c["ops"][:i] + c["ops"][i + 1:])
