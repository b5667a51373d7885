"""C21 - paths."""
from core import *

RULE = ("random local, relative and remote path strings x chains of joins (relative, absolute, remote; as string or path), parents, suffix changes, relative_to and string round trips, against an "
        "independent list-of-parts reference; non-trivial: '..' or '.' parts and at least two operations")
CONF = "[r1]\ntype = s3\nprovider = x\naccess_key_id = a\nsecret_access_key = b\nregion = c\nendpoint = localhost\n[r-2]\ntype = s3\nprovider = x\naccess_key_id = a\nsecret_access_key = b\nregion = c\nendpoint = https://h\n"


def gen(tier, rng):
    q = tier == "quick"
    names = ["a", "b", "c.tar", "a.tar.gz", ".nv-meta", "x y", "ä", "...", "..a", "a..", "~", "%20", "r1", "{0..1}", "."]

    def parts(n, up=.2):
        return [".." if rng.random() < up else rng.choice(names) for _ in range(n)]

    def s(kind):
        body = "/".join(parts(rng.randint(0, 5)))
        if rng.random() < .3:
            body = body.replace("/", rng.choice(["//", "/./", "///"]))
        if rng.random() < .2:
            body += "/"
        if kind == "abs":
            return "/" + body.lstrip("/")
        if kind == "remote":
            return "rclone://" + rng.choice(["", "/"]) + rng.choice(["r1", "r-2"]) + "/" * (rng.random() < .9) + ("" if body.startswith("/") else body)
        return body.lstrip("/") or "."
    for _ in range(2500 if q else 150000):
        k = rng.choice(["abs", "abs", "remote", "remote", "remote", "rel"])
        ops = []
        for _ in range(rng.randint(0, 6)):
            o = rng.choice(["join", "join", "join", "parent", "suffix", "str", "copy", "rel"])
            if o in ("join", "rel"):
                ops.append([o, s(rng.choice(["rel", "rel", "rel", "rel", "abs", "remote"])), rng.random() < .5])
            elif o == "suffix":
                ops.append([o, rng.choice([".x", ".tar.idx", ""])])
            else:
                ops.append([o])
        yield dict(p=s(k), ops=ops)


def nontrivial(c):
    return ".." in json.dumps(c) and len(c["ops"]) > 1


class Bad(Exception):
    pass


def split(b):
    return [x for x in b.split("/") if x not in ("", ".")]


def resolve(parts, keep):
    out = []
    for x in parts:
        if x == "..":
            if len(out) <= keep:
                raise Bad
            out.pop()
        else:
            out.append(x)
    return out


def ref(s):
    """(protocol, absolute, parts)"""
    if s.startswith("rclone://"):
        b = s[len("rclone://"):]
        r = resolve(split(b), 1)
        if not r or r[0] not in ("r1", "r-2") or (b.startswith("//") and not b.startswith("///")):
            raise Bad
        return ("rclone", True, r)
    return ("local", s.startswith("/"), split(s))


def rstr(r):
    if r[0] == "rclone":
        return "rclone://" + "/".join(r[2])
    return ("/" if r[1] else "") + "/".join(r[2]) if r[2] or r[1] else "."


def run(c):
    from megatron.energon.epathlib import EPath
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(d + "/rclone")
        open(d + "/rclone/rclone.conf", "w").write(CONF)
        old = os.environ.get("XDG_CONFIG_HOME")
        os.environ["XDG_CONFIG_HOME"] = d
        try:
            return _run(c, EPath)
        finally:
            os.environ.pop("XDG_CONFIG_HOME")
            if old is not None:
                os.environ["XDG_CONFIG_HOME"] = old


def both(f, g, what):
    """The real result and the reference result; None when both reject."""
    try:
        want = g()
    except Bad:
        want = None
    try:
        got = f()
    except (ValueError, IndexError) as e:
        got, err = None, e
    if (got is None) != (want is None):
        raise Violation(f"{what}: " + (f"accepted as {got!r}, expected an error" if want is None else f"rejected ({err!r}), expected {rstr(want)!r}"))
    return got, want


def _run(c, EPath):
    what = f"EPath({c['p']!r})"
    p, r = both(lambda: EPath(c["p"]), lambda: ref(c["p"]), what)
    if p is None:
        return
    check(p, r, what, EPath)
    for o in c["ops"]:
        if o[0] == "join":
            if not r[1]:
                continue
            what += f" / {o[1]!r}"
            try:
                other = o[1] if o[2] else EPath(o[1])
                orf = ref(o[1])
            except (ValueError, IndexError, Bad):
                continue
            before = str(p)
            np, nr = both(lambda: p / other, lambda: orf if orf[1] else (r[0], True, resolve(r[2] + orf[2], int(r[0] == "rclone"))), what)
            eq(str(p), before, f"{what}: the joined path itself afterwards")
            if np is None:
                continue
            p, r = np, nr
        elif o[0] == "parent":
            what += ".parent"
            np = p.parent
            nr = (r[0], r[1], r[2][:-1] if len(r[2]) > int(r[0] == "rclone") else r[2])
            if r[1] and len(r[2]) > int(r[0] == "rclone") and r[2][-1] != "..":
                eq(str(np / p.name) if ".." not in r[2] else rstr((r[0], r[1], nr[2] + [p.name])), rstr(r), f"{what}: joined with the name")
            p, r = np, nr
        elif o[0] == "suffix":
            if len(r[2]) <= int(r[0] == "rclone") or r[2][-1] == ".." or not r[2][-1].strip("."):
                continue
            n = r[2][-1]
            i = n.rfind(".")
            if n.endswith(".") or n.startswith(".."):
                continue
            stem = n[:i] if i > 0 and n[:i].strip(".") else n
            what += f".with_suffix({o[1]!r})"
            p, r = p.with_suffix(o[1]), (r[0], r[1], r[2][:-1] + [stem + o[1]])
        elif o[0] == "str":
            what = f"EPath(str({what}))"
            p2 = EPath(str(p))
            eq(p2, p, f"{what}: equality with the original")
            eq(hash(p2), hash(p), f"{what}: hash")
            p = p2
        elif o[0] == "copy":
            p2 = EPath(p)
            eq((p2, hash(p2), str(p2)), (p, hash(p), str(p)), f"EPath({what})")
            p = p2
        else:
            if not r[1] or ref_or_none(o[1]) is None or ref_or_none(o[1])[1] or ".." in r[2]:
                continue
            what2 = f"({what} / {o[1]!r}).relative_to({what})"
            try:
                full, fr = both(lambda: p / o[1], lambda: (r[0], True, resolve(r[2] + ref(o[1])[2], int(r[0] == "rclone"))), what2)
            except Violation:
                raise
            if full is None:
                continue
            if fr[2][:len(r[2])] == r[2]:
                rel = full.relative_to(p)
                eq(str(rel), "/".join(fr[2][len(r[2]):]) or ".", what2)
                eq(p / rel, full, what2 + " joined again")
            else:
                try:
                    rel = full.relative_to(p)
                except ValueError:
                    continue
                raise Violation(f"{what2}: gave {rel!r} for a path which is not below")
        check(p, r, what, EPath)


def ref_or_none(s):
    try:
        return ref(s)
    except Bad:
        return None


def check(p, r, what, EPath):
    eq(str(p), rstr(r), f"{what}: string")
    eq(p.is_absolute(), r[1], f"{what}: is_absolute()")
    if r[2]:
        eq(p.name, r[2][-1], f"{what}: name")
    if r[1]:
        eq(p.url, rstr(r), f"{what}: url")
        eq(p._internal_nonfs_path, "/" + "/".join(r[2][1:] if r[0] == "rclone" else r[2]), f"{what}: path inside of the file system") if hasattr(p, "_internal_nonfs_path") else None
    else:
        eq(p.relpath, rstr(r), f"{what}: relpath")
        a = p.absolute()
        eq(str(a), "/".join([os.getcwd().rstrip("/")] + r[2]), f"{what}: absolute()")
    eq(p == EPath(p) and hash(p) == hash(EPath(p)), True, f"{what}: equality with its copy")


def shrink(c):
    for i in range(len(c["ops"])):
        yield dict(c, ops=c["ops"][:i] + c["ops"][i + 1:])
