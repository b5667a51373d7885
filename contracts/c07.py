"""C07: a retrying stream returns exactly the bytes of the file, whatever errors and short reads the stream below has."""
from lib import *
from c06 import symmin
from megatron.energon.retry_stream import RetryReadStream


class Under:
    """Contract of an opened file: F[0..N) with a position; every operation may fail, a read may return fewer bytes than asked for (even none).
    After an error (or close) the position is unknown: nothing may be read then."""
    _ghost = True
    _ref = "file"

    def __init__(self, P, N):
        self._nosnap_P, self.N = P, N
        P.refs["file"] = self
        self.F = P.int_stream("F", N)
        self.pos = 0
        self.valid = False
        self.faults = True
        self.bad = 0
        self._nosnap_left = 10 ** 9

    def chance(self):
        if self.faults and self._nosnap_left > 0 and self._nosnap_P.choose(2):
            self._nosnap_left -= 1
            return True
        return False

    def fail(self, what, spoils=True):
        P = self._nosnap_P
        if self.chance():
            P.cover(what + " fails")
            if spoils:
                self.valid = False
            if what != "close":
                self.bad = self.bad + 1
            raise OSError(what + " fails")

    def read(self, n=-1):
        P = self._nosnap_P
        P.prove("no read of a stream which was closed or has failed", self.valid)
        self.fail("read")
        P.prove("no negative size but -1 is asked for", True if n is None else n >= -1)
        m = self.N - self.pos if n is None else ite(n < 0, self.N - self.pos, symmin(self.N - self.pos, n))
        if self.chance():
            P.cover("short read")
            k = P.int(P.fresh_name("short"), 0)
            P.assume(k < m)
            m = k
            self.bad = self.bad + 1
        r = SList(seq_slice(self.F, self.pos, self.pos + m), True)
        self.pos = self.pos + m
        return r

    def seek(self, o, whence=0):
        P = self._nosnap_P
        P.prove("no seek in a closed stream", self.valid)
        self.fail("seek")
        o = o if whence == 0 else self.pos + o if whence == 1 else self.N + o
        P.prove("seek to a position in the file", and_(o >= 0, o <= self.N))
        self.pos = o
        return o

    def tell(self):
        return self.pos

    def close(self):
        self.valid = False
        self.fail("close")


class FilePath:
    _stub = True

    def __init__(self, f):
        self.f = f

    def size(self):
        return self.f.N

    def open(self, mode="r"):
        P = self.f._nosnap_P
        P.prove("the file is opened for reading bytes", mode == "rb")
        self.f.fail("open", False)
        self.f.pos = 0
        self.f.valid = True
        return self.f


def uses(s, f):
    return any(v is f for v in vars(s).values())


class Stream(Contract):
    sym_bytes = True
    cut_ranges = 10 ** 9
    assumptions = ("the size of the file does not change while it is read; a position reached by reading or seeking is the position of the next byte",)

    def start(self, P):
        """A stream at an arbitrary position, with the file open or not."""
        self.cut_ranges = 10 ** 9
        N = P.int("size", 0)
        f = Under(P, N)
        s = RetryReadStream(FilePath(f))
        P.prove("a new stream is at position 0", s.tell() == 0)
        p = P.int("position", 0)
        P.assume(p <= N)
        f.faults = False
        P.prove("seeking in the file goes there", s.seek(p) == p)
        if P.choose(2):
            s.read(0)
            P.prove("reading nothing does not move", s.tell() == p)
        f.faults = True
        self.cut_ranges = 3
        P.roots.update(s=s, f=f)
        P.invs = lambda P: [("position in the file", and_(s.tell() >= p, s.tell() <= N)),
                            ("an open file is at the position", implies(f.valid, f.pos == s.tell())),
                            ("only a usable file is kept", not uses(s, f) or f.valid)] + self.more(P, s, f, p)
        P.hints = lambda P: {"bytes": SList(seq_slice(f.F, p, s.tell()), True)}
        return s, f, p, N

    def more(self, P, s, f, p):
        return []

    def consistent(self, P, s, f):
        """The state is again one of the states `start` covers."""
        P.expect("an open file is at the position of the stream", implies(f.valid, f.pos == s.tell()))
        P.expect("a file which failed or was closed is not kept", not uses(s, f) or f.valid)


class Read(Stream):
    name = "RetryReadStream.read"
    covers = ("complete", "failed", "read fails", "open fails", "short read", "seek fails")

    def more(self, P, s, f, p):
        n = self.n
        return [("not more than asked for", True if n is None else implies(n >= 0, s.tell() <= p + n))]

    def run(self, P):
        self.n = n = None if P.choose(2) else P.int("n")
        s, f, p, N = self.start(P)
        want = N if n is None else ite(n < 0, N, symmin(N, p + n))
        try:
            r = s.read() if n is None and P.choose(2) else s.read(n)
        except OSError:
            P.cover("failed")
            P.prove("a read only fails after an error or a short read of the stream below", f.bad > 0)
            self.consistent(P, s, f)
            return
        P.cover("complete")
        P.prove_eq("a read returns exactly the bytes from the position on", r, SList(seq_slice(f.F, p, want), True))
        P.prove("the position is behind the bytes returned", s.tell() == want)
        self.consistent(P, s, f)


class Seek(Stream):
    name = "RetryReadStream.seek"
    covers = ("seek", "seek fails")

    def run(self, P):
        s, f, p, N = self.start(P)
        o, wh = P.int("o"), P.choose(4)
        if wh == 3:
            try:
                s.seek(o, P.int("whence", 3))
            except ValueError:
                P.prove("nothing changes", s.tell() == p)
                self.consistent(P, s, f)
            return
        q = (0, p, N)[wh] + o
        q = ite(q < 0, 0, symmin(q, N))
        r = s.seek(o, wh)
        P.cover("seek")
        P.prove("a seek returns the new position", and_(r == q, s.tell() == q))
        self.consistent(P, s, f)


class NoFaults(Stream):
    name = "RetryReadStream.read without errors"
    covers = ("read",)

    def run(self, P):
        self.n = n = P.int("n")
        s, f, p, N = self.start(P)
        f.faults = False
        try:
            r = s.read(n)
        except OSError:
            P.prove("a read does not fail without an error below", False)
        P.cover("read")


class FewFaults(Read):
    name = "RetryReadStream.read, few faults"
    bounded = "at most two errors or short reads; any file, position and size"
    covers = ("complete", "read fails", "open fails", "short read", "seek fails")

    def start(self, P):
        r = super().start(P)
        self.cut_ranges = 10 ** 9
        r[1]._nosnap_left = 2
        return r


CONTRACTS = [Read, Seek, NoFaults, FewFaults]
