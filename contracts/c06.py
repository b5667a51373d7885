"""C06: a window of a file behaves like a file with just these bytes."""
from lib import *
import megatron.energon.flavors.webdataset.itar as itar


class File:
    """Contract of the stream below: F[0..N) with a position; read(n) returns everything up to n bytes or the end (what C07 proves of the retrying
    stream), seek() moves the position."""
    _ghost = True

    def __init__(self, P, name="F"):
        self._nosnap_P = P
        self.N = P.int(name + "_size", 0)
        self.F = P.int_stream(name, self.N)
        self.pos = P.int(name + "_pos", 0)
        P.assume(self.pos <= self.N)
        self.closed = False
        self.limit = None

    def read(self, n=-1):
        P = self._nosnap_P
        P.prove("no read of a closed stream", not self.closed)
        e = self.N if n is None else ite(n < 0, self.N, symmin(self.N, self.pos + n))
        if self.limit is not None:
            P.prove("nothing outside of the window is read", and_(self.pos >= self.limit[0], e <= self.limit[1]))
        r = SList(seq_slice(self.F, self.pos, e), True)
        self.pos = e
        return r

    def seek(self, o, whence=0):
        P = self._nosnap_P
        base = 0 if whence == 0 else self.pos if whence == 1 else self.N
        P.prove("no seek to a negative position", base + o >= 0)
        self.pos = symmin(base + o, self.N)
        return self.pos

    def tell(self):
        return self.pos

    def close(self):
        self.closed = True


def symmin(a, b):
    return ite(a < b, a, b)


class Window(Contract):
    """One operation on a window at an arbitrary position, in the state in which a new window is after seeking there."""
    name = "SubFileReader"
    covers = ("read", "seek", "new")
    sym_bytes = True
    assumptions = ("the stream below delivers as many bytes as asked for unless the file ends (proved for RetryReadStream under C07)",)

    def at(self, P, p, tag=""):
        f = File(P)
        P.assume(and_(self.off >= 0, self.size >= 0, self.off + self.size <= f.N))
        s = itar.SubFileReader(f, self.off, self.size)
        if p is not None:
            s.seek(p)
        return s, f

    def start(self, P):
        self.off, self.size = P.int("offset", 0), P.int("size", 0)
        p = P.int("position", 0)
        s, f = self.at(P, p)
        P.assume(p <= self.size)
        P.prove("seeking to a position in the window goes there", s.tell() == p)
        f.limit = (self.off, self.off + self.size)
        return s, f, p

    def step(self, P, s, f, p, tag=""):
        """One operation; returns the position a file with just the bytes of the window would have now."""
        c = P.choose(3)
        size, off = self.size, self.off
        if c == 0:
            P.cover("read")
            n = None if P.choose(2) else P.int("n" + tag)
            e = size if n is None else ite(n < 0, size, symmin(size, p + n))
            r = s.read() if n is None else s.read(n)
            P.prove_eq("a read returns the bytes of the window from the position on", r, SList(seq_slice(f.F, off + p, off + e), True))
            q = e
        elif c == 1:
            P.cover("seek")
            o, wh = P.int("o" + tag), P.choose(3)
            q = (0, p, size)[wh] + o
            q = ite(q < 0, 0, symmin(q, size))
            r = s.seek(o, wh)
            P.prove("a seek returns the new position in the window", r == q)
        else:
            q = p
        P.prove("tell() is the position in the window", s.tell() == q)
        return q

    def run(self, P):
        s, f, p = self.start(P)
        if P.choose(2):
            P.cover("new")
            s, f = self.at(P, None)
            f.limit = (self.off, self.off + self.size)
            P.prove("a new window starts at position 0", s.tell() == 0)
            q = 0
        else:
            q = self.step(P, s, f, p)
        t, g = self.at(P, q)
        self.same(P, s, f, t, g)

    def same(self, P, s, f, t, g):
        P.expect("the state is the one after seeking there: attributes", set(vars(s)) == set(vars(t)))
        for k in vars(t):
            x, y = vars(s)[k], vars(t)[k]
            if y is not g:
                P.expect_eq("the state is the one after seeking there: " + k, x, y)
        P.expect("the state is the one after seeking there: position below", f.pos == g.pos)


class WindowSteps(Window):
    name = "SubFileReader, sequences of operations"
    bounded = f"{3 if THOROUGH else 2} operations on a new window; any window, file and arguments"

    def run(self, P):
        self.off, self.size = P.int("offset", 0), P.int("size", 0)
        s, f = self.at(P, None)
        P.cover("new")
        f.limit = (self.off, self.off + self.size)
        q = 0
        for i in range(3 if THOROUGH else 2):
            q = self.step(P, s, f, q, str(i))


CONTRACTS = [Window, WindowSteps]
