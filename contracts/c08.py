"""C08: sample buffers and shuffling."""
from lib import *
from megatron.energon.wrappers.buffer import SavableSampleBuffer, SampleBufferState, SampleBufferMergedState
from megatron.energon.wrappers.shuffle_buffer_dataset import ShuffleBufferDataset
from megatron.energon.rng import WorkerRng


def key(x):
    return app("key_of", x)


def rebuilt(P, k):
    """The sample rebuilt from a restore key; its restore key is that key (C18)."""
    x = app("rebuilt", k)
    P.assume_value(key(x) == k)
    return x


class OtherRow:
    """The buffer row of another worker: may only be cleared."""
    _stub = True
    _ghost = True

    def __init__(self, rows):
        self.rows = rows

    def clear(self):
        self.rows.cleared = self.rows.cleared + 1


class Rows:
    """The rows of all workers; only that of worker w is used."""
    _stub = True
    _ghost = True

    def __init__(self, w, row):
        self.w, self.row, self.cleared = w, row, 0

    def __getitem__(self, i):
        return self.row if i == self.w else OtherRow(self)


def filled(P, c, wc, w, name="X", pending=False):
    """A buffer in any state: n samples with their keys."""
    c.patch_name("get_sample_restore_key", key)
    ds = StateDS(P, wc)
    ds.restore_sample = lambda k: rebuilt(P, k)
    B = SavableSampleBuffer(ds, worker_config=wc)
    n = P.int(name + "_in_buffer", 0)
    X = P.stream(name)
    row = SList(Seq([])) if pending else SList(Seq(n=n, f=X.at))
    keys = SList(Seq(n=n, f=lambda i: key(X.at(i))))
    B._buffer, B._restore_keys = Rows(w, row), Rows(w, keys)
    B._restore_pending = pending
    return B, n, X, row, keys


class Ops(Contract):
    """Every operation changes the samples as it would change a list, and the keys stay those of the samples, position by position."""
    name = "SavableSampleBuffer: append, extend, pop, flush, clear, [], []=, del"
    covers = ("append", "extend", "extend keys", "pop", "flush", "clear", "set", "set slice", "del", "del slice", "get", "error")

    def run(self, P):
        wc, nw, w = worker(self, P)
        B, n, X, row, keys = filled(P, self, wc, w)
        model = SList(Seq(n=n, f=X.at))
        m = P.int("given", 0)
        V = P.stream("given_values")
        op = P.choose(11)
        i = P.int("index")
        bad = False
        if op in (3, 5, 6, 9):
            bad = not_(and_(i >= -n, i < n))
        a, b = P.int("from", 0), P.int("to", 0)
        r = want = None
        got_error = want_error = False
        try:
            if op == 0:
                P.cover("append")
                r = B.append(V.at(0))
            elif op == 1:
                P.cover("extend")
                B.extend(SList(Seq(n=m, f=V.at)))
            elif op == 2:
                P.cover("extend keys")
                B.extend(SList(Seq(n=m, f=V.at)), SList(Seq(n=m, f=lambda i: key(V.at(i))), True))
            elif op == 3:
                r = B.pop(i)
                P.cover("pop")
            elif op == 4:
                P.cover("flush")
                r = B.flush()
            elif op == 5:
                B[i] = V.at(0)
                P.cover("set")
            elif op == 6:
                del B[i]
                P.cover("del")
            elif op == 7:
                P.cover("del slice")
                del B[self.range(P, a, b)]
            elif op == 8:
                P.cover("clear")
                B.clear()
            elif op == 9:
                r = B[i]
                P.cover("get")
            elif op == 10:
                P.cover("set slice")
                P.assume(and_(a <= b, b <= n))
                B[a:b] = SList(Seq(n=m, f=V.at))
        except IndexError:
            got_error = True
        if op in (3, 5, 6, 9) and bad:
            P.cover("error")
            P.prove("a position outside of the buffer is an error", got_error)
            want_error = True
        else:
            P.prove("no error for a position in the buffer", not got_error)
            if op == 0:
                model.append(V.at(0))
                want = V.at(0)
            elif op in (1, 2):
                model.extend(SList(Seq(n=m, f=V.at)))
            elif op == 3:
                want = model.pop(i)
            elif op in (4, 8):
                if op == 4:
                    P.prove_eq("flushing returns the samples in order", r[0], SList(Seq(n=n, f=X.at)))
                    P.prove_eq("flushing returns their keys in order", SList(seq_of(r[1])), SList(Seq(n=n, f=lambda i: key(X.at(i)))))
                    r = None
                model.clear()
            elif op == 5:
                model[i] = V.at(0)
            elif op == 6:
                del model[i]
            elif op == 7:
                del model[self.range(P, a, b)]
            elif op == 9:
                want = model[i]
            elif op == 10:
                model[a:b] = SList(Seq(n=m, f=V.at))
        if r is not None or want is not None:
            P.prove("the sample asked for is returned", r == want)
        cur, ck = B._buffer[w], B._restore_keys[w]
        P.prove_eq("the samples are those of a list with the same operations", cur, model)
        P.prove("there are as many keys as samples", s_len(ck) == s_len(cur))
        k = P.int("k", 0)
        P.assume(k < s_len(cur))
        P.prove("every key is that of the sample at its position", ck[k] == key(cur[k]))
        if want_error:
            P.prove_eq("an error changes nothing", cur, SList(Seq(n=n, f=X.at)))
        P.prove("the rows of other workers are not touched", B._buffer.cleared + B._restore_keys.cleared == 0)

    def range(self, P, a, b):
        return slice(a, b)


class Start(Contract):
    """Starting a worker rebuilds the restored samples, in order; the rows of other workers are dropped."""
    name = "SavableSampleBuffer.worker_start"
    covers = ("restored", "running")

    def run(self, P):
        wc, nw, w = worker(self, P)
        pending = bool(P.choose(2))
        B, n, X, row, keys = filled(P, self, wc, w, pending=pending)
        X = P.stream("X")
        P.roots.update(B=B)
        P.rels = lambda P: {"rebuilt": lambda v: SList(Seq(n=v, f=lambda i: rebuilt(P, key(X.at(i)))))}
        B._rank_id
        B.worker_start()
        P.cover("restored" if pending else "running")
        cur, ck = B._buffer[w], B._restore_keys[w]
        P.prove_eq("the keys stay", ck, SList(Seq(n=n, f=lambda i: key(X.at(i)))))
        P.prove("there are as many samples as keys", s_len(cur) == n)
        k = P.int("k", 0)
        P.assume(k < n)
        P.prove("every sample is that of the key at its position", cur[k] == (rebuilt(P, key(X.at(k))) if pending else X.at(k)))
        P.prove("nothing is rebuilt twice", B._restore_pending is False)


class AppendIter(Contract):
    """append_iter passes every inner sample on, once it is in the buffer."""
    name = "SavableSampleBuffer.append_iter"
    covers = ("yield", "end")

    def run(self, P):
        wc, nw, w = worker(self, P)
        B, n, X, row, keys = filled(P, self, wc, w)
        inner = Inner(P, wc, "Y", P.int("n", 0), P.int("pos", 0))
        P.assume(inner.pos <= inner.n)
        B.dataset = inner
        p0 = inner.pos
        g = P.ghost
        g.k = 0
        added = []

        def append(s):
            P.prove("every inner sample is put into the buffer once, in order", and_(s == inner.X.at(p0 + g.k), inner.pos == p0 + g.k + 1))
            g.k = g.k + 1
            return s
        B.append = append
        P.roots.update(B=B)
        P.invs = lambda P: [("k", g.k >= 0), ("pos", inner.pos == p0 + g.k), ("n", inner.pos <= inner.n)]
        for v in B.append_iter():
            P.cover("yield")
            P.prove("a sample is in the buffer before it is passed on", and_(v == inner.X.at(p0 + g.k - 1), inner.pos == p0 + g.k))
        P.cover("end")
        P.prove("all inner samples are put into the buffer", and_(inner.pos == inner.n, p0 + g.k == inner.n))


class Restoring(Contract):
    name = "SavableSampleBuffer.restore_key, restore_samples"
    covers = ("x",)

    def run(self, P):
        wc, nw, w = worker(self, P)
        B, n, X, row, keys = filled(P, self, wc, w)
        B._rank_id
        k = B.restore_key()
        P.prove_eq("the restore key is made of the keys of the samples", SList(seq_of(k)), SList(Seq(n=n, f=lambda i: key(X.at(i)))))
        P.prove("the length is the number of samples", B.__len__() == n)
        P.rels = lambda P: {"rebuilt": lambda v: SList(Seq(n=v, f=lambda i: rebuilt(P, key(X.at(i))))), "keys": lambda v: SList(Seq(n=v, f=lambda i: key(X.at(i))))}
        ks, xs = B.restore_samples(SList(Seq(n=n, f=lambda i: key(X.at(i))), True))
        P.cover("x")
        P.prove("one sample per key", and_(s_len(xs) == n, s_len(ks) == n))
        j = P.int("j", 0)
        P.assume(j < n)
        P.prove("the samples are those of the keys, in order", and_(xs[j] == rebuilt(P, key(X.at(j))), ks[j] == key(X.at(j))))


class BufferState(RoundTrip):
    name = "SavableSampleBuffer save/merge/restore"

    def make(self, P, wc, tag):
        self.patch_name("get_sample_restore_key", key)
        ds = StateDS(P, wc)
        return SavableSampleBuffer(ds, worker_config=wc)

    def inner(self, d):
        return []

    def as_worker(self, P, d, i):
        d._SavableSampleBuffer__rank_id = i

    def arbitrary(self, P, d, tag=""):
        nw = symmax(d.worker_config.num_workers, 1)
        n_ = z3.Function(tag + "row_len", z3.IntSort(), z3.IntSort())
        k_ = z3.Function(tag + "row_key", z3.IntSort(), z3.IntSort(), U)

        def row(i, f):
            n = mkint(n_(num(i)))
            P.assume_value(n >= 0)
            return SList(Seq(n=n, f=lambda j: f(SVal(k_(num(i), num(j))))))
        d._restore_keys = SList(Seq(n=nw, f=lambda i: row(i, lambda k: k)))
        d._buffer = SList(Seq(n=nw, f=lambda i: row(i, lambda k: app("sample", k))))

    def view(self, P, d, i):
        return {"the restore keys": d._restore_keys[i]}


class BufferStub:
    """Contract of SavableSampleBuffer as the shuffle buffer uses it (proved above): holds n samples."""
    _stub = True
    _ghost = True

    def __init__(self, P, g, inner, n):
        self._nosnap_P, self._nosnap_g, self.inner, self.n, self.started = P, g, inner, n, False
        self.opened = self.begun = self.done = False

    def worker_start(self):
        self.started = True

    def sym_len(self):
        return self.n

    def append(self, s):
        P, g = self._nosnap_P, self._nosnap_g
        P.prove("every inner sample is put into the buffer once", and_(s == self.inner.Y.at(g.p0 + g.added), self.inner.total == g.p0 + g.added + 1))
        g.added = g.added + 1
        self.n = self.n + 1
        P.prove("the buffer holds at most the given number of samples", or_(self.n <= g.size, self.n <= g.n0))
        return s

    def append_iter(self):
        return AppendCursor(self, self.inner)

    def pop(self, i=None):
        P, g = self._nosnap_P, self._nosnap_g
        if i is None:
            i = self.n - 1
        P.prove("a sample in the buffer is taken", and_(i >= 0, i < self.n))
        P.prove("a sample is taken only if the buffer is full or nothing is left", or_(self.n >= g.size, g.exhausted, not_(self.inner.active)))
        P.prove("a sample taken is yielded before the next one is taken", not_(g.pending))
        self.n = self.n - 1
        g.taken = g.taken + 1
        g.pending = True
        return app("taken", g.taken)


class AppendCursor(Cursor):
    """Contract of append_iter (proved above); as a generator it starts the inner pass with its first step."""
    _ghost = True

    def __init__(self, b, inner):
        self.b, self.inner = b, inner
        b._nosnap_P.prove("one pass over the inner dataset", not_(b.opened))
        b.opened = True

    def step(self):
        ds, b, P = self.inner, self.b, self.b._nosnap_P
        if b.done:
            return END
        b.begun = True
        ds.active = True
        if P.decide(z3.Bool(P.fresh_name("pass_ends"))):
            b.done = True
            ds.active = False
            ds.ended = ds.ended + 1
            return END
        ds.total = ds.total + 1
        return b.append(ds.Y.at(ds.total - 1))


class ShuffleIter(Contract):
    """Every inner sample is put into the buffer once, every yielded sample is taken from the buffer, and at the end the buffer is empty:
    the yielded samples are exactly those held at the start and the inner ones."""
    name = "ShuffleBufferDataset.__iter__"
    covers = ("yield", "end", "start exhausted")

    def run(self, P):
        wc, nw, w = worker(self, P)
        inner = Passes(P, self, wc)
        size = P.int("size", 1)
        D = ShuffleBufferDataset(inner, size, worker_config=wc)
        n0 = P.int("held", 0)
        P.assume(n0 <= size)
        g = P.ghost
        g.size, g.n0, g.p0 = size, n0, inner.total
        g.added, g.taken, g.pending = 0, 0, False
        ex = bool(P.choose(2))
        g.exhausted = ex
        if ex:
            P.cover("start exhausted")
        D._exhausted = SList(seq_const(symmax(nw, 1), False))
        D._exhausted[w] = ex
        B = D._active_buffer = BufferStub(P, g, inner, n0)

        class Rng:
            _stub = True

            def randbelow(self, n):
                P.prove("a random position in the buffer", n >= 1)
                r = SInt(P.fresh_int("random"))
                P.assume(and_(r >= 0, r < n))
                return r
        D._worker_rng = Rng()
        P.roots.update(D=D)
        P.hints = lambda P: {"used up": or_(ex, B.done)}
        P.invs = lambda P: [("added", g.added >= 0), ("taken", g.taken >= 0), ("held", B.n == n0 + g.added - g.taken), ("n", B.n >= 0), ("size", B.n <= size), ("pulled", inner.total == g.p0 + g.added),
                            ("open", iff(inner.active, and_(B.begun, not_(B.done)))), ("ended", inner.ended == ite(B.done, 1, 0)), ("begun", implies(B.done, B.begun)),
                            ("left", implies(ex, and_(not_(B.begun), g.added == 0)))]
        for v in D:
            P.cover("yield")
            P.prove("every sample taken is yielded, once", and_(g.pending, v == app("taken", g.taken)))
            g.pending = False
            P.prove("the saved state tells whether the inner samples are used up", D._exhausted[w] == or_(ex, inner.ended == 1))
        P.cover("end")
        P.prove("the restored samples are rebuilt first", B.started)
        P.prove("nothing is left in the buffer", B.n == 0)
        P.prove("nothing is taken without being yielded", not_(g.pending))
        P.prove("all samples are yielded", g.taken == n0 + g.added)
        P.prove("no pulled sample is dropped", inner.total == g.p0 + g.added)
        P.prove("the inner dataset is used up, exactly one pass", implies(not_(ex), and_(inner.ended == 1, not_(inner.active))))
        P.prove("a restored end does not start another pass", implies(ex, and_(inner.ended == 0, inner.total == g.p0)))
        P.prove("the next pass starts over", not_(D._exhausted[w]))


class BufStateStub:
    """Contract of the sample buffer's states (proved above)."""
    _stub = True

    def __init__(self, wc, name):
        self.wc, self.name, self.restored = wc, name, "nothing"

    def save_state(self):
        return app(self.name + ".state", self.wc.rank_worker_id())

    def merge_states(self, s):
        return Merged(s)

    def restore_state(self, s):
        self.restored = s


class ShuffleState(RoundTrip):
    name = "ShuffleBufferDataset save/merge/restore"

    def make(self, P, wc, tag):
        d = ShuffleBufferDataset(StateDS(P, wc), P.int("size", 1), worker_config=wc)
        d._active_buffer = BufStateStub(wc, "buffer")
        d._worker_rng = BufStateStub(wc, "rng")
        return d

    def arbitrary(self, P, d, tag=""):
        d._exhausted = SList(P.bool_stream(tag + "exhausted", symmax(d.worker_config.num_workers, 1)))

    def view(self, P, d, i):
        out = {"whether the inner samples are used up": d._exhausted[i]}
        for k, x in (("the buffer", d._active_buffer), ("the random generator", d._worker_rng)):
            r = x.restored
            if isinstance(r, Merged):
                r = r.states[i]
                r = None if r is None else r
            elif r == "nothing" and d is not self.fresh:
                r = x.save_state()
            elif r == "nothing":
                r = None
            out[k] = r
        return out
    fresh = None

    def _same(self, P, name, a, b, w):
        # a fresh object and one restored with nothing start with an empty buffer and the initial generator
        self.fresh = b if "beginning" in name else None
        super()._same(P, name, a, b, w)


class ShuffleLen(Contract):
    name = "ShuffleBufferDataset.__len__"
    covers = ("x",)

    def run(self, P):
        wc, nw, w = worker(self, P)
        inner = StateDS(P, wc)
        P.cover("x")
        P.prove("the inner length", ShuffleBufferDataset(inner, P.int("size", 1), worker_config=wc).__len__() == inner.length)


CONTRACTS = [Ops, Start, AppendIter, Restoring, ShuffleIter, ShuffleLen] + with_reset(BufferState, ShuffleState)
