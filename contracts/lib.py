"""Building blocks of the contracts: stubs for what a function under contract calls (each stub stands for the contract of the callee)."""
import os, sys
import eng
from eng import *
from shadow import s_len
from megatron.energon.flavors.base_dataset import SavableDataset, State, MergedState
from megatron.energon.worker import WorkerConfig
from megatron.energon.worker import WorkerConfig as WC
from megatron.energon.errors import FatalSampleError
from megatron.energon.wrappers.base import SampleIndex
from megatron.energon.wrappers.skip import SkipSample


THOROUGH = os.environ.get("VERIF_TIER_RUN") == "thorough"


class Contract:
    name = "?"
    covers = ()
    assumptions = ()

    def run(self, P):
        raise NotImplementedError

    def patch(self, o, attr, v):
        d = vars(o)
        had = attr in d
        old = d.get(attr)
        self.__dict__.setdefault("_patches", []).append((o, attr, had, old))
        setattr(o, attr, v)

    def patch_name(self, name, v):
        """Replaces a function in every module of the package which knows it under this name."""
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").startswith("megatron.energon") and name in vars(m):
                self.patch(m, name, v)

    def cleanup(self, P):
        for o, attr, had, old in reversed(self.__dict__.pop("_patches", [])):
            if had:
                setattr(o, attr, old)
            else:
                delattr(o, attr)


def symmax(a, b):
    return ite(a > b, a, b)


def worker(c, P, nw=None, w=None, activate=True):
    """A worker configuration with an arbitrary number of workers, seen from an arbitrary worker w.
    Contract of rank_worker_id: 0 <= w < max(num_workers, 1)."""
    nw = P.int("num_workers", 0) if nw is None else nw
    if w is None:
        w = P.int("worker", 0)
        P.assume(w < symmax(nw, 1))
    wc = WorkerConfig(rank=P.int("rank", 0), world_size=P.int("world", 1), num_workers=nw)
    P.assume(wc.rank < wc.world_size)
    wc.rank_worker_id = lambda: w
    wc.assert_worker = lambda: None
    P.indices['w'] = w
    if activate:
        c.patch(WorkerConfig, "active_worker_config", wc)
        c.patch(WorkerConfig, "_sample_index_stack", SList(Seq([P.int("batch_index", 0)])))
        P.roots.update(stack=WorkerConfig._sample_index_stack)
    return wc, nw, w


class Inner(SavableDataset):
    _ghost = True
    """An arbitrary inner dataset: yields the stream X[pos], X[pos+1], ... (n values in total) and counts what was pulled."""

    def __init__(self, P, wc, name="X", n=None, pos=0, on_restore=None):
        super().__init__(wc)
        self.X = P.stream(name, n)
        self.n = n
        self.pos = pos
        self.restores = 0
        self.on_restore = on_restore
        self.nm = name

    def __sym_iter__(self):
        return InnerCursor(self)

    def __iter__(self):
        raise Unsupported("native iteration over the inner dataset")

    def __len__(self):
        return self.length

    def save_state(self):
        return app(self.nm + ".state", self.pos)

    def merge_states(self, states):
        return app(self.nm + ".merged", *states)

    def restore_state(self, state):
        self.restores = self.restores + 1
        self.last_restored = state
        self.pos = 0
        if self.on_restore:
            self.on_restore(state)

    def worker_has_samples(self):
        return True

    def can_restore_sample(self):
        return True

    def assert_can_restore(self):
        pass

    def restore_sample(self, key):
        return app(self.nm + ".restore", key)

    def config(self):
        return {}


class InnerCursor(Cursor):
    def __init__(self, ds):
        self.ds = ds

    def step(self):
        ds = self.ds
        if ds.n is not None:
            if not (ds.pos < ds.n):
                return END
        v = ds.X.at(ds.pos)
        ds.pos = ds.pos + 1
        return v


class Passes(SavableDataset):
    """An inner dataset seen over several passes: the values of all passes are Y[0], Y[1], ... in order; after any value the pass may end
    (every such decision is explored).  `total` counts the values pulled, `ended` the finished passes, `active` whether a pass is open."""
    _ghost = True

    def __init__(self, P, c, wc, name="Y"):
        super().__init__(wc)
        self._nosnap_P, self._nosnap_c = P, c
        self.Y = P.stream(name)
        self.total = P.int(name + "_pulled", 0)
        self.ended = 0
        self.active = False
        self.pulled_in_pass = 0

    def __sym_iter__(self):
        self._nosnap_P.prove("a new pass over the inner dataset is only started after the previous one has ended", not_(self.active))
        self.active = True
        self.pulled_in_pass = 0
        return PassCursor(self)

    def __iter__(self):
        return self.__sym_iter__()

    def __len__(self):
        return self.length
    save_state, merge_states, restore_state = Inner.save_state, Inner.merge_states, Inner.restore_state
    worker_has_samples, can_restore_sample, assert_can_restore, restore_sample, config = (
        Inner.worker_has_samples, Inner.can_restore_sample, Inner.assert_can_restore, Inner.restore_sample, Inner.config)


class PassCursor(Cursor):
    def __init__(self, ds):
        self.ds = ds
        self.done = False

    def step(self):
        ds = self.ds
        if self.done:
            return END
        if ds._nosnap_P.decide(z3.Bool(ds._nosnap_P.fresh_name("pass_ends"))):
            self.done = True
            ds.active = False
            ds.ended = ds.ended + 1
            return END
        v = ds.Y.at(ds.total)
        ds.total = ds.total + 1
        ds.pulled_in_pass = ds.pulled_in_pass + 1
        return v


class StreamCursor(Cursor):
    """An endless iterator over a stream from a position on."""
    _ghost = True

    def __init__(self, seq, pos):
        self.seq, self.pos = seq, pos

    def step(self):
        v = self.seq.at(self.pos)
        self.pos = self.pos + 1
        return v


class Box:
    """Opaque object with a payload (compared by identity)."""

    def __init__(self, **k):
        self.__dict__.update(k)


class StateDS(SavableDataset):
    _stub = True
    """Inner dataset for state contracts: the state of worker i is a value of its own; what is merged and restored is recorded."""

    def __init__(self, P, wc, name="X"):
        super().__init__(wc)
        self.nm = name
        self.restored = "nothing"
        self.n_restores = 0
        self.length = P.int(name + "_len", 0)

    def __iter__(self):
        raise Unsupported("iteration of a state stub")

    def __len__(self):
        return self.length

    def worker_has_samples(self):
        return True

    def save_state(self):
        return app(self.nm + ".state", self.worker_config.rank_worker_id())

    def merge_states(self, states):
        return Merged(states)

    def restore_state(self, state):
        self.restored = state
        self.n_restores += 1

    def can_restore_sample(self):
        return True

    def assert_can_restore(self):
        pass

    def restore_sample(self, key):
        return app(self.nm + ".restore", key)

    def config(self):
        return {}


class Merged(MergedState):
    _stub = False

    def __init__(self, states):
        self.states = states


def lists_of(o, seen=None, depth=0):
    """Every mutable list reachable from an object through the package's own objects and states."""
    seen = {} if seen is None else seen
    if id(o) in seen or depth > 12 or isinstance(o, (str, int, float, bytes, bool, type(None), z3.AstRef, type)) or isinstance(o, Sym) and not isinstance(o, SList):
        return seen
    if isinstance(o, SList):
        if not o.tup:
            seen[id(o)] = o
        if o.c.concrete():
            for x in o.c.items:
                lists_of(x, seen, depth + 1)
        return seen
    if isinstance(o, (list, dict, set)):
        seen[id(o)] = o
    if isinstance(o, dict):
        for x in o.values():
            lists_of(x, seen, depth + 1)
    elif isinstance(o, (list, tuple, set)):
        for x in o:
            lists_of(x, seen, depth + 1)
    elif (type(o).__module__ or "").startswith(("megatron.energon", "lib", "c")) and hasattr(o, "__dict__") and not isinstance(o, (WorkerConfig, Contract)) and not getattr(o, '_stub', False):
        mark = ("obj", id(o))
        if mark in seen:
            return seen
        seen[mark] = None
        for x in vars(o).values():
            lists_of(x, seen, depth + 1)
    return seen


class RoundTrip(Contract):
    """save_state of every worker -> merge_states -> restore_state in a fresh object gives every worker its own state back."""
    covers = ("restored", "missing worker")
    reset_extra = ()

    def make(self, P, wc, tag):
        raise NotImplementedError

    def arbitrary(self, P, d):
        """Puts the object into an arbitrary state."""
        raise NotImplementedError

    def view(self, P, d, i):
        """What the iteration of worker i depends on."""
        raise NotImplementedError

    def inner(self, d):
        return [d.dataset]

    def workers(self, P):
        """How many workers there are and which one is looked at (None: any)."""
        return None, None

    def run(self, P):
        wc, nw, w = worker(self, P, *self.workers(P))
        cur = [w]
        wc.rank_worker_id = lambda: cur[0]
        d = self.make(P, wc, "a")
        self.arbitrary(P, d)
        absent = P.bool_stream("absent", symmax(nw, 1))
        saved = {}

        def state_of(i):
            if absent.at(i):
                return None
            old, cur[0] = cur[0], i
            try:
                self.as_worker(P, d, i)
                return d.save_state()
            finally:
                cur[0] = old
        states = SList(Seq(n=symmax(nw, 1), f=state_of))
        sw = states[w]
        before = {k: v for k, v in lists_of(d).items() if v is not None}
        if sw is not None:
            P.prove("a saved state shares no list with the dataset", not [1 for k, v in lists_of(sw).items() if v is not None and k in before and k not in self.shared_ok(d)])
        m = d.merge_states(states)
        e = self.make(P, wc, "b")
        self.dirty(P, e)
        self.as_worker(P, e, w)
        e.restore_state(m)
        mine = {k: v for k, v in lists_of(m).items() if v is not None}
        P.prove("a restored dataset shares no list with the restored state", not [1 for k, v in lists_of(e).items() if v is not None and k in mine and k not in self.shared_ok(e)])
        if sw is None:
            P.cover("missing worker")
            f = self.make(P, wc, "f")
            self.as_worker(P, f, w)
            self._same(P, "a worker without state starts from the beginning", e, f, w)
        else:
            P.cover("restored")
            self.as_worker(P, d, w)
            self._same(P, "a worker gets back its own state", e, d, w)
        for x, y in zip(self.inner(d), self.inner(e)):
            r = y.restored
            P.prove("the inner dataset is restored with the merged inner states", isinstance(r, Merged) and y.n_restores == 1)
            k = P.int("other", 0)
            P.assume(k < symmax(nw, 1))
            old, cur[0] = cur[0], k
            st = None if absent.at(k) else x.save_state()
            cur[0] = old
            got = r.states[k]
            if st is None or got is None:
                P.prove("the inner state of every worker is merged at its place", (st is None) == (got is None))
            else:
                P.prove_eq("the inner state of every worker is merged at its place", got, st)

    def _same(self, P, name, a, b, w):
        x, y = self.view(P, a, w), self.view(P, b, w)
        for k in x:
            P.prove_eq(f"{name}: {k}", x[k], y[k])

    def as_worker(self, P, d, i):
        pass

    def dirty(self, P, e):
        """The object restored into has been used before: any state."""
        self.arbitrary(P, e, tag="dirty.")

    def shared_ok(self, d):
        return ()


def few_workers(P, most=2):
    nw = P.choose(most + 1)
    return nw, P.choose(nw) if nw > 1 else 0


class Reset(Contract):
    """restore_state(None) puts a used object back to the initial state."""
    covers = ("reset",)

    def __init__(self, rt):
        self.rt = rt
        self.bounded = getattr(rt, "bounded", None)
        self.name = rt.name.replace("save/merge/restore", "restore_state(None)")

    def run(self, P):
        wc, nw, w = worker(self, P, *self.rt.workers(P))
        rt = self.rt
        d, f = rt.make(P, wc, "a"), rt.make(P, wc, "f")
        rt.arbitrary(P, d)
        rt.as_worker(P, d, w)
        rt.as_worker(P, f, w)
        d.restore_state(None)
        P.cover("reset")
        rt._same(P, "restoring nothing starts from the beginning", d, f, w)
        for x in rt.inner(d):
            P.prove("the inner dataset is reset, too", x.restored is None and x.n_restores == 1)


def with_reset(*rts):
    """Contract factories for round trips and resets."""
    out = []
    for rt in rts:
        out += [rt, lambda rt=rt: Reset(rt())]
        out[-1].name = rt.name.replace("save/merge/restore", "restore_state(None)")
    return out


def int_list(P, name, n, lo=0):
    return SList(P.int_stream(name, n, (lambda i, v: v >= lo) if lo is not None else None))


def opt_list(P, name, n):
    """A list of opaque values or None."""
    none, val = P.bool_stream(name + ".none", n), P.stream(name, n)
    return SList(Seq(n=n, f=lambda i: None if none.at(i) else val.at(i)))


class RngStub:
    """Contract of WorkerRng's states (proved under C23)."""
    _stub = True

    def __init__(self, wc, name):
        self.wc, self.name, self.restored = wc, name, "nothing"

    def save_state(self):
        return app("rng.state", self.wc.rank_worker_id())

    def merge_states(self, s):
        return Merged(s)

    def restore_state(self, s):
        self.restored = s


def top():
    """The sample index which a user function sees."""
    return WC._sample_index_stack[-1]


def used_index(P, D, w, name="sample_index"):
    """The wrapper has handed out any number of sample indexes before."""
    s0 = P.int(name, 0)
    D._sample_index._sample_index[w] = s0
    D._sample_index._rank
    return s0


def add_key(sample, *key, src, fail_otherwise=False):
    return app("add_key", sample, *key, type(src).__name__)


def set_key(sample, *key, src, fail_otherwise=False):
    return app("set_key", sample, *key, type(src).__name__)


OUTCOMES = ("value", "skip", "error", "fatal", "system")


def outcome(P, which):
    k = OUTCOMES[P.choose(len(OUTCOMES))] if which is None else which
    if k == "skip":
        raise SkipSample
    if k == "error":
        raise ValueError("user function fails")
    if k == "fatal":
        raise FatalSampleError("user function fails fatally")
    if k == "system":
        raise MemoryError


class Results(GenCursor):
    """What a user's generator function returns for one sample: any number of values, then the end or an error (stub; the real generator's
    protocol is that next() gives a value, stops or raises)."""
    _ghost = True

    def __init__(self, P, g, v):
        self._nosnap_P, self._nosnap_g, self.v, self.k = P, g, v, 0

    def step(self):
        P, g = self._nosnap_P, self._nosnap_g
        P.prove("a result is yielded before the next one is made", not_(g.pending))
        c = P.choose(6)
        if c == 5:
            g.open = False
            return END
        k = OUTCOMES[c]
        g.pending = and_(k == "value", self.k >= g.target)
        g.failed = k == "error"
        g.fatal = k in ("fatal", "system")
        g.open = k == "value"
        outcome(P, k)
        self.k = self.k + 1
        g.k = self.k
        return app("gen", self.v, self.k - 1)


class IterCtxStub:
    """Contract of SampleIndex.iter_ctx (verified below): (index given, value) for each value."""

    def __init__(self, c):
        def iter_ctx(idx, it, sample_idx=None):
            return Indexed(idx, it, sample_idx)
        c.patch(SampleIndex, "iter_ctx", iter_ctx)


class Indexed(Cursor):
    def __init__(self, idx, it, i):
        self.idx, self.it, self.i = idx, it, i

    def step(self):
        with self.idx.ctx(self.i) as i:
            v = self.it.step()
        return v if v is END else (i, v)


def joined(args):
    """The sequence of positional arguments of a call f(a, *xs)."""
    r = Seq([])
    for a in args:
        r = seq_concat(r, a.seq) if isinstance(a, Star) else seq_append(r, a)
    return r


class Partial:
    """A stub which knows some of the methods of what it stands for: the others leave the question undecided."""
    _stub = True

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        raise Unsupported(f"{type(self).__name__}.{k} is not part of the stub")
