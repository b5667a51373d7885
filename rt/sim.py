"""In-process stand-ins: a source dataset with known contents and simulated loader workers.

SimWorker does for one worker what SavableDatasetWrapper does in a worker process: it sets the torch
worker info, activates the worker config around every next() and counts sample indices.
"""
import copy, pickle
from dataclasses import dataclass
from typing import Any, List, Optional
from core import *
import torch.utils.data._utils.worker as _tw
from torch.utils.data import get_worker_info
from megatron.energon import WorkerConfig, Sample, SavableDataset
from megatron.energon.flavors.base_dataset import State, MergedState


@dataclass
class S(Sample):
    value: Any = None
    idx: Any = None

    def __eq__(self, o):
        return isinstance(o, S) and sig(self) == sig(o)


def sig(x):
    if isinstance(x, S):
        return ("S", x.__key__, x.__restore_key__, sig(x.value), sig(x.idx))
    if isinstance(x, (list, tuple)):
        return tuple(sig(y) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((k, sig(v)) for k, v in x.items()))
    return x


def val(x):
    """Content without restore keys."""
    if isinstance(x, S):
        return val(x.value)
    if isinstance(x, (list, tuple)):
        return [val(y) for y in x]
    return x


@dataclass
class SrcState(State):
    pos: int


@dataclass
class SrcMergedState(MergedState):
    pos: List[int]


class Src(SavableDataset):
    """items[worker] = values of that worker.  One pass per iter(); the position survives like the
    webdataset sample loader's does: a state saved inside a pass resumes the pass."""

    def __init__(self, wc, items, name="Src", loop=False, restorable=True):
        super().__init__(worker_config=wc)
        self.items, self.name, self.loop, self.restorable = items, name, loop, restorable
        self.pos = [0] * len(items)
        self.touched = 0

    def __len__(self):
        return sum(len(i) for i in self.items)

    def mk(self, w, i):
        v = self.items[w][i]
        return S(__key__=f"{self.name}/{w}/{i}", __restore_key__=("Src", self.name, w, i), __subflavor__=None,
                 __subflavors__=None, value=copy.deepcopy(v))

    def __iter__(self):
        w = self.worker_config.rank_worker_id()
        for i in range(len(self.items)):
            if i != w:
                self.pos[i] = 0
        while True:
            n = len(self.items[w])
            if n == 0:
                return
            while self.pos[w] < n:
                self.pos[w] += 1
                yield self.mk(w, self.pos[w] - 1)
            self.pos[w] = 0
            if not self.loop:
                return

    def save_state(self):
        return SrcState(pos=self.pos[self.worker_config.rank_worker_id()])

    def merge_states(self, states):
        return SrcMergedState(pos=[0 if s is None else s.pos for s in states])

    def restore_state(self, state):
        self.pos = [0] * len(self.items) if state is None else list(state.pos)

    def worker_has_samples(self):
        return len(self.items[self.worker_config.rank_worker_id()]) > 0

    def can_restore_sample(self):
        return self.restorable

    def restore_sample(self, key):
        t, name, w, i = key
        req((t, name) == ("Src", self.name), lambda: f"restore key {key!r} given to dataset {self.name}")
        return self.mk(w, i)

    def config(self):
        return {"type": "Src", "name": self.name}


class FakeInfo:
    def __init__(self, id, num_workers):
        self.id, self.num_workers, self.seed, self.dataset = id, num_workers, 0, None


class as_worker:
    """Context: the code inside sees itself in worker `wid` of wc."""
    stack = 0

    def __init__(self, wc, wid, offset=0):
        self.wc, self.wid = wc, wid

    def __enter__(self):
        self.old = _tw._worker_info
        _tw._worker_info = FakeInfo(self.wid, self.wc.num_workers) if self.wc.num_workers > 0 else None

    def __exit__(self, *a):
        _tw._worker_info = self.old


class SimWorker:
    """One worker with its own (forked, i.e. deep copied) dataset."""

    def __init__(self, ds, wc, wid, fork=True):
        self.ds = copy.deepcopy(ds) if fork else ds
        self.wc = self.ds.worker_config
        self.wid = wid
        self.it = None
        self.n = 0

    def start(self):
        with as_worker(self.wc, self.wid):
            self.it = iter(self.ds)

    def next(self):
        """Next sample or raises StopIteration."""
        if self.it is None:
            self.start()
        with as_worker(self.wc, self.wid):
            self.wc.worker_activate(self.n)
            try:
                try:
                    x = next(self.it)
                except StopIteration:
                    self.it = None
                    raise
            finally:
                self.wc.worker_deactivate()
            self.n += 1
            return x

    def take(self, k):
        """Up to k samples of the current pass; (samples, ended)."""
        out = []
        for _ in range(k):
            try:
                out.append(self.next())
            except StopIteration:
                return out, True
        return out, False

    def run(self, k, passes=50):
        """Exactly k samples, over as many passes as needed; passes are marked by None."""
        out = []
        empty = 0
        while sum(x is not None for x in out) < k:
            try:
                out.append(self.next())
                empty = 0
            except StopIteration:
                out.append(None)
                empty += 1
                if empty > 2 or len([1 for x in out if x is None]) > passes:
                    break
        return out

    def epoch(self, limit=5000):
        out, ended = self.take(limit)
        req(ended, f"pass did not end after {limit} samples")
        return out

    def save(self):
        with as_worker(self.wc, self.wid):
            return pickle.loads(pickle.dumps(self.ds.save_state()))

    def restore_sample(self, key):
        with as_worker(self.wc, self.wid):
            self.wc.worker_activate(0)
            try:
                return self.ds.restore_sample(key)
            finally:
                self.wc.worker_deactivate()


def split_items(n, nw, base=0):
    """n distinct values spread over the workers like the sharder does (contiguous, balanced)."""
    k = max(nw, 1)
    res, p = [], 0
    for w in range(k):
        m = n // k + (1 if w < n % k else 0)
        res.append(list(range(base + p, base + p + m)))
        p += m
    return res
