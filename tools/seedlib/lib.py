"""Self-contained helpers of the demonstrations: a source dataset with known samples and simulated workers."""
import os, sys, copy, pickle
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
sys.dont_write_bytecode = True
from dataclasses import dataclass
from typing import Any, List
import torch.utils.data._utils.worker as _tw
from megatron.energon import WorkerConfig, Sample, SavableDataset
from megatron.energon.flavors.base_dataset import State, MergedState


@dataclass
class S(Sample):
    value: Any = None


@dataclass
class SrcState(State):
    pos: int


@dataclass
class SrcMergedState(MergedState):
    pos: List[int]


class Src(SavableDataset):
    """items[worker]: the values of that worker."""

    def __init__(self, wc, items):
        super().__init__(worker_config=wc)
        self.items = items
        self.pos = [0] * len(items)

    def __len__(self):
        return sum(len(i) for i in self.items)

    def mk(self, w, i):
        return S(__key__=f"{w}/{i}", __restore_key__=("Src", w, i), __subflavor__=None, __subflavors__=None, value=self.items[w][i])

    def __iter__(self):
        w = self.worker_config.rank_worker_id()
        while self.pos[w] < len(self.items[w]):
            self.pos[w] += 1
            yield self.mk(w, self.pos[w] - 1)
        self.pos[w] = 0

    def save_state(self):
        return SrcState(pos=self.pos[self.worker_config.rank_worker_id()])

    def merge_states(self, states):
        return SrcMergedState(pos=[0 if s is None else s.pos for s in states])

    def restore_state(self, state):
        self.pos = [0] * len(self.items) if state is None else list(state.pos)

    def worker_has_samples(self):
        return len(self.items[self.worker_config.rank_worker_id()]) > 0

    def can_restore_sample(self):
        return True

    def assert_can_restore(self):
        pass

    def restore_sample(self, key):
        return self.mk(key[1], key[2])

    def config(self):
        return {"type": "Src"}


class Info:
    def __init__(self, id, num_workers):
        self.id, self.num_workers, self.seed, self.dataset = id, num_workers, 0, None


class as_worker:
    def __init__(self, wc, wid):
        self.wc, self.wid = wc, wid

    def __enter__(self):
        self.old = _tw._worker_info
        _tw._worker_info = Info(self.wid, self.wc.num_workers) if self.wc.num_workers > 0 else None

    def __exit__(self, *a):
        _tw._worker_info = self.old


class Worker:
    """Simulates one worker process: its own copy of the dataset, activated around every sample."""

    def __init__(self, ds, wid):
        self.ds = copy.deepcopy(ds)
        self.wc = self.ds.worker_config
        self.wid, self.it, self.n = wid, None, 0

    def next(self):
        with as_worker(self.wc, self.wid):
            if self.it is None:
                self.it = iter(self.ds)
            self.wc.worker_activate(self.n)
            try:
                try:
                    x = next(self.it)
                except StopIteration:
                    self.it = None
                    raise
            finally:
                self.wc.worker_deactivate()
            self.n += 1
            return x

    def take(self, k=100000):
        out = []
        for _ in range(k):
            try:
                out.append(self.next())
            except StopIteration:
                break
        return out

    def save(self):
        with as_worker(self.wc, self.wid):
            return pickle.loads(pickle.dumps(self.ds.save_state()))


def val(x):
    if isinstance(x, S):
        return val(x.value)
    if isinstance(x, (list, tuple)):
        return [val(y) for y in x]
    return x


def wcfg(nw=0, rank=0, world=1, seed=0):
    return WorkerConfig(rank=rank, world_size=world, num_workers=nw, seed_offset=seed)
