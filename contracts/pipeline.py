"""Recording the pipeline which a builder constructs."""
import inspect
from lib import *
import megatron.energon.task_encoder.base as task_base
from megatron.energon.task_encoder.base import TaskEncoder, stateless, get_stateless
from megatron.energon.task_encoder.cooking import Cooker
from megatron.energon.flavors.crude import CrudeWebdataset

WRAPPERS = ("BatchDataset", "BlendDataset", "ConcatDataset", "EpochizeDataset", "GroupBatchDataset", "LimitDataset", "LogSampleDataset", "MapDataset",
            "PackingDataset", "ShuffleBufferDataset")


class Node:
    """A wrapper that was constructed, with the values of its parameters as its constructor receives them."""

    def __init__(self, kind, params):
        self.kind, self.params = kind, params

    def __getattr__(self, k):
        try:
            return self.__dict__["params"][k]
        except KeyError:
            raise AttributeError(k)


def record(c, module=task_base, names=WRAPPERS):
    """Replaces the wrappers' classes in the module by recorders with the signature of the real constructor."""
    for n in names:
        real = getattr(module, n)
        sig = inspect.signature(real.__init__)

        def make(*a, _n=n, _sig=sig, **k):
            b = _sig.bind(None, *a, **k)
            b.apply_defaults()
            d = dict(b.arguments)
            d.pop("self")
            return Node(_n, d)
        c.patch(module, n, make)


class Factory:
    """A dataset factory (stub): build() gives the dataset; a length."""
    _stub = True

    def __init__(self, i, length):
        self.i, self.length, self.built = i, length, []

    def __len__(self):
        return self.length

    def build(self, worker_rotation_offset=0):
        self.built.append(worker_rotation_offset)
        return Node("source", dict(i=self.i, n=len(self.built)))


class Plain(TaskEncoder):
    pass


def f(name, gen=False):
    def fn(self, *a):
        raise AssertionError("not called while building")
    fn.__name__ = name
    return fn


def encoder(encode, pack, group, batch, encode_batch, cookers, marked):
    """A task encoder which overrides the given steps; marked: as stateless."""
    d = {}
    m = stateless if marked else (lambda x: x)
    if encode:
        d["encode_sample"] = m(f("encode_sample"))
    if pack:
        d["select_samples_to_pack"] = f("select_samples_to_pack")
        d["pack_selected_samples"] = m(f("pack_selected_samples"))
    if group:
        d["batch_group_criterion"] = f("batch_group_criterion")
    if batch:
        d["batch"] = m(f("batch"))
    if encode_batch:
        d["encode_batch"] = m(f("encode_batch"))
    if cookers:
        d["cookers"] = [Cooker(lambda s: s, is_subflavor="a"), Cooker(lambda s: s)]
    return type("Enc", (Plain,), d)()
