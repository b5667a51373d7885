"""C18 - a sample rebuilt from its restore key is the same sample."""
import random as _random
import numpy as _np
import torch
from passes import *
from c15 import rand_spec, valid, KINDS, infinite
import pipes
from megatron.energon.savable_loader import SimpleSavableDatasetWrapper
from megatron.energon.task_encoder.base import TaskEncoder, stateless, get_stateless

RULE = "random wrapper pipelines with stateless (also seeded random) functions x ranks x workers; every yielded sample is rebuilt by another rank; non-trivial: two or more wrappers"


class TE(TaskEncoder):
    def __init__(self, salt):
        self.salt = salt

    def draw(self):
        return [_random.randrange(10**6), int(_np.random.randint(10**6)), int(torch.randint(10**6, ()))]

    @stateless(restore_seeds=True)
    def encode_sample(self, s):
        return mk(s, ("r", self.salt, tuple(self.draw()), s.value), self.current_sample_index, s.idx)

    @stateless(restore_seeds=True)
    def many(self, s):
        for i in range(1 + h(s.value) % 3):
            yield mk(s, ("rg", i, tuple(self.draw()), s.value), self.current_sample_index, s.idx)

    @stateless(restore_seeds=True)
    def batch(self, ss):
        return mk(ss[0], ("rb", tuple(self.draw()), tuple(s.value for s in ss)), self.current_sample_index, *[s.idx for s in ss])


def rbuild(spec, inner, wc):
    te = TE(spec[1])
    k = spec[0]
    if k == "rmap":
        return MapDataset(inner, te.encode_sample, stateless_map_fn=get_stateless(te.encode_sample), worker_config=wc)
    if k == "rgen":
        return MapDataset(inner, te.many, stateless_map_fn=get_stateless(te.many), worker_config=wc)
    return BatchDataset(inner, 2, te.batch, batcher_stateless=get_stateless(te.batch), worker_config=wc)


for k in ("rmap", "rgen", "rbatch"):
    pipes.EXTRA[k] = rbuild


def wrap_random(rng, spec):
    """Puts seeded random stages on top of some stages."""
    if spec[0] == "src":
        return spec
    spec = [wrap_random(rng, s) if isinstance(s, list) and s and isinstance(s[0], str) else s for s in spec]
    if rng.random() < .25:
        spec = [rng.choice(["rmap", "rgen", "rbatch"]), rng.randrange(99), spec]
    return spec


def gen(tier, rng):
    for nw in (0, 2):
        for k in KINDS:
            for g in ((False, True) if k in ("map", "batch", "pack") else (False,)):
                spec = stage(rng, k, ["src", 11, False])
                if k in ("map", "batch", "pack"):
                    spec[1]["gen"] = g
                yield dict(spec=spec, nw=nw, ws=2, rank=1, total=12, other=0)
                yield dict(spec=["rmap", 1, ["rbatch", 2, spec]], nw=nw, ws=2, rank=1, total=12, other=0)
    n = 900 if tier == "quick" else 40000
    while n > 0:
        nw = rng.choice([0, 1, 2, 3])
        spec = rand_spec(rng, rng.choice([1, 2, 2, 3, 4]), nw)
        if not valid(spec, nw):
            continue
        n -= 1
        ws = rng.choice([1, 2, 3])
        c = dict(spec=wrap_random(rng, spec), nw=nw, ws=ws, rank=rng.randrange(ws), other=rng.randrange(ws), total=14)
        if rng.random() < .4:
            c["same"] = True
        yield c


def nontrivial(c):
    return len(json.dumps(c["spec"]).split('["')) > 3


def full(x):
    return sig(x)


def run(c):
    nw, spec = c["nw"], c["spec"]
    wc = WorkerConfig(rank=c["rank"], world_size=c["ws"], num_workers=nw)
    wo = WorkerConfig(rank=c["other"], world_size=c["ws"], num_workers=nw)
    ds = build(spec, wc)
    if not ds.can_restore_sample():
        raise Violation("a pipeline of stateless functions claims not to be able to restore samples")
    for w in workers(nw):
        one = SimpleSavableDatasetWrapper(copy.deepcopy(ds), wc) if nw else SimpleSavableDatasetWrapper(build(spec, wc), wc)
        ref_ = SimpleSavableDatasetWrapper(build(spec, wc), wc)
        # undisturbed run
        want = read(ref_, wc, w, c["total"])
        other = SimpleSavableDatasetWrapper(build(spec, wo), wo)
        got = []
        if not c.get("same"):
            got = read(one, wc, w, c["total"])
            eq([full(x) for x in got], [full(x) for x in want], f"worker {w}: two runs")
            for x in got:
                check(other, x, w, c)
        else:
            # restored in between by the iterating dataset itself
            it, end = None, False
            SRC = [None]
            got = []
            with as_worker(wc, w):
                it = iter(one)
                _random.seed(77), _np.random.seed(77), torch.manual_seed(77)
                while len(got) < c["total"]:
                    try:
                        _, i, x = next(it)
                    except StopIteration:
                        break
                    got.append(x)
                    if len(got) % 2:
                        before = sig_state(one.save_state())
                        check(one, got[h(len(got)) % len(got)], w, c)
                        eq(sig_state(one.save_state()), before, f"worker {w}: state of the dataset before/after restoring a sample")
            eq([full(x) for x in got], [full(x) for x in want[:len(got)]], f"worker {w}: samples while restoring samples in between")


def read(one, wc, w, total):
    out = []
    with as_worker(wc, w):
        it = iter(one)
        while len(out) < total:
            try:
                ww, i, x = next(it)
            except StopIteration:
                break
            out.append(x)
    return out


def check(ds, x, w, c):
    import torch.utils.data._utils.worker as tw
    old, tw._worker_info = tw._worker_info, None
    st = (_random.getstate(), torch.get_rng_state().tolist()[:50])
    try:
        y = ds.restore_sample(json_key(x.__restore_key__))
    finally:
        tw._worker_info = old
    eq((_random.getstate(), torch.get_rng_state().tolist()[:50]) == st, True, "global random state is the same after restoring a sample")
    eq(full(y), full(x), f"worker {w} of rank {c['rank']}: sample rebuilt (by rank {c['other']}) from its restore key")


def json_key(k):
    return pickle.loads(pickle.dumps(k))


def shrink(c):
    for s in simpler(c["spec"]):
        if s[0] == "src" or valid(strip(s), c["nw"]):
            yield dict(c, spec=s)
    for nw in (0, 1):
        if nw < c["nw"]:
            yield dict(c, nw=nw)
    if c["total"] > 1:
        yield dict(c, total=c["total"] // 2)
        yield dict(c, total=c["total"] - 1)
    if c["ws"] > 1:
        yield dict(c, ws=1, rank=0, other=0)


def strip(s):
    if s[0] == "src":
        return s
    s = [strip(x) if isinstance(x, list) and x and isinstance(x[0], str) else x for x in s]
    return s[-1] if s[0] in ("rmap", "rgen", "rbatch") else s
