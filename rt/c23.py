"""C23 - seeded random functions and the worker generator."""
import random as _random
import numpy as _np
import torch
from passes import *
from megatron.energon.rng import WorkerRng, SystemRng
from megatron.energon.task_encoder.base import TaskEncoder, stateless, get_stateless

RULE = "call sequences of seeded functions and generators with interleaved outside draws, failures and early closing; worker generator histories with save points; non-trivial: an interleaving or a save point"


class Boom(Exception):
    pass


class TE(TaskEncoder):
    def draw(self):
        return [_random.randrange(10**6), int(_np.random.randint(10**6)), int(torch.randint(10**6, ())), _random.gauss(0, 1), float(_np.random.normal())]

    @stateless(restore_seeds=True)
    def one(self, k, fail):
        out = [self.draw() for _ in range(k)]
        if fail:
            raise Boom()
        return out

    @stateless(restore_seeds=True)
    def many(self, k, fail):
        for i in range(k):
            yield self.draw()
        if fail:
            raise Boom()

    @stateless
    def plain(self, k):
        return k


def gen(tier, rng):
    n = 300 if tier == "quick" else 20000
    for _ in range(n):
        yield dict(kind="fn", nw=rng.choice([0, 1, 3]), rank=rng.randrange(2), so=rng.choice([0, 5]), calls=[
            dict(w=rng.randrange(3), idx=rng.randrange(4), gen=rng.random() < .5, k=rng.randint(0, 3), fail=rng.random() < .2,
                 outer=rng.randint(0, 3), close=rng.random() < .2, mix=rng.random() < .6) for _ in range(rng.randint(1, 7))])
    for _ in range(n):
        yield dict(kind="rng", nw=rng.choice([0, 1, 3]), so=rng.choice([0, 5]), ops=[
            [rng.choice(["randbelow", "choice", "choice_idx", "shuffle", "rand_pop", "save", "save", "restart"]), rng.randint(1, 9)] for _ in range(rng.randint(2, 14))])


def nontrivial(c):
    return c["kind"] == "rng" and any(o[0] == "save" for o in c["ops"]) or c["kind"] == "fn" and len(c["calls"]) > 1


def gstate():
    return (_random.getstate(), [x if not hasattr(x, "tolist") else x.tolist() for x in _np.random.get_state()], torch.get_rng_state().tolist())


def perturb(n):
    for _ in range(n):
        _random.random(), _np.random.normal(), torch.rand(3)


def run(c):
    return (run_fn if c["kind"] == "fn" else run_rng)(c)


def run_fn(c):
    te = TE()
    nw = c["nw"]
    wc = WorkerConfig(rank=c["rank"], world_size=2, num_workers=nw, seed_offset=c["so"])
    req(get_stateless(te.one) and get_stateless(te.many) and get_stateless(te.plain) and not get_stateless(te.draw), "stateless marks")
    known = {}
    _random.seed(1), _np.random.seed(1), torch.manual_seed(1)
    for call in c["calls"]:
        w = call["w"] % max(nw, 1)
        perturb(call["outer"])
        with as_worker(wc, w):
            seed = wc.worker_seed()
            wc.worker_activate(0)
            try:
                wc.worker_push_sample_index(call["idx"])
                if call["gen"]:
                    got = []
                    st = gstate()
                    it = te.many(call["k"], call["fail"])
                    eq(gstate() == st, True, "generators unchanged by creating the seeded generator")
                    failed = False
                    while True:
                        try:
                            st = gstate()
                            got.append(next(it))
                            eq(gstate() == st, True, "random state around a generated value")
                        except StopIteration:
                            eq(gstate() == st, True, "random state after the last value")
                            break
                        except Boom:
                            eq(gstate() == st, True, "random state after a failure")
                            failed = True
                            break
                        if call["mix"]:
                            perturb(2)
                        if call["close"]:
                            st = gstate()
                            it.close()
                            eq(gstate() == st, True, "random state after closing")
                            break
                    if not call["close"]:
                        eq(failed, call["fail"], "failure is passed on")
                        eq(len(got), call["k"], "generated values")
                else:
                    st = gstate()
                    try:
                        got = te.one(call["k"], call["fail"])
                        eq(call["fail"], False, "failure is passed on")
                    except Boom:
                        eq(call["fail"], True, "failure")
                        got = []
                    eq(gstate() == st, True, "random state after a seeded function")
                wc.worker_pop_sample_index()
            finally:
                wc.worker_deactivate()
        # numbers are a function of worker and sample index only
        key = (seed, call["idx"] * max(nw, 1) + w)
        old = known.setdefault(key, [])
        n = min(len(old), len(got))
        eq(got[:n], old[:n], f"numbers drawn for worker {w}, sample {call['idx']}")
        if len(got) > len(old):
            known[key] = got
    firsts = [v[0][2] for v in known.values() if v]
    req(len(set(map(str, [v[0] for v in known.values() if v]))) == len(firsts), "different samples or workers get the same numbers")


def apply(r, op, x):
    if op == "randbelow":
        return r.randbelow(x)
    if op == "choice":
        return r.choice(list(range(x)))
    if op == "choice_idx":
        return r.choice_idx(torch.tensor([1.0] * x))
    if op == "shuffle":
        l = list(range(x))
        y = r.shuffle(l)
        eq(l, list(range(x)), "shuffled list itself")
        eq(sorted(y), l, "shuffling is a permutation")
        return y
    l = list(range(x))
    y = r.rand_pop(l)
    eq(sorted(l + [y]), list(range(x)), "popped element and rest")
    return [y, l]


def run_rng(c):
    nw = c["nw"]
    k = max(nw, 1)
    wc = WorkerConfig(rank=1, world_size=2, num_workers=nw, seed_offset=c["so"])
    plain, want = [], []
    for w in range(k):
        with as_worker(wc, w):
            r = WorkerRng(wc)
            want.append([apply(r, op, x) for op, x in c["ops"] if op not in ("save", "restart")])
    req(k == 1 or len(want[0]) < 4 or len(set(map(str, want))) > 1, "all workers draw the same numbers")
    cur = [WorkerRng(wc) for _ in range(k)]
    got = [[] for _ in range(k)]
    st = gstate()
    for op, x in c["ops"]:
        if op == "restart":
            continue
        if op == "save":
            states = []
            for w in range(k):
                with as_worker(wc, w):
                    states.append(pickle.loads(pickle.dumps(cur[w].save_state())))
            m = WorkerRng(wc).merge_states(states)
            frozen = pickle.dumps(m)
            cur = []
            for w in range(k):
                r = WorkerRng(wc)
                if x % 2:
                    with as_worker(wc, w):
                        for _ in range(x % 5):
                            r.randbelow(100)
                r.restore_state(m)
                cur.append(r)
            eq(pickle.dumps(m), frozen, "state passed to restore")
            continue
        for w in range(k):
            with as_worker(wc, w):
                got[w].append(apply(cur[w], op, x))
                for v in [got[w][-1]]:
                    if op in ("randbelow", "choice", "choice_idx"):
                        req(0 <= v < x, f"{op} of {x}: {v}")
    eq(got, want, "numbers drawn with saving and restoring in between")
    eq(gstate() == st, True, "global random state after using the worker generator")
    r = cur[0]
    with as_worker(wc, 0):
        r.restore_state(None)
        eq([apply(r, op, x) for op, x in c["ops"] if op not in ("save", "restart")], want[0], "numbers after restoring the initial state")


def shrink(c):
    k = "calls" if c["kind"] == "fn" else "ops"
    for i in range(len(c[k])):
        yield dict(c, **{k: c[k][:i] + c[k][i + 1:]})
    if c["nw"]:
        yield dict(c, nw=c["nw"] // 2)
