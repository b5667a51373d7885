"""C15 - save / merge / restore of arbitrary pipelines continues every worker exactly."""
from passes import *

RULE = "random wrapper pipelines x workers x save positions x chains of restores; non-trivial: at least two wrappers and one save inside the stream"
KINDS = ["map", "filter", "itermap", "batch", "group", "pack", "shuffle", "limit", "epochize", "repeat", "log"]


def rand_spec(rng, depth, nw):
    if depth == 0:
        return ["src", rng.randint(3, 20), rng.random() < .2]
    k = rng.choice(KINDS + ["blend", "concat"])
    if k == "blend":
        n = rng.randint(1, 3)
        return ["blend", [rng.choice([1, 2, 5]) for _ in range(n)]] + [rand_spec(rng, depth - 1, nw) for _ in range(n)]
    if k == "concat":
        return ["concat"] + [rand_spec(rng, depth - 1, nw) for _ in range(rng.randint(1, 3))]
    return stage(rng, k, rand_spec(rng, depth - 1, nw))


def infinite(spec):
    k = spec[0]
    if k == "src":
        return spec[2]
    if k == "blend":
        return True
    if k == "repeat" and spec[1] is None:
        return True
    if k in ("limit", "epochize"):
        return False
    return any(infinite(s) for s in sub_specs(spec))


def valid(spec, nw):
    """Inputs outside of the documented use: concatenating endless datasets, blending with nothing."""
    k = spec[0]
    if k == "concat" and any(infinite(s) for s in sub_specs(spec)):
        return False
    if k == "repeat" and infinite(spec[-1]):
        return False
    if k in ("blend", "epochize"):
        # blends/epochs need inner datasets that yield at least one sample per pass
        if any(not productive(s, nw) for s in sub_specs(spec)):
            return False
    # a virtual epoch counts as complete with its last sample, so it does not end again after a restore
    if k not in ("map", "filter", "log", "gc", "blend") and '"epochize"' in json.dumps(sub_specs(spec)):
        return False
    # an endless stream of which nothing may be left
    if any(infinite(s) for s in sub_specs(spec)) and not productive(spec, nw):
        return False
    return all(valid(s, nw) for s in sub_specs(spec))


def productive(spec, nw):
    """Conservatively: every worker gets samples in every pass."""
    k = spec[0]
    if k == "src":
        return spec[1] >= max(nw, 1)
    if k == "limit":
        return spec[1] >= max(nw, 1) and productive(spec[-1], nw)
    if k == "epochize":
        return spec[1] >= max(nw, 1) and productive(spec[-1], nw)
    if k in ("repeat", "shuffle", "log", "gc"):
        return productive(spec[-1], nw)
    if k in ("map", "batch", "group", "pack", "itermap"):
        m = spec[1]
        return not any(m.get(x) for x in ("fail", "skip", "gen", "drop", "keyfail", "keyskip", "prefail", "preskip")) and productive(spec[-1], nw)
    if k == "filter":
        return not spec[1].get("skip") and productive(spec[-1], nw)
    if k in ("blend", "concat"):
        return all(productive(s, nw) for s in sub_specs(spec))
    return False


def gen(tier, rng):
    for nw in (0, 2, 3):
        for k in KINDS:
            for gen_ in ((False, True) if k in ("map", "batch") else (False,)):
                for s1 in range(0, 7):
                    spec = stage(rng, k, ["src", 11, False])
                    if k in ("map", "batch"):
                        spec[1]["gen"] = gen_
                    yield dict(spec=spec, nw=nw, saves=[[(s1 + w) % 7 for w in range(max(nw, 1))], [1] * max(nw, 1)], total=20)
        for s1 in range(0, 12):
            for spec in (["concat", ["src", 4, False], ["src", 5, False]], ["blend", [1, 2], ["src", 4, False], ["src", 5, False]],
                         ["repeat", 3, ["src", 4, False]], ["repeat", None, ["src", 4, False]],
                         ["epochize", 5, ["shuffle", 3, ["blend", [1, 2], ["src", 4, False], ["src", 5, False]]]]):
                yield dict(spec=spec, nw=nw, saves=[[s1] * max(nw, 1)], total=22)
    n = 1500 if tier == "quick" else 60000
    while n > 0:
        nw = rng.choice([0, 0, 1, 2, 3])
        spec = rand_spec(rng, rng.choice([1, 2, 2, 3, 4]), nw)
        if not valid(spec, nw):
            continue
        n -= 1
        if rng.random() < .3:
            mode = rng.choice(["none", "partial"])
            k = max(nw, 1)
            yield dict(spec=spec, nw=nw, mode=mode, saves=[[rng.randint(0, 8) for _ in range(k)]], total=15,
                       gone=[w for w in range(k) if rng.random() < .5], dirty=rng.choice([0, 0, 3]) if nw == 0 else 0)
            continue
        nsaves = rng.choice([1, 1, 2, 3])
        yield dict(spec=spec, nw=nw, saves=[[rng.randint(0, 8) for _ in range(max(nw, 1))] for _ in range(nsaves)], total=24)


def nontrivial(c):
    return len(json.dumps(c["spec"]).split('["')) > 3 and any(sum(s) for s in c["saves"])


def run(c):
    cur_state_check.clear()
    if c.get("mode"):
        return run_reset(c)
    resume_check(c["spec"], c["nw"], c["saves"], c["total"])


def run_reset(c):
    """Workers whose state is missing in the merged state, or all after restore_state(None), start over."""
    spec, nw, total = c["spec"], c["nw"], c["total"]
    wc = WorkerConfig(rank=0, world_size=1, num_workers=nw)
    ks = c["saves"][0]
    fresh = {}
    for w in workers(nw):
        sw = SimWorker(build(spec, wc), wc, w)
        fresh[w] = [sig(x) if x is not None else None for x in sw.run(total, passes=40)]
    used = {}
    for w in workers(nw):
        used[w] = SimWorker(build(spec, wc), wc, w)
        used[w].run(ks[w])
    if c["mode"] == "none":
        for w in workers(nw):
            with as_worker(wc, w):
                used[w].ds.restore_state(None)
            used[w].it, used[w].n = None, 0
            got = [sig(x) if x is not None else None for x in used[w].run(total, passes=40)]
            eq(got, fresh[w], f"worker {w}: after restore_state(None)")
        return
    gone = set(c["gone"])
    states = [None if w in gone else used[w].save() for w in workers(nw)]
    ds = build(spec, wc)
    if c.get("dirty"):
        # restoring into a dataset that has been iterated already
        ds = SimWorker(ds, wc, 0, fork=False)
        ds.run(c["dirty"])
        ds = ds.ds
    with as_worker(wc, 0):
        ds.restore_state(pickle.loads(pickle.dumps(ds.merge_states(states))))
    plain = build(spec, wc)
    with as_worker(wc, 0):
        plain.restore_state(pickle.loads(pickle.dumps(plain.merge_states([used[w].save() for w in workers(nw)]))))
    for w in workers(nw):
        sw = SimWorker(ds, wc, w)
        if w in gone:
            got = [sig(x) if x is not None else None for x in sw.run(total, passes=40)]
            eq(got, fresh[w], f"worker {w} without a state of its own")
        else:
            other = SimWorker(plain, wc, w)
            sw.n = other.n = used[w].n
            got = [sig(x) if x is not None else None for x in sw.run(total, passes=40)]
            want = [sig(x) if x is not None else None for x in other.run(total, passes=40)]
            eq(got, want, f"worker {w} restored next to workers without a state")


def shrink(c):
    for s in simpler(c["spec"]):
        if valid(s, c["nw"]):
            yield dict(c, spec=s)
    if len(c["saves"]) > 1:
        for i in range(len(c["saves"])):
            yield dict(c, saves=c["saves"][:i] + c["saves"][i + 1:])
    for nw in (0, 1, 2):
        if nw < c["nw"] and valid(c["spec"], nw):
            yield dict(c, nw=nw, saves=[s[:max(nw, 1)] for s in c["saves"]], gone=[g for g in c.get("gone", []) if g < max(nw, 1)])
    for i, s in enumerate(c["saves"]):
        for j in range(len(s)):
            if s[j] > 0:
                t = list(s)
                t[j] -= 1
                yield dict(c, saves=c["saves"][:i] + [t] + c["saves"][i + 1:])
