"""Shared checks on pipelines."""
from pipes import *


def workers(nw):
    return range(max(nw, 1))


def norm(x):
    return json.loads(json.dumps(x))


def vals(samples):
    return norm([val(s) for s in samples])


def check_ref(spec, nw, passes=2):
    """Every worker's every pass yields exactly the reference values."""
    wc = WorkerConfig(rank=0, world_size=1, num_workers=nw)
    ds = build(spec, wc)
    out = []
    for w in workers(nw):
        sw = SimWorker(ds, wc, w)
        want = norm(ref(spec, w, nw))
        for p in range(passes):
            got = sw.epoch()
            eq(vals(got), want, f"worker {w}, pass {p}: values")
            out.append((sw, got))
    return ds, out


def resume_check(spec, nw, saves, total, wid_only=None):
    """Differential: uninterrupted run against runs that save, merge and restore at `saves`."""
    wc = WorkerConfig(rank=0, world_size=1, num_workers=nw)
    base = build(spec, wc)
    refs = []
    for w in workers(nw):
        sw = SimWorker(base, wc, w)
        refs.append([sig(x) if x is not None else None for x in sw.run(total, passes=40)])
    pos = [0] * len(refs)
    cur = [SimWorker(base, wc, w) for w in workers(nw)]
    done = [[] for _ in refs]
    saved = [set() for _ in refs]
    for step, ks in enumerate(list(saves) + [None]):
        for w in workers(nw):
            k = total if ks is None else ks[w]
            k = min(k, sum(x is not None for x in refs[w]) - pos[w])
            got = cur[w].run(k, passes=40) if k > 0 else []
            done[w] += [sig(x) if x is not None else None for x in got]
            pos[w] += sum(x is not None for x in got)
            a = [x for x in done[w] if x is not None]
            b = [x for x in refs[w] if x is not None][:len(a)]
            if a != b:
                i = next(i for i in range(len(a)) if i >= len(b) or a[i] != b[i])
                raise Violation(f"worker {w} of {len(refs)} after {step} restores (saved at {list(saves)[:step]}): sample {i} is "
                                f"{short(a[i])}, uninterrupted it is {short(b[i] if i < len(b) else None)}")
            # passes end at the same places; (a virtual epoch which is complete when saved does not
            # end again after the restore)
            m = len([x for x in done[w] if x is not None])
            de, re_ = ([x for x in marks(q) if x < m] for q in (done[w], refs[w]))
            if "epochize" not in json.dumps(spec):
                eq(de, re_, f"worker {w} after {step} restores: positions of pass ends")
            req(len(a) >= k, "?")
        if ks is None:
            break
        for w in workers(nw):
            saved[w].add(pos[w])
        states = [cur[w].save() for w in workers(nw)]
        frozen = pickle.dumps(states)
        fresh = build(spec, wc)
        with as_worker(wc, 0):
            merged = fresh.merge_states(states)
        # the merged state must survive in serialised form and must not be changed by later use
        merged = pickle.loads(pickle.dumps(merged))
        before = sig_state(merged)
        fresh.restore_state(merged)
        ns = [cur[w].n for w in workers(nw)]
        cur = [SimWorker(fresh, wc, w, fork=(nw > 0)) for w in workers(nw)]
        for w in workers(nw):
            cur[w].n = ns[w]
        probe = SimWorker(fresh, wc, 0, fork=True) if nw > 0 else None
        cur_state_check.append((merged, before))
    for merged, before in cur_state_check:
        eq(sig_state(merged), before, "restored state after further iteration")
    cur_state_check.clear()
    return refs


cur_state_check = []


def marks(seq):
    out, n = [], 0
    for x in seq:
        if x is None:
            out.append(n)
        else:
            n += 1
    return out


def sig_state(s):
    if isinstance(s, bytes):
        return h(s)
    if hasattr(s, "__dataclass_fields__"):
        return (type(s).__name__, tuple((f, sig_state(getattr(s, f))) for f in s.__dataclass_fields__))
    if isinstance(s, (list, tuple)):
        return tuple(sig_state(x) for x in s)
    if isinstance(s, dict):
        return tuple((k, sig_state(v)) for k, v in s.items())
    return s
