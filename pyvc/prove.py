"""prove.py CNN --tier T --budget S --out F: generates the obligations of one property from the current source and discharges them.

Every contract of /verif/contracts/cNN.py runs in a process of its own (after one instrumented import of megatron.energon)."""
import argparse, collections, importlib, json, multiprocessing, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
sys.path[:0] = [HERE, os.path.join(VERIF, "contracts")]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
sys.setrecursionlimit(4000)

FUNCS = set()
# per contract: the locations about which the invariants found on the unchanged tree say nothing (written by --write-baseline)
BASE_FILE = os.path.join(HERE, "baseline.json")
BASELINE = json.load(open(BASE_FILE)) if os.path.exists(BASE_FILE) else {}
# per contract: which locations each loop changes and which invariant candidates do not hold there (a starting point only)
WARM_FILE = os.path.join(HERE, "warm.json")
WARM = json.load(open(WARM_FILE)) if os.path.exists(WARM_FILE) else {}


def monitor():
    m = sys.monitoring
    m.use_tool_id(3, "pv")

    def start(code, off):
        f = code.co_filename
        if f.startswith(SRC):
            q = code.co_qualname
            if "<" not in q.replace("<locals>", "") and "<locals>._pv" not in q:
                FUNCS.add(f[len(SRC) + 1:].removeprefix("megatron/energon/") + ":" + q)
        return m.DISABLE
    m.register_callback(3, m.events.PY_START, start)
    m.set_events(3, m.events.PY_START)


UNROLL_S = 45


def one(args):
    mod, i, budget, unroll = args
    import eng
    import z3
    t = time.time()
    c = importlib.import_module(mod).CONTRACTS[i]()
    out = dict(name=c.name, obl={}, covers={}, unsupported=None)
    sys.monitoring.restart_events()
    FUNCS.clear()
    for warm in [WARM[c.name], None] if c.name in WARM else [None]:
        E = eng.Engine(c, min(budget - (time.time() - t), getattr(c, "budget", budget)))
        out["unsupported"] = None
        try:
            if warm:
                E.start_from(warm)
            E.explore()
        except eng.Unsupported as e:
            out["unsupported"] = str(e)[:500]
        except Exception as e:
            out["unsupported"] = "internal: " + traceback.format_exc()[-800:]
        # what was learnt about the tree the contracts were written for is used first; if something is not proved, all is done from scratch
        if not out["unsupported"] and all(r[0] == "discharged" for rs in E.obl.values() for r in rs) and all(E.covers.get(x) for x in getattr(c, "covers", [])):
            out["learnt"] = E.learnt() if E.restarts or warm else None
            break
        if time.time() - t > budget * .6:
            break
        c = importlib.import_module(mod).CONTRACTS[i]()
    known = set(BASELINE.get(c.name, ()))
    out["imprecise"] = sorted(E.all_imprecise)
    for n, rs in E.obl.items():
        sts = [r[0] for r in rs]
        bad = [r[1] for r in rs if r[0] == "refuted"]
        # a refutation counts if no invariant was given up for lack of an answer, and nothing is unknown which is known on the tree the contracts were written for
        strong = [d for d in bad if not d.get("weak") and set(d.get("imprecise", ())) <= known]
        st = "refuted" if strong else "undecided" if bad or "undecided" in sts else "discharged"
        out["obl"][n] = dict(status=st, vcs=len(rs), detail=(strong or bad or [r[1] for r in rs if r[1]] or [None])[0])
    # what is undecided (usually an invariant which is not found) is searched for failures on paths without invariants
    if unroll == "always" or unroll and not any(o["status"] == "refuted" for o in out["obl"].values()) and (out["unsupported"] or any(o["status"] == "undecided" for o in out["obl"].values())):
        E2 = eng.Engine(importlib.import_module(mod).CONTRACTS[i](), UNROLL_S)
        try:
            bad, out["unrolled"] = E2.search(UNROLL_S)
            for n, d in bad.items():
                o = out["obl"].setdefault(n, dict(vcs=1))
                o.update(status="refuted", detail=dict(d, paths="loops unrolled from the initial state, no invariant used"))
        except Exception:
            out["unrolled"] = "internal: " + traceback.format_exc()[-800:]
    out["covers"] = {n: bool(v) for n, v in E.covers.items()}
    out["expected"] = list(getattr(c, "covers", []))
    out["bounded"] = getattr(c, "bounded", None)
    out["assumptions"] = list(getattr(c, "assumptions", []))
    out["functions"] = sorted(FUNCS)
    out["backends"] = E.backends
    out["solver_s"] = E.solver_s
    out["wall_s"] = time.time() - t
    out["paths"], out["restarts"], out["log"] = getattr(E, "paths", 0), E.restarts, E.log
    out["cases"] = getattr(c, "cases", None) and {n: c.cases(n, o["detail"]) for n, o in out["obl"].items() if o["status"] == "refuted"} or {}
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=150)
    ap.add_argument("--out")
    ap.add_argument("--only")
    ap.add_argument("--write-baseline", action="store_true")
    ap.add_argument("--unroll", default="yes")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    os.environ["VERIF_TIER_RUN"] = a.tier
    t0 = time.time()
    import eng, shadow, instr
    monitor()
    instr.install(SRC, shadow.PV(), shadow.SHADOW)
    mod = a.property.lower()
    import warnings
    warnings.simplefilter("ignore")
    cs = importlib.import_module(mod).CONTRACTS
    unroll = a.unroll if a.unroll != "no" else ""
    todo = [(mod, i, a.budget, unroll) for i, c in enumerate(cs) if not a.only or a.only in c.name]
    res = {}
    if a.only and len(todo) == 1:
        res[todo[0][1]] = one(todo[0])
    else:
        with multiprocessing.get_context("fork").Pool(min(8, max(1, len(todo))), maxtasksperchild=1) as pool:
            rs = {t[1]: pool.apply_async(one, (t,)) for t in todo}
            for i, r in rs.items():
                left = a.budget + 20 + UNROLL_S * 2 - (time.time() - t0)
                try:
                    res[i] = r.get(timeout=max(0.5, left))
                except multiprocessing.TimeoutError:
                    res[i] = dict(name=cs[i].name, obl={}, covers={}, expected=[], assumptions=[], functions=[], backends={}, solver_s=0, unsupported="time limit", cases={}, wall_s=0, paths=0, restarts=0, log=[])
            pool.terminate()
    out = dict(obligations=0, discharged=0, failed=[], undecided=[], backends=collections.Counter(), solver_s=0.0, functions=[], covers={}, assumptions=[], trusted=[], contracts=[], vcs=0, bounded=[])
    fs = set()
    for i, r in sorted(res.items()):
        n = r["name"]
        # bounded stand-ins are counted apart, never among the proved obligations
        tally = dict(name=n, bound=r["bounded"], obligations=0, discharged=0) if r.get("bounded") else out
        if tally is not out:
            out["bounded"].append(tally)
        for o, d in r["obl"].items():
            tally["obligations"] += 1
            out["vcs"] += d["vcs"]
            if d["status"] == "discharged":
                tally["discharged"] += 1
            elif d["status"] == "refuted":
                out["failed"].append(dict(name=f"{n}: {o}", detail=d["detail"], cases=r["cases"].get(o) or []))
            else:
                out["undecided"].append(f"{n}: {o}: {d['detail']}"[:600])
        if r["unsupported"]:
            tally["obligations"] += 1
            out["undecided"].append(f"{n}: {r['unsupported']}")
        else:
            for c in r["expected"]:
                tally["obligations"] += 1
                if r["covers"].get(c):
                    tally["discharged"] += 1
                else:
                    out["undecided"].append(f"{n}: cover point '{c}' is not reached (vacuous)")
            if not r["obl"]:
                out["undecided"].append(f"{n}: no obligation was generated (vacuous)")
        out["covers"].update({f"{n}: {c}": v for c, v in r["covers"].items()})
        out["backends"].update(r["backends"])
        out["solver_s"] += r["solver_s"]
        fs.update(r["functions"])
        out["assumptions"] += [x for x in r["assumptions"] if x not in out["assumptions"]]
        out["contracts"].append(dict(name=n, obligations={o: d["status"] for o, d in r["obl"].items()}, wall_s=round(r["wall_s"], 1), paths=r["paths"], restarts=r["restarts"]))
        if a.v:
            print(f"== {n}: {r['wall_s']:.1f} s, {r['paths']} paths, {r['restarts']} restarts, {r['unsupported'] or ''}")
            for o, d in r["obl"].items():
                print("  ", d["status"], o, f"({d['vcs']})", "" if d["status"] == "discharged" else d["detail"])
            print("   covers", r["covers"], "missing", [c for c in r["expected"] if not r["covers"].get(c)])
            if r.get("unrolled"):
                print("   unrolled (decisions, paths):", r["unrolled"])
            if a.only:
                print("   log", *r["log"], sep="\n      ")
    out["functions"] = sorted(fs)
    out["backends"] = dict(out["backends"])
    out["solver_s"] = round(out["solver_s"], 2)
    out["wall_s"] = round(time.time() - t0, 2)
    if a.write_baseline:
        BASELINE.update({r["name"]: r["imprecise"] for r in res.values() if r.get("imprecise")})
        json.dump(BASELINE, open(BASE_FILE, "w"), indent=1, sort_keys=True)
        WARM.update({r["name"]: r["learnt"] for r in res.values() if r.get("learnt")})
        json.dump(WARM, open(WARM_FILE, "w"), indent=1, sort_keys=True)
    if a.out:
        json.dump(out, open(a.out, "w"), indent=1, default=str)
    for b in out["bounded"]:
        print(f"bounded ({b['bound']}): {b['name']}: {b['discharged']}/{b['obligations']}")
    print(f"{a.property}: {out['discharged']}/{out['obligations']} obligations discharged ({out['vcs']} conditions), {len(out['failed'])} refuted, {len(out['undecided'])} undecided, {out['wall_s']} s")
    for f in out["failed"]:
        print("REFUTED", f["name"], str(f["detail"])[:700])
    for u in out["undecided"]:
        print("undecided", u[:700])


if __name__ == "__main__":
    main()
