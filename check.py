#!/usr/bin/env python3
"""check.py CNN [--tier quick|thorough] - decides one property on /repo's current source.

Two parts run side by side and are combined here:
  prover   pyvc/prove.py: proof obligations generated from the source in /repo and the contracts in
           /verif/contracts/cNN.py, discharged by z3 / cvc5.
  runtime  rt/core.py cNN: the contracts of the property evaluated on the real code on concrete cases.  It replays
           counter models of failed obligations and stands in (bounded) for functions no contract reaches.
Exit 0: nothing violated.  Exit 1: a line "VIOLATION property=CNN replay=<path>[ no-failing-input-found]".
"""
import argparse, json, os, subprocess, sys, tempfile, time, hashlib, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO_PY = "/opt/venv/bin/python"
PROVER_PY = REPO_PY
RT = os.path.join(HERE, "rt")


def run_bg(cmd, cwd, env, log):
    return subprocess.Popen(cmd, cwd=cwd, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)


def wait(p, limit):
    try:
        p.wait(timeout=max(1, limit))
    except subprocess.TimeoutExpired:
        pass
    try:
        os.killpg(p.pid, 9)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()


def load(path):
    try:
        return json.load(open(path))
    except Exception:
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--no-rt", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    pid = a.property.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    settings = json.load(open(os.path.join(HERE, "settings.json")))
    conf = settings["properties"][pid]
    rt_budget = conf.get("rt_budget", {}).get(a.tier, {"quick": 25, "thorough": 300}[a.tier])
    proof_budget = conf.get("proof_budget", {}).get(a.tier, {"quick": 150, "thorough": 500}[a.tier])
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    shm = tempfile.mkdtemp(prefix=f"verif-{pid}-", dir="/dev/shm") if os.path.isdir("/dev/shm") else work
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0", TMPDIR=work, VERIF_SCRATCH=shm,
               VERIF_SEED=str(seed), VERIF_TIER=a.tier)
    rt = pr = None
    log_rt, log_pr = open(os.path.join(work, "rt.log"), "wb"), open(os.path.join(work, "pr.log"), "wb")
    name = pid.lower()
    try:
        prover = None
        if not a.no_proof and os.path.exists(os.path.join(HERE, "contracts", name + ".py")):
            prover = run_bg([PROVER_PY, os.path.join(HERE, "pyvc", "prove.py"), pid, "--tier", a.tier, "--budget", str(proof_budget),
                             "--out", os.path.join(work, "pr.json")], HERE, env, log_pr)
        runtime = None
        if not a.no_rt and os.path.exists(os.path.join(RT, name + ".py")):
            runtime = run_bg([REPO_PY, "core.py", name, "--tier", a.tier, "--seed", str(seed), "--budget", str(rt_budget),
                              "--out", os.path.join(work, "rt.json")], RT, env, log_rt)
        if runtime:
            wait(runtime, rt_budget + 150)
            rt = load(os.path.join(work, "rt.json"))
        if prover:
            wait(prover, proof_budget + 60 - (time.time() - t0))
            pr = load(os.path.join(work, "pr.json"))

        known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == pid]
        notes, violation = [], None

        def replay_case(case, times):
            f = os.path.join(work, "case.json")
            json.dump(dict(case=case), open(f, "w"))
            out = ""
            for _ in range(times):
                try:
                    r = subprocess.run([REPO_PY, "core.py", name, "--replay", f], cwd=RT, env=env, capture_output=True, text=True, timeout=200)
                except subprocess.TimeoutExpired:
                    return "the replayed case did not end within 200 s"
                if r.returncode == 1 and r.stdout.startswith("violation"):
                    return r.stdout
                out = r.stdout
            return None

        # 1. a concrete failing input of the runtime part, confirmed by a replay of its own
        if rt and rt.get("violation"):
            v = rt["violation"]
            again = replay_case(v["case"], 3)
            if again:
                violation = dict(kind="input", case=v["case"], message=v["message"])
            else:
                notes.append("a case failed once and passed on every replay; not reported: " + json.dumps(v["case"])[:400])
        elif runtime and rt is None:
            notes.append("runtime part gave no result: " + open(os.path.join(work, "rt.log"), errors="replace").read()[-1500:])
        # 2. failed obligations
        failed = (pr or {}).get("failed", [])
        if failed and not violation:
            for ob in failed:
                for case in ob.get("cases", []):
                    msg = replay_case(case, 1)
                    if msg:
                        violation = dict(kind="input", case=case, message=msg, obligation=ob)
                        break
                if violation:
                    break
        if (failed or (pr or {}).get("undecided")) and not violation and runtime:
            # search longer for a failing input with the runtime part before giving up
            env2 = dict(env)
            p = run_bg([REPO_PY, "core.py", name, "--tier", "thorough", "--seed", str(seed + 1), "--budget", "90", "--out",
                        os.path.join(work, "rt2.json")], RT, env2, log_rt)
            wait(p, 240)
            rt2 = load(os.path.join(work, "rt2.json"))
            if rt2 and rt2.get("violation") and replay_case(rt2["violation"]["case"], 3):
                violation = dict(kind="input", case=rt2["violation"]["case"], message=rt2["violation"]["message"],
                                 obligation=failed[0] if failed else dict(undecided=pr["undecided"][:3]))
        if failed and not violation:
            violation = dict(kind="obligation", obligation=failed[0], all_failed=[f["name"] for f in failed],
                             message="obligation refuted by the solver; no failing input was found")

        # ---- known findings
        for k in known:
            if k.get("status") == "open":
                print(f"KNOWN-FINDING: property={pid} {k['what']}")

        # ---- evidence
        cov, assumptions, trusted = {}, list(conf.get("assumptions", [])), list(conf.get("trusted", []))
        level = conf["level"]
        if pr:
            cov.update(obligations=pr["obligations"], discharged=pr["discharged"], checker_cmd=f"/opt/venv/bin/python pyvc/prove.py {pid} --tier {a.tier}",
                       backends=pr.get("backends"), solver_s=pr.get("solver_s"), functions_under_contract=pr.get("functions"),
                       undecided=pr.get("undecided"), covers=pr.get("covers"), failed=[f["name"] for f in failed], prover_wall_s=pr.get("wall_s"), bounded_contracts=pr.get("bounded"))
            assumptions += [x for x in pr.get("assumptions", []) if x not in assumptions]
            trusted += [x for x in pr.get("trusted", []) if x not in trusted]
            for u in pr.get("undecided", []):
                notes.append("undecided: " + str(u)[:300])
        elif prover:
            notes.append("prover gave no result: " + open(os.path.join(work, "pr.log"), errors="replace").read()[-1500:])
        if rt:
            cov.update(evaluations=rt["evaluations"], distinct_nontrivial=rt["distinct_nontrivial"], rule=rt["rule"], samples=rt["samples"],
                       bounded_part=dict(label="bounded: never counted as proved", ended=rt["ended"], inapplicable=rt["inapplicable"],
                                         inapplicable_examples=rt["inapplicable_examples"], wall_s=rt["wall_s"]))
        if not pr:
            cov.setdefault("obligations", 0)
            cov.setdefault("discharged", 0)
        cov.setdefault("checker_cmd", f"/opt/venv/bin/python pyvc/prove.py {pid} --tier {a.tier}")
        cov["trusted_base"] = trusted
        cov["notes"] = notes
        cov["explanation"] = conf.get("explanation", "")
        cov["known_findings"] = [k["what"] for k in known if k.get("status") == "open"]
        ev = dict(property=pid, tier=a.tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
                  wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", f".{pid}.tmp")
        json.dump(ev, open(tmp, "w"), indent=1, default=str)
        os.replace(tmp, os.path.join(HERE, "evidence", f"{pid}.json"))

        print(f"{pid} [{a.tier}] obligations {cov.get('discharged')}/{cov.get('obligations')} discharged, "
              f"{cov.get('evaluations', 0)} runtime cases ({cov.get('distinct_nontrivial', 0)} distinct non-trivial), {ev['wall_s']} s")
        for n in notes:
            print("note:", n.splitlines()[0][:300] if n else "")
        if violation:
            os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
            h = hashlib.sha1(json.dumps(violation, sort_keys=True, default=str).encode()).hexdigest()[:10]
            rp = os.path.join(HERE, "evidence", "replay", f"{pid}-{h}.json")
            violation.update(property=pid, replay_cmd=f"cd {RT} && {REPO_PY} core.py {name} --replay {rp}")
            json.dump(violation, open(rp, "w"), indent=1, default=str)
            print(violation["message"][-2500:])
            tail = "" if violation["kind"] == "input" else " no-failing-input-found"
            print(f"VIOLATION property={pid} replay={rp}{tail}")
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(shm, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
