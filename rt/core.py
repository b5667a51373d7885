"""Run-time side of the checks: evaluates the contracts of a property on the real code in /repo.

Every module rt/cNN.py defines
    gen(tier, rng)  -> iterator of JSON-able cases (deterministic for a seed)
    run(case)       -> None when the contract held, or a message describing the violation
and optionally `nontrivial(case)`.  A case is exactly what a replay file stores.
"""
import contextlib, importlib, io, json, os, random, shutil, signal, sys, tempfile, time, traceback, copy, itertools, logging, warnings

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
sys.dont_write_bytecode = True
if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)


class Inapplicable(Exception):
    """The case cannot be run on this tree (an internal name it needs is gone)."""


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    def __init__(self, cpu=False):
        super().__init__()
        self.cpu = cpu


def req(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def eq(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {got!r}, expected {want!r}"[:1500])


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def _in_repo(tb):
    for fr in traceback.extract_tb(tb):
        if os.path.abspath(fr.filename).startswith(REPO_SRC + "/megatron"):
            return True
    return False


def run_case(mod, case, wall=90, cpu=40):
    """Returns (status, message); status in ok / violation / inapplicable."""
    wall, cpu = getattr(mod, "WALL", wall), getattr(mod, "CPU", cpu)

    def on_alarm(signum, frame):
        raise CaseTimeout(signum == signal.SIGVTALRM)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, wall)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                r = mod.run(case)
            finally:
                reset_globals()
        return ("ok", None) if r is None else ("violation", str(r))
    except Violation as e:
        return "violation", str(e)
    except Inapplicable as e:
        return "inapplicable", str(e)
    except CaseTimeout as e:
        if not e.cpu and not getattr(mod, "HANG_IS_VIOLATION", False):
            return "inapplicable", f"no answer within {wall} s\n" + "".join(traceback.format_tb(e.__traceback__))[-1500:]
        return "violation", f"no answer within {cpu} s of processor time / {wall} s: the code does not terminate on this input"
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = e.__traceback__
        msg = "".join(traceback.format_exception(type(e), e, tb))[-2500:]
        if _in_repo(tb):
            return "violation", "the code raised on a valid input:\n" + msg
        return "inapplicable", "harness: " + msg
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def reset_globals():
    try:
        from megatron.energon.worker import WorkerConfig
        WorkerConfig.active_worker_config = None
        WorkerConfig._sample_index_stack = None
        WorkerConfig._worker_override_global_rank = None
        import torch.utils.data._utils.worker as tw
        tw._worker_info = None
        WorkerConfig.worker_id_offset = 0
    except Exception:
        pass


def _init_worker():
    logging.disable(logging.CRITICAL)
    try:
        import torch
        torch.set_num_threads(1)
    except Exception:
        pass


def kill_group(pid):
    for f in (os.killpg, os.kill):
        try:
            f(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


def fork_cases(mod, cases, out):
    """Runs the cases in a forked process (and group) of their own; results go to the file `out`, one line each."""
    pid = os.fork()
    if pid:
        return pid
    try:
        os.setpgid(0, 0)
        for c in cases:
            st, msg = run_case(mod, c)
            with open(out, "a") as f:
                f.write(json.dumps((c, st, msg)) + "\n")
            if st == "violation":
                break
    except BaseException:
        traceback.print_exc()
    finally:
        os._exit(0)


def chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def do_shrink(mod, case, msg, budget=20.0):
    """Smaller failing case, if the module knows how to shrink."""
    if not hasattr(mod, "shrink"):
        return case, msg
    end = time.time() + budget
    improved = True
    while improved and time.time() < end:
        improved = False
        for c in mod.shrink(case):
            if time.time() > end:
                break
            st, m = run_case(mod, c)
            if st == "violation":
                case, msg, improved = c, m, True
                break
    return case, msg


def explore(name, tier, seed, budget, jobs):
    """Runs the cases of module `name`; returns a summary dict."""
    _init_worker()
    mod = importlib.import_module(name)
    rng = random.Random(f"{seed}/{name}/{tier}")
    t0 = time.time()
    n = nontriv = inapp = 0
    seen = set()
    samples = []
    violation = None
    inapp_msgs = []
    chunk = getattr(mod, "CHUNK", 16)
    src = chunks(mod.gen(tier, rng), chunk)
    ended = "all generated cases run"
    tmp = tempfile.mkdtemp(prefix="verif_rt_")
    running, serial, done = {}, 0, False
    if getattr(mod, "WARM", True):
        # imports which happen while a case runs shall not be repeated in every process
        for c in itertools.islice(mod.gen(tier, random.Random(0)), 1):
            run_case(mod, c)
    try:
        while True:
            while not done and len(running) < jobs:
                if time.time() - t0 > budget:
                    done, ended = True, f"time budget of {budget:.0f} s used"
                    break
                c = next(src, None)
                if c is None:
                    done = True
                    break
                serial += 1
                out = os.path.join(tmp, str(serial))
                running[fork_cases(mod, c, out)] = (c, out, time.time() + len(c) * getattr(mod, "WALL", 90) + 30)
            if not running:
                break
            for pid in list(running):
                c, out, deadline = running[pid]
                try:
                    r, _ = os.waitpid(pid, os.WNOHANG)
                except ChildProcessError:
                    r = pid
                if r == 0:
                    if time.time() > deadline:
                        kill_group(pid)
                    continue
                kill_group(pid)
                del running[pid]
                res = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
                if len(res) < len(c) and not any(st == "violation" for _, st, _ in res):
                    res.append((c[len(res)], "inapplicable", "the process running the case ended"))
                if os.path.exists(out):
                    os.unlink(out)
                for c, st, msg in res:
                    if st == "inapplicable":
                        inapp += 1
                        if len(inapp_msgs) < 3:
                            inapp_msgs.append(msg[-800:])
                        continue
                    n += 1
                    key = json.dumps(c, sort_keys=True)
                    if key not in seen:
                        seen.add(key)
                        if getattr(mod, "nontrivial", lambda c: True)(c):
                            nontriv += 1
                            if len(samples) < 3:
                                samples.append(c)
                    if st == "violation" and violation is None:
                        violation = dict(case=c, message=msg)
            if violation:
                break
            time.sleep(0.004)
    finally:
        for pid in running:
            kill_group(pid)
        shutil.rmtree(tmp, ignore_errors=True)
    if violation:
        c, m = do_shrink(mod, violation["case"], violation["message"])
        violation = dict(case=c, message=m)
    return dict(module=name, evaluations=n, distinct_nontrivial=nontriv, inapplicable=inapp,
                inapplicable_examples=inapp_msgs, samples=samples, violation=violation, ended=ended,
                wall_s=round(time.time() - t0, 2), rule=getattr(mod, "RULE", ""))


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("name")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    if a.replay:
        d = json.load(open(a.replay))
        mod = importlib.import_module(a.name)
        _init_worker()
        st, msg = run_case(mod, d["case"])
        print(st, msg or "")
        sys.exit(1 if st == "violation" else 0)
    r = explore(a.name, a.tier, a.seed, a.budget, a.jobs)
    s = json.dumps(r, indent=1)
    if a.out:
        open(a.out + ".tmp", "w").write(s)
        os.replace(a.out + ".tmp", a.out)
    else:
        print(s, flush=True)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    sys.modules["core"] = sys.modules["__main__"]
    main()
