"""Runner: drives the generated-input checks of one property, in parallel shards.

Every check is a pair (strategy, fn).  The strategy (Hypothesis) draws a *case*, a JSON-able dict that holds every
choice, seeds included; fn(case) runs the real code against its oracle and either returns a dict
{"nontrivial": bool, "labels": [...]} or raises.  Hence a replay file is just {property, check, case}.

Exit codes: 0 held on everything explored, 1 with a VIOLATION line, 2 error of the harness.
"""
import hashlib, importlib, json, os, signal, sys, time, traceback, multiprocessing, tempfile, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import hypothesis
except ImportError:
    sys.path.append(_HYP)      # at the end: torch and numpy stay those of /opt/venv
    import hypothesis
from hypothesis import settings, Phase, HealthCheck, given, seed as hyp_seed

NSHARD = 8
QUICK = 2                        # times the numbers of cases in the tables of checks
SHRINK_S = 25.0
CPU_S, WALL_S = 120.0, 360.0     # cases take milliseconds, the longest some seconds; one that is not done by then does not end


class Violation(Exception):
    """The code under test disagrees with the oracle."""


class HarnessError(Exception):
    """The machinery itself is wrong; never reported as a violation."""


def fail(msg):
    raise Violation(msg)


class Check:
    def __init__(self, name, strategy, fn, quick, thorough=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick * QUICK, thorough or quick * 12


class Prop:
    """One property: its checks, and fixed probes of recorded (known) findings."""
    def __init__(self, pid, rule, checks, assumptions=(), probes=()):
        self.pid, self.rule, self.checks = pid, rule, checks
        self.assumptions, self.probes = list(assumptions), list(probes)


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def load(pid):
    return importlib.import_module("harness.props." + pid.lower()).PROP


def setup_torch():
    import torch, warnings, numpy
    warnings.filterwarnings("ignore")
    torch.set_num_threads(1)
    # never read or write a compiled file of the code under test
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/verif"
    import UnarySim.stream, UnarySim.kernel, UnarySim.metric
    if os.path.realpath(UnarySim.kernel.__file__) != "/repo/kernel/__init__.py":
        raise HarnessError("UnarySim is not imported from /repo")


def run_case(check, case):
    """Run one case; anything the code under test or the comparison raises is a violation of that case."""
    import torch, numpy
    s = int(case.get("gseed", 0)) if isinstance(case, dict) else 0
    torch.manual_seed(s)
    numpy.random.seed(s % (2 ** 32))
    torch.set_grad_enabled(True)
    torch.set_default_dtype(torch.float32)
    def no_answer(*_):
        raise Violation("no answer within %d s of computing" % CPU_S)
    timers = ((signal.SIGALRM, signal.ITIMER_REAL, WALL_S), (signal.SIGPROF, signal.ITIMER_PROF, CPU_S))
    old = [signal.signal(sig, no_answer) for sig, _, _ in timers]
    for _, timer, s in timers:
        signal.setitimer(timer, s)
    try:
        out = check.fn(case)
    except (Violation, HarnessError):
        raise
    except hypothesis.errors.HypothesisException:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        tb = traceback.format_exc(limit=-6)
        raise Violation("exception on a valid input: %s: %s\n%s" % (type(e).__name__, e, tb)) from e
    finally:
        for (sig, timer, _), was in zip(timers, old):
            signal.setitimer(timer, 0)
            signal.signal(sig, was)
    return out or {"nontrivial": True, "labels": []}


def make_body(chk, st, res, keys, t0, budget):
    def body(case):
        k = None
        if st["t_fail"] is not None:
            k = case_key(case)
            if k in st["failing"]:
                raise st["failing"][k]
            if time.time() - st["t_fail"] > SHRINK_S:
                return
        elif time.time() - t0 > budget:
            if chk.name not in res["truncated"]:
                res["truncated"].append(chk.name)
            return
        try:
            info = run_case(chk, case)
        except Violation as v:
            if st["t_fail"] is None:
                st["t_fail"] = time.time()
            v = Violation(str(v))
            st["failing"][k or case_key(case)] = v
            st["last"] = (case, str(v))
            raise v
        if st["t_fail"] is None:
            st["n"] += 1
            res["evals"] += 1
            for l in info.get("labels", ()):
                l = chk.name + ":" + l
                res["labels"][l] = res["labels"].get(l, 0) + 1
            if info.get("nontrivial", True):
                k = chk.name + case_key(case)
                if k not in keys:
                    keys.add(k)
                    st["nt"] += 1
                    if st["nt"] <= 1:
                        res["samples"].append({"check": chk.name, "case": case})
    return body


def worker(pid, shard, nshard, vseed, tier, outp, budget):
    prop = load(pid)
    t0 = time.time()
    res = {"evals": 0, "keys": [], "labels": {}, "samples": [], "fail": None, "per_check": {}, "truncated": [], "error": None}
    keys = set()
    for chk in prop.checks:
        total = chk.quick if tier == "quick" else chk.thorough
        n = total // nshard + (1 if shard < total % nshard else 0)
        if n == 0:
            continue
        sd = int(hashlib.sha256(("%s|%s|%s|%d" % (vseed, pid, chk.name, shard)).encode()).hexdigest()[:12], 16)
        st = {"failing": {}, "last": None, "t_fail": None, "n": 0, "nt": 0}

        body = make_body(chk, st, res, keys, t0, budget)

        test = settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate, Phase.shrink],
                        suppress_health_check=list(HealthCheck), print_blob=False, report_multiple_bugs=False)(
            hyp_seed(sd)(given(chk.strategy)(body)))
        try:
            test()
        except Violation:
            pass
        except BaseException as e:
            if st["last"] is None:
                res["error"] = "check %s: %s" % (chk.name, traceback.format_exc())
                break
        res["per_check"][chk.name] = [st["n"], st["nt"]]
        if st["last"] is not None:
            res["fail"] = {"check": chk.name, "case": st["last"][0], "message": st["last"][1]}
            break
    res["keys"] = len(keys)
    res["keyset"] = sorted(keys)
    with open(outp + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(outp + ".tmp", outp)


def known_findings(pid):
    """Lines 'finding: property=<id> probe=<name> <what fails>' of known_findings.txt."""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2].strip()
                name, what = rest.split(" ", 1)
                out[name.split("=", 1)[1]] = what
    return out


def write_replay(pid, fl):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s_%s_%s.json" % (pid, fl["check"], case_key(fl["case"])))
    with open(p, "w") as f:
        json.dump({"property": pid, "check": fl["check"], "case": fl["case"], "message": fl["message"],
                   "replay_cmd": "bash /verif/run.sh %s --replay %s" % (pid, p)}, f, indent=1)
    return p


def replay(pid, path):
    setup_torch()
    prop = load(pid)
    d = json.load(open(path))
    for chk in prop.checks:
        if chk.name == d["check"]:
            try:
                run_case(chk, d["case"])
            except Violation as v:
                print("reproduced: %s" % v)
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
            print("not reproduced")
            return 0
    for name, fn in prop.probes:
        if name == d["check"]:
            try:
                run_case(Check(name, None, lambda c: fn(), 1), {})
            except Violation as v:
                print("reproduced: %s" % v)
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
            print("not reproduced")
            return 0
    print("no such check"); return 2


def _child(logp, *a):
    fd = os.open(logp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1); os.dup2(fd, 2)
    try:
        worker(*a)
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(3)
    os._exit(0)


def main(argv):
    pid = argv[0]
    if len(argv) > 2 and argv[1] == "--replay":
        return replay(pid, argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    vseed = os.environ.get("VERIF_SEED", "1")
    budget = 420.0 if tier == "quick" else 3 * 3600.0
    t0 = time.time()
    setup_torch()
    prop = load(pid)
    # probes of the recorded findings
    rc = 0
    nprobe = 0
    known = known_findings(pid)
    first_fail = None
    probe_notes = []
    for name, fn in prop.probes:
        nprobe += 1
        try:
            run_case(Check(name, None, lambda c, fn=fn: fn(), 1), {})
        except Violation as v:
            if name in known:
                line = "KNOWN-FINDING: property=%s %s" % (pid, known[name])
                print(line); probe_notes.append(line)
            elif first_fail is None:
                first_fail = {"check": name, "case": {}, "message": str(v)}
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    procs = []
    try:
        for s in range(NSHARD):
            outp = os.path.join(tmp, "r%d.json" % s)
            logp = os.path.join(tmp, "log%d" % s)
            p = multiprocessing.get_context("fork").Process(target=_child, args=(logp, pid, s, NSHARD, vseed, tier, outp, budget))
            p.start()
            procs.append((p, outp, logp))
        pending = set(range(NSHARD))
        results = {}
        fail_t = None
        while pending:
            for s in list(pending):
                p, outp, logp = procs[s]
                if not p.is_alive():
                    pending.discard(s)
                    if os.path.exists(outp):
                        results[s] = json.load(open(outp))
                        if results[s]["fail"] and fail_t is None:
                            fail_t = time.time()
                    else:
                        results[s] = {"error": "shard %d ended with %s: %s" % (s, p.exitcode, open(logp).read()[-3000:])}
            if fail_t is not None and time.time() - fail_t > 10:
                for s in list(pending):
                    procs[s][0].kill(); procs[s][0].join()
                pending.clear()
            time.sleep(0.05)
    finally:
        for p, _, _ in procs:
            if p.is_alive():
                p.kill()
            p.join()
        shutil.rmtree(tmp, ignore_errors=True)
    ev, keys, labels, samples, trunc, per = nprobe, set(), {}, [], set(), {}
    errors = []
    fails = []
    for s in sorted(results):
        r = results[s]
        if r.get("error"):
            errors.append(r["error"])
        if "evals" not in r:
            continue
        ev += r["evals"]
        keys.update(r["keyset"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["per_check"].items():
            a = per.setdefault(k, [0, 0]); a[0] += v[0]; a[1] += v[1]
        samples += r["samples"] if s < 2 else []
        trunc.update(r["truncated"])
        if r["fail"]:
            fails.append(r["fail"])
    if first_fail:
        fails.insert(0, first_fail)
    fails.sort(key=lambda f: len(json.dumps(f["case"])))
    evid = {
        "property": pid, "tier": tier, "seed": int(vseed) if vseed.lstrip("-").isdigit() else 0, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(keys), "rule": prop.rule,
            "samples": [json.loads(json.dumps(x)) for x in samples[:12]],
            "per_check_evaluations_nontrivial": per, "labels": dict(sorted(labels.items())),
            "checks_cut_by_time_budget": sorted(trunc), "known_findings_seen": probe_notes,
        },
        "assumptions": prop.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(fails),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    if fails:
        fl = fails[0]
        p = write_replay(pid, fl)
        print("check %s: %s" % (fl["check"], fl["message"][:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if errors:
        print("HARNESS ERROR: " + errors[0], file=sys.stderr)
        return 2
    print("%s ok: %d cases, %d distinct non-trivial, %.1f s%s" % (pid, ev, len(keys), time.time() - t0,
          (", cut by time budget: " + ",".join(sorted(trunc))) if trunc else ""))
    return 0
