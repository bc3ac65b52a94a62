#!/usr/bin/env python3-vt
"""check.py <property> : decide one property on /repo's current working tree.

1. extract the instantiated bodies of the functions under contract from /repo/include (extract/cppvc_extract)
2. generate every proof obligation from those bodies and the contracts in specs/ (cppvc/engine.py)
3. discharge them with z3 / cvc5 (cppvc/solve.py), with vacuity guards
4. run the contracts as run-time assertions on concrete inputs of the real code (rac/<property>.cpp): to replay a failed
   obligation on a concrete input, to validate assumed contracts, and as labelled bounded stand-in
Exit 0: held.  Exit 1 with VIOLATION line: broken."""
import concurrent.futures
import importlib, json, os, pickle, subprocess, sys, tempfile, threading, time, traceback, shutil, fcntl, signal
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG_RES = "/usr/lib/llvm-18/lib/clang/18"
EXTRACTOR = os.path.join(V, "build", "cppvc_extract")


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def ensure_extractor():
    src = os.path.join(V, "extract", "cppvc_extract.cpp")
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    with open(os.path.join(V, "build", "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(EXTRACTOR) and os.path.getmtime(EXTRACTOR) >= os.path.getmtime(src):
            return
        tmp = EXTRACTOR + ".tmp%d" % os.getpid()
        r = sh(["g++", "-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
                "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp, "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1",
                "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-Wl,-rpath,/usr/lib/llvm-18/lib"])
        if r.returncode:
            raise RuntimeError("extractor build failed: " + r.stderr[-2000:])
        os.replace(tmp, EXTRACTOR)


class Rac:
    """build and run the concrete contract check of a property"""

    def __init__(self, prop, tmp, seed, budget):
        self.prop, self.tmp, self.seed, self.budget = prop, tmp, seed, budget
        self.src = os.path.join(V, "rac", prop + ".cpp")
        self.status = "none"       # none / ok / fail / build
        self.msg = ""
        self.cases = self.nontrivial = 0
        self.samples = []
        self.time = 0.0
        self.cmd = ""

    def run(self):
        if not os.path.exists(self.src):
            return
        t = time.time()
        first = open(self.src).readline()
        shards = int(first.split("SHARDS")[1].split()[0]) if "SHARDS" in first else 1
        base = ["g++", "-std=c++20", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
                "-D_GLIBCXX_ASSERTIONS", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(V, "rac")]
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            rs = list(ex.map(lambda i: self.one(base + (["-DSHARD=%d" % i] if shards > 1 else []), i), range(shards)))
        self.cases = sum(r["cases"] for r in rs)
        self.nontrivial = sum(r["nontrivial"] for r in rs)
        self.samples = [x for r in rs for x in r["samples"]][:3]
        order = {"fail": 0, "build": 1, "ok": 2}
        w = min(rs, key=lambda r: order[r["status"]])
        self.status, self.msg, self.cmd = w["status"], w["msg"], w["cmd"]
        self.time = time.time() - t

    def one(self, base, i):
        res = {"status": "ok", "msg": "", "cases": 0, "nontrivial": 0, "samples": [], "cmd": ""}
        exe = os.path.join(self.tmp, "rac_%s_%d" % (self.prop, i))
        r = sh(base + [self.src, "-o", exe], timeout=600)
        if r.returncode:
            res["status"] = "build"
            res["msg"] = "the property's harness does not compile against the current headers:\n" + r.stderr[:4000]
            return res
        cur = os.path.join(self.tmp, "current_%s_%d" % (self.prop, i))
        res["cmd"] = " ".join(base) + " %s -o rac && ./rac %d %g" % (self.src, self.seed, self.budget)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
        try:
            r = sh([exe, str(self.seed), str(self.budget), cur], timeout=self.budget * 4 + 240, env=env)
            out, err, rc = r.stdout, r.stderr, r.returncode
        except subprocess.TimeoutExpired as e:
            out, err, rc = (e.stdout or b"").decode(errors="replace"), "", "timeout"
        for l in out.split("\n"):
            if l.startswith("CASES "):
                res["cases"] = int(l.split()[1])
            elif l.startswith("NONTRIVIAL "):
                res["nontrivial"] = int(l.split()[1])
            elif l.startswith("SAMPLE "):
                res["samples"].append(l[7:])
        fails = [l for l in out.split("\n") if l.startswith("FAIL ")]
        if not (rc == 0 and not fails and "\nOK" in out):
            res["status"] = "fail"
            try:
                case = open(cur, "rb").read().split(b"\0")[0].decode(errors="replace")
            except OSError:
                case = "?"
            res["msg"] = (fails[0] if fails else "abnormal end (exit status %s)" % rc) + "\ncurrent input: " + case + \
                "\n--- stderr ---\n" + err[:6000]
        return res


def known_findings(prop):
    """lines 'finding: property=<id> match=<text found in the failure message> <what fails>'"""
    out = []
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                out.append(l.strip())
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        rc = run(prop, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def fork(f, out):
    """run f() in a child process; its result goes to the file out"""
    pid = os.fork()
    if pid:
        return pid
    rc = 0
    os.setpgid(0, 0)
    try:
        r = f()
        with open(out + ".tmp", "wb") as o:
            pickle.dump(r, o)
        os.replace(out + ".tmp", out)
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def kill_group(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def load(path):
    try:
        with open(path, "rb") as f:
            return pickle.load(f)
    except OSError:
        return None


def extract_all(drivers, tmp):
    """-> {driver: path of the extraction or an error text}"""
    ps = {}
    for d in drivers:
        out = os.path.join(tmp, d + ".json")
        err = open(os.path.join(tmp, d + ".err"), "w+")
        ps[d] = (out, err, subprocess.Popen([EXTRACTOR, out, os.path.join(V, "drivers", d + ".cpp"), "--", "-std=c++20", "-w", "-I" + os.path.join(REPO, "include"),
                                             "-resource-dir", CLANG_RES], stdout=err, stderr=err))
    res = {}
    for d, (out, err, p) in ps.items():
        try:
            rc = p.wait(timeout=300)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = -1
        err.seek(0)
        res[d] = out if rc == 0 and os.path.exists(out) else RuntimeError("extraction of %s failed: %s" % (d, err.read()[-3000:]))
    return res


def run_task(u, prog, inst, wd, thorough, threads, hurry, nfail):
    """generate and discharge the obligations of a unit (of one lemma function of it, if inst is given)"""
    from cppvc.solve import Discharger
    res = {"unit": u.name, "failures": [], "undecided": None, "rep": {}}
    try:
        r = u.run(prog) if inst is None else u.run(prog, [inst])
        if r.error:
            raise RuntimeError(r.error)
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        res["undecided"] = str(e)
        return res
    os.makedirs(wd)
    d = Discharger(wd, threads=threads, scale=3.0 if thorough else 1.0, fail_limit=max(1, 6 - nfail.value), hurry=hurry, inproc=inst is not None)
    nq = d.prove_all(r.ex.obls)
    bad = d.reachable(r.ex.canaries)
    bad = [b for b in bad if b in (u.opts.get("must_reach") or ["precondition", "return"]) or b == "precondition"]
    ok = sum(1 for o in r.ex.obls if o.status)
    res["rep"] = dict(paths=r.paths, obligations=len(r.ex.obls), discharged=ok, trivially_true=r.ex.trivial, queries=nq, solver_s=round(d.time, 2),
                      vcgen_s=round(r.time, 2), backends=d.stats, loops=["%s @%s (%s)" % (k[0], k[1], v) for k, v in r.ex.loops_seen.items()],
                      expanded_in_place=sorted(r.ex.inlined), contracts_used=sorted(r.h.used), vacuous=bad)
    res["used"] = dict(r.h.used)
    res["skipped"] = list(getattr(r, "skipped", []))
    F = res["failures"]
    for o in r.ex.obls:
        if not o.status:
            F.append({"name": o.name, "kind": o.kind, "loc": o.loc, "detail": o.detail[:2]})
    if not r.ex.obls and not res["skipped"] and inst is None:
        F.append("no obligations were generated")
    if r.returned == 0 and u.throws is None and not res["skipped"]:
        F.append("no path of the function returns: contract is vacuous")
    for b in bad:
        F.append("vacuity guard: '%s' is unreachable under the contract" % b)
    with nfail.get_lock():
        nfail.value += len(F)
    return res


def run(prop, tier, seed, tmp, t0):
    thorough = tier == "thorough"
    from specs.registry import units_of
    from cppvc.unit import Lemma
    units = units_of(prop)
    rac = Rac(prop, tmp, seed, 120.0 if thorough else 12.0)
    racout = os.path.join(tmp, "rac.result")
    racflag = os.path.join(tmp, "rac.failed")

    def go_rac():
        rac.run()
        if rac.status == "fail":
            open(racflag, "w").close()
        return rac.__dict__
    racpid = fork(go_rac, racout)
    units_report, failures, undecided = [], [], []
    total = discharged = trivial = 0
    solver_time = 0.0
    backends = {}
    contracts, fuc = {}, set()
    err = None
    try:
        if units:
            ensure_extractor()
    except Exception as e:
        err = "extractor: %s" % e
    results = {}
    if units and not err:
        import gc
        from cppvc.engine import Program
        import multiprocessing
        nfail = multiprocessing.Value("i", 0)
        soft, hard = (1800, 3 * 3600) if thorough else (450, 780)
        hurry = lambda: os.path.exists(racflag) or nfail.value >= 6 or time.time() - t0 > soft
        progs = extract_all(sorted({u.driver for u in units}), tmp)
        for d in progs:
            if isinstance(progs[d], str):
                try:
                    progs[d] = Program(progs[d])
                except Exception as e:
                    progs[d] = e
        gc.freeze()
        tasks = []          # (unit, lemma function or None)
        for u in units:
            p = progs[u.driver]
            if isinstance(p, Exception):
                results[u.name] = [{"undecided": str(p), "failures": []}]
            elif isinstance(u, Lemma):
                fs = u.functions(p)
                results[u.name] = [] if fs else [{"undecided": "no lemma function %s" % u.prefix, "failures": []}]
                tasks += [(u, f["id"]) for f in fs]
            else:
                results[u.name] = []
                tasks.append((u, None))
        # a few contract units at a time (solver runs are limited to eight at a time overall); lemma functions eight at a time
        single = [t for t in tasks if t[1] is None]
        many = [t for t in tasks if t[1] is not None]
        live = {}
        n = 0
        while single or many or live:
            queue = single if single else many
            while queue and len(live) < (3 if single else 8):
                if queue is many and any(t[1] is None for t, _ in live.values()):
                    break
                t = queue.pop(0)
                n += 1
                if time.time() - t0 > hard - 60 or nfail.value >= 40:
                    results[t[0].name].append({"undecided": "not run (time)" if nfail.value < 40 else "not run (enough failures)", "failures": []})
                    continue
                out = os.path.join(tmp, "task%d" % n)
                pid = fork(lambda: run_task(t[0], progs[t[0].driver], t[1], out + ".d", thorough, 8 if t[1] is None else 1, hurry, nfail), out)
                live[pid] = (t, out)
            if not live:
                continue
            pid = 0
            for q in list(live):
                if os.waitpid(q, os.WNOHANG)[0]:
                    pid = q
                    break
            if pid:
                t, out = live.pop(pid)
                results[t[0].name].append(load(out) or {"undecided": "the verification process ended without a result", "failures": []})
                shutil.rmtree(out + ".d", ignore_errors=True)
            elif time.time() - t0 > hard:
                for q in live:
                    kill_group(q)
                hard = 1e18
            else:
                time.sleep(0.02)
        for u in units:
            lemma = isinstance(u, Lemma)
            rep = {"unit": u.name, "function": u.fn, "driver": u.driver}
            units_report.append(rep)
            rs = results[u.name]
            skipped = []
            for r in rs:
                if r["undecided"] is not None:
                    skipped.append((u.name, r["undecided"]))
                    continue
                for k, x in r["rep"].items():
                    if isinstance(x, (int, float)):
                        rep[k] = round(rep.get(k, 0) + x, 2)
                    elif isinstance(x, dict):
                        q = rep.setdefault(k, {})
                        for kk in x:
                            q[kk] = q.get(kk, 0) + x[kk]
                    else:
                        rep[k] = sorted(set(rep.get(k, [])) | set(x))
                skipped += r["skipped"]
                for k in r["used"]:
                    contracts[k] = contracts.get(k, 0) + r["used"][k]
                failures += [(u, o) for o in r["failures"]]
            decided = [r for r in rs if r["undecided"] is None and not (lemma and r["skipped"])]
            if lemma and decided and not rep.get("obligations"):
                failures.append((u, "no obligations were generated"))
            if lemma:
                rep["lemma_functions"] = len(rs)
                rep["lemma_functions_outside_reach"] = ["%s: %s" % (q[:200], m[:200]) for q, m in skipped]
                fuc |= {q for q in rep.get("expanded_in_place", []) if q.startswith("graph::")}
                if decided:
                    for q, m in skipped[:3]:
                        print("NOTE property=%s unit=%s: %s is outside the verifier's reach on this tree (%s)" % (prop, u.name, q[:120], m[:200]))
            elif decided:
                fuc.add(u.fn)
            if not decided and not any(r["failures"] for r in rs):
                m = skipped[0][1] if skipped else "?"
                rep["undecided"] = m[:500]
                undecided.append((u, m))
                print("NOTE property=%s unit=%s outside the verifier's reach on this tree (%s): only the bounded run-time check covers it" % (prop, u.name, m[:300]))
            rep["assumptions"] = u.assumptions if hasattr(u, "assumptions") else []
            total += rep.get("obligations", 0)
            discharged += rep.get("discharged", 0)
            trivial += rep.get("trivially_true", 0)
            solver_time += rep.get("solver_s", 0)
            for k, x in rep.get("backends", {}).items():
                backends[k] = backends.get(k, 0) + x
    os.waitpid(racpid, 0)
    d = load(racout)
    if d is None:
        rac.status, rac.msg = "build", "the run-time check ended without a result"
    else:
        rac.__dict__.update(d)
    # ------------------------------------------------------------ verdict
    violation = None
    known = known_findings(prop)
    rdir = os.path.join(V, "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join("replay", prop + ".txt")
    lines = []
    if failures:
        lines.append("Proof obligations that the verifier does not accept on the current tree:")
        for u, o in failures[:60]:
            if isinstance(o, str):
                lines.append("* unit %s: %s" % (u.name, o))
            else:
                lines.append("* unit %s (%s): obligation '%s' [%s] at %s" % (u.name, u.fn, o["name"], o["kind"], o["loc"]))
                for dd in o["detail"]:
                    lines.append("    goal: " + dd["goal"].replace("\n", " ")[:500])
                    for s in dd["solvers"]:
                        lines.append("    " + s)
    concrete = rac.status == "fail"
    if concrete:
        for k in known:
            m = k.split("match=", 1)[1].split(" ", 1)[0] if "match=" in k else None
            if m and m.replace("_", " ") in rac.msg.replace("_", " "):
                print("KNOWN-FINDING: property=%s %s" % (prop, k))
                concrete = False
    if concrete:
        lines.insert(0, "Concrete failing input on the real code (run-time check of the contract):\n" + rac.msg + "\nreproduce: " + rac.cmd + "\n")
        violation = ""
    elif failures:
        lines.append("\nThe run-time check of the contract found no failing input (%d cases)." % rac.cases)
        violation = " no-failing-input-found"
    elif rac.status == "build":
        lines.insert(0, rac.msg)
        violation = " no-failing-input-found"
    elif err and rac.status != "ok":
        lines.insert(0, err)
        violation = " no-failing-input-found"
    from specs.registry import INFO
    info = INFO.get(prop, {})
    level = info.get("level", "proof")
    cov = {"obligations": total, "discharged": discharged, "checker_cmd": "python3-vt check.py %s" % prop,
           "trusted_base": info.get("trusted", []) + ["clang 18 AST of the instantiated templates (extract/cppvc_extract)", "cppvc verification condition generator",
                                                       "z3 5.3.2 / cvc5 1.1.2"],
           "functions_under_contract": sorted(fuc),
           "units": units_report, "trivially_true_obligations": trivial, "backends": backends, "solver_time_s": round(solver_time, 2),
           "contracts_assumed_or_proved_elsewhere": sorted(contracts),
           "bounded_run_time_check": {"status": rac.status, "cases": rac.cases, "distinct_nontrivial": rac.nontrivial, "samples": rac.samples,
                                      "wall_s": round(rac.time, 1), "role": info.get("rac_role", "validation of assumed contracts and replay of failed obligations; not counted as proof")},
           "evaluations": rac.cases, "distinct_nontrivial": rac.nontrivial, "samples": rac.samples,
           "rule": "small graphs enumerated, shapes and random graphs drawn from VERIF_SEED; non-trivial: at least one edge / operation, counted once per distinct input",
           "undecided_units": [u.name + ": " + m[:300] for u, m in undecided]}
    if level != "proof":
        cov["explanation"] = info.get("explanation", "")
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": info.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 0 if violation is None else 1}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("property %s: %d obligations, %d discharged, %d units (%d undecided), run-time check %s (%d cases), %.0f s" % (
        prop, total, discharged, len(units), len(undecided), rac.status, rac.cases, time.time() - t0))
    if violation is not None:
        with open(os.path.join(V, rpath), "w") as f:
            f.write("\n".join(lines) + "\n")
        for l in lines[:12]:
            print(l[:600])
        print("VIOLATION property=%s replay=%s%s" % (prop, rpath, violation))
        return 1
    return 0


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
