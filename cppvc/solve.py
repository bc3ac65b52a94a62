"""Discharging of proof obligations: each is written as an SMT-LIB file (path assumptions and the negated goal) and
given to a portfolio of solver runs with hard time limits.  unsat = discharged."""
import multiprocessing, os, pickle, subprocess, sys, threading, time, tempfile, traceback, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor
import z3
from .engine import simp, has_quant

Z3 = shutil.which("z3-new") or "z3"
CVC5 = shutil.which("cvc5")

EM = ["smt.mbqi=false", "auto_config=false"]
STAGES = [
    ("z3 E-matching", [Z3, "-T:%d"] + EM + ["smt.random_seed=0"], 2),
    ("z3 E-matching, nearest assumptions", [Z3, "-T:%d"] + EM + ["smt.random_seed=0"], 4),
    ("cvc5", [CVC5, "--tlimit=%d000", "--full-saturate-quant"], 2),
    ("z3 default", [Z3, "-T:%d"], 3),
    ("z3 E-matching", [Z3, "-T:%d"] + EM + ["smt.random_seed=0"], 8),
    ("z3 E-matching case split 3", [Z3, "-T:%d"] + EM + ["smt.random_seed=7", "smt.case_split=3"], 15),
    ("cvc5", [CVC5, "--tlimit=%d000", "--full-saturate-quant"], 15),
    ("z3 E-matching relevancy 0", [Z3, "-T:%d"] + EM + ["smt.random_seed=3", "smt.relevancy=0"], 25),
    ("z3 E-matching long", [Z3, "-T:%d"] + EM + ["smt.random_seed=11"], 60),
]


def split_goal(g):
    """conjunctions are proved conjunct by conjunct; universally quantified goals and implications are introduced"""
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += split_goal(c)
        return out
    if z3.is_implies(g):
        return [(h + [g.arg(0)], q) for h, q in split_goal(g.arg(1))]
    if z3.is_quantifier(g) and g.is_forall():
        n = g.num_vars()
        vs = [z3.FreshConst(g.var_sort(i), "sk_" + g.var_name(i)) for i in range(n)]
        # keep the goal's trigger terms present in every conjunct ("touch" is an otherwise unconstrained predicate)
        hints = []
        for i in range(g.num_patterns()):
            for c in g.pattern(i).children():
                t = z3.substitute_vars(c, *reversed(vs))
                hints.append(z3.Function("touch_" + "".join(ch if ch.isalnum() else "_" for ch in str(t.sort())), t.sort(), z3.BoolSort())(t))
        return [(hints + h, q) for h, q in split_goal(z3.substitute_vars(g.body(), *reversed(vs)))]
    return [([], g)]


def smt2(pc, hyps, goal):
    s = z3.Solver()
    s.add(*pc)
    s.add(*hyps)
    s.add(z3.Not(goal))
    return "(set-logic ALL)\n" + s.to_smt2()


_SYMS = {}


def consts_of(f):
    """names of the array-valued constants and the definitions (const == term) in a formula"""
    k = f.get_id()
    if k in _SYMS:
        return _SYMS[k][1]
    out, seen, todo = set(), set(), [f]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and z3.is_array(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            elif x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("place"):
                out.add(x.decl().name())
            todo += x.children()
    _SYMS[k] = (f, out)
    return out


def pruned(pc, hyps, goal):
    """the assumptions without those quantified ones that speak about arrays (of earlier states) the goal does not depend on; None: all are needed.
    (Dropping assumptions is sound: it can only make a proof harder.)"""
    q = [has_quant(f) for f in pc]
    if sum(q) < 40:
        return None
    need = set(consts_of(goal))
    for h in hyps:
        need |= consts_of(h)
    defs = {}
    for f, isq in zip(pc, q):
        if not isq and z3.is_eq(f) and z3.is_const(f.arg(0)) and z3.is_array(f.arg(0)):
            defs[f.arg(0).decl().name()] = consts_of(f.arg(1))
    todo = list(need)
    while todo:
        for y in defs.get(todo.pop(), ()):
            if y not in need:
                need.add(y)
                todo.append(y)
    r = [f for f, isq in zip(pc, q) if not isq or consts_of(f) & need or not consts_of(f)]
    return r if len(r) < len(pc) * 0.8 else None


def run_cli(cmd, limit):
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=limit + 5)
        out = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "error: " + p.stderr[:200]
    except subprocess.TimeoutExpired:
        out = "timeout"
    return out, time.time() - t


RACES = multiprocessing.Semaphore(2)       # shared by every process of a check
SLOTS = multiprocessing.Semaphore(8)       # solver runs at the same time


def race(cmds):
    """run the commands [(name, argv, limit)] at the same time until one answers unsat -> [(name, answer, seconds)]"""
    t = time.time()
    ps = [(n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True), lim) for n, c, lim in cmds]
    out = []
    live = list(ps)
    try:
        while live:
            time.sleep(0.05)
            for x in list(live):
                n, p, lim = x
                if p.poll() is not None:
                    o = p.stdout.read().strip().split("\n")[0]
                    out.append((n, o, time.time() - t))
                    live.remove(x)
                    if o == "unsat":
                        return out
                elif time.time() - t > lim + 5:
                    p.kill()
                    out.append((n, "timeout", time.time() - t))
                    live.remove(x)
    finally:
        for n, p, lim in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
            p.stdout.close()
    return out


class Discharger:
    def __init__(self, workdir=None, threads=8, scale=1.0, fail_limit=6, hurry=None, inproc=False):
        self.inproc = inproc                       # first try the z3 library in this process
        self.hurry = hurry or (lambda: False)      # once true, only the first solver stage is tried
        self.dir = workdir or tempfile.mkdtemp(prefix="cppvc")
        self.threads, self.scale, self.fail_limit = threads, scale, fail_limit
        self.stats = {}
        self.time = 0.0
        self._failed = multiprocessing.Value("i", 0)
        self.lock = threading.Lock()
        self.zlock = threading.Lock()

    @property
    def failed(self):
        return self._failed.value

    def query(self, path, quick=False, nearest=None):
        st = STAGES[:1] if quick else STAGES
        first = True
        last = []
        for k, (name, cmd, lim) in enumerate(st):
            if cmd[0] is None:
                continue
            pr = "nearest" in name
            if pr and not (nearest and nearest()):
                continue
            if k == 4 and self.failed < self.fail_limit and not self.hurry() and RACES.acquire(False):
                try:
                    cs = []
                    for n, c, l in st[4:]:
                        if c[0] is not None:
                            l = max(1, int(l * self.scale))
                            cs.append((n, [(x % l) if "%d" in x else x for x in c] + [path], l))
                    rs = race(cs)
                finally:
                    RACES.release()
                for n, r, dt in rs:
                    with self.lock:
                        self.time += dt
                        if r == "unsat":
                            self.stats[n] = self.stats.get(n, 0) + 1
                    last.append("%s: %s (%.1fs)" % (n, r, dt))
                    if r == "unsat":
                        return True, n, last
                break
            if not first and (self.failed >= self.fail_limit or self.hurry()):
                break
            first = False
            lim = max(1, int(lim * self.scale))
            c = [(x % lim) if "%d" in x else x for x in cmd] + [path + ".pruned" if pr else path]
            with SLOTS:
                r, dt = run_cli(c, lim)
            with self.lock:
                self.time += dt
            last.append("%s: %s (%.1fs)" % (name, r, dt))
            if r == "unsat":
                with self.lock:
                    self.stats[name] = self.stats.get(name, 0) + 1
                return True, name, last
            if r.startswith("error") or r.startswith("(error"):
                last.append(r)
        with self._failed.get_lock():
            self._failed.value += 1
        return False, None, last

    def library(self, pc, hyps, goal):
        t = time.time()
        s = z3.Solver()
        s.set("timeout", 500)
        s.set("mbqi", False)
        s.set("auto_config", False)
        s.add(*pc)
        s.add(*hyps)
        s.add(z3.Not(goal))
        ok = s.check() == z3.unsat
        self.time += time.time() - t
        if ok:
            self.stats["z3 library E-matching"] = self.stats.get("z3 library E-matching", 0) + 1
        return ok

    def prove_all(self, obls, log=None):
        jobs = []
        for n, o in enumerate(obls):
            subs = split_goal(o.goal)
            o.status = True
            o.detail = []
            subs = [(m, h, g) for m, (h, g) in enumerate(subs) if not z3.is_true(simp(g))]
            if not subs:
                self.stats["z3 rewriter"] = self.stats.get("z3 rewriter", 0) + 1
            jobs += [(n, m, h, g) for m, h, g in subs]
        # worker processes take the next job each
        count = multiprocessing.Value("i", 0)
        nw = min(self.threads, max(1, len(jobs)))
        outs = []
        if nw == 1:
            res = self.worker(obls, jobs, count, log)
            self.merge(obls, jobs, [res])
            return len(jobs)
        pids = []
        sys.stdout.flush()
        for w in range(nw):
            out = os.path.join(self.dir, "worker%d" % w)
            outs.append(out)
            pid = os.fork()
            if pid:
                pids.append(pid)
                continue
            rc = 0
            try:
                self.stats, self.time = {}, 0.0
                r = self.worker(obls, jobs, count, log)
                with open(out, "wb") as f:
                    pickle.dump(r, f)
            except BaseException:
                traceback.print_exc()
                rc = 3
            sys.stdout.flush()
            os._exit(rc)
        for pid in pids:
            os.waitpid(pid, 0)
        rs = []
        for out in outs:
            try:
                with open(out, "rb") as f:
                    rs.append(pickle.load(f))
                os.unlink(out)
            except (OSError, EOFError):
                pass
        self.merge(obls, jobs, rs)
        return len(jobs)

    def merge(self, obls, jobs, rs):
        done = set()
        for res, stats, t in rs:
            if stats is not self.stats:
                self.time += t
                for k, x in stats.items():
                    self.stats[k] = self.stats.get(k, 0) + x
            for i, ok, detail in res:
                done.add(i)
                if not ok:
                    o = obls[jobs[i][0]]
                    o.status = False
                    o.detail.append(detail)
        for i in range(len(jobs)):
            if i not in done:
                o = obls[jobs[i][0]]
                o.status = False
                o.detail.append({"goal": str(simp(jobs[i][3]))[:600], "smt2": "", "solvers": ["the worker process ended without a result"]})

    def worker(self, obls, jobs, count, log):
        out = []
        while True:
            with count.get_lock():
                i = count.value
                count.value += 1
            if i >= len(jobs):
                return out, self.stats, self.time
            n, m, hyps, goal = jobs[i]
            o = obls[n]
            if self.inproc and self.library(o.pc, hyps, goal):
                out.append((i, True, None))
                continue
            p = os.path.join(self.dir, "o%d_%d.smt2" % (n, m))
            with SLOTS:
                with open(p, "w") as f:
                    f.write(smt2(o.pc, hyps, goal))

            def nearest():
                r = pruned(o.pc, hyps, goal)
                if r is None:
                    return False
                with open(p + ".pruned", "w") as f:
                    f.write(smt2(r, hyps, goal))
                return True
            ok, by, last = self.query(p, nearest=nearest)
            if not ok:
                out.append((i, False, {"goal": str(simp(goal))[:600], "smt2": p, "solvers": last}))
                if log:
                    log("FAILED %s @ %s : %s" % (o.name, o.loc, str(goal)[:300].replace("\n", " ")))
                continue
            out.append((i, True, None))
            if log and len(last) > 1 and os.environ.get("SLOW"):
                log("SLOW %s @ %s : %s : %s" % (o.name, o.loc, last, str(goal)[:200].replace("\n", " ")))
                if os.environ.get("SLOW") == "keep":
                    continue
            os.unlink(p)
            if os.path.exists(p + ".pruned"):
                os.unlink(p + ".pruned")

    def reachable(self, canaries):
        """vacuity guard: the assumptions at a canary point must not be refutable.  Returns the refuted ones."""
        bad = []
        jobs = []
        seen = {}
        for n, (name, pc) in enumerate(canaries):
            p = os.path.join(self.dir, "c%d.smt2" % n)
            with open(p, "w") as f:
                s = z3.Solver()
                s.add(*pc)
                f.write(s.to_smt2())
            jobs.append((name, p))

        def work(j):
            name, p = j
            with SLOTS:
                r, dt = run_cli([Z3, "-T:%d" % 3, "smt.mbqi=false", "auto_config=false", p], 3)
            with self.lock:
                seen.setdefault(name, []).append(r)
            os.unlink(p)
        with ThreadPoolExecutor(self.threads) as ex:
            list(ex.map(work, jobs))
        for name, rs in seen.items():
            if all(r == "unsat" for r in rs):
                bad.append(name)
        return bad
