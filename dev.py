"""developer entry: python3-vt dev.py <prop> [unit]"""
import sys, time, importlib, subprocess, os
from cppvc.engine import *
from cppvc.solve import Discharger
import specs.common as C
V = "/verif"

def program(driver, cache={}):
    if driver not in cache:
        out = "/tmp/%s.json" % driver
        src = V + "/drivers/%s.cpp" % driver
        subprocess.check_call([V + "/build/cppvc_extract", out, src, "--", "-std=c++20", "-w", "-I" + os.environ.get("INC", "/repo/include"), "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"])
        cache[driver] = Program(out)
    return cache[driver]

def main():
    mod = sys.argv[1]
    importlib.import_module("specs." + mod)
    only = os.environ.get("PROP")
    for prop, us in C.REG.items():
        if only and prop != only: continue
        for u in us:
            if len(sys.argv) > 2 and sys.argv[2] != u.name:
                continue
            p = program(u.driver)
            r = u.run(p)
            print("== %s: paths %d returned %d obligations %d trivial %d vc time %.1fs error %s" % (u.name, r.paths, r.returned, len(r.ex.obls), r.ex.trivial, r.time, r.error))
            for f, m in getattr(r, "skipped", []): print("   SKIPPED", f[:300], ":", m[:300])
            for k, v in r.ex.loops_seen.items(): print("   loop", k, v)
            d = Discharger("/tmp/vc_" + u.name, scale=float(os.environ.get("SCALE", "1"))) if not os.makedirs("/tmp/vc_" + u.name, exist_ok=True) else None
            t = time.time()
            n = d.prove_all(r.ex.obls, log=print)
            print("   queries %d wall %.1fs stats %s failed %d" % (n, time.time() - t, d.stats, sum(1 for o in r.ex.obls if not o.status)))
            print("   vacuous:", d.reachable(r.ex.canaries))
main()
