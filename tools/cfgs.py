"""C19: compile and run the configurations of gen_cfg.py"""
import threading
import gen_cfg as g
from rustc import *
import sigs

WORK = os.path.join(TARGET, "cfgs")
FLAGS = ["--cfg", "vp_on", "-Aunexpected_cfgs"]

def run_cases(res, rc, args, cs, nsh, lock, tag):
    shards = [cs[i::nsh] for i in range(nsh)]
    def one(i):
        work = list(shards[i])
        base = os.path.join(WORK, "%s%d" % (tag, i))
        for attempt in range(int(os.environ.get("CFG_ROUNDS", "6"))):
            if (len(res.violations) >= 20 or attempt > 1 and res.violations) and "CFG_ROUNDS" not in os.environ:
                res.exhaustive = False
                return
            src = Source(base + ".rs")
            src.text("#![allow(warnings)]\nuse mockall::*;\nuse sigp::*;")
            for k, c in enumerate(work):
                if c.kind == "whole":
                    t = "pub fn t%d() { let _ = %s; ck(true, \"\"); }" % (k, c.mockty)
                    probes = ""
                else: probes, t = g.driver(c, k)
                src.case(c.key, "#[allow(warnings)] pub mod m%d { use mockall::*; use sigp::*; pub struct Absent;\n%s\n%s\n%s\n%s\n}" % (k, c.before, c.mock, probes, t))
            ch = [range(j, min(j + 100, len(work))) for j in range(0, len(work), 100)]
            for j, x in enumerate(ch): src.text("fn run%d() {\n%s\n}" % (j, "\n".join("case(%s, m%d::t%d);" % (json.dumps(work[k].key), k, k) for k in x)))
            src.text("fn main() { start(); %s done(%d); }" % (" ".join("run%d();" % j for j in range(len(ch))), len(work)))
            src.write()
            r, ds, err = rc.compile(src.path, base, args + FLAGS, timeout=840)
            if r == 0: break
            es = src.errors(ds)
            real = {k: m for k, m in es.items() if k is not None}
            if not real: raise CheckError("%s does not compile: %s" % (src.path, es.get(None, err)[:1500]))
            with lock:
                for k, m in real.items(): res.violation("cfgs", "%s: does not compile: %s" % (k, m.split(" :: ")[0]), item=k, error=m)
            work = [c for c in work if c.key not in real]
        else:
            if res.violations:
                res.exhaustive = False
                return
            raise CheckError("too many rounds of compile errors")
        rr, out, err = run([base], 300, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        done = None
        for l in out.splitlines():
            p = l.split("\t")
            if p[0] == "DONE": done = (int(p[1]), int(p[2]))
            if p[0] == "BAD":
                with lock: res.violation("cfgs", "%s: %s" % (p[1], p[2]), item=p[1])
        if done is None: raise CheckError("%s ended with %s: %s" % (base, rr, err[-500:]))
        with lock: res.states += done[0]; res.traces += done[0]; res.transitions += done[1]
        os.remove(base)
    parallel(one, range(nsh))

def c19(res, prop, tier, only=None):
    t0 = time.time()
    rc = Rustc()
    subprocess.call(["rm", "-rf", WORK]); os.makedirs(WORK)
    sigs.WORK = WORK
    args = sigs.prelude(rc)
    cs = [c for c in g.cases(tier) if only is None or c.key in only]
    lock = threading.Lock()
    note("configurations: %d" % len(cs))
    run_cases(res, rc, args, cs, 1 if only else max(8, len(cs) // 350), lock, "s")
    kinds = {}
    for c in cs: kinds[c.key.split(" | ")[0]] = kinds.get(c.key.split(" | ")[0], 0) + 1
    res.extra["cfgs"] = dict(configurations=kinds, wall_s=round(time.time() - t0, 1))
    subprocess.call(["rm", "-rf", WORK])
    res.samples += [cs[i].key for i in (0, len(cs) // 3, len(cs) * 2 // 3, len(cs) - 1)]

if __name__ == "__main__":
    r = Result(); c19(r, "C19", os.environ.get("VERIF_TIER", "quick"))
    print(json.dumps(r.extra)); print(r.states, r.transitions, len(r.violations))
    json.dump(r.violations, open("/tmp/sigs.json", "w"), indent=1)
    import collections
    n = collections.Counter()
    for v in r.violations:
        k = v["sig"].split(" | ")[0] + " ## " + v["sig"].split(": ", 1)[1]
        n[k] += 1
        if n[k] < 3: print(v["sig"])
    print(n)
