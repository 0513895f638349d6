"""C25: compile and run the programs of gen_orig.py"""
import threading
import gen_orig as g
from rustc import *

WORK = os.path.join(TARGET, "orig")

def compile_cases(res, rc, cases, nsh, lock):
    args = ["-Ccodegen-units=1"]
    def one(i):
        work = cases[i::nsh]
        base = os.path.join(WORK, "o%d" % i)
        for attempt in range(12):
            if (len(res.violations) >= 20 or attempt > 1 and res.violations) and "ORIG_ROUNDS" not in os.environ:
                res.exhaustive = False
                return
            src = Source(base + ".rs")
            src.text(g.PRELUDE)
            runs = []
            for n, c in enumerate(work):
                src.text("pub mod c%d {" % n)
                src.case((n, "plain"), c.text[0])
                src.case((n, "mocked"), c.text[1])
                src.text("}")
                runs.append("case(%s, n, %s);" % (json.dumps(c.key), c.drv.replace("{mod}", "c%d" % n)))
            ch = [runs[j:j + 100] for j in range(0, len(runs), 100)]
            for j, x in enumerate(ch): src.text("fn run%d(n: &mut usize) {\n%s\n}" % (j, "\n".join(x)))
            src.text("fn main() { std::panic::set_hook(Box::new(|_| {})); let mut n = 0; %s println!(\"DONE\\t%d\\t{n}\"); }" % (" ".join("run%d(&mut n);" % j for j in range(len(ch))), len(runs)))
            src.write()
            r, ds, err = rc.compile(src.path, base, args, timeout=840)
            if r == 0: break
            es = src.errors(ds)
            bad = sorted(k for k in es if k is not None)
            if not bad: raise CheckError("%s does not compile: %s" % (src.path, (es.get(None) or err)[:1500]))
            for n, half in bad:
                e = es[n, half]
                if half == "plain" and "ORIG_ROUNDS" in os.environ: e = "ORIGINAL " + e
                elif half == "plain": raise CheckError("%s: the original does not compile: %s" % (work[n].key, e[:600]))
                with lock: res.violation("orig", "%s: does not compile with automock: %s" % (work[n].key, e.split(" :: ")[0]), item=work[n].key, error=e)
            work = [c for n, c in enumerate(work) if (n, "mocked") not in es and (n, "plain") not in es]
        else: raise CheckError("too many rounds of compile errors")
        rr, out, err = run([base], 300, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        done = None
        for l in out.splitlines():
            p = l.split("\t")
            if p[0] == "DONE": done = (int(p[1]), int(p[2]))
            if p[0] == "BAD":
                with lock: res.violation("orig", "%s: %s" % (p[1], p[2]), item=p[1])
        if done is None: raise CheckError("%s ended with %s: %s" % (base, rr, err[-500:]))
        with lock:
            res.states += done[0]; res.traces += 2 * done[0]; res.transitions += done[1]
        os.remove(base)
    parallel(one, range(nsh))

def c25(res, prop, tier):
    t0 = time.time()
    rc = Rustc()
    subprocess.call(["rm", "-rf", WORK]); os.makedirs(WORK)
    cases = list(g.cases(tier))
    only = os.environ.get("ORIG")
    if only: cases = [c for c in cases if only in c.key]
    if "ORIG_SINGLES" in os.environ: cases = [c for c in cases if "," not in c.key]
    note("items: %d" % len(cases))
    compile_cases(res, rc, cases, min(len(cases), max(16, len(cases) // 200)), threading.Lock())
    res.extra["orig"] = dict(items=len(cases), features=len(g.F), hosts=len(g.HOSTS), wall_s=round(time.time() - t0, 1))
    res.samples += [cases[i].key for i in (0, len(cases) // 3, len(cases) * 2 // 3, len(cases) - 1)]
    subprocess.call(["rm", "-rf", WORK])

def replay(items):
    rc = Rustc()
    subprocess.call(["rm", "-rf", WORK]); os.makedirs(WORK)
    res = Result()
    byname = {f.name: f for f in g.F}
    cs = []
    for key in items:
        h, fs = key.split(" | ")
        cs.append(g.case(h, [byname[f] for f in fs.split(", ")] if fs != "empty" else []))
    compile_cases(res, rc, cs, 1, threading.Lock())
    subprocess.call(["rm", "-rf", WORK])
    return res.violations

if __name__ == "__main__":
    r = Result(); c25(r, "C25", os.environ.get("VERIF_TIER", "quick"))
    print(json.dumps(r.extra)); print(r.states, r.transitions, len(r.violations))
    for v in r.violations: print(v["sig"][:260])
