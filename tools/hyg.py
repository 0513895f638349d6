"""C24: compile and run the programs of gen_hyg.py"""
import sys, threading
import gen_hyg as g
from rustc import *

WORK = os.path.join(TARGET, "hyg")

def prepare():
    rc = Rustc()
    subprocess.call(["rm", "-rf", WORK]); os.makedirs(WORK)
    out = os.path.join(WORK, "libhygp.rlib")
    r, ds, err = rc.compile(os.path.join(GEN, "prelude", "hygp.rs"), out, ["--crate-type=rlib", "--crate-name=hygp"])
    if r != 0: raise CheckError("hygp: " + err[:2000])
    return rc, ["--extern", "hygp=" + out, "-Ccodegen-units=1", "-Awarnings"]

def expansion(rc):
    """What the macros make of a few examples"""
    r, out, err = run([rc.proc, os.path.join(GEN, "prelude", "hygexp.rs"), "--edition", "2021", "-L", "dependency=" + rc.deps, "-Zunpretty=expanded"] + rc.externs,
                      300, env=dict(rc.rustenv, RUSTC_BOOTSTRAP="1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return out or ""

def compile_cases(res, rc, args, cases, nsh, lock):
    def one(i):
        work = cases[i::nsh]
        base = os.path.join(WORK, "h%d" % i)
        for attempt in range(40):
            if len(res.violations) >= 20 or attempt > 3 and res.violations:
                res.exhaustive = False
                return
            src = Source(base + ".rs")
            src.text("#![allow(warnings)]")
            runs = []
            for n, c in enumerate(work):
                src.case(n, g.render(c, n))
                runs.append("::hygp::hyg_case(%s, c%d::zz_t);" % (json.dumps(c.key), n))
            ch = [runs[j:j + 100] for j in range(0, len(runs), 100)]
            for j, x in enumerate(ch): src.text("fn run%d() {\n%s\n}" % (j, "\n".join(x)))
            src.text("fn main() { ::hygp::hyg_start(); %s ::hygp::hyg_done(%d); }" % (" ".join("run%d();" % j for j in range(len(ch))), len(runs)))
            src.write()
            r, ds, err = rc.compile(src.path, base, args, timeout=840)
            if r == 0: break
            es = src.errors(ds)
            bad = sorted(k for k in es if k is not None)
            if not bad: raise CheckError("%s does not compile: %s" % (src.path, (es.get(None) or err)[:1500]))
            new = [c for n, c in enumerate(work) if n not in es]
            for n in bad:
                c = work[n]
                if len(c.names) > 1: new += c.split()
                else:
                    with lock: res.violation("hyg", "%s: does not compile: %s" % (c.key, es[n].split(" :: ")[0]), item=c.key, error=es[n])
            work = new
        else: raise CheckError("too many rounds of compile errors")
        rr, out, err = run([base], 300, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        done = None
        for l in out.splitlines():
            p = l.split("\t")
            if p[0] == "DONE": done = (int(p[1]), int(p[2]))
            if p[0] == "BAD":
                with lock: res.violation("hyg", "%s: %s" % (p[1], p[2]), item=p[1])
        if done is None: raise CheckError("%s ended with %s: %s" % (base, rr, err[-500:]))
        with lock:
            res.states += done[0]; res.traces += done[0]; res.transitions += done[1]
        os.remove(base)
    parallel(one, range(nsh))

def c24(res, prop, tier):
    t0 = time.time()
    rc, args = prepare()
    exp = expansion(rc)
    low, up = g.names(exp, open(os.path.join(VERIF, "tools", "names.txt")).read().split())
    cases = g.plan(low, up, tier)
    only = os.environ.get("HYG")
    if only: cases = [c for c in cases if only in "%s | %s" % (c.role, c.kind)]
    note("hygiene: %d+%d names, %d programs" % (len(low), len(up), len(cases)))
    # cases of the same kind are neighbours: deal them out
    lock = threading.Lock()
    kf = [m for m, _ in known(prop)]
    isknown = lambda c: any(m in c.key for m in kf)
    compile_cases(res, rc, args, [c for c in cases if not isknown(c)], max(16, len(cases) // 150), lock)
    # known findings do not compile, so that each would hold up the others
    bad = [c for c in cases if isknown(c)]
    if bad: compile_cases(res, rc, args, bad, min(4, len(bad)), lock)
    res.extra["hyg"] = dict(names=len(low) + len(up), from_expansions=bool(exp), programs=len(cases), wall_s=round(time.time() - t0, 1))
    subprocess.call(["rm", "-rf", WORK])
    res.samples += [cases[i].key for i in (0, len(cases) // 3, len(cases) * 2 // 3, len(cases) - 1)]

def replay(items):
    rc, args = prepare()
    res = Result()
    cs = []
    for key in items:
        n, role, kind = key.split(" | ")
        cs.append(g.Case(role, kind, n.split()))
    compile_cases(res, rc, args, cs, 1, threading.Lock())
    subprocess.call(["rm", "-rf", WORK])
    return res.violations

if __name__ == "__main__":
    r = Result(); c24(r, "C24", os.environ.get("VERIF_TIER", "quick"))
    print(json.dumps(r.extra)); print(r.states, r.transitions, len(r.violations))
    for v in r.violations: print(v["sig"][:200])
