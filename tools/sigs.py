"""C18: compile and run the signatures of gen_sigs.py"""
import sys, threading
import gen_sigs as g
from rustc import *

WORK = os.path.join(TARGET, "sigs")
PER_MOD = 12

def prelude(rc):
    """Compile the library that the generated crates use"""
    out = os.path.join(WORK, "libsigp.rlib")
    r, ds, err = rc.compile(os.path.join(GEN, "prelude", "sigp.rs"), out, ["--crate-type=rlib", "--crate-name=sigp"])
    if r != 0: raise CheckError("sigp: " + err[:2000])
    return ["--extern", "sigp=" + out, "-Ccodegen-units=1"]

def plan(bound):
    """Group signatures into mocks: by host, and by whether the trait is dyn compatible"""
    groups = {}
    for sp in g.enumerate_specs(bound):
        f = g.Fn(0, sp)
        key = (sp.host, g.HOSTS[sp.host].kind == 'trait' and g.dyn_ok(f))
        groups.setdefault(key, []).append(sp)
    mods = []
    for (host, _), sps in groups.items():
        for i in range(0, len(sps), PER_MOD): mods.append((host, sps[i:i + PER_MOD]))
    return mods

def compile_mods(res, rc, args, mods, nsh, lock, stats, single=False):
    shards = [mods[i::nsh] for i in range(nsh)]
    def one(i):
        work = [(h, list(sps)) for h, sps in shards[i]]
        base = os.path.join(WORK, "s%d" % i)
        seenbad = 0
        for attempt in range(int(os.environ.get("SIG_ROUNDS", "6"))):
            n = len(res.violations)
            if (n >= 20 or attempt > 1 and n) and "SIG_ROUNDS" not in os.environ:
                # enough has been found
                res.exhaustive = False
                return
            src = Source(base + ".rs")
            src.text("#![allow(warnings)]\nuse mockall::*;\nuse sigp::*;\npub mod up { pub use sigp::*; }")
            runs = []
            n = 0
            for mid, (host, sps) in enumerate(work):
                if not sps: continue
                fns = []
                for sp in sps:
                    fns.append(g.Fn(n, sp)); n += 1
                for key, text in g.module(mid, host, fns):
                    src.case(key or ("module", mid), text)
                for f in fns: runs.append("case(%s, m%d::t%d);" % (json.dumps(f.sp.key), mid, f.k))
            ch = [runs[j:j + 100] for j in range(0, len(runs), 100)]
            for j, x in enumerate(ch): src.text("fn run%d() {\n%s\n}" % (j, "\n".join(x)))
            src.text("fn main() { start(); %s done(%d); }" % (" ".join("run%d();" % j for j in range(len(ch))), len(runs)))
            src.write()
            r, ds, err = rc.compile(src.path, base, args, timeout=840)
            if r == 0: break
            es = src.errors(ds)
            if None in es and len(es) == 1: raise CheckError("%s does not compile: %s" % (src.path, es[None][:1500]))
            # an expansion that failed causes errors elsewhere in its module
            modof = {x.key: mid for mid, (_, sps) in enumerate(work) for x in sps}
            follow = lambda m: m.startswith(("cannot find", "unresolved", "failed to resolve"))
            bymod = {}
            for k, m in es.items():
                if k is not None: bymod.setdefault(k[1] if isinstance(k, tuple) else modof[k], []).append((k, m))
            for mid, l in bymod.items():
                host, sps = work[mid]
                real = [(k, m) for k, m in l if not follow(m)] or l
                own = [(k, m) for k, m in real if isinstance(k, str)]
                if not own and len(sps) == 1: own = [(sps[0].key, real[0][1])]
                for k, m in own:
                    with lock: res.violation("sigs", "%s: does not compile: %s" % (k, m.split(" :: ")[0]), item=k, error=m)
                    sps[:] = [x for x in sps if x.key != k]
                if not own:
                    # find out which of them it is
                    for x in sps: work.append((host, [x]))
                    work[mid] = (host, [])
        else:
            if res.violations:
                res.exhaustive = False
                return
            raise CheckError("too many rounds of compile errors")
        rr, out, err = run([base], 300, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        done = None
        for l in out.splitlines():
            p = l.split("\t")
            if p[0] == "DONE": done = (int(p[1]), int(p[2]))
            if p[0] == "BAD":
                with lock: res.violation("sigs", "%s: %s" % (p[1], p[2]), item=p[1])
        if done is None: raise CheckError("%s ended with %s: %s" % (base, rr, err[-500:]))
        with lock:
            res.states += done[0]; res.traces += done[0]; res.transitions += done[1]
        os.remove(base)
    parallel(one, range(nsh))

def c18(res, prop, tier):
    t0 = time.time()
    rc = Rustc()
    subprocess.call(["rm", "-rf", WORK]); os.makedirs(WORK)
    args = prelude(rc)
    bound = os.environ.get("SIG_BOUND", tier)
    mods = plan(bound)
    lock = threading.Lock()
    n = sum(len(s) for _, s in mods)
    note("signatures: %d in %d mocks" % (n, len(mods)))
    compile_mods(res, rc, args, mods, max(8, n // 500), lock, {})
    res.extra["sigs"] = dict(signatures=n, mocks=len(mods), bound=bound, wall_s=round(time.time() - t0, 1))
    import gen_vis
    res.extra["visibility"] = dict(hosts=gen_vis.visibility(res, rc, WORK, lock))
    subprocess.call(["rm", "-rf", WORK])
    res.samples += [mods[i][1][0].key for i in (0, len(mods) // 3, len(mods) * 2 // 3, len(mods) - 1)]

def replay(items):
    """Check single signatures again"""
    rc = Rustc()
    subprocess.call(["rm", "-rf", WORK]); os.makedirs(WORK)
    res = Result()
    sps = []
    for key in items:
        p = key.split(" | ")
        sps.append(g.Spec(p[0], p[1], () if p[2] == "-" else tuple(p[2].split(", ")), p[3], p[4] if len(p) > 4 else ""))
    compile_mods(res, rc, prelude(rc), [(x.host, [x]) for x in sps], 1, threading.Lock(), {})
    subprocess.call(["rm", "-rf", WORK])
    return res.violations

def replay_vis(items):
    import gen_vis
    os.makedirs(WORK, exist_ok=True)
    res = Result()
    gen_vis.visibility(res, Rustc(), WORK, threading.Lock(), items)
    subprocess.call(["rm", "-rf", WORK])
    return res.violations

if __name__ == "__main__":
    r = Result(); c18(r, "C18", os.environ.get("VERIF_TIER", "quick"))
    print(json.dumps(r.extra)); print(r.states, r.transitions, len(r.violations))
    for v in r.violations: print(v["sig"])
    json.dump(r.violations, open("/tmp/sigs.json", "w"), indent=1)
