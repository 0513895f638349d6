"""C17: run the enumeration of gen_double.py"""
import gen_double as g
from rustc import *

def c17(res, prop, tier):
    rc = Rustc()
    work = os.path.join(TARGET, "double")
    subprocess.call(["rm", "-rf", work]); os.makedirs(work)
    uses = list(g.use_cases(tier))
    cases = [g.plain_case(n, t, l) + ("c%d::check();" % n,) for n, (t, l) in enumerate(uses)]
    decor, alias, odd = list(g.decor_cases()), list(g.alias_cases()), list(g.odd_cases())
    groups = dict(use_trees=cases, decorated=decor, aliases=alias, odd_names=odd)
    every = [c for l in groups.values() for c in l]
    per = 3000 if tier == "quick" else 6000
    nsh = max(8, (len(every) + per - 1) // per)
    shards = [every[i::nsh] for i in range(nsh)]
    stats = dict(cases={k: len(v) for k, v in groups.items()}, checked=0)
    t0 = time.time()

    def source(i, cs, tag):
        src = Source(os.path.join(work, "s%d%s.rs" % (i, tag)))
        src.text(g.PRELUDE + g.base_module())
        for key, text, _ in cs: src.case(key, text)
        # in chunks, because one huge function is slow to compile
        ch = [cs[j:j + 200] for j in range(0, len(cs), 200)]
        for j, x in enumerate(ch): src.text("fn run%d() { %s }" % (j, " ".join(c[2] for c in x)))
        src.text("fn main() { %s for b in BAD.lock().unwrap().iter() { println!(\"{b}\"); } println!(\"DONE\\t{}\", DONE.load(std::sync::atomic::Ordering::Relaxed)); }" % " ".join("run%d();" % j for j in range(len(ch))))
        src.write()
        return src

    def one(job):
        i, test = job
        tag = "t" if test else "n"
        cs = shards[i]
        args = ["--cfg", "test", "-Aexplicit_builtin_cfgs_in_flags"] if test else []
        exe = os.path.join(work, "s%d%s" % (i, tag))
        for attempt in range(6):
            src = source(i, cs, tag)
            r, ds, err = rc.compile(src.path, exe, args)
            if r == 0: break
            es = src.errors(ds)
            real = {k: m for k, m in es.items() if k is not None}
            if not real:
                raise CheckError("%s does not compile: %s" % (src.path, (err or "")[:1500]))
            with lock:
                for k, m in real.items():
                    res.violation("double", "%s build | %s | does not compile: %s" % ("test" if test else "non-test", k, m.split(" :: ")[0]), item=k, test=test, error=m)
            cs = [c for c in cs if c[0] not in real]
        else: raise CheckError("too many rounds of compile errors")
        rr, out, err = run([exe], 120, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        done = None
        for l in out.splitlines():
            p = l.split("\t")
            if p[0] == "DONE": done = int(p[1])
            if p[0] == "BAD":
                with lock: res.violation("double", "%s build | %s | %s" % ("test" if test else "non-test", p[1], p[2]), item=p[1], test=test)
        if done is None: raise CheckError("%s ended with %s: %s" % (exe, rr, err[-500:]))
        with lock:
            res.states += len(cs); res.transitions += done; res.traces += len(cs)
        os.remove(exe); os.remove(src.path)
    import threading
    lock = threading.Lock()
    parallel(one, [(i, t) for i in range(nsh) for t in (True, False)])

    # Forms that must be rejected: every one must cause an error of its own
    rej = list(g.reject_cases())
    # first all at once, then one by one those that caused no error
    def rejected(cases):
        src = Source(os.path.join(work, "rej%d.rs" % len(cases)))
        src.text(g.PRELUDE + g.base_module())
        for k, t in cases: src.case(k, t)
        src.text("fn main() {}"); src.write()
        r, ds, err = rc.compile(src.path, None, ["--cfg", "test", "-Aexplicit_builtin_cfgs_in_flags"], check_only=True, env={"TMPDIR": work})
        return r != 0, src.errors(ds)
    os.chdir(work)
    _, es = rejected(rej)
    left = [c for c in rej if c[0] not in es]
    for c in left:
        bad, _ = rejected([c])
        if not bad: res.violation("double", "test build | %s | is unsupported but accepted" % c[0], item=c[0], test=True)
    res.states += len(rej); res.traces += len(rej); res.transitions += len(rej)
    stats["rejected forms"] = len(rej)
    stats["use-tree bounds"] = "all use-trees with up to (leaves, depth): (1,4), (2,3), (3,2) with optional renames to an upper or a lower case name, (2,4) with optional renames, (3,3) without%s, over three nested modules of a type, a function and a module" % ("" if tier == "quick" else "; also (3,3) with both kinds of renames and (4,2) without")
    stats["wall_s"] = round(time.time() - t0, 1)
    res.extra["double"] = stats
    os.chdir(VERIF)
    subprocess.call(["rm", "-rf", work])
    res.samples += [every[i][0] for i in (0, len(cases) // 2, len(cases), len(cases) + len(decor), len(every) - 1)] + [rej[3][0]]

if __name__ == "__main__":
    r = Result(); c17(r, "C17", os.environ.get("VERIF_TIER", "quick"))
    print(json.dumps(r.extra, indent=1)); print(r.states, r.transitions, len(r.violations))
    for v in r.violations[:30]: print(v["sig"])
