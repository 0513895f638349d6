"""C16: macro expansion under every outcome of the sources of nondeterminism
that the macros consult, and after every other expansion."""
import itertools, re, threading
from rustc import *

DET = os.path.join(VERIF, "det")
WORK = os.path.join(TARGET, "det-work")

class Det:
    def __init__(s):
        s.rc = Rustc(package="detsupport", cwd=DET, target="det", externs=("mockall", "mockall_double", "async_trait", "futures", "auto_enums", "serde", "serde_derive", "serde_json", "tracing"))
        s.seq, s.lock, s.runs = 0, threading.Lock(), 0
    def expand(s, mods, choices=(), edition="2021"):
        """[(name, text)] -> ({name: expansion}, [(alternatives, what)])"""
        with s.lock:
            s.seq += 1; s.runs += 1
            n = s.seq
        # always the same file and crate name, which other macros may look at
        cwd = os.path.join(WORK, str(n)); os.mkdir(cwd)
        src, out, log = [os.path.join(cwd, e) for e in ("x.rs", "out", "log")]
        with open(src, "w") as f:
            f.write("#![allow(warnings)]\n")
            for name, text in mods: f.write("mod %s {\n%s\n}\n" % (name, text))
            f.write("fn main() {}\n")
        r, ds, err = s.rc.compile("x.rs", out, ["--crate-name", "x","-Zunpretty=expanded", "--cfg", "test", "-Aexplicit_builtin_cfgs_in_flags"],
            env=dict(RUSTC_BOOTSTRAP="1", DET_LOG=log, DET_CHOICES=",".join(map(str, choices))), cwd=cwd)
        text = open(out, errors="replace").read() if os.path.exists(out) else None
        points = [l.rstrip("\n").split("\t") for l in open(log)] if os.path.exists(log) else []
        points = [(int(a), b) for a, b in points]
        for p in (src, out, log):
            if os.path.exists(p): os.remove(p)
        os.rmdir(cwd)
        # what the macros themselves complained about belongs to the result
        msgs = sorted(d["message"] for d in ds if d["level"] == "error")
        if text is None: return {name: ("failed", msgs) for name, _ in mods}, points
        res, names = {}, [m[0] for m in mods]
        starts = [(m.start(), m.group(1)) for m in re.finditer(r"^mod (\w+) \{", text, re.M) if m.group(1) in names]
        for i, (a, name) in enumerate(starts):
            b = starts[i + 1][0] if i + 1 < len(starts) else text.find("\nfn main()", a)
            t = text[a:b]
            t = t[t.index("{"):].rstrip()
            # where the pretty-printer breaks lines depends on the surroundings
            res[name] = re.sub(r"\s+", "", t)
        for name in names: res.setdefault(name, ("missing", msgs))
        if len(mods) == 1: res[names[0]] = (res[names[0]], msgs)
        return res, points

def corpus():
    r = []
    for part in open(os.path.join(DET, "corpus.rs")).read().split("//--- ")[1:]:
        name, text = part.split("\n", 1)
        r.append((name.strip(), "use mockall::*;\n" + text.rstrip()))
    return r

def tests():
    """The crate's own integration tests and examples, as inputs"""
    r = []
    for d in ("mockall/tests", "mockall/examples", "mockall_double/tests"):
        p = os.path.join(REPO, d)
        if not os.path.isdir(p): continue
        for f in sorted(os.listdir(p)):
            if not f.endswith(".rs"): continue
            t = open(os.path.join(p, f)).read()
            if t.startswith("#!") and not t.startswith("#!["): t = "//" + t     # a shebang
            # the position of comments in the pretty-printed output is arbitrary
            t = re.sub(r"(?m)(^|[ \t])//(?![/!](?!/)).*$", "", t)
            t = re.sub(r"(?s)/\*(?![*!]).*?\*/", "", t)
            if "tracing" in t or "line!" in t: continue     # expands to its own line number
            r.append((f[:-3].replace("-", "_"), t))
    return r

def diff(a, b):
    import difflib
    a, b = re.split(r"(?<=[;{}])", str(a)), re.split(r"(?<=[;{}])", str(b))
    d = [l for l in difflib.unified_diff(a, b, lineterm="", n=0) if not l.startswith(("---", "+++", "@@"))]
    return " / ".join(x.strip()[:120] for x in d[:4])

def c16(res, prop, tier):
    det = Det()
    subprocess.call(["rm", "-rf", WORK]); os.makedirs(WORK)
    t0 = time.time()
    items = corpus()
    progs = [("corpus: " + n, t) for n, t in items] + [("tests: " + n, t) for n, t in tests()]
    bound = 1 if tier == "quick" else 2
    st = dict(choice_points=0, executions=0, sources={}, programs=len(progs))
    lock = threading.Lock()
    solo = {}
    def bad(kind, name, what, a, b):
        with lock: res.violation("det", "%s | %s | %s: %s" % (kind, name, what, diff(a, b)), item=name, what=what)
    # 1. one program, every alternative of every nondeterministic choice
    def alone(p):
        name, text = p
        base, points = det.expand([("m", text)])
        base = base["m"]
        solo[name] = base
        again, _ = det.expand([("m", text)])
        if again["m"] != base: bad("repeat", name, "a second run expands differently", base, again["m"])
        with lock:
            st["choice_points"] += len(points)
            for _, w in points: st["sources"][w] = st["sources"].get(w, 0) + 1
        # all schedules with at most `bound` choices other than the default
        work = [((), points)]
        seen = 0
        outs = set()
        while work:
            pre, pts = work.pop()
            if sum(1 for c in pre if c) >= bound: continue
            for i in range(len(pre), len(pts)):
                for c in range(1, pts[i][0]):
                    ch = pre + (0,) * (i - len(pre)) + (c,)
                    got, p2 = det.expand([("m", text)], ch)
                    seen += 1
                    outs.add(str(got["m"]))
                    if got["m"] != base:
                        bad("choice", name, "depends on %s" % pts[i][1], base, got["m"])
                        return
                    work.append((ch, p2))
                    if seen > 4000:
                        with lock: res.exhaustive = False
                        return
        with lock:
            res.states += 1; res.traces += 2 + seen; res.transitions += 2 * (1 + len(points)) + seen
    parallel(alone, progs)
    st["solo_s"] = round(time.time() - t0, 1)
    # 2. every ordered pair of corpus items in one crate (thorough: triples)
    n = len(items)
    tuples = list(itertools.product(range(n), repeat=2))
    if tier != "quick": tuples += [t for t in itertools.product(range(0, n), repeat=3)]
    def strip(x): return x[0] if isinstance(x, tuple) else x
    def together(t):
        mods = [("m%d" % k, items[i][1]) for k, i in enumerate(t)]
        got, _ = det.expand(mods)
        for k, i in enumerate(t):
            want = solo["corpus: " + items[i][0]]
            g = got["m%d" % k]
            if isinstance(want[0], tuple) or isinstance(g, tuple):
                # an invocation which rustc gives up on hides the others
                if isinstance(want[0], tuple) or any(isinstance(solo["corpus: " + items[j][0]][0], tuple) for j in t): continue
            if strip(g) != strip(want):
                bad("order", items[i][0], "expands differently as number %d of [%s]" % (k + 1, ", ".join(items[j][0] for j in t)), strip(want), strip(g))
        with lock:
            res.states += 1; res.traces += 1; res.transitions += len(t)
    parallel(together, tuples)
    st["pairs_s"] = round(time.time() - t0, 1)
    st["tuples"] = len(tuples)
    # 3. all items and all test files in one crate, in all rotations, both ways
    pool = [p for p in progs if not isinstance(solo[p[0]][0], tuple)]
    step = max(1, len(pool) // (16 if tier == "quick" else 64))
    orders = [o[k:] + o[:k] for o in (pool, pool[::-1]) for k in range(0, len(pool), step)]
    def allof(o):
        got, _ = det.expand([("m%d" % k, t) for k, (_, t) in enumerate(o)])
        for k, (name, _) in enumerate(o):
            g = got["m%d" % k]
            if isinstance(g, tuple): continue
            if g != strip(solo[name]): bad("order", name, "expands differently after others", strip(solo[name]), g)
        with lock:
            res.states += 1; res.traces += 1; res.transitions += len(o)
            st["compared in one crate"] = st.get("compared in one crate", 0) + sum(not isinstance(g, tuple) for g in got.values())
    parallel(allof, orders)
    st["executions"] = det.runs
    st["wall_s"] = round(time.time() - t0, 1)
    st["uncompilable alone"] = [p[0] for p in progs if isinstance(solo[p[0]][0], tuple)]
    if len(pool) < len(items): raise CheckError("the corpus does not expand")
    res.extra["det"] = st
    res.samples += ["%s: %s ..." % (items[i][0], str(solo["corpus: " + items[i][0]][0])[:300]) for i in (1, 10)]
    subprocess.call(["rm", "-rf", WORK])

if __name__ == "__main__":
    r = Result(); c16(r, "C16", os.environ.get("VERIF_TIER", "quick"))
    print(json.dumps(r.extra, indent=1)); print(r.states, r.transitions, r.traces, len(r.violations), r.exhaustive)
    for v in r.violations[:30]: print(v["sig"])
