"""Shared parts of the check driver."""
import json, os, subprocess, sys, time, signal, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
STABLE = "1.86.0"
NIGHTLY = "nightly-2025-04-15"

_lock = threading.Lock()

class CheckError(Exception):
    """The check itself could not give an answer"""

def note(*a):
    print(*a, file=sys.stderr, flush=True)

def cargo_env(target, toolchain=STABLE, **kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "MOCKALL_DEBUG"):
        e.pop(k, None)
    e.update(CARGO_TARGET_DIR=os.path.join(TARGET, target), RUSTUP_TOOLCHAIN=toolchain,
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.update(kw)
    return e

def run(cmd, timeout, **kw):
    """Run in its own process group so that a timeout leaves nothing behind."""
    p = subprocess.Popen(cmd, start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "", ""
    return p.returncode, out, err

def cargo(args, cwd, env, timeout=800):
    t = time.time()
    rc, out, err = run(["cargo"] + args + ["--offline"], timeout, cwd=cwd, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    note("cargo %s in %s: rc=%s %.1fs" % (args[0], cwd, rc, time.time() - t))
    return rc, out

def build(args, cwd, env):
    rc, out = cargo(["build"] + args, cwd, env)
    if rc != 0:
        note(out[-6000:])
        raise CheckError("build failed in %s" % cwd)

def known(prop):
    """known_findings.txt: 'finding: property=<id> match=<text> :: <what fails>'"""
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p):
        l = l.strip()
        if l.startswith("finding: property=%s " % prop):
            m, what = l.split(" match=", 1)[1].split(" :: ", 1)
            r.append((m, what))
    return r

def aggregate(scen):
    """scenario label -> count, grouped by the label's kind"""
    import re
    r = {}
    for k, n in scen.items():
        p = k.split("/")[0]
        p = re.sub(r"(?<=[a-z])[\d-].*$", "", p)
        r[p] = r.get(p, 0) + n
    return r

class Result:
    def __init__(s):
        s.states = s.transitions = s.traces = 0
        s.samples, s.violations, s.extra, s.assumptions = [], [], {}, []
        s.exhaustive = True
    def add(s, name, d, scen=True):
        """merge one engine report"""
        s.states += d["states"]; s.transitions += d["transitions"]; s.traces += d["traces"]
        s.samples += d["samples"][:6]
        s.exhaustive &= d["complete"] and not d.get("capped")
        x = dict(states=d["states"], transitions=d["transitions"], traces=d["traces"], wall_s=d["wall_s"])
        if scen: x["scenarios"] = aggregate(d.get("scenarios", {}))
        for k in ("outcomes", "extra", "notes"):
            if d.get(k): x[k] = d[k]
        s.extra[name] = x
        for v in d["violations"]:
            v = dict(v); v["engine"] = name
            s.violations.append(v)
    def violation(s, engine, sig, **detail):
        s.violations.append(dict(sig=sig, engine=engine, detail=detail))

def parallel(f, items):
    """Run f on every item at once; raise the first error"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for r in [ex.submit(f, i) for i in items]: r.result()

def merge_shards(res, prefix):
    """Fold the shards' separate evidence entries into one"""
    m = {}
    for k in [k for k in res.extra if k.startswith(prefix + ".")]:
        x = res.extra.pop(k)
        for a, b in x.items():
            if a == "wall_s": m[a] = max(m.get(a, 0), b)
            elif isinstance(b, (int, float)): m[a] = m.get(a, 0) + b
            elif isinstance(b, dict):
                t = m.setdefault(a, {})
                for c, d in b.items(): t[c] = t.get(c, 0) + d
            else: m.setdefault(a, []).extend(b)
    res.extra[prefix] = m

def run_engine(res, name, exe, args, env, timeout, single_args=None, allow_empty=False):
    """Run an exploration binary which writes a JSON report."""
    out = os.path.join(TARGET, "reports"); os.makedirs(out, exist_ok=True)
    rep = os.path.join(out, name + ".json")
    if os.path.exists(rep): os.remove(rep)
    t = time.time()
    rc, _, err = run([exe] + args + ["--out", rep], timeout, env=env,
                     stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    note("%s: rc=%s %.1fs" % (name, rc, time.time() - t))
    if rc in (0, 3) and os.path.exists(rep):
        d = json.load(open(rep))
        with _lock: res.add(name, d)
        if not d["traces"] and not d["violations"] and not allow_empty:
            raise CheckError(name + " explored nothing")
        if rc == 3 and not d["violations"]:
            raise CheckError(name + " stopped without a report")
        return
    if rc is None:
        raise CheckError(name + " timed out")
    note((err or "")[-3000:])
    if rc < 0 and single_args is not None:
        # died of a signal: one worker and a journal tell where
        j = os.path.join(out, name + ".journal")
        rc2, _, err2 = run([exe] + args + single_args + ["--out", rep, "--journal", j], timeout, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
        last = open(j, errors="replace").read() if os.path.exists(j) else ""
        if rc2 is not None and rc2 < 0 and last:
            p = last.split("\t")
            res.violation(name, "%s: the process was killed by signal %d" % (" | ".join(p[:2]), -rc2),
                          history=last, what="the process was killed by signal %d" % -rc2, stderr=(err2 or "")[-1500:])
            res.exhaustive = False
            return
    raise CheckError("%s ended with %s" % (name, rc))
