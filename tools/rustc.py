"""Compile generated crates against the current /repo tree."""
import json, os, subprocess, time
from common import *

GEN = os.path.join(VERIF, "gen")

class Rustc:
    """Everything that generated code may use, built from /repo"""
    def __init__(s, toolchain=STABLE, nightly=False, package="support", cwd=GEN, target="gen-deps", externs=("mockall", "mockall_double", "async_trait", "futures")):
        target = target + ("-nightly" if nightly else "")
        s.env = cargo_env(target, toolchain)
        t = time.time()
        rc, out, err = run(["cargo", "build", "--offline", "-p", package, "--message-format=json"] + (["--features", "nightly"] if nightly else []),
                           800, cwd=cwd, env=s.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if rc != 0:
            note(err[-5000:])
            raise CheckError("build failed in " + cwd)
        note("dependencies: %.1fs" % (time.time() - t))
        s.externs, s.deps = [], os.path.join(TARGET, target, "debug", "deps")
        for l in out.splitlines():
            if not l.startswith("{"): continue
            m = json.loads(l)
            if m.get("reason") != "compiler-artifact": continue
            n = m["target"]["name"].replace("-", "_")
            if n not in externs: continue
            f = [f for f in m["filenames"] if f.endswith((".rlib", ".so"))]
            s.externs += ["--extern", "%s=%s" % (n, f[0])]
        s.proc = subprocess.check_output(["rustup", "which", "rustc"], env=s.env, text=True).strip()
        # run without the rustup proxy, which is slow
        s.rustenv = dict(s.env)
        s.rustenv["LD_LIBRARY_PATH"] = os.path.join(os.path.dirname(os.path.dirname(s.proc)), "lib")

    def compile(s, src, out=None, args=(), timeout=600, env=None, check_only=False, cwd=None):
        """-> (rc, [diagnostic])"""
        cmd = [s.proc, src, "--edition", "2021", "--error-format=json", "-L", "dependency=" + s.deps, "-Cdebuginfo=0", "-Copt-level=0"] + s.externs + list(args)
        if check_only: cmd += ["--emit=metadata"]
        if out: cmd += ["-o", out]
        rc, o, err = run(cmd, timeout, env=dict(s.rustenv, **(env or {})), cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
        if rc is None: raise CheckError("rustc timed out on " + src)
        ds = []
        for l in err.splitlines():
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("$message_type", "diagnostic") == "diagnostic": ds.append(d)
        return rc, ds, err

def lines_of(d, src):
    """The lines of src that a diagnostic talks about, the primary ones first"""
    r = []
    def walk(sp):
        while sp:
            if os.path.abspath(sp["file_name"]) == src:
                r.extend(x for x in range(sp["line_start"], sp["line_end"] + 1) if x not in r)
            e = sp.get("expansion")
            sp = e and e["span"]
    for sp in sorted(d["spans"], key=lambda s: not s["is_primary"]): walk(sp)
    for c in d.get("children", []):
        for sp in c["spans"]: walk(sp)
    return r

class Source:
    """A generated crate, consisting of numbered cases"""
    def __init__(s, path):
        s.path, s.lines, s.ranges = os.path.abspath(path), [], []
    def text(s, t):
        s.lines += t.split("\n")
    def case(s, key, t):
        a = len(s.lines) + 1
        s.text(t)
        s.ranges.append((a, len(s.lines), key))
    def write(s):
        os.makedirs(os.path.dirname(s.path), exist_ok=True)
        open(s.path, "w").write("\n".join(s.lines) + "\n")
    def key_at(s, line):
        import bisect
        i = bisect.bisect_right(s.ranges, (line, 1 << 60, "")) - 1
        if i >= 0 and s.ranges[i][0] <= line <= s.ranges[i][1]: return s.ranges[i][2]
        return None
    def errors(s, ds):
        """case -> first error in it; errors outside of every case under None"""
        r = {}
        for d in ds:
            if d["level"] != "error" or d["message"].startswith("aborting due"): continue
            k = next((k for k in (s.key_at(l) for l in lines_of(d, s.path)) if k is not None), None)
            r.setdefault(k, d["message"].split("\n")[0] + " :: " + (d.get("rendered") or "")[:700])
        return r
