"""Which engine decides which property."""
import json, os, subprocess, sys
from common import *

ASSUMPTIONS = []

SEQ = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C15", "C20", "C22", "C23"]
MC = os.path.join(VERIF, "mc")

def seq_build(toolchain=STABLE, nightly=False):
    gen = os.path.join(TARGET, "gen")
    subprocess.check_call([sys.executable, os.path.join(VERIF, "tools/gen_shapes.py"), gen])
    target = "mc-nightly" if nightly else "mc"
    env = cargo_env(target, toolchain, MC_GEN=gen)
    build(["-p", "seq"] + (["--features", "nightly"] if nightly else []), MC, env)
    return os.path.join(TARGET, target, "debug", "seq"), env

def seq(res, prop, tier):
    exe, env = seq_build()
    run_engine(res, "seq-" + prop, exe, ["--property", prop, "--tier", tier], env, 860 if tier == "quick" else 6 * 3600, [])

def c21(res, prop, tier):
    for nightly in (False, True):
        exe, env = seq_build(NIGHTLY if nightly else STABLE, nightly)
        run_engine(res, "seq-%s-%s" % (prop, "nightly" if nightly else "stable"), exe,
                   ["--property", prop, "--tier", tier], env, 800 if tier == "quick" else 6 * 3600, [])

CONC = ["C12", "C13", "C14"]
CONCDIR = os.path.join(VERIF, "conc")
SHARDS = 8

def conc_build():
    env = cargo_env("conc", MC_DEADLINE="600")
    build(["-p", "conc"], CONCDIR, env)
    return os.path.join(TARGET, "conc", "debug", "conc"), env

def conc(res, prop, tier):
    exe, env = conc_build()
    timeout = 800 if tier == "quick" else 6 * 3600
    if tier != "quick": env["MC_DEADLINE"] = str(timeout - 600)
    def one(i):
        run_engine(res, "conc-%s.%d" % (prop, i), exe, ["--property", prop, "--tier", tier, "--shard", "%d/%d" % (i, SHARDS)],
                   env, timeout, [])
    parallel(one, range(SHARDS))
    merge_shards(res, "conc-" + prop)

ENGINES = {p: seq for p in SEQ}
ENGINES.update({p: conc for p in CONC})
ENGINES["C21"] = c21

def c16(res, prop, tier):
    import det
    det.c16(res, prop, tier)

def c17(res, prop, tier):
    import double
    double.c17(res, prop, tier)

ENGINES["C16"] = c16
ENGINES["C17"] = c17

def c18(res, prop, tier):
    import sigs
    sigs.c18(res, prop, tier)

ENGINES["C18"] = c18

def c19(res, prop, tier):
    import cfgs
    cfgs.c19(res, prop, tier)

ENGINES["C19"] = c19

def c24(res, prop, tier):
    import hyg
    hyg.c24(res, prop, tier)

ENGINES["C24"] = c24

def c25(res, prop, tier):
    import orig
    orig.c25(res, prop, tier)

ENGINES["C25"] = c25

def replay(prop, path):
    d = json.load(open(path))
    bad = 0
    for v in d["violations"]:
        e = v["engine"]
        if e.startswith("seq-"):
            nightly = e.endswith("-nightly")
            exe, env = seq_build(NIGHTLY if nightly else STABLE, nightly)
            x = v["detail"]
            rep = os.path.join(TARGET, "reports", "replay.json")
            rc, _, err = run([exe, "--property", prop, "--tier", d["tier"], "--only", "%s/%s" % (x["shape"], x["scenario"]),
                  "--replay", x["choices"], "--out", rep], 120, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            r = json.load(open(rep)) if os.path.exists(rep) else dict(violations=[])
            for w in r["violations"]: print(w["sig"])
            bad += bool(r["violations"]) or rc != 0
        elif e.startswith("conc-"):
            exe, env = conc_build()
            x = v["detail"]
            rep = os.path.join(TARGET, "reports", "replay.json")
            rc, _, err = run([exe, "--property", prop, "--tier", d["tier"], "--only", x["scenario"]] +
                  (["--replay", x["choices"]] if x.get("choices") else []) + ["--out", rep], 120,
                  env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            print(err[-5000:])
            r = json.load(open(rep)) if os.path.exists(rep) else dict(violations=[])
            for w in r["violations"]: print(w["sig"])
            bad += bool(r["violations"]) or rc != 0
        elif e in ("sigs", "vis"):
            import sigs
            for w in (sigs.replay if e == "sigs" else sigs.replay_vis)([v["detail"]["item"]]):
                print(w["sig"]); print(w["detail"].get("error", "")); bad += 1
        elif e == "hyg":
            import hyg
            for w in hyg.replay([v["detail"]["item"]]):
                print(w["sig"]); print(w["detail"].get("error", "")); bad += 1
        elif e == "orig":
            import orig
            for w in orig.replay([v["detail"]["item"]]):
                print(w["sig"]); print(w["detail"].get("error", "")); bad += 1
        elif e == "cfgs":
            import cfgs
            r = Result(); cfgs.c19(r, prop, "thorough", only=[v["detail"]["item"]])
            for w in r.violations: print(w["sig"]); print(w["detail"].get("error", "")); bad += 1
        else:
            print(json.dumps(v, indent=1)); bad += 1
    return 1 if bad else 0

_SEQT = ("Explicit-state enumeration of all bounded operation histories of a reference model, "
         "each history replayed step by step against the real generated mocks (conformance of every step: values, panics, closure log, final drops)")
_SEQN = ("Exhaustive within the stated bounds (alphabet, depth, number of expectations; see DESIGN.md and the evidence file) over 19 generated mock shapes "
         "covering the kinds of mockable functions. Trusts the reference model in mc/engine/src/model.rs, rustc, and that behaviour beyond the bounds follows the same rules. ")
NOTES = {p: (_SEQT, _SEQN) for p in SEQ}
NOTES["C21"] = (_SEQT + ", with and without the nightly feature", _SEQN)
_CT = ("Stateless model checking of the real code: every schedule (all of them with sleep-set reduction, or all up to a preemption bound) "
       "of every program in a bounded space, under a controlled scheduler; each execution's outcome must be explained by a sequential order of the reference model that respects real time")
_CN = ("Exhaustive within the stated bounds (programs of 2-3 threads with 1-3 operations each; preemption bounds per program class, see the evidence file). "
       "mockall and the generated mocks are compiled unmodified against a shim of std::sync whose locks and atomics are scheduling points; "
       "sequentially consistent memory, so weak-memory effects are out of scope. ")
for p in CONC: NOTES[p] = (_CT, _CN)
NOTES["C16"] = ("Stateless model checking of the real proc macros: every alternative of every nondeterministic choice they make (hash iteration order, clock, environment, pid) up to a deviation bound, "
    "and every ordered pair of invocations in one compiler process; all expansions of one input must be equal",
    "Exhaustive within the stated bounds over a corpus of macro inputs plus the crate's own tests and examples. The macros are compiled unmodified against a shim of std::collections, std::env, std::time and std::process; "
    "nondeterminism which does not come from there or from previous expansions is only caught by the repeated runs. Whitespace is not compared.")
NOTES["C17"] = ("Exhaustive enumeration of all use-trees up to a size bound, of decorated items and of rejected forms; each is expanded and compiled by the real macro in a test and in a non-test build, "
    "and every resulting name is compared with the one a reference resolver of the rules predicts",
    "Exhaustive within the stated bounds (leaves, depth, renames, over three nested modules). Trusts rustc's name resolution.")
NOTES["C18"] = ("Exhaustive enumeration of a grammar of mockable signatures (host form x receiver x arguments x return type x qualifier) up to a number of deviations from a default one; "
    "each is mocked by the real macros, compiled, and driven through every way of setting an expectation, calls through generic code written against the original, and verification",
    "Exhaustive within the stated bounds: quick leaves out pairs of features that involve a second argument, thorough covers all pairs and all (host, receiver, return) triples. "
    "Combinations that mockall's documentation or its own error messages exclude are left out (the rules in tools/gen_sigs.py).")
NOTES["C19"] = ("Exhaustive enumeration of the configurations (all subsets of disabled items, all single items in every state, alternatives, whole impls, modules and items, pairs of neutral attributes) of mocks whose parts carry cfg attributes; "
    "each is compiled with the real macros, and driven: every enabled item together and alone through calls, checkpoints and drops; probes show that nothing of a disabled item is left",
    "Exhaustive within the stated bounds over a fixed set of items per kind of host. Disabled items mention types which do not exist. Trusts rustc's evaluation of cfg.")
NOTES["C25"] = ("Exhaustive enumeration of items (15 kinds of traits, impls and modules x all pairs of 44 features), each compiled with and without #[automock] and driven through the same history; "
    "both versions must have the same observable effects, including the lints they cause",
    "Exhaustive within the feature lists of tools/gen_orig.py (quick: all pairs on four kinds of items, selected pairs on the others; thorough: all ordered pairs). Trusts rustc. ")
NOTES["C24"] = ("Exhaustive enumeration of the programs in which a user's item (argument, method, type parameter, type, trait, associated type, lifetime, module, or item in scope) has a name from a set "
    "that contains every identifier of the macros' own expansions; each is expanded by the real macros, compiled and driven, and values, matching and messages are compared with what they are under any other name",
    "Exhaustive within the stated set of names and kinds of program; the set is taken from the current tree's expansions, and a fixed list. Names of Rust's prelude, of built-in macros and attributes, with the prefixes __ and mockall, "
    "and of mockall's interface (new, checkpoint) are out of scope.")
NOT_APPLICABLE = {}
