"""C17: bounded enumeration of everything #[double] may be applied to.

A small tree of modules contains each item together with its mock counterpart,
each with an id of its own.  Every generated case applies #[double] to one item;
the oracle is a direct evaluation of the use-tree or alias: a name resolves to
the item named (non-test) or its counterpart (test) and every other name keeps
resolving to the sentinel that a glob import supplies.
"""
import itertools

# (name, kind); kind: t type, f function, m module, c constant
ITEMS = {
    "base": [("Foo", "t"), ("func", "f"), ("inner", "m")],
    "base::inner": [("Foo", "t"), ("func", "f"), ("deep", "m")],
    "base::inner::deep": [("Foo", "t"), ("func", "f"), ("leaf", "m")],
}
ODD = [("T", "t"), ("Foo2", "t"), ("MockFoo", "t"), ("lower_t", "t"), ("r#type", "f"), ("r#Raw", "t"), ("Élan", "t"), ("élan", "f"),
       ("mock_func", "f"), ("x", "f"), ("Enm", "e"), ("Trt", "d"), ("CamelModule", "m"), ("LIMIT", "c"), ("limit", "c"), ("_under", "f"), ("ßtraße", "f"), ("漢字", "t")]

def unraw(n): return n[2:] if n.startswith("r#") else n

def mock_name(n):
    n = unraw(n)
    return ("Mock" if n[0].isupper() else "mock_") + n

class Ids:
    def __init__(s): s.ids = {}
    def of(s, path):
        return s.ids.setdefault(path, len(s.ids) + 1)

IDS = Ids()

def defn(path, name, kind, body=""):
    i = IDS.of(path + "::" + unraw(name))
    n = name
    if kind == "t": return "pub struct %s {} impl %s { pub const ID: u32 = %d; }" % (n, n, i)
    if kind == "e": return "pub enum %s { A } impl %s { pub const ID: u32 = %d; }" % (n, n, i)
    if kind == "d": return "pub trait %s { } impl dyn %s { pub const ID: u32 = %d; }" % (n, n, i)
    if kind == "f": return "pub fn %s() -> u32 { %d }" % (n, i)
    if kind == "c": return "pub const %s: u32 = %d;" % (n, i)
    return "pub mod %s { pub const ID: u32 = %d; %s }" % (n, i, body)

def module(path, depth=0):
    """Items of a module and, next to them, their mock counterparts"""
    out = []
    items = ITEMS[path] + (ODD if path == "base" else [])
    for name, kind in items:
        sub = path + "::" + name
        body = module(sub) if sub in ITEMS else ""
        # the mock module contains the same names, but other items
        mbody = ""
        if sub in ITEMS:
            for n, k in ITEMS[sub]:
                for x in (n, mock_name(n)):
                    mbody += defn(path + "::mock_" + name, x, k)
        out.append(defn(path, name, kind, body))
        m = mock_name(name)
        if not any(m == n for n, _ in items):
            out.append(defn(path, m, kind, mbody))
        elif kind == "m": raise Exception(name)
    if path == "base":
        for n, g, u in (("Gen", "<T>", "T"), ("Life", "<'a>", "&'a ()"), ("Two", "<A, B>", "(A, B)"), ("Con", "<const N: usize>", "[u8; N]")):
            a = {"<T>": "<T>", "<'a>": "<'a>", "<A, B>": "<A, B>", "<const N: usize>": "<N>"}[g]
            for x in (n, "Mock" + n):
                out.append("pub struct %s%s(pub std::marker::PhantomData<%s>); impl%s %s%s { pub const ID: u32 = %d; }" % (x, g, u, g, x, a, IDS.of("base::" + x)))
    return "\n".join(out)

def kinds():
    return {path + "::" + unraw(n): k for path, l in ITEMS.items() for n, k in l + (ODD if path == "base" else [])}

def use_id(name, kind):
    """An expression for the id of a local name"""
    return {"t": "%s::ID", "e": "%s::ID", "m": "%s::ID", "f": "%s()", "c": "%s", "d": "<dyn %s>::ID"}[kind] % name

RENAMES = [("Ren", "ren"), ("Sen", "sen"), ("Ten", "ten")]

def leaves(path, r):
    """Leaf trees: (text, [(orig path, local name, kind)])"""
    for n, k in ITEMS[path]:
        yield n, ((path + "::" + n, n, k),)
        yield "%s as @%s" % (n, k), ((path + "::" + n, "@", k),)

def trees(path, budget, depth, renames=(0, 1)):
    """All use-trees below `path` with at most `budget` leaves"""
    for n, k in ITEMS[path]:
        p = path + "::" + n
        yield n, ((p, n, k),)
        for v in renames:
            # rename to either an upper or a lower case name
            yield "%s as @%d" % (n, v), ((p, "@%d" % v, k),)
        if p in ITEMS and depth:
            for t, l in trees(p, budget, depth - 1, renames): yield "%s::%s" % (n, t), l
    if depth:
        for k in range(1, budget + 1):
            for split in compositions(budget, k):
                for combo in itertools.product(*[list(trees(path, b, depth - 1, renames)) for b in split]):
                    if all(len(l) == b for (_, l), b in zip(combo, split)):
                        yield "{%s}" % ", ".join(t for t, _ in combo), tuple(x for _, l in combo for x in l)

def compositions(n, k):
    """all ways to write numbers <= n as a sum of k positive parts"""
    for total in range(k, n + 1):
        def go(t, k):
            if k == 1: yield (t,); return
            for a in range(1, t - k + 2):
                for r in go(t - a, k - 1): yield (a,) + r
        yield from go(total, k)

def number(t, l):
    """Fill in distinct names for the renamed leaves; None if local names clash"""
    out, i = [], 0
    parts = t.split("@")
    s = parts[0]
    names = []
    for p in parts[1:]:
        nm = RENAMES[i][0 if p[0] == "0" else 1]
        i += 1
        names.append(nm)
        s += nm + p[1:]
    it = iter(names)
    res = [(p, next(it) if loc.startswith("@") else loc, k) for p, loc, k in l]
    locs = [x[1] for x in res]
    return (s, res) if len(set(locs)) == len(locs) else None

def use_cases(tier):
    """(text after `use`, [(path, local, kind)])"""
    seen = set()
    big = 3 if tier == "quick" else 4
    for budget, depth, renames in ((1, 4, (0, 1)), (2, 3, (0, 1)), (3, 2, (0, 1)), (3, 3, ()), (2, 4, (0,))) + (((3, 3, (0, 1)), (4, 2, ())) if tier != "quick" else ()):
        for t, l in trees("base", budget, depth, renames):
            if len(l) > budget: continue
            r = number(t, l)
            if r is None: continue
            s = "base::" + r[0]
            if s in seen: continue
            seen.add(s)
            yield s, r[1]

NAMES = None
def all_names():
    """every (name, kind) a case may see, and what the sentinel provides"""
    n = {}
    for path, l in ITEMS.items():
        for x, k in l: n[x] = k; n[mock_name(x)] = k
    for a, b in RENAMES: n[a] = "t"; n[b] = "f"
    return n

def sentinel():
    out = []
    for n, k in sorted(all_names().items()):
        out.append(defn("sentinel", n, k))
    return "\n".join(out)

def expect(path, test):
    if not test: return IDS.of(path)
    p, n = path.rsplit("::", 1)
    return IDS.of(p + "::" + mock_name(n))

PRELUDE = """#![allow(unused, dead_code, non_camel_case_types, non_snake_case, non_upper_case_globals, uncommon_codepoints, mixed_script_confusables, confusable_idents, macro_expanded_macro_exports_accessed_by_absolute_paths)]
use mockall_double::double;
pub static BAD: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
pub static DONE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
const T: bool = cfg!(test);
fn ck(case: &str, name: &str, got: u32, real: u32, mock: u32) {
    DONE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let want = if T { mock } else { real };
    if got != want { BAD.lock().unwrap().push(format!("BAD\\t{case}\\t{name} resolves to {got}, should be {want}")); }
}
"""

def checks(key, imported, where="", extra=()):
    """Rust statements verifying what each local name resolves to"""
    out = []
    loc = {unraw(l): (p, k) for p, l, k in imported}
    for p, l, k in imported:
        out.append('ck(%s, "%s", %s, %d, %d);' % (key, l, use_id(where + l, k), expect(p, False), expect(p, True)))
    an = all_names()
    others = {}
    for p, l, k in imported:
        o = p.rsplit("::", 1)[1]
        for x in (o, mock_name(o), mock_name(l)):
            if x not in loc and x in an: others[x] = an[x]
    for x, k in list(others.items()) + [(x, an[x]) for x in extra]:
        out.append('ck(%s, "%s", %s, %d, %d);' % (key, x, use_id(where + x, k), IDS.of("sentinel::" + x), IDS.of("sentinel::" + x)))
    return " ".join(out)

def rlit(s): return 'r#"%s"#' % s

def plain_case(n, tree, imported):
    key = "use " + tree
    return key, "mod c%d { use crate::{base, double, ck, sentinel::*}; #[double] use %s; pub fn check() { %s } }" % (n, tree, checks(rlit(key), imported))

# Prefixes, visibilities and attributes, around a few representative trees
PREFIX = ["base", "crate::base", "self::base", "super::base", "super::super::base", "self::super::base"]
VIS = ["", "pub", "pub(crate)", "pub(super)", "pub(self)", "pub(in crate::%s)"]
ATTRS = [("", ""), ("#[allow(unused_imports)]", ""), ("", "#[allow(unused_imports)]"), ("#[cfg(all())]", ""), ("", "#[cfg(all())]"), ("", "#[doc(hidden)]"),
         ("#[doc = \"x\"]", ""), ("", "/** doc */"), ("#[cfg_attr(all(), doc(hidden))]", "#[rustfmt::skip]"), ("", "#[cfg_attr(any(), cfg(any()))]")]
OFF = [("#[cfg(any())]", ""), ("", "#[cfg(any())]"), ("", "#[cfg_attr(all(), cfg(any()))]")]
FEW = [("%s::Foo", [("base::Foo", "Foo", "t")]), ("%s::func", [("base::func", "func", "f")]), ("%s::inner", [("base::inner", "inner", "m")]),
       ("%s::Foo as Ren", [("base::Foo", "Ren", "t")]), ("%s::{Foo, inner::func}", [("base::Foo", "Foo", "t"), ("base::inner::func", "func", "f")])]

def decor_cases():
    """(key, text, call)"""
    n = 0
    for (tree, imp), pre, vis, (a, b) in itertools.product(FEW, PREFIX, VIS, ATTRS + OFF):
        n += 1
        off = (a, b) in OFF
        m = "d%d" % n
        v = vis % m if "%s" in vis else vis
        key = "%s #[double] %s %s use %s" % (a, b, v, tree % pre)
        local = imp
        inside = checks(rlit(key + " [inside]"), [] if off else local, extra=[l for _, l, _ in local] if off else [])
        def outside(tag, visible):
            vis_ = visible and not off
            return "{ use crate::sentinel::*; { use crate::%s::q::*; %s } }" % (m, checks(rlit(key + " [" + tag + "]"), local if vis_ else [], extra=[] if vis_ else [l for _, l, _ in local]))
        parent = v not in ("", "pub(self)")
        crate_ = v in ("pub", "pub(crate)")
        # pub(in crate::dN) and pub(super) reach dN but not the crate root
        text = "mod %s { use crate::{base, double, ck}; pub mod q { use crate::{base, double, ck}; mod s { pub use crate::sentinel::*; } use s::*; %s #[double] %s %s use %s; pub fn check() { %s } } pub fn near() { %s } } fn far_%s() { %s }" % (
            m, a, b, v, tree % pre, inside, outside("parent", parent), m, outside("crate", crate_))
        yield key, text, "%s::q::check(); %s::near(); far_%s();" % (m, m, m)

ALIAS = [  # (generics, where, target with mock name as %s, plain name, how to ask the alias)
    ("", "", "%s", "Foo", "A::ID"), ("", "", "inner::%s", "Foo", "A::ID"), ("", "", "inner::deep::%s", "Foo", "A::ID"),
    ("<T>", "", "%s<T>", "Gen", "A::<u8>::ID"), ("", "", "%s<u8>", "Gen", "A::ID"), ("", "", "%s<base::Foo>", "Gen", "A::ID"), ("<T>", "", "%s<Vec<T>>", "Gen", "A::<u8>::ID"),
    ("<T = u8>", "", "%s<T>", "Gen", "A::<u8>::ID"), ("<'a>", "", "%s<'a>", "Life", "A::<'static>::ID"), ("", "", "%s<'static>", "Life", "A::ID"),
    ("<A_, B_>", "", "%s<B_, A_>", "Two", "A::<u8, u16>::ID"), ("<A_>", "", "%s<A_, base::Gen<A_>>", "Two", "A::<u8>::ID"), ("<const N: usize>", "", "%s<N>", "Con", "A::<3>::ID"), ("", "", "%s<{ 1 + 2 }>", "Con", "A::ID"),
    ("", "", "%s", "T", "A::ID"), ("", "", "%s", "Foo2", "A::ID"), ("", "", "%s", "MockFoo", "A::ID"), ("", "", "%s", "lower_t", "A::ID"), ("", "", "%s", "r#Raw", "A::ID"), ("", "", "%s", "Élan", "A::ID"), ("", "", "%s", "漢字", "A::ID"), ("", "", "%s", "Enm", "A::ID"),
]
# a lower case type's counterpart follows the naming rule, whatever it is
def alias_cases():
    n = 0
    for (g, w, tgt, name, ask), pre, vis, (a, b) in itertools.product(ALIAS, PREFIX[:4] + ["::%s::base"], ["", "pub", "pub(crate)", "pub(super)"], ATTRS[:7]):
        if "::%s" in pre: continue
        n += 1
        path = "base::" + (tgt.split("%s")[0]) + unraw(name)
        t = pre + "::" + tgt % name
        key = "%s #[double] %s %s type A%s = %s" % (a, b, vis, g, t)
        yield key, "mod a%d { use crate::{base, double, ck}; mod s { pub struct MockA {} impl MockA { pub const ID: u32 = 9999; } } use s::*; %s #[double] %s %s type A%s = %s; pub fn check() { ck(%s, \"A\", %s, %d, %d); ck(%s, \"MockA\", MockA::ID, 9999, 9999); } }" % (
            n, a, b, vis, g, t, rlit(key), ask, expect(path, False), expect(path, True), rlit(key)), "a%d::check();" % n

def odd_cases():
    n = 0
    for name, kind in ODD:
        for tree, loc in (("%s", name), ("%s as ren", "ren"), ("%s as Ren", "Ren"), ("{%s, inner::Foo as Sen}", name), ("%s as r#match", "r#match")):
            n += 1
            imp = [("base::" + unraw(name), loc, kind)] + ([("base::inner::Foo", "Sen", "t")] if "Sen" in tree else [])
            key = "use base::" + tree % name
            yield key, "mod o%d { use crate::{base, double, ck, sentinel::*}; #[double] use base::%s; pub fn check() { %s } }" % (n, tree % name, checks(rlit(key), imp)), "o%d::check();" % n
    # a name without any path, renamed: taken from the current module
    for loc in ("Ren", "ren"):
        for name, kind in (("Foo", "t"), ("func", "f"), ("inner", "m")):
            n += 1
            key = "use %s as %s" % (name, loc)
            yield key, "mod o%d { use crate::{double, ck, base::*}; #[double] use %s as %s; pub fn check() { %s } }" % (n, name, loc, 'ck(%s, "%s", %s, %d, %d);' % (
                rlit(key), loc, use_id(loc, kind), expect("base::" + name, False), expect("base::" + name, True))), "o%d::check();" % n
    for tr, how in (("Trt as _", "x.t()"), ("{Trt2 as _}", "x.t()"), ("Trt2 as Foo", "Foo::t(x)"), ("Trt2", "Trt2::t(x)")):
        n += 1
        nm = "Trt" if "2" not in tr else "Trt2"
        key = "use tr::" + tr
        yield key, ("mod o%d { use crate::{double, ck}; pub mod tr { pub trait %s { fn t(&self) -> u32 { 1 } } pub trait Mock%s { fn t(&self) -> u32 { 2 } } impl %s for u8 {} impl Mock%s for u8 {} } #[double] use tr::%s; "
               "pub fn check() { let x = &1u8; ck(%s, \"t\", %s, 1, 2); } }") % (n, nm, nm, nm, nm, tr, rlit(key), how), "o%d::check();" % n

# Unsupported: must not compile in a test build
REJECT = (["use base::*", "use base::inner::*", "use base::{inner::*}", "use base::{Foo, *}", "use base::{Foo, inner::{func, *}}", "pub use base::*", "use crate::base::*", "use base", "use Foo", "pub use func",
           "use base::{{*}}", "use {base::*, base::Foo}", "use base::inner::{self}", "use base::inner::{self, Foo}", "use base::inner::{self as Ren}"]
          + ["type A = %s" % t for t in ("&'static base::Foo", "&'static mut base::Foo", "(base::Foo,)", "(base::Foo, base::Foo)", "()", "[base::Foo; 2]", "[base::Foo]", "fn() -> base::Foo", "dyn base::Trt", "(base::Foo)", "!", "*const base::Foo",
                                         "Box<base::Foo>", "Option<base::Foo>", "u32", "impl Sized", "dyn Fn(base::Foo)", "vec![]")]
          + ["type A<T> = T", "type A = <u8 as base::Asc>::Out"])
REJECT_ITEMS = ["fn f() {}", "pub fn f(x: u32) -> u32 { x }", "struct S {}", "struct S;", "struct S(u32);", "enum E { A }", "union U { a: u32 }", "trait Tr { }", "trait Tr { fn f(&self); }", "impl base::Foo { fn zz(&self) {} }", "mod mm { }", "mod mm { pub fn f() {} }",
                "const C: u32 = 1;", "static S: u32 = 1;", "extern crate core;", "extern \"C\" { fn f(); }", "macro_rules! mm { () => {} }", "pub struct S<T>(T);", "unsafe trait Tr {}", "impl base::Trt for base::Foo {}"]

def reject_cases():
    n = 0
    for r in [x + ";" for x in REJECT] + REJECT_ITEMS:
        n += 1
        yield "#[double] " + r, "mod r%d { use crate::{base, double}; #[double] %s }" % (n, r)

def base_module():
    return ("pub mod base { " + module("base") + " pub trait Asc { type Out; } impl Asc for u8 { type Out = Foo; } }").replace("\n", " ") + "\npub mod sentinel { " + sentinel().replace("\n", " ") + " }"
