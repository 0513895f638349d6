//! The bounded spaces of histories explored for each property.
use engine::explore::Scenario;
use engine::*;

type Sc = (String, Scenario);

pub fn call(f: usize, args: &[V]) -> HOp {
    HOp::Call { f, args: args.to_vec(), set: None, other: false }
}
pub fn expect(f: usize, ops: Vec<Op>) -> HOp {
    HOp::Expect { f, ops, on_guard: false }
}
pub fn expect_g(f: usize, ops: Vec<Op>) -> HOp {
    HOp::Expect { f, ops, on_guard: true }
}

pub fn tuples(m: &FnMeta) -> Vec<Vec<V>> {
    let mut r = vec![vec![]];
    for _ in 0..m.arity {
        let mut n = vec![];
        for t in &r { for v in 0..m.dom { let mut t: Vec<V> = t.clone(); t.push(v); n.push(t); } }
        r = n;
    }
    // vary the first argument fastest
    for t in &mut r { t.reverse(); }
    r
}

/// A few argument tuples that tell the matchers below apart
pub fn few(m: &FnMeta) -> Vec<Vec<V>> {
    if m.arity == 0 { return vec![vec![]]; }
    let mut b = vec![0; m.arity];
    let a = b.clone();
    b[0] = 1;
    vec![a, b]
}

/// Matching function accepting exactly the tuples whose first argument is v
pub fn table_first(m: &FnMeta, v: V) -> u32 {
    let mut t = 0;
    for x in tuples(m) { if x[0] == v { t |= 1 << tuple_index(&x, m.dom); } }
    t
}
pub fn table_all(m: &FnMeta) -> u32 {
    let mut t = 0;
    for x in tuples(m) { t |= 1 << tuple_index(&x, m.dom); }
    t
}
pub fn m_first(m: &FnMeta, v: V, pred: bool) -> Op {
    if pred && m.with {
        let mut s = vec![0b111; m.arity];
        s[0] = 1 << v;
        Op::Match(MOp::With(s))
    } else {
        Op::Match(MOp::Withf(table_first(m, v), 0))
    }
}
pub fn m_none(m: &FnMeta) -> Op {
    if m.arity > 0 && m.with { Op::Match(MOp::With(vec![0; m.arity])) } else { Op::Match(MOp::Withf(0, 0)) }
}

/// The most telling return action: a closure where possible
pub fn ret(m: &FnMeta, v: V) -> Op {
    Op::Ret(match m.class { RetClass::Ref => ROp::Const(v % 10), _ => ROp::Mut(v % 10, 0) })
}
pub fn ret_all(m: &FnMeta, v: V) -> Vec<ROp> {
    let mut r = vec![];
    match m.class {
        RetClass::Static => {
            if m.clone { r.push(ROp::Const(v)); r.push(ROp::ConstSt(v)); }
            r.extend([ROp::Mut(v, 0), ROp::MutSt(v, 0), ROp::Once(v, 0), ROp::OnceSt(v, 0)]);
        }
        RetClass::Ref => r.push(ROp::Const(v)),
        RetClass::RefMut => r.extend([ROp::Var(v), ROp::Mut(v, 0), ROp::MutSt(v, 0)]),
    }
    r
}
fn t(f: TF) -> Op { Op::Times(f) }

pub fn is_static(s: &Shape, f: usize) -> bool { s.meta.groups[s.meta.fns[f].group].kind == GKind::Ctx }

/// Shapes made for multi-function scenarios
pub fn composite(s: &Shape) -> bool { matches!(s.meta.name, "duo" | "spec" | "iso" | "mods") }

/// A scenario on a single function
pub fn one(s: &Shape, f: usize, label: &str) -> (String, Scenario) {
    let m = &s.meta.fns[f];
    let mut sc = Scenario::new(format!("{label}/{f}:{}", m.cname));
    sc.init = vec![HOp::Create(m.group)];
    let g = m.group;
    // functions that share a static store share the lock
    let lock = if is_static(s, f) { format!("g{g}") } else { format!("f{f}") };
    (lock, sc)
}

pub fn scenarios(prop: &str, thorough: bool, nightly: bool, s: &Shape) -> Vec<Sc> {
    let mut out: Vec<Sc> = vec![];
    let nf = s.meta.fns.len();
    let comp = composite(s);
    let deeper = thorough;
    // cheap enough to be complete at the larger bounds every time
    let thorough = thorough || matches!(prop, "C06" | "C09" | "C10" | "C11" | "C20" | "C22" | "C23");
    match prop {
        "C01" => for f in 0..nf { if !comp { c01(s, f, thorough, &mut out) } },
        "C02" => for f in 0..nf { if !comp { c02(s, f, thorough, &mut out) } },
        "C03" => for f in 0..nf { if !comp { c03(s, f, thorough, &mut out) } },
        "C04" => { c04(s, thorough, &mut out); for f in 0..nf { if !comp { c04_single(s, f, thorough, &mut out) } } }
        "C05" => { c05(s, thorough, &mut out); for f in 0..nf { if !comp { c05_single(s, f, thorough, &mut out) } } }
        "C06" => { for f in 0..nf { if is_static(s, f) { c06(s, f, deeper, &mut out) } } }
        "C07" | "C21" => for f in 0..nf { if !comp { c07(s, f, thorough, nightly, &mut out) } },
        "C08" => for f in 0..nf { if !comp { c08(s, f, thorough, &mut out) } },
        "C09" => for f in 0..nf { if !comp { c09(s, f, thorough, &mut out) } },
        "C10" => for f in 0..nf { if !comp { c10(s, f, thorough, &mut out) } },
        "C11" => c11(s, thorough, &mut out),
        "C15" => c15(s, thorough, &mut out),
        "C20" => for f in 0..nf { c20(s, f, thorough, &mut out) },
        "C22" => for f in 0..nf { if !comp { c22(s, f, thorough, &mut out); c22_forms(s, f, deeper, &mut out) } },
        "C23" => for f in 0..nf { if !comp { c23(s, f, thorough, &mut out) } },
        _ => panic!("unknown property {prop}"),
    }
    if deeper {
        let more = match prop { "C06" | "C11" | "C22" => 1, "C20" | "C23" => 2, _ => 0 };
        for (_, sc) in &mut out { if sc.depth > 0 { sc.depth += more; } }
    }
    // Merging equal model states would hide state which only the code has:
    // also explore every history without merging, as deep as affordable.
    let mut all = vec![];
    for (l, sc) in out.iter().filter(|x| x.1.dedupe) {
        let n = sc.alphabet.len();
        let mut sc = sc.clone();
        sc.dedupe = false;
        sc.label = format!("unmerged-{}", sc.label);
        sc.depth = (1..=sc.depth).rev().find(|d| n.pow(*d as u32) <= if deeper { 200_000 } else if matches!(prop, "C05" | "C11" | "C15" | "C23") { 2_000 } else { 10_000 }).unwrap_or(1);
        all.push((l.clone(), sc));
    }
    out.extend(all);
    let thorough = deeper;
    crate::scale::scenarios(prop, thorough, s, &mut out);
    out
}

/// Dispatch: all lists of up to 3 expectations (matcher x bound) interleaved
/// with calls and checkpoints.
fn c01(s: &Shape, f: usize, thorough: bool, out: &mut Vec<Sc>) {
    let m = &s.meta.fns[f];
    let (lock, mut sc) = one(s, f, "dispatch");
    sc.depth = if thorough { 6 } else { 5 };
    sc.max_expects = 3;
    let al = &mut sc.alphabet;
    al.push(expect(f, vec![ret(m, 1)]));
    al.push(expect(f, vec![t(TF::N(1)), ret(m, 2)]));
    if m.arity > 0 {
        al.push(expect(f, vec![m_first(m, 0, true), t(TF::RTI(1)), ret(m, 3)]));
        al.push(expect(f, vec![m_first(m, 1, false), ret(m, 4)]));
        if thorough { al.push(expect(f, vec![m_first(m, 0, false), t(TF::N(2)), ret(m, 6)])); }
    } else {
        al.push(expect(f, vec![t(TF::RI(1, 2)), ret(m, 3)]));
    }
    al.push(expect(f, vec![t(TF::Never), ret(m, 5)]));
    for a in few(m) { al.push(call(f, &a)); }
    if s.meta.groups[m.group].fns.len() < 8 || thorough { al.push(HOp::Ckpt(m.group)); }
    out.push((lock.clone(), sc.clone()));
    // deeper, merging equal model states
    sc.label = sc.label.replace("dispatch", "dispatch-deep");
    sc.dedupe = true;
    sc.depth = if thorough { 10 } else { 7 };
    sc.max_expects = 4;
    out.push((lock, sc));
}

pub fn all_tf(n: usize) -> Vec<TF> {
    let mut r = vec![TF::Full, TF::Never, TF::Once];
    for a in 0..=n {
        r.extend([TF::N(a), TF::RF(a), TF::RT(a), TF::RTI(a)]);
        for b in 0..=n { r.extend([TF::R(a, b), TF::RI(a, b)]); }
    }
    r
}
fn extreme_tf() -> Vec<TF> {
    let x = usize::MAX;
    vec![TF::N(x), TF::RF(x), TF::RT(x), TF::RTI(x), TF::R(0, x), TF::R(1, x), TF::RI(0, x), TF::RI(1, x), TF::RI(x, x),
        TF::N(x - 1), TF::RF(x - 1), TF::RT(x - 1), TF::RTI(x - 1), TF::R(x - 1, x), TF::RI(x - 1, x - 1), TF::RI(0, x - 1),
        TF::R(x, x), TF::R(x, 0), TF::RI(x, 0), TF::RI(1, 0)]
}

/// Every form of bound, called 0..hi+2 times
fn c02(s: &Shape, f: usize, thorough: bool, out: &mut Vec<Sc>) {
    let m = &s.meta.fns[f];
    let a = &few(m)[0];
    let n = if thorough { 4 } else { 3 };
    let mut tfs = all_tf(n);
    tfs.extend(extreme_tf());
    let (lock, base) = one(s, f, "");
    let g = is_static(s, f);
    for (k, tf) in tfs.iter().enumerate() {
        for guard in [false, true] {
            if guard && !g { continue; }
            let mut sc = base.clone();
            sc.label = format!("bound{}{}", k, if guard { "g" } else { "" }) + &base.label;
            sc.init.push(HOp::Expect { f, ops: vec![ret(m, 1), t(tf.clone())], on_guard: guard });
            sc.alphabet = vec![call(f, a)];
            sc.depth = n + 2;
            out.push((lock.clone(), sc));
        }
    }
    // next to another expectation, before or after it; and rebinding
    let small: Vec<TF> = all_tf(2).into_iter().filter(|x| x.bounds().is_some()).collect();
    for (k, tf) in small.iter().enumerate() {
        for (j, other) in [TF::N(1), TF::Never, TF::Full, TF::R(0, 2)].iter().enumerate() {
            for order in 0..2 {
                let mut sc = base.clone();
                sc.label = format!("pair{k}-{j}-{order}") + &base.label;
                let x = expect(f, vec![t(tf.clone()), ret(m, 1)]);
                let y = expect(f, vec![t(other.clone()), ret(m, 5)]);
                sc.init.extend(if order == 0 { [x, y] } else { [y, x] });
                sc.alphabet = vec![call(f, a)];
                sc.depth = 5;
                out.push((lock.clone(), sc));
            }
            let mut sc = base.clone();
            sc.label = format!("rebind{k}-{j}") + &base.label;
            sc.init.push(expect(f, vec![t(other.clone()), ret(m, 1), t(tf.clone())]));
            sc.alphabet = vec![call(f, a)];
            sc.depth = 4;
            out.push((lock.clone(), sc));
        }
    }
}

/// Verification at drop, at every point of every history
fn c03(s: &Shape, f: usize, thorough: bool, out: &mut Vec<Sc>) {
    let m = &s.meta.fns[f];
    let (lock, mut sc) = one(s, f, "verify");
    sc.messages = true;
    let tfs = if thorough {
        vec![TF::N(0), TF::N(1), TF::N(2), TF::RF(1), TF::RF(2), TF::RI(1, 2), TF::RT(2), TF::R(1, 2), TF::RTI(1), TF::Full, TF::Once]
    } else {
        vec![TF::N(1), TF::N(2), TF::RF(1), TF::RI(1, 2), TF::RT(2)]
    };
    for (i, tf) in tfs.iter().enumerate() {
        let mut ops = vec![t(tf.clone()), ret(m, i as V)];
        if m.arity > 0 && i % 2 == 1 { ops.push(m_first(m, 0, i % 4 == 1)); }
        sc.alphabet.push(expect(f, ops));
    }
    sc.alphabet.push(expect(f, vec![ret(m, 9)]));
    for a in few(m) { sc.alphabet.push(call(f, &a)); }
    sc.max_expects = 3;
    sc.depth = 5;
    sc.dedupe = true;
    if !is_static(s, f) {
        let mut sc2 = sc.clone();
        sc2.label = sc.label.replace("verify", "verify-elsewhere");
        sc2.drop_elsewhere = true;
        sc2.depth = 4;
        sc2.max_expects = 2;
        out.push((lock.clone(), sc2));
    }
    out.push((lock, sc));
}

/// Sequences over several functions, objects and static functions
fn c04(s: &Shape, thorough: bool, out: &mut Vec<Sc>) {
    let name = s.meta.name;
    if !composite(s) { return; }
    let pick: Vec<Vec<usize>> = match name {
        // a.in0, a.in1<u32>, a.in2, a.ta0, b.in0, is0, is1<u32>
        "duo" => vec![vec![0, 3, 10], vec![0, 5, 1], vec![4, 8, 14], vec![10, 15, 17]],
        "spec" => vec![vec![0, 1, 2]],
        "iso" => vec![vec![0, 1, 4], vec![2, 3, 5]],
        "mods" => vec![vec![0, 1, 2]],
        _ => return,
    };
    for (k, fs) in pick.iter().enumerate() {
        let fs: Vec<usize> = fs.iter().copied().filter(|f| *f < s.meta.fns.len()).collect();
        for two in [false, true] {
            let mut sc = Scenario::new(format!("seq{k}{}", if two { "-two" } else { "" }));
            for g in 0..s.meta.groups.len() {
                if s.meta.groups[g].kind != GKind::CkptOnly { sc.init.push(HOp::Create(g)); }
            }
            sc.dedupe = true;
            sc.depth = if thorough { 9 } else if two { 6 } else { 7 };
            sc.max_expects = if two { 4 } else { 3 };
            for f in &fs {
                let m = &s.meta.fns[*f];
                for q in 0..(if two { 2 } else { 1 }) {
                    for c in if two { vec![1] } else { vec![1, 2, 0] } {
                        sc.alphabet.push(expect(*f, vec![t(TF::N(c)), Op::Seq(q), ret(m, c as V + 1)]));
                    }
                }
            }
            // one expectation outside of any sequence
            let m = &s.meta.fns[fs[0]];
            if !two { sc.alphabet.push(expect(fs[0], vec![t(TF::RTI(1)), ret(m, 7)])); }
            for f in &fs { sc.alphabet.push(call(*f, &few(&s.meta.fns[*f])[0])); }
            out.push(("*".into(), sc));
        }
    }
}

/// Sequences within one function of every kind, and rejection of inexact counts
fn c04_single(s: &Shape, f: usize, thorough: bool, out: &mut Vec<Sc>) {
    let m = &s.meta.fns[f];
    let (lock, mut sc) = one(s, f, "seq1");
    sc.dedupe = true;
    sc.depth = if thorough { 8 } else { 6 };
    sc.max_expects = 3;
    let q = |x: usize, op: Vec<Op>| { let mut v = op; v.push(Op::Seq(x)); v };
    for c in [1, 2] { sc.alphabet.push(expect(f, q(0, vec![t(TF::N(c)), ret(m, c as V)]))); }
    if m.arity > 0 { sc.alphabet.push(expect(f, q(0, vec![m_first(m, 1, true), t(TF::N(1)), ret(m, 5)]))); }
    sc.alphabet.push(expect(f, q(0, vec![t(TF::Never), ret(m, 7)])));
    for a in few(m) { sc.alphabet.push(call(f, &a)); }
    out.push((lock.clone(), sc));
    let (_, base) = one(s, f, "");
    for (k, tf) in all_tf(2).into_iter().enumerate() {
        if tf.bounds().is_none() { continue; }
        for guard in [false, true] {
            if guard && !is_static(s, f) { continue; }
            let mut sc = base.clone();
            sc.label = format!("exact{k}{guard}{}", base.label);
            sc.init.push(HOp::Expect { f, ops: vec![ret(m, 1), t(tf.clone()), Op::Seq(0)], on_guard: guard });
            sc.init.push(expect(f, vec![t(TF::N(1)), Op::Seq(0), ret(m, 4)]));
            sc.alphabet = vec![call(f, &few(m)[0])];
            sc.depth = 3;
            out.push((lock.clone(), sc));
        }
    }
    let mut sc = base.clone();
    sc.label = format!("nocount{}", base.label);
    sc.init.push(expect(f, vec![Op::Seq(0)]));
    sc.alphabet = vec![call(f, &few(m)[0])];
    sc.depth = 1;
    out.push((lock, sc));
}

fn c05(s: &Shape, thorough: bool, out: &mut Vec<Sc>) {
    // every pair of functions of the shape, with checkpoints of every group
    let nf = s.meta.fns.len();
    let comp = composite(s);
    let mut pairs = vec![];
    for a in 0..nf { for b in 0..nf { if a != b {
        let near = s.meta.fns[a].group == s.meta.fns[b].group;
        if comp || thorough || (near && b == a + 1) || (b + 1 == nf && a == 0) { pairs.push((a, b)); }
    } } }
    for (a, b) in pairs {
        if a > b && !thorough { continue; }
        let mut sc = Scenario::new(format!("pair/{a},{b}"));
        let (ga, gb) = (s.meta.fns[a].group, s.meta.fns[b].group);
        sc.init.push(HOp::Create(ga));
        if ga != gb { sc.init.push(HOp::Create(gb)); }
        for f in [a, b] {
            let m = &s.meta.fns[f];
            sc.alphabet.push(expect(f, vec![t(TF::N(1)), ret(m, 1)]));
            sc.alphabet.push(call(f, &few(m)[0]));
        }
        for (g, gm) in s.meta.groups.iter().enumerate() {
            if gm.fns.contains(&a) || gm.fns.contains(&b) || comp && s.meta.groups.len() < 6 && gm.kind == GKind::CkptOnly { sc.alphabet.push(HOp::Ckpt(g)); }
        }
        sc.depth = if thorough { 6 } else { 5 };
        sc.dedupe = true;
        sc.max_expects = 3;
        out.push(("*".into(), sc));
    }
}

fn c05_single(s: &Shape, f: usize, thorough: bool, out: &mut Vec<Sc>) {
    let m = &s.meta.fns[f];
    let (lock, mut sc) = one(s, f, "ckpt");
    sc.alphabet.push(expect(f, vec![t(TF::N(1)), ret(m, 1)]));
    sc.alphabet.push(expect(f, vec![t(TF::RF(1)), ret(m, 2)]));
    if m.arity > 0 { sc.alphabet.push(expect(f, vec![m_first(m, 1, true), ret(m, 3)])); }
    for a in few(m) { sc.alphabet.push(call(f, &a)); }
    for (g, gm) in s.meta.groups.iter().enumerate() {
        if gm.fns.contains(&f) { sc.alphabet.push(HOp::Ckpt(g)); }
    }
    sc.depth = if thorough { 7 } else { 6 };
    sc.dedupe = !thorough;
    sc.max_expects = 3;
    if lock.starts_with('g') && s.meta.groups.iter().any(|g| g.kind == GKind::CkptOnly) {
        out.push(("*".into(), sc));
    } else {
        out.push((lock, sc));
    }
}

/// Context lifecycle with failures injected everywhere
fn c06(s: &Shape, f: usize, thorough: bool, out: &mut Vec<Sc>) {
    let m = &s.meta.fns[f];
    let (lock, mut sc) = one(s, f, "ctx");
    sc.init.clear();
    let g = m.group;
    sc.alphabet.push(HOp::Create(g));
    sc.alphabet.push(expect(f, vec![t(TF::N(1)), ret(m, 1)]));
    sc.alphabet.push(expect_g(f, vec![ret(m, 2)]));
    sc.alphabet.push(expect(f, vec![t(TF::Never)]));
    // closure that panics, missing return value, rejected configuration
    sc.alphabet.push(expect(f, vec![Op::Ret(ROp::Mut(3, 0b1))]));
    sc.alphabet.push(expect(f, vec![t(TF::R(1, 1))]));
    for a in few(m).iter().take(1) { sc.alphabet.push(call(f, a)); }
    sc.alphabet.push(HOp::Ckpt(g));
    sc.alphabet.push(HOp::Drop(g, false));
    sc.alphabet.push(HOp::Drop(g, true));
    sc.alphabet.push(HOp::InUnwind(vec![HOp::Create(g), expect(f, vec![t(TF::N(1)), ret(m, 1)])]));
    sc.dedupe = true;
    sc.depth = 9;
    sc.max_expects = 3;
    // afterwards, the next test
    sc.probe = vec![HOp::Drop(g, false), call(f, &few(m)[0]), HOp::Create(g), expect(f, vec![t(TF::N(1)), ret(m, 6)]), call(f, &few(m)[0])];
    let mut sc2 = sc.clone();
    out.push((lock.clone(), sc));
    // complete enumeration at a smaller depth
    sc2.label = sc2.label.replace("ctx", "ctx-all");
    sc2.dedupe = false;
    sc2.depth = if thorough { 6 } else { 5 };
    out.push((lock.clone(), sc2.clone()));
    if m.arity > 0 {
        // matcher panics
        let mut sc3 = sc2;
        sc3.label = sc3.label.replace("ctx-all", "ctx-matcher");
        sc3.alphabet[1] = expect(f, vec![Op::Match(MOp::Withf(table_first(m, 0), table_first(m, 1))), t(TF::N(1)), ret(m, 1)]);
        sc3.alphabet.push(call(f, &few(m)[1]));
        sc3.depth = if thorough { 6 } else { 5 };
        out.push((lock, sc3));
    }
}

/// Return actions x call counts x reconfiguration
fn c07(s: &Shape, f: usize, thorough: bool, nightly: bool, out: &mut Vec<Sc>) {
    let m = &s.meta.fns[f];
    let (lock, base) = one(s, f, "");
    let mut rs: Vec<Option<ROp>> = vec![None];
    rs.extend(ret_all(m, 3).into_iter().map(Some));
    rs.extend(ret_all(m, 7).into_iter().map(Some));
    let mut cfgs: Vec<(String, Vec<Op>)> = vec![];
    for (i, a) in rs.iter().enumerate() {
        let mut ops: Vec<Op> = vec![];
        if let Some(a) = a { ops.push(Op::Ret(a.clone())); }
        cfgs.push((format!("ret{i}"), ops.clone()));
        for (j, b) in rs.iter().enumerate() {
            if let (Some(_), Some(b)) = (a, b) {
                let mut o = ops.clone();
                o.push(Op::Ret(b.clone()));
                cfgs.push((format!("ret{i}-{j}"), o));
            }
        }
    }
    for (label, ops) in cfgs {
        for guard in [false, true] {
            if guard && !is_static(s, f) { continue; }
            let mut sc = base.clone();
            sc.label = format!("{label}{}{}", if guard { "g" } else { "" }, base.label);
            sc.init.push(HOp::Expect { f, ops: ops.clone(), on_guard: guard });
            let tu = tuples(m);
            for a in tu.iter().take(if thorough { 4 } else { 2 }) {
                let set = if m.class == RetClass::RefMut && (m.setdef || !nightly) { vec![None, Some(8), Some(5)] } else { vec![None] };
                for st in set { sc.alphabet.push(HOp::Call { f, args: a.clone(), set: st, other: false }); }
            }
            sc.depth = if thorough { 5 } else { 4 };
            out.push((lock.clone(), sc));
        }
    }
    // two expectations keep separate return state
    let mut sc = base.clone();
    sc.label = format!("tworet{}", base.label);
    let r = |v| match m.class { RetClass::Ref => ROp::Const(v), RetClass::RefMut => ROp::Var(v), _ => ROp::Mut(v, 0) };
    sc.init.push(expect(f, vec![t(TF::N(2)), Op::Ret(r(1))]));
    sc.init.push(expect(f, vec![Op::Ret(r(6))]));
    for set in if m.class == RetClass::RefMut { vec![None, Some(8)] } else { vec![None] } {
        sc.alphabet.push(HOp::Call { f, args: few(m)[0].clone(), set, other: false });
    }
    sc.depth = 5;
    out.push((lock, sc));
}

/// Cross-thread use of single-threaded closures
fn c08(s: &Shape, f: usize, thorough: bool, out: &mut Vec<Sc>) {
    let m = &s.meta.fns[f];
    if !m.sync { return; }
    let (lock, base) = one(s, f, "");
    let a = few(m)[0].clone();
    let b = few(m).last().unwrap().clone();
    let mut specs: Vec<(String, Vec<Op>)> = vec![];
    for (i, r) in ret_all(m, 2).into_iter().enumerate() { specs.push((format!("ret{i}"), vec![Op::Ret(r)])); }
    if m.arity > 0 || true {
        let all = table_all(m);
        specs.push(("mst".into(), vec![Op::Match(MOp::WithfSt(all, 0)), ret(m, 3)]));
        specs.push(("m".into(), vec![Op::Match(MOp::Withf(all, 0)), ret(m, 3)]));
        if m.arity > 0 {
            specs.push(("mst0".into(), vec![Op::Match(MOp::WithfSt(table_first(m, 0), 0)), ret(m, 4)]));
        }
    }
    for (l, ops) in specs {
        for before in [false, true] {
            for guard in [false, true] {
                if guard && !is_static(s, f) { continue; }
                let mut sc = base.clone();
                sc.label = format!("{l}{before}{guard}{}", base.label);
                // another, thread-safe, expectation must stay undisturbed
                let plain = if m.arity > 0 { vec![m_first(m, 1, true), ret(m, 9)] } else { vec![t(TF::N(1)), ret(m, 9)] };
                let x = HOp::Expect { f, ops: ops.clone(), on_guard: guard };
                sc.init.extend(if before { vec![expect(f, plain), x] } else { vec![x, expect(f, plain)] });
                for args in [&a, &b] {
                    for other in [false, true] {
                        let h = HOp::Call { f, args: args.clone(), set: None, other };
                        if !sc.alphabet.contains(&h) { sc.alphabet.push(h); }
                    }
                }
                sc.depth = if thorough { 5 } else { 3 };
                out.push((lock.clone(), sc));
            }
        }
    }
}

/// Arguments: every tuple, on success and failure paths
fn c09(s: &Shape, f: usize, thorough: bool, out: &mut Vec<Sc>) {
    let m = &s.meta.fns[f];
    let (lock, base) = one(s, f, "");
    let all = table_all(m);
    let mut cfgs: Vec<Vec<HOp>> = vec![vec![]];
    for r in ret_all(m, 2) { cfgs.push(vec![expect(f, vec![Op::Match(MOp::Withf(all, 0)), Op::Ret(r)])]); }
    // consulted but rejecting matchers before the accepting one
    cfgs.push(vec![expect(f, vec![Op::Match(MOp::Withf(0, 0)), ret(m, 1)]), expect(f, vec![Op::Match(MOp::WithfSt(0, 0)), ret(m, 1)]),
        expect(f, vec![Op::Match(MOp::WithfSt(all, 0)), ret(m, 2)])]);
    cfgs.push(vec![expect(f, vec![m_none(m), ret(m, 2)])]);
    if m.class != RetClass::Ref {
        cfgs.push(vec![expect(f, vec![Op::Ret(ROp::Mut(1, 0b01))])]);
        if m.class == RetClass::Static { cfgs.push(vec![expect(f, vec![Op::Ret(ROp::Once(1, 1))])]); }
    }
    cfgs.push(vec![expect(f, vec![t(TF::N(1)), ret(m, 2)])]);
    cfgs.push(vec![expect(f, vec![])]);
    // calls out of sequence
    if m.arity > 0 {
        cfgs.push([1, 0].iter().map(|v| expect(f, vec![m_first(m, *v, true), t(TF::N(1)), Op::Seq(0), ret(m, 2)])).collect());
    } else {
        cfgs.push(vec![expect(f, vec![t(TF::N(1)), Op::Seq(0), Op::Match(MOp::Withf(0, 0)), ret(m, 2)]), expect(f, vec![t(TF::N(1)), Op::Seq(0), ret(m, 2)])]);
    }
    for (k, c) in cfgs.into_iter().enumerate() {
        let mut sc = base.clone();
        sc.label = format!("arg{k}{}", base.label);
        sc.init.extend(c);
        for a in tuples(m) { sc.alphabet.push(call(f, &a)); }
        sc.depth = if thorough { 3 } else if sc.alphabet.len() > 8 { 1 } else { 2 };
        out.push((lock.clone(), sc));
    }
}

/// Matchers: every acceptance set
fn c10(s: &Shape, f: usize, thorough: bool, out: &mut Vec<Sc>) {
    let m = &s.meta.fns[f];
    let (lock, base) = one(s, f, "");
    let nt = tuples(m).len() as u32;
    let mut ms: Vec<MOp> = vec![];
    let cap: u32 = if thorough { 1 << 16 } else { 1 << 8 };
    let tables: Vec<u32> = if nt <= 16 && (1u32 << nt) <= cap { (0..(1u32 << nt)).collect() } else {
        // all single tuples and complements
        (0..nt).flat_map(|i| [1 << i, !(1 << i) & ((1u32 << nt) - 1)]).collect()
    };
    for t in tables { ms.push(MOp::Withf(t, 0)); if thorough || nt <= 4 { ms.push(MOp::WithfSt(t, 0)); } }
    if m.with && m.arity > 0 {
        let subsets = 1u32 << m.dom;
        let total = subsets.pow(m.arity as u32);
        for mut x in 0..total {
            let mut v = vec![];
            for _ in 0..m.arity { v.push((x % subsets) as u8); x /= subsets; }
            ms.push(MOp::With(v));
        }
    }
    let tu = tuples(m);
    for (k, mo) in ms.iter().enumerate() {
        let mut sc = base.clone();
        sc.label = format!("m{k}{}", base.label);
        // the tested expectation and a catch-all behind it
        sc.init.push(expect(f, vec![Op::Match(mo.clone()), ret(m, 1)]));
        sc.init.push(expect(f, vec![ret(m, 5)]));
        // one history calls with every tuple in turn
        sc.init.extend(tu.iter().map(|a| call(f, a)));
        sc.depth = 0;
        out.push((lock.clone(), sc));
    }
    // the last matcher set wins
    let mut reps: Vec<Option<MOp>> = vec![None, Some(MOp::Withf(table_all(m), 0)), Some(MOp::WithfSt(0, 0))];
    if m.arity > 0 {
        reps.push(Some(MOp::Withf(table_first(m, 0), 0)));
        reps.push(Some(MOp::WithfSt(table_first(m, 1), 0)));
        if m.with {
            let mut v = vec![0b111; m.arity]; v[m.arity - 1] = 0b10; reps.push(Some(MOp::With(v)));
            let mut v = vec![0b111; m.arity]; v[0] = 0b01; reps.push(Some(MOp::With(v)));
        }
    }
    for (i, a) in reps.iter().enumerate() { for (j, b) in reps.iter().enumerate() {
        for guard in [false, true] {
            if guard && !is_static(s, f) { continue; }
            let mut sc = base.clone();
            sc.label = format!("re{i}-{j}-{guard}{}", base.label);
            let mut ops = vec![];
            if let Some(x) = a { ops.push(Op::Match(x.clone())); }
            if let Some(x) = b { ops.push(Op::Match(x.clone())); }
            ops.push(ret(m, 1));
            sc.init.push(HOp::Expect { f, ops, on_guard: guard });
            sc.init.push(expect(f, vec![ret(m, 5)]));
            sc.init.extend(tu.iter().map(|a| call(f, a)));
            sc.depth = 0;
            out.push((lock.clone(), sc));
        }
    } }
}

/// Isolation: all pairs of functions of a shape
fn c11(s: &Shape, thorough: bool, out: &mut Vec<Sc>) {
    let nf = s.meta.fns.len();
    let comp = composite(s);
    for a in 0..nf { for b in (a + 1)..nf {
        let (ma, mb) = (&s.meta.fns[a], &s.meta.fns[b]);
        // outside of the composite shapes: instantiations of one function,
        // and neighbours
        let same_fn = ma.cname == mb.cname;
        if !(comp || thorough || same_fn || b == a + 1) { continue; }
        let mut sc = Scenario::new(format!("pair/{a},{b}"));
        sc.init.push(HOp::Create(ma.group));
        if ma.group != mb.group { sc.init.push(HOp::Create(mb.group)); }
        for f in [a, b] {
            let m = &s.meta.fns[f];
            sc.alphabet.push(expect(f, vec![t(TF::N(1)), ret(m, 1 + f as V % 5)]));
            if m.arity > 0 { sc.alphabet.push(expect(f, vec![m_first(m, 1, true), ret(m, 7)])); }
            else { sc.alphabet.push(expect(f, vec![ret(m, 7)])); }
            for x in few(m) { sc.alphabet.push(call(f, &x)); }
            sc.alphabet.push(HOp::Ckpt(m.group));
            sc.alphabet.push(HOp::Drop(m.group, false));
        }
        sc.alphabet.dedup();
        sc.depth = if thorough && (comp || same_fn || b == a + 1) { 6 } else if thorough || comp { 5 } else { 4 };
        sc.dedupe = true;
        sc.max_expects = 3;
        out.push(("*".into(), sc));
    } }
}

/// Failures of every kind at every step, then unwinding through everything
fn c15(s: &Shape, thorough: bool, out: &mut Vec<Sc>) {
    let nf = s.meta.fns.len();
    let comp = composite(s);
    let mut pairs: Vec<(usize, usize)> = vec![];
    for a in 0..nf { for b in (a + 1)..nf {
        if comp && (thorough || (a + b) % 3 == 0 || s.meta.fns[a].group != s.meta.fns[b].group) || thorough || b == a + 1 { pairs.push((a, b)); }
    } }
    for (a, b) in pairs {
        let (ma, mb) = (&s.meta.fns[a], &s.meta.fns[b]);
        let mut sc = Scenario::new(format!("fail/{a},{b}"));
        for g in 0..s.meta.groups.len() {
            if s.meta.groups[g].kind != GKind::CkptOnly && (g == ma.group || g == mb.group) { sc.init.push(HOp::Create(g)); }
        }
        for f in [a, b] {
            let m = &s.meta.fns[f];
            sc.alphabet.push(expect(f, vec![t(TF::N(2)), ret(m, 1)]));
            sc.alphabet.push(expect(f, vec![t(TF::Never)]));
            if m.class != RetClass::Ref { sc.alphabet.push(expect(f, vec![t(TF::N(1)), Op::Ret(ROp::Mut(1, 1))])); }
            sc.alphabet.push(expect(f, vec![Op::Seq(0)]));
            sc.alphabet.push(call(f, &few(m)[0]));
            sc.alphabet.push(HOp::Drop(m.group, true));
            sc.alphabet.push(HOp::Drop(m.group, false));
            sc.alphabet.push(HOp::Ckpt(m.group));
        }
        sc.alphabet.push(HOp::DropAllUnwinding);
        // whole or partial lives of mocks in destructors
        for f in [a, b] {
            let m = &s.meta.fns[f];
            let e = |n| expect(f, vec![t(TF::N(n)), ret(m, 1)]);
            let c = call(f, &few(m)[0]);
            let (cr, dr) = (HOp::Create(m.group), HOp::Drop(m.group, false));
            sc.alphabet.push(HOp::InUnwind(vec![cr.clone(), e(1), dr.clone()]));
            sc.alphabet.push(HOp::InUnwind(vec![cr.clone(), c.clone(), e(1), c.clone()]));
            sc.alphabet.push(HOp::InUnwind(vec![e(2), c.clone(), dr.clone()]));
            sc.alphabet.push(HOp::InUnwind(vec![e(1)]));
        }
        let mut al: Vec<HOp> = vec![];
        for h in sc.alphabet { if !al.contains(&h) { al.push(h); } }
        sc.alphabet = al;
        sc.depth = if thorough { 5 } else { 4 };
        sc.max_expects = 3;
        sc.dedupe = true;
        out.push(("*".into(), sc));
    }
}

/// Messages
fn c20(s: &Shape, f: usize, thorough: bool, out: &mut Vec<Sc>) {
    let m = &s.meta.fns[f];
    // a function pointer's Debug output is an address
    let (lock, mut sc) = one(s, f, "msg");
    sc.messages = true;
    sc.depth = 4;
    sc.max_expects = 2;
    sc.dedupe = true;
    let al = &mut sc.alphabet;
    al.push(expect(f, vec![t(TF::N(1)), ret(m, 1)]));
    al.push(expect(f, vec![t(TF::N(2))]));
    al.push(expect(f, vec![t(TF::Never), Op::Match(MOp::Withf(table_all(m), 0))]));
    al.push(expect(f, vec![t(TF::RI(2, 3)), Op::Match(MOp::WithfSt(table_all(m), 0)), ret(m, 1)]));
    if m.arity > 0 && m.with {
        let mut v = vec![0b111; m.arity]; v[0] = 0b01; if m.arity > 1 { v[1] = 0b11; }
        al.push(expect(f, vec![t(TF::RTI(1)), Op::Match(MOp::With(v)), ret(m, 1)]));
    }
    if m.class == RetClass::Static { al.push(expect(f, vec![Op::Ret(ROp::Once(1, 0)), t(TF::RF(3))])); }
    al.push(expect(f, vec![t(TF::N(1)), Op::Seq(0), ret(m, 2)]));
    for a in few(m) { al.push(call(f, &a)); }
    al.push(HOp::Ckpt(m.group));
    if thorough { sc.depth = 6; sc.max_expects = 3; }
    out.push((lock.clone(), sc.clone()));
    // every argument tuple in the no-match message
    let (_, mut sc) = one(s, f, "nomatch");
    sc.messages = true;
    for a in tuples(m) { sc.alphabet.push(call(f, &a)); }
    sc.depth = 1;
    out.push((lock, sc));
}

fn permutations<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    if v.is_empty() { return vec![vec![]]; }
    let mut r = vec![];
    for i in 0..v.len() {
        let mut w = v.to_vec();
        let x = w.remove(i);
        for mut p in permutations(&w) { p.insert(0, x.clone()); r.push(p); }
    }
    r
}

/// Builder order
fn c22(s: &Shape, f: usize, thorough: bool, out: &mut Vec<Sc>) {
    let m = &s.meta.fns[f];
    let (lock, base) = one(s, f, "");
    let mt = |v| if m.arity > 0 { m_first(m, v, true) } else { Op::Match(MOp::Withf(1, 0)) };
    let mf = if m.arity > 0 { m_first(m, 1, false) } else { Op::Match(MOp::WithfSt(1, 0)) };
    let mut sets: Vec<Vec<Op>> = vec![
        vec![mt(0), t(TF::N(1)), ret(m, 3), Op::Seq(0)],
        vec![mt(0), mf.clone(), t(TF::N(2)), ret(m, 3)],
        vec![t(TF::RI(1, 2)), t(TF::N(1)), ret(m, 3), mf.clone()],
        vec![t(TF::Never), t(TF::Full), ret(m, 3), ret(m, 6)],
    ];
    for r in ret_all(m, 4) { sets.push(vec![Op::Ret(r), t(TF::N(2)), mt(0)]); }
    if thorough { sets.push(vec![mt(0), t(TF::N(1)), ret(m, 3), Op::Seq(0), ret(m, 6)]); sets.push(vec![mt(0), mf, t(TF::N(2)), t(TF::N(1)), ret(m, 3)]); }
    for (k, set) in sets.iter().enumerate() {
        for (j, p) in permutations(set).into_iter().enumerate() {
            for guard in [false, true] {
                if guard && !is_static(s, f) { continue; }
                let mut sc = base.clone();
                sc.label = format!("perm{k}-{j}-{guard}{}", base.label);
                sc.init.push(HOp::Expect { f, ops: p.clone(), on_guard: guard });
                if k == 0 { sc.init.push(expect(f, vec![t(TF::N(1)), Op::Seq(0), ret(m, 8)])); }
                for a in few(m) { sc.alphabet.push(call(f, &a)); }
                sc.depth = 3;
                out.push((lock.clone(), sc));
            }
        }
    }
}

/// Every builder method, as the first or a later one, on the expectation or its guard
fn c22_forms(s: &Shape, f: usize, thorough: bool, out: &mut Vec<Sc>) {
    let m = &s.meta.fns[f];
    let (lock, base) = one(s, f, "");
    let n = if thorough { 3 } else { 2 };
    let mut sets: Vec<Vec<Op>> = vec![];
    for tf in all_tf(n) {
        sets.push(vec![t(tf.clone()), ret(m, 3)]);
        sets.push(vec![ret(m, 3), t(tf.clone())]);
        sets.push(vec![t(tf.clone()), Op::Seq(0), ret(m, 3)]);
        sets.push(vec![ret(m, 3), t(tf.clone()), Op::Seq(0)]);
        // the sequence needs an exact count at that moment, whatever comes before
        sets.push(vec![t(TF::N(1)), t(tf.clone()), Op::Seq(0), ret(m, 3)]);
        sets.push(vec![t(tf), t(TF::N(1)), Op::Seq(0), ret(m, 3)]);
    }
    for r in ret_all(m, 4) {
        sets.push(vec![Op::Ret(r.clone())]);
        sets.push(vec![t(TF::N(1)), Op::Ret(r.clone()), Op::Seq(0)]);
        for r2 in ret_all(m, 6) { sets.push(vec![Op::Ret(r.clone()), Op::Ret(r2)]); }
    }
    let mut ms = vec![MOp::Withf(table_all(m), 0), MOp::Withf(0, 0), MOp::WithfSt(table_all(m), 0), MOp::WithfSt(0, 0)];
    if m.arity > 0 {
        ms.extend([MOp::Withf(table_first(m, 1), 0), MOp::WithfSt(table_first(m, 1), 0)]);
        if m.with { let mut v = vec![0b111; m.arity]; v[0] = 0b10; ms.push(MOp::With(v)); }
    }
    for a in &ms {
        sets.push(vec![Op::Match(a.clone()), ret(m, 3)]);
        sets.push(vec![Op::Match(a.clone()), t(TF::Once), ret(m, 3), Op::Seq(0)]);
        for b in &ms { sets.push(vec![Op::Match(a.clone()), Op::Match(b.clone()), t(TF::N(1)), ret(m, 3)]); }
    }
    for (k, set) in sets.into_iter().enumerate() {
        for guard in [false, true] {
            if guard && !is_static(s, f) { continue; }
            let mut sc = base.clone();
            sc.label = format!("form{k}-{guard}{}", base.label);
            sc.init.push(HOp::Expect { f, ops: set.clone(), on_guard: guard });
            for a in few(m) { sc.alphabet.push(call(f, &a)); }
            sc.alphabet.push(HOp::Ckpt(m.group));
            if is_static(s, f) { sc.alphabet.push(HOp::Drop(m.group, false)); sc.alphabet.push(HOp::Create(m.group)); }
            sc.depth = n + 1;
            out.push((lock.clone(), sc));
        }
    }
}

/// User panics in closures and matchers
fn c23(s: &Shape, f: usize, thorough: bool, out: &mut Vec<Sc>) {
    let m = &s.meta.fns[f];
    let (lock, base) = one(s, f, "");
    let masks: &[u8] = if thorough { &[1, 2, 3, 4, 5, 6, 7] } else { &[1, 2, 3] };
    let mut firsts: Vec<Vec<Op>> = vec![];
    if m.class != RetClass::Ref {
        for p in masks {
            firsts.push(vec![Op::Ret(ROp::Mut(2, *p))]);
            firsts.push(vec![t(TF::N(2)), Op::Ret(ROp::MutSt(2, *p))]);
        }
    }
    if m.class == RetClass::Static { firsts.push(vec![Op::Ret(ROp::Once(2, 1))]); firsts.push(vec![Op::Ret(ROp::OnceSt(2, 1))]); }
    if m.arity > 0 {
        firsts.push(vec![Op::Match(MOp::Withf(table_first(m, 0), table_first(m, 1))), ret(m, 1)]);
        firsts.push(vec![Op::Match(MOp::WithfSt(table_first(m, 0), table_first(m, 1))), ret(m, 1)]);
        firsts.push(vec![t(TF::N(1)), Op::Match(MOp::Withf(table_first(m, 1), table_first(m, 0))), ret(m, 1)]);
        if m.with {
            // the first argument's predicate panics on 1
            let mut v = vec![0b111; m.arity]; v[0] = 0b01 | 0b10 << 4;
            firsts.push(vec![Op::Match(MOp::With(v)), t(TF::RF(1)), ret(m, 1)]);
        }
    } else {
        firsts.push(vec![Op::Match(MOp::Withf(0, 1)), ret(m, 1)]);
    }
    for (k, ops) in firsts.into_iter().enumerate() {
        for second in 0..2 {
            let mut sc = base.clone();
            sc.label = format!("panic{k}-{second}{}", base.label);
            let x = expect(f, ops.clone());
            let y = expect(f, vec![t(TF::RTI(1)), ret(m, 7)]);
            match second { 0 => sc.init.push(x), _ => sc.init.extend([y, x]) }
            for a in few(m) { sc.alphabet.push(call(f, &a)); }
            sc.alphabet.push(HOp::Ckpt(m.group));
            sc.alphabet.push(expect(f, vec![ret(m, 5)]));
            if is_static(s, f) { sc.alphabet.push(HOp::Drop(m.group, false)); sc.alphabet.push(HOp::Create(m.group)); }
            sc.dedupe = true;
            sc.depth = if thorough { 7 } else { 5 };
            sc.max_expects = 2;
            out.push((lock.clone(), sc));
        }
    }
}
