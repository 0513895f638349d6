//! Long, straight-line histories: the same guarantees at sizes beyond the
//! reach of the branching exploration (many expectations, many calls, long
//! sequences, large bounds, many lifecycles).  Every size of a stated set is
//! enumerated.
use crate::families::*;
use engine::explore::Scenario;
use engine::*;

type Sc = (String, Scenario);
fn t(f: TF) -> Op { Op::Times(f) }

/// The sizes at which lists, counters and tables are exercised
fn sizes(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (4..=if thorough { 70 } else { 18 }).collect();
    if !thorough { v.extend([31, 32, 33, 63, 64, 65]); }
    v.extend([127, 128, 129, 255, 256, 257]);
    v
}
fn huge(thorough: bool) -> Vec<usize> {
    let mut v = vec![1000, 32767, 32768, 65535, 65536, 65537];
    if thorough { v.extend([1023, 1024, 1025, 131073]); }
    v
}

struct B<'a> { base: Scenario, lock: String, out: &'a mut Vec<Sc> }
impl B<'_> {
    fn lin(&mut self, label: &str, ops: Vec<HOp>) { self.lin_msg(label, ops, false) }
    fn lin_msg(&mut self, label: &str, ops: Vec<HOp>, messages: bool) {
        let mut sc = self.base.clone();
        sc.label = format!("{label}{}", self.base.label);
        sc.init.extend(ops);
        sc.compress();
        sc.depth = 0;
        sc.messages = messages;
        self.out.push((self.lock.clone(), sc));
    }
}
fn rep(n: usize, h: HOp) -> Vec<HOp> { vec![h; n] }

pub fn scenarios(prop: &str, thorough: bool, s: &Shape, out: &mut Vec<Sc>) {
    let nf = s.meta.fns.len();
    for f in 0..nf {
        if composite(s) && !(prop == "C20") { continue; }
        single(prop, thorough, s, f, out);
    }
    if matches!(prop, "C04" | "C05" | "C11" | "C15") { multi(prop, thorough, s, out); }
}

/// One representative of each return class per shape carries the huge sizes
fn representative(s: &Shape, f: usize) -> bool {
    let c = s.meta.fns[f].class;
    (0..s.meta.fns.len()).find(|g| s.meta.fns[*g].class == c) == Some(f)
}

fn single(prop: &str, thorough: bool, s: &Shape, f: usize, out: &mut Vec<Sc>) {
    let m = &s.meta.fns[f];
    let (lock, base) = one(s, f, "");
    let mut b = B { base, lock, out };
    let a = few(m);
    let c0 = call(f, &a[0]);
    let c1 = call(f, a.last().unwrap());
    let ck = HOp::Ckpt(m.group);
    let r = |i: usize| ret(m, (i % 7) as V);
    // without arguments: a matcher that accepts
    let mt = |v: V, p: bool| if m.arity > 0 { m_first(m, v, p) } else { Op::Match(MOp::Withf(1, 0)) };
    let many: Vec<usize> = (4..=if thorough { 40 } else { 12 }).chain([17, 33, 65]).collect();
    match prop {
        "C01" => for n in many {
            let ex: Vec<HOp> = (0..n).map(|i| expect(f, vec![t(TF::N(1)), r(i)])).collect();
            let mut h = ex.clone();
            h.extend(rep(n, c0.clone()));
            h.push(ck.clone());
            h.extend(ex.clone());
            h.extend(rep(n + 2, c0.clone()));
            b.lin(&format!("many{n}"), h);
            // with matchers that alternate, and a catch-all behind
            let mut h: Vec<HOp> = (0..n).map(|i| if m.arity > 0 {
                expect(f, vec![m_first(m, (i % 2) as V, i % 4 < 2), t(TF::RTI(1 + i % 3)), r(i)])
            } else { expect(f, vec![t(TF::RTI(1 + i % 3)), r(i)]) }).collect();
            h.push(expect(f, vec![r(5)]));
            for i in 0..2 * n + 4 { h.push(if i % 3 == 1 { c1.clone() } else { c0.clone() }); }
            b.lin(&format!("alt{n}"), h);
            // never-matching expectations in front
            let mut h: Vec<HOp> = (0..n).map(|_| expect(f, vec![m_none(m), r(1)])).collect();
            h.push(expect(f, vec![t(TF::N(1)), r(4)]));
            h.push(c0.clone()); h.push(c0.clone());
            b.lin(&format!("front{n}"), h);
        },
        "C02" | "C03" => {
            let mut ns = sizes(thorough);
            if prop == "C03" && !thorough { ns.retain(|n| n % 4 < 2); }
            if representative(s, f) { ns.extend(huge(thorough)); }
            for n in ns {
                for (k, tf) in [TF::N(n), TF::RTI(n), TF::RF(n), TF::RI(n, n + 1), TF::R(1, n), TF::RT(n)].into_iter().enumerate() {
                    if n > 300 && k > 2 { continue; }
                    for d in [-1isize, 0, 1, 2] {
                        if n > 300 && d == 2 { continue; }
                        let calls = (n as isize + d) as usize;
                        let mut h = vec![expect(f, vec![t(tf.clone()), r(3)])];
                        if prop == "C03" && k % 2 == 1 { h.push(expect(f, vec![r(5)])); }
                        h.extend(rep(calls, c0.clone()));
                        b.lin_msg(&format!("large{n}-{k}-{d}"), h, prop == "C03");
                    }
                }
            }
            if prop == "C03" { for n in many {
                // n expectations of which exactly one, the j-th, lacks a call
                for j in [0, 1, n / 2, n - 1] { if m.arity > 0 {
                    let mut h: Vec<HOp> = (0..n).map(|i| expect(f, vec![m_first(m, (i == j) as V, i % 2 == 0), t(TF::N(1)), r(i)])).collect();
                    h.extend(rep(n - 1, c0.clone()));
                    b.lin_msg(&format!("miss{n}-{j}"), h, true);
                } }
            } }
        }
        "C04" => for n in many {
            // all members on one function, told apart by their matchers
            let q = |i: usize| {
                let mut v = vec![t(TF::N(1 + (i % 3 == 2) as usize)), Op::Seq(0), r(i)];
                if m.arity > 0 { v.push(m_first(m, (i % 2) as V, i % 4 < 2)); }
                expect(f, v)
            };
            let steps = |i: usize| rep(1 + (i % 3 == 2) as usize, if i % 2 == 0 { c0.clone() } else { c1.clone() });
            let ex: Vec<HOp> = (0..n).map(q).collect();
            for stop in 0..=n {
                if n > 12 && stop != n && stop != n - 2 { continue; }
                let mut h = ex.clone();
                for i in 0..stop { h.extend(steps(i)); }
                // one call out of order
                if stop < n { h.push(if stop % 2 == 0 { c1.clone() } else { c0.clone() }); }
                b.lin(&format!("long{n}-{stop}"), h);
            }
        },
        "C05" => for n in many {
            let ex: Vec<HOp> = (0..n).map(|i| expect(f, vec![t(TF::N(1)), r(i)])).collect();
            for calls in [n - 1, n] {
                let mut h = ex.clone();
                h.extend(rep(calls, c0.clone()));
                h.push(ck.clone());
                h.push(c0.clone());
                b.lin(&format!("many{n}-{calls}"), h);
            }
            let mut h = vec![];
            for i in 0..n { h.push(expect(f, vec![t(TF::N(1)), r(i)])); h.push(c0.clone()); h.push(ck.clone()); }
            h.push(c0.clone());
            b.lin(&format!("again{n}"), h);
        },
        "C06" if is_static(s, f) => {
            let g = m.group;
            b.base.init.clear();
            for n in many.iter().copied().chain([300]) {
                for kind in 0..5 {
                    let mut h = vec![];
                    for i in 0..n {
                        h.push(HOp::Create(g));
                        h.push(expect(f, vec![t(TF::N(1)), r(i)]));
                        match kind {
                            0 => h.push(c0.clone()),
                            1 => {}                                   // unmet every time
                            2 => { h.push(c0.clone()); h.push(c0.clone()); }  // exceeded
                            3 => { h.push(expect(f, vec![t(TF::R(1, 1))])); h.push(c0.clone()); }
                            _ => if i % 3 != 0 { h.push(c0.clone()) },
                        }
                        h.push(HOp::Drop(g, kind == 4 && i % 2 == 0));
                        h.push(c0.clone());
                    }
                    h.push(HOp::Create(g));
                    h.push(expect(f, vec![t(TF::N(1)), r(6)]));
                    h.push(c0.clone());
                    b.lin(&format!("cycles{n}-{kind}"), h);
                }
            }
        }
        "C07" | "C21" => {
            let mut ns = vec![12, 70, 300];
            if representative(s, f) { ns.push(1000); if thorough { ns.push(70000); } }
            for n in ns {
                for (k, ro) in ret_all(m, 3).into_iter().map(Some).chain([None]).enumerate() {
                    if matches!(ro, Some(ROp::Once(..) | ROp::OnceSt(..))) && n > 70 { continue; }
                    let mut h = vec![expect(f, ro.clone().map(Op::Ret).into_iter().collect())];
                    let nightly = cfg!(feature = "nightly");
                    for i in 0..n {
                        let set = if m.class == RetClass::RefMut && (m.setdef || !nightly) && i % 3 != 1 { Some((i % 5) as V) } else { None };
                        h.push(HOp::Call { f, args: a[i % a.len()].clone(), set, other: false });
                    }
                    b.lin(&format!("calls{n}-{k}"), h);
                }
            }
            // several expectations, used alternately, keep their own state
            if m.arity > 0 { for (k, ro) in ret_all(m, 2).into_iter().enumerate() {
                let set = |i: usize| if m.class == RetClass::RefMut { Some((i % 5) as V) } else { None };
                let mut h: Vec<HOp> = (0..2).map(|v| expect(f, vec![m_first(m, v, v == 0), Op::Ret(ro.clone())])).collect();
                for i in 0..20 { h.push(HOp::Call { f, args: a[(i / 2 + i / 5) % a.len()].clone(), set: set(i), other: false }); }
                b.lin(&format!("alternate{k}"), h);
            } }
        }
        "C08" if m.sync => {
            for (k, ro) in ret_all(m, 2).into_iter().enumerate() {
                for n in [1, 5, 40] {
                    let mut h = vec![expect(f, vec![Op::Ret(ro.clone())])];
                    for i in 0..n { h.push(HOp::Call { f, args: a[0].clone(), set: None, other: i % 2 == 1 }); }
                    b.lin(&format!("threads{k}-{n}"), h);
                }
            }
        }
        "C10" => for n in [4, 5, 8, 16, 40] {
            // the matcher is replaced n times
            let mut ops = vec![];
            for i in 0..n { ops.push(mt((i % 2) as V, i % 3 == 0)); ops.push(Op::Match(if i % 4 < 2 { MOp::WithfSt(0, 0) } else { MOp::Withf(0, 0) })); }
            ops.push(mt(0, n % 2 == 0));
            ops.push(r(1));
            let mut h = vec![expect(f, ops), expect(f, vec![r(5)])];
            for _ in 0..n { h.push(c0.clone()); h.push(c1.clone()); }
            b.lin(&format!("rematch{n}"), h);
        },
        "C20" => for n in [3, 5, 9, 10, 11, 12, 25, 99, 100, 101, 999, 1000] {
            for (k, tf) in [TF::N(n), TF::RTI(n), TF::RI(2, n), TF::RF(n), TF::RT(n + 1), TF::R(n, n + 5)].into_iter().enumerate() {
                for calls in [n - 1, n + 1] {
                    if n > 200 && k > 1 { continue; }
                    let mut h = vec![expect(f, vec![t(tf.clone()), r(2)])];
                    h.extend(rep(calls, c0.clone()));
                    b.lin_msg(&format!("count{n}-{k}-{calls}"), h, true);
                }
            }
        },
        "C22" => for n in [4, 6, 9, 20] {
            for last in 0..2 {
                let mut ops = vec![];
                for i in 0..n {
                    ops.push(t(TF::N(1 + i % 3)));
                    ops.push(r(i));
                    ops.push(mt((i % 2) as V, i % 3 == 0));
                    for x in ret_all(m, (i % 5) as V) { ops.push(Op::Ret(x)); }
                }
                if last == 1 { ops.rotate_left(2); }
                ops.push(r(3));
                let mut h = vec![expect(f, ops)];
                for i in 0..4 { h.push(if i % 2 == 0 { c0.clone() } else { c1.clone() }); }
                b.lin(&format!("override{n}-{last}"), h);
            }
        },
        "C23" => for n in [4, 9, 20, 70, 300] {
            if m.class != RetClass::Ref { for ro in [ROp::Mut(2, 0xff), ROp::MutSt(2, 0xaa), ROp::Mut(2, 0x55)] {
                let k = format!("{ro:?}");
                let mut h = vec![expect(f, vec![t(TF::N(n)), Op::Ret(ro)]), expect(f, vec![r(4)])];
                h.extend(rep(n + 2, c0.clone()));
                h.push(ck.clone());
                h.push(c0.clone());
                b.lin(&format!("panics{n}-{k}"), h);
            } }
            let (tab, pan) = if m.arity > 0 { (table_first(m, 0), table_first(m, 1)) } else { (0, 1) };
            for st in [false, true] {
                let mo = if st { MOp::WithfSt(tab, pan) } else { MOp::Withf(tab, pan) };
                let mut h = vec![expect(f, vec![Op::Match(mo), r(2)])];
                for i in 0..n { h.push(if i % 5 == 4 { c0.clone() } else { c1.clone() }); }
                h.push(c0.clone());
                h.push(ck.clone());
                b.lin(&format!("mpanics{n}-{st}"), h);
            }
        },
        _ => {}
    }
}

fn create_all(s: &Shape) -> Vec<HOp> {
    (0..s.meta.groups.len()).filter(|g| s.meta.groups[*g].kind != GKind::CkptOnly).map(HOp::Create).collect()
}

/// All functions of a shape together
fn multi(prop: &str, thorough: bool, s: &Shape, out: &mut Vec<Sc>) {
    let nf = s.meta.fns.len();
    let mut base = Scenario::new("");
    base.init = create_all(s);
    let mut b = B { base, lock: "*".into(), out };
    let c = |f: usize| call(f, &few(&s.meta.fns[f])[0]);
    let r = |f: usize, i: usize| ret(&s.meta.fns[f], (i % 7) as V);
    match prop {
        "C04" => {
            // members go round robin over the functions, in several strides
            for n in (3..=if thorough { 20 } else { 10 }).chain([33]) {
                for stride in [1, 2, 3, 5] {
                    if nf < 2 { continue; }
                    let fs: Vec<usize> = (0..n).map(|i| (i * stride) % nf).collect();
                    let ex: Vec<HOp> = fs.iter().enumerate().map(|(i, f)| expect(*f, vec![t(TF::N(1 + (i % 4 == 3) as usize)), Op::Seq(0), r(*f, i)])).collect();
                    let steps = |i: usize| rep(1 + (i % 4 == 3) as usize, c(fs[i]));
                    for stop in 0..=n {
                        if n > 10 && stop + 3 < n { continue; }
                        let mut h = ex.clone();
                        for i in 0..stop { h.extend(steps(i)); }
                        // out of order, if there is a member on another function
                        if let Some(j) = (stop + 1..n).find(|j| fs[*j] != fs[stop]) { h.push(c(fs[j])); }
                        b.lin(&format!("robin{n}-{stride}-{stop}"), h);
                    }
                    // two sequences, interleaved in two ways
                    let ex: Vec<HOp> = fs.iter().enumerate().map(|(i, f)| expect(*f, vec![t(TF::N(1)), Op::Seq(i % 2), r(*f, i)])).collect();
                    let mut h = ex.clone();
                    for f in &fs { h.push(c(*f)); }
                    b.lin(&format!("twoseq{n}-{stride}"), h);
                    let mut h = ex;
                    for i in (0..n).filter(|i| i % 2 == 1).chain((0..n).filter(|i| i % 2 == 0)) { h.push(c(fs[i])); }
                    b.lin(&format!("oddeven{n}-{stride}"), h);
                }
            }
        }
        "C05" | "C11" | "C15" => {
            // everything at once: every function with two calls due, called in
            // every rotation, except for one function
            for skip in (0..nf).map(Some).chain([None]) {
                let mut h = vec![];
                for f in 0..nf { h.push(expect(f, vec![t(TF::N(2)), r(f, f + 1)])); }
                for k in 0..2 { for i in 0..nf {
                    let f = (i * if k == 0 { 1 } else { nf - 1 } + skip.unwrap_or(0)) % nf;
                    if Some(f) != skip || k == 0 { h.push(c(f)); }
                } }
                match prop {
                    "C05" => {
                        for (g, gm) in s.meta.groups.iter().enumerate().rev() {
                            h.push(HOp::Ckpt(g));
                            // a failed checkpoint of an object leaves its functions unspecified
                            let _ = gm;
                            if skip.is_some_and(|f| gm.fns.contains(&f)) { break; }
                        }
                        if skip.is_none() { for f in 0..nf { h.push(c(f)); } }
                    }
                    "C15" => h.push(HOp::DropAllUnwinding),
                    _ => for f in (0..nf).rev() { h.push(c(f)); },
                }
                b.lin(&format!("all-{}", skip.map_or("none".into(), |f| f.to_string())), h);
            }
        }
        _ => {}
    }
}
