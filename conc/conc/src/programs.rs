//! The bounded spaces of concurrent programs.
use crate::sys::*;
use crate::Prog;
use engine::*;
use sched::Mode;

fn call(f: usize, x: V) -> HOp { HOp::Call { f, args: vec![x], set: None, other: true } }
fn main_call(f: usize, x: V) -> HOp { HOp::Call { f, args: vec![x], set: None, other: false } }
fn expect(f: usize, ops: Vec<Op>) -> HOp { HOp::Expect { f, ops, on_guard: false } }
fn guard(f: usize, ops: Vec<Op>) -> HOp { HOp::Expect { f, ops, on_guard: true } }
fn t(x: TF) -> Op { Op::Times(x) }
fn ret(f: usize, v: V) -> Op { Op::Ret(if f == AR { ROp::Const(v) } else { ROp::Mut(v, 0) }) }
fn w0() -> Op { Op::Match(MOp::With(vec![0b001])) }
fn wf0() -> Op { Op::Match(MOp::Withf(0b001, 0)) }
fn wf1() -> Op { Op::Match(MOp::Withf(0b010, 0)) }

fn group(f: usize) -> usize { crate::sys::meta().fns[f].group }

pub fn programs(prop: &str, thorough: bool) -> Vec<Prog> {
    let mut v = vec![];
    match prop {
        "C12" => c12(thorough, &mut v),
        "C13" => c13(thorough, &mut v),
        "C14" => c14(thorough, &mut v),
        _ => panic!("unknown property"),
    }
    v
}

/// What a single expectation can look like
fn menu(f: usize, base: V, rich: bool) -> Vec<Vec<Op>> {
    let mut v = vec![
        vec![ret(f, base)],
        vec![t(TF::N(1)), ret(f, base)],
        vec![t(TF::N(2)), ret(f, base)],
        vec![w0(), t(TF::RTI(1)), ret(f, base)],
        vec![t(TF::Never)],
    ];
    if rich {
        v.push(vec![t(TF::RTI(1)), ret(f, base)]);
        v.push(vec![wf0(), t(TF::RI(1, 2)), ret(f, base)]);
        v.push(vec![wf1(), t(TF::N(1)), ret(f, base)]);
        if f != AR {
            v.push(vec![Op::Ret(ROp::Once(base, 0))]);
            v.push(vec![t(TF::N(1)), Op::Ret(ROp::Mut(base, 1))]);
            v.push(vec![t(TF::N(2)), Op::Ret(ROp::Once(base, 0))]);
            v.push(vec![Op::Match(MOp::WithfSt(0b001, 0)), ret(f, base)]);
            v.push(vec![Op::Match(MOp::Withf(0b010, 0b001)), ret(f, base)]);
            v.push(vec![Op::Ret(ROp::MutSt(base, 0))]);
            v.push(vec![Op::Ret(ROp::OnceSt(base, 0))]);
        }
    }
    v
}

fn c12(thorough: bool, out: &mut Vec<Prog>) {
    for f in [AV, AR, AG, GI, GT] {
        let rich = f == AV || thorough;
        let (m1, m2) = (menu(f, 1, rich), menu(f, 5, rich));
        let mut lists: Vec<Vec<Vec<Op>>> = m1.iter().map(|x| vec![x.clone()]).collect();
        for x in &m1 { for y in &m2 { lists.push(vec![x.clone(), y.clone()]); } }
        if thorough || f == AV || f == AR {
            // three expectations
            let m3 = menu(f, 8, false);
            let (s1, s2) = (menu(f, 1, false), menu(f, 5, false));
            for x in &s1[1..4] { for y in &s2[1..4] { for z in &m3[..4] { lists.push(vec![x.clone(), y.clone(), z.clone()]); } } }
        }
        for (k, l) in lists.iter().enumerate() {
            let setup: Vec<HOp> = l.iter().map(|o| expect(f, o.clone())).collect();
            let g = group(f);
            let mut add = |name: &str, threads: Vec<Vec<V>>, mode: Mode, fin: Vec<HOp>| {
                let threads: Vec<Vec<HOp>> = threads.iter().map(|t| t.iter().map(|x| call(f, *x)).collect()).collect();
                out.push(Prog { label: format!("{name}/{f}/{k}"), setup: setup.clone(), threads, fin, mode });
            };
            let d = vec![HOp::Drop(g, false)];
            let cd = vec![main_call(f, 0), HOp::Drop(g, false)];
            let sl = Mode::SleepSets;
            add("calls2", vec![vec![0], vec![0]], sl, d.clone());
            add("calls2x", vec![vec![0], vec![1]], sl, cd.clone());
            if l.len() <= 2 || thorough {
                add("calls3", vec![vec![0], vec![0], vec![0]], Mode::Preemptions(if thorough { 4 } else { 2 }), d.clone());
                add("calls3x", vec![vec![0], vec![1], vec![0]], Mode::Preemptions(if thorough { 4 } else { 2 }), cd.clone());
            }
            add("calls2x2", vec![vec![0, 0], vec![0, 0]], Mode::Preemptions(if thorough { 5 } else { 3 }), d.clone());
            add("calls2x2x", vec![vec![0, 1], vec![1, 0]], Mode::Preemptions(if thorough { 5 } else { 3 }), cd.clone());
            add("calls2x1", vec![vec![0, 0], vec![0]], Mode::Preemptions(if thorough { 6 } else { 4 }), d.clone());
        }
    }
    // different methods and objects at once
    let fs = [AV, AR, AG, BV, GI, GT, ST];
    for a in fs { for b in fs { if a < b {
        let mut setup = vec![];
        for f in [a, b] { setup.push(expect(f, vec![t(TF::N(1)), ret(f, 1 + f as V % 5)])); }
        let mut fin = vec![];
        for g in [group(a), group(b)] { if !fin.contains(&HOp::Drop(g, false)) { fin.push(HOp::Drop(g, false)); } }
        out.push(Prog { label: format!("methods/{a},{b}"), setup, threads: vec![vec![call(a, 0), call(b, 0)], vec![call(b, 1), call(a, 1)]], fin,
            mode: Mode::Preemptions(if thorough { 6 } else { 3 }) });
    } } }
}

fn c13(thorough: bool, out: &mut Vec<Prog>) {
    // sequences: (function, exact count, sequence), all matching everything
    type Mem = (usize, usize, usize);
    let mut seqs: Vec<Vec<Mem>> = vec![];
    let fs = [AV, AR, BV, AG, GT, ST, SGU];
    for i in 0..fs.len() { for j in 0..fs.len() {
        if i == j && fs[i] == AR { continue; }
        let near = (i + 1) % fs.len() == j || i == j || thorough;
        if !near { continue; }
        for (c1, c2) in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1)] { seqs.push(vec![(fs[i], c1, 0), (fs[j], c2, 0)]); }
        let k = fs[(i + 2) % fs.len()];
        for c in [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 0, 1)] { seqs.push(vec![(fs[i], c.0, 0), (fs[j], c.1, 0), (k, c.2, 0)]); }
        // two sequences over the same functions
        seqs.push(vec![(fs[i], 1, 0), (fs[j], 1, 1), (k, 1, 0), (fs[i], 1, 1)]);
        seqs.push(vec![(fs[i], 1, 0), (fs[j], 1, 0), (fs[j], 1, 1), (k, 1, 1)]);
    } }
    for (k, s) in seqs.iter().enumerate() {
        let mut setup = vec![];
        let mut calls = vec![];
        for (n, (f, c, q)) in s.iter().enumerate() {
            setup.push(expect(*f, vec![t(TF::N(*c)), Op::Seq(*q), ret(*f, 3 * n as V)]));
            for _ in 0..*c { calls.push(*f); }
        }
        let mut fin: Vec<HOp> = vec![];
        for (f, _, _) in s { let d = HOp::Drop(group(*f), false); if !fin.contains(&d) { fin.push(d); } }
        let m = calls.len();
        let mut add = |name: String, threads: Vec<Vec<usize>>| {
            let n = threads.len();
            let tot: usize = threads.iter().map(|t| t.len()).sum();
            if threads.iter().any(|t| t.is_empty()) { return; }
            let mode = if n == 2 && tot == 2 { Mode::SleepSets } else {
                Mode::Preemptions(if thorough { 5 } else if n == 3 { 2 } else { 3 }) };
            out.push(Prog { label: format!("{name}/{k}"), setup: setup.clone(),
                threads: threads.into_iter().map(|t| t.into_iter().map(|f| call(f, 0)).collect()).collect(), fin: fin.clone(), mode });
        };
        // every way of giving the in-order calls to two threads
        for mask in 0..(1u32 << m) / 2 {
            let mut th = vec![vec![], vec![]];
            for (i, f) in calls.iter().enumerate() { th[(mask >> i & 1) as usize].push(*f); }
            add(format!("split{mask}"), th);
        }
        if m == 3 {
            add("three".into(), calls.iter().map(|f| vec![*f]).collect());
            // the last call is made after the others have been joined, too
        }
        if m <= 3 {
            // out of order and superfluous calls
            let mut r = calls.clone(); r.reverse();
            add("reverse".into(), vec![r[..1].to_vec(), r[1..].to_vec()]);
            let mut e = calls.clone(); e.push(calls[0]);
            add("excess".into(), vec![calls.clone(), vec![calls[0]]]);
            add("excess2".into(), vec![calls.clone(), vec![calls[m - 1]]]);
            if m == 2 || thorough { add("both".into(), vec![calls.clone(), calls.clone()]); }
        }
    }
}

fn c14(thorough: bool, out: &mut Vec<Prog>) {
    for (f, other, ck) in [(ST, ST, CS), (SGU, SGI, CSG), (MF, MH, MOD), (GS, GS, CGS)] {
        let g = group(f);
        let mut menu: Vec<HOp> = vec![
            call(f, 0),
            expect(f, vec![t(TF::N(1)), ret(f, 1)]),
            guard(f, vec![ret(f, 4), t(TF::RTI(1))]),
            HOp::Ckpt(ck),
            HOp::Drop(g, false),
            HOp::Drop(g, true),
            expect(f, vec![Op::Ret(ROp::Mut(7, 1))]),
        ];
        if f == ST || thorough {
            menu.push(call(f, 1));
            menu.push(expect(f, vec![wf1(), t(TF::N(1)), ret(f, 8)]));
            menu.push(expect(f, vec![Op::Ret(ROp::Once(3, 0))]));
        }
        if other != f {
            menu.push(call(other, 0));
            menu.push(expect(other, vec![t(TF::N(1)), ret(other, 5)]));
        }
        // one or two operations per thread
        let mut prs: Vec<Vec<HOp>> = menu.iter().map(|x| vec![x.clone()]).collect();
        for x in &menu { for y in &menu { prs.push(vec![x.clone(), y.clone()]); } }
        let setups: Vec<Vec<HOp>> = vec![vec![], vec![expect(f, vec![t(TF::N(1)), ret(f, 2)])]];
        let mut fin = vec![HOp::Drop(g, false)];
        if group(other) != g { fin.push(HOp::Drop(group(other), false)); }
        fin.push(main_call(f, 0));
        if other != f { fin.push(main_call(other, 0)); }
        for (si, setup) in setups.iter().enumerate() {
            for i in 0..prs.len() { for j in i..prs.len() {
                let n = prs[i].len() + prs[j].len();
                if n == 4 && si == 1 && !thorough { continue; }
                out.push(Prog { label: format!("pair{n}/{f}/{si}/{i},{j}"), setup: setup.clone(), threads: vec![prs[i].clone(), prs[j].clone()], fin: fin.clone(),
                    mode: if n <= 3 { Mode::SleepSets } else { Mode::Preemptions(if thorough { 4 } else { 2 }) } });
            } }
            let m = menu.len();
            for i in 0..m { for j in i..m { for k in j..m {
                out.push(Prog { label: format!("triple/{f}/{si}/{i},{j},{k}"), setup: setup.clone(),
                    threads: vec![vec![menu[i].clone()], vec![menu[j].clone()], vec![menu[k].clone()]], fin: fin.clone(),
                    mode: Mode::Preemptions(if thorough { 4 } else { 2 }) });
            } } }
        }
    }
}
