//! Sequential checks: every history of a bounded space, on every shape.
use engine::explore::*;
use engine::report::*;
use engine::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::Duration;

mod families;
mod scale;

fn all_shapes() -> Vec<Shape> {
    let mut v = vec![];
    v.extend(shapes0::shapes());
    v.extend(shapes1::shapes());
    v.extend(shapes2::shapes());
    v.extend(shapes3::shapes());
    v.extend(shapes4::shapes());
    v.extend(shapes5::shapes());
    v.extend(shapes6::shapes());
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let prop = get("--property").expect("--property");
    let tier = get("--tier").unwrap_or("quick".into());
    let out = get("--out").unwrap_or("/dev/stdout".into());
    let journal = get("--journal");
    let nightly = cfg!(feature = "nightly");
    let only = get("--only");
    let shapes = all_shapes();
    let thorough = tier == "thorough";
    // one work item = the scenarios that share static state
    let mut items: BTreeMap<(usize, String), Vec<Scenario>> = BTreeMap::new();
    for (i, s) in shapes.iter().enumerate() {
        for (lock, mut sc) in families::scenarios(&prop, thorough, nightly, s) {
            sc.nightly = nightly;
            if let Some(o) = &only { if &format!("{}/{}", s.meta.name, sc.label) != o { continue; } }
            items.entry((i, lock)).or_default().push(sc);
        }
    }
    // Scenarios with lock "*" use all functions of the shape and so cannot run
    // together with any others on the same shape.
    let mut phases: [Vec<((usize, String), Vec<Scenario>)>; 2] = Default::default();
    for (k, v) in items {
        phases[(k.1 == "*") as usize].push((k, v));
    }
    let nthreads = if journal.is_some() { 1 } else { 8 };
    let report = Report::new(&prop, &tier, &out, nthreads, journal.as_deref());
    report.abort_hook(get("--verbose").is_some());
    report.watchdog(Duration::from_secs(20));
    if let Some(idx) = get("--replay") {
        // --only must select exactly one scenario
        for (k, v) in phases.iter().flatten() {
            let sh = &shapes[k.0];
            for sc in v {
                let mut hist: Vec<&HOp> = sc.initial();
                let ix: Vec<u16> = idx.split(',').filter_map(|x| x.parse().ok()).collect();
                for i in &ix { hist.push(&sc.alphabet[*i as usize]); }
                let slot = report.slots[0].clone();
                let r = Runner { shape: sh, sc, slot: &slot, report: &report };
                r.replay(&hist, &ix);
            }
        }
        report.write(true);
        return;
    }
    for ph in phases {
        // longest first
        let mut ph = ph;
        ph.sort_by_key(|(_, v)| std::cmp::Reverse(v.iter().map(|s| s.alphabet.len().pow(s.depth.min(6) as u32)).sum::<usize>() + v.iter().map(|s| s.initial_len()).sum::<usize>()));
        let n = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for t in 0..nthreads {
                let (n, ph, shapes, report) = (&n, &ph, &shapes, &report);
                s.spawn(move || loop {
                    let i = n.fetch_add(1, SeqCst);
                    let Some((k, v)) = ph.get(i) else { break };
                    let slot = report.slots[t].clone();
                    for sc in v {
                        Runner { shape: &shapes[k.0], sc, slot: &slot, report }.explore();
                    }
                });
            }
        });
    }
    report.write(true);
}
