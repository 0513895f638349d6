//! Counting, violations, watchdog and journal.
use crate::explore::Scenario;
use crate::model::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// What one worker is doing, for the watchdog and the crash journal
#[derive(Default)]
pub struct Slot {
    cur: Mutex<Option<(Instant, String)>>,
    journal: Option<Mutex<std::fs::File>>,
}

impl Slot {
    pub fn begin(&self, shape: &str, label: &str, idx: &[u16]) {
        let d = format!("{shape}\t{label}\t{}", idx.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(","));
        self.begin_text(d);
    }
    pub fn begin_text(&self, d: String) {
        if let Some(j) = &self.journal {
            use std::io::Seek;
            let mut f = crate::sut::lk(j);
            let _ = f.set_len(0);
            let _ = f.rewind();
            let _ = f.write_all(d.as_bytes());
        }
        *crate::sut::lk(&self.cur) = Some((Instant::now(), d));
    }
    pub fn end(&self) {
        *crate::sut::lk(&self.cur) = None;
    }
}

thread_local! {
    static CUR: std::cell::RefCell<Option<Arc<Slot>>> = const { std::cell::RefCell::new(None) };
}
/// The slot of the history that the current thread is executing
pub fn current() -> Option<Arc<Slot>> { CUR.with(|c| c.borrow().clone()) }
pub fn set_current(s: Option<Arc<Slot>>) { CUR.with(|c| *c.borrow_mut() = s) }

#[derive(Default)]
struct Inner {
    violations: Vec<(String, String)>, // (signature, json)
    samples: Vec<String>,
    scenarios: BTreeMap<String, u64>,
    outcomes: BTreeMap<String, u64>,
    notes: Vec<String>,
}

pub struct Report {
    pub property: String,
    pub tier: String,
    pub out: String,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    nviol: AtomicUsize,
    max_viol: usize,
    capped: AtomicBool,
    inner: Mutex<Inner>,
    pub slots: Vec<Arc<Slot>>,
    extra: Mutex<BTreeMap<String, u64>>,
    start: Instant,
    deadline: Duration,
}

impl Report {
    pub fn new(property: &str, tier: &str, out: &str, nslots: usize, journal: Option<&str>) -> Arc<Report> {
        let slots = (0..nslots).map(|_| Arc::new(Slot {
            cur: Mutex::new(None),
            journal: journal.map(|p| Mutex::new(std::fs::File::create(p).unwrap())),
        })).collect();
        Arc::new(Report {
            property: property.into(), tier: tier.into(), out: out.into(),
            states: 0.into(), transitions: 0.into(), traces: 0.into(), nviol: 0.into(), max_viol: 12,
            capped: false.into(),
            inner: Mutex::default(), slots, extra: Mutex::default(), start: Instant::now(),
            deadline: Duration::from_secs(std::env::var("MC_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(100_000)),
        })
    }
    /// Enough violations, or out of time (which is reported as "capped")
    pub fn stopped(&self) -> bool {
        if self.start.elapsed() > self.deadline { self.cap(); return true; }
        self.nviol.load(SeqCst) >= self.max_viol
    }
    pub fn add_states(&self, n: u64) { self.states.fetch_add(n, SeqCst); }
    pub fn add_transition(&self) { self.transitions.fetch_add(1, SeqCst); }
    pub fn add_transitions(&self, n: u64) { self.transitions.fetch_add(n, SeqCst); }
    pub fn add_traces(&self, n: u64) { self.traces.fetch_add(n, SeqCst); }
    pub fn traces(&self) -> u64 { self.traces.load(SeqCst) }
    pub fn bump(&self, k: &str, n: u64) { *crate::sut::lk(&self.extra).entry(k.into()).or_insert(0) += n; }
    pub fn note(&self, s: &str) { crate::sut::lk(&self.inner).notes.push(s.into()); }
    pub fn outcome(&self, s: &str) { *crate::sut::lk(&self.inner).outcomes.entry(s.into()).or_insert(0) += 1; }
    pub fn cap(&self) { self.capped.store(true, SeqCst); }
    pub fn scenario(&self, meta: &Meta, sc: &Scenario) {
        *crate::sut::lk(&self.inner).scenarios.entry(sc.label.clone()).or_insert(0) += 1;
        let _ = meta;
    }
    pub fn scenario_name(&self, s: &str) {
        *crate::sut::lk(&self.inner).scenarios.entry(s.into()).or_insert(0) += 1;
    }
    pub fn add_trace(&self, meta: &Meta, sc: &Scenario, hist: &[&HOp]) {
        let n = self.traces.fetch_add(1, SeqCst);
        if n < 2 || (n % 50021 == 17 && hist.len() > 2) {
            self.sample(format!("{} / {}: {}", meta.name, sc.label, abbreviate(hist.iter().map(|h| short(meta, h)).collect()).join("; ")));
        }
    }
    pub fn sample(&self, s: String) {
        let mut i = crate::sut::lk(&self.inner);
        if i.samples.len() < 8 { i.samples.push(s); }
    }

    pub fn violation(&self, meta: &Meta, sc: &Scenario, idx: &[u16], hist: &[&HOp], (step, what): (usize, String)) {
        let steps: Vec<String> = hist.iter().enumerate().map(|(i, h)| {
            format!("{}{}", if i == step { "=> " } else { "" }, short(meta, h))
        }).collect::<Vec<_>>();
        let at = if step < hist.len() { short(meta, hist[step]) } else { "end".into() };
        self.violation_text(meta.name, &sc.label, idx, &abbreviate(steps), &format!("step {step} ({at}): {what}"));
    }

    pub fn violation_text(&self, shape: &str, label: &str, idx: &[u16], steps: &[String], what: &str) {
        if self.nviol.fetch_add(1, SeqCst) >= self.max_viol { return; }
        let sig = format!("{shape} | {label} | {what}");
        let ids = idx.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",");
        let js = format!("{{\"property\": {}, \"shape\": {}, \"scenario\": {}, \"choices\": {}, \"steps\": [{}], \"what\": {}}}",
            esc(&self.property), esc(shape), esc(label), esc(&ids),
            steps.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "), esc(what));
        crate::sut::lk(&self.inner).violations.push((sig, js));
    }

    pub fn write(&self, complete: bool) {
        let i = crate::sut::lk(&self.inner);
        let mut s = String::from("{\n");
        s += &format!("\"states\": {}, \"transitions\": {}, \"traces\": {},\n", self.states.load(SeqCst), self.transitions.load(SeqCst), self.traces.load(SeqCst));
        s += &format!("\"complete\": {}, \"capped\": {}, \"wall_s\": {:.2},\n", complete, self.capped.load(SeqCst), self.start.elapsed().as_secs_f64());
        s += &format!("\"samples\": [{}],\n", i.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",\n "));
        let m = |b: &BTreeMap<String, u64>| b.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ");
        s += &format!("\"scenarios\": {{{}}},\n\"outcomes\": {{{}}},\n\"extra\": {{{}}},\n", m(&i.scenarios), m(&i.outcomes), m(&crate::sut::lk(&self.extra)));
        s += &format!("\"notes\": [{}],\n", i.notes.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",\n "));
        s += &format!("\"violations\": [{}]\n}}\n", i.violations.iter()
            .map(|(sig, js)| format!("{{\"sig\": {}, \"detail\": {}}}", esc(sig), js)).collect::<Vec<_>>().join(",\n "));
        std::fs::write(&self.out, s).unwrap();
    }

    /// Silence ordinary panics, but turn those which the runtime is about to
    /// abort for into a violation.
    pub fn abort_hook(self: &Arc<Self>, verbose: bool) {
        let me = self.clone();
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if verbose { old(info); }
            let t = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { return };
            if !(t.contains("panic in a destructor during cleanup") || t.contains("panic in a function that cannot unwind")) { return; }
            let Some(slot) = current() else { return };
            let d = crate::sut::lk(&slot.cur).clone();
            let Some((_, d)) = d else { return };
            let p: Vec<&str> = d.split('\t').collect();
            let idx: Vec<u16> = p.get(2).unwrap_or(&"").split(',').filter_map(|x| x.parse().ok()).collect();
            me.violation_text(p[0], p.get(1).unwrap_or(&""), &idx, &[], &format!("abort: {t}"));
            me.write(false);
            std::process::exit(3);
        }));
    }

    /// A history that does not terminate is a violation: report and exit.
    pub fn watchdog(self: &Arc<Self>, limit: Duration) {
        let me = self.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            for s in &me.slots {
                let stuck = match &*crate::sut::lk(&s.cur) {
                    Some((t, d)) if t.elapsed() > limit => Some(d.clone()),
                    _ => None,
                };
                if let Some(d) = stuck {
                    let p: Vec<&str> = d.split('\t').collect();
                    let idx: Vec<u16> = p.get(2).unwrap_or(&"").split(',').filter_map(|x| x.parse().ok()).collect();
                    me.violation_text(p[0], p.get(1).unwrap_or(&""), &idx, &[], &format!("hang: no progress for {limit:?}"));
                    me.write(false);
                    std::process::exit(3);
                }
            }
        });
    }
}

/// Collapse repetitions
fn abbreviate(v: Vec<String>) -> Vec<String> {
    let mut r: Vec<(String, usize)> = vec![];
    for x in v {
        match r.last_mut() { Some((y, n)) if *y == x => *n += 1, _ => r.push((x, 1)) }
    }
    let mut r: Vec<String> = r.into_iter().map(|(x, n)| if n > 1 { format!("{x} ({n} times)") } else { x }).collect();
    if r.len() > 120 {
        let k = r.len() - 100;
        r.splice(20..20 + k, [format!("... {k} more ...")]);
    }
    r
}

pub fn short(meta: &Meta, h: &HOp) -> String {
    match h {
        HOp::Create(g) => format!("create group {g}"),
        HOp::Ckpt(g) => format!("checkpoint group {g}"),
        HOp::Drop(g, u) => format!("drop group {g}{}", if *u { " while unwinding" } else { "" }),
        HOp::InUnwind(v) => format!("during unwinding: {}", v.iter().map(|x| short(meta, x)).collect::<Vec<_>>().join(", ")),
        HOp::DropAllUnwinding => "unwind through everything".into(),
        HOp::NewSeq(s) => format!("new sequence {s}"),
        HOp::Expect { f, ops, on_guard } => format!("expect {}{}{}", meta.fns[*f].cname, if *on_guard { " (on guard)" } else { "" },
            ops.iter().map(|o| format!(".{o:?}")).collect::<String>()),
        HOp::Call { f, args, set, other } => format!("call {}({}){}{}", meta.fns[*f].cname,
            args.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(","),
            match set { Some(v) => format!(" then write {v}"), None => String::new() },
            if *other { " on another thread" } else { "" }),
    }
}
