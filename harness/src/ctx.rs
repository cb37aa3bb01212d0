//! Enumeration driver: parallel sections, violation reporting, known findings and evidence.

use std::cell::Cell;
use std::collections::BTreeSet;
use std::ffi::c_void;
use std::fmt::Write as _;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

pub const ROOT: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/..");
const MAXT: usize = 64;
/// A single call that takes longer than this does not terminate for our purposes.
const HANG_S: u64 = 90;

pub struct Slot {
    func: AtomicPtr<u8>,
    flen: AtomicUsize,
    args: [AtomicU64; 8],
    nargs: AtomicUsize,
    beat: AtomicU64,
    busy: AtomicBool,
}

#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot {
    func: AtomicPtr::new(std::ptr::null_mut()),
    flen: AtomicUsize::new(0),
    args: [const { AtomicU64::new(0) }; 8],
    nargs: AtomicUsize::new(0),
    beat: AtomicU64::new(0),
    busy: AtomicBool::new(false),
};
static SLOTS: [Slot; MAXT] = [SLOT0; MAXT];
thread_local!(static MY: Cell<usize> = const { Cell::new(0) });

static CTX: std::sync::OnceLock<Ctx> = std::sync::OnceLock::new();
static DYING: AtomicBool = AtomicBool::new(false);

pub struct Section {
    pub name: String,
    pub evals: u64,
    pub nontrivial: u64,
    pub wall: f64,
}

pub struct Ctx {
    pub id: &'static str,
    pub thorough: bool,
    pub seed: i64,
    pub threads: usize,
    start: Instant,
    level: &'static str,
    evals: AtomicU64,
    nontrivial: AtomicU64,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    sections: Mutex<Vec<Section>>,
    samples: Mutex<Vec<String>>,
    cur_samples: AtomicUsize,
    known: Vec<Known>,
    known_hit: Mutex<BTreeSet<String>>,
    rule: Mutex<String>,
    assumptions: Mutex<Vec<String>>,
}

struct Known {
    func: String,
    input: String,
    what: String,
}

pub struct Worker<'a> {
    pub ctx: &'a Ctx,
    slot: &'static Slot,
    pub evals: u64,
    pub nontrivial: u64,
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

unsafe extern "C" {
    fn sigaction(sig: i32, act: *const c_void, old: *mut c_void) -> i32;
    fn _exit(code: i32) -> !;
}

extern "C" fn on_signal(sig: i32) {
    let name = match sig {
        4 => "SIGILL",
        6 => "SIGABRT",
        7 => "SIGBUS",
        8 => "SIGFPE",
        11 => "SIGSEGV",
        _ => "signal",
    };
    crashed(MY.get(), name);
}

fn slot_text(i: usize) -> (String, String) {
    let s = &SLOTS[i];
    let p = s.func.load(Relaxed);
    let f = if p.is_null() {
        "?".to_string()
    } else {
        unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, s.flen.load(Relaxed))).into_owned() }
    };
    let n = s.nargs.load(Relaxed);
    if n >= TEXT {
        let b: Vec<u8> = s.args.iter().flat_map(|a| a.load(Relaxed).to_le_bytes()).take(n - TEXT).collect();
        return (f, format!("{:?}", String::from_utf8_lossy(&b)));
    }
    let n = n.min(8);
    let a: Vec<String> = s.args[..n].iter().map(|a| format!("{:#x}", a.load(Relaxed))).collect();
    (f, a.join(", "))
}

/// Marks arguments that are the start of a text.
const TEXT: usize = 0x100;

fn crashed(i: usize, what: &str) {
    let (f, a) = slot_text(i);
    if let Some(c) = CTX.get() {
        c.violate(&f, &a, "a normal return", what);
    }
    unsafe { _exit(2) }
}

/// Run `f` as the check of property `id`.
pub fn run(id: &'static str, level: &'static str, f: impl FnOnce(&Ctx)) -> ! {
    let tier = std::env::var("VERIF_TIER").unwrap_or_default();
    let arg = std::env::args().nth(1).unwrap_or_default();
    let thorough = arg == "thorough" || (arg.is_empty() && tier == "thorough");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(MAXT - 2);
    let ctx = Ctx {
        id,
        thorough,
        seed,
        threads,
        start: Instant::now(),
        level,
        evals: AtomicU64::new(0),
        nontrivial: AtomicU64::new(0),
        states: AtomicU64::new(0),
        transitions: AtomicU64::new(0),
        traces: AtomicU64::new(0),
        sections: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
        cur_samples: AtomicUsize::new(0),
        known: load_known(id),
        known_hit: Mutex::new(BTreeSet::new()),
        rule: Mutex::new(String::new()),
        assumptions: Mutex::new(vec![]),
    };
    let _ = CTX.set(ctx);
    let ctx = CTX.get().unwrap();
    install_handlers();
    std::thread::spawn(|| {
        let mut last = [(0u64, Instant::now()); MAXT];
        for l in last.iter_mut() {
            l.1 = Instant::now();
        }
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for i in 0..MAXT {
                let b = SLOTS[i].beat.load(Relaxed);
                if !SLOTS[i].busy.load(Relaxed) || b != last[i].0 {
                    last[i] = (b, Instant::now());
                } else if last[i].1.elapsed().as_secs() > HANG_S {
                    crashed(i, &format!("no return within {HANG_S} s"));
                }
            }
        }
    });
    f(ctx);
    ctx.finish()
}

pub fn install_handlers() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string().replace('\n', " ");
        let loc = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        let here = !loc.contains("/repo/") && (loc.starts_with("src/") || loc.contains("/harness/"));
        eprintln!("panic: {msg}");
        // A panic of the harness itself is an error of the check, not a violation.
        if here {
            unsafe { _exit(3) }
        }
        crashed(MY.get(), &format!("panic: {msg}"));
    }));
    #[repr(C)]
    struct Sa {
        handler: extern "C" fn(i32),
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    // SA_ONSTACK | SA_NODEFER
    let sa = Sa { handler: on_signal, mask: [0; 16], flags: 0x0800_0000 | 0x4000_0000, restorer: 0 };
    for s in [4, 6, 7, 8, 11] {
        unsafe {
            sigaction(s, &sa as *const Sa as *const c_void, std::ptr::null_mut());
        }
    }
}

fn load_known(id: &str) -> Vec<Known> {
    // One line per finding: `property=<id> | function | inputs | what fails`; `fixed:` lines and
    // comments are history only.
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{ROOT}/known-findings.txt")) {
        for l in t.lines() {
            let l = l.trim();
            let Some(rest) = l.strip_prefix("property=") else { continue };
            let p: Vec<&str> = rest.split(" | ").map(|s| s.trim()).collect();
            if p.len() == 4 && p[0] == id {
                v.push(Known { func: p[1].into(), input: p[2].into(), what: p[3].into() });
            }
        }
    }
    v
}

impl Ctx {
    /// Enumerate `n` chunks in parallel.
    pub fn par<F: Fn(u64, &mut Worker) + Sync>(&self, name: &str, n: u64, f: F) {
        let t = Instant::now();
        let e0 = self.evals.load(Relaxed);
        let n0 = self.nontrivial.load(Relaxed);
        self.cur_samples.store(0, Relaxed);
        let next = AtomicU64::new(0);
        std::thread::scope(|s| {
            for i in 0..self.threads {
                let (next, f) = (&next, &f);
                s.spawn(move || {
                    MY.set(i + 1);
                    let slot = &SLOTS[i + 1];
                    slot.func.store(name.as_ptr() as *mut u8, Relaxed);
                    slot.flen.store(name.len(), Relaxed);
                    let mut w = Worker { ctx: self, slot, evals: 0, nontrivial: 0 };
                    slot.busy.store(true, Relaxed);
                    loop {
                        let c = next.fetch_add(1, Relaxed);
                        if c >= n {
                            break;
                        }
                        slot.beat.fetch_add(1, Relaxed);
                        f(c, &mut w);
                        self.evals.fetch_add(std::mem::take(&mut w.evals), Relaxed);
                        self.nontrivial.fetch_add(std::mem::take(&mut w.nontrivial), Relaxed);
                    }
                    slot.busy.store(false, Relaxed);
                });
            }
        });
        let sec = Section {
            name: name.into(),
            evals: self.evals.load(Relaxed) - e0,
            nontrivial: self.nontrivial.load(Relaxed) - n0,
            wall: t.elapsed().as_secs_f64(),
        };
        println!("  {:<58} {:>13} cases {:>13} nontrivial {:>7.2}s", sec.name, sec.evals, sec.nontrivial, sec.wall);
        assert!(n == 0 || sec.evals > 0, "section {name} explored nothing");
        self.sections.lock().unwrap().push(sec);
    }

    pub fn seq(&self, name: &str, f: impl Fn(&mut Worker) + Sync) {
        self.par(name, 1, |_, w| f(w));
    }

    pub fn add_states(&self, states: u64, transitions: u64, traces: u64) {
        self.states.fetch_add(states, Relaxed);
        self.transitions.fetch_add(transitions, Relaxed);
        self.traces.fetch_add(traces, Relaxed);
    }

    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.into();
    }

    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }

    pub fn sample(&self, s: String) {
        self.samples.lock().unwrap().push(s);
    }

    /// Report a violation: returns only if it is a listed known finding.
    #[cold]
    #[inline(never)]
    pub fn violate(&self, func: &str, input: &str, expected: &str, got: &str) {
        for k in &self.known {
            if k.func == func && (k.input == input || k.input == "*") {
                let line = format!("KNOWN-FINDING: property={} {}", self.id, k.what);
                if self.known_hit.lock().unwrap().insert(line.clone()) {
                    println!("{line}");
                }
                return;
            }
        }
        if DYING.swap(true, SeqCst) {
            // Another thread is already reporting.
            loop {
                std::thread::sleep(Duration::from_secs(1));
            }
        }
        let dir = format!("{ROOT}/evidence");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/replay-{}.json", self.id);
        let _ = std::fs::write(
            &path,
            format!(
                "{{\"property\": {}, \"function\": {}, \"input\": {}, \"expected\": {}, \"got\": {}, \"replay_cmd\": {}}}\n",
                esc(self.id),
                esc(func),
                esc(input),
                esc(expected),
                esc(got),
                esc(&format!("./run.sh {} {}", self.id, if self.thorough { "thorough" } else { "quick" })),
            ),
        );
        println!("  function: {func}\n  input:    {input}\n  expected: {expected}\n  got:      {got}");
        println!("VIOLATION property={} replay=evidence/replay-{}.json", self.id, self.id);
        self.write_evidence(1);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { _exit(1) }
    }

    fn write_evidence(&self, violations: u64) {
        let (e, n) = (self.evals.load(Relaxed), self.nontrivial.load(Relaxed));
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"wall_s\": {:.3}, \"violations\": {},\n \"coverage\": {{\n",
            esc(self.id),
            esc(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            esc(self.level),
            self.start.elapsed().as_secs_f64(),
            violations
        );
        if self.level == "model_checking" {
            let _ = write!(
                s,
                "  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n",
                self.states.load(Relaxed),
                self.transitions.load(Relaxed),
                self.traces.load(Relaxed)
            );
        }
        let _ = write!(
            s,
            "  \"evaluations\": {e}, \"distinct_nontrivial\": {n}, \"exhaustive\": true,\n  \"rule\": {},\n",
            esc(&self.rule.lock().unwrap())
        );
        let sec = self.sections.lock().unwrap();
        s.push_str("  \"sections\": [\n");
        for (i, x) in sec.iter().enumerate() {
            let _ = write!(
                s,
                "   {{\"name\": {}, \"evaluations\": {}, \"nontrivial\": {}, \"wall_s\": {:.3}}}{}\n",
                esc(&x.name),
                x.evals,
                x.nontrivial,
                x.wall,
                if i + 1 < sec.len() { "," } else { "" }
            );
        }
        s.push_str("  ],\n  \"samples\": [\n");
        let mut sm = self.samples.lock().unwrap().clone();
        sm.truncate(60);
        for (i, x) in sm.iter().enumerate() {
            let _ = write!(s, "   {}{}\n", esc(x), if i + 1 < sm.len() { "," } else { "" });
        }
        s.push_str("  ]\n },\n \"assumptions\": [");
        let a = self.assumptions.lock().unwrap();
        for (i, x) in a.iter().enumerate() {
            let _ = write!(s, "{}{}", if i > 0 { ", " } else { "" }, esc(x));
        }
        s.push_str("]\n}\n");
        let dir = format!("{ROOT}/evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{dir}/{}.json", self.id), s).expect("evidence file");
    }

    fn finish(&self) -> ! {
        if DYING.load(SeqCst) {
            loop {
                std::thread::sleep(Duration::from_secs(1));
            }
        }
        self.write_evidence(0);
        println!(
            "{} {}: held on {} cases ({} nontrivial) in {:.1}s",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            self.evals.load(Relaxed),
            self.nontrivial.load(Relaxed),
            self.start.elapsed().as_secs_f64()
        );
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { _exit(0) }
    }
}

impl Worker<'_> {
    /// Name the routine under test for crash reports.
    #[inline]
    pub fn func(&mut self, f: &'static str) {
        self.slot.func.store(f.as_ptr() as *mut u8, Relaxed);
        self.slot.flen.store(f.len(), Relaxed);
    }

    /// Record the inputs of the call about to be made (for crash and hang reports).
    #[inline(always)]
    pub fn args<const N: usize>(&mut self, a: [u64; N]) {
        for i in 0..N {
            self.slot.args[i].store(a[i], Relaxed);
        }
        self.slot.nargs.store(N, Relaxed);
    }

    /// The argument is a text (its start is kept for reports).
    pub fn text(&mut self, t: &str) {
        for (a, c) in self.slot.args.iter().zip(t.as_bytes().chunks(8)) {
            let mut b = [0; 8];
            b[..c.len()].copy_from_slice(c);
            a.store(u64::from_le_bytes(b), Relaxed);
        }
        self.slot.nargs.store(TEXT + t.len().min(64), Relaxed);
    }

    #[inline(always)]
    pub fn done(&mut self, nontrivial: bool) {
        self.evals += 1;
        self.nontrivial += nontrivial as u64;
    }

    /// Tell the watchdog that a long chunk is making progress.
    #[inline]
    pub fn beat(&mut self) {
        self.slot.beat.fetch_add(1, Relaxed);
    }

    #[cold]
    #[inline(never)]
    pub fn fail(&mut self, func: &str, input: &str, expected: &str, got: &str) {
        self.ctx.evals.fetch_add(std::mem::take(&mut self.evals), Relaxed);
        self.ctx.nontrivial.fetch_add(std::mem::take(&mut self.nontrivial), Relaxed);
        self.ctx.violate(func, input, expected, got)
    }

    /// Keep at most two written-out cases per section.
    #[inline]
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.ctx.cur_samples.load(Relaxed) < 2 && self.ctx.cur_samples.fetch_add(1, Relaxed) < 2 {
            self.ctx.sample(f());
        }
    }
}
