//! Case driver: runs deterministic cases, classifies panics, counts what the monitors observed.
use crate::rng::{hash_str, Rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A monitor saw the property violated.
pub struct Viol(pub String);
/// The case left the domain of the property (recorded, never a verdict).
pub struct Skip(pub &'static str);

pub fn viol(msg: String) -> ! {
    panic::resume_unwind(Box::new(Viol(msg)))
}
pub fn skip(why: &'static str) -> ! {
    panic::resume_unwind(Box::new(Skip(why)))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { $crate::driver::viol(format!($($a)*)) } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($x:expr, $y:expr, $($a:tt)*) => {{
        let (x, y) = (&$x, &$y);
        if x != y { $crate::driver::viol(format!("{}: got {:?}, expected {:?}", format!($($a)*), x, y)) }
    }};
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    /// Set while a case works over the rationals, whose machine words may overflow.
    /// How the next list of dimensions is handed over (see `red::handed`).
    pub static DIMS_STYLE: Cell<u64> = const { Cell::new(0) };
    pub static Q_OVERFLOW_OK: Cell<bool> = const { Cell::new(false) };
    static PANIC_NOTE: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// What one case observed.
#[derive(Default)]
pub struct Ctx {
    pub counters: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub sigs: Vec<u64>,
    pub sample: Option<String>,
    pub nontrivial: bool,
    pub tier_thorough: bool,
}

impl Ctx {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    /// Signature under which the case counts as distinct.
    pub fn sig(&mut self, s: &str) {
        self.sigs.push(hash_str(s));
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() {
            let mut s = f();
            if s.len() > 1500 {
                let mut cut = 1500;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str(" ...");
            }
            self.sample = Some(s);
        }
    }
}

pub struct Violation {
    pub case: u64,
    pub msg: String,
    pub sample: Option<String>,
}

pub enum Outcome {
    Held,
    Violated(String),
    Skipped(&'static str),
    HarnessError(String),
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(non-string panic)".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn is_harness_loc(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/") || loc.contains("vcore/src")
}

pub fn classify(payload: Box<dyn std::any::Any + Send>) -> Outcome {
    if let Some(v) = payload.downcast_ref::<Viol>() {
        return Outcome::Violated(v.0.clone());
    }
    if let Some(s) = payload.downcast_ref::<Skip>() {
        return Outcome::Skipped(s.0);
    }
    let (loc, msg) = LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or(("?".into(), "?".into()));
    if is_harness_loc(&loc) {
        return Outcome::HarnessError(format!("monitor panicked at {loc}: {msg}"));
    }
    let ovf = msg.contains("overflow") && !msg.contains("capacity");
    if ovf
        && Q_OVERFLOW_OK.with(|q| q.get())
        && (loc.contains("fields") || loc.contains("num-"))
    {
        return Outcome::Skipped("rational overflow");
    }
    Outcome::Violated(format!("panic at {loc}: {msg}"))
}

/// Run one closure the way the driver runs a case, for sub-steps whose panic is a verdict of its own.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Outcome> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(p) => Err(classify(p)),
    }
}

pub struct Args {
    pub seed: u64,
    pub cases: u64,
    pub deadline: f64,
    pub threads: usize,
    pub out: Option<String>,
    pub slots: Option<String>,
    pub only: Option<u64>,
    pub thorough: bool,
}

pub fn parse_args() -> Args {
    let mut a = Args {
        seed: 1,
        cases: 1000,
        deadline: 60.0,
        threads: 8,
        out: None,
        slots: None,
        only: None,
        thorough: false,
    };
    let v: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < v.len() {
        let val = v.get(i + 1).cloned().unwrap_or_default();
        match v[i].as_str() {
            "--seed" => a.seed = val.parse::<i64>().map(|x| x as u64).unwrap_or(1),
            "--cases" => a.cases = val.parse().unwrap(),
            "--deadline" => a.deadline = val.parse().unwrap(),
            "--threads" => a.threads = val.parse().unwrap(),
            "--out" => a.out = Some(val),
            "--slots" => a.slots = Some(val),
            "--only" => a.only = Some(val.parse().unwrap()),
            "--thorough" => {
                a.thorough = true;
                i -= 1
            }
            o => panic!("unknown argument {o}"),
        }
        i += 2;
    }
    a
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Exit codes: 0 held, 1 violated, 3 harness error.
/// `case(ctx, rng, idx)` must be deterministic in (seed, idx).
pub fn run(
    prop: &str,
    self_check: impl FnOnce(),
    case: impl Fn(&mut Ctx, &mut Rng, u64) + Sync,
) {
    let args = parse_args();
    install_hook();
    let start = Instant::now();
    // the interpreter is too slow for it, and the same binaries run it natively
    if let Err(o) = guarded(|| if !cfg!(miri) { self_check() }) {
        let m = match o {
            Outcome::HarnessError(m) | Outcome::Violated(m) => m,
            Outcome::Skipped(m) => m.into(),
            Outcome::Held => unreachable!(),
        };
        eprintln!("self check of the oracle failed: {m}");
        std::process::exit(3);
    }
    let ph = hash_str(prop);
    let run_one = |idx: u64, ctx: &mut Ctx| -> Outcome {
        let mut rng = Rng::new(&[args.seed, ph, idx]);
        crate::read::reset(Rng::new(&[args.seed, ph, idx, 1]).u64());
        ctx.tier_thorough = args.thorough;
        Q_OVERFLOW_OK.with(|q| q.set(false));
        DIMS_STYLE.with(|q| q.set(idx));
        PANIC_NOTE.with(|n| *n.borrow_mut() = None);
        match guarded(|| case(ctx, &mut rng, idx)) {
            Ok(()) => Outcome::Held,
            // The monitors run silently over millions of cases on a correct library, so a monitor that
            // trips over a value it was handed was handed a wrong value; failures of the operating
            // system stay errors of the harness.
            Err(Outcome::HarnessError(m)) if !m.contains("Os {") => {
                Outcome::Violated(format!("the library handed the monitor something it cannot interpret: {m}"))
            }
            Err(o) => o,
        }
    };

    if let Some(idx) = args.only {
        let t = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped_or_run(|| {
                let mut ctx = Ctx::default();
                let o = run_one(idx, &mut ctx);
                (o, ctx)
            });
        let (o, ctx) = t;
        if let Some(s) = &ctx.sample {
            println!("case {idx}: {s}");
        }
        let code = match o {
            Outcome::Held => {
                println!("case {idx}: held");
                0
            }
            Outcome::Skipped(w) => {
                println!("case {idx}: skipped ({w})");
                0
            }
            Outcome::Violated(m) => {
                println!("case {idx}: VIOLATED: {m}");
                1
            }
            Outcome::HarnessError(m) => {
                println!("case {idx}: harness error: {m}");
                3
            }
        };
        std::process::exit(code);
    }

    let slots = args.slots.as_ref().map(|p| {
        let f = std::fs::OpenOptions::new()
            .create(true)
            .write(true)
            .truncate(true)
            .open(p)
            .expect("slots file");
        f.write_all_at(&vec![0xffu8; 16 * args.threads], 0).unwrap();
        f
    });
    struct Agg {
        counters: BTreeMap<&'static str, u64>,
        maxima: BTreeMap<&'static str, u64>,
        sigs: HashSet<u64>,
        samples: Vec<(u64, String)>,
        evaluations: u64,
        skipped: BTreeMap<&'static str, u64>,
        violations: Vec<Violation>,
        errors: Vec<String>,
        slowest: (f64, u64),
    }
    let agg = Mutex::new(Agg {
        counters: BTreeMap::new(),
        maxima: BTreeMap::new(),
        sigs: HashSet::new(),
        samples: vec![],
        evaluations: 0,
        skipped: BTreeMap::new(),
        violations: vec![],
        errors: vec![],
        slowest: (0.0, 0),
    });
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    std::thread::scope(|sc| {
        for t in 0..args.threads {
            let (agg, next, stop, run_one, slots, args) =
                (&agg, &next, &stop, &run_one, &slots, &args);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || loop {
                    if stop.load(Ordering::Relaxed)
                        || start.elapsed() > Duration::from_secs_f64(args.deadline)
                    {
                        break;
                    }
                    let idx = next.fetch_add(1, Ordering::Relaxed) as u64;
                    if idx >= args.cases {
                        break;
                    }
                    if let Some(f) = slots {
                        let ms = start.elapsed().as_millis() as u64;
                        let mut b = [0u8; 16];
                        b[..8].copy_from_slice(&idx.to_le_bytes());
                        b[8..].copy_from_slice(&ms.to_le_bytes());
                        let _ = f.write_all_at(&b, 16 * t as u64);
                    }
                    let t0 = Instant::now();
                    let mut ctx = Ctx::default();
                    let o = run_one(idx, &mut ctx);
                    let dt = t0.elapsed().as_secs_f64();
                    let mut a = agg.lock().unwrap();
                    if dt > a.slowest.0 {
                        a.slowest = (dt, idx);
                    }
                    match o {
                        Outcome::Held => {
                            a.evaluations += 1;
                            for (k, v) in ctx.counters {
                                *a.counters.entry(k).or_insert(0) += v;
                            }
                            for (k, v) in ctx.maxima {
                                let e = a.maxima.entry(k).or_insert(0);
                                *e = (*e).max(v);
                            }
                            if ctx.nontrivial {
                                for s in ctx.sigs {
                                    a.sigs.insert(s);
                                }
                                if a.samples.len() < 4 {
                                    if let Some(s) = ctx.sample {
                                        a.samples.push((idx, s));
                                    }
                                }
                            }
                        }
                        Outcome::Skipped(w) => *a.skipped.entry(w).or_insert(0) += 1,
                        Outcome::Violated(m) => {
                            a.violations.push(Violation {
                                case: idx,
                                msg: m,
                                sample: ctx.sample,
                            });
                            if a.violations.len() >= 5 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        Outcome::HarnessError(m) => {
                            a.errors.push(format!("case {idx}: {m}"));
                            if a.errors.len() >= 20 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    if let Some(f) = slots {
                        let _ = f.write_all_at(&[0xffu8; 8], 16 * t as u64);
                    }
                })
                .unwrap();
        }
    });
    let mut a = agg.into_inner().unwrap();
    a.violations.sort_by_key(|v| v.case);
    let mut o = String::from("{\n");
    o.push_str(&format!("\"evaluations\": {},\n", a.evaluations));
    o.push_str(&format!("\"distinct_nontrivial\": {},\n", a.sigs.len()));
    o.push_str(&format!(
        "\"planned\": {}, \"slowest_s\": {:.3}, \"slowest_case\": {},\n",
        args.cases, a.slowest.0, a.slowest.1
    ));
    let m = |b: &BTreeMap<&'static str, u64>| {
        b.iter()
            .map(|(k, v)| format!("{}: {}", json_str(k), v))
            .collect::<Vec<_>>()
            .join(", ")
    };
    o.push_str(&format!("\"observed\": {{{}}},\n", m(&a.counters)));
    o.push_str(&format!("\"maxima\": {{{}}},\n", m(&a.maxima)));
    o.push_str(&format!("\"skipped\": {{{}}},\n", m(&a.skipped)));
    o.push_str(&format!(
        "\"samples\": [{}],\n",
        a.samples
            .iter()
            .map(|(i, s)| json_str(&format!("case {i}: {s}")))
            .collect::<Vec<_>>()
            .join(", ")
    ));
    o.push_str(&format!(
        "\"violations\": [{}],\n",
        a.violations
            .iter()
            .map(|v| format!(
                "{{\"case\": {}, \"msg\": {}, \"input\": {}}}",
                v.case,
                json_str(&v.msg),
                json_str(v.sample.as_deref().unwrap_or(""))
            ))
            .collect::<Vec<_>>()
            .join(", ")
    ));
    o.push_str(&format!(
        "\"errors\": [{}],\n",
        a.errors
            .iter()
            .map(|e| json_str(e))
            .collect::<Vec<_>>()
            .join(", ")
    ));
    o.push_str(&format!(
        "\"wall_s\": {:.3}\n}}\n",
        start.elapsed().as_secs_f64()
    ));
    match &args.out {
        Some(p) => std::fs::File::create(p)
            .unwrap()
            .write_all(o.as_bytes())
            .unwrap(),
        None => print!("{o}"),
    }
    let code = if !a.violations.is_empty() {
        1
    } else if !a.errors.is_empty() {
        3
    } else {
        0
    };
    // returning lets leak checkers look at the end of the program
    if code != 0 {
        std::process::exit(code);
    }
}

trait SpawnOrRun {
    fn spawn_scoped_or_run<T: Send>(self, f: impl FnOnce() -> T + Send) -> T;
}
impl SpawnOrRun for std::thread::Builder {
    fn spawn_scoped_or_run<T: Send>(self, f: impl FnOnce() -> T + Send) -> T {
        std::thread::scope(|s| self.spawn_scoped(s, f).unwrap().join().unwrap())
    }
}
