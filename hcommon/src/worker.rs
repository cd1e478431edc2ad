//! Worker side of the check protocol. A worker runs the cases start, start+step, ... and reports
//! JSON lines on stdout: violations, samples and one final summary. The current case is kept in a
//! file, so that a crash (abort, stack overflow) can be attributed to it by the supervisor.
use crate::src::Src;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

thread_local! { static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

static LAST_ANY: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// Runs `f`, turning a panic into its message (with location).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic on another thread".into())
    })
}

pub fn hash64(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub struct Outcome;

pub struct Ctx {
    pub check: String,
    pub seed: u64,
    pub tier: String,
    pub out: String,
    pub worker: u64,
    pub counts: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: usize,
    pub violations: usize,
    pub max_violations: usize,
    cur: Option<std::fs::File>,
    start: Instant,
    secs: u64,
}

impl Ctx {
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    /// Registers an observed case; `nontrivial` ones are counted as distinct by hash.
    pub fn observed(&mut self, key: &[u8], nontrivial: bool) {
        self.count("evaluations");
        if nontrivial {
            self.distinct.insert(hash64(key));
        }
    }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        if self.samples < 2 {
            self.samples += 1;
            println!("{}", json!({"t":"sample","v":v()}));
        }
    }
    /// Records the case about to run (for crash attribution).
    pub fn current(&mut self, v: &Value) {
        use std::io::{Seek, SeekFrom};
        if let Some(f) = &mut self.cur {
            let s = v.to_string();
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.set_len(0);
            let _ = f.write_all(s.as_bytes());
        }
    }
    /// Reports a violation: `sig` identifies the failing input exactly, `case` replays it.
    pub fn violation(&mut self, kind: &str, msg: &str, case: Value) {
        self.violations += 1;
        println!("{}", json!({"t":"viol","kind":kind,"msg":msg,"case":case}));
        let _ = std::io::stdout().flush();
    }
    pub fn time_left(&self) -> bool {
        self.start.elapsed().as_secs() < self.secs
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn case_seed(&self, i: u64) -> u64 {
        hash64(format!("{}/{}/{}", self.check, self.seed, i).as_bytes())
    }
    pub fn src(&self, i: u64) -> Src {
        Src::new(self.case_seed(i))
    }
}

/// Entry point of a harness binary:
///   bin CHECK --seed S --start A --step B --count N --secs T --out DIR [--replay FILE]
/// `f(ctx, case_index, replay)` runs one case; with a replay value it runs that recorded case instead.
pub fn run(dispatch: impl Fn(&str) -> Option<Box<dyn FnMut(&mut Ctx, u64, Option<&Value>)>> + Send + 'static) {
    let args: Vec<String> = std::env::args().collect();
    let check = args.get(1).cloned().unwrap_or_default();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let seed = num("--seed", 1);
    let start = num("--start", 0);
    let step = num("--step", 1).max(1);
    let count = num("--count", 100);
    let secs = num("--secs", 60);
    let out = get("--out").unwrap_or_else(|| "/tmp".into());
    let replay = get("--replay");
    let tier = get("--tier").unwrap_or_else(|| "quick".into());
    let stack = num("--stack-mb", 8) as usize;
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if let Ok(mut g) = LAST_ANY.lock() {
            *g = format!("{loc}: {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{loc}: {msg}")));
    }));
    let body = move || {
        let Some(mut f) = dispatch(&check) else {
            eprintln!("unknown check {check}");
            std::process::exit(2);
        };
        let cur = std::fs::OpenOptions::new()
            .create(true)
            .write(true)
            .truncate(true)
            .open(format!("{out}/cur-{check}-{start}.json"))
            .ok();
        let mut ctx = Ctx {
            check: check.clone(),
            seed,
            tier,
            out: out.clone(),
            worker: start,
            counts: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: 0,
            violations: 0,
            max_violations: num_env("VERIF_MAX_VIOL", 5),
            cur,
            start: Instant::now(),
            secs,
        };
        if let Some(file) = replay {
            let text = std::fs::read_to_string(&file).expect("replay file");
            let v: Value = serde_json::from_str(&text).expect("replay json");
            let case = v.get("case").cloned().unwrap_or(v);
            f(&mut ctx, u64::MAX, Some(&case));
        } else {
            let mut i = start;
            let mut done = 0;
            while done < count && ctx.time_left() && ctx.violations < ctx.max_violations {
                f(&mut ctx, i, None);
                i += step;
                done += 1;
            }
            ctx.add("cases", done);
        }
        let mut d: Vec<u64> = ctx.distinct.iter().copied().collect();
        d.sort_unstable();
        let bytes: Vec<u8> = d.iter().flat_map(|x| x.to_le_bytes()).collect();
        let _ = std::fs::write(format!("{out}/distinct-{check}-{start}.bin"), bytes);
        println!("{}", json!({"t":"done","counts":ctx.counts,"distinct":d.len()}));
    };
    let h = std::thread::Builder::new().stack_size(stack << 20).spawn(body).unwrap();
    if h.join().is_err() {
        eprintln!("harness panic: {}", LAST_ANY.lock().map(|g| g.clone()).unwrap_or_default());
        std::process::exit(3);
    }
}

fn num_env(k: &str, d: usize) -> usize {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
