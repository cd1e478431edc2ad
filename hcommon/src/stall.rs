//! Deadlock monitor: while a section is watched, a watchdog thread samples the CPU time of this
//! process. A section that has run for 25 s while the process used under 0.3 s of CPU in the last
//! 15 s is reported as a deadlock, and the worker ends.
use serde_json::{json, Value};
use std::io::Write;
use std::sync::{Mutex, Once};
use std::time::{Duration, Instant};

static SECTION: Mutex<Option<(Instant, String, Value)>> = Mutex::new(None);
static START: Once = Once::new();

fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}
pub struct Guard(());
impl Drop for Guard {
    fn drop(&mut self) { *SECTION.lock().unwrap() = None; }
}
/// Watches the code until the guard is dropped; `case` replays it.
pub fn watch(what: &str, case: Value) -> Guard {
    START.call_once(|| { std::thread::spawn(watchdog); });
    *SECTION.lock().unwrap() = Some((Instant::now(), what.to_string(), case));
    Guard(())
}
fn watchdog() {
    let mut hist: Vec<u64> = vec![];
    loop {
        std::thread::sleep(Duration::from_secs(1));
        hist.push(cpu_ticks());
        let g = SECTION.lock().unwrap();
        if let Some((t, what, case)) = &*g {
            let n = hist.len();
            if t.elapsed().as_secs() >= 25 && n > 16 && hist[n - 1] - hist[n - 16] < 30 {
                println!("{}", json!({"t":"viol","kind":"deadlock","msg":format!("{what}: no progress for {} s, and the process is idle", t.elapsed().as_secs()),"case":case}));
                println!("{}", json!({"t":"done","counts":{},"distinct":0}));
                let _ = std::io::stdout().flush();
                std::process::exit(0);
            }
        }
    }
}
