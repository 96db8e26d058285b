//! Conformance harness: runs the cases of a file (one JSON object per line) against the real
//! osmio and writes what was observed (one JSON object per line, in the order of completion).
//!
//!     osmio-harness CASES.ndjson OUT.ndjson SCRATCH_DIR [FIRST]
//!
//! It contains no expectations: those come from the TLA+ specifications.
mod copy;
mod dump;
mod edit;
mod io;
mod misc;
mod read;
mod write;

use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::mpsc;
use std::time::Duration;

pub struct Ctx {
    pub scratch: std::path::PathBuf,
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Run f, and turn a panic into data.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

fn run_case(case: &Value, ctx: &Ctx) -> Value {
    match case["op"].as_str().unwrap_or("") {
        "read" => read::run(case, ctx),
        "write" => write::run(case, ctx),
        "edit" => edit::run(case),
        "copy" => copy::run(case),
        "time" => misc::time(case),
        "coord" => misc::coord(case),
        "kinds" => misc::kinds(case),
        "hook" => json!({"hook": cfg!(osmio_verif)}),
        other => json!({"harness_error": format!("unknown op {other}")}),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cases: Vec<String> = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap())
        .lines()
        .map(|l| l.unwrap())
        .collect();
    let mut out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&args[2])
        .unwrap();
    let scratch = std::path::PathBuf::from(&args[3]);
    let mut next: usize = args.get(4).map(|s| s.parse().unwrap()).unwrap_or(0);
    let limit = Duration::from_secs(
        std::env::var("CASE_TIMEOUT")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(30),
    );
    std::panic::set_hook(Box::new(|_| {}));

    // The cases run in a thread of their own, so that one which hangs can be reported.
    let cases = std::sync::Arc::new(cases);
    let (tx, rx) = mpsc::channel::<(usize, Value)>();
    let total = cases.len();
    {
        let cases = cases.clone();
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let ctx = Ctx { scratch };
                for i in next..total {
                    let v = match serde_json::from_str::<Value>(&cases[i]) {
                        Ok(case) => guarded(|| run_case(&case, &ctx))
                            .unwrap_or_else(|p| json!({"harness_error": p})),
                        Err(e) => json!({"harness_error": e.to_string()}),
                    };
                    if tx.send((i, v)).is_err() {
                        return;
                    }
                }
            })
            .unwrap();
    }
    while next < total {
        match rx.recv_timeout(limit) {
            Ok((i, v)) => {
                serde_json::to_writer(&mut out, &json!({"i": i, "r": v})).unwrap();
                out.write_all(b"\n").unwrap();
                next = i + 1;
            }
            Err(_) => {
                serde_json::to_writer(&mut out, &json!({"i": next, "r": {"hang": true}})).unwrap();
                out.write_all(b"\n").unwrap();
                // the driver starts us again for the rest
                std::process::exit(3);
            }
        }
    }
    std::process::exit(0);
}
