#![allow(non_snake_case)]
//! drive [THREADS] < cases.ndjson > answers.ndjson
mod lang;
mod model;
mod query;
mod server;
mod sim;
mod table;

use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn handle(case: &Value) -> Value {
    match case["op"].as_str().unwrap() {
        "query" => query::query(case),
        "table" => table::table(case),
        "sim" => sim::sim(case),
        "guard" => lang::guard(case),
        "update" => lang::update(case),
        "parse" => lang::parse(case),
        "roundtrip" => lang::roundtrip(case),
        "server" => server::server(case),
        "tokens" => server::tokens(case),
        o => panic!("unknown op {o}"),
    }
}

fn main() {
    let threads: usize = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(8);
    std::panic::set_hook(Box::new(|_| {}));
    let lines: Arc<Vec<String>> =
        Arc::new(std::io::stdin().lock().lines().map(|l| l.unwrap()).collect());
    let next = Arc::new(AtomicUsize::new(0));
    let out: Arc<Mutex<Vec<Option<String>>>> = Arc::new(Mutex::new(vec![None; lines.len()]));
    let started: Arc<Mutex<HashMap<usize, Instant>>> = Arc::default();
    let mut hs = vec![];
    for _ in 0..threads {
        let (lines, next, out, started) = (lines.clone(), next.clone(), out.clone(), started.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= lines.len() {
                        break;
                    }
                    started.lock().unwrap().insert(i, Instant::now());
                    let case: Value = serde_json::from_str(&lines[i]).unwrap();
                    let mut v = match catch_unwind(AssertUnwindSafe(|| handle(&case))) {
                        Ok(v) => v,
                        Err(e) => json!({ "panic": message(&e) }),
                    };
                    v["id"] = case["id"].clone();
                    out.lock().unwrap()[i] = Some(v.to_string());
                    started.lock().unwrap().remove(&i);
                })
                .unwrap(),
        );
    }
    // A case that takes longer than this has no answer, nor has what waits for it.
    let limit = std::env::var("DRIVE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(240);
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(5));
        if started.lock().unwrap().values().any(|t| t.elapsed().as_secs() > limit) {
            let mut out = out.lock().unwrap();
            for (i, o) in out.iter_mut().enumerate() {
                if o.is_none() {
                    let case: Value = serde_json::from_str(&lines[i]).unwrap();
                    *o = Some(json!({ "panic": "no answer in time", "id": case["id"] }).to_string());
                }
            }
            let mut w = std::io::BufWriter::new(std::io::stdout().lock());
            for l in out.iter() {
                writeln!(w, "{}", l.as_ref().unwrap()).unwrap();
            }
            w.flush().unwrap();
            std::process::exit(0);
        }
    }
    let mut w = std::io::BufWriter::new(std::io::stdout().lock());
    for l in out.lock().unwrap().iter() {
        writeln!(w, "{}", l.as_ref().unwrap()).unwrap();
    }
    w.flush().unwrap();
    // Some operations leave a server's runtime behind.
    std::process::exit(0);
}

pub fn message(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.chars().take(300).collect()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.chars().take(300).collect()
    } else {
        "panic".to_string()
    }
}
