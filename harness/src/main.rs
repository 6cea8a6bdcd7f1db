//! Drives newton_rootfinder through scenarios (one JSON object per line) and records
//! what it does (one JSON object per line).
#[cfg(feature = "low")]
mod low;
mod model;
mod rec;
mod solve;
mod unit;

use rec::*;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn dispatch(sc: &Value, ev: &Events) {
    match st(sc, "kind", "solve") {
        "solve" => solve::solve(sc, ev),
        "xml" => unit::xml(sc, ev),
        "params" => unit::params(sc, ev),
        #[cfg(feature = "low")]
        "store" => low::store(sc, ev),
        #[cfg(feature = "low")]
        "call" => low::call(sc, ev),
        other => panic!("harness: kind {}", other),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut output = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    let wait: u64 = args.get(3).and_then(|x| x.parse().ok()).unwrap_or(20);
    let mut hangs = 0;
    for line in input.lines() {
        if hangs >= 2 {
            break;
        }
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let sc: Value = serde_json::from_str(&line).unwrap();
        let ev: Events = Arc::new(Mutex::new(Vec::new()));
        let (tx, rx) = mpsc::channel();
        let (sc2, ev2) = (sc.clone(), ev.clone());
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let r = caught(|| dispatch(&sc2, &ev2));
                let _ = tx.send(r);
            })
            .unwrap();
        let end = rx.recv_timeout(Duration::from_secs(wait));
        let mut events = ev.lock().unwrap_or_else(|e| e.into_inner()).clone();
        match end {
            Ok(Ok(())) => (),
            Ok(Err(t)) => events.push(json!({"e": "broken", "text": t})),
            Err(mpsc::RecvTimeoutError::Timeout) => {
                hangs += 1;
                events.truncate(400);
                events.push(json!({"e": "hang"}))
            }
            Err(_) => events.push(json!({"e": "broken", "text": "worker ended"})),
        }
        let mut out = sc.clone();
        out.as_object_mut().unwrap().insert("ev".into(), Value::Array(events));
        serde_json::to_writer(&mut output, &out).unwrap();
        output.write_all(b"\n").unwrap();
        output.flush().unwrap();
    }
    output.flush().unwrap();
    std::process::exit(0);
}
