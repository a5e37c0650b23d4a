//! executor IN OUT: runs the scenarios in IN (a JSON list) against the real crate and writes what
//! was observed, one JSON line per scenario, to OUT.
mod apps;
mod client;
mod decode;
mod inproc;
mod util;

use serde_json::{json, Value};
use std::io::Write;
use std::sync::Arc;

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        if m.contains("harness:") {
            eprintln!("{}", m);
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let width: usize = args.get(3).and_then(|x| x.parse().ok()).unwrap_or(8);
    let text = std::fs::read_to_string(&args[1]).expect("input");
    let scenarios: Vec<Value> = serde_json::from_str(&text).expect("json");
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(width)
        .thread_stack_size(64 << 20)
        .enable_all()
        .build()
        .unwrap();

    // Every line is written at once, so that a crash leaves what was finished and what was not.
    let out = Arc::new(std::sync::Mutex::new(std::fs::File::create(&args[2]).expect("output")));
    let put = |v: Value| {
        let text = format!("{}\n", v);
        out.lock().unwrap().write_all(text.as_bytes()).unwrap();
    };
    for sc in scenarios.iter().filter(|x| x["kind"] == "inproc") {
        put(json!({"started": sc["id"]}));
        let res: Vec<Value> = sc["cmds"].as_array().unwrap().iter().map(inproc::run).collect();
        put(json!({"id": sc["id"], "results": res}));
    }

    let sem = Arc::new(tokio::sync::Semaphore::new(width));
    rt.block_on(async {
        let mut tasks = vec![];
        for sc in scenarios.into_iter().filter(|x| x["kind"] != "inproc") {
            let permit = sem.clone().acquire_owned().await.unwrap();
            put(json!({"started": sc["id"]}));
            let out = out.clone();
            tasks.push(tokio::spawn(async move {
                let r = apps::run(&sc).await;
                let text = format!("{}\n", r);
                out.lock().unwrap().write_all(text.as_bytes()).unwrap();
                drop(permit);
            }));
        }
        for t in tasks {
            if let Err(e) = t.await {
                eprintln!("harness: scenario task failed: {}", e);
                std::process::exit(3);
            }
        }
    });
    std::process::exit(0);
}
