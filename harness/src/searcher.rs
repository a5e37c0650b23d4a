//! searcher IN OUT: registers routes and looks paths up directly with Router::search_route,
//! which also reaches paths that cannot be sent over HTTP (raw non-ASCII text).
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::Router;
use obsidian::{Body, ContextResult, EndpointExecutor, Method, Request};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

type Log = Arc<Mutex<Vec<String>>>;
struct Mw(String, Log);

#[async_trait]
impl Middleware for Mw {
    async fn handle<'a>(&'a self, ctx: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        self.1.lock().unwrap().push(self.0.clone());
        ep.next(ctx).await
    }
}

fn s(v: &Value) -> &str {
    v.as_str().unwrap()
}

fn apply(r: &mut Router, ops: &[Value], log: &Log, out: &mut Vec<Value>) {
    for op in ops {
        let ok = catch_unwind(AssertUnwindSafe(|| {
            let path = op["path"].as_str().unwrap_or("");
            match s(&op["op"]) {
                "route" => {
                    let id = s(&op["h"]).to_string();
                    let l = log.clone();
                    let h = move |ctx: Context| {
                        let id = id.clone();
                        let l = l.clone();
                        async move {
                            l.lock().unwrap().push(format!("handler {}", id));
                            ctx.build(id).ok()
                        }
                    };
                    match s(&op["m"]) {
                        "GET" => r.get(path, h),
                        "POST" => r.post(path, h),
                        "PUT" => r.put(path, h),
                        "PATCH" => r.patch(path, h),
                        _ => r.delete(path, h),
                    }
                }
                "mw" => r.use_service_to(path, Mw(s(&op["h"]).to_string(), log.clone())),
                "mwroot" => r.use_service(Mw(s(&op["h"]).to_string(), log.clone())),
                "mount" => {
                    let mut sub = Router::new();
                    out.push(json!("open"));
                    apply(&mut sub, op["ops"].as_array().unwrap(), log, out);
                    r.use_router(path, sub)
                }
                other => panic!("harness: op {}", other),
            }
        }))
        .is_ok();
        out.push(json!(if ok { "ok" } else { "refused" }));
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).expect("input");
    let scenarios: Vec<Value> = serde_json::from_str(&text).expect("json");
    let mut out = std::fs::File::create(&args[2]).expect("output");
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    for sc in &scenarios {
        let log: Log = Arc::new(Mutex::new(vec![]));
        let mut r = Router::new();
        let mut outcomes = vec![];
        apply(&mut r, sc["ops"].as_array().unwrap(), &log, &mut outcomes);
        let mut events = vec![];
        for st in sc["steps"].as_array().unwrap() {
            let m: Method = s(&st["method"]).parse().unwrap();
            let rid = &st["r"];
            log.lock().unwrap().clear();
            let found = catch_unwind(AssertUnwindSafe(|| {
                let res = r.search_route(s(&st["target"]))?;
                let params: HashMap<String, String> = res.get_params();
                let route = res.get_route(&m)?;
                let ctx = Context::new(Request::new(Body::empty()), params.clone());
                let ep = EndpointExecutor::new(&route.handler, res.get_middlewares());
                let _ = rt.block_on(ep.next(ctx));
                Some(params)
            }));
            match found {
                Err(_) => events.push(json!({"e": "lost", "r": rid, "c": "-", "why": "panic"})),
                Ok(None) => events.push(json!({"e": "answer", "r": rid, "c": "-", "status": "404", "headers": [], "body": ""})),
                Ok(Some(params)) => {
                    let mut id = String::new();
                    for l in log.lock().unwrap().iter() {
                        match l.strip_prefix("handler ") {
                            None => events.push(json!({"e": "enter", "r": rid, "who": l})),
                            Some(h) => {
                                id = h.to_string();
                                let mut ps = vec![];
                                for n in sc["names"].as_array().unwrap() {
                                    if let Some(v) = params.get(s(n)) {
                                        ps.push(json!([n, v]));
                                    }
                                }
                                events.push(json!({"e": "handler", "r": rid, "who": h, "params": ps}));
                            }
                        }
                    }
                    events.push(json!({"e": "answer", "r": rid, "c": "-", "status": "200", "headers": [], "body": format!("t:h:{}", id)}));
                }
            }
        }
        out.write_all(format!("{}\n", json!({"id": sc["id"], "outcomes": outcomes, "events": events})).as_bytes()).unwrap();
    }
    out.flush().unwrap();
}
