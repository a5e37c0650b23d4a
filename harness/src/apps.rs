//! Builds applications from operation lists, serves them on the loopback network and drives
//! requests against them, keeping one log of everything observed.
use crate::client::{Conn, Recv};
use crate::decode::{json_canon, Canon};
use crate::util::{esc, expand, hex_if_short, leak, sum};
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::header::{HeaderName, HeaderValue};
use obsidian::middleware::logger::Logger;
use obsidian::middleware::Middleware;
use obsidian::router::{FormError, Response, Router};
use obsidian::{App, Body, ContextResult, EndpointExecutor, ObsidianError, Request, StatusCode};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU16, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::sync::Notify;

/// How long to wait for something that has to happen. Once something did not happen in a
/// scenario, the rest of it waits only shortly.
const PATIENCE: Duration = Duration::from_secs(8);
const SHORT: Duration = Duration::from_millis(400);

/// How often something did not happen, in all scenarios. After many times nothing more is tried:
/// scenarios not begun by then are abandoned.
static LATE: AtomicUsize = AtomicUsize::new(0);
const ENOUGH: usize = 60;

fn s(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("harness: not a string: {}", v))
}

#[derive(Clone, Debug)]
pub struct AppState(pub String);
#[derive(Clone)]
struct Ta(String);
struct Tb(String);
struct Tc(u64, String);
mod one {
    pub struct User(pub String);
    pub struct AppState(pub String);
}
mod two {
    pub struct User(pub String);
}
struct Wrap<T>(String, std::marker::PhantomData<fn() -> T>);
/// One of many types.
struct N<const K: usize>(String);
#[derive(Clone)]
struct Big([u8; 5000], String);
#[derive(Clone)]
struct Unit;
struct Unit2;

/// Values of all kinds, made of a text and turned back into it.
trait Attached: Send + Sync + Sized + 'static {
    fn make(v: String) -> Self;
    fn text(&self) -> String;
    fn set(&mut self, v: String) {
        *self = Self::make(v);
    }
}

macro_rules! attached {
    ($($t:ty : $v:ident => $make:expr, $x:ident => $text:expr;)*) => {
        $(impl Attached for $t {
            fn make($v: String) -> Self {
                $make
            }
            fn text(&self) -> String {
                let $x = self;
                $text
            }
        })*
    };
}

attached! {
    Ta: v => Ta(v), x => x.0.clone();
    Tb: v => Tb(v), x => x.0.clone();
    AppState: v => AppState(v), x => x.0.clone();
    String: v => v, x => x.clone();
    one::User: v => one::User(v), x => x.0.clone();
    two::User: v => two::User(v), x => x.0.clone();
    one::AppState: v => one::AppState(v), x => x.0.clone();
    Wrap<Ta>: v => Wrap(v, std::marker::PhantomData), x => x.0.clone();
    Wrap<Tb>: v => Wrap(v, std::marker::PhantomData), x => x.0.clone();
    Box<str>: v => v.into_boxed_str(), x => x.to_string();
    Vec<u8>: v => v.into_bytes(), x => String::from_utf8(x.clone()).unwrap();
    Arc<str>: v => v.into(), x => x.to_string();
    Option<String>: v => Some(v), x => x.clone().unwrap();
    (String, u8): v => (v, 1), x => x.0.clone();
    Big: v => Big([v.len() as u8; 5000], v), x => if x.0.iter().all(|b| *b == x.1.len() as u8) { x.1.clone() } else { "?".into() };
    // without size: they carry no text, and are always given this one
    Unit: v => { assert_eq!(v, "on"); Unit }, _x => "on".into();
    Unit2: v => { assert_eq!(v, "on"); Unit2 }, _x => "on".into();
}

/// Texts that stand for numbers, and the numbers for them: kinds of values that cannot hold a text.
static NUMBERED: Mutex<Vec<String>> = Mutex::new(vec![]);

fn number(v: &str) -> usize {
    let mut known = NUMBERED.lock().unwrap();
    known.iter().position(|x| x == v).unwrap_or_else(|| {
        known.push(v.to_string());
        known.len() - 1
    })
}

fn numbered(n: u128) -> String {
    usize::try_from(n).ok().and_then(|n| NUMBERED.lock().unwrap().get(n).cloned()).unwrap_or_else(|| "?".into())
}

fn epoch() -> Instant {
    static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    *EPOCH.get_or_init(|| Instant::now() - Duration::from_secs(3))
}

// kinds of the standard library and of the HTTP crates, which code under test may attach for itself
attached! {
    Instant: v => epoch() + Duration::from_nanos(number(&v) as u64), x => numbered(x.saturating_duration_since(epoch()).as_nanos());
    std::time::SystemTime: v => std::time::UNIX_EPOCH + Duration::from_nanos(number(&v) as u64), x => numbered(x.duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos());
    Duration: v => Duration::from_nanos(number(&v) as u64), x => numbered(x.as_nanos());
    u32: v => number(&v) as u32, x => numbered(*x as u128);
    u64: v => number(&v) as u64, x => numbered(*x as u128);
    usize: v => number(&v), x => numbered(*x as u128);
    i32: v => number(&v) as i32, x => numbered(*x as u128);
    i64: v => number(&v) as i64, x => numbered(*x as u128);
    f64: v => number(&v) as f64, x => numbered(*x as u128);
    std::net::SocketAddr: v => (std::net::Ipv6Addr::from(number(&v) as u128), 80).into(), x => match x.ip() { std::net::IpAddr::V6(ip) => numbered(u128::from(ip)), _ => "?".into() };
    std::net::IpAddr: v => std::net::IpAddr::V6((number(&v) as u128).into()), x => match x { std::net::IpAddr::V6(ip) => numbered(u128::from(*ip)), _ => "?".into() };
    Arc<std::sync::atomic::AtomicUsize>: v => Arc::new(number(&v).into()), x => numbered(x.load(Ordering::SeqCst) as u128);
    hyper::Method: v => hyper::Method::from_bytes(format!("M{}", number(&v)).as_bytes()).unwrap(), x => x.as_str()[1..].parse().map_or("?".into(), numbered);
    hyper::Uri: v => format!("/u/{}", number(&v)).parse().unwrap(), x => x.path().get(3..).and_then(|n| n.parse().ok()).map_or("?".into(), numbered);
    hyper::HeaderMap: v => { let mut h = hyper::HeaderMap::new(); h.insert("x-n", number(&v).into()); h }, x => x.get("x-n").and_then(|n| n.to_str().ok()).and_then(|n| n.parse().ok()).map_or("?".into(), numbered);
    hyper::header::HeaderValue: v => number(&v).into(), x => x.to_str().ok().and_then(|n| n.parse().ok()).map_or("?".into(), numbered);
    HashMap<String, String>: v => vec![("v".to_string(), v)].into_iter().collect(), x => x.get("v").map_or("?".into(), |v| v.clone());
    HashMap<String, u8>: v => vec![(v, 1)].into_iter().collect(), x => x.keys().next().map_or("?".into(), |v| v.clone());
    HashMap<&'static str, String>: v => vec![("v", v)].into_iter().collect(), x => x.get("v").map_or("?".into(), |v| v.clone());
    std::collections::BTreeMap<String, String>: v => vec![("v".to_string(), v)].into_iter().collect(), x => x.get("v").map_or("?".into(), |v| v.clone());
    std::collections::HashSet<String>: v => vec![v].into_iter().collect(), x => x.iter().next().map_or("?".into(), |v| v.clone());
    Vec<String>: v => vec![v], x => x.join("?");
    Vec<(String, String)>: v => vec![("v".into(), v)], x => x.first().map_or("?".into(), |v| v.1.clone());
    Vec<u16>: v => v.encode_utf16().collect(), x => String::from_utf16(x).unwrap();
    &'static str: v => Box::leak(v.into_boxed_str()), x => x.to_string();
    std::borrow::Cow<'static, str>: v => v.into(), x => x.to_string();
    std::path::PathBuf: v => v.into(), x => x.to_str().unwrap().to_string();
    Box<String>: v => Box::new(v), x => x.to_string();
    Arc<String>: v => Arc::new(v), x => x.to_string();
    Arc<Mutex<String>>: v => Arc::new(Mutex::new(v)), x => x.lock().unwrap().clone();
    Mutex<Option<String>>: v => Mutex::new(Some(v)), x => x.lock().unwrap().clone().unwrap_or_else(|| "?".into());
    Result<String, String>: v => Ok(v), x => x.clone().unwrap();
    Option<Arc<str>>: v => Some(v.into()), x => x.as_ref().unwrap().to_string();
    (String, String): v => ("v".into(), v), x => x.1.clone();
    [String; 2]: v => ["v".into(), v], x => x[1].clone();
    Value: v => Value::String(v), x => x.as_str().unwrap_or("?").to_string();
    ObsidianError: v => ObsidianError::GeneralError(v), x => match x { ObsidianError::GeneralError(v) => v.clone(), _ => "?".into() };
    Box<dyn std::any::Any + Send + Sync>: v => Box::new(v), x => x.downcast_ref::<String>().map_or("?".into(), |v| v.clone());
}

impl<const K: usize> Attached for N<K> {
    fn make(v: String) -> Self {
        N(v)
    }
    fn text(&self) -> String {
        self.0.clone()
    }
}

impl Attached for Tc {
    fn make(v: String) -> Self {
        Tc(7, v)
    }
    fn text(&self) -> String {
        if self.0 == 7 { self.1.clone() } else { "?".into() }
    }
    fn set(&mut self, v: String) {
        self.1 = v;
    }
}

macro_rules! of_kind {
    ($k:expr, $t:ident => $e:expr) => {
        of_kind!(@ $k, $t => $e, "A" Ta, "B" Tb, "C" Tc, "S" AppState, "string" String, "M1" one::User, "M2" two::User, "S2" one::AppState,
            "W1" Wrap<Ta>, "W2" Wrap<Tb>, "boxed" Box<str>, "bytes" Vec<u8>, "arc" Arc<str>, "opt" Option<String>, "pair" (String, u8), "big" Big,
            "unit" Unit, "unit2" Unit2, "n0" N<0>, "n1" N<1>, "n2" N<2>, "n3" N<3>, "n4" N<4>, "n5" N<5>, "n6" N<6>, "n7" N<7>,
            "n8" N<8>, "n9" N<9>, "n10" N<10>, "n11" N<11>, "n12" N<12>, "n13" N<13>, "n14" N<14>, "n15" N<15>,
            "instant" Instant, "systime" std::time::SystemTime, "duration" Duration, "u32" u32, "u64" u64, "usize" usize, "i32" i32, "i64" i64, "f64" f64,
            "addr" std::net::SocketAddr, "ip" std::net::IpAddr, "atomic" Arc<std::sync::atomic::AtomicUsize>, "method" hyper::Method, "uri" hyper::Uri,
            "hdrmap" hyper::HeaderMap, "hdrval" hyper::header::HeaderValue, "map1" HashMap<String, String>, "map2" HashMap<String, u8>,
            "map3" HashMap<&'static str, String>, "btree" std::collections::BTreeMap<String, String>, "set" std::collections::HashSet<String>,
            "strings" Vec<String>, "pairs" Vec<(String, String)>, "wide" Vec<u16>, "str" &'static str, "cow" std::borrow::Cow<'static, str>,
            "pathbuf" std::path::PathBuf, "boxstring" Box<String>, "arcstring" Arc<String>, "arcmutex" Arc<Mutex<String>>, "mutex" Mutex<Option<String>>,
            "result" Result<String, String>, "optarc" Option<Arc<str>>, "two" (String, String), "array" [String; 2], "value" Value,
            "error" ObsidianError, "any" Box<dyn std::any::Any + Send + Sync>)
    };
    (@ $k:expr, $t:ident => $e:expr, $($n:literal $ty:ty),*) => {
        match $k {
            $($n => { type $t = $ty; $e })*
            other => panic!("harness: type {}", other),
        }
    };
}

#[derive(Default)]
struct Gate {
    arrived: bool,
    released: bool,
}

pub struct Shared {
    log: Mutex<Vec<Value>>,
    progs: HashMap<String, Arc<Vec<Value>>>,
    names: Vec<String>,
    // kinds of attached values that stand for each other in this scenario
    kinds: HashMap<String, String>,
    gates: Mutex<HashMap<String, Gate>>,
    // routers copied before they were mounted, with the outcomes of their registrations
    routers: Mutex<HashMap<String, (Router, Vec<Value>)>>,
    bell: Notify,
    late: AtomicBool,
    hex: bool,
}

impl Shared {
    fn kind<'a>(&'a self, k: &'a str) -> &'a str {
        self.kinds.get(k).map_or(k, |x| x)
    }

    fn is_late(&self) {
        self.late.store(true, Ordering::SeqCst);
        LATE.fetch_add(1, Ordering::SeqCst);
    }

    fn patience(&self) -> Duration {
        if self.late.load(Ordering::SeqCst) || LATE.load(Ordering::SeqCst) > 8 {
            SHORT
        } else {
            PATIENCE
        }
    }

    fn log(&self, v: Value) {
        self.log.lock().unwrap_or_else(|e| e.into_inner()).push(v);
    }

    fn obs(&self, rid: &str, who: &str, k: &str, v: String) {
        self.log(json!({"e": "obs", "r": rid, "who": who, "k": k, "v": v}));
    }

    async fn wait(&self, key: &str, what: fn(&Gate) -> bool, patience: Duration) -> bool {
        let deadline = tokio::time::Instant::now() + patience;
        loop {
            {
                let g = self.gates.lock().unwrap_or_else(|e| e.into_inner());
                if g.get(key).map_or(false, what) {
                    return true;
                }
            }
            if tokio::time::Instant::now() > deadline {
                self.is_late();
                return false;
            }
            let _ = tokio::time::timeout(Duration::from_millis(5), self.bell.notified()).await;
        }
    }

    fn mark(&self, key: &str, f: fn(&mut Gate)) {
        let mut g = self.gates.lock().unwrap_or_else(|e| e.into_inner());
        f(g.entry(key.to_string()).or_default());
        drop(g);
        self.bell.notify_waiters();
    }
}

fn rid_of(ctx: &Context) -> String {
    ctx.headers()
        .get("x-rid")
        .and_then(|v| v.to_str().ok())
        .unwrap_or("?")
        .to_string()
}

// ------------------------------------------------------------------ programs
struct Mw {
    sh: Arc<Shared>,
    id: String,
}

#[async_trait]
impl Middleware for Mw {
    async fn handle<'a>(&'a self, ctx: Context, ep: EndpointExecutor<'a>) -> ContextResult {
        let rid = rid_of(&ctx);
        self.sh.log(json!({"e": "enter", "r": rid, "who": self.id}));
        let prog = self.sh.progs.get(&self.id).cloned();
        let res = match prog {
            None => ep.next(ctx).await,
            Some(p) => exec(&self.sh, &rid, &self.id, &p, ctx, Some(ep)).await,
        };
        self.sh.log(json!({"e": "leave", "r": rid, "who": self.id, "res": outcome(&res)}));
        res
    }
}

/// Decoded values are logged as they are unless they are very long.
fn short(t: String) -> String {
    if t.len() <= 9000 {
        t
    } else {
        sum(t.as_bytes())
    }
}

fn outcome(r: &ContextResult) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => err_text(e),
    }
}

fn err_text(e: &ObsidianError) -> String {
    let kind = match e {
        ObsidianError::ParamError(_) => "param",
        ObsidianError::JsonError(_) => "json",
        ObsidianError::FormError(_) => "form",
        ObsidianError::GeneralError(_) => "general",
        ObsidianError::NoneError => "none",
    };
    format!("err:{}:{}", kind, sum(e.to_string().as_bytes()))
}

/// An error of the given kind.
fn make_error(kind: &str, text: &str) -> ObsidianError {
    match kind {
        "none" => ObsidianError::NoneError,
        "param" => ObsidianError::ParamError(text.to_string()),
        "general" => general(text),
        "form" => ObsidianError::from(FormError::Message(text.to_string())),
        "json" | "jsonparse" => ObsidianError::from(json_error(kind, text)),
        other => panic!("harness: error {}", other),
    }
}

fn json_error(kind: &str, text: &str) -> serde_json::Error {
    if kind == "jsonparse" {
        // the text does not parse as this
        if let Err(e) = serde_json::from_str::<HashMap<String, i8>>(text) {
            return e;
        }
    }
    <serde_json::Error as serde::de::Error>::custom(text)
}

/// How an error that carries another prints: like that one.
fn printed(kind: &str, text: &str) -> String {
    match kind {
        "json" | "jsonparse" => json_error(kind, text).to_string(),
        "form" => text.to_string(),
        _ => make_error(kind, text).to_string(),
    }
}

async fn handler(sh: Arc<Shared>, id: String, ctx: Context) -> ContextResult {
    let rid = rid_of(&ctx);
    match sh.progs.get(&id).cloned() {
        None => {
            let mut params = vec![];
            for n in &sh.names {
                if let Ok(v) = ctx.param::<String>(n) {
                    params.push(json!([n, v]));
                }
            }
            sh.log(json!({"e": "handler", "r": rid, "who": id, "params": params}));
            ctx.build(format!("h:{}", id)).ok()
        }
        Some(p) => {
            sh.log(json!({"e": "handler", "r": rid, "who": id}));
            let res = exec(&sh, &rid, &id, &p, ctx, None).await;
            sh.log(json!({"e": "done", "r": rid, "who": id, "res": outcome(&res)}));
            res
        }
    }
}

fn make_handler(sh: &Arc<Shared>, id: &str) -> impl obsidian::router::Handler {
    let sh = sh.clone();
    let id = id.to_string();
    move |ctx: Context| handler(sh.clone(), id.clone(), ctx)
}

fn hname(n: &str) -> HeaderName {
    HeaderName::from_bytes(n.as_bytes()).unwrap()
}

fn status(v: &Value) -> StatusCode {
    StatusCode::from_u16(s(v).parse().unwrap()).unwrap()
}

fn general(t: &str) -> ObsidianError {
    ObsidianError::GeneralError(t.to_string())
}

async fn exec(
    sh: &Arc<Shared>,
    rid: &str,
    who: &str,
    prog: &[Value],
    ctx: Context,
    next: Option<EndpointExecutor<'_>>,
) -> ContextResult {
    let mut ctx = ctx;
    let mut next = next;
    for ins in prog {
        let k = s(&ins[0]);
        match k {
            "next" => {
                let ep = next.take().expect("harness: next twice");
                match ep.next(ctx).await {
                    Ok(c) => {
                        sh.log(json!({"e": "back", "r": rid, "who": who, "res": "ok"}));
                        ctx = c;
                    }
                    Err(e) => {
                        sh.log(json!({"e": "back", "r": rid, "who": who, "res": err_text(&e)}));
                        match s(&ins[1]) {
                            "pass" => return Err(e),
                            "wrap" => return Err(general(&format!("{}[{}]", who, e))),
                            "recover" => {
                                let mut req = Request::new(Body::empty());
                                req.headers_mut().insert("x-rid", HeaderValue::from_str(rid).unwrap());
                                ctx = Context::new(req, HashMap::new());
                            }
                            other => panic!("harness: policy {}", other),
                        }
                    }
                }
            }
            "add" => {
                let v = s(&ins[2]).to_string();
                of_kind!(sh.kind(s(&ins[1])), T => ctx.add(T::make(v)))
            }
            "get" => {
                let v = of_kind!(sh.kind(s(&ins[1])), T => ctx.get::<T>().map(|x| x.text()));
                sh.obs(rid, who, k, v.map_or("-".into(), |x| format!("={}", esc(x.as_bytes()))));
            }
            "ext" => {
                let v = of_kind!(sh.kind(s(&ins[1])), T => ctx.extensions().get::<T>().map(|x| x.text()));
                sh.obs(rid, who, k, v.map_or("-".into(), |x| format!("={}", esc(x.as_bytes()))));
            }
            "put" => {
                let v = s(&ins[2]).to_string();
                let v = of_kind!(sh.kind(s(&ins[1])), T => ctx.extensions_mut().insert(T::make(v)).map(|x| x.text()));
                sh.obs(rid, who, k, v.map_or("-".into(), |x| format!("={}", esc(x.as_bytes()))));
            }
            "drop" => {
                let v = of_kind!(sh.kind(s(&ins[1])), T => ctx.extensions_mut().remove::<T>().map(|x| x.text()));
                sh.obs(rid, who, k, v.map_or("-".into(), |x| format!("={}", esc(x.as_bytes()))));
            }
            "mut" => {
                let v = s(&ins[2]).to_string();
                let hit = of_kind!(sh.kind(s(&ins[1])), T => ctx.get_mut::<T>().map(|x| x.set(v)).is_some());
                sh.obs(rid, who, k, if hit { "yes".into() } else { "no".into() });
            }
            "hdr" => {
                let v = ctx.headers().get(s(&ins[1])).map(|v| format!("={}", sum(v.as_bytes())));
                sh.obs(rid, who, k, v.unwrap_or("-".into()));
            }
            "hdrall" => {
                let v: Vec<String> = ctx
                    .headers()
                    .get_all(s(&ins[1]))
                    .iter()
                    .map(|v| sum(v.as_bytes()))
                    .collect();
                sh.obs(rid, who, k, v.join("|"));
            }
            "sethdr" => {
                ctx.headers_mut().insert(hname(s(&ins[1])), HeaderValue::from_str(s(&ins[2])).unwrap());
            }
            "apphdr" => {
                ctx.headers_mut().append(hname(s(&ins[1])), HeaderValue::from_str(s(&ins[2])).unwrap());
            }
            "clearhdrs" => {
                if let Some(r) = ctx.response_mut() {
                    *r.headers_mut() = None;
                }
            }
            "delhdr" => {
                ctx.headers_mut().remove(s(&ins[1]));
            }
            "method" => sh.obs(rid, who, k, ctx.method().to_string()),
            "path" => sh.obs(rid, who, k, sum(ctx.uri().path().as_bytes())),
            "query" => {
                let q = ctx.uri().query().map(|q| format!("={}", sum(q.as_bytes())));
                sh.obs(rid, who, k, q.unwrap_or("-".into()));
            }
            "param" => {
                let v = match ctx.param::<String>(s(&ins[1])) {
                    Ok(v) => format!("={}", sum(v.as_bytes())),
                    Err(_) => "err".into(),
                };
                sh.obs(rid, who, k, v);
            }
            "qp" => {
                let v = match ctx.query_params::<HashMap<String, Vec<String>>>() {
                    Ok(m) => short(m.canon()),
                    Err(_) => "err".into(),
                };
                sh.obs(rid, who, k, v);
            }
            "take" => {
                let v = match hyper::body::to_bytes(ctx.take_body()).await {
                    Ok(b) => sum(&b),
                    Err(_) => "broken".into(),
                };
                sh.obs(rid, who, k, v);
            }
            "form" => {
                let v = match ctx.form::<HashMap<String, Vec<String>>>().await {
                    Ok(m) => short(m.canon()),
                    Err(_) => "err".into(),
                };
                sh.obs(rid, who, k, v);
            }
            "json" => {
                let v = match ctx.json::<Value>().await {
                    Ok(v) => short(json_canon(&v)),
                    Err(_) => "err".into(),
                };
                sh.obs(rid, who, k, v);
            }
            "pint" => {
                let v = match ctx.param::<i32>(s(&ins[1])) {
                    Ok(v) => v.canon(),
                    Err(_) => "err".into(),
                };
                sh.obs(rid, who, k, v);
            }
            "qp1" => {
                let v = ctx.query_params::<HashMap<String, i32>>().map(|m| short(m.canon()));
                sh.obs(rid, who, k, v.unwrap_or("err".into()));
            }
            "form1" => {
                let v = ctx.form::<HashMap<String, i32>>().await.map(|m| short(m.canon()));
                sh.obs(rid, who, k, v.unwrap_or("err".into()));
            }
            "json1" => {
                let v = ctx.json::<HashMap<String, i32>>().await.map(|m| short(m.canon()));
                sh.obs(rid, who, k, v.unwrap_or("err".into()));
            }
            "typed" => {
                // decode into a given shape: source is query, form or json
                let shape = &ins[2];
                let src = s(&ins[1]);
                let body = if src == "query" {
                    None
                } else {
                    Some(hyper::body::to_bytes(ctx.take_body()).await.map_err(|_| general("broken"))?)
                };
                let v = crate::with_target!(shape, T => {
                    // put the bytes back, so that decoding happens without a thread switch
                    match src {
                        "query" => ctx.query_params::<T>().map(|v| v.canon()).map_err(|_| ()),
                        _ => {
                            let mut c2 = Context::new(Request::new(Body::from(body.unwrap())), HashMap::new());
                            let sh2 = shape.clone();
                            if src == "form" {
                                crate::decode::set_shape(&sh2);
                                c2.form::<T>().await.map(|v| v.canon()).map_err(|_| ())
                            } else {
                                crate::decode::set_shape(&sh2);
                                c2.json::<T>().await.map(|v| v.canon()).map_err(|_| ())
                            }
                        }
                    }
                });
                sh.obs(rid, who, k, v.unwrap_or("err".into()));
            }
            "gate" => {
                let key = format!("{}/{}", rid, s(&ins[1]));
                sh.log(json!({"e": "gate", "r": rid, "who": who, "g": s(&ins[1])}));
                sh.mark(&key, |g| g.arrived = true);
                sh.wait(&key, |g| g.released, PATIENCE).await;
                sh.log(json!({"e": "resumed", "r": rid, "who": who, "g": s(&ins[1])}));
            }
            "sleep" => tokio::time::sleep(Duration::from_millis(s(&ins[1]).parse().unwrap())).await,
            "yield" => tokio::task::yield_now().await,
            "panic" => {
                sh.log(json!({"e": "panic", "r": rid, "who": who}));
                panic!("as programmed");
            }
            "panicif" => {
                if ctx.headers().get(s(&ins[1])).is_some() {
                    sh.log(json!({"e": "panic", "r": rid, "who": who}));
                    panic!("as programmed");
                }
            }
            "err" => return Err(general(s(&ins[1]))),
            "errif" => {
                if ctx.headers().get(s(&ins[1])).is_some() {
                    return Err(general(s(&ins[2])));
                }
            }
            "errkind" => {
                return Err(make_error(s(&ins[1]), s(&ins[2])));
            }
            "resp" => {
                let body = String::from_utf8(expand(s(&ins[3]))).unwrap();
                let mut r = Response::new(body).set_status(status(&ins[1]));
                for h in ins[2].as_array().unwrap() {
                    r = r.set_header(hname(s(&h[0])), leak(s(&h[1])));
                }
                ctx = ctx.build(r).ok()?;
            }
            "build" => {
                ctx = crate::inproc::run_in_context(ins[1].as_array().unwrap(), ctx).await;
            }
            "noresp" => *ctx.response_mut() = None,
            "setstatus" => {
                if let Some(r) = ctx.response_mut() {
                    *r.status_mut() = status(&ins[1]);
                }
            }
            "pushhdr" => {
                if let Some(r) = ctx.response_mut() {
                    let h = r.headers_mut();
                    let item = (hname(s(&ins[1])), leak(s(&ins[2])));
                    match h {
                        Some(v) => v.push(item),
                        None => *h = Some(vec![item]),
                    }
                }
            }
            "seen" => {
                let v = match ctx.response() {
                    None => "-".to_string(),
                    Some(r) => {
                        let hs: Vec<String> = r
                            .headers()
                            .as_ref()
                            .map(|v| v.iter().map(|(n, v)| format!("{}:{}", n, v)).collect())
                            .unwrap_or_default();
                        format!("={} {}", r.status().as_u16(), hs.join(","))
                    }
                };
                sh.obs(rid, who, k, v);
            }
            "echo" => {
                // answer with everything this request carries
                let hv = |n: &str| {
                    ctx.headers().get(n).map_or("-".to_string(), |v| String::from_utf8_lossy(v.as_bytes()).into_owned())
                };
                let head = format!(
                    "{} {} {} {} ",
                    ctx.method(),
                    ctx.uri().path(),
                    ctx.uri().query().unwrap_or("-"),
                    hv("x-tag"),
                );
                let attached = of_kind!(sh.kind("A"), T => ctx.get::<T>().map(|x| x.text())).unwrap_or_else(|| "-".into());
                let p = ctx.param::<String>("p").unwrap_or("-".into());
                let body = match hyper::body::to_bytes(ctx.take_body()).await {
                    Ok(b) => sum(&b),
                    Err(_) => "broken".into(),
                };
                ctx = ctx.build(Response::new(format!("{}{} {} {}", head, attached, p, body))).ok()?;
            }
            other => panic!("harness: instruction {}", other),
        }
    }
    Ok(ctx)
}

// ------------------------------------------------------------------ building
enum Target<'a, T: Attached + Clone> {
    App(&'a mut App<T>),
    Router(&'a mut Router),
}

macro_rules! on {
    ($t:expr, $x:ident => $e:expr) => {
        match $t {
            Target::App($x) => $e,
            Target::Router($x) => $e,
        }
    };
}

fn apply_ops<T: Attached + Clone>(sh: &Arc<Shared>, t: &mut Target<T>, ops: &[Value], out: &mut Vec<Value>) {
    for op in ops {
        let kind = s(&op["op"]);
        let r = catch_unwind(AssertUnwindSafe(|| apply_op(sh, t, op, out)));
        match r {
            Ok(()) => out.push(json!("ok")),
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                    .unwrap_or_default();
                if m.starts_with("harness:") {
                    eprintln!("{} in {}", m, op);
                    std::process::exit(3);
                }
                let _ = kind;
                out.push(json!("refused"))
            }
        }
    }
}

fn apply_op<T: Attached + Clone>(sh: &Arc<Shared>, t: &mut Target<T>, op: &Value, out: &mut Vec<Value>) {
    let path = op["path"].as_str().unwrap_or("");
    match s(&op["op"]) {
        "route" => {
            let h = make_handler(sh, s(&op["h"]));
            match s(&op["m"]) {
                "GET" => on!(t, x => x.get(path, h)),
                "POST" => on!(t, x => x.post(path, h)),
                "PUT" => on!(t, x => x.put(path, h)),
                "PATCH" => on!(t, x => x.patch(path, h)),
                "DELETE" => on!(t, x => x.delete(path, h)),
                other => panic!("harness: method {}", other),
            }
        }
        "mw" => {
            let m = Mw { sh: sh.clone(), id: s(&op["h"]).to_string() };
            on!(t, x => x.use_service_to(path, m))
        }
        "mwroot" => {
            let m = Mw { sh: sh.clone(), id: s(&op["h"]).to_string() };
            on!(t, x => x.use_service(m))
        }
        "logger" => on!(t, x => x.use_service(Logger::new())),
        "loggerto" => on!(t, x => x.use_service_to(path, Logger::new())),
        "mount" => {
            let ops = op["ops"].as_array().unwrap();
            let base = op["base"].as_str().and_then(|k| sh.routers.lock().unwrap().get(k).map(|(r, o)| (r.clone(), o.clone())));
            let mut inner = vec![];
            let mut done = 0;
            let mut r = match base {
                Some((r, o)) => {
                    inner = o;
                    done = op["nbase"].as_u64().unwrap() as usize;
                    r
                }
                None if op["default"].as_bool() == Some(true) => Router::default(),
                None => Router::new(),
            };
            apply_ops(sh, &mut Target::<T>::Router(&mut r), &ops[done..], &mut inner);
            if let Some(k) = op["saves"].as_str() {
                sh.routers.lock().unwrap().insert(k.to_string(), (r.clone(), inner.clone()));
            }
            out.push(json!("open"));
            out.extend(inner);
            let r = if op["clone"].as_bool() == Some(true) { r.clone() } else { r };
            on!(t, x => x.use_router(path, r))
        }
        "scope" => {
            let inner = Mutex::new(vec![json!("open")]);
            let res = match t {
                Target::App(x) => catch_unwind(AssertUnwindSafe(|| {
                    x.scope(s(&op["path"]), |r: &mut Router| {
                        apply_ops(sh, &mut Target::<T>::Router(r), op["ops"].as_array().unwrap(), &mut inner.lock().unwrap())
                    })
                })),
                Target::Router(_) => panic!("harness: scope in a router"),
            };
            out.extend(inner.into_inner().unwrap());
            if let Err(e) = res {
                std::panic::resume_unwind(e);
            }
        }
        "static" => on!(t, x => x.use_static_to(path, s(&op["dir"]))),
        "staticdir" => on!(t, x => x.use_static(s(&op["dir"]))),
        "state" => match t {
            Target::App(x) => x.set_app_state(T::make(s(&op["h"]).to_string())),
            _ => panic!("harness: state in a router"),
        },
        other => panic!("harness: op {}", other),
    }
}

static NEXT_PORT: AtomicU16 = AtomicU16::new(0);

fn pick_port() -> u16 {
    let _ = NEXT_PORT.compare_exchange(
        0,
        1 + (std::process::id() % 11000) as u16,
        Ordering::SeqCst,
        Ordering::SeqCst,
    );
    loop {
        let n = NEXT_PORT.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| Some(x % 11900 + 1)).unwrap();
        let port = 20000 + n;
        if std::net::TcpListener::bind(("127.0.0.1", port)).is_ok() {
            return port;
        }
    }
}

fn request_bytes(step: &Value) -> Vec<Vec<u8>> {
    let body = expand(step["body"].as_str().unwrap_or(""));
    let mut head = Vec::new();
    head.extend_from_slice(s(&step["method"]).as_bytes());
    head.push(b' ');
    head.extend_from_slice(s(&step["target"]).as_bytes());
    let version = step["version"].as_str().unwrap_or("HTTP/1.1");
    head.extend_from_slice(format!(" {}\r\nhost: localhost\r\n", version).as_bytes());
    head.extend_from_slice(format!("x-rid: {}\r\n", s(&step["r"])).as_bytes());
    if let Some(hs) = step["headers"].as_array() {
        for h in hs {
            head.extend_from_slice(format!("{}: ", s(&h[0])).as_bytes());
            head.extend_from_slice(&expand(s(&h[1])));
            head.extend_from_slice(b"\r\n");
        }
    }
    let mut pieces = vec![];
    if let Some(sizes) = step["chunks"].as_array() {
        head.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
        pieces.push(head);
        let mut at = 0;
        for n in sizes {
            let n = (n.as_u64().unwrap() as usize).min(body.len() - at);
            if n == 0 {
                continue;
            }
            let mut p = format!("{:x}\r\n", n).into_bytes();
            p.extend_from_slice(&body[at..at + n]);
            p.extend_from_slice(b"\r\n");
            pieces.push(p);
            at += n;
        }
        if at < body.len() {
            let mut p = format!("{:x}\r\n", body.len() - at).into_bytes();
            p.extend_from_slice(&body[at..]);
            p.extend_from_slice(b"\r\n");
            pieces.push(p);
        }
        pieces.push(b"0\r\n\r\n".to_vec());
    } else {
        if !body.is_empty() || step["cl"].as_bool() == Some(true) {
            head.extend_from_slice(format!("content-length: {}\r\n", body.len()).as_bytes());
        }
        head.extend_from_slice(b"\r\n");
        pieces.push(head);
        if let Some(sizes) = step["split"].as_array() {
            let mut at = 0;
            for n in sizes {
                let n = (n.as_u64().unwrap() as usize).min(body.len() - at);
                if n > 0 {
                    pieces.push(body[at..at + n].to_vec());
                    at += n;
                }
            }
            if at < body.len() {
                pieces.push(body[at..].to_vec());
            }
        } else if !body.is_empty() {
            pieces[0].extend_from_slice(&body);
        }
    }
    if step["pause"].as_u64().unwrap_or(0) == 0 {
        // nothing to wait for: one write
        return vec![pieces.concat()];
    }
    pieces
}

fn answer(sh: &Shared, rid: &str, c: &str, r: Recv) -> Value {
    match r {
        Recv::Resp(r) => json!({
            "e": "answer", "r": rid, "c": c, "status": r.status.to_string(), "version": r.version,
            "headers": r.headers, "body": sum(&r.body),
            "hex": if sh.hex { hex_if_short(&r.body) } else { String::new() }
        }),
        Recv::Closed(_) => json!({"e": "lost", "r": rid, "c": c, "why": "closed"}),
        Recv::Timeout => {
            sh.is_late();
            json!({"e": "lost", "r": rid, "c": c, "why": "timeout"})
        }
        Recv::Malformed(m) => json!({"e": "lost", "r": rid, "c": c, "why": format!("malformed: {}", m)}),
    }
}

/// One request of a burst, on a connection of its own.
async fn one(sh: Arc<Shared>, port: u16, step: Value) {
    let rid = s(&step["r"]).to_string();
    let c = format!("-{}", rid);
    sh.log(json!({"e": "send", "r": rid, "c": c}));
    let v = match Conn::open(port, sh.patience()).await {
        None => json!({"e": "lost", "r": rid, "c": c, "why": "connect"}),
        Some(mut k) => {
            k.send(&request_bytes(&step), step["pause"].as_u64().unwrap_or(0)).await;
            answer(&sh, &rid, &c, k.recv(s(&step["method"]) == "HEAD", sh.patience() + Duration::from_millis(step["takes"].as_u64().unwrap_or(0))).await)
        }
    };
    sh.log(v);
}

pub async fn run(sc: &Value) -> Value {
    match sc["kinds"]["S"].as_str() {
        None | Some("S") => run_with::<AppState>(sc).await,
        Some("unit") => run_with::<Unit>(sc).await,
        Some("big") => run_with::<Big>(sc).await,
        Some("arc") => run_with::<Arc<str>>(sc).await,
        Some("bytes") => run_with::<Vec<u8>>(sc).await,
        Some("opt") => run_with::<Option<String>>(sc).await,
        Some("string") => run_with::<String>(sc).await,
        Some(other) => panic!("harness: state {}", other),
    }
}

async fn run_with<T: Attached + Clone>(sc: &Value) -> Value {
    let mut progs = HashMap::new();
    if let Some(o) = sc["progs"].as_object() {
        for (k, v) in o {
            progs.insert(k.clone(), Arc::new(v.as_array().unwrap().clone()));
        }
    }
    let names = sc["names"].as_array().map_or(vec![], |a| a.iter().map(|x| s(x).to_string()).collect());
    let sh = Arc::new(Shared {
        log: Mutex::new(vec![]),
        progs,
        names,
        kinds: sc["kinds"].as_object().map_or(HashMap::new(), |o| o.iter().map(|(k, v)| (k.clone(), s(v).to_string())).collect()),
        gates: Mutex::new(HashMap::new()),
        routers: Mutex::new(HashMap::new()),
        bell: Notify::new(),
        late: AtomicBool::new(false),
        hex: sc["hex"].as_bool() == Some(true),
    });
    // how the errors the programs may raise print
    let mut error_texts = vec![];
    for ins in sh.progs.values().flat_map(|p| p.iter()).filter(|i| s(&i[0]) == "errkind") {
        let (kind, text) = (s(&ins[1]), s(&ins[2]));
        error_texts.push(json!([kind, text, printed(kind, text)]));
    }
    let ops = sc["ops"].as_array().unwrap();
    let build = || {
        let mut app: App<T> = if sc["mode"].as_str() == Some("default") { App::default() } else { App::new() };
        let mut out = vec![];
        apply_ops(&sh, &mut Target::App(&mut app), ops, &mut out);
        (app, out)
    };
    let steps = sc["steps"].as_array().cloned().unwrap_or_default();
    let (app, outcomes) = build();
    if steps.is_empty() {
        return json!({"id": sc["id"], "outcomes": outcomes, "events": []});
    }
    if LATE.load(Ordering::SeqCst) > ENOUGH {
        return json!({"id": sc["id"], "outcomes": outcomes, "events": [], "error_texts": error_texts, "abandoned": true});
    }
    let mut app = Some(app);
    let mut tries = 0;
    let (port, server) = loop {
        let port = pick_port();
        let a = app.take().unwrap_or_else(|| build().0);
        let server = tokio::spawn(a.listen(port));
        let mut up = false;
        for _ in 0..2000 {
            if server.is_finished() {
                break;
            }
            if tokio::net::TcpStream::connect(("127.0.0.1", port)).await.is_ok() {
                up = true;
                break;
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        tokio::task::yield_now().await;
        if up && !server.is_finished() {
            break (port, server);
        }
        server.abort();
        tries += 1;
        if tries > 20 {
            eprintln!("harness: the server does not come up");
            std::process::exit(3);
        }
    };
    drive(&sh, port, &steps).await;
    server.abort();
    let _ = server.await;
    let events = std::mem::take(&mut *sh.log.lock().unwrap_or_else(|e| e.into_inner()));
    json!({"id": sc["id"], "outcomes": outcomes, "events": events, "error_texts": error_texts})
}

async fn drive(sh: &Arc<Shared>, port: u16, steps: &[Value]) {
    let mut conns: HashMap<String, Conn> = HashMap::new();
    let mut heads: HashMap<String, bool> = HashMap::new();
    let mut held: HashMap<String, Vec<u8>> = HashMap::new();
    // A connection opened again under the same name is another connection: name#generation.
    let mut gens: HashMap<String, u32> = HashMap::new();
    let label = |gens: &HashMap<String, u32>, c: &str| format!("{}#{}", c, gens.get(c).unwrap_or(&0));
    for step in steps {
        match s(&step["s"]) {
            "req" => {
                let c = step["c"].as_str().unwrap_or("c").to_string();
                let rid = s(&step["r"]).to_string();
                if step["fresh"].as_bool() == Some(true) {
                    conns.remove(&c);
                }
                if !conns.contains_key(&c) {
                    *gens.entry(c.clone()).or_default() += 1;
                }
                sh.log(json!({"e": "send", "r": rid, "c": label(&gens, &c)}));
                if !conns.contains_key(&c) {
                    match Conn::open(port, sh.patience()).await {
                        Some(k) => {
                            conns.insert(c.clone(), k);
                        }
                        None => {
                            sh.log(json!({"e": "lost", "r": rid, "c": c, "why": "connect"}));
                            continue;
                        }
                    }
                }
                let k = conns.get_mut(&c).unwrap();
                k.send(&request_bytes(step), step["pause"].as_u64().unwrap_or(0)).await;
                let r = k.recv(s(&step["method"]) == "HEAD", sh.patience()).await;
                let gone = step["version"].is_string() || !matches!(&r, Recv::Resp(x) if !x.headers.iter().any(|(n, v)| n == "connection" && v == "close"));
                sh.log(answer(sh, &rid, &c, r));
                if gone {
                    conns.remove(&c);
                }
            }
            "open" => {
                let c = s(&step["c"]).to_string();
                *gens.entry(c.clone()).or_default() += 1;
                match Conn::open(port, sh.patience()).await {
                    Some(k) => {
                        conns.insert(c, k);
                    }
                    None => sh.log(json!({"e": "noconnect", "c": c})),
                }
            }
            "send" => {
                let c = s(&step["c"]).to_string();
                sh.log(json!({"e": "send", "r": step["r"], "c": label(&gens, &c)}));
                heads.insert(s(&step["r"]).to_string(), s(&step["method"]) == "HEAD");
                if let Some(k) = conns.get_mut(&c) {
                    let mut pieces = request_bytes(step);
                    if let Some(n) = step["hold"].as_u64() {
                        // the last bytes come later
                        let all = pieces.concat();
                        let n = (n as usize).min(all.len());
                        held.insert(s(&step["r"]).to_string(), all[all.len() - n..].to_vec());
                        pieces = vec![all[..all.len() - n].to_vec()];
                    }
                    k.send(&pieces, step["pause"].as_u64().unwrap_or(0)).await;
                }
            }
            "rest" => {
                if let (Some(k), Some(x)) = (conns.get_mut(s(&step["c"])), held.remove(s(&step["r"]))) {
                    k.send(&[x], 0).await;
                }
            }
            "recv" => {
                let c = s(&step["c"]).to_string();
                let rid = s(&step["r"]).to_string();
                match conns.get_mut(&c) {
                    Some(k) => {
                        let r = k.recv(*heads.get(&rid).unwrap_or(&false), sh.patience()).await;
                        sh.log(answer(sh, &rid, &c, r));
                    }
                    None => sh.log(json!({"e": "lost", "r": rid, "c": c, "why": "no connection"})),
                }
            }
            "gate" => {
                let key = format!("{}/{}", s(&step["r"]), s(&step["g"]));
                if !sh.wait(&key, |g| g.arrived, sh.patience()).await {
                    sh.log(json!({"e": "stuck", "r": step["r"], "g": step["g"]}));
                }
            }
            "go" => {
                let key = format!("{}/{}", s(&step["r"]), s(&step["g"]));
                sh.log(json!({"e": "go", "r": step["r"], "g": step["g"]}));
                sh.mark(&key, |g| g.released = true);
            }
            "raw" => {
                // bytes that are no request, or the beginning of one
                let c = s(&step["c"]).to_string();
                if let Some(mut k) = Conn::open(port, sh.patience()).await {
                    k.send(&[expand(s(&step["data"]))], 0).await;
                    conns.insert(c, k);
                }
            }
            "close" => {
                let c = s(&step["c"]);
                sh.log(json!({"e": "close", "c": label(&gens, c)}));
                conns.remove(c);
            }
            "closed" => {
                let c = s(&step["c"]);
                let end = match conns.get_mut(c) {
                    Some(k) => k.at_end(sh.patience()).await,
                    None => true,
                };
                sh.log(json!({"e": "end", "c": c, "closed": if end { "yes" } else { "no" }}));
                conns.remove(c);
            }
            "quiet" => {
                let c = s(&step["c"]);
                if let Some(k) = conns.get_mut(c) {
                    let x = k.surplus(Duration::from_millis(step["ms"].as_u64().unwrap_or(30))).await;
                    sh.log(json!({"e": "surplus", "c": c, "v": sum(&x)}));
                }
            }
            "burst" => {
                let mut tasks = vec![];
                for q in step["reqs"].as_array().unwrap() {
                    tasks.push(tokio::spawn(one(sh.clone(), port, q.clone())));
                }
                for t in tasks {
                    let _ = t.await;
                }
            }
            "write" => {
                let p = s(&step["path"]);
                if let Some(d) = std::path::Path::new(p).parent() {
                    let _ = std::fs::create_dir_all(d);
                }
                std::fs::write(p, expand(s(&step["data"]))).unwrap();
            }
            "mkdir" => std::fs::create_dir_all(s(&step["path"])).unwrap(),
            "remove" => {
                let _ = std::fs::remove_file(s(&step["path"]));
            }
            "rmdir" => {
                let _ = std::fs::remove_dir(s(&step["path"]));
            }
            other => panic!("harness: step {}", other),
        }
    }
}
