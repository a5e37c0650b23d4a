//! Operations done on contexts, bodies and responses directly, without a server.
use crate::decode::{json_canon, Canon};
use crate::util::{hex_if_short, leak, sum, unhex};
use futures_util::stream;
use obsidian::context::{Context, ResponseBuilder};
use obsidian::header::HeaderName;
use obsidian::router::{from_cow_map, Responder, Response, ResponseBody};
use obsidian::{Body, Request, StatusCode};
use serde::ser::{Error as _, Serialize, SerializeMap, SerializeSeq, Serializer};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn s(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("harness: not a string: {}", v))
}

pub fn run(cmd: &Value) -> Value {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    match catch_unwind(AssertUnwindSafe(|| rt.block_on(step(cmd)))) {
        Ok(v) => v,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            if m.starts_with("harness:") {
                eprintln!("{} in {}", m, cmd);
                std::process::exit(3);
            }
            json!("panic")
        }
    }
}

fn chunked_body(chunks: &Value) -> Body {
    let parts: Vec<Result<Vec<u8>, std::io::Error>> = chunks
        .as_array()
        .unwrap()
        .iter()
        .map(|c| {
            if s(c) == "!" {
                Err(std::io::Error::new(std::io::ErrorKind::Other, "broken"))
            } else {
                Ok(unhex(s(c)))
            }
        })
        .collect();
    Body::wrap_stream(stream::iter(parts))
}

fn body_of(cmd: &Value) -> Body {
    if cmd["whole"].as_bool() == Some(true) {
        let mut all = vec![];
        for c in cmd["chunks"].as_array().unwrap() {
            all.extend(unhex(s(c)));
        }
        Body::from(all)
    } else {
        chunked_body(&cmd["chunks"])
    }
}

async fn step(cmd: &Value) -> Value {
    match s(&cmd["c"]) {
        "query" => {
            let mut req = Request::new(Body::empty());
            match s(&cmd["uri"]).parse() {
                Ok(u) => *req.uri_mut() = u,
                Err(_) => return json!("baduri"),
            }
            let mut ctx = Context::new(req, HashMap::new());
            crate::with_target!(&cmd["shape"], T => match ctx.query_params::<T>() {
                Ok(v) => json!(v.canon()),
                Err(_) => json!("err"),
            })
        }
        "form" => {
            let mut ctx = Context::new(Request::new(body_of(cmd)), HashMap::new());
            crate::with_target!(&cmd["shape"], T => match ctx.form::<T>().await {
                Ok(v) => json!(v.canon()),
                Err(_) => json!("err"),
            })
        }
        "json" => {
            let mut ctx = Context::new(Request::new(body_of(cmd)), HashMap::new());
            if cmd["shape"].is_null() {
                match ctx.json::<Value>().await {
                    Ok(v) => json!(json_canon(&v)),
                    Err(_) => json!("err"),
                }
            } else {
                crate::with_target!(&cmd["shape"], T => match ctx.json::<T>().await {
                    Ok(v) => json!(v.canon()),
                    Err(_) => json!("err"),
                })
            }
        }
        "map" => {
            let owned: Vec<(String, Vec<String>)> = cmd["entries"]
                .as_array()
                .unwrap()
                .iter()
                .map(|e| {
                    (
                        s(&e[0]).to_string(),
                        e[1].as_array().unwrap().iter().map(|x| s(x).to_string()).collect(),
                    )
                })
                .collect();
            let mut map: HashMap<Cow<str>, Cow<[String]>> = HashMap::new();
            for (k, v) in &owned {
                map.insert(Cow::from(k.as_str()), Cow::from(v.as_slice()));
            }
            crate::with_target!(&cmd["shape"], T => match from_cow_map::<T, _>(&map) {
                Ok(v) => json!(v.canon()),
                Err(_) => json!("err"),
            })
        }
        "param" => {
            let mut params = HashMap::new();
            for p in cmd["params"].as_array().unwrap() {
                params.insert(s(&p[0]).to_string(), s(&p[1]).to_string());
            }
            let ctx = Context::new(Request::new(Body::empty()), params);
            json!(param(&ctx, s(&cmd["key"]), s(&cmd["type"])))
        }
        "resp" => {
            let (status, headers, body) = build_response(cmd["prog"].as_array().unwrap()).await;
            let bytes = match hyper::body::to_bytes(body).await {
                Ok(b) => b.to_vec(),
                Err(_) => b"<broken body>".to_vec(),
            };
            json!({"status": status.as_u16().to_string(), "headers": headers, "body": sum(&bytes), "hex": hex_if_short(&bytes)})
        }
        other => panic!("harness: unknown command {}", other),
    }
}

pub fn param(ctx: &Context, key: &str, ty: &str) -> String {
    macro_rules! p {
        ($t:ty) => {
            match ctx.param::<$t>(key) {
                Ok(v) => v.canon(),
                Err(_) => "err".to_string(),
            }
        };
    }
    match ty {
        "bool" => p!(bool),
        "char" => p!(char),
        "string" => p!(String),
        "u8" => p!(u8),
        "u16" => p!(u16),
        "u32" => p!(u32),
        "u64" => p!(u64),
        "i8" => p!(i8),
        "i16" => p!(i16),
        "i32" => p!(i32),
        "i64" => p!(i64),
        "f32" => p!(f32),
        "f64" => p!(f64),
        other => panic!("harness: unknown type {}", other),
    }
}

/// A value to serialize: plain JSON, "$obj" pairs in order, or something that fails to.
struct Term<'a>(&'a Value);

impl<'a> Serialize for Term<'a> {
    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            Value::Object(o) => {
                if let Some(m) = o.get("$fail") {
                    return Err(S::Error::custom(s(m)));
                }
                if o.contains_key("$badmap") {
                    let mut m = ser.serialize_map(Some(1))?;
                    m.serialize_entry(&vec![1u8], &1)?;
                    return m.end();
                }
                let pairs = o["$obj"].as_array().unwrap();
                let mut m = ser.serialize_map(Some(pairs.len()))?;
                for p in pairs {
                    m.serialize_entry(s(&p[0]), &Term(&p[1]))?;
                }
                m.end()
            }
            Value::Array(a) => {
                let mut q = ser.serialize_seq(Some(a.len()))?;
                for x in a {
                    q.serialize_element(&Term(x))?;
                }
                q.end()
            }
            other => other.serialize(ser),
        }
    }
}

fn hn(n: &str) -> HeaderName {
    HeaderName::from_bytes(n.as_bytes()).unwrap_or_else(|_| panic!("harness: header {}", n))
}
fn st(v: &Value) -> StatusCode {
    StatusCode::from_u16(s(v).parse().unwrap()).unwrap()
}
fn pairs(v: &Value) -> Vec<(HeaderName, &'static str)> {
    v.as_array().unwrap().iter().map(|p| (hn(s(&p[0])), leak(s(&p[1])))).collect()
}
fn pairs_str(v: &Value) -> Vec<(&'static str, &'static str)> {
    v.as_array().unwrap().iter().map(|p| (leak(s(&p[0])), leak(s(&p[1])))).collect()
}

/// Do `$e` with `b` bound to the body the argument describes: a literal, a String, nothing or bytes.
macro_rules! with_body {
    ($arg:expr, $b:ident => $e:expr) => {{
        let a = s($arg);
        let (tag, rest) = a.split_at(2);
        match tag {
            "s:" => { let $b: &'static str = leak(rest); $e }
            "S:" => { let $b: String = rest.to_string(); $e }
            "u:" => { let $b = (); $e }
            "b:" => { let $b: Vec<u8> = unhex(rest); $e }
            "@:" => { let $b: String = String::from_utf8(crate::util::expand(rest)).unwrap(); $e }
            _ => panic!("harness: body {}", a),
        }
    }};
}

fn new_ctx() -> Context {
    Context::new(Request::new(Body::empty()), HashMap::new())
}

fn start(op: &Value) -> Response {
    match s(&op[0]) {
        "new" => with_body!(&op[1], b => Response::new(b)),
        "ok" => Response::ok(),
        "created" => Response::created(),
        "ise" => Response::internal_server_error(),
        "respond" => with_body!(&op[1], b => b.respond_to()),
        "status" => st(&op[1]).respond_to(),
        "pair" => with_body!(&op[2], b => (st(&op[1]), b).respond_to()),
        "some" => {
            if s(&op[1]) == "S" {
                Some(s(&op[2]).to_string()).respond_to()
            } else {
                Some(leak(s(&op[2]))).respond_to()
            }
        }
        "none" => {
            if s(&op[1]) == "S" {
                None::<String>.respond_to()
            } else {
                None::<&'static str>.respond_to()
            }
        }
        "rstatus" => with_body!(&op[1], b => Responder::with_status(b, st(&op[2]))),
        "rheader" => with_body!(&op[1], b => Responder::with_header(b, hn(s(&op[2])), leak(s(&op[3])))),
        "rheaders" => with_body!(&op[1], b => Responder::with_headers(b, pairs(&op[2]))),
        "rheaders_str" => with_body!(&op[1], b => Responder::with_headers_str(b, pairs_str(&op[2]))),
        other => panic!("harness: start {}", other),
    }
}

async fn on_response(r: Response, op: &Value) -> Response {
    match s(&op[0]) {
        "set_status" => r.set_status(st(&op[1])),
        "with_status" => r.with_status(st(&op[1])),
        "status_mut" => {
            let mut r = r;
            *r.status_mut() = st(&op[1]);
            r
        }
        "set_body" => with_body!(&op[1], b => r.set_body(b)),
        "set_header" => r.set_header(hn(s(&op[1])), leak(s(&op[2]))),
        "with_header" => r.with_header(hn(s(&op[1])), leak(s(&op[2]))),
        "set_header_str" => r.set_header_str(leak(s(&op[1])), leak(s(&op[2]))),
        "with_header_str" => r.with_header_str(leak(s(&op[1])), leak(s(&op[2]))),
        "set_content_type" => r.set_content_type(leak(s(&op[1]))),
        "set_headers" => r.set_headers(pairs(&op[1])),
        "with_headers" => r.with_headers(pairs(&op[1])),
        "set_headers_str" => r.set_headers_str(pairs_str(&op[1])),
        "with_headers_str" => r.with_headers_str(pairs_str(&op[1])),
        "push_header" => {
            let mut r = r;
            let h = r.headers_mut();
            match h {
                Some(v) => v.push((hn(s(&op[1])), leak(s(&op[2])))),
                None => *h = Some(vec![(hn(s(&op[1])), leak(s(&op[2])))]),
            }
            r
        }
        "html" => with_body!(&op[1], b => r.html(b)),
        "json" => r.json(Term(&op[1])),
        "file" => r.file(s(&op[1])).await,
        "respond_again" => r.respond_to(),
        other => panic!("harness: response op {}", other),
    }
}

fn on_builder(b: ResponseBuilder, op: &Value) -> ResponseBuilder {
    match s(&op[0]) {
        "with_status" => b.with_status(st(&op[1])),
        "with_header" => b.with_header(hn(s(&op[1])), leak(s(&op[2]))),
        "with_header_str" => b.with_header_str(leak(s(&op[1])), leak(s(&op[2]))),
        "with_headers" => b.with_headers(pairs(&op[1])),
        "with_headers_str" => b.with_headers_str(pairs_str(&op[1])),
        other => panic!("harness: builder op {}", other),
    }
}

enum Stage {
    Start,
    Resp(Response),
    Builder(ResponseBuilder),
}

async fn run_prog(prog: &[Value], ctx: Context) -> Result<Response, Context> {
    let mut stage = Stage::Start;
    let mut ctx = Some(ctx);
    for op in prog {
        stage = match (stage, s(&op[0])) {
            (Stage::Start, "ctx_json") => Stage::Builder(ctx.take().unwrap().build_json(Term(&op[1]))),
            (Stage::Start, "ctx_file") => Stage::Builder(ctx.take().unwrap().build_file(s(&op[1])).await),
            (Stage::Start, "ctx_respond") => {
                let c = ctx.take().unwrap();
                Stage::Builder(with_body!(&op[1], b => c.build(b)))
            }
            (Stage::Start, "ctx_status") => Stage::Builder(ctx.take().unwrap().build(st(&op[1]))),
            (Stage::Start, "ctx_pair") => {
                let c = ctx.take().unwrap();
                Stage::Builder(with_body!(&op[2], b => c.build((st(&op[1]), b))))
            }
            (Stage::Start, "ctx_some") => {
                let c = ctx.take().unwrap();
                Stage::Builder(if s(&op[1]) == "S" { c.build(Some(s(&op[2]).to_string())) } else { c.build(Some(leak(s(&op[2])))) })
            }
            (Stage::Start, "ctx_none") => {
                let c = ctx.take().unwrap();
                Stage::Builder(if s(&op[1]) == "S" { c.build(None::<String>) } else { c.build(None::<&'static str>) })
            }
            (Stage::Start, _) => Stage::Resp(start(op)),
            (Stage::Resp(r), "ctx") => Stage::Builder(ctx.take().unwrap().build(r)),
            (Stage::Resp(r), _) => Stage::Resp(on_response(r, op).await),
            (Stage::Builder(b), _) => Stage::Builder(on_builder(b, op)),
        };
    }
    match stage {
        Stage::Resp(r) => Ok(r),
        Stage::Builder(b) => match b.ok() {
            Ok(c) => Err(c),
            Err(_) => panic!("builder failed"),
        },
        Stage::Start => panic!("harness: empty program"),
    }
}

/// The same program, ending in a context holding the response (for use inside a handler).
pub async fn run_in_context(prog: &[Value], ctx: Context) -> Context {
    // A plain response is attached to the given context; a builder already owns it.
    let uses_ctx = prog.iter().any(|op| s(&op[0]).starts_with("ctx"));
    if uses_ctx {
        match run_prog(prog, ctx).await {
            Err(c) => c,
            Ok(_) => unreachable!(),
        }
    } else {
        match run_prog(prog, new_ctx()).await {
            Ok(r) => match ctx.build(r).ok() {
                Ok(c) => c,
                Err(_) => panic!("builder failed"),
            },
            Err(_) => unreachable!(),
        }
    }
}

async fn build_response(prog: &[Value]) -> (StatusCode, Vec<(String, String)>, Body) {
    let r = match run_prog(prog, new_ctx()).await {
        Ok(r) => r,
        Err(c) => c.take_response().expect("no response after ok()"),
    };
    let headers = match r.headers() {
        Some(v) => v.iter().map(|(n, v)| (n.as_str().to_string(), v.to_string())).collect(),
        None => vec![],
    };
    (r.status(), headers, r.body())
}

#[allow(dead_code)]
fn assert_traits() {
    fn rb<T: ResponseBody>() {}
    rb::<String>();
}
