//! Text helpers shared by all parts of the executor. The same functions exist in
//! checks/common.py, so that both sides name a body the same way.
use std::collections::HashMap;
use std::sync::Mutex;

pub fn fnv64(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// Bytes as printable text: plain ones themselves, the others as \xhh. (Escaping twice is the
/// same as escaping once, and escaping goes through concatenation.)
pub fn esc(bytes: &[u8]) -> String {
    let mut s = String::with_capacity(bytes.len());
    for b in bytes {
        match b {
            0x20..=0x7e => s.push(*b as char),
            _ => s.push_str(&format!("\\x{:02x}", b)),
        }
    }
    s
}

/// Short printable name of some bytes: themselves (escaped) when short, else length and hash.
pub fn sum(bytes: &[u8]) -> String {
    if bytes.len() <= 3000 {
        format!("t:{}", esc(bytes))
    } else {
        format!("h:{}:{:016x}", bytes.len(), fnv64(bytes))
    }
}

pub fn hex(bytes: &[u8]) -> String {
    let mut s = String::with_capacity(bytes.len() * 2);
    for b in bytes {
        s.push_str(&format!("{:02x}", b));
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

/// Body expressions: "@len:seed" is generated text, "%hex" raw bytes, anything else itself.
pub fn expand(expr: &str) -> Vec<u8> {
    if let Some(rest) = expr.strip_prefix('@') {
        let mut it = rest.split(':');
        let len: usize = it.next().unwrap().parse().unwrap();
        let mut x: u64 = it.next().unwrap().parse::<u64>().unwrap().wrapping_add(12345);
        let alphabet = b"abcdefghijklmnopqrstuvwxyz0123456789";
        let mut v = Vec::with_capacity(len);
        for _ in 0..len {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            v.push(alphabet[((x >> 33) % 36) as usize]);
        }
        v
    } else if let Some(rest) = expr.strip_prefix('%') {
        unhex(rest)
    } else {
        expr.as_bytes().to_vec()
    }
}

static INTERN: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);

pub fn leak(s: &str) -> &'static str {
    let mut g = INTERN.lock().unwrap_or_else(|e| e.into_inner());
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(s.to_string(), l);
    l
}

pub fn hex_if_short(b: &[u8]) -> String {
    if b.len() > 2000 {
        return String::new();
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
