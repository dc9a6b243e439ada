//! The string functions of expressions, against the definitions of CEL's string extensions, over
//! characters (not bytes).
use crate::conv::*;
use crate::flow::set;
use crate::host::*;
use crate::pb::{self, ld};
use crate::sym;

/// A string of `n` pieces: a letter, blank or digit; characters of two, three and four bytes.
fn text(name: &str, n: usize, ascii: &[u8]) -> String {
    let mut s = String::new();
    for i in 0..n {
        match sym::choice(&format!("{name} piece {i}"), 3) {
            0 => s.push_str(&sym::over(&format!("{name} char {i}"), 1, ascii)),
            1 => s.push('\u{e9}'),
            _ => s.push('\u{1f600}'),
        }
    }
    s
}
fn upto(name: &str, max: usize, ascii: &[u8]) -> String {
    let n = sym::choice(&format!("{name} length"), max + 1);
    text(name, n, ascii)
}
fn find(s: &[char], t: &[char], from: usize) -> Option<usize> {
    (from..=s.len()).find(|&i| i + t.len() <= s.len() && s[i..i + t.len()] == *t)
}
fn rfind(s: &[char], t: &[char], from: usize) -> Option<usize> {
    (0..=from.min(s.len())).rev().find(|&i| i + t.len() <= s.len() && s[i..i + t.len()] == *t)
}
fn replace(s: &[char], from: &[char], to: &[char], mut n: i64) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i <= s.len() {
        let here = n != 0 && i + from.len() <= s.len() && s[i..i + from.len()] == *from;
        if here {
            o.extend(to.iter());
            n -= 1;
            i += from.len();
        }
        if !here || from.is_empty() {
            if i < s.len() {
                o.push(s[i]);
            }
            i += 1;
        }
    }
    o
}
fn split(s: &[char], sep: &[char], n: i64) -> Vec<String> {
    let mut o = vec![];
    if n == 0 {
        return o;
    }
    let (mut i, mut start) = (0, 0);
    while i + sep.len() <= s.len() {
        if (n < 0 || (o.len() as i64) < n - 1) && s[i..i + sep.len()] == *sep {
            o.push(s[start..i].iter().collect());
            i += sep.len();
            start = i;
        } else {
            i += 1;
        }
    }
    o.push(s[start..].iter().collect());
    o
}
/// Any 64-bit number, or a small one.
fn number(host: &Host, attr: &str, wide: bool) -> i64 {
    let v = if wide { i64::from_le_bytes(sym::bytes(attr, 8).try_into().unwrap()) } else { [0, 1, 2, 3, -1][sym::choice(attr, 5)] };
    host.setv(attr, &v.to_le_bytes());
    v
}
enum W {
    Text(String),
    Number(i64),
    List(Vec<String>),
    Fails,
    /// left open
    Any,
}
pub fn c15_strings() {
    const M: &str = "request.method";
    const EXPRS: [(&str, &str); 16] = [
        ("charat", "s: request.method.charAt(source.port)"),
        ("index", "i64: request.method.indexOf(request.path)"),
        ("index2", "i64: request.method.indexOf(request.path, source.port)"),
        ("last", "i64: request.method.lastIndexOf(request.path)"),
        ("last2", "i64: request.method.lastIndexOf(request.path, source.port)"),
        ("sub", "s: request.method.substring(source.port)"),
        ("sub2", "s: request.method.substring(source.port, destination.port)"),
        ("replace", "s: request.method.replace(request.path, request.scheme)"),
        ("replace2", "s: request.method.replace(request.path, request.scheme, source.port)"),
        ("split", "rs: request.method.split(request.path)"),
        ("split2", "rs: request.method.split(request.path, source.port)"),
        ("join", "s: [request.method, request.path].join(request.scheme)"),
        ("join2", "s: [request.method].join()"),
        ("lower", "s: request.method.lowerAscii()"),
        ("upper", "s: request.method.upperAscii()"),
        ("trim", "s: request.method.trim()"),
    ];
    let f = plugin(&EXPRS.iter().map(|e| set(e.0, &call(&format!("t.v1.M {{ {} }}", e.1), ""))).collect::<Vec<_>>());
    let name = EXPRS[sym::choice("function", EXPRS.len())].0;
    let h = begin(f, name);
    let n = sym::u8("@n") as usize;
    let letters: &[u8] = match name {
        "lower" | "upper" => b"aZ@[`{",
        "trim" => b" \ta",
        _ => b"ab",
    };
    let s = upto("text", n, letters);
    h.setv(M, s.as_bytes());
    let c: Vec<char> = s.chars().collect();
    let len = c.len() as i64;
    let arg = |a: &str, name: &str, max: usize| {
        let t = upto(name, max, b"ab");
        h.setv(a, t.as_bytes());
        t.chars().collect::<Vec<char>>()
    };
    let want = match name {
        "charat" => {
            let i = number(&h, "source.port", true);
            if i == len { W::Any } else if i < 0 || i > len { W::Fails } else { W::Text(c[i as usize].to_string()) }
        }
        "index" => {
            let t = arg("request.path", "needle", 2);
            W::Number(find(&c, &t, 0).map_or(-1, |x| x as i64))
        }
        "last" => {
            let t = arg("request.path", "needle", 2);
            W::Number(rfind(&c, &t, c.len()).map_or(-1, |x| x as i64))
        }
        "index2" | "last2" => {
            let t = arg("request.path", "needle", 1);
            let i = number(&h, "source.port", true);
            if i < 0 || i >= len {
                if t.is_empty() && i == len { W::Any } else { W::Number(-1) }
            } else {
                W::Number(if name == "index2" { find(&c, &t, i as usize) } else { rfind(&c, &t, i as usize) }.map_or(-1, |x| x as i64))
            }
        }
        "sub" | "sub2" => {
            let other = name == "sub2" && sym::bool("which");
            let i = number(&h, "source.port", !other);
            let e = if name == "sub" { len } else { number(&h, "destination.port", other) };
            if i < 0 || e < i {
                W::Fails
            } else if e > len {
                W::Any
            } else {
                W::Text(c[i as usize..e as usize].iter().collect())
            }
        }
        "replace" | "replace2" => {
            let t = arg("request.path", "from", 1);
            let u = arg("request.scheme", "to", 1);
            let k = if name == "replace" { -1 } else { number(&h, "source.port", true) };
            W::Text(replace(&c, &t, &u, k))
        }
        "split" | "split2" => {
            let t = arg("request.path", "separator", 1);
            let k = if name == "split" { -1 } else { number(&h, "source.port", true) };
            if t.is_empty() { W::Any } else { W::List(split(&c, &t, k)) }
        }
        "join" => {
            let t = arg("request.path", "second", 1);
            let u = arg("request.scheme", "separator", 1);
            W::Text([&c[..], &u[..], &t[..]].concat().into_iter().collect())
        }
        "join2" => W::Text(s.clone()),
        "lower" => W::Text(c.iter().map(|x| if ('A'..='Z').contains(x) { (*x as u8 + 32) as char } else { *x }).collect()),
        "upper" => W::Text(c.iter().map(|x| if ('a'..='z').contains(x) { (*x as u8 - 32) as char } else { *x }).collect()),
        _ => {
            let blank = |x: &char| *x == ' ' || *x == '\t';
            let from = c.iter().position(|x| !blank(x)).unwrap_or(c.len());
            let to = c.iter().rposition(|x| !blank(x)).map_or(from, |x| x + 1);
            W::Text(c[from..to].iter().collect())
        }
    };
    let p = Proxy::start(f, &h);
    let b = h.call_msg("t");
    match want {
        W::Any => {
            sym::mark("open");
            sym::check(h.calls().len() + h.n_replies() == 1, "a decision is taken");
        }
        W::Fails => {
            sym::mark("out of range");
            sym::check(failed(&h, &p), "an index out of range fails the call");
        }
        W::Text(t) => {
            sym::mark(name);
            let e = if t.is_empty() { vec![] } else { ld(12, t.as_bytes()) };
            sym::check(b.is_some_and(|b| b == e), "the function's result is the defined one");
        }
        W::Number(x) => {
            sym::mark(name);
            let e = if x == 0 { vec![] } else { pb::vi(2, x as u64) };
            sym::check(b.is_some_and(|b| b == e), "the position is the defined one");
        }
        W::List(l) => {
            sym::mark(name);
            let e: Vec<u8> = l.iter().flat_map(|x| ld(20, x.as_bytes())).collect();
            sym::check(b.is_some_and(|b| b == e), "the parts are the defined ones");
        }
    }
}
