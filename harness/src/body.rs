//! Values taken from JSON bodies and event streams: what the actions see is what the body says,
//! however it is cut into chunks and whether or not the stream is held meanwhile.
use crate::flow::*;
use crate::host::*;
use crate::{pb, sym};

/// A JSON value, as it is stored for the host (a google.protobuf.Value)
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    N(f64),
    S(String),
}
impl J {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            J::Null => vec![8, 0],
            J::N(f) => [&[0x11u8][..], &f.to_le_bytes()[..]].concat(),
            J::S(s) => pb::ld(3, s.as_bytes()),
            J::B(b) => vec![0x20, *b as u8],
        }
    }
}
fn hex(b: u8) -> Option<u32> {
    match b {
        b'0'..=b'9' => Some((b - b'0') as u32),
        b'a'..=b'f' => Some((b - b'a') as u32 + 10),
        b'A'..=b'F' => Some((b - b'A') as u32 + 10),
        _ => None,
    }
}
/// What the content of a JSON string (between the quotes) means; None: it is none.
pub fn json_string(b: &[u8]) -> Option<String> {
    let mut out = vec![];
    let mut i = 0;
    let u = |i: usize| -> Option<u32> {
        let mut v = 0;
        for k in 0..4 {
            v = v * 16 + hex(*b.get(i + k)?)?;
        }
        Some(v)
    };
    while i < b.len() {
        let c = b[i];
        i += 1;
        match c {
            b'"' => return None,
            0..=0x1f => return None,
            b'\\' => {
                let e = *b.get(i)?;
                i += 1;
                match e {
                    b'"' | b'\\' | b'/' => out.push(e),
                    b'b' => out.push(8),
                    b'f' => out.push(12),
                    b'n' => out.push(10),
                    b'r' => out.push(13),
                    b't' => out.push(9),
                    b'u' => {
                        let mut v = u(i)?;
                        i += 4;
                        if (0xd800..0xdc00).contains(&v) {
                            if b.get(i) != Some(&b'\\') || b.get(i + 1) != Some(&b'u') {
                                return None;
                            }
                            let l = u(i + 2)?;
                            if !(0xdc00..0xe000).contains(&l) {
                                return None;
                            }
                            v = 0x10000 + ((v - 0xd800) << 10) + (l - 0xdc00);
                            i += 6;
                        }
                        let ch = char::from_u32(v)?;
                        let mut t = [0; 4];
                        out.extend_from_slice(ch.encode_utf8(&mut t).as_bytes());
                    }
                    _ => return None,
                }
            }
            c => out.push(c),
        }
    }
    String::from_utf8(out).ok()
}
pub fn stored(h: &Host, name: &str) -> Vec<Vec<u8>> {
    h.events()
        .into_iter()
        .filter_map(|e| match e {
            Ev::SetAttr { path, value } if path == [format!("kuadrant.{name}")] => Some(value),
            _ => None,
        })
        .collect()
}
pub fn export(path: &str, value: &str) -> String {
    format!(r#"{{"type":"store","predicate":"true","terminal":false,"path":"{path}","value":"{value}","exportToHost":true}}"#)
}
/// The stream meanwhile: nothing else, a call that does not hold it, a guard that does
const WHILE: [&str; 3] = ["f", "n", "g"];
fn sets_for(ptrs: &[&str], func: &str) -> Vec<String> {
    let mut sets = vec![];
    for (k, p) in ptrs.iter().enumerate() {
        for w in WHILE {
            let st = export("v", &format!("{func}('{p}')"));
            let a = match w {
                "f" => st,
                "n" => format!("{},{st}", grpc("da", "d", "true", NOGUARD, "")),
                _ => format!("{},{st}", grpc("da", "d", "true", "", "")),
            };
            sets.push(set(&format!("{w}{k}"), &a));
        }
    }
    sets
}
/// Plays a body in chunks cut at `cuts`, answering the call (if any) before chunk number `when`,
/// or after the end.  `end`: the end is told with the last chunk (0), with an empty one (1), or
/// with trailers (2).
fn play(p: &mut Proxy, h: &Host, response: bool, body: &[u8], cuts: &[usize], when: usize, end: usize) {
    let call = h.calls().first().map(|c| c.0);
    let mut bounds = vec![0];
    bounds.extend_from_slice(cuts);
    bounds.push(body.len());
    if end > 0 {
        bounds.push(body.len());
    }
    let n = bounds.len() - 1;
    for i in 0..n {
        if let (Some(t), true) = (call, when == i) {
            p.reply(t, 0, &pb::vi(1, 1));
        }
        let (c, last) = (&body[bounds[i]..bounds[i + 1]], i + 1 == n);
        if last && end == 2 && response {
            p.response_trailers();
        } else if last && end == 2 {
            p.request_trailers();
        } else if response {
            p.response_body(c, last);
        } else {
            p.request_body(c, last);
        }
    }
    if let (Some(t), true) = (call, when >= n) {
        p.reply(t, 0, &pb::vi(1, 1));
    }
}
pub fn begin(f: &kuadrant_filter::kuadrant::PipelineFactory, host: &str, response: bool, ct: &str) -> (std::sync::Arc<Host>, Proxy) {
    let h = Host::new();
    h.with(|s| s.log = false);
    h.setv("request.host", host.as_bytes());
    let mut p = Proxy::start(f, &h);
    if response {
        // the call is made in the request phase: the response starts while it is outstanding
        h.with(|s| s.resp_headers = Some(if ct.is_empty() { vec![] } else { vec![("content-type".into(), ct.into())] }));
        if ct.is_empty() {
            h.with(|s| s.resp_headers = Some(vec![("x".into(), "y".into())]));
        }
        p.response_headers();
    }
    (h, p)
}
/// A piece of a JSON string
fn piece() -> Vec<u8> {
    match sym::choice("piece", 6) {
        0 => sym::ascii("char", 1).into_bytes(),
        1 => [vec![b'\\'], sym::ascii("escape", 1).into_bytes()].concat(),
        2 => [b"\\u00".to_vec(), sym::over("hex", 2, b"0248aF").into_bytes()].concat(),
        3 => b"\\ud83d\\ude00".to_vec(),
        4 => "\u{e9}".as_bytes().to_vec(),
        _ => vec![],
    }
}
/// Strings: every content within bounds, cut anywhere, is what the actions see.
pub fn c11_string() {
    let response = sym::u8("@response") == 1;
    let f = config("deny", "deny", &sets_for(&["/a"], if response { "responseBodyJSON" } else { "requestBodyJSON" }), "");
    let mut s = vec![];
    for _ in 0..sym::u8("@n") {
        s.extend(piece());
    }
    let Some(want) = json_string(&s) else {
        sym::mark("not a string");
        return;
    };
    let body = [b"{\"a\":\"".to_vec(), s, b"\"}".to_vec()].concat();
    let cut = 5 + sym::choice("cut", body.len() - 6);
    let (h, mut p) = begin(f, "f0", response, "application/json");
    play(&mut p, &h, response, &body, &[cut], 9, 0);
    sym::check(stored(&h, "v") == [J::S(want).bytes()], "a string of the body is seen as the string it denotes");
    sym::check(p.flow == Flow::Go && p.finished(), "the stream goes on and the pipeline is over");
    sym::mark("string");
}
const DOCS: [(&str, &str, &str); 7] = [
    ("/a", "{\"a\":", "}"),
    ("/a", "{\"x\":{\"a\":0},\"aa\":\"}\", \"a\" : ", ",\"y\":[{\"a\":2}]} "),
    ("/o/p", "{\"o\":{\"q\":1,\"p\":", "},\"p\":2}"),
    ("/l/1", "{\"l\":[[7],", ",9],\"k\":[1,2]}"),
    ("/a~1b/~0", "{\"a\":{\"~\":1},\"a/b\":{\"~\":", "}}"),
    ("/ab", "{\"a\\u0062\":", "}"),
    ("/none", "{\"a\":", ",\"b\":{\"none\":1},\"nones\":[\"none\"]}"),
];
/// Documents and values of every kind, in up to three chunks, held or not, with a call being
/// answered at any moment.
pub fn c11_doc() {
    let response = sym::u8("@response") == 1;
    let ptrs: Vec<&str> = DOCS.iter().map(|d| d.0).collect();
    let f = config("deny", "deny", &sets_for(&ptrs, if response { "responseBodyJSON" } else { "requestBodyJSON" }), "");
    let vals: [(&str, J); 12] = [
        ("null", J::Null),
        ("true", J::B(true)),
        ("false", J::B(false)),
        ("0", J::N(0.0)),
        ("-12", J::N(-12.0)),
        ("1.5e1", J::N(15.0)),
        ("18446744073709551615", J::N(18446744073709551615.0)),
        ("\"\"", J::S("".into())),
        ("\"12\"", J::S("12".into())),
        ("\"true\"", J::S("true".into())),
        ("\"null\"", J::S("null".into())),
        ("\"{\\\"a\\\":1}\"", J::S("{\"a\":1}".into())),
    ];
    let d = sym::choice("document", DOCS.len());
    // every document with one value, every value with one document
    let cuts = sym::choice("cuts", if d == 0 { 3 } else { 2 });
    let v = match d {
        0 if cuts == 2 => 8,
        0 => sym::choice("value", vals.len()),
        _ => [7, 4, 8, 2, 0, 11, 1][d],
    };
    let body = format!("{}{}{}", DOCS[d].1, vals[v].0, DOCS[d].2).into_bytes();
    let mut at = vec![];
    let mut from = 0;
    for _ in 0..cuts {
        from += sym::choice("cut", body.len() - from + 1);
        at.push(from);
    }
    let w = if cuts == 2 { 1 + sym::choice("held", 2) } else { sym::choice("meanwhile", 3) };
    let end = if d == 0 && cuts < 2 { sym::choice("end", 3) } else { 0 };
    let when = if w == 0 { 0 } else { sym::choice("answered before chunk", cuts + 2 + (end > 0) as usize) };
    let (h, mut p) = begin(f, &format!("{}{d}", WHILE[w]), response, if v % 2 == 0 { "application/json" } else { "" });
    play(&mut p, &h, response, &body, &at, when, end);
    if DOCS[d].0 == "/none" {
        sym::check(stored(&h, "v").is_empty(), "a value the body does not have is not made up");
    } else {
        sym::check(stored(&h, "v") == [vals[v].1.bytes()], "a value of the body is seen as it is");
        sym::mark(["alone", "not held", "held"][w]);
    }
    if p.phase == Phase::Request {
        p.response_headers();
        p.response_body(b"", true);
    }
    sym::check(p.flow == Flow::Go && p.finished() && h.n_replies() == 0, "the stream goes on and the pipeline is over");
}
/// Whole numbers are seen digit by digit, up to the largest 64 bits hold.
pub fn c11_numbers() {
    let response = sym::u8("@response") == 1;
    let func = if response { "responseBodyJSON" } else { "requestBodyJSON" };
    let sets = [set("t", &export("v", &format!("string({func}('/a'))"))), set("e", &export("v", &format!("{func}('/a') == {func}('/b')")))];
    let f = config("deny", "deny", &sets, "");
    let head = ["", "1", "40", "900719925474099", "922337203685477580", "999999999999999999", "1844674407370955161"][sym::choice("digits", 7)];
    let sign = ["", "-"][sym::choice("sign", 2)];
    let last = sym::u8("last digit");
    sym::assume(last.is_ascii_digit());
    let text = format!("{sign}{head}{}", last as char);
    let n: i128 = text.parse().unwrap_or(i128::MAX);
    let fits = n >= i64::MIN as i128 && n <= u64::MAX as i128;
    let (host, body) = match sym::choice("seen", 2) {
        0 => ("t", format!("{{\"a\":{text}}}")),
        // another number that differs in the last digit only
        _ => ("e", format!("{{\"a\":{text},\"b\":{sign}{head}7}}")),
    };
    let cut = if head.len() < 4 { sym::choice("cut", body.len()) } else { 5 };
    let (h, mut p) = begin(f, host, response, "application/json");
    play(&mut p, &h, response, body.as_bytes(), &[cut], 9, 0);
    let seen = stored(&h, "v");
    let other: i128 = format!("{sign}{head}7").parse().unwrap_or(i128::MAX);
    if host == "t" && fits && text != "-0" {
        sym::check(seen == [J::S(text).bytes()], "a whole number of the body is seen with all its digits");
        sym::mark("exact");
    } else if host == "e" && fits && (i64::MIN as i128..=u64::MAX as i128).contains(&other) {
        sym::check(seen == [J::B(n == other).bytes()], "whole numbers of the body are the same only if they are");
        sym::mark("compared");
    } else {
        sym::check(seen.len() == 1, "a number of the body is seen");
        sym::mark("too large");
    }
    sym::check(p.flow == Flow::Go && p.finished() && h.n_replies() == 0, "the stream goes on and the pipeline is over");
}
