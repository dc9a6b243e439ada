//! The operations of typed actions: changing headers, refusing, storing.
use crate::body::export;
use crate::flow::*;
use crate::host::*;
use crate::pb;
use crate::sym;
use crate::verdicts::{eq_name, headers_set, pairs};

fn hd(predicate: &str, target: &str, value: &str, more: &str) -> String {
    format!(r#"{{"type":"headers","predicate":"{predicate}","terminal":false,"target":"{target}","headers":"{value}"{more}}}"#)
}
fn limit(domain: &str) -> String {
    grpc_msg("dd", &format!("envoy.service.ratelimit.v3.RateLimitRequest {{ domain: {domain} }}"), "true", "", &verdict())
}
/// A text of up to `n` characters, of any ASCII but quotes the proxy could send.
fn text(name: &str, n: usize) -> String {
    sym::ascii(name, sym::choice(&format!("{name} length"), n + 1))
}
fn name(what: &str) -> String {
    format!("x-{}", sym::over(what, 1, b"abA"))
}
fn attr(h: &Host, path: &str, v: &str) {
    h.setv(path, v.as_bytes());
}
fn sets(h: &Host) -> usize {
    h.events().iter().filter(|e| matches!(e, Ev::SetMap { .. })).count()
}
fn rid() -> (String, String) {
    ("x-request-id".to_string(), "id-1".to_string())
}

/// Header-changing actions set exactly the headers they name, and later expressions see them.
pub fn c16_headers() {
    let two = "[[request.path, request.method], ['X-B', request.scheme]]";
    let one = "[[request.query, request.protocol]]";
    let f = config(
        "deny",
        "deny",
        &[
            set("seq", &[hd("true", "request", two, SEQ), hd("true", "request", one, SEQ), limit("request.headers['x-b']")].join(",")),
            set("par", &[hd("true", "request", two, ""), hd("true", "request", one, NOGUARD), limit("request.headers['x-b']")].join(",")),
            set("if", &[hd("request.query == '1'", "request", "[[request.path, request.method]]", ""), limit("request.path")].join(",")),
            set("resp", &[hd("true", "response", "[[request.path, request.method]]", ""), hd("request.query == '1'", "response", "[['x-b', request.scheme]]", "")].join(",")),
            set("both", &[hd("true", "response", "[[request.path, request.method]]", SEQ), hd("true", "request", "[['x-b', request.scheme]]", "")].join(",")),
            set("from", &[hd("true", "request", "[['x-b', request.headers['x-a']]]", ""), limit("request.headers['x-b']")].join(",")),
            set("none", &[hd("true", "request", "[]", ""), limit("request.path")].join(",")),
        ],
        "",
    );
    let hosts = ["seq", "par", "if", "resp", "both", "from", "none"];
    let which = sym::choice("actions", hosts.len());
    let n = sym::u8("@n") as usize;
    let h = Host::new();
    h.setv("request.host", hosts[which].as_bytes());
    let client = [vec![rid()], pairs("client header", 2, n, "x-")].concat();
    h.with(|s| s.req_headers = client.clone());
    let mut now = client.clone();
    let path = if which == 5 || which == 6 { "x-a".to_string() } else { name("name") };
    attr(&h, "request.path", &path);
    let value = if which > 4 { String::new() } else { text("value", n) };
    attr(&h, "request.method", &value);
    let scheme = if matches!(which, 0 | 1 | 3 | 4) { text("second value", n) } else { String::new() };
    attr(&h, "request.scheme", &scheme);
    let query = match which {
        0 | 1 => name("third name"),
        2 | 3 => text("query", 2),
        _ => String::new(),
    };
    attr(&h, "request.query", &query);
    let protocol = if which < 2 { text("third value", n) } else { String::new() };
    attr(&h, "request.protocol", &protocol);
    let mut p = Proxy::start(f, &h);
    let mut set_: Vec<(String, String)> = vec![];
    let mut want = None;
    match which {
        0 | 1 => {
            set_ = vec![(path, value), ("X-B".into(), scheme), (query, protocol)];
            want = set_.iter().rev().find(|s| eq_name(&s.0, "x-b")).map(|s| s.1.clone());
        }
        2 => {
            if query == "1" {
                sym::mark("applies");
                set_.push((path.clone(), value));
            } else {
                sym::mark("does not apply");
                sym::check(sets(&h) == 0, "an action that does not apply changes nothing");
            }
            want = Some(path);
        }
        3 | 4 => {
            let resp = [vec![(":status".to_string(), "200".to_string())], pairs("response header", 2, n, "x-")].concat();
            sym::check(h.n_replies() == 0, "not answered");
            if which == 3 {
                sym::check(h.with(|s| s.req_headers == client) && sets(&h) == 0, "nothing is changed before the response is there");
            }
            h.with(|s| s.resp_headers = Some(resp.clone()));
            p.response_headers();
            let mut r = vec![(path, value)];
            if which == 3 && query == "1" {
                r.push(("x-b".into(), scheme.clone()));
            }
            let after = h.with(|s| s.resp_headers.clone().unwrap_or_default());
            headers_set(&resp, &r, &after, "the response has the headers the actions set, the others as before");
            sym::check(p.flow == Flow::Go, "the response goes on");
            if which == 4 {
                set_.push(("x-b".into(), scheme));
            }
            sym::mark("response");
        }
        5 => {
            let a: Vec<String> = client.iter().filter(|c| eq_name(&c.0, "x-a")).map(|c| c.1.clone()).collect();
            if a.is_empty() {
                sym::mark("not there");
                sym::check(sets(&h) == 0, "an action that fails changes nothing");
                sym::check(h.with(|s| s.req_headers.clone()) == client, "an action that fails changes nothing");
                return;
            }
            set_.push(("x-b".into(), a.join(",")));
            want = Some(a.join(","));
        }
        _ => {
            sym::check(sets(&h) == 0, "no headers to set, nothing is changed");
            want = Some(path);
        }
    }
    h.with(|s| now = s.req_headers.clone());
    headers_set(&client, &set_, &now, "the request has the headers the actions set, the others as before");
    if let Some(w) = want {
        let d = domains(&h);
        sym::mark("seen");
        sym::check(d.len() == 1 && d[0].1 == w, "later expressions see the headers as they are now");
        if d.len() == 1 {
            sym::check(p.reply(d[0].0, 0, &rl_ok()) && p.flow == Flow::Go && h.n_replies() == 0, "the request goes on");
            h.with(|s| now = s.req_headers.clone());
            headers_set(&client, &set_, &now, "the request keeps its headers");
        }
    }
}

/// A refusing action answers with exactly what its expression says, or with 500.
pub fn c17_deny() {
    let full = "DenyResponse { status: uint(source.port), headers: [[request.path, request.method], ['x-b', request.scheme]], body: request.protocol }";
    let d = |predicate: &str, with: &str, more: &str| format!(r#"{{"type":"deny","predicate":"{predicate}","terminal":true,"denyWith":"{with}"{more}}}"#);
    let g = grpc("dd", "d", "true", "", &verdict());
    let f = config(
        "deny",
        "deny",
        &[
            set("full", &[d("request.query == '1'", full, ""), g.clone()].join(",")),
            set("after", &[grpc("dd", "d", "true", SEQ, &verdict()), d("request.query == '1'", full, SEQ)].join(",")),
            set("reply", &grpc("dd", "d", "true", SEQ, &d("request.query == '1' && r.overall_code == 1", full, ""))),
            set("status", &[d("true", "DenyResponse { status: 401u }", ""), g.clone()].join(",")),
            set("body", &[d("true", "DenyResponse { body: request.protocol }", ""), g.clone()].join(",")),
            set("empty", &[d("true", "DenyResponse { }", ""), g.clone()].join(",")),
            set("other", &[d("true", "request.protocol", ""), g.clone()].join(",")),
            set("error", &[d("true", "DenyResponse { status: 401u, headers: [['x-a', request.headers['x-a']]] }", ""), g.clone()].join(",")),
            set("pred", &[d("request.headers['x-a'] == '1'", "DenyResponse { status: 401u }", ""), g].join(",")),
        ],
        if sym::u8("@tracing") == 1 { TRACING } else { "" },
    );
    let hosts = ["full", "after", "reply", "status", "body", "empty", "other", "error", "pred"];
    let which = sym::choice("actions", hosts.len());
    let n = sym::u8("@n") as usize;
    let h = Host::new();
    h.setv("request.host", hosts[which].as_bytes());
    let mut status = 0i64;
    let mut headers = vec![];
    let mut body = String::new();
    let mut applies = true;
    let mut fails = false;
    match which {
        0..=2 => {
            status = sym::u64("status") as i64;
            h.setv("source.port", &status.to_le_bytes());
            let k = name("name");
            let v = text("value", n);
            let w = text("second value", n);
            attr(&h, "request.path", &k);
            attr(&h, "request.method", &v);
            attr(&h, "request.scheme", &w);
            headers = vec![(k, v), ("x-b".to_string(), w)];
            let q = sym::u8("query");
            h.setv("request.query", &[q & 0x7f]);
            applies = q & 0x7f == b'1';
            body = text("body", n);
            attr(&h, "request.protocol", &body);
            fails = status < 0 || status > u32::MAX as i64;
        }
        3 => status = 401,
        4 => {
            status = 500;
            body = text("body", n);
            attr(&h, "request.protocol", &body);
        }
        5 => status = 500,
        6 => {
            attr(&h, "request.protocol", &text("body", n));
            fails = true;
        }
        7 => {
            let there = sym::bool("header there");
            if there {
                let v = text("value", n);
                h.with(|s| s.req_headers.push(("x-a".into(), v.clone())));
                headers.push(("x-a".to_string(), v));
            }
            status = 401;
            fails = !there;
        }
        _ => {
            let there = sym::bool("header there");
            status = 401;
            if there {
                let v = text("value", n);
                applies = v == "1";
                h.with(|s| s.req_headers.push(("x-a".into(), v)));
            } else {
                fails = true;
            }
        }
    }
    let before = h.with(|s| s.req_headers.clone());
    let mut p = Proxy::start(f, &h);
    if which == 1 || which == 2 {
        sym::check(h.n_replies() == 0 && domains(&h).len() == 1, "not before the action before it");
        let t = domains(&h)[0].0;
        let r = p.reply(t, 0, &rl_ok());
        sym::check(r != applies, "let through iff the action does not apply");
    }
    if sym::u8("@tracing") == 1 {
        headers.push(("x-dev".to_string(), "id-1".to_string()));
    }
    let calls = domains(&h).len();
    if !applies {
        sym::mark("does not apply");
        sym::check(h.n_replies() == 0 && calls == 1, "an action that does not apply refuses nothing");
        sym::check(p.flow == if matches!(which, 1 | 2) { Flow::Go } else { Flow::Held }, "the request is let through or held for the next");
        return;
    }
    sym::check(p.flow == Flow::Answered && h.n_replies() == 1, "a refusing action answers once");
    sym::check(calls == (which == 1 || which == 2) as usize, "nothing is called after the refusal");
    sym::check(h.with(|s| s.req_headers == before), "a refusal changes nothing on the request");
    let r = h.replies();
    if r.len() != 1 {
        return;
    }
    if fails {
        sym::mark("cannot be stated");
        sym::check(r[0].0 == 500, "a refusal that cannot be stated is answered with 500");
        return;
    }
    sym::mark("refused");
    sym::check(r[0].0 as i64 == status, "the status is the one the expression gives");
    sym::check(r[0].1 == headers, "the headers are the ones the expression gives");
    sym::check(r[0].2.clone().unwrap_or_default() == body.as_bytes(), "the body is the one the expression gives");
    // the client's end of it
    h.with(|s| s.resp_headers = Some(vec![(":status".to_string(), "200".to_string())]));
    p.response_headers();
    p.response_body(b"", true);
    sym::check(h.n_replies() == 1 && domains(&h).len() == calls, "nothing happens after the answer");
}

/// A stored value is what later expressions, and other filters, see under its path.
pub fn c18_stored() {
    let st = |v: &str| store("v", v);
    let when = |path: &str, value: &str| format!(r#"{{"type":"store","predicate":"request.query == '1'","terminal":false,"path":"{path}","value":"{value}"}}"#);
    let j = |a: &[String]| a.join(",");
    let call = |on_reply: String| grpc("da", "first", "true", "", &on_reply);
    let f = config(
        "deny",
        "deny",
        &[
            set("s0", &j(&[st("request.path"), limit("v")])),
            set("s1", &j(&[hd("true", "request", "[['x-v', v]]", ""), st("request.path"), limit("v")])),
            set("s2", &j(&[store("v.a", "request.path"), store("v.b", "request.method"), limit("v.b + v.a")])),
            set("s3", &j(&[st("{'k': request.path, 'l': [request.method]}"), limit("v.l[0] + v.k")])),
            set("s4", &j(&[st("source.port"), limit("v == source.port && v + 0 == v ? 'same' : 'other'")])),
            set("s5", &j(&[st("request.path == 'a'"), limit("v ? 'yes' : 'no'")])),
            set("s6", &j(&[st("request.path"), st("request.method"), limit("v")])),
            set("s7", &j(&[when("v", "request.path"), limit("v")])),
            set("s8", &j(&[st("'a'"), when("v", "request.path"), limit("v")])),
            set("s9", &j(&[call(st("r.overall_code == 1 ? request.path : 'no'")), limit("v")])),
            set("s10", &j(&[call(store("v.x", "r.overall_code == 1 ? request.path : 'no'")), limit("v.x")])),
            set("s11", &j(&[st("request.path"), store("w", "v + request.method"), limit("w")])),
            set("s12", &j(&[export("v", "request.path"), limit("v")])),
            set("s13", &j(&[export("v.a", "{'k': request.path, 'n': source.port < 5, 'l': [request.method]}"), limit("v.a.k")])),
            set("s14", &j(&[st("request.path"), grpc_msg("dd", "envoy.service.ratelimit.v3.RateLimitRequest { domain: 'd' }", "v == request.method", "", &verdict())])),
            set("s15", &j(&[st("request.path"), hd("true", "request", "[['x-v', v]]", ""), deny("v == '1'", "DenyResponse { status: 401u, body: v + '!' }")])),
        ],
        "",
    );
    let which = sym::choice("actions", 16);
    let n = sym::u8("@n") as usize;
    let h = Host::new();
    h.setv("request.host", format!("s{which}").as_bytes());
    h.with(|s| s.log = false);
    let a = text("path", n);
    attr(&h, "request.path", &a);
    let b = if matches!(which, 2 | 3 | 6 | 11 | 13 | 14) { text("method", n) } else { "m".into() };
    attr(&h, "request.method", &b);
    let port = if matches!(which, 4 | 13) { sym::u64("port") as i64 } else { 1 };
    h.setv("source.port", &port.to_le_bytes());
    let mut there = true;
    if which == 7 || which == 8 {
        let q = sym::u8("query") & 0x7f;
        h.setv("request.query", &[q]);
        there = q == b'1';
    }
    let mut p = Proxy::start(f, &h);
    let mut want = a.clone();
    match which {
        2 => want = format!("{b}{a}"),
        3 => want = format!("{b}{a}"),
        4 => want = "same".into(),
        5 => want = if a == "a" { "yes".into() } else { "no".into() },
        6 => want = b.clone(),
        8 if !there => want = "a".into(),
        11 => want = format!("{a}{b}"),
        _ => {}
    }
    if which == 9 || which == 10 {
        let d = domains(&h);
        sym::check(d.len() == 1 && d[0].1 == "first", "an expression waits for the value it names");
        if d.len() != 1 {
            return;
        }
        let mut reply = sym::bytes("reply", 2);
        if sym::bool("a verdict") {
            reply[0] = 8;
        }
        let status = if sym::bool("answered") { 0 } else { 1 + (sym::u8("status") & 15) as u32 };
        p.reply(d[0].0, status, &reply);
        // a message iff its one field is the code; other fields are told apart elsewhere
        sym::assume(reply[0] == 8 || reply[0] & 7 > 5 || reply[0] < 8);
        match rl_code(&reply) {
            Some(c) if status == 0 => {
                if c != 1 {
                    want = "no".into();
                }
            }
            _ => there = false,
        }
    }
    let skip = (which == 9 || which == 10) as usize;
    if which == 14 {
        sym::mark(if a == b { "seen" } else { "not called" });
        sym::check((h.calls().len() == 1) == (a == b) && h.n_replies() == 0, "predicates see the value");
        sym::check(p.flow == if a == b { Flow::Held } else { Flow::Go }, "predicates see the value");
        return;
    }
    if which == 15 {
        let x = h.with(|s| s.req_headers.iter().find(|k| k.0 == "x-v").map(|k| k.1.clone()));
        sym::check(x.as_deref() == Some(a.as_str()), "header-changing actions see the value");
        let r = h.replies();
        if a == "1" {
            sym::check(r.len() == 1 && r[0].0 == 401 && r[0].2.as_deref() == Some(b"1!"), "refusing actions see the value");
        } else {
            sym::check(r.is_empty() && p.flow == Flow::Go, "refusing actions see the value");
        }
        return;
    }
    if !there && which != 8 {
        sym::mark("not stored");
        sym::check(h.calls().len() == skip && h.n_replies() == 1 && h.replies()[0].0 == 500, "a value that was not stored is not there");
        return;
    }
    let d = domains(&h);
    sym::mark("seen");
    sym::check(d.len() == 1 + skip && d[skip].1 == want, "later expressions see the stored value");
    sym::check(h.n_replies() == 0 && p.flow == Flow::Held, "the request is held for the next");
    let exported: Vec<(String, Vec<u8>)> = h.events().into_iter().filter_map(|e| if let Ev::SetAttr { path, value } = e { Some((format!("{path:?}"), value)) } else { None }).collect();
    match which {
        12 => {
            sym::check(exported.len() == 1 && exported[0].1 == pb::ld(3, a.as_bytes()), "the value is exported as it is");
            sym::check(exported.len() == 1 && exported[0].0.contains("kuadrant") && exported[0].0.ends_with(".v\"]"), "the value is exported under its path");
        }
        13 => {
            sym::check(exported.len() == 1, "the value is exported once");
            let fields = exported.first().and_then(|x| pb::parse(&x.1)).map(|m| pb::subs(&m, 1)).unwrap_or_default();
            sym::check(fields.len() == 3, "the value is exported with all its parts");
            for e in fields {
                let e = pb::parse(&e).unwrap_or_default();
                let v = pb::sub(&e, 2).unwrap_or_default();
                let w = match pb::sub(&e, 1).unwrap_or_default().as_slice() {
                    b"k" => pb::ld(3, a.as_bytes()),
                    b"n" => pb::vi(4, (port < 5) as u64),
                    b"l" => pb::ld(6, &pb::ld(1, &pb::ld(3, b.as_bytes()))),
                    _ => vec![],
                };
                let same = v == w || (w == pb::vi(4, 0) && v == vec![0x20, 0]);
                sym::check(same, "the value is exported with all its parts");
            }
        }
        _ => sym::check(exported.is_empty(), "only what is meant to be is exported"),
    }
}
