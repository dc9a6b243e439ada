//! Decisions: failure modes, verdicts, termination, ordering, holding the stream.
use crate::host::*;
use crate::pb;
use crate::sym;
use kuadrant_filter::kuadrant::*;
use std::sync::Arc;

pub fn services(auth: &str, rl: &str, check: &str) -> String {
    format!(
        r#""services":{{"auth":{{"type":"auth","endpoint":"auth","failureMode":"{auth}","timeout":"200ms"}},
"rl":{{"type":"ratelimit","endpoint":"rl","failureMode":"{rl}","timeout":"100ms"}},
"check":{{"type":"ratelimit-check","endpoint":"check","failureMode":"{check}","timeout":"100ms"}},
"report":{{"type":"ratelimit-report","endpoint":"report","failureMode":"allow","timeout":"100ms"}},
"trace":{{"type":"tracing","endpoint":"trace","failureMode":"allow","timeout":"100ms"}},
"dd":{{"type":"dynamic","endpoint":"dd","failureMode":"deny","timeout":"1s","grpcService":"envoy.service.ratelimit.v3.RateLimitService","grpcMethod":"ShouldRateLimit"}},
"da":{{"type":"dynamic","endpoint":"da","failureMode":"allow","timeout":"1s","grpcService":"envoy.service.ratelimit.v3.RateLimitService","grpcMethod":"ShouldRateLimit"}}}}"#
    )
}
pub fn set(host: &str, actions: &str) -> String {
    format!(r#"{{"name":"{host}","routeRuleConditions":{{"hostnames":["{host}"]}},"actions":[{actions}]}}"#)
}
pub fn config(auth: &str, rl: &str, sets: &[String], extra: &str) -> &'static PipelineFactory {
    config3(auth, rl, rl, sets, extra)
}
pub fn config3(auth: &str, rl: &str, check: &str, sets: &[String], extra: &str) -> &'static PipelineFactory {
    factory(&format!("{{{},\"actionSets\":[{}]{extra}}}", services(auth, rl, check), sets.join(",")))
}
/// Configuration switching the tracing decorator on.
pub const TRACING: &str = r#","observability":{"httpHeaderIdentifier":"x-dev","tracing":{"service":"trace"}}"#;
pub const AUTH: &str = r#"{"service":"auth","scope":"s-auth"}"#;
pub const RL: &str = r#"{"service":"rl","scope":"s-rl","conditionalData":[{"data":[{"static":{"key":"k","value":"v"}}]}]}"#;
pub const CHECK: &str = r#"{"service":"check","scope":"s-ck","conditionalData":[{"data":[{"static":{"key":"k","value":"v"}}]}]}"#;
/// CheckResponse { ok_response {} }
pub fn auth_ok() -> Vec<u8> {
    pb::ld(3, &[])
}
pub fn rl_ok() -> Vec<u8> {
    pb::vi(1, 1)
}
/// A typed gRPC action whose request carries `domain` so that its call can be told apart.
pub fn grpc(svc: &str, domain: &str, predicate: &str, extra: &str, on_reply: &str) -> String {
    grpc_msg(svc, &format!("envoy.service.ratelimit.v3.RateLimitRequest {{ domain: '{domain}' }}"), predicate, extra, on_reply)
}
pub fn grpc_msg(svc: &str, msg: &str, predicate: &str, extra: &str, on_reply: &str) -> String {
    format!(r#"{{"type":"grpc","predicate":"{predicate}","terminal":false,"var":"r","service":"{svc}","messageBuilder":"{msg}","onReply":[{on_reply}]{extra}}}"#)
}
pub const SEQ: &str = r#","execution":"sequential""#;
pub const NOGUARD: &str = r#","isGuard":false"#;
/// on_reply: deny with 429 on OVER_LIMIT, fail on anything but OK
pub fn verdict() -> String {
    [
        r#"{"type":"deny","predicate":"r.overall_code == 2","terminal":true,"denyWith":"DenyResponse { status: 429u, headers: [], body: 'no' }"}"#,
        r#"{"type":"fail","predicate":"r.overall_code != 1","terminal":true,"logMessage":"x"}"#,
    ]
    .join(",")
}
pub fn store(path: &str, value: &str) -> String {
    format!(r#"{{"type":"store","predicate":"true","terminal":false,"path":"{path}","value":"{value}"}}"#)
}
pub fn headers(target: &str, value: &str) -> String {
    format!(r#"{{"type":"headers","predicate":"true","terminal":false,"target":"{target}","headers":"{value}"}}"#)
}
pub fn deny(predicate: &str, with: &str) -> String {
    format!(r#"{{"type":"deny","predicate":"{predicate}","terminal":true,"denyWith":"{with}"}}"#)
}

/// The domain of a dispatched RateLimitRequest.
pub fn domain(msg: &[u8]) -> String {
    pb::parse(msg).and_then(|m| pb::sub(&m, 1)).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default()
}
/// (token, domain) of every RateLimitRequest, in dispatch order
pub fn domains(h: &Host) -> Vec<(u32, String)> {
    h.events()
        .iter()
        .filter_map(|e| match e {
            Ev::Call { token, msg, service, .. } if service.ends_with("RateLimitService") => Some((*token, domain(msg))),
            _ => None,
        })
        .collect()
}
pub fn at(f: &PipelineFactory, host: &str) -> (Arc<Host>, Proxy) {
    let h = Host::new();
    h.setv("request.host", host.as_bytes());
    let p = Proxy::start(f, &h);
    (h, p)
}

/// What an auth reply says, read from the wire: Some(true) allow, Some(false) deny, None no verdict.
pub fn auth_verdict(b: &[u8]) -> Option<bool> {
    let m = pb::parse(b)?;
    let last = m.iter().rev().find(|(n, f)| (*n == 2 || *n == 3) && matches!(f, pb::F::B(_)))?;
    Some(last.0 == 3)
}
/// The overall code of a rate limit reply.
pub fn rl_code(b: &[u8]) -> Option<i32> {
    let m = pb::parse(b)?;
    Some(pb::num(&m, 1).unwrap_or(0) as u32 as i32)
}
pub fn probe2() {
    let f = config("deny", "deny", &[set("example.com", &format!("{AUTH},{RL}"))], "");
    let h = Host::new();
    let mut p = Proxy::start(f, &h);
    let t = h.token_of("auth").unwrap();
    let st = sym::u32("status");
    let b = sym::bytes("reply", sym::u8("@n") as usize);
    let r = p.reply(t, st, &b);
    sym::outn(r as i64);
}

/// One refusal, nothing let through.
fn refused(p: &Proxy, h: &Host, tag: &str) {
    sym::check(h.n_replies() == 1 && p.flow == Flow::Answered, tag);
    sym::check(p.finished() || p.terminated(), "a refused request is terminated");
}
fn is500(h: &Host) -> bool {
    h.replies().first().is_some_and(|r| r.0 == 500 && r.2.as_deref() == Some(b"Internal Server Error.\n"))
}

/// Deny mode: whatever bytes and status the first and second service answer with, the request goes
/// on only with a positive verdict of both.
pub fn c01_reply() {
    let sets = [set("a", AUTH), set("r", RL), set("ar", &format!("{AUTH},{RL}")), set("k", CHECK)];
    let tr = if sym::u8("@tracing") == 1 { TRACING } else { "" };
    let f = config("deny", "deny", &sets, tr);
    let which = sym::choice("config", 4);
    let (h, mut p) = at(f, ["a", "r", "ar", "k"][which]);
    sym::check(p.flow == Flow::Held, "the request is held while a guard call is out");
    let first = h.calls()[0].clone();
    let st = sym::u32("status");
    let b = sym::bytes("reply", sym::u8("@n") as usize);
    let mut resumed = p.reply(first.0, st, &b);
    let good = |st: u32, up: &str, b: &[u8]| st == 0 && if up == "auth" { auth_verdict(b) == Some(true) } else { rl_code(b) == Some(1) };
    let mut ok = good(st, &first.1, &b);
    let calls = h.calls();
    let undecodable = st != 0 || pb::parse(&b).is_none();
    if undecodable {
        sym::mark("no verdict");
        refused(&p, &h, "deny: error status or undecodable reply refuses the request");
        sym::check(is500(&h), "deny: a failure is answered with 500");
    }
    if which == 2 && calls.len() == 2 {
        sym::mark("second call");
        sym::check(ok, "second guard consulted only after the first allowed");
        sym::check(p.flow == Flow::Held && !resumed, "the request is held while the second guard call is out");
        let st2 = sym::u32("status2");
        let b2 = sym::bytes("reply2", sym::u8("@m") as usize);
        resumed = p.reply(calls[1].0, st2, &b2);
        ok = good(st2, "rl", &b2);
    } else if which == 2 {
        sym::check(!resumed, "the second guard is consulted before the request goes on");
    }
    if resumed {
        sym::mark("let through");
        sym::check(ok, "deny: only a positive verdict lets the request through");
        sym::check(h.n_replies() == 0 && p.flow == Flow::Go, "a request let through is not answered");
    } else {
        sym::mark("refused");
        refused(&p, &h, "deny: a request not let through is refused");
    }
    p.response_headers();
    sym::check(h.n_replies() <= 1, "at most one reply");
}

/// A typed on_reply list that fails in different places after an OK status.
fn reply_failures() -> Vec<(&'static str, String)> {
    let nested = |svc: &str| grpc(svc, "nested", "true", "", &verdict());
    vec![
        ("pred", deny("r.nope.x == 1", "DenyResponse { status: 403u }")),
        ("deny-expr", deny("true", "DenyResponse { status: r.nope.x }")),
        ("deny-type", deny("true", "r.overall_code")),
        ("hdr-expr", headers("request", "r.nope.x")),
        ("hdr-pred", r#"{"type":"headers","predicate":"r.nope.x","terminal":false,"target":"request","headers":"[['a','b']]"}"#.to_string()),
        ("store-expr", store("s", "r.nope.x")),
        ("store-pred", r#"{"type":"store","predicate":"r.nope.x","terminal":false,"path":"s","value":"1"}"#.to_string()),
        ("fail", r#"{"type":"fail","predicate":"true","terminal":true,"logMessage":"x"}"#.to_string()),
        ("fail-pred", r#"{"type":"fail","predicate":"r.nope.x","terminal":false,"logMessage":"x"}"#.to_string()),
        ("nested", nested("dd")),
        ("nested-pred", grpc("dd", "nested", "r.nope.x", "", "")),
        ("nested-msg", grpc("dd", "n", "true", "", "").replace("domain: 'n'", "domain: r.nope.x")),
        ("nested-dispatch", nested("dd")),
        ("set-map", headers("request", "[['a','b']]")),
        ("set-attr", r#"{"type":"store","predicate":"true","terminal":false,"path":"s","value":"'1'","exportToHost":true}"#.to_string()),
    ]
}
/// Deny mode: a failure anywhere in handling the reply (the on-reply actions, a nested call) refuses.
pub fn c01_on_reply() {
    let cases = reply_failures();
    let mut sets = vec![];
    for (k, c) in &cases {
        sets.push(set(k, &grpc("dd", "d", "true", "", c)));
    }
    let tr = if sym::u8("@tracing") == 1 { TRACING } else { "" };
    let f = config("deny", "deny", &sets, tr);
    let i = sym::choice("case", cases.len());
    let name = cases[i].0;
    let (h, mut p) = at(f, name);
    let t = domains(&h)[0].0;
    match name {
        "nested-dispatch" => h.with(|s| s.fail_dispatch.push("dd".into())),
        "set-map" => h.with(|s| s.fail_set_map = true),
        "set-attr" => h.with(|s| s.fail_set_attr = true),
        _ => {}
    }
    let code = sym::u8("code") as u64;
    let mut resumed = p.reply(t, 0, &pb::vi(1, code));
    if name == "nested" {
        let d = domains(&h);
        sym::check(d.len() == 2 && !resumed && p.flow == Flow::Held, "a nested guard call holds the request");
        if d.len() == 2 {
            let st = sym::u32("status");
            let code = sym::u8("code2") as u64;
            resumed = p.reply(d[1].0, st, &pb::vi(1, code));
            if resumed {
                sym::check(st == 0 && code == 1, "only a positive nested verdict lets the request through");
                sym::mark("nested ok");
                return;
            }
            sym::mark("nested refused");
        }
    }
    sym::mark(name);
    sym::check(!resumed, "deny: a failure while handling the reply does not let the request through");
    refused(&p, &h, "deny: a failure while handling the reply refuses the request");
    sym::check(is500(&h) || name == "nested" && h.replies()[0].0 == 429, "deny: a failure is answered with 500");
}

/// Failures before the call: predicate and message evaluation over client data, dispatch.
pub fn c01_before() {
    let sets = [
        set("p", &grpc("dd", "d", "int(request.headers['x-n']) < 5", "", &verdict())),
        set("m", &grpc_msg("dd", "envoy.service.ratelimit.v3.RateLimitRequest { domain: 'd', hits_addend: uint(request.headers['x-n']) }", "true", "", &verdict())),
        set("l", r#"{"service":"rl","scope":"s","predicates":["int(request.headers['x-n']) < 5"],"conditionalData":[{"data":[{"static":{"key":"k","value":"v"}}]}]}"#),
        set("c", r#"{"service":"rl","scope":"s","conditionalData":[{"predicates":["int(request.headers['x-n']) < 5"],"data":[{"static":{"key":"k","value":"v"}}]}]}"#),
        set("e", r#"{"service":"rl","scope":"s","conditionalData":[{"data":[{"expression":{"key":"k","value":"string(int(request.headers['x-n']))"}}]}]}"#),
    ];
    let tr = if sym::u8("@tracing") == 1 { TRACING } else { "" };
    let f = config("deny", "deny", &sets, tr);
    let which = sym::choice("config", sets.len());
    let h = Host::new();
    h.with(|s| s.log = false);
    h.setv("request.host", ["p", "m", "l", "c", "e"][which].as_bytes());
    // a header that may be absent, and a value of up to two characters
    let named = sym::bool("header present");
    let v = sym::over("value", sym::choice("length", 3), b"0123456789+-a");
    h.with(|s| s.req_headers = vec![((if named { "x-n" } else { "x-m" }).to_string(), v.clone())]);
    let fail = sym::bool("dispatch fails");
    if fail {
        h.with(|s| s.fail_dispatch = vec!["dd".into(), "rl".into()]);
    }
    let p = Proxy::start(f, &h);
    // independent reading of the header
    let mut digits = v.as_bytes().to_vec();
    let mut neg = false;
    let signed = digits.first() == Some(&b'-') || digits.first() == Some(&b'+');
    if signed {
        neg = digits[0] == b'-';
        digits.remove(0);
    }
    let mut n = 0i64;
    let mut valid = !digits.is_empty() && named && (which != 1 || !neg);
    for d in &digits {
        if d.is_ascii_digit() {
            n = n * 10 + (*d - b'0') as i64;
        } else {
            valid = false;
        }
    }
    if neg {
        n = -n;
    }
    let applies = !matches!(which, 0 | 2 | 3) || n < 5;
    if !valid || (applies && fail) {
        sym::mark(if valid { "dispatch failure" } else { "evaluation failure" });
        refused(&p, &h, "deny: a failure before the call refuses the request");
        sym::check(is500(&h), "deny: a failure is answered with 500");
        sym::check(h.calls().is_empty(), "no call was made");
    } else if applies {
        sym::mark("called");
        sym::check(h.calls().len() == 1 && p.flow == Flow::Held && h.n_replies() == 0, "a guard that applies is called and holds the request");
    } else {
        sym::mark("does not apply");
        sym::check(h.calls().is_empty() && p.flow == Flow::Go && h.n_replies() == 0 && p.finished(), "a guard that does not apply lets the request through");
    }
}

/// An earlier action's failure (or the state of its data) does not take a deny guard out of the path.
pub fn c01_after_failure() {
    let firsts = [
        ("s", store("v", "requestBodyJSON('/a')")),
        ("h", headers("request", "int(request.headers['x-n'])")),
        ("e", store("v", "int(request.headers['x-n'])")),
        ("f", r#"{"type":"fail","predicate":"int(request.headers['x-n']) == 7","terminal":false,"logMessage":"x"}"#.to_string()),
    ];
    let mut sets = vec![];
    for (k, a) in &firsts {
        sets.push(set(&format!("{k}t"), &format!("{a},{}", grpc("dd", "d", "true", SEQ, &verdict()))));
        sets.push(set(&format!("{k}l"), &format!("{a},{RL}")));
    }
    let tr = if sym::u8("@tracing") == 1 { TRACING } else { "" };
    let f = config("deny", "deny", &sets, tr);
    let i = sym::choice("first", firsts.len());
    let legacy = sym::bool("legacy guard");
    let h = Host::new();
    h.with(|s| s.log = false);
    h.setv("request.host", format!("{}{}", firsts[i].0, if legacy { "l" } else { "t" }).as_bytes());
    let n = sym::u8("@n") as usize;
    let v = sym::ascii("client bytes", n);
    let k = sym::choice("end of stream", 2);
    h.with(|s| s.req_headers = vec![("x-n".to_string(), v.clone())]);
    let body = if i == 0 && n > 0 { [br#"{"a":"#.to_vec(), v.clone().into_bytes(), b"}".to_vec()].concat() } else { vec![] };
    let len = body.len();
    let mut p = if len == 0 && sym::bool("no body") { Proxy::start_bodyless(f, &h) } else { Proxy::start(f, &h) };
    let called = |h: &Host| !h.calls().is_empty();
    if i == 0 && !called(&h) && h.n_replies() == 0 {
        let mid = if k == 1 { len / 2 } else { 0 };
        if k == 1 {
            // a first part, then the end
            p.request_body(&body[..mid], false);
        }
        if !called(&h) && h.n_replies() == 0 {
            p.request_body(&body[mid..], true);
        }
    }
    if called(&h) {
        sym::mark("guard consulted");
        sym::check(p.flow == Flow::Held, "the guard holds the request");
        let code = sym::u8("code");
        let t = h.calls()[0].0;
        let resumed = p.reply(t, 0, &pb::vi(1, code as u64));
        sym::check(resumed == (code == 1), "the guard's verdict decides");
    } else {
        sym::mark("guard not consulted");
        refused(&p, &h, "a deny guard after a failed action is consulted or the request is refused");
    }
}

/// A deny guard waiting for request body data: when the data never comes the request is refused.
pub fn c01_body() {
    let p1 = "requestBodyJSON('/a') == 'x'";
    let m1 = "envoy.service.ratelimit.v3.RateLimitRequest { domain: requestBodyJSON('/a') }";
    let sets = [
        set("p", &grpc("dd", "d", p1, "", &verdict())),
        set("m", &grpc_msg("dd", m1, "true", "", &verdict())),
        set("sp", &format!("{},{}", store("v", "requestBodyJSON('/a')"), grpc("dd", "d", p1, "", &verdict()))),
        set("sm", &format!("{},{}", store("v", "requestBodyJSON('/a')"), grpc_msg("dd", m1, "true", "", &verdict()))),
    ];
    let tr = if sym::u8("@tracing") == 1 { TRACING } else { "" };
    let f = config("deny", "deny", &sets, tr);
    let i = sym::choice("config", 4);
    let h = Host::new();
    h.setv("request.host", ["p", "m", "sp", "sm"][i].as_bytes());
    let n = sym::choice("key length", sym::u8("@n") as usize + 1);
    let v = sym::ascii("key", n);
    for b in v.bytes() {
        sym::assume(b >= 0x20 && b != b'"' && b != b'\\');
    }
    // {"<key>":"x"}
    let body = format!("{{\"{v}\":\"x\"}}").into_bytes();
    let len = body.len();
    let bodyless = sym::bool("no body");
    let mut p = if bodyless { Proxy::start_bodyless(f, &h) } else { Proxy::start(f, &h) };
    if !bodyless {
        let chunks = sym::choice("chunks", 3);
        // with the last data, with trailers, or apart
        let end = sym::choice("end", 3);
        for c in 0..=chunks {
            p.request_body(&body[len * c / (chunks + 1)..len * (c + 1) / (chunks + 1)], c == chunks && end == 0);
        }
        if end == 1 {
            p.request_trailers();
        } else if end == 2 && p.flow == Flow::Go {
            p.request_body(b"", true);
        } else if end == 2 && p.flow == Flow::Held && h.calls().is_empty() {
            // data held back does not hold back its end
            p.request_body(b"", true);
        }
    }
    let found = i >= 2 && v == "a" && !bodyless;
    if found {
        sym::mark("data found");
        sym::check(domains(&h).len() == 1 && p.flow == Flow::Held, "the guard is consulted once its data is there");
    } else {
        sym::mark("data missing");
        refused(&p, &h, "deny: data missing at the end of the body refuses the request");
        sym::check(is500(&h), "deny: a failure is answered with 500");
    }
}

/// Allow mode: whatever the reply, a failure never answers the request and the next action is
/// consulted as if this one had been skipped; explicit denials still deny.
pub fn c02_reply() {
    let sets = [set("ar", &format!("{AUTH},{}", RL)), set("kr", &format!("{CHECK},{}", RL)), set("tr", &format!("{},{}", grpc("da", "d", "true", "", &verdict()), RL))];
    let tr = if sym::u8("@tracing") == 1 { TRACING } else { "" };
    let f = config("allow", "allow", &sets, tr);
    let which = sym::choice("config", 3);
    let (h, mut p) = at(f, ["ar", "kr", "tr"][which]);
    sym::check(p.flow == Flow::Held && h.calls().len() == 1, "held while the first call is out");
    let first = h.calls()[0].clone();
    let st = sym::u32("status");
    let b = sym::bytes("reply", sym::u8("@n") as usize);
    let resumed = p.reply(first.0, st, &b);
    sym::check(!resumed, "not resumed while the second action is to be consulted");
    let denied = st == 0 && if first.1 == "auth" { pb::plain(&b, 0) && auth_verdict(&b) == Some(false) } else { pb::plain(&b, 1) && rl_code(&b) == Some(2) };
    let failed = st != 0 || pb::parse(&b).is_none();
    let calls = h.calls();
    if failed {
        sym::mark("failed");
        sym::check(h.n_replies() == 0 && calls.len() == 2 && p.flow == Flow::Held, "allow: a failed call is skipped and the next action is consulted");
    }
    if calls.len() < 2 {
        return;
    }
    if denied && first.1 == "auth" && pb::path(&b, &[2, 1]).is_none() {
        sym::check(false, "allow: a denial without a status still refuses");
    } else {
        sym::check(!denied, "allow: an explicit denial still refuses");
    }
    // second service: only a denial it states itself refuses
    let st2 = sym::u32("status2");
    let b2 = if sym::bool("second reply is raw") { sym::bytes("reply2", sym::u8("@m") as usize) } else { pb::vi(1, sym::u8("code2") as u64 & 0x7f) };
    let resumed = p.reply(calls[1].0, st2, &b2);
    if st2 != 0 || pb::parse(&b2).is_none() {
        sym::mark("both failed");
        sym::check(resumed && h.n_replies() == 0 && p.flow == Flow::Go, "allow: a failed call lets the request through");
    } else if rl_code(&b2) == Some(1) {
        sym::mark("let through");
        sym::check(resumed && h.n_replies() == 0, "a positive verdict lets the request through");
    } else if pb::plain(&b2, 1) {
        sym::mark("refused");
        sym::check(!resumed && h.n_replies() == 1, "a verdict other than OK refuses");
    } else {
        sym::check(resumed == (h.n_replies() == 0), "answered or resumed");
    }
}
/// Allow mode: failures before the call, or while handling its reply.
pub fn c02_elsewhere() {
    let mut cases: Vec<(&str, String)> = reply_failures().into_iter().filter(|c| c.0 != "fail").map(|(k, c)| (k, grpc("da", "d", "true", "", &c.replace("\"dd\"", "\"da\"")))).collect();
    cases.push(("p", grpc("da", "d", "int(request.headers['x-n']) < 5", "", &verdict())));
    cases.push(("m", grpc_msg("da", "envoy.service.ratelimit.v3.RateLimitRequest { domain: 'd', hits_addend: uint(request.headers['x-n']) }", "true", "", &verdict())));
    cases.push(("b", grpc("da", "d", "requestBodyJSON('/a') == 'x'", "", &verdict())));
    cases.push(("dispatch", grpc("da", "d", "true", "", &verdict())));
    cases.push(("read", grpc("da", "d", "true", "", &verdict())));
    let mut sets = vec![];
    for (k, a) in &cases {
        sets.push(set(k, &format!("{a},{}", grpc("dd", "next", "true", SEQ, &verdict()))));
    }
    let tr = if sym::u8("@tracing") == 1 { TRACING } else { "" };
    let f = config("allow", "allow", &sets, tr);
    let i = sym::choice("case", cases.len());
    let name = cases[i].0;
    let h = Host::new();
    h.setv("request.host", name.as_bytes());
    let v = sym::over("value", sym::choice("length", 3), b"059+-a");
    h.with(|s| {
        s.log = false;
        s.req_headers = vec![("x-n".to_string(), v)];
        if name == "dispatch" {
            s.fail_dispatch.push("da".into());
        }
        s.fail_grpc_read = name == "read";
    });
    let mut p = Proxy::start(f, &h);
    let first: Vec<u32> = domains(&h).iter().filter(|d| d.1 == "d").map(|d| d.0).collect();
    if name == "b" {
        p.request_body(b"{}", true);
    }
    if let Some(t) = first.first() {
        sym::check(p.flow == Flow::Held, "held while the call is out");
        match name {
            "nested-dispatch" => h.with(|s| s.fail_dispatch.push("da".into())),
            "set-map" => h.with(|s| s.fail_set_map = true),
            "set-attr" => h.with(|s| s.fail_set_attr = true),
            _ => {}
        }
        let code = if matches!(name, "p" | "m") { 1 } else { sym::u8("code") };
        let r = p.reply(*t, 0, &pb::vi(1, code as u64));
        sym::check(!r, "not resumed while the next guard is to be consulted");
        if name == "nested" {
            let d = domains(&h);
            sym::check(d.len() == 2, "the nested call is made");
            sym::check(d[1].1 == "nested", "the next guard waits for the nested call");
            let st = sym::u32("status");
            sym::assume(st != 0);
            p.reply(d[1].0, st, &[]);
        }
    }
    h.with(|s| s.fail_grpc_read = false);
    sym::mark(name);
    let d = domains(&h);
    sym::check(h.n_replies() == 0, "allow: a failure does not answer the request");
    sym::check(d.last().is_some_and(|d| d.1 == "next") && p.flow == Flow::Held, "allow: after a failure the next action is consulted");
    if let Some(t) = d.last() {
        let code = sym::u8("next code");
        let r = p.reply(t.0, 0, &pb::vi(1, code as u64));
        sym::check(r == (code == 1) && h.n_replies() == (code != 1) as usize, "the next guard decides");
    }
}

/// The modes of one action of a schedule.
#[derive(Clone, Copy)]
pub struct M {
    pub seq: bool,
    pub guard: bool,
    pub deny: bool,
    pub legacy: bool,
    /// its reply starts a second call
    pub nested: bool,
    /// it changes request headers and calls nobody
    pub local: bool,
}
pub fn modes(bits: usize) -> M {
    M { seq: bits & 1 == 1, guard: bits & 2 == 2, deny: bits & 4 == 4, legacy: bits & 8 == 8, nested: bits & 16 == 16, local: bits & 32 == 32 }
}
fn schedule_action(i: usize, m: M) -> String {
    if m.legacy {
        let svc = if m.deny { "rl" } else { "check" };
        format!(r#"{{"service":"{svc}","scope":"a{i}","conditionalData":[{{"data":[{{"static":{{"key":"k","value":"v"}}}}]}}]}}"#)
    } else if m.local {
        let extra = format!("{}{}", if m.seq { SEQ } else { "" }, if m.guard { "" } else { NOGUARD });
        format!(r#"{{"type":"headers","predicate":"true","terminal":false,"target":"request","headers":"[['a{i}', 'v']]"{extra}}}"#)
    } else {
        let extra = format!("{}{}", if m.seq { SEQ } else { "" }, if m.guard { "" } else { NOGUARD });
        let svc = if m.deny { "dd" } else { "da" };
        let mut on_reply = verdict();
        if m.nested {
            on_reply += &format!(",{}", grpc(svc, &format!("n{i}"), "true", if m.guard { "" } else { NOGUARD }, &verdict()));
        }
        grpc(svc, &format!("a{i}"), "true", &extra, &on_reply)
    }
}
/// Which schedules a run covers: `@set` selects a family, `@from`/`@to` a slice of it.
fn schedules() -> Vec<Vec<usize>> {
    let n = (sym::u8("@actions") as usize).max(1);
    let kinds: &[usize] = match sym::u8("@kinds") {
        0 => &[4 + 2, 4 + 2 + 1],                 // deny guards, parallel or sequential
        1 => &[4 + 2, 4 + 2 + 1, 4, 4 + 1],       // and the same not guarding
        2 => &[2, 2 + 1, 4 + 2, 4],               // allow guards, a deny guard, a deny non-guard
        3 => &[8 + 4 + 2, 8 + 2, 4 + 2],          // legacy deny and allow, a typed deny guard
        5 => &[16 + 4 + 2, 4 + 2 + 1, 16 + 2 + 1], // replies that start another call
        6 => &[4 + 2 + 1, 4 + 2, 8 + 4 + 2],      // typed sequential and parallel, legacy
        7 => &[4 + 2, 4],                         // parallel: a deny guard, one not guarding
        8 => &[32 + 2 + 1, 32, 4 + 2, 4 + 2 + 1], // changing headers: sequential guard, parallel; deny guards
        9 => &[32 + 2 + 1, 32 + 2, 4, 8 + 4 + 2], // changing headers: guards; a call not guarding, a legacy guard
        _ => &[0, 1, 2, 3, 4, 5, 6, 7, 8 + 2, 8 + 4 + 2],
    };
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        all = all.into_iter().flat_map(|v| kinds.iter().map(move |k| [v.clone(), vec![*k]].concat())).collect();
    }
    all
}
/// Any order of replies, any verdicts: what is called when, when the stream is held, when it goes
/// on, and that everything ends.  `@mode` 0: verdicts and orders, with the dispatch of one action
/// failing or not; the reference keeps, per action, whether it is unsent, out or over.
pub fn schedule() {
    let all = schedules();
    let mut sets = vec![];
    for (k, s) in all.iter().enumerate() {
        let a: Vec<String> = s.iter().enumerate().map(|(i, m)| schedule_action(i, modes(*m))).collect();
        sets.push(set(&format!("h{k}"), &a.join(",")));
    }
    let tr = if sym::u8("@tracing") == 1 { TRACING } else { "" };
    let f = config3("deny", "deny", "allow", &sets, tr);
    let k = sym::choice("schedule", all.len());
    let ms: Vec<M> = all[k].iter().map(|m| modes(*m)).collect();
    let n = ms.len();
    let h = Host::new();
    h.setv("request.host", format!("h{k}").as_bytes());
    let mut p = Proxy::start(f, &h);
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum S {
        Unsent,
        Out,
        Over,
    }
    let mut st = vec![S::Unsent; n];
    let mut token = vec![0u32; n];
    let mut nested = vec![false; n];
    let mut denied = false;
    let mut seen = 0;
    let mut changes = 0;
    let mut late = sym::u8("@late") as usize;
    // whether the response may start while calls are outstanding
    let early = sym::u8("@response") == 1;
    let mut answered_before = false;
    // the refusal came while the response was under way
    let mut in_response = false;
    loop {
        // what is due: nothing it has to wait for is unsent or out
        if !denied {
            for i in 0..n {
                let waits = if ms[i].legacy { i > 0 && st[i - 1] != S::Over } else { (0..i).any(|j| (ms[i].seq || (ms[j].seq && !ms[j].legacy)) && st[j] != S::Over) };
                if st[i] == S::Unsent && !waits && ms[i].local {
                    st[i] = S::Over;
                    changes += 1;
                    let c = h.events().iter().filter(|e| matches!(e, Ev::SetMap { value, .. } if value.iter().any(|x| x.0 == format!("a{i}")))).count();
                    sym::check(c >= 1, "[order] a local action is carried out as soon as what it waits for is over");
                } else if st[i] == S::Unsent && !waits {
                    st[i] = S::Out;
                    let c = calls_by_name(&h);
                    let mine: Vec<_> = c.iter().filter(|c| c.1 == format!("a{i}")).collect();
                    sym::check(mine.len() == 1, "[order] an action is called once, as soon as what it waits for is over");
                    if mine.len() != 1 {
                        return;
                    }
                    token[i] = mine[0].0;
                    seen += 1;
                }
            }
        }
        sym::check(h.events().iter().filter(|e| matches!(e, Ev::SetMap { request: true, .. })).count() == changes, "[order] no local action is carried out before what it waits for is over, twice, or after a refusal");
        sym::check(calls_by_name(&h).len() == seen, "[order] no action is called before what it waits for is over, twice, or after a refusal");
        // a guard holds the stream until it is over, also while it waits for its turn
        let guards_out = (0..n).any(|i| (st[i] == S::Out || !denied && st[i] == S::Unsent) && (ms[i].guard || ms[i].legacy));
        // what the pipeline says of itself; of the module only what it tells the proxy counts
        sym::check(cfg!(feature = "module") || p.paused() == guards_out, "[hold] the stream is held exactly while a guard is out or due");
        if !denied {
            sym::check(h.n_replies() == 0, "[final] no reply without a refusal");
            sym::check((p.flow == Flow::Held) == guards_out, "[hold] the request is held exactly while a guard is out or due");
        } else {
            sym::check(h.n_replies() == 1, "[final] one refusal, one reply");
            if in_response {
                // whether the filter lets go of a response it answered over is the proxy's matter
            } else if answered_before {
                sym::check((p.flow == Flow::Held) == guards_out, "[hold] the response is held exactly while a guard is out");
            } else {
                sym::check(p.flow == Flow::Answered, "[final] a refused request does not go on");
            }
        }
        let out: Vec<usize> = (0..n).filter(|i| st[*i] == S::Out).collect();
        if out.is_empty() {
            break;
        }
        if late > 0 {
            // a reply nobody waits for
            late -= 1;
            let r = p.reply(0x7fff_0000, 0, &pb::vi(1, 2));
            sym::check(!guards_out || !r, "[hold] an unknown reply does not resume a held request");
            sym::check(h.n_replies() == denied as usize && calls_by_name(&h).len() == seen, "[end] an unknown reply changes nothing");
            if r {
                p.flow = Flow::Go;
            }
        }
        if early && p.phase == Phase::Request && p.flow != Flow::Held && sym::bool("the response starts") {
            sym::mark("early response");
            answered_before = denied;
            p.response_headers();
            sym::check(h.n_replies() == denied as usize && calls_by_name(&h).len() == seen, "[final] the response starting changes nothing");
            sym::check((p.flow == Flow::Held) == guards_out, "[hold] the response is held exactly while a guard is out");
        }
        let i = out[sym::choice("next reply", out.len())];
        // with the response starting anywhere, the first late reply fails or is positive, the others are positive
        let (status, code) = if early && denied { if out.len() == 2 && sym::bool("late failure") { (14, 0) } else { (0, 1) } } else { (sym::u32("status"), sym::u8("code") as u64) };
        let was_held = p.flow == Flow::Held;
        let resumed = p.reply(token[i], status, &pb::vi(1, code));
        st[i] = S::Over;
        if ms[i].nested && !nested[i] && status == 0 && code == 1 && !denied {
            // the action goes on with its second call
            sym::mark("second call");
            nested[i] = true;
            st[i] = S::Out;
            seen += 1;
            let c = calls_by_name(&h);
            let mine: Vec<_> = c.iter().filter(|c| c.1 == format!("n{i}")).collect();
            sym::check(mine.len() == 1, "[order] an action is called once, as soon as what it waits for is over");
            if mine.len() != 1 {
                return;
            }
            token[i] = mine[0].0;
            sym::check(!ms[i].guard || !resumed, "[hold] the request is held exactly while a guard is out or due");
            continue;
        }
        let failed = status != 0;
        let refuses = if failed { ms[i].deny } else { code != 1 };
        if failed && !ms[i].deny && !denied {
            sym::check(h.n_replies() == 0, "[allow] the failure of an allow-mode service refuses nothing");
        }
        if failed && ms[i].deny && !denied {
            sym::check(h.n_replies() == 1, "[deny] the failure of a deny-mode service refuses the request");
        }
        if denied {
            sym::mark("late reply");
            sym::check(!resumed || answered_before || in_response, "[final] a late reply does not resume a refused request");
        } else if refuses {
            sym::mark("refusal");
            denied = true;
            in_response = p.phase == Phase::Response;
            sym::check(!resumed || in_response, "[final] a refusal does not resume the request");
            let r = h.replies();
            sym::check(r.len() == 1 && r[0].0 == if !failed && code == 2 { 429 } else { 500 }, "[final] the refusal states the verdict");
        } else if was_held && !resumed {
            sym::mark("still held");
        }
    }
    sym::mark(if denied { "refused" } else { "let through" });
    if !denied {
        sym::check(p.flow == Flow::Go, "[end] with every verdict positive the request goes on");
        sym::check(calls_by_name(&h).len() == seen && st.iter().all(|s| *s == S::Over), "[order] a request goes on only after every action was called");
    }
    // the rest of the stream
    if tr.is_empty() {
        sym::check(p.finished(), "[end] with every call answered the pipeline is over");
    }
    if p.phase == Phase::Request {
        p.response_headers();
    }
    sym::check(p.finished(), "[end] with every call answered the pipeline is over by the response");
    sym::check(p.flow == Flow::Go || in_response && p.flow == Flow::Answered, "[end] the response is not held");
    p.response_body(b"", true);
    sym::check((p.flow == Flow::Go || in_response) && h.n_replies() == denied as usize && calls_by_name(&h).len() == seen, "[final] nothing more happens");
}
/// (token, action) of each call of a schedule
fn calls_by_name(h: &Host) -> Vec<(u32, String)> {
    domains(h)
}

/// Every stream ends: once its last callback is over and no call is outstanding, the response is
/// not held, whatever data the actions were waiting for.
pub fn c06_end() {
    let deny_m = |p: &str| deny(p, "DenyResponse { status: 403u }");
    let hdr_if = |p: &str| format!(r#"{{"type":"headers","predicate":"{p}","terminal":false,"target":"response","headers":"[['a','b']]"}}"#);
    let fail_if = |p: &str| format!(r#"{{"type":"fail","predicate":"{p}","terminal":true,"logMessage":"x"}}"#);
    let store_if = |p: &str, v: &str| format!(r#"{{"type":"store","predicate":"{p}","terminal":false,"path":"v","value":"{v}"}}"#);
    let conds = ["responseBodyJSON('/a') == 'x'", "requestBodyJSON('/a') == 'x'", "request.id == 'x'", "response.code == 200"];
    let mut sets = vec![];
    let mut names = vec![];
    for (i, c) in conds.iter().enumerate() {
        let cases = [
            ("deny", deny_m(c)),
            ("headers", hdr_if(c)),
            ("fail", fail_if(c)),
            ("store", store_if(c, "1")),
            ("grpc", grpc("dd", "d", c, NOGUARD, &verdict())),
            ("allow", grpc("da", "d", c, NOGUARD, &verdict())),
            ("value", store_if("true", &c.replace(" == 'x'", ""))),
            ("hdr-value", headers("response", &format!("[['a', {}]]", c.replace(" == 'x'", "").replace("response.code == 200", "string(response.code)")))),
            ("message", grpc_msg("da", &format!("envoy.service.ratelimit.v3.RateLimitRequest {{ domain: {} }}", c.replace(" == 'x'", "").replace("response.code == 200", "string(response.code)")), "true", NOGUARD, "")),
            ("after", format!("{},{}", store_if("true", &c.replace(" == 'x'", "")), grpc("da", "d", "true", &format!("{SEQ}{NOGUARD}"), ""))),
            ("reply", grpc("da", "d", "true", NOGUARD, &hdr_if(c))),
            ("replydeny", grpc("da", "d", "true", NOGUARD, &deny_m(c))),
        ];
        for (n, a) in cases {
            sets.push(set(&format!("{n}{i}"), &a));
            names.push(format!("{n}{i}"));
        }
    }
    let tr = if sym::u8("@tracing") == 1 { TRACING } else { "" };
    let f = config("deny", "allow", &sets, tr);
    let i = sym::choice("case", sets.len());
    let h = Host::new();
    h.with(|s| s.log = false);
    h.setv("request.host", names[i].as_bytes());
    let n = sym::u8("@n") as usize;
    let body = sym::ascii("body", n);
    if sym::bool("attribute pending") {
        h.set("request.id", A::Pending);
        h.set("response.code", A::Pending);
    } else {
        h.set("response.code", A::V(200i64.to_le_bytes().to_vec()));
    }
    let bodyless = sym::bool("no request body");
    let mut p = if bodyless { Proxy::start_bodyless(f, &h) } else { Proxy::start(f, &h) };
    let answer = |p: &mut Proxy, k: usize| {
        // answer every call so far, OK
        for (t, _) in h.calls().into_iter().skip(k) {
            p.reply(t, 0, &pb::vi(1, 1));
        }
        h.calls().len()
    };
    let mut k = answer(&mut p, 0);
    if !bodyless && sym::bool("request body arrives") {
        p.request_body(body.as_bytes(), true);
        k = answer(&mut p, k);
    }
    p.response_headers();
    k = answer(&mut p, k);
    p.response_body(body.as_bytes(), true);
    answer(&mut p, k);
    sym::mark(if p.finished() { "over" } else { "not over" });
    sym::check(p.flow != Flow::Held, "[end] the response is not held once nothing is outstanding");
}
