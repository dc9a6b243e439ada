//! What expressions see of the request, and what identifies it.
use crate::flow::*;
use crate::host::*;
use crate::pb;
use crate::sym;
use kuadrant_filter::kuadrant::PipelineFactory;

pub const STRINGS: [&str; 31] = [
    "request.id", "request.protocol", "request.scheme", "request.method", "request.path", "request.url_path", "request.query",
    "request.referer", "request.useragent", "request.body", "source.address", "source.service", "source.principal",
    "source.certificate", "destination.address", "destination.service", "destination.principal", "destination.certificate",
    "connection.requested_server_name", "connection.tls_session.sni", "connection.tls_version",
    "connection.subject_local_certificate", "connection.subject_peer_certificate", "connection.dns_san_local_certificate",
    "connection.dns_san_peer_certificate", "connection.uri_san_local_certificate", "connection.uri_san_peer_certificate",
    "connection.sha256_peer_certificate_digest", "source.remote_address", "metadata.x", "request.host",
];
const INTS: [&str; 4] = ["request.size", "source.port", "destination.port", "connection.id"];
fn call(msg: &str) -> String {
    grpc_msg("dd", &format!("envoy.service.ratelimit.v3.RateLimitRequest {{ {msg} }}"), "true", "", &verdict())
}
fn failed(h: &Host, p: &Proxy) -> bool {
    h.calls().is_empty() && h.n_replies() == 1 && h.replies()[0].0 == 500 && p.flow == Flow::Answered
}
/// The address in `address:port`, an IPv6 address being in brackets.
fn address(s: &[u8]) -> Vec<u8> {
    if s.first() == Some(&b'[') {
        if let Some(e) = s.iter().position(|c| *c == b']') {
            return s[1..e].to_vec();
        }
    }
    let colons = s.iter().filter(|c| **c == b':').count();
    match s.iter().position(|c| *c == b':') {
        Some(e) if colons == 1 => s[..e].to_vec(),
        _ => s.to_vec(),
    }
}

/// Expressions see the proxy's attributes as they are.
pub fn c19_attributes() {
    let mut s: Vec<String> = STRINGS.iter().enumerate().map(|(i, a)| set(&format!("s{i}"), &call(&format!("domain: {a}")))).collect();
    for (i, a) in INTS.iter().enumerate() {
        let n = if *a == "connection.id" { "1u" } else { "1" };
        s.push(set(&format!("i{i}"), &call(&format!("domain: 'd', hits_addend: {a} > {n} ? uint({a}) : 1u"))));
    }
    s.push(set("b0", &call("domain: connection.mtls ? 'yes' : 'no'")));
    s.push(set("b1", &call("domain: request.raw_body == b'ab' ? 'yes' : 'no'")));
    s.push(set("b2", &call("domain: request.time > timestamp('2001-09-09T01:46:40Z') ? 'yes' : 'no'")));
    s.push(set("b3", &call("domain: request.time.getFullYear() == 2024 ? 'yes' : 'no'")));
    let f = config("deny", "deny", &s, "");
    let n = sym::u8("@n") as usize;
    let h = Host::new();
    h.with(|s| s.log = false);
    let kind = sym::choice("kind", 3);
    let (host, attr) = match kind {
        0 => {
            let i = sym::choice("attribute", STRINGS.len());
            (format!("s{i}"), STRINGS[i])
        }
        1 => {
            let i = sym::choice("attribute", INTS.len());
            (format!("i{i}"), INTS[i])
        }
        _ => {
            let i = sym::choice("attribute", 4);
            (format!("b{i}"), ["connection.mtls", "request.raw_body", "request.time", "request.time"][i])
        }
    };
    if attr == "request.host" {
        // routing reads it first
        h.setv("request.host", b"s30");
        let p = Proxy::start(f, &h);
        sym::check(p.flow == Flow::Held && domains(&h).iter().map(|d| d.1.as_str()).eq(["s30"]), "expressions see the host");
        return;
    }
    h.setv("request.host", host.as_bytes());
    let host_attr = if attr == "source.remote_address" { "source.address" } else { attr };
    let how = sym::choice("state", 4);
    let (value, len) = match kind {
        0 => {
            let l = sym::choice("length", n + 1);
            (sym::bytes("value", l), l)
        }
        1 => {
            let l = [8, 7, 9, 0][sym::choice("length", 4)];
            (sym::bytes("value", l), l)
        }
        _ => {
            let l = match host.as_str() {
                "b0" => [1, 0, 2][sym::choice("length", 3)],
                "b1" => [2, 0, 3][sym::choice("length", 3)],
                _ => 8,
            };
            if host == "b2" {
                // around the instant compared with: any instant is out of the solver's reach
                let at = [0i64, 1_000_000_000 * 1_000_000_000 - 100, -100][sym::choice("instant", 3)];
                ((at + sym::u8("value") as i64).to_le_bytes().to_vec(), 8)
            } else {
                (sym::bytes("value", l), l)
            }
        }
    };
    if host == "b3" {
        // whole days of 2023, 2024 and 2025: a symbolic date is out of reach
        let day = sym::choice("day", 4);
        let at = [1703980799i64, 1703980800 + 86400, 1735689599, 1735689600][day] * 1_000_000_000;
        h.setv(attr, &at.to_le_bytes());
        let p = Proxy::start(f, &h);
        sym::check(p.flow == Flow::Held && domains(&h).iter().map(|d| d.1.as_str()).eq([["no", "yes", "yes", "no"][day]]), "expressions see the attribute as it is");
        return;
    }
    h.set(host_attr, match how {
        0 | 1 => A::V(value.clone()),
        2 => A::None,
        _ => A::Err,
    });
    if how == 1 {
        h.set(host_attr, A::Pending);
    }
    let mut p = Proxy::start(f, &h);
    if how == 1 {
        sym::mark("later");
        sym::check(h.calls().is_empty() && h.n_replies() == 0, "an expression waits for an attribute that is not there yet");
        h.set(host_attr, A::V(value.clone()));
        p.request_body(b"", true);
    }
    if how == 3 {
        sym::mark("unreadable");
        sym::check(failed(&h, &p), "an attribute that cannot be read is a failure");
        return;
    }
    let want: Option<Result<String, u64>> = match kind {
        0 => match std::str::from_utf8(&value) {
            _ if how == 2 => None,
            Err(_) => None,
            Ok(_) if attr == "source.remote_address" => String::from_utf8(address(&value)).ok().map(Ok),
            Ok(t) if attr == "metadata.x" => {
                // a property of no known type: JSON if it is that, otherwise the text itself
                match serde_json::from_str::<serde_json::Value>(t) {
                    Ok(serde_json::Value::String(s)) => Some(Ok(s)),
                    Ok(_) => None,
                    Err(_) => Some(Ok(t.to_string())),
                }
            }
            Ok(t) => Some(Ok(t.to_string())),
        },
        1 => {
            if len != 8 || how == 2 {
                None
            } else {
                let v: [u8; 8] = std::array::from_fn(|i| value[i]);
                let v = u64::from_le_bytes(v);
                let small = if attr == "connection.id" { v <= 1 } else { v as i64 <= 1 };
                if small {
                    Some(Err(1))
                } else if v > u32::MAX as u64 {
                    None
                } else {
                    Some(Err(v))
                }
            }
        }
        _ => {
            let ok = match host.as_str() {
                "b0" if how != 2 && len == 1 => {
                    // the proxy writes 0 or 1
                    sym::assume(value[0] < 2);
                    Some(value[0] == 1)
                }
                "b0" => None,
                "b1" => Some(how != 2 && value == b"ab"),
                _ if how == 2 => None,
                _ => {
                    let v: [u8; 8] = std::array::from_fn(|i| value[i]);
                    Some(i64::from_le_bytes(v) > 1_000_000_000 * 1_000_000_000)
                }
            };
            ok.map(|b| Ok(if b { "yes" } else { "no" }.to_string()))
        }
    };
    match want {
        None => {
            sym::mark("no value");
            sym::check(failed(&h, &p), "a value that is missing or of another type is a failure");
        }
        Some(w) => {
            sym::mark("seen");
            let c = h.events().into_iter().find_map(|e| if let Ev::Call { msg, .. } = e { Some(msg) } else { None });
            let m = c.as_ref().and_then(|m| pb::parse(m)).unwrap_or_default();
            let same = match w {
                Ok(t) => pb::sub(&m, 1).unwrap_or_default() == t.as_bytes(),
                Err(v) => pb::num(&m, 3) == Some(v),
            };
            sym::check(c.is_some() && h.n_replies() == 0 && p.flow == Flow::Held, "the guard is consulted");
            sym::check(same, "expressions see the attribute as it is");
        }
    }
}

/// request.headers and request.grpc
pub fn c19_headers() {
    let f = config(
        "deny",
        "deny",
        &[
            set("h", &call("domain: request.headers['x-a']")),
            set("in", &call("domain: 'x-a' in request.headers ? 'yes' : 'no'")),
            set("g", &call("domain: request.grpc.service + '|' + request.grpc.method")),
            set("has", &call("domain: has(request.grpc) ? 'yes' : 'no'")),
            set("gh", &call("domain: request.method + '|' + request.grpc.method")),
        ],
        "",
    );
    let n = sym::u8("@n") as usize;
    let which = sym::choice("expression", 5);
    let h = Host::new();
    h.setv("request.host", ["h", "in", "g", "has", "gh"][which].as_bytes());
    if which < 2 {
        let hs: Vec<(String, String)> = (0..sym::choice("headers", 4))
            .map(|i| (format!("x-{}", sym::over(&format!("name {i}"), 1, b"ab-")), sym::ascii(&format!("value {i}"), sym::choice(&format!("length {i}"), n + 1))))
            .collect();
        h.with(|s| s.req_headers.extend(hs.clone()));
        let p = Proxy::start(f, &h);
        let a: Vec<&str> = hs.iter().filter(|x| x.0 == "x-a").map(|x| x.1.as_str()).collect();
        let d = domains(&h);
        if which == 1 {
            sym::check(d.len() == 1 && d[0].1 == if a.is_empty() { "no" } else { "yes" }, "expressions see which headers there are");
        } else if a.is_empty() {
            sym::mark("no value");
            sym::check(failed(&h, &p), "a header that is not there is a failure");
        } else {
            sym::mark("seen");
            sym::check(d.len() == 1 && d[0].1 == a.join(","), "expressions see a header's value, values of the same name joined with ','");
        }
        return;
    }
    let ct = sym::choice("content type", 6);
    if let Some(t) = [None, Some("application/grpc"), Some("application/grpc+proto"), Some("application/json"), Some("application/grp"), Some("text/application/grpc")][ct] {
        h.with(|s| s.req_headers.push(("content-type".into(), t.into())));
    }
    h.setv("request.method", b"POST");
    let path = sym::over("path", sym::choice("path length", n + 3), b"/ab.");
    h.setv("request.url_path", path.as_bytes());
    let p = Proxy::start(f, &h);
    let parts: Vec<&str> = path.split('/').collect();
    let want = if (ct == 1 || ct == 2) && parts.len() == 3 && parts[0].is_empty() && !parts[1].is_empty() && !parts[2].is_empty() { Some((parts[1], parts[2])) } else { None };
    let d = domains(&h);
    sym::mark(if want.is_some() { "grpc" } else { "not grpc" });
    match (which, want) {
        (3, w) => sym::check(d.len() == 1 && d[0].1 == if w.is_some() { "yes" } else { "no" }, "request.grpc is there iff the request is a gRPC call"),
        (2, Some((s, m))) => sym::check(d.len() == 1 && d[0].1 == format!("{s}|{m}"), "request.grpc is the called service and method"),
        (_, Some((_, m))) => sym::check(d.len() == 1 && d[0].1 == format!("POST|{m}"), "request.grpc stands beside the other attributes"),
        _ => sym::check(failed(&h, &p), "request.grpc of a request that is none is a failure"),
    }
}

/// One id identifies the request in every call made for it, and towards the client.
pub fn c20_request_id() {
    let all = [AUTH, RL, CHECK, &grpc("dd", "d", "true", "", &format!("{},{}", verdict(), grpc("da", "n", "true", "", "")))].join(",");
    let sets = [set("all", &all), set("none", "")];
    let devs = ["", "x-dev", "X-\\\"Q'"];
    let fs: Vec<&'static PipelineFactory> = devs
        .iter()
        .map(|d| {
            let extra = if d.is_empty() { String::new() } else { format!(r#","observability":{{"httpHeaderIdentifier":"{d}","tracing":{{"service":"trace"}}}}"#) };
            config("deny", "deny", &sets, &extra)
        })
        .collect();
    let dev = sym::choice("tracking header", 3);
    let var = ["", "x-dev", "X-\"Q'"][dev];
    let h = Host::new();
    let none = dev > 0 && sym::bool("no actions");
    h.setv("request.host", if none { b"none" } else { b"all" });
    let n = sym::u8("@n") as usize;
    let id = if sym::bool("id given") {
        // what a header value can hold
        let id = sym::ascii("id", n);
        for b in id.bytes() {
            sym::assume(b >= 0x20 && b < 0x7f || b == 9);
        }
        let name = ["x-request-id", "X-Request-Id"][sym::choice("name", 2)];
        let mut hs = vec![(name.to_string(), id.clone())];
        if sym::bool("another") {
            hs.push(("x-request-id".to_string(), "second".to_string()));
        }
        h.with(|s| s.req_headers = hs);
        Some(id)
    } else {
        h.with(|s| {
            s.req_headers = vec![("x-request".to_string(), "no".to_string())];
            // a generated id differs from run to run
            s.log = false;
        });
        None
    };
    let mut p = Proxy::start(fs[dev], &h);
    let mut denied = false;
    let end = if none { 4 } else { sym::choice("refused by", 5) };
    if !none {
        for (i, (up, ok, no)) in [("auth", auth_ok(), pb::ld(2, &pb::ld(1, &pb::vi(1, 401)))), ("rl", rl_ok(), pb::vi(1, 2)), ("check", rl_ok(), pb::vi(1, 2)), ("dd", rl_ok(), pb::vi(1, 2))].into_iter().enumerate() {
            let Some(t) = h.token_of(up) else {
                sym::check(false, "every service is called");
                return;
            };
            denied = i == end;
            p.reply(t, 0, if denied { &no } else { &ok });
            if denied {
                break;
            }
        }
    }
    let mut seen = id.clone();
    let mut n = 0;
    for e in h.events() {
        if let Ev::Call { headers, service, .. } = &e {
            if service.contains("opentelemetry") {
                continue;
            }
            n += 1;
            let ids: Vec<&(String, Vec<u8>)> = headers.iter().filter(|h| h.0.eq_ignore_ascii_case("x-request-id")).collect();
            sym::check(ids.len() == 1, "every call has one request id");
            if ids.len() != 1 {
                return;
            }
            let got = String::from_utf8_lossy(&ids[0].1).into_owned();
            match &seen {
                Some(w) => sym::check(got == *w, if id.is_some() { "every call has the client's request id" } else { "every call has the same request id" }),
                None => {
                    sym::check(got.len() == 36, "a request without an id is given one");
                    seen = Some(got);
                }
            }
        }
    }
    sym::check(none || n == if denied { [2, 3, 4, 4][end] } else { 5 }, "every service is called");
    if denied {
        sym::mark("refused");
        let r = h.replies();
        sym::check(r.len() == 1, "refused once");
        let tracked: Vec<&str> = r.iter().flat_map(|r| &r.1).filter(|x| x.0 == var).map(|x| x.1.as_str()).collect();
        if dev > 0 {
            sym::check(tracked.len() == 1 && Some(tracked[0]) == seen.as_deref(), "a refusal is tracked by the request's id");
        } else {
            sym::check(!r.iter().flat_map(|r| &r.1).any(|x| Some(x.1.as_str()) == seen.as_deref() && !x.1.is_empty()), "the id is only told when it is asked for");
        }
        return;
    }
    if !none {
        let t = h.events().iter().find_map(|e| match e {
            Ev::Call { token, upstream, .. } if upstream == "da" => Some(*token),
            _ => None,
        });
        p.reply(t.unwrap_or(99), 0, &rl_ok());
    }
    sym::mark("let through");
    sym::check(p.flow == Flow::Go && h.n_replies() == 0, "let through");
    h.with(|s| s.resp_headers = Some(vec![(":status".to_string(), "200".to_string())]));
    p.response_headers();
    let resp = h.with(|s| s.resp_headers.clone().unwrap_or_default());
    let mut want = vec![(":status".to_string(), "200".to_string())];
    if dev > 0 {
        let got = resp.last().map(|x| x.1.clone()).unwrap_or_default();
        want.push((var.to_string(), seen.unwrap_or_else(|| if got.len() == 36 { got } else { String::new() })));
    }
    sym::check(resp == want, "the response is tracked by the request's id, and otherwise unchanged");
}
