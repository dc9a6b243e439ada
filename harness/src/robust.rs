//! Nothing a client, a service, the proxy or the configuration says makes the filter crash.
use crate::attrs::STRINGS;
use crate::flow::*;
use crate::host::*;
use crate::module::*;
use crate::pb::{self, cat, ld};
use crate::sym;
use std::sync::Arc;

const REPORT: &str = r#"{"service":"report","scope":"s-rep","conditionalData":[{"data":[{"expression":{"key":"ratelimit.hits_addend","value":"responseBodyJSON('/n')"}},{"static":{"key":"k","value":"v"}}]}]}"#;

/// Answers every call still out (two rounds of them) and ends both bodies; the request is then
/// either answered or through, and nothing is held.
fn settle(h: &Arc<Host>, p: &mut Proxy, mut answered: usize) {
    let answer = |h: &Arc<Host>, p: &mut Proxy, answered: &mut usize| {
        for _ in 0..6 {
            let calls = h.calls();
            if calls.len() <= *answered {
                break;
            }
            let (t, u) = calls[*answered].clone();
            *answered += 1;
            p.reply(t, 0, &if u == "auth" { auth_ok() } else { rl_ok() });
        }
    };
    answer(h, p, &mut answered);
    if p.flow != Flow::Answered && p.phase == Phase::Request {
        if p.flow == Flow::Go {
            p.request_body(b"", true);
            answer(h, p, &mut answered);
        }
        if p.flow == Flow::Go {
            p.response_headers();
            answer(h, p, &mut answered);
        }
    }
    if p.flow == Flow::Go && p.phase == Phase::Response {
        p.response_body(b"", true);
        answer(h, p, &mut answered);
    }
    sym::mark(if p.flow == Flow::Answered { "refused" } else { "let through" });
    sym::check(h.n_replies() == (p.flow == Flow::Answered) as usize, "an answered request has one answer");
    sym::check(p.flow != Flow::Held, "nothing is held once everything is in");
}

/// Every reply a service can send, whole or below a valid beginning.
pub fn c30_reply() {
    let n = sym::u8("@n") as usize;
    let seen = store("a.b", "r.overall_code > 1 ? r.statuses.map(s, s.code) : r.response_headers_to_add.map(h, h.value)");
    let later = headers("request", "auth.x == 1 ? [['a', string(auth.y)]] : [['b', 'c']]");
    let sets = [
        set("auth", &format!("{AUTH},{later}")),
        set("rl", RL),
        set("dd", &grpc("dd", "d", "true", "", &format!("{},{seen}", verdict()))),
        set("report", REPORT),
    ];
    let mode = if sym::bool("allow mode") { "allow" } else { "deny" };
    let f = config(mode, mode, &sets, "");
    let svc = sym::choice("service", 4);
    let h = Host::new();
    h.setv("request.host", ["auth", "rl", "dd", "report"][svc].as_bytes());
    h.with(|s| s.log = false);
    let mut p = Proxy::start(f, &h);
    if svc == 3 {
        p.request_body(b"", true);
        p.response_headers();
        p.response_body(b"{\"n\":3}", true);
    }
    sym::check(h.calls().len() == 1, "one call");
    let k = if svc == 0 { 6 } else { 5 };
    let place = sym::choice("place", k);
    let b = sym::bytes("bytes", sym::choice("length", n + 1));
    let header = |b: &[u8]| ld(1, &ld(1, b));
    let msg = match (svc, place) {
        (_, 0) => b,
        (0, 1) => ld(3, &b),
        (0, 2) => ld(3, &ld(2, &header(&b))),
        (0, 3) => ld(2, &b),
        (0, 4) => ld(2, &cat(&[ld(1, &b), ld(2, &header(&b))])),
        (0, _) => cat(&[ld(3, &[]), ld(4, &ld(1, &cat(&[ld(1, b"x"), ld(2, &b)])))]),
        (_, 1) => cat(&[rl_ok(), ld(3, &b)]),
        (_, 2) => cat(&[pb::vi(1, 2), ld(3, &b)]),
        (_, 3) => cat(&[rl_ok(), ld(2, &b)]),
        (_, _) => cat(&[rl_ok(), b]),
    };
    let t = h.calls()[0].0;
    p.reply(t, 0, &msg);
    settle(&h, &mut p, 1);
}

/// Every value of an attribute, header or body.
pub fn c30_input() {
    let n = sym::u8("@n") as usize;
    let uses: Vec<String> = STRINGS.iter().chain(&["request.size", "source.port", "destination.port", "connection.id", "connection.mtls", "request.time", "request.raw_body", "filter_state.x", "response.code", "request.headers.x"])
        .map(|a| store("v.w", a))
        .collect();
    let all = format!("{AUTH},{RL},{},{REPORT},{}", headers("response", "[['a', string(responseBodyJSON('/n'))]]"), deny("request.headers['x-a'] == 'no' || request.query == 'a'", "DenyResponse { status: 403u, headers: [['a', request.headers['x-a']]], body: request.path }"));
    let body = format!("{},{}", store("b.c", "requestBodyJSON('/n')"), grpc_msg("dd", "envoy.service.ratelimit.v3.RateLimitRequest { domain: string(b.c) }", "true", "", &verdict()));
    let sets = [set("uses", &uses.join(",")), set("all", &all), set("body", &body), set("*.local", &all)];
    let mode = if sym::u8("@allow") == 1 { "allow" } else { "deny" };
    let f = config(mode, mode, &sets, if sym::u8("@tracing") == 1 { TRACING } else { "" });
    let h = Host::new();
    h.with(|s| s.log = false);
    h.setv("request.host", b"all");
    let kind = sym::choice("kind", 5);
    let len = sym::choice("length", n + 1);
    let mut body: Vec<u8> = vec![];
    let mut resp: Vec<u8> = b"{\"n\":3}".to_vec();
    match kind {
        0 => {
            // an attribute: any bytes of any length
            let names = ["request.host", "request.time", "source.port", "source.address", "request.path", "request.url_path", "request.query", "request.method", "connection.mtls", "request.size"];
            let i = sym::choice("attribute", names.len());
            // numbers and times have 8 bytes
            let odd = if [1, 2, 8, 9].contains(&i) { sym::choice("odd length", 3) } else { 0 };
            let v = match odd {
                0 => sym::bytes("value", len),
                1 if i == 1 => {
                    let mut t = [0i64, -1, 1_700_000_000_000_000_005, i64::MIN][sym::choice("base", 4)].to_le_bytes();
                    t[sym::choice("byte", 8)] = sym::u8("value");
                    t.to_vec()
                }
                1 => sym::bytes("value", 8),
                _ => [b"0123456".to_vec(), sym::bytes("value", len)].concat(),
            };
            if i > 0 && (odd > 0 || sym::bool("only used")) {
                h.setv("request.host", b"uses");
            }
            h.setv(names[i], &v);
        }
        1 => {
            // a header
            let names = ["traceparent", "tracestate", "baggage", "x-request-id", "content-type", "x-a", ":path"];
            let i = sym::choice("header", names.len());
            let before = ["", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b716920333", "a=1;p="][if i == 0 || i == 2 { sym::choice("begins", 3) } else { 0 }];
            // the library that reads baggage looks at each character on its own
            let v = format!("{before}{}", if i == 2 { sym::over("value", len, b"a=;%2,\"\\ \0") } else { sym::ascii("value", len) });
            h.with(|s| s.req_headers.push((names[i].to_string(), v)));
        }
        2 => {
            // a request body
            h.setv("request.host", b"body");
            let before: &[u8] = [&b""[..], b"{\"n\":", b"{\"n\":\"", b"{\"n\":\"\\u", b"{\"n\":1"][sym::choice("begins", 5)];
            let b = sym::bytes("body", len);
            for c in &b {
                // how floating point numbers are written is not looked at
                sym::assume(*c != b'e' && *c != b'E');
            }
            body = [before, &b, if sym::bool("closed") { b"\"}" } else { b"" }].concat();
        }
        3 => {
            // a response
            let ct = ["application/json", "text/event-stream"][sym::choice("content type", 2)];
            h.with(|s| s.resp_headers = Some(vec![(":status".to_string(), "200".to_string()), ("content-type".to_string(), ct.to_string())]));
            let before: &[u8] = [&b""[..], b"{\"n\":", b"data: {\"n\":1}\n\ndata:"][sym::choice("begins", 3)];
            resp = [before, &sym::bytes("body", len)].concat();
        }
        _ => {
            // names of headers
            let v = sym::over("value", len, b"aA:- \0\x7f");
            h.with(|s| {
                s.req_headers.push((v.clone(), "x".to_string()));
                s.resp_headers = Some(vec![(v, "y".to_string())]);
            });
        }
    }
    if kind == 3 {
        // the response's headers are there from its first callback on
        let r = h.with(|s| s.resp_headers.take());
        let mut p = Proxy::start(f, &h);
        let mut k = 0;
        while h.calls().len() > k {
            let (t, u) = h.calls()[k].clone();
            k += 1;
            p.reply(t, 0, &if u == "auth" { auth_ok() } else { rl_ok() });
        }
        p.request_body(b"", true);
        h.with(|s| s.resp_headers = r);
        if p.flow == Flow::Go {
            p.response_headers();
            p.response_body(&resp, false);
        }
        settle(&h, &mut p, k);
        return;
    }
    let r = h.with(|s| s.resp_headers.take());
    let mut p = Proxy::start(f, &h);
    if p.flow == Flow::Go && !body.is_empty() {
        p.request_body(&body, false);
    }
    if let Some(r) = r {
        h.with(|s| s.resp_headers = Some(r));
    }
    settle(&h, &mut p, 0);
}

/// Every order of callbacks, whether or not the stream was to be held: a response another filter
/// makes, replies to nobody, data after the end.
pub fn c30_order() {
    let n = sym::u8("@n") as usize;
    let sets = [
        set("example.com", &format!("{AUTH},{},{REPORT},{}", grpc("dd", "d", "requestBodyJSON('/a') == 1", "", &verdict()), headers("response", "[['a', 'b']]"))),
    ];
    let root = Root::new();
    sym::check(root.configure(&format!("{{{},\"actionSets\":[{}]}}", services("deny", "deny", "deny"), sets.join(","))), "the configuration is accepted");
    let h = Host::new();
    h.with(|s| s.log = false);
    let mut c = root.stream(&h);
    h.with(|s| {
        s.resp_headers = Some(vec![(":status".to_string(), "200".to_string())]);
        s.req_body = b"{\"a\":1}".to_vec();
        s.resp_body = b"{\"n\":1}".to_vec();
    });
    let mut begun = [false; 2];
    for _ in 0..n {
        let what = sym::choice("what", 8);
        // the headers of a request or response come once, and first
        if what < 6 {
            sym::assume(begun[what / 3] == (what % 3 != 0));
            begun[what / 3] = true;
        }
        let end = matches!(what, 0 | 1 | 3 | 4) && sym::bool("end");
        during(&h, || match what {
            0 => {
                c.on_http_request_headers(1, end);
            }
            1 => {
                c.on_http_request_body(7, end);
            }
            2 => {
                c.on_http_request_trailers(1);
            }
            3 => {
                c.on_http_response_headers(1, end);
            }
            4 => {
                c.on_http_response_body(7, end);
            }
            5 => {
                c.on_http_response_trailers(1);
            }
            6 => {
                // to the last call, or to none
                let t = h.calls().last().map(|c| c.0).unwrap_or(9);
                let msg = if h.calls().last().is_some_and(|c| c.1 == "auth") { auth_ok() } else { rl_ok() };
                h.with(|s| s.grpc = msg.clone());
                c.on_grpc_call_response(t, 0, msg.len());
            }
            _ => {
                h.with(|s| s.grpc = vec![]);
                c.on_grpc_call_response(77, 14, 0);
            }
        });
        sym::check(h.n_replies() <= 1, "one answer at most");
    }
    during(&h, || {
        c.on_done();
        c.on_log();
        drop(c);
    });
    sym::mark("survived");
}

/// Every configuration: a valid one with a character put in or one replaced.
pub fn c30_config() {
    let base = format!(
        r#"{{"requestData":{{"a.b":"request.method"}},{},"actionSets":[{},{{"name":"p","routeRuleConditions":{{"hostnames":["*.a"],"predicates":["1 == 1"]}},"actions":[{RL},{},{}]}}],"observability":{{"httpHeaderIdentifier":"x","defaultLevel":"INFO"}}}}"#,
        services("deny", "allow", "deny"),
        set("example.com", AUTH),
        grpc("dd", "d", "true", "", &deny("r.overall_code == 2", "DenyResponse { status: 429u }")),
        headers("response", "[['a', 'b']]"),
    );
    let every = sym::u8("@every") as usize;
    let places = base.len() / every + 1;
    let i = sym::choice("hundreds", places / 100 + 1) * 100 + sym::choice("units", 100);
    sym::assume(i < places);
    let i = (i * every).min(base.len());
    let replaced = sym::bool("replaced") && i < base.len();
    let alphabet: &[u8] = if sym::u8("@few") == 1 { b"\"{}[],:'\\0.*a" } else { b" !\"#$%&'()*+,-./019:;<=>?@AZ[\\]^_`az{|}~\n\0" };
    let c = sym::over("character", 1, alphabet);
    let json = format!("{}{c}{}", &base[..i], &base[i + replaced as usize..]);
    let root = Root::new();
    if !root.configure(&json) {
        sym::mark("rejected");
        return;
    }
    sym::mark("accepted");
    let h = Host::new();
    h.with(|s| s.log = false);
    h.setv("request.host", if sym::bool("wildcard") { b"x.a" } else { b"example.com" });
    let mut p = Proxy::of(&root, &h);
    p.headers();
    settle(&h, &mut p, 0);
}
