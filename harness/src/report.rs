//! Usage reports: one for each request that went through and is to be counted, none otherwise.
use crate::flow::*;
use crate::host::*;
use crate::pb::*;
use crate::sym;

const U: &str = r#"{"expression":{"key":"ratelimit.hits_addend","value":"responseBodyJSON('/u')"}}"#;
const W: &str = r#"{"expression":{"key":"ratelimit.hits_addend","value":"responseBodyJSON('/w')"}}"#;
fn legacy(scope: &str, pred: &str, cond: &str, data: &str) -> String {
    format!(r#"{{"service":"report","scope":"{scope}","predicates":[{pred}],"conditionalData":[{{"predicates":[{cond}],"data":[{data}]}}]}}"#)
}
fn typed(domain: &str, hits: &str) -> String {
    grpc_msg("da", &format!("envoy.service.ratelimit.v3.RateLimitRequest {{ domain: '{domain}', hits_addend: uint({hits}) }}"), "request.method == 'GET'", NOGUARD, "")
}
fn reports(h: &Host) -> Vec<(u32, String, u64)> {
    h.events()
        .iter()
        .filter_map(|e| match e {
            Ev::Call { token, msg, upstream, .. } if upstream == "report" || upstream == "da" => {
                let m = parse(msg).unwrap_or_default();
                Some((*token, domain(msg), num(&m, 3).unwrap_or(0)))
            }
            _ => None,
        })
        .collect()
}
pub fn c25_report() {
    let tracing = if sym::u8("@tracing") == 1 { TRACING } else { "" };
    let sets = [
        set("auth", &format!("{AUTH},{}", legacy("r1", "", "", U))),
        set("check", &format!("{CHECK},{}", legacy("r1", "", "", U))),
        set("two", &format!("{},{}", legacy("r1", "", "", U), legacy("r2", "", "", W))),
        set("when", &legacy("r1", "\"request.method == 'GET'\"", "\"responseBodyJSON('/m') == 'a'\"", U)),
        set("typed", &format!("{AUTH},{}", typed("r1", "responseBodyJSON('/u')"))),
    ];
    let f = config("deny", "deny", &sets, tracing);
    let kind = sym::choice("actions", sets.len());
    let get = kind != 3 || sym::bool("get");
    let h = Host::new();
    h.setv("request.host", ["auth", "check", "two", "when", "typed"][kind].as_bytes());
    h.setv("request.method", if get { b"GET" } else { b"POST" });
    h.with(|s| s.log = false);
    let mut p = crate::host::Proxy::start(f, &h);
    // the request phase
    let mut refused = false;
    if matches!(kind, 0 | 1 | 4) {
        sym::check(h.calls().len() == 1 && p.flow == Flow::Held, "the verdict is asked for first");
        let (t, up) = h.calls()[0].clone();
        refused = sym::bool("refused");
        let m = match (up.as_str(), refused) {
            ("auth", false) => auth_ok(),
            ("auth", true) => ld(2, &ld(1, &vi(1, 401))),
            (_, false) => rl_ok(),
            (_, true) => vi(1, 2),
        };
        p.reply(t, 0, &m);
        sym::check(p.flow == if refused { Flow::Answered } else { Flow::Go }, "the verdict is carried out");
    }
    sym::check(reports(&h).is_empty(), "nothing is reported before the response");
    // the body
    let d = sym::over("u", 1, b"0379").to_string();
    let m = sym::over("m", 1, b"ab").to_string();
    let (body, has_u, has_w, is_a): (String, bool, bool, bool) = match sym::choice("body", 7) {
        0 => (format!("{{\"u\":{d},\"m\":\"{m}\",\"w\":4}}"), true, true, m == "a"),
        1 => (format!("{{\"u\":{d},\"m\":\"{m}\"}}"), true, false, m == "a"),
        2 => (format!("{{\"m\":\"{m}\",\"w\":4}}"), false, true, m == "a"),
        3 => (format!("{{\"u\":{d},\"w\":4"), false, false, false),
        4 => (String::new(), false, false, false),
        5 => (format!("{{\"n\":\"\u{e9}\",\"u\":{d},\"m\":\"{m}\"}}"), true, false, m == "a"),
        _ => (format!("{{\"u\":\"{m}\",\"m\":\"{m}\",\"w\":-4}}"), false, false, m == "a"),
    };
    let bytes = body.as_bytes();
    let cut = if bytes.is_empty() { 0 } else { {
        // within a character, if there is one of more than one byte
        [0, bytes.iter().position(|b| *b > 127).map_or(5, |i| i + 1), bytes.len() - 1][sym::choice("cut", 3)]
    } };
    // with the last data, apart, with trailers, or with the headers
    let end = sym::choice("end", if bytes.is_empty() { 4 } else { 3 });
    let fails = sym::bool("dispatch fails");
    if fails {
        h.with(|s| s.fail_dispatch = vec!["report".into(), "da".into()]);
    }
    let mut parts: Vec<(&[u8], bool)> = vec![(&bytes[..cut], false), (&bytes[cut..], end == 0)];
    if cut == 0 {
        parts.remove(0);
    }
    if end == 1 {
        parts.push((b"", true));
    }
    if end == 3 {
        parts.clear();
        p.response_bodyless();
    } else {
        p.response_headers();
        sym::check(reports(&h).is_empty(), "nothing is reported before the body");
    }
    for (c, end) in parts {
        sym::check(reports(&h).is_empty(), "nothing is reported before the end");
        p.response_body(c, end);
        if !end {
            sym::check(p.flow == Flow::Go || refused, "the body goes on meanwhile");
        }
    }
    if end == 2 {
        sym::check(reports(&h).is_empty(), "nothing is reported before the end");
        p.response_trailers();
    }
    let digit = (d.as_bytes()[0] - b'0') as u64;
    let mut want: Vec<(String, u64)> = vec![];
    if !refused && !fails {
        match kind {
            2 => {
                if has_u {
                    want.push(("r1".into(), digit));
                }
                if has_w {
                    want.push(("r2".into(), 4));
                }
            }
            3 => {
                if get && is_a && has_u {
                    want.push(("r1".into(), digit));
                }
            }
            _ => {
                if has_u {
                    want.push(("r1".into(), digit));
                }
            }
        }
    }
    let n = h.n_replies();
    let mut k = 0;
    let mut seen: Vec<u32> = vec![];
    loop {
        let open: Vec<u32> = reports(&h).iter().map(|r| r.0).filter(|t| !seen.contains(t)).collect();
        let Some(t) = open.first() else { break };
        sym::check(p.flow == Flow::Held, "the end of the response is held until the report is answered");
        seen.push(*t);
        let status = sym::u32(&format!("status {k}"));
        let code = sym::u8(&format!("code {k}"));
        k += 1;
        p.reply(*t, status, &[8, code]);
    }
    // a report answered twice, and one never made
    if let Some(t) = seen.first() {
        p.reply(*t, 0, &rl_ok());
    }
    p.reply(4711, 0, &rl_ok());
    let got = reports(&h);
    for r in &got {
        sym::check(want.iter().any(|w| w.0 == r.1), "only what is to be counted is reported");
    }
    for w in &want {
        let one: Vec<u64> = got.iter().filter(|r| r.1 == w.0).map(|r| r.2).collect();
        sym::check(one.len() == 1, "what is to be counted is reported once");
        sym::check(one.first() == Some(&w.1), "the hits reported are those of the response");
        sym::mark("reported");
    }
    if want.is_empty() {
        sym::mark(if refused { "refused" } else if fails { "not sent" } else { "nothing to report" });
    }
    sym::check(h.n_replies() == n, "a report changes no answer");
    sym::check(refused || (p.flow == Flow::Go && p.finished()), "the response goes on whatever the report's reply");
}
