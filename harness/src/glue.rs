//! The module's own callbacks: what it counts, how it takes a configuration, how it asks for
//! descriptors.
use crate::conv::{answer, file, fld, msg};
use crate::flow::*;
use crate::host::*;
use crate::module::*;
use crate::pb::{self, cat, ld};
use crate::sym;
use std::sync::Arc;

// ---- counters
fn count(h: &Host) -> [i64; 5] {
    ["hits", "misses", "allowed", "denied", "errors"].map(|n| h.counted(&format!("kuadrant.{n}")))
}
pub fn c26_metrics() {
    let allow = sym::bool("allow mode");
    let mode = if allow { "allow" } else { "deny" };
    let sets = [
        set("legacy", &format!("{AUTH},{RL}")),
        set("typed", &format!("{},{}", grpc(if allow { "da" } else { "dd" }, "d", "true", "", &verdict()), deny("request.method == 'GET'", "DenyResponse { status: 403u, headers: [], body: '' }"))),
        r#"{"name":"p","routeRuleConditions":{"hostnames":["p"],"predicates":["request.url_path == '/a'"]},"actions":[{"service":"rl","scope":"s","conditionalData":[{"data":[{"static":{"key":"k","value":"v"}}]}]}]}"#.to_string(),
    ];
    let tracing = sym::u8("@tracing") == 1;
    let json = format!("{{{},\"actionSets\":[{}]{}}}", services(mode, mode, mode), sets.join(","), if tracing { TRACING } else { "" });
    let root = Root::new();
    let json = json.replace("\"actionSets\":[", &format!("\"actionSets\":[{},", set("local", &format!("{},{}", deny("request.method == 'GET'", "DenyResponse { status: 403u, headers: [], body: '' }"), headers("request", "[['a', 'b']]")))));
    // a configuration that is not one is not loaded; whether it counts is not said
    sym::check(root.configure(&json), "the configuration is accepted");
    sym::check(root.host.counted("kuadrant.configs") == 1, "a configuration is counted as it is loaded");
    sym::check(root.configure(&json) && root.host.counted("kuadrant.configs") == 2, "a configuration is counted as it is loaded");
    sym::check(count(root.host) == [0; 5], "no request, nothing counted");
    let h = Host::new();
    h.with(|s| s.log = false);
    let kind = sym::choice("request", 7);
    match kind {
        3 => h.setv("request.host", b"other"),
        4 => h.set("request.host", A::Err),
        5 => {
            h.setv("request.host", b"p");
            h.set("request.url_path", A::Err);
        }
        6 => h.setv("request.host", b"local"),
        k => h.setv("request.host", ["legacy", "typed", "p"][k].as_bytes()),
    }
    let get = (kind == 1 || kind == 6) && sym::bool("get");
    h.setv("request.method", if get { b"GET" } else { b"POST" });
    let path = if kind == 2 { sym::over("path", 1, b"ab").to_string() } else { "a".to_string() };
    if kind != 5 {
        h.setv("request.url_path", format!("/{path}").as_bytes());
    }
    let mut p = Proxy::of(&root, &h);
    sym::check(count(&h) == [0; 5], "no request, nothing counted");
    p.headers();
    let hit = kind < 2 || kind == 6 || kind == 2 && path == "a";
    let broken = kind == 4 || kind == 5;
    if tracing && kind == 2 && !hit {
        // with a tracking header every request of a known host has something to be done
        sym::mark("only tracked");
    } else {
        sym::check(h.counted("kuadrant.hits") == hit as i64, "a request an action set applies to is a hit");
        sym::check(h.counted("kuadrant.misses") == (!hit && !broken) as i64, "a request no action set applies to is a miss");
    }
    let (mut denied, mut errors) = (broken, broken as i64);
    let mut k = 0;
    if get {
        // the denial does not wait for the call's reply
        denied = true;
    }
    while hit && k < h.calls().len() && !denied {
        let (t, up) = h.calls()[k].clone();
        let status = sym::u32(&format!("status {k}"));
        k += 1;
        let code = sym::u8("code");
        sym::assume(code < 128);
        let (m, ok, refused) = if up == "auth" {
            match code {
                0 => (auth_ok(), true, false),
                1 => (ld(2, &ld(1, &pb::vi(1, 401))), false, true),
                _ => (vec![], false, false),
            }
        } else {
            (vec![8, code], code == 1, code == 2)
        };
        if sym::bool("undecodable") {
            p.reply(t, status, &[0x0a]);
            errors += 1;
            denied = !allow;
            continue;
        }
        p.reply(t, status, &m);
        if status == 0 && ok {
            continue;
        }
        if status == 0 && refused {
            denied = true;
        } else {
            errors += 1;
            // a reply that says neither refuses whatever the mode of the service
            denied = !allow || status == 0;
        }
    }
    let on_request = denied;
    sym::check(h.n_replies() == on_request as usize, "refused or not");
    sym::check(h.counted("kuadrant.allowed") == 0, "a request is not counted as allowed before it is");
    // calls still out when the request was refused
    for (t, up) in h.calls().into_iter().skip(k) {
        if up != "trace" && sym::bool("late reply") {
            p.reply(t, 0, &rl_ok());
        }
    }
    if sym::bool("response") {
        p.response_headers();
        p.response_body(b"x", true);
        sym::check(h.counted("kuadrant.allowed") == !denied as i64, "a request that was not refused is counted as allowed, once");
        sym::mark(if denied { "denied" } else { "allowed" });
    }
    if !broken {
        sym::check(h.counted("kuadrant.denied") == denied as i64, "a refused request is counted as denied, once");
    }
    sym::check(h.counted("kuadrant.errors") == errors, "every failure is counted as an error, once");
    if errors > 0 {
        sym::mark("errors");
    }
}

// ---- configuration
/// One plugin configuration: everything that can be wrong with it or matters is a parameter.
struct C {
    up: &'static str,
    timeout: String,
    mode: String,
    service: String,
    method: Option<&'static str>,
    kind: String,
    predicate: &'static str,
    route: &'static str,
    message: &'static str,
    reply: &'static str,
    deny: &'static str,
    data: &'static str,
    target: &'static str,
}
impl C {
    fn new(up: &'static str) -> C {
        C {
            up,
            timeout: "1s".into(),
            mode: "deny".into(),
            service: "auth".into(),
            method: Some("ShouldRateLimit"),
            kind: "ratelimit".into(),
            predicate: "true",
            route: "true",
            message: "envoy.service.ratelimit.v3.RateLimitRequest { domain: 'd' }",
            reply: "true",
            deny: "DenyResponse { status: 403u, headers: [], body: '' }",
            data: "request.method",
            target: "request",
        }
    }
    fn json(&self) -> String {
        let method = self.method.map(|m| format!(",\"grpcMethod\":\"{m}\"")).unwrap_or_default();
        format!(
            r#"{{"services":{{"auth":{{"type":"auth","endpoint":"auth-{up}","failureMode":"{}","timeout":"{}"}},"rl":{{"type":"{}","endpoint":"rl-{up}","failureMode":"deny"}},"dyn":{{"type":"dynamic","endpoint":"dyn-{up}","failureMode":"deny","timeout":"1s","grpcService":"envoy.service.ratelimit.v3.RateLimitService"{method}}}}},
"actionSets":[{{"name":"n","routeRuleConditions":{{"hostnames":["h"],"predicates":["{}"]}},"actions":[{{"service":"{}","scope":"s"}},{{"service":"rl","scope":"s","predicates":["{}"],"conditionalData":[{{"data":[{{"expression":{{"key":"k","value":"{}"}}}}]}}]}},
{{"type":"grpc","predicate":"true","terminal":false,"execution":"sequential","var":"r","service":"dyn","messageBuilder":"{}","onReply":[{{"type":"deny","predicate":"{}","terminal":true,"denyWith":"{}"}},{{"type":"headers","predicate":"false","terminal":false,"target":"{}","headers":"[]"}}]}}]}}]}}"#,
            self.mode, self.timeout, self.kind, self.route, self.service, self.predicate, self.data, self.message, self.reply, self.deny, self.target, up = self.up
        )
    }
}
/// What a request of a configuration shows of it: follows it from `first` on to the last call.
fn follow(h: &Arc<Host>, p: &mut Proxy, c: &C, timeout: u64, fail: bool) {
    let called = |n: usize, up: &str, service: &str, method: &str, ms: u64| {
        let ev: Vec<Ev> = h.events().into_iter().filter(|e| matches!(e, Ev::Call { .. })).collect();
        sym::check(ev.len() == n + 1, "the next service is called");
        let Some(Ev::Call { token, upstream, service: s, method: m, timeout_ms, .. }) = ev.last() else { return 0 };
        sym::check(*upstream == format!("{up}-{}", c.up) && s == service && m == method, "a service is called at the address of the request's configuration");
        sym::check(*timeout_ms == ms, "a service is called with its timeout");
        *token
    };
    let t = called(0, "auth", "envoy.service.auth.v3.Authorization", "Check", timeout);
    if fail {
        p.reply(t, 14, &[]);
        if c.mode == "deny" {
            sym::check(p.flow == Flow::Answered && h.n_replies() == 1, "the failure mode of the request's configuration applies");
            return;
        }
        sym::check(p.flow == Flow::Held && h.n_replies() == 0, "the failure mode of the request's configuration applies");
    } else {
        p.reply(t, 0, &auth_ok());
    }
    let t = called(1, "rl", "envoy.service.ratelimit.v3.RateLimitService", "ShouldRateLimit", 20);
    p.reply(t, 0, &rl_ok());
    let t = called(2, "dyn", "envoy.service.ratelimit.v3.RateLimitService", "ShouldRateLimit", 1000);
    p.reply(t, 0, &rl_ok());
    sym::check(p.flow == Flow::Answered, "the request's configuration refuses it in the end");
}
fn begin(root: &Root) -> (Arc<Host>, Proxy) {
    let h = Host::new();
    h.with(|s| s.log = false);
    h.setv("request.host", b"h");
    h.setv("request.method", b"GET");
    let mut p = Proxy::of(root, &h);
    p.headers();
    (h, p)
}
pub fn c27_config() {
    let root = Root::new();
    root.host.with(|s| s.log = false);
    // before there is a configuration nothing is done to a request
    let (h, p) = begin(&root);
    sym::check(p.flow == Flow::Go && h.calls().is_empty(), "without a configuration requests pass");
    let a = C::new("a");
    let first = sym::choice("first", 2) == 0;
    if first {
        sym::check(root.configure(&a.json()), "a valid configuration is accepted");
    }
    // a request under way while the configuration changes
    let mut held = if first { Some(begin(&root)) } else { None };
    let mut b = C::new("b");
    let mut timeout = 1000;
    let mut cut = None;
    const BAD: [&str; 6] = ["", "1 +", "a b", "(", "'x", "f(,)"];
    let ok = match sym::choice("change", 14) {
        0 => true,
        1 => {
            // a number and a unit
            let n = sym::over("n", 2, b"0159").to_string();
            let v: u64 = n.parse().unwrap_or(0);
            let u = sym::choice("unit", 9);
            b.timeout = format!("{n}{}", ["ms", "s", "m", "h", "us", "", "x", "S", " s"][u]);
            timeout = [v, v * 1000, v * 60_000, v * 3_600_000, 0, 0, 0, 0, 0][u];
            u < 5
        }
        2 => {
            b.timeout = ["1m30s", "1.5s", "-1s", "", "1s500ms", "0"][0..6][sym::choice("timeout", 6)].into();
            timeout = match b.timeout.as_str() {
                "1m30s" => 90_000,
                "0" => 0,
                _ => 1500,
            };
            !b.timeout.is_empty() && !b.timeout.starts_with('-')
        }
        3 => {
            b.mode = ["allow", "deny", "Deny", "", "fail"][sym::choice("mode", 5)].into();
            b.mode == "allow" || b.mode == "deny"
        }
        4 => {
            // a service that is there, or not; of a type an action can have, or not
            let c = sym::over("name", 1, b"aAxd").to_string();
            b.service = format!("{c}{}", ["uth", "yn", "l", ""][sym::choice("rest", 4)]);
            b.service == "auth"
        }
        5 => {
            b.kind = ["ratelimit", "ratelimit-check", "tracing", "dynamic", "RateLimit", ""][sym::choice("type", 3) * 2 + sym::choice("odd", 2)].into();
            if b.kind == "ratelimit-check" {
                // another service
                b.kind = "ratelimit".into();
            }
            b.kind == "ratelimit"
        }
        6 => {
            b.method = None;
            false
        }
        7 => {
            // cut off anywhere, or something after it
            let j = b.json();
            let n = sym::choice("cut", 24);
            cut = Some(if n == 23 { format!("{j}}}") } else { j[..j.len() * n / 23].to_string() });
            false
        }
        8 => {
            b.predicate = BAD[1 + sym::choice("bad", 5)];
            false
        }
        9 => {
            b.route = BAD[sym::choice("bad", 6)];
            false
        }
        10 => {
            b.message = BAD[sym::choice("bad", 6)];
            false
        }
        11 => {
            b.reply = BAD[sym::choice("bad", 6)];
            false
        }
        12 => {
            b.deny = BAD[sym::choice("bad", 6)];
            false
        }
        _ => {
            b.target = ["trailers", "Request", ""][sym::choice("target", 3)];
            false
        }
    };
    let got = root.configure(&cut.unwrap_or_else(|| b.json()));
    sym::check(got == ok, "a configuration is accepted exactly when all of it is valid");
    sym::mark(if ok { "accepted" } else { "rejected" });
    // a new request follows the configuration that was accepted last
    let (h, mut p) = begin(&root);
    let fail = sym::bool("fail");
    if ok {
        follow(&h, &mut p, &b, timeout, fail);
    } else if first {
        sym::mark("the old one stays");
        follow(&h, &mut p, &a, 1000, fail);
    } else {
        sym::check(p.flow == Flow::Go && h.calls().is_empty(), "without a configuration requests pass");
    }
    // the one under way goes on with its own
    if let Some((h, p)) = &mut held {
        follow(h, p, &a, 1000, fail);
        sym::mark("under way");
    }
}

// ---- descriptors
fn fds() -> Vec<u8> {
    let m = msg("M", &[fld("s", 1, 9, ""), fld("ok", 2, 8, "")], &[]);
    let svc = cat(&[ld(1, b"S"), ld(2, &cat(&[ld(1, b"Do"), ld(2, b".t.v1.M"), ld(3, b".t.v1.M")]))]);
    file("t.proto", "t.v1", &[], &[ld(4, &m), ld(6, &svc)])
}
pub fn c28_descriptors() {
    let json = |up: &str, service: &str| {
        format!(
            r#"{{"services":{{"t":{{"type":"dynamic","endpoint":"{up}","failureMode":"deny","timeout":"1s","grpcService":"{service}","grpcMethod":"Do"}},"rl":{{"type":"ratelimit","endpoint":"rl","failureMode":"deny"}}}},"descriptorService":"desc-{up}","actionSets":[{},{}]}}"#,
            set("t", r#"{"type":"grpc","predicate":"true","terminal":false,"var":"r","service":"t","messageBuilder":"t.v1.M { s: request.method }","onReply":[{"type":"deny","predicate":"!r.ok","terminal":true,"denyWith":"DenyResponse { status: 403u, headers: [], body: '' }"}]}"#),
            set("rl", RL)
        )
    };
    let root = Root::new();
    root.host.with(|s| s.log = false);
    let only_rl = format!("{{{},\"actionSets\":[{}]}}", services("deny", "deny", "deny"), set("rl", RL));
    // what services of the filter's own need is built in
    sym::check(root.configure(&only_rl) && root.host.calls().is_empty(), "built-in descriptors are not asked for");
    sym::check(root.host.with(|s| s.ticks.clone()).is_empty(), "nothing to ask for, no ticks");
    let lost = sym::bool("lost");
    root.host.with(|s| s.fail_dispatch = if lost { vec!["desc-t1".to_string()] } else { vec![] });
    sym::check(root.configure(&json("t1", "t.v1.S")), "a configuration is accepted before its descriptors are there");
    sym::check(root.host.with(|s| s.ticks.clone()) == [2000], "while descriptors may be missing the filter keeps asking");
    #[derive(Clone, Copy, PartialEq)]
    enum S {
        Missing,
        Pending(u32),
        Here,
    }
    let asked = |n: usize| {
        let ev: Vec<Ev> = root.host.events().into_iter().filter(|e| matches!(e, Ev::Call { .. })).collect();
        sym::check(ev.len() == n, "missing descriptors are asked for, once at a time");
        match ev.last() {
            Some(Ev::Call { token, upstream, service, method, msg, timeout_ms, .. }) => {
                sym::check(upstream == "desc-t1" && service == "kuadrant.v1.DescriptorService" && method == "GetServiceDescriptors" && *timeout_ms == 1000, "the descriptor service is asked");
                let m = pb::parse(msg).unwrap_or_default();
                let r = pb::subs(&m, 1);
                sym::check(r.len() == 1 && pb::path(&r[0], &[1]) == Some(b"t1".to_vec()) && pb::path(&r[0], &[2]) == Some(b"t.v1.S".to_vec()), "what is missing is asked for");
                *token
            }
            _ => 0,
        }
    };
    let mut n = 0;
    let mut st = S::Missing;
    if !lost {
        n = 1;
        st = S::Pending(asked(1));
    }
    root.host.with(|s| s.fail_dispatch = vec![]);
    for k in 0..sym::u8("@n") {
        match sym::choice(&format!("step {k}"), 4) {
            0 => {
                root.tick();
                if st == S::Missing {
                    sym::mark("asked again");
                    n += 1;
                    st = S::Pending(asked(n));
                }
            }
            1 => {
                // the descriptors come
                let S::Pending(t) = st else { continue };
                let status = sym::u32(&format!("status {k}"));
                root.reply(t, status, &answer(&[("t1", "t.v1.S", fds())]));
                st = if status == 0 { S::Here } else { S::Missing };
                sym::mark(if status == 0 { "here" } else { "failed" });
            }
            2 => {
                // nothing of use comes, or to nobody
                let (t, mine) = match st {
                    S::Pending(t) if sym::bool("mine") => (t, true),
                    _ => (4711, false),
                };
                let what = sym::choice("what", 4);
                let m = match what {
                    0 => vec![],
                    1 => sym::bytes("bytes", 1),
                    2 => answer(&[("t2", "t.v1.S", fds())]),
                    _ => answer(&[("t1", "t.v1.S", vec![0x0a, 0x07])]),
                };
                root.reply(t, 0, &m);
                if mine {
                    st = S::Missing;
                }
                if !mine {
                    sym::mark("stray");
                }
            }
            _ => {
                // a request, of a kind that needs them or not
                for host in ["t", "rl"] {
                    let h = Host::new();
                    h.with(|s| s.log = false);
                    h.setv("request.host", host.as_bytes());
                    h.setv("request.method", b"GET");
                    let mut p = Proxy::of(&root, &h);
                    p.headers();
                    if host == "t" && st != S::Here {
                        sym::mark("refused meanwhile");
                        sym::check(h.calls().is_empty() && p.flow == Flow::Answered, "without its descriptors a service fails as its failure mode says");
                        continue;
                    }
                    sym::check(h.calls().len() == 1 && p.flow == Flow::Held, "with its descriptors a service is called");
                    let Some((t, up)) = h.calls().first().cloned() else { continue };
                    if up == "t1" {
                        sym::check(h.call_msg("t1") == Some(ld(1, b"GET")), "the message is built by the descriptors");
                        // the reply may well be empty: nothing in it is set
                        let ok = sym::bool("ok");
                        p.reply(t, 0, &if ok { pb::vi(2, 1) } else { vec![] });
                        sym::check(p.flow == if ok { Flow::Go } else { Flow::Answered }, "the reply is read by the descriptors");
                        sym::check(ok || h.replies().first().map(|r| r.0) == Some(403), "the reply is read by the descriptors");
                        sym::mark("called");
                    } else {
                        p.reply(t, 0, &rl_ok());
                        sym::check(p.flow == Flow::Go, "other services do not depend on it");
                    }
                }
            }
        }
        let calls = root.host.calls().len();
        sym::check(calls == n, "missing descriptors are asked for, once at a time");
    }
}
