//! Trace contexts: the calls of a request belong to the request's trace, and to no other's.
use crate::flow::*;
use crate::host::*;
use crate::pb::*;
use crate::sym;
use kuadrant_filter::kuadrant::*;
use opentelemetry::propagation::TextMapCompositePropagator;
use opentelemetry_sdk::propagation::{BaggagePropagator, TraceContextPropagator};
use std::sync::Arc;

struct Req {
    h: Arc<Host>,
    p: Option<Proxy>,
    replied: usize,
    over: bool,
    refused: bool,
}
impl Req {
    fn step(&mut self, f: &PipelineFactory) {
        let calls = self.h.calls();
        match &mut self.p {
            None => self.p = Some(Proxy::start(f, &self.h)),
            Some(p) if self.replied < calls.len() => {
                let (t, up) = calls[self.replied].clone();
                self.replied += 1;
                let ok = if up == "auth" { auth_ok() } else { rl_ok() };
                // the second call of an action set may be answered by a refusal
                let m = if self.refused && self.replied == 2 { if up == "rl" { vi(1, 2) } else { vec![] } } else { ok };
                p.reply(t, if self.refused && self.replied == 2 && up != "rl" { 2 } else { 0 }, &m);
            }
            Some(p) => {
                p.response_headers();
                p.response_body(b"x", true);
                self.over = true;
            }
        }
    }
}
fn header<'a>(hs: &'a [(String, Vec<u8>)], n: &str) -> Vec<&'a [u8]> {
    hs.iter().filter(|h| h.0 == n).map(|h| h.1.as_slice()).collect()
}
fn unhex(b: &[u8]) -> Vec<u8> {
    let n = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 };
    b.chunks(2).map(|c| n(c[0]) << 4 | n(c[1])).collect()
}
/// trace id, span id, parent span id of every span in an export
struct Span {
    trace: Vec<u8>,
    id: Vec<u8>,
    parent: Vec<u8>,
}
fn exported(h: &Host) -> Vec<Span> {
    let mut out = vec![];
    for e in h.events() {
        let Ev::Call { service, msg, upstream, method, .. } = &e else { continue };
        if !service.contains("opentelemetry") {
            continue;
        }
        sym::check(upstream == "trace" && service == "opentelemetry.proto.collector.trace.v1.TraceService" && method == "Export", "spans go to the tracing service");
        let m = |b: &[u8]| parse(b).unwrap_or_default();
        for r in subs(&m(msg), 1) {
            for sc in subs(&m(&r), 2) {
                for sp in subs(&m(&sc), 2) {
                    let sp = m(&sp);
                    let field = |n| sub(&sp, n).unwrap_or_default();
                    out.push(Span { trace: field(1), id: field(2), parent: field(4) });
                }
            }
        }
    }
    out
}
pub fn c24_trace() {
    opentelemetry::global::set_text_map_propagator(TextMapCompositePropagator::new(vec![Box::new(TraceContextPropagator::new()), Box::new(BaggagePropagator::new())]));
    let on = sym::u8("@tracing") == 1;
    let n = sym::u8("@requests") as usize;
    // the filter's levels: spans are made from INFO on
    let level = if on { ["INFO", "WARN", "DEBUG"][sym::choice("level", if n == 1 { 3 } else { 2 })] } else { "INFO" };
    kuadrant_filter::tracing::init_observability(on, Some(level), tracing_subscriber::filter::LevelFilter::OFF);
    let sets = [set("two", &format!("{AUTH},{RL}")), set("nested", &format!("{},{}", grpc("dd", "d", "true", "", &format!("{},{}", verdict(), grpc("da", "n", "true", "", ""))), grpc("dd", "e", "true", NOGUARD, "")))];
    let f = config("deny", "deny", &sets, if on { TRACING } else { "" });
    let which = sym::choice("actions", 2);
    let hex = |name: &str| if n == 1 { sym::over(name, 1, b"019af").to_string() } else { "7".to_string() };
    let mut ids = vec![];
    // the caller's sampling decision
    let first_given = sym::bool("trace given");
    let flag = if !first_given || sym::bool("sampled") { "01" } else { "00" };
    let mut reqs: Vec<Req> = (0..n)
        .map(|i| {
            let h = Host::new();
            h.setv("request.host", ["two", "nested"][which].as_bytes());
            let given = i > 0 || first_given;
            let id = format!("{}{i}bbccddeeff00112233445566778899", hex(&format!("trace {i}")));
            let parent = format!("00f067aa0ba902b{}", hex(&format!("span {i}")));
            let mut hs = vec![("x-request-id".to_string(), format!("id-{i}"))];
            if given {
                hs.push(("traceparent".to_string(), format!("00-{id}-{parent}-{}", if i == 0 { flag } else { "01" })));
                hs.push(("tracestate".to_string(), format!("k{i}=v")));
            }
            let carries = if i == 0 && n == 1 { sym::bool("baggage") } else { given };
            if carries {
                hs.push(("baggage".to_string(), format!("b{i}=w")));
            }
            h.with(|s| {
                s.req_headers = hs;
                s.log = false;
            });
            ids.push((given, id, parent, carries));
            Req { h, p: None, replied: 0, over: false, refused: i == 0 && sym::bool("refused") }
        })
        .collect();
    let mut k = 0;
    while let Some(first) = reqs.iter().position(|r| !r.over) {
        let open: Vec<usize> = (first..n).filter(|i| !reqs[*i].over).collect();
        let w = open[sym::choice(&format!("turn {k}"), open.len())];
        k += 1;
        reqs[w].step(f);
    }
    for (i, r) in reqs.iter().enumerate() {
        let (given, id, parent, carries) = &ids[i];
        let mut made: Option<Vec<u8>> = None;
        let sampled = i > 0 || !given || flag == "01";
        let mut calls = 0;
        for e in r.h.events() {
            let Ev::Call { headers, service, .. } = &e else { continue };
            if service.contains("opentelemetry") {
                continue;
            }
            calls += 1;
            let tp = header(headers, "traceparent");
            let baggage = header(headers, "baggage");
            sym::check(if *carries { baggage == vec![format!("b{i}=w").as_bytes()] } else { baggage.is_empty() }, "the baggage is handed on, and none made up");
            let spans = on && level != "WARN";
            if !given && !spans {
                sym::mark("no trace");
                sym::check(tp.is_empty(), "no trace is made up");
                continue;
            }
            sym::check(tp.len() == 1 && tp[0].len() == 55, "every call has one trace context");
            if tp.len() != 1 || tp[0].len() != 55 {
                continue;
            }
            if *given {
                sym::mark("continued");
                sym::check(&tp[0][3..35] == id.as_bytes(), "a call belongs to its request's trace");
                sym::check(tp[0][53..] == if sampled { *b"01" } else { *b"00" }, "the caller's sampling decision is kept");
                if !spans {
                    sym::check(&tp[0][36..52] == parent.as_bytes(), "without spans the caller's is the parent");
                }
                sym::check(header(headers, "tracestate") == vec![format!("k{i}=v").as_bytes()], "the trace's state is handed on");
            } else {
                sym::mark("new trace");
                let t = tp[0][3..35].to_vec();
                sym::check(!ids.iter().any(|o| o.1.as_bytes() == &t[..]), "a new trace is nobody else's");
                if let Some(m) = &made {
                    sym::check(*m == t, "all calls of a request belong to one trace");
                }
                made = Some(t);
            }
        }
        sym::check(calls == [2, 3][which], "every service is called");
        sym::check(r.h.n_replies() == usize::from(r.refused), "the request goes on unless refused");
    }
    let all: Vec<Span> = reqs.iter().flat_map(|r| exported(&r.h)).collect();
    let spans = on && level != "WARN";
    sym::check(spans || all.is_empty(), "without spans nothing is exported");
    for (i, s) in all.iter().enumerate() {
        sym::check(!all[..i].iter().any(|o| o.id == s.id), "a span is exported once");
    }
    for (i, r) in reqs.iter().enumerate() {
        let (given, id, parent, _) = &ids[i];
        if !spans {
            continue;
        }
        if i == 0 && *given && flag == "00" {
            let t = unhex(id.as_bytes());
            sym::check(!all.iter().any(|s| s.trace == t), "what the caller does not sample is not exported");
            continue;
        }
        let mut trace = given.then(|| unhex(id.as_bytes()));
        for e in r.h.events() {
            let Ev::Call { headers, service, .. } = &e else { continue };
            let tp = header(headers, "traceparent");
            if service.contains("opentelemetry") || tp.len() != 1 || tp[0].len() != 55 {
                continue;
            }
            let t = unhex(&tp[0][3..35]);
            let sp = unhex(&tp[0][36..52]);
            sym::check(all.iter().any(|s| s.id == sp && s.trace == t), "the span a call names is exported");
            trace.get_or_insert(t);
        }
        let root = if *given { unhex(parent.as_bytes()) } else { vec![] };
        let roots = all.iter().filter(|s| Some(&s.trace) == trace.as_ref() && s.parent == root).count();
        sym::check(roots == 1, "the request's own span is exported, below the caller's");
        let own = exported(&r.h);
        sym::check(own.iter().any(|s| Some(&s.trace) == trace.as_ref() && s.parent == root), "the request's own span is exported by the request");
        sym::mark("exported");
        // a tree: the parent of every other span of the trace is one of the trace's
        for s in all.iter().filter(|s| Some(&s.trace) == trace.as_ref() && s.parent != root) {
            sym::check(all.iter().any(|o| o.id == s.parent && o.trace == s.trace), "a span's parent is of the same trace");
        }
    }
}
