//! Several requests over one configuration: each is treated as if it were alone.
use crate::flow::*;
use crate::host::*;
use crate::{pb, sym};
use kuadrant_filter::kuadrant::*;
use std::sync::Arc;

/// What one request brings along, and how far it is.
#[derive(Clone)]
struct In {
    host: &'static str,
    path: &'static str,
    id: &'static str,
    user: String,
    verdict: u8,
    code: u8,
}
struct Run {
    i: In,
    h: Arc<Host>,
    p: Option<Proxy>,
    replied: usize,
    at: u8,
    trail: Vec<(Flow, bool, usize)>,
}
impl Run {
    fn new(i: &In) -> Run {
        let h = Host::new();
        h.setv("request.host", i.host.as_bytes());
        h.setv("request.path", i.path.as_bytes());
        h.setv("request.url_path", i.path.as_bytes());
        h.with(|s| {
            s.req_headers = vec![("x-request-id".to_string(), i.id.to_string()), ("x-u".to_string(), i.user.clone())];
            s.log = false;
        });
        Run { i: i.clone(), h, p: None, replied: 0, at: 0, trail: vec![] }
    }
    fn answer(&self, upstream: &str) -> (u32, Vec<u8>) {
        match (upstream, self.i.verdict) {
            ("auth", 0) => {
                // Struct { fields { "user": user } }
                let f = pb::ld(1, &pb::cat(&[pb::ld(1, b"user"), pb::ld(2, &pb::ld(3, self.i.user.as_bytes()))]));
                let hv = pb::ld(2, &pb::ld(1, &pb::cat(&[pb::ld(1, b"x-auth"), pb::ld(2, self.i.path.as_bytes())])));
                (0, pb::ld(3, &pb::cat(&[hv, pb::ld(3, &f)])))
            }
            ("auth", 1) => (0, pb::ld(2, &pb::ld(1, &pb::vi(1, 403)))),
            ("auth", _) => (14, vec![]),
            _ => {
                let hv = pb::ld(3, &pb::cat(&[pb::ld(1, b"x-left"), pb::ld(2, self.i.user.as_bytes())]));
                (0, pb::cat(&[pb::vi(1, self.i.code as u64 & 0x7f), hv]))
            }
        }
    }
    fn over(&self) -> bool {
        match &self.p {
            None => false,
            Some(p) => self.replied >= self.h.calls().len() && (self.at == 3 || p.flow == Flow::Held),
        }
    }
    /// The next thing that happens to this request; false: nothing is left.
    fn step(&mut self, f: &PipelineFactory) -> bool {
        let calls = self.h.calls();
        let mut resumed = false;
        match &mut self.p {
            None => {
                self.at = 1;
                self.p = Some(Proxy::start(f, &self.h));
            }
            Some(_) if self.replied < calls.len() => {
                let (t, up) = calls[self.replied].clone();
                self.replied += 1;
                let (st, msg) = self.answer(&up);
                resumed = self.p.as_mut().map(|p| p.reply(t, st, &msg)).unwrap_or(false);
            }
            Some(p) if self.at == 1 && p.flow != Flow::Held => {
                self.at = 2;
                p.response_headers();
            }
            Some(p) if self.at == 2 && p.flow != Flow::Held => {
                self.at = 3;
                p.response_body(format!(r#"{{"u":"{}"}}"#, self.i.path).as_bytes(), true);
            }
            _ => return false,
        }
        if let Some(p) = &self.p {
            self.trail.push((p.flow, resumed, self.h.events().len()));
        }
        true
    }
}
fn same(a: &Run, b: &Run) -> bool {
    let (x, y) = (a.h.events(), b.h.events());
    if a.trail != b.trail || x.len() != y.len() {
        return false;
    }
    x.iter().zip(&y).all(|(x, y)| match (x, y) {
        (
            Ev::Call { token, upstream, service, method, headers, msg, timeout_ms },
            Ev::Call { token: t2, upstream: u2, service: s2, method: m2, headers: h2, msg: g2, timeout_ms: o2 },
        ) => token == t2 && upstream == u2 && service == s2 && method == m2 && headers == h2 && timeout_ms == o2 && (msg == g2 || upstream == "auth" && told(msg) == told(g2)),
        _ => x == y,
    })
}
/// The path and the headers in a CheckRequest (maps have no order).
fn told(m: &[u8]) -> (Option<Vec<u8>>, Vec<Vec<u8>>) {
    let http = pb::path(m, &[1, 4, 2]).unwrap_or_default();
    let mut hs = pb::parse(&http).map(|m| pb::subs(&m, 3)).unwrap_or_default();
    hs.sort_by(|a, b| a[..2.min(a.len())].cmp(&b[..2.min(b.len())]).then(a.len().cmp(&b.len())));
    (pb::path(&http, &[4]), hs)
}

/// Two requests whose callbacks interleave in any order.
pub fn c22_isolation() {
    let limit = r#"{"service":"rl","scope":"s-rl","conditionalData":[{"predicates":["request.path == '/a'"],"data":[{"expression":{"key":"u","value":"auth.user"}},{"expression":{"key":"p","value":"request.path"}}]},{"data":[{"expression":{"key":"h","value":"request.headers['x-u']"}}]}]}"#;
    let first = grpc_msg("dd", "envoy.service.ratelimit.v3.RateLimitRequest { domain: request.headers['x-u'] }", "true", "", &[store("kept", "request.path + request.headers['x-u']"), verdict()].join(","));
    let second = grpc_msg("da", "envoy.service.ratelimit.v3.RateLimitRequest { domain: kept }", "request.path == '/a' || r.overall_code == 1", SEQ, &[headers("response", "[['x-kept', kept]]"), headers("request", "[['x-path', request.path]]")].join(","));
    let report = r#"{"service":"report","scope":"sc","conditionalData":[{"data":[{"expression":{"key":"u","value":"responseBodyJSON('/u')"}}]}]}"#;
    let local = format!("{},{}", headers("request", "[['x-s', request.headers['x-u']]]"), deny("request.headers['x-s'] == 'z'", "DenyResponse { status: 418u, headers: [['x-p', request.path]], body: request.headers['x-u'] }"));
    let sets = [set("legacy", &format!("{AUTH},{limit}")), set("typed", &format!("{first},{second}")), set("local", &format!("{local},{report}"))];
    let shared = config("deny", "deny", &sets, TRACELESS);
    let alone = [config("deny", "deny", &sets, TRACELESS), config("deny", "deny", &sets, TRACELESS)];
    let names = ["legacy", "typed", "local"];
    let ka = sym::choice("configuration of one", 3);
    let kb = if sym::u8("@mixed") == 1 { sym::choice("configuration of the other", 3) } else { ka };
    let va = if ka == 0 { sym::choice("verdict for one", 3) as u8 } else { 0 };
    let vb = if kb == 0 { sym::choice("verdict for the other", 2) as u8 } else { 0 };
    let a = In { host: names[ka], path: "/a", id: "id-a", user: sym::ascii("user of one", 1), verdict: va, code: if va == 0 { sym::u8("code for one") } else { 1 } };
    let b = In { host: names[kb], path: "/b", id: "id-b", user: sym::ascii("user of the other", 1), verdict: vb, code: 1 };
    let mut runs = [Run::new(&a), Run::new(&b)];
    let mut done = [false, false];
    let mut n = 0;
    while !(done[0] && done[1]) {
        let w = if done[0] {
            1
        } else if done[1] {
            0
        } else {
            sym::choice(&format!("turn {n}"), 2)
        };
        n += 1;
        runs[w].step(shared);
        done[w] = runs[w].over();
    }
    for (k, i) in [a, b].iter().enumerate() {
        let mut r = Run::new(i);
        while r.step(alone[k]) {}
        sym::mark(if r.h.n_replies() > 0 { "refused" } else { "let through" });
        sym::check(same(&runs[k], &r), "a request among others is treated as if it were alone");
    }
}
const TRACELESS: &str = r#","observability":{"httpHeaderIdentifier":"x-track","devMode":true}"#;
