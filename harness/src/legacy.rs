//! What the services of the legacy actions are asked.
use crate::flow::*;
use crate::host::*;
use crate::pb::{self, F};
use crate::sym;

/// `s` as a JSON string, every character by its code.
fn json(s: &str) -> String {
    let hex = |n: u8| if n < 10 { b'0' + n } else { b'a' + n - 10 };
    let mut o = vec![b'"'];
    for b in s.bytes() {
        if b >= 0x80 {
            o.push(b);
            continue;
        }
        o.extend(b"\\u00");
        o.push(hex(b >> 4));
        o.push(hex(b & 15));
    }
    o.push(b'"');
    unsafe { String::from_utf8_unchecked(o) }
}
fn fields(m: &[u8], p: &[u32]) -> Option<Vec<(u32, F)>> {
    pb::path(m, p).and_then(|b| pb::parse(&b))
}
fn text(m: &[(u32, F)], n: u32) -> Vec<u8> {
    pb::sub(m, n).unwrap_or_default()
}
/// The entries of a map<string, _>: keys and encoded values
fn entries(m: &[(u32, F)], n: u32) -> Vec<(Vec<u8>, Vec<u8>)> {
    pb::subs(m, n).iter().map(|e| pb::parse(e).map(|e| (text(&e, 1), text(&e, 2))).unwrap_or_default()).collect()
}
/// Any character a name in a configuration can have.
fn odd(name: &str) -> String {
    if sym::u8("@odd") == 1 {
        sym::ascii(name, 1)
    } else {
        ["a", "\"", "\\", "'", "\n", "\t", "{", "$", ".", "\r", "\u{7}", "", "\\n", "\"}, 'x': \"", "?", "é"][sym::choice(name, 16)].to_string()
    }
}

/// The auth service is told the request as it is.
pub fn c21_auth() {
    let data = [
        "",
        r#","requestData":{"metrics.labels.user":"request.method","plain":"request.path","a.b.c":"request.scheme","a.b.d":"auth.identity.x","m.late":"responseBodyJSON('/x')"}"#,
    ];
    let n = sym::u8("@n") as usize;
    let fs = [config("deny", "deny", &[set("d", AUTH)], data[0]), config("deny", "deny", &[set("d", AUTH)], data[1])];
    let with = sym::choice("request data", 2);
    let h = Host::new();
    h.with(|s| s.log = false);
    h.setv("request.host", b"d");
    let names = ["request.method", "request.scheme", "request.path", "request.protocol", "source.address", "destination.address"];
    let focus = sym::choice("attribute", 10);
    let mut vals: Vec<Vec<u8>> = vec![b"GET".to_vec(), b"http".to_vec(), b"/p".to_vec(), b"HTTP/2".to_vec(), b"1.2.3.4:5".to_vec(), b"6.7.8.9:0".to_vec()];
    if focus < 6 {
        vals[focus] = sym::ascii("value", sym::choice("length", n + 1)).into_bytes();
    }
    for (k, v) in names.iter().zip(&vals) {
        h.setv(k, v);
    }
    let mut ports = [5i64, 65535];
    if focus == 6 || focus == 7 {
        ports[focus - 6] = sym::u64("port") as i64;
    }
    h.setv("source.port", &ports[0].to_le_bytes());
    h.setv("destination.port", &ports[1].to_le_bytes());
    // 2023-11-14T22:13:20Z, give or take
    let mut t = 1_700_000_000_000_000_000i64;
    if focus == 8 {
        t += sym::u8("time") as i64 - 128;
    }
    h.setv("request.time", &t.to_le_bytes());
    let mut hs = vec![("x-request-id".to_string(), "id-1".to_string())];
    if focus == 9 {
        for i in 0..sym::choice("headers", 3) {
            hs.push((format!("x-{}", sym::over(&format!("name {i}"), 1, b"ab")), sym::ascii(&format!("value {i}"), n)));
        }
    }
    h.with(|s| s.req_headers = hs.clone());
    let mut p = Proxy::start(fs[with], &h);
    let c = h.calls();
    if ports.iter().any(|p| *p < 0 || *p > u32::MAX as i64) {
        sym::mark("no port");
        sym::check(c.is_empty() && h.n_replies() == 1 && h.replies()[0].0 == 500, "a request that cannot be told is a failure");
        return;
    }
    sym::check(c.len() == 1 && c[0].1 == "auth" && p.flow == Flow::Held, "the auth service is called");
    let Some(a) = h.call_msg("auth").and_then(|m| fields(&m, &[1])) else {
        sym::check(false, "the auth service is sent a message");
        return;
    };
    sym::mark("called");
    let at = |p: &[u32]| p[1..].iter().fold(pb::sub(&a, p[0]), |m, n| m.and_then(|m| pb::path(&m, &[*n]))).unwrap_or_default();
    for (i, peer) in [(0, 1u32), (1, 2)] {
        let s = at(&[peer, 1, 1]);
        let s = pb::parse(&s).unwrap_or_default();
        sym::check(text(&s, 2) == vals[4 + i], if i == 0 { "the client's address is the proxy's" } else { "the destination's address is the proxy's" });
        sym::check(pb::num(&s, 3).unwrap_or(0) == ports[i] as u64, if i == 0 { "the client's port is the proxy's" } else { "the destination's port is the proxy's" });
    }
    let time = pb::parse(&at(&[4, 1])).unwrap_or_default();
    let (secs, nanos) = (pb::num(&time, 1).unwrap_or(0) as i64, pb::num(&time, 2).unwrap_or(0) as i64);
    sym::check(secs * 1_000_000_000 + nanos == t && (0..1_000_000_000).contains(&nanos), "the time is the request's");
    let http = pb::parse(&at(&[4, 2])).unwrap_or_default();
    for (f, v, what) in [(2, 0, "the method is the request's"), (6, 1, "the scheme is the request's"), (4, 2, "the path is the request's"), (10, 3, "the protocol is the request's")] {
        sym::check(text(&http, f) == vals[v], what);
    }
    sym::check(text(&http, 5) == b"d", "the host is the request's");
    let got = entries(&http, 3);
    let mut want: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for (k, v) in &hs {
        match want.iter_mut().find(|w| w.0 == k.as_bytes()) {
            Some(w) => w.1.extend([b",", v.as_bytes()].concat()),
            None => want.push((k.clone().into_bytes(), v.clone().into_bytes())),
        }
    }
    sym::check(got.len() == want.len() && want.iter().all(|w| got.contains(w)), "the headers are the request's");
    let ext = entries(&a, 10);
    sym::check(ext.len() == 1 && ext[0] == (b"host".to_vec(), b"s-auth".to_vec()), "the scope is the action's");
    // metadata: google.protobuf.Struct by domain
    let meta = entries(&pb::parse(&at(&[11])).unwrap_or_default(), 1);
    let s = |v: &[u8]| pb::ld(3, v);
    let expr = pb::ld(5, &pb::ld(1, &pb::cat(&[pb::ld(1, b"cel_expr"), pb::ld(2, &s(b"auth.identity.x"))])));
    let want: Vec<(&str, Vec<(&[u8], Vec<u8>)>)> = if with == 0 {
        vec![]
    } else {
        vec![
            ("io.kuadrant", vec![(b"plain", s(&vals[2]))]),
            ("io.kuadrant.a.b", vec![(b"c", s(&vals[1])), (b"d", expr)]),
            ("io.kuadrant.metrics.labels", vec![(b"user", s(&vals[0]))]),
        ]
    };
    let mut ok = meta.len() == want.len();
    for (d, fs) in &want {
        let Some(m) = meta.iter().find(|m| m.0 == d.as_bytes()) else {
            ok = false;
            continue;
        };
        let got = entries(&pb::parse(&m.1).unwrap_or_default(), 1);
        ok &= got.len() == fs.len() && fs.iter().all(|f| got.iter().any(|g| g.0 == f.0 && g.1 == f.1));
    }
    sym::check(ok, "the request data is what its expressions say");
    sym::check(p.reply(c[0].0, 0, &auth_ok()) && p.flow == Flow::Go, "the request goes on");
}

/// Names in the configuration reach the services as they are written.
pub fn c21_names() {
    let service = sym::choice("service", 3);
    let what = sym::choice("name", if service == 0 { 3 } else { 6 });
    let x = odd("characters");
    let mut scope = "s".to_string();
    let (mut key, mut value, mut field, mut dom) = ("k".to_string(), "v".to_string(), "f".to_string(), String::new());
    let mut domain_key = None;
    match what {
        0 => scope = format!("s{x}"),
        1 => field = format!("f{}", x.replace('.', "")),
        2 => dom = format!("d{x}"),
        3 => key = format!("k{x}"),
        4 => value = format!("v{x}"),
        _ => domain_key = Some(format!("o{x}")),
    }
    let path = if dom.is_empty() { field.clone() } else { format!("{dom}.{field}") };
    let data = format!(r#","requestData":{{{}:"request.path"}}"#, json(&path));
    let over = domain_key.as_ref().map(|d| format!(r#",{{"static":{{"key":"ratelimit.domain","value":{}}}}}"#, json(d))).unwrap_or_default();
    let cd = format!(r#","conditionalData":[{{"data":[{{"static":{{"key":{},"value":{}}}}},{{"expression":{{"key":{},"value":"request.path"}}}}{over}]}}]"#, json(&key), json(&value), json(&format!("{key}e")));
    let name = ["auth", "rl", "check"][service];
    let a = format!(r#"{{"service":"{name}","scope":{}{}}}"#, json(&scope), if service == 0 { "" } else { &cd });
    let f = config("deny", "deny", &[set("d", &a)], &data);
    let h = Host::new();
    h.with(|s| s.log = false);
    h.setv("request.host", b"d");
    for k in ["request.method", "request.scheme", "request.path", "request.protocol", "source.address", "destination.address"] {
        h.setv(k, b"/p");
    }
    for k in ["source.port", "destination.port", "request.time"] {
        h.setv(k, &5i64.to_le_bytes());
    }
    let _p = Proxy::start(f, &h);
    let Some(m) = h.call_msg(name).and_then(|m| pb::parse(&m)) else {
        sym::check(false, "the service is called");
        return;
    };
    sym::mark(name);
    if service == 0 {
        let a = text(&m, 1);
        let a = pb::parse(&a).unwrap_or_default();
        sym::check(entries(&a, 10) == vec![(b"host".to_vec(), scope.into_bytes())], "the scope is as it is written");
        let meta = entries(&pb::parse(&text(&a, 11)).unwrap_or_default(), 1);
        let want = if dom.is_empty() { "io.kuadrant".to_string() } else { format!("io.kuadrant.{dom}") };
        sym::check(meta.len() == 1 && meta[0].0 == want.as_bytes(), "request data is under its domain");
        let got = meta.first().map(|m| entries(&pb::parse(&m.1).unwrap_or_default(), 1)).unwrap_or_default();
        sym::check(got == vec![(field.into_bytes(), pb::ld(3, b"/p"))], "request data is under its name");
        return;
    }
    sym::check(text(&m, 1) == domain_key.as_ref().unwrap_or(&scope).as_bytes(), "the domain is as it is written");
    sym::check(pb::num(&m, 3) == Some(1), "one hit is counted");
    let d: Vec<Vec<(Vec<u8>, Vec<u8>)>> = pb::subs(&m, 2).iter().map(|d| entries(&pb::parse(d).unwrap_or_default(), 1)).collect();
    let full = if dom.is_empty() || dom == "metrics.labels" { field } else { format!("{dom}.{field}") };
    let own = vec![(key.clone().into_bytes(), value.into_bytes()), (format!("{key}e").into_bytes(), b"/p".to_vec())];
    sym::check(d == vec![own, vec![(full.into_bytes(), b"/p".to_vec())]], "the descriptors are as they are written");
}

/// The rate limit services are told exactly the descriptors that apply, and the hits to count.
pub fn c21_limits() {
    let st = |k: &str, v: &str| format!(r#"{{"static":{{"key":"{k}","value":"{v}"}}}}"#);
    let ex = |k: &str, v: &str| format!(r#"{{"expression":{{"key":"{k}","value":"{v}"}}}}"#);
    let cd = |p: &str, items: &[String]| format!(r#"{{"predicates":[{p}],"data":[{}]}}"#, items.join(","));
    let get = r#""request.method == 'GET'""#;
    let own = r#""request.query == '1'""#;
    let blocks = [
        vec![cd("", &[st("a", "1"), ex("m", "request.method")])],
        vec![cd(get, &[st("a", "1")]), cd(own, &[ex("q", "request.query")])],
        vec![cd(&format!("{get},{own}"), &[ex("m", "request.method")]), cd("", &[st("b", "2")])],
        vec![cd("", &[ex("ratelimit.hits_addend", "request.size"), ex("ratelimit.domain", "request.scheme"), ex("m", "request.method")])],
        vec![cd("", &[st("ratelimit.hits_addend", "7"), st("ratelimit.domain", "dom")])],
        vec![cd(own, &[ex("p", "request.method == 'GET' ? 'x' : 'y'"), ex("n", "request.size")])],
        vec![],
        // names that only begin like the ones with a meaning
        vec![cd("", &[st("ratelimit.domains", "dom"), ex("ratelimit.hits_addendum", "request.method"), st("ratelimit", "1")])],
    ];
    let mut sets = vec![];
    for (i, b) in blocks.iter().enumerate() {
        for s in ["rl", "check"] {
            sets.push(set(&format!("{s}{i}"), &format!(r#"{{"service":"{s}","scope":"sc","conditionalData":[{}]}}"#, b.join(","))));
        }
    }
    let fs = [config("deny", "deny", &sets, ""), config("deny", "deny", &sets, r#","requestData":{"metrics.labels.u":"request.path","w.late":"responseBodyJSON('/x')"}"#)];
    let data = sym::choice("request data", 2);
    let which = sym::choice("descriptors", blocks.len());
    let name = ["rl", "check"][sym::choice("service", 2)];
    let h = Host::new();
    h.with(|s| s.log = false);
    h.setv("request.host", format!("{name}{which}").as_bytes());
    let method = if sym::bool("get") { "GET".to_string() } else { sym::ascii("method", 2) };
    let query = if matches!(which, 1 | 2 | 5) { sym::ascii("query", 1) } else { String::new() };
    let size = if which == 3 { sym::u64("size") as i64 } else { [0, 12, -3][if which == 5 { sym::choice("size", 3) } else { 0 }] };
    h.setv("request.method", method.as_bytes());
    h.setv("request.query", query.as_bytes());
    h.setv("request.scheme", b"https");
    h.setv("request.path", b"/p");
    h.setv("request.size", &size.to_le_bytes());
    let mut p = Proxy::start(fs[data], &h);
    let (get, own) = (method == "GET", query == "1");
    let applies = match which {
        1 => get || own,
        5 => own,
        _ => true,
    };
    if !applies {
        sym::mark("not called");
        sym::check(h.calls().is_empty() && h.n_replies() == 0 && p.flow == Flow::Go, "without a descriptor that applies the service is not called");
        return;
    }
    if which == 3 && (size < 0 || size > u32::MAX as i64) {
        sym::mark("not a number of hits");
        sym::check(h.calls().is_empty() && h.n_replies() == 1 && h.replies()[0].0 == 500, "hits that cannot be told are a failure");
        return;
    }
    let c = h.calls();
    sym::check(c.len() == 1 && c[0].1 == name && p.flow == Flow::Held, "the service is called once");
    let Some(m) = h.call_msg(name).and_then(|m| pb::parse(&m)) else {
        return;
    };
    sym::mark("called");
    let e = |k: &str, v: &str| (k.as_bytes().to_vec(), v.as_bytes().to_vec());
    let mut want = vec![];
    match which {
        0 => want = vec![e("a", "1"), e("m", &method)],
        1 => {
            if get {
                want.push(e("a", "1"));
            }
            if own {
                want.push(e("q", &query));
            }
        }
        2 => {
            if get && own {
                want.push(e("m", &method));
            }
            want.push(e("b", "2"));
        }
        3 => want = vec![e("m", &method)],
        7 => want = vec![e("ratelimit.domains", "dom"), e("ratelimit.hits_addendum", &method), e("ratelimit", "1")],
        5 => want = vec![e("p", if get { "x" } else { "y" }), e("n", &size.to_string())],
        _ => {}
    }
    let mut all = if matches!(which, 4 | 6) { vec![] } else { vec![want] };
    if data == 1 {
        all.push(vec![e("u", "/p")]);
    }
    let d: Vec<Vec<(Vec<u8>, Vec<u8>)>> = pb::subs(&m, 2).iter().map(|d| entries(&pb::parse(d).unwrap_or_default(), 1)).collect();
    sym::check(d == all, "the service is told exactly the descriptors that apply");
    let (dom, hits) = match which {
        3 => ("https", size as u64),
        4 => ("dom", 7),
        _ => ("sc", 1),
    };
    sym::check(text(&m, 1) == dom.as_bytes(), "the service is told the domain");
    sym::check(pb::num(&m, 3).unwrap_or(0) == hits, "the service is told the hits");
    sym::check(p.reply(c[0].0, 0, &rl_ok()) && p.flow == Flow::Go, "the request goes on");
}
