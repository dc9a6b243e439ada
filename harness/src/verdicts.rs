//! What the services say reaches the client and the upstream unaltered.
use crate::flow::*;
use crate::host::*;
use crate::pb;
use crate::sym;

/// A varint field of two symbolic bytes (0..16383), in a fixed two-byte encoding.
pub fn vi2(field: u32, name: &str) -> (Vec<u8>, u32) {
    let a = sym::u8(name);
    let b = sym::u8(&format!("{name}'"));
    sym::assume(b < 0x80);
    ([pb::varint((field << 3) as u64), vec![a | 0x80, b]].concat(), (a & 0x7f) as u32 | (b as u32) << 7)
}
pub fn kv(k: &str, v: &str) -> Vec<u8> {
    pb::cat(&[pb::ld(1, k.as_bytes()), pb::ld(2, v.as_bytes())])
}
/// Up to `max` header pairs: keys of one letter in either case, values of `n` characters.
pub fn pairs(name: &str, max: usize, n: usize, prefix: &str) -> Vec<(String, String)> {
    (0..sym::choice(&format!("{name} count"), max + 1))
        .map(|i| (format!("{prefix}{}", sym::over(&format!("{name} key {i}"), 1, b"abA")), sym::ascii(&format!("{name} value {i}"), n)))
        .collect()
}
pub fn options(field: u32, h: &[(String, String)]) -> Vec<u8> {
    pb::cat(&h.iter().map(|(k, v)| pb::ld(field, &pb::ld(1, &kv(k, v)))).collect::<Vec<_>>())
}
pub fn values(field: u32, h: &[(String, String)]) -> Vec<u8> {
    pb::cat(&h.iter().map(|(k, v)| pb::ld(field, &kv(k, v))).collect::<Vec<_>>())
}
pub fn eq_name(a: &str, b: &str) -> bool {
    a.len() == b.len() && a.bytes().zip(b.bytes()).all(|(x, y)| x.to_ascii_lowercase() == y.to_ascii_lowercase())
}
/// After setting `set` on `before`: every name in `set` has exactly its last value; everything else
/// is as before, in order.
pub fn headers_set(before: &[(String, String)], set: &[(String, String)], after: &[(String, String)], tag: &str) {
    let mut want: Vec<(String, String)> = before.iter().filter(|(k, _)| !set.iter().any(|s| eq_name(&s.0, k))).cloned().collect();
    let kept = want.len();
    for (i, (k, v)) in set.iter().enumerate() {
        if !set[i + 1..].iter().any(|s| eq_name(&s.0, k)) {
            want.push((k.clone(), v.clone()));
        }
    }
    let mut ok = after.len() == want.len() && after[..kept.min(after.len())] == want[..kept];
    for w in &want[kept..] {
        ok &= after.iter().filter(|a| eq_name(&a.0, &w.0)).count() == 1 && after.iter().any(|a| eq_name(&a.0, &w.0) && a.1 == w.1);
    }
    sym::check(ok, tag);
}

/// An explicit denial of the auth service is what the client gets.
pub fn c07_denied() {
    let f = config("deny", "deny", &[set("d", AUTH)], "");
    let (h, mut p) = at(f, "d");
    let n = sym::u8("@n") as usize;
    let (status, code) = match sym::choice("status", 3) {
        0 => vi2(1, "code"),
        1 => (vec![], 0),
        _ => (pb::vi(1, 0), 0),
    };
    let has_status = !status.is_empty() || sym::bool("empty status message");
    let hs = pairs("header", 2, n, "x-");
    let body = sym::bytes("body", sym::choice("body length", n + 2));
    let mut d = vec![];
    if has_status {
        d.extend(pb::ld(1, &status));
    }
    d.extend(options(2, &hs));
    if !body.is_empty() || sym::bool("empty body field") {
        d.extend(pb::ld(3, &body));
    }
    let t = h.calls()[0].0;
    let resumed = p.reply(t, 0, &pb::ld(2, &d));
    let r = h.replies();
    sym::check(!resumed && r.len() == 1 && p.flow == Flow::Answered, "a denial refuses the request");
    if r.len() != 1 {
        return;
    }
    if std::str::from_utf8(&body).is_err() {
        sym::mark("undecodable");
        sym::check(r[0].0 == 500, "a reply that is not a valid message is a failure");
        return;
    }
    sym::mark(if !has_status { "no status" } else { "denied" });
    let want = if code == 0 { 403 } else { code };
    sym::check(r[0].0 == want, if has_status { "the denial's status is the service's, 403 when unset" } else { "the denial's status is 403 when it has no status message" });
    if !has_status {
        return;
    }
    sym::check(r[0].1 == hs, "the denial's headers are the service's");
    sym::check(r[0].2.clone().unwrap_or_default() == body, "the denial's body is the service's");
    sym::check(!h.events().iter().any(|e| matches!(e, Ev::SetMap { .. } | Ev::SetAttr { .. })), "a denial changes nothing on the request");
}

/// A positive verdict: its headers are set on the request, its metadata is there for the actions
/// after it and for other filters.
pub fn c07_ok() {
    let after = |v: &str| grpc_msg("dd", &format!("envoy.service.ratelimit.v3.RateLimitRequest {{ domain: {v} }}"), "true", SEQ, &verdict());
    let f = config("deny", "deny", &[set("d", AUTH), set("m", &format!("{AUTH},{}", after("auth.k"))), set("b", &format!("{AUTH},{}", after("auth.k ? 'true' : 'false'")))], "");
    let meta = sym::choice("metadata", 5);
    let h = Host::new();
    h.setv("request.host", [b"d", b"d", b"d", b"m", b"b"][meta]);
    let n = sym::u8("@n") as usize;
    let client = [vec![("x-request-id".to_string(), "id-1".to_string())], pairs("client header", 2, n, "x-")].concat();
    h.with(|s| {
        s.req_headers = client.clone();
        s.log = false;
    });
    let mut p = Proxy::start(f, &h);
    let hs = pairs("header", 2, n, "x-");
    let v = sym::ascii("metadata value", n);
    // google.protobuf.Value
    let (val, text) = match meta {
        1 => (pb::vi(4, 1), String::new()),
        2 => (pb::ld(5, &pb::ld(1, &pb::cat(&[pb::ld(1, b"n"), pb::ld(2, &pb::ld(3, v.as_bytes()))]))), String::new()),
        3 => (pb::ld(3, v.as_bytes()), v.clone()),
        _ => {
            let b = sym::bool("metadata bool");
            (pb::vi(4, b as u64), if b { "true".into() } else { "false".into() })
        }
    };
    let st = pb::ld(1, &pb::cat(&[pb::ld(1, b"k"), pb::ld(2, &val)]));
    let mut m = pb::ld(3, &options(2, &hs));
    if meta > 0 {
        m.extend(pb::ld(4, &st));
    }
    let t = h.calls()[0].0;
    let resumed = p.reply(t, 0, &m);
    let now = h.with(|s| s.req_headers.clone());
    headers_set(&client, &hs, &now, "the service's headers are set on the request, replacing the client's");
    sym::check(h.n_replies() == 0, "a positive verdict is not answered");
    let exported: Vec<Vec<u8>> = h.events().into_iter().filter_map(|e| if let Ev::SetAttr { value, .. } = e { Some(value) } else { None }).collect();
    sym::check(exported.len() == (meta > 0) as usize, "metadata is exported once");
    if meta > 0 && exported.len() == 1 {
        let x = pb::path(&exported[0], &[1]).and_then(|e| pb::parse(&e));
        let same = x.as_ref().is_some_and(|e| pb::sub(e, 1).as_deref() == Some(b"k") && pb::sub(e, 2).as_deref() == Some(&val[..]));
        sym::check(same, "exported metadata is the service's");
    }
    if meta >= 3 {
        sym::mark("metadata used");
        sym::check(!resumed && p.flow == Flow::Held, "the next guard is consulted");
        let d = domains(&h);
        sym::check(d.len() == 1 && d[0].1 == text, "actions see the metadata of the auth service");
    } else {
        sym::mark("let through");
        sym::check(resumed && p.flow == Flow::Go, "a positive verdict lets the request through");
    }
}

/// Parts of a positive verdict this filter does not apply are not silently dropped.
pub fn c07_unsupported() {
    let f = config("deny", "deny", &[set("d", AUTH)], "");
    let (h, mut p) = at(f, "d");
    let n = sym::u8("@n") as usize;
    let mut ok = vec![];
    let mut any = false;
    for (name, field, one) in [
        ("response_headers_to_add", 6, pb::ld(1, &kv("x-a", "v"))),
        ("headers_to_remove", 5, sym::ascii("removed", n).into_bytes()),
        ("query_parameters_to_set", 7, kv("q", "v")),
        ("query_parameters_to_remove", 8, sym::ascii("q", n).into_bytes()),
    ] {
        for _ in 0..sym::choice(name, 3) {
            any = true;
            ok.extend(pb::ld(field, &one));
        }
    }
    let t = h.calls()[0].0;
    let resumed = p.reply(t, 0, &pb::ld(3, &ok));
    sym::mark(if any { "unsupported" } else { "plain" });
    if any {
        sym::check(!resumed && h.n_replies() == 1 && h.replies()[0].0 == 500, "a verdict that cannot be applied in full is a failure");
    } else {
        sym::check(resumed && h.n_replies() == 0, "a positive verdict lets the request through");
    }
}

/// Rate limit verdicts: 429 with the service's headers, or response headers once the response comes.
pub fn c08_verdict() {
    let two = format!("{RL},{}", CHECK);
    let f = config3("deny", "deny", "allow", &[set("one", RL), set("check", CHECK), set("two", &two)], "");
    let which = sym::choice("config", 3);
    let (h, mut p) = at(f, ["one", "check", "two"][which]);
    let n = sym::u8("@n") as usize;
    let resp = [vec![(":status".to_string(), "200".to_string())], pairs("response header", 1, n, "x-")].concat();
    let mut applied = vec![];
    let calls = if which == 2 { 2 } else { 1 };
    let mut through = true;
    for c in 0..calls {
        let (code_f, code) = if sym::bool(&format!("long code {c}")) {
            vi2(1, &format!("code {c}"))
        } else {
            let v = sym::u8(&format!("code {c}")) & 0x7f;
            (vec![8, v], v as u32)
        };
        let hs = pairs(&format!("header {c}"), if calls == 2 { 1 } else { 2 }, n, "x-");
        let mut m = code_f;
        m.extend(values(3, &hs));
        if calls == 1 {
            // fields the filter does not use: statuses, request_headers_to_add, raw_body
            match sym::choice("other field", 4) {
                1 => m.extend(pb::ld(2, &pb::vi(1, 2))),
                2 => m.extend(pb::ld(4, &kv("x-r", "v"))),
                3 => m.extend(pb::ld(5, &sym::bytes("raw", n))),
                _ => {}
            }
        }
        let t = h.calls()[c].0;
        let resumed = p.reply(t, 0, &m);
        let r = h.replies();
        if code == 1 {
            sym::mark("ok");
            sym::check(r.is_empty() && resumed == (c + 1 == calls), "an OK verdict lets the request through");
            applied.extend(hs);
        } else if code == 2 {
            sym::mark("over limit");
            sym::check(!resumed && r.len() == 1 && r[0].0 == 429, "over limit is answered with 429");
            if r.len() == 1 {
                sym::check(r[0].1 == hs, "the refusal has the service's headers");
                sym::check(r[0].2.as_deref() == Some(b"Too Many Requests\n"), "the refusal has its body");
            }
            through = false;
        } else {
            sym::mark("unknown code");
            sym::check(!resumed && r.len() == 1 && r[0].0 == 500, "an unknown verdict is answered with 500");
            through = false;
        }
        if !through {
            break;
        }
    }
    let sets = |h: &Host| h.events().iter().filter(|e| matches!(e, Ev::SetMap { .. })).count();
    sym::check(sets(&h) == 0, "no headers are changed before the response");
    h.with(|s| s.resp_headers = Some(resp.clone()));
    p.response_headers();
    if through {
        let now = h.with(|s| s.resp_headers.clone().unwrap_or_default());
        // two verdicts naming the same header: one of them is in effect
        if applied.len() == 2 && which == 2 && eq_name(&applied[0].0, &applied[1].0) && now.last() == applied.first() {
            applied.reverse();
        }
        headers_set(&resp, &applied, &now, "the service's headers are set on the response, once");
        sym::check(p.flow == Flow::Go && h.n_replies() == 0, "the response goes on");
    }
    sym::check(h.with(|s| s.req_headers.clone()) == vec![("x-request-id".to_string(), "id-1".to_string())], "the request's headers are unchanged");
}
