//! Which action set applies, and which of its actions.
use crate::flow::*;
use crate::host::*;
use crate::pb;
use crate::sym;

fn tell(n: usize) -> String {
    deny("true", &format!("DenyResponse {{ status: {}u }}", 400 + n))
}
fn action_set(name: &str, hosts: &[&str], preds: &[&str], actions: &str) -> String {
    let h: Vec<String> = hosts.iter().map(|h| format!("\"{h}\"")).collect();
    let p: Vec<String> = preds.iter().map(|h| format!("\"{h}\"")).collect();
    format!(r#"{{"name":"{name}","routeRuleConditions":{{"hostnames":[{}],"predicates":[{}]}},"actions":[{actions}]}}"#, h.join(","), p.join(","))
}
/// The index of the most specific hostname matching `host`.
fn best(hosts: &[(&str, usize)], host: &[u8]) -> Option<usize> {
    let lower: Vec<u8> = host.iter().map(|b| b.to_ascii_lowercase()).collect();
    let mut found: Option<(usize, usize)> = None;
    for (h, i) in hosts {
        let h = h.to_ascii_lowercase();
        let score = match h.strip_prefix('*') {
            None => (lower == h.as_bytes()).then_some(1000),
            Some(suffix) => (suffix.is_empty() || lower.len() > suffix.len() && lower.ends_with(suffix.as_bytes())).then_some(suffix.len() + 1),
        };
        if let Some(s) = score {
            if found.is_none_or(|f| s > f.0) {
                found = Some((s, *i));
            }
        }
    }
    found.map(|f| f.1)
}
/// Every request host: the most specific configured hostname decides, without regard to case or port.
pub fn c09_hosts() {
    let any = sym::bool("catch-all configured");
    let mut hosts = vec![("a.b", 0), ("*.b", 1), ("*.a.b", 2), ("b", 3), ("C.Ab", 4), ("c", 0), ("b.b", 1), ("b.b", 2)];
    if any {
        hosts.push(("*", 5));
    }
    let sets: Vec<String> = (0..6)
        .filter_map(|i| {
            let hs: Vec<&str> = hosts.iter().filter(|h| h.1 == i).map(|h| h.0).collect();
            (!hs.is_empty()).then(|| action_set(&format!("s{i}"), &hs, &[], &tell(i)))
        })
        .collect();
    let f = config("deny", "deny", &sets, "");
    let n = sym::choice("length", sym::u8("@n") as usize + 1);
    let host = sym::over("host", n, b"abcB.-$:");
    let h = Host::new();
    h.setv("request.host", host.as_bytes());
    let p = Proxy::start(f, &h);
    let name: Vec<u8> = host.bytes().take_while(|b| *b != b':').collect();
    // an empty first label is no host name
    sym::assume(name.first() != Some(&b'.'));
    let want = best(&hosts, &name);
    let r = h.replies();
    match want {
        Some(i) => {
            sym::mark(if i == 5 { "catch-all" } else if i == 1 || i == 2 { "wildcard" } else { "exact" });
            sym::check(r.len() == 1 && r[0].0 == 400 + i as u32, "the most specific hostname decides");
        }
        None => {
            sym::mark("no match");
            sym::check(r.is_empty() && p.built == Ok(false) && p.flow == Flow::Go && h.calls().is_empty(), "a request for another host is left alone");
        }
    }
}
/// A host that cannot be read is a failure, not a pass.
pub fn c09_unreadable() {
    let f = config("deny", "deny", &[set("a", &tell(0)), set("*", &tell(1))], "");
    let h = Host::new();
    match sym::choice("host", 4) {
        0 => h.set("request.host", A::None),
        1 => h.set("request.host", A::Pending),
        2 => h.set("request.host", A::Err),
        _ => {
            let b = sym::bytes("host", 2);
            sym::assume(std::str::from_utf8(&b).is_err());
            h.setv("request.host", &b);
        }
    }
    let p = Proxy::start(f, &h);
    sym::check(p.built == Err(()) && h.n_replies() == 1 && h.replies()[0].0 == 500, "a request whose host cannot be read is refused");
}

/// Three action sets of one host with route predicates, and a less specific one.
pub fn c10_routes() {
    let p = "request.headers['x-p'] == 'y'";
    let q = "request.method == 'GET' || request.method == 'M'";
    let r = "request.url_path.startsWith('/a')";
    let n = "int(request.headers['x-p']) > 4";
    let cases: [[&[&str]; 3]; 4] = [[&[p, q], &[q], &[]], [&[q, r], &[p], &[r]], [&[r], &[n], &[q]], [&[q, p, r], &[n, q], &[p]]];
    let mut sets = vec![];
    for (k, c) in cases.iter().enumerate() {
        for (i, ps) in c.iter().enumerate() {
            sets.push(action_set(&format!("s{k}-{i}"), &[&format!("h{k}.x")], ps, &tell(i)));
        }
    }
    sets.push(action_set("w", &["*.x"], &[], &tell(9)));
    let f = config("deny", "deny", &sets, "");
    let k = sym::choice("case", cases.len());
    let h = Host::new();
    h.with(|s| s.log = false);
    h.setv("request.host", format!("h{k}.x").as_bytes());
    let method = sym::over("method", 1, b"MN");
    h.setv("request.method", method.as_bytes());
    let n_path = sym::choice("path length", 3);
    let path = format!("/{}", sym::over("path", n_path, b"ab/"));
    let known = sym::choice("path state", 4);
    match known {
        0 => h.setv("request.url_path", path.as_bytes()),
        1 => h.set("request.url_path", A::Pending),
        2 => h.set("request.url_path", A::Err),
        _ => h.set("request.url_path", A::None),
    }
    let named = sym::bool("header present");
    let v = sym::over("value", 1, b"y59-");
    h.with(|s| s.req_headers = vec![((if named { "x-p" } else { "x-q" }).to_string(), v.clone())]);
    let pr = Proxy::start(f, &h);
    // reference: None is an evaluation failure
    let eval = |e: &str| -> Option<bool> {
        if e == p {
            named.then(|| v == "y")
        } else if e == q {
            Some(method == "M")
        } else if e == r {
            (known == 0).then(|| path.starts_with("/a"))
        } else {
            let d = v.as_bytes()[0];
            (named && d.is_ascii_digit()).then(|| d > b'4')
        }
    };
    let mut want = Ok(None);
    'sets: for (i, ps) in cases[k].iter().enumerate() {
        for e in ps.iter() {
            match eval(e) {
                None => {
                    want = Err(());
                    break 'sets;
                }
                Some(false) => continue 'sets,
                Some(true) => {}
            }
        }
        want = Ok(Some(i));
        break;
    }
    let r = h.replies();
    match want {
        Ok(Some(i)) => {
            sym::mark("selected");
            sym::check(r.len() == 1 && r[0].0 == 400 + i as u32, "the first action set whose predicates all hold applies");
        }
        Ok(None) => {
            sym::mark("none");
            sym::check(r.is_empty() && pr.built == Ok(false), "no action set applies when no predicates hold");
        }
        Err(()) => {
            sym::mark("failure");
            sym::check(r.len() == 1 && r[0].0 == 500 && pr.built == Err(()), "a route predicate that cannot be evaluated refuses the request");
        }
    }
}

fn data(preds: &[&str], k: &str, v: &str) -> String {
    let p: Vec<String> = preds.iter().map(|h| format!("\"{h}\"")).collect();
    format!(r#"{{"predicates":[{}],"data":[{{"static":{{"key":"{k}","value":"{v}"}}}}]}}"#, p.join(","))
}
/// Predicates of legacy actions: an action's predicates must all hold, and one of its data blocks'
/// predicates; a block's entries are sent exactly when its predicates hold.
pub fn c10_legacy() {
    let h1 = "request.headers['x-a'] == 't'";
    let h2 = "request.headers['x-b'] == 't'";
    let or = "request.headers['x-a'] == 't' || request.headers['x-c'] == 't'";
    let tern = "request.headers['x-c'] == 't' ? request.headers['x-a'] == 't' : request.headers['x-b'] == 't'";
    let not = "!(request.headers['x-b'] == 't')";
    // (action predicates, blocks of predicates)
    let cases: Vec<(Vec<&str>, Vec<Vec<&str>>)> = vec![
        (vec![], vec![vec![h1]]),
        (vec![h1], vec![vec![]]),
        (vec![h1, h2], vec![vec![]]),
        (vec![or, h2], vec![vec![]]),
        (vec![or], vec![vec![h2]]),
        (vec![], vec![vec![h1], vec![h2]]),
        (vec![], vec![vec![or, h2], vec![not]]),
        (vec![h2], vec![vec![h1], vec![]]),
        (vec![or], vec![vec![h1, h2], vec![or, not]]),
        (vec![], vec![vec![or], vec![h2]]),
        (vec![tern], vec![vec![]]),
        (vec![tern, or], vec![vec![h2]]),
        (vec![tern], vec![vec![or]]),
        (vec![], vec![vec![tern], vec![or]]),
        (vec![], vec![vec![h2], vec![tern]]),
        (vec![], vec![vec![tern], vec![h2]]),
        (vec![], vec![vec![tern, not]]),
        (vec![not], vec![vec![h1], vec![h2], vec![or]]),
    ];
    let svc = sym::choice("service", 3);
    let mut sets = vec![];
    for (k, (ap, blocks)) in cases.iter().enumerate() {
        let b: Vec<String> = blocks.iter().enumerate().map(|(i, ps)| data(ps, &format!("k{i}"), &format!("v{i}"))).collect();
        let p: Vec<String> = ap.iter().map(|h| format!("\"{h}\"")).collect();
        let s = ["rl", "check", "report"][svc];
        sets.push(set(&format!("h{k}"), &format!(r#"{{"service":"{s}","scope":"s","predicates":[{}],"conditionalData":[{}]}}"#, p.join(","), b.join(","))));
    }
    let f = config("deny", "deny", &sets, "");
    let k = sym::choice("case", cases.len());
    let h = Host::new();
    h.with(|s| s.log = false);
    h.setv("request.host", format!("h{k}").as_bytes());
    let vals = [sym::over("a", 1, b"tf"), sym::over("b", 1, b"tf"), sym::over("c", 1, b"tf")];
    h.with(|s| s.req_headers = ["x-a", "x-b", "x-c"].iter().zip(&vals).map(|(k, v)| (k.to_string(), v.clone())).collect());
    let mut p = Proxy::start(f, &h);
    if svc == 2 {
        p.response_headers();
        p.response_body(b"", true);
    }
    let (a, b, c) = (vals[0] == "t", vals[1] == "t", vals[2] == "t");
    let eval = |e: &str| {
        if e == h1 {
            a
        } else if e == h2 {
            b
        } else if e == or {
            a || c
        } else if e == not {
            !b
        } else if c {
            a
        } else {
            b
        }
    };
    let (ap, blocks) = &cases[k];
    let on: Vec<bool> = blocks.iter().map(|ps| ps.iter().all(|e| eval(e))).collect();
    let applies = ap.iter().all(|e| eval(e)) && on.iter().any(|x| *x);
    sym::check(h.calls().len() == applies as usize, "an action applies exactly when its predicates and one of its data blocks' hold");
    if h.calls().len() == 1 && applies {
        sym::mark("called");
        let up = ["rl", "check", "report"][svc];
        let m = h.call_msg(up).and_then(|m| pb::parse(&m)).unwrap_or_default();
        let d = pb::subs(&m, 2);
        let mut got = vec![];
        if let Some(d) = d.first().and_then(|d| pb::parse(d)) {
            for e in pb::subs(&d, 1) {
                let e = pb::parse(&e).unwrap_or_default();
                got.push((pb::sub(&e, 1).unwrap_or_default(), pb::sub(&e, 2).unwrap_or_default()));
            }
        }
        let want: Vec<(Vec<u8>, Vec<u8>)> = on.iter().enumerate().filter(|x| *x.1).map(|(i, _)| (format!("k{i}").into_bytes(), format!("v{i}").into_bytes())).collect();
        sym::check(d.len() == 1 && got == want, "exactly the entries whose predicates hold are sent");
    } else {
        sym::mark("not called");
        sym::check(h.n_replies() == 0 && p.flow == Flow::Go, "an action that does not apply lets the request through");
    }
}
