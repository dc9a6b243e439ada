//! Descriptors of foreign services: which are asked for, which are used, across every history of
//! fetches, replies, losses and reconfigurations.
use crate::conv::{answer, file, fld, msg};
use crate::flow::*;
use crate::host::*;
use crate::pb::{self, cat, ld};
use crate::sym;

/// Descriptors of one service t.v1.NAME with Do(M) returns (M)
fn fds(name: &str) -> Vec<u8> {
    let m = msg("M", &[fld("s", 1, 9, "")], &[]);
    let svc = cat(&[ld(1, name.as_bytes()), ld(2, &cat(&[ld(1, b"Do"), ld(2, b".t.v1.M"), ld(3, b".t.v1.M")]))]);
    file("t.proto", "t.v1", &[], &[ld(4, &m), ld(6, &svc)])
}
/// The same as the rate limit service, in the words of somebody else.
fn impostor() -> Vec<u8> {
    let m = msg("M", &[fld("s", 1, 9, "")], &[]);
    let svc = cat(&[ld(1, b"RateLimitService"), ld(2, &cat(&[ld(1, b"ShouldRateLimit"), ld(2, b".envoy.service.ratelimit.v3.M"), ld(3, b".envoy.service.ratelimit.v3.M")]))]);
    file("t.proto", "envoy.service.ratelimit.v3", &[], &[ld(4, &m), ld(6, &svc)])
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Unknown,
    Missing,
    Pending(u32),
    Here,
}
const KEYS: [(&str, &str, &str); 3] = [("c1", "t.v1.A", "A"), ("c1", "t.v1.B", "B"), ("c2", "t.v1.A", "A")];
const RLS: &str = "envoy.service.ratelimit.v3.RateLimitService";

pub fn c23_descriptors() {
    let svc = |n: &str, c: &str, s: &str, fm: &str| format!(r#""{n}":{{"type":"dynamic","endpoint":"{c}","failureMode":"{fm}","timeout":"1s","grpcService":"{s}","grpcMethod":"Do"}}"#);
    let act = |n: &str| format!(r#"{{"type":"grpc","predicate":"true","terminal":false,"var":"r","service":"{n}","messageBuilder":"t.v1.M {{ s: 'x' }}","onReply":[]}}"#);
    let json = format!(
        r#"{{"services":{{{},{},"rl":{{"type":"ratelimit","endpoint":"rl","failureMode":"deny","timeout":"1s"}}}},"actionSets":[{},{},{}]}}"#,
        svc("a", "c1", "t.v1.A", "deny"),
        svc("b", "c1", "t.v1.B", "allow"),
        set("a", &act("a")),
        set("b", &act("b")),
        set("rl", RL)
    );
    let (f, dm) = factory_and_descriptors(&json);
    let good = [fds("A"), fds("B")];
    let bad = impostor();
    let root = Host::new();
    root.with(|s| s.log = false);
    dm.set_descriptor_service("desc");
    let mut st = [S::Missing, S::Missing, S::Unknown];
    let mut asked = "desc";
    let mut tokens: Vec<u32> = vec![];
    let steps = sym::u8("@n") as usize;
    // longer histories of plain replies
    let brief = sym::u8("@brief") == 1;
    for k in 0..=steps {
        let op = if k == 0 { sym::choice("first", 2) } else { sym::choice(&format!("step {k}"), if tokens.len() > 1 { 7 } else { 6 }) };
        match op {
            0 | 1 => {
                // the filter is configured, or its clock ticks
                let lost = op == 1;
                root.with(|s| s.fail_dispatch = if lost { vec![asked.to_string()] } else { vec![] });
                let before = root.calls().len();
                let r = dm.fetch_missing(&*root);
                let missing: Vec<usize> = (0..3).filter(|i| st[*i] == S::Missing).collect();
                let ev = root.events();
                let new = &ev[before..];
                if missing.is_empty() {
                    sym::mark("nothing to ask");
                    sym::check(new.is_empty() && r.is_ok(), "nothing is asked for when nothing is missing");
                } else if lost {
                    sym::mark("not sent");
                    sym::check(new.is_empty() && r.is_err(), "a fetch that cannot be sent is an error");
                } else {
                    sym::mark("asked");
                    sym::check(r.is_ok() && new.len() == 1, "one fetch asks for what is missing");
                    if let Some(Ev::Call { token, upstream, service, method, msg, .. }) = new.first() {
                        sym::check(upstream == asked && service == "kuadrant.v1.DescriptorService" && method == "GetServiceDescriptors", "the descriptor service is asked");
                        let refs: Vec<_> = pb::parse(msg).map(|m| pb::subs(&m, 1)).unwrap_or_default();
                        let refs: Vec<_> = refs.iter().map(|r| (pb::path(r, &[1]).unwrap_or_default(), pb::path(r, &[2]).unwrap_or_default())).collect();
                        let all = missing.iter().all(|i| refs.contains(&(KEYS[*i].0.as_bytes().to_vec(), KEYS[*i].1.as_bytes().to_vec())));
                        sym::check(refs.len() == missing.len() && all, "exactly the missing descriptors are asked for");
                        tokens.push(*token);
                        for i in missing {
                            st[i] = S::Pending(*token);
                        }
                    }
                }
            }
            2 => {
                // another configuration: a service more, and one that is known, asked for elsewhere
                asked = if asked == "desc" { "other" } else { "desc" };
                dm.set_descriptor_service(asked);
                dm.add_expected(kuadrant_filter::filter::DescriptorKey::new(KEYS[2].0.to_string(), KEYS[2].1.to_string()));
                dm.add_expected(kuadrant_filter::filter::DescriptorKey::new(KEYS[0].0.to_string(), KEYS[0].1.to_string()));
                if st[2] == S::Unknown {
                    st[2] = S::Missing;
                }
                sym::mark("reconfigured");
            }
            _ => {
                // a reply: to the last fetch, to the one before, to none at all, or a failure
                let t = match op {
                    3 => tokens.last().copied().unwrap_or(77),
                    4 => tokens.last().copied().unwrap_or(77),
                    5 => 99,
                    _ => tokens[tokens.len() - 2],
                };
                if op != 4 {
                    let known = st.iter().any(|s| *s == S::Pending(t));
                    let n = if !known || brief { 2 * sym::choice("items", 2) } else { sym::choice("items", if k == 1 { 4 } else { 3 }) };
                    let mut items: Vec<(&str, &str, Vec<u8>)> = vec![];
                    let mut told = vec![];
                    let mut broken = false;
                    if n == 1 || n == 2 {
                        let c = ["c1", "c2"][if known && !brief { sym::choice("cluster", 2) } else { 0 }];
                        let s = if known && !brief { sym::choice("service", 2) } else { 0 };
                        let d = if known && !brief { sym::choice("descriptors", 3) } else { 0 };
                        items.push((c, ["t.v1.A", "t.v1.B"][s], if d == 2 { bad[..bad.len() - 1].to_vec() } else { good[d].clone() }));
                        if d == s {
                            told.push((c, ["t.v1.A", "t.v1.B"][s]));
                        } else {
                            broken = true;
                        }
                    }
                    if n == 2 {
                        items.push(("c1", "t.v1.B", good[1].clone()));
                        items.push(("rl", RLS, bad.clone()));
                        told.push(("c1", "t.v1.B"));
                    }
                    let mut bytes = answer(&items);
                    if n == 3 {
                        bytes = sym::bytes("reply", 2);
                        broken = pb::parse(&bytes).is_none();
                        // an item without anything in it is no descriptor of anything
                        broken |= pb::parse(&bytes).is_some_and(|m| m.iter().any(|f| f.0 == 1));
                    }
                    let r = dm.handle_response(t, bytes);
                    if known {
                        sym::mark("reply");
                        sym::check(r.is_err() == broken, "a reply is an error exactly when something in it is unusable");
                        for (i, k) in KEYS.iter().enumerate() {
                            if told.contains(&(k.0, k.1)) {
                                st[i] = S::Here;
                            }
                        }
                    } else {
                        sym::mark("stray reply");
                        sym::check(r.is_err(), "a reply to no fetch is an error");
                    }
                }
                dm.reset_pending(t);
                for s in &mut st {
                    if *s == S::Pending(t) {
                        *s = S::Missing;
                    }
                }
            }
        }
        for (i, k) in KEYS.iter().enumerate() {
            let p = dm.get_pool(k.0, k.1);
            sym::check(p.is_ok() == (st[i] == S::Here), "descriptors can be used exactly when they have arrived");
            if let Ok(p) = p {
                sym::check(p.get_service_by_name(k.1).is_some(), "the descriptors used are the service's own");
            }
        }
    }
    let p = dm.get_pool("rl", RLS);
    sym::check(p.is_ok_and(|p| p.get_message_by_name("envoy.service.ratelimit.v3.RateLimitRequest").is_some()), "built-in descriptors are not replaced");
    // a request that needs one of the services
    let w = if brief { 0 } else { sym::choice("request", 3) };
    let (h, p) = at(f, ["a", "b", "rl"][w]);
    if w == 2 || st[w] == S::Here {
        sym::mark("called");
        sym::check(h.calls().len() == 1 && p.flow == Flow::Held, "a service whose descriptors are there is called");
    } else if w == 0 {
        sym::mark("refused");
        sym::check(h.calls().is_empty() && h.n_replies() == 1 && h.replies()[0].0 == 500 && p.flow == Flow::Answered, "deny: without descriptors the request is refused");
    } else {
        sym::mark("let through");
        sym::check(h.calls().is_empty() && h.n_replies() == 0 && p.flow == Flow::Go, "allow: without descriptors the request goes on");
    }
}
