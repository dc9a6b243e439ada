//! Messages built for a service of a foreign type, and its replies, over a type the descriptor
//! service delivered: what goes over the wire is what the expressions say.
use crate::flow::set;
use crate::host::*;
use crate::pb::{self, cat, ld, vi, F};
use crate::sym;
use kuadrant_filter::kuadrant::PipelineFactory;
use std::sync::Arc;

// ---- the type
const LABEL_REP: u64 = 3;
pub fn fld(name: &str, n: u64, ty: u64, type_name: &str) -> Vec<u8> {
    field(name, n, ty, type_name, 1, None, false)
}
fn rep(name: &str, n: u64, ty: u64, type_name: &str) -> Vec<u8> {
    field(name, n, ty, type_name, LABEL_REP, None, false)
}
fn field(name: &str, n: u64, ty: u64, type_name: &str, label: u64, oneof: Option<u64>, optional: bool) -> Vec<u8> {
    let mut m = cat(&[ld(1, name.as_bytes()), vi(3, n), vi(4, label), vi(5, ty)]);
    if !type_name.is_empty() {
        m.extend(ld(6, type_name.as_bytes()));
    }
    if let Some(o) = oneof {
        m.extend(vi(9, o));
    }
    if optional {
        m.extend(vi(17, 1));
    }
    m
}
pub fn msg(name: &str, fields: &[Vec<u8>], rest: &[Vec<u8>]) -> Vec<u8> {
    let mut m = ld(1, name.as_bytes());
    for f in fields {
        m.extend(ld(2, f));
    }
    m.extend(cat(rest));
    m
}
fn entry(name: &str, key: u64, val: u64, val_type: &str) -> Vec<u8> {
    ld(3, &msg(name, &[fld("key", 1, key, ""), fld("value", 2, val, val_type)], &[ld(7, &vi(7, 1))]))
}
fn enum_(name: &str, vals: &[(&str, i64)]) -> Vec<u8> {
    let mut m = ld(1, name.as_bytes());
    for (n, v) in vals {
        m.extend(ld(2, &cat(&[ld(1, n.as_bytes()), vi(2, *v as u64)])));
    }
    m
}
pub fn file(name: &str, package: &str, deps: &[&str], rest: &[Vec<u8>]) -> Vec<u8> {
    let mut m = cat(&[ld(1, name.as_bytes()), ld(2, package.as_bytes())]);
    for d in deps {
        m.extend(ld(3, d.as_bytes()));
    }
    m.extend(cat(rest));
    m.extend(ld(12, b"proto3"));
    ld(1, &m)
}
const STR: u64 = 9;
const MSG: u64 = 11;
const I32: u64 = 5;
/// The descriptors of a service t.v1.S with Do(M) returns (M), and of the services in `more`.
pub fn descriptors(service: &str) -> Vec<u8> {
    let ts = file("google/protobuf/timestamp.proto", "google.protobuf", &[], &[ld(4, &msg("Timestamp", &[fld("seconds", 1, 3, ""), fld("nanos", 2, I32, "")], &[]))]);
    let kind = |n: &str, k: u64, ty: u64, tn: &str| field(n, k, ty, tn, 1, Some(0), false);
    let st = file(
        "google/protobuf/struct.proto",
        "google.protobuf",
        &[],
        &[
            ld(4, &msg("Struct", &[rep("fields", 1, MSG, ".google.protobuf.Struct.FieldsEntry")], &[entry("FieldsEntry", STR, MSG, ".google.protobuf.Value")])),
            ld(
                4,
                &msg(
                    "Value",
                    &[
                        kind("null_value", 1, 14, ".google.protobuf.NullValue"),
                        kind("number_value", 2, 1, ""),
                        kind("string_value", 3, STR, ""),
                        kind("bool_value", 4, 8, ""),
                        kind("struct_value", 5, MSG, ".google.protobuf.Struct"),
                        kind("list_value", 6, MSG, ".google.protobuf.ListValue"),
                    ],
                    &[ld(8, &ld(1, b"kind"))],
                ),
            ),
            ld(4, &msg("ListValue", &[rep("values", 1, MSG, ".google.protobuf.Value")], &[])),
            ld(5, &enum_("NullValue", &[("NULL_VALUE", 0)])),
        ],
    );
    let fields = [
        fld("i32", 1, I32, ""),
        fld("i64", 2, 3, ""),
        fld("u32", 3, 13, ""),
        fld("u64", 4, 4, ""),
        fld("s32", 5, 17, ""),
        fld("s64", 6, 18, ""),
        fld("f32", 7, 7, ""),
        fld("f64", 8, 6, ""),
        fld("sf32", 9, 15, ""),
        fld("sf64", 10, 16, ""),
        fld("b", 11, 8, ""),
        fld("s", 12, STR, ""),
        fld("y", 13, 12, ""),
        fld("e", 14, 14, ".t.v1.E"),
        fld("fl", 15, 2, ""),
        fld("d", 16, 1, ""),
        fld("n", 17, MSG, ".t.v1.N"),
        fld("t", 18, MSG, ".google.protobuf.Timestamp"),
        rep("ri", 19, I32, ""),
        rep("rs", 20, STR, ""),
        rep("ms", 21, MSG, ".t.v1.M.MsEntry"),
        rep("mi", 22, MSG, ".t.v1.M.MiEntry"),
        rep("mu", 23, MSG, ".t.v1.M.MuEntry"),
        rep("mb", 24, MSG, ".t.v1.M.MbEntry"),
        field("o", 25, I32, "", 1, Some(1), true),
        fld("val", 26, MSG, ".google.protobuf.Value"),
        fld("st", 27, MSG, ".google.protobuf.Struct"),
        rep("rn", 28, MSG, ".t.v1.N"),
        rep("mn", 29, MSG, ".t.v1.M.MnEntry"),
        rep("ru", 30, 13, ""),
        field("os", 31, STR, "", 1, Some(0), false),
        field("oi", 32, I32, "", 1, Some(0), false),
        rep("ml", 33, MSG, ".t.v1.M.MlEntry"),
    ];
    let m = msg(
        "M",
        &fields,
        &[
            entry("MsEntry", STR, STR, ""),
            entry("MiEntry", I32, STR, ""),
            entry("MuEntry", 13, STR, ""),
            entry("MbEntry", 8, STR, ""),
            entry("MnEntry", STR, MSG, ".t.v1.N"),
            entry("MlEntry", 3, STR, ""),
            ld(8, &ld(1, b"c")),
            ld(8, &ld(1, b"_o")),
        ],
    );
    let n = msg("N", &[fld("v", 1, I32, ""), fld("s", 2, STR, "")], &[]);
    let svc = cat(&[ld(1, service.as_bytes()), ld(2, &cat(&[ld(1, b"Do"), ld(2, b".t.v1.M"), ld(3, b".t.v1.M")]))]);
    cat(&[
        ts,
        st,
        file(
            "t/v1/t.proto",
            "t.v1",
            &["google/protobuf/timestamp.proto", "google/protobuf/struct.proto"],
            &[ld(4, &m), ld(4, &n), ld(5, &enum_("E", &[("ZERO", 0), ("ONE", 1), ("FIVE", 5), ("MINUS", -1)])), ld(6, &svc)],
        ),
    ])
}
pub fn answer(items: &[(&str, &str, Vec<u8>)]) -> Vec<u8> {
    cat(&items.iter().map(|(c, s, d)| ld(1, &cat(&[ld(1, c.as_bytes()), ld(2, s.as_bytes()), ld(3, d)]))).collect::<Vec<_>>())
}
/// A plugin whose dynamic service "t" was described by the descriptor service.
pub fn plugin(sets: &[String]) -> &'static PipelineFactory {
    let json = format!(
        r#"{{"services":{{"t":{{"type":"dynamic","endpoint":"t","failureMode":"deny","timeout":"1s","grpcService":"t.v1.S","grpcMethod":"Do"}}}},"actionSets":[{}]}}"#,
        sets.join(",")
    );
    let (f, dm) = factory_and_descriptors(&json);
    let h = Host::new();
    h.with(|s| s.log = false);
    dm.set_descriptor_service("desc");
    assert!(dm.has_expected() && dm.fetch_missing(&*h).is_ok());
    let t = h.calls()[0].0;
    assert!(dm.handle_response(t, answer(&[("t", "t.v1.S", descriptors("S"))])).is_ok());
    f
}
pub fn call(m: &str, on_reply: &str) -> String {
    format!(r#"{{"type":"grpc","predicate":"true","terminal":false,"var":"r","service":"t","messageBuilder":"{m}","onReply":[{on_reply}]}}"#)
}
pub fn begin(f: &PipelineFactory, host: &str) -> Arc<Host> {
    let _ = f;
    let h = Host::new();
    h.with(|s| s.log = false);
    h.setv("request.host", host.as_bytes());
    h
}

// ---- what the wire says
/// The value of a scalar field of type `ty`, as a signed 128-bit number (absent: 0), None when the
/// field is not of the type.
fn number(m: &[(u32, F)], n: u32, ty: u64) -> Option<i128> {
    let mut v = Some(0);
    for (k, f) in m {
        if *k != n {
            continue;
        }
        v = match (ty, f) {
            (3, F::V(x)) => Some(*x as i64 as i128),
            (I32 | 14, F::V(x)) => Some(*x as i32 as i128),
            (4, F::V(x)) => Some(*x as i128),
            (13, F::V(x)) => Some(*x as u32 as i128),
            (8, F::V(x)) => Some((*x != 0) as i128),
            (17, F::V(x)) => Some((((*x as u32) >> 1) as i32 ^ -((*x & 1) as i32)) as i128),
            (18, F::V(x)) => Some(((*x >> 1) as i64 ^ -((*x & 1) as i64)) as i128),
            (7, F::I32(x)) => Some(u32::from_le_bytes(*x) as i128),
            (15, F::I32(x)) => Some(i32::from_le_bytes(*x) as i128),
            (6, F::I64(x)) => Some(u64::from_le_bytes(*x) as i128),
            (16, F::I64(x)) => Some(i64::from_le_bytes(*x) as i128),
            _ => return None,
        };
    }
    v
}
fn only(m: &[(u32, F)], n: u32) -> bool {
    m.iter().all(|(k, _)| *k == n)
}
/// (field, number, wire type, name)
const INTS: [(&str, u32, u64); 5] = [("i32", 1, I32), ("i64", 2, 3), ("s32", 5, 17), ("s64", 6, 18), ("e", 14, 14)];
const INTS2: [(&str, u32, u64); 2] = [("sf32", 9, 15), ("sf64", 10, 16)];
const UINTS: [(&str, u32, u64); 4] = [("u32", 3, 13), ("u64", 4, 4), ("f32", 7, 7), ("f64", 8, 6)];
fn fits(ty: u64, v: i128) -> bool {
    match ty {
        I32 | 17 | 15 => v >= i32::MIN as i128 && v <= i32::MAX as i128,
        13 | 7 => v >= 0 && v <= u32::MAX as i128,
        14 => v == 0 || v == 1 || v == 5 || v == -1,
        _ => true,
    }
}
fn ints() -> Vec<(&'static str, u32, u64)> {
    INTS.iter().chain(INTS2.iter()).copied().collect()
}
/// Where in the message the value is put
const PLACES: usize = 4;
fn sets(place: usize) -> Vec<String> {
    let mut v = vec![];
    let lit = |n: &str, x: &str| match place {
        0 => format!("t.v1.M {{ {n}: {x} }}"),
        _ => unreachable!(),
    };
    for (n, _, _) in ints() {
        v.push(set(n, &call(&lit(n, "source.port"), "")));
    }
    for (n, _, _) in UINTS {
        v.push(set(n, &call(&lit(n, "connection.id"), "")));
    }
    v
}
pub fn failed(h: &Host, p: &Proxy) -> bool {
    let r = h.replies();
    h.calls().is_empty() && r.len() == 1 && r[0].0 == 500 && p.flow == Flow::Answered
}

/// Whole numbers: a 64-bit attribute reaches every kind of number field as it is, or the call fails.
pub fn c13_numbers() {
    let f = plugin(&[
        sets(0),
        vec![
            set("n", &call("t.v1.M { n: t.v1.N { v: source.port } }", "")),
            set("ri", &call("t.v1.M { ri: [1, source.port] }", "")),
            set("ru", &call("t.v1.M { ru: [connection.id] }", "")),
            set("o", &call("t.v1.M { o: source.port }", "")),
            set("rn", &call("t.v1.M { rn: [t.v1.N { v: source.port }, t.v1.N { s: 'a' }] }", "")),
            set("oi", &call("t.v1.M { oi: source.port }", "")),
        ],
    ].concat());
    let all: Vec<(&str, u32, u64)> = ints().into_iter().chain(UINTS).chain([("n", 17, I32), ("ri", 19, I32), ("ru", 30, 13), ("o", 25, I32), ("rn", 28, I32), ("oi", 32, I32)]).collect();
    let (name, n, ty) = all[sym::choice("field", all.len())];
    let unsigned = matches!(ty, 13 | 4 | 7 | 6);
    let attr = if unsigned { "connection.id" } else { "source.port" };
    let h = begin(f, name);
    let how = sym::choice("attribute", 6);
    let raw = sym::bytes("raw", [8, 7, 9, 0, 8, 8][how]);
    match how {
        3 => h.set(attr, A::None),
        4 => h.set(attr, A::Err),
        5 => h.set(attr, A::Pending),
        _ => h.setv(attr, &raw),
    }
    let mut p = Proxy::start(f, &h);
    if how == 5 {
        sym::check(h.calls().is_empty() && h.n_replies() == 0, "nothing is decided before the value is there");
        h.setv(attr, &raw);
        p.request_body(b"x", true);
        sym::mark("later");
    } else if how > 0 {
        sym::check(failed(&h, &p), "a value that cannot be read fails the call");
        return;
    }
    let v = u64::from_le_bytes(raw[..8].try_into().unwrap());
    let v = if unsigned { v as i128 } else { v as i64 as i128 };
    if !fits(ty, v) {
        sym::mark("does not fit");
        sym::check(failed(&h, &p), "a value the field cannot hold fails the call");
        return;
    }
    sym::mark("fits");
    sym::check(h.calls().len() == 1 && h.n_replies() == 0, "the call is made");
    let Some(b) = h.call_msg("t") else { return };
    let m = pb::parse(&b).unwrap_or_default();
    let got = match name {
        "n" => pb::sub(&m, 17).and_then(|s| pb::parse(&s)).and_then(|s| number(&s, 1, I32)),
        "rn" => {
            let s = pb::subs(&m, 28);
            if s.len() == 2 && s[1] == ld(2, b"a") { pb::parse(&s[0]).and_then(|s| number(&s, 1, I32)) } else { None }
        }
        // packed
        "ri" => pb::sub(&m, 19).and_then(|s| packed(&s)).filter(|x| x.len() == 2 && x[0] == 1).map(|x| x[1] as i32 as i128),
        "ru" => pb::sub(&m, 30).and_then(|s| packed(&s)).filter(|x| x.len() == 1).map(|x| x[0] as i128),
        "o" | "oi" => if m.len() == 1 { number(&m, n, ty) } else { None },
        _ => number(&m, n, ty),
    };
    sym::check(got == Some(v) && only(&m, n), "the field holds the value");
}
fn packed(b: &[u8]) -> Option<Vec<u64>> {
    // a varint list: read as the values of fields numbered 1
    let mut o = vec![];
    let mut from = 0;
    for (i, x) in b.iter().enumerate() {
        if *x < 0x80 {
            let m = pb::parse(&[&[8u8][..], &b[from..=i]].concat())?;
            o.push(pb::num(&m, 1)?);
            from = i + 1;
        }
    }
    (from == b.len()).then_some(o)
}

/// Everything else: text, bytes, truth values, moments, maps and lists, the wrong types, absence.
pub fn c13_others() {
    let t = |e: &str| call(&format!("t.v1.M {{ {e} }}"), "");
    const EXPRS: [(&str, &str, &str); 25] = [
        ("s", "s: request.method", "request.method"),
        ("y", "y: request.raw_body", "request.raw_body"),
        ("b", "b: connection.mtls", "connection.mtls"),
        ("t", "t: request.time", "request.time"),
        ("rs", "rs: [request.method, 'x']", "request.method"),
        ("ms", "ms: {'k': request.method}", "request.method"),
        ("mn", "mn: {'k': t.v1.N { s: request.method }}", "request.method"),
        ("os", "os: request.method", "request.method"),
        ("mi", "mi: {source.port: 'v'}", "source.port"),
        ("ml", "ml: {source.port: 'v'}", "source.port"),
        ("mu", "mu: {connection.id: 'v'}", "connection.id"),
        ("mb", "mb: {connection.mtls: 'v'}", "connection.mtls"),
        ("d", "d: double(source.port)", "source.port"),
        ("fl", "fl: double(source.port)", "source.port"),
        ("all", "i32: source.port, s: request.method, n: t.v1.N { v: 7 }, rs: [request.method]", "request.method"),
        // values of a wrong type
        ("w1", "i32: request.method", "request.method"),
        ("w2", "s: source.port", "source.port"),
        ("w3", "mi: {request.method: 'v'}", "request.method"),
        ("w4", "ms: {source.port: 'v'}", "source.port"),
        ("w5", "ms: {connection.mtls: 'v'}", "connection.mtls"),
        ("w6", "mb: {request.method: 'v'}", "request.method"),
        ("w7", "mu: {source.port: 'v'}", "source.port"),
        ("w8", "mi: {connection.id: 'v'}", "connection.id"),
        ("w9", "u32: source.port", "source.port"),
        ("w10", "rs: request.method", "request.method"),
    ];
    let f = plugin(&EXPRS.iter().map(|e| set(e.0, &t(e.1))).collect::<Vec<_>>());
    let (name, _, attr) = EXPRS[sym::choice("field", EXPRS.len())];
    let h = begin(f, name);
    let mut int: i128 = 0;
    let missing = sym::bool("missing");
    let raw: Vec<u8> = match attr {
        _ if missing => vec![],
        "request.method" | "request.raw_body" => {
            let n = sym::choice("length", 3);
            if name == "w3" || name == "w6" { sym::over("text", n, b"a1").into_bytes() } else { sym::bytes("text", n) }
        }
        "connection.mtls" => {
            let b = sym::bytes("flag", sym::choice("length", 3));
            sym::assume(b.is_empty() || b[0] < 2);
            b
        }
        "request.time" => {
            const BASE: [i64; 7] = [0, -1_000_000_000, 1_700_000_000_000_000_000, i64::MAX - 65535, i64::MIN, 999_999_999 - 300, -40000];
            let mut o = sym::bytes("offset", sym::u8("@n") as usize);
            o.resize(2, 0);
            let v = BASE[sym::choice("moment", 7)] as i128 + u16::from_le_bytes([o[0], o[1]]) as i128;
            int = v;
            (v as i64).to_le_bytes().to_vec()
        }
        a => {
            const AT: [i128; 13] = [0, 1, -1, 4444, i32::MAX as i128, i32::MAX as i128 + 1, i32::MIN as i128, i32::MIN as i128 - 1, u32::MAX as i128, u32::MAX as i128 + 1, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128];
            let v = AT[sym::choice("number", 13)] as u64;
            int = if a == "connection.id" { v as i128 } else { v as i64 as i128 };
            v.to_le_bytes().to_vec()
        }
    };
    if missing {
        h.set(attr, A::None);
    } else {
        h.setv(attr, &raw);
    }
    let p = Proxy::start(f, &h);
    let text = std::str::from_utf8(&raw).is_ok();
    let ok = !missing
        && match name {
            "s" | "rs" | "ms" | "mn" | "os" | "all" => text,
            "b" | "mb" => raw.len() == 1,
            "mi" => fits(I32, int),
            "mu" => fits(13, int),
            "y" | "t" | "ml" | "d" | "fl" => true,
            _ => false,
        };
    if !ok {
        sym::mark(if missing { "missing" } else { "wrong" });
        sym::check(failed(&h, &p), "a value the field cannot hold fails the call");
        return;
    }
    sym::mark(name);
    sym::check(h.calls().len() == 1 && h.n_replies() == 0, "the call is made");
    let Some(b) = h.call_msg("t") else { return };
    let e = |n: u32, b: &[u8]| if b.is_empty() { vec![] } else { ld(n, b) };
    let m = pb::parse(&b).unwrap_or_default();
    let entry = |n: u32| pb::sub(&m, n).and_then(|s| pb::parse(&s)).filter(|_| m.len() == 1);
    let value_v = |x: &[(u32, F)]| pb::sub(x, 2).as_deref() == Some(b"v");
    let ok = match name {
        "s" => b == e(12, &raw),
        "y" => b == e(13, &raw),
        "b" => number(&m, 11, 8) == Some(raw[0] as i128) && only(&m, 11),
        "rs" => b == cat(&[ld(20, &raw), ld(20, b"x")]),
        "ms" => entry(21).is_some_and(|x| pb::sub(&x, 1).as_deref() == Some(b"k") && pb::sub(&x, 2).unwrap_or_default() == raw),
        "mn" => entry(29).is_some_and(|x| pb::sub(&x, 1).as_deref() == Some(b"k") && pb::sub(&x, 2).unwrap_or_default() == e(2, &raw)),
        "os" => b == ld(31, &raw),
        "mi" => entry(22).is_some_and(|x| number(&x, 1, I32) == Some(int) && value_v(&x)),
        "ml" => entry(33).is_some_and(|x| number(&x, 1, 3) == Some(int) && value_v(&x)),
        "mu" => entry(23).is_some_and(|x| number(&x, 1, 13) == Some(int) && value_v(&x)),
        "mb" => entry(24).is_some_and(|x| number(&x, 1, 8) == Some(raw[0] as i128) && value_v(&x)),
        "d" => b == if int == 0 { vec![] } else { [vec![0x81, 1], (int as f64).to_le_bytes().to_vec()].concat() },
        "fl" => b == if int == 0 { vec![] } else { [vec![0x7d], (int as f64 as f32).to_le_bytes().to_vec()].concat() },
        "t" => {
            let x = pb::sub(&m, 18).and_then(|s| pb::parse(&s)).unwrap_or_default();
            match (number(&x, 1, 3), number(&x, 2, I32)) {
                (Some(s), Some(n)) => m.len() == 1 && (0..1_000_000_000).contains(&n) && s * 1_000_000_000 + n == int,
                _ => false,
            }
        }
        _ => b.len() > 4 && number(&m, 1, I32) == Some(4444) && pb::sub(&m, 12).unwrap_or_default() == raw && pb::subs(&m, 20) == [raw.clone()] && pb::sub(&m, 17).as_deref() == Some(&[8, 7]),
    };
    sym::check(ok, "the field holds the value");
}

// ---- replies
/// A varint of `k` bytes, each symbolic, as the wire allows it.
fn wire_varint(name: &str, k: usize) -> Vec<u8> {
    let mut b = sym::bytes(name, k);
    for (i, x) in b.iter_mut().enumerate() {
        if i + 1 < k {
            *x |= 0x80;
        } else {
            sym::assume(*x < if k == 10 { 2 } else { 0x80 });
        }
    }
    b
}
fn tag(n: u32, w: u32) -> Vec<u8> {
    pb::varint((n << 3 | w) as u64)
}
/// Whole numbers of a reply reach the next message as they are.
pub fn c14_numbers() {
    let more: [(&str, u32, u64); 5] = [("b", 11, 8), ("n", 17, I32), ("ri", 19, I32), ("o", 25, I32), ("oi", 32, I32)];
    let all: Vec<(&str, u32, u64)> = ints().into_iter().chain(UINTS).chain(more).collect();
    let f = plugin(
        &all.iter()
            .map(|(n, _, _)| {
                let e = match *n {
                    "n" => "t.v1.M { n: t.v1.N { v: r.n.v } }".to_string(),
                    n => format!("t.v1.M {{ {n}: r.{n} }}"),
                };
                set(n, &call("t.v1.M { }", &call(&e, "")))
            })
            .collect::<Vec<_>>(),
    );
    let (name, n, ty) = all[sym::choice("field", all.len())];
    let h = begin(f, name);
    let mut p = Proxy::start(f, &h);
    let t = h.calls()[0].0;
    let one = |nm: &str| match ty {
        7 | 15 => [tag(n, 5), sym::bytes(nm, 4)].concat(),
        6 | 16 => [tag(n, 1), sym::bytes(nm, 8)].concat(),
        _ => {
            let v = wire_varint(nm, [1, 2, 5, 10][sym::choice("size", sym::u8("@n") as usize)]);
            match name {
                "n" => ld(n, &[vec![8], v].concat()),
                _ => [tag(n, 0), v].concat(),
            }
        }
    };
    let k = sym::choice("occurrences", 2);
    let mut reply = vec![];
    for i in 0..k {
        reply.extend(one(["a", "b"][i]));
    }
    let m = pb::parse(&reply).unwrap_or_default();
    p.reply(t, 0, &reply);
    let b = h.call_msg("t");
    let calls = h.calls().len();
    let second = h.events().into_iter().filter_map(|e| if let Ev::Call { msg, .. } = e { Some(msg) } else { None }).nth(1);
    let _ = b;
    let presence = matches!(name, "n" | "o" | "oi");
    if presence && k == 0 {
        sym::mark("absent");
        sym::check(calls == 1 && h.n_replies() == 1 && h.replies()[0].0 == 500, "a field the reply does not have fails what needs it");
        return;
    }
    let want = match name {
        "n" => pb::sub(&m, 17).and_then(|s| pb::parse(&s)).and_then(|s| number(&s, 1, I32)),
        _ => number(&m, n, ty),
    }
    .unwrap_or(0);
    if !fits(ty, want) {
        sym::mark("unknown enumerator");
        return;
    }
    sym::mark(if k == 0 { "default" } else { "present" });
    sym::check(h.n_replies() == 0 && calls == 2, "the reply is understood");
    let Some(s) = second else { return };
    let o = pb::parse(&s).unwrap_or_default();
    let got = match name {
        "n" => pb::sub(&o, 17).and_then(|s| pb::parse(&s)).and_then(|s| number(&s, 1, I32)),
        "ri" if k == 0 => if o.is_empty() { Some(0) } else { None },
        "ri" => pb::sub(&o, 19).and_then(|s| packed(&s)).filter(|x| x.len() == 1).map(|x| x[0] as i32 as i128),
        _ => number(&o, n, ty),
    };
    sym::check(got == Some(want) && only(&o, n), "the value is the one the reply holds");
}

/// The second call of a stream, if it was made.
fn nested(h: &Host) -> Option<Vec<u8>> {
    h.events().into_iter().filter_map(|e| if let Ev::Call { msg, .. } = e { Some(msg) } else { None }).nth(1)
}
/// Everything else a reply may hold.
pub fn c14_others() {
    const EXPRS: [(&str, &str); 30] = [
        ("s", "s: r.s"),
        ("y", "y: r.y"),
        ("t", "t: r.t"),
        ("rs", "rs: r.rs"),
        ("rs1", "s: r.rs[1]"),
        ("ri", "ri: r.ri"),
        ("n", "n: r.n"),
        ("rn", "rn: r.rn"),
        ("ms", "s: r.ms['k']"),
        ("mi", "s: r.mi[5]"),
        ("mu", "s: r.mu[5u]"),
        ("mb", "s: r.mb[true]"),
        ("mn", "s: r.mn['k'].s"),
        ("allms", "ms: r.ms"),
        ("os", "os: r.os"),
        ("d", "d: r.d"),
        ("fl", "fl: r.fl"),
        ("vs", "s: r.val"),
        ("vb", "b: r.val"),
        ("vn", "d: r.val"),
        ("v0", "b: r.val == null"),
        ("vl", "s: r.val[1]"),
        ("vst", "s: r.val.k"),
        ("st", "s: r.st.k"),
        ("st2", "s: r.st.k.k"),
        ("has", "b: has(r.n)"),
        ("haso", "b: has(r.o)"),
        ("hass", "b: has(r.os)"),
        ("size", "s: string(size(r.rs))"),
        ("keys", "b: 'k' in r.ms"),
    ];
    let f = plugin(&EXPRS.iter().map(|e| set(e.0, &call("t.v1.M { }", &call(&format!("t.v1.M {{ {} }}", e.1), "")))).collect::<Vec<_>>());
    let name = EXPRS[sym::choice("field", EXPRS.len())].0;
    let h = begin(f, name);
    let mut p = Proxy::start(f, &h);
    let t = h.calls()[0].0;
    let raw = |n: &str| sym::bytes(n, sym::choice(&format!("{n} length"), 3));
    let e = |n: u32, b: &[u8]| if b.is_empty() { vec![] } else { ld(n, b) };
    let kv = |k: &[u8], v: &[u8]| cat(&[k.to_vec(), v.to_vec()]);
    let val = |b: &[u8]| ld(3, b);
    const NUMS: [f64; 6] = [0.0, 1.5, -2.0, 1e300, f64::NAN, f64::NEG_INFINITY];
    // (reply, what the next message holds; None: the request is refused)
    let (reply, want): (Vec<u8>, Option<Vec<u8>>) = match name {
        "s" | "os" | "y" => {
            let a = raw("a");
            let (n, l) = match name { "s" => (12, false), "y" => (13, false), _ => (31, true) };
            let text = n == 13 || std::str::from_utf8(&a).is_ok();
            let absent = sym::bool("absent");
            if absent {
                (vec![], if l { None } else { Some(vec![]) })
            } else {
                (ld(n, &a), if !text { None } else { Some(if l { ld(n, &a) } else { e(n, &a) }) })
            }
        }
        "t" => {
            const SEC: [i64; 4] = [-1, -62135596800, 253402300799, 1_700_000_000];
            const NANO: [u64; 3] = [0, 999_999_999, 500_000_000];
            let i = sym::choice("seconds", 6);
            let s = if i < 2 { wire_varint("seconds value", i + 1) } else { pb::varint(SEC[i - 2] as u64) };
            let j = if i < 2 { 0 } else { sym::choice("nanos", 5) };
            let nn = if j < 2 { wire_varint("nanos value", j + 1) } else { pb::varint(NANO[j - 2]) };
            let m = pb::parse(&[vec![8], s.clone(), vec![16], nn.clone()].concat()).unwrap_or_default();
            let (sv, nv) = (number(&m, 1, 3).unwrap_or(0), number(&m, 2, I32).unwrap_or(0));
            let mut w = vec![];
            if sv != 0 { w.extend(vi(1, sv as u64)); }
            if nv != 0 { w.extend(vi(2, nv as u64)); }
            (ld(18, &[vec![8], s, vec![16], nn].concat()), Some(ld(18, &w)))
        }
        "rs" | "rs1" | "size" => {
            let (a, b) = (sym::ascii("a", 1), sym::ascii("b", 2));
            let k = sym::choice("count", 3);
            let r = [ld(20, a.as_bytes()), ld(20, b.as_bytes())][..k].concat();
            let w = match name {
                "rs" => Some(r.clone()),
                "rs1" => (k == 2).then(|| ld(12, b.as_bytes())),
                _ => Some(ld(12, &[b'0' + k as u8])),
            };
            (r, w)
        }
        "ri" => {
            let (a, b) = (wire_varint("a", 2), wire_varint("b", 1));
            let r = match sym::choice("form", 3) {
                0 => cat(&[tag(19, 0), a.clone(), tag(19, 0), b.clone()]),
                1 => ld(19, &[a.clone(), b.clone()].concat()),
                _ => cat(&[tag(19, 0), a.clone(), ld(19, &b)]),
            };
            let v = packed(&[a, b].concat()).unwrap_or_default();
            (r, Some(ld(19, &[pb::varint(v[0]), pb::varint(v[1])].concat())))
        }
        "n" => {
            let (v, a) = (wire_varint("v", 1), sym::ascii("a", 2));
            let v1 = if v[0] == 0 { vec![] } else { vec![8, v[0]] };
            let n = cat(&[vec![8, v[0]], ld(2, a.as_bytes())]);
            match sym::choice("form", 3) {
                0 => (ld(17, &n), Some(ld(17, &cat(&[v1, ld(2, a.as_bytes())])))),
                // split in two: parts of one message
                1 => (cat(&[ld(17, &[8, v[0]]), ld(17, &ld(2, a.as_bytes()))]), Some(ld(17, &cat(&[v1, ld(2, a.as_bytes())])))),
                _ => (vec![], None),
            }
        }
        "rn" => {
            let (a, b) = (sym::ascii("a", 1), sym::ascii("b", 2));
            let r = cat(&[ld(28, &ld(2, a.as_bytes())), ld(28, &[]), ld(28, &ld(2, b.as_bytes()))]);
            (r.clone(), Some(r))
        }
        "ms" | "mi" | "mu" | "mb" | "mn" | "allms" | "keys" => {
            let v = sym::ascii("value", 2);
            let v = v.as_bytes();
            let yes = sym::bool("other key");
            let (n, k): (u32, Vec<u8>) = match name {
                "mi" => (22, vi(1, if yes { 6 } else { 5 })),
                "mu" => (23, vi(1, if yes { 6 } else { 5 })),
                "mb" => (24, vi(1, !yes as u64)),
                "mn" => (29, ld(1, if yes { b"K" } else { b"k" })),
                _ => (21, ld(1, if yes { b"K" } else { b"k" })),
            };
            let x = if name == "mn" { ld(2, v) } else { v.to_vec() };
            let twice = sym::bool("twice");
            let old = ld(n, &kv(&k, &ld(2, if name == "mn" { b"" } else { b"old" })));
            let r = cat(&[if twice { old } else { vec![] }, ld(n, &kv(&k, &ld(2, &x)))]);
            let w = match name {
                "allms" => Some(ld(21, &kv(&k, &ld(2, v)))),
                "keys" => Some(if yes { vec![] } else { vi(11, 1) }),
                _ => (!yes).then(|| ld(12, v)),
            };
            (r, w)
        }
        "d" => {
            let x = NUMS[sym::choice("number", 6)];
            let r = [vec![0x81, 1], x.to_le_bytes().to_vec()].concat();
            (r.clone(), Some(if x == 0.0 { vec![] } else { r }))
        }
        "fl" => {
            let x = [0.0f32, 1.5, -2.0, 3e38][sym::choice("number", 4)];
            let r = [vec![0x7d], x.to_le_bytes().to_vec()].concat();
            (r.clone(), Some(if x == 0.0 { vec![] } else { r }))
        }
        "vs" | "vb" | "vn" | "v0" | "vl" | "vst" => {
            let a = sym::ascii("a", 2);
            let b = sym::bool("b");
            let x = NUMS[1 + sym::choice("number", 2)];
            let k = sym::choice("kind", 8);
            let v = match k {
                0 => vi(1, 0),
                1 => [vec![0x11], x.to_le_bytes().to_vec()].concat(),
                2 => val(a.as_bytes()),
                3 => vi(4, b as u64),
                4 => ld(5, &ld(1, &kv(&ld(1, b"k"), &ld(2, &val(a.as_bytes()))))),
                5 => ld(6, &cat(&[ld(1, &vi(4, 1)), ld(1, &val(a.as_bytes()))])),
                6 => vec![],
                // the last of several counts
                _ => cat(&[vi(4, 1), val(a.as_bytes())]),
            };
            let w = match (name, k) {
                ("vs", 2 | 7) => Some(ld(12, a.as_bytes())),
                ("vb", 3) => Some(if b { vi(11, 1) } else { vec![] }),
                ("vn", 1) => Some([vec![0x81, 1], x.to_le_bytes().to_vec()].concat()),
                ("v0", k) => Some(if k == 0 || k == 6 { vi(11, 1) } else { vec![] }),
                ("vl", 5) => Some(ld(12, a.as_bytes())),
                ("vst", 4) => Some(ld(12, a.as_bytes())),
                _ => None,
            };
            (ld(26, &v), w)
        }
        "st" | "st2" => {
            let a = sym::ascii("a", 2);
            let inner = val(a.as_bytes());
            let key = [&b"k"[..], b"", b"kk"][sym::choice("key", 3)];
            let v = if name == "st" { inner } else { ld(5, &ld(1, &kv(&ld(1, b"k"), &ld(2, &inner)))) };
            (ld(27, &ld(1, &kv(&ld(1, key), &ld(2, &v)))), (key == b"k").then(|| ld(12, a.as_bytes())))
        }
        "has" | "haso" | "hass" => {
            let there = sym::bool("there");
            let n = match name { "has" => ld(17, &[]), "haso" => vi(25, 0), _ => ld(31, b"") };
            (if there { n } else { vi(1, 1) }, Some(if there { vi(11, 1) } else { vec![] }))
        }
        _ => unreachable!(),
    };
    // a field the type does not know changes nothing
    let reply = if sym::bool("unknown field") { cat(&[vi(99, 7), reply, ld(98, b"abc")]) } else { reply };
    p.reply(t, 0, &reply);
    match want {
        Some(w) => {
            sym::mark(name);
            sym::check(h.n_replies() == 0 && h.calls().len() == 2, "the reply is understood");
            sym::check(nested(&h).is_some_and(|m| m == w), "the value is the one the reply holds");
        }
        None => {
            sym::mark("refused");
            sym::check(h.calls().len() == 1 && h.n_replies() == 1 && h.replies()[0].0 == 500, "a field the reply does not have fails what needs it");
        }
    }
}
