//! Values taken from event streams: those of the last event but one, as the event-stream format
//! defines events, however the stream is cut into chunks.
use crate::body::{begin, export, stored, J};
use crate::flow::*;
use crate::host::*;
use crate::{pb, sym};

/// The events with data of a stream, by the format's definition: UTF-8, one leading BOM dropped,
/// lines ending with CR LF, CR or LF, an unfinished event at the end dropped.
fn events(stream: &str) -> Vec<String> {
    let s = stream.strip_prefix('\u{feff}').unwrap_or(stream);
    let b = s.as_bytes();
    let mut out = vec![];
    let mut data: Vec<&str> = vec![];
    let mut i = 0;
    let mut from = 0;
    while i < b.len() {
        if b[i] != b'\r' && b[i] != b'\n' {
            i += 1;
            continue;
        }
        let line = &s[from..i];
        i += if b[i] == b'\r' && b.get(i + 1) == Some(&b'\n') { 2 } else { 1 };
        from = i;
        if line.is_empty() {
            // events whose data is empty are not counted
            if data.iter().any(|d| !d.is_empty()) {
                out.push(data.join("\n"));
            }
            data.clear();
        } else {
            let (name, value) = line.split_once(':').unwrap_or((line, ""));
            if name == "data" {
                data.push(value.strip_prefix(' ').unwrap_or(value));
            }
        }
    }
    out
}
/// What /u is in the documents used here
fn number(doc: &str) -> Option<u64> {
    let t: String = doc.chars().filter(|c| !c.is_whitespace()).collect();
    let t = t.strip_prefix("{\"u\":")?.strip_suffix('}')?;
    let t = t.strip_suffix(",\"s\":\"\u{e9}\u{1f600}\"").unwrap_or(t);
    t.parse().ok()
}
fn report() -> &'static str {
    r#"{"service":"report","scope":"sc","conditionalData":[{"data":[{"expression":{"key":"ratelimit.hits_addend","value":"responseBodyJSON('/u')"}}]}]}"#
}
fn sets() -> Vec<String> {
    vec![set("s", &export("v", "responseBodyJSON('/u')")), set("t", report())]
}
const TYPES: [&str; 3] = ["text/event-stream", "text/event-stream; charset=utf-8", "Text/Event-Stream"];

fn run(f: &kuadrant_filter::kuadrant::PipelineFactory, stream: &[u8], cuts: &[usize], store: bool, ct: usize, end_apart: bool) {
    let evs = events(std::str::from_utf8(stream).unwrap());
    let want = match evs.len() {
        0 | 1 => None,
        n => number(&evs[n - 2]),
    };
    let (h, mut p) = begin(f, if store { "s" } else { "t" }, true, TYPES[ct]);
    let mut bounds = vec![0];
    bounds.extend_from_slice(cuts);
    bounds.push(stream.len());
    if end_apart {
        bounds.push(stream.len());
    }
    let n = bounds.len() - 1;
    for i in 0..n {
        sym::check(h.calls().is_empty(), "nothing is reported before the stream has ended");
        p.response_body(&stream[bounds[i]..bounds[i + 1]], i + 1 == n);
    }
    if store {
        let got = stored(&h, "v");
        match want {
            Some(v) => sym::check(got == [J::N(v as f64).bytes()], "the value is the one of the last event but one"),
            None => sym::check(got.is_empty(), "no value is made up"),
        }
        sym::mark(if want.is_some() { "stored" } else { "nothing stored" });
    } else {
        let calls = h.calls();
        match want {
            Some(v) => {
                sym::check(calls.len() == 1, "the usage is reported once");
                let m = h.call_msg("report").and_then(|m| pb::parse(&m)).unwrap_or_default();
                sym::check(pb::num(&m, 3).unwrap_or(0) == v, "the reported usage is the one of the last event but one");
                sym::mark("reported");
            }
            None => {
                sym::check(calls.is_empty(), "no usage is made up");
                sym::mark("nothing reported");
            }
        }
        for (t, _) in calls {
            p.reply(t, 0, &pb::vi(1, 1));
        }
    }
    sym::check(p.flow == Flow::Go && p.finished() && h.n_replies() == 0, "the response goes on and the pipeline is over");
}
const EOL: [&str; 3] = ["\n", "\r\n", "\r"];
const LINES: [&str; 19] = [
    "", ":", ": data: x", "event: e", "id:7", "retry: 5", "data", "data:", "data: ", "data:{\"u\":3}", "data:  {\"u\":4}", " data: {\"u\":5}",
    "Data: {\"u\":6}", "data : {\"u\":7}", "datax: 8", "data:data: 9", "\u{e9}:\u{1f600}", "data:{", "data: \"u\":8}",
];
/// Streams with lines of every kind, ended in every way.
pub fn c12_lines() {
    let f = config("deny", "deny", &sets(), "");
    let e = EOL[sym::choice("line end", 3)];
    let store = sym::bool("store");
    let last = sym::choice("end", 4);
    let (a, b) = (LINES[sym::choice("line", LINES.len())], LINES[sym::choice("second line", LINES.len())]);
    let c = match sym::u8("@third") {
        0 => "",
        _ => LINES[sym::choice("third line", LINES.len())],
    };
    let bom = last == 3;
    let mut s = String::new();
    if bom {
        s.push('\u{feff}');
    }
    // the last event may be the same as the one before
    let done = if bom { "data: {\"u\":2}" } else { "data: [DONE]" };
    for l in ["data: {\"u\":1}", "", a, "data: {\"u\":2}", b, "", c, done] {
        s.push_str(l);
        s.push_str(e);
    }
    match last {
        0 => s.push_str(e),
        // the stream ends within the last event
        1 => {}
        // or in the middle of a line after it
        2 => {
            s.push_str(e);
            s.push_str("data: {\"u\":9}");
        }
        _ => s.push_str(e),
    }
    run(f, s.as_bytes(), &[s.len() / 2], store, 0, last == 0);
}
/// A stream with characters of several bytes cut anywhere, in up to 3 chunks.
pub fn c12_cut() {
    let f = config("deny", "deny", &sets(), "");
    let e = EOL[sym::choice("line end", 3)];
    let store = sym::bool("store");
    let mut s = String::new();
    for l in ["event: x\u{e9}", "data:1", "", "data:{\"u\":12,", "data: \"s\":\"\u{e9}\u{1f600}\"}", "", "data: [DONE]", ""] {
        s.push_str(l);
        s.push_str(e);
    }
    let b = s.as_bytes();
    let n = sym::u8("@cuts") as usize;
    let ct = if n == 1 { sym::choice("type", 3) } else { 0 };
    let mut cuts = vec![];
    let mut from = 0;
    for _ in 0..n {
        from += sym::choice("cut", b.len() - from + 1);
        cuts.push(from);
    }
    run(f, b, &cuts, store, ct, n == 1 && sym::bool("end apart"));
}
/// Any few characters of the format's alphabet between two events.
pub fn c12_any() {
    let f = config("deny", "deny", &sets(), "");
    let x = sym::over("inserted", sym::u8("@n") as usize, b"\r\n: d");
    let at = sym::choice("at", 6);
    let parts: [&[u8]; 6] = [b"data: {\"u\":1}\n\n", b"data: {\"u\":", b"2}\n", b"\ndata", b": [DONE]\n", b"\n"];
    let mut s = vec![];
    for (i, p) in parts.iter().enumerate() {
        if i == at {
            s.extend_from_slice(x.as_bytes());
        }
        s.extend_from_slice(p);
    }
    let at0: usize = parts[..at].iter().map(|p| p.len()).sum();
    let cut = at0 + sym::choice("cut", x.len() + 1);
    run(f, &s, &[cut], sym::bool("store"), 0, false);
}
