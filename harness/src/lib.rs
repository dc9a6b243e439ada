pub mod sym;
pub mod probe;
pub mod host;
pub mod pb;
pub mod flow;
pub mod verdicts;
pub mod routing;
pub mod body;
pub mod sse;
pub mod conv;
pub mod strs;
pub mod typed;
pub mod attrs;
pub mod legacy;
pub mod multi;
pub mod descr;
pub mod report;
pub mod trace;
#[cfg(feature = "module")]
pub mod glue;
#[cfg(feature = "module")]
pub mod robust;
#[cfg(feature = "module")]
pub mod module;

macro_rules! entries {
    ($all:ident: $($m:ident :: $f:ident),* $(,)?) => {
        $( #[no_mangle] pub extern "C" fn $f() { $m::$f() } )*
        pub const $all: &[(&str, extern "C" fn())] = &[$((stringify!($f), $f as extern "C" fn())),*];
    };
}
entries! { ENTRIES: probe::probe, flow::probe2, flow::c01_reply, flow::c01_on_reply, flow::c01_before, flow::c01_after_failure, flow::c01_body, flow::c02_reply, flow::c02_elsewhere, flow::schedule, flow::c06_end,
    verdicts::c07_denied, verdicts::c07_ok, verdicts::c07_unsupported, verdicts::c08_verdict,
    routing::c09_hosts, routing::c09_unreadable, routing::c10_routes, routing::c10_legacy,
    body::c11_string, body::c11_doc, body::c11_numbers,
    sse::c12_lines, sse::c12_cut, sse::c12_any,
    conv::c13_numbers, conv::c13_others, conv::c14_numbers, conv::c14_others,
    strs::c15_strings,
    typed::c16_headers, typed::c17_deny, typed::c18_stored,
    attrs::c19_attributes, attrs::c19_headers, attrs::c20_request_id,
    legacy::c21_auth, legacy::c21_names, legacy::c21_limits,
    multi::c22_isolation, descr::c23_descriptors, trace::c24_trace, report::c25_report, }

#[cfg(feature = "module")]
entries! { MODULE: glue::c26_metrics, glue::c27_config, glue::c28_descriptors, robust::c30_reply, robust::c30_input, robust::c30_order, robust::c30_config }
#[cfg(not(feature = "module"))]
pub const MODULE: &[(&str, extern "C" fn())] = &[];
