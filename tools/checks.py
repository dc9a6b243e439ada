"""Which harnesses decide which property, and within what bounds."""
COMMON_ASSUMPTIONS = [
    "the LLVM IR of kuadrant-filter and every crate below it, built for wasm32-wasip1 from /repo's working tree, is executed; the code generator after LLVM IR is trusted",
    "the proxy is played by harness/src/host.rs, which follows the callbacks of crates/wasm-shim/src/filter/kuadrant_filter.rs (that crate cannot be built here)",
    "the clock advances by a fixed step per read, random bytes are fixed, hash seeds are fixed",
    "floating-point values are concrete on every path",
]


def E(entry, bound, quick=None, thorough=None, marks=(), **kw):
    return dict(entry=entry, bound=bound, quick=quick or {}, thorough=thorough or quick or {}, marks=list(marks), **kw)


def sched(only):
    o = dict(only=only)
    return [
        E("schedule", "every list of 3 deny guards (parallel or sequential), every order of replies, every u32 status and verdict byte per reply",
          {"actions": 3, "kinds": 0}, {"actions": 4, "kinds": 0}, ["let through", "refused", "late reply", "still held"], **o),
        E("schedule", "every list of 2 (thorough: 3) actions, guards or not, parallel or sequential, every order of replies, every u32 status and verdict byte, an unsolicited reply",
          {"actions": 2, "kinds": 1, "late": 1}, {"actions": 3, "kinds": 1, "late": 1}, ["let through", "refused"], **o),
        E("schedule", "every list of 2 (thorough: 3) legacy or typed actions in deny and allow mode, every order of replies, every u32 status and verdict byte",
          {"actions": 2, "kinds": 3}, {"actions": 3, "kinds": 3}, ["let through", "refused"], **o),
        E("schedule", "every list of 2 (thorough: 3) allow and deny actions, tracing on, every order of replies, every u32 status and verdict byte",
          {"actions": 2, "kinds": 2, "tracing": 1}, {"actions": 3, "kinds": 2, "tracing": 1}, ["let through", "refused"], **o),
        E("schedule", "every list of 2 (thorough: 3) actions whose replies start another call, every order of replies, every u32 status and verdict byte",
          {"actions": 2, "kinds": 5}, {"actions": 3, "kinds": 5}, ["let through", "refused", "second call"], **o),
        E("schedule", "every list of 3 (thorough: 4) typed sequential, typed parallel and legacy guards, every order of replies, every u32 status and verdict byte",
          {"actions": 3, "kinds": 6}, {"actions": 4, "kinds": 6}, ["let through", "refused"], **o),
        E("schedule", "every list of 3 (thorough: 4) parallel actions, guards or not, the response starting at any point the request is not held, every order of replies, every u32 status and verdict byte",
          {"actions": 3, "kinds": 7, "response": 1}, {"actions": 4, "kinds": 7, "response": 1}, ["let through", "refused", "early response"], **o),
        E("schedule", "every list of 3 (thorough: 4) guards and header-changing actions, parallel or sequential, every order of replies, every u32 status and verdict byte",
          {"actions": 3, "kinds": 8}, {"actions": 4, "kinds": 8}, ["let through", "refused"], **o),
        E("schedule", "every list of 3 (thorough: 4) header-changing actions, calls that are no guards and legacy guards, every order of replies, every u32 status and verdict byte",
          {"actions": 3, "kinds": 9}, {"actions": 4, "kinds": 9}, ["let through", "refused"], **o),
        E("schedule", "every list of 2 actions over every mode",
          {"actions": 2, "kinds": 4}, {"actions": 2, "kinds": 4}, ["let through", "refused"], thorough_only=True, **o),
    ]


CHECKS = {
    "C01": {"entries": [
        E("c01_reply", "auth, rate limit, check and auth+rate limit in deny mode; every u32 status and every 2-byte (thorough: 3-byte) first reply and 2-byte second reply",
          {"n": 2, "m": 2}, {"n": 3, "m": 2}, ["no verdict", "let through", "refused", "second call"]),
        E("c01_reply", "the same with tracing on, every 2-byte first and 1-byte second reply", {"n": 2, "m": 1, "tracing": 1}, {"n": 3, "m": 2, "tracing": 1}, ["no verdict", "let through", "refused"]),
        E("c01_on_reply", "15 failures while handling a reply, every verdict byte, every u32 status of a nested call", {}, {}, ["nested ok", "nested refused", "set-map", "set-attr", "fail"]),
        E("c01_on_reply", "the same with tracing on", {"tracing": 1}, {"tracing": 1}, ["nested ok"]),
        E("c01_before", "predicates and messages over a client header of up to 2 characters (digits, signs, a letter), present or absent, dispatch failing or not",
          {}, {}, ["evaluation failure", "dispatch failure", "called", "does not apply"]),
        E("c01_after_failure", "4 kinds of failing first action before a typed or legacy guard, every 2 ASCII characters of client data, body in one or two parts",
          {"n": 2}, {"n": 3}, ["guard consulted"]),
        E("c01_after_failure", "the same without client data, the request having a body or not", {"n": 0}, {"n": 1, "tracing": 1}, ["guard consulted"]),
        E("c01_body", "a guard over requestBodyJSON, every object with one key of up to 1 (thorough: 2) characters, in up to 3 parts, ended with the last or with trailers, or no body", {"n": 1}, {"n": 2}, ["data found", "data missing"]),
    ]},
    "C02": {"entries": [
        E("c02_reply", "auth, check or a typed call, then a rate limit, all in allow mode; every u32 status, every 2-byte first reply, structured or 1-byte raw second reply",
          {"n": 2, "m": 0}, {"n": 2, "m": 2}, ["failed", "both failed", "let through", "refused"]),
        E("c02_elsewhere", "19 failures before the call or while handling its reply, client header values of up to 2 characters, every verdict byte of the next guard",
          {}, {"tracing": 1}, ["p", "m", "b", "dispatch", "read", "nested", "set-map"]),
    ] + [e for e in sched(["[allow]"]) if e["quick"]["kinds"] in (2, 3)]},
    "C03": {"entries": sched(["[final]"])},
    "C04": {"entries": sched(["[hold]"])},
    "C05": {"entries": sched(["[order]"])},
    "C06": {"entries": sched(["[end]"]) + [
        E("c06_end", "48 action lists waiting for request or response data or an attribute, every 1-character body, body-less requests, attributes never available", {"n": 1}, {"n": 2}, ["over"]),
    ]},
    "C07": {"entries": [
        E("c07_denied", "legacy auth denial: status code of up to 2 varint bytes, up to n headers with 1-character (repeated, differently cased) names and values, 2-character body", {"n": 1}, {"n": 3}, ["denied", "no status", "undecodable"]),
        E("c07_ok", "legacy auth approval: up to n header options over 1-character names, values and client headers of the same names, dynamic metadata", {"n": 1}, {"n": 2}),
        E("c07_unsupported", "every legacy approval carrying one of the fields the filter cannot apply", {"n": 1}, {"n": 1}),
    ]},
    "C08": {"entries": [
        E("c08_verdict", "legacy rate limit reply: every overall code of up to 2 varint bytes, up to n response headers and request headers, a raw body", {"n": 1}, {"n": 2}),
    ]},
    "C09": {"entries": [
        E("c09_hosts", "6 action sets over 7 hostnames (exact, wildcard, nested wildcard, catch-all, mixed case), every request host of up to n characters of 'abcB.-$:'", {"n": 4}, {"n": 6}, ["exact", "wildcard", "catch-all", "no match"]),
        E("c09_unreadable", "host missing, pending, failing, or every 2-byte string that is not UTF-8", {}, {}),
    ]},
    "C10": {"entries": [
        E("c10_routes", "4 combinations of 3 action sets with up to 3 route predicates on one hostname, every method, path and header value within 2 characters", {}, {}, ["selected", "none", "failure"]),
        E("c10_legacy", "16 combinations of action predicates and conditional data blocks of legacy rate limits, every header value and method within bounds", {}, {}, ["called", "not called"]),
    ]},
    "C11": {"entries": [
        E("c11_string", "a JSON string of up to n pieces (any ASCII character, any escape, \\u escapes, a surrogate pair, a 2-byte character) in a request body, cut anywhere",
          {"n": 1, "response": 0}, {"n": 2, "response": 0}, ["string", "not a string"]),
        E("c11_string", "the same in a response body", {"n": 2, "response": 1}, {"n": 2, "response": 1}, ["string", "not a string"]),
        E("c11_doc", "7 documents and pointers, 12 values of every kind, in up to 3 chunks of a request body cut anywhere, ended in any way, a call holding the stream or not answered before any chunk",
          {"response": 0}, {"response": 0}, ["alone", "not held", "held"]),
        E("c11_doc", "the same in a response body", {"response": 1}, {"response": 1}, ["alone", "not held", "held"]),
        E("c11_numbers", "whole numbers of up to 20 digits, any last digit, of either sign, around 2^53, 2^63 and 2^64, alone or compared with another, in a request body", {"response": 0}, {"response": 0}, ["exact", "compared", "too large"]),
        E("c11_numbers", "the same in a response body", {"response": 1}, {"response": 1}, ["exact", "compared", "too large"]),
    ]},
    "C12": {"entries": [
        E("c12_lines", "streams with any two (thorough: three) of 19 kinds of lines between events, ended with LF, CRLF or CR, with a byte order mark, ending in the middle of an event or not",
          {"third": 0}, {"third": 1}, ["stored", "nothing stored", "reported", "nothing reported"]),
        E("c12_any", "any n of CR, LF, colon, space, 'd' at 6 places of a stream, cut anywhere among them", {"n": 3}, {"n": 4}, ["stored", "nothing stored", "reported", "nothing reported"]),
        E("c12_cut", "a stream with characters of several bytes cut anywhere into two chunks, the end told apart or not, 3 spellings of the content type", {"cuts": 1}, {"cuts": 1}, ["stored", "reported"]),
        E("c12_cut", "the same cut anywhere into three chunks", {"cuts": 2}, {"cuts": 2}, ["stored", "reported"]),
    ]},
    "C13": {"entries": [
        E("c13_numbers", "18 kinds of fields and map keys over every 64-bit number, flag and time an attribute can hold, attributes absent, unreadable or not there yet", {}, {}, ["fits", "does not fit", "later"]),
        E("c13_others", "11 kinds of strings, bytes, lists, maps, messages, enumerators, wrappers and times, each also with a value of another type; times at every zone offset of n bytes", {"n": 1}, {"n": 2}, ["missing", "wrong"]),
    ]},
    "C14": {"entries": [
        E("c14_numbers", "fields of every number type: every value of n varint lengths or every 4 or 8 byte value, unset, default and unknown", {"n": 4}, {"n": 4}, ["default", "present", "absent"]),
        E("c14_others", "strings, bytes, lists, maps, messages, enumerators, times, structs and wrappers of up to 2 symbolic characters, set, unset or default", {}, {}, ["refused"]),
    ]},
    "C15": {"entries": [
        E("c15_strings", "16 calls of the string functions, texts of up to n characters of one to four bytes, any 64-bit index, needles of up to 2 characters", {"n": 2}, {"n": 3},
          ["charat", "index", "index2", "last", "last2", "sub", "sub2", "replace", "replace2", "split", "split2", "join", "lower", "upper", "trim", "out of range"]),
    ]},
    "C16": {"entries": [
        E("c16_headers", "19 lists of actions that change request or response headers, conditional or not, over up to 2 client headers with names of one letter in either case and values of up to n characters, and response headers likewise",
          {"n": 1}, {"n": 2}, ["applies", "does not apply", "seen", "response", "not there"]),
    ]},
    "C17": {"entries": [
        E("c17_deny", "deny actions, alone or among calls and header actions, with status (every 64-bit number), headers or body of up to n characters computed from client data, of the right type or not",
          {"n": 2}, {"n": 3}, ["refused", "does not apply", "cannot be stated"]),
        E("c17_deny", "the same with tracing on", {"n": 1, "tracing": 1}, {"n": 2, "tracing": 1}, ["refused", "does not apply", "cannot be stated"]),
    ]},
    "C18": {"entries": [
        E("c18_stored", "values of every kind stored by a call's reply or on their own, exported or not, named by a predicate, message, header value or denial of a later action; texts of up to n characters",
          {"n": 2}, {"n": 3}, ["seen", "not stored", "not called"]),
    ]},
    "C19": {"entries": [
        E("c19_attributes", "every attribute of the request, its source, destination, connection and metadata as an expression sees it: texts of up to n characters, every 64-bit number; missing, unreadable or late",
          {"n": 2}, {"n": 3}, ["seen", "no value", "later", "unreadable"]),
        E("c19_headers", "request headers by name, repeated, in either case, missing; gRPC requests of every content type and path within n characters",
          {"n": 2}, {"n": 3}, ["seen", "no value", "grpc", "not grpc"]),
    ]},
    "C20": {"entries": [
        E("c20_request_id", "every client request id of up to n characters (any ASCII), in a header of either case, repeated or missing; five calls of every kind, let through or refused at any of them; tracking header on or off",
          {"n": 1}, {"n": 1}, ["let through", "refused"]),
    ]},
    "C21": {"entries": [
        E("c21_auth", "what the auth service is told: every attribute and header of the request with up to n characters, every 64-bit port and a range of times, with and without request data", {"n": 2}, {"n": 3}, ["called", "no port"]),
        E("c21_limits", "what the rate-limit services are told: 7 lists of conditional descriptors, every method, query and size within bounds, with and without request data", {}, {}, ["called", "not called", "not a number of hits"]),
        E("c21_names", "scopes, keys, values, domains and request data names holding quotes, backslashes, braces, line ends, dots (thorough: any ASCII character)", {"odd": 0}, {"odd": 1}, ["auth", "rl", "check"]),
    ]},
    "C22": {"entries": [
        E("c22_isolation", "two requests over one configuration (legacy auth and limits; typed calls storing values; local actions and a report), every interleaving of their callbacks, every header value of one character and verdict byte",
          {"mixed": 0}, {"mixed": 1}, ["let through", "refused"]),
    ]},
    "C23": {"entries": [
        E("c23_descriptors", "every history of 1 + n fetches (sent or not), replies (to any fetch or none; every 2 bytes, or descriptors present, missing, broken, of another service, of a built-in one), lost replies and reconfigurations, then a request",
          {"n": 2}, {"n": 3}, ["asked", "nothing to ask", "not sent", "reconfigured", "reply", "stray reply", "called", "refused", "let through"]),
        E("c23_descriptors", "longer histories of 1 + n such steps with plain replies", {"n": 3, "brief": 1}, {"n": 4, "brief": 1}, ["asked", "nothing to ask", "not sent", "reconfigured", "reply", "stray reply", "called", "refused"]),
    ]},
    "C24": {"entries": [
        E("c24_trace", "no spans: one request, its trace and parent id ending in any of 5 digits, or with none; sequential or nested calls; refused or not",
          {"tracing": 0, "requests": 1}, None, ["continued", "no trace"]),
        E("c24_trace", "no spans: two requests, every interleaving of their callbacks, the first with a trace or none, refused or not",
          {"tracing": 0, "requests": 2}, None, ["continued", "no trace"]),
        E("c24_trace", "spans at levels WARN, INFO, DEBUG: one request as above, its trace sampled or not",
          {"tracing": 1, "requests": 1}, None, ["continued", "new trace", "no trace", "exported"]),
        E("c24_trace", "spans at levels WARN, INFO: two requests, every interleaving, the first's trace sampled, not sampled or none, refused or not",
          {"tracing": 1, "requests": 2}, None, ["continued", "new trace", "no trace", "exported"]),
    ]},
    "C25": {"module": True, "entries": [
        E("c25_report", "5 lists of actions that report at the end of the response, alone or behind an auth or check verdict; 6 kinds of response bodies cut in three ways, ending with the last data, apart, with trailers or with the headers; reports sent or not, every u32 status and reply byte",
          {"tracing": 0}, None, ["reported", "refused", "not sent", "nothing to report"]),
        E("c25_report", "the same with tracing on", {"tracing": 1}, None, ["reported", "refused", "not sent", "nothing to report"]),
    ]},
    "C26": {"module": True, "entries": [
        E("c26_metrics", "6 kinds of requests (legacy, typed, by route predicate, of another host, with unreadable host or path), deny and allow mode, every u32 status and verdict byte of each call, replies that cannot be decoded or come too late, a response or none",
          {"tracing": 0}, None, ["allowed", "denied", "errors"]),
        E("c26_metrics", "the same with tracing on", {"tracing": 1}, None, ["allowed", "denied", "errors", "only tracked"]),
    ]},
    "C27": {"module": True, "entries": [
        E("c27_config", "one or two configurations, the last with timeouts of 2 digits and 9 units and 6 others, modes, service names and types, routes, predicates, messages, denials and targets valid or not, cut off at 23 places; requests before, across and after it, with a failing service or not",
          {}, None, ["accepted", "rejected", "under way", "the old one stays"]),
    ]},
    "C28": {"module": True, "entries": [
        E("c28_descriptors", "histories of n ticks, replies (every u32 status; descriptors, others', broken ones, any byte; to the fetch or to none) and pairs of requests after a configuration whose first fetch is sent or not",
          {"n": 3}, {"n": 4}, ["asked again", "stray", "here", "failed", "refused meanwhile", "called"]),
    ]},
    "C29": {"module": True, "entries": [
        E("schedule", "every list of 3 deny guards (parallel or sequential), every order of replies, every u32 status and verdict byte per reply",
          {"actions": 3, "kinds": 0}, {"actions": 4, "kinds": 0}, ["let through", "refused", "late reply", "still held"]),
        E("schedule", "every list of 2 (thorough: 3) legacy or typed actions in deny and allow mode, every order of replies, every u32 status and verdict byte",
          {"actions": 2, "kinds": 3}, {"actions": 3, "kinds": 3}, ["let through", "refused"]),
        E("schedule", "every list of 2 (thorough: 3) actions, guards or not, parallel or sequential, every order of replies, every u32 status and verdict byte, an unsolicited reply",
          {"actions": 2, "kinds": 1, "late": 1}, {"actions": 3, "kinds": 1, "late": 1}, ["let through", "refused"]),
        E("schedule", "every list of 2 (thorough: 4) parallel actions, guards or not, the response starting at any point the request is not held, every order of replies, every u32 status and verdict byte",
          {"actions": 2, "kinds": 7, "response": 1}, {"actions": 4, "kinds": 7, "response": 1}, ["let through", "refused", "early response"]),
        E("c06_end", "48 action lists waiting for request or response data or an attribute, every 1-character body, body-less requests, attributes never available", {"n": 1}, {"n": 2}, ["over"]),
        E("c06_end", "the same with tracing on", {"n": 1, "tracing": 1}, {"n": 2, "tracing": 1}, ["over"]),
        E("c01_reply", "auth, rate limit, check and auth+rate limit in deny mode; every u32 status and every 2-byte first reply and 1-byte second reply",
          {"n": 2, "m": 1}, {"n": 3, "m": 2}, ["no verdict", "let through", "refused", "second call"]),
        E("c01_body", "a guard over requestBodyJSON, every object with one key of up to 1 (thorough: 2) characters, in up to 3 parts, ended with the last or with trailers, or no body", {"n": 1}, {"n": 2}, ["data found", "data missing"]),
        E("c11_doc", "7 documents and pointers, 12 values, in up to 3 chunks of a request body cut anywhere, ended in any way, a call holding the stream or not answered before any chunk",
          {"response": 0}, {"response": 0}, ["alone", "not held", "held"]),
        E("c11_doc", "the same in a response body", {"response": 1}, {"response": 1}, ["alone", "not held", "held"], thorough_only=True),
        E("c12_cut", "a stream of events with characters of several bytes cut anywhere into two chunks", {"cuts": 1}, {"cuts": 1}, ["stored", "reported"], thorough_only=True),
        E("c16_headers", "19 lists of actions that change request or response headers over up to 2 client headers", {"n": 1}, {"n": 1}, ["applies", "does not apply", "seen", "response", "not there"], thorough_only=True),
        E("c17_deny", "deny actions with status, headers or body computed from client data", {"n": 1}, {"n": 1}, ["refused", "does not apply", "cannot be stated"], thorough_only=True),
        E("c20_request_id", "every client request id of one character, five calls of every kind", {"n": 1}, {"n": 1}, ["let through", "refused"], thorough_only=True),
        E("c22_isolation", "two requests over one configuration, every interleaving of their callbacks", {"mixed": 0}, {"mixed": 0}, ["let through", "refused"], thorough_only=True),
    ]},
    "C30": {"module": True, "entries": [
        E("c30_reply", "every reply of up to n bytes of an auth, rate-limit, dynamic or report service, alone or below 4 to 5 valid beginnings, in deny and allow mode", {"n": 2}, {"n": 3}, ["let through", "refused"]),
        E("c30_input", "every value of up to n bytes of 10 attributes (numbers and times: 8 bytes, times with any one byte of 4 odd), 7 headers, header names, request and response bodies below 9 beginnings",
          {"n": 2}, {"n": 3}, ["let through", "refused"]),
        E("c30_input", "the same in allow mode with tracing on", {"n": 2, "allow": 1, "tracing": 1}, {"n": 3, "allow": 1, "tracing": 1}, ["let through", "refused"]),
        E("c30_order", "every order of n callbacks of a stream, its end told or not, whether or not it was to be held, answered, or known", {"n": 4}, {"n": 5}, ["survived"]),
        E("c30_config", "a configuration with one character of 14 put in or replaced at every k-th place, and a request under it when it is accepted", {"every": 30, "few": 1}, {"every": 5, "few": 1}, ["accepted", "rejected", "let through"]),
    ]},
}
MODULE_ASSUMPTIONS = [
    "the LLVM IR of crates/wasm-shim, kuadrant-filter and every crate below them, built for wasm32-wasip1 from /repo's working tree, is executed; the code generator after LLVM IR is trusted",
    "the Kuadrant fork of the proxy-wasm SDK is not available here: a stand-in of the same interface (sdk/) passes each callback and host call on; the proxy behind it is harness/src/module.rs and host.rs",
    *COMMON_ASSUMPTIONS[2:],
]
