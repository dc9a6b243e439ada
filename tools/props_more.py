p("C07", "An auth verdict is carried out as the service stated it",
  "A denial by the auth service reaches the client with exactly the stated status (403 if none), headers and body; an approval lets the request on with the stated headers set in place of the client's ones, and its dynamic metadata made available to later actions and the proxy. An approval asking for something the filter cannot apply is a failure, never silently ignored.",
  ["inputs"], "every CheckResponse within bounds on the number and size of headers, status, body and metadata, and every client header set within bounds",
  "tests decode a few hand-written replies; fidelity must hold for every status, repeated or differently cased header name and value",
  ["configuration/legacy_translation.rs", "services/dynamic.rs", "services/converters.rs", "data/headers.rs"],
  [("generated on-reply actions", "configuration/legacy_translation.rs"), ("header replacement", "data/headers.rs")])
p("C08", "A rate-limit verdict is carried out as the service stated it",
  "A legacy rate-limit reply with code OK lets the request on and adds its headers to the response; OVER_LIMIT answers 429 with the stated headers; any other code is a failure handled by the failure mode.",
  ["inputs"], "every overall code of up to two varint bytes, with or without headers to add and a raw body, in deny and allow mode",
  "tests use OK and OVER_LIMIT only; the unknown codes and repeated headers are many",
  ["configuration/legacy_translation.rs"], [("generated on-reply actions", "configuration/legacy_translation.rs")])
p("C09", "The most specific hostname's action sets apply, to every spelling of the host",
  "The action sets of the most specific configured hostname (exact before longer before shorter wildcard) apply to a request, regardless of letter case and port, and no others; requests for other hosts are left alone. A request whose host cannot be read is refused.",
  ["inputs"], "every request host up to a length over letters of both cases, dot, dash, dollar and colon, against exact, wildcard, nested wildcard and catch-all hostnames",
  "an unusual host that selects another host's (weaker) policies is an authorisation bypass that only a search over all hosts finds",
  ["kuadrant/pipeline/factory.rs"], [("hostname index and lookup", "kuadrant/pipeline/factory.rs")])
p("C10", "An action set or action applies exactly when its predicates say so",
  "The first action set of the host whose route predicates all hold is the one that applies, and a legacy action is consulted exactly when its action predicates hold and one of its conditional data blocks applies. A predicate that cannot be evaluated is a failure, not a no.",
  ["inputs", "configurations"], "combinations of predicates (conjunctions, disjunctions, conditionals, failing ones) over every method, path and header value within bounds",
  "the meaning of joined predicates depends on all truth assignments and on their textual form; tests compare the generated text for simple ones",
  ["kuadrant/pipeline/factory.rs", "configuration/legacy_translation.rs"], [("route predicates", "kuadrant/pipeline/factory.rs"), ("joining of predicates", "configuration/legacy_translation.rs")])
p("C11", "A value taken from a JSON body is the body's, however it is chunked",
  "requestBodyJSON and responseBodyJSON yield the value at the given JSON pointer of the body, with its JSON type and with strings decoded; a value the body lacks is never made up. The result does not depend on how the body is cut into chunks, on whether the stream is held meanwhile, or on when calls are answered.",
  ["inputs", "schedules"], "JSON strings of every content within bounds, documents and values of every kind with distinct keys, every cut into up to three chunks, a call holding the stream or not being answered before any chunk",
  "tests parse whole bodies or one fixed split; offsets into the proxy's buffer depend on the cut, on holding and on replies in between",
  ["kuadrant/pipeline/tasks/store/json_body_parser.rs", "kuadrant/context.rs", "kuadrant/pipeline/tasks/store.rs"],
  [("incremental JSON parsing", "kuadrant/pipeline/tasks/store/json_body_parser.rs"), ("buffer offsets of a body", "kuadrant/context.rs")])
p("C12", "An event stream's usage is read from its last event but one, however cut",
  "For a response that is an event stream, responseBodyJSON yields values of the last event but one, with events delimited as the event-stream format defines, both for stored values and for reported usage. The result does not depend on line ends, comments, other fields, a byte order mark or how the stream is cut into chunks; nothing is reported before the end or made up.",
  ["inputs", "schedules"], "streams with lines of every kind, every line end, every few characters of the format's alphabet at several places, every cut into up to three chunks",
  "tests feed one well-formed stream whole; chunk boundaries fall anywhere, also within a character or a CRLF",
  ["kuadrant/pipeline/tasks/store/sse_body_parser.rs", "kuadrant/pipeline/tasks/store/sse_body_parser/sse_line_parser.rs", "kuadrant/pipeline/tasks/token_usage.rs"],
  [("event parser", "kuadrant/pipeline/tasks/store/sse_body_parser.rs"), ("usage extraction", "kuadrant/pipeline/tasks/token_usage.rs")])

p("C13", "A message sent to a service holds exactly its expressions' values",
  "Every field, list item, map key and map value of a message built for a service is the value its CEL expression has over the request's attributes. A value the field cannot hold, or one that cannot be read, fails the call (under the failure mode); it is never truncated, replaced or dropped, and an attribute that is not available yet is waited for.",
  ["inputs", "fault_sequences"], "every number, flag and time an attribute can hold and short strings, for fields of every protobuf type; values of other types; attributes absent, unreadable or late",
  "the defects are at the boundaries of number types and for mismatching types; tests convert a handful of well-typed values",
  ["services/dynamic/converters.rs", "services/converters.rs", "data/cel.rs", "data/attribute.rs"],
  [("CEL to protobuf", "services/dynamic/converters.rs"), ("attributes to CEL", "data/attribute.rs")])
p("C14", "A service's reply is seen by expressions exactly as it was sent",
  "In the actions that follow a call, every field of the service's reply has the value that was on the wire, with its type; fields that were not sent have their protobuf default or are absent. Asking for something the reply does not have is a failure.",
  ["inputs"], "replies holding fields of every protobuf type with every number and short strings, set, unset, default and unknown",
  "tests decode a few hand-written replies; verdicts are read from these values",
  ["services/dynamic/converters.rs", "services/converters.rs"], [("protobuf to CEL", "services/dynamic/converters.rs")])
p("C15", "String functions of expressions are the ones CEL defines",
  "charAt, indexOf, lastIndexOf, substring, replace, split, join, trim, lowerAscii and upperAscii count characters, not bytes, and yield what CEL's string extensions define for every text and every index. An index out of range is an error of the expression, never a crash of the filter.",
  ["inputs"], "every text of up to two characters of one to four bytes each, with any 64-bit index and separators or needles of up to two characters",
  "client-supplied text outside ASCII and huge indexes are what breaks byte-wise or truncating implementations; tests use ASCII and small indexes",
  ["data/cel/strings.rs"], [("string functions", "data/cel/strings.rs")])
p("C16", "Header-changing actions set exactly the headers they name",
  "An action that changes request or response headers gives each header it names exactly the last value stated for it, whatever the case of its name, and leaves all others as they were; an action that does not apply, or fails, changes nothing. Response headers are changed once there are any, and later expressions see the headers as they then are.",
  ["inputs", "configurations"], "client and response headers with names of one letter in either case, repeated or not, and any short value; lists of conditional, computed, repeated and failing changes",
  "a header left standing in another spelling is a spoofed identity for the service behind; tests set one header on one fixed list",
  ["kuadrant/pipeline/tasks/headers.rs", "data/headers.rs", "data/cel.rs"], [("setting headers", "kuadrant/pipeline/tasks/headers.rs"), ("header replacement", "data/headers.rs")])
p("C17", "A refusing action answers exactly what its expression states, or 500",
  "When a deny action applies, the client gets one answer with exactly the status, headers and body its expression has for the request, or a 500 when the expression has none; the request does not go on and nothing more is called. A deny action that does not apply has no effect.",
  ["inputs"], "denials computed from client data, the status over every 64-bit number, headers and bodies of short texts, fields missing or of other types; alone, between calls, waiting for a call",
  "whether a computed refusal can be stated depends on client data; a refusal that fails open lets the request through",
  ["kuadrant/pipeline/tasks/send_reply.rs", "kuadrant/pipeline/blueprint.rs"], [("sending the reply", "kuadrant/pipeline/tasks/send_reply.rs"), ("failure of local actions", "kuadrant/pipeline/tasks/failure_mode.rs")])
p("C18", "A stored value is what later expressions and the proxy see under its path",
  "A value stored under a path is, with its type and parts, what every expression of a later action sees under that path; an expression naming it waits until it is stored. It is handed to the proxy once and unchanged when the action says so, and never otherwise; a value that was not stored is a failure of the expression, not an empty value.",
  ["inputs", "schedules"], "values of every kind taken from client data or a reply, seen by predicates, messages, header values and denials",
  "identity from the auth service flows to other policies this way; tests look at single stored strings",
  ["kuadrant/pipeline/tasks/store.rs", "kuadrant/context.rs", "data/cel.rs"], [("stored values", "kuadrant/context.rs"), ("storing", "kuadrant/pipeline/tasks/store.rs"), ("values in expressions", "data/cel.rs")])
p("C19", "Expressions see the request's attributes and headers exactly as they are",
  "Each attribute an expression names has the value and type the proxy gives for it (request headers by lower-case name with repeated values joined by a comma, the remote address without its port, the gRPC service and method of gRPC requests only). One that is not available yet is waited for; one that is missing or cannot be read makes the expression fail unless it tests for that.",
  ["inputs", "fault_sequences"], "every attribute with any short text, any 64-bit number or flag, late, missing or unreadable; repeated and differently cased headers; content types and paths around those of gRPC",
  "policies decide on these values; tests cover a few attributes with one value each",
  ["data/attribute.rs", "data/cel.rs", "data/grpc.rs", "kuadrant/context.rs"], [("attribute decoding", "data/attribute.rs"), ("attribute values in expressions", "data/cel.rs")])
p("C20", "One request id names a request in every call and towards the client",
  "Every call made for a request carries exactly one request id: the client's x-request-id (the first, whatever the case of the header's name), or a generated one that is the same for all calls. With a tracking header configured, a refused or answered request carries that id in it exactly as it is, and without one nothing is added.",
  ["inputs"], "every client id of any ASCII characters within bounds, in a header of either case, repeated, missing; calls before and after the reply, refusals at every stage",
  "ids are chosen by clients; one with a quote or backslash breaks a tracking header built as an expression",
  ["kuadrant/context.rs", "kuadrant/pipeline/tasks/send_reply.rs", "kuadrant/pipeline/factory.rs"], [("request id", "kuadrant/context.rs"), ("tracking header", "kuadrant/pipeline/factory.rs")])
p("C21", "Services are told the request, the descriptors that apply and the hits",
  "The auth service is told the request's method, path, host, headers, addresses, ports and time as they are, with the action's scope and the configured request data; a rate-limit service is told the scope, exactly the descriptors whose conditions hold, in order, and the hits to count. Names and values in the configuration arrive unchanged, whatever characters they hold; a request that cannot be told is a failure.",
  ["inputs", "configurations"], "every attribute and header value within bounds, every 64-bit port and size; lists of conditional descriptors under every truth assignment; names with quotes, backslashes, braces, dots and line ends",
  "messages are built from generated expression text: a condition, a quote or an odd number changes which limit is counted; tests compare the text for simple names",
  ["configuration/legacy_translation.rs", "services/dynamic/converters.rs"], [("generated messages", "configuration/legacy_translation.rs")])
p("C22", "A request is treated as if it were alone, whatever others do meanwhile",
  "Requests served by one configuration do not influence each other: calls, replies, headers, stored values and answers of a request are those it would have if no other request were there, however the callbacks of the two interleave.",
  ["schedules", "inputs"], "two requests of the same kind with different headers, paths and verdicts, over every interleaving of their callbacks",
  "state shared between requests leaks identity or verdicts only for certain interleavings; tests run one request at a time",
  ["kuadrant/pipeline/factory.rs", "kuadrant/pipeline/blueprint.rs", "kuadrant/context.rs"], [("per-request state", "kuadrant/context.rs"), ("shared configuration", "kuadrant/pipeline/blueprint.rs")])
p("C23", "Service descriptors are asked for until they arrive, and used only then",
  "After any history of fetches, replies, losses and reconfigurations, exactly the descriptors still missing are asked for, a service is called exactly when descriptors holding it have arrived for it (and otherwise its failure mode applies), and arrived or built-in descriptors stay. A stray, broken or foreign reply changes nothing else.",
  ["histories", "fault_sequences"], "histories of fetches, lost or failed fetches, replies with good, broken, foreign or missing items, late and stray replies and reconfigurations up to a length",
  "a descriptor that stays marked as asked for after a loss is never fetched again, and its policies fail for good; tests check single transitions",
  ["filter/descriptor_manager.rs", "services/dynamic.rs"], [("descriptor states", "filter/descriptor_manager.rs"), ("use of descriptors", "services/dynamic.rs")])
p("C24", "A request's calls and spans belong to its own trace, whatever others do",
  "Every call made for a request carries the trace, baggage and sampling decision its client sent, and with tracing on otherwise a trace of the request's own, however callbacks of other requests interleave. Each span is exported once to the tracing service, when its trace is sampled: those the calls name, and the request's own below the client's.",
  ["schedules", "inputs"], "two requests with and without trace headers over every interleaving of their callbacks, tracing off and on at several levels, refused or let through",
  "which span is current depends on how callbacks of different requests interleave; tests run one request and do not look at the propagated context",
  ["kuadrant/context.rs", "kuadrant/pipeline/tasks/tracing_decorator.rs", "kuadrant/pipeline/tasks/export_traces.rs", "tracing/processor.rs"],
  [("trace context of a request", "kuadrant/context.rs"), ("request span and export", "kuadrant/pipeline/tasks/export_traces.rs")])
p("C25", "What a response is to be charged is reported once, before the response ends",
  "For a request that went through, each report action that applies is sent once, with the usage the response states, after the last of the body and before its end is passed on, however the end is told. A refused request, and a response that states no usage, are not reported, and whatever a report's outcome the response ends as it is.",
  ["inputs", "fault_sequences"], "report lists behind a verdict or alone, bodies of several kinds cut in several ways, ended by the last data, an empty chunk, trailers or the headers; every outcome of a report",
  "limits are enforced by these counts; a response without a body or with trailers, or a second report, is where one goes missing, and tests do not drive the end of a response",
  ["crates/wasm-shim/src/filter/kuadrant_filter.rs", "kuadrant/pipeline/tasks/token_usage.rs", "kuadrant/pipeline/executor.rs"],
  [("end of the response", "crates/wasm-shim/src/filter/kuadrant_filter.rs"), ("usage", "kuadrant/pipeline/tasks/token_usage.rs")])
p("C26", "Counters tell what happened to each request, once",
  "Each request some action set applies to is counted once as a hit and any other as a miss; each one refused is counted once as denied, each one that got its response without being refused once as allowed, and each failure once as an error. Nothing is counted for a request before it happened.",
  ["inputs", "fault_sequences"], "requests of every kind, both failure modes, every status and verdict of each call, undecodable and late replies, with a response or without one",
  "operators alarm on these counters; which one a request ends in depends on the order of failures, refusals and late replies",
  ["crates/wasm-shim/src/filter/kuadrant_filter.rs", "metrics.rs", "kuadrant/pipeline/tasks/failure_mode.rs", "kuadrant/pipeline/tasks/send_reply.rs"],
  [("hits, misses and allowed", "crates/wasm-shim/src/filter/kuadrant_filter.rs"), ("errors", "kuadrant/pipeline/tasks/failure_mode.rs"), ("denied", "kuadrant/pipeline/tasks/send_reply.rs")])
p("C27", "A configuration is taken as a whole or not at all, and kept by its requests",
  "A configuration with anything invalid in it (its JSON, a name, a type, a time, an expression) is rejected and the one before stays in force; a valid one applies to every request that starts after it. Each request keeps the services, addresses, timeouts and failure modes of the configuration it started with.",
  ["configurations", "histories"], "two configurations in sequence, the second valid or broken in one of many ways, with requests before, across and after the change",
  "half-applied policies are enforced by nobody; tests parse single configurations and do not look at requests across a change",
  ["crates/wasm-shim/src/filter/root_context.rs", "configuration.rs", "kuadrant/pipeline/factory.rs", "kuadrant/pipeline/blueprint.rs"],
  [("configuring", "crates/wasm-shim/src/filter/root_context.rs"), ("compiling", "kuadrant/pipeline/blueprint.rs")])
p("C28", "The module asks for missing descriptors at each tick until it has them",
  "After a configuration that needs descriptors the module asks the descriptor service for exactly those, again at each tick while none is outstanding, until they arrive; until then calls to the services that need them fail as their failure mode says, afterwards they are made, and their replies, empty ones included, are read.",
  ["histories", "fault_sequences"], "histories of ticks, replies of every status (good, broken, foreign, stray) and requests after a configuration whose first fetch is sent or lost",
  "the fetch is spread over callbacks of the root context, none of which any test drives",
  ["crates/wasm-shim/src/filter/root_context.rs", "crates/wasm-shim/src/filter/wasm_host.rs", "filter/descriptor_manager.rs"],
  [("ticks and replies", "crates/wasm-shim/src/filter/root_context.rs"), ("reading replies", "crates/wasm-shim/src/filter/wasm_host.rs")])
p("C29", "The module tells the proxy to hold, pass on or resume as decided",
  "In each callback the module tells the proxy to hold the stream exactly while a guard's verdict or data is outstanding, and otherwise to pass it on; a held stream is resumed by the reply that settles it, and only then; a refused one gets its one answer and is never resumed. Headers, body data and trailers reach the policies as the proxy delivers them.",
  ["schedules", "inputs", "configurations"], "every order of replies and verdicts over lists of actions, bodies cut anywhere and ended in every way, streams whose data never comes",
  "the callbacks are where a decision takes effect, and no test of the repository drives them",
  ["crates/wasm-shim/src/filter/kuadrant_filter.rs", "crates/wasm-shim/src/filter/wasm_host.rs"],
  [("callbacks", "crates/wasm-shim/src/filter/kuadrant_filter.rs"), ("host calls", "crates/wasm-shim/src/filter/wasm_host.rs")])
p("C30", "Nothing said to the module makes it crash or leaves a request undecided",
  "Whatever bytes a client, a service or the proxy says (headers, attributes, bodies, replies), in whatever order the callbacks come, and whatever the configuration holds, each callback returns. Once everything asked for was answered and the stream's data ended, the request was answered once or went through, and is not held.",
  ["inputs", "configurations", "schedules"], "every short reply, attribute, header and body, alone or below valid beginnings, every order of a few callbacks, and a configuration with any one character changed",
  "a panic takes the proxy's worker down with every policy on it; tests feed well-formed data in the expected order",
  ["crates/wasm-shim/src/filter/kuadrant_filter.rs", "data/attribute.rs", "services.rs", "kuadrant/pipeline/executor.rs", "configuration.rs"],
  [("callbacks", "crates/wasm-shim/src/filter/kuadrant_filter.rs"), ("reading attributes", "data/attribute.rs"), ("reading replies", "services.rs")])
