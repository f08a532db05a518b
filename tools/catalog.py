#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json for the properties the harness implements."""
import json, os, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = "crates/kuadrant-filter/src/"
W = "crates/wasm-shim/src/"
PIPE = K + "kuadrant/pipeline/"

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note="", hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             observe_at=list(observe), hook_needed=hook)), technique, note

ABI = "proxy-wasm ABI: callbacks into the module and the host calls it makes"
TECH = "runtime monitoring: lockstep reference interpreter over the module's host calls, randomized workloads and faults"
NOTE = ("Held on the executions produced: the real module, run natively against a simulated proxy-wasm host, with every host call compared to a "
        "reference interpreter written from the documented semantics. Trusts the simulated host and the interpreter; says nothing about paths the workload never drives.")
ENTRY = "start of the module exposed under cfg(verif_hooks) so that a native harness can register it"

P = []
def add(*a, **k): P.append(prop(*a, **k))

add("G01", "A deny-mode service that fails to answer never lets the request through",
    "When a service whose failure mode is deny (the default) cannot give a usable answer - the host refuses the call, the call ends with an error status, the answer is empty or not decodable, or the inputs of the call (its predicate or message) cannot be evaluated - the client gets a 500 reply and the request is not forwarded. "
    "This holds wherever the call sits in the action set, for calls nested in replies, for calls that had to wait for their inputs and for the short form of the auth and rate-limit actions. "
    "Only a failure found after the response body started to flow is left without effect on the client.",
    ["configurations", "histories", "fault_sequences", "inputs"],
    "every action set, request, order of callbacks and replies, and every combination of failing calls",
    "The tests fail one call at a time in a handful of fixed configurations; the property is about every position of a failing call in every action set and schedule.",
    [PIPE + "tasks/failure_mode.rs", PIPE + "tasks/dynamic.rs", PIPE + "executor.rs", PIPE + "blueprint.rs", K + "services/dynamic.rs"],
    [("failure mode decorator around every call", PIPE + "tasks/failure_mode.rs"), ("failure terminates the pipeline with the default reply", PIPE + "tasks/send_reply.rs")],
    [("deferred tasks", "calls waiting for their answer", PIPE + "executor.rs")], [ABI, "local replies", "actions returned to the host"], TECH, NOTE, ENTRY)

add("G02", "A failing allow-mode service never stops or alters a request",
    "When a service whose failure mode is allow cannot give a usable answer (call refused, error status, undecodable or empty answer, inputs that cannot be evaluated), the request is treated as if that call had not been configured: no local reply, no header changes from it, its dependent actions are skipped and the remaining actions still take effect.",
    ["configurations", "histories", "fault_sequences", "inputs"],
    "every action set, request, order of callbacks and replies, and every combination of failing calls",
    "The tests fail one call at a time in a handful of fixed configurations; the property ranges over combinations of failures with the other actions still pending.",
    [PIPE + "tasks/failure_mode.rs", PIPE + "tasks/dynamic.rs", PIPE + "executor.rs", PIPE + "blueprint.rs"],
    [("failure mode decorator around every call", PIPE + "tasks/failure_mode.rs")],
    [("deferred tasks", "calls waiting for their answer", PIPE + "executor.rs")], [ABI], TECH, NOTE, ENTRY)

add("G03", "Nothing passes while a guarding call is outstanding",
    "From the moment a guarding call is made until its answer has been dealt with, the stream is held: callbacks tell the host to pause and the host is not told to resume. "
    "The last part of a response is held for as long as any call is outstanding. "
    "Calls marked as not guarding never hold the stream on their own.",
    ["configurations", "histories", "fault_sequences"],
    "every action set and every interleaving of stream callbacks and answers, over several concurrent streams",
    "The tests answer calls in one order; whether the stream is held must be right at every step of every interleaving of guarding and non-guarding calls.",
    [PIPE + "executor.rs", PIPE + "tasks/mod.rs", K + "kuadrant/context.rs", W + "filter/kuadrant_filter.rs"],
    [("barrier counting outstanding guarding calls", K + "kuadrant/context.rs"), ("pause and resume decisions", W + "filter/kuadrant_filter.rs")],
    [("barrier", "number of guarding calls outstanding", K + "kuadrant/context.rs")], [ABI], TECH, NOTE, ENTRY)

add("G04", "At most one verdict per request, with the configured content",
    "A request gets at most one local reply, and after it no further calls are started and nothing else is changed. "
    "The reply carries the status, headers and body its deny action or policy answer prescribes (500 with the standard body for failures, or when the configured reply cannot be built or sent), plus the tracking header when one is configured. "
    "No local reply is sent unless an action whose predicate holds, or a failure, calls for it.",
    ["configurations", "histories", "inputs"],
    "every action set and interleaving, with several candidates for a verdict on one request",
    "The tests have one denial per request; here several actions and outstanding calls compete for the verdict.",
    [PIPE + "tasks/send_reply.rs", PIPE + "tasks/fail.rs", PIPE + "executor.rs", PIPE + "blueprint.rs", K + "data/headers.rs"],
    [("termination clears the queue and silences outstanding calls", PIPE + "executor.rs")],
    [("terminated", "a verdict was given", PIPE + "executor.rs")], [ABI, "local replies"], TECH, NOTE, ENTRY)

add("G05", "Every held stream is released once nothing is left to wait for",
    "A stream held by the filter is resumed, or ended with a local reply, at the latest when the last outstanding call has been answered, whatever the answers were and in whatever order they came. "
    "A stream is never left held with no call outstanding, and no callback panics.",
    ["configurations", "histories", "fault_sequences"],
    "every action set and interleaving of callbacks, answers, refusals and failures (bounded progress: at each quiescent point)",
    "A stall needs a particular mix of guarding, nested, ordered and failing calls; tests sample very few.",
    [PIPE + "executor.rs", W + "filter/kuadrant_filter.rs", K + "kuadrant/context.rs", PIPE + "tasks/fenced.rs"],
    [("resume on completion or when the barrier clears", W + "filter/kuadrant_filter.rs")],
    [("barrier", "number of guarding calls outstanding", K + "kuadrant/context.rs")], [ABI], TECH, NOTE, ENTRY)

add("G06", "Requests are governed by the most specific matching route, or by none",
    "The action set applied to a request is the first, in configuration order, whose route predicates all hold among those declared for the most specific hostname (exact, then longest wildcard) matching the request's host, compared without case and without port. "
    "A request that matches none is passed through untouched. "
    "A route predicate that cannot be evaluated refuses the request with a 500 reply.",
    ["configurations", "inputs"],
    "every set of hostnames, wildcards and predicates, and every request host",
    "The tests use a few fixed hostnames; the property ranges over overlapping wildcards, shared prefixes, ports, case and several action sets per hostname.",
    [PIPE + "factory.rs", W + "filter/kuadrant_filter.rs", PIPE + "blueprint.rs"],
    [("index of reversed hostnames", PIPE + "factory.rs")], [], [ABI, "the upstream of the call made"], 
    "runtime monitoring: differential route-selection oracle over randomized route tables and hosts", NOTE, ENTRY)

add("G07", "Actions take effect in order, at most once, and wait where told to",
    "Every action whose predicate holds takes effect exactly once per request, in configuration order unless it has to wait for data; actions nested in a reply run when and only when that reply arrives. "
    "An action with sequential execution runs only after all actions before it have completed (with the calls made from their replies), and those after it only once it has. "
    "A repeated or late event never repeats an effect.",
    ["configurations", "histories"],
    "every action set and interleaving of callbacks and answers",
    "Ordering bugs need particular interleavings of answers and body chunks; the tests run a few fixed ones.",
    [PIPE + "executor.rs", PIPE + "tasks/fenced.rs", PIPE + "blueprint.rs", PIPE + "tasks/headers.rs", PIPE + "tasks/store.rs"],
    [("task queue with dependencies", PIPE + "executor.rs"), ("fences", PIPE + "tasks/fenced.rs")],
    [("completed tasks", "ids other tasks wait for", PIPE + "executor.rs")], [ABI], TECH, NOTE, ENTRY)

add("G08", "Actions run exactly when their predicate holds, with replies in scope",
    "An action runs if and only if its predicate evaluates to true; one that depends on data not yet available waits for it. "
    "The reply of a call is visible under its variable to the actions nested in that reply and to nothing else, and a value saved by a store action is visible to the actions that refer to it.",
    ["configurations", "inputs", "histories"],
    "every action set, nesting and interleaving, with equal variable names in different scopes",
    "The tests never reuse a variable name across scopes, nest more than one level, or go past ten actions.",
    [PIPE + "blueprint.rs", K + "kuadrant/context.rs", K + "data/cel.rs", PIPE + "tasks/dynamic.rs"],
    [("bindings scoped by the id of their owner", K + "kuadrant/context.rs")],
    [("bindings", "replies by owner", K + "kuadrant/context.rs"), ("stored values", "values by path", K + "kuadrant/context.rs")], [ABI], TECH, NOTE, ENTRY)

add("G09", "Auth actions implement the external authorization contract",
    "For an auth action that applies, the authorization service receives one check of the request as it stands (method, path, host, headers, addresses, time, the scope as host context and the configured request data), within the configured timeout. "
    "A denial is relayed to the client with its status (403 when it is zero), headers and body; an approval sets the returned headers on the request and exposes the returned metadata to later actions and the host; an answer that is neither, or uses unsupported features, is refused with a 500.",
    ["inputs", "configurations", "histories", "fault_sequences"],
    "every combination of action, request data, predicates and answer of the service",
    "The tests compare a few recorded messages; here every field of every message is compared with an independent encoding over random requests and answers.",
    [K + "configuration/legacy_translation.rs", K + "services/dynamic.rs", K + "services/dynamic/converters.rs", PIPE + "blueprint.rs"],
    [("translation of auth actions", K + "configuration/legacy_translation.rs")], [], [ABI, "messages sent to the service"],
    "runtime monitoring: wire-level contract oracle with an independent protobuf codec", NOTE, ENTRY)

add("G10", "Rate-limit actions report and enforce what the configuration says",
    "For a rate-limit, check or report action that applies, the service receives the scope (or configured domain), the hits and exactly the descriptor entries of the data blocks whose predicates hold, in order, followed by the configured request data. "
    "Over-limit is answered to the client as 429 with the headers of the answer; under-limit adds the headers of the answer to the response; anything else is refused with a 500. "
    "A report waits for the response data it mentions and never holds up the request.",
    ["inputs", "configurations", "histories", "fault_sequences"],
    "every combination of action, data blocks, predicates, request data, response and answer of the service",
    "The tests compare a few recorded messages; here every field of every message is compared with an independent encoding over random configurations.",
    [K + "configuration/legacy_translation.rs", K + "services/dynamic.rs", PIPE + "tasks/token_usage.rs", PIPE + "blueprint.rs"],
    [("translation of rate-limit actions", K + "configuration/legacy_translation.rs")], [], [ABI, "messages sent to the service"],
    "runtime monitoring: wire-level contract oracle with an independent protobuf codec", NOTE, ENTRY)

add("G11", "Header actions leave exactly the headers the configuration describes",
    "A header set by an action, or by the answer of a call, replaces every header of that name (in any letter case) with exactly the given value, on the request or the response as configured; all other headers keep their values and order. "
    "Changes to the response are applied once the response headers have arrived, and an action that fails, is skipped or is refused by the host changes nothing.",
    ["inputs", "configurations", "histories", "fault_sequences"],
    "every list of headers, sequence of header actions and answer, and every write refused by the host",
    "The tests set one header on a mock that has few; here lists with repeated names, other letter case, odd values and several actions in sequence are compared with an independent model.",
    [PIPE + "tasks/headers.rs", K + "data/headers.rs", PIPE + "blueprint.rs", K + "kuadrant/context.rs"],
    [("rewriting of a header map", PIPE + "tasks/headers.rs")], [("request and response header maps", "held by the host, cached by the module", K + "kuadrant/cache.rs")],
    [ABI, "header maps"], "runtime monitoring: header maps held by the simulated host compared with an independent model after every callback", NOTE, ENTRY)

add("G12", "JSON body expressions yield the document's values, however it is chunked",
    "requestBodyJSON and responseBodyJSON yield exactly the value, with its type, that the JSON body has at the pointer, for every split of the body into chunks and whether chunks were passed on or held in between. "
    "When the body is cut short, is not JSON or has no such value, an action that needs it stores nothing, sends nothing and denies nothing.",
    ["inputs", "histories", "configurations"],
    "every document, pointer and division of the body into chunks, with and without the stream being held",
    "The tests feed a handful of plain documents in one or two chunks; escapes, strings that spell other types, line breaks, cuts in the middle of characters and values, and chunks arriving while the stream is held are not among them.",
    [PIPE + "tasks/store.rs", PIPE + "tasks/store/json_body_parser.rs", PIPE + "tasks/store/body_parser.rs", PIPE + "tasks/token_usage.rs", K + "kuadrant/context.rs", K + "data/cel.rs"],
    [("streaming extraction of body values", PIPE + "tasks/store/json_body_parser.rs"), ("extraction for calls on the response body", PIPE + "tasks/token_usage.rs")],
    [("position in the body", "bytes passed on and bytes buffered", K + "kuadrant/context.rs")], [ABI, "exported properties", "messages sent", "local replies"],
    "runtime monitoring: generated documents with known values, read through exports, calls and denials of the real module", NOTE, ENTRY)

add("G13", "Event-stream bodies yield the values of the event before the last",
    "For a response of type text/event-stream, responseBodyJSON yields the value found in the data of the last event but one, however the stream is divided into chunks, lines and fields (comments, other fields, any of the three line endings, data over several lines). "
    "With fewer than two events, an event that is not JSON or has no such value, the actions that need the value store nothing and send nothing.",
    ["inputs", "histories", "configurations"],
    "every event stream, pointer and division into chunks, with and without the stream being held",
    "The tests feed well-formed streams in whole lines; chunks that split lines, line endings and characters, and streams read while held, are not among them.",
    [PIPE + "tasks/store/sse_body_parser.rs", PIPE + "tasks/store/sse_body_parser/sse_line_parser.rs", PIPE + "tasks/store.rs", PIPE + "tasks/token_usage.rs", K + "kuadrant/context.rs"],
    [("event parser", PIPE + "tasks/store/sse_body_parser.rs"), ("extraction for calls on the response body", PIPE + "tasks/token_usage.rs")],
    [("position in the body", "bytes passed on and bytes buffered", K + "kuadrant/context.rs")], [ABI, "exported properties", "messages sent"],
    "runtime monitoring: generated event streams with known values, read through exports and calls of the real module", NOTE, ENTRY)

add("G14", "Expressions see request and connection attributes as the proxy reports them",
    "In every expression, request.*, source.*, destination.*, connection.* and metadata attributes have the value and type the proxy reports (text, number, boolean, timestamp, JSON metadata), null when the proxy has none, repeated request headers are joined by commas, and source.remote_address is the peer's address without its port. "
    "An attribute that cannot be read or decoded makes the actions that need it do nothing but never ends up as a wrong value, and one the proxy cannot give yet makes them wait for it.",
    ["inputs", "configurations", "fault_sequences"],
    "every attribute, value, encoding error, host error and point at which the attribute becomes available",
    "The tests read a few attributes with plain values; undecodable, extreme, IPv6, absent and late ones, and every attribute the documentation lists, are not among them.",
    [K + "data/attribute.rs", K + "data/cel.rs", K + "kuadrant/context.rs", K + "kuadrant/cache.rs"],
    [("attributes by well-known type", K + "data/cel.rs"), ("decoding of properties", K + "data/attribute.rs")], [("cached attributes", "values read for this request", K + "kuadrant/cache.rs")],
    [ABI, "headers set and messages sent from the expressions"], "runtime monitoring: attribute values served by the simulated host compared with what expressions in the real module show", NOTE, ENTRY)

add("G15", "A configuration takes effect as a whole or not at all",
    "A configuration the module accepts governs every later request entirely, one it rejects (not JSON, unknown or missing fields, invalid durations, services, predicates, expressions or actions) changes nothing, and requests already in flight finish under the configuration they started with. "
    "What a configuration leaves out gets the documented defaults: failure mode deny, timeout 20ms, actions that guard, run in parallel and keep their stored values to themselves.",
    ["configurations", "histories"],
    "every sequence of accepted and rejected configurations, interleaved with requests in every phase",
    "The tests configure once and check one rejected configuration; the property is about sequences, what is in flight, and every way to be invalid or leave something out.",
    [W + "filter/root_context.rs", K + "configuration.rs", PIPE + "factory.rs", PIPE + "blueprint.rs"],
    [("configuration parsed, compiled and swapped in", W + "filter/root_context.rs"), ("compilation of action sets", PIPE + "blueprint.rs")],
    [("pipeline factory", "what new requests use", PIPE + "factory.rs")], [ABI, "answer to on_configure"],
    "runtime monitoring: requests probing which configuration governs them, checked against a reference of accepted configurations", NOTE, ENTRY)

add("G16", "Descriptors are fetched until they arrive and used only for their own service",
    "For each service (endpoint and gRPC service) of the accepted configuration whose descriptors are missing, the module asks the configured descriptor service on configuration and again on every tick until a usable answer arrives - never for one it has, has already asked for, or knows by itself; failed, refused, partial, unusable or unsolicited answers never disturb descriptors in use. "
    "While a service's descriptors are missing, its calls fail per its failure mode and nothing is sent; afterwards its messages are encoded and read with exactly the descriptors received for that service at that endpoint, across reconfigurations.",
    ["histories", "fault_sequences", "configurations"],
    "every sequence of configurations, ticks, answers (failed, partial, unusable, unsolicited), refused dispatches and requests",
    "The tests insert descriptors directly; the fetch protocol with its failures, retries and reconfigurations, and two endpoints with different schemas of one service, are not run.",
    [K + "filter/descriptor_manager.rs", K + "services/dynamic.rs", W + "filter/root_context.rs"],
    [("fetch, answer and retry of descriptors", K + "filter/descriptor_manager.rs"), ("tick and configuration driving the fetch", W + "filter/root_context.rs")],
    [("descriptor states", "missing, asked for or received, per endpoint and service", K + "filter/descriptor_manager.rs")],
    [ABI, "calls to the descriptor service, messages to dynamic services"],
    "runtime monitoring: trace specification of the fetch protocol checked online under faults", NOTE, ENTRY)

add("G17", "Values cross between expressions and gRPC messages unchanged",
    "A message built by an expression for a service known by its descriptor carries exactly the values the expression gave, encoded for the descriptor's field numbers and types; a value that does not fit its field (other type, out of range, unknown enum number) fails the call, never arriving changed. "
    "In later expressions a reply's fields have the values and types that were sent, default values where the reply leaves out a field without presence, and are absent where it leaves out one with presence.",
    ["inputs", "configurations"],
    "every message schema (scalars, enums, nested, repeated, map, oneof, optional, well-known types), value and reply",
    "The tests convert a few hand-written messages; the property ranges over schemas supplied at run time, extreme values, and bytes other encoders produce (packed or not, unknown fields, any order).",
    [K + "services/dynamic.rs", K + "services/dynamic/converters.rs", PIPE + "tasks/dynamic.rs", PIPE + "blueprint.rs"],
    [("conversions between CEL values and messages", K + "services/dynamic/converters.rs")], [("descriptor pool", "schemas received at run time", K + "services/dynamic.rs")],
    [ABI, "messages dispatched, headers set from replies"],
    "runtime monitoring: random schemas and values, messages decoded and replies encoded by an independent protobuf codec", NOTE, ENTRY)

add("G18", "Every request and configuration is counted exactly once per outcome",
    "The hits, misses, errors, denied, allowed and configs counters grow by exactly the number of requests governed, requests not governed, failures, denials, responses seen and configurations received - no event is lost or counted twice, whatever the interleaving.",
    ["histories", "fault_sequences", "configurations"],
    "every action set, interleaving of streams, failures and configuration reloads",
    "No existing test covers the counters under concurrent streams, late answers or rejected configurations.",
    [K + "metrics/mod.rs", W + "filter/kuadrant_filter.rs", W + "filter/root_context.rs", PIPE + "tasks/send_reply.rs", PIPE + "tasks/failure_mode.rs"],
    [("counters", K + "metrics/mod.rs")], [], [ABI, "metric increments"],
    "runtime monitoring: conservation of counters against a reference interpreter", NOTE, ENTRY)

add("G19", "Each call carries its own request's id and trace context",
    "Every call made for a request carries exactly one x-request-id - the request's own, or one made up once for it and given to no other request - and that request's trace context: its trace id, sampling decision, trace state and baggage, never those of a request interleaved with it. "
    "Without tracing the context is passed on as it came, and none is invented; with tracing (a tracing service, a level that records spans, an identifier header) each finished request that is sampled is exported once, under its trace id, parent, hostname and action set, with the spans its calls named as parents, and spans of requests that are not sampled never are. "
    "Turning tracing on changes nothing else that a client, an upstream or another service can see.",
    ["schedules", "configurations", "inputs"],
    "every interleaving of requests with and without trace context, request id and baggage, under every tracing level",
    "The tests build one trace context at a time; the property is about spans that stay open across callbacks while other requests run in between.",
    [K + "kuadrant/context.rs", PIPE + "executor.rs", PIPE + "tasks/tracing_decorator.rs", PIPE + "tasks/export_traces.rs", K + "services/tracing.rs", K + "tracing/propagation.rs", K + "tracing/mod.rs"],
    [("context sent with a call", K + "kuadrant/context.rs"), ("export at the end of a request", PIPE + "tasks/export_traces.rs")], [("current span of the process", "the request being worked on", K + "kuadrant/context.rs"), ("buffer of finished spans", "any request", K + "tracing/processor.rs")],
    [ABI, "metadata of the calls dispatched, spans in the export requests, id header on responses"],
    "runtime monitoring: trace metadata of every dispatch checked against the request it belongs to, exported spans accounted for, and a differential run of the same schedule without tracing", NOTE, ENTRY)

add("G23", "Traces kept in memory are bounded and the newest are kept",
    "However many requests end without an export, at most 100 finished spans are kept; when there are more, the oldest are given up and the newest are what the next export carries, each of them once and in the order they ended. "
    "An export the host refuses or that ends with an error changes nothing for the request that made it.",
    ["histories", "fault_sequences"],
    "every history of requests cut off by the client between exports, and every refused or failed export",
    "The unit tests fill the buffer directly; the property is about what is exported after many requests ended without exporting.",
    [K + "tracing/processor.rs", PIPE + "tasks/export_traces.rs", K + "services/tracing.rs"],
    [("span buffer", K + "tracing/processor.rs")], [("buffer of finished spans", "any request of the process", K + "tracing/processor.rs")],
    [ABI, "spans in the export requests"],
    "runtime monitoring: offline checker of exported spans against the history of requests that ended", NOTE, ENTRY)

add("G20", "No input makes the filter panic",
    "Whatever the configuration text, the attributes, headers and bodies of requests and responses, the answers and descriptors of other services, the order in which the host calls the module, and the host calls that fail, the module never panics: in a proxy one panic takes the filter away from every request. "
    "The one exception is deliberate: when the host refuses the very reply that stands in for a request that could not be judged.",
    ["inputs", "configurations", "histories", "fault_sequences"],
    "every byte sequence the module is given, every order of callbacks and every failing host call",
    "The tests give well-formed inputs in Envoy's order; the property is about all others, at every entry point.",
    [W + "filter/root_context.rs", W + "filter/kuadrant_filter.rs", K + "data/cel.rs", K + "data/cel/strings.rs", K + "services/dynamic/converters.rs", K + "filter/descriptor_manager.rs", PIPE + "tasks/store/sse_body_parser.rs", PIPE + "tasks/store/json_body_parser.rs"],
    [("entry points of the module", W + "filter/kuadrant_filter.rs"), ("entry points of the root context", W + "filter/root_context.rs")], [], [ABI, "panics caught at the entry points"],
    "runtime monitoring: hostile and mutated inputs with injected host failures, overflow checks and debug assertions on, panics trapped at every entry point", NOTE, ENTRY)

add("G21", "String functions in expressions give the values of the CEL strings extension",
    "charAt, indexOf, lastIndexOf, join, lowerAscii, upperAscii, trim, replace, split and substring give the values of the CEL strings extension for every text, with positions and limits that count characters, integers for results that are positions, and only ASCII letters changing case. "
    "An argument of another type, a position past the end for charAt, before the start, or an end before the start fails the expression, without any other effect on the request.",
    ["inputs"],
    "every text, in and out of ASCII, every argument, and every composition of the functions, as stored values, conditions and header values",
    "The tests evaluate one example or two per function; the property ranges over texts of characters of any length and their combinations.",
    [K + "data/cel/strings.rs", K + "data/cel.rs"], [("string functions", K + "data/cel/strings.rs")], [], [ABI, "stored values, headers set and conditions met"],
    "runtime monitoring: differential check of the module's evaluation against an independent evaluator on random compositions", NOTE, ENTRY)

add("G22", "Requests do not influence each other",
    "What the module does for a request - the calls it makes, what it replies, the headers and values it sets, when it holds and releases it, what it counts - depends on nothing but the configuration in force when the request began, the request, its response and the answers to its own calls; requests served before or at the same time, reloads in between and their failures make no difference.",
    ["schedules", "histories", "configurations"],
    "every interleaving of several requests, reloads of the configuration and ticks",
    "The tests serve one request at a time; state leaking from one request to another only shows with several in flight, on particular interleavings.",
    [W + "filter/root_context.rs", W + "filter/kuadrant_filter.rs", K + "kuadrant/context.rs", K + "kuadrant/cache.rs", PIPE + "factory.rs", PIPE + "executor.rs"],
    [("context of one request", K + "kuadrant/context.rs"), ("tasks built from the shared blueprint", PIPE + "factory.rs")], [("pipeline factory", "shared by all requests", PIPE + "factory.rs")], [ABI],
    "runtime monitoring: metamorphic check - each request of a random interleaving is run again alone and must be served the same", NOTE, ENTRY)

add("G24", "Memory does not grow with what has been served",
    "However many requests were served, denied or cut off at any point, calls left unanswered, configurations loaded or rejected and descriptor fetches failed, the module keeps no memory for them once they are over, apart from the bounded buffer of traces and the descriptors received of services. "
    "While a body passes by, what is kept does not grow with its length, except that a JSON document read by a short-form rate-limit action is kept, once for each such action, until its end.",
    ["histories", "inputs"],
    "every history of requests, reloads and fetches repeated any number of times, and bodies of any length",
    "No test measures memory, and growth only shows over histories far longer than a test's.",
    [W + "filter/root_context.rs", W + "filter/kuadrant_filter.rs", PIPE + "executor.rs", PIPE + "tasks/token_usage.rs", PIPE + "tasks/store/sse_body_parser.rs", K + "filter/descriptor_manager.rs", K + "tracing/processor.rs"],
    [("state of a request, dropped with it", W + "filter/kuadrant_filter.rs"), ("event-stream parser", PIPE + "tasks/store/sse_body_parser.rs")], [("deferred tasks", "calls waiting for their answer", PIPE + "executor.rs"), ("descriptor states", "by endpoint and service", K + "filter/descriptor_manager.rs")], ["allocations made by the module and not freed"],
    "runtime monitoring: allocator that tags the module's allocations, live bytes compared over repeated histories and long bodies", NOTE, ENTRY)

add("G25", "The log follows the proxy's level and accounts for failures",
    "From the next request or accepted configuration after the proxy's log level was set, the proxy's log shows exactly what the most talkative level would, less what is below the level set; the level makes no difference to how requests are served. "
    "Every rejected configuration, every descriptor fetch answered with an error or with something unusable, every failure counted in kuadrant.errors and every default 500 reply comes with at least one message at error level, and a fail action that applies with its configured message.",
    ["histories", "fault_sequences", "configurations"],
    "every history of configurations, requests, failing calls and changes of the log level",
    "The tests look neither at what is logged nor at changes of the level; which failures are silent only shows over all the ways in which a request can fail.",
    [K + "tracing/mod.rs", K + "tracing/log_layer.rs", W + "wasm_host.rs", W + "filter/root_context.rs", PIPE + "tasks/dynamic.rs"],
    [("filter of the log layer, reloaded with the level", K + "tracing/mod.rs"), ("level asked of the host", W + "wasm_host.rs")], [("log filter handle", "process-wide", K + "tracing/mod.rs")], ["log host calls"],
    "runtime monitoring: metamorphic check - a random history run with everything logged and again with changing levels, the second log being the first one filtered; plus an online check that failures are logged", NOTE, ENTRY)

add("G26", "Nothing is evaluated after a terminal action",
    "Once an action marked terminal has run (its predicate held), no action after it in the action set is evaluated: no call, header change, saved value or denial of theirs takes effect; only those that ran while it waited for its data stand. "
    "An action whose predicate is false, or that is not marked terminal (other than one that denies), leaves the actions after it to run. "
    "A terminal deny or fail ends the request with its reply.",
    ["configurations", "histories"],
    "every action set with terminal actions of every kind at any position, every outcome of their predicates, and every order of callbacks and answers",
    "The tests look at the outcome of one terminal task; the property is about what the actions around it do, over positions, predicates, phases and answers still to come.",
    [PIPE + "tasks/store.rs", PIPE + "tasks/headers.rs", PIPE + "tasks/fail.rs", PIPE + "tasks/send_reply.rs", PIPE + "executor.rs", PIPE + "blueprint.rs"],
    [("terminal flag of an action", PIPE + "blueprint.rs"), ("queue of tasks given up", PIPE + "executor.rs")], [], [ABI],
    "runtime monitoring: online checker of a trace specification - what the actions after a terminal one do is compared with what may happen, over random action sets, predicates and answers", NOTE, ENTRY)

add("G27", "Work is in proportion to what a request brings",
    "Processor time, memory allocated and body bytes read from the proxy grow no faster than in proportion to the bodies' length (however divided into chunks, lines and events, held or passed on), the number of headers there are (once for each that is set) and of metadata entries, and the length of the texts handled by the string functions; they do not grow with the number of hostnames configured or of requests served before or at the same time. "
    "Every body byte is read from the proxy at most once for each action that reads it.",
    ["inputs", "configurations", "histories"],
    "every length and division of bodies, number of headers, hostnames and requests",
    "The tests use bodies of a few bytes and configurations of a few hostnames, where work in the square of the length is not seen.",
    [PIPE + "tasks/store/sse_body_parser.rs", PIPE + "tasks/store/json_body_parser.rs", PIPE + "tasks/token_usage.rs", PIPE + "executor.rs", K + "kuadrant/cache.rs", K + "data/cel/strings.rs", W + "filter/kuadrant_filter.rs"],
    [("event-stream parser", PIPE + "tasks/store/sse_body_parser.rs"), ("body held by the proxy", PIPE + "executor.rs")], [], [ABI, "allocations made by the module", "processor time of the module's entry points"],
    "runtime monitoring: bytes read at the host interface, allocations and processor time of the module measured for inputs of two sizes and the growth bounded", NOTE, ENTRY)

add("G28", "Saved values are read back and exported as they were computed",
    "A store action that applies saves exactly the value, with its type, that its expression gave: later expressions that refer to its path find that value, or the one saved last under the path, and one marked for export is given to the host once, as kuadrant.<path>, with the same content as a protobuf Value (a map as a Struct). "
    "An action whose predicate is false, whose value has no such form, or whose export the host refuses saves and exports nothing, leaves what was saved before, and does not end the request.",
    ["inputs", "configurations", "fault_sequences"],
    "every value of every type and nesting, every path, every sequence of stores and of expressions that refer to them, in action lists and in replies",
    "The tests save a handful of values and look at them one at a time; types, nesting, paths that share their beginnings and values saved again are endless.",
    [PIPE + "tasks/store.rs", K + "kuadrant/context.rs", K + "data/cel.rs", K + "services/dynamic/converters.rs"],
    [("values saved for a request", K + "kuadrant/context.rs")], [], [ABI, "values exported and headers set"],
    "runtime monitoring: independent recomputation - random values stored and exported, the bytes decoded by a separate codec and what expressions find compared with what was stored", NOTE, ENTRY)

add("G29", "Configurations that say the same are served the same",
    "Requests have the same outcome - calls, replies, headers, exported values, holds and counters - under configurations that differ only in the spelling of the JSON document (order of keys, blanks, escapes, defaults written out, other units of the same timeout), parentheses around expressions, letter case of hostnames, the names of services, action sets and variables, or one action set's being given once for all of its hostnames or once for each. "
    "Nor do parts of a configuration that do not apply to a request change its outcome: services no action refers to, action sets of other hostnames, other hostnames of its action set, and actions whose predicate is false.",
    ["configurations", "inputs", "schedules"],
    "every pair of configurations that differ so, every sequence of requests and replies",
    "The tests use one way of writing each configuration and seldom more in it than the case at hand needs.",
    [K + "configuration.rs", PIPE + "blueprint.rs", PIPE + "factory.rs", PIPE + "executor.rs", K + "services/mod.rs", K + "data/cel.rs"],
    [("configuration schema", K + "configuration.rs"), ("index of hostnames", PIPE + "factory.rs")], [], [ABI, "host calls and results of the entry points"],
    "runtime monitoring: metamorphic relation - each random configuration is written in other words, both are served the same requests with the same answers at the same points, and the effects at the host interface compared", NOTE, ENTRY)
