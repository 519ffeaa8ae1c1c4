"""The properties, and the harness entries which decide each of them.
`python3 gen.py` writes properties.jsonl and MANIFEST.json from this file."""


def e(name, *covers):
    return {"entry": name, "covers": list(covers)}


COMMON = [
    "the operating system is the in-memory model harness/src/env.rs (TCP streams, epoll, pipes, clocks); explored paths are replayed natively against the same model",
    "one executor thread (fibers' InPlaceExecutor); other interleavings are those of the modelled events",
    "the harness is compiled from /repo's sources and its locked dependencies with the pinned stable toolchain; the compiler, the front half of LLVM's optimiser and Z3 are trusted",
    "hash seeds (getrandom) are fixed",
]
# entries with long paths (default: 60 million instructions)
MAX_INSTR = {"h_pool_1024": 2000000000, "h_srv_many": 2000000000, "h_conc_idle": 2000000000, "h_pool_addrs": 2000000000}
ARG = "src/serializers/%s.rs"
DEARG = "src/deserializers/%s.rs"


def P(title, statement, over, quant, why, files, mech, entries, bounds, outside, extra=()):
    return dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                entries=entries, bounds=bounds, outside=outside, assumptions=COMMON + list(extra))


CHECKS = {
    "C01": P(
        "Path arguments reach the handler exactly as the caller gave them",
        "Whenever a call with path arguments succeeds, the handler was invoked exactly once and received path arguments equal to those the caller passed, for every string and every integer, floating-point or boolean value, including reserved URL characters, percent signs, non-ASCII text and empty strings. "
        "A path argument which a URL path cannot carry (\".\", \"..\", strings with tab, line feed or carriage return, or values making the path ambiguous) makes the call fail without invoking any handler. On the wire each argument is percent-encoded so that any standard URL decoder recovers it.",
        ["inputs"], "all argument values of the supported types, all positions of variables among constants",
        "unit tests serialize two or three fixed argument tuples; characters that need escaping or are normalised by URL parsing are never tried",
        [ARG % "url_path", DEARG % "url_path", "src/client.rs", "src/server.rs"],
        [("percent-encoding of path segments", ARG % "url_path"), ("segment-wise decoding", DEARG % "url_path")],
        [e("h_path_str", 1, 2), e("h_path_long", 1, 2), e("h_path_two", 1, 2), e("h_path_nums", 1), e("h_path_floats", 1), e("h_path_ascii", 1), e("h_cli_wire", 1, 2)],
        "strings of up to 3 (thorough 4) arbitrary bytes of valid UTF-8, alone or inside longer concrete text; two adjacent or separated variables of up to 1 (2) bytes each; integers of every width in windows of 256 consecutive values around powers of ten and type limits; segments of 1..2048 characters (ASCII and not) with one arbitrary ASCII character; floating-point numbers at 42 special bit patterns (zeros, subnormals, limits, infinities, NaN, values needing all digits) with their 2 (8) neighbours",
        "longer fully symbolic strings; integers outside the windows; other floating-point values (the payload of NaN is not preserved by text); char, enum and byte-string arguments (not supported by the library)"),
    "C02": P(
        "Query arguments reach the handler exactly as the caller gave them",
        "Whenever a call with query arguments succeeds, the handler received query arguments equal to those the caller passed: every string key or value (including '&', '=', '+', '%', '#', spaces and non-ASCII text), every integer, floating-point number and boolean, and optional fields present or absent. "
        "Such a call never fails because of the value of a query argument.",
        ["inputs"], "all values of string, integer, boolean, option, newtype and string-map query fields",
        "unit tests use fixed ASCII values; form encoding has special cases for many characters",
        [ARG % "url_query", DEARG % "url_query", "src/client.rs"],
        [("form-urlencoded pairs", ARG % "url_query"), ("form-urlencoded parsing", DEARG % "url_query")],
        [e("h_query_str", 1), e("h_query_long", 1), e("h_query_opt", 1), e("h_query_map", 1), e("h_query_nums", 1), e("h_query_floats", 1), e("h_query_many", 1), e("h_query_ascii", 1), e("h_cli_wire", 1, 2)],
        "strings of up to 3 (thorough 4) arbitrary bytes of valid UTF-8, alone or inside longer concrete text; maps with a symbolic key and value; optional fields in all combinations; integers in windows of 256 values; values of 1..2048 characters (ASCII and not) with one arbitrary ASCII character; maps of up to 100 entries; the floating-point values of C01",
        "longer fully symbolic strings; other floating-point values; sequences and nested structures as query values (not supported by the library)"),
    "C03": P(
        "Header arguments arrive exactly, and can never inject anything",
        "Whenever a call succeeds, the handler received exactly the request header arguments the caller passed, and the caller exactly the response header values the handler returned; header names are matched regardless of case. "
        "A header argument that HTTP cannot carry verbatim (control characters, leading or trailing blanks, or a name which would change the framing of the message) makes the call fail: on the wire it never produces an additional header, request or response.",
        ["inputs"], "all values of string, integer, boolean, option, unit and byte header fields, in both directions",
        "unit tests use a handful of well-behaved header values; CR/LF injection and trimming need adversarial values",
        [ARG % "http_header", DEARG % "http_header", "src/server.rs", "src/client.rs"],
        [("validation and writing of header fields", ARG % "http_header"), ("case-insensitive lookup", DEARG % "http_header")],
        [e("h_header_str", 1, 2), e("h_header_long", 1, 2), e("h_header_opt", 1, 2), e("h_header_raw", 1, 2), e("h_header_nums", 1), e("h_header_ascii", 1, 2), e("h_header_case", 1), e("h_header_name", 1, 2), e("h_cli_wire", 1, 2), e("h_srv_wire", 1, 2), e("h_e2e_resheader", 1, 2), e("h_resheader_long", 1, 2), e("h_cli_header", 1, 2),
         e("h_header_floats", 1), e("h_header_upper", 1), e("h_header_case2", 1), e("h_header_frame", 1, 2, 3, 4, 5), e("h_header_many", 1, 2), e("h_res_nums", 1), e("h_res_typed", 1, 2)],
        "values of up to 3 (thorough 4) arbitrary bytes of valid UTF-8 (or raw bytes), alone or inside longer concrete text; values of 1..2048 characters (ASCII and not) with one arbitrary ASCII character, in both directions; header names of up to 2 arbitrary characters; integers in windows of 256 values; every letter case of the names used, on the wire and in the declaration; six names around Content-Length and Transfer-Encoding with six kinds of values; up to 40 header fields; typed response headers with the same value ranges; the floating-point values of C01",
        "longer fully symbolic values; more than 24 header fields may be refused (limit of the HTTP library), never lost"),
    "C04": P(
        "Every request is dispatched to the one procedure its path and method select",
        "A request is answered by the handler of the registered procedure whose entry point matches the decoded path and whose method equals the request's; if several match, constant segments take precedence over variables from left to right, independently of registration order. "
        "If no entry point matches the path the answer is a 404 problem, if some match but none with that method a 405 problem, and no handler runs. A client calling a procedure always reaches that procedure, whatever characters its constant segments contain.",
        ["inputs", "configurations"], "all sets of registered procedures, registration orders, methods and request paths",
        "unit tests route a few fixed paths in one configuration",
        ["src/router.rs", "src/types.rs", "src/server.rs"],
        [("trie of path segments with method tables", "src/router.rs"), ("dispatch and error responses", "src/server.rs")],
        [e("h_route_path", 1, 404, 405), e("h_route_subset", 1, 404, 405), e("h_route_escaped", 1, 404, 405), e("h_route_agree", 1), e("h_route_methods", 1, 405), e("h_route_deep", 1, 2, 3), e("h_route_long", 1, 404, 405), e("h_route_seq", 1, 404, 405), e("h_route_many", 1, 404, 405)],
        "a table of 11 entry points (constants, variables, empty segments, depths 0..3): all registered in two orders with any path of up to 3 (thorough 4) characters, or any subset of three groups of five with paths of up to 3 interesting segments; all single-byte percent escapes; every pair of the nine methods; entry points of up to 260 segments and names of up to 600 characters, with one arbitrary character; sequences of five requests out of 18 with one arbitrary character, on one or several connections; up to 520 procedures at once",
        "longer paths; more than 520 procedures"),
    "C05": P(
        "Registration refuses exactly the conflicting procedures and serves all others",
        "Registering a procedure fails exactly if one with the same method and the same entry point (up to variable positions) is already registered. A refused registration leaves the existing procedures in place, and every accepted procedure is reachable afterwards.",
        ["histories", "configurations"], "all sequences of registrations",
        "unit tests register distinct procedures only",
        ["src/router.rs", "src/server.rs"],
        [("conflict detection on insert", "src/router.rs")],
        [e("h_register_long", 1, 2), e("h_register_conflict", 1, 2), e("h_register_all", 1), e("h_route_long", 1, 404, 405), e("h_route_methods", 1, 405), e("h_route_many", 1, 404, 405)],
        "all sequences of three registrations out of 11 entry points (quick: the third out of three); every pair, and all, of the nine methods on one entry point; entry points of up to 260 segments; pairs of entry points of up to 260 segments or 600 characters which are equal or differ in one of eight ways; up to 520 procedures and a duplicate of one of them",
        "longer sequences of registrations"),
    "C06": P(
        "The server survives any bytes and any disconnection",
        "Whatever bytes a peer sends and whenever it disconnects or resets, the server neither panics nor stops accepting: other and later connections are served normally, and connections of gone peers are released. "
        "Everything it writes is a sequence of well-formed responses, each a handler's answer or a problem response, with exactly one handler invocation per successful answer; a request cut short never reaches a handler.",
        ["inputs", "crash_points"], "all byte sequences from the peer, cut at any point",
        "the tests never send malformed requests",
        ["src/server.rs", DEARG % "rpc_request", DEARG % "url_path"],
        [("per-connection fiber, error containment", "src/server.rs")],
        [e("h_srv_many", 1), e("h_rob_start", 1), e("h_rob_method", 1), e("h_rob_target", 1), e("h_rob_target2", 1), e("h_rob_version", 1), e("h_rob_header", 1), e("h_rob_value", 1), e("h_rob_clen", 1), e("h_rob_te", 1), e("h_rob_chunk", 1), e("h_rob_size", 1), e("h_rob_long", 1), e("h_rob_cut", 1), e("h_rob_half", 1), e("h_srv_log", 1, 2, 200, 400, 404, 405)],
        "up to 3 (thorough 4) arbitrary bytes at the start of a message or in its method, target, version, header name, header value, Content-Length, Transfer-Encoding or chunk framing; numbers of headers and sizes around the buffer limits; targets, names and values of 10..4096 bytes of five kinds of (non-ASCII) text ending in an arbitrary byte; disconnection or reset after any byte of three requests, and at any of six moments; a peer which stops sending after its request but reads on; a server with a logger, one arbitrary byte at nine places; 1100 (2100) connections one after the other, some of them bad",
        "several corrupted places at once; pipelined requests (not supported by the HTTP library)"),
    "C07": P(
        "Malformed arguments get a 400 problem and never reach the handler",
        "If a request reaches a procedure but one of its path, query or header arguments is missing, duplicated, or not a valid value of the declared type (bad number, out of range, bad boolean; in a path, an invalid percent-escape or UTF-8; in a header, invalid UTF-8), the client gets a 400 problem response and the handler is not invoked. "
        "If all arguments are valid the handler gets exactly the values the text denotes, in whatever order the parameters and headers stand. In both cases the connection remains usable for further requests.",
        ["inputs"], "all argument texts",
        "unit tests never send invalid arguments over a connection",
        [DEARG % "url_path", DEARG % "url_query", DEARG % "http_header", "src/server.rs"],
        [("typed parsing of arguments", "src/deserializers"), ("400 response", "src/server.rs")],
        [e("h_bad_unit", 1, 2), e("h_bad_path", 1, 2), e("h_bad_escape", 1, 2), e("h_bad_utf8", 1, 2), e("h_bad_query", 1, 2), e("h_bad_header", 1, 2), e("h_bad_presence", 1, 2), e("h_bad_header_utf8", 1, 2), e("h_order", 1), e("h_arity_server", 1, 2), e("h_json_bad", 1, 2)],
        "argument texts of up to 2 (thorough 3) arbitrary visible characters, or a prefix near the limit of the type plus 1 (2) arbitrary characters, for every integer type and bool in path, query and header; all percent-escapes, all sequences of up to three escaped bytes; ten query and eight header presence patterns; all orders of three parameters and three headers; values without content (markers, units) with up to 2 (3) arbitrary characters",
        "longer symbolic texts; percent-escapes in queries are decoded leniently, as the URL standard says"),
    "C08": P(
        "A successful call delivers request and response bodies and statuses unaltered",
        "When a call returns a response, the handler was invoked exactly once with the caller's body, and the caller receives the status, headers and body the handler returned (without body for HEAD), for every method, body and way the bytes are fragmented on the network. When nothing fails, the call succeeds, and afterwards no connection is left open.",
        ["inputs", "schedules"], "all bodies, methods and fragmentations of the byte streams",
        "tests use one small body, delivered in one piece",
        ["src/client.rs", "src/server.rs", "src/procedure.rs", "src/misc.rs"],
        [("request writing, response reading", "src/client.rs"), ("body reading, response writing", "src/server.rs")],
        [e("h_e2e_body", 1), e("h_args_seq", 1), e("h_e2e_resheader", 1, 2), e("h_e2e_frag", 1), e("h_e2e_split", 1, 2), e("h_e2e_size", 1), e("h_e2e_block", 1, 2), e("h_status_names", 1), e("h_res_nums", 1), e("h_res_typed", 1, 2), e("h_content_length", 1), e("h_pool_server", 1), e("h_pool_long", 1)],
        "bodies of up to 3 symbolic bytes for all nine methods, in both directions; sizes up to 9000 bytes with transports which move 1..500 bytes at a time; sizes up to 4 MiB + 1; four calls in a row with changing arguments; the streams held back at any byte offset, or blocked for writing at 60 offsets; every status name; histories of pooled calls against the real server",
        "bodies larger than 4 MiB + 1"),
    "C09": P(
        "Requests on one connection are answered in order, each framed exactly",
        "On a persistent connection every request gets exactly one response, in order, with a Content-Length equal to its body (no body bytes after HEAD), whatever the outcome of earlier requests. The bytes of a request body are never interpreted as a request, whether or not the handler read them.",
        ["inputs", "histories"], "all sequences of requests on one connection and amounts of body read by handlers",
        "tests send one request per connection",
        ["src/server.rs", "src/misc.rs"],
        [("keep-alive loop", "src/server.rs"), ("draining of unread bodies", "src/server.rs")],
        [e("h_conc_mix", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10), e("h_frame_long", 1), e("h_frame_seq", 1), e("h_frame_status", 1), e("h_frame_unread", 1), e("h_frame_many", 1), e("h_rob_half", 1), e("h_bad_query", 1, 2), e("h_header_frame", 1, 2, 3, 4, 5), e("h_pool_server", 1), e("h_content_length", 1)],
        "three (thorough four) requests out of six kinds with bodies that look like requests, the first one cut at five places; handlers which read 0..all bytes of a 19-byte body whose arrival is cut at five places; 1030 (2100) requests of five kinds in a row on one connection; every status as a handler's answer, twice, and requests in between; two connections with requests of nine kinds interleaved; four requests of four kinds, one of them with a target of up to 5000 characters and up to 20 headers",
        "pipelined requests and chunked request bodies (limits of the HTTP library)"),
    "C10": P(
        "Response statuses map one to one between the types and HTTP status codes",
        "A response whose variant names a status is sent with that status's registered code and the client decodes it to the same variant; numeric statuses (including those of a response wrapped in the variant of that status) are sent and decoded as the same number. A status which is not a registered code, a variant naming none, or a response the procedure does not declare makes the call fail rather than be mistaken for something else.",
        ["inputs"], "all status names, all 16-bit numbers, all three-character codes on the wire",
        "tests touch three statuses",
        [ARG % "rpc_response", DEARG % "rpc_response", "src/types.rs"],
        [("name/code tables", "src/misc.rs"), ("variant identification", DEARG % "rpc_response")],
        [e("h_status_names", 1), e("h_status_number", 1, 2), e("h_status_shapes", 1, 2), e("h_cli_status", 1, 2), e("h_cli_undeclared", 1, 2)],
        "all 57 names in three response shapes; numeric statuses in seven (thorough all 256) windows of 256; any three bytes as the code of a response",
        "status codes the HTTP library does not know"),
    "C11": P(
        "Problem responses carry the problem and its status consistently",
        "A problem made from an error has its text as title, its cause as detail and its tracking history. A problem returned by a handler arrives at the client equal in type, title, status, detail and history, as application/problem+json, and the HTTP status of the response equals the status of the problem, even if the problem was replaced after the response was created. A client which cannot understand the problem document of a response still reports the received status, never another one.",
        ["inputs"], "all problem contents and ways of making problem responses",
        "tests do not send problems through a client",
        ["src/rfc7807.rs", ARG % "rpc_response", DEARG % "rpc_response"],
        [("problem response type", "src/rfc7807.rs")],
        [e("h_problem_plain", 1), e("h_problem_variant", 1), e("h_problem_blank", 1), e("h_problem_track", 1), e("h_problem_big", 1), e("h_cli_problem", 1, 2)],
        "titles of up to 2 (thorough 3) arbitrary bytes of UTF-8, details, instances and histories out of a few texts, all registered statuses; errors with texts, causes and histories of 0..2 events; titles, details and events of up to 3000 characters and histories of up to 100 events, with one arbitrary character; eight problem documents of other servers with up to 2 (3) arbitrary bytes inside",
        "longer symbolic titles"),
    "C12": P(
        "Unknown query parameters and headers are ignored",
        "Query parameters and headers which the procedure does not declare change nothing: whatever their names and values and wherever they stand, the handler receives the same arguments and the caller the same answer as without them. The same holds for unknown response headers on the client side.",
        ["inputs"], "all unknown names, values and positions",
        "tests send declared fields only",
        [DEARG % "url_query", DEARG % "http_header"],
        [("skipping of unknown fields", "src/deserializers")],
        [e("h_unknown_query", 1), e("h_unknown_header", 1), e("h_unknown_response", 1), e("h_unknown_shapes", 1), e("h_unknown_many", 1), e("h_unknown_near", 1, 2)],
        "names of up to 2 characters and values of up to 1 (thorough 2) bytes, in three positions; eight request types, including those without query or header, with 1 (2) arbitrary bytes of query; up to 300 parameters or 25 headers, names and values of up to 2000 characters, names which are nearly known, values which are no text, with one arbitrary character; fields with unusual names, one character of the name on the wire arbitrary",
        "longer symbolic names and values"),
    "C13": P(
        "Values embedded by the JSON and MessagePack helpers round-trip",
        "A value passed through the JSON, pretty-JSON or MessagePack field helpers, in a path, query or header argument or inside another document, is received equal to what was sent, whatever text and numbers it contains. Text which is not a valid encoding of the declared type is rejected like any malformed argument.",
        ["inputs"], "all values of a nested structure; all malformed texts",
        "tests use fixed values",
        ["src/json.rs", "src/json_pretty.rs", "src/msgpack.rs"],
        [("with-modules for serde", "src/json.rs")],
        [e("h_json_query", 1), e("h_json_path", 1), e("h_json_header", 1, 2), e("h_json_bad", 1, 2), e("h_msgpack", 1), e("h_msgpack_bad", 1, 2), e("h_json_big", 1, 2), e("h_msgpack_big", 1), e("h_json_edge", 1, 2), e("h_json_wide", 1)],
        "a structure with a string of up to 2 (thorough 3) arbitrary bytes, an integer, options, a list and an enum; texts of up to 3000 (MessagePack 5000) characters with one arbitrary; every character of two or three bytes; 64-bit integers around powers of ten and of two; lists, maps of up to 40 elements; malformed texts of 2 (3) characters, and numbers with any byte or up to three non-ASCII bytes before, after or inside; floating-point numbers at selected values",
        "other floating-point values (in JSON, those of more than 15 digits may be off by one in the last place: a limit of the JSON library)"),
    "C14": P(
        "Requests may omit any of path, query and header",
        "For every combination of present and absent path, query and header parts, nested newtypes and unit parts included, a call delivers all present parts unaltered to the handler. A request type the transport cannot express makes the call fail before any handler runs.",
        ["inputs", "programs"], "all combinations of parts, all values",
        "tests use one combination",
        [ARG % "rpc_request", DEARG % "rpc_request"],
        [("part-wise serialization", ARG % "rpc_request"), ("part-wise deserialization", DEARG % "rpc_request")],
        [e("h_shapes_empty", 1), e("h_shapes", 1, 2), e("h_shapes_root", 1)],
        "14 request types covering every subset of the parts; one part symbolic at a time; eleven types with parts which may be empty (all fields optional, maps, units, newtypes, tuple structs), any fields present; eight of them at the entry point without segments",
        "request types outside the 14"),
    "C15": P(
        "Path argument lists must fit the entry point; otherwise clean errors",
        "If the path arguments of a request type do not fit the variables of the entry point (too few, too many, not a flat list of values), the call fails with an error and no handler runs; a server asked directly answers with a 400 problem or uses only the arguments it declares. No mismatch panics or makes the connection unusable.",
        ["programs", "inputs"], "all pairs of argument lists and entry points",
        "tests use matching pairs only",
        [ARG % "url_path", DEARG % "url_path", "src/client.rs"],
        [("counting of variables", ARG % "url_path"), ("end-of-path checks", DEARG % "url_path")],
        [e("h_arity_client", 1, 2), e("h_arity_server", 1, 2), e("h_arity_many", 1, 2)],
        "11 kinds of argument lists (units, tuples of 1..3, bare values, newtypes, maps, structures, vectors, options, nested tuples) against entry points with 0..3 variables; tuples and tuple structures of up to 144 values against entry points with 13 numbers of variables (0..64), constants before, after or between them",
        "other numbers of variables"),
    "C16": P(
        "Clients turn every bad response into an error, never a wrong result",
        "Whatever a server sends and whenever it disconnects, a call ends with an error or with the response actually sent; it never panics, never reports a truncated or misframed response as success, and never waits once the response is complete or the connection is gone. Afterwards, or when the caller abandons the call, no connection is left open.",
        ["inputs", "crash_points"], "all response bytes, cut at any point, closed or reset",
        "tests talk to well-behaved servers only",
        ["src/client.rs", DEARG % "rpc_response", "src/misc.rs"],
        [("response reading", "src/client.rs")],
        [e("h_cli_bytes", 1, 2), e("h_cli_clen", 1, 2), e("h_cli_header", 1, 2), e("h_cli_cut", 1, 2, 3), e("h_cli_undeclared", 1, 2), e("h_cli_status", 1, 2), e("h_cli_problem", 1, 2), e("h_cli_abandon", 1, 2), e("h_cli_full", 1)],
        "up to 2 (thorough 3) arbitrary bytes at twelve places of a response; Content-Length of up to 3 (4) arbitrary characters; five responses cut at every byte, in two pieces, then left open, closed or reset; typed headers of up to 3 characters; complete responses of every status (bodies of up to 5000 bytes) to requests of every method; calls abandoned after 0..15 (59) steps",
        "several corrupted places at once; chunked response bodies (decoded by the HTTP library)"),
    "C17": P(
        "Pooled connections are reused only when idle, never shared or reused broken",
        "A pooled call uses an idle connection to exactly the requested address if one exists and otherwise opens a new one (unless the address is suspended); no two calls in progress ever share a connection. "
        "A connection whose call failed or was abandoned, or which the server ends with its response, is closed and never used again, and each caller gets the response to its own request.",
        ["histories", "schedules", "fault_sequences"], "all histories of calls, answers, failures, cancellations and server-side closes",
        "there are no tests of the pool",
        ["src/pool.rs", "src/client.rs"],
        [("pool actor: acquire, release, discard", "src/pool.rs")],
        [e("h_pool_head", 1, 2, 10), e("h_pool_hist", 1, 2, 4, 10), e("h_pool_fail", 1, 2, 3, 5, 10), e("h_pool_nosuspend", 10), e("h_pool_many", 1, 2, 10), e("h_pool_addr", 1, 2, 4, 10), e("h_pool_server", 1), e("h_pool_gone", 1, 10), e("h_pool_close", 10, 11), e("h_pool_cancel", 1, 2, 10), e("h_pool_long", 1), e("h_pool_addrs", 1)],
        "histories of a first call and 5 (thorough 7) further calls or answers, or 4 (5) calls, answers, failures of five kinds and closes, over two addresses (differing in port, host, or IPv6 scope) and pool sizes 0..2; histories against the real server; calls after the pool is gone; twelve ways of ending or keeping the connection with a response of any registered status; calls abandoned after 0..23 (47) steps with and without an idle connection; 600 calls in a row; HEAD calls with eight forms of response of any status; 150 (400) addresses",
        "longer histories; several executor threads"),
    "C18": P(
        "The pool keeps at most its configured number of idle connections, evicting LRU",
        "At any time at most the configured number of idle connections is kept (0 keeps none); when a connection is returned beyond that, the least recently used idle connections are closed and the most recent kept. Connections in use are never closed by the pool.",
        ["histories", "configurations"], "all histories and pool sizes",
        "there are no tests of the pool",
        ["src/pool.rs"],
        [("eviction on release", "src/pool.rs")],
        [e("h_pool_lru", 1, 2, 4, 10), e("h_pool_hist", 1, 2, 4, 10), e("h_pool_default", 10), e("h_pool_1024", 10), e("h_pool_addrs", 1)],
        "four connections to three addresses answered in any order and reused in any order, pool sizes 0..3; the histories of C17; the default size (1024) with 12 (24) and 1026 connections; connections to 150 (400) addresses",
        "larger pools, longer histories"),
    "C19": P(
        "Unreachable addresses are suspended for the configured time, others are not",
        "After a connection attempt to an address fails, calls to that address fail at once without a connection attempt until the configured suspension time (default one minute) has passed, and are attempted again afterwards. Other addresses are not affected, and failures of established connections never suspend an address.",
        ["histories", "configurations", "fault_sequences"], "all times between the calls and configured durations",
        "there are no tests of the pool",
        ["src/pool.rs"],
        [("suspended address list", "src/pool.rs")],
        [e("h_pool_suspend", 1, 2, 3), e("h_pool_mixed", 1, 2, 10), e("h_pool_suspend2", 1, 2, 10), e("h_pool_nosuspend", 10), e("h_pool_suspend_many", 1, 2, 10), e("h_pool_cancel", 1, 2, 10)],
        "seven configured durations (default, 0, 0.7 s, 1 s, 1.5 s, 1 h, the maximum); any later moment within 65536 s at six sub-second offsets; another address differing in port, host or family; histories of four (five) attempts to three addresses with any number of seconds up to 255 between them; 150 (300) addresses suspended at a time; addresses to which there are idle or busy connections, with and without idle connections to another one",
        "longer histories with several addresses"),
    "C20": P(
        "Connection attempts are given up after the configured timeout, not before",
        "A pooled call whose connection attempt gets no answer fails when the configured connect timeout (default one second) has passed, not earlier and within the timer resolution; the half-open connection is closed and the address suspended. Calls to other addresses proceed meanwhile.",
        ["schedules", "configurations"], "all times and configured timeouts",
        "there are no tests of the pool",
        ["src/pool.rs"],
        [("timeout on connect", "src/pool.rs")],
        [e("h_pool_timeout", 1, 2), e("h_pool_late", 1, 2, 3, 4), e("h_pool_cancel", 1, 2, 10)],
        "seven configured timeouts (default, 0, 0.25 s, 1.5 s, 2 s, 300 s, 25 h); any later moment within 65536 s at six sub-second offsets; timers up to 20 ms late; two attempts which are accepted or refused after any such time",
        "other timeouts; moments beyond 65536 s"),
    "C21": P(
        "Concurrent connections and calls are isolated from each other",
        "Any number of connections and calls may be in progress in any interleaving: each caller gets exactly the response to its own request as soon as its handler has finished, regardless of slow, malformed or vanished neighbours.",
        ["schedules", "histories"], "all interleavings of message pieces, handler completions and misbehaviour of other peers",
        "tests run one call at a time",
        ["src/server.rs", "src/client.rs"],
        [("one fiber per connection", "src/server.rs")],
        [e("h_conc_mix", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10), e("h_conc_calls", 1, 2, 3, 4, 10), e("h_srv_many", 1), e("h_conc_raw", 1, 2, 10), e("h_conc_clients", 10), e("h_conc_many", 10), e("h_conc_idle", 1), e("h_e2e_block", 1, 2), e("h_cli_abandon", 1, 2)],
        "three connections, messages in two pieces, 6 (thorough 8) events in any order; three (four) real clients answered in any order; 250 (256) connections with a request in progress on each; two connections with requests of nine kinds, and two (three) direct or pooled calls of four procedures, in any interleaving; 1100 (2100) connections one after the other, or open at a time",
        "more connections; several executor threads"),
    "C22": P(
        "Starting and stopping a server affects that server only",
        "A server which cannot listen on its address reports an error instead of running deaf; several servers in one process serve their own procedures only. A server that is stopped no longer accepts connections, and requests already begun on its connections are still received completely and answered.",
        ["histories", "crash_points"], "all moments of stopping a server relative to the bytes of a request; pairs of servers",
        "tests start one server and never stop it",
        ["src/server.rs"],
        [("accept loop, one fiber per connection", "src/server.rs")],
        [e("h_srv_again", 1, 2, 3, 4, 10), e("h_srv_life", 1, 2, 3)],
        "an occupied address; two servers, asked in any order; a server stopped after any byte of a request with body; two servers, four (six) times asked, stopped or started again in any order, with a request begun on each before",
        "several executor threads; failures of accept()"),
}
