#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or [], hook_needed=hook)))

p("P01", "Reading a body yields exactly the declared prefix of its source",
  "Whatever sequence of plain and buffered reads a user performs on a body, with whatever buffer sizes and whatever short reads, pending results or errors the source produces, the bytes handed out are the source's bytes in order, each once, and never more of them than the length the body was created with. Once that many bytes have been handed out the body reports end of stream without touching the source again; a body created without a length hands out everything the source has. The reported length of a body never changes as it is read, and its emptiness flag is true exactly for a declared length of zero.",
  ["inputs", "schedules", "histories", "fault_sequences"],
  "every source script (chunk sizes, Pending, errors), declared length (absent, shorter, equal, longer, near the integer limit), and interleaving of read / fill / consume calls",
  "Tests read a Cursor to the end with one buffer size; they never mix buffered and unbuffered reads, never see a Pending or a short read, and never observe the bound through the buffered interface.",
  ["src/body.rs"],
  [("length-limited poll_read", "src/body.rs impl AsyncRead for Body"), ("buffered reads", "src/body.rs impl AsyncBufRead for Body")],
  [("length", "declared length, if any", "src/body.rs Body"), ("bytes_read", "bytes handed out so far", "src/body.rs Body")],
  ["AsyncRead::poll_read", "AsyncBufRead::poll_fill_buf / consume", "Body::len", "Body::is_empty"])

p("P02", "Chaining bodies concatenates what is left of both, with correct metadata",
  "Chaining one body after another gives a body whose content is everything still unread within the first body's bound followed by everything still unread within the second's. Its length is the sum of the two unread amounts when both were declared and the sum fits in 64 bits, and is unknown otherwise. Its media type is the common one when both agree (including both having none) and the generic byte-stream type otherwise.",
  ["inputs", "histories", "schedules"],
  "every nesting of chains, every amount already read (by plain or buffered reads) from either part before chaining, every declared length",
  "Unit tests chain two or three fresh string bodies; partially consumed parts, overflow of the length sum and nested chains under scripted sources are not reached.",
  ["src/body.rs"],
  [("chain", "src/body.rs Body::chain")],
  [("length/bytes_read/mime", "inputs of the combination", "src/body.rs Body")],
  ["Body::chain", "Body::len", "Body::mime", "AsyncRead on the result"])

p("P03", "A message's Content-Type follows its body but never overrides the user",
  "Whenever a request or response is given a new body (set, replaced, swapped in, or emptied by taking), a missing Content-Type header is filled with that body's media type if it has one, and a Content-Type header that is already present is left exactly as it was. The body operations return or exchange exactly the previous body and touch no other part of the message, and the message's length and emptiness always are those of its current body. Setting the content type explicitly replaces the header and hands back the old values; reading it gives the media type parsed from the last value.",
  ["histories", "inputs"],
  "every sequence of body, header and content-type operations on requests and responses",
  "Tests perform one set_body on a fresh message; histories in which headers are set, removed and bodies swapped in between are not explored.",
  ["src/request.rs", "src/response.rs", "src/body.rs"],
  [("copy_content_type_from_body", "src/request.rs, src/response.rs"), ("set_content_type", "src/request.rs, src/response.rs")],
  [("headers[content-type]", "explicit or derived content type", "Request/Response"), ("body", "current body", "Request/Response")],
  ["Request/Response set_body, replace_body, swap_body, take_body, set_content_type, content_type, len, is_empty"])

p("P04", "Whole-body readers return all remaining content or a client-error status",
  "Reading a whole body as bytes or text returns exactly the unread content within the declared length, and decoding it as JSON or form data returns the value that content encodes. Content that is not valid UTF-8 (for text and forms), not valid JSON, or not the expected form is reported as an error with status 422, a failure of the source is reported as an error, and no declared length or content makes these readers panic. After reading through a request or response, that message is left with an empty body. A body made from a JSON value or a form holds exactly its encoding, with that length and media type.",
  ["inputs", "fault_sequences", "histories"],
  "every source script, declared length, prior reads, content bytes, and reader (bytes, text, JSON, form) on a body, request and response",
  "Tests decode a handful of well-formed documents; truncation, invalid UTF-8, source faults and extreme declared lengths are not tried.",
  ["src/body.rs", "src/request.rs", "src/response.rs"],
  [("into_bytes/into_string/into_json/into_form", "src/body.rs"), ("body_*", "src/request.rs, src/response.rs")],
  [], ["Body::into_*", "Request::body_*", "Response::body_*"])

p("P05", "Header collections are case-insensitive ordered multimaps",
  "For any history of insertions, appends, removals and in-place edits, on a header collection, a request, a response or a trailers block, looking a name up in any letter case gives exactly the values that history leaves for it, in the order they were added: insertion replaces and returns the previous values, appending adds at the end and never loses earlier values, removal returns and deletes them. Every iterator visits each name, and each name with each of its values, exactly once and its size hint never contradicts what it yields. An insertion or append that fails on an invalid value leaves the collection exactly as it was.",
  ["histories", "inputs"],
  "every sequence of operations over names in any case, value lists of any size, and all container kinds and iterators",
  "Unit tests check single insert/append calls; nothing checks that long mixed histories, failed operations, mutable iteration and the four container kinds agree with one multimap.",
  ["src/headers/headers.rs", "src/headers/header_values.rs", "src/headers/iter.rs", "src/headers/iter_mut.rs", "src/headers/into_iter.rs", "src/headers/values.rs", "src/headers/names.rs", "src/headers/to_header_values.rs", "src/request.rs", "src/response.rs", "src/trailers.rs"],
  [("insert/append/remove/get", "src/headers/headers.rs"), ("value lists", "src/headers/header_values.rs")],
  [("headers", "name -> list of values", "src/headers/headers.rs Headers")],
  ["Headers/Request/Response/Trailers insert, append, remove, get, get_mut, contains, iter, iter_mut, into_iter, names, values, Index"])

p("P06", "Header names and values admit exactly ASCII and names compare caselessly",
  "Parsing text or bytes into a header name or value succeeds exactly when every byte is ASCII, and otherwise fails with an error instead of panicking. A value then shows precisely the text it was made from; a name shows its lower-case form, and two names are equal, and hash alike, exactly when they differ at most in letter case.",
  ["inputs"], "every byte string up to the bound, for every constructor and comparison of names and values",
  "Tests try one accepted and one rejected string; the boundary of the accepted set and the comparison operators with strings are not enumerated.",
  ["src/headers/header_name.rs", "src/headers/header_value.rs", "src/headers/header_values.rs"],
  [("from_bytes/from_string/FromStr", "src/headers/header_name.rs, src/headers/header_value.rs")],
  [], ["HeaderName", "HeaderValue", "comparison operators"])

p("P07", "Trailers reach the receiver at most once, unchanged, or it learns there are none",
  "For every interleaving of one task that creates the sender and sends or drops it and another that creates the receiver and waits, a receiver obtains exactly the trailers that were sent, at most once, and obtains nothing if the message and sender are dropped without sending; it never obtains anything before the send and it is never left waiting once trailers were sent or all senders are gone. A message reports that it has trailers exactly from the moment its sender has been created, and each endpoint can be created at most once per message (a second attempt panics). A copy of a response that is still around counts as the response itself, keeping the endpoints not created when it was made; a copy of a request keeps none.",
  ["schedules", "histories"],
  "every interleaving of create-sender, send, drop, create-receiver, poll and message drop, on requests and responses",
  "One test sends in one task and receives in another in a single order; dropping, polling before sending and repeated creation are not covered.",
  ["src/trailers.rs", "src/request.rs", "src/response.rs"],
  [("bounded one-slot channel", "src/trailers.rs Sender/Receiver"), ("take-once endpoints", "src/request.rs, src/response.rs send_trailers/recv_trailers")],
  [("trailers_sender/receiver", "endpoint not yet handed out", "Request/Response"), ("has_trailers", "sender was created", "Request/Response")],
  ["send_trailers", "recv_trailers", "has_trailers", "trailers::Sender::send", "trailers::Receiver"])

p("P08", "Connection upgrades are handed over at most once and pass bytes through intact",
  "For every interleaving, the receiver of a response's upgrade obtains exactly the connection that was sent, at most once, or nothing once every sender is gone, and is never left waiting in either case; each endpoint can be created at most once per response. Data written to and read from the upgraded connection reaches the underlying transport unchanged, in order, with the transport's own partial results, pending states and errors. A response reports an upgrade exactly once an endpoint meant for it has been created.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of create, send, drop and poll, and every script of transport results",
  "The upgrade module has no tests of delivery order, dropping, or of transport faults passing through.",
  ["src/upgrade/sender.rs", "src/upgrade/receiver.rs", "src/upgrade/connection.rs", "src/response.rs"],
  [("bounded one-slot channel", "src/upgrade/sender.rs, receiver.rs"), ("delegation", "src/upgrade/connection.rs")],
  [("upgrade_sender/receiver", "endpoint not yet handed out", "src/response.rs")],
  ["send_upgrade", "recv_upgrade", "has_upgrade", "upgrade::Connection read/write/flush/close"])

p("P09", "Extensions hold at most one value per type and return exactly what was put in",
  "For any history of inserts, removals, mutations and clears, looking a type up gives the value most recently stored for that very type and nothing if there is none. Inserting returns the previous value of the same type, removing returns and deletes it, and no operation on one type affects another.",
  ["histories"], "every history over several types, including zero-sized and same-layout types, on bare maps and through requests and responses",
  "One unit test stores and reads two types once.",
  ["src/extensions.rs", "src/request.rs", "src/response.rs"],
  [("TypeId keyed map", "src/extensions.rs")], [("map", "type -> value", "src/extensions.rs Extensions")],
  ["Extensions::insert/get/get_mut/remove/clear/contains", "Request/Response ext, ext_mut, AsRef/AsMut, Index"])

p("P10", "Errors carry the status they were given and default to 500",
  "An error reports exactly the status it was created or last marked with, and 500 when none was given; attaching a status or a status computed from the error to a failed result or an absent option changes only the failing case and evaluates lazily only then, and a successful value passes through untouched. The original message, type and source of the wrapped error stay visible through display (with its causes in the alternate and debug forms), downcasting and the type name, and a status number that is not a known status is rejected by a panic, never silently replaced. The assertion macros return early with the given status exactly when their condition fails.",
  ["inputs", "histories"], "every known status, every constructor and conversion, chains of status marking and wrapping, success and failure",
  "Tests sample two or three statuses and one wrapping order.",
  ["src/error.rs", "src/status.rs", "src/macros.rs"],
  [("Error", "src/error.rs"), ("Status trait", "src/status.rs"), ("bail/ensure/ensure_eq/format_err", "src/macros.rs")],
  [("status", "status carried by the error", "src/error.rs Error")],
  ["Error::status", "Error::set_status", "Status::status/with_status", "macros"])

p("P11", "Message fields are independent and clones share nothing but copied values",
  "Every setter of a request or response (method, status, URL, version, peer and local address, headers, body, extensions) changes only what it names, and every getter returns what was last set. A clone equals its original in all of those except that its body is empty and its extensions are gone, and from then on no operation on one message's fields is visible through the other.",
  ["histories"], "every history of setters, header edits, body operations and clones over two live messages",
  "No test edits an original after cloning it or checks frame conditions of setters.",
  ["src/request.rs", "src/response.rs"],
  [("Clone", "src/request.rs, src/response.rs"), ("setters", "src/request.rs, src/response.rs")],
  [("message fields", "method/status/url/version/addresses/headers/body/ext", "Request/Response")],
  ["all getters of Request and Response", "Clone"])

p("P12", "Media type negotiation picks the best acceptable offer, deterministically",
  "Negotiating an Accept list against the available media types returns an available type matched by a proposal of the highest weight among those that match any available type, the later declared proposal winning a tie and the earliest available type winning within a proposal; a proposal of weight zero never causes a match. If none matches, the first available type that no weight-zero proposal excludes is returned when the wildcard was given, and otherwise an error with status 406. The outcome depends only on the list and the available types, so negotiating again gives the same answer. A list written to a header reads back as the same list, quoted parameters with commas included.",
  ["inputs", "histories"], "every list of weighted proposals (including wildcards, parameters, ties, zero weights), wildcard flag and available list, built by hand or parsed from headers, negotiated repeatedly",
  "Tests negotiate three fixed lists once each.",
  ["src/content/accept.rs", "src/content/media_type_proposal.rs", "src/utils/mod.rs", "src/mime/mod.rs"],
  [("sort_by_weight", "src/utils/mod.rs"), ("negotiate", "src/content/accept.rs")],
  [("entries", "weighted proposals", "src/content/accept.rs Accept")],
  ["Accept::negotiate", "Accept::sort", "Accept::from_headers", "Accept::iter"])

p("P13", "Encoding negotiation picks the best acceptable offer, deterministically",
  "Negotiating an Accept-Encoding or TE list against the available encodings returns the available encoding with the highest weight, where an encoding declared without a weight ranks below every weighted one, the later declaration wins a tie, and a weight of zero forbids the encoding. If none matches, the first available encoding that is not forbidden is returned when the wildcard was given, and otherwise an error with status 406. The outcome depends only on the list and the available encodings, so negotiating again gives the same answer. A list written to a header reads back as the same list, names being recognised in any letter case.",
  ["inputs", "histories"], "every list of weighted encodings, wildcard flag and available list, built by hand or parsed from headers (unknown encodings skipped), negotiated repeatedly",
  "Tests negotiate three fixed lists once each.",
  ["src/content/accept_encoding.rs", "src/content/encoding_proposal.rs", "src/transfer/te.rs", "src/transfer/encoding_proposal.rs", "src/utils/mod.rs"],
  [("sort_by_weight", "src/utils/mod.rs"), ("negotiate", "src/content/accept_encoding.rs, src/transfer/te.rs")],
  [("entries", "weighted proposals", "AcceptEncoding, TE")],
  ["negotiate", "sort", "from_headers", "iter"])

p("P14", "MIME types parse per the WHATWG grammar and survive formatting",
  "Parsing a string as a media type succeeds exactly when the WHATWG MIME sniffing grammar accepts it, yielding the lower-cased type and subtype and the parameters in order with the first of duplicate names winning, names lower-cased, quoted values unescaped and ill-formed parameters skipped. Formatting a media type quotes and escapes parameter values that need it, so that formatting and parsing again gives an equal media type. The media type of a message is that of the last of its Content-Type values: read as a typed header it is that media type, or a client error when the value is not one.",
  ["inputs"], "every string over an alphabet of token, separator, quoting, whitespace and non-token characters up to the bound, and random longer ones",
  "Unit tests list about thirty hand-picked strings.",
  ["src/mime/parse.rs", "src/mime/mod.rs", "src/mime/constants.rs"],
  [("parse", "src/mime/parse.rs parse"), ("format", "src/mime/parse.rs format")],
  [], ["Mime::from_str", "Display for Mime", "Mime::essence/basetype/subtype/param"])

p("P15", "MIME parameters, extensions and range matching behave consistently",
  "Looking up and removing parameters on a media type, in any letter case of the name, behaves as on an ordered map with at most one entry per name: removal returns and deletes the value, and neither changes the type, the subtype or the other parameters. A media type is a subset of another exactly when their types and subtypes agree up to wildcards in the other and every parameter of the other is present in it with the same value. The built-in media types and file extensions map to the documented values and parse back to themselves.",
  ["inputs", "histories"], "every pair of media types over a grid of types, wildcards and parameters; every parameter edit history; every built-in constant and extension",
  "Tests check a few pairs and one parameter removal.",
  ["src/mime/mod.rs", "src/mime/constants.rs"],
  [("subset_eq/param/remove_param/from_extension", "src/mime/mod.rs")],
  [("params", "ordered parameters", "src/mime/mod.rs Mime")],
  ["Mime::subset_eq", "Mime::param", "Mime::remove_param", "Mime::from_extension", "mime constants"])

p("P16", "HTTP dates convert to and from instants without loss in all three formats",
  "Formatting an instant between 1970 and 9999 as an HTTP date gives the IMF-fixdate form with the right weekday and calendar date, and parsing that text, or the same instant in RFC 850 or asctime form, gives back the same instant to the second. Text that is not one of the three forms, or names a day or time that does not exist, is rejected with an error and never shifted to another instant, and the date-carrying headers (Date, Expires, Last-Modified, If-Modified-Since, If-Unmodified-Since) read and write instants accordingly.",
  ["inputs"], "every day of 1970-9999 with boundary times of day; every syntactic perturbation of the three formats",
  "Tests check three hand-written dates.",
  ["src/utils/date.rs", "src/other/date.rs", "src/cache/expires.rs", "src/conditional/if_modified_since.rs", "src/conditional/if_unmodified_since.rs", "src/conditional/last_modified.rs"],
  [("HttpDate", "src/utils/date.rs")], [], ["Date", "Expires", "LastModified", "IfModifiedSince", "IfUnmodifiedSince"])

p("P17", "Forwarded headers parse per RFC 7239 and survive formatting",
  "Parsing a Forwarded header yields, in order, every for-value across its comma-separated elements and the by, host and proto values, with parameter names in any letter case and quoted strings unescaped; malformed input gives an error and never a panic. Without a Forwarded header the X-Forwarded-For, -By, -Host and -Proto headers are combined the same way, and with none of them there is no result. Formatting quotes whatever is not a token, so that formatting any forwarded information and parsing it again gives the same information.",
  ["inputs"], "every token sequence over the grammar alphabet up to the bound, random longer headers, and every combination of field values that need quoting",
  "Unit tests parse eight fixed headers; short or malformed input and values needing quotes are not tried.",
  ["src/proxies/forwarded.rs", "src/parse_utils.rs"],
  [("parse", "src/proxies/forwarded.rs Forwarded::parse"), ("format", "src/proxies/forwarded.rs"), ("parse_token/parse_quoted_string", "src/parse_utils.rs")],
  [], ["Forwarded::from_headers", "Forwarded::parse", "Forwarded::header_value", "accessors"])

p("P18", "A request's remote address and host follow the documented precedence",
  "The remote address of a request is the for-value of its Forwarded header if there is one, else the first address of its first X-Forwarded-For header, else its peer address, else absent. Its host is the host-value of its Forwarded header if there is one, else the first X-Forwarded-Host value, else the Host header, else the host of its URL.",
  ["inputs", "configurations"], "every combination of presence and shape of the headers involved, addresses and URL",
  "Tests cover one header at a time with well-formed values.",
  ["src/request.rs"], [("remote/host/forwarded_header_part", "src/request.rs")], [],
  ["Request::remote", "Request::host"])

p("P19", "Authentication headers round-trip schemes, credentials and challenges",
  "An Authorization or WWW-Authenticate header written from a scheme and its credentials or realm and read back gives the same scheme, credentials and realm, with scheme names recognised in any letter case; a Basic credential written from a user name without a colon and any password reads back as the same pair. A missing header reads as absent, and an unknown scheme, missing part, bad base64 or non-UTF-8 credential is an error with a 4xx status, never a panic.",
  ["inputs"], "every scheme and letter case, every credential and realm string over a stress alphabet, every truncation of the headers",
  "Tests use one fixed credential per header.",
  ["src/auth/authorization.rs", "src/auth/basic_auth.rs", "src/auth/www_authenticate.rs", "src/auth/authentication_scheme.rs"],
  [("from_headers/header_value", "src/auth/*.rs")], [], ["Authorization", "BasicAuth", "WwwAuthenticate", "AuthenticationScheme"])

p("P20", "Cache-Control directives parse and format losslessly",
  "Reading a Cache-Control header gives, in order over all its values, exactly the directives RFC 7234 and its extensions define, names in any letter case, with their delta-seconds; unknown directives are skipped and a directive with a missing or malformed required number is an error with status 400. Writing any list of directives uses their registered names and whole seconds (a fraction is dropped), and reading it back gives the same list. Each directive reports being valid in requests or responses exactly where those documents define it.",
  ["inputs"], "every list of directives with numbers across the whole 64-bit range, every letter case and malformed argument",
  "Tests read and write two directives.",
  ["src/cache/cache_control/cache_control.rs", "src/cache/cache_control/cache_directive.rs"],
  [("CacheDirective parse/format", "src/cache/cache_control/cache_directive.rs")], [], ["CacheControl::from_headers", "CacheControl::header_value", "iter"])

p("P21", "Numeric and delay headers are exact over their whole range",
  "Content-Length, Age and Retry-After written from a number and read back give exactly that number for every representable value (of a duration, its whole seconds), and reading uses the last value of the header. Text that is not a decimal number (nor, for Retry-After, an HTTP date) is an error with status 400, absence is reported as absence, and no value makes reading or using them panic; the instant computed from a Retry-After delay is that many seconds from the given time.",
  ["inputs"], "boundary and random 64-bit numbers, every malformed short string, multiple header values",
  "Tests use one small number each.",
  ["src/content/content_length.rs", "src/cache/age.rs", "src/other/retry_after.rs"],
  [("from_headers/header_value", "src/content/content_length.rs, src/cache/age.rs, src/other/retry_after.rs")], [],
  ["ContentLength", "Age", "RetryAfter"])

p("P22", "Entity tags, conditional lists and Vary round-trip exactly",
  "An entity tag reads back as the same kind (strong or weak) and opaque string it was written from, and anything not of the quoted form is an error with status 400. If-Match, If-None-Match and Vary lists, with or without the wildcard, read back as the same entries in the same order with the same wildcard flag across one or several header values.",
  ["inputs"], "every entity-tag string over a stress alphabet, every list and wildcard combination including empty lists and split headers",
  "Tests round-trip one or two tags without special characters.",
  ["src/conditional/etag.rs", "src/conditional/if_match.rs", "src/conditional/if_none_match.rs", "src/conditional/vary.rs"],
  [("ETag parse/format", "src/conditional/etag.rs"), ("lists", "src/conditional/if_match.rs, if_none_match.rs, vary.rs")], [],
  ["ETag", "IfMatch", "IfNoneMatch", "Vary"])

p("P23", "Token-list headers read back the same set of tokens and reject the rest",
  "Allow, Clear-Site-Data, Content-Encoding, Transfer-Encoding and Expect headers written from any value read back as the same value. Reading recognises exactly the registered tokens, takes the last header value for the single-token ones and all values for the lists, and reports absence as absence and an unrecognised token as the documented skip or as an error with a 4xx status, never a panic.",
  ["inputs"], "every subset and order of tokens, wildcard flags, letter cases, split headers, unknown and empty tokens",
  "Tests round-trip one or two tokens per header.",
  ["src/server/allow.rs", "src/cache/clear_site_data/mod.rs", "src/cache/clear_site_data/directive.rs", "src/content/content_encoding.rs", "src/content/encoding.rs", "src/transfer/transfer_encoding.rs", "src/transfer/encoding.rs", "src/other/expect.rs"],
  [("from_headers/header_value", "per header type")], [], ["Allow", "ClearSiteData", "ContentEncoding", "TransferEncoding", "Expect"])

p("P24", "Reading any typed header from any ASCII input never panics",
  "For every typed header, reading it from a message without that header gives absence (or, where a default is documented, the default), and reading it from a message whose header carries arbitrary ASCII values gives absence, a value, or an error, and never panics. An error caused by the header's text, where the header reports the crate's own error type, always carries a client-error (4xx) status (except in Referer and SourceMap, where existing tests fix it to 500). A value obtained this way can itself be written to a header without panicking, and what was written reads as a value that is written the same way.",
  ["inputs"], "every typed header times every short string over a stress alphabet, mutated well-formed values, and multiple values",
  "Each header has at most one malformed-input test.",
  ["src/auth", "src/cache", "src/conditional", "src/content", "src/other", "src/proxies", "src/security", "src/server", "src/trace", "src/transfer"],
  [("from_headers", "every typed header module")], [], ["from_headers of every typed header"])

p("P25", "Trace contexts propagate ids and flags exactly",
  "A trace context read from a traceparent header reports the version, trace id, parent id and sampled flag the header spells out, and writing it gives the version, trace id, own id and flags as fixed-width lower-case hexadecimal; a child keeps version, trace id and flags and has the parent's own id as its parent and a new id. Malformed headers are errors with status 400, never panics, and absence is reported as absence.",
  ["inputs"], "boundary and random ids, flags and versions; every truncation and mutation of well-formed headers; chains of children",
  "Tests read one fixed header.",
  ["src/trace/trace_context.rs"], [("from_headers/child/header_value", "src/trace/trace_context.rs")], [], ["TraceContext"])

p("P26", "Server-Timing metrics parse and format losslessly",
  "Reading a Server-Timing header gives every metric in order over all values with its name, duration in milliseconds and description, and writing a list of metrics with token names and reading it back gives the same names, descriptions and durations to the precision written. Malformed metrics, including durations that are negative, not finite or out of range, are errors with status 400, never panics.",
  ["inputs"], "every metric list over a stress alphabet for descriptions, durations across the range, and every malformed parameter",
  "Tests parse four fixed metrics.",
  ["src/trace/server_timing/mod.rs", "src/trace/server_timing/metric.rs", "src/trace/server_timing/parse.rs"],
  [("parse/format", "src/trace/server_timing")], [], ["ServerTiming", "Metric"])

p("P27", "Security helpers set exactly their headers; policies can be applied repeatedly",
  "A content security policy applied to a message sets one header listing every directive once, in a fixed order, with its sources in the order they were added, and applying the same policy again, to the same or other messages, gives the same header. Each security helper sets its own header to the documented value (replacing what was there, or for the referrer policy adding to it), removes the server-identification header when asked to, and changes nothing else.",
  ["histories", "inputs"], "every sequence of policy edits and applications, and every sequence of helpers with every argument over messages with pre-existing headers",
  "Each helper is tested once on a fresh header map.",
  ["src/security/csp.rs", "src/security/mod.rs"],
  [("ContentSecurityPolicy::value/apply", "src/security/csp.rs"), ("helpers", "src/security/mod.rs")],
  [("directives", "directive -> sources", "src/security/csp.rs")],
  ["ContentSecurityPolicy", "security::default, dns_prefetch_control, nosniff, frameguard, powered_by, hsts, xss_filter, referrer_policy"])

p("P28", "Transport-security and timing-origin policies round-trip",
  "A Strict-Transport-Security policy written to a message and read back has the same maximum age in whole seconds and the same flags, with directive names in any letter case and order, unknown directives ignored, and a missing or malformed maximum age an error with status 400. A Timing-Allow-Origin list read back has the same origins in order and the same wildcard flag over one or several header values, and a malformed origin is an error with status 400.",
  ["inputs"], "every flag combination and boundary age, every directive order and letter case, every origin list and wildcard",
  "Tests round-trip a policy without flags and two origins.",
  ["src/security/strict_transport_security.rs", "src/security/timing_allow_origin.rs"],
  [("from_headers/header_value", "both files")], [], ["StrictTransportSecurity", "TimingAllowOrigin"])

p("P29", "URL-valued headers resolve relative references against the given base",
  "Reading a Referer, Source-Map or Content-Location header whose last value is an absolute URL gives that URL whatever the base, a relative reference gives its resolution against the base, and anything else is an error; absence is reported as absence. Writing a URL and reading it back against any base gives the same URL.",
  ["inputs"], "a grid of absolute URLs, relative references and malformed strings times bases, and multiple header values",
  "Tests read one absolute and one relative URL.",
  ["src/other/referer.rs", "src/other/source_map.rs", "src/content/content_location.rs"],
  [("from_headers", "the three files")], [], ["Referer", "SourceMap", "ContentLocation"])

p("P30", "Converting to and from the http crate's types loses and invents nothing",
  "Converting a request or response to or from the http crate's type preserves the method, URL, status, version, body and every header value, including the order and number of repeated values, and adds no header that was not there. Converting a header collection to and from the http crate's map preserves the same multimap, and something the other side cannot represent is reported as an error by the fallible conversions, never as a panic or lost data.",
  ["inputs"], "every combination of method, status, version and header multimaps (repeated names, opaque bytes) in both directions",
  "Tests convert one request and one response with a single header.",
  ["src/hyperium_http.rs"], [("From/TryFrom impls", "src/hyperium_http.rs")], [],
  ["From<http::Request<Body>>", "From<http::Response<Body>>", "TryFrom<HeaderMap>", "Method, StatusCode, Version conversions"])

p("P31", "Methods, status codes and versions match the registries in every representation",
  "Every method parses from its registered name in any letter case, displays as that name and reports exactly the registered safety; every status converts to and from its registered number, reports the documented reason phrase and exactly one class by its first digit; versions order chronologically and display in wire form. Serialising any of them and reading it back gives the same value, and any other name or number is rejected with an error, never mapped to some value.",
  ["inputs"], "all 39 methods, all 16-bit status numbers (and wider integers through serde), all versions, every letter-case and near-miss string",
  "Tests sample two or three members of each table.",
  ["src/method.rs", "src/status_code.rs", "src/version.rs"],
  [("FromStr/Display/TryFrom/serde", "src/method.rs, src/status_code.rs, src/version.rs")], [],
  ["Method", "StatusCode", "Version"])

p("P32", "Query strings round-trip and malformed queries are client errors",
  "Setting a request's query from a value and reading it back gives the same value and changes no other part of the URL. Reading a query that does not match the expected shape is an error with status 400, and a URL without a query reads like an empty one.",
  ["inputs", "histories"], "every value over a stress alphabet (separators, percent signs, spaces, non-ASCII), URLs with and without query and fragment",
  "Tests read four fixed queries.",
  ["src/request.rs"], [("query/set_query", "src/request.rs")], [("url.query", "query component", "Request.url")],
  ["Request::query", "Request::set_query"])

p("P33", "Typed headers occupy exactly one slot under their registered name",
  "Applying a typed header to a message leaves exactly one value under that header's registered name, replacing whatever was there, and changes nothing else, whether it is applied through the header itself, inserted by the user, or by reference. The name and value it reports separately are the ones it writes, and every header-name constant is its registered name in lower case.",
  ["inputs", "histories"], "every typed header with several values, over messages with and without prior values of that name; every header-name constant",
  "Tests apply one header to an empty message.",
  ["src/headers/header.rs", "src/headers/constants.rs", "src/headers/to_header_values.rs"],
  [("Header::apply_header", "src/headers/header.rs"), ("constants", "src/headers/constants.rs")], [],
  ["Header::header_name/header_value/apply_header", "insert_header(&h, &h)"])

p("P34", "A body backed by a file is that file, whole, under a truthful media type",
  "A body made from a path or from an already-open file delivers exactly the file's bytes from its first byte, whatever position the handle was at and however it is read, and its length is the file's size. Its media type is the one the file's actual content is recognised as, else the one registered for the path's extension, else application/octet-stream, and a message carrying it announces that type and length. A path that cannot be opened is an I/O error, and unrecognised or truncated content is never mistaken for a known type.",
  ["inputs"], "files of every size around the read and buffer boundaries, starting with a known signature, part of one, or anything else; any path; any handle position and read size",
  "Tests open four small files.",
  ["src/body.rs", "src/mime/mod.rs"],
  [("from_path/from_file/from_file_with_path/peek_mime/guess_ext", "src/body.rs"), ("sniff/from_extension", "src/mime/mod.rs")], [],
  ["Body::from_path", "Body::from_file", "Body::from_file_with_path", "Mime::sniff", "Mime::from_extension"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
