H="wruster/src/http/mod.rs"; HD="wruster/src/http/headers.rs"; L="wruster/src/lib.rs"
ST="wruster/src/http/status.rs"; VE="wruster/src/http/version.rs"; RT="wruster/src/router/mod.rs"; TR="wruster/src/router/trie.rs"
TS="wruster/src/streams/timeout_stream.rs"; CS="wruster/src/streams/cancellable_stream.rs"; OB="wruster/src/streams/observable.rs"
SP="wruster/src/thread_pool/static_pool.rs"; DP="wruster/src/thread_pool/dynamic_pool.rs"; TP="wruster/src/thread_pool/mod.rs"
CL="wruster/src/http/client/mod.rs"; CP="wruster/src/http/client/connection_pool.rs"; WH="wruster_handlers/src/lib.rs"; WD="wrusdummy/src/main.rs"; TL="wruster/src/streams/tls/mod.rs"; ER="wruster/src/http/errors.rs"
def m(name, where): return {"name": name, "where": where}

p("P01","Reading a request always ends in a request or an error",
  "Whatever bytes arrive, however the transport splits them, and wherever it ends, is interrupted or fails, reading an HTTP request finishes and gives either a request or an error. It never panics and never loops for ever, also when the peer closes in the middle of the start line, the headers or the body.",
  ["inputs","fault_sequences"],"every byte sequence up to the stated length, every split of it into reads, end of stream or I/O error after every byte",
  "The tests parse a few dozen fixed well-formed or slightly broken messages; the panicking and looping inputs are rare byte patterns and truncation points that no finite list of samples covers.",
  [H,HD,ER],[m("request line, header and body readers over a buffered reader",H+": Request::read_from; "+HD+": Header::read_from, parse_header_line")],["Request::read_from result","process not panicking or spinning"])
p("P02","Reading a response always ends in a response or an error",
  "Whatever bytes a server sends, however they are split, and wherever the stream ends or fails, reading an HTTP response finishes and gives either a response or an error. It never panics and never loops for ever.",
  ["inputs","fault_sequences"],"every byte sequence up to the stated length, every split of it into reads, end of stream or I/O error after every byte",
  "Tests read a handful of fixed responses; they never truncate inside the status line or the headers and never send arbitrary bytes.",
  [H,HD],[m("status line, version and header readers",H+": HttpResponseLine::read_from, validate_version; Response::read_from")],["Response::read_from result"])
p("P03","Parsing depends on the bytes, not on how they are delivered",
  "The same message bytes give the same result (the same fields, or failure in both cases) whether they arrive in one read or split arbitrarily, and interrupted reads in between change nothing.",
  ["inputs","schedules"],"every message up to the stated length and every way of cutting it into reads, with interruptions between them",
  "Tests feed whole in-memory buffers, so a dependence on read boundaries (CR and LF in different reads, a header split in two) is invisible to them.",
  [H,HD],[m("buffered read-until loops that accumulate chunks",HD+": Header::read_from"),m("request/status line readers",H)],["Request::read_from / Response::read_from over a scripted reader"])
p("P04","Header fields follow the HTTP grammar exactly",
  "A header line is accepted exactly when it is a non-empty token, a colon directly after it, and at least one further byte, all of them visible characters, high bytes, spaces or tabs; anything else (control bytes, a space before the colon, no colon) makes the whole message an error. The delivered value is the text after the colon without the surrounding spaces and tabs, and all values of a repeated field are kept in the order sent.",
  ["inputs"],"every header line up to the stated length and every pair of header lines",
  "Header grammar is decided byte by byte; the unit tests try a few valid names and one or two invalid ones, so a wrong character class or an off-by-one at the end of the line passes them.",
  [HD,H],[m("token / field-content classification",H+": MessageChar"),m("header line parser",HD+": parse_header_line")],["Headers::read_from result"])
p("P05","Header names are recognised in any letter case",
  "A field sent by a peer is found under its canonical name (each dash-separated word capitalised) whatever capitalisation the peer used, so two spellings of one name are always the same field and two different names never are.",
  ["inputs"],"every header name up to the stated length and every re-capitalisation of it, in particular of the fields that control framing and persistence",
  "The tests use one or two spellings; whether content-length, CONTENT-LENGTH or cOnTeNt-LeNgTh all frame the body is a question over all 2^n spellings.",
  [HD],[m("name normalisation when parsing",HD+": normalize_header_name")],["Headers::get on a parsed message","body framing"])
p("P06","The request line is delivered exactly as sent",
  "A request is accepted only if its first line is one of the nine known methods, a single space, a non-empty target, a single space and a version ended by CR LF; method, target and version reach the handler exactly as sent. A line with an unknown or differently cased method is never accepted.",
  ["inputs"],"every first line up to the stated length",
  "Tests check a few fixed request lines; case-folding a method, trimming the target or accepting a bare LF would pass them.",
  [H],[m("request line reader and method table",H+": HttpRequestLine::read_from, HttpMethod::from_str")],["fields of the parsed request"])
p("P07","A message body is exactly the announced bytes",
  "The body of a parsed message yields exactly the number of bytes its Content-Length announces, the bytes that directly follow the header section, and never a byte beyond them; with no Content-Length or zero there is no body. A message whose length is repeated, not a plain decimal number or too large for the machine, or that uses a transfer coding other than identity, is refused.",
  ["inputs","fault_sequences"],"every Content-Length text up to the stated length, every body and surplus up to the stated sizes, every way of reading it",
  "Off-by-one framing, sign or space acceptance and ambiguous lengths are what request smuggling is made of; tests read one or two matching bodies and reach none of the boundary values.",
  [H],[m("length parsing and bounded reader",H+": Body::read_from, Body::ensure_read")],["bytes read from the body","result of reading the message"])
p("P08","Skipping a body consumes exactly the rest of it",
  "After a handler has read any part of a request body, through either the body or its content reader, discarding the rest consumes exactly the bytes of the body that are still unread and not one more, so the next message starts at the right byte; if the stream ends or fails first the failure is reported or the connection is at its end.",
  ["inputs","histories","fault_sequences"],"every body length, every amount read before, every way of reading it and every failure point within the stated bounds",
  "No test reads a body partly and then checks where the following message starts.",
  [H,L],[m("read accounting and draining",H+": Body::ensure_read, impl Read for Body")],["position of the underlying stream after draining"])
p("P09","A written response is one correctly framed message",
  "What is sent for a response is exactly a status line with its code and reason, one line per header value, an empty line and the body bytes; the message announces exactly one length, equal to the number of body bytes that follow, also when the handler gave a body without a length header or no body at all. A body that yields more bytes than it announces is cut, and one that yields fewer is reported as a failure instead of leaving the connection out of step.",
  ["inputs"],"every status, every set of header values, every body and announced length within the stated bounds",
  "Tests compare a few fixed responses; the framing of responses built without headers, with a wrong length or with their own length header is not exercised.",
  [H,HD],[m("response, header and body writers",H+": Response::write, Body::write; "+HD+": Headers::write")],["bytes given to the writer"])
p("P10","Short writes and write errors never lose bytes silently",
  "Whatever the sink does (accepts part of a write, interrupts it, or fails), writing a request or response either delivers every byte in order exactly once or reports an error. Small and large bodies behave alike.",
  ["inputs","fault_sequences"],"every sequence of partial acceptances, interruptions and failures of the sink within the stated bounds",
  "Tests write into memory buffers that accept everything, so a lost tail or a swallowed final error is unobservable.",
  [H,HD],[m("start line writers and body copy",H+": HttpRequestLine::write, HttpResponseLine::write, Body::write")],["bytes accepted by the sink against the reported result"])
p("P11","Writing a message and reading it back gives the same message",
  "A request or response built through the public API, written out and read back is the same message: method, target and version or status code, every header value in order, and body bytes.",
  ["inputs"],"every method, status code, target, header value and body within the stated bounds",
  "The tests round-trip one message; the property is an equation over all of them.",
  [H,HD,ST],[m("writers and readers as inverse functions",H)],["fields of the message read back"])
p("P12","Status codes, methods and versions convert without loss",
  "Every status code number from 0 to 999 (and beyond, as an extension) converts to a status and back to the same number, distinct named statuses have distinct numbers, and the printed form starts with that number; every method and version prints to the text it is parsed from and every other text is rejected.",
  ["inputs"],"every machine integer as a code, every text up to the stated length as a method or version",
  "The tables have more than forty rows in three functions; tests check a few rows, so two swapped rows pass.",
  [ST,H,VE],[m("conversion tables",ST+": From impls, Display, reason; "+H+": HttpMethod; "+VE)],["From/FromStr/Display results"])
p("P13","Routing picks the closest registered ancestor",
  "A request is handled by the handler registered, for its method, at the longest registered path that is the request path itself or one of its ancestors by whole path segments, and gets 404 when there is none. The order of registration does not matter, except that registering the same path and method again replaces the handler.",
  ["inputs","configurations","histories"],"every set of routes, registration order and request path within the stated bounds",
  "Tests register two or three routes and look up a few paths; the byte trie behaves differently at segment borders, for overlapping prefixes and for methods missing at the closest node, which are combinations they do not reach.",
  [RT,TR],[m("byte trie with longest prefix lookup",TR+": get_value_prefix"),m("per-path method table",RT+": Router::add, get_prefix")],["which handler runs"],"guarded access to the router lookup")
p("P14","Handlers only ever see normalised absolute paths",
  "The target a handler sees is absolute, has no empty, dot or dot-dot segment, and is what resolving the segments of the sent target gives; a target that is not absolute or climbs above the root is refused and no handler runs.",
  ["inputs"],"every target up to the stated length",
  "Tests normalise a few fixed paths; the set of dot, dot-dot, slash and other-byte combinations is exponential.",
  [RT,L],[m("lexical path normalisation before routing",RT+": Normalize; "+L+": run_action")],["request target inside the handler","response status"])
p("P15","The static handler never reaches outside its directory",
  "For every request target the server can hand to it, and every target given to it directly, the only paths the static file handler asks the file system about are the configured directory or lie lexically inside it.",
  ["inputs"],"every target up to the stated length",
  "Tests fetch existing files; escaping targets are adversarial strings.",
  [WH,RT],[m("target to path mapping",WH+": serve_static"),m("normalisation before routing",L)],["paths passed to stat and open"])
p("P16","The static handler reports files truthfully",
  "A target naming a regular file gives 200 with exactly the bytes of that file and its length; a missing one gives 404; a directory is never answered as if it were a file; any other failure gives an error status, and no file system answer makes it panic.",
  ["inputs","fault_sequences"],"every combination of file system answers (kind, size, error at stat or open, short read) and content within the stated bounds",
  "Tests serve one existing file; they never make stat or open fail or name a directory.",
  [WH],[m("metadata, open and response construction",WH+": serve_static")],["response status, headers and body"])
p("P17","Read and write time limits bound the whole operation",
  "The total time a request read, or a response write, may spend waiting on the transport never exceeds the configured limit, however the peer spreads its bytes, and exceeding it is reported as a timeout; an operation that has not used up its limit is not cut short.",
  ["inputs","schedules"],"every limit and every sequence of waiting times per transport call within the stated number of calls",
  "Slow-drip peers need many sub-second waits; the tests sleep for a few fixed whole seconds.",
  [TS],[m("per-operation stopwatch and remaining time",TS+": TimeoutStream, Operation")],["timeouts set on the transport","result kinds"],"guarded access to the stream wrappers")
p("P18","The worker pool runs each accepted task exactly once, within its size",
  "A task accepted by the worker pool is run exactly once, a refused one is handed back unrun, never more tasks run at the same time than the pool's size, and a pool all of whose workers wait idle accepts a task. Dropping the pool waits until every accepted task has finished.",
  ["schedules","histories"],"every interleaving of the submitting thread and the workers at their synchronisation operations within the stated preemption bound",
  "Tests pin one schedule with channels; lost, doubled or over-admitted tasks need a worker to be between two particular steps.",
  [TP,SP,DP],[m("rendezvous channels and free-slot list",SP+": Static; "+DP+": Dynamic")],["task side effects, results of run, return of drop"],"guarded access to the pool")
p("P19","A panicking task costs neither a worker nor the server",
  "When a task or request handler panics, the pool keeps its full capacity, later tasks are accepted and run, and dropping the pool or serving other connections works as before.",
  ["histories","schedules"],"every sequence of normal and panicking tasks within the stated bound, on fixed and on-demand workers, under every schedule within the bound",
  "No test lets a task panic.",
  [SP,DP,L],[m("worker loops",SP+": Worker::new; "+DP+": DynamicWorker::new")],["acceptance and execution of later tasks"],"guarded access to the pool")
p("P20","On-demand workers come and go without losing capacity",
  "An on-demand worker that has been idle for its time limit ends and frees its slot, and its slot can be used again for ever; at no time are there more on-demand workers than allowed, and an accepted task is run also when its acceptance races with a worker's expiry.",
  ["schedules","histories"],"every interleaving of submissions with idle expiry within the stated bounds",
  "Expiry against submission is a race of a timer with a rendezvous; the tests sleep until it is over.",
  [DP],[m("timed receive, finish callback, slot list",DP+": DynamicWorker::new, Dynamic::try_add_worker")],["task side effects, worker count"],"guarded access to the pool")
p("P21","A connection answers its requests one by one and in order",
  "On one connection every well-formed request gets exactly one response, in the order of the requests and before the next request is handled, whether or not its handler read the body. Nothing is written after the connection was meant to close, and the connection is then closed.",
  ["inputs","histories","fault_sequences"],"every sequence of requests, handler behaviours and client closes within the stated bounds",
  "Tests send one or two requests per connection; skipped bodies followed by another request, early closes and mixtures of both are histories they do not contain.",
  [L,H],[m("conversation loop",L+": handle_conversation, handle_connection")],["bytes written to and shutdown of the connection"],"guarded access to the conversation entry")
p("P22","Connection persistence follows the version and Connection header",
  "After a request the connection stays open exactly when the request is HTTP/1.1 (or 2) without a close option, or HTTP/1.0 with a keep-alive option and no close option; options are recognised in any letter case and anywhere among the listed values. Server and client decide this identically.",
  ["inputs"],"every version text and every Connection value up to the stated length",
  "Tests use two or three literal values; option lists and letter cases are many.",
  [L,H],[m("persistence decision",L+": is_connection_persistent; "+H+": Request::is_connection_persistent")],["decision, and whether another request is served"],"guarded access to the decision")
p("P23","Bad requests get 400 and never reach a handler",
  "A request that violates the message grammar or whose length cannot be told (contradictory or not a number, or a transfer coding) is answered with exactly one 400 response and the connection is closed; one cut off by a timeout, an error or the peer closing is not handled and the connection is closed without being served further. No handler runs in either case.",
  ["inputs","fault_sequences"],"every malformed or truncated request within the stated bounds",
  "One test sends one malformed request; the property is about all of them.",
  [L,H,HD],[m("error classification and 400 path",L+": handle_connection; "+ER)],["bytes written, handler calls, shutdown"],"guarded access to the conversation entry")
p("P24","An overloaded server says 503 and stays available",
  "A connection that cannot be given to a worker is answered with one complete 503 response and closed, its handler never runs, and the server keeps accepting connections.",
  ["schedules","fault_sequences"],"every busy state and every transport behaviour of the refused client within the stated bounds",
  "Tests never fill the pool.",
  [L],[m("busy path",L+": accept_connections, handle_busy")],["bytes written to the refused connection"],"guarded access to the busy entry")
p("P25","Shutdown lets ongoing requests finish and then returns",
  "After shutdown is requested no new connection is served, a request already being handled still gets its complete response, idle connections are closed, and the shutdown call returns once that is done.",
  ["schedules","histories"],"every moment of the shutdown relative to an idle connection, a request being read, handled or answered, within the stated bounds",
  "One test shuts down at one moment.",
  [L,CS,OB],[m("stop flag, wake-up and closing of tracked connections",L+": Server::shutdown, accept_connections"),m("cancellable reads",CS)],["bytes written to connections, return of shutdown"],"guarded access to the server internals")
p("P26","Transient failures do not stop the server from accepting",
  "A failed accept or an interrupted wait (connection aborted, interrupted call, nothing to accept, descriptors exhausted) never ends the server: later connections are still accepted and served.",
  ["fault_sequences"],"every sequence of accept and wait failures within the stated length",
  "Tests never make accept or wait fail.",
  [L],[m("accept loop",L+": accept_connections")],["whether a later connection is served"],"guarded access to the server internals")
p("P27","The client's idle-connection pool keeps its promises",
  "An idle connection is handed out at most once and only for the address it belongs to, the pool never holds more than its limit, makes room by dropping the least recently used one while keeping the one just returned, and drops those idle for too long. Dropping the pool ends its background worker.",
  ["histories","schedules"],"every sequence of inserts, gets and expiry rounds with every choice of addresses and ages within the stated bounds",
  "Tests insert and get one entry; the limit, eviction and expiry are never reached.",
  [CP],[m("map with expiry worker and eviction",CP+": Pool")],["results of get and drain"],"guarded access to the pool")
p("P28","The client pairs each response with its request",
  "The response returned for a request is the one the server sent for it, and a connection is used again for the same address only when the previous response was read completely and neither side asked to close; otherwise a new connection is made.",
  ["inputs","histories","fault_sequences"],"every sequence of requests and server behaviours (lengths, truncation, close option) within the stated bounds",
  "Tests run one or two requests against a well-behaved server.",
  [CL,H],[m("connection reuse on drop of the response",CL+": ClientResponse::drop, Client::run")],["bytes read and written per connection"])
p("P29","Cancellable streams lose no bytes and wake on shutdown",
  "Reads and writes through a cancellable stream deliver the bytes of the underlying connection in order without loss or duplication whatever readiness events, partial transfers and would-block results occur, a read or write that outlasts its limit reports a timeout, and one waiting while the stream is shut down ends promptly with an error or end of data.",
  ["inputs","schedules","fault_sequences"],"every sequence of readiness events, partial transfers and errors of the underlying stream, and every moment of shutdown, within the stated bounds",
  "Tests use a live socket that is either ready or silent.",
  [CS],[m("readiness wait around each transfer",CS+": read_int, write_int, shutdown")],["bytes seen by the caller and by the underlying stream"],"guarded access to the stream wrappers")
p("P30","The server tracks exactly its live connections",
  "The set of tracked connections always contains every connection still in use and none that is gone, each exactly once, under concurrent registration, dropping and draining; draining empties it without blocking connections that end at the same moment.",
  ["schedules","histories"],"every interleaving of tracking, dropping and draining within the stated bounds",
  "Tests track and drop in one fixed order on one thread.",
  [OB],[m("weak-reference list keyed by counter",OB+": ObservedStreamList")],["length and content of the list"],"guarded access to the list")
p("P31","The canned-response server answers as configured",
  "For every configured route the dummy server answers the requests its path and method are matched by (see the routing property) with exactly the configured status, content type and content, and answers nothing else with them. A configuration it cannot follow (not readable, an unknown method, an impossible status or content type) ends it with a failure before it listens; an address it cannot listen on ends it with a failure too.",
  ["configurations","inputs"],"every status, content type and content within the stated bounds",
  "There is one test, of reading one configuration text.",
  [WD,H],[m("route to handler conversion",WD+": main, serve_route")],["response of the configured handler"])
p("P32","TLS connections carry the same protocol as plain ones",
  "Over TLS a client is sent exactly the responses it would get over a plain connection: no byte of a request or response is lost, repeated or reordered, however the client cuts its data into records and pieces and however slowly it reads. A client that fails, cuts or closes its handshake or session, or sends anything else, affects only its own connection: nobody else goes unanswered, the server neither panics, nor waits past its limits, nor keeps a thread busy for ever. A shutdown finishes as it does without TLS.",
  ["inputs","schedules","fault_sequences"],"every record boundary, partial transfer and window, every byte in the handshake and every cut of a session within the stated bounds, over a stand-in with the buffering and state machine of rustls",
  "Tests do one small request over one TLS connection; bodies larger than a buffer, slow readers, cut handshakes and refused clients are never tried.",
  [TL,CS,TS,L],[m("TLS session over the non-blocking socket",TL+"; "+CS),m("handshake and set-up of a connection",L+": connection handling")],["bytes on the wire as seen by the client's side of the session","what handlers were given","server progress"])

p("P33","The static server program serves what it was told to, and never in the clear when told to use TLS",
  "Started with a directory and no certificate, the static server answers GET requests from that directory and no other method with a file. Started with a certificate or key option that cannot be followed (only one of the two, a missing or unreadable file, a file without one), it ends with a failure and never listens; an address it cannot listen on ends it with a failure.",
  ["inputs","fault_sequences","configurations"],"every request target and every key or certificate file content within the stated bounds, every combination of the options",
  "There are no tests of this program.",
  ["wrustatic/src/main.rs",TL,WH],[m("options to server","wrustatic/src/main.rs: main")],["answers of the program","its exit code and listening socket"])

p("P34","A server's life: starting, waiting and stopping do what they report",
  "Starting a server either makes it listen at the address given or reports an error, leaving no thread running and nothing listening; it never panics, and a server that could not be started can be started later. A server already started refuses to be started again and goes on serving. Stopping or waiting for a server never started is an error. Waiting does not end while the server runs; when stopping has ended nothing listens any more, and the address can be used again at once.",
  ["histories","fault_sequences","schedules"],"every sequence of starts at free, taken and impossible addresses with any number of descriptors left, and stops, within the stated bounds",
  "Tests start and stop one server at a free address; a start that fails half way, a second start, and stopping at once after starting are never tried.",
  [L],[m("server start, wait and shutdown",L+": Server::start, wait, shutdown")],["result of run, wait and shutdown","listening sockets and threads"])
p("P35","Private keys and certificates are the ones in the file",
  "The key, or certificate, read from a PEM file and given to TLS is the first one the file contains, byte for byte, whatever other items or text come before it, however its lines end or are split. A file with none, a malformed one, or one that cannot be read is an error.",
  ["inputs","fault_sequences"],"every file of the stated pieces and every error opening or reading it",
  "The tests read one key and one certificate file, each holding that item alone.",
  [TL],[m("PEM readers",TL+": Certificate::read_from, PrivateKey::read_from")],["chain and key given to the TLS configuration","result of read_from"])

p("P36","Logging observes and changes nothing",
  "With logging turned on, at any level, every message is read and every request handled and answered exactly as without it. A handler wrapped in the logging middleware is run exactly once per request, is given the request untouched, with its body unread, and its response is sent as it returned it; both are logged.",
  ["inputs","configurations"],"every message and handler behaviour within the stated bounds, at every level of logging",
  "The tests run without a logger, so nothing that is logged is ever formatted, and the middleware has no test.",
  [WH,HD,H,L],[m("logging middleware",WH+": log_middleware"),m("log statements of the parser and the server",H+"; "+HD+"; "+L)],["fields and body of parsed messages","what a handler is given and what is written","log records"])
