"""How each property is decided (for DESIGN.md)."""
HOW = dict(
P01='`Request::read_from` (start line, headers, body, `Body::read`/`ensure_read`) runs on a template with free bytes; the source delivers them in one piece, byte by byte or in freely chosen pieces and ends by closing, failing or being interrupted. Any panic, and any path over the instruction limit, is the violation; there is no other oracle. Tests sample a dozen lines.',
P02='the same for `Response::read_from`.',
P03='the message is read twice, whole and split at solver-chosen points with interruptions; the two results (fields, values, body, failure) have to be equal byte by byte.',
P04='an independent recogniser of RFC 7230 header lines, written over the same free bytes, must agree with the parser on acceptance and on every value, for every value of the bytes.',
P05='the letters of known names are free in case and must be found under the canonical name; two free names are one field exactly when they are equal ignoring case.',
P06='two-sided: a line of the canonical form has to be accepted with its three parts exactly as sent; an accepted line has to have that form.',
P07='an independent reading of the framing headers (as a big decimal number, with overflow) tells which messages are refused, have no body, or have one of a given length; then the body yields exactly those bytes and the next byte of the source stays there.',
P08='what a handler reads, by body or by content, in solver-chosen steps, is followed by skipping; the position in the source is compared with the end of the body.',
P09='the bytes written are read by a small independent reader of responses: one status line, each header value once, one length, the body cut to it, failure when it is short.',
P10='a sink whose every `write`/`flush` result is chosen by the solver; what it took has to be the whole message in order, or an error reported.',
P11='a message is built through the public API, written to memory, read by the library and compared.',
P12='conversions over all 64-bit numbers by one query, texts over all short strings.',
P13='a real `Server` on the OS model, a request with a free target and any method; which of the handlers ran is compared with a reference search over whole segments; requests routed at the same time under all schedules with the given preemptions.',
P14='same runs; the target the handler sees is compared with an independent segment-by-segment resolution, and refusals with its failures.',
P15='the modelled file system records every path it is asked about; each has to be the directory or lie lexically inside it, for every target.',
P16='the modelled file system knows what is where; the response is compared with it, with any error number at any of its calls, and a file that shrinks or grows after it was looked at.',
P17='a transport whose every operation takes a free time; the sum of the waits is compared with the free limit as a linear arithmetic query; through the server with a virtual clock and timed peers.',
P18='the real pool (crossbeam channels, threads, mutexes from the standard library) on modelled futexes; schedules are symbolic choices; counters say how often each task ran, how many at a time, and that dropping waits.',
P19='tasks and handlers that panic by choice (real unwinding), then the pool is filled to its size and further connections are served.',
P20='virtual time passes around the expiry of on-demand workers, with preemptions and deadlines coming early; the slots are filled again after it.',
P21='the real server and a client on modelled sockets; the responses carry the numbers of the requests, the handler checks the bodies, and after the end the connection has to be closed.',
P22='an independent reading of Connection options over the free bytes says whether the server, and `Client`, has to keep the connection, which is observed.',
P23='an independent recogniser of requests that must be refused; exactly one 400 then close and no handler, for every value of the free bytes; cut requests end without a handler.',
P24='a server with all hundred workers held by handlers; the next client has to read one complete 503 and end of file, and be served after a handler ended.',
P25='connections in solver-chosen states when another thread calls shutdown; it has to return, after the answers of handled requests are complete, with every connection closed.',
P26='`accept` and the poller fail with chosen or free error numbers, or descriptors run out; the connections queued are served afterwards and the server still listens.',
P27='a reference pool (who put what when) is compared step by step, over free times, with preemptions around the worker.',
P28='scripted servers of eleven kinds on the socket model; each response has to be the one of its request and connections may be reused only when the script allows it.',
P29='bytes through `CancellableStream` over modelled sockets, epoll and timers: what is read is what was sent; times and shutdowns compared with the virtual clock.',
P30='registering, cloning, dropping and draining against a reference set, and concurrently under symbolic schedules.',
P31='the real wrusdummy `main`, its configuration file built from free characters, is asked over modelled sockets; a bad configuration has to end it with a failure before it listens.',
P32='the real TLS code paths of wruster over a stand-in for rustls (see below), compared with what the plain server would send.',
P33='the real wrustatic `main` with its clap parsing and modelled command line, file system and sockets; a failing TLS set-up has to exit with a failure and never listen.',
P34='a model of the state (started or not, address free or not) is compared with what each call reports and with the ports, descriptors and threads of the OS model.',
P35='PEM files assembled from pieces chosen by the solver; an independent reader of PEM over those pieces says which key or certificate must be presented, or that it is an error.',
P36='the same symbolic message or handler run twice, without and with a logger that formats everything, and compared. All other harnesses have the level of logging as a hidden last argument; some of their runs are repeated with everything logged.')
CATCHES = {'expired-worker-task': 'P18, P20', 'link-length': 'P16, P33', 'crlf-split': 'P03, P01'}
