# The properties (read by mkmeta.py).
prop('H01', 'Every request is answered once, in order, however its bytes are cut',
     'On a persistent connection every well-formed request (GET, HEAD, POST with a Content-Length body, with any query string and any ordinary headers) receives exactly one complete, well-formed response carrying its own result, and responses come in the order of the requests. This holds for any segmentation of the request bytes into reads, for requests sent one at a time or pipelined, and for any interleaving with other connections; no byte is sent that answers no request.',
     ['schedules', 'inputs'], 'All request sequences on up to 5 concurrent connections, all read sizes, all interleavings of arrivals, reads, writes and timeouts.', TESTS,
     IO + ['src/viriatum/http/http_parser.c', FILEH, 'src/viriatum/http/http_util.c'],
     [('incremental parser', 'http_parser.c process_data_http_parser'), ('acquire/release lock that holds pipelined input back while a response is produced', 'stream_http.c'), ('read loop and outstanding list', 'stream_io.c read_handler_stream_io, polling_epoll.c')],
     SEEDED + 'Client side framing is checked byte for byte by a strict parser.')
prop('H02', 'Files arrive complete and unaltered under backpressure',
     'The body of a 200 response to a GET of a regular file is byte for byte the content of that file and its announced length is the size of the file, however slowly or irregularly the client reads, however small the socket buffers are and however often writes are short or refused. A HEAD announces the same length and carries no body. The answer is labelled with the media type of the extension of the file, in any letter case.',
     ['schedules', 'inputs'], 'File sizes 0 bytes to 1.5 MB including all buffer boundary sizes, any receive window, stalls of seconds, short writes at any offset.', TESTS,
     IO + [FILEH], [('chunked sending with a callback per completed write', 'handler_file.c _send_chunk_handler_file'), ('partial write bookkeeping', 'stream_io.c write_handler_stream_io')],
     SEEDED + 'File content is compared in full.')
prop('H03', 'Range and conditional requests select exactly the right bytes',
     'A single satisfiable byte range (first-last, open ended or suffix) is answered with 206, exactly those bytes and a matching Content-Range; an unsatisfiable range never yields content it did not name, and anything that is not a single valid byte range is ignored or refused, never mis-served. A request carrying the current validator (ETag) of the file is answered 304 without a body, and after the file (with its modification time) has changed the old validator yields the new content; the ETag is stable while the file is unchanged and every 200 response for a file carries it.',
     ['inputs', 'histories'], 'All range strings including malformed and overflowing ones against files of 0 to 70000 bytes, histories of up to three versions of a file, several connections.', TESTS,
     [FILEH, 'src/viriatum/http/http_util.c'], [('range parsing and clamping', 'http_util.c get_http_range_limits'), ('validator from the modification time', 'handler_file.c')],
     SEEDED + 'Two versions of a file with the same modification time (in seconds) are not distinguished by design. Ranges with numbers beyond 18 digits may be ignored (200).')
prop('H04', 'What one connection does never disturbs another',
     'Clients that reset, close, half close, hang, stop reading or vanish at any point of a request or response, in any number, never change, delay for ever, truncate or duplicate the responses of the other connections, and never stop or crash the server.',
     ['schedules', 'fault_sequences'], 'Up to 9 connections, of which up to 5 fail at arbitrary byte positions and times by RST, FIN, close or silence.', TESTS,
     IO + ['src/viriatum/stream/stream_http.c'], [('deferred deletion of closed connections', 'polling_epoll.c remove_connections'), ('error and zero-read handling', 'stream_io.c read_handler_stream_io, error_handler_stream_io')],
     SEEDED + 'Run under AddressSanitizer: a use after free of a connection is reported even when its effect is invisible.')
prop('H06', 'Descriptors and memory return to their idle level after any workload',
     'After all peers have left, however their connections ended (completed, reset, malformed, aborted in the middle of a request or response, or vanished without a word, as machines that lose their power do), only the listening socket and the poller stay open, no file or directory stream is left open, and repeating the same workload does not make the live memory of the server grow again and again.',
     ['schedules', 'histories', 'fault_sequences'], 'The same random workload with aborts and malformed requests four times in a row (eight when memory grows), allocations counted per round, over files, listings, errors and the handlers of modules.', TESTS,
     IO + [FILEH, 'src/viriatum/http/http_util.c'], [('cleanup callbacks of the handlers', 'handler_file.c _cleanup_handler_file'), ('connection deletion', 'service.c delete_connection, stream_io.c close_handler_stream_io')],
     SEEDED + 'Growth is judged over seven identical rounds: more than five blocks (the buffers the poller takes when first needed are five).')
prop('H07', 'No lost wakeup and no busy waiting',
     'Every request that has completely arrived is answered without any further stimulus, and without waiting for a timer, from the client or from other connections, whatever the order, merging, splitting or delay of readiness notifications, interrupted waits, bursts of arrivals, clock jumps and aborting neighbours. While nothing is pending the server blocks: the number of system calls stays proportional to the work done.',
     ['schedules', 'fault_sequences'], 'Edge triggered notifications delivered in any order and in subsets, EINTR at any wait, up to 8 bursty connections, tiny socket buffers, clock jumps.', TESTS,
     IO, [('edge triggered epoll with an outstanding list', 'polling_epoll.c'), ('poll timeout zero only while work is pending', 'polling_epoll.c _poll_polling_epoll')],
     SEEDED + 'Liveness is judged at quiescence: nothing is scheduled any more, the poll has timed out repeatedly and a response is still owed. The bound on system calls is linear in bytes and events.')
prop('H08', 'Connections persist or close exactly as the response announced',
     'A request that asks for keep-alive leaves the connection open and usable and the response announces keep-alive; a request that asks for close is answered completely, announces close, and the server then closes the connection and sends nothing more. A response whose announcement is close is always followed by the close, one that announces keep-alive never is (for any method, result code and HTTP/1.0 or HTTP/1.1).',
     ['schedules', 'histories'], 'All sequences of up to 6 requests per connection with any mix of Connection headers, versions, methods and results, sequential and pipelined.', TESTS,
     ['src/viriatum/stream/stream_http.c', FILEH, 'src/viriatum/http/http_util.c', 'src/viriatum/http/http_parser.c'], [('keep-alive flag', 'http_parser.c FLAG_KEEP_ALIVE'), ('close after the last write', 'handler_file.c _cleanup_handler_file')],
     SEEDED + 'Requests without a Connection header are answered with close (by design of the server).')
prop('H09', 'Protected locations open only to valid credentials',
     'Content of a location with basic authentication is delivered only to requests with the name and password of a user of its password file; every other request (missing, malformed, truncated, oversized, wrong or foreign credentials) for a file in it is answered 401 with a challenge. This holds for every spelling of the path (percent encoding, repeated slashes, dot segments), every method and header, aliased locations, pipelined requests after an authorised one, and when the password file is unreadable or changes.',
     ['inputs', 'histories', 'fault_sequences'], 'All credential strings and path spellings of a generator, password files of 1 to 5 users, password file deleted, unreadable, failing or replaced.', TESTS,
     [FILEH, 'src/viriatum/handlers/handler_dispatch.c', 'src/viriatum/http/http_util.c', 'src/viriatum_commons/formats/passwd.c', 'src/viriatum_commons/encoding/base_64.c'],
     [('credential check', 'http_util.c auth_http'), ('location matching on the decoded path', 'handler_dispatch.c _match_handler_dispatch'), ('password file parser', 'passwd.c process_passwd_file')],
     SEEDED + 'With a duplicated user the last line of the password file counts.')
prop('H10', 'No request reaches a file outside of the served directories',
     'Whatever the request target contains (dot-dot segments, any level of percent encoding, backslashes, NUL bytes, repeated separators, malformed escapes, aliases), the server opens and delivers only files below the contents directory or below the base path of the matched location. Targets that leave them, or that can not name a file, are answered with an error.',
     ['inputs'], 'Targets composed from hostile segments, separators and tails, with and without aliased locations and index files; every path the server opens is checked, not only what it delivers.', TESTS,
     [FILEH, 'src/viriatum/handlers/handler_dispatch.c'], [('parent segment check on the decoded path', 'handler_file.c _set_path_handler_file')],
     SEEDED + 'Symbolic links are not simulated. Locations whose pattern ends inside a path segment are outside the statement.', observe=['every open of a file or directory by the server', 'responses'])
prop('H11', 'Disk faults never yield wrong or silently short content',
     'When a file becomes unreadable, is deleted, truncated, appended to or replaced while it is being served, or the disk reports errors at any point, the client receives either an error response, or bytes that are a part of one version of that file at the announced position with the connection ended if they are incomplete; it never receives wrong bytes or a complete-looking short body. Other files and connections are unaffected and the server keeps running.',
     ['fault_sequences', 'crash_points', 'schedules'], 'Files changed at any time during a transfer by delete, rename-over, truncate, append, open errors and read errors at any offset; the n-th fopen, fread, fseek, ftell, fclose, stat or opendir failing.', TESTS,
     [FILEH, 'src/viriatum_commons/io/file.c'], [('close when the announced bytes can not be sent', 'handler_file.c _send_chunk_handler_file'), ('error codes of the file functions', 'file.c')],
     SEEDED + 'In-place overwrites of a file while it is sent are not generated.')
prop('H12', 'Running out of descriptors is survived and service resumes',
     'While no descriptor is available the server neither stops nor spins nor serves wrong content: connections wait or are refused, files may be answered with an error. As soon as a descriptor is free again, waiting connections are accepted and answered without needing a new arrival.',
     ['fault_sequences', 'schedules'], 'Descriptor limit lowered to 0 to 5 free descriptors at any time and raised again, single accept, registration, receive and send calls failing for want of resources, bursts of up to 40 connections, closing and lingering clients.', TESTS,
     ['src/viriatum/stream/stream_io.c', 'src/viriatum/system/service.c', FILEH], [('retry of failed accepts from the main loop', 'service.c start_service'), ('open failures', 'handler_file.c')],
     SEEDED + 'The limit applies once the server is up.')
PROXYF = ['src/viriatum/handlers/handler_proxy.c', 'src/viriatum/handlers/handler_dispatch.c', 'src/viriatum/system/service.c', 'src/viriatum/http/http_parser.c', 'src/viriatum/stream/stream_io.c']
prop('H13', 'The reverse proxy relays requests and responses faithfully',
     'A request for a proxy location reaches the upstream of that location exactly once, with its method, version, remaining path and query, every header in order (plus the marker header of the proxy) and its complete body, well framed; the client receives the status, version, headers and body of the upstream response to that very request, well framed, whatever the framing (length, chunked, end of connection), interim responses, segmentation and speed of the upstream, whatever the client reads or other clients do, and requests for local files on the same connection keep their order.',
     ['schedules', 'inputs', 'histories'], 'Up to 20 clients, 3 upstreams and 4 locations, any methods, status codes, versions, framings, folded and empty headers, long paths and headers, bodies up to 1 MB, sequential and pipelined, keep-alive and close on both sides.', TESTS,
     PROXYF, [('forwarding of requests', 'handler_proxy.c virtual_url_callback_handler_proxy, message_complete_callback_handler_proxy'), ('processing of upstream responses', 'handler_proxy.c data_backend_handler'), ('flow control between both connections', 'handler_proxy.c _pending_handler_proxy')],
     SEEDED + 'Both sides are strict parsers. Reason phrases and trailers may be replaced or dropped.', observe=['bytes exchanged with the clients', 'bytes exchanged with the upstream servers'])
prop('H14', 'A failing upstream yields an error, never wrong content or lasting damage',
     'When an upstream refuses, times out, has an unknown name, resets, closes early, sends garbage, sends more than its response, stalls, or closes an idle connection, or when no descriptor or memory is available for the connection to it, each affected client receives a 502 or has its connection ended, never a response that looks complete and is not the one of the upstream, and a request whose upstream works is not answered with an error. Other clients are unaffected, the next request works, and after all clients have left no descriptor stays open and memory does not grow.',
     ['fault_sequences', 'crash_points', 'schedules'], 'Faults at any byte of any response and at any connect, up to 5 clients with mixed local and proxied requests and aborts, repeated four times.', TESTS,
     PROXYF, [('loss of the upstream connection', 'handler_proxy.c close_backend_handler'), ('error responses', 'handler_proxy.c _error_handler_proxy'), ('maps between both connections', 'handler_proxy.c close_proxy_connection')],
     SEEDED + 'There are no upstream timeouts: a client of a silent upstream waits (by design); a failed request is not retried.', observe=['bytes exchanged with the clients', 'open descriptors and live memory at quiescence'])
prop('H15', 'A termination signal at any moment ends in an orderly exit',
     'When SIGTERM, SIGINT or SIGHUP arrives at any moment after the handlers are installed (between any two system calls, during transfers, with idle, slow or stalled clients), the server stops accepting, closes every connection and exits with code 0 within a bounded number of system calls and bounded time, leaving no descriptor or stream open and freeing nothing twice.',
     ['crash_points', 'schedules'], 'The signal delivered at the n-th system call (n up to 600) or at any time, with up to 5 connections in any state.', TESTS,
     ['src/viriatum/viriatum.c', 'src/viriatum/system/service.c', 'src/viriatum/polling/polling_epoll.c'], [('status flag read by the main loop', 'service.c start_service'), ('close of all connections', 'service.c close_connections_service')],
     SEEDED + 'Signals are delivered at system call boundaries (not between two instructions).')
prop('H16', 'Directories are listed, redirected and indexed as they are on disk',
     'A request for a directory without the final slash is redirected to the path with it; with it, the index file is served if one of the configured names exists there, otherwise a listing that names every entry exactly once with its kind and the right count. A directory that can not be read is answered with an error, never with a partial page presented as complete.',
     ['inputs', 'configurations', 'fault_sequences'], 'Directories of 0 to 200 entries with unusual names, sizes and times, nested, empty and aliased, several index configurations, failing directory reads.', TESTS,
     [FILEH, 'src/viriatum/handlers/handler_dispatch.c', 'src/viriatum_commons/io/file.c', 'src/viriatum_commons/template/engine.c', 'src/viriatum_commons/template/handler.c', 'src/viriatum_commons/structures/linked_list.c'],
     [('directory listing and sort', 'file.c list_directory_file'), ('template expansion', 'template/handler.c'), ('index resolution', 'handler_dispatch.c url_callback_handler_dispatch')],
     SEEDED + 'The listing template is replaced by a machine readable one; index files inside aliased locations are not generated.')
prop('H17', 'Every request is served by the location the configuration selects',
     'The first location (in the order of the configuration file) whose pattern matches the decoded, normalised path decides the handler and the base directory of a request; without a match the contents directory is served. A location that names a handler that does not exist is answered with an error, and no location affects requests it does not match, on the same connection or any other.',
     ['configurations', 'inputs'], 'Configurations of up to 6 overlapping locations with any mix of handlers and base paths, any spelling of the paths, several pipelined connections.', TESTS,
     ['src/viriatum/handlers/handler_dispatch.c', FILEH, 'src/viriatum/handlers/handler_default.c', 'src/viriatum/system/service.c', 'src/viriatum_commons/ini/ini.c'],
     [('location loading', 'service.c calculate_locations_service'), ('ordered regular expressions', 'handler_dispatch.c'), ('handler switch per request', 'handler_dispatch.c')],
     SEEDED + 'Patterns are judged by the same pcre library as the server uses.')
TLSF = ['src/viriatum/stream/stream_io.c', 'src/viriatum/system/service.c', 'src/viriatum/system/service.h', 'src/viriatum/polling/polling_epoll.c', 'src/viriatum/http/http_parser.c']
prop('H18', 'TLS connections get the same answers as plain connections',
     'When the server is configured for SSL, every request sent over a TLS connection (1.2 or 1.3, with or without session resumption, key updates between requests and inside a response) receives exactly the response a plain connection would receive, complete, in order and only inside the encrypted stream, however the handshake and the records are cut into segments, delayed, pipelined or pushed back by full buffers, whatever other TLS or plain text connections do, and a connection the server closes ends with a close_notify. A request in plain text sent to the TLS port is never answered.',
     ['schedules', 'inputs', 'histories'], 'Up to 6 concurrent TLS connections, record fragments of 1 to 16384 bytes, any segmentation, tiny socket buffers, keep-alive and close, files to 1 MB.', TESTS + ' None uses TLS.',
     TLSF, [('handshake resumed by readability or writability', 'stream_io.c _handshake_handler_stream_io'), ('pending bytes inside the SSL object', 'service.h CONNECTION_READ'), ('error queue shared by all connections of the thread', 'stream_io.c')],
     SEEDED + 'Both sides run the installed OpenSSL; its socket layer, randomness and clock are simulated.')
prop('H19', 'Broken TLS peers disturb nobody, learn nothing and leave nothing behind',
     'Peers that stop, reset or close at any byte of a TLS handshake or of the encrypted stream, corrupt a record, speak another protocol, send no close_notify or stall never change, delay for ever or close another connection and never stop the server; nothing but TLS records is ever sent to them; and after all peers have left, no SSL object, descriptor or growing memory remains.',
     ['schedules', 'fault_sequences', 'histories'], 'Up to 5 broken and 4 healthy connections at a time, aborts and corruption at any byte offset, the same workload four times in a row.', TESTS + ' None uses TLS.',
     TLSF, [('failed handshakes', 'stream_io.c'), ('SSL_free of each connection', 'service.c close_connection'), ('classification of SSL errors', 'service.h')],
     SEEDED + 'SSL handles and contexts are counted at the OpenSSL API.', observe=['bytes exchanged on the simulated sockets', 'live SSL objects, descriptors and memory'])
STARTF = ['src/viriatum/system/service.c', 'src/viriatum/viriatum.c', 'src/viriatum_commons/ini/ini.c', 'src/viriatum_commons/util/arguments_util.c', 'src/viriatum_commons/structures/sort_map.c', 'src/viriatum/polling/polling_epoll.c', 'src/viriatum/handlers/handler_dispatch.c']
prop('H20', 'The server starts as it is configured or refuses to start',
     'A start either ends in a server that listens on exactly the configured addresses and port, with the configured handler, locations, protection and TLS, and answers its clients; or, when the system denies it something it needs (a socket, the port, the poller, descriptors, its configuration file, its certificate or key) or what is configured can not be carried out (unknown handler, address, port, location pattern, option), in an exit with an error code and nothing left half started. It never starts without what was configured, and never refuses without a reason.',
     ['fault_sequences', 'configurations', 'crash_points'], 'One failing system call of the start at a time with any error, descriptor limits of 0 to 5, unreadable or missing configuration, unusable certificates, invalid values in the file and on the command line; IPv4, IPv6, plain and TLS.', TESTS,
     STARTF, [('socket set up and error paths', 'service.c start_service'), ('precedence of defaults, file and command line', 'service.c load_options_service'), ('registration of connections', 'service.c open_connection')],
     SEEDED + 'A missing configuration file means the defaults (by design); port 0 lets the kernel pick; modules that can not be loaded are tolerated. Workers and daemon mode are not simulated.', observe=['exit code and listening sockets', 'responses to clients'])
prop('H21', 'The configuration file means the same however it is written',
     'Two spellings of the same configuration (spaces, indentation, comments, blank lines, line ends, order and repetition of sections, position of the general section, repeated keys of which the last counts, a missing final end of line, unknown sections, repeated spaces between index files, spellings of true) give the same listeners and the same answer to every request, and no configuration file or command line corrupts the memory of the server.',
     ['inputs', 'configurations'], 'Random spellings of the configurations of the other properties, comment lines to 6000 bytes, with the workloads of H03, H09, H16, H17 and H13 run over them, IPv4, IPv6, plain and TLS.', TESTS,
     STARTF, [('parser of the configuration file', 'ini.c'), ('ordered sections', 'sort_map.c'), ('options', 'service.c _file_options_service')],
     SEEDED + 'The meaning is judged by the reference model applied to the abstract configuration.', observe=['listening sockets', 'responses to clients'])
prop('H22', 'Malformed and ambiguous requests are refused, nothing in them is obeyed',
     'A request whose extent or meaning is ambiguous or whose syntax is invalid (several, folded, empty or non-numeric lengths, a length together with chunks, unknown or misplaced transfer codings, invalid chunk sizes or terminators, space before the colon, header lines without colon or name, control characters or bare CR in headers, target or first line, unknown methods, invalid versions) never gets a successful response and never reaches an upstream; bytes that follow it on the connection are never obeyed as a request (no request smuggling), the connection is closed, and well-formed requests before it and on other connections are answered as usual. In the other direction an upstream response that is malformed in these ways is never passed on as a well-formed one.',
     ['inputs', 'schedules'], '44 kinds of malformation in random spellings, with and without a hidden request behind them, for files, protected files, listings and proxied locations, cut into any segments.', TESTS,
     ['src/viriatum/http/http_parser.c', 'src/viriatum/http/http_parser.h', 'src/viriatum/stream/stream_http.c', 'src/viriatum/handlers/handler_proxy.c'],
     [('state machine of the parser', 'http_parser.c process_data_http_parser'), ('token and hexadecimal tables, strict checks', 'http_parser.h'), ('close on parse error', 'stream_http.c data_handler_stream_http')],
     SEEDED + 'Hidden requests carry a tag that no answer and no upstream request may show. Missing Host, repeated spaces in the first line, HTTP/0.9 and versions with other numbers are tolerated by the server and not judged.', observe=['responses to clients', 'requests at the upstream'])
prop('H05', 'Arbitrary bytes neither crash the server nor touch anybody else',
     'Whatever bytes clients and upstreams send (mutated, spliced, truncated, endless or random, in any segmentation, ended by close, reset or silence) the server does not crash, corrupt its memory or loop; the requests of well-behaved connections next to them are answered as if alone; when the peers have left no descriptor and no growing memory stays behind; and the memory a connection holds is bounded whatever is sent in the head of a message, behind a request that is still being answered, or as a response body, except that a request body for an upstream is gathered completely before it is passed on.',
     ['inputs', 'schedules', 'fault_sequences'], 'Up to 4 hostile clients and a hostile upstream, floods of up to 24 MB of 21 kinds, next to up to 3 well-behaved clients, 2 to 4 rounds of the same load.', TESTS,
     ['src/viriatum/http/http_parser.c', 'src/viriatum/stream/stream_http.c', 'src/viriatum/stream/stream_io.c', 'src/viriatum/handlers/handler_proxy.c', 'src/viriatum/http/http_util.c'],
     [('incremental parser with its marks', 'http_parser.c process_data_http_parser'), ('retained part of the input', 'stream_http.c data_handler_stream_http'), ('response parser of the proxy', 'handler_proxy.c data_backend_handler')],
     SEEDED + 'AddressSanitizer judges memory; a heap budget of 2 MB plus 2.5 MB per client judges boundedness.', observe=['responses to clients', 'heap and descriptors'])
prop('H24', 'Any number of connections is served at the same time',
     'However many connections are open or have operations outstanding at once (clients arriving in crowds, idle connections, requests waiting for slow upstreams, mass disconnection and reset, a shutdown in the middle of it), every one of them gets exactly its own answers within a bounded time, no table or batch limit inside the server is exceeded, and the server is back to its initial resources when they have left.',
     ['schedules', 'inputs', 'fault_sequences'], 'Crowds of 100 to 2200 simultaneous clients, proxied ones whose upstreams never answer, closing or resetting all at the same instant, signals with all of them open.', TESTS,
     ['src/viriatum/polling/polling_epoll.c', 'src/viriatum/polling/polling_epoll.h', 'src/viriatum/system/service.c', 'src/viriatum/stream/stream_io.c'],
     [('batches and outstanding operations of the polling', 'polling_epoll.c poll_polling_epoll, add_outstanding_polling_epoll'), ('removal of connections', 'service.c remove_connection_service'), ('connection lists', 'service.c')],
     SEEDED + 'AddressSanitizer and bounds checks of the arrays judge the fixed size tables.', observe=['responses to clients', 'descriptors and heap'])
prop('H25', 'Pages made from templates are the template with the values filled in',
     'A directory listing or (with use_template) an error page is its template, byte for byte, with every value tag replaced by the value it names (a literal, a number, a global value, a field of a loop variable, nothing for an unknown name), every foreach repeated for the entries (directories first, then files, each by name, with name, kind, size, readable size and UTC modification time) and every if kept exactly when its item equals its value, for templates of any length, nesting and content; a template with mistakes in it or one that can not be read never takes the server down, and once it is readable again pages are right again.',
     ['inputs', 'fault_sequences', 'configurations'], 'Templates of up to about 40 random fragments (texts with dollars and braces, high bytes, nested loops and conditions, long literals), 40 kinds of mistakes, directories with odd names, failing template files that heal, several connections.', TESTS,
     ['src/viriatum_commons/template/engine.c', 'src/viriatum_commons/template/engine.h', 'src/viriatum_commons/template/handler.c', 'src/viriatum_commons/template/handler.h', 'src/viriatum_commons/structures/type.c', 'src/viriatum_commons/structures/string_buffer.c', 'src/viriatum_commons/structures/linked_list.c', 'src/viriatum_commons/io/file.c', 'src/viriatum_commons/util/string_util.h', FILEH, 'src/viriatum/http/http_util.c'],
     [('tag parser', 'template/engine.c process_template_engine'), ('node tree and rendering', 'template/handler.c'), ('values of the entries', 'file.c entries_to_map_file, format_bytes'), ('error pages', 'http_util.c write_http_error_a')],
     SEEDED + 'A reference renderer works on the tree the template was generated from, so it does not depend on a second parser. Values are not escaped for HTML (that is up to the template) and NUL bytes are not generated.')
prop('H26', 'The thread pool runs every inserted task exactly once',
     'Whatever the schedule of the threads, whichever of them a signal wakes, with spurious wakeups, threads that could not be created and tasks inserted by several threads or by running tasks, every task given to the thread pool is run exactly once by one of its threads and never by the one that inserted it; at most as many run at once as there are threads, a task that blocks holds up nobody while other threads are free, a single thread runs the tasks of one source in the order of their insertion; no task is lost while threads are idle, nothing deadlocks, and the pool does not grow with the number of tasks it has run.',
     ['schedules', 'fault_sequences', 'histories'], 'Pools of 1 to 12 threads, 1 to 4 inserting threads, up to 40 tasks that yield, insert others or wait for others, preemption at every synchronisation call and basic block of the pool and its queue.',
     'The one test inserts tasks and never waits for them; the result depends on the schedule.',
     ['src/viriatum_commons/thread/thread_pool.c', 'src/viriatum_commons/thread/thread_pool.h', 'src/viriatum_commons/structures/linked_list.c', 'src/viriatum_commons/system/thread.h'],
     [('insertion', 'thread_pool.c insert_task_thread_pool'), ('threads of the pool', 'thread_pool.c pool_runner_thread'), ('queue', 'linked_list.c')],
     SEEDED + 'The threads are real ones of which exactly one runs at a time, chosen by a seeded scheduler (uniform or by changing priorities). The pool is part of the library; the server does not use it. Its deletion, which presumes that no thread is left, is not exercised.', observe=['runs of the tasks', 'states of threads, locks and conditions', 'heap'])
prop('H27', 'As a daemon the server detaches, keeps a true pid file and serves the same',
     'Started with --daemon, the parent ends with success exactly when there is a child and with a failure otherwise; the child serves the same as in the foreground, in a session of its own, in the root directory, without the standard input of its starter and with its output and errors in the log files. While it serves its pid file holds its own process id, and after it has ended, by a signal or because it could not start, the file is gone. If the pid file can not be written completely (missing or read-only directory, full disk) or detaching fails, no torn file is left and nothing crashes. A start in the foreground or one that only prints information (--version, --help) never touches the pid file of a running daemon.',
     ['fault_sequences', 'schedules', 'configurations'], 'Both sides of the fork, failures of fork, setsid, chdir, dup2, of the pid and log files, of every call of the start behind the fork, signals at any call, stale and foreign pid files, closed standard input, IPv6 and TLS sites with concurrent clients.',
     'No test starts the server as a daemon.',
     ['src/viriatum/viriatum.c', 'src/viriatum/viriatum.h', 'src/viriatum/system/service.c'],
     [('detaching and the pid file', 'viriatum.c daemonize'), ('removal of the pid file', 'viriatum.c daemonclean, run_service')],
     SEEDED + 'fork() is a stub that returns as the parent or as the child of one simulated process. One known finding: a second daemon that fails to start removes the pid file of the first.', observe=['pid and log files', 'exit code', 'session, directory and standard streams', 'responses to clients'])
prop('H28', 'The handlers of the modules answer every request once and as specified',
     'A location, or the whole server, can be given to a handler of a loadable module. The gif handler answers every request with the same 43 byte transparent image, the diag handler with a JSON object that tells the true name, port, status, modules, uptime and number of connections of the running server, the lua handler with exactly the bytes that handle() of the script wrote with write_connection, in one piece or in several, calling it once for each request. A script that can not be loaded, fails, writes nothing or asks to write more than its string holds is answered with a 500 page that tells nothing of it; after a failure the script is read again, so a repaired script takes effect, and one that fails after it has begun to answer has its connection closed behind what it wrote. Neither failing scripts nor peers that leave disturb any other request. A handler whose module is not there is answered with 500; files in the directory of the modules that are no modules change nothing.',
     ['inputs', 'schedules', 'fault_sequences', 'configurations'], 'Scripts failing in 18 ways at every n-th call, before or behind their answer, unreadable, broken and edited while running; answers of all sizes in up to 12 parts; concurrent, pipelining, slow, segmented and leaving clients; HEAD, POST and chunked requests; missing modules and junk in their directory; signals and clock jumps.',
     'No test loads a module.',
     ['modules/mod_lua/src/viriatum_mod_lua/module/handler.c', 'modules/mod_lua/src/viriatum_mod_lua/module/entry.c', 'modules/mod_gif/src/viriatum_mod_gif/module/handler.c', 'modules/mod_gif/src/viriatum_mod_gif/module/entry.c', 'modules/mod_diag/src/viriatum_mod_diag/module/handler.c', 'modules/mod_diag/src/viriatum_mod_diag/module/entry.c', 'src/viriatum/module/loading.c', 'src/viriatum/system/service.c', 'src/viriatum/handlers/handler_dispatch.c'],
     [('running the script', 'mod_lua handler.c _send_response_handler_lua'), ('writing from the script', 'mod_lua handler.c _lua_write_connection'), ('loading of modules', 'service.c load_modules_service, loading.c load_module')],
     SEEDED + 'dlopen is a stub (the modules are linked in, each with private symbols); the Lua interpreter is the real one with its files, clock and memory behind the seams. The script numbers its calls, so every answer tells which call made it.', observe=['responses to clients', 'the number of the call of the script in each answer'])
prop('H23', 'With select() as the polling mechanism everything holds the same',
     'Built for a system without epoll, where it polls its connections with select(), the server gives the same answers: every request is answered once, in order and with the right bytes, connections persist or close as announced, a slow, broken or vanishing peer, upstream, disk or TLS handshake disturbs nobody else, descriptors and memory return to their idle level and a signal ends it in order. It never waits busily: not while no descriptor is free for the connections that wait, and not while a handshake can not be written. A connection whose descriptor does not fit in the sets of select() is closed at once, nothing is written outside of the sets, and service goes on when descriptors are free again.',
     ['inputs', 'schedules', 'fault_sequences', 'histories'], 'The workloads, faults and oracles of H01, H02, H04 to H08, H11 to H15, H18, H19 and H22 on the select build, and crowds of 1000 to 1300 connections around FD_SETSIZE.',
     'The tests and the build never use select().',
     ['src/viriatum/polling/polling_select.c', 'src/viriatum/polling/polling_select.h', 'src/viriatum/system/service.c', 'src/viriatum/stream/stream_io.c'],
     [('waiting and dispatching', 'polling_select.c _poll_polling_select, _call_polling_select'), ('registration', 'polling_select.c register_connection_polling_select, register_write_polling_select'), ('work left over', 'polling_select.c _outstanding_polling_select')],
     SEEDED + 'The same sources, compiled without HAVE_EPOLL. The server that viriatum ships here uses epoll; this property is about its other build.', observe=['responses to clients', 'system calls made while nothing can be done', 'descriptors and memory'])
prop('H29', 'With workers every process serves the same and none outlives the master',
     'Built with prefork support and configured with workers, the server starts as many processes as it is told (64 at most, none by default), each serving from the same sockets: whatever a process accepts is answered once, in order and correctly, also while its siblings take connections it was notified of. While the server serves no worker is told to end. When the master ends, by a signal or because it can not start (no further process, no poller), every worker it created has been told to end and waited for, nobody else is signalled, and a failed start is reported as one. A worker that ends leaves its siblings alone, starts no process and leaves the pid file of the daemon to the master.',
     ['fault_sequences', 'schedules', 'configurations'], '0 to 255 workers, the master and each worker in turn, failures of any fork and of the calls of the start around it, workers slow to end or already dead, connections taken by siblings, daemons, IPv6, signals at any call, concurrent clients.',
     'The tests and the build never use prefork.',
     ['src/viriatum/system/service.c', 'src/viriatum/system/service.h', 'src/viriatum/viriatum.c', 'src/viriatum/stream/stream_io.c'],
     [('creation of the workers', 'service.c create_workers'), ('their end', 'service.c join_workers, viriatum.c run_service'), ('the pid file', 'viriatum.c daemonclean')],
     SEEDED + 'The same sources, compiled with HAVE_PREFORK. fork() is a stub: one process is simulated at a time, the others are processes that can be signalled, waited for and that take connections. A master that is killed (SIGKILL) is out of scope: nothing ends its workers. The server that viriatum ships here is built without prefork.', observe=['responses to clients', 'fork, kill and waitpid calls', 'pid file', 'exit code'])
NA = []
def na(id, title, statement, over, text, why, files, mech, reason):
    assert len(title) <= 80
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason, observe=[], state=[]))
na('N01', 'Encodings and containers are correct for all inputs', 'Base 64, percent encoding, Huffman, CRC and MD5 functions and the list, map and tree containers compute their mathematical definitions for every input.',
   ['inputs'], 'All byte strings and operation sequences.', 'Tests sample a few inputs.', ['src/viriatum_commons/encoding', 'src/viriatum_commons/structures', 'src/viriatum_commons/crypto'], [('pure functions', 'src/viriatum_commons/encoding')],
   'pure sequential functions without time, I/O, concurrency or other parties: no schedule or fault for a simulation to control (where the server uses them they are exercised through the other properties)')
