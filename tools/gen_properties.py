#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

PKT="include/frnetlib/Packet.h"; SOCK="src/Socket.cpp"; TCP="src/TcpSocket.cpp"; LIS="src/TcpListener.cpp"
HTTP="src/Http.cpp"; REQ="src/HttpRequest.cpp"; RES="src/HttpResponse.cpp"; WF="src/WebFrame.cpp"; WS="include/frnetlib/WebSocket.h"
SEL="src/SocketSelector.cpp"; SSLS="src/SSLSocket.cpp"; SSLL="src/SSLListener.cpp"; URL="src/URL.cpp"

p("C01","Packed values come back out unchanged and in order",
 "Whatever sequence of supported values (booleans, fixed-width integers, enums, floats, doubles, C and C++ strings, pairs, vectors, maps, unordered maps, nested combinations of these, raw bytes, iterator ranges and user-defined packable objects) is added to a packet, extracting the same types in the same order yields exactly the same values, bit for bit for floating point, and leaves no byte unread; numbers, strings and vectors extracted into replace whatever they held before (maps are expected to be empty). This holds for every value, including extremes, empty strings and containers and embedded NUL bytes, and whether the values were added one by one, through the variadic constructor or add function, or as an iterator range.",
 ["inputs","programs"],"all finite sequences of supported types and all their values",
 "The unit tests pack a dozen literal values once each; the guarantee is over every value of every supported type, nested to any depth and in any order.",
 [PKT,"include/frnetlib/NetworkEncoding.h","include/frnetlib/Packetable.h"],
 [("buffer","header placeholder followed by the packed payload",PKT),("buffer_read_index","next byte to extract",PKT)],
 [("paired << / >> operators per type",PKT),("byte-order helpers","include/frnetlib/NetworkEncoding.h")],
 ["fr::Packet operator<< / operator>>, add, add_range, add_raw, extract_raw, get_bytes_remaining"])

p("C02","Packet bytes follow one platform-independent layout",
 "The bytes a packet puts on the wire are a 32-bit big-endian payload length followed by exactly the payload, in which integers are big-endian, floats and doubles are their IEEE-754 bits big-endian, booleans and 8-bit values are one byte (a boolean being 0 or 1), enums are 32-bit, and strings and containers are preceded by a 32-bit big-endian element count, with map entries as key then value. Bytes produced by any independent implementation of that layout are accepted and give the corresponding values.",
 ["inputs"],"all payloads and values, in both directions (library encodes, library decodes)",
 "Unit tests only compare the library with itself, so a symmetric change of layout, byte order or length prefix would break every deployed peer and pass; no test looks at wire bytes.",
 [PKT,"include/frnetlib/NetworkEncoding.h"],
 [("PACKET_HEADER_LENGTH","size of the length prefix",PKT)],
 [("htons/htonl/fr_htonll/htonf/htond conversions",PKT),("length prefix written by Packet::send",PKT)],
 ["bytes read from the peer end of a socket pair after fr::Socket::send(packet)","values extracted from bytes written by an independent encoder"])

p("C03","Extracting from untrusted packet data stays inside the packet",
 "For any packet content, including truncated and malicious data, and any sequence of extractions, each extraction either returns values taken entirely from bytes of the packet or throws std::out_of_range; it never reads or writes outside the packet or the destination, and never yields an invalid value. The read position always stays between zero and the packet size, and a length field alone never makes the library allocate memory out of proportion to the bytes actually present.",
 ["inputs","programs"],"all byte strings as packet content, all sequences of extraction operations",
 "One unit test over-reads a packet of four integers; lengths inside hostile strings, vectors and maps, size arithmetic near the integer limits and memory growth are never exercised, and ordinary builds would not notice an out-of-bounds read.",
 [PKT],
 [("buffer_read_index","next byte to extract",PKT)],
 [("assert_bytes_remaining before every read",PKT)],
 ["extraction operators, extract_raw, assert_bytes_remaining, get_cursor, size"])

p("C04","Packet size and read cursor behave like a byte string with a position",
 "After any sequence of additions, extractions, seeks, cursor changes, reservations, copies and clears, the packet size equals the number of bytes added since it was last empty, bytes remaining plus cursor equals size, and the bytes readable from the cursor are exactly the bytes added at those positions. Relative and absolute seeks clamp to the nearest valid position for every argument, clearing leaves an empty reusable packet, and a failed extraction of a plain value leaves cursor and content as they were.",
 ["histories","inputs"],"all operation sequences and all seek arguments, including the integer extremes",
 "Unit tests check about ten fixed cursor moves; interleavings of adds, reads, seeks, clears and copies, and extreme offsets, are not reached.",
 [PKT],
 [("buffer","payload plus header",PKT),("buffer_read_index","cursor",PKT)],
 [("set_cursor / seek_cursor clamping, clear, size, get_bytes_remaining",PKT)],
 ["size, get_cursor, get_bytes_remaining, set_cursor, seek_cursor, clear, extract_raw"])

p("C05","Packets are delivered exactly once, in order and intact",
 "Every packet sent successfully over a connection is received exactly once, in order and byte-identical, however the transport splits, coalesces, delays or interrupts the bytes, in blocking and non-blocking mode, and whether the receiving packet object is fresh or reused. A receive that reports WouldBlock or Timeout has consumed nothing, so a later receive still returns the whole message. A message cut short by the end of the connection is never reported as success.",
 ["schedules","inputs","fault_sequences"],"all message sequences, segmentations, interruption points and blocking modes",
 "No test sends a packet through a socket at all; short reads and writes, interrupted calls, would-block in the middle of a header and reuse of a packet object need injected conditions.",
 [PKT,SOCK,TCP],
 [("sent / received counters","progress through a partially transferred message",TCP)],
 [("Socket::receive_all loops until a whole field is read",SOCK),("TcpSocket::send_raw resumes from the bytes already sent",TCP),("Packet::send / receive retry while WouldBlock",PKT)],
 ["fr::Socket::send / receive return values and packet contents at both ends"])

p("C06","The receive size limit is enforced before a message is buffered",
 "When a maximum receive size is set on a socket, a packet or WebSocket frame that declares a larger payload is refused with MaxPacketSizeExceeded, without allocating memory for the declared length or waiting for the payload, and the connection is closed so that none of the oversized message can be taken for a later one. Messages up to and including the limit are delivered intact, and with no limit set no message is refused for its size.",
 ["inputs","histories"],"all limits and declared lengths, including the boundary and 32/64-bit extremes, for packets and frames of both roles",
 "No test sets a receive limit; the boundary (equal, one over), the 64-bit WebSocket length and the state of the connection afterwards are untested.",
 [PKT,WF,"include/frnetlib/Socket.h"],
 [("max_receive_size","per-socket limit, 0 for none","include/frnetlib/Socket.h")],
 [("length check before resize",PKT),("length check before resize",WF)],
 ["status of fr::Socket::receive, memory allocated during it, connected() and descriptor afterwards"])

p("C07","HTTP messages built through the API parse back to the same message",
 "A request or response populated through the API, with values that are legal where they are placed (token header names, printable header values, URL-encoded query and form values, form arguments only on a POST without a separate body), parses back from its serialised bytes alone to the same method, URI, version, status, headers, query arguments, form arguments and body. The serialised text is well formed, ends its header with a blank line, carries each header once, includes the defaulted headers when they are missing, and declares a Content-Length equal to the number of bytes following the header whenever there are any. Header, query and form names are matched without regard to case.",
 ["inputs"],"all methods, versions, statuses, token header names, printable header values, URL-safe argument names and values, and arbitrary bodies",
 "Unit tests round-trip three fixed messages with one or two entries each.",
 [HTTP,REQ,RES,"include/frnetlib/Http.h"],
 [("header_data/get_data/post_data","case-folded name to value maps","include/frnetlib/Http.h"),("body","message body","include/frnetlib/Http.h")],
 [("construct()",REQ),("construct()",RES),("parse_header, parse_argument_list, parse_post_body",REQ)],
 ["construct() text, parse() status and all getters of the re-parsed object"])

p("C08","HTTP parsing does not depend on how the bytes arrive",
 "A complete HTTP message, a request or response with a Content-Length body or none, or a response with a chunked body, gives the same status, fields and body however its bytes are split across parse calls or socket reads. Until the last byte of the message has arrived the parser reports NotEnoughData, at that byte it reports Success, and bytes beyond the declared end never become part of the message's body. A chunked response body decodes to the concatenation of its chunks.",
 ["inputs","schedules"],"all well-formed messages and all ways of segmenting them, including byte by byte and every two-way split",
 "Unit tests use three hand-picked splits; splits inside a line ending, inside a chunk size, around the header end or between header and form data are not covered.",
 [REQ,RES,HTTP],
 [("header_ended, content_length, chunk_offset","incremental parser state","include/frnetlib/HttpResponse.h")],
 [("parse() accumulates into body until complete",REQ),("incremental chunk decoding",RES),("Http::receive read/parse loop",HTTP)],
 ["status sequence returned by parse(), getters after Success, fr::Socket::receive(HttpRequest/HttpResponse)"])

p("C09","HTTP parsing of arbitrary bytes is safe and bounded",
 "Fed any bytes in any pieces, the request and response parsers return only Success, NotEnoughData, ParseError, HttpHeaderTooBig or HttpBodyTooBig: they never throw, hang, or touch memory outside their buffers. Input that is not a request with a known method and an HTTP version, not a response with a numeric status, or that has a non-numeric Content-Length or chunk size is reported as ParseError. A header or body longer than the configured maximum is refused with the matching status no later than when that many bytes of it have arrived (give or take the few bytes of a line or header terminator), so that memory held for a message stays bounded.",
 ["inputs","schedules"],"all byte strings and segmentations",
 "Unit tests feed a handful of malformed inputs; the parsers face the network and must survive every input, including ones that only misbehave under a particular split.",
 [REQ,RES,HTTP],
 [("MAX_HTTP_HEADER_SIZE / MAX_HTTP_BODY_SIZE","configured limits","CMakeLists.txt")],
 [("size checks in parse()",REQ),("size checks, chunk length parsing in parse()",RES),("exception barrier in parse_header",REQ)],
 ["status returned by parse(), exceptions, sanitizer reports, memory held"])

p("C10","URL percent-encoding round-trips every byte string",
 "Decoding an encoded string returns the original for every byte string, and the encoded form contains only unreserved characters, '+' for space and %XX escapes with upper-case hex digits. Decoding accepts hex digits of either case, turns '+' into space, copies every other character unchanged, and copies a '%' that is not followed by two hex digits through literally, without ever failing.",
 ["inputs"],"all byte strings",
 "Two literal strings are tested, both with upper-case escapes only.",
 [HTTP],[],[("url_encode / url_decode",HTTP)],["Http::url_encode, Http::url_decode"])

p("C11","URL parsing extracts exactly the components that are there",
 "For every URL made of optional scheme, host, optional port, optional path, optional query and optional fragment, parsing yields exactly those components, guesses a missing port only from the well-known default of a known scheme, and does not depend on what the URL object held before. Delimiter characters inside later components (such as ':' or '/' in a path, query or fragment, or '?' in a fragment) do not disturb earlier ones, printing a parsed URL that has a known scheme and a host, and parsing it again, gives an equal URL, and no input makes parsing fail.",
 ["inputs","histories"],"all combinations of components and all sequences of parses on one object; arbitrary strings for safety",
 "Unit tests parse a dozen literal URLs, mostly on fresh objects.",
 [URL,"include/frnetlib/URL.h"],[("scheme, host, port, path, query, fragment","parsed components","include/frnetlib/URL.h")],
 [("URL::parse",URL),("get_uri / get_url","include/frnetlib/URL.h")],["URL getters, get_url, operator=="])

p("C12","WebSocket frames sent are valid RFC 6455 frames that decode to the same frame",
 "Every frame sent appears on the wire as one RFC 6455 frame: final flag and opcode as set (by its number in the standard; a whole text frame unless set otherwise), reserved bits zero, payload length in the shortest of the 7, 16 and 64-bit forms, masked with a key that changes from frame to frame when sent by a client and unmasked when sent by a server. Receiving it in the opposite role yields the same opcode, final flag and payload for every payload and size. Sending leaves the frame object unchanged, so sending it again delivers the same message again.",
 ["inputs","histories"],"all payloads and sizes (with the 125/126, 65535/65536 boundaries), opcodes, final flags and roles, and repeated sends",
 "No test touches WebSocket code; only the build says anything about it.",
 [WF,"include/frnetlib/WebFrame.h"],[("payload, opcode, final","frame contents","include/frnetlib/WebFrame.h"),("current_mask_key","masking key source",WF)],
 [("WebFrame::send",WF),("WebFrame::receive",WF)],["raw bytes at the peer end, getters of sent and received frames"])

p("C13","WebSocket frame reception is exact on any byte stream",
 "Given any byte stream, in any segmentation and in blocking or non-blocking mode, the receiver delivers exactly the frames encoded in it, in order, each with its opcode, final flag and unmasked payload, whatever length form is used. A server accepts only masked frames and a client only unmasked ones, the others being reported as an error and never as success; a frame cut short by the end of the stream is never reported as success. A receive that reports WouldBlock or Timeout has consumed nothing, and no input causes memory errors.",
 ["inputs","schedules","fault_sequences"],"all frame sequences, truncation points, segmentations and interruption points",
 "No test touches WebSocket code.",
 [WF,SOCK],[("payload","partially received payload",WF)],[("WebFrame::receive",WF),("Socket::receive_all",SOCK)],
 ["status and getters after fr::Socket::receive(frame)"])

p("C14","The WebSocket handshake admits only proper peers and loses nothing",
 "A server answers a GET request that names the websocket protocol in its Upgrade header (in any letter case) and carries a key, whatever its path and other headers, with status 101 and the accept value RFC 6455 derives from that key, and never answers a request lacking one of these with 101; a client sends such a request with a 16-byte random key, reports success only for a 101 reply whose accept value matches the key it sent, and otherwise reports failure and is no longer connected. Frames sent by either side immediately after the handshake, even together with its last bytes, are all delivered. Disconnecting either side delivers a valid Disconnect frame to the other before the connection closes.",
 ["inputs","schedules","histories"],"all keys, paths, protocol lists, reply variants, and interleavings of the handshake with the first frames",
 "No test performs a WebSocket handshake.",
 [WS,"src/Sha1.cpp","src/Base64.cpp",RES,REQ],[("websocket_key","client nonce",WS)],
 [("WebSocket::connect verification",WS),("WebSocket::set_descriptor server handshake",WS),("WebSocket::disconnect",WS)],
 ["raw bytes exchanged with a scripted peer, status of connect/accept, frames received"])

p("C15","SHA-1 and Base64 agree with their standards on every input",
 "The SHA-1 digest equals the FIPS 180 digest of the input for every byte string of every length, and Base64 encoding equals the RFC 4648 encoding with padding for every byte string of every length, including the empty one.",
 ["inputs"],"all byte strings",
 "Neither function is tested; block boundaries, padding, short inputs and high-bit bytes are where such code fails.",
 ["src/Sha1.cpp","src/Base64.cpp","include/frnetlib/Sha1.h"],[("buffer, transforms, digest","hash state","include/frnetlib/Sha1.h")],
 [("Sha1::update/final",'src/Sha1.cpp'),("Base64::encode","src/Base64.cpp")],["Sha1::sha1_digest, Base64::encode"])

p("C16","Descriptors are closed exactly once and connection state is truthful",
 "Across any sequence of listening, connecting, accepting, reusing, moving, disconnecting and destroying plain and TLS sockets and listeners, including operations that fail part-way, every operating-system descriptor the library opens is closed exactly once, none is leaked, and no descriptor it does not own is ever closed. Each object owns at most one descriptor and reports itself connected exactly while it holds an open one; in particular it is not connected after a failed connect or listen, or after a disconnect or close.",
 ["histories","fault_sequences"],"all operation sequences over several objects and failure of any system call inside an operation",
 "Tests open one listener and one connection and never count descriptors or make a system call fail.",
 [TCP,LIS,SSLS,SSLL,"include/frnetlib/TcpListener.h"],[("socket_descriptor","owned descriptor or -1","include/frnetlib/TcpSocket.h")],
 [("close_socket, set_descriptor, connect error paths",TCP),("listen error paths, move constructor",LIS),("unique_ptr deleters",SSLS)],
 ["/proc/self/fd before and after each operation, connected(), get_socket_descriptor()"])

p("C17","The socket selector reports exactly the members that are ready",
 "Waiting returns members, and only members, that have data to read, a pending connection or a closed or failed peer, each with the opaque value it was added with; every ready member is reported within a bounded number of waits however many there are, and a wait with nothing ready returns empty no earlier than its timeout. Adding a duplicate or disconnected socket throws and changes nothing. Removing returns the opaque value (or null for a non-member), works for sockets that have since been disconnected, releases the socket, never disturbs other members even if descriptor numbers are reused, and the socket is not reported again.",
 ["histories","schedules"],"all sequences of add, remove, wait, traffic, peer close and local disconnect over any number of sockets and listeners",
 "No test uses the selector.",
 [SEL,"include/frnetlib/SocketSelector.h"],[("added_sockets","members and their opaque values","include/frnetlib/SocketSelector.h"),("epoll_fd","kernel interest list","include/frnetlib/SocketSelector.h")],
 [("epoll registration with pointer to the member entry",SEL)],["return values and exceptions of add/wait/remove, shared_ptr use counts, poll() on the same descriptors"])

p("C18","Blocking mode, timeouts and shutdown behave as documented",
 "With no data available, a receive in non-blocking mode returns WouldBlock at once, and in blocking mode waits for data or returns Timeout no earlier than the configured receive timeout, whether the timeout was set before or after the connection was made. The reported blocking mode always equals the socket's actual mode, starting as blocking for every new connection made with connect or accept, also on a reused object. A send that cannot proceed returns WouldBlock at once when non-blocking, or Timeout no earlier than the configured send timeout when blocking, with an accurate count of bytes sent; each of the two timeouts acts regardless of the other; and calling shutdown from another thread releases a blocked receive or accept, without closing the descriptor.",
 ["schedules","histories","configurations"],"all orders of connecting, setting modes and timeouts, data arrival and shutdown, over plain and TLS sockets",
 "No test sets a mode or timeout or blocks in a receive.",
 [TCP,SSLS,SOCK,"include/frnetlib/NetworkEncoding.h"],[("is_blocking","tracked mode","include/frnetlib/TcpSocket.h"),("socket_read_timeout/socket_write_timeout","configured timeouts","include/frnetlib/Socket.h")],
 [("set_unix_socket_blocking","include/frnetlib/NetworkEncoding.h"),("reconfigure_socket",TCP)],
 ["statuses and durations of receive_raw/send_raw, fcntl(O_NONBLOCK) on the descriptor, get_blocking()"])

p("C19","TLS connections authenticate the server and keep data private and intact",
 "With certificate verification enabled, which is the default, a TLS connect succeeds only if the server's certificate chains to a loaded CA, is within its validity period and matches the requested host name; otherwise it fails, the socket is not connected and no application data is sent. Over an established TLS connection every packet, HTTP message and WebSocket frame is delivered exactly once, in order and intact for all sizes and in blocking and non-blocking mode, and no application plaintext appears on the wire. With verification disabled, connecting to such servers succeeds and is still encrypted.",
 ["inputs","configurations","schedules"],"all message sizes and mixes, certificate configurations and transport segmentations",
 "No test exercises the TLS classes; only the build says anything about them.",
 [SSLS,SSLL,"include/frnetlib/SSLContext.h"],[("should_verify","verification switch","include/frnetlib/SSLSocket.h"),("ssl, conf","mbedtls session","include/frnetlib/SSLSocket.h")],
 [("authmode, CA chain and hostname set before the handshake",SSLS),("mbedtls_ssl_write/read loops",SSLS)],
 ["connect status, messages at both ends, bytes seen by a man-in-the-middle recorder"])

p("C20","Independent objects can be used from many threads at once",
 "Threads that each use their own sockets, packets, HTTP messages, WebSocket frames, URLs and selectors, sharing at most a TLS context or a listener from which several of them accept, never race on shared memory and each sees exactly the results it would see alone, with every connection handed to exactly one accepting thread. On one plain TCP connection, one thread may send while another receives.",
 ["schedules"],"all interleavings of threads over every public facility",
 "Unit tests are single-threaded apart from one connecting thread; data races on hidden shared state (static counters, tables, caches) need a race detector and contention to show.",
 ["src/WebFrame.cpp","src/Http.cpp","src/URL.cpp",LIS,SSLL,"src/SocketSelector.cpp",TCP],[("current_mask_key","shared mask counter",WF),("known_mimetypes, scheme_string_map","function/class static tables",HTTP)],
 [("no mutable shared state beyond atomics",WF)],["ThreadSanitizer reports, per-thread results compared with a sequential run"])

p("C21","Names, types and statuses convert consistently",
 "Converting each HTTP method, URL scheme and transfer encoding between value and text is a mutual inverse where both directions exist, scheme and encoding names are recognised in any letter case, a proper prefix of a method name is reported as partial, and unrecognised text gives the documented fallback. Every connection status has its own non-empty description and out-of-range statuses give 'Unknown'. Every HTTP status is sent and recognised by its registered number. The MIME type of a file depends only on its extension, is the registered type for every known extension and application/octet-stream for any other.",
 ["inputs"],"all enumerators, letter cases, prefixes, file names and out-of-range values",
 "Tests check two statuses, three file names and four encodings, and no URL scheme names.",
 ["include/frnetlib/Http.h",HTTP,URL,SOCK],[("known_mimetypes","extension table",HTTP),("scheme_string_map","scheme table",URL)],
 [("request_type_to_string / string_to_request_type","include/frnetlib/Http.h"),("string_to_scheme / scheme_to_string",URL),("get_mimetype",HTTP),("status_to_string",SOCK)],
 ["return values of the conversion functions"])

p("C22","An event-driven HTTP service answers every request exactly once",
 "A server written as documented, with a listener and non-blocking client sockets in a selector feeding received bytes to a per-connection request object, gives every client that sends complete requests one at a time exactly one correct response per request, in order on each connection, under many concurrent connections, arbitrary segmentation, slow clients, half-sent requests and abrupt disconnects of others. No connection's data ever appears in another's, and the server keeps serving.",
 ["schedules","fault_sequences","histories"],"all interleavings of concurrent clients with well-behaved, slow, malformed and vanishing ones",
 "The example servers are only compiled; no test runs selector, listener, sockets and HTTP together.",
 [SEL,LIS,TCP,REQ,RES,HTTP,"examples/concurrent_http_server/ConcurrentHTTPServer.cpp"],[("partial_request","per-connection parser","examples/concurrent_http_server/ConcurrentHTTPServer.cpp")],
 [("level-triggered readiness + incremental parse",SEL)],["client-side log of requests and responses checked for exactly-once, order and content"])

p("C23","A vanishing or hostile peer is reported, never fatal",
 "Whatever a peer does (closes cleanly, resets, half-closes, disappears between or inside messages), sending and receiving on that connection terminate with a non-success status once the peer's data is exhausted, data that had fully arrived before is still delivered, and the process is never killed by a signal nor hit by an undocumented exception. After an orderly close a receive reports Disconnected, and operations on a socket that is not connected fail with an error status instead of touching anything.",
 ["fault_sequences","schedules","histories"],"all points at which the peer can stop, in both directions, for raw, packet, HTTP and WebSocket traffic",
 "No test closes a peer mid-exchange; process death by SIGPIPE or exception only shows with a dying peer.",
 [TCP,SOCK,PKT,HTTP,WF,"include/frnetlib/NetworkEncoding.h"],[("SIGPIPE disposition","ignored process-wide","include/frnetlib/NetworkEncoding.h")],
 [("init_wsa ignores SIGPIPE","include/frnetlib/NetworkEncoding.h"),("status mapping of send/recv results",TCP)],
 ["statuses of send/receive in a child process, its exit status"])

p("C24","Connect and listen reach exactly the requested endpoint",
 "A connect that reports success is connected to a listener at the requested address, port and IP version, having tried every resolved address in turn until one works, and it then starts in blocking mode and reports the requested address as its remote address, while the accepting side reports the client's numeric address. If no address works, the name does not resolve or the timeout passes, it reports failure within a bounded time. A listener accepts only on its requested port and IP version (one for IPv6 may serve IPv4 as well) and hands out each queued connection once, in order of arrival.",
 ["configurations","fault_sequences","inputs"],"all address lists with any subset reachable, IP versions and timeouts",
 "One test connects once to 127.0.0.1; address fallback, IP version selection, timeouts and refused connections are untested.",
 [TCP,LIS,"include/frnetlib/Listener.h"],[("ai_family","requested IP version","include/frnetlib/Socket.h"),("fr_socket_remote_address","reported peer","include/frnetlib/Socket.h")],
 [("address loop with non-blocking connect, select and SO_ERROR",TCP),("bind loop",LIS)],
 ["connect/listen/accept statuses, getpeername/getsockname, get_remote_address"])

p("C25","Memory is given back",
 "Whatever is done with the library, succeeding, being refused, failing at any system call or throwing, the heap is left as it was once the objects involved are gone: doing the same again any number of times leaves no blocks behind, in particular after listeners and TLS credentials that could not be set up, handshakes and connects that failed and partly received messages. Objects which live on (sockets, listeners, selectors, parsers, packets, frames) and are used again and again for the same messages and connections need no more memory than the first few times.",
 ["histories","fault_sequences","inputs"],"all operations with any of their system calls failing, and all long-lived uses of objects",
 "Unit tests do everything once and exit; a leak on an error path needs the path, repetition, and a look at the heap.",
 [SSLL,SSLS,TCP,LIS,SEL,PKT,HTTP,"include/frnetlib/WebSocket.h"],[("ssl, conf, srvcert, pkey","mbedtls contexts released by hand",SSLL),("added_sockets","selector's references",SEL),("info","getaddrinfo results",TCP)],
 [("free_contexts / destructor",SSLL),("disconnect and reconnect release the session",SSLS),("freeaddrinfo on every path",TCP)],
 ["malloc/free, per repetition"])

p("C26","HTTP messages are exchanged whole over connections",
 "Sending a request or response through any connected socket, plain, TLS or WebSocket, in blocking or non-blocking mode, puts exactly the message's constructed bytes on the connection, once and in order, however the underlying calls are interrupted, cut short or told to wait, and does not change the message. Requests and responses sent in turns over one connection are each received exactly as they were sent. A receive for which nothing has arrived yet reports WouldBlock or Timeout and the same object receives the message once it comes. A send to a peer which never reads ends with Timeout under a send timeout, and what reached the connection is a prefix of the message.",
 ["inputs","schedules","fault_sequences"],"all messages, socket kinds, modes, timings, segmentations and partial or interrupted writes",
 "Tests send one small message over loopback, which never writes partially, is interrupted, or waits.",
 [HTTP,REQ,RES,SOCK,TCP,SSLS,"include/frnetlib/WebSocket.h"],[("sent","bytes of the message already out",HTTP)],
 [("Http::send retry loop",HTTP),("Http::receive read loop",HTTP),("send_raw's accumulated count",SOCK)],
 ["bytes seen by a recording peer, messages received by a library peer, statuses"])

p("C27","Streams and mixed messages arrive complete and in order",
 "Whatever is given to send_raw arrives at the peer exactly once and in order; the reported counts are exact, so that continuing an unfinished send, with the same count or with the rest and none, repeats and loses nothing. receive_raw gives between 1 and the requested number of bytes and writes nothing beyond them; receive_all gives exactly the requested number, or WouldBlock or Timeout with nothing taken. Raw data, packets, frames and user-defined messages following each other on one connection are each received as themselves, in both directions at once. Data sent before an orderly disconnect, shutdown or destruction arrives completely before Disconnected is reported.",
 ["inputs","schedules","fault_sequences","histories"],"all sizes, splits, modes, buffer sizes, interruptions and message sequences",
 "Tests exchange a few bytes in one piece; partial writes, small buffers and the end of a stream need load and timing.",
 [SOCK,TCP,SSLS,PKT,WF,"include/frnetlib/WebSocket.h"],[("sent, received","progress counts","include/frnetlib/Socket.h"),("ssl","records buffered in the session",SSLS)],
 [("send_raw / receive_raw",TCP),("send_raw / receive_raw",SSLS),("receive_all",SOCK)],
 ["bytes and counts at both ends, guard bytes around buffers, statuses"])

p("C28","Messages are values",
 "Copying, moving, assigning or swapping packets, HTTP requests and responses, WebSocket frames and URLs gives objects equal to the original at that time, including the read cursor, partly received contents and everything needed to carry on. Afterwards neither object is affected by anything done to another, including its destruction. Assigning a fresh object to a used or failed one makes it equal to new. Observing, constructing and sending never change what an object holds. What an object holds depends only on what was done to it.",
 ["inputs","histories"],"all objects in all states, and all orders of copies, moves and changes",
 "Tests use every message object once; hidden sharing or state left behind needs histories over several objects.",
 [PKT,HTTP,REQ,RES,WF,URL],[("header_ended, content_length, chunk_offset","parser progress","include/frnetlib/HttpResponse.h"),("buffer_read_index","cursor",PKT)],
 [("copy and move operations","all message classes")],
 ["everything the accessors return, compared with a fresh object given the same history"])

p("C29","TLS credentials are loaded or refused truthfully",
 "Loading CA certificates from a file or from memory, PEM or DER, one or many, reports success exactly when every certificate in the input could be loaded; missing files, empty or foreign content and damaged certificates report failure. What has been loaded is trusted by every socket which shares the context from then on, nothing else is, and a failed load takes nothing away. Creating a TLS listener throws std::runtime_error exactly when its certificate, any of its chain, or its private key can't be loaded; otherwise it serves with that key and presents the whole chain, and the files aren't needed again. Contexts stay usable for as long as any socket or listener uses them.",
 ["inputs","configurations","histories"],"all certificate and key inputs, sequences of loads, and lifetimes of contexts, sockets and listeners",
 "No test loads a certificate or creates a TLS listener.",
 ["include/frnetlib/SSLContext.h",SSLL,SSLS],[("cacert","trusted authorities","include/frnetlib/SSLContext.h"),("srvcert, pkey","listener's credentials",SSLL)],
 [("load_ca_certs_from_memory / load_ca_certs_from_file","include/frnetlib/SSLContext.h"),("SSLListener constructor",SSLL)],
 ["return values, exceptions, what certificate verification and connects accept"])

p("C30","Running out of memory fails the operation, and nothing else",
 "When memory can't be allocated at any point within a call of the library, the call throws std::bad_alloc, reports failure or does all of what it would have done; it doesn't report a success it hasn't had. The process isn't killed; no memory and no descriptor is left behind, and none is released twice. Objects passed in or called upon stay valid: packets keep what they held, constant messages are unchanged, selectors keep their members and don't take on one whose addition failed, a connection says truthfully whether it is there. Everything can afterwards be destroyed, or used again with the usual results.",
 ["inputs","faults","histories"],"every operation of the library, all inputs, and every allocation within (one failing, or that and all which follow)",
 "No test makes an allocation fail.",
 [PKT,REQ,RES,WS,TCP,SEL,SSLS,SSLL],[("socket_descriptor, ssl_socket_descriptor","owned descriptors",TCP),("added_sockets","members and their owners",SEL),("srvcert, pkey, conf","listener's credentials",SSLL)],
 [("SSLSocket::connect",SSLS),("SSLListener constructor",SSLL),("SocketSelector::add",SEL),("TcpSocket::connect",TCP)],
 ["exceptions and return values, allocations and descriptors left, content of objects, results of using them again"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
