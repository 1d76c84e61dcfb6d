"""What each check consists of: its harness, the builds it is run in, and what must at least be observed."""

CHECKS = {}


def check(id, harness, parts, rule, technique, note, level="exploration", assumptions=(), **kw):
    CHECKS[id] = dict(harness=harness, parts=parts, rule=rule, technique=technique, note=note, level=level,
                      assumptions=list(assumptions), **kw)


def asan(**kw):
    return dict(flavor="asan", **kw)


def fuzz(quick, thorough, **kw):
    return dict(flavor="fuzz", runs=(quick, thorough), **kw)


SANNOTE = "AddressSanitizer, UndefinedBehaviorSanitizer and the checked standard library watch every case; any report is a violation."

check("C10", "c10", [asan(), fuzz(20000, 1000000, tier="thorough")],
      rule="Exhaustive strings of one and two bytes and all %XY escapes (also cut short and followed by others), then random byte strings and "
           "mixtures of escapes, fragments of escapes and arbitrary bytes, compared with a reference decoder. Non-trivial: a distinct decoder input "
           "containing '%', or a distinct two byte string.",
      technique="reference-model monitor over exhaustive short and random inputs, under ASan/UBSan",
      note="Complete for inputs of up to two bytes and for single escapes; sampled beyond. " + SANNOTE,
      require={"encoded": 60000, "decoded": 200000})

check("C15", "c15", [asan(), fuzz(20000, 500000, tier="thorough")],
      rule="Every length up to 700 with six contents, every byte value at every position of the first blocks, every one and two byte string, "
           "random lengths around block boundaries, and inputs over 2^29 bytes. Non-trivial: a distinct input string. Oracle: mbedtls' SHA-1 and Base64.",
      technique="differential monitor against mbedtls' SHA-1 and Base64, under ASan/UBSan",
      note="Complete for Base64 inputs of up to two bytes; sampled beyond. Trusts mbedtls as the reference. " + SANNOTE,
      require={"sha1_digests": 10000, "base64_short_inputs": 60000, "sha1_over_2^29_bytes": 1})

check("C21", "c21", [asan()],
      rule="All enumerators, letter cases, proper prefixes and near misses of the names, statuses under many errno values, the numbers of the HTTP statuses, and each known extension "
           "under many file names. Non-trivial: a distinct name, text or extension.",
      technique="exhaustive and randomised monitor of the conversion functions against committed tables, under ASan/UBSan",
      note="The extension table is compared with a committed copy (golden/mime.txt). " + SANNOTE,
      require={"known_extensions": 600, "status numbers": 1000})

CPP17 = dict(cflags=["-std=c++17"], hflags=["-std=c++17"])
check("C01", "c01", [asan(), asan(build=CPP17, args=["--scale", "0.4"]), fuzz(0, 400000, tier="thorough", max_len=4096)],
      rule="Random sequences over 49 kinds of value (every supported type, nested containers up to depth four, ranges of several iterators, raw "
           "bytes, C strings, Packetable objects), added by operator, variadic add, constructor and range, extracted into fresh variables and ones with a value (other than maps), also from "
           "copies, after rereading and after clearing. Non-trivial: a distinct sequence of encoded values.",
      technique="round-trip monitor over generated programs of additions and extractions, under ASan/UBSan",
      note="Sampled over an infinite space of types and values; floats are compared bit by bit. " + SANNOTE,
      require={"sequence values": 50000, "variadic": 2000})

check("C02", "c02", [asan(), asan(build=CPP17, args=["--scale", "0.4"])],
      rule="Random values of 49 kinds, alone and in sequence, sent through a socket and compared byte by byte with an encoder of the documented "
           "layout written for the check, and bytes of that encoder received and extracted. All 16 bit integers are covered. Non-trivial: a distinct payload.",
      technique="wire monitor comparing sent and received bytes with an independent encoder and decoder, under ASan/UBSan",
      note="Unordered maps are compared after decoding, as their entries have no fixed order. " + SANNOTE,
      require={"packets on the wire": 15000})

check("C03", "c03", [asan(), fuzz(30000, 1500000, max_len=600, tier="thorough")],
      rule="Random, mutated and truncated encodings, with length fields set to extremes, loaded directly or received, and random sequences of extractions "
           "of 39 types, raw extractions and seeks, judged by a reference decoder working on the same bytes and by heap hooks; every truncation of "
           "every type; every container behind extreme lengths. Non-trivial: a distinct packet content.",
      technique="reference-decoder and heap monitor over hostile packets, under ASan/UBSan; libFuzzer when thorough",
      note="Proportionate memory is taken as at most 256 bytes at once per byte present, plus 64 KiB. " + SANNOTE,
      require={"extractions which threw": 20000, "extractions which succeeded": 20000, "received packets": 3000})

check("C04", "c04", [asan(), fuzz(0, 800000, max_len=1200, tier="thorough")],
      rule="Random histories of 28 operations (additions, extractions, seeks with extreme offsets, clears, copies, moves, sends) on several packets, compared "
           "with a string and a position after each; every size up to 12, position and offset exhaustively. Non-trivial: a distinct sequence of operations and states.",
      technique="model-based monitor over operation histories, under ASan/UBSan",
      note="Sampled histories; exhaustive for seeks in packets of up to 12 bytes. set_buffer is not part of it. " + SANNOTE,
      require={"operations": 500000, "seeks": 50000, "failed extractions": 10000, "failed extractions of strings and containers": 2000})

check("C11", "c11", [asan(), fuzz(0, 500000, max_len=200, tier="thorough")],
      rule="URLs assembled from random components (known and unknown schemes in any case, names, IPv4 and bracketed IPv6 hosts, ports, and paths, "
           "queries and fragments full of delimiters), parsed by fresh and by used objects and printed and parsed again; random and mutated strings. "
           "Non-trivial: a distinct URL text.",
      technique="component-oracle monitor over generated URLs and parse histories, under ASan/UBSan",
      note="The oracle is the list of components each URL was assembled from. " + SANNOTE,
      require={"reprinted": 50000, "guessed ports": 5000, "arbitrary strings": 50000})

check("C07", "c07", [asan(), fuzz(0, 400000, max_len=900, tier="thorough")],
      rule="Requests and responses populated through random API calls (names, values, URIs and bodies full of delimiters, letter case varied, stale "
           "lengths, built, changed and built again, copied), serialised, dissected by a parser written for the check, and parsed back by the "
           "library. Every status code, method and version. Non-trivial: a distinct message.",
      technique="round-trip monitor with an independent dissection of the serialised text, under ASan/UBSan",
      note="Header values are printable text, query and form values URL-encoded. " + SANNOTE,
      require={"requests": 50000, "responses": 40000, "forms": 3000, "queries": 10000, "bodies": 20000, "with a stale length": 5000})

SMALL = dict(hdr="600", body="3000")
check("C08", "c08", [asan(), asan(build=SMALL, args=["--section", "limits"]), fuzz(0, 300000, max_len=700, tier="thorough")],
      rule="Generated complete requests and responses (with a length, chunked, or without a body; CRLF or bare newlines; extensions and trailers), fed "
           "whole, byte by byte, in random pieces, split at every place, cut around line ends, followed by other data, and through a socket which "
           "interrupts; also around the size limits of a build with small ones. Non-trivial: a distinct message.",
      technique="monitor comparing each segmentation's outcome with the generated message, under ASan/UBSan",
      note="All two-way splits of messages of up to 500 bytes; longer ones are cut at random. Trailing data is only sent in the same piece as the last "
           "byte of a message that declares its length. " + SANNOTE,
      require={"chunked": 4000, "with a length": 15000, "followed by other data": 10000, "split everywhere": 1500, "through a socket": 10000, "interruptions": 10000,
               "header within the limit": 100, "chunked body around or over the limit": 50})

check("C09", "c09", [asan(), asan(build=SMALL), fuzz(40000, 3000000, max_len=800, tier="thorough"), fuzz(0, 1000000, max_len=1500, tier="thorough", build=SMALL)],
      rule="Random bytes, mutated messages and grammar fragments in random pieces, directly and over a socket; messages with exactly one defect of each "
           "named kind, which must be a ParseError; and endless headers, lines, bodies, chunks, extensions and trailers with heap hooks, in builds "
           "with the default and with small limits. Non-trivial: a distinct input.",
      technique="robustness fuzzing with a status, classification and heap monitor, under ASan/UBSan; libFuzzer when thorough",
      note="A limit may be enforced up to eight bytes late (sixteen for trailers). The memory bound is 200 times the header limit plus six times the body limit. " + SANNOTE,
      require={"refused: unknown method": 8000, "refused: no HTTP version": 8000, "refused: no numeric status": 8000, "refused: Content-Length": 15000,
               "refused: chunk size": 15000, "endless chunks": 10, "endless request headers": 20, "largest bodies": 80, "ParseError": 10000})

NET = dict(wrap=True)
check("C05", "c05", [asan(build=NET), fuzz(0, 300000, max_len=600, tier="thorough", build=NET)],
      rule="Random series of packets sent and received through a socket which splits, coalesces and interrupts; interrupted at every position; ended at "
           "every position; and over real socket pairs and TCP connections in blocking and non-blocking mode, with recv and send interrupted, cut short and "
           "told to try again, by threads on both ends. Non-trivial: a distinct stream and segmentation.",
      technique="exactly-once and order monitor over recorded streams, with fault injection at the system call boundary, under ASan/UBSan",
      note="A WouldBlock or Timeout must leave the count of bytes taken from the kernel (or the stand-in) unchanged. " + SANNOTE,
      require={"packets": 30000, "interruptions": 100000, "blocked receives": 20000, "packets over real sockets": 3000, "injected interruptions": 20000, "positions": 50000})

check("C06", "c06", [asan(build=NET), fuzz(0, 300000, max_len=400, tier="thorough", build=NET)],
      rule="Packets and WebSocket frames in both roles declaring lengths just and far beyond random limits (also beyond 32 bits, and with every length "
           "form), after some within the limit, with only the header or also bytes that look like further messages behind it; every size around a "
           "limit; no limit; and real sockets and WebSockets. Non-trivial: a distinct header and limit.",
      technique="status, stream position, connection and heap monitor over hostile lengths, under ASan/UBSan",
      note="No single allocation may exceed 64 KiB while an oversized message is refused. " + SANNOTE,
      require={"refused packet": 2000, "refused frame to a client": 2000, "refused frame to a server": 2000, "sizes around a limit": 3000, "refused on real connections": 300,
               "delivered within the limit": 5000})

check("C12", "c12", [asan(build=NET, args=["--skip", "huge"]), dict(flavor="plain", build=NET, args=["--section", "huge"], workers=1, env={"GLIBC_TUNABLES": "glibc.malloc.hugetlb=1"}),
                     fuzz(0, 300000, max_len=600, tier="thorough", build=NET)],
      rule="Frames of both roles with every opcode and final flag and sizes around the changes of length form (all up to 400 and around 65536, one over "
           "4 GiB), sent once or repeatedly through transports which split, block, interrupt and fail, decoded by an RFC 6455 decoder written for the "
           "check, and received by the library in the opposite role. Non-trivial: a distinct payload, opcode, flag and role.",
      technique="wire monitor with an independent RFC 6455 decoder, under ASan/UBSan",
      note="Mask keys are required to differ from the frame sent before. " + SANNOTE,
      require={"masked frames": 10000, "unmasked frames": 10000, "sent again": 5000, "failed sends": 1000, "sizes and roles": 10000, "received back": 20000,
               "frames over real sockets": 300, "frames over 4 GiB": 2})

check("C13", "c13", [asan(build=NET), fuzz(0, 500000, max_len=600, tier="thorough", build=NET)],
      rule="Streams of frames made by an encoder written for the check (every opcode and length form, also longer ones than needed), in any segmentation, "
           "blocked at random and at every position, ended at every position, wrongly masked, mutated and arbitrary, and over real sockets with recv "
           "interrupted and cut short. Non-trivial: a distinct stream and segmentation.",
      technique="reference-decoder monitor over recorded streams with fault injection at the system call boundary, under ASan/UBSan",
      note="Frames with reserved bits or opcodes may be refused, but not changed. " + SANNOTE,
      require={"frames": 40000, "positions": 100000, "masked frames to clients": 2000, "unmasked frames to servers": 2000, "frames in arbitrary data": 5000,
               "blocked receives": 20000, "frames over real sockets": 500, "false lengths": 2000})

check("C14", "c14", [asan(build=NET)],
      rule="Handshakes of the library's servers with scripted clients and of its clients with scripted servers (proper ones with names in any case, "
           "random paths, headers and segmentation, and ones with a single defect of each named kind), with frames sent along; requests, replies, "
           "frames and the last frame are dissected; and of both with each other. Non-trivial: a distinct handshake text.",
      technique="protocol monitor with scripted peers and independent accept values and frame decoding, under ASan/UBSan",
      note="Accept values are computed with mbedtls' SHA-1 and Base64. " + SANNOTE,
      require={"admitted": 2500, "refused requests": 2500, "connected": 1500, "refused replies": 1500, "keys": 400, "early frames to servers": 3000,
               "early frames to clients": 2000, "conversations": 800, "disconnected by the server": 1500, "disconnected by the client": 1000})

check("C16", "c16", [asan(build=NET)],
      rule="Random histories of connecting (also to several addresses), listening, accepting, reusing, moving, disconnecting, refusing, selecting and "
           "destroying plain, WebSocket and TLS sockets and listeners, with system calls failing at random, and each operation with each of its calls "
           "failing; after each step every open descriptor of the process must have exactly one owner. Freed numbers are occupied at once in half of "
           "them, so that closing one again is seen. In processes without a standard input descriptor 0 goes to an object of each kind, which must "
           "work like any other; and listeners are given descriptors, which are taken back or not. Non-trivial: a distinct history.",
      technique="descriptor accounting monitor over histories with fault injection at the system call boundary, under ASan/UBSan",
      note="Calls made inside mbedtls can't be failed, only their effects are seen. " + SANNOTE,
      require={"states checked": 50000, "descriptors owned": 100000, "connects": 1000, "failed connects": 3000, "failed listens": 1000, "accepts": 1000,
               "TLS connections": 300, "failed TLS connections": 200, "moves": 500, "operations with a failing call": 1600, "WebSocket connections": 300,
               "descriptor 0: listener": 20, "descriptor 0: connected": 20, "descriptor 0: accepted": 4, "descriptor 0: adopted": 20, "descriptor 0: selector": 20, "given listeners": 160, "given listeners accepting": 40})

check("C17", "c17", [asan(build=NET)],
      rule="Random histories of creating, adding (also again, disconnected or with epoll_ctl failing), feeding, reading, closing, resetting, "
           "disconnecting, reconnecting, letting go of and removing sockets and listeners in one or two selectors, with descriptor numbers reused; after "
           "each step the members reported by repeated waits are compared with what poll() says of each of them. Also up to 500 members (2500 when "
           "thorough), timeouts up to 2^63 ms, and threads feeding the members. Non-trivial: a distinct history.",
      technique="model-based monitor of the selector with poll() as the oracle of readiness, under ASan/UBSan",
      note="Every ready member must be reported in as many waits as there are ready members, plus three. " + SANNOTE,
      require={"waits": 50000, "ready members": 50000, "descriptor numbers reused": 500, "removes of disconnected members": 800, "duplicate adds": 1000,
               "disconnected adds": 500, "failing adds": 200, "more ready than reported at once": 20, "timeouts": 30, "waits ended by an event": 20, "streams": 60})

check("C18", "c18", [asan(build=NET, workers=20)],
      rule="Plain, TLS and WebSocket sockets, connected, accepted and adopted, also reused: receives of each kind with timeouts set before or after, "
           "with signals arriving, without timeouts, in non-blocking mode and shut down from another thread; sends against a full connection, whose count is "
           "compared with what arrives; timeouts set again; and random histories in which the reported mode is compared with the descriptor's. Non-trivial: a distinct combination.",
      technique="timing and state monitor on real connections, with a rescuing thread in place of hanging, under ASan/UBSan",
      note="A timeout may end 10.5 ms early, the kernel counting in ticks; what should happen at once has 4 s. " + SANNOTE,
      require={"receive timeouts": 370, "waits for data": 250, "non-blocking receives": 400, "modes compared": 5000, "stalled sends": 250, "receives released": 250,
               "accepts released": 100, "shut down while idle": 100, "stalled for seconds": 5, "interrupted by signals": 60, "timeouts changed": 250})

check("C19", "c19", [asan(build=NET, workers=12)],
      rule="Connects to servers with sixteen certificates (good ones, one with an intermediate, and expired, future, untrusted, self-signed, spoofed, forged "
           "ones and ones for other names), under eight names and six sets of CAs loaded in every way, verified or not, by new and reused objects; "
           "conversations of packets, raw data, HTTP messages and frames of up to 400 KB in both modes; and records changed on the way. All of it passes "
           "through a recording relay, which splits and delays. Non-trivial: a distinct attempt or conversation.",
      technique="wiretap and man-in-the-middle monitor with a certificate acceptance table and exactly-once checking, under ASan/UBSan",
      note="What is seen on the wire must consist of TLS records and contain none of the random contents sent. Trusts mbedtls' cryptography. " + SANNOTE,
      require={"authenticated connections": 60, "unverified connections": 100, "refused servers": 500, "messages received": 1500, "records seen": 10000,
               "records bit flipped": 10, "records dropped": 10, "reused after a failure": 50, "reused while connected": 50})

check("C20", "c20", [dict(flavor="tsan", build=NET), asan(build=NET)],
      rule="Two to eight threads working with packets, HTTP messages, frames, URLs, encodings, sockets, selectors, WebSockets and TLS connections of their "
           "own (sharing a TLS context), whose results are compared with those of the same work done alone; up to six threads accepting from one plain or TLS "
           "listener; and connections used by a sending and a receiving thread at each end. Non-trivial: a distinct result or assignment of connections.",
      technique="ThreadSanitizer over concurrent workloads, with a monitor comparing each thread's results with those it gets alone",
      note="Races inside mbedtls, which isn't instrumented, would only be seen by their effects. Any report of the sanitizer is a violation.",
      require={"results compared": 50000, "connections handed out": 1000, "TLS connections handed out": 100, "messages both ways": 3000,
               "work: packets": 500, "work: http": 500, "work: frames": 500, "work: sockets": 500, "work: websockets": 500, "work: tls": 100})

check("C23", "c23", [asan(build=NET, workers=12)],
      rule="Peers of plain, TLS and WebSocket connections, connected, accepted and adopted, which close, reset, half-close, leave without notice or fall "
           "silent before, inside or after messages of each kind, at every position, while large sends are under way, during TLS and WebSocket "
           "handshakes, and before being accepted; peers sending anything at all; operations on sockets and listeners which aren't connected. Some in new "
           "processes with the default signal handling. Non-trivial: a distinct connection, ending and position.",
      technique="fault-injecting peers with a monitor of statuses, delivered messages, descriptors and the process' survival, under ASan/UBSan",
      note="What should happen has 20 s to. Before a reset only what had reached the receiving kernel must be delivered. " + SANNOTE,
      require={"new processes": 100, "messages delivered": 4000, "positions": 2000, "sends cut off": 200, "connects cut": 200, "accepts cut": 200,
               "requests refused": 1500, "replies refused": 2000, "accepted after they had gone": 8000, "hostile peers": 2000,
               "operations on unconnected sockets": 8000, "operations on listeners which don't listen": 1000, "peers that reset the connection": 500,
               "peers that fell silent": 400, "sends to half-closed peers": 500})

check("C24", "c24", [asan(build=NET, workers=16)],
      rule="Connects to names with one to seven addresses (working ones on any loopback address or IPv6, refusing, unreachable, silent and unsupported ones), to "
           "names and ports of every kind with listeners for either, both or no IP version, to servers which never finish or are late, with waits "
           "interrupted; listeners of every version and kind on given, free, taken and impossible ports, with clients from several addresses whose "
           "order, addresses and data are compared. Non-trivial: a distinct configuration.",
      technique="endpoint monitor comparing what the kernel says of each connection with what was asked for, with fault injection in name lookup and waiting, under ASan/UBSan",
      note="Silent servers are ones whose queue is full. What should be over has 6 s more than the timeout, or twice the timeout for handshakes. " + SANNOTE,
      require={"connected to a later address": 1000, "no address works": 1000, "connects timed out": 40, "connected late": 20, "connected by name": 500,
               "nothing there": 1000, "clients accepted": 4000, "taken ports": 100, "bad ports": 1500, "shared by two listeners": 3000,
               "TLS clients": 100, "interruptions": 2000, "names which don't resolve": 1000})

check("C22", "c22", [asan(build=NET), dict(flavor="tsan", build=NET, args=["--scale", "0.25"])],
      rule="Services written as in examples/concurrent_http_server (one loop, with a pool of workers, or several loops sharing a port; plain or TLS; with "
           "calls interrupted, cut short and told to try again) and up to 150 clients each: ones sending one request after the other in random pieces, slow, "
           "unfinished, silent, malformed and idle ones, and ones which leave early. Non-trivial: a distinct request.",
      technique="client and server side logs checked for exactly one correct answer to each request, in order and without cross-talk, under ASan/UBSan and TSan",
      note="An answer has 30 s to arrive. Requests carry a token, and answers are computed from all of the request. " + SANNOTE,
      require={"requests answered": 8000, "connections": 3000, "malformed requests refused": 150, "clients: slow": 500, "clients: leaving a request unfinished": 150, "clients: leaving without reading": 150, "clients: silent within a request": 150, "services: one loop": 20, "services: several loops": 20, "services: with workers": 20})

check("C25", "c25", [asan(build=dict(wrap=True), workers=12)],
      rule="Seventeen kinds of operation (connecting, listening, accepting, handshakes, sessions, lookups, parsing, packing, selecting), going well, badly or with "
           "their nth system call failing, repeated five times with the same random choices, with every heap block followed; and long-lived parsers, packets, "
           "frames, connections, selectors and listeners used 12 to 64 times for the same messages. Non-trivial: a distinct operation and set of choices.",
      technique="heap monitor: blocks of every repetition which outlive it, and growth of long-lived objects, under ASan/UBSan",
      note="A leak is a block allocated at one place in each of the repetitions and not freed after them. " + SANNOTE,
      require={"repetitions": 20000, "TLS sessions": 300, "WebSocket sessions": 300, "listeners which couldn't be made": 200})

check("C26", "c26", [asan(build=NET, workers=12)],
      rule="Requests and responses of up to 3 MB built through the API and sent in both modes through TCP, TLS and WebSocket sockets, connected, accepted and adopted, whose "
           "calls are interrupted, cut short and told to wait, with buffers small and large and readers slow and fast, every byte being recorded; up to sixty requests and responses in turns "
           "between two library sockets; and messages of a peer arriving in pieces, asked for too early. Non-trivial: a distinct message or conversation.",
      technique="wire recorder and exactly-once conversation checker over real connections with injected faults, under ASan/UBSan",
      note="What should arrive has 30 s to. " + SANNOTE,
      require={"messages sent": 2500, "messages received": 6000, "exchanges": 1500, "sends cut short": 5000, "asked too early": 3000, "sends which timed out": 60, "large messages through medium buffers": 200})

check("C27", "c27", [asan(build=NET, workers=12)],
      rule="Streams of up to 3 MB between two library sockets (TCP and WebSocket both ways at once, and TLS), written and read in random pieces of 1 byte to all, in blocking and "
           "non-blocking mode and with short timeouts, with calls interrupted and cut short and buffers small and large; raw data, packets, frames and a user's own messages "
           "following each other; and connections ended right after what was sent. Non-trivial: a distinct stream or sequence.",
      technique="conservation checker over recorded streams, with exact-size buffers, over real connections with injected faults, under ASan/UBSan",
      note="What should arrive has 30 s to. " + SANNOTE,
      require={"streams": 1000, "bytes received": 50000000, "messages received": 8000, "ends": 500, "sends which had to wait": 2000, "receives which had to wait": 10000, "exact receives": 20000, "pieces taken as they were": 500})

check("C28", "c28", [asan()],
      rule="Stories of up to 66 steps with four packets, requests, responses, frames or URLs, which are changed through their API, receive and parse messages whole, in part and "
           "in error, are sent, copied (in five ways), moved, swapped, assigned to themselves and made anew. Histories are also run in a process of their own and in one in which other objects were used before. Non-trivial: a distinct story.",
      technique="replay monitor: every object is compared, after each step, with a fresh one to which its history alone was done, under ASan/UBSan",
      note="Objects which were moved from aren't looked at until they're assigned to. " + SANNOTE,
      require={"stories: packet": 5000, "stories: request": 5000, "stories: response": 5000, "stories: URL": 3000, "copies": 50000, "moves": 20000, "changes": 200000, "objects seen alone and after others": 300})

check("C29", "c29", [asan(build=NET)],
      rule="Authorities and servers' certificates made on the spot, in PEM and DER, singly and up to 150 at once, with comments and either line ending, from files and memory; with blocks that "
           "were emptied, cut, replaced or aren't base64, and missing, empty, locked and foreign files; TLS contexts loading several of these in turn and shared by sockets which connect, "
           "reconnect and outlive the owner's reference; listeners made from such files and connected to. Non-trivial: a distinct sequence of loads or kind of credentials.",
      technique="credential monitor: return values and exceptions against what was put into the input, and what is trusted and presented against what was loaded, under ASan/UBSan",
      note="Which certificates of a partly refused load are kept is left open; keys which don't belong to the certificate aren't recognised by mbedtls and aren't tried. " + SANNOTE,
      require={"loads: fine": 1000, "loads: refused": 1000, "missing files": 500, "listeners refused": 500, "listeners made": 400, "sessions": 200, "sessions with chains": 150,
               "connects which should work": 60, "connects which shouldn't": 100, "sessions kept up": 150, "contexts let go of": 30})

check("C30", "c30", [asan(build=NET, workers=12)],
      rule="Thirty kinds of operation (packing and unpacking, populating, constructing, parsing, sending and receiving messages of every kind, connecting, listening, accepting, "
           "selecting, plain, WebSocket and TLS, loading credentials), each repeated with one allocation failing at every, or many random, places, or that one and all "
           "after it, also those of mbedtls. Non-trivial: a distinct operation and set of choices.",
      technique="allocation fault injection with monitors of exceptions, heap, descriptors, object state and results afterwards, under ASan/UBSan",
      note="A failure may be std::bad_alloc, a failing status or, where the library absorbs it, full success. That mbedtls doesn't notice a failure while it works out "
           "the last message of a server's handshake is its own affair. " + SANNOTE,
      require={"failed allocations": 20000})
