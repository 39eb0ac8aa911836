#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the statements stay easy to review).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["include/crab/" + f for f in files],
            mechanism=[dict(name=n, where="include/crab/" + w) for n, w in mech],
            state=[dict(name=n, meaning=m) for n, m in state])))

NONET = "No test exercises the networking code at all; "
FUZZ = "The parser tests are a fixed corpus that only checks for crashes plus a handful of hand-written messages; "

p("C01", "Base64 encoding and decoding are exact inverses and reject malformed text",
  "For every byte string, encoding gives padded text over the standard alphabet of exactly the RFC 4648 length, equal to the RFC 4648 encoding, and decoding that text gives the original bytes back. The decoder accepts exactly the texts made of complete four-character groups (each with no, one or two trailing padding characters, so concatenated encodings are accepted) optionally followed by one unpadded group of two or three characters, and then yields exactly the bits the text carries; any other text (bad characters, wrong length, misplaced padding) is reported as failure and leaves the caller's result untouched. Given an output buffer of the size the library itself announces, nothing outside it is read or written.",
  ["inputs"], "all byte strings to encode; all character strings to decode", "The tests compare a few fixed vectors; which character in which position is mishandled depends on all 256 byte values at each residue of the length modulo 3 or 4.",
  ["crypto/base64.hpp", "crypto/base64.hxx"], [("encode/decode", "crypto/base64.hxx")])
p("C02", "CRC-32 and CRC-32C are the standard checksums and compose over any split",
  "The checksum of any byte string equals the standard bit-by-bit CRC for the polynomial, for every alignment and length of the buffer. Feeding the data in pieces, starting each piece from the previous result, gives the same value as feeding it at once.",
  ["inputs"], "all byte strings, all initial values, all splits into pieces, all buffer alignments", "Tests check two fixed strings; table entries and the unaligned/eight-byte/trailing-byte paths are each reached by few inputs.",
  ["crypto/crc32.hpp", "crypto/crc32.hxx"], [("slicing tables and tail loops", "crypto/crc32.hxx")])
p("C03", "MD5 and SHA-1 digests do not depend on how the data was fed",
  "The digest of a message equals the RFC 1321 / FIPS 180 digest of its bytes, however the message is cut into successive additions, for every length around the 56/64-byte padding and block boundaries. Incremental hashing never touches memory outside the given data.",
  ["inputs", "histories"], "all message contents, lengths, and all ways to split the message into additions", "Tests hash a few short fixed strings in one call; buffering errors need a split that straddles a block or padding boundary.",
  ["crypto/md5.hpp", "crypto/md5.hxx", "crypto/sha1.hpp", "crypto/sha1.hxx"], [("block buffering and finish padding", "crypto/md5.hxx"), ("block buffering and finish padding", "crypto/sha1.hxx")], [("buffer", "bytes of an incomplete block")])
p("C04", "WebSocket frame headers survive serialisation and parsing, however they arrive",
  "Every frame header (opcode, final flag, mask, any payload length) that is serialised is parsed back to the same header with the minimal RFC 6455 length encoding, in any number of pieces and consuming exactly its own bytes. Headers that RFC 6455 forbids (reserved bits, reserved opcodes, fragmented or over-long control frames) are rejected rather than accepted.",
  ["inputs"], "all header byte sequences, all header values, all splits of the bytes", FUZZ + "no test covers length-encoding boundaries, split positions, or reserved bits of websocket frames.",
  ["http/web_message_parser.hpp", "http/web_message_parser.hxx"], [("header state machine", "http/web_message_parser.hxx")], [("state", "next header byte expected")])
p("C05", "WebSocket payloads are unmasked exactly and delivered whole, however they arrive",
  "Masking is an involution that XORs payload byte i with mask byte i mod 4, for any buffer alignment, length and starting position. A frame body fed in arbitrary pieces yields exactly the unmasked payload bytes, consumes exactly the announced length and no byte of the next frame.",
  ["inputs"], "all payloads, mask keys, positions, alignments and splits", "No test exercises masking; errors need a specific alignment, length remainder or split offset modulo four.",
  ["http/web_message_parser.hpp", "http/web_message_parser.hxx", "util.hpp"], [("mask_data", "http/web_message_parser.hxx"), ("body parser", "http/web_message_parser.hxx")])
p("C06", "Text is converted to an integer exactly or rejected, never wrapped",
  "Converting text to an integer type returns the decimal value it spells when that value fits the type and otherwise reports an error, for every text and every integer type; text without digits, with stray characters, or (for unsigned types) with a minus sign is rejected. No input causes wrap-around or undefined behaviour.",
  ["inputs"], "all character strings up to the bound, all integer widths and signedness", "The tests try a list of literals per type; overflow happens only at the exact digits where value*10+digit crosses the limit.",
  ["integer_cast.hpp"], [("integer_parse / integer_cast", "integer_cast.hpp")])
p("C07", "Checked numeric conversion and arithmetic succeed exactly when the result fits",
  "Checked conversion between numeric types returns the same value or throws, and it throws exactly when the value is not representable in the destination type. Checked addition and subtraction (throwing and optional-returning) succeed exactly when the mathematical result fits, and then give that result; the checked absolute value is exact for every value including the minimum; the fixed-buffer decimal formatter writes exactly the shortest decimal spelling of every value.",
  ["inputs"], "all operand values of all integer widths and signedness pairs", "Tests use single values per type pair; the boundary values of every source/destination pair and mixed signedness are not reached.",
  ["integer_cast.hpp", "util.hpp"], [("integer_cast", "integer_cast.hpp"), ("safe_add/safe_sub/safe_abs/IntegerSaver", "integer_cast.hpp")])
p("C08", "The circular buffer is a lossless bounded byte FIFO",
  "After any sequence of writes, reads and direct-access commits the buffer holds exactly the bytes accepted and not yet taken, in order; it never accepts more than its capacity, and reported sizes, emptiness and fullness always agree with that content. Every exposed read or write window is inside the buffer and covers only readable or free space.",
  ["histories", "inputs"], "all operation sequences and sizes from every reachable internal position", "No test drives the buffer through wrap-around, where reads and writes split in two.",
  ["streams.hpp", "streams.hxx"], [("Buffer index arithmetic", "streams.hpp")], [("read and write positions", "monotonic counters taken modulo capacity")])
p("C09", "Stream transfers conserve bytes, order and reported counts",
  "For every composition of in-memory, string, vector, limited, combined and buffered streams, a transfer delivers a prefix of the remaining input in order, reports exactly the number of bytes it moved, advances the source by exactly that many, and stops only when a limit, the source or the sink is exhausted. Calls that demand an exact amount either move all of it or throw.",
  ["inputs", "histories"], "all contents, chunk sizes, limits, and sinks that accept any part of what is offered", "No test covers streams with sinks that accept partially, where counts and offsets diverge.",
  ["streams.hpp", "streams.hxx"], [("write_to/read_some implementations", "streams.hxx")])
p("C10", "The intrusive heap always yields the smallest element and tracks membership",
  "After any sequence of insertions, removals of arbitrary elements, key updates and pops, the heap's front is a minimum of the elements it holds, every element knows whether it is in the heap, and no element is lost or duplicated.",
  ["histories", "inputs"], "all operation sequences with all key orders including equal keys", "No test covers the heap; a wrong sift direction on removal from the middle needs a particular key order.",
  ["intrusive_heap.hpp"], [("sift up / sift down / erase", "intrusive_heap.hpp")], [("heap index", "position of the element in the heap, 0 when absent")])
p("C11", "The intrusive list keeps exactly its linked elements in order",
  "After any sequence of pushes, removals, moves and destruction of elements, iterating the list visits exactly the elements currently linked, in insertion order; unlinking is idempotent and an element destroyed or moved elsewhere is never visited.",
  ["histories"], "all operation sequences over several nodes and lists", "No test covers the list; stale links need a particular order of unlinking and reinsertion.",
  ["intrusive_list.hpp"], [("link / unlink", "intrusive_list.hpp")], [("prev/next links", "neighbours in the circular list")])
p("C12", "HTTP header parsing does not depend on how the bytes are split",
  "Feeding a request or response head in any partition of its bytes gives the same outcome as feeding it at once: the same accept or reject decision, the same parsed header, and the same number of consumed bytes.",
  ["inputs"], "all byte strings as head, all split positions", FUZZ + "every test feeds the whole message at once, so state carried between calls is never exercised.",
  ["http/request_parser.hpp", "http/request_parser.hxx", "http/response_parser.hpp", "http/response_parser.hxx"], [("byte-at-a-time state machines", "http/request_parser.hxx")], [("state", "grammar position between bytes")])
p("C13", "HTTP head parsing is memory safe, bounded, and accepts only well-formed heads",
  "For every byte sequence the head parsers stay within memory, consume no byte after the blank line, reject heads larger than the configured limit, and reject control characters or malformed tokens in the method, version and field names, and versions other than 0.x and 1.x. Every accepted request carries the method, path, query and fields exactly as spelled in the input (folding and percent-decoding included).",
  ["inputs"], "all byte strings up to the bound", FUZZ + "which byte in which grammar position is wrongly accepted or mis-stored is not visible to a crash-only corpus.",
  ["http/request_parser.hxx", "http/response_parser.hxx", "http/types.hxx"], [("grammar state machines", "http/request_parser.hxx"), ("process_ready_header", "http/request_parser.hxx")])
p("C14", "HTTP bodies are framed exactly, for any chunking and splitting",
  "A body announced by length or by chunked coding yields exactly its payload bytes, ends exactly at its last framing byte leaving following bytes untouched, and gives the same result for every split of the input. Malformed or overflowing chunk sizes and chunk headers or trailers that exceed the configured limits by more than one byte are rejected, those within the limits are accepted.",
  ["inputs"], "all body contents, chunk layouts, extensions, trailers, limits and splits", FUZZ + "chunk headers split across reads and size limits at the boundary are not covered.",
  ["http/request_parser.hpp", "http/request_parser.hxx"], [("BodyParser", "http/request_parser.hxx")], [("remaining bytes", "payload bytes of the current chunk or body still to come")])
p("C15", "Messages written by the library are parsed back unchanged by the library",
  "A request or response header that the library serialises is accepted by its own parser and yields the same method, target, status, version, connection persistence, length or chunked framing, and application fields. Nothing placed in a well-formed field makes the serialised head end early. The same holds for the messages its helper functions make.",
  ["inputs"], "all header values with well-formed fields", FUZZ + "there is no round-trip test.",
  ["http/types.hpp", "http/types.hxx", "http/request_parser.hxx", "http/response_parser.hxx"], [("to_string", "http/types.hxx"), ("parsers", "http/request_parser.hxx")])
p("C16", "Percent-encoding round-trips every byte and emits only safe characters",
  "For every byte string, percent-encoding produces only characters safe in the targeted URI component and decoding gives the original back; decoding any text yields the bytes it spells, with malformed escapes kept as they are, within memory bounds.",
  ["inputs"], "all byte strings, all option sets", "Tests check a few strings; the character class of each of 256 bytes under each option matters.",
  ["http/query_parser.hpp", "http/query_parser.hxx"], [("encode/decode", "http/query_parser.hxx")])
p("C17", "URI parsing normalises safely and is stable under reserialisation",
  "Parsing a URI yields its scheme, user info, host, port, path and query as spelled (fragments and bracketed address literals are not supported); dot segments never climb above the root and none survive in a parsed path. Serialising a parsed URI and parsing it again gives the same components, and the request target derived from it parses to the same path and query.",
  ["inputs"], "all character strings up to the bound", "Tests list some URIs; interactions of percent-escapes, dot segments and delimiters at arbitrary positions are not covered.",
  ["http/query_parser.hpp", "http/query_parser.hxx", "http/types.hxx"], [("URI parser state machine", "http/query_parser.hxx")])
p("C18", "UTF-8 validation accepts exactly well-formed UTF-8",
  "The validator accepts a byte sequence exactly when it is well-formed UTF-8 as defined by Unicode (no overlong forms, surrogates, or values beyond U+10FFFF, no stray continuation byte, no truncated sequence at the end), at any position in the text.",
  ["inputs"], "all byte sequences up to the bound", "No test covers it exhaustively; one wrong entry in the decision table affects only specific two- to four-byte combinations.",
  ["util.hpp", "util.hxx", "http/types.hxx"], [("validator state machine", "util.hxx")])
p("C19", "Hex conversion is exact and rejects everything else",
  "Converting bytes to hex gives two lowercase digits per byte, converting back gives the original bytes, and text with an odd length or a non-hex character is rejected.",
  ["inputs"], "all byte strings and all character strings up to the bound", "Tests use a few literals; each of the 256 characters in each nibble position matters.",
  ["util.hpp", "util.hxx"], [("to_hex / from_hex", "util.hxx")])
p("C20", "Query strings and cookies parse to the pairs they spell",
  "Parsing a query string or cookie header yields exactly the key/value pairs that the text spells with percent escapes decoded, nothing lost, invented or merged (a later pair with the same key replaces the earlier one; malformed escapes are kept as they are and do not affect neighbouring pairs). Building a query from pairs and parsing it gives the same pairs.",
  ["inputs"], "all character strings up to the bound; all sets of pairs", "Tests list a few queries; delimiters directly after an escape character are not covered.",
  ["http/query_parser.hpp", "http/query_parser.hxx"], [("query and cookie state machines", "http/query_parser.hxx")])
p("C21", "Framing and connection fields are interpreted by RFC rules, regardless of case",
  "Content-length, transfer-encoding, connection, host, upgrade and websocket fields are recognised whatever the letter case and optional whitespace; conflicting or malformed lengths and coding lists that do not end in chunked are rejected, chunked coding overrides a length, unsupported connection and upgrade options are rejected; keep-alive follows the protocol version and the connection option.",
  ["inputs"], "all field names, values, repetitions and letter cases", FUZZ + "combinations of repeated and conflicting framing fields are not asserted.",
  ["http/request_parser.hxx", "http/response_parser.hxx", "http/types.hxx"], [("process_ready_header", "http/request_parser.hxx")])
p("C22", "Buffered socket output is delivered in order, once, under any partial writes",
  "Whatever sequence of buffered writes, stream writes and shutdown an application makes, and however few bytes the kernel accepts each time, the bytes on the wire are exactly the concatenation of what was written, in order; the writable and drained notifications are never lost; shutdown happens only after everything was sent.",
  ["histories", "fault_sequences", "inputs"], "all write sequences and sizes, all kernel acceptance patterns, connection loss at any point", NONET + "partial writes depend on kernel buffer state.",
  ["network.hpp", "network.hxx"], [("BufferedTCPSocket write queue", "network.hxx")], [("data_to_write", "queued chunks"), ("write_shutdown_asked", "shutdown pending behind data")])
p("C23", "Timers fire once, never early, in order, and never after being cancelled",
  "A timer set for a moment fires exactly once, in the first loop iteration at or after that moment and never earlier; moving a timer replaces its deadline, cancelling or destroying it prevents the callback, and due timers fire in the order of their deadlines (a timer whose deadline was moved later while it was pending may come late in the same iteration). The loop never sleeps past the nearest deadline nor spins while a deadline is still ahead.",
  ["histories", "schedules", "inputs"], "all sequences of set, move, cancel and destroy, also from within callbacks, for all clock readings", NONET + "timing and re-entrancy combinations cannot be sampled deterministically.",
  ["network_base.hpp", "network.hxx", "network_posix.hxx"], [("timer heap and process_timer", "network.hxx"), ("poll timeout", "network_posix.hxx")], [("fire_time", "deadline"), ("moved_fire_time", "lazily applied later deadline")])
p("C24", "No callback reaches an object after it was cancelled, closed or destroyed",
  "Once an application cancels, closes or destroys a socket, acceptor, timer, watcher, idle handler or signal, none of its callbacks runs again, even when the event was already fetched from the kernel in the same batch and even when this happens inside another object's callback. Destroying an object within its own callback is safe, and a handler that was replaced does not run again.",
  ["histories", "schedules"], "all combinations of simultaneously ready events and all actions inside their callbacks", NONET + "needs several events in one batch and destruction from a callback.",
  ["network.hxx", "network_base.hpp", "network_posix.hxx"], [("CallableWrapper / triggered list", "network.hxx"), ("epoll event dispatch", "network_posix.hxx")], [("triggered_callables", "callbacks due in this iteration")])
p("C25", "The HTTP server answers every request once, in order, on a persistent connection",
  "For any request byte stream, however split or pipelined, the handler sees each well-formed request once and in order, each response goes out complete and before the next one, malformed input never reaches the handler and closes the connection after the responses before it, and the connection persists or closes as the request and response headers say. A response to HEAD has its header only, and an HTTP/1.0 client is never sent chunks: such a body ends with the connection.",
  ["inputs", "histories", "fault_sequences"], "all request streams up to the bound, all read/write chunkings, immediate and deferred responses", NONET + "pipelining with partial reads and deferred answers is never exercised.",
  ["http/server.hpp", "http/server.hxx", "http/connection.hpp", "http/connection.hxx"], [("ServerConnection state machine", "http/connection.hxx"), ("Server request dispatch", "http/server.hxx")], [("state", "where the connection is in the request/response cycle")])
p("C26", "A websocket session delivers messages intact and closes by the protocol",
  "After the upgrade each complete message (also when fragmented, interleaved with control frames, or split arbitrarily) is delivered once, in order and intact; pings are answered with their payload; a close frame or protocol violation ends the session, a close frame being answered with a close frame, control frames that are sent are at most 125 bytes long (a longer close reason is cut between characters), a silent server session is kept alive with pings, with at most one close notification to the handler (when the connection merely ends, its code says whether the application had closed: 1000, or else the library's 'disconnect' code) and nothing delivered to it after that.",
  ["inputs", "histories", "fault_sequences"], "all frame sequences up to the bound, all splits, timer expiries", NONET + "fragmentation, control interleaving and close handshakes are never exercised.",
  ["http/connection.hxx", "http/server.hxx", "http/client_request.hxx", "http/web_message_parser.hxx"], [("websocket state in connection", "http/connection.hxx")])
p("C27", "Streamed bodies are sent completely and framed as announced",
  "A response or request body that is produced in pieces (with a known length, chunked, or pulled on demand) arrives complete, in order and framed exactly as announced; more bytes than announced are refused, and the connection is reusable only after the announced end.",
  ["inputs", "histories"], "all piece sizes and contents, lengths, kernel acceptance patterns", NONET + "streaming bodies have no tests.",
  ["http/connection.hxx", "http/server.hxx"], [("start_write_stream / body_position", "http/connection.hxx")])
p("C28", "Cross-thread wake-ups are never lost and coalesce safely",
  "After another thread calls a watcher, its handler runs at least once in the owning loop afterwards unless the watcher was cancelled or destroyed; any number of calls may coalesce, no handler runs without a call, and calling, cancelling and handling (a handler may destroy its own watcher) are free of data races, deadlocks and use after free in every interleaving, as long as nobody calls a watcher after its destruction began.",
  ["schedules", "histories"], "all interleavings of calls from other threads with loop iterations, cancel and destroy, within the pre-emption bound", NONET + "the lost-wake-up window is a few instructions wide.",
  ["network.hxx", "network_posix.hxx", "network.hpp"], [("Watcher fired list under mutex plus eventfd", "network.hxx")], [("fired_objects", "watchers called and not yet dispatched")])
p("C29", "UDP datagrams are sent and received whole, with the peer's address",
  "Each datagram is passed to the application with exactly its bytes, length and sender, and each send reports success only if the kernel took the whole datagram or reported an error for it (which is ignored); temporary refusal leads to a writable notification later, no datagram is left waiting unnoticed (not behind an error either), and errors never produce phantom datagrams.",
  ["inputs", "fault_sequences"], "all datagram sizes, results and errors of the kernel calls", NONET + "kernel refusal patterns are not sampled.",
  ["network_posix.hxx", "network.hpp"], [("UDPTransmitter / UDPReceiver", "network_posix.hxx")])
p("C30", "Addresses parse and print consistently",
  "Parsing address text either fails or gives an address that prints back to a text which parses to the same address (same bytes, family and port), including IPv4 and IPv6; bad text, including a bad port, is reported as failure without reading outside of the text; the port accessor and the classification (local, multicast) agree with the bytes of the address.",
  ["inputs"], "all address texts and ports within the bound, both families", "No test covers addresses.",
  ["network.hpp", "network_posix_win.hxx"], [("Address", "network_posix_win.hxx")])
p("C31", "Each name resolution delivers exactly one result to its own requester",
  "Every pending resolution gets exactly one callback in its own loop with the result for the name it asked, unless cancelled, after which none comes; concurrent resolvers, repeated requests from the callback, and destruction while the lookup runs never mix results, race or deadlock.",
  ["schedules", "histories"], "all interleavings of requesters, cancellations and the resolver thread within the pre-emption bound", NONET + "cancel-while-resolving is a race.",
  ["network.hxx", "network.hpp"], [("DNSWorker queue", "network.hxx")], [("executing_request", "request the worker currently serves")])
p("C32", "The HTTP client reports exactly one outcome per request",
  "For any server byte stream and any connection failure point a client request ends with exactly one response or exactly one error; the response has exactly the status and the body its length or chunks announce (none after HEAD, 204 or 304; interim responses are skipped), a connection is used for the next request only after a complete response that allows it and nothing the server sent before a request is taken for its response, and cancelling guarantees no callback. A request goes to the host, port and path of its URI, or is refused at once.",
  ["inputs", "histories", "fault_sequences"], "all response streams up to the bound, splits, failures at any point, cancel at any point", NONET + "failure points inside a response are never exercised.",
  ["http/client_request.hpp", "http/client_request.hxx", "http/connection.hxx"], [("ClientConnection", "http/connection.hxx"), ("ClientRequestSimple", "http/client_request.hxx")])
p("C33", "Socket readiness is never lost with edge-triggered notification",
  "As long as the kernel has data or space that the application has not been told about since its last short read or write, the application gets (another) readiness callback; a closed or failed connection is always reported, and short reads, writes and errors map to the documented results.",
  ["histories", "fault_sequences"], "all interleavings of readiness edges, partial reads and writes, errors and peer closes", NONET + "losing an edge needs a specific interleaving of partial read and event.",
  ["network_posix.hxx", "network.hpp"], [("TCPSocket read_some/write_some and epoll edge handling", "network_posix.hxx")], [("can_read / can_write", "readiness not yet consumed")])
p("C34", "The acceptor hands over every accepted connection exactly once",
  "Each connection the kernel hands out is given to exactly one socket with its peer address or closed; transient errors and descriptor exhaustion neither lose the listening socket nor spin nor leak descriptors, and accepting continues later.",
  ["fault_sequences", "histories"], "all result and error sequences of accept, all accept/ignore patterns of the application", NONET + "descriptor exhaustion is never provoked.",
  ["network_posix.hxx", "network.hpp", "http/server.hxx"], [("TCPAcceptor::can_accept", "network_posix.hxx")])
p("C35", "Descriptors are owned by exactly one object and closed exactly once",
  "On every path, including failures half way through opening, connecting, binding or accepting, every descriptor obtained is closed exactly once, never used after closing, and none is leaked when objects are closed, re-opened or destroyed.",
  ["fault_sequences", "histories"], "all failure points of system calls and all orders of close, reopen and destroy", NONET + "system-call failures are never injected.",
  ["network_posix.hxx"], [("FileDescriptor ownership", "network_posix.hxx")])
p("C36", "Idle work never starves events, and the loop runs callbacks until stopped",
  "The loop keeps delivering ready events and due timers while idle handlers are active, runs idle handlers round-robin only when nothing else is pending, and returns from running after it was asked to stop; a stop asked for before or during a run ends that run, and asking to stop from any callback takes effect in the same iteration.",
  ["histories", "schedules"], "all sets of idle handlers, events and cancel points", NONET + "fairness is a property of infinite histories.",
  ["network.hxx", "network_posix.hxx"], [("RunLoop::run / step", "network_posix.hxx"), ("idle list", "network.hxx")])
p("C37", "A loop thread starts, stops and joins without races or deadlocks",
  "Starting a loop thread returns only when its loop exists, cancelling it from another thread always stops it, and destroying it always joins, whatever the interleaving.",
  ["schedules"], "all interleavings of creation, cancellation and destruction within the pre-emption bound", NONET + "start-up races need exact interleavings.",
  ["network.hxx", "network.hpp"], [("Thread start handshake and cancel", "network.hxx")])
p("C38", "Random values stay in their documented range and sequence",
  "From every state of the generator double_value() is at least 0 and below 1, bytes, data and pod fill exactly the bytes asked with the successive words of the PCG32 sequence and touch nothing else, printable_string gives exactly the number of characters asked, all letters or digits and each equally likely, and generators made from the same seed give the same sequence.",
  ["inputs"], "all states of the generator, all seeds, all sizes up to the bound", "No test looks at the values; a rounding error at the end of the range shows for about one state in 2^53.",
  ["util.hpp", "util.hxx"], [("pcg32_random_r and its users", "util.hxx")], [("state, inc", "position and stream of the generator")])
p("C39", "Stand-ins for standard types and the small utilities behave as documented",
  "For C++11 and 14 crab::string_view gives the same parts, lengths and equality with strings as std::string does for substr, remove_prefix and remove_suffix, crab::optional holds exactly the value put last until reset and throws when asked for a value it does not hold; scope_exit runs its action exactly once on every way out; rol rotates by any amount without undefined behaviour; memzero clears exactly the bytes given.",
  ["inputs", "histories"], "all texts and values up to the bound, all sequences of operations up to the bound", "No test calls them directly, and the library itself uses only some of their operations.",
  ["util.hpp", "util.hxx"], [("string_view, optional, scope_exit, rol", "util.hpp"), ("memzero", "util.hxx")])

p("C40", "Sockets are set up exactly as the settings say, or not at all",
  "A TCPSocket, TCPAcceptor, UDPReceiver or UDPTransmitter is a socket of the family of its address, bound or connected to exactly that address and port. The sizes of its buffers are set exactly when asked for, to the sizes asked, before the socket is bound or connected; TCP_NODELAY is set unless tcp_delay is asked for; an acceptor shares its address or port exactly when asked; multicast sockets share both, and join the group or send through the adapter that is named by index or address. No other options are set. A size or an adapter that cannot be honoured is refused (an exception, or connect() returning false) and leaves no socket behind.",
  ["inputs"], "all IPv4 addresses, ports, buffer sizes and combinations of settings", "Tests use default settings on the loopback; an option set to a truncated value or after it could matter has no visible effect there.",
  ["network.hpp", "network_posix.hxx"], [("Settings", "network.hpp"), ("setsockopt calls, multicast", "network_posix.hxx")])
p("C41", "Signals that are asked for come to the run loop, and others are left alone",
  "While a Signal object exists, each of its signals (SIGINT and SIGTERM when none are named) is held back from its default effect and followed by a call of that object's handler in the loop of the thread, several that arrive together possibly by one call; the handler is never called more often than signals of its set were raised and never after the object is destroyed, also when signals arrive or objects are destroyed within handlers. No other signals are held back, and when the objects are gone the mask and the descriptors are as they were.",
  ["inputs", "histories"], "all sequences of signals up to the bound, with actions in handlers", "Tests raise no signals at all.",
  ["network.hpp", "network_posix.hxx"], [("class Signal", "network.hpp"), ("Signal::Signal, ~Signal", "network_posix.hxx")])

p("C42", "The statistics of the run loop say what was done",
  "The counters of RunLoop::stats give the number of receive and send calls made for TCP and UDP and exactly the bytes they moved, also when a call fails or moves less than asked; each such call leaves a record before it and one after it with its descriptor, its time and what it moved. Recording never allocates and keeps the first 100000 records until they are cleared; print_records writes each record with its time in seconds to the microsecond, its event and number, then the total, and clears them.",
  ["inputs", "histories"], "all sequences of operations and results up to the bound", "No test looks at statistics; errors and short transfers do not happen on the loopback.",
  ["network_base.hpp", "network.hxx", "network_posix.hxx"], [("PerformanceStats", "network_base.hpp"), ("push_record, print_records", "network.hxx"), ("stats.RECV_count and others", "network_posix.hxx")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
