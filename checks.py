"""What each property's check runs: harness entries, parameters and bounds (read by check.py)."""
CHECKS = {}


def C(prop, *runs, **kw):
    kw["runs"] = list(runs)
    CHECKS[prop] = kw


def R(unit, entry, bounds, **kw):
    return dict(unit=unit, entry=entry, bounds=bounds, **kw)


C("C01",
  R("codec.cpp", "h_b64_roundtrip", "every byte string of 0..12 bytes (thorough 0..33)", params=dict(n=13), thorough=dict(n=34)),
  R("codec.cpp", "h_b64_decode", "every character string of 0..10 characters (thorough 0..15)", params=dict(n=11), thorough=dict(n=16)))
C("C02",
  R("codec.cpp", "h_crc32_step", "every starting value and byte (one step; longer data follow by induction over the loop)"),
  R("codec.cpp", "h_crc32c_step", "every starting value and byte"),
  R("codec.cpp", "h_crc32_long", "lengths 0..24 (thorough 0..40), 8 alignments, every split, one arbitrary byte at every position", params=dict(n=24), thorough=dict(n=40)),
  R("codec.cpp", "h_crc32c_long", "the same for CRC-32C", params=dict(n=24), thorough=dict(n=40)))
C("C18",
  R("codec.cpp", "h_utf8", "every byte sequence of 0..12 bytes (thorough 0..20)", params=dict(n=13), thorough=dict(n=21)),
  R("codec.cpp", "h_utf8_window", "2 arbitrary bytes (thorough 4) between 5x5 fixed contexts", params=dict(w=2), thorough=dict(w=4)))
C("C19",
  R("codec.cpp", "h_hex_digit", "every character"),
  R("codec.cpp", "h_hex_roundtrip", "every byte string of 0..6 bytes (thorough 0..9)", params=dict(n=7), thorough=dict(n=10)),
  R("codec.cpp", "h_hex_decode", "every character string of 0..6 characters (thorough 0..12)", params=dict(n=7), thorough=dict(n=13)))
C("C04",
  R("ws.cpp", "h_wshdr_roundtrip", "every opcode, flag, masking key and 63-bit payload length; every split in two"),
  R("ws.cpp", "h_wshdr_parse", "every byte sequence of 0..14 bytes (the longest header), every split in two"))
C("C05",
  R("ws.cpp", "h_wsmask", "0..19 bytes (thorough 0..40), 8 alignments, positions 0..8, every key and content", params=dict(n=20), thorough=dict(n=41)),
  R("ws.cpp", "h_wsbody", "0..12 byte bodies (thorough 0..20), every split in three, masked or not, every key and content", params=dict(n=13), thorough=dict(n=21)),
  R("ws.cpp", "h_wsframe_ring", "frames of 0..5 bytes through a 12-byte circular buffer from every position"))
_ints = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"]
C("C06",
  *[R("num.cpp", "h_text_" + t, "every character string of 0..4 characters (thorough 0..6)", params=dict(n=4), thorough=dict(n=6)) for t in _ints],
  *[R("num.cpp", "h_digits_" + t, "optional sign and one digit fewer to one more than the longest value, background of nines, of 10..0 or of the limit itself, 3 (thorough 5) arbitrary digits at every position", thorough=dict(win=5)) for t in _ints],
  assumptions=["characters are classified as in the C locale"])
C("C07",
  R("num.cpp", "h_cast", "all 64 pairs of integer types, every value", params=dict(opaque_to_string=1), defs=["-fno-inline"]),
  R("num.cpp", "h_fcast", "float and double to all 8 integer types, every value including NaN and infinities", params=dict(opaque_to_string=1), defs=["-fno-inline"]),
  R("num.cpp", "h_arith", "all 8 integer types, every pair of operands", params=dict(opaque_to_string=1), defs=["-fno-inline"]),
  R("saver.cpp", "h_saver_small", defs=["-std=c++14"], bounds="every 8- and 16-bit value"),
  R("saver.cpp", "h_saver_wide", defs=["-std=c++14"], bounds="32- and 64-bit values within 100 below to 155 above (thorough: 65435) every power of ten and both limits, both signs", thorough=dict(wide=1)))
C("C03",
  R("hash.cpp", "h_bitfn", "every 32-bit triple"),
  R("hash.cpp", "h_md5_ref", defs=["-O0"], bounds="every content of every length 0..135 (thorough 0..200)", params=dict(n=135), thorough=dict(n=200)),
  R("hash.cpp", "h_sha1_ref", defs=["-O0"], bounds="every content of every length 0..135 (thorough 0..200)", params=dict(n=135), thorough=dict(n=200)),
  R("hash.cpp", "h_md5_split", "every content of every length 0..130, every cut in two (thorough: 0..80, every cut in three)", params=dict(n=130), thorough=dict(n=80, three=1)),
  R("hash.cpp", "h_sha1_split", "the same for SHA-1", params=dict(n=130), thorough=dict(n=80, three=1)),
  assumptions=["agreement with the standard is established by the reference and the code normalising to the same term; a rewrite of the compression function that does not normalise leaves that part undecided (reported as incomplete), except that any difference the solver can exhibit is reported"])
C("C38",
  R("rnd.cpp", "h_rnd_double", "every generator state"),
  R("rnd.cpp", "h_rnd_double_range", "every generator state"),
  R("rnd.cpp", "h_rnd_sequence", "every 64-bit seed, the first 3 outputs"),
  R("rnd.cpp", "h_rnd_bytes", "every generator state and seed, every size 0..9 (thorough 0..17) at 4 alignments", params=dict(n=10), thorough=dict(n=18)),
  R("rnd.cpp", "h_rnd_pod", "every generator state and seed"),
  R("rnd.cpp", "h_rnd_printable", "every generator state, 0..2 (thorough 3) characters, at most 1 (thorough 2) words left out", params=dict(n=3, again=1), thorough=dict(n=4, again=2)),
  R("rnd.cpp", "h_rnd_dist", "every generator state, one range"))
C("C39",
  R("rnd.cpp", "h_rol", "every value, shift 0..255 and bit of the four unsigned types"),
  R("rnd.cpp", "h_view", "every text of 0..4 (thorough 5) characters, every 2 (thorough 3) operations, every string of up to one more character compared", params=dict(n=5, ops=2), thorough=dict(n=6, ops=3)),
  R("rnd.cpp", "h_optional", "two objects, every 3 (thorough 4) operations with any 16-bit values", params=dict(ops=3), thorough=dict(ops=4)),
  R("rnd.cpp", "h_scope_exit", "three ways out of the scope"),
  R("rnd.cpp", "h_append", "vectors of 0..3 bytes of any value"),
  R("rnd.cpp", "h_memzero", "every part of every buffer of 0..6 bytes", params=dict(n=7)))
C("C08",
  R("cont.cpp", "h_buffer", "capacities 0..4, every reachable (read position, size) state, every 2 (thorough 3, capacities 0..3) operations from it, arbitrary content", params=dict(cap=5, ops=2), thorough=dict(cap=4, ops=3)))
C("C10",
  R("cont.cpp", "h_heap", "4 elements with arbitrary keys, 0..4 of them inserted, every 2 operations (thorough 4 elements, 3 operations), then drained", params=dict(total=4, ops=2), thorough=dict(total=4, ops=3)),
  R("cont.cpp", "h_heap_checked", "the self-checking variant, 3 elements, 1 operation", params=dict(total=3)),
  R("cont.cpp", "h_heap_erase", "every heap of 7 (thorough 8) elements with strictly increasing paths, removal of each, then drained", params=dict(total=7), thorough=dict(total=8)),
  R("cont.cpp", "h_heap_levels", "all heap-ordered arrangements of 13 (thorough 15) elements with 2 (thorough 3) distinct keys; removal of any one, insertion with any key, removal of all", params=dict(total=13, kinds=2), thorough=dict(total=14, kinds=3)))
C("C11",
  R("cont.cpp", "h_list", "3 elements, 2 lists, every 4 (thorough 5) operations", params=dict(total=3, ops=4), thorough=dict(total=3, ops=5)))
C("C09",
  R("stream.cpp", "h_transfer", "six kinds of source of 0..3 arbitrary bytes, every 2 (thorough 3) operations: partial and exact reads of 0..4 bytes, transfers with every limit into five kinds of sink with 0..4 bytes of room", params=dict(n=3, ops=2), thorough=dict(n=3, ops=3)),
  R("stream.cpp", "h_combined", "combined streams of two parts of 0..1 bytes, every 2 operations (thorough: combinations of combinations)", params=dict(n=1, ops=2, depth=1), thorough=dict(n=1, ops=2, depth=2)),
  R("stream.cpp", "h_exact_write", "sinks with room for 0..3 bytes, 0..5 bytes written"),
  R("stream.cpp", "h_moved", "vector and string streams of 0..3 (thorough 5) bytes, 0..all of them read, moved by construction or assignment, 0..2 bytes more written, then read, transferred or cleared", params=dict(n=3), thorough=dict(n=5)))
C("C16",
  R("uri.cpp", "h_url_encode", "every byte string of 0..4 bytes (thorough 0..6), both component kinds", params=dict(n=5), thorough=dict(n=7)),
  R("uri.cpp", "h_url_decode", "every character string of 0..7 characters (thorough 0..10)", params=dict(n=8), thorough=dict(n=11)))
C("C17",
  R("uri.cpp", "h_uri_any", "every character string of 0..7 characters (thorough 0..9)", params=dict(n=8), thorough=dict(n=10)),
  R("uri.cpp", "h_uri_authority", "0..4 arbitrary characters (thorough 0..6) in 5 contexts of the authority", params=dict(n=5), thorough=dict(n=7)),
  R("uri.cpp", "h_uri_path", "0..4 arbitrary characters (thorough 0..6) in 7 contexts of the path", params=dict(n=5), thorough=dict(n=7)),
  R("uri.cpp", "h_uri_target", "0..3 arbitrary characters (thorough 0..4) in 4 contexts", params=dict(n=4), thorough=dict(n=5)))
C("C20",
  R("uri.cpp", "h_query_any", "every character string of 0..6 characters (thorough 0..8)", params=dict(n=7), thorough=dict(n=9)),
  R("uri.cpp", "h_query_window", "0..5 arbitrary characters (thorough 0..7) in 5 contexts", params=dict(n=6), thorough=dict(n=8)),
  R("uri.cpp", "h_query_build", "one or two pairs of arbitrary keys of 1..2 (thorough 1..3) and values of 0..1 (thorough 0..2) bytes", params=dict(k=2), thorough=dict(k=3)),
  R("uri.cpp", "h_cookie_any", "every character string of 0..6 characters (thorough 0..8)", params=dict(n=7), thorough=dict(n=9)),
  R("uri.cpp", "h_cookie_window", "0..5 arbitrary characters (thorough 0..7) in 4 contexts", params=dict(n=6), thorough=dict(n=8)),
  R("uri.cpp", "h_request_params", "forms and several cookie lines, each with 0..2 (thorough 0..3) arbitrary characters", params=dict(n=3), thorough=dict(n=4)))
C("C12",
  R("head.cpp", "h_request_split", "5 request heads, 0..2 (thorough 0..3) characters at every position replaced by 0..2 (thorough 0..3) arbitrary ones; whole, byte by byte, and in two at every place around them", params=dict(w=2), thorough=dict(w=3)),
  R("head.cpp", "h_response_split", "the same for 5 response heads", params=dict(w=2), thorough=dict(w=3)),
  R("head.cpp", "h_head_buffer", "the 10 heads through a circular buffer of 1..6 (thorough 1..40) bytes from every position", params=dict(cap=6), thorough=dict(cap=40)))
C("C13",
  R("head.cpp", "h_request_head", "5 request heads, 0..3 (thorough 0..4) characters at every position replaced by 0..3 (thorough 0..4) arbitrary ones", params=dict(w=3), thorough=dict(w=4)),
  R("head.cpp", "h_response_head", "the same for 5 response heads", params=dict(w=3), thorough=dict(w=4)),
  R("head.cpp", "h_head_start", "5 (thorough 7) arbitrary characters at the start of a head", params=dict(n=5), thorough=dict(n=7)),
  R("head.cpp", "h_head_limit", "10 heads, every limit up to their length; endless lines of every character"))
C("C15",
  R("head.cpp", "h_request_roundtrip", "arbitrary texts of 0..4 (thorough 0..6) bytes in every part of a request, all framings", params=dict(v=4), thorough=dict(v=6)),
  R("head.cpp", "h_response_roundtrip", "the same for a response", params=dict(v=4), thorough=dict(v=6)),
  R("head.cpp", "h_simple", "the requests and responses made by the helper constructors and functions: 7 statuses, texts of 0..2 arbitrary bytes, paths and queries of 0..2 arbitrary bytes"))
C("C21",
  R("head.cpp", "h_field_case", "13 fields of requests and responses in every letter case, with optional white space"),
  R("head.cpp", "h_framing", "every 1 or 2 (thorough 3) of 29 framing fields, in order, both versions, requests and responses", thorough=dict(three=1)))
C("C14",
  R("body.cpp", "h_chunked", "5 chunked bodies, 0..2 (thorough 0..3) characters at every position replaced by 0..2 (thorough 0..3) arbitrary ones; whole, byte by byte and in two at every place around them", params=dict(w=2, fork_selects=1), thorough=dict(w=3)),
  R("body.cpp", "h_chunked_any", "every byte string of 0..6 (thorough 0..8) bytes as a chunked body", params=dict(n=6), thorough=dict(n=8)),
  R("body.cpp", "h_chunk_size", "sizes of 1, 2, 3 and 15..18 hex digits, the arbitrary 3 (thorough 5) at every position among f, 0 or 1 digits", params=dict(win=3), thorough=dict(win=5)),
  R("body.cpp", "h_chunk_limits", "chunk headers and trailers of every length around the limits 256 and 4096 and around smaller limits"),
  R("body.cpp", "h_length_body", "announced lengths 0..n+1, 100 and all 64-bit lengths from 4094 on, over n=8 (thorough 16) arbitrary bytes in three pieces split anywhere", params=dict(n=8), thorough=dict(n=16)),
  R("body.cpp", "h_body_buffer", "6 chunked bodies and bodies of known length through circular buffers of 1..6 (thorough 1..20) bytes from every position", params=dict(cap=6), thorough=dict(cap=20)))

C("C29",
  R("net.cpp", "h_udp", "transmitter and receiver, up to 3 (thorough 5) events: datagram of 0..3 arbitrary bytes, space for a datagram, errors reported by send and by receive; read buffers of 0..3 bytes or of the largest datagram, 3 datagrams to send", params=dict(steps=3), thorough=dict(steps=5)))
C("C33",
  R("net.cpp", "h_socket", "connecting socket, up to 3 (thorough 4) events between and 1 (thorough 2) within callbacks: connection made, 1-2 arbitrary bytes arriving, 1-2 bytes of send space, peer close, reset; all read and write sizes 1..3", params=dict(steps=3, mid=1), thorough=dict(steps=4, mid=2)),
  R("net.cpp", "h_socket", "up to 2 (thorough 3) such events, up to 2 waits for events ended by a signal", params=dict(steps=2, mid=0, interrupts=2), thorough=dict(steps=3, mid=1, interrupts=2)),
  R("net.cpp", "h_socket_vector", "gathering write of 0..3 buffers with 0..2 bytes at any position and of 18 buffers, for 0..6 bytes of space and an error"))
C("C34",
  R("net.cpp", "h_acceptor", "up to 4 (thorough 5) bursts of 1-2 connections, up to 2 (thorough 3) failing accept calls (ECONNABORTED, EINTR, EMFILE, ENETDOWN), application accepting at once or later", params=dict(steps=4, errs=2), thorough=dict(steps=5, errs=3)))
C("C22",
  R("bufsock.cpp", "h_buffered", "a socket being connected or connected, with send space 0, 1 or 2; 2 (thorough 3) operations among write, buffer (both from memory and string), write_some, write_shutdown of 0, 1, 2 bytes before and within callbacks; 2 (thorough 3) events among connection made, 1 or 1025 bytes of space, peer close, reset, data", params=dict(steps=2, ops=2, sizes=3), thorough=dict(steps=3, ops=3, sizes=2)),
  R("bufsock.cpp", "h_buffered", "the same with up to 2 operations of 1, 2, 0, 1023, 1024 (thorough 3000) bytes and 1 (thorough 2) events", params=dict(steps=1, ops=2, sizes=5), thorough=dict(steps=2, ops=2, sizes=6)),
  R("bufsock.cpp", "h_merging", "4 (thorough 5) writes or buffered writes (from memory or string) of 2 or 1024 (thorough 0, 2 or 1024) bytes of any value behind unsent data, then space for all, or for 2000 bytes, 5 more bytes and space for all", params=dict(ops=4, sizes=2, kinds=4), thorough=dict(ops=5, sizes=3, kinds=4)))
C("C23",
  R("timers.cpp", "h_timers", "2 timers (thorough also 3) set by duration or time point with any delays of -3 ns..68 s (24 free bits each), then 1 operation (set again, cancel, destroy) before and 1 within a callback, 2 sleeps of any length 0..68 s", params=dict(timers=2, ops=1, inner=1, sleeps=2), thorough=dict(timers=2, ops=2, inner=1, sleeps=3)),
  R("timers.cpp", "h_timers", "3 timers, no (thorough 1) further operation, 1 (thorough 2) sleeps", params=dict(timers=3, ops=0, inner=0, sleeps=1), thorough=dict(timers=3, ops=1, inner=0, sleeps=2)),
  R("timers.cpp", "h_timers", "2 timers, 3 sleeps of which up to 2 are ended by a signal", params=dict(timers=2, ops=0, inner=0, sleeps=3, interrupts=2)),
  R("timers.cpp", "h_timer_values", "one timer: 19 delays in floating point seconds from below 0 to infinity; durations of 0 ms..50 days with any number of nanoseconds, durations about every power of two, and at the end of the range; the sleep asked for is the time left rounded up to milliseconds, half an hour at most"),
  assumptions=["The steady clock is more than half an hour before its end (292 years)."])
C("C25",
  R("serve.cpp", "h_server", "every 2 of 8 requests (GET, POST with a body of 2 arbitrary bytes, Connection: close, HTTP/1.0 with and without keep-alive, chunked body, two malformed), arriving in one piece or in two cut anywhere; the application replies, postpones or throws", params=dict(requests=2, cuts=1, kinds=8, anywhere=1, behaviours=3), thorough=dict(requests=2, cuts=2, kinds=8, anywhere=1, behaviours=3)),
  R("serve.cpp", "h_server", "every 2 of 6 requests, one cut (thorough 2) at a request boundary or next to it; the application also streams, throws after replying, and asks for authorization before or after replying, or replies in chunks (at once or streamed), upgrades what is no upgrade, postpones and then throws", params=dict(requests=2, cuts=1, kinds=6, behaviours=10), thorough=dict(requests=2, cuts=2, kinds=8, behaviours=10)),
  R("serve.cpp", "h_server", "every 3 (thorough 4) of 4 requests, one cut", params=dict(requests=3, cuts=1, kinds=4, behaviours=3), thorough=dict(requests=4, cuts=1, kinds=5, behaviours=3)),
  R("serve.cpp", "h_server", "2 of 5 requests, send space 0 or 30 bytes at first, then 1 or 61 or enough", params=dict(requests=2, cuts=1, kinds=5, behaviours=8, slow=1), thorough=dict(requests=3, cuts=1, kinds=5, behaviours=8, slow=1)),
  R("serve.cpp", "h_server", "2 (thorough 3) of GET, HEAD, HTTP/1.0 with keep-alive and one malformed request, with all of these applications", params=dict(requests=2, cuts=1, kinds=4, behaviours=10, heads=1), thorough=dict(requests=3, cuts=1, kinds=4, behaviours=10, heads=1)),
  R("serve.cpp", "h_server", "2 of 3 (thorough 8) requests, the peer closing or resetting at any point", params=dict(requests=2, cuts=1, kinds=3, behaviours=10, peer_closes=1), thorough=dict(requests=3, cuts=2, kinds=5, behaviours=5, peer_closes=1)),
  R("serve.cpp", "h_server_full", "a request of 1 or 2 times 8192 bytes, one less or more, alone or with another behind, from a client that stays, closes or resets at once; reply, throw, postpone"),
  R("serve.cpp", "h_server_many", "3 peers, limit 1, 7 (thorough 9) events: connect, ask, leave, answer", params=dict(limit=1, events=7, behaviours=3), thorough=dict(limit=1, events=9, behaviours=3)),
  R("serve.cpp", "h_server_many", "3 peers, limit 2, 7 (thorough 9) events", params=dict(limit=2, events=7, behaviours=3), thorough=dict(limit=2, events=9, behaviours=3)))
_F = "2 of 12 frames (text of 1 arbitrary byte, binary of 3, continuation of 1, ping of 2, close with an arbitrary code and a reason, unfinished text, unfinished continuation, unfinished empty binary, empty close, pong, unknown opcode, fragmented ping), every mask key"
C("C26",
  R("wsess.cpp", "h_ws_server", _F + ", one cut (thorough 2) at a frame boundary or next to it or anywhere else; the application echoes, throws, closes, streams or ignores a close", params=dict(frames=2, kinds=12, uses=5, cuts=1), thorough=dict(frames=3, kinds=12, uses=5, cuts=1)),
  R("wsess.cpp", "h_ws_server", "3 (thorough 4) of 8 of the frames in one piece", params=dict(frames=3, kinds=8, uses=4, cuts=0), thorough=dict(frames=4, kinds=8, uses=4, cuts=0)),
  R("wsess.cpp", "h_ws_server", "3 (thorough 5) of 6 frames (two fragments of a text and its last one, ping, pong, whole binary message) in one piece or cut once", params=dict(frames=3, kinds=6, uses=1, cuts=1, mixed=1), thorough=dict(frames=5, kinds=6, uses=1, cuts=0, mixed=1)),
  R("wsess.cpp", "h_ws_client", "3 (thorough 5) of the same 6 frames to a client", params=dict(frames=3, kinds=6, uses=1, cuts=1, answers=1, mixed=1), thorough=dict(frames=5, kinds=6, uses=1, cuts=0, answers=1, mixed=1)),
  R("wsess.cpp", "h_ws_server", "2 (thorough 3) of 5 of the frames, little send space", params=dict(frames=2, kinds=5, uses=5, cuts=0, slow=1), thorough=dict(frames=3, kinds=8, uses=5, cuts=0, slow=1)),
  R("wsess.cpp", "h_ws_client", "2 of the 12 frames to a client, one cut, right or wrong handshake; the application echoes, ignores a close, closes with a frame or at once", params=dict(frames=2, kinds=12, uses=4, cuts=1, answers=2), thorough=dict(frames=3, kinds=12, uses=4, cuts=1, answers=1)),
  R("wsess.cpp", "h_ws_client", "5 answers to the handshake (right, wrong key, not 101, with a body, no key)", params=dict(frames=1, kinds=3, uses=4, cuts=1, answers=5), thorough=dict(frames=1, kinds=12, uses=4, cuts=2, answers=5)),
  R("wsess.cpp", "h_ws_client", "two sessions of a frame each one after another over one client connection", params=dict(sessions=2, frames=1, kinds=8, uses=4, cuts=0, answers=2), thorough=dict(sessions=2, frames=2, kinds=8, uses=4, cuts=0, answers=1)),
  R("wsess.cpp", "h_ws_sizes", "a message of 12 sizes from 0 to 65536, sent in up to 3 pieces and echoed, server and client, little and much send space", params=dict(cuts=2)),
  R("wsess.cpp", "h_ws_control", "close frames with any code and a reason of 0 to 130 bytes with a character of 1 to 4 bytes anywhere around the limit, pings and pongs of 6 sizes up to 300, sent by server and client; a peer closing with any code and any reason of up to 4 bytes; a server session in which nothing happens for two keep-alive times"),
  assumptions=["Frames that arrive after a close frame are not constrained.", "Random numbers are those of one seed."])
_SP = "a response of known length, chunked, or a web socket message"
C("C27",
  R("streambody.cpp", "h_stream_push", _SP + ", pushed in 2 (thorough 3) pieces of 0, 1, 3 arbitrary bytes (thorough also 130), each from memory or as a string, sent or buffered, at once or from a timer; announced length right, one more, or one less; send space plenty, 0 or 100, then 1, 7, 150 bytes at a time; another request behind, connection kept or closed", params=dict(ops=2, sizes=3, spaces=3), thorough=dict(ops=3, sizes=4, spaces=3)),
  R("streambody.cpp", "h_stream_pull", _SP + " of 0, 1, 5, 200 or 70000 bytes, pulled on demand in pieces of 1, 2, 100, 65536; send space as above and 160", params=dict(spaces=4)),
  R("streambody.cpp", "h_stream_push", _SP + ", 1 (thorough 2) pieces, the peer closing or resetting at any point", params=dict(ops=1, sizes=4, spaces=3, peer_closes=1), thorough=dict(ops=2, sizes=4, spaces=3, peer_closes=1)),
  R("streambody.cpp", "h_stream_pull", _SP + ", pulled, the peer closing or resetting at any point", params=dict(spaces=3, peer_closes=1), thorough=dict(spaces=4, peer_closes=1)))
C("C40",
  R("setup.cpp", "h_setup", "TCP socket, acceptor, UDP receiver and transmitter, every IPv4 address (one IPv6 address) and port, every combination of settings, every buffer size that fits an int and four that do not, five adapters"))
C("C41",
  R("setup.cpp", "h_signals", "two objects with 4 partitions of three signals, up to 6 (thorough 7) signals in any order, also from within callbacks, which may also destroy either object or stop the loop", params=dict(steps=6), thorough=dict(steps=7)),
  assumptions=["The sets of signals of different objects do not overlap (the library restores the mask of each on its own)."])
C("C42",
  R("stats.cpp", "h_stats", "2 (thorough 3) reads and writes of 0 to 3 bytes, in one piece or two, and datagrams, with every amount or error the kernel gives", params=dict(steps=2), thorough=dict(steps=3)),
  R("stats.cpp", "h_stats_print", "1 or 2 records, every multiple up to 255 of 4 fractions of a second within 3 different seconds, every 8 bit count"),
  R("stats.cpp", "h_stats_limit", "one less to one more than the limit of records"))
_RE = "(fixed length, chunked, empty, 404 or 1.0 with the server closing, with a forged response behind, 204, 304 and HEAD with a length, HEAD chunked, interim responses before, length of any one byte, 4 malformed)"
C("C32",
  R("client.cpp", "h_client", "2 requests (thorough 3 over 7 kinds) answered in each of 17 ways " + _RE + ", one response cut anywhere; the next request from the handler, later, after the idle time, or the client destroyed in its handler", params=dict(requests=2, kinds=17, cuts=1, behaviours=2), thorough=dict(requests=2, kinds=17, cuts=1, behaviours=4)),
  R("client.cpp", "h_client", "2 (thorough 3) requests of 6 kinds, the server closing or resetting at any byte of a response", params=dict(requests=2, kinds=6, cuts=1, behaviours=4, peer_closes=1), thorough=dict(requests=3, kinds=5, cuts=1, behaviours=4, peer_closes=1)),
  R("client.cpp", "h_client", "2 requests of 5 kinds, with or without a body, to the same or another host or port; the first connection refused, name not found (error or no address), one failing system call", params=dict(requests=2, kinds=5, cuts=0, hosts=1, posts=1, rejects=4, behaviours=4), thorough=dict(requests=3, kinds=4, cuts=0, hosts=1, posts=1, rejects=4, behaviours=4)),
  R("client.cpp", "h_client", "2 requests of 4 kinds, cancelled, destroyed, or cancelled and sent anew at any of 8 moments together with what the kernel reports then, in either order", params=dict(requests=2, kinds=4, cuts=0, cancels=1, behaviours=2, rejects=3), thorough=dict(requests=2, kinds=5, cuts=1, cancels=1, behaviours=2, rejects=1)),
  R("client.cpp", "h_client", "2 requests of 3 kinds, one with a body, send space 0 or 30 bytes at first, then 1 or 60 or enough, one response cut anywhere", params=dict(requests=2, kinds=3, cuts=1, posts=1, slow=1, behaviours=1), thorough=dict(requests=2, kinds=7, cuts=1, posts=1, slow=1, behaviours=3)),
  R("client.cpp", "h_client_targets", "2 (thorough 3) requests one after another to 11 targets each (with and without port, path, query, user; unknown scheme, https without TLS, no scheme, port too large or no number)", params=dict(rounds=2), thorough=dict(rounds=3)),
  assumptions=["Names are looked up by one worker that runs between loop iterations (its races are C31).", "Responses have a length or chunks or no body (a body that lasts until the connection closes is not supported by the library)."])
_OB = "(timer, watcher, idle, socket with data, socket whose peer ends, acceptor, UDP receiver and transmitter, signal, resolver, buffered socket, HTTP client connection)"
C("C24",
  R("cancel.cpp", "h_cancel", "every 2 of 12 objects " + _OB + " with an event each in one batch, in either order, once or twice; the first 3 (thorough 4) callbacks each do nothing, or destroy, cancel, cancel and re-arm, arm again without cancelling, or close with a last event, either of the objects, or do several of these", params=dict(objects=2, actions=3), thorough=dict(objects=2, actions=4)),
  R("cancel.cpp", "h_cancel", "every 3 of the 12 objects, 1 (thorough 2) such callback", params=dict(objects=3, actions=1), thorough=dict(objects=3, actions=2)),
  R("cancel.cpp", "h_cancel", "every 3 of timer, watcher, sockets, resolver, 2 (thorough 3) such callbacks", params=dict(objects=3, actions=2, loop=1), thorough=dict(objects=3, actions=3, loop=1)),
  R("cancel.cpp", "h_cancel", "every 2 of 12 objects, 2 (thorough 3) such callbacks, which also may give an object another handler", params=dict(objects=2, actions=2, replace=1), thorough=dict(objects=2, actions=3, replace=1)))
C("C36",
  R("loop.cpp", "h_loop", "2 idle handlers, active or not, an acceptor, a timer, a watcher; 3 (thorough 6) rounds, in each a connection arrives, a millisecond or the whole sleep passes, or nothing; the first 2 callbacks stop the loop, activate, deactivate or destroy an idle handler, set the timer, call the watcher", params=dict(idles=2, actions=2, waits=3), thorough=dict(idles=2, actions=2, waits=6)),
  R("loop.cpp", "h_loop", "3 (thorough 4) idle handlers, 4 (thorough 6) rounds, 1 such callback", params=dict(idles=3, actions=1, waits=4), thorough=dict(idles=4, actions=1, waits=6)),
  R("loop.cpp", "h_loop", "2 idle handlers, 3 (thorough 5) rounds of which up to 2 are ended by a signal, 1 such callback", params=dict(idles=2, actions=1, waits=3, interrupts=2), thorough=dict(idles=2, actions=1, waits=5, interrupts=3)),
  assumptions=["The first run of a loop (the documentation and the code differ on what a second run after cancel does)."])
C("C35",
  R("fds.cpp", "h_descriptors", "programs of 3 (thorough 4) operations out of 16: connect with and without options, close, close with event, a new socket, new acceptor, its destruction, connections arriving, accepting into either socket, peers closing or resetting, new UDP receiver and transmitter (multicast or not, adapter right or wrong), new signal, a second loop, destruction; at most one system call fails, at any point", params=dict(faults=1, ops=3, kinds=16), thorough=dict(faults=1, ops=4, kinds=16)),
  R("fds.cpp", "h_descriptors", "5 (thorough 6) of the first 11 operations (sockets and acceptor), no failing call", params=dict(faults=0, ops=5, kinds=11), thorough=dict(faults=0, ops=6, kinds=11)),
  R("fds.cpp", "h_descriptors", "2 (thorough 3) of the 16 operations, any of the first 5 descriptors being number 0", params=dict(faults=0, ops=2, kinds=16, zero=1), thorough=dict(faults=1, ops=3, kinds=16, zero=1)))
C("C28",
  R("watch.cpp", "h_watcher_calls", "two watchers of one loop, 2 other threads with 2 calls each (thorough 3 with 1, and 2 with 3) to either, one wait of the loop ending by itself; every interleaving with up to 3 preemptions", params=dict(threads=2, per=2), thorough=dict(threads=2, per=3), preempt=3, race=True, no_replay=True),
  R("watch.cpp", "h_watcher_calls", "3 other threads with one call each, up to 3 preemptions", params=dict(threads=3, per=1), preempt=3, race=True, no_replay=True, thorough_only=True),
  R("watch.cpp", "h_watcher_cancel", "cancelled before the loop runs, in a first or second idle round, or never; 3 (thorough 4) calls by the other thread; up to 3 (thorough 4) preemptions", params=dict(calls=3), thorough=dict(calls=4), preempt=3, preempt_thorough=4, race=True, no_replay=True),
  R("watch.cpp", "h_watcher_destroy", "destroyed in its own handler while another thread wakes the loop as well, by another handler, or by an idle handler after the call; up to 3 (thorough 5) preemptions", preempt=3, preempt_thorough=5, race=True, no_replay=True),
  assumptions=["Threads switch at synchronising operations (mutexes, condition variables, atomics, the loop's counter and wait); other accesses are checked for data races, under which this loses nothing.", "A watcher is not called any more once it is destroyed; no other files than the loop's counter are registered."])
C("C37",
  R("watch.cpp", "h_thread", "a thread with a loop that runs until cancelled, calls its watcher first, ends by itself, or is destroyed at once; cancelled first or not, and by a second thread or not; every interleaving with up to 3 (thorough 4) preemptions", preempt=3, preempt_thorough=4, race=True, no_replay=True),
  R("watch.cpp", "h_thread", "the same with two such threads, up to 1 (thorough 2) preemptions", params=dict(loops=2), preempt=1, preempt_thorough=2, race=True, no_replay=True),
  assumptions=["Threads switch at synchronising operations; other accesses are checked for data races, under which this loses nothing.", "std::thread and std::condition_variable behave as their models (a condition variable may also wake up by itself)."])
C("C31",
  R("resolve.cpp", "h_resolve", "two resolvers of one loop, programs of 3 (thorough 4) operations: request a name (which has none, one or two addresses), cancel, destroy, run the loop until an answer, also from the callback; then the program's end; every interleaving with the worker with up to 2 preemptions", params=dict(ops=3), thorough=dict(ops=4), preempt=2, race=True, no_replay=True),
  R("resolve.cpp", "h_resolve", "2 operations with IPv4, IPv6, both or no family, up to 2 preemptions", params=dict(ops=2, families=4), preempt=2, race=True, no_replay=True),
  R("resolve.cpp", "h_resolve_loops", "two loops in two threads, each with a request (thorough: and one from its callback), up to 2 preemptions", params=dict(rounds=1), thorough=dict(rounds=2), preempt=2, race=True, no_replay=True),
  R("resolve.cpp", "h_resolve_sync", "a name with none, one or two addresses of one or both families looked up at once, each family, every address"),
  assumptions=["Threads switch at synchronising operations; other accesses are checked for data races, under which this loses nothing.", "getaddrinfo answers with some addresses of the family asked for."])
C("C30",
  R("addr.cpp", "h_address_text", "every text of up to 5 (thorough 7) bytes, alone or after 10.2.3. or 2001:db8::, every port", params=dict(n=5), thorough=dict(n=7)),
  R("addr.cpp", "h_address_quad", "four decimal numbers, one of 1..4 digits"),
  R("addr.cpp", "h_address_port", "an IPv4 and an IPv6 address with every port text of up to 5 (thorough 6) bytes", params=dict(n=5), thorough=dict(n=6)),
  R("addr.cpp", "h_address_sorts", "every IPv4 address; IPv6 addresses with the first group, one more group and the last byte arbitrary, every port"),
  assumptions=["inet_pton and inet_ntop behave as the model written after glibc; counterexamples and sampled paths are replayed against glibc."])
