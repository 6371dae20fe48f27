"""The properties. gen.py writes properties.jsonl and MANIFEST.json from them."""

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {"files": ["src/" + f for f in files],
                    "mechanism": [{"name": n, "where": "src/" + w} for n, w in mech],
                    **({"observe_at": observe} if observe else {}),
                    "hook_needed": None}})


prop("C01", "Decoding bencode is total: any bytes give a value or an error",
     "For every byte string, decoding it as bencode terminates with either a value or an error, in time and memory proportional to its length. "
     "It never panics, overflows the stack or hangs. It leaves its input unchanged and gives the same answer each time.",
     ["inputs"], "All byte strings: random, valid, mutated, deeply nested, with huge or overlong lengths and digit runs.",
     "The tests decode a few dozen short literals; torrent files and tracker answers come from strangers.",
     ["bencode/decode.go"], [("recursive descent with a depth bound", "bencode/decode.go"), ("length parsing", "bencode/decode.go")])

prop("C02", "Bencode encoding and decoding are inverse, canonical and strict",
     "Decoding the encoding of a value (integers over the whole 64-bit range, strings of any bytes, nested lists and dictionaries) gives that value back, and the encoding is the canonical one with dictionary keys in byte order. "
     "Malformed bencode (truncated, integers with leading zeros or negative zero, bad lengths, non-string keys, trailing garbage inside containers) is reported as an error, never decoded to something else. "
     "The typed dictionary accessors return the stored value if it has the right type and range, and report otherwise.",
     ["inputs"], "All values of the bencode data model, all prefixes and edits of their encodings.",
     "Tests encode and decode fixed examples; extremes (smallest integer, keys that share prefixes, every truncation) need generated values and an independent codec.",
     ["bencode/encode.go", "bencode/decode.go", "bencode/dict.go"], [("Encode", "bencode/encode.go"), ("Decode", "bencode/decode.go"), ("typed getters", "bencode")])

prop("C03", "The infohash is the SHA-1 of the torrent's info dictionary as it is in the file",
     "For every well-formed torrent file the infohash that the client uses is the SHA-1 of the exact bytes of the info dictionary in that file, whatever further keys it has. "
     "For torrents made by the client itself it is the SHA-1 of the info dictionary as it is encoded.",
     ["inputs"], "All well-formed torrent files, with any further keys inside and outside of the info dictionary.",
     "The tests check the infohash of a handful of torrent files, all with the same few keys.",
     ["torrent/torrent.go", "torrent/info/info.go", "bencode/decode.go"], [("infohash over raw bytes", "torrent/torrent.go")])

prop("C04", "Well-formed torrents are read faithfully",
     "For every well-formed torrent file, the announce URL, name, piece length, number of pieces, every piece hash, total length, length of the last piece, and each file's length and path, in order, are those in the file. "
     "Every file's local path is the working directory joined with the torrent's path.",
     ["inputs", "configurations"], "All well-formed single-file and multi-file torrents, and working directories.",
     "Tests open a few fixed torrents; the edges (empty files, huge lengths, many pieces, odd names) need generated ones.",
     ["torrent/torrent.go", "torrent/info/info.go", "torrent/filesd/entry.go"], [("FromTorrentFile", "torrent/torrent.go"), ("FromDict", "torrent/info")])

prop("C05", "Malformed torrents are refused, or yield consistent metadata",
     "For every file given as a torrent, opening it either reports an error or gives metadata that agree with themselves: non-negative file lengths that add up to the total, a positive piece length, exactly as many 20-byte hashes as pieces, and non-empty paths, no two the same. "
     "Torrents that lack a required field, have one of the wrong type, name a file twice, or whose lengths and hashes do not agree are refused. Nothing panics or hangs.",
     ["inputs"], "All byte strings as torrent files, and all single and combined defects of well-formed ones.",
     "Tests hardly have malformed torrents; there are too many ways to be malformed to list.",
     ["torrent/torrent.go", "torrent/info/info.go", "torrent/filesd/entry.go"], [("validation of the info dictionary", "torrent/info"), ("error returns", "torrent/torrent.go")])

prop("C06", "A torrent never names or creates files outside of the working directory",
     "For every torrent that is accepted, each file's local path lies strictly inside the working directory, however its name and path elements are written; otherwise the torrent is refused. "
     "Preparing its files creates or changes nothing outside of the working directory.",
     ["inputs", "configurations"], "All names and path elements ('..', '.', empty, absolute, with separators or NUL), and forms of the working directory.",
     "No test has a hostile path; whether a path escapes depends on combinations of elements.",
     ["torrent/filesd/entry.go", "torrent/info/info.go", "torrent/torrent.go"], [("containment check on local paths", "torrent/filesd")])

prop("C07", "Pieces and files cover each other exactly",
     "For every list of file lengths and piece length, the segments of each piece lie in its files at offsets and lengths that follow the concatenation of all files, without gap or overlap, and the files of each piece and the pieces of each file are those that share bytes. "
     "Every piece has the piece length, except the last which has the rest.",
     ["inputs"], "All lists of file lengths (including empty files) and all piece lengths, up to sizes beyond 2^32.",
     "Tests have a few layouts by hand; off-by-one errors hide at empty files, exact multiples and sizes beyond 32 bits.",
     ["torrent/info/info.go", "torrent/info/piecemap.go", "torrent/info/piecelocation.go"], [("piece to file mapping", "torrent/info")])

prop("C08", "Creating torrent metadata hashes exactly the given files",
     "Metadata created from files on disk have one SHA-1 per piece over the concatenation of the files in the order given, for any piece length of up to 2^31-1 (others are refused), and the right names, lengths and paths, and can be encoded, read back and used. "
     "Files that cannot be read are reported as an error.",
     ["inputs", "fault_sequences"], "All sets of files and piece lengths, including empty files, pieces over several files and pieces larger than the read buffer; missing or unreadable files.",
     "Tests create metadata from a few small files with small pieces.",
     ["torrent/info/info.go", "torrent/filesd/entry.go", "utils/utils.go"], [("hashing through a fixed buffer", "torrent/info")])

prop("C09", "Preparing files makes them the right size and never destroys data",
     "After files are prepared successfully, each file of the torrent exists with exactly its length; bytes that were already there (within that length) are unchanged and new bytes are zero; other files are untouched, and preparing again changes nothing. "
     "If preparation fails or is killed at any point, no byte that belongs to the torrent's files is lost, and preparing again completes.",
     ["inputs", "fault_sequences", "crash_points"], "All initial states of the working directory, write failures, missing permissions, exhausted descriptors, and kills at any time.",
     "Tests prepare files in a few clean states and never inject a fault or a crash.",
     ["torrent/fileio/fileio.go", "utils/futils.go"], [("open, create and truncate (OCAT)", "utils/futils.go")])

prop("C10", "Only verified pieces are written, exactly in place, and reads are exact",
     "Writing a piece succeeds only if its data match the piece's hash, and then changes exactly the bytes of that piece in the files; any other data or piece index is refused and changes nothing. "
     "Reading a piece returns exactly its bytes in the files and their number. An I/O fault during either is reported as an error.",
     ["inputs", "histories", "fault_sequences"], "All layouts, histories of reads and writes of right and wrong data, buffers at least as long as a piece, and failing files.",
     "Tests write and read a few pieces of a few layouts, without faults, and compare little around them.",
     ["torrent/fileio/fileio.go", "torrent/info/info.go"], [("hash check before write", "torrent/fileio"), ("segment by segment I/O", "torrent/fileio")])

prop("C11", "Pieces can be read and written at the same time without corruption",
     "While many threads read, write and move files at the same time, each part of a piece read from a file is entirely from before or entirely from after a write, a read that starts after a write was acknowledged sees it, and in the end the files have exactly what was acknowledged. "
     "There is no data race and no deadlock.",
     ["schedules", "histories"], "All interleavings of concurrent piece reads, piece writes and file moves.",
     "The tests are sequential.",
     ["torrent/fileio/fileio.go"], [("lock per file and table lock", "torrent/fileio")])

prop("C12", "After start-up the client owns exactly the pieces that are right on disk",
     "When a client has started, it owns a piece if and only if the bytes of that piece on disk match its hash, and its counts, completeness and bytes left agree. "
     "Pieces written and acknowledged before the process was killed are owned again by the next start, and start-up does not change data.",
     ["inputs", "histories", "crash_points"], "All states of the files (missing, short, long, corrupt anywhere, swapped, shifted, complete), and kills at any time while pieces are written.",
     "Tests validate a few prepared directories and never restart after a kill.",
     ["swarm/swarm.go", "torrent/fileio/fileio.go", "bf/bitfield.go"], [("validation of all pieces", "swarm/swarm.go"), ("bitfield", "bf/bitfield.go")])

prop("C13", "Bitfields behave like arrays of booleans",
     "After any history of operations, a bitfield reads back every bit as last set, reports the number of set bits, the completeness and the sizes accordingly, and has every spare bit past the end zero in the bytes it gives to peers. "
     "Stray bits in bytes from a peer are not counted. A number of bits that does not fit the bytes is refused.",
     ["inputs", "histories"], "All sizes, histories of set, clear, fill and resize, and bytes from peers.",
     "Tests check a few sizes and short histories.",
     ["bf/bitfield.go"], [("set count kept incrementally", "bf/bitfield.go")])

prop("C14", "Decoding peer messages is total and never reads past the data",
     "For every byte sequence from a peer, decoding terminates without panic, reports no more bytes read than it was given, uses memory in proportion to the input, and leaves the input unchanged. "
     "Each message it yields is what the bytes at its place say by the protocol; a message that is cut or has an impossible length is not made up.",
     ["inputs"], "All byte sequences, including huge and wrapping lengths, truncation everywhere, and unknown types.",
     "Tests decode well-formed messages and a few truncated ones.",
     ["p2p/message.go", "p2p/bitfield.go", "p2p/have.go", "p2p/piece.go", "p2p/request.go", "p2p/no_payload.go"], [("length checks before decoding", "p2p/message.go")])

prop("C15", "Peer messages are encoded by the protocol, round-trip and do not alias",
     "Each message encodes to the layout of the BitTorrent protocol, and decoding it (alone or in a row with others) gives the same message. "
     "What was encoded or decoded does not change when buffers given to or returned by the code are reused, and encoding may happen from many threads without data race.",
     ["inputs", "schedules"], "All messages with all field values, all sequences of them, buffer reuse, and concurrent encoding.",
     "Tests round-trip a few messages of some types and none with buffer reuse.",
     ["p2p/message.go", "p2p/bitfield.go", "p2p/have.go", "p2p/piece.go", "p2p/request.go", "p2p/no_payload.go", "p2p/keepalive.go"], [("Encode and Decode per type", "p2p")])

prop("C16", "How the network cuts the stream does not matter",
     "The client's reaction to a sequence of messages from a peer is the same however the bytes are split into packets, with keepalives, unknown and long messages skipped.",
     ["inputs", "schedules"], "All message sequences, all segmentations and all pauses shorter than the idle timeout.",
     "No test runs a connection; TCP may cut anywhere.",
     ["swarm/msghandler.go", "io/readloop.go", "p2p/message.go"], [("reassembly of incomplete messages", "swarm/msghandler.go")])

prop("C17", "Only peers with the right handshake get in, and they get the right answer",
     "A peer, incoming or outgoing, is let in if and only if it sends a complete handshake with the right protocol string and infohash within the handshake timeout, in any number of packets. "
     "It then receives the client's own handshake (protocol, zero reserved bytes, infohash, client ID) and, if it connected to the client, the exact bitfield of the pieces owned. Any other connection is closed and gets no data but at most the handshake.",
     ["inputs", "schedules"], "All byte sequences instead of a handshake, all ways to cut and delay it, both directions.",
     "The tests do not open connections.",
     ["swarm/handshake.go", "swarm/peerhandler.go", "swarm/swarm.go"], [("ValidHandshake", "swarm/handshake.go"), ("FromIncoming and FromBootstrap", "swarm/peerhandler.go")])

prop("C18", "Peers get exactly the bytes they ask for, of pieces that are there",
     "Every valid request for a block of a piece that the client owns is answered, in order, with a piece message with exactly those bytes of the torrent's content. "
     "A request for a piece that the client lacks, or for bytes that do not exist, is never answered with data, and one peer's invalid requests do not affect the others.",
     ["inputs", "schedules", "fault_sequences"], "All requests (any piece, begin and length up to 2^32-1), sequences of them, several peers at the same time, and files that become unreadable.",
     "No test serves a request.",
     ["swarm/msghandler.go", "torrent/fileio/fileio.go", "p2p/piece.go"], [("bounds checks on requests", "swarm/msghandler.go")])

prop("C19", "Pieces are picked rarest first, once, among those needed and available",
     "A piece handed to a peer for download is one that the client lacks, that this peer has, and that no other peer is downloading, and no other such piece is held by fewer peers (63 or more count as equal); nothing is handed out only if there is no such piece. "
     "When a peer leaves, its claims and announcements are forgotten.",
     ["histories"], "All histories of announcements, claims, completions and departures for any number of peers and pieces.",
     "Tests have a few fixed histories with up to four peers and three pieces.",
     ["swarm/piecetracker.go", "utils/ds/linklist.go", "utils/ds/set.go"], [("availability buckets", "swarm/piecetracker.go"), ("active flag", "swarm/piecetracker.go")])

prop("C20", "Concurrent peers never claim the same piece",
     "When peers announce, claim and leave at the same time, the results are those of some sequential order of the operations consistent with real time; in particular a piece is never claimed by two peers at once. There is no data race and no deadlock.",
     ["schedules", "histories"], "All interleavings of the operations of several peers.",
     "The tests are sequential.",
     ["swarm/piecetracker.go"], [("one lock around every operation", "swarm/piecetracker.go")])

prop("C21", "Download requests tile the wanted pieces in blocks of at most 16 KiB",
     "The client requests a peer's pieces only if it lacks them and the peer has announced them, and for each such piece sends requests that cover it exactly once without gap, overlap or excess, in blocks of at most 16 KiB. "
     "No more than five pieces are requested from a peer, no piece is requested from two connected peers at the same time, and if the peer has wanted pieces that are free, they are requested promptly, until five are.",
     ["inputs", "schedules", "histories"], "All torrents (piece lengths, last pieces), sets of owned pieces, and numbers of peers with any announcements that come and go.",
     "No test runs the request loop.",
     ["swarm/peerhandler.go", "swarm/piecetracker.go", "p2p/request.go"], [("requestLoop and createReqMessages", "swarm/peerhandler.go")])

prop("C22", "A peer that goes away leaves nothing behind",
     "However a connection to a peer ends (closed or reset by the peer, cut in a message, protocol violation, idle timeout, failing file or write), and whatever upload limit is in force, the client closes it, stops all activity for it, forgets what the peer announced, and makes the pieces it was to send available to others. "
     "The other peers and the client itself go on.",
     ["histories", "fault_sequences", "schedules"], "All points at which a connection may end, in any state, for any reason, among any number of peers.",
     "No test runs a connection; leaks show only after connections have ended in unusual ways.",
     ["swarm/peerhandler.go", "io/readloop.go", "swarm/piecetracker.go"], [("Loop", "swarm/peerhandler.go"), ("ReadLoop.Finish", "io/readloop.go"), ("Unregister", "swarm/piecetracker.go")])

prop("C23", "Keepalives and idle timeouts are on time",
     "On a connection on which nothing else is sent the client sends a keepalive every 60 seconds, for as long as the peer is connected. "
     "A peer from which no byte arrives for 120 seconds is disconnected then, and one that sends anything at all at shorter intervals is not.",
     ["histories", "schedules"], "All schedules of bytes from the peer, over hours.",
     "Nobody waits for minutes in a unit test.",
     ["swarm/peerhandler.go", "io/readloop.go"], [("pingLoop", "swarm/peerhandler.go"), ("read deadline", "io/readloop.go")])

prop("C24", "Read loops hand over every byte once, in order",
     "A read loop delivers exactly the bytes that arrive on its connection, in order and without loss or duplication, never overwrites a chunk before its consumer is done with it, and then reports the error that ended the stream, or a timeout if nothing arrives in time. "
     "When finished, at any time and any number of times, it stops promptly and leaves nothing running.",
     ["inputs", "schedules", "fault_sequences"], "All streams, segmentations, buffer sizes, consumer delays, errors and times of being finished.",
     "No test covers the read loop.",
     ["io/readloop.go"], [("hand-over by channels", "io/readloop.go")])

prop("C25", "Rate limits are kept, and do not stop or corrupt traffic",
     "The bytes that pass a rate limiter in each direction within any period stay within its rate, up to the last chunk admitted per second, whatever the number of threads; every byte written or read passes unchanged, errors are reported, and nothing waits longer than the rate demands. "
     "Without a limit nothing is delayed, upload and download are limited separately, and a limit may be changed at any time without stopping anybody for good.",
     ["inputs", "schedules", "configurations"], "All rates, chunk sizes, numbers of threads, bursts and pauses, and changes of the rate.",
     "No test covers rate limiting.",
     ["io/ratelimit.go"], [("window counters", "io/ratelimit.go")])

prop("C26", "Announces tell the tracker the truth, correctly escaped",
     "The announce request goes to the torrent's announce URL and has exactly one each of infohash, peer ID, port, uploaded, downloaded, left and compact parameters whose unescaped values are the client's, for every infohash, ID and counter value. "
     "Parameters already in the URL are kept. Peer IDs are 20 bytes with the client's prefix, and the bytes left never go below zero.",
     ["inputs"], "All infohashes, IDs, ports, counter values and announce URLs.",
     "The one test of announcing has one fixed case.",
     ["tracker/tracker.go", "tracker/stats.go", "utils/utils.go"], [("query building", "tracker/tracker.go"), ("counters", "tracker/stats.go")])

prop("C27", "Tracker answers are parsed exactly, or refused",
     "From every well-formed tracker answer, with peers in compact or dictionary form, the client gets exactly the peers (address, port, ID), the interval and the counts in it. "
     "A failure reason, an answer that is malformed, truncated or lacks a required field, and a connection failure are reported as errors, without panic, and no connection is leaked.",
     ["inputs", "fault_sequences"], "All well-formed answers, all malformed bodies, and all ways in which the HTTP exchange can fail.",
     "The tests parse a handful of answers.",
     ["tracker/tracker.go", "peer/list.go", "peer/info.go", "bencode/decode.go"], [("response parsing", "tracker/tracker.go"), ("peer lists", "peer/list.go")])

prop("C28", "Command-line options mean what they say, or are refused",
     "The rate limits, port, input and working directory given on the command line take effect exactly as written (units in any supported form, values up to the largest), and invalid ones (malformed or out of range) end the program with an error before it touches anything. "
     "The information printed about a torrent is that of the torrent.",
     ["inputs", "configurations"], "All strings as limit, port, command and paths.",
     "Tests parse a few limits; the program itself is never run.",
     ["utils/opts.go", "main.go"], [("flag parsing and validation", "utils/opts.go")])

prop("C29", "The running client survives hostile peers and keeps serving",
     "Whatever peers do (garbage, floods, half-open and stalled connections, resets, invalid requests, thousands of connections), the client does not crash or hang and goes on to serve honest peers correctly. "
     "Its files stay unchanged, its memory, goroutines and descriptors do not grow without bound, and it uses no CPU time when nothing happens.",
     ["inputs", "schedules", "fault_sequences"], "All behaviours of many peers at the same time, against the real program over real sockets.",
     "The program itself is never run by the tests.",
     ["main.go", "swarm/swarm.go", "swarm/peerhandler.go", "swarm/msghandler.go"], [("accept loop", "swarm/swarm.go"), ("handler per peer", "swarm/peerhandler.go")])

prop("C30", "The running client has no data races",
     "No execution of the client, with many peers that connect, announce, request, misbehave and leave at the same time, has a data race.",
     ["schedules"], "All interleavings of the client's goroutines.",
     "The tests run single goroutines, and no race detector.",
     ["swarm/swarm.go", "swarm/peerhandler.go", "swarm/piecetracker.go", "io/ratelimit.go", "bf/bitfield.go", "torrent/fileio/fileio.go"], [("locks, atomics and channels", "swarm")])

prop("C31", "Collections behave like their mathematical models",
     "After any history of operations, linked lists have exactly the elements put in and not taken out, in order, walked in both directions; sets have exactly their members; removing by swap keeps all other elements once. "
     "Cutting a range into segments covers it exactly, in order, with no segment longer than asked.",
     ["inputs", "histories"], "All histories of operations and all sizes.",
     "The tests have a few short histories.",
     ["utils/ds/linklist.go", "utils/ds/set.go", "utils/utils.go"], [("doubly linked list", "utils/ds/linklist.go"), ("map-based set", "utils/ds/set.go")])
