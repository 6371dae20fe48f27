"""Per property: the oracle, and why it reaches what the tests cannot (for DESIGN.md)."""
W = {
"C01": ("The process itself, watched by its parent: a panic, a fatal error of the runtime (stack overflow), CPU time, resident memory or silence end in a violation that names the case. Besides, the input must be unchanged, and the same input must give the same answer again and in other threads.",
	"A decoder fails on the input nobody thought of: nesting of a million, lengths near 2^63, megabytes of digits. The tests decode a few dozen short strings. The worst shapes are a fixed list (decoding one must cost in proportion to its size), the rest is generated around the grammar."),
"C02": ("An independent encoder and an independent strict decoder (harness/ref/ben.go) that classifies any byte string as must-accept, may-accept or must-reject, so that forms on which readers of the specification differ raise no alarm.",
	"Round-tripping is a statement about all values; every prefix and thousands of edits of each encoding are classified, with integers at every edge, not the dozen in the tests."),
"C03": ("SHA-1 over the byte range of the info dictionary, found by a generator that wrote the file and therefore knows the range.",
	"The hash has to be right for files with keys that the client does not know, at any place. A unit test pins one or two files, and the ones in the repository do not have such keys inside the info dictionary."),
"C04": ("The generator knows every value that it put into the torrent file: name, lengths, paths, hashes, announce URL; sums and offsets are computed here in 64 bits.",
	"Combinations of empty files, strange names, lengths beyond 2^32 and numbers of pieces in the hundred thousands are generated; the tests have four torrents."),
"C05": ("A list of defects after which the torrent has no meaning (must be refused), and for everything accepted a consistency monitor: the lengths add up, the number of hashes is right, each piece can be located and its parts add up to its length.",
	"One to three defects at a time at random places of random torrents, byte flips and truncations, in supervised processes; what is accepted is used, since the crash often comes later than the parsing."),
"C06": ("Lexical: every local path lies strictly below the working directory. Physical: the files are prepared for real by an unprivileged user in a scratch directory, and a snapshot of the tree around the working directory is the same afterwards.",
	"The property is about every hostile path in every position with every form of working directory, including elements that only lead outside after joining, cleaning or decoding."),
"C07": ("The intersections of integer intervals, computed without reference to the code.",
	"All layouts of up to four tiny files and pieces are enumerated, random ones go beyond 2^32; the tests have a handful. Empty files at piece borders are where such code breaks."),
"C08": ("Independent hashing of the concatenated contents, and reading back all pieces through the file layer.",
	"Piece lengths around the internal 5 MiB buffer, unreadable, missing and oversized things at random positions, links; the tests have files of some bytes."),
"C09": ("The file tree, byte by byte, against the rule: existing bytes up to the length stay, the rest is zeros, nothing else changes; after an error or a kill every byte that the user had is still there and another run completes the work.",
	"Faults (file size limits, permissions, descriptors that run out) and kills at random times are injected; the tests prepare once in a clean directory."),
"C10": ("A model of the content of all files; after every single operation the whole content is compared, and with injected faults the result must be an error or correct.",
	"Histories of right and nearly right pieces over random layouts; short files, closed files, a size limit. The tests write and read right data once."),
"C11": ("An online monitor over real concurrency: per part of a piece old or new content; reads that start after an acknowledged write see it; final content is exactly what was acknowledged; the race detector watches memory.",
	"No test has two threads. Moves of files interleave with reads and writes, also moves that fail."),
"C12": ("Hashes computed here over the files, against bitfield, count, completeness and the bytes left that the tracker hears of; acknowledgements in a pipe survive the kill of the process.",
	"Any file state times any corruption; kill at a random point in a series of writes and a restart. The tests validate nothing."),
"C13": ("An array of booleans.", "All sizes up to 200 bits with random histories, and some of a million bits; stray bits of the last byte are where counting breaks."),
"C14": ("An independent frame decoder; guard bytes around the input; the parent watches CPU time and memory.",
	"All types times all lengths up to 40, cuts at every place, lengths that wrap around; the tests have about ten malformed messages."),
"C15": ("The layouts of BEP 3 written down in the check; messages and encodings that are kept while others are made, and buffers that are overwritten, show aliasing; the race detector shows sharing.",
	"Aliasing and sharing do not show in a test that encodes and compares at once."),
"C16": ("The answers that the model computes from the messages, the same for all cuts, in fake time, in which 'nothing more comes' is a fact and not a timeout.",
	"TCP cuts at will; with cuts at every message border plus or minus one, byte by byte, and packets of the size of the receive buffer, every state of the reassembly is visited."),
"C17": ("Every byte the client sends is recorded, and the state of the connection (closed, session at work) is judged after each handshake.",
	"Both directions with every byte changed, cut, late, shifted; a wrong acceptance only shows for a specific wrong handshake."),
"C18": ("A queue of open requests per connection; each piece message must answer the oldest with the right bytes.",
	"All 32-bit begins and lengths, several peers at the same time, files that are cut during the session; no test serves anything."),
"C19": ("Sets of announcements and claims, run side by side.", "Histories with up to 150 peers cross the border of the 64 buckets; the tests have four peers."),
"C20": ("Recorded histories are checked for linearizability (porcupine) against the sequential rules, with the rarest-first rule in the model; a claim monitor watches long runs; the race detector watches memory.",
	"Concurrency bugs need overlap; the harness records real overlaps, and counts them."),
"C21": ("An online monitor of the requests on each connection against announcements, and a check of completeness in quiet states of fake time.",
	"Peers that come and go, the same peer several times, last pieces of all lengths; no test requests anything."),
"C22": ("Connections closed, handlers returned, goroutines gone, pieces free, the rarest first among those that remain; each with the time that the ending allows; without an upload limit, and under limits so low that handlers wait for their turn when the peer goes.",
	"Over a dozen ways to end at random points of random histories; leaks do not show in tests that end with the process."),
"C23": ("Recorded times, in fake time that runs hours in milliseconds and is exact.", "Near misses on both sides of the timeout, peers that send single bytes of messages, hours of connection."),
"C24": ("The stream that was sent; each chunk is checked when it arrives and again when the consumer is done with it.",
	"Finish at every state of the loop by several goroutines, in fake time with the race detector; no test runs a read loop."),
"C25": ("Counts over every interval between two recorded operations, and the waiting time that the rate allows; both in fake time (exact) and in real time with threads.",
	"Rate limiting is a statement about all intervals and all numbers of threads; no test has any."),
"C26": ("A tracker that records raw requests, which are taken apart by the check.", "Infohashes and IDs of any bytes show escaping errors; counters at their extremes show conversions."),
"C27": ("What the generator put into the answer; open connections counted by the server; listeners that see who is dialled.",
	"Cut at every place, ill-typed in every field, failing at every point of the HTTP exchange."),
"C28": ("Exact arithmetic (math/big) on the options; the output, exit code, listening port, tracker and files of the real program.",
	"Every unit and number near every boundary, and whether anything was touched before the refusal."),
"C29": ("Honest peers that compare what they get, and monitors of the process: alive, memory, descriptors, threads, goroutines from the dump, CPU when idle, bytes of the files; the heap of the client in memory, before and after long rows of connections and messages.",
	"The program is run for real against twenty-six kinds of hostile peers in random crowds; no test runs it at all."),
"C30": ("The race detector of Go, in the real program and in a stress of the same code in memory.", "Races need executions that overlap; the crowds supply them, and the events say how many."),
"C31": ("Slices, maps and counts run side by side.", "Nodes that move between lists keep stale links that only matter some operations later."),
}
