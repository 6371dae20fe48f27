"""Technique and level note per property (see DESIGN.md for the details)."""
N = "Exploration of executions of the real code: no violation among those observed, which says nothing certain about others. "
T = {
"C01": ("runtime monitoring: generated and mutated inputs in supervised processes (panics, CPU time, memory)", "Trusts the resource limits that stand for 'in proportion'."),
"C02": ("runtime monitoring: differential oracle (independent strict codec) on generated values and edits", "Trusts the independent codec in harness/ref."),
"C03": ("runtime monitoring: oracle on the observed infohash of generated torrent files", "Trusts crypto/sha1 and the generator of torrents."),
"C04": ("runtime monitoring: oracle on the metadata read from generated torrent files", "Trusts the generator of torrents."),
"C05": ("runtime monitoring: consistency monitor over torrents with injected defects, in supervised processes", "Trusts the list of defects that must be refused."),
"C06": ("runtime monitoring: path monitor and file tree snapshots as an unprivileged user", "Assumes that there are no symbolic links in the working directory."),
"C07": ("runtime monitoring: interval model as oracle on the observed piece layout", "Small layouts are covered systematically, others by samples."),
"C08": ("runtime monitoring: independent hashing as oracle, faults injected in the files", "Trusts crypto/sha1."),
"C09": ("runtime monitoring: file tree monitor with injected write faults, exhausted descriptors and kills", "Kills are of the process, not of the machine."),
"C10": ("runtime monitoring: model of all files compared after every operation, with injected I/O faults", "Assumes that SHA-1 does not collide on the inputs."),
"C11": ("race detector and online monitor of concurrent piece reads and writes", "Interleavings are those that the scheduler and the stress produce."),
"C12": ("runtime monitoring: independent hashes against the client's claims, with kills and restarts", "Kills are of the process, not of the machine."),
"C13": ("runtime monitoring: model (array of booleans) run side by side", "Bit numbers stay within the bitfield."),
"C14": ("runtime monitoring: hostile inputs, guard bytes and an independent decoder in supervised processes", "Trusts the independent decoder."),
"C15": ("runtime monitoring: independent layout as oracle, aliasing monitor, race detector", "Trusts the layouts written down in the check."),
"C16": ("runtime monitoring: the same stream with different cuts against one model, in fake time", "Uses testing/synctest; the connection is an in-memory pipe."),
"C17": ("runtime monitoring: monitor over all bytes of handshakes, in fake time and over sockets", "The outgoing direction runs in real time with generous limits."),
"C18": ("runtime monitoring: online monitor of served blocks per connection, race detector, fake time", "The connection is an in-memory pipe."),
"C19": ("runtime monitoring: sequential model run side by side", "Peers are made by real handshakes."),
"C20": ("linearizability checking of recorded histories (porcupine), claim monitor, race detector", "Interleavings are those that the scheduler and the stress produce."),
"C21": ("runtime monitoring: online monitor of requests (tiling, exclusivity, promptness), race detector, fake time", "Promptness is decided after a second of fake time in which nothing else happens."),
"C22": ("runtime monitoring: leak monitor (goroutines, connections, claims) over injected endings, fake time", "The connection is an in-memory pipe that blocks as a full socket buffer does."),
"C23": ("runtime monitoring: timing monitor over hours of fake time", "Uses testing/synctest; fake time is exact."),
"C24": ("runtime monitoring: stream monitor with injected delays and errors, race detector, fake time", "The consumer follows the documented protocol of the read loop."),
"C25": ("runtime monitoring: rate and progress monitor over recorded events, race detector", "The window is the second between two ticks of the limiter; the downloads of the client are not read through it."),
"C26": ("runtime monitoring: recorded HTTP requests at a tracker against the client's values", "Trusts net/http and net/url of the check."),
"C27": ("runtime monitoring: generated and defective answers of a tracker, connection leak monitor", "Trusts the independent encoder."),
"C28": ("runtime monitoring: the real program with generated command lines, oracle on output, traffic and files", "Assumes that loopback ports are free."),
"C29": ("runtime monitoring: the real program under hostile peers, monitors on service, files and resources", "Runs as an unprivileged user over loopback sockets."),
"C30": ("race detector on the running client under stress", "Races that no observed schedule shows are not found."),
"C31": ("runtime monitoring: models of lists, sets and segments run side by side", "Nodes are used with the list they are in."),
}
