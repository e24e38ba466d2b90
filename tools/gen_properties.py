#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts is this file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

LIB = "library view of the crate (src/lib.rs under cfg nargun_verif)"

# ---------------------------------------------------------------- peer wire protocol
p("C01", "Peer byte stream yields exactly its messages, however it is split",
  "Whatever chunks the bytes of a peer connection arrive in, the client processes exactly the well-formed peer-wire messages contained in the stream, in order and with the values on the wire. A message with an unknown id or a body of the wrong size for its id is skipped without disturbing the messages before or after it; a message announcing a length no message can have is skipped or ends the connection (after everything before it was processed); nothing a peer sends crashes or wedges the connection task.",
  ["inputs", "schedules"], "every sequence of messages (well-formed, unknown id, wrong size) up to a depth, every segmentation into reads up to a number of cuts",
  "existing tests deserialize single complete buffers; the framing loop over a socket is never run, let alone for every split and every bad neighbour message",
  ["src/peers/connection/connection_manager.rs", "src/peers/connection/message.rs"],
  [("receive loop re-assembling length-prefixed messages", "manager_receiver"), ("message decoder", "Message::from_buf")],
  ["messages returned by the connection handle", "port messages forwarded to the DHT"], LIB)
p("C02", "Messages sent to a peer are exactly the standard wire bytes, in order",
  "Every message the client sends to a connected peer (choke, unchoke, interested, not interested, have, bitfield, request, piece, cancel, port) appears on the socket exactly once, complete, in the order submitted, in the standard length-prefixed big-endian peer-wire encoding. Decoding those bytes gives back the message that was sent.",
  ["inputs", "histories", "fault_sequences"], "every sequence of send operations over a boundary-value domain up to a depth, every socket back-pressure pattern (short writes) within the bound",
  "tests serialize a handful of single messages; sequences, field boundary values and short writes are not tried",
  ["src/peers/connection/message.rs", "src/peers/connection/connection_handle.rs", "src/peers/connection/connection_manager.rs"],
  [("encoder", "Message::into_bytes"), ("sender task", "manager_sender")],
  ["bytes read by the remote end of the socket"], LIB)
p("C03", "A peer connection is established only by a complete matching handshake",
  "An outgoing connection starts with the exact 68-byte handshake (protocol string, reserved bits announcing DHT, info-hash, peer id). It is used only if the remote answers with a complete handshake of the same protocol and the same info-hash, in whatever pieces those 68 bytes arrive; any other answer (different protocol or info-hash, too few bytes then end of stream, refused connection, no answer for a bounded time) makes the peer be reported unreachable exactly once and no message exchanged with it.",
  ["inputs", "schedules", "fault_sequences"], "every single-byte deviation of the 68-byte reply, every truncation point, every two-way segmentation of the reply (also joined with following messages)",
  "tests check one valid and two invalid complete buffers; never a split reply, an info-hash mismatch or early close",
  ["src/peers/connection/handshake.rs", "src/peers/connection/connection_manager.rs"],
  [("handshake exchange", "initiate_handshake"), ("validity check", "Handshake::check_validity")],
  ["bytes at the remote end", "messages returned by the connection handle"], LIB)
p("C04", "The end of a peer connection is reported exactly once and frees its slot",
  "When an established peer connection ends because the remote closes or resets it, the owner is told exactly once that this peer disconnected, after every message received before the end; the client neither spins nor keeps the connection. After a peer was reported disconnected or unreachable, or was disconnected locally, connecting to the same address again really opens a new connection.",
  ["histories", "fault_sequences", "schedules"], "every sequence of connect, remote message, remote close/reset, local disconnect events up to a depth",
  "no test opens a peer connection",
  ["src/peers/connection/connection_manager.rs", "src/peers/connection/connection_handle.rs"],
  [("connection task", "manage_tcp"), ("peer slot map", "Connection::connect / disconnect / recv")],
  ["messages returned by the connection handle", "accepts seen by the remote listener"], LIB)
p("C05", "Blocks assemble into a piece exactly once and are never double-assigned",
  "Among concurrent downloaders of the same pieces, a block is handed to one of them at a time: it is offered again only after its request expired (about seven seconds), was cancelled or failed, and never after it was stored. A piece is delivered exactly once, exactly when every block has been stored with its exact size, with each block's bytes at its own position; duplicate, late, wrong-size, out-of-range or unknown-piece blocks change nothing, and at most ten pieces are in assembly.",
  ["histories", "schedules"], "every operation sequence up to a depth on pieces of 1-3 blocks with 2 downloaders and explicit time steps; every interleaving of 2-3 threads up to a preemption bound",
  "no test covers block assembly; races and duplicates need specific histories",
  ["src/peers/connection/pending_pieces.rs"],
  [("shared block table under a mutex", "PendingPieces")],
  ["results of adding a block", "blocks handed out"], LIB + "; mutex replaced by a scheduled one under the same cfg")
p("C06", "Only hash-verified pieces are delivered; bad data is fetched again",
  "The client asks a peer only for blocks of pieces assigned to that peer, each with its exact offset and length inside the piece, and only while the peer is not choking it; a block is not asked for again while its request is fresh (about seven seconds) or once it arrived. A piece is reported finished only when its bytes have the SHA-1 from the metainfo; a piece assembled from corrupt blocks is discarded and its blocks are requested again, blocks that were never asked for are ignored, and as long as peers answer every assigned piece gets finished, exactly once.",
  ["histories", "schedules", "fault_sequences"], "every sequence of remote behaviours (correct, corrupt, duplicate, unrequested, wrong-size block, choke, unchoke) up to a depth, over pieces of 1-3 blocks",
  "the downloader has no tests",
  ["src/peers/connection/downloader.rs", "src/peers/connection/pending_pieces.rs", "src/peers/connection/connection_handle.rs"],
  [("per-peer downloader task", "manage_piece_downloader"), ("hash check", "Torrent::piece_hash")],
  ["requests seen by the remote peer", "finished-piece messages"], LIB)
p("C07", "Piece selection respects peers' pieces, choking and the concurrency limits",
  "At any time the client is connected to at most ten peers and has at most nine pieces in progress, at most four per peer and at most three peers per piece. It starts a piece only on a connected, unchoking peer that announced it and only if the piece is not stored yet, prefers the piece the fewest peers are working on, then the least loaded peer, then the lowest piece, and leaves no eligible piece unstarted. Any sequence of peer messages (repeated or out-of-range have, late or wrong-size bitfield, requests, chokes, disconnects) leaves it running with its view equal to what the connected peers announced, a peer that announced a piece not stored yet is told of the interest (nobody else is unchoked), a piece that could not be stored is neither counted nor lost but fetched again, a peer that takes nothing off its connection holds up nobody else, it connects to known peers while it has room, and while peers that have every piece answer, the download completes with the right bytes on disk and is reported complete once, when its last piece is stored.",
  ["histories", "inputs"], "every sequence of peer messages and ticks up to a depth with 2-3 peers and 3-4 pieces, compared with a reference model",
  "the manager has no tests; its counters depend on histories",
  ["src/torrent_manager.rs", "src/peers/connection/connection_handle.rs"],
  [("message handler", "TorrentManager::handle_command_tmp"), ("piece selection", "TorrentManager::select_piece"), ("peer refresh", "TorrentManager::refresh_peer_list")],
  ["assignments seen as requests at the remote peers", "connections the remotes see", "files on disk at the end"], LIB)
p("C08", "A known peer is handed to at most one connection slot and never lost",
  "However discovery (tracker, DHT, inbound announces), serving of peer lists and slot refilling interleave, a peer that is in use is not handed out again until it is returned, every batch respects its limit and takes fresh peers before peers that were useless, choking or unreachable, and no known peer disappears. Looking at or serving the known peers, and learning an already known peer again, does not change its state.",
  ["schedules", "histories"], "every operation sequence up to a depth over 3 peers; every interleaving of 2-3 threads up to a preemption bound",
  "one straight-line single-threaded test",
  ["src/peers/active_peers.rs"],
  [("shared peer table under a mutex", "Peers")],
  ["batches returned", "addresses listed"], LIB + "; mutex replaced by a scheduled one under the same cfg")
# ---------------------------------------------------------------- storage
p("C09", "Stored pieces read back byte-exact for every layout and write order",
  "For every torrent layout (single file, or any list of files including empty ones and files spanning or sharing pieces), writing the pieces in any order makes every file exist with exactly its length and bytes once all pieces are written. Reading any block range of a piece that was written returns exactly the bytes written for it, whatever else was written before or after.",
  ["inputs", "histories"], "every small layout (file count, file sizes, piece length) within the bound, every write order, every block range",
  "two fixed layouts written in ascending order and compared by whole-file hash",
  ["src/fs/multi_file_rw.rs", "src/fs/single_file_rw.rs", "src/fs/multi_file_iter.rs", "src/fs/file_cache.rs"],
  [("piece-to-file iterator", "multi_file_iter.rs"), ("offset arithmetic", "single_file_rw.rs")],
  ["file contents", "blocks read"], LIB)
p("C10", "A piece write reported successful is completely in the files",
  "When storing a piece reports success, every byte of the piece is in the files at its place, at that moment, whatever short writes, interrupted calls or full-disk errors happened before; when it cannot be stored completely the write reports an error instead. A failed or short read is reported as an error, never as data.",
  ["fault_sequences", "histories"], "one or two injected faults (error, short transfer, interruption) at every file-system call of every small write/read history",
  "no test injects a fault",
  ["src/fs/multi_file_rw.rs", "src/fs/single_file_rw.rs", "src/fs/file_cache.rs"],
  [("write then flush", "SingleFileRw::write_piece / MultiFileRw::write_piece")],
  ["result of the write", "file contents right after it"], LIB + "; libc calls interposed in the harness")
p("C11", "No torrent can create or change a file outside its download directory",
  "Whatever names and path components a metainfo contains (parent references, absolute paths, separators, empty components), storing its pieces creates and modifies files only below the directory chosen for the download.",
  ["inputs"], "every combination of hostile and harmless names over a component alphabet up to depth 3, single and multi file",
  "tests use only benign names",
  ["src/fs/multi_file_rw.rs", "src/fs/single_file_rw.rs", "src/transcoding/metainfo.rs"],
  [("path construction and directory tree creation", "multi_file_rw.rs / single_file_rw.rs")],
  ["directory tree before and after, outside the download directory"], LIB)
p("C12", "Open files stay within the cache limit and always serve the right file",
  "Whatever sequence of files is accessed, at most sixteen are held open at once, and every access through the cache reaches the file it names with its current contents, including right after other files displaced it and after writes through an earlier handle.",
  ["histories"], "every access sequence (open, write, read) that can exercise displacement around the limit up to a depth, compared with a map from file to contents",
  "tests touch one eviction scenario",
  ["src/fs/file_cache.rs"],
  [("bounded cache of open files", "file_cache.rs")],
  ["open descriptors of the process", "bytes read through a handle"], LIB)
p("C31", "What is in the download directory survives restarts and kills",
  "Starting on a download directory that already holds files or directories of the torrent keeps what is in them: after any sequence of start-ups, piece writes and kills (between any two system calls or in the middle of a write), including start-ups that meet an I/O error, every piece that was reported stored in an earlier session still reads back byte for byte, nothing in the directory is deleted or truncated, and storing and reading further pieces works.",
  ["crash_points", "histories", "fault_sequences"], "every kill point of every short history of sessions (start-up, piece writes, reads) over small layouts, every single failing system call at start-up",
  "tests create fresh directories and never start twice, let alone after a kill in the middle of a write",
  ["src/fs/multi_file_rw.rs", "src/fs/single_file_rw.rs", "src/fs/file_cache.rs"],
  [("directory and file creation at start-up", "MultiFileRW::new / create_dirs, FileManager"), ("opening without truncation", "file_cache.rs, single_file_rw.rs")],
  ["pieces read back through a fresh start", "names, lengths and contents in the directory"], LIB)
# ---------------------------------------------------------------- metainfo
p("C13", "Metainfo is read exactly: info-hash, pieces, files, trackers",
  "For every well-formed torrent file the client's view equals the file's content: the set of tracker URLs, name, piece length, piece hashes in order, file list and lengths in order. The info-hash is the SHA-1 of the info dictionary bytes exactly as they stand in the file, including keys the client does not know, and the total length and piece count follow from the lengths.",
  ["inputs"], "every combination of present/absent optional fields, file lists, unknown keys and sizes over small domains",
  "a few fixed torrents",
  ["src/transcoding/metainfo.rs"],
  [("bencode decoder and info-hash", "Torrent::from_file / FromBencode")],
  ["parsed metainfo"], LIB)
p("C14", "A malformed or inconsistent torrent file is rejected, never a crash",
  "A torrent file that is truncated, corrupted into invalid bencode, lacks a required field, has a field of the wrong type, a zero piece length, a negative or absurd length, or a piece list that does not match the total length, yields an error from loading it. No torrent file makes loading crash.",
  ["inputs"], "every truncation and every single-byte substitution of base torrents, every subset of removed / wrongly typed fields, every small mismatch of piece count and length",
  "tests load only valid torrents",
  ["src/transcoding/metainfo.rs"],
  [("validation while decoding", "Torrent::from_file / FromBencode")],
  ["result of loading"], LIB)
# ---------------------------------------------------------------- DHT
p("C15", "Routing table keeps at most eight live nodes per bucket, each in its bucket",
  "After any sequence of node sightings, failures and time passing, a node id appears at most once in the routing table, the node's own id never, and each bucket holds at most eight nodes, each sharing with the own id exactly the prefix its bucket stands for. A live node is never dropped for another one; a silent one gives way only to a new node, and only when its bucket has no room and cannot be split. A node counts as live for what it answered from the address it is known at: an answer in its name from elsewhere neither refreshes nor moves a live node (a silent one is taken to have moved).",
  ["histories", "inputs"], "every sequence of sightings/failures/time steps up to a depth over an id alphabet crossing the split boundaries, starting from empty and from pre-filled tables, against a reference table",
  "tests insert one fixed list of random nodes",
  ["src/dht/routing_table/table.rs", "src/dht/routing_table/bucket.rs"],
  [("bucket split and eviction", "RoutingTable::insert_node / Bucket")],
  ["nodes returned by lookups", "table content through a guarded accessor"], LIB)
p("C16", "A DHT lookup answers the eight closest known good nodes by XOR distance",
  "Asking the routing table for a target gives exactly that node when the table holds it, and otherwise the up to eight good nodes closest to the target by XOR distance, none omitted in favour of a farther one. Ordering of nodes by distance is the numeric order of the XOR of their ids with the target.",
  ["inputs", "histories"], "every reachable small table times every target over an id alphabet crossing bucket boundaries, against brute force",
  "tests check single examples; the ordering law is over all triples",
  ["src/dht/routing_table/table.rs", "src/data_structures/id.rs"],
  [("closest-node search", "RoutingTable lookup"), ("id ordering", "ID ordering")],
  ["lookup result"], LIB)
p("C17", "The saved routing table survives any crash: old, new or empty, never garbage",
  "Saving and reloading the routing table gives back the same own id and nodes. If saving fails, or the process or machine dies at any moment of saving, the next start works and finds either the previously saved table, the newly saved one, or a fresh empty one - never a crash, and never a table containing nodes or an id that were in neither.",
  ["crash_points", "histories"], "every prefix of the file operations of a save over an existing save, with every torn-write pattern of the last unsynced writes (prefix, zero-filled, reordered), then start-up",
  "one happy-path round trip test",
  ["src/dht/routing_table/table.rs"],
  [("store and load of the table", "RoutingTable::store / RoutingTable::new")],
  ["table loaded after the crash"], LIB + "; libc calls interposed in the harness")
p("C18", "KRPC messages survive encode/decode and match the standard encoding",
  "Every DHT query, response and error the client can express is encoded as the standard bencoded KRPC dictionary (BEP 5) and decodes back to an equal message. Standard messages of other implementations, including ones with extra keys the client does not know, decode to the values they carry.",
  ["inputs"], "every message shape over boundary-value domains for ids, tokens, node and peer lists, transaction ids",
  "one example per message kind",
  ["src/dht/krpc_message.rs"],
  [("serde encoding of KRPC", "krpc_message.rs")],
  ["bytes and decoded messages"], LIB)
p("C19", "No datagram can crash the DHT service or be read beyond its own bytes",
  "Whatever datagrams arrive (truncated, corrupted, wrong-length fields, unknown keys, non-bencode, naming addresses nothing can be sent to), and whichever of its own datagrams the system refuses to send, the DHT service keeps answering correct queries and keeps searching. A datagram is interpreted from its own bytes only: what it is taken to mean never depends on datagrams received earlier.",
  ["inputs", "histories"], "every truncation, every single-byte substitution and every field-length deviation of each base message, each after every kind of earlier datagram, probed by a following ping",
  "no test sends a datagram to the service",
  ["src/dht/connection/connection_manager.rs", "src/dht/krpc_message.rs", "src/data_structures/id.rs"],
  [("socket loop and decoder", "connection_manager.rs")],
  ["replies on the UDP socket"], LIB)
p("C20", "Every well-formed DHT query gets exactly one correct reply",
  "Each well-formed ping, find_node and get_peers query, and each announce_peer query with a valid token, is answered exactly once, to the address it came from, with the same transaction id and the client's own node id. find_node answers the node asked for when the routing table holds it and otherwise the closest good ones; get_peers answers the known peers of the info-hash (for the torrent, except unreachable ones) and otherwise closest nodes, together with a token, in a datagram other nodes can be expected to read (at most 4096 bytes, of however many peers it knows); a response, an error or a datagram that is no KRPC message is never answered with anything but at most an error.",
  ["inputs", "histories", "schedules"], "every sequence of queries from 2 clients up to a depth over small domains of ids, transaction ids and info-hashes",
  "no test runs the service",
  ["src/dht/dht_manager.rs", "src/dht/connection/connection_manager.rs"],
  [("query handlers", "dht_manager.rs")],
  ["datagrams on the UDP socket"], LIB)
p("C21", "A peer announce is accepted only with a token issued to that address",
  "An announce_peer query makes the announced peer known (and served to later get_peers queries for the torrent) exactly when it carries a token this node issued to the same IP address and names the served info-hash, with the announced port or, if implied, the sender's port. An announce with a missing, altered, foreign or other address's token adds nothing.",
  ["inputs", "histories"], "every sequence of get_peers and announce_peer from 2 addresses, every single-byte alteration of the token",
  "no test",
  ["src/dht/dht_manager.rs"],
  [("token issue and check", "dht_manager.rs")],
  ["peers served by get_peers", "peer pool"], LIB)
p("C22", "A DHT response counts only if it answers an outstanding query, once",
  "A response or error datagram has an effect only when its transaction id belongs to a query this node sent and has not yet been answered, from the address that query was sent to, and it is consumed by that query only; repeated, unsolicited or foreign responses, and responses of another kind than the query asks for, change nothing.",
  ["histories", "inputs"], "every sequence of own queries and incoming responses (matching, duplicate, wrong id, wrong address, wrong kind) up to a depth",
  "unit tests of the pending list only",
  ["src/dht/connection/pending.rs", "src/dht/connection/connection_manager.rs"],
  [("pending query list", "pending.rs")],
  ["effects delivered by the DHT connection"], LIB)
p("C23", "Peer search walks toward the info-hash and announces with the right token",
  "A search round for peers, while it tracks fewer than 512 nodes, asks the known good nodes and every node they return with get_peers, never the same node twice in one round, and puts every peer value received into the torrent's pool. At the end of a round it announces the client's port to nodes that answered, each with the token that very node sent most recently, and to no other node; when it announces to fewer nodes than answered, those left out are no closer to the info-hash than those announced to that answered alike (with peers or without, fewer than 512 nodes tracked).",
  ["histories", "schedules"], "every small network topology (3-4 nodes, who returns whom, who returns peers, who is silent) and every answer order",
  "no test",
  ["src/dht/peer_fetcher.rs", "src/dht/dht_manager.rs"],
  [("iterative lookup", "peer_fetcher.rs")],
  ["queries seen by the simulated nodes", "peer pool"], LIB)
p("C24", "The routing table is kept fresh at a capped, growing interval",
  "At start-up the service pings every node of the saved routing table. While it runs, it asks the closest good nodes of every part of the table that has room for further nodes, at intervals that start at the configured first interval, grow with the configured law and never exceed the configured maximum, however much other traffic there is. Every node address a peer names in a port message is pinged, and a learned node enters the table only after it answered a query itself. Nodes that fell silent are asked again: when an answer names them, and at every refresh when no node is good any more, so that a lost answer or an outage is recovered from.",
  ["schedules", "histories"], "every interval configuration over a small domain and every tick count; every silent/answering pattern of 2 nodes within the bound, under virtual time",
  "no test of the interval or of maintenance",
  ["src/capped_growing_interval.rs", "src/dht/dht_manager.rs"],
  [("growing interval", "CappedGrowingInterval"), ("maintenance", "dht_manager.rs")],
  ["queries seen by simulated nodes under virtual time"], LIB)
# ---------------------------------------------------------------- tracker
p("C25", "A tracker announce carries exactly the client's values, correctly encoded",
  "The announce request sent to an HTTP tracker goes to the announce URL of the torrent (keeping any query it already has) and decodes to exactly the torrent's info-hash, the client's peer id and port, the number of bytes left to download (zero once every piece is there, the whole length while none is), compact mode and the current event, for every byte value of those ids. A tracker id received earlier is sent back unchanged.",
  ["inputs"], "every byte value at every position of both 20-byte ids, URL forms with/without query, events, boundary values of counters",
  "one example URL",
  ["src/tracker/announce.rs"],
  [("announce URL builder", "announce.rs")],
  ["HTTP request received by a loopback tracker"], LIB)
p("C26", "Tracker replies are decoded exactly and bad ones are harmless",
  "A tracker reply with a compact peer list adds exactly the peers it lists to the known peers, its interval is kept and its tracker id remembered, whether or not the optional fields are there. A truncated, corrupted or ill-typed reply, a failure reason (whatever stands beside it) or an HTTP error status (whatever its body) never crashes the client and adds no invented peer, and the tracker is asked again after the retry delay (64 seconds).",
  ["inputs", "fault_sequences"], "every small reply over the field domains, every truncation and byte substitution of base replies",
  "a few fixed replies",
  ["src/tracker/response.rs", "src/tracker/tracker_manager.rs"],
  [("reply decoder", "response.rs")],
  ["peer pool after the reply", "time of the next announce"], LIB)
p("C27", "Tracker session: started once, then at the interval, stopped on shutdown",
  "Each tracker first gets an announce with event started, repeated until one succeeds, then announces without event at the interval the tracker asked for, one announce with event completed as soon as the download completes, and on shutdown, whatever is under way, exactly one announce with event stopped if an announce ever succeeded. Failed announces (refused, garbage, closed, silent for 128 seconds) are repeated after the fixed retry delay of 64 seconds, and no reply makes the client announce in a busy loop. Every HTTP tracker of the torrent is served independently of the others, and the peers of every successful reply are in the pool.",
  ["histories", "fault_sequences", "schedules"], "every sequence of tracker behaviours (ok, late, failure, garbage, closed, refused, silence) up to a depth with up to two events (progress, completion, shutdown, completion channel closed) placed at every step, under virtual time",
  "no test",
  ["src/tracker/tracker_manager.rs"],
  [("per-tracker task", "tracker_manager.rs")],
  ["requests received by a loopback tracker under virtual time"], LIB)
# ---------------------------------------------------------------- core
p("C28", "Shutdown reaches every listener and waits for all of them, no longer",
  "Once shutdown is signalled, every task holding a shutdown receiver observes it, whether it was already waiting, waits later, waits again, or got its receiver by cloning one before or after the signal, and never before the signal. Waiting for completion returns exactly when every such receiver has been dropped, not earlier and not later.",
  ["schedules", "histories"], "every order of clone, wait, signal, drop events of 2-3 holders up to a depth, every task schedule of them",
  "no test",
  ["src/shutdown.rs"],
  [("shutdown channel", "shutdown.rs")],
  ["completion of recv() and wait()"], LIB)
p("C29", "The piece bitmap behaves as a fixed-size set of piece indices",
  "A bitmap of n pieces has n bits; setting, reading, counting, iterating, comparing and replacing from wire bytes agree with a plain array of n booleans, most significant bit first, for every n. Data of the wrong length or with bits beyond n set is rejected and changes nothing.",
  ["inputs", "histories"], "every size up to 20 and every bit pattern at small sizes, every operation sequence up to a depth",
  "a few sizes and patterns",
  ["src/data_structures/bitmap.rs"],
  [("bit arithmetic", "bitmap.rs")],
  ["results of bitmap operations"], LIB)
p("C30", "Node ids form an XOR metric with consistent bit arithmetic and ordering",
  "Distance between ids is the XOR of their bytes: zero exactly for equal ids, symmetric, and ordering two ids by distance is the total order of the distances as 160-bit numbers. Bit access, first differing bit, and random ids drawn for a bucket agree with that numeric view.",
  ["inputs"], "every pair and triple over an id alphabet with each bit position and byte boundary, every bit index",
  "random samples and single examples",
  ["src/data_structures/id.rs"],
  [("id arithmetic", "id.rs")],
  ["results of id operations"], LIB)

# ---------------------------------------------------------------- whole client
p("C32", "A started client finds peers, completes the download and reports it",
  "A client started on a torrent connects to the peers its trackers give, the peers a live DHT node gives once a peer's port message or the saved routing table names that node, and the peers that announce themselves to its DHT service. Whenever those that answer requests have every piece between them, all files end up with exactly the torrent's content, also when a peer comes late, leaves, chokes, sends a wrong block or unasked-for messages on the way, and when peers unchoke only who told them of an interest. Each tracker session hears started once with the whole length left, a number of bytes left that never rises and is 0 when everything is stored, and completed exactly once when the download completes; the DHT node is searched and told the client's port. It names itself to all of them by one peer id and runs until it is interrupted. When it then ends, which it does whatever the moment, every tracker session that got an answer has been told stopped, a node known good is in the routing table of the next start, and a later start on the same directory completes the download.",
  ["histories", "schedules", "fault_sequences"], "every combination of where peers come from, who has what, how trackers and peers behave, and when the shutdown comes, in a small simulated world with two peers, one DHT node and up to two trackers; every one-deviation task order",
  "no test runs the parts together",
  ["src/main.rs", "src/torrent_manager.rs", "src/tracker/tracker_manager.rs", "src/dht/dht_manager.rs", "src/dht/peer_fetcher.rs", "src/peers/connection/connection_handle.rs", "src/shutdown.rs"],
  [("parts put together and ended", "main, start_client, start_dht"), ("pieces counted and completion signalled", "TorrentManager::store_piece"), ("port message handed to the DHT", "connection_manager.rs handle_message")],
  ["files in the download directory", "requests at simulated trackers, peers and a DHT node", "routing table read back"], LIB)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
