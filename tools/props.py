#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run from /verif: python3 tools/props.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

ST = "src/brokers/store/"; Q = "src/brokers/queue/"; PS = "src/brokers/pub-sub/"; S = "src/brokers/stream/"; T = "src/transport/"

prop("C01", "Store keys behave as a map with expiry",
     "A GET returns exactly the bytes of the latest SET of that key, unless the key was deleted since or its time to live (the given number of seconds, or the configured default when absent or 0) has run out, in which case it returns nothing. An overwrite replaces both value and expiry, keys never affect each other, and background cleanup never changes what a GET returns.",
     ["histories", "inputs"], "every sequence of SET/GET/DEL over any keys, byte values and TTLs, with any passage of time between them",
     "tests/store.rs sets one or two keys and sleeps once for one TTL; it cannot cover orders of overwrite, delete and expiry over many keys, or large TTL values.",
     [ST + "domain/map.rs", ST + "tcp.rs", ST + "manager.rs"],
     [("expiry stored with the entry and compared on read", ST + "domain/map.rs get"), ("periodic sweep of expired entries", ST + "domain/map.rs new")],
     ["response frames of opcodes 0x02-0x04", "dashboard /api/store"],
     [("inner", "key -> value + expiry", ST + "domain/map.rs")])

prop("C02", "Concurrent store clients see linearizable keys",
     "When many clients SET, GET and DEL the same keys in parallel, every key behaves as if the operations had taken effect one at a time between their call and their response. In particular a GET never returns a value that was already overwritten or deleted before it started, and a SET that has been confirmed is never lost to a concurrent read, expiry or cleanup.",
     ["schedules", "histories"], "every interleaving of parallel store operations, including ones that race with expiry and the cleanup sweep",
     "The tests use the store from one task at a time; races between sweep, expiry and writes need particular interleavings.",
     [ST + "domain/map.rs"],
     [("sharded map with atomic per-entry operations", ST + "domain/map.rs")],
     ["response frames of opcodes 0x02-0x04"])

prop("C03", "Pub/sub delivers to exactly the matching subscribers",
     "A published message reaches every connected client that holds at least one matching subscription (exact segments, + for one segment, trailing # for the rest including none) exactly once, however many of its patterns match, and no other client. It arrives with the published topic and payload, in publish order, and stops after unsubscribe or disconnect of that client only.",
     ["histories", "inputs"], "every set of topics and patterns and every sequence of connect, subscribe, unsubscribe, publish and disconnect",
     "tests/pubsub.rs checks a handful of fixed patterns; overlaps between patterns, shared prefixes and removal of one of several overlapping subscriptions form an unbounded space.",
     [PS + "manager.rs", PS + "domain/radix_tree.rs", PS + "tcp.rs"],
     [("subscription trie with + and # children", PS + "domain/radix_tree.rs"), ("per-client subscription set and pruning", PS + "manager.rs subscribe/unsubscribe/disconnect")],
     ["push frames per client", "/api/pubsub"])

prop("C04", "Pub/sub stays exact under parallel clients",
     "While clients concurrently publish, subscribe, unsubscribe, connect and disconnect, a client whose matching subscription was confirmed before a publish started and not removed until after it finished receives that message exactly once, a client with no overlapping matching subscription never receives it, and each subscriber sees the messages of any one publisher in order. Subscriptions of departed clients disappear.",
     ["schedules", "histories"], "every interleaving of parallel pub/sub operations of several clients",
     "The tests drive pub/sub from one task; lost or duplicated deliveries need interleavings of trie updates with publishes.",
     [PS + "manager.rs", PS + "domain/radix_tree.rs"],
     [("tree lock and client registry", PS + "manager.rs")],
     ["push frames per client", "/api/pubsub"])

prop("C05", "A new subscriber gets the last retained value per topic",
     "On subscribing, a client receives for every topic that matches the pattern the payload of the last non-empty retained publish to it, under the topic it was published to, if that value has not been cleared by an empty retained publish and its time to live has not run out; otherwise nothing for that topic. Publishing without the retain flag never changes what is retained.",
     ["histories", "inputs"], "every sequence of retained and plain publishes, clears, expiries and subscribes over any topics and patterns",
     "Tests check single topics and a single wildcard; expiry combined with overwrite, clear and wildcard subscription is not sampled.",
     [PS + "manager.rs", PS + "domain/radix_tree.rs", PS + "domain/retained.rs"],
     [("last value kept in the trie node with an expiry", PS + "domain/retained.rs"), ("collection for a pattern", PS + "domain/radix_tree.rs collect_retained_for_pattern")],
     ["push frames after opcode 0x22", "/api/pubsub"])

prop("C06", "Retained values survive restarts and crashes",
     "After a stop or crash at any moment and a restart, each topic's retained value is the one last published or cleared, or one that was current within the flush interval before the stop; values older than that are never resurrected and flushed values are never lost. The remaining time to live keeps counting while the server is down, so a value whose time ran out is not served after the restart.",
     ["crash_points", "histories", "fault_sequences"], "every history of retained publishes and every point (including between disk writes of one flush) at which the process dies, any down time",
     "The tests restart once at a quiet moment after a sleep; they never crash inside a flush or let a value expire while the server is down.",
     [PS + "manager.rs", PS + "domain/persistence.rs", PS + "domain/retained.rs", PS + "domain/radix_tree.rs"],
     [("periodic flush of all retained values in one transaction", PS + "domain/persistence.rs flush"), ("load on start", PS + "manager.rs new")],
     ["push frames after a restart", "files of the pub/sub data directory"])

prop("C07", "Queues deliver by priority and then in order",
     "A consume returns waiting messages of the highest priority first, and among messages of equal priority that were never delivered before, in the order they were pushed; a batch never exceeds the requested size (or the configured default) and is filled as long as messages are waiting. This order also holds after a restart.",
     ["histories", "inputs"], "every sequence of pushes with any priorities, consumes of any batch size, acks, failures and restarts",
     "Tests push a few messages with two or three priorities and drain once; mixes of priorities, batch sizes, redeliveries and restarts are unbounded.",
     [Q + "domain/queue.rs", Q + "manager.rs", Q + "domain/persistence.rs"],
     [("ready index ordered by priority and insertion", Q + "domain/queue.rs pop_single"), ("recovery in insertion order", Q + "domain/persistence.rs load_all_messages")],
     ["response frames of opcode 0x12"])

prop("C08", "A queue message has one holder until acked or timed out",
     "Every pushed message stays with the queue until it is acknowledged, and is delivered again after a negative acknowledgement or once its visibility timeout has run out, with unchanged id and payload. While a delivery is outstanding no other consumer gets that message, and after a confirmed ack it never appears again.",
     ["histories", "schedules"], "every sequence of push, consume, ack, nack (also repeated, late or for foreign ids) and passage of time on any number of queues",
     "Tests follow one message through one path (ack, or one timeout); late acks, repeated nacks, several outstanding deliveries with different deadlines are not sampled.",
     [Q + "domain/queue.rs", Q + "manager.rs"],
     [("ready / in-flight indexes over one registry", Q + "domain/queue.rs transition_to"), ("periodic expiry of in-flight messages", Q + "manager.rs spawn_timeout_task")],
     ["response frames of opcodes 0x11-0x13, 0x1A", "/api/queue"])

prop("C09", "Failed messages are retried, then dead-lettered once",
     "A message that fails (nack or visibility timeout) is retried until its number of deliveries reaches the queue's maximum, and at that failure moves to the dead-letter queue exactly once, with its payload, delivery count and failure reason; at every moment it is in exactly one of waiting, in flight or dead-letter. Peek pages most recent failures first with the right total, replay puts exactly that message back with a fresh retry budget and its priority, delete and purge remove exactly what they report.",
     ["histories", "inputs"], "every sequence of failures, replays, deletes, purges and peeks for any maximum number of retries",
     "Tests drive one message to the dead-letter queue and replay it once; pagination, repeated failure after replay, and mixtures of nack and timeout are not sampled.",
     [Q + "domain/queue.rs", Q + "domain/dlq.rs", Q + "manager.rs", Q + "tcp.rs"],
     [("attempt counter compared with max_retries", Q + "domain/queue.rs nack/process_expired"), ("ordered dead-letter map", Q + "domain/dlq.rs")],
     ["response frames of opcodes 0x16-0x1A", "/api/queue"])

prop("C10", "A waiting consumer is woken when a message is ready",
     "A consume with a wait time returns as soon as a message is available to it (pushed, released by a nack, timed out or replayed, by anyone), and returns empty only once its wait time has fully elapsed without one; with no wait time it returns at once. No ready message is left undelivered while a consumer is waiting on that queue.",
     ["schedules", "histories"], "every number of parallel waiting consumers and every order and timing of pushes, nacks, timeouts, replays and consumer cancellations",
     "Tests wait with one consumer and one push; missed wake-ups need particular interleavings of several waiters with each way a message becomes ready.",
     [Q + "manager.rs"],
     [("notification registered before re-check under lock", Q + "manager.rs consume_batch")],
     ["response frames of opcode 0x12 and their (virtual) time"])

prop("C11", "Queue contents survive a crash at any point",
     "After the process dies at any moment, a restart brings back each queue with every message as it was after some operation confirmed no earlier than the flush interval before the crash: pushed messages are not lost, acknowledged ones do not reappear, and each is in either the queue or the dead-letter queue, never both or twice, with its payload, priority, delivery count, remaining invisibility, failure reason and the queue's settings intact.",
     ["crash_points", "fault_sequences", "histories"], "every history of queue operations and every disk write at which the process may die, and repeated crashes",
     "Tests restart a few times at quiet moments after sleeping past the flush interval; they never stop inside a flush or compare all message fields.",
     [Q + "domain/persistence.rs", Q + "manager.rs", Q + "domain/queue.rs"],
     [("write-behind batches in one SQLite transaction", Q + "domain/persistence.rs flush_batch"), ("recovery", Q + "manager.rs build_queue")],
     ["queue contents after a restart", "files of the queue data directory"])

prop("C12", "Parallel queue clients neither lose nor duplicate messages",
     "With any number of clients pushing, consuming, acking, nacking and replaying in parallel, every confirmed push is delivered, no two consumers hold the same delivery at once, every message ends up in exactly one place, and a confirmed ack is final. What a restart restores afterwards equals what the running server held, whatever the interleaving was.",
     ["schedules", "histories"], "every interleaving of parallel queue operations on shared queues, followed by a restart",
     "Tests use sequential operations with at most a few tasks; a persisted order that differs from the in-memory order needs a preemption between two steps.",
     [Q + "manager.rs", Q + "domain/queue.rs", Q + "domain/persistence.rs"],
     [("one lock per queue and one ordered channel to the writer", Q + "manager.rs")],
     ["response frames of queue opcodes", "queue contents after a restart"])

prop("C13", "Create and delete of queues and streams are exact",
     "Creating something that exists changes nothing (settings and contents stay), deleting removes that queue or stream with all contents, groups, settings and files and nothing else, and operating on something absent reports an error without creating it. Existence answers agree, re-creating after delete starts empty with the new settings, and a restart restores exactly the set that existed, each under its own name with its own settings.",
     ["histories", "configurations"], "every sequence of create, delete, exists, use and restart over any valid names and settings",
     "Tests create and delete one queue or topic; similar names, re-creation with other settings, and restarts in between are not sampled.",
     [Q + "manager.rs", S + "manager.rs", S + "domain/persistence.rs", Q + "domain/persistence.rs"],
     [("registry plus one file set per name", Q + "manager.rs create_queue/delete_queue"), ("topic directory with config.json", S + "manager.rs create_topic/delete_topic")],
     ["response frames of opcodes 0x10, 0x14, 0x15, 0x30, 0x35, 0x36", "/api/queue, /api/stream"])

prop("C14", "A stream is a gapless immutable log from any source",
     "Publishes to a stream get consecutive sequence numbers starting at 1, and reading any position at any time returns exactly the published payloads with their sequence numbers and a fixed timestamp, contiguous from the requested position (or the oldest retained one), whether served from memory or disk. Eviction from memory, segment rotation, closing of idle files and many concurrent topics change nothing of this.",
     ["histories", "inputs", "configurations"], "every sequence of publishes and reads over several topics for any payload sizes, segment sizes, memory limits, open-file limits and timing",
     "Tests read a few hundred uniform messages under one configuration; boundaries between memory and disk, segments and evicted file handles are hit at specific offsets only.",
     [S + "domain/topic.rs", S + "domain/persistence.rs", S + "manager.rs"],
     [("in-memory window over segment files", S + "domain/topic.rs read/evict"), ("segment selection and scan", S + "domain/persistence.rs cold_read")],
     ["response frames of opcodes 0x31, 0x32", "/api/stream/{topic}/messages"])

prop("C15", "Consumer groups deliver each message until acked",
     "Within a group every message from the group's start position on is delivered in order to exactly one current member, is not delivered to anyone else while unacknowledged within the ack wait, and is delivered again after the ack wait or when its consumer goes away, at most the configured number of deliveries before it is parked. An acked message is never redelivered, at most the configured number are outstanding, only the holder can ack, and different groups do not affect each other.",
     ["histories", "configurations"], "every sequence of publish, join, fetch, ack, leave, disconnect and passage of time with several groups and members, with data in memory or on disk, for any limits",
     "Tests follow a few messages with one or two consumers; interactions of redelivery, parking, backpressure and disk reads are not sampled.",
     [S + "domain/group.rs", S + "manager.rs"],
     [("pending / redeliver / parked bookkeeping", S + "domain/group.rs"), ("cold fetch registration", S + "manager.rs cold_fetch")],
     ["response frames of opcodes 0x32-0x34", "/api/stream"])

prop("C16", "A group's ack floor covers only finished messages",
     "The ack floor reported for a group is always the largest position such that everything retained up to it has been acknowledged, parked after its last allowed delivery, or skipped by a seek; it moves backwards only on a seek to the beginning. A group created later starts at the oldest retained message and the reported number of pending messages equals the deliveries outstanding.",
     ["histories"], "every sequence of out-of-order acks, timeouts, parkings, seeks and joins",
     "Tests check the floor for a couple of fixed ack orders.",
     [S + "domain/group.rs", S + "manager.rs"],
     [("floor advance over pending and redeliver sets", S + "domain/group.rs try_advance_floor")],
     ["response frame of opcode 0x33", "/api/stream"])

prop("C17", "Seek and leave fence stale consumers",
     "After a seek every consumer of that group must join again: fetches and acks with an earlier generation are rejected and change nothing, and a rejoined consumer receives everything from the oldest retained message (seek to beginning) or only messages published afterwards (seek to end). A consumer that left or disconnected can no longer fetch or ack, a waiting fetch it or a fenced consumer had ends without messages, and its unacked messages go to the others.",
     ["histories", "schedules"], "every interleaving of seek, leave, join and disconnect with fetches in progress (waiting or reading from disk) and acks",
     "Tests seek once between completed operations; stale fetches in flight, several members and repeated seeks are not sampled.",
     [S + "domain/group.rs", S + "manager.rs"],
     [("generation counter and cancellation token", S + "domain/group.rs reset_runtime")],
     ["response frames of opcodes 0x32-0x34, 0x38, 0x39"])

prop("C18", "A stream survives a crash at any point",
     "After the process dies at any moment, including in the middle of a disk write, and restarts, a stream holds a gapless prefix of what was published that includes everything confirmed earlier than the flush interval before the crash, byte for byte, and new publishes continue with the next number, never reusing or skipping one. This keeps holding over repeated crashes and restarts, and also when the data directory has been moved.",
     ["crash_points", "fault_sequences", "histories"], "every history of publishes, every disk write (complete or torn) at which the process may die, for any segment size, and repeated crashes",
     "Tests restart at quiet moments; none tears a write, crashes right after a segment rotation, or continues writing after such a recovery.",
     [S + "domain/persistence.rs", S + "domain/topic.rs", S + "manager.rs"],
     [("checksummed records in segment files", S + "domain/persistence.rs serialize_message/load_segment_file"), ("recovery of the next sequence number", S + "domain/topic.rs restore")],
     ["reads after a restart", "files of the stream data directory"])

prop("C19", "Group progress survives a crash without skipping data",
     "After a crash at any moment and a restart, a group resumes at a position it had reached: nothing it never acknowledged (or skipped by a seek or parking) is passed over, including messages published after the crash, and progress confirmed earlier than the group save interval before the crash is not lost. A crash while progress is being saved leaves the previous or the new position of every group, never none.",
     ["crash_points", "fault_sequences", "histories"], "every history of acks and seeks of several groups and every disk write at which the process may die",
     "Tests restart once after a long sleep; they never crash between saving progress and saving data.",
     [S + "manager.rs", S + "domain/persistence.rs", S + "domain/group.rs"],
     [("periodic save through a temporary file and rename", S + "domain/persistence.rs save_groups_file"), ("restore", S + "domain/group.rs restore")],
     ["deliveries after a restart"])

prop("C20", "Retention drops only what it must, oldest first",
     "Retention only ever removes the oldest part of a stream, only data beyond the configured age or size limit, and never the newest segment; once a retention check has run the stream no longer holds whole old segments beyond the limits. Groups positioned in removed data continue at the oldest retained message without error, later messages stay readable and numbering continues, also after a restart.",
     ["histories", "configurations"], "every publish history and passage of time for any retention limits, segment sizes and consumer positions",
     "Tests check one size limit and one age limit once with a fixed number of messages.",
     [S + "domain/persistence.rs", S + "manager.rs", S + "domain/topic.rs", S + "domain/group.rs"],
     [("segment removal by age then size", S + "domain/persistence.rs apply_retention"), ("head propagation", S + "domain/topic.rs apply_head, domain/group.rs clamp_head")],
     ["reads and deliveries", "files of the stream data directory"])

prop("C21", "Parallel stream clients keep one consistent log",
     "With any number of parallel publishers every confirmed publish has its own sequence number, numbers are gapless, each publisher's messages appear in its order, and reading during or after returns the same record for the same number, before and after eviction and after a restart. With parallel consumers of one group no message is handed to two of them at once and none is left out.",
     ["schedules", "histories"], "every interleaving of parallel publishers, readers and group consumers, followed by a restart",
     "Tests publish from one task or check only counts; a log order on disk that differs from memory needs a preemption between two steps.",
     [S + "manager.rs", S + "domain/persistence.rs"],
     [("append under the topic lock, one storage channel", S + "manager.rs publish")],
     ["response frames of opcodes 0x31-0x34", "contents after a restart"])

prop("C22", "A waiting stream fetch returns new messages promptly",
     "A group fetch with a wait time returns messages as soon as one is deliverable to it (published, released by the ack wait, a leaving or disconnected member, or available on disk) and returns empty early only if the group is at its outstanding limit, is being read from disk by another member, or the fetch was cancelled by a membership or position change. A member that vanishes at any point, even in the middle of a fetch, never keeps the rest of the group from receiving messages.",
     ["schedules", "histories", "fault_sequences"], "every number of waiting members and every order and timing of publishes, acks, leaves and disconnects, including clients dropped in the middle of a request",
     "Tests wait with one consumer; a member dropped during a disk read or while several members wait is not sampled.",
     [S + "manager.rs", S + "domain/group.rs", T + "tcp/connection.rs"],
     [("notification before re-check, cancellation token", S + "manager.rs fetch"), ("cold-read flag", S + "manager.rs cold_fetch")],
     ["response frames of opcode 0x32 and their (virtual) time"])

prop("C23", "Every request gets exactly one answer, whatever its bytes",
     "For any bytes a client sends as a request (any opcode, truncated or oversized fields, invalid text or options, extreme numbers), the server sends exactly one response with the request's id, an error if the request is malformed or refers to something absent, and a rejected request changes nothing. It never crashes, stops serving that client or others, or corrupts other data.",
     ["inputs"], "every payload for every opcode, alone and mixed with valid traffic",
     "Tests send well-formed requests and two malformed ones; the input space of field lengths, option values and numbers is unbounded.",
     [T + "tcp/dispatcher.rs", T + "tcp/protocol/cursor.rs", T + "tcp/connection.rs", Q + "tcp.rs", S + "tcp.rs", PS + "tcp.rs", ST + "tcp.rs"],
     [("bounds-checked cursor", T + "tcp/protocol/cursor.rs"), ("error responses from every parser", T + "tcp/dispatcher.rs")],
     ["response frames", "state visible to other clients"])

prop("C24", "Frames survive any chunking, pipelining and size",
     "However the byte stream is split or merged on the way, the server acts on exactly the frames sent and every response and push reaches the client complete, unmixed and with the right id, with any number of requests in flight; slow requests do not block others. A frame announcing more than the maximum payload size ends that connection only, without any effect.",
     ["inputs", "schedules", "fault_sequences"], "every way to cut a frame sequence into reads, every number of pipelined requests, every frame size around the limit",
     "Tests send whole frames one at a time.",
     [T + "tcp/protocol/codec.rs", T + "tcp/connection.rs"],
     [("length-prefixed decoder", T + "tcp/protocol/codec.rs"), ("one task per request, one writer", T + "tcp/connection.rs")],
     ["byte stream of the connection"])

prop("C25", "Any disconnect cleans up that client only",
     "However a connection ends (closed, reset, cut in the middle of a frame, protocol error, or with requests in flight), its subscriptions disappear, its group memberships end with their unacked messages going to other members at once, and its pending requests stop. Other connections, also ones of the same client program, keep their subscriptions, memberships and pending requests (a waiting fetch of a group that lost a member may be answered with nothing, to be repeated).",
     ["fault_sequences", "histories", "schedules"], "every way and moment a connection can end, with any subscriptions, memberships and requests outstanding",
     "Tests close cleanly at quiet moments; resets, half frames and protocol errors take other paths.",
     [T + "tcp/connection.rs", PS + "manager.rs", S + "manager.rs"],
     [("cleanup after the session loop", T + "tcp/connection.rs"), ("disconnect", PS + "manager.rs disconnect, " + S + "manager.rs disconnect")],
     ["/api/pubsub, /api/stream", "deliveries to other clients"])

prop("C26", "Names never reach outside the data directories",
     "Whatever name a client uses for a queue, stream, group, topic or key, the server creates, changes or deletes files only inside its own data directories and only those of the named object; a name that cannot be kept safely is rejected with an error. Two different accepted names never share or overwrite each other's data, in memory, on disk or after a restart.",
     ["inputs", "histories"], "every string as a name in every operation that takes one, in any combination, including restarts",
     "Tests use plain identifiers only.",
     [Q + "manager.rs", S + "manager.rs", PS + "domain/radix_tree.rs", PS + "manager.rs", S + "domain/persistence.rs"],
     [("file names derived from object names", Q + "manager.rs build_queue, " + S + "manager.rs")],
     ["file system calls with their paths", "contents per name after a restart"])

prop("C27", "The dashboard API shows the true state and changes nothing",
     "Every dashboard request, whatever its parameters, gets an answer that agrees with the state visible to clients at that moment: counts, messages with state, priority and attempts, dead-letter pages, stream positions and messages, subscriptions, retained values and store entries. Paging over an unchanged state returns every item exactly once (store totals may still count entries whose time has run out), search (offered for store keys, topics, and pending or in-flight messages) returns exactly the items containing the text, and no request changes any state or fails because of its parameters or stored values.",
     ["inputs", "histories"], "every broker state reachable by client operations and every combination of query parameters",
     "Tests query each endpoint a few times with default parameters; huge offsets and limits, binary values and extreme expiry times are not sampled.",
     [Q + "http.rs", S + "http.rs", PS + "http.rs", ST + "http.rs", T + "http/payload.rs", ST + "manager.rs"],
     [("snapshots taken under the brokers' locks", Q + "manager.rs get_snapshot/get_messages"), ("payload rendering", T + "http/payload.rs")],
     ["HTTP responses of /api/*"])

prop("C28", "Parallel creates and deletes behave as if one after another",
     "However many clients create and delete queues and streams of one name at once, while others publish, push or read, the result is that of some order of those requests: a name that exists has the settings of the create that made it and only contents sent to it since then; nothing of a deleted object reappears and nothing sent after the last create is lost, neither now nor after a restart.",
     ["schedules", "histories"], "every interleaving of create, delete, publish, push, join and restart on one name",
     "Tests create and delete one after another; the races need a create, delete or publish paused between its steps in memory and on disk.",
     [Q + "manager.rs", S + "manager.rs", S + "domain/persistence.rs", Q + "domain/persistence.rs"],
     [("registry entry and files change together", Q + "manager.rs create_queue/delete_queue, " + S + "manager.rs create_topic/delete_topic"), ("storage commands of a deleted topic", S + "manager.rs publish, " + S + "domain/persistence.rs DropTopic")],
     ["existence, settings, contents and groups", "files and contents after a restart"])

K = "sdk/ts/src/"
prop("C29", "The TypeScript client carries every value and argument unchanged",
     "Whatever JSON value, text or Buffer of any size, name, key, option or message id a program hands to the TypeScript client, the server receives exactly one well-formed request that carries it exactly (undefined as null); and whatever the server answers or pushes reaches the program as the value that was stored, pushed or published: JSON as an equal value, text as the same string, Buffers as the same bytes. This holds however the bytes are cut up on the way. A dead-letter page lists every message with its id, attempts and reason, even one whose payload nobody can decode.",
     ["inputs"], "every value, name, option and answer, and every way of cutting the answers into pieces",
     "The client has no test that runs without a server, and those with one send a few small values.",
     [K + "codec.ts", K + "connection.ts", K + "brokers/store.ts", K + "brokers/queue.ts", K + "brokers/pubsub.ts", K + "brokers/stream.ts"],
     [("frame writer and cursor", K + "codec.ts FrameWriter, Cursor"), ("reassembly of frames", K + "connection.ts processBuffer")],
     ["bytes the client sends", "values its calls resolve with"])
prop("C30", "Every call of the TypeScript client ends, with its own answer",
     "Every call ends: when its own answer has arrived it ends at once, with that answer or the server's reason for refusing; when its connection is lost or disconnect() is called it fails at once; with no answer it fails after its time limit (15 s) and within 2 s of it, never earlier; without a connection it fails at once and sends nothing. Its request is sent exactly once. After a loss the client connects again by itself within a few seconds of the server accepting connections and is then usable, never holding two connections. After disconnect(), or when the first connection attempt was refused, it never connects again and nothing of it keeps the process alive. All this for any number of calls made before, however answers are cut up, delayed, reordered or left out.",
     ["histories", "schedules", "faults"], "every sequence of calls, answer times and orders, losses, refusals and disconnects",
     "Tests make a few calls against a healthy server; a lost answer, a cut frame or a connection lost at a particular moment does not occur in them.",
     [K + "connection.ts", K + "client.ts"],
     [("pending calls and their deadlines", K + "connection.ts send, startSweep"), ("end of a connection", K + "connection.ts setupListeners, disconnect"), ("reconnecting", K + "connection.ts startReconnectLoop")],
     ["when and how each call ends", "connections and requests the server sees", "timers left behind"])
prop("C31", "TypeScript pub/sub handlers get exactly the matching messages",
     "Every message that reaches the client calls each handler whose subscription matches its topic (exactly, by + or by #) exactly once, in the order the messages arrive, and no other handler: none before its subscribe() or after its unsubscribe() has ended. A handler that throws, or a payload that cannot be decoded (it reaches no handler), disturbs nothing else. A failed subscribe leaves nothing behind and a failed unsubscribe leaves the subscription; a second subscribe to a topic is rejected. After any losses of the connection, the server knows exactly the subscriptions the program holds.",
     ["histories", "schedules", "faults"], "every sequence of subscribes, unsubscribes and messages, with refusals and losses of the connection at any moment",
     "Tests subscribe to a few topics and lose the connection once, at rest.",
     [K + "brokers/pubsub.ts", K + "connection.ts"],
     [("dispatch", K + "brokers/pubsub.ts dispatch, matchesParts"), ("restoring subscriptions", K + "brokers/pubsub.ts constructor"), ("failed calls undone", K + "brokers/pubsub.ts subscribe, unsubscribe")],
     ["handler calls", "subscriptions the server holds"])
prop("C32", "The TypeScript queue consumer runs each delivery once and reports its outcome",
     "Every message delivered to a subscribed consumer is handed to the callback once per delivery, never more callbacks at once than the concurrency, one after another in batch order with concurrency 1. The server is told exactly once how it ended: acknowledged if and only if the callback succeeded, refused with the error's text if it failed; a payload that cannot be decoded is refused by itself and disturbs no other. stop() ends within the time the running callbacks and one waiting request take, after it no callback runs and messages not begun were handed back; after disconnect() no callback begins and nothing keeps the process alive. A second subscribe is rejected while one is subscribed or subscribing. After a loss of the connection or an absence of the queue the consumer resumes by itself, so that every message is in the end processed or dead-lettered.",
     ["histories", "schedules", "faults"], "every sequence of messages, callback durations and failures, stops, restarts and connection losses",
     "Tests run a few fast callbacks; a stop, loss or failure at a particular point of a batch does not occur in them.",
     [K + "brokers/queue.ts", K + "utils/concurrent.ts", K + "connection.ts"],
     [("consumer loop", K + "brokers/queue.ts subscribe"), ("bounded concurrency", K + "utils/concurrent.ts runConcurrent")],
     ["callbacks, with their times", "acknowledgements and refusals the server receives"])
prop("C33", "The TypeScript stream consumer runs each delivery once, acks only success",
     "Every message delivered to a subscribed stream consumer is handed to the callback once per delivery, never more callbacks at once than the concurrency, one after another in batch order with concurrency 1, and acknowledged exactly once, under the membership it was delivered to, if and only if the callback succeeded; a payload that cannot be decoded is left unacknowledged and disturbs no other. A consumer fenced by a seek, or whose connection or stream was lost, joins again by itself, so that in the end every message is processed. stop() ends within the time of the running callbacks and one waiting request; then no callback runs and the server no longer counts the consumer as a member, even when it was just joining; after disconnect() no callback begins and nothing keeps the process alive.",
     ["histories", "schedules", "faults"], "every sequence of messages, callback durations and failures, seeks, stops, restarts and connection losses",
     "Tests run a few fast callbacks; a fence, stop or loss at a particular point of a batch or join does not occur in them.",
     [K + "brokers/stream.ts", K + "utils/concurrent.ts", K + "connection.ts"],
     [("consumer loop, join and leave", K + "brokers/stream.ts StreamSubscription"), ("bounded concurrency", K + "utils/concurrent.ts runConcurrent")],
     ["callbacks, with their times", "acknowledgements and members the server has"])


if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    from manifest import build
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(build(P), f, indent=1, ensure_ascii=False); f.write("\n")
