"""writes /verif/properties.jsonl (kept as a script so that the table stays reviewable)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})


PR = "kiel/protocol/"
p("C01", "Requests have the exact Kafka wire layout",
  "For every metadata, produce, fetch, offset, offset-fetch, offset-commit (v0, v1, v2), coordinator, heartbeat, join-group, sync-group, leave-group, list-groups and describe-groups request and every field value, each time it is sent, the serialized bytes are the Kafka layout of that api: header (api key, version, correlation id, length-prefixed client id) followed by each field in protocol order, big-endian, with the protocol's width, lengths counted in encoded bytes and -1 for null strings/bytes. No input makes a request encode to bytes of another layout; a value that does not fit its field is refused rather than truncated.",
  ["inputs"], "all field values, all text (including non-ASCII and null), all list lengths",
  "Tests compare a handful of literal byte strings for three APIs; layout must hold for every value, text and list length of every api.",
  [PR + "request.py", PR + "part.py", PR + "primitives.py", PR + "produce.py", PR + "fetch.py", PR + "metadata.py", PR + "offset.py", PR + "offset_fetch.py", PR + "offset_commit.py", PR + "coordinator.py", PR + "heartbeat.py"],
  [("parts tables and Part.render", PR + "part.py"), ("Primitive.render", PR + "primitives.py"), ("Request.serialize", PR + "request.py")],
  observe=["bytes returned by Request.serialize()"])
p("C02", "Responses decode to exactly the fields on the wire",
  "For every well-formed response of each api, decoding yields every field with the value the wire carries - integers signed big-endian of the protocol's width, text decoded from its length-prefixed bytes, null as null, arrays with exactly the announced elements in order - and consumes each field exactly once in protocol order. Group metadata embedded in a bytes field (describe-groups, sync-group) is decoded too, an empty field as null.",
  ["inputs"], "all field values and array lengths of every response type",
  "Tests decode a few literal payloads; an off-by-width or swapped field is invisible unless sampled values differ.",
  [PR + "response.py", PR + "part.py", PR + "primitives.py", PR + "metadata.py", PR + "fetch.py", PR + "produce.py", PR + "offset.py", PR + "offset_fetch.py", PR + "offset_commit.py", PR + "coordinator.py"],
  [("Part.parse", PR + "part.py"), ("Primitive.parse / Array.parse", PR + "primitives.py"), ("Response.deserialize", PR + "response.py")],
  observe=["attributes of the decoded response"])
p("C03", "Message sets are encoded with correct sizes, checksums and wrappers",
  "Every produced message set is encoded as a sequence of (offset, size, crc, magic, attributes, key, value) whose sizes are the byte lengths that follow and whose checksum is the CRC-32 of exactly the bytes after it, stored as a signed 32-bit value for every possible checksum. With a compression codec the set is one wrapper message whose attributes name that codec and whose value is the compressed encoding of all the inner messages; without one the messages appear as they are, in order, none dropped or added.",
  ["inputs"], "all message keys/values (including null and non-ASCII), all set sizes, all checksums, all codecs",
  "Tests check literal CRCs of a couple of messages; boundary checksums, null keys and non-ASCII values are never sampled.",
  [PR + "messages.py", PR + "primitives.py", "kiel/constants.py"],
  [("Message.render (crc, signedness)", PR + "messages.py"), ("MessageSet.compressed / render", PR + "messages.py")],
  observe=["bytes of a rendered message set"])
p("C04", "Fetched message sets decode to exactly the complete messages they hold",
  "Decoding a fetched message set yields exactly the complete messages contained in its declared byte range, with their offsets, keys and values in order, unwrapping compressed wrappers with the codec their attributes name. A trailing message cut short at any byte is dropped without an error, and nothing outside the declared byte range is read or skipped, so the fields after the message set decode correctly.",
  ["inputs"], "all message contents, every cut position of the trailing message, every codec, any bytes following the set",
  "Brokers cut fetch responses at arbitrary bytes; tests sample one cut in one position at the end of the buffer.",
  [PR + "messages.py"], [("MessageSet.parse", PR + "messages.py"), ("Message.parse", PR + "messages.py")],
  observe=["messages of the decoded set, position of the next field"])
p("C05", "Compression framing is lossless and self-consistent",
  "For gzip and snappy, decompressing what was compressed returns the original bytes for every input size, including multi-block snappy streams and streams whose last block compresses to a few bytes. The snappy stream has the standard header followed by length-prefixed blocks that together cover all the input; using a codec whose library is missing fails clearly instead of producing data.",
  ["inputs", "configurations"], "all payloads and sizes, all block splits, codec library present or absent",
  "python-snappy is not installed where the tests run and the gzip test uses one payload.",
  ["kiel/compression/gzip.py", "kiel/compression/snappy.py"], [("compress/decompress", "kiel/compression/snappy.py"), ("compress/decompress", "kiel/compression/gzip.py")])
p("C06", "Protocol code tables agree with Kafka",
  "The api keys, the error-code table and its name lookup, the set of retriable errors, the api version, the consumer replica id and the compression codec ids are those of the Kafka protocol: every error name maps to its code and back, and an error counts as retriable exactly when a refreshed cluster view or a retry can resolve it.",
  ["inputs"], "every code in the tables",
  "Tests use the tables on both sides, so a wrong entry cancels out.",
  ["kiel/constants.py", PR + "errors.py"], [("API_KEYS, ERROR_CODES, RETRIABLE_CODES", "kiel/constants.py"), ("errors namespace", PR + "errors.py")])
CN = "kiel/connection.py"
p("C07", "A response settles exactly the request it answers",
  "Every request sent on a connection carries a correlation id no other request of the process has, and a response carrying that id resolves that request's future and no other - whatever the order and interleaving of responses - decoded with the response format of that request's api.",
  ["schedules", "histories"], "all orders of responses, any number of in-flight requests of any api",
  "Tests send one request at a time; reordered or interleaved responses of different apis are not sampled.",
  [CN, PR + "request.py"], [("pending / api_correlation", CN), ("generate_correlation_id", PR + "request.py")],
  state=[("pending", "correlation id -> unresolved future", CN), ("api_correlation", "correlation id -> api", CN)])
p("C08", "A failing or closed connection settles every in-flight request",
  "When a connection fails - the peer closes it, a write fails immediately or later, a response cannot be decoded or is unexpected - or is closed or aborted locally, every in-flight request's future is resolved with an error exactly once, the connection is marked closing and its socket is closed. After that every send fails at once with a broker connection error and writes nothing.",
  ["fault_sequences", "schedules"], "every fault kind at every point, any number of in-flight requests, repeated faults",
  "Tests cover single faults with one pending request and never wait for the other requests' futures.",
  [CN], [("abort/close/socket_error_handling", CN), ("closing check in send", CN)],
  state=[("closing", "no further traffic", CN)])
p("C09", "Requests and responses are framed exactly on the socket",
  "Each request reaches the socket contiguously, as a 4-byte big-endian size followed by exactly that many bytes, in the order of the sends, and the reader takes exactly the announced number of bytes per response, so consecutive responses never bleed into each other.",
  ["inputs", "schedules"], "all payload sizes and response sequences",
  "Tests mock the stream per message; consecutive frames are never read from one stream.",
  [CN], [("size prefix in send", CN), ("read_message", CN)])
CL = "kiel/cluster.py"
p("C10", "Bootstrap succeeds if any configured host works",
  "Starting a cluster tries the configured hosts in order (port 9092 unless given) and succeeds as soon as one can be connected to and answers a metadata request, whatever failures the earlier ones had at connect or at the metadata request; only if none works is a no-brokers error raised. Bootstrap connections are closed once they have served or failed their purpose.",
  ["fault_sequences", "configurations"], "every combination of failures over the host list",
  "Tests sample connect failures only, for one or two hosts.",
  [CL], [("Cluster.start", CL)])
p("C11", "Metadata refresh tries every known broker",
  "A metadata refresh asks the connected brokers one after the other until one answers, for any kind of failure of the others, even if the set of connections changes meanwhile; if none answers a no-brokers error is raised.",
  ["fault_sequences", "schedules"], "every subset of failing brokers, every failure kind, concurrent connection changes",
  "Tests sample one failing connection.", [CL], [("get_metadata", CL)])
p("C12", "The routing table mirrors the metadata and only names live leaders",
  "Once a heal completes, the topic list holds exactly the topics and partitions whose metadata is usable, each with the leader the metadata names and a live connection to that leader in the broker table; topics reported unknown are absent, and refreshing some topics never loses the others. The table is replaced in one step, so no other activity ever sees a topic without its leaders.",
  ["inputs", "fault_sequences", "schedules"], "all metadata contents and error codes, all sequences of refresh answers",
  "Tests check one metadata answer per error; partial refreshes and multi-topic mixes are not sampled.",
  [CL], [("heal / process_topics", CL)], state=[("topics", "topic -> partitions", CL), ("leaders", "topic -> partition -> broker", CL)])
p("C13", "The broker table mirrors the metadata's broker list",
  "After a heal every broker in the metadata that can be connected to has exactly one connection to its advertised host and port, brokers no longer listed leave the table and have their connections shut down, dead connections are replaced, and live connections are kept and not opened again. A broker that cannot be reached is retried and never blocks or breaks the others.",
  ["fault_sequences", "inputs"], "all broker sets before and after, all connect outcomes",
  "Tests sample one added and one removed broker.", [CL], [("process_brokers", CL), ("cull in heal", CL)], state=[("conns", "broker id -> connection", CL)])
CC = "kiel/clients/client.py"
p("C14", "Dispatch: each broker's answer reaches its handler, failures stay isolated",
  "Sending requests to several brokers delivers each request to its broker once, passes each response to the handler of its api and returns each handler's result under that broker's id, in any order of answers. A broker that fails, is lost or is unknown only removes its own entry from the result; the others are still handled.",
  ["schedules", "fault_sequences"], "all answer orders, every subset and kind of failure",
  "Tests sample one or two brokers answering in order.", [CC], [("Client.send", CC)])
p("C15", "A needed heal happens before the send completes, and only then",
  "If during a send a broker connection is lost, a request names a broker without a connection, an unexpected error occurs or a handler reports stale metadata, the cluster is healed exactly once after all answers are handled and before the send returns, and the need is cleared afterwards; otherwise no heal takes place.",
  ["fault_sequences", "schedules"], "all combinations of per-broker outcomes",
  "Tests check single outcomes.", [CC], [("heal_cluster flag", CC)], state=[("heal_cluster", "metadata is stale", CC)])
p("C16", "Closing a client winds down first and always releases connections",
  "Closing a client marks it closing first, then lets the client wind down (a producer flushes what is queued, a group member leaves its group) while connections are still open, then closes every broker connection - also when winding down fails, and also when other calls or a heal are under way, which then open no further connections.",
  ["fault_sequences"], "all client kinds, all wind-down outcomes",
  "Tests check mocked calls on the success path only.", [CC, "kiel/clients/producer.py", "kiel/clients/grouped.py"], [("Client.close / wind_down", CC)])
PD = "kiel/clients/producer.py"
p("C17", "Flushed messages go to their partition's leader, complete and in order",
  "Flushing sends every queued message exactly once, to the current leader of the partition the partitioner chose from the topic's known partitions given the message's key, with the key and value the key maker and serializer produced, the configured acks, timeout and compression, and in the order the messages were queued within each partition.",
  ["inputs", "configurations"], "all message sequences over topics/partitions/leaders, all partitioner choices, all settings",
  "Tests sample a fixed partitioner and one or two topics.", [PD], [("Producer.flush", PD)])
p("C18", "An accepted message is never silently lost",
  "A message accepted by the producer stays queued or in flight until the broker acknowledges it or rejects it with a fatal error: retriable errors, leaders without a connection, broken broker connections and topics missing from the metadata put it back in the queue for the next flush, exactly once.",
  ["fault_sequences", "histories"], "every failure of every subset of brokers/partitions at every stage",
  "Tests sample single retriable codes; connection failures and combinations are not covered.", [PD], [("queue_retries / sent / unsent", PD)], state=[("unsent", "accepted, not sent", PD), ("sent", "in flight", PD)])
p("C19", "Produce responses are interpreted per partition",
  "For each partition of a produce response: success drops its messages, a retriable error requeues exactly that partition's messages and marks the cluster for healing, and any other error code, known or not, is logged and affects no other partition; whatever the mix, nothing of the request stays recorded as in flight afterwards and no error escapes.",
  ["inputs"], "all error codes including unknown ones, all mixes over topics and partitions",
  "Tests use one partition per response.", [PD], [("handle_produce_response", PD)])
p("C20", "Batching: messages are sent when the batch is full and not before",
  "Produced messages are queued until the total queued over all topics reaches the batch size, at which point all of them are flushed; with no batch size each is flushed at once. Producing to a topic the cluster does not know refreshes the metadata once and then drops the message if it is still unknown; producing while closing accepts and sends nothing.",
  ["histories", "configurations"], "all produce sequences and batch sizes",
  "Tests sample one batch size.", [PD], [("Producer.produce", PD)])
p("C21", "Overlapping flushes do not disturb each other",
  "When flushes and produces overlap in time, in any order of answers, each message is sent once and each response affects only the messages of its own request.",
  ["schedules"], "all interleavings of produce calls, flushes and answers",
  "Tests run one flush at a time.", [PD], [("sent keyed by correlation id", PD)])
CO = "kiel/clients/consumer.py"
p("C22", "Fetch requests ask the right leader for the right positions",
  "A consume call sends one fetch request to each leader of the topic's allocated partitions, covering each of these partitions exactly once at its current position, with the configured wait time and minimum bytes, the consumer replica id, and the configured byte limit shared among that leader's partitions. An allocated partition without a known leader is left out of that call and the metadata is refreshed.",
  ["inputs", "configurations"], "all allocations, leaders, positions and limits",
  "Tests sample one or two partitions.", [CO], [("BaseConsumer.consume", CO)])
p("C23", "Each fetched message is delivered once and advances the position",
  "A consume call returns the deserialized value of every fetched message - including empty, zero or false values - in offset order per partition, skips only messages the deserializer rejects, and leaves each partition's position one past its last deserialized message; positions of other partitions and topics do not move, and messages below the position asked for are not delivered again. A value the deserializer turns into None (JSON null) is skipped.",
  ["inputs", "histories"], "all message contents and offsets, all deserializer outcomes, all partitions",
  "Tests use truthy JSON messages at consecutive offsets.", [CO], [("deserialize_messages", CO)], state=[("offsets", "next position per partition", CO)])
p("C24", "Fetch errors are handled per partition",
  "In a fetch response a retriable error marks the cluster for healing, an out-of-range offset makes the topic's positions be redetermined on the next consume, any other error code, known or not, is only logged; no error affects the messages or positions of the other partitions and none escapes to the caller. (A group member whose position was out of range drops that call's messages and fetches them again from the committed offsets.)",
  ["inputs"], "all error codes including unknown ones, all mixes over partitions",
  "Tests use one code per response.", [CO], [("handle_fetch_response", CO)])
SC = "kiel/clients/single.py"
p("C25", "A single consumer starts where it was told to",
  "On the first consume of a topic every partition's start position is asked of its leader, for the given start (beginning, end, a date, or a time span back from now, as whole epoch seconds), and consuming begins at the returned offsets; partitions whose answer is retriable or missing are asked again, in the same call or the next, before anything is fetched from them, and never silently start at zero. A fatal answer yields an empty result, and the topic is asked again on the next call.",
  ["inputs", "fault_sequences"], "all start values, all answer codes and failures over partitions and leaders",
  "Tests sample one partition and exact seconds.", [SC, CO], [("determine_offsets / handle_offset_response", SC)])
p("C26", "Consuming while closed or from an unknown topic does nothing harmful",
  "Once closing, consume sends nothing, commits nothing and changes no position; for a topic unknown to the allocation the metadata is refreshed once and, if it is still unknown, an empty list is returned without sending a fetch.",
  ["histories"], "all consumer kinds and states",
  "Tests check the single consumer's closed case only.", [CO, "kiel/clients/grouped.py"], [("closing and allocation checks", CO)])
GR = "kiel/clients/grouped.py"
p("C27", "The group coordinator is found through any broker",
  "Connecting a grouped consumer asks brokers for the group's coordinator until one answers, continuing after lost connections and retriable errors (with refreshed metadata before the brokers are asked again), and uses exactly the broker id the answer names; a fatal error ends the search without a coordinator, and no connected brokers raises a no-brokers error.",
  ["fault_sequences"], "all sequences of outcomes over brokers",
  "Tests sample one retriable and one fatal answer.", [GR], [("determine_coordinator", GR)])
p("C28", "A group resumes from its committed offsets",
  "Before a topic is consumed the coordinator is asked for the committed offsets of exactly the partitions allocated to this member, and consuming starts there; retriable and loading answers are retried (healing for stale metadata), a fatal one ends with an empty result and the topic is asked again next time; a lost coordinator gives an empty result too and is looked up before the next try.",
  ["fault_sequences", "inputs"], "all answer codes and failures, all allocations",
  "Tests sample single codes.", [GR], [("determine_offsets / handle_offset_fetch_response", GR)])
p("C29", "Commits cover exactly the consumed topics at their current positions",
  "With autocommit a consume commits, after its fetch, the positions of exactly this member's allocated partitions of the topics consumed and not yet committed; without autocommit nothing is committed until asked. A commit carries the given metadata, or text naming the consumer by default.",
  ["histories", "configurations"], "all allocations, topics and positions",
  "Tests sample one topic and partition.", [GR], [("commit_offsets / topics_to_commit", GR)], state=[("topics_to_commit", "consumed, uncommitted topics", GR)])
p("C30", "Commit answers are handled per topic",
  "A topic stops needing a commit only when all its partitions committed; retriable errors retry after a heal, an over-long metadata error retries with empty metadata, any other code, known or not, is logged without a retry, and losing the coordinator keeps the topics to commit and looks the coordinator up before the next commit.",
  ["inputs", "fault_sequences"], "all mixes of codes over topics and partitions",
  "Tests use one partition.", [GR], [("handle_offset_commit_response", GR)])
p("C31", "A rebalance invalidates positions and drops stale results",
  "When the group rebalances, every topic's positions are redetermined before it is fetched again, and a fetch that was in flight during the rebalance returns nothing and commits nothing.",
  ["schedules"], "rebalance at every point of a consume",
  "Tests trigger a rebalance at one point only.", [GR, "kiel/zookeeper/allocator.py"], [("on_rebalance clears synced topics", GR)])
p("C32", "The default allocator assigns every partition to exactly one member",
  "For every member list and partition list the default allocation gives each partition to exactly one listed member, members' shares differ by at most one, and the result depends only on the two lists.",
  ["inputs"], "all member and partition lists",
  "Tests sample a few sizes.", [GR], [("naive_allocator", GR)])
AL = "kiel/zookeeper/allocator.py"
p("C33", "The allocation is recomputed on every change from sorted inputs",
  "Whenever the group's members or partitions actually change - and only then - the allocation function is called with the sorted current members and sorted current partitions, its result becomes the allocation, and only then is the rebalance callback invoked, once; a member without a share has an empty allocation.",
  ["histories"], "all sequences of membership and partition notifications",
  "Tests sample two notifications.", [AL], [("on_group_members_change / on_partition_change / rebalance", AL)])
p("C34", "The shared partition set is updated atomically and stays readable",
  "Adding to or removing from the shared set reads, modifies and writes the set's node while holding the set's lock, writes only when the set changes, keeps everything it was not asked to change, and every value written is bytes that every member reads back as the same set.",
  ["schedules", "inputs"], "all set contents, all interleavings with other members, failures inside the update",
  "Tests mock the client and only look at calls.", ["kiel/zookeeper/shared_set.py", AL], [("Lock around get/set", "kiel/zookeeper/shared_set.py"), ("serialize/deserialize", "kiel/zookeeper/shared_set.py")])
p("C35", "Group membership is ephemeral and owned by the live session",
  "Joining leaves exactly one member node, named after the member, ephemeral and owned by the current session - created if missing, replaced in one transaction if another session owns it, kept if already ours; leaving removes it and tolerates its absence; every membership change reported by the server is passed on.",
  ["histories"], "all states of the member node",
  "Tests check mocked calls.", ["kiel/zookeeper/party.py"], [("Party.join / leave / start", "kiel/zookeeper/party.py")])
p("C36", "The allocator starts and stops in order and reports failures",
  "Starting connects, waits for the connection, watches membership and partitions before joining, contributes its partitions and completes only after both have been collected; stopping leaves the group before disconnecting. A failure of any step is reported through the returned future instead of being lost or hanging, and later steps are skipped.",
  ["fault_sequences"], "failure of every step",
  "Tests sample one failing step.", [AL], [("start / stop / create_attempter", AL)])
p("C37", "No asynchronous operation is started and forgotten",
  "Everywhere in the package the result of an asynchronous operation is waited for, returned, stored or given a completion callback; none is started and dropped, which would lose its errors and its ordering.",
  ["programs"], "every call site of every asynchronous function in the package",
  "A dropped future usually still works in a mocked test.", ["kiel"], [("yield at every coroutine call", "kiel")])
p("C38", "Every api a client uses has a decoder and a handler",
  "For each api a client class can send, the connection knows the response format, the class has a handler for the response, and request and response agree on the api's name and key.",
  ["programs"], "every api, every client class",
  "Tests exercise chosen pairs.", ["kiel"], [("response_classes", CN), ("handle_<api>_response", CC)])
p("C39", "Every request a client builds can be encoded",
  "Every request the producers and consumers build - for every topic, position, start time, setting, key and value the serializers give - encodes without an error to the layout of its api; in particular all numeric fields are whole numbers.",
  ["inputs", "configurations"], "all public inputs and settings",
  "Tests compare request objects with mocked sends and never encode them.", ["kiel/clients", "kiel/protocol"], [("request construction", "kiel/clients"), ("Request.serialize", PR + "request.py")])
p("C40", "Draining empties a collection and yields each item once",
  "Draining a dict, list, set or deque yields each element exactly once (a deque in order), leaves the collection empty, picks up items added meanwhile, and ends cleanly.",
  ["inputs"], "all contents, items added during draining",
  "Tests sample small collections.", ["kiel/iterables.py"], [("drain", "kiel/iterables.py")])
p("C41", "Waiting on an event returns only when it is set or times out",
  "Waiting without a timeout blocks until the event is set; with a timeout it waits at most once for that time, including a zero timeout.",
  ["schedules"], "all timeouts, event set before/after",
  "Tests mock the event.", ["kiel/events.py"], [("wait_on_event", "kiel/events.py")])
p("C42", "Overlapping calls on one consumer do not disturb each other",
  "When consume calls for different topics, or a consume and a commit, of one consumer overlap in time, in any order of answers, each call returns its own topic's messages and advances only its own positions; every topic consumed by a group member ends up committed at its position, and a topic consumed while a commit is under way is still covered by the next commit.",
  ["schedules", "fault_sequences"], "all interleavings of the answers of overlapping calls, with error answers",
  "Tests run one call at a time.", [CO, SC, GR], [("consume", CO), ("commit_offsets / topics_to_commit", GR)],
  state=[("topics_to_commit", "consumed, uncommitted topics", GR), ("synced_offsets", "topics with valid positions", CO)])
p("C43", "Clients in one process are independent of each other",
  "Two clients in one process - consumers, producers, members of different groups - share no positions, queues, settings, metadata, connections, group state or request contents: whatever one does or suffers (calls, error answers, lost connections, rebalances, close) leaves the other's requests and results as they would be alone.",
  ["histories", "configurations"], "all sequences of calls on two clients, faults at one of them",
  "Tests build one client each.", ["kiel"], [("state set per instance in __init__", "kiel")])
p("C44", "Every reference, call and log format in the package resolves",
  "Every name, imported attribute and own attribute a function uses exists, every call of a function or class of the package matches its parameters, and every log message and format has a place for each of its values: no code path, however rarely taken, fails because of what it refers to.",
  ["programs"], "every reference in every function, reached by tests or not",
  "Error paths are not run by the tests; logging swallows format errors.", ["kiel"], [("references and log calls", "kiel")])
p("C50", "Calls end and clients recover once the cluster is healthy",
  "Whatever refused or closed connections, undecodable answers, retriable error codes, elections and incomplete metadata a connect, heal, consume, commit, produce or flush meets - in the heals it triggers too - the call ends once the brokers answer normally, and as long as some broker stayed reachable, calling again delivers, commits or acknowledges everything, from the right positions.",
  ["fault_sequences", "histories"], "faults at every network operation of a call and of the heals it starts",
  "Tests put single faults at single operations with mocked answers.", [CL, CC, CO, SC, GR, PD], [("retry loops and heals", CL), ("send / heal_cluster", CC)])
# not claimed
p("C51", "Each message is processed exactly once end to end",
  "Across producer retries, consumer restarts and rebalances no message is processed twice or lost by the group as a whole.",
  ["histories", "crash_points", "fault_sequences"], "all crash points of all members and brokers",
  "Needs brokers and several processes.", ["kiel"], [("retries and commits", "kiel")])
p("C52", "Members of one group never own the same partition at the same time",
  "At every moment the allocations in force at the members of a group are disjoint.",
  ["schedules", "histories"], "all notification delays between members",
  "Depends on ZooKeeper's notification timing at several processes.", [AL], [("stable allocator function", AL)])
p("C53", "A group member survives the loss of its ZooKeeper session",
  "After its session expires a member rejoins the group and regains an allocation.",
  ["fault_sequences"], "session expiry at any time",
  "Needs a ZooKeeper ensemble.", [AL], [("connection listener", AL)])
p("C54", "Producer throughput and consumer latency stay bounded",
  "Batching, fetch limits and wait times keep throughput and latency within the configured limits.",
  ["schedules"], "all loads", "Timing.", ["kiel"], [("batch and fetch limits", "kiel")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
