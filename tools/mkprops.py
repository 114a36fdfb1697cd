#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one property per entry); run to regenerate.
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=None)))
T24="The 24 existing tests exercise only the buffer with a handful of fixed values; "
p("C01","The buffer is a lossless double-ended byte queue",
  "After any history of operations the readable bytes of a buffer are exactly what was appended at the tail and prepended at the head, in order, minus what was consumed from the front; every read and peek returns exactly those bytes and the count it reports, and peeking consumes nothing. An operation that reports failure for lack of room or data leaves the readable bytes and all space accounts as they were, except that a byte-slice write or read that only partly fits transfers exactly the prefix it reports.",
  ["inputs","histories"],"every buffer state reachable by any sequence of calls, every byte string and every length argument",
  T24+"no test covers an arbitrary interleaving of head/tail writes and reads, nor boundary lengths.",
  ["ubuf.go"],[("index bookkeeping of reads, writes and head writes","ubuf.go: Write/WriteByte/Read/ReadByte/Peek*/writeHead")],
  [dict(name="readerIndex/writerIndex",meaning="bounds of the readable bytes",where="ubuf.go UBuf")],["return values and readable contents of UBuf methods"])
p("C02","Buffer space accounting and freedom from panics",
  "For every buffer obtained from any constructor or snapshot and every later history, head room, readable length and tail room are non-negative and add up to the capacity, and the capacity never changes. Constructors accept exactly the valid (capacity, reserved) combinations, with panic for the allocating ones and nil for the ones wrapping a user slice otherwise, and no operation on a constructed buffer ever panics, whatever its arguments.",
  ["inputs","histories"],"every constructor argument, every user slice (any length and capacity), every operation sequence",
  T24+"wrapped slices with length below capacity, head writes on shared snapshots and extreme reservations are never tried.",
  ["ubuf.go"],[("range checks in the constructors and before each access","ubuf.go: UBufAllocWithHeadReserved, UBufFromWithHeadReserved, *WritableLength, ReadableLength")],
  [dict(name="representation invariant",meaning="0<=reader<=writer<=capacity, storage length == capacity",where="ubuf.go UBuf")])
p("C03","Fixed-width integers round-trip in the documented byte order",
  "For every 16-, 32- and 64-bit value, writing it at the tail or at the head produces exactly its big-endian (default and BE forms) or little-endian (LE forms) bytes, and reading or peeking in the same order returns the same value, peek without consuming it. When fewer bytes or less room than the width is available the call reports an error and changes nothing.",
  ["inputs","histories"],"all 2^16, 2^32, 2^64 values in every buffer state",
  T24+"a few constants per width are written and read back.",
  ["ubuf.go"],[("binary.Write/binary.Read with the chosen byte order after a room check","ubuf.go: WriteU*/ReadU*/PeekU*/WriteHeadU*")])
p("C04","Copy-on-write and copied snapshots are isolated",
  "A copy-on-write or direct-copy snapshot initially shows exactly the readable bytes of its source, and from then on no write, head write, fill, read or reset through any one buffer changes what any other buffer of the family shows. This holds for any number of snapshots, snapshots of snapshots, and any order of operations on them (reference snapshots, documented as unsafe, excepted).",
  ["inputs","histories"],"every family of buffers related by copy-on-write or direct-copy snapshots and every interleaving of operations on them",
  T24+"one source with one snapshot, tail writes only.",
  ["ubuf.go"],[("reference count plus copyOnWrite flag resolved before every write","ubuf.go: UBufMakeSnapshot, resolveCopyOnWriteIfNeed")],
  [dict(name="refCount",meaning="bounds the number of buffers sharing one storage",where="ubuf.go uBufData")])
p("C05","Stream transfers account for exactly the bytes moved",
  "Filling a buffer from a reader appends exactly the bytes the reader produced and reports that count, also when the reader returns bytes together with an error, and never touches bytes already readable; draining a buffer to a writer offers exactly the readable bytes and consumes exactly the count the writer accepted, also on error. A fill with no tail room or a drain of an empty buffer reports zero and moves nothing.",
  ["inputs","fault_sequences","histories"],"every reader/writer behaviour the io contracts allow (short counts, errors with data) in every buffer state",
  T24+"only full transfers and one reader/writer that moves nothing are tried.",
  ["ubuf.go"],[("ReadFrom / WriteTo advance the indexes by the reported count","ubuf.go: ReadFrom, WriteTo")])
p("C06","Frames survive any fragmentation and interleaving",
  "However the byte stream of a connection is cut into received chunks and however chunks of different connections interleave, the frame decoder passes up exactly the payloads of the stream's frames (4-byte big-endian payload length, then payload), each once, complete, in order, and on the connection they arrived on. This holds for every stream whose frames, header included, fit in the decoder's cache capacity; an incomplete tail is kept until its remaining bytes arrive.",
  ["inputs","histories"],"all byte streams, all ways to cut them into chunks, all interleavings of chunks of several connections",
  "No existing test touches the frame decoder; fragmentation positions and histories are unbounded.",
  ["proc_frame_decoder.go","ubuf.go"],[("per-connection cache of the incomplete tail, extraction loop","proc_frame_decoder.go: OnLowerData")],
  [dict(name="cache",meaning="bytes received but not yet part of a delivered frame",where="proc_frame_decoder.go FrameDecoder")],
  ["calls to the upper processor's OnLowerData"])
p("C07","No received bytes can crash the receiving path",
  "Whatever bytes a peer sends, in whatever chunks, passing them through any built-in processor's receiving side never panics. A message too short to carry the processor's header is dropped and never passed up.",
  ["inputs","histories"],"every received byte string (empty, truncated, absurd lengths, unknown tags) in every processor state",
  "No existing test feeds a processor.",
  ["proc_frame_decoder.go","proc_heartbeat.go","proc_stat_counter.go","proc_load_balancer.go","proc_session_resolver.go","proc_codec_bytes.go","proc_codec_string.go","proc_upperdeck.go","ubuf.go"],
  [("length checks before header reads","proc_*.go OnLowerData")])
p("C08","Header processors add exactly what the peer strips",
  "Sending through the session resolver, heartbeat, statistics counter, disabled load balancer or frame decoder prepends exactly that processor's header to the payload and passes it down once on the same connection; the same processor on the receiving side strips exactly that header and passes the payload up byte for byte once, with the session number (0 to 2^32-1) restored by the session resolver. If the header does not fit in the head room the message is not sent at all, never without its header.",
  ["inputs","histories"],"every payload, session number, head room and enable setting",
  "No existing test touches a processor.",
  ["proc_session_resolver.go","proc_heartbeat.go","proc_stat_counter.go","proc_load_balancer.go","proc_frame_decoder.go"],
  [("WriteHead* on the way down, Read* on the way up","proc_*.go OnUpperData/OnLowerData")],None,["bytes in the buffer at the call of the next processor"])
p("C09","Codecs deliver the message whole or not at all",
  "The bytes and string codecs turn a message that fits in the MTU minus the stack overhead into a buffer holding exactly its bytes and pass it down once, and turn a received buffer into a message equal to exactly its readable bytes and pass it up once; empty, wrongly typed or oversized messages are dropped, never truncated. The JSON, GOB and generic codecs likewise pass on exactly one message when their encoder or decoder succeeded and nothing when it failed; a message cut short counts as a decoder failure.",
  ["inputs","configurations"],"every message of every length and type, every MTU/overhead setting, every encoder/decoder outcome",
  "No existing test touches a codec.",
  ["proc_codec_bytes.go","proc_codec_string.go","proc_codec_json.go","proc_codec_gob.go","proc_codec_generic.go","ubuf.go"],
  [("allocate with MTU/overhead, write, check count and error","proc_codec_*.go")])
p("C10","Disabled processors and reference traffic pass through untouched",
  "A codec, frame decoder, filter, forwarder, session resolver, echo, discarder or flow controller that is disabled passes every message on exactly once, unmodified, in the direction it was travelling. Messages on a by-reference connection pass the frame decoder, heartbeat, statistics counter and load balancer exactly once, unmodified, in the same direction.",
  ["inputs","configurations"],"every message, connection kind, processor and enable flag",
  "No existing test touches a processor.",
  ["proc_*.go"],[("enable / UseReference branches","proc_*.go OnUpperData/OnLowerData")])
p("C11","The announced overhead always covers the headers",
  "Each processor's announced overhead is at least the number of header bytes it prepends to any message or sends with any control message of its own, and after starting (or restarting) a stack its overhead is exactly the sum over its processors. Buffers created by the codecs have that much head room within the MTU, so a message that fits is never lost for lack of header room.",
  ["inputs","configurations","histories"],"every processor list, MTU, message and number of starts",
  "No existing test builds a stack.",
  ["ustack_default.go","proc_*.go"],[("GetOverhead per processor, summed when building the stack","ustack_default.go build; proc_*.go GetOverhead")])
p("C12","Processors are chained completely and in order",
  "Starting a stack links its endpoint side, the appended processors in append order, and its transport side into one doubly linked chain: each element's downward neighbour has that element as its upward neighbour, nothing is skipped, duplicated or left linked elsewhere, and each knows the stack. Starting then runs every feature, the two ends and every processor exactly once each.",
  ["configurations"],"every list of processors and features",
  "No existing test builds a stack.",
  ["ustack_default.go"],[("build links neighbours in a loop; Run starts all","ustack_default.go build, Run")])
p("C13","Messages are routed to exactly the addressed session",
  "A received message is put, with its connection, exactly once on the receive queue of a registered endpoint whose session equals the message's session (0 when none is given), and on no other queue; without such an endpoint it is dropped. A message an endpoint sends goes down exactly once with its data, its connection, and its explicit destination session if set, else the endpoint's own session; adding an endpoint whose session is already served or deleting one leaves all other endpoints' routes as they were.",
  ["inputs","histories"],"every set of endpoints, session numbers, messages and add/delete history",
  "No existing test touches endpoints.",
  ["proc_upperdeck.go","endp_default.go"],[("endpoint table lookup by session; one forwarding goroutine per endpoint","proc_upperdeck.go")],
  [dict(name="endpoints",meaning="registered endpoints and their stop channels",where="proc_upperdeck.go UpperDeck")])
p("C14","Every published event reaches every subscriber exactly once",
  "Publishing an event hands that same event exactly once to every registered listener, every endpoint, and, once the stack is started, both chain ends and every processor, in registration order, and to nobody else. An endpoint's event listener, when set, is called with that endpoint and that event; listeners registered earlier are never displaced.",
  ["inputs","configurations","histories"],"every event and every set of subscribers",
  "No existing test publishes events.",
  ["ustack_default.go","endp_default.go"],[("PublishEvent loops","ustack_default.go PublishEvent"),("OnEvent dispatch","endp_default.go OnEvent")])
p("C15","Endpoint, transport and feature registries behave as ordered sets",
  "Adding an endpoint or transport that is absent appends it and announces the addition exactly once; adding one that is present changes and announces nothing. Deleting a present one removes exactly that one, keeps all others in order and announces the deletion exactly once; deleting an absent one does nothing; feature lookup returns the first feature with the name, or nothing.",
  ["inputs","histories"],"every add/delete history",
  "No existing test touches the registries.",
  ["ustack_default.go"],[("linear search plus append / cut","ustack_default.go AddEndPoint, DeleteEndPoint, AddTransport, DeleteTransport, GetFeature")])
p("C16","Filters and forwarders apply their rules exactly",
  "An enabled filter passes a message on exactly once if some rule accepts it and otherwise drops it and counts one drop in that direction; an enabled forwarder passes it on exactly once if no rule takes it over and otherwise stops it and counts one. Rules are consulted in the order given, with the message and direction, stopping at the first that answers yes, and no rules or messages are ever skipped or make it panic.",
  ["inputs","configurations"],"every rule list, rule outcome, message and direction",
  "No existing test touches filters or forwarders.",
  ["proc_filter.go","proc_forwarder.go"],[("doFilter / doForward loops over the rules","proc_filter.go, proc_forwarder.go")])
p("C17","Heartbeats detect exactly the silent connections",
  "The heartbeat check reports a monitored connection lost if and only if whole seconds since its last heartbeat reached the timeout, and then stops monitoring it, closes it if configured to, and announces the loss once, leaving all other connections' monitoring untouched. Received heartbeats refresh exactly their own connection and are never passed up, user messages are never swallowed or counted as heartbeats, and heartbeats are never sent on by-reference or closed connections.",
  ["inputs","histories","configurations"],"every set of monitored connections, elapsed times, timeouts and received tags",
  "No existing test touches the heartbeat.",
  ["proc_heartbeat.go"],[("monitor table with last-seen time, periodic check","proc_heartbeat.go check, updateMonitor, OnLowerData, OnEvent")],
  [dict(name="monitors",meaning="connection -> time of last heartbeat",where="proc_heartbeat.go Heartbeat")])
p("C18","Shared tables are only touched under their lock",
  "The endpoint table, the heartbeat table, the frame caches, the transports' connection lists and running flags, and the table of shared reference channels are only read or written while the lock that owns them is held. Every operation releases each lock it took on every path, and never takes a lock it already holds or releases one it does not hold.",
  ["schedules","inputs"],"every path of every operation that touches shared tables, hence every schedule",
  "No existing test runs these operations, and a racy access or a lock left held shows only under particular schedules.",
  ["proc_upperdeck.go","proc_heartbeat.go","proc_frame_decoder.go","tran_tcp.go","tran_unix.go","tran_reference.go"],
  [("mutex Lock / deferred Unlock around table accesses","the listed files")])
p("C19","Statistics count user traffic exactly",
  "An enabled statistics counter raises its transmit count by one for each user message passed down and its receive count by one for each user message passed up, and for nothing else, neither control messages nor dropped ones nor by-reference traffic. A statistics request is answered once, on the connection it came from, with the current counts and the stack's name, and neither requests nor responses are passed up.",
  ["inputs","histories"],"every message, tag, count and configuration",
  "No existing test touches the statistics counter.",
  ["proc_stat_counter.go"],[("counter updates and tag dispatch","proc_stat_counter.go")])
p("C20","A closed connection stays closed and performs no I/O",
  "Closing a TCP, Unix or reference connection makes it report closed from then on, closes the underlying socket, and later reads, writes, sends or receives move no data; while open, reads and writes pass exactly the caller's bytes, counts and errors through. Only reference connections report by-reference use; they carry each non-nil value unchanged to the opposite side only, and the calls of the other kind always fail.",
  ["inputs","histories"],"every call sequence on every kind of connection",
  "No existing test touches the transports.",
  ["tran_tcp.go","tran_unix.go","tran_reference.go"],[("closed flag checked before I/O","Read/Write/GetReference/SetReference/Close of the connections")])
p("C21","Transports start once and stop completely",
  "Running a running transport changes nothing; running a stopped one starts exactly one acceptor or dialer of the configured role. Stopping a running transport closes its listener if any, ends its supply of connections and closes every connection it has handed out, after which it can be run again; stopping a stopped one does nothing. Reference transports with equal address share one channel pair, which is released exactly when the last of them stops.",
  ["histories","configurations"],"every sequence of run, hand-out and stop on every kind of transport",
  "No existing test touches the transports.",
  ["tran_tcp.go","tran_unix.go","tran_reference.go"],[("isRunning flag, connection list, reference-counted channel table","Run/Stop/saveConnection/dropConnections")])
p("C22","Configuration calls are exact and chainable",
  "Every setter of a stack, endpoint, endpoint datum, context, processor, feature or transport returns the very object it was called on (for processors and transports as that object), changes exactly the named setting, and the matching getter returns the last value set; options never set read as absent. Typed option lookup returns the stored value only when it has exactly the requested type and otherwise the given default, and says which.",
  ["inputs","histories","configurations"],"every object kind, option name and value of any type",
  "No existing test touches configuration.",
  ["utils.go","proc_base.go","feat_base.go","endp_default.go","ustack_default.go","tran_tcp.go","tran_unix.go","tran_reference.go"],
  [("option maps and fluent setters","the listed files")])
p("C23","The transport side moves each message exactly once",
  "Every chunk or reference received from a connection is passed up exactly once, on its connection and with exactly the bytes or value received, in order; a failed or empty receive closes that connection, announces its closing and ends reception on it. A message sent down is written exactly once to its own connection and no other, as bytes or as reference according to the connection's kind; a failing send closes and announces that connection, and messages without connection or buffer are dropped.",
  ["inputs","histories","fault_sequences"],"every message, connection kind and I/O outcome",
  "No existing test touches the lower end.",
  ["proc_lowerdeck.go"],[("receive goroutine per connection; OnUpperData","proc_lowerdeck.go")])
p("C24","Echo, loopback and discard redirect messages exactly",
  "An enabled echo sends every received message back down exactly once and passes nothing up, a loopback sends every outgoing message back up exactly once and passes nothing down, and an enabled discarder drops every received message; echo and discarder pass outgoing messages down exactly once. In each case the message is handed on unmodified on its own connection.",
  ["inputs","configurations"],"every message and enable setting",
  "No existing test touches these processors.",
  ["proc_echo.go","proc_loopback.go","proc_discarder.go"],[("OnUpperData/OnLowerData redirection","the listed files")])
p("C25","End-to-end delivery is ordered and exactly-once under every schedule",
  "Between two started stacks with matching processors, every message sent by an endpoint on an open connection arrives exactly once and in sending order at the addressed remote endpoint, under every goroutine schedule.",
  ["schedules","histories"],"all schedules of all goroutines of both stacks",
  "No existing test runs a stack.",
  ["proc_upperdeck.go","proc_lowerdeck.go","tran_tcp.go"],[("one goroutine per endpoint and per connection","proc_upperdeck.go, proc_lowerdeck.go")])
p("C26","Deleted endpoints and stopped transports stop consuming",
  "After an endpoint is deleted or a transport is stopped, the goroutines serving it eventually terminate and take no further data from its queues.",
  ["schedules","histories"],"all schedules and deletion points",
  "No existing test deletes endpoints or transports.",
  ["proc_upperdeck.go","tran_tcp.go","tran_unix.go","tran_reference.go"],[("stop channels, closing of listeners and queues","the listed files")])
p("C27","JSON and GOB codecs are inverse on every encodable value",
  "Decoding what the JSON or GOB codec encoded yields a value equal to the original for every value of the configured type that its encoding can represent.",
  ["inputs"],"all values of all encodable types",
  "No existing test touches the codecs.",
  ["proc_codec_json.go","proc_codec_gob.go"],[("encoding/json and encoding/gob","OnUpperData/OnLowerData")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
