#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=hook)))

prop("C01","Inbound bytes reach the application exactly once and in order",
 "For every connection, the data handed to OnMessage, concatenated, is exactly the byte stream received from the peer: nothing lost, duplicated, altered or reordered, however the stream is cut into reads. With the default protocol every received byte is delivered by the event that read it; with a custom protocol, bytes that do not yet form a frame stay available and are offered again, followed by what arrives later, in order.",
 ["inputs","histories"],"all byte contents, all read sizes 1..65536, all segmentations of the stream into up to 3 (quick) / 4 (thorough) reads, all frame sizes of a length-prefixed protocol, replies interleaved",
 "The echo test samples random sizes over loopback; it never controls segmentation, frame/segment alignment, or a reply produced while unparsed bytes remain.",
 ["connection.go","protocol.go","eventloop/eventloop.go"],
 [("read path: fast path over the packet buffer, carry-over of the unparsed rest","connection.go handleRead"),("protocol loop","connection.go handlerProtocol"),("default protocol unpacking and user buffer growth","protocol.go DefaultProtocol.UnPacket")],
 [("inBuffer","received bytes not yet unpacked","Connection"),("packet buffer","per-loop read buffer shared by all connections of the loop","EventLoop")],
 ["OnMessage","Connection.ReadBufferLength"])

prop("C02","Outbound bytes reach the socket exactly once and in order",
 "While a connection stays open, the bytes accepted by its socket, followed by the bytes still pending in its write buffer, are exactly the concatenation, in order, of the packets of every executed Send and of the replies OnMessage returned. This holds however the kernel splits, refuses (EAGAIN) or partially accepts each write.",
 ["inputs","fault_sequences","histories"],"all packet sizes and contents, every short write / EAGAIN result of every write, up to 4 (quick) / 5 (thorough) send, reply and writable steps",
 "Loopback sockets rarely give short writes and never at chosen offsets; tests do not control the result of each write.",
 ["connection.go"],[("direct write then buffering of the unsent rest","connection.go sendInLoop"),("flush of both halves of the ring buffer","connection.go handleWrite")],
 [("outBuffer","bytes accepted from the application and not yet by the kernel","Connection")],["write(2)","Connection.WriteBufferLength"])

prop("C03","Backlogged output is always flushed, and reading always resumes",
 "Whenever an open connection has unsent output its socket is registered for writability, and once the backlog is drained it is registered for reading again, so that if the peer keeps accepting data every pending byte is written and later input is still processed. A connection is never left with pending output, or with unread input, and no event registered that would wake it.",
 ["fault_sequences","histories"],"every sequence of up to 4 (quick) / 5 (thorough) sends, readable and writable events with every result of each write; then a fair phase in which the socket accepts everything",
 "A missed re-registration only shows after a partial write at the right moment, which loopback tests do not produce.",
 ["connection.go","eventloop/eventloop.go","poller/epoll.go"],[("interest switching","connection.go sendInLoop/handleWrite"),("epoll masks","poller/epoll.go EnableRead/EnableReadWrite")],
 [],["epoll_ctl(2)","write(2)","OnMessage"])

prop("C04","Connection callbacks: OnConnect, then OnMessage, then OnClose once",
 "For every accepted connection OnConnect is called exactly once and before any OnMessage; OnClose is called exactly once when the connection ends for whatever reason (peer close, read or write error, hang-up, Close, idle timeout, server stop), and no OnMessage follows it. In OnClose and ever after, Connected reports false and Send and Close return ErrConnectionClosed. The callbacks of the connections of one loop never run at the same time.",
 ["histories","fault_sequences","schedules"],"every history of up to 4 (quick) / 5 (thorough) events among data, peer close, read/write errors, hang-up, Close called in and out of callbacks, repeated Close, Send after close",
 "Tests close a connection in one or two fixed ways; combinations (close during a failing write, double Close queued, error while a backlog is pending) are not reached.",
 ["connection.go","server.go"],[("single-shot close guarded by the connected flag","connection.go handleClose"),("OnConnect before registration","server.go handleNewConnection")],
 [("connected","whether the connection is open","Connection")],["Handler callbacks","Connection.Connected","errors of Send and Close"])

prop("C05","A descriptor is closed exactly once and never used after its close",
 "Every accepted socket descriptor is deregistered from its poller and closed exactly once when its connection ends, and after that close the library performs no read, write, registration or close on it, so a descriptor number reused by a newer connection is never touched by an older one. No descriptor of an ended connection is leaked.",
 ["histories","fault_sequences","schedules"],"same histories as C04, with tasks (Send, Close) still queued when the connection ends, and the descriptor number reused by a new connection",
 "Use after close needs a queued task or a stale event plus descriptor reuse at the right moment; no test does that.",
 ["connection.go","eventloop/eventloop.go"],[("DeleteFdInLoop before close(2)","connection.go handleClose"),("connected re-checked inside queued tasks","connection.go Send/Close")],
 [("sockets","fd to handler map of one loop","EventLoop")],["close(2)","epoll_ctl(2)","read(2)/write(2)"])

prop("C06","Every task queued on an event loop runs exactly once, in order, on the loop",
 "A function passed to QueueInLoop from any goroutine, including from a function already running on the loop, is executed exactly once by the loop, without needing any further event; functions queued by one goroutine run in the order they were queued. No interleaving of producers with the loop loses a wake-up.",
 ["schedules"],"all interleavings (context-bounded) of 2 producers queueing up to 3 tasks with the polling loop, preemption possible at every atomic, lock and system call; tasks that queue further tasks",
 "The existing test queues ten functions and checks nothing; a lost wake-up needs a particular interleaving of the wake flag, the queue swap and the eventfd.",
 ["eventloop/eventloop.go","poller/epoll.go"],[("wake flag reset before the queue swap","eventloop/eventloop.go handlerEvent/QueueInLoop"),("double-buffered task queue","eventloop/eventloop.go doPendingFunc"),("eventfd wake-up","poller/epoll.go Wake/Poll")],
 [("needWake","whether the next producer must write the eventfd","EventLoop"),("taskQueueW/taskQueueR","double buffer of pending tasks","EventLoop")],["execution of queued functions"])

prop("C07","Stop ends every loop and closes every connection",
 "Stopping a running server makes Start return: the listener loop and all worker loops end, every connection open at that time is closed with exactly one OnClose, its descriptor is closed, and the listening descriptors are closed. This holds for every interleaving of Stop with connection activity.",
 ["schedules","histories"],"Stop against up to 2 open connections and up to 2 loops, all context-bounded interleavings of the stopper with the loops",
 "Stop is only exercised after sleeps, so the loops are always parked; what happens when a loop is between two steps is never tried, and nobody counts OnClose.",
 ["server.go","eventloop/eventloop.go","poller/epoll.go","listener.go"],[("stop task closing all sockets","eventloop/eventloop.go Stop"),("running flag checked after a wake-up","poller/epoll.go Poll/Close"),("listener close","listener.go Close")],
 [],["Start returning","OnClose","close(2)"])

prop("C08","Idle connections are closed, active ones are not",
 "With an idle timeout T configured, a connection is closed by it only if no event arrived on the connection during the last T, and a connection on which nothing arrives is closed once T has elapsed (up to timer latency). Without an idle timeout no connection is ever closed for inactivity.",
 ["inputs","histories"],"all timeouts from 1 ms to 1 h, all activity instants (nanosecond clock), timer fired at any instant at or after its deadline, up to 2 (quick) / 3 (thorough) activities",
 "TestIdleTime covers one timeout (3 s) and no activity at all.",
 ["connection.go"],[("activity stamp","connection.go HandleEvent"),("timer re-arming","connection.go closeTimeoutConn")],
 [("activeTime","instant of the last event","Connection")],["OnClose","timers armed"])

prop("C09","Load balancing strategies keep their contract",
 "Round robin gives the i-th new connection to loop i mod n, for every number of loops; least connection always returns a loop whose connection count is minimal among all loops. Every connection is served by the loop the strategy chose, and servers with the default strategy, or with strategies of their own, do not influence one another.",
 ["inputs","configurations","histories"],"1..5 loops (quick) / 1..8 (thorough), arbitrary 64-bit connection counts, up to 2n picks",
 "Tests cover one loop count and one set of counts (least connection with counts drawn at random).",
 ["load_balance.go","server.go"],[("index arithmetic","load_balance.go RoundRobin"),("minimum search","load_balance.go LeastConnection")],[],["returned loop"])

prop("C10","Connection counts and buffer lengths reported are the real ones",
 "A loop's ConnectionCount equals the number of connections currently registered on it after every event, and never becomes negative. After every event ReadBufferLength and WriteBufferLength equal the number of received bytes not yet consumed by the protocol and of output bytes not yet accepted by the kernel.",
 ["histories","fault_sequences"],"histories as in C02 and C04, including failing registrations",
 "Counts are sampled by one test after a sleep, never after errors or failing registrations; buffer lengths are tested nowhere.",
 ["eventloop/eventloop.go","connection.go"],[("count on add and delete","eventloop/eventloop.go AddSocketAndEnableRead/DeleteFdInLoop"),("length snapshots","connection.go HandleEvent")],[],["EventLoop.ConnectionCount","Connection.ReadBufferLength","Connection.WriteBufferLength"])

prop("C11","Per-connection key/value store behaves as a map",
 "Get returns the value of the latest Set for that key and reports presence exactly when the key was set and not deleted since; operations on one key never affect another. Concurrent Set, Get and Delete are each atomic. Every connection has its own store and its own context value, both empty when it is new and kept until changed.",
 ["inputs","histories","schedules"],"all sequences of up to 4 (quick) / 5 (thorough) operations over keys of symbolic content, and two goroutines interleaved",
 "One test does three inserts and one delete with fixed keys and a single goroutine.",
 ["context.go"],[("mutex around the map","context.go")],[],["KeyValueContext.Get"])

prop("C12","Every ready descriptor is dispatched to its own handler with the right events",
 "For every epoll event mask, a readable or closing descriptor is reported readable, a writable or failed one writable, and a hang-up without data as an error, to the handler registered for that descriptor and to no other, exactly once per ready event and in every batch size, including a batch that fills the event array. A descriptor with no registered handler is ignored.",
 ["inputs","histories"],"all 32-bit event masks, batches of 1..3 descriptors in any order together with a wake-up, and a full batch",
 "Tests poll with no descriptor at all.",
 ["poller/epoll.go","eventloop/eventloop.go"],[("mask translation and dispatch","poller/epoll.go Poll"),("fd to socket lookup","eventloop/eventloop.go handlerEvent")],[],["Socket.HandleEvent"])

prop("C13","Accepted sockets are made non-blocking and handed over exactly once",
 "Each successful accept leads to exactly one new connection, whose descriptor was put in non-blocking mode before use, whose peer address is the accepted one, and which is registered for reading on exactly one loop. A failed accept or failed set-up creates no connection, leaks no descriptor and does not stop later accepts.",
 ["fault_sequences","inputs"],"every result of accept and of setting non-blocking mode for up to 2 (quick) / 3 (thorough) readiness events, all IPv4/IPv6 peer addresses and ports (host rendering on sampled addresses excluded)",
 "Accept failures and set-up failures are never injected.",
 ["listener.go","server.go","connection.go"],[("accept path","listener.go HandleEvent"),("hand-over","server.go handleNewConnection"),("peer address","connection.go sockAddrToString")],[],["accept(2)","OnConnect","Connection.PeerAddr"])

prop("C14","Protobuf framing round-trips under every segmentation",
 "Messages packed with PackMessage and concatenated on the wire are unpacked, in order, to exactly the same message types and payloads, however the byte stream is segmented, for every type name up to 65535 bytes and every payload including empty ones. No message is delivered before all its bytes arrived, and a complete message is delivered without waiting for more input.",
 ["inputs","histories"],"two messages with arbitrary contents and sizes (types up to 4, payloads up to 65536 bytes), every cut of the stream into up to 3 segments, every ring buffer position",
 "No test covers the protobuf plugin.",
 ["plugins/protobuf/protobuf.go","plugins/protobuf/protocol.go"],[("encoder","plugins/protobuf/protobuf.go PackMessage"),("decoder","plugins/protobuf/protocol.go UnPacket")],[],["UnPacket results"])

prop("C15","Malformed protobuf frames never crash the server",
 "Whatever bytes a peer sends, unpacking them with the protobuf plugin terminates without panicking, never delivers bytes outside the received frame, and a malformed frame does not deliver a message.",
 ["inputs"],"every byte content of up to 64 received bytes, all 32-bit length and 16-bit type-length fields",
 "No test sends malformed frames; the crash needs inconsistent length fields.",
 ["plugins/protobuf/protocol.go"],[("length checks","plugins/protobuf/protocol.go UnPacket")],[],["UnPacket results","process survival"])

prop("C16","WebSocket frame headers encode and decode as RFC 6455 says",
 "Encoding any header produces the RFC 6455 layout with the shortest length form, decoding it gives the same header back, and any well-formed header received decodes to the fields RFC 6455 assigns to its bits. A frame built from a payload consists of exactly that header followed by exactly that payload. The helpers on opcodes, reserved bits and status codes classify every value as RFC 6455 does.",
 ["inputs"],"all flags, opcodes, masks and 63-bit lengths; all received header bytes; payloads of any length up to 70000",
 "No test encodes or decodes headers; the 16-bit and 64-bit length forms are hit only by chance.",
 ["plugins/websocket/ws/write.go","plugins/websocket/ws/read.go","plugins/websocket/ws/frame.go"],[("header encoder","ws/write.go WriteHeader"),("header decoder","ws/read.go VirtualReadHeader"),("frame builder","ws/frame.go FrameToBytes")],[],["encoded bytes","decoded Header"])

prop("C17","WebSocket masking is the RFC 6455 XOR for every length and offset",
 "Masking a payload XORs byte i with mask byte (offset+i) mod 4, for every payload length and offset, and touches no byte outside the payload; applying it twice restores the payload.",
 ["inputs"],"all payload contents, masks, payload lengths 0..24 (quick) / 0..64 (thorough), offsets 0..7, all alignments inside a larger buffer",
 "The word-wise fast path with its head and tail loops is only exercised at offset 0 through random lengths.",
 ["plugins/websocket/ws/cipher.go"],[("head, word and tail loops","ws/cipher.go Cipher")],[],["payload bytes"])

prop("C18","WebSocket frames are delivered exactly once under every segmentation",
 "After the handshake, every complete frame received is delivered to the handler exactly once, in order, with its opcode and its unmasked payload, however the bytes are cut into segments, including cuts inside or right after the header. An incomplete frame delivers nothing and loses nothing, and nothing behind a malformed header is delivered.",
 ["inputs","histories"],"two masked frames with arbitrary contents and payload sizes in all three length forms, every cut of the stream into up to 3 (quick) / 4 (thorough) segments",
 "The client of the test writes each frame in one call; a segment ending inside or right at the end of a header is never produced.",
 ["plugins/websocket/protocol.go","plugins/websocket/ws/read.go","connection.go"],[("virtual read, flush and revert","plugins/websocket/protocol.go UnPacket"),("header reader","ws/read.go VirtualReadHeader")],[],["UnPacket results","OnMessage"])

prop("C19","WebSocket control frames get the replies RFC 6455 requires",
 "A ping is answered by one unmasked pong with the same payload; a close frame is answered by one close frame carrying the same valid status code, or a protocol error code when the received code or reason is invalid, or an empty one when the received frame was empty; a close frame body never exceeds 125 bytes. Control frames are never passed to the application as messages. Every answer arrives whole and in order, even when the kernel takes the output slowly and even though the close answer is followed by the end of the stream.",
 ["inputs"],"all payloads up to 125 bytes for pings, all 16-bit status codes, reasons with symbolic bytes up to 3 (quick) / 4 (thorough) and of any length up to 200 bytes",
 "Tests send one close frame with one code and no ping.",
 ["plugins/websocket/wrap.go","plugins/websocket/ws/util/util.go","plugins/websocket/ws/frame.go","plugins/websocket/ws/read.go"],[("control dispatch","plugins/websocket/wrap.go OnMessage"),("status code checks","ws/util/util.go CheckCloseFrameData"),("close body","ws/frame.go NewCloseFrameBody")],[],["reply bytes"])

prop("C20","The WebSocket handshake accepts exactly the valid upgrade requests",
 "An upgrade request is accepted exactly when it is a GET with HTTP/1.1 or a later 1.x version and carries Host, Upgrade: websocket, a Connection list containing Upgrade, Sec-WebSocket-Version: 13 and a 24-byte Sec-WebSocket-Key, header names and the values of Upgrade and Connection being case-insensitive and the headers in any order, and no user callback rejects it; otherwise it is refused with an error and the connection is not upgraded. The 101 response carries the accept key RFC 6455 derives from the request's key, the sub-protocol selected and the headers the user supplies, in whichever form; a refusal carries the status, reason and headers the callback chose.",
 ["inputs"],"requests built from the five mandatory headers in symbolic order, presence, name case and values, symbolic method, version digits and callbacks' verdicts",
 "Tests perform only successful handshakes by one client library.",
 ["plugins/websocket/ws/ws.go","plugins/websocket/ws/http.go","plugins/websocket/ws/nonce.go","plugins/websocket/ws/util.go"],[("request parsing","ws/ws.go Upgrade"),("header canonicalisation","ws/util.go canonicalizeHeaderKey"),("accept key","ws/nonce.go")],[],["handshake response bytes","error"])

prop("C21","The handshake is segmentation-proof and keeps the bytes that follow it",
 "An upgrade request split at any point is processed once complete and answered exactly once, and frames sent right behind the request in the same segment are kept and delivered afterwards. Nothing is answered before the request is complete.",
 ["inputs","histories"],"every cut of a request (and of request + following frame) into two segments",
 "The test client waits for the response before sending frames and writes the request in one call.",
 ["plugins/websocket/protocol.go","plugins/websocket/ws/ws.go","connection.go"],[("end-of-request search","ws/ws.go Upgrade"),("upgraded flag","plugins/websocket/protocol.go UnPacket")],[],["OnMessage","write(2)"])

prop("C22","WebSocket application messages are delivered and answered verbatim",
 "A data frame's payload reaches the WebSocket handler unchanged, and the bytes it returns go back as one final, unmasked frame of the text or binary type it chose, with exactly those bytes; nothing is sent when it returns nothing.",
 ["inputs"],"all data opcodes and flags, payload and reply contents of up to 70000 bytes, both message types",
 "Only the text type and random sizes up to 3 KB are sampled.",
 ["plugins/websocket/wrap.go","plugins/websocket/ws/frame.go","plugins/websocket/ws/util/util.go"],[("wrapper","plugins/websocket/wrap.go OnMessage"),("packing helper","ws/util/util.go PackData")],[],["reply bytes"])

prop("C23","Send delivers from any goroutine, in call order, with its completion callback",
 "Send on an open connection returns nil and its data is packed by the connection's protocol exactly once, on the loop, in call order per goroutine, and its completion option is called once, with the same data, after the data was handed to the connection, from when on the caller may use its buffer again. Send on a closed connection returns ErrConnectionClosed and writes nothing; data queued before a close but executed after it is never written.",
 ["schedules","histories"],"two goroutines with 2 sends each against the loop and a concurrent Close, all context-bounded interleavings; symbolic data",
 "Tests send from the loop goroutine only, and never race with Close.",
 ["connection.go","connection_options.go","eventloop/eventloop.go"],[("queued send","connection.go Send"),("options","connection_options.go SendInLoop")],[],["Send result","write(2)","completion callback"])

prop("C24","Scheduled tasks fire at the requested delay and period",
 "RunAfter schedules its function once after the given delay and RunEvery schedules it repeatedly, each time exactly one period after the previous due time, for every duration; connection timers and user timers do not disturb one another. Nothing scheduled starts once Stop has returned.",
 ["inputs"],"all delays and periods from 1 ns to 10^6 s, 3 consecutive firings",
 "Two example tests use one second.",
 ["server.go","everyscheduler.go"],[("scheduler","everyscheduler.go Next"),("delegation to the timing wheel","server.go RunAfter/RunEvery")],[],["timer requests"])

prop("C25","Server configuration is honoured and failures to start are reported",
 "NewServer uses exactly the options given, with the documented defaults for the others (tcp, :1388, one loop per CPU when the count is not positive, default protocol, round robin, no idle timeout), and returns an error, without leaving descriptors open, when the handler is nil, listening fails or a loop cannot be created.",
 ["configurations","fault_sequences"],"every subset of options with symbolic values, failure injected at each system call of NewServer",
 "Tests only start servers that succeed, with a few option sets.",
 ["options.go","server.go","listener.go","eventloop/eventloop.go","poller/epoll.go"],[("defaults","options.go newOptions"),("error paths","server.go NewServer, listener.go newListener, poller/epoll.go Create")],[],["Server.Options","descriptors open after an error"])

prop("C26","Log messages are emitted exactly when their level is enabled",
 "A message logged at a level is passed to the configured logger exactly when its level does not exceed the configured one, exactly once, with the configured prefix, taken as plain text, followed by the arguments unchanged. The level is info unless GEV_LOG_LEVEL names another in the environment or SetLevel changes it.",
 ["inputs","configurations"],"all integer levels for threshold and message, all logging entry points, empty and non-empty prefix",
 "No test covers the log package.",
 ["log/log.go"],[("level filter and prefix","log/log.go WithLevel/Log")],[],["Logger.Log/Logf calls"])

prop("C27","The example length-prefixed protocol round-trips under every segmentation",
 "Non-empty messages packed by the example custom protocol are unpacked to the same messages in order, however the stream is segmented and wherever the data lies in the ring buffer.",
 ["inputs","histories"],"two messages of any content up to 65536 bytes, every cut into up to 3 segments",
 "The example has no tests.",
 ["example/protocol/protocol.go"],[("virtual reads","example/protocol/protocol.go UnPacket")],[],["UnPacket results"])

prop("C31","ShutdownWrite sends everything submitted before, then the end of the stream",
 "After ShutdownWrite on an open connection every byte submitted before it (Sends, replies already returned, and the reply of the message being handled) still reaches the socket in order, and only then is the sending side shut down, exactly when the last of it has been accepted; nothing is written behind it. The connection stays open for input, which is still delivered, until the peer ends its side or an error occurs, and then ends with one OnClose. On a closed connection ShutdownWrite returns ErrConnectionClosed and touches no descriptor.",
 ["histories","fault_sequences"],"up to 4 packets submitted before it in every way, every window, ShutdownWrite from outside and from callbacks, before, during and after the end of the connection, with the descriptor number reused",
 "Tests call ShutdownWrite on idle connections only; a half-close that overtakes pending output or hits a reused descriptor needs a slow peer or a racing close.",
 ["connection.go"],[("half-close","connection.go ShutdownWrite"),("flush of pending output","connection.go handleWrite")],[],["shutdown(2)","write(2)","OnMessage","OnClose"])

prop("C32","WebSocket extensions are negotiated as offered and accepted",
 "When an Extension callback is set, the Sec-WebSocket-Extensions header of the 101 response, and the Handshake returned, list exactly those well-formed extensions offered by the client, over all its Sec-WebSocket-Extensions headers, that the callback accepts (of several offers of one extension, the first accepted), with their parameters, in the order offered; without any there is no such header. A malformed list is refused with status 400. ExtensionCustom, when set, is used instead and gets each header's value and what was selected so far; without either callback the header is ignored.",
 ["inputs","configurations"],"up to 3 (thorough 4) extensions, distinct or repeated, with up to 2 parameters in one or two headers, every set of accepted ones, custom callbacks with either verdict, malformed lists",
 "No test offers an extension.",
 ["plugins/websocket/ws/ws.go","plugins/websocket/ws/http.go"],[("extension headers","ws/ws.go Upgrade"),("selection","ws/http.go btsSelectExtensions"),("response","ws/http.go httpWriteResponseUpgrade")],[],["handshake response bytes","Handshake.Extensions"])

prop("C28","Throughput and latency stay at the published level",
 "The server sustains the throughput of the published benchmarks.",
 ["configurations"],"benchmark configurations","Performance is measured by benchmarks, not by unit tests.",
 ["benchmarks"],[("event loop design","eventloop")])

prop("C29","The Windows and kqueue back ends give the same guarantees",
 "On Windows and on BSD/macOS the same connection guarantees hold as on Linux.",
 ["configurations","schedules"],"the code of server_std.go and poller/kqueue.go","CI runs the same tests there; they are not compiled on Linux.",
 ["server_std.go","poller/kqueue.go"],[("goroutine-per-connection back end","server_std.go"),("kqueue poller","poller/kqueue.go")])

prop("C30","Waiting loops sleep: no state makes a loop spin",
 "A loop uses the processor only to handle something: when nothing new has happened, every event loop ends up blocked in its poller. No state of a connection - unread input behind pending output, a half-closed or failed peer, a full send buffer - makes the poller return again and again with nothing being done about it, and no wake-up is left pending for ever.",
 ["histories","fault_sequences"],"every sequence of up to 3 (quick) / 4 (thorough) sends, receives, half-closes, resets and window changes, with every short write; more than 12 immediate returns of epoll_wait without any progress count as spinning",
 "A spinning loop still answers every request, so functional tests pass.",
 ["connection.go","eventloop/eventloop.go","poller/epoll.go"],[("interest set of the descriptor","connection.go sendInLoop/handleWrite"),("wait loop","poller/epoll.go Poll")],
 [("registered events","what the poller waits for on a descriptor","Poller")],["epoll_wait(2) returning without progress"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P),"properties")
