package main

// Which harnesses decide which property, and within which bounds.

var commonAssume = []string{
	"the Go compiler, the SSA builder and z3 are trusted; each reported violation is reproduced on compiled code, and solver models of passing paths are re-run on it",
	"the kernel (sockets, epoll, eventfd), goroutine scheduling, clock and timing wheel are models (model/): the same models run under the engine and in the compiled replay",
	"goroutine interleavings are explored at system calls, atomics, locks, channel operations and spin waits; plain memory accesses between them are not preempted",
}

var backlog = []Entry{
	{H: "c02", Fn: "Backlog", Bounds: "3 (thorough 4) steps out of {input with a reply of 0..2 bytes, one Send, two Sends, window opened by 1..3}, initial window 0..3, all contents", Reach: []string{"flushed"}},
	{H: "c02", Fn: "Partial", Bounds: "2 steps as above with packets up to 3 bytes; each of the first 3 (thorough 4) writes accepts any part or nothing", Reach: []string{"flushed"}},
	{H: "c02", Fn: "Wrap", Bounds: "a backlog that wraps around its buffer (first packet 2..4 (thorough 5) bytes, any part taken, second packet), then 3 (thorough 4) writes that accept any part or nothing, any window, a third packet or not", Reach: []string{"flushed"}},
	{H: "c02", Fn: "Wide", Bounds: "two packets of any size 1..200000 against any window 0..300000, reopened by any amount", Reach: []string{"flushed"}},
	{H: "c02", Fn: "Many", Bounds: "600 (thorough 1200) packets of 1..5 bytes of any content, window of 0..2 bytes, opened by 37 now and then and by 613 in the end", Steps: 400000000, Reach: []string{"flushed"}},
}

var custom = Entry{H: "c01", Fn: "Custom", Bounds: "length-prefixed protocol, every frame size and every cut, replies interleaved", Reach: []string{"delivered"}}

var heirs = Entry{H: "c01", Fn: "Heirs", Bounds: "a connection ending in 7 ways with 0..2 bytes of input and output left or not, then two connections of the same loop with partial input and backlogs, 2 of 3 things each in turn", Reach: []string{"apart"}}

var lifeSeq = Entry{H: "c04", Fn: "Seq", Bounds: "one connection, 3 (thorough 4) steps out of {input answered by nothing, a reply, Close, Send+Close, Close+Send+Close+reply; peer shuts down, resets, hangs up; Close; Close twice + Send; Send; send window shut or opened; idle time passes; a read or a write fails}, with and without idle timeout", Reach: []string{"done", "ended"}}

var lifeBurst = Entry{H: "c04", Fn: "Burst", Bounds: "3 (thorough 4) things out of {input, end of stream, reset, hang-up, Close, Send, ShutdownWrite, idle time passing} happening to a connection before the server runs again; window open, shut, or shut with output pending; input answered by nothing, a reply, Close, or ShutdownWrite and a reply", Reach: []string{"done", "ended"}}

var lifeConc = Entry{H: "c04", Fn: "Conc", Bounds: "a goroutine calling Send, ShutdownWrite or Close, another calling Close, input, end of stream, reset or the idle timeout, and a second peer that connects once the first descriptor is free, its number reused or not; every schedule with at most 1 (thorough 2) deviations", Reach: []string{"reused"}}

var halfClose = []Entry{
	{H: "c31", Fn: "Flush", Bounds: "up to 2 (thorough 3) packets of 1..2 bytes submitted before by Send or as replies, ShutdownWrite from outside, from OnMessage together with a reply, or behind a Send and twice; window 0..3 reopened by 1..2 bytes at a time; then 2 bytes of input and the end of the stream", Reach: []string{"half-closed"}},
	{H: "c31", Fn: "Wrap", Bounds: "a backlog of 2..4 (thorough 5) bytes in part flushed and refilled so that it wraps around, any number of bytes accepted by the next 3 (thorough 4) writes, ShutdownWrite before or after them", Reach: []string{"half-closed"}},
	{H: "c31", Fn: "Ended", Bounds: "ShutdownWrite before, during and after the end of the connection by reset, Close, or Close and end of stream, with output pending or not; the descriptor number reused", Reach: []string{"ended"}},
}

var stops = []Entry{
	{H: "c07", Fn: "Quiet", Bounds: "up to 2 connections on 2 loops in 4 states each (idle, pending output, half closed, hung up), Stop from another goroutine; every schedule with at most 2 (thorough 3) preemptions", Reach: []string{"stopped"}},
	{H: "c07", Fn: "Busy", Bounds: "Stop against a connection being accepted, input, Send, Close; every schedule with at most 1 (thorough 2) preemptions", Reach: []string{"stopped"}},
	{H: "c07", Fn: "Early", Bounds: "Stop called while Start is starting; every schedule with at most 1 (thorough 2) preemptions", Reach: []string{"stopped"}},
}

var accepts = []Entry{
	{H: "c13", Fn: "Faults", Bounds: "3 peers, a failure at any system call of accepting and registering them, any strategy", Reach: []string{"done"}},
	{H: "c13", Fn: "Burst", Bounds: "up to 5 peers pending at once, any number of accepts per event, 1..3 loops", Reach: []string{"done"}},
	{H: "c13", Fn: "Many", Bounds: "600 (thorough 2000) peers pending at once, 1..3 loops", Steps: 400000000, Reach: []string{"done"}},
}

var checks = map[string]Check{
	"C01": {Entries: []Entry{
		{H: "c01", Fn: "Default", Bounds: "default protocol, every cut of a short stream into segments, all contents", Reach: []string{"delivered"}},
		{H: "c01", Fn: "Held", Bounds: "the default protocol used by one that takes bytes off first and waits for 2..3 more, every cut of up to 8 (thorough 10) bytes, shared buffer of 1..3 bytes or the real one", Reach: []string{"delivered"}},
		{H: "c01", Fn: "Wide", Bounds: "default protocol, one burst of any size up to 196608 bytes (three reads)", Reach: []string{"delivered"}},
		custom,
		{H: "c01", Fn: "Large", Bounds: "a protocol that waits for any number of bytes up to 150000 and then for as many again, the stream in bursts cut anywhere", Reach: []string{"delivered"}},
		{H: "c01", Fn: "Two", Bounds: "two connections sharing a loop (and its packet buffer), interleaved partial frames", Reach: []string{"both"}},
		{H: "loops", Fn: "Raw", Bounds: "two connections of two loops, two messages each, any content, part of them received before; a scheduling point before every statement of gev, every schedule with at most 1 (thorough 2) preemptions", Deep: 700, Reach: []string{"delivered"}},
		{H: "c01", Fn: "Many", Bounds: "1500 (thorough 6000) messages of two bytes in one burst, the first 300 of any content, each answered, the first one cut or not, one incomplete at the end or not", Steps: 400000000, Reach: []string{"delivered"}},
		heirs,
	}},
	"C02": {Entries: append([]Entry{heirs,
		{H: "c02", Fn: "Scratch", Bounds: "2 bursts of 1..2 (thorough 1..3) messages, each answered by 0..2 bytes of any content from one buffer used again by the application or the protocol, window of 0..2 bytes reopened by 0..2, or open", Reach: []string{"answered"}},
	}, backlog...)},
	"C03": {Entries: backlog},
	"C04": {Entries: []Entry{lifeSeq, lifeBurst, lifeConc,
		{H: "c04", Fn: "Apart", Bounds: "two connections of one loop, one being accepted while the other is served, ended or timed out, a task switch inside every callback; every schedule with at most 1 (thorough 2) deviations", Reach: []string{"apart"}},
	}},
	"C05": {Entries: []Entry{lifeSeq, lifeBurst, lifeConc, halfClose[1]}},
	"C06": {Entries: []Entry{
		{H: "c06", Fn: "Seq", Bounds: "3 tasks queued from outside, from a running task or from a callback, in every combination", Reach: []string{"all ran"}},
		{H: "c06", Fn: "Conc", Bounds: "2 producers queueing 2 tasks each, one of which queues another, scheduled at every field access of the loop and poller; every schedule with at most 2 (thorough 3) preemptions; data races reported", Reach: []string{"all ran"}},
		{H: "c06", Fn: "Coarse", Bounds: "as Conc with more tasks, scheduled at system calls, atomics and locks", Reach: []string{"all ran"}},
		{H: "c06", Fn: "Many", Bounds: "1023, 1024, 1025, 2500 and 66000 (thorough 270000) tasks queued at once before the loop runs or while it sleeps, as many again by one of them", Steps: 400000000, Reach: []string{"all ran"}},
	}},
	"C07": {Entries: stops},
	"C08": {Entries: []Entry{
		{H: "c08", Fn: "Times", Bounds: "any idle timeout, events at any three times, timer latency and wheel rounding symbolic", Reach: []string{"closed", "closed in the end"}},
		{H: "c08", Fn: "State", Bounds: "any idle timeout, input at any time or none; then output pending (none or a part accepted, input waiting, or the write side shut down) or the write side shut down, entered at any time before the timeout", Reach: []string{"closed"}},
		{H: "c08", Fn: "Two", Bounds: "two connections, activity on one at any time", Reach: []string{"both"}},
		{H: "c08", Fn: "Off", Bounds: "no idle timeout, any times", Reach: []string{"open"}},
	}},
	"C09": {Entries: []Entry{
		accepts[1],
		{H: "c09", Fn: "Robin", Bounds: "1..4 loops, 9 picks, counts symbolic", Reach: []string{"picked"}},
		{H: "c09", Fn: "Servers", Bounds: "two servers of 1..3 and 2 loops with the default strategy, RoundRobin, LeastConnection or the application's own (any choice), 5 (thorough 6; one less with its own strategy) connections or ends of connections at either in any order", Reach: []string{"served"}},
		{H: "c09", Fn: "Least", Bounds: "1..4 loops, connection counts symbolic", Reach: []string{"picked"}},
	}},
	"C10": {Entries: append([]Entry{lifeSeq, lifeBurst, accepts[0], accepts[1], custom, heirs}, backlog...)},
	"C11": {Entries: []Entry{
		{H: "c11", Fn: "Seq", Bounds: "4 (thorough 5) operations on keys of 0..2 bytes of any content, any values", Reach: []string{"done"}},
		{H: "c11", Fn: "Conns", Bounds: "two connections and one made after a close, keys of 0..2 bytes of any content, any context values; every other key up to 16 bytes is absent", Reach: []string{"separate"}},
		{H: "c11", Fn: "Conc", Bounds: "two goroutines with 2 operations each (thorough 3 and 2) on one key, scheduled at every field access of the store; every schedule with at most 2 (thorough 3) preemptions; data races reported", Reach: []string{"linearised"}},
	}},
	"C12": {Entries: []Entry{
		{H: "c12", Fn: "Masks", Bounds: "every 32-bit event mask the kernel can report, each of 5 registrations, an EINTR before it or not", Reach: []string{"dispatched"}},
		{H: "c12", Fn: "Batch", Bounds: "up to 3 (thorough 4) descriptors with 4 masks each, ready together with a wake-up, in the order of registration or any other first, a handler deregistering any descriptor, an EINTR before it or not", Reach: []string{"dispatched"}},
		{H: "c12", Fn: "Full", Bounds: "1023, 1024, 1025 (thorough 1030) descriptors and a wake-up ready at once", Steps: 40000000, Reach: []string{"dispatched"}},
	}},
	"C13": {Entries: accepts},
	"C14": {Entries: []Entry{
		{H: "c14", Fn: "Wire", Bounds: "type name of any length up to 65535, payload of any length up to 70000, any contents", Reach: []string{"packed", "unpacked"}},
		{H: "c14", Fn: "Stable", Bounds: "messages with payloads of up to 300 bytes packed and unpacked while earlier packed ones are still held", Reach: []string{"stable"}},
		{H: "c14", Fn: "Stream", Bounds: "two messages, every cut of the stream into three segments, through the server", Reach: []string{"all delivered"}},
		{H: "c14", Fn: "Many", Bounds: "1100 (thorough 3000) messages of up to 2 and 6 bytes of any content in one segment or cut in the first 14 bytes", Steps: 400000000, Reach: []string{"all delivered"}},
		{H: "loops", Fn: "Proto", Bounds: "one message each, any content, on two loops, cut at 3 places; a scheduling point before every statement of gev and the plugin, every schedule with at most 1 (thorough 2) preemptions", Deep: 700, Reach: []string{"delivered"}},
	}},
	"C15": {Entries: []Entry{
		{H: "c15", Fn: "Direct", Bounds: "any 13 (thorough 17) bytes at any ring-buffer offset", Reach: []string{"malformed", "delivered"}},
		{H: "c15", Fn: "Server", Bounds: "any 12 (thorough 18) bytes through the server", Reach: []string{"served"}},
	}},
	"C16": {Entries: []Entry{
		{H: "c16", Fn: "Encode", Bounds: "every header: 64-bit length, all flags, opcodes and masking keys; no loop bound reached", Reach: []string{"encoded", "decoded"}},
		{H: "c16", Fn: "Decode", Bounds: "any 14 header bytes at each of 21 places of a ring buffer, 3 payload bytes behind them", Reach: []string{"decoded", "refused"}},
		{H: "c16", Fn: "Frames", Bounds: "every constructor, payload of any size up to 70000 and content, any flags, opcode and key", Reach: []string{"framed"}},
		{H: "c16", Fn: "Close", Bounds: "close frames with any status code and reasons of 0, 1, 4, 122..126 and 200 bytes (the first and last 4 of any content)", Reach: []string{"closing"}},
		{H: "c16", Fn: "Classify", Bounds: "any first header byte, any 16-bit status code and range", Reach: []string{"classified"}},
	}},
	"C17": {Entries: []Entry{
		{H: "c17", Fn: "Mask", Bounds: "every payload up to 40 (thorough 140) bytes, every offset and key", Reach: []string{"masked", "restored"}},
	}},
	"C18": {Entries: []Entry{
		{H: "c18", Fn: "Short", Bounds: "two frames with payloads of 0..3 (thorough 0..6) bytes, masked or not, any flags, opcode, key and content, every cut into three segments", Reach: []string{"delivered"}},
		{H: "c18", Fn: "Bytewise", Bounds: "three frames of 0..3 bytes, one byte per segment", Reach: []string{"delivered"}},
		{H: "c18", Fn: "Long", Bounds: "a frame of 126, 127, 300 (thorough 1000) bytes between two small ones, cut at any two places of its header and around its end", Reach: []string{"delivered"}},
		{H: "c18", Fn: "Wide", Bounds: "an unmasked frame of any size up to 140000, cut anywhere", Reach: []string{"delivered"}},
		{H: "c18", Fn: "Malformed", Bounds: "a frame, a 64-bit length with its highest bit set, 8 (thorough 12) bytes of any content, cut anywhere in the header", Reach: []string{"refused"}},
		{H: "c18", Fn: "Two", Bounds: "two (thorough three) connections of one loop with a frame in progress each, cut anywhere, in any order", Reach: []string{"delivered"}},
		{H: "loops", Fn: "Frames", Bounds: "two connections of two loops, one and two frames of 2..3 bytes of any content and key, cut at 2 (thorough 4) places; a scheduling point before every statement of gev and the plugin, every schedule with at most 1 preemption", Reach: []string{"answered"}},
		{H: "c18", Fn: "Many", Bounds: "1100 (thorough 3000) frames of 0..8 bytes of any content in one segment or cut in the first 12 bytes", Steps: 400000000, Reach: []string{"delivered"}},
	}},
	"C19": {Entries: []Entry{
		{H: "c19", Fn: "Ping", Bounds: "payloads of 0..3, 7..9, 124, 125 bytes of any content, once or twice, cut within the first 11 bytes", Reach: []string{"pong"}},
		{H: "c19", Fn: "Close", Bounds: "every 16-bit status code, reasons of 0..5 (thorough 0..10) bytes of any content and of 122, 123 bytes with any end, half a code, empty", Reach: []string{"empty", "half", "bad code", "bad reason", "echo"}},
		{H: "c19", Fn: "Long", Bounds: "close frames of 126, 127, 200 bytes, any code", Reach: []string{"long"}},
		{H: "c19", Fn: "Mixed", Bounds: "two (thorough three) frames of each kind (text, binary, ping, pong, two reserved) with 0..2 bytes ahead of a close frame, cut anywhere", Reach: []string{"mixed"}},
		{H: "c19", Fn: "Slow", Bounds: "a ping, a text frame or nothing ahead of a close frame (empty, code 1000 with 0..2 bytes of reason, half a code) while the kernel takes 0..12 and then 0..12 bytes more", Reach: []string{"answered", "refused"}},
	}},
	"C20": {Entries: []Entry{
		{H: "c20", Fn: "Byte", NoVal: true, Bounds: "two valid requests with any one byte replaced by any value", Reach: []string{"accepted", "refused"}},
		{H: "c20", Fn: "Order", Bounds: "every order of the required headers, any one missing, one of 3 (thorough 5) others anywhere", Reach: []string{"accepted", "refused"}},
		{H: "c20", Fn: "Case", Bounds: "each header name and value with any 5 (thorough 7) neighbouring letters in either case, or all; blanks around values", Reach: []string{"accepted"}},
		{H: "c20", Fn: "Values", NoVal: true, Bounds: "any method of 2..4, version of 3 (thorough 4), protocol of 4, WebSocket version of 0..3, key of 22..26 characters, one changed letter of Upgrade, Connection lists of up to 2 (thorough 3) tokens", Reach: []string{"accepted", "refused"}},
		{H: "c20", Fn: "Versions", Bounds: "minor versions of 1..22 digits", Reach: []string{"accepted", "refused"}},
		{H: "c20", Fn: "Callbacks", Bounds: "every set of callbacks, each accepting, refusing with an error or with a chosen status", Reach: []string{"accepted", "refused"}},
		{H: "c20", Fn: "Headers", Bounds: "a header with any 2 printable characters in each of the 4 forms, in the answer to any request, a request accepted by OnBeforeUpgrade, or a refusal", Reach: []string{"sent"}},
		{H: "c20", Fn: "Protocols", Bounds: "lists of 1..3 of 3 sub-protocols in one or two headers, every set of acceptable ones, custom selection", Reach: []string{"selected", "none"}},
		{H: "c20", Fn: "Server", Bounds: "a valid request and 15 invalid ones through the server, a frame behind them", Reach: []string{"accepted", "refused"}},
		{H: "c20", Fn: "Many", Bounds: "100 (thorough 300) other header lines, one of 9000 (70000) bytes, or one of 600 with 24 of any content, in front of, among or behind the required ones, of which any or none is missing; in one piece or two", Reach: []string{"accepted", "refused"}},
		{H: "loops", Fn: "Upgrades", Bounds: "two requests with different keys and sub-protocols on two loops; a scheduling point before every statement of gev and the plugin, every schedule with at most 1 preemption", Reach: []string{"upgraded"}},
	}},
	"C21": {Entries: []Entry{
		{H: "c21", Fn: "Cuts", Bounds: "a request and two frames behind it, cut anywhere and at 9 further places (thorough: anywhere twice)", Reach: []string{"upgraded"}},
		{H: "c21", Fn: "Bytewise", Bounds: "segments of each size 1..64", Reach: []string{"upgraded"}},
		{H: "c21", Fn: "Wrapped", Bounds: "the request at every place of its ring buffer, up to 5 bytes (thorough: any number) missing, up to 2 bytes behind it", Reach: []string{"accepted", "completed"}},
		{H: "c21", Fn: "Again", Bounds: "a request behind one of 3 refused ones, cut at 8 (thorough: all) places and then anywhere", Reach: []string{"upgraded"}},
		{H: "c21", Fn: "Two", Bounds: "two connections with their requests in progress, cut at 19 and 8 places (thorough: all, 40)", Reach: []string{"upgraded"}},
	}},
	"C22": {Entries: []Entry{
		{H: "c22", Fn: "Answer", Bounds: "a message and an answer of any size up to 70000 and content, either type", Reach: []string{"answered", "silent"}},
		{H: "c22", Fn: "Several", Bounds: "two (thorough three) messages in a row, each answered by nothing, bytes or itself, cut anywhere", Reach: []string{"answered"}},
		{H: "c22", Fn: "Echo", Bounds: "masked messages of 12 sizes up to 1000 sent back, once or twice, cut within the first 9 (thorough 27) bytes", Reach: []string{"echoed"}},
	}},
	"C23": {Entries: []Entry{
		{H: "c23", Fn: "Open", Bounds: "two goroutines sending 2 messages each, window open or 3 bytes; every schedule with at most 2 (thorough 3) preemptions", Reach: []string{"sent"}},
		{H: "c23", Fn: "Closing", Bounds: "one (thorough two) goroutines sending 2 messages each against Close; every schedule with at most 2 preemptions", Reach: []string{"closed", "sent"}},
		{H: "c23", Fn: "Reuse", Bounds: "2 (thorough 3) sends of 1..4 bytes of any content from one buffer, written over by each completion callback; window of 0..2 bytes opened byte by byte, or open", Reach: []string{"reused"}},
	}},
	"C24": {Entries: []Entry{
		{H: "c24", Fn: "After", Bounds: "any start time, delay up to 10^6 s, checked any time before and up to 1 s after it is due, cancelled or not", Reach: []string{"ran"}},
		{H: "c24", Fn: "Every", Bounds: "any start time, period up to 10^6 s, 3 (thorough 5) periods each served any time late within a period", Reach: []string{"ran"}},
		{H: "c24", Fn: "Stopped", Bounds: "any delay, period and time of Stop up to 10^6 s (at most two periods), a connection with or without idle time or none, 1..2 loops", Reach: []string{"stopped"}},
		{H: "c24", Fn: "Mixed", Bounds: "any delay, period up to 1000 s and idle time up to 100 s together; the connection or the user timers end", Reach: []string{"ran", "timed out"}},
	}},
	"C25": {Entries: []Entry{
		{H: "c25", Fn: "Options", Bounds: "every subset of the options in both orders, any non-positive loop count or 1..3, 1..3 CPUs, any 4-byte address, any idle time", Reach: []string{"served"}},
		{H: "c25", Fn: "Failures", Bounds: "a failure at any one of the system calls of NewServer, a listener that is not TCP, a nil handler", Reach: []string{"failed", "nil handler", "no failure"}},
	}},
	"C26": {Entries: []Entry{
		{H: "c26", Fn: "Levels", Bounds: "every entry point, any level and threshold up to 2^40 in magnitude, any 3-byte prefix, the default and the empty prefix, 0..2 arguments of any content", Reach: []string{"exited", "logged", "suppressed"}},
		{H: "c26", Fn: "Environment", Bounds: "every value of GEV_LOG_LEVEL, unset, and two unknown ones", Reach: []string{"started"}},
		{H: "c26", Fn: "Order", Bounds: "the four levels against the four thresholds", Reach: []string{"ordered"}},
	}},
	"C27": {Entries: []Entry{
		{H: "c27", Fn: "Direct", Bounds: "a message of any size 1..65536 and content, any part of it present", Reach: []string{"completed", "unpacked"}},
		{H: "c27", Fn: "Wrapped", Bounds: "two messages of 1..4 bytes at each of 12 positions of the ring buffer, cut anywhere", Reach: []string{"unpacked"}},
		{H: "c27", Fn: "Stream", Bounds: "two messages of 1..2 (thorough 3) bytes through the server, any two cuts, echoed", Reach: []string{"delivered"}},
	}},
	"C31": {Entries: halfClose},
	"C32": {Entries: []Entry{
		{H: "c32", Fn: "Offers", Bounds: "1..3 extensions of distinct names with 5 kinds of parameters (quoted ones too), in one or two headers, with spaces and tabs, every set of accepted ones", Reach: []string{"accepted", "none"}},
		{H: "c32", Fn: "Again", Bounds: "2..3 (thorough 2..4) offers of two extensions, each with different parameters, in one or two headers, every set of accepted ones", Reach: []string{"accepted", "none", "again"}},
		{H: "c32", Fn: "Malformed", Bounds: "9 malformed lists, first or behind a good one", Reach: []string{"refused"}},
		{H: "c32", Fn: "Custom", Bounds: "one or two headers, custom selection accepting or refusing either, with or without the plain callback", Reach: []string{"accepted", "refused"}},
		{H: "c32", Fn: "Off", Bounds: "no callback", Reach: []string{"none"}},
	}},
	"C30": {Entries: append([]Entry{lifeSeq, lifeBurst}, backlog...)},
}
