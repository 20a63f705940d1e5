prop('C01','Every request is completed exactly once, by the outcome that came first',
 'A request sent through any service is completed exactly once, whatever mix of answering, cancelling, timing out, I/O error and shutdown races for it from any number of threads. Its responder receives one response that carries the request\'s own id and message type together with the code and body of exactly one of those outcomes, and everything that comes later changes nothing. An ordinary answer counts only after the request has been taken for work, a request is taken for work at most once, its handler sees the type and body it was sent with (a value given as body is the encoding of that value and nothing else, in requests and answers alike), and the requester\'s call returns the response.',
 ['schedules'], 'all interleavings of 2-4 threads that send, take, answer, cancel, expire, fail and inspect one request, up to the deviation bound',
 NOTEST+'and exactly-once is a property of all interleavings of the request state machine.',
 ['request.go','response.go','service.go'],
 [('compare-and-swap of the request state plus the request lock around the response chain','request.go: cas, chainResponse, RespondBytes, RespondFail, SetInFly')],
 [('state','new/pending/in-flight/prepared/performed','request.go')], SCHED, NSCHED)
prop('C02','Interceptors of a request see its response once, newest first, before the caller',
 'Every interceptor that was successfully attached to a request is run exactly once when the request is completed, in the reverse order of attachment and before the requester\'s responder, and sees the very response the requester gets, including changes made by interceptors run earlier. An interceptor whose attachment was refused is never run, and attaching succeeds only while the request has not been taken for work or completed. An interceptor may put a failed request back to pending or new, after which it can be completed again and the requester is still answered exactly once; a statistics wrapper reports each request once with a duration that is never negative.',
 ['schedules','histories'], 'all interleavings of attaching up to 3 interceptors, taking, answering, cancelling and resending a request',
 NOTEST+'and ordering/once-ness depends on when attachment races with completion.',
 ['request.go','response.go','stat.go'],
 [('bookmark chain walked under the request lock','request.go: chainResponse, ChainBookmark, SetInFly'),('unchain','response.go')], (), SCHED, NSCHED)
prop('C03','A timer fires exactly once, never early, and never after being stopped in time',
 'Every armed timer that is not stopped expires exactly once, never before its deadline and promptly after it, whatever other timers share its queue and in whatever order they were armed, expired and stopped. A timer whose stop returned before its deadline never expires, and stopping it never loses, duplicates or delays another timer. A timer that expired or was stopped can be armed again.',
 ['schedules','histories'], 'all orders of arming up to 7 timers of a queue with any deadlines order, stops, ties, re-use histories of 5 steps, and all interleavings of arming/stopping threads with the expiring thread',
 NOTEST+'and the heap is a hand-written 4-ary pairing structure whose shape depends on the whole history, with a sleep/wake protocol between threads.',
 ['custom_timer.go','epoch.go'],
 [('heap of deadlines with one expiring goroutine per queue','custom_timer.go: push, remove, putUnder, sort4, loop')], (), SCHED+'; exhaustive histories of the timer heap', NSCHED)
prop('C04','End point timeouts expire requests at the deadline, never before, never twice',
 'A request sent to an end point that has a timeout is completed with the timeout code if it has not been answered when that time has passed since it was sent, wherever it then is (waiting in the queue or its overflow, or taken by a worker), and never earlier. A timeout the requester set before sending takes precedence over the end point\'s, a later attempt to set one changes nothing, and an answered request is never timed out; all this holds for any time limit, however long, and also after a requester\'s callback has panicked. A handler of a parallel service that is working on the request at that moment is not overruled: its context expires, and its answer completes the request.',
 ['schedules','histories'], 'all interleavings of sender, worker and expiring thread with timers firing at any allowed moment, up to the deviation bound',
 NOTEST+'and timeouts race with answers in a way no single run shows.',
 ['request.go','service.go','parallel_service.go','custom_timer.go'],
 [('SetTimeout when the request enters the end point','service.go: SimplePoint.Send; request.go: SetTimeout, Expire')], (), SCHED, NSCHED)
prop('C05','Cancelling a context reaches everything that was started in it',
 'Cancelling or expiring a context completes every outstanding request of it and of all its descendants (child contexts and multi-requests included), even those being created by their own thread at that moment, and requests created afterwards are completed at once without being served. Each of those requests is still completed exactly once: with its answer, if that came first, or with the cancelled code, and the call never waits for functions of the context to end (one of them may make it). The context is then dead for good, its first cause of death is kept, and a context of a request being handled dies when that request is cancelled or expired.',
 ['schedules','histories'], 'all interleavings of an owner thread creating requests/children/multi-requests, a canceller and an answering thread',
 NOTEST+'and the guarantee is about requests created concurrently with the cancellation.',
 ['context.go','request.go','wait_group.go'],
 [('registry of cancelers under the context lock, checked against the state','context.go: AddCanceler, RemoveCanceler, cancelAll')], (), SCHED, NSCHED)
prop('C06','Go runs its function exactly once; WaitAll waits for all outstanding work',
 'Each function started through a live context runs exactly once, in a thread and a child context of its own, with the argument it was given; in a dead context it is not run. Waiting for all work of a context returns only when every function started in it is done, every child is done, each of its requests has been completed and each of its multi-requests has been collected, and it always returns once that is so, whether or not the context was cancelled meanwhile.',
 ['schedules'], 'all interleavings of starting, finishing, answering, cancelling and waiting, up to the deviation bound',
 NOTEST+'and lost wake-ups and premature returns only show in particular schedules.',
 ['context.go','wait_group.go'],
 [('condition variable signalled when the last canceler is removed','context.go: WaitAll, RemoveCanceler, Go, GoInt, GoAsync, GoIntAsync, Done')], (), SCHED, NSCHED)
prop('C07','A multi-request delivers exactly one response per request',
 'Collecting a multi-request, as a list or as a stream, yields exactly one response for every request sent through it, each with the answer to that very request, in whatever order and from whatever threads they are answered: before, during or after collecting starts. Collecting ends only when all responses are there and always ends once they are (for no requests, at once). If it is cancelled or times out, requests not answered yet complete with that code, answers that came stay, and nothing times out early.',
 ['schedules'], 'all interleavings of up to 3 answering threads, a canceller, a timer and the collector; request counts 0..4, 16, 17 and 33 across buffer growth',
 NOTEST+'and the counting protocol between responders and collector is lock-free in part.',
 ['wait_group.go','generator.go'],
 [('counted responses, condition variable or channel','wait_group.go: Request, Respond, Each, Results, performFailAll')], (), SCHED, NSCHED)
prop('C08','An end point queue hands over every request once, in order, at any length',
 'Every request sent to a running end point that is not completed beforehand is handed to the end point\'s workers exactly once, no matter how far the queue has overflowed its channel and how senders and workers interleave. Requests of one sender are handed over in the order they were sent. A request completed while it waits never keeps others from being handed over, and sending never waits for a worker.',
 ['schedules','histories'], 'all interleavings of 1-3 senders, the queue pump and workers with a small channel, including crossing a 1024-entry row of the overflow list',
 NOTEST+'and the overflow list is a lock-free structure read and written by different threads.',
 ['buffer.go','service.go'],
 [('overflow list of rows with head and tail counters and a wake-up channel','buffer.go: push, loop')], (), SCHED, NSCHED)
prop('C09','A parallel service answers every request once within its concurrency limit',
 'A parallel service never runs more handlers at a time than it was configured for, runs the handler at most once per request and only for requests that are not completed yet, and answers with what the handler returned. A handler that panics, or that leaves its request unanswered, makes the request complete with an internal error and does not reduce the number of handlers that can run. After the service is stopped, requests that were sent before and not started are completed with the shutdown code, and running handlers still deliver their answers.',
 ['schedules'], 'all interleavings of 1-3 senders, N=1..2 handlers, cancellation, panics and Stop, up to the deviation bound',
 NOTEST+'and slot accounting and shutdown races are scheduling properties.',
 ['parallel_service.go','service.go','context.go','generator.go'],
 [('semaphore channel, deferred recover and answer, drain loop','parallel_service.go: Loop, inc, serv')], (), SCHED, NSCHED)
prop('C10','A balancer gives each request to exactly one child and stops all of them',
 'Every request sent to a balancer is handed to exactly one of its children, and no request waits while a child is free to take it. Children may be added before or after the balancer is started; each is started exactly once. Stopping the balancer stops every child exactly once, and requests sent before that no child takes any more are completed with the shutdown code.',
 ['schedules'], 'all interleavings of senders, 1-3 children, adding a child and Stop, up to the deviation bound',
 NOTEST+'and hand-over to competing children is a scheduling property.',
 ['balancer.go','service.go','buffer.go'],
 [('children share the balancer\'s request channel','balancer.go: Loop, AddChild')], (), SCHED, NSCHED)
prop('C11','Reading packets does not depend on how the byte stream is cut',
 'A stream of well-formed request or response packets is read as exactly those packets, in order and byte for byte, however the stream is cut into reads (down to single bytes, end of stream delivered together with data or after it) and whichever of the three return code layouts is used. A stream that ends inside a packet yields all complete packets before it and then an error, never a truncated or invented packet. A response too short for its return code is reported as a protocol error without losing the packets after it, and bodies already returned are never changed by later reads, nor do bodies appended to change what is read later; the opening ping is read whole, too.',
 ['inputs','fault_sequences'], 'all segmentations of streams of small packets, all truncation points, all return code layouts, bodies around the internal buffer size',
 NOTEST+'and the reader\'s buffer handling depends on where the stream is cut.',
 ['net/slice_reader.go','net/header.go'],
 [('buffered slice reader','net/slice_reader.go: Read, ReadByte'),('packet header parsing','net/header.go: ReadRequest, ReadResponse, ReadPing')], (), SEQ, NSEQ)
prop('C12','Writing packets produces exactly the bytes of the protocol, in order',
 'After a flush, the bytes handed to the connection are exactly the concatenation of the written packets in their protocol encoding (type, body length including the return code, id, return code in the configured layout, body; pings carry no return code), whatever the mix of packet sizes and flushes. Written requests, responses and pings are read back by the library\'s own reader as the same packets. When the connection fails, the write or a later flush reports it, and what was sent until then is a prefix of that concatenation.',
 ['inputs','fault_sequences'], 'all sequences of packets and flushes up to a depth with body sizes around every internal buffer threshold, all return code layouts, write failures at every call',
 NOTEST+'and the writer switches between copying and direct writes depending on sizes and fill level.',
 ['net/buf_writer.go','net/header.go'],
 [('buffered writer','net/buf_writer.go: Write, WriteUint32, Write3Uint32, WriteByte, Flush'),('packet encoding','net/header.go: WriteRequest, WriteResponse, Ping')], (), SEQ, NSEQ)
prop('C13','A client connection gives each response to the request it answers',
 'Whatever order a server answers in, every request sent over a client connection is completed with the response to that very request (its code and body) under its own original id. Requests in flight on a connection always have distinct ids on the wire, none of them the ping id, each is put on the wire at most once, and one completed before its turn is not written. A response to a request completed meanwhile, or to none at all (an id never used or answered already), is dropped without affecting any other.',
 ['schedules','histories'], 'all answer orders and interleavings of reader, writer, senders and cancellers for a few requests, and histories crossing several rows of 256 ids',
 NOTEST+'and matching depends on shared id tables used by two threads.',
 ['net/client/connection/connection.go','net/client/connection/request_holder.go'],
 [('table of in-flight requests by wire id','net/client/connection/request_holder.go: getNext, remove'),('read and write loops','net/client/connection/connection.go')], (), SCHED, NSCHED)
prop('C14','A failing connection completes its requests once, and the client reconnects',
 'When a connection to a server fails at any moment (refused or broken while dialing, in the handshake, while reading or writing, or closed by the server), every request in flight on it that had been written is completed exactly once, with its answer if that had arrived and with the I/O error code otherwise. Requests that wait while no connection is established are completed with the I/O error code or are sent over a later connection. The client keeps re-establishing the configured number of connections until it is stopped, and never more than that number.',
 ['schedules','fault_sequences'], 'a failure at every point of a short exchange, in all interleavings up to the deviation bound',
 NOTEST+'and failures can strike between any two steps.',
 ['net/client/server.go','net/client/connection/connection.go'],
 [('read/write/control loops notify each other and the server about closure','net/client/connection/connection.go: controlLoop, flushInFly'),('connection accounting','net/client/server.go: onConnError, fixConnections')], (), SCHED, NSCHED)
prop('C15','Stopping or resizing a client closes connections and loses no answer',
 'Stopping a client closes every connection once the answers to requests already written have been received, whether it was connecting, connected or disconnected at the time, and leaves no activity behind. Every request sent before is completed exactly once. Changing the number of connections brings the number of open ones to the new value without losing or duplicating any request.',
 ['schedules'], 'Stop and resize at any moment of dialing, connecting, writing and answering with 1-3 connections, up to the deviation bound',
 NOTEST+'and accounting of connections is spread over several goroutines.',
 ['net/client/server.go','net/client/connection/connection.go'],
 [('connection accounting','net/client/server.go: Loop, fixConnections, onConnError'),('graceful close','net/client/connection/connection.go: writeLoop, controlLoop')], (), SCHED, NSCHED)
prop('C16','A server answers every request of a connection once, and drains on close',
 'Every request read from a connection gets exactly one response on that connection with its id and type, the code and body its service answered with, in whatever order and from whatever threads answers come, every ping is answered under its own id without reaching the service, and answering never blocks on a slow client (the client gives distinct ids to its requests in flight, and may use them again once answered). When the client closes its sending side or the server is stopped, all requests already read are still answered before the connection is closed; when writing to it fails, those unanswered are cancelled. The server reports that it has stopped running only after all its connections are closed, and always does.',
 ['schedules','fault_sequences'], 'all interleavings of reading, answering threads, writing, client close, slow clients, breaks, write failures and Stop for a few requests and one or two connections, up to the deviation bound; and histories of 300 requests',
 NOTEST+'and shutdown is a protocol between four goroutines per connection.',
 ['net/server/connection.go','net/server/server.go'],
 [('per-connection table of in-flight requests, output channel with overflow list, loops notifying each other','net/server/connection.go'),('accept and control loops','net/server/server.go')], (), SCHED, NSCHED)
prop('C17','A server never sends an internal return code to a client',
 'No response a server sends carries a return code of the internal kind: a mapped internal code is sent as its mapping, and any other internal code is sent as the fatal code with the same remaining bits. Codes of other kinds are sent unchanged. A code map that maps from a non-internal code, or to an internal one, is refused when the server is created.',
 ['inputs','configurations'], 'all return codes of an exhaustive 16-bit range (plus high-bit patterns) under every map of a small family',
 NOTEST+'and the rule is about all codes and maps.',
 ['net/server/connection.go','net/server/server.go'],
 [('code rewriting before queueing a response','net/server/connection.go: Respond'),('map validation','net/server/server.go: NewServer')], (), SEQ, NSEQ)
prop('C18','Values are encoded canonically and read back unchanged',
 'Encoding a value of any supported type (integers, floats, strings, byte strings, arrays, slices, pointers, structs with size, count, variable-length and skip field tags, interfaces and self-encoding types, nested in any way) yields exactly its specified layout: little-endian fixed-width numbers, big-endian base-128 variable-length numbers, 32-bit counts before strings and slices unless a tag says otherwise, declared sizes equal to the bytes that follow (a length the declared field cannot hold is refused with a panic). Reading that encoding into a fresh value of the same type gives back an equal value and consumes exactly those bytes, in the plain and in the rest-of-body form; so does reading into a target that was used before (what a pointer in it points at is filled in) and after readings that failed, and slices and lists of destinations passed by value are filled with exactly as many elements as they have. (A value that encodes itself and is passed directly at top level is simply asked to, without a count.) Values written one after another never overwrite each other\'s bytes, even ones handed out earlier and appended to since; nor do byte strings that were read and are appended to.',
 ['inputs','programs'], 'all types of a grammar of small depth (with all tags) times boundary values, against an independent encoder/decoder',
 'The tests compare a few dozen fixed values; they cannot cover combinations of types, tags and boundary values.',
 ['marshal/writer_reflect.go','marshal/reader_reflect.go','marshal/writer.go','marshal/reader.go','marshal/writer_any.go','marshal/reader_any.go','marshal/marshal.go'],
 [('type-directed codecs built by reflection','marshal/writer_reflect.go: Fill*, marshal/reader_reflect.go: Fill*')], (), SEQ, NSEQ)
prop('C19','Malformed input is refused with an error, never a crash or wrong success',
 'Reading any byte string into any supported type either succeeds, having consumed what the layout prescribes and leaving the rest to the caller, or reports an error; it never crashes. Truncated input, variable-length numbers that do not fit, sizes and counts that do not match what follows, and leftover bytes where the whole body must be read are errors, and a size or count larger than what can follow is refused before memory is reserved for it. After an error, further reads from the same reader keep failing and consume nothing.',
 ['inputs'], 'all byte strings up to a length over a boundary alphabet, and all truncations, extensions and one-byte changes of valid encodings, for all types of the grammar',
 'The tests only read well-formed encodings of fixed values.',
 ['marshal/reader.go','marshal/reader_any.go','marshal/reader_reflect.go'],
 [('sticky error in the reader and length checks before every access','marshal/reader.go; marshal/reader_reflect.go: WithSize, WithCount')], (), SEQ, NSEQ)
prop('C20','Codecs can be used by any number of threads from the first use on',
 'Encoding and decoding from several threads at once gives every thread the same results as it would get alone, also when they are the first to use a type, when the types refer to each other or to themselves, and when some of them use types that are already known. No thread ever sees a codec that is not completely built, and buffers and readers reused between calls never leak data from one thread to another.',
 ['schedules'], 'all interleavings of 2-3 threads encoding/decoding new and known (recursive, overlapping) types, up to the deviation bound',
 'The tests are single-threaded.',
 ['marshal/writer_reflect.go','marshal/reader_reflect.go','marshal/marshal.go','sbox/writer.go','sbox/reader.go','sbox/result.go'],
 [('copy-on-write codec cache published under a lock','marshal/writer_reflect.go: WriterFor; marshal/reader_reflect.go: ReaderFor; sbox: writer, reader')], (), SCHED, NSCHED)
prop('C21','Tuples, keys and requests of the box protocol are encoded and read exactly',
 'Tuples written from any supported value (numbers, strings, byte strings, arrays, slices, structs with and without tails, lists of mixed values, pointers to them) have exactly their specified layout (field count, then each field with its variable-length size), and reading them back gives equal values, also into targets used before and into slices prepared with as many or fewer places than there are fields. Select, store, delete, update and call requests are encoded exactly as the protocol prescribes; in particular the number of keys announced is the number of keys that follow. Reading the first or all tuples of a result, into one destination or into several one after another, yields the number of tuples announced and read and their contents, leaves destinations after the last tuple alone, and reports a truncated result as an error, never as a crash.',
 ['inputs'], 'all values of a grammar of tuple types and boundary values, all small requests, all truncations of results, against an independent encoder/decoder',
 'The tests compare a dozen fixed tuples and six select requests.',
 ['sbox/writer.go','sbox/reader.go','sbox/select.go','sbox/modify.go','sbox/result.go','sbox/rpc.go'],
 [('tuple codecs','sbox/writer.go, sbox/reader.go'),('request encoders','sbox/select.go, sbox/modify.go, sbox/rpc.go'),('result readers','sbox/result.go')], (), SEQ, NSEQ)
prop('C22','A call over the network ends with exactly the answer of its service',
 'A request sent through a client to a server over a connection is handled at most once by the server\'s service and completes exactly once: with the code and body the service answered with (internal codes mapped), or with a timeout, cancellation or I/O error of the client. It completes in every case, also when either side is stopped meanwhile. Answers never go to another request, whichever clients and connections are used at the same time.',
 ['schedules','fault_sequences'], 'all interleavings up to the deviation bound of a client and a server connected by a virtual network, with 1-3 calls, stops and breaks',
 NOTEST+'and end-to-end behaviour depends on schedules of some fifteen goroutines.',
 ['net/client/server.go','net/client/connection/connection.go','net/server/connection.go','net/server/server.go','request.go'],
 [('client and server loops','net/client, net/server')], (), SCHED, NSCHED)
prop('C23','Looking up a server by address yields one running client per address',
 'Looking up an address returns a running client for exactly that address, and always the same one, from any number of threads at once, including the very first lookups and lookups of different addresses. Each client is configured like the template apart from its address, which the lookups leave unchanged. Stopping the directory stops every client it handed out, and a lookup that is refused (no address) does not affect others.',
 ['schedules'], 'all interleavings of 2-3 threads looking up equal and different addresses and stopping, up to the deviation bound',
 NOTEST+'and the directory is a double-checked copy-on-write map.',
 ['net/client/auto.go'],
 [('copy-on-write map under a lock','net/client/auto.go: Get, Stop')], (), SCHED, NSCHED)

prop('C24','Time limits and pings of connections are kept exactly',
 'A connection on which nothing arrives for the configured read time limit ends, counted from the last byte and not earlier, and one whose writing is blocked for the write time limit fails then and not earlier; without a limit neither ever happens, and dialing is given up after its own limit and tried again. What ends this way is treated like any failed connection: on the client the requests in flight complete with the I/O error code and it reconnects, while on the server the requests already read are still answered after reading timed out. A client connection is pinged once every configured interval unless that is disabled, so that a client and a server whose limits are longer than the interval stay connected through pauses of any length.',
 ['schedules','fault_sequences','configurations'], 'all combinations of limits, silences and blockages of client and server over a virtual network and clock, in all interleavings up to the deviation bound',
 NOTEST+'and time limits need silence, blockage and exact clocks.',
 ['net/client/connection/connection.go','net/client/server.go','net/server/connection.go','net/slice_reader.go','net/buf_writer.go'],
 [('deadlines set before every read and write','net/slice_reader.go: NextFrom; net/buf_writer.go: Flush; net/client/connection: dial, readLoop, writeLoop; net/server/connection.go')], (), SCHED, NSCHED)

for i in ''.split():
    NOT_BUILT[i] = 'check under construction'
