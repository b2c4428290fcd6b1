#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the anchors stay readable).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOTEST_NET = "The existing tests never touch package net: no frame is ever written or parsed by a test, so no quantifier over sizes, modes or chunkings is sampled at all."
prop("C01", "Request frames carry exactly type, length, id and body",
 "For every message type, request id and body, writing a request puts on the connection exactly twelve little-endian header bytes (type, body length, id, in that order) followed by the body, and nothing else. A ping is the same frame with the reserved ping type, the reserved ping id and an empty body. A write that reports success has placed the whole frame, unchanged and contiguous, after everything written before it.",
 ["inputs", "histories"], "every type, id, body length and content, and every amount of data already buffered",
 NOTEST_NET, ["net/header.go", "net/buf_writer.go"],
 [("WriteRequest", "net/header.go"), ("Ping", "net/header.go"), ("Write3Uint32", "net/buf_writer.go"), ("Write", "net/buf_writer.go")],
 [("buffer and write position", "bytes accepted but not yet handed to the connection", "net/buf_writer.go")],
 ["HeaderWriter.WriteRequest", "HeaderWriter.Ping", "bytes given to the io.Writer"])
prop("C02", "Response frames are correct for every return-code width",
 "For return codes configured as 0, 1 or 4 bytes wide, a response frame is the twelve-byte little-endian header (type, length, id), then exactly that many little-endian bytes of the return code, then the body, and the length field counts return code plus body. A ping response never carries return-code bytes, whatever the configured width. Nothing else is emitted for a response.",
 ["inputs", "configurations"], "every type, id, code, body and all three return-code widths, with any amount of data already buffered",
 NOTEST_NET, ["net/header.go", "net/buf_writer.go"],
 [("WriteResponse", "net/header.go"), ("WriteUint32/WriteByte", "net/buf_writer.go")],
 [("rc, rcl", "configured return-code width", "net/header.go")], ["HeaderWriter.WriteResponse", "bytes given to the io.Writer"])
prop("C03", "Buffered output is a faithful byte stream",
 "For every sequence of buffered writes and flushes that report success, the bytes the connection has received followed by the bytes still buffered are exactly the bytes written so far, in order, with none lost, duplicated, altered or reordered, for every write size relative to the buffer. After a flush that reports success nothing remains buffered. A write error of the connection is always reported to the caller.",
 ["inputs", "histories", "fault_sequences"], "every sequence of writes of every size, every initial fill of the buffer and every failing or succeeding connection write",
 NOTEST_NET, ["net/buf_writer.go"],
 [("Write", "net/buf_writer.go"), ("Flush", "net/buf_writer.go"), ("write", "net/buf_writer.go")],
 [("buf, wr", "bytes accepted and not yet sent", "net/buf_writer.go")], ["BufWriter.Write*", "BufWriter.Flush"])
prop("C04", "Frame decoding is exact whatever the chunking",
 "Reading a request or response returns exactly the type, id, return code and body that the next bytes of the stream spell, and consumes exactly that frame, no matter how the connection splits the bytes into reads. A frame cut short by end of stream or by a read error is reported as an error and never as a shorter message, and a response body too short for the configured return code is reported with the protocol-error code. No byte sequence makes the decoder panic.",
 ["inputs", "schedules", "fault_sequences", "configurations"], "every byte stream, every split of it into reads (including reads of zero bytes and errors together with data), all return-code widths",
 NOTEST_NET, ["net/header.go", "net/slice_reader.go"],
 [("ReadRequest", "net/header.go"), ("ReadResponse", "net/header.go"), ("ReadPing", "net/header.go"), ("Read/ReadByte", "net/slice_reader.go")],
 [("buf", "bytes received and not yet consumed", "net/slice_reader.go")], ["HeaderReader.ReadRequest", "HeaderReader.ReadResponse", "HeaderReader.ReadPing", "SliceReader.Read"])
prop("C05", "Received bodies are never overwritten by later reads",
 "A body handed out by the frame reader keeps its contents for ever: no later read from the same connection writes into the bytes of a message that was already delivered.",
 ["inputs", "histories", "schedules"], "every sequence of reads of every size over every chunking of the stream",
 NOTEST_NET, ["net/slice_reader.go"],
 [("Read", "net/slice_reader.go"), ("ReadByte", "net/slice_reader.go")],
 [("buf", "window of the shared backing array not yet consumed", "net/slice_reader.go")], ["SliceReader.Read"])
MT = "The marshal tests encode and decode a table of about thirty fixed values; they reach no boundary of the integer ranges, no short input and no value outside the table."
prop("C06", "Fixed-width scalars encode little-endian and decode back",
 "Writing an 8, 16, 32 or 64 bit integer or a 32 or 64 bit float appends exactly its little-endian bytes to the output and leaves every byte already written unchanged; the length-prefix integers write their low 8, 16, 32 or 64 bits the same way. Reading the same kind from those bytes returns the original value and consumes exactly those bytes.",
 ["inputs", "histories"], "every value of every scalar type, every prior output and every buffer capacity",
 MT, ["marshal/writer.go", "marshal/writer_any.go", "marshal/reader.go", "marshal/reader_any.go"],
 [("Writer.Uint8..Float64, IntUint*", "marshal/writer_any.go"), ("Reader.Uint8..Float64, IntUint*", "marshal/reader_any.go"), ("ensure", "marshal/writer.go")],
 [("buf", "bytes written and not yet taken", "marshal/writer.go"), ("Body", "bytes not yet read", "marshal/reader.go")], ["Writer", "Reader"])
prop("C07", "BER varints are minimal, invertible and overflow-checked",
 "Every unsigned 64-bit value is written as the unique shortest big-endian base-128 encoding, with the continuation bit on every byte but the last, and the size functions predict exactly that length. Reading it back returns the value and consumes exactly its bytes; an encoding that is cut short or does not fit in 64 bits is reported as an error, and no input is silently truncated.",
 ["inputs"], "every 64-bit value and every byte sequence",
 MT, ["marshal/writer.go", "marshal/reader.go", "marshal/marshal.go"],
 [("Writer.Uint64var", "marshal/writer.go"), ("Reader.Uint64var", "marshal/reader.go"), ("varu64size", "marshal/writer.go"), ("Varsize", "marshal/marshal.go")],
 None, ["Writer.Uint64var", "Writer.Intvar", "Reader.Uint64var", "Reader.Intvar", "Varsize"])
prop("C08", "Numeric slices encode element by element and decode back",
 "Writing a slice of any numeric type appends the little-endian encodings of its elements, in order, with no gap and no overlap, and leaves earlier output unchanged; strings and byte slices append their bytes verbatim. Reading into a slice of n elements takes exactly n encodings from the input and stores the original elements in order.",
 ["inputs", "histories"], "every element type, every length including zero, every content",
 "Only slices of one or two elements of uint32, int8 and byte occur in the tests; no float slice is ever written.",
 ["marshal/writer.go", "marshal/writer_any.go", "marshal/reader.go", "marshal/reader_any.go"],
 [("Writer.*sl, Bytes, String", "marshal/writer_any.go"), ("Reader.*sl, Bytes, Slice, String", "marshal/reader_any.go")],
 None, ["Writer.*sl", "Reader.*sl"])
prop("C09", "The decoder never over-reads, never panics and keeps its first error",
 "Primitive reads on any bytes, with any requested length, either succeed and consume exactly the bytes they return, or leave the unread input in place and set an error; they never panic and never read outside the input. Once an error is set it stays, every later read returns a zero value or leaves its destination untouched, and nothing more is consumed.",
 ["inputs", "histories"], "every input, every requested size including negative ones decoded from the input, every order of calls",
 "The decode tests only feed well-formed encodings of known values; no truncated, corrupt or hostile input is ever read.",
 ["marshal/reader.go", "marshal/reader_any.go"],
 [("length checks and the Err guard in every read", "marshal/reader.go")],
 [("Err", "first error", "marshal/reader.go"), ("Body", "unread input", "marshal/reader.go")], ["Reader"])
prop("C10", "Encoded bytes handed out are never changed by later encoding",
 "The bytes returned as the written output are exactly what was written since the previous hand-out, and no later write through the same encoder, including writes that reuse its spare capacity, changes a byte of any output already handed out, even if its holder appends to it.",
 ["inputs", "histories"], "every sequence of writes and hand-outs, every size and capacity",
 "Tests look at an encoding once, right after it was produced; none keeps it while the (pooled) encoder is used again.",
 ["marshal/writer.go", "marshal/marshal.go", "generator.go"],
 [("Written", "marshal/writer.go"), ("ensure", "marshal/writer.go")],
 [("buf", "window of the shared backing array not yet handed out", "marshal/writer.go")], ["Writer.Written", "marshal.Write"])
prop("C11", "Size and count prefixes tell the truth",
 "When a value is written with a size prefix, the prefix equals the number of bytes that follow for that value; when it is written with a count prefix, the prefix equals the number of elements that follow. When a value is read with a size prefix, exactly that many bytes are consumed for it or an error is reported.",
 ["inputs", "programs"], "every value of every supported type, every prefix encoding (8, 16, 32, 64 bit or BER), every struct layout",
 "The tests prefix a handful of small fixed-size integers, arrays and slices; variable-size structs, sizes at a BER boundary and mismatched sizes never occur.",
 ["marshal/writer_reflect.go", "marshal/reader_reflect.go", "marshal/marshal.go"],
 [("TWriter.WithSize/WithCount/Size/Count", "marshal/writer_reflect.go"), ("TReader.WithSize/WithCount", "marshal/reader_reflect.go"), ("WriteWithSize/ReadWithSize", "marshal/writer_reflect.go")],
 [("Sz, SzGet, Cnt, CntGet", "predicted size and count of an encoding", "marshal/writer_reflect.go")], ["Writer.WriteWithSize", "TWriter.WithSize", "struct tags size() and cnt()"])
prop("C12", "Struct and interface values survive an encode/decode round trip",
 "For every supported value (numbers, strings, slices, arrays, nested structs and pointers, with any combination of the documented field tags), decoding its encoding into a fresh value of the same type yields an equal value and consumes the whole encoding.",
 ["inputs", "programs"], "every supported type and tag combination, every value",
 "The tests round-trip about thirty fixed values of fixed types.",
 ["marshal/writer_reflect.go", "marshal/reader_reflect.go"],
 [("TWriter.Fill, TReader.Fill", "marshal/writer_reflect.go")], None, ["marshal.Write", "marshal.Read"])
prop("C13", "Box requests have the documented layout and an honest key count",
 "A select request is space, index, offset and limit as 32-bit little-endian words, then the number of keys and exactly that many key tuples; insert, delete, update and procedure-call requests likewise have their fixed header words, flags, tuple and operation list in the documented order with exact counts. The limit word is the given limit, the number of keys, or the maximum, as requested.",
 ["inputs"], "every header value, every number and form of keys, operations and arguments",
 "One select layout with one or two keys is compared with constants; the other requests and other key forms are never encoded by a test.",
 ["sbox/select.go", "sbox/modify.go", "sbox/rpc.go", "sbox/writer.go"],
 [("IWrite methods", "sbox/select.go"), ("CountKeys/WriteKeys", "sbox/select.go")], None, ["marshal.Write of a request", "CountKeys"])
prop("C14", "Tuples state their field count and every field its size",
 "Writing a tuple emits a 32-bit field count followed by exactly that many fields, each preceded by its BER size, for scalars, strings, byte slices and lists of values alike.",
 ["inputs"], "every tuple value",
 "Seven fixed tuples are compared with constants.",
 ["sbox/writer.go"], [("WriteTuple", "sbox/writer.go")], None, ["WriteTuple"])
prop("C15", "Box result parsing stays inside the reply and counts what it read",
 "Parsing a reply takes the tuple count and each tuple's length from the reply, decodes each tuple from exactly its own bytes, and reports how many tuples were read and how many the reply announced. A malformed or truncated reply is reported as an error and never causes a panic.",
 ["inputs"], "every reply, every destination",
 "Tests decode well-formed single tuples only; the reply-level readers are never called.",
 ["sbox/result.go", "sbox/reader.go"], [("ReadFirst/ReadMany/oneTuple", "sbox/result.go"), ("ReadSizedTuple", "sbox/reader.go")], None, ["ReadFirst", "ReadMany", "ReadSizedTuple", "ReadRawTuple"])
CT = "No test creates a request, an endpoint or a connection, so no interleaving of completion, cancellation, timeout and delivery is ever executed."
prop("C16", "A request is answered at most once, by the first completer",
 "Under any interleaving of responses, cancellations, timeouts, shutdowns and I/O errors, a request's responder is called at most once. The first completion that is accepted decides the answer; every later one, and a response for a request that is not being worked on, is ignored without effect. A failing completion of a request that is not finished always finishes it, unless a bookmark re-arms it.",
 ["schedules", "histories"], "every interleaving and order of completion calls from any number of goroutines, every chain of bookmarks",
 CT, ["request.go", "response.go"],
 [("RespondBytes/RespondFail/chainResponse", "request.go"), ("SetPending/SetInFly/cas", "request.go")],
 [("state", "life-cycle state of the request", "request.go"), ("chain", "bookmarks to be told first", "request.go")], ["Responder.Respond"])
prop("C17", "The answer carries the request's own id, type, code and body",
 "The response handed to the responder and to every bookmark has the id and message type of the request it answers, the return code of the accepted completion, and the body given with it; the failing completions carry no body and the code for cancellation, timeout, I/O error or shutdown respectively.",
 ["inputs", "histories"], "every request, every completion kind, every code and body",
 CT, ["request.go", "response.go"],
 [("chainResponse", "request.go"), ("Respond/Cancel/Expire/IOError/ShutDown", "request.go")], None, ["Responder.Respond", "RequestBookmark.Respond"])
prop("C18", "Bookmarks see the answer newest first, once each, then let go",
 "When a request is answered, the bookmarks attached to it are told in the reverse order of attachment, each exactly once and before the responder, and are detached from the request. A bookmark can be attached only to a request that has not been answered and is not being worked on, or by the one that takes the request to work on it.",
 ["schedules", "histories"], "every chain of bookmarks and every interleaving of attaching, taking and answering",
 CT, ["request.go", "response.go"],
 [("chainResponse loop", "request.go"), ("Bookmark.setReq/unchain", "response.go"), ("ChainBookmark/SetInFly", "request.go")],
 [("chain, prev", "stack of bookmarks", "response.go")], ["RequestBookmark.Respond"])
prop("C19", "Timers fire in deadline order, never early, and not after being stopped",
 "The earliest pending deadline is always the next to fire; a timer never fires before its deadline, fires at most once per arming, and never fires once it has been stopped. Arming or stopping one timer never loses or disturbs another.",
 ["histories", "schedules"], "every sequence of arming, stopping and firing with any deadlines",
 CT, ["custom_timer.go"],
 [("tHeap.push/remove/putUnder/sort4", "custom_timer.go"), ("tHeap.loop", "custom_timer.go"), ("Timer.After/Stop", "custom_timer.go")],
 [("heap array, top, free list", "pending timers ordered by deadline", "custom_timer.go")], ["Expirator.Expire"])
prop("C20", "Queued requests are forwarded in order and none is lost or doubled",
 "Every request accepted by a running endpoint's queue and still pending is forwarded to the worker channel exactly once, requests accepted by one sender in the order it sent them, and a request answered meanwhile is skipped, however many pile up while the workers are busy.",
 ["schedules", "histories"], "every number of queued requests, every interleaving of senders, forwarding and early answers",
 CT, ["buffer.go", "service.go"],
 [("Buffer.push", "buffer.go"), ("Buffer.loop", "buffer.go")],
 [("head, tail, rows", "ring of waiting requests", "buffer.go")], ["worker channel"])
prop("C21", "Generated requests are distinct and own their bodies",
 "Every request produced by a request generator is a fresh one: no two share their storage, their response storage or any byte of their bodies, each carries the id and type asked for, and its body is the encoding of the given value, or the given bytes themselves. It starts unanswered and unsent.",
 ["inputs", "histories"], "every sequence of generated requests of any length, every body",
 CT, ["generator.go"], [("RGenerator.Request", "generator.go")],
 [("batch of requests and index", "storage handed out piece by piece", "generator.go")], ["RGenerator.Request"])
prop("C22", "A multi-request yields every answer exactly once",
 "A multi-request's result list, or its result channel, contains exactly one response for each request made through it, whether answered, cancelled or timed out, each with the index of its request as id, and the channel is closed after the last one.",
 ["schedules", "histories"], "every number of requests, every interleaving of answers with creation, collection, cancellation and timeout",
 CT, ["wait_group.go"], [("Respond/Results/Each/Request", "wait_group.go")],
 [("responses, c, r", "collected answers and counters", "wait_group.go")], ["MultiRequest.Results", "MultiRequest.Each"])
prop("C23", "Cancelling a context reaches everything registered with it",
 "Cancelling or expiring a context cancels every request, multi-request and child context registered with it, and anything registered afterwards is cancelled at once; it happens at most once and the first of cancel and expire decides the recorded reason. A finished child or request is unregistered and only that one. Work started under a live context is run.",
 ["schedules", "histories"], "every interleaving of registration, completion and cancellation, any number of registered items",
 CT, ["context.go"], [("AddCanceler/RemoveCanceler/cancelAll", "context.go"), ("Child/Go/GoInt", "context.go")],
 [("State, cancels, cancelsm", "reason and registered items", "context.go")], ["Canceler.Cancel", "Context.Go"])
prop("C24", "In-flight ids on a client connection are unique and answers match",
 "Every request sent on a client connection gets a wire id that is never zero, never the reserved ping id and not in use by another unanswered request of that connection, and an answer is delivered to the request that was given its id. An answer with an id that is not in use is ignored without affecting any other request.",
 ["inputs", "histories"], "every number of requests including beyond a row of ids, every order of answers, every unsolicited id",
 CT, ["net/client/connection/request_holder.go", "net/client/connection/connection.go"],
 [("RequestHolder.getNext/remove", "net/client/connection/request_holder.go")],
 [("rows of in-flight slots", "request per wire id", "net/client/connection/request_holder.go")], ["request id in sent frames", "Responder.Respond"])
prop("C25", "Losing a client connection answers everything in flight",
 "When a client connection ends, every request that was sent on it and not yet answered is completed with the I/O-error code, or the shutdown code if the connection was shut down; no in-flight request is forgotten and no other request is touched.",
 ["schedules", "crash_points", "histories"], "every set of in-flight requests at the moment the connection ends",
 CT, ["net/client/connection/connection.go", "net/client/connection/request_holder.go"],
 [("flushInFly", "net/client/connection/connection.go"), ("getAll", "net/client/connection/request_holder.go")], None, ["Responder.Respond"])
prop("C26", "The server never leaks internal return codes",
 "Whatever a handler answers and whatever the code map contains, no response written by the server carries a return code of the internal kind: such codes are replaced by the configured code or by the same code marked fatal, and other codes are sent unchanged.",
 ["inputs", "configurations"], "every return code and every accepted code map",
 CT, ["net/server/connection.go", "net/server/server.go"],
 [("Connection.Respond", "net/server/connection.go"), ("Config.NewServer", "net/server/server.go")],
 [("RCMap", "replacement codes", "net/server/config.go")], ["responses put on the connection"])
prop("C27", "The server sends one response per request, under the request's id",
 "A response is sent to the client only for a request that is in flight on that connection, it carries that request's id and message type, and answering removes the request from flight so a second answer for it sends nothing. A ping is answered with a ping of the same id.",
 ["schedules", "histories"], "every set of in-flight requests, every interleaving of reading and answering",
 CT, ["net/server/connection.go"], [("Connection.Respond", "net/server/connection.go"), ("readLoop", "net/server/connection.go")],
 [("inFly", "requests read and not yet answered", "net/server/connection.go")], ["responses put on the connection"])
prop("C28", "Parallel services bound concurrency and answer even on panic",
 "A parallel service never runs more handlers at once than configured, every handler that ends, normally or by panic, frees its slot exactly once, and its request is answered: with the handler's result, or with the internal-error code if the handler panics.",
 ["schedules", "histories", "fault_sequences"], "every sequence of requests, exits and handler panics",
 CT, ["parallel_service.go"], [("Loop", "parallel_service.go"), ("serv/inc", "parallel_service.go")],
 [("sema", "free slots", "parallel_service.go")], ["handler invocations"])
prop("C29", "An endpoint queues only requests it has just accepted",
 "Sending a request to an endpoint moves it from new to pending and queues it exactly once; a request that was already answered is dropped silently, and one already sent elsewhere is refused loudly. A function service calls its function only for a request it has just taken to work on.",
 ["schedules", "histories"], "every request state at the time of sending",
 CT, ["service.go", "stat.go"], [("SimplePoint.Send", "service.go"), ("SF.Send/Route.Send", "service.go")], None, ["worker channel", "handler invocations"])
prop("C30", "Shutdown completes and leaves no request unanswered",
 "Stopping a server or client endpoint eventually ends all its goroutines, and every request that had been accepted is eventually answered.",
 ["schedules", "fault_sequences"], "every interleaving of stop with traffic",
 CT, ["net/server/server.go", "net/server/connection.go", "net/client/server.go", "parallel_service.go"],
 [("controlLoop", "net/server/connection.go"), ("Loop", "net/client/server.go")], None, ["Server.Running"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
