# more claimed properties (NOTES) and reasons for the others (NA)
NA['C30']="liveness (every goroutine ends, every request is eventually answered) needs a fairness/termination argument over unbounded goroutines; the contract logic here is partial correctness only"

N="functions of net/buf_writer.go, net/slice_reader.go, net/header.go with contracts; the connection is an io.Reader/io.Writer interface contract (peer bytes, accepted bytes); every obligation for all inputs and all chunkings"
for k in ('C01','C02','C03','C04','C05'):
    NOTES[k]=N

R="request.go and service.go under contract with lock invariants, a rely/guarantee on the state word and ghost counters, thread-modular: each function against anything the other threads may do. Assumed: responders and foreign bookmarks follow their interface contracts, objects satisfy their lock invariant when published, timers only change themselves. "
NOTES['C16']=R+"Responder called only in state 'being answered' with zero calls so far, every accepted completion answered or re-armed."
NOTES['C17']=R+"The interface contract of the responder requires the id, type, code and body; marshal.Write (Respond with other values) is trusted."
NOTES['C18']=R+"The chain of bookmarks is a ghost-numbered list in the lock invariant; every telling requires the newest, untold one."
NOTES['C21']="generator and context constructors under contract: slot arithmetic, id, type, body identity, writer window; marshal.Writer.Write is trusted to append one encoding. Distinctness of slots is 'each index once per batch'."
NOTES['C23']="context.go under contract: lock invariant and two-state facts about every critical section, state word guarantee; that cancelAll tells each member it copied is a loop over the copied list with the Canceler contract; termination and the fate of work goroutines are left to the driver, and Cancel bodies of users are an interface contract."
NOTES['C29']=R+"Buffer.push is specified, not verified, here (see C20)."

S="net/server/connection.go, every function, under contract: lock invariant of the connection (in-flight table filed by id, no internal code waiting, channel closed only after the last response), two-state facts about Respond's and readLoop's critical sections, contracts on every send and receive of the channel to the writer, and the HeaderReader/HeaderWriter contracts of C01-C05. Assumed: RCMap is not changed after NewServer, endpoints do not write to the reader's memory, bodies fit a frame, one read loop and one write loop per connection. "
NOTES['C26']=S+"NewServer's refusal of other maps is proved over the map iteration (visited keys)."
NOTES['C27']=S+"That the connection ends, and that a queued response is written eventually, is left to the driver."

K="net/client/connection, every loop and every function of the table of requests in flight, under contract; the state of the table is followed through its lock, the answers through ghosts of the reader (id, code, body of the frame read last) and of the request. "
NOTES['C24']=K+"Assumed: fewer than 2^24 blocks of 256 ids wait for answers at once; the peer's bytes are any; responders do not write to the reader's memory."
NOTES['C25']=K+"getAll and flushInFly run after both loops have ended (that they do is proved: controlLoopExit requires it); the counters got and put as the length of the list are not checked (flag nobounds), the driver covers them."
NOTES['C28']="parallel_service.go under contract: the tokens of the semaphore channel are counted by a thread ghost (received: +1, sent back: -1, given away with `go`), handlers require exactly one token, a panicking handler unwinds through the deferred inc (engine model of defer/recover), which frees the slot and answers what is still attached with the internal-error code; the constructor puts in exactly as many tokens as configured. Assumed: handlers do not touch the unexported state of their context; handlers return (termination) and do not call runtime.Goexit."
NOTES['C20']="buffer.go, SimplePoint.Send/Run and the bookmarks of the queue under contract: tail, head, tRow and the slot states are atomic words with rely/guarantee conditions; each number is taken by one sender, is filled in its own row and slot, wakes the loop after it is filled; the loop passes a number only when it is filled and it has forwarded what waits there, sends each number once and in order; a sender hands a request over directly only when all it queued before has been passed. Rows are filed by number and dropped only when passed. Assumed: fewer than 2^62 requests are queued; the slot of a number nobody has taken is untouched; one loop per queue; the composition of the per-step conditions into the statement is by hand. The queue's end (close) is C30."
NOTES['C22']="multi_req.go under contract: the counter of answers, the list, the channel and the flags are atomic or guarded words with rely/guarantee conditions; each response is counted once and either put in the list or sent to the channel exactly once, the list is handed out once, the channel is closed by the one who counted last, the waiter is woken, cancellation and expiry reach each unanswered request. Assumed: responses carry their request's id, fewer than 2^32-1 requests, one maker who makes all requests and then collects once, waiters wake only when signalled. Termination is C30."

T="Trusted (closures built with reflection, no contract can name them): the encoders and decoders made from types by marshal and sbox (TWriter/TReader fields), SetSize, SetCount, WriterFor/ReaderFor, sbox.writer/reader, marshal Writer.Write. Those are only exercised, with random types and values and an independent oracle, by an always-run driver: bounded, not counted as proved. "
NOTES['C11']="WithSize, WithCount, WriteWithSize, WriteValueWithSize, Writer's size/count words, TReader.WithSize and ReadWithSize under contract for every value and input: what follows the prefix is as long as the prefix says. "+T
NOTES['C13']="the request writers (select, store, delete, update, call) and the key counting/writing loops under contract: every header word, flag and count at its offset, one key or operation per count. "+T+"Op requires a known operation code; a panic for unsupported argument types is allowed."
NOTES['C14']="WriteTuple, the field counters and the field writers under contract: the 32-bit count is the number of fields that follow (ghost counter), every field goes through a write with size. "+T
NOTES['C15']="the reply parsers (raw, sized and one-field tuples, lists, arrays, structs, interfaces; ReadMany, ReadFirst) under contract: each tuple is decoded from exactly its own bytes, count announced and read are reported, a short reply is an error. "+T+"Panics inside the reflective decoders on malformed replies are decided by the driver only."
NA['C12']="the round trip is a statement about encoders and decoders built at run time as chains of closures over reflect.Value; equality of the decoded value is a property of package reflect's memory, which no contract within reach of this verifier describes (its building blocks are: numbers C06, varints C07, slices C08, prefixes C11)"
NA['C19']="needs the shape of the timer heap (4-ary tree of pairs with back indices) as an invariant over all timers, under a lock, driven by the runtime clock; not brought under contract"
