package github.com/funny-falcon/go-iproto

// ---------------- many requests at once ----------------
// answers already handed out to the one who collects
ghost MultiRequest.$taken nat
// the list that was handed out last, and how many answers were handed out before it
ghost MultiRequest.$handed loc
ghost MultiRequest.$before nat thread
// what this thread has done in its call: answers counted, added to the list, sent to the
// channel; the count its own answer made
ghost MultiRequest.$cnt nat thread
ghost MultiRequest.$put nat thread
ghost MultiRequest.$sent nat thread
ghost MultiRequest.$v nat thread
ghost MultiRequest.$closed bool thread
// it makes the requests and collects the answers
ghost MultiRequest.$making bool thread
ghost MultiRequest.$out nat thread
// the flags when this thread looked last: 4 cancelled, 8 expired
ghost MultiRequest.$kind nat thread

pred mrfailed(k) = k / 4 % 4 != 0

atomic MultiRequest.ch w
	rely $old != nil ==> $new == $old
	writer w.$making
	guar held(w) && $old == nil && $new != nil && w.$out == w.c - w.$before && (w.c == w.r ==> w.$closed)

// answers received
atomic MultiRequest.c w
	rely $new >= $old && $new < 4294967295 && ($held && w.ch == nil ==> $new == $old)
	grants "fewer than 2^32-1 requests belong to one multi-request" $old < 4294967294
	guar $new == $old + 1 && $new < 4294967295 && (held(w) || w.ch != nil)
	update w.$cnt := w.$cnt + 1
	update w.$v := $new
	update w.$put := if held(w) && w.ch == nil then w.$put + 1 else w.$put

// requests made
atomic MultiRequest.r w
	rely $new >= $old && $new <= len(w.requests)
	writer w.$making
	grants "fewer than 2^32-1 requests belong to one multi-request" $old < 4294967294
	guar $new == $old + 1 && w.ch == nil && $new <= len(w.requests)

atomic MultiRequest.kind w
	rely ($old / 4 % 2 == 1 ==> $new / 4 % 2 == 1) && ($old / 8 % 2 == 1 ==> $new / 8 % 2 == 1)
	guar ($old / 4 % 2 == 1 ==> $new / 4 % 2 == 1) && ($old / 8 % 2 == 1 ==> $new / 8 % 2 == 1)
	reads w.$kind := $new

lock MultiRequest.m w
	guards responses, $taken
	inv [C22] "every answer counted is in the list or handed out, until there is a channel" w.ch == nil ==> w.c == len(w.responses) + w.$taken
	inv forall i in 0..len(w.responses): w.responses[i] != nil
	acquire w.$before := w.$taken
	keeps responses [C22] "no answer is lost or changed before the list is handed out" arr($new) == nil || len($new) >= len($old) && forall i in 0..len($old): $new[i] == $old[i]
	onstore responses w.$handed := if arr($new) == nil then arr($old) else w.$handed
	onstore responses w.$taken := if arr($new) == nil then w.$taken + len($old) else w.$taken

iface (w MultiRequest) ch$send(msg)
	requires [C22] "once for each answer" w.$cnt == 0 && w.$sent == 0
	modifies w.$sent
	flag yields
	ensures w.$sent == old(w.$sent) + 1

iface (w MultiRequest) ch$close()
	requires [C22] "by the one who brought the last answer, when it has sent it" w.$cnt == 1 && w.$sent == 1 && w.$v == w.r && !w.$closed
	modifies w.$closed
	ensures w.$closed

iface (w MultiRequest) w$signal()
	requires [C22] "when all the answers are there" held(w) && w.ch == nil && w.c >= w.r

// a waiter wakes only when it is signalled
iface (w MultiRequest) w$wait()
	ensures w.c >= w.r

func (w *MultiRequest) Respond(r)
	props C22
	requires r != nil
	setup w.$cnt := 0
	setup w.$put := 0
	setup w.$sent := 0
	setup w.$closed := false
	modifies *
	flag yields
	flag nobounds
	section [C22] "the answer goes to the end of the list" len(w.responses) == old(len(w.responses)) || w.responses[old(len(w.responses))] == r && len(w.responses) == old(len(w.responses)) + 1
	calls MultiRequest.ch$send [C22] "the answer itself" $msg == r
	ensures [C22] "an answer is counted once, and put into the list or the channel, not both" w.$cnt == 1 && w.$put + w.$sent == 1
	ensures [C22] "the last one closes the channel" w.$sent == 1 && w.$v == w.r ==> w.$closed

iface (w *MultiRequest) Each$make$send(msg)
	requires [C22] "the answers collected so far, each once, in order" held(w) && w.ch == nil && msg == w.responses[w.$out]
	modifies w.$out
	ensures w.$out == old(w.$out) + 1

iface (w *MultiRequest) Each$make$close()
	requires [C22] "only when every answer is in the channel" held(w) && w.ch == nil && w.c == w.r && w.$out == w.c - w.$before
	modifies w.$closed
	ensures w.$closed

func (w *MultiRequest) Each() (ch)
	props C22
	requires "its maker collects, once" w.ch == nil && (w.owngen ==> w.gen != nil)
	setup w.$making := true
	setup w.$out := 0
	setup w.$closed := false
	modifies *
	flag yields
	flag nobounds
	invariant w.$out == $n
	ensures [C22] "the channel others answer to is the one returned" w.ch == ch && ch != nil

func (w *MultiRequest) Results() (res)
	props C22
	requires "its maker collects, once" w.ch == nil && (w.owngen ==> w.gen != nil)
	setup w.$making := true
	modifies *
	flag yields
	flag nobounds
	ensures [C22] "the list is returned when every request is answered" w.c >= w.r
	ensures [C22] "all that was collected and not handed out before" len(res) == w.c - w.$before && (len(res) > 0 ==> arr(res) == w.$handed)

func (w *MultiRequest) Request(msg, body) (req)
	props C22
	requires "the maker makes requests before it collects" w.ch == nil && w.$making
	requires (w.gen != nil ==> genok(w.gen))
	requires w.r == len(w.requests)
	modifies *
	flag yields
	ensures [C22] "numbered by its place" req.Id == old(len(w.requests))
	ensures [C22] "and put there" mrfailed(w.$kind) || w.requests[old(len(w.requests))] == req
	ensures [C22] "counted, and answered to this multi-request" w.r == old(w.r) + 1 && len(w.requests) == w.r
	ensures [C22] "answered at once when the multi-request has failed" mrfailed(w.$kind) ==> req.$answers == 1 || req.$rearm

func (w *MultiRequest) performFail(r)
	props C22
	requires r != nil
	requires mrfailed(w.kind)
	modifies @ANSWERS, w.$kind, w.$before
	flag yields
	ensures [C22] "cancelled, or expired" r.$answers == 1 || r.$rearm
	ensures mrfailed(w.$kind)
	ensures r.$tried
	ensures forall q *Request: old(q.$tried) ==> q.$tried

func (w *MultiRequest) performFailAll()
	props C22
	requires mrfailed(w.kind)
	modifies @ANSWERS, w.$kind, w.$before
	flag yields
	flag nobounds
	invariant forall j in 0..$n: $sl[j] == nil || $sl[j].$tried
	ensures [C22] "every request made before and not answered is failed" forall i in 0..old(w.r): w.requests[i] == nil || w.requests[i].$tried

func (w *MultiRequest) Cancel()
	props C22
	modifies @ANSWERS, w.kind, w.$kind, w.$before
	flag yields
	ensures mrfailed(w.kind)
	ensures [C22] "every request made before is failed, unless all are answered" w.c == w.r || forall i in 0..old(w.r): w.requests[i] == nil || w.requests[i].$tried

func (w *MultiRequest) Expire()
	props C22
	modifies @ANSWERS, w.kind, w.$kind, w.$before
	flag yields
	ensures mrfailed(w.kind)
	ensures [C22] "every request made before is failed, unless all are answered" w.c == w.r || forall i in 0..old(w.r): w.requests[i] == nil || w.requests[i].$tried
