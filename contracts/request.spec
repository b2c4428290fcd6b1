package github.com/funny-falcon/go-iproto

// what answering a request changes
macro COMPLETION: r.state, r.$answers, r.chain, r.$n, r.Response, r.Response.all, r.Responder, r.Body, r.timer.all, r.$did, r.$from, r.$rearm, r.$code, r.$barr, r.$boff, r.$blen, r.$seen, r.$took, r.$pend, r.$tried
// what answering any number of requests changes
macro ANSWERS: allof("iproto.Request.state"), allof("iproto.Request.$answers"), allof("iproto.Request.chain"), allof("iproto.Request.$n"), allof("iproto.Request.Response"), allof("iproto.Response.Id"), allof("iproto.Response.Msg"), allof("iproto.Response.Code"), allof("iproto.Response.Body"), allof("iproto.Request.Responder"), allof("iproto.Request.Body"), allof("iproto.Request.$did"), allof("iproto.Request.$from"), allof("iproto.Request.$rearm"), allof("iproto.Request.$code"), allof("iproto.Request.$barr"), allof("iproto.Request.$boff"), allof("iproto.Request.$blen"), allof("iproto.Request.$seen"), allof("iproto.Request.$took"), allof("iproto.Request.$pend"), allof("iproto.Request.$tried"), allof("iproto.Bookmark.prev"), allof("iproto.Bookmark.$read"), allof("iproto.Bookmark.Request"), allof("iproto.Bookmark.$pos"), allof("iproto.Bookmark.$told"), allof("iproto.Canceler.$told"), @TIMERS
macro TIMERS: allof("iproto.Timer.h"), allof("iproto.Timer.i")

// ---------------- ghost state ----------------
// number of times the responder has been called
ghost Request.$answers nat
// what a thread knows about its own current operation
ghost Request.$seen nat
ghost Request.$from nat
ghost Request.$did bool
ghost Request.$rearm bool
ghost Request.$took bool
ghost Request.$pend bool
// this thread has tried to answer it
ghost Request.$tried bool thread
// the accepted completion: return code and body
ghost Request.$code nat
ghost Request.$barr loc
ghost Request.$boff nat
ghost Request.$blen nat
// the bookmarks of a request, numbered in the order of attachment: $n are attached
ghost Request.$n nat
ghost Bookmark.$pos nat
ghost Bookmark.$told bool
// handed over to a request (false: still with whoever made it)
ghost Bookmark.$given bool

// new 0, pending 1, in flight 2, being answered 4 (lock held), answered 8
atomic Request.state r
	rely ($new == 0 || $new == 1 || $new == 2 || $new == 4 || $new == 8) && ($old == 8 ==> $new == 8) && ($held ==> ($old > 2 ==> $new == $old) && ($old <= 2 ==> $old <= $new && $new <= 2))
	guar (!$held ==> ($old == 0 && $new == 1) || ($old == 1 && $new == 2)) && ($held ==> $old != 8 && ($new == 8 ==> $old == 4) && ($old != 4 ==> $new == 4 || $old < $new && $new <= 2)) && ($new == 0 || $new == 1 || $new == 2 || $new == 4 || $new == 8)
	update r.$took := r.$took || ($old == 1 && $new == 2)
	update r.$pend := r.$pend || ($old == 0 && $new == 1)

lock Request.Mutex r
	guards chain, $answers, $n
	havocs Bookmark.prev, Bookmark.Request, Bookmark.$pos, Bookmark.$told unless held($l.Request) || !$l.$given
	rely forall b *Bookmark: (old(b.Request) != nil || old(b.$given) ==> b.Request == old(b.Request) || b.Request == nil) && (b.Request != nil ==> b.$given)
	inv "a request nobody is answering now" r.state == 0 || r.state == 1 || r.state == 2 || r.state == 8
	inv [C16] "answered exactly when its responder was called, once" r.$answers == (if r.state == 8 then 1 else 0)
	inv [C18] "its bookmarks form one chain, none told yet" chainok(r)
	inv "it has a responder until it is answered" r.state != 8 ==> r.Responder != nil
	acquire r.$seen := r.state

pred bm(x) = embof(x, "Bookmark")
pred chainok(q) = (q.chain == nil <==> q.$n == 0) && (q.chain != nil ==> bm(q.chain) != nil && bm(q.chain).Request == q && bm(q.chain).$pos == q.$n)
	&& (forall b *Bookmark: b.Request == q ==> !b.$told && 1 <= b.$pos && b.$pos <= q.$n)
	&& (forall b *Bookmark: b.Request == q && b.$pos == 1 ==> b.prev == nil)
	&& (forall b *Bookmark: b.Request == q && b.$pos > 1 ==> b.prev != nil && bm(b.prev) != nil && bm(b.prev).Request == q && bm(b.prev).$pos == b.$pos - 1)
	&& (forall b *Bookmark: forall c *Bookmark: b.Request == q && c.Request == q && b.$pos == c.$pos ==> b == c)
pred answer(q, res) = res.Id == q.Id && res.Msg == q.Msg && res.Code == q.$code && arr(res.Body) == q.$barr && off(res.Body) == q.$boff && len(res.Body) == q.$blen

// ---------------- those who are told ----------------
iface (q Request) Responder$Respond(res)
	requires "under the lock of the request" held(q)
	requires [C16] "the responder is called at most once" q.$answers == 0 && q.state == 4
	requires [C17] "the answer has the id, type, code and body of the completion" answer(q, res)
	requires [C18] "every bookmark was told before and let go" q.chain == nil && q.$n == 0
	modifies q.$answers, q.$did
	ensures q.$answers == 1 && q.$did

iface (b RequestBookmark) Respond(res)
	requires bm(b) != nil && bm(b).Request != nil
	requires "under the lock of the request" held(bm(b).Request)
	requires "the request is being answered" bm(b).Request.state == 4
	requires [C18] "newest first" bm(b).Request.chain == b
	requires [C18] "once each" !bm(b).$told
	requires [C17] "the answer has the id, type, code and body of the completion" answer(bm(b).Request, res)
	modifies bm(b).$told, bm(b).Request.state, bm(b).Request.$rearm, bm(b).Request.$did, bm(b).Request.$took, bm(b).Request.$pend
	ensures bm(b).Request.$did
	ensures if bm(b).Request.state == 4 then bm(b).Request.$rearm == old(bm(b).Request.$rearm) else bm(b).Request.$rearm && bm(b).Request.state <= 2
	ensures bm(b).$told == (bm(b).Request.state == 4)
	ensures [C16,C28] "only a timeout may be taken back" res.Code != 0xfd03 ==> bm(b).Request.state == 4
	flag yields

iface (b RequestBookmark) setReq(req, self)
	requires bm(b) != nil && self == b
	requires "under the lock of the request" held(req)
	requires [C18] "attached to one request at a time" bm(b).Request == nil && !bm(b).$given
	requires chainok(req)
	requires [C18] "only to a request nobody has answered" req.state <= 2
	modifies bm(b).Request, bm(b).prev, bm(b).$pos, bm(b).$told, bm(b).$given, req.chain, req.$n
	ensures chainok(req) && req.chain == b && req.$n == old(req.$n) + 1 && bm(b).Request == req && bm(b).$given

iface (b RequestBookmark) unchain() (prev)
	requires bm(b) != nil && bm(b).Request != nil
	requires "under the lock of the request" held(bm(b).Request)
	requires [C18] "the newest one, after it was told" bm(b).Request.chain == b && bm(b).$told
	requires chainbut(bm(b).Request, bm(b))
	modifies bm(b).Request, bm(b).prev, bm(b).$pos, bm(b).$told, bm(b).Request.chain, bm(b).Request.$n
	ensures prev == old(bm(b).Request).chain && chainok(old(bm(b).Request)) && bm(b).Request == nil && old(bm(b).Request).$n == old(bm(b).Request.$n) - 1

// the chain while its head has been told
pred chainbut(q, h) = q.chain != nil && bm(q.chain) == h && h.Request == q && h.$pos == q.$n && q.$n >= 1
	&& (forall b *Bookmark: b.Request == q ==> (b.$told ==> b == h) && 1 <= b.$pos && b.$pos <= q.$n)
	&& (forall b *Bookmark: b.Request == q && b.$pos == 1 ==> b.prev == nil)
	&& (forall b *Bookmark: b.Request == q && b.$pos > 1 ==> b.prev != nil && bm(b.prev) != nil && bm(b.prev).Request == q && bm(b.prev).$pos == b.$pos - 1)
	&& (forall b *Bookmark: forall c *Bookmark: b.Request == q && c.Request == q && b.$pos == c.$pos ==> b == c)

func (r *Bookmark) setReq(req, self)
	props C18
	requires req != nil && bm(self) == r
	requires held(req)
	requires r.Request == nil && !r.$given
	requires chainok(req)
	modifies r.Request, r.prev, r.$pos, r.$told, r.$given, req.chain, req.$n
	update r.$pos := old(req.$n) + 1
	update req.$n := old(req.$n) + 1
	update r.$told := false
	update r.$given := true
	ensures [C18] "becomes the newest of the chain" chainok(req) && req.chain == self && req.$n == old(req.$n) + 1 && r.Request == req && r.prev == old(req.chain)

func (r *Bookmark) unchain() (prev)
	props C18
	requires r.Request != nil
	requires held(r.Request)
	requires chainbut(r.Request, r)
	modifies r.Request, r.prev, r.$pos, r.$told, r.Request.chain, r.Request.$n
	update old(r.Request).$n := old(r.Request.$n) - 1
	ensures [C18] "lets go, leaving the rest" prev == old(r.prev) && old(r.Request).chain == prev && chainok(old(r.Request)) && r.Request == nil && old(r.Request).$n == old(r.Request.$n) - 1

func (r *Bookmark) Respond(resp)
	props C18
	requires r.Request != nil && r.Request.state == 4 && held(r.Request)
	modifies r.$told, r.Request.$did
	update r.$told := true
	update r.Request.$did := true
	ensures r.Request.state == 4 && r.$told

// ---------------- completions ----------------
func (r *Request) chainResponse(code, body)
	props C16 C17 C18
	requires held(r)
	requires r.state == 0 || r.state == 1 || r.state == 2
	requires r.$answers == 0 && r.Responder != nil
	requires chainok(r)
	setup r.$did := false
	setup r.$rearm := false
	setup r.$from := r.state
	setup r.$code := code
	setup r.$barr := arr(body)
	setup r.$boff := off(body)
	setup r.$blen := len(body)
	modifies r.state, r.$answers, r.chain, r.$n, r.Response, r.Response.all, r.Responder, r.Body, r.timer.all, r.$did, r.$from, r.$rearm, r.$code, r.$barr, r.$boff, r.$blen, r.$took, r.$pend, r.$tried
	modifies allof("Bookmark.prev"), allof("Bookmark.Request"), allof("Bookmark.$pos"), allof("Bookmark.$told")
	invariant $if == r.chain
	invariant chainok(r)
	invariant r.state == 4 && r.$answers == 0 && !r.$rearm
	flag yields
	ensures [C16] "the answer is decided: responder called once, or re-armed by a bookmark" (r.$answers == 1 && r.state == 8 && !r.$rearm) || (r.$rearm && r.$answers == 0 && r.state <= 2)
	ensures [C16] "only a timeout may be taken back by a bookmark" code != 0xfd03 ==> r.state == 8
	ensures r.$from == old(r.state)
	ensures [C17] r.$code == code && r.$barr == arr(body) && r.$boff == off(body) && r.$blen == len(body)
	ensures chainok(r) && (r.state != 8 ==> r.Responder != nil)
	ensures r.$did
	ensures [C18] "answered requests have let go of every bookmark" r.state == 8 ==> r.chain == nil && r.$n == 0

func (r *Request) RespondBytes(code, body)
	props C16 C17 C18
	setup r.$did := false
	setup r.$rearm := false
	modifies @COMPLETION
	modifies allof("Bookmark.prev"), allof("Bookmark.Request"), allof("Bookmark.$pos"), allof("Bookmark.$told")
	update r.$tried := true
	flag yields
	ensures r.$tried
	ensures [C16] "accepted only while the request is being worked on" r.$did ==> r.$from == 2
	ensures [C16] "an accepted answer is delivered" r.$seen == 2 ==> r.$did && (r.$answers == 1 && r.state == 8 || r.$rearm)
	ensures [C17] "with the given code and body" r.$did ==> r.$code == code && r.$barr == arr(body) && r.$boff == off(body) && r.$blen == len(body)

func (r *Request) RespondFail(code)
	props C16 C17 C18
	setup r.$did := false
	setup r.$rearm := false
	modifies @COMPLETION
	modifies allof("Bookmark.prev"), allof("Bookmark.Request"), allof("Bookmark.$pos"), allof("Bookmark.$told")
	update r.$tried := true
	flag yields
	ensures r.$tried
	ensures [C16] "finishes the request unless it is finished or re-armed" r.$answers == 1 || r.$rearm
	ensures [C16] "anything but a timeout finishes it" code != 0xfd03 ==> r.state == 8
	ensures [C16] "a finished request is not touched" r.$did ==> r.$from <= 2
	ensures [C17] "with the given code and no body" r.$did ==> r.$code == code && r.$blen == 0

func (r *Request) Respond(code, val)
	props C16 C17
	modifies @COMPLETION
	modifies allof("Bookmark.prev"), allof("Bookmark.Request"), allof("Bookmark.$pos"), allof("Bookmark.$told")
	update r.$tried := true
	flag yields
	ensures r.$tried
	ensures [C16] "accepted only while the request is being worked on" r.$did ==> r.$from == 2
	ensures [C17] "with the given code" r.$did ==> r.$code == code
	ensures [C17] "a body is passed on as it is" r.$did && typeis(val, Body) ==> r.$barr == arr(cast(val, Body)) && r.$boff == off(cast(val, Body)) && r.$blen == len(cast(val, Body))

func (r *Request) SetPending() (set)
	props C29
	setup r.$pend := false
	modifies r.state, r.$pend, r.$took
	flag yields
	ensures [C29] "from new to pending, by this call" set == r.$pend
	ensures set ==> r.state == 1

func (r *Request) SetInFly(mid) (set)
	props C16 C18 C29
	requires "the bookmark is not attached anywhere" mid != nil ==> bm(mid) != nil && bm(mid).Request == nil && (!bm(mid).$given || private(bm(mid)))
	setup r.$took := false
	modifies r.state, r.$took, r.$pend, r.$seen, r.chain, r.$n, bm(mid).Request, bm(mid).prev, bm(mid).$pos, bm(mid).$told, bm(mid).$given
	flag yields
	ensures old(r.$pend) ==> r.$pend
	ensures mid == nil && held(r) && old(r.state) == 1 ==> r.state == 2
	ensures [C16,C29] "taken by this call exactly when it says so" set == r.$took
	ensures [C18] "the bookmark is attached by the taker, and only then" mid != nil ==> (if set then r.chain == mid && bm(mid).Request == r && bm(mid).$given else unchanged(bm(mid).Request, bm(mid).prev, bm(mid).$given))

func (r *Request) ChainBookmark(res) (chained)
	props C18
	requires bm(res) != nil && bm(res).Request == nil && (!bm(res).$given || private(bm(res)))
	modifies r.$seen, r.chain, r.$n, bm(res).Request, bm(res).prev, bm(res).$pos, bm(res).$told, bm(res).$given, r.$tryb, r.$tryo
	update r.$tryb := bm(res)
	update r.$tryo := cast(res, "*bufBookmark")
	ensures r.$tryb == bm(res)
	ensures r.$tryo == cast(res, "*bufBookmark")
	flag yields
	ensures [C18] "only to a request that is new or pending" (chained ==> r.$seen <= 1) && (!chained ==> r.state > 1)
	ensures [C18] "attached exactly when it says so" if chained then r.chain == res && bm(res).Request == r else unchanged(bm(res).Request, bm(res).prev)

func (r *Request) ResetToPending() (ok)
	props C16
	requires held(r)
	requires "it is being answered" r.state == 4
	modifies r.state, r.$rearm, r.$took, r.$pend, r.$tried
	update r.$rearm := true
	ensures r.$rearm && r.state == 1 && ok

func (r *Request) ResetToNew() (ok)
	props C16
	requires held(r)
	requires "it is being answered" r.state == 4
	modifies r.state, r.$rearm, r.$took, r.$pend, r.$tried
	update r.$rearm := true
	ensures r.$rearm && r.state == 0 && ok

func (r *Request) Expire()
	props C16 C17
	modifies @COMPLETION
	modifies allof("Bookmark.prev"), allof("Bookmark.Request"), allof("Bookmark.$pos"), allof("Bookmark.$told")
	flag yields
	ensures r.$tried
	ensures [C16] r.$answers == 1 || r.$rearm
	ensures [C17] "timeout: its code and no body" r.$did ==> r.$code == 0xfd03 && r.$blen == 0

func (r *Request) Cancel()
	props C16 C17
	modifies @COMPLETION
	modifies allof("Bookmark.prev"), allof("Bookmark.Request"), allof("Bookmark.$pos"), allof("Bookmark.$told")
	flag yields
	ensures r.$tried
	ensures [C16] r.$answers == 1 || r.$rearm
	ensures [C16] "finished afterwards" r.state == 8
	ensures [C17] "cancellation: its code and no body" r.$did ==> r.$code == 0xff03 && r.$blen == 0

func (r *Request) IOError()
	props C16 C17
	modifies @COMPLETION
	modifies allof("Bookmark.prev"), allof("Bookmark.Request"), allof("Bookmark.$pos"), allof("Bookmark.$told")
	flag yields
	ensures r.$tried
	ensures [C16] r.$answers == 1 || r.$rearm
	ensures [C16] "finished afterwards" r.state == 8
	ensures [C17] "I/O error: its code and no body" r.$did ==> r.$code == 0xfe03 && r.$blen == 0

func (r *Request) ShutDown()
	props C16 C17
	modifies @COMPLETION
	modifies allof("Bookmark.prev"), allof("Bookmark.Request"), allof("Bookmark.$pos"), allof("Bookmark.$told")
	flag yields
	ensures r.$tried
	ensures [C16] r.$answers == 1 || r.$rearm
	ensures [C16] "finished afterwards" r.state == 8
	ensures [C17] "shutdown: its code and no body" r.$did ==> r.$code == 0xff03 && r.$blen == 0

package github.com/funny-falcon/go-iproto/marshal
func Write(i) (b)
	trusted

package github.com/funny-falcon/go-iproto
// ---------------- timers: the part a request relies on ----------------
func (t *Timer) Stop()
	trusted
	modifies t.all
	flag yields

func (t *Timer) After(d, e)
	trusted
	modifies t.all
	flag yields

// ---------------- the bookmarks of this package ----------------

func (b *bufBookmark) Respond(res)
	props C18
	implements RequestBookmark.Respond
	update bm(b).$told := true
	update bm(b).Request.$did := true

func (b *contextBookmark) Respond(res)
	props C18
	implements RequestBookmark.Respond
	update bm(b).$told := true
	update bm(b).Request.$did := true

func (b *statBookmark) Respond(res)
	props C18
	requires this.f != nil
	implements RequestBookmark.Respond
	update bm(b).$told := true
	update bm(b).Request.$did := true

func (b *ReqContext) Respond(res)
	props C16 C18
	requires bm(b) != nil && bm(b).Request != nil && res != nil
	requires held(bm(b).Request)
	requires bm(b).Request.state == 4
	requires b.owngen ==> b.gen != nil
	modifies *
	flag yields
	ensures [C16] "a timeout hands the request back to the worker, in flight; nothing else does" if old(res.Code) == 0xfd03 then bm(b).Request.state == 2 else bm(b).Request.state == 4

// the statistics callback is told once, when the request is answered
iface (f statBookmark) f(req, d)
	requires [C18] "with its request, under way to be answered" req != nil && held(req) && req.state == 4
	flag yields

func NowEpoch() (e)
	trusted
func (e Epoch) Elapsed() (d)
	trusted

// ---------------- services ----------------
iface (f SF) call(r)
	requires [C29] "a request it has just taken to work on" r.$pend && r.$took
	modifies *
	flag yields

func (f SF) Send(r)
	props C29
	requires r != nil && f != nil
	modifies *
	flag yields

func (f Route) Send(r)
	props C29
	requires r != nil && f != nil
	modifies *
	flag yields

iface (f Route) call(r)
	modifies *
	flag yields

iface (s Service) Send(r)
	requires r != nil
	modifies *
	flag yields

func (ss *StatService) Send(r)
	props C18
	requires r != nil && ss.F != nil && ss.Service != nil
	modifies *
	flag yields
	ensures true

// queued by this call of push
ghost Request.$queued nat
func (s *SimplePoint) Send(r)
	props C20 C29
	requires r != nil
	requires "made by Run" s.standalone ==> s.b.tRow != nil && !s.b.$looping && s.b.$mine <= s.b.tail
	setup r.$pend := false
	setup r.$queued := 0
	modifies r.state, r.$pend, r.$took, r.timer.all, r.timerSet, r.$queued, r.$tryb, r.$tryo, r.$seen, r.chain, r.$n, s.b.tail, s.b.tRow, s.b.rows, s.b.$idx, s.b.$mine, s.b.$direct, s.b.$woken, allof("bufBookmark.$saw"), allof("bufBookmark.state"), allof("Bookmark.Request"), allof("Bookmark.prev"), allof("Bookmark.$pos"), allof("Bookmark.$told"), allof("Bookmark.$given")
	flag yields
	panics [C29] "a refused request is not queued" r.$queued == 0 && (!r.$pend)
	ensures [C29] "queued only when accepted by this call" r.$queued <= 1 && (r.$queued == 1 ==> r.$pend)
	ensures [C29] "an accepted request is queued unless it was answered meanwhile" r.$pend ==> r.$queued == 1 || r.state == 4 || r.state == 8
	ensures [C29] "returning quietly means accepted or answered already" r.$pend || r.state == 4 || r.state == 8

func (r *Request) SetTimeout(timeout)
	props C29
	modifies r.timer.all, r.timerSet
	flag yields
