package github.com/funny-falcon/go-iproto

// ---------------- the queue of an endpoint ----------------
// what a thread knows about its own operation: the number it has taken last, one past the
// last number it has filled, whether it is the loop, one past the number it has forwarded
// last, the requests it has handed over without queueing
ghost Buffer.$idx nat thread
ghost Buffer.$mine nat thread
ghost Buffer.$looping bool thread
ghost Buffer.$sent nat thread
ghost Buffer.$direct nat thread
// the state of a slot when this thread looked last
ghost bufBookmark.$saw nat thread
// the request of a bookmark when this thread looked last
ghost Bookmark.$read loc thread
// the bookmark this thread has tried to attach last
ghost Request.$tryb loc thread
ghost Request.$tryo loc thread
// it was not pending when this thread looked last
ghost Request.$idle bool thread

// the loop has been woken at least once
ghost Buffer.$awake bool thread
// it has woken the loop (or found it woken already)
ghost Buffer.$woken bool thread

fixed bufferRow.id

atomic Buffer.tail b
	rely $new >= $old && $new < 4611686018427387904
	guar $new == $old + 1 && $new < 4611686018427387904
	grants "fewer than 2^62 requests are queued" $old < 4611686018427387903
	update b.$idx := $old
	grants "a slot whose number nobody has taken is untouched" forall R *bufferRow: R.id == $old / 1024 ==> !R.row[$old % 1024].Bookmark.$given && R.row[$old % 1024].Bookmark.Request == nil

atomic Buffer.head b
	rely $new >= $old && $new < 4611686018427387904
	writer b.$looping
	guar $new == $old + 1 && $new < 4611686018427387904

atomic Buffer.tRow b
	rely $old != nil ==> $new != nil
	guar $new != nil && held(b) && haskey(b.rows, cast($new, "*bufferRow").id) && b.rows[cast($new, "*bufferRow").id] == $new

// 0 nobody yet, 1 filled, 2 empty again
atomic bufBookmark.state s
	rely ($new == 0 || $new == 1 || $new == 2) && ($old != 0 ==> $new != 0)
	guar $new == 1 || $new == 2
	reads s.$saw := $new

lock Buffer.m b
	guards rows
	havocs mapof(b.rows)
	inv "made" b.rows != nil
	inv "rows are filed by their number" forall k uint64: haskey(b.rows, k) ==> b.rows[k] != nil && b.rows[k].id == k

pred slot(b, i) = b.hRow.row[i % 1024]

iface (b Buffer) onExit()
	modifies *
	flag yields

iface (b Buffer) ch$send(msg)
	requires [C20] "the loop forwards each number once, what it has found there; a sender hands over directly only what it has not queued, when all it queued before is gone" if b.$looping then b.$sent <= b.head && msg == b.hRow.row[b.head % 1024].Bookmark.$read && b.hRow.id == b.head / 1024 else b.$mine <= b.head && msg.$tryb == nil && b.$direct == 0
	modifies b.$sent, b.$direct
	flag yields
	ensures if b.$looping then b.$sent == b.head + 1 && b.$direct == old(b.$direct) else b.$direct == old(b.$direct) + 1 && b.$sent == old(b.$sent)

iface (b Buffer) set$send(v)
	modifies b.$woken
	ensures b.$woken

pred quiet(b) = b.head >= b.tail || b.hRow.id == b.head / 1024 && slot(b, b.head).$saw == 0 || !haskey(b.rows, b.head / 1024)

iface (b Buffer) set$recv() (v, ok)
	requires [C20] "the loop waits only when it has seen that the next number is not taken, or not filled yet" b.$awake ==> quiet(b)
	modifies b.$awake
	flag yields
	ensures b.$awake

iface (b Buffer) set$full()
	modifies b.$woken
	ensures b.$woken

func (r *Request) IsPending() (p)
	props C20
	modifies r.$idle
	update r.$idle := !p
	ensures [C20] "pending means waiting to be taken" p ==> r.$idle == false
	ensures r.$idle == !p

func (b *Buffer) push(r)
	props C20 C29
	requires [C29] "queues what was just accepted" r != nil && r.$pend
	requires [C29] "once" r.$queued == 0
	requires "of a running endpoint" b.tRow != nil && !b.$looping
	requires b.$mine <= b.tail
	setup r.$tryb := nil
	setup b.$direct := 0
	setup b.$woken := false
	modifies b.$woken, r.$queued, r.$tryb, r.$tryo, r.$seen, r.chain, r.$n, b.tail, b.tRow, b.rows, b.$idx, b.$mine, b.$direct, allof("bufBookmark.$saw"), allof("bufBookmark.state"), allof("Bookmark.Request"), allof("Bookmark.prev"), allof("Bookmark.$pos"), allof("Bookmark.$told"), allof("Bookmark.$given")
	flag yields
	calls ChainBookmark [C20] "into the slot of the number just taken" typeis($res, "*bufBookmark") && elof(cast($res, "*bufBookmark"), "bufferRow").id == b.$idx / 1024 && elix(cast($res, "*bufBookmark")) == b.$idx % 1024
	calls ChainBookmark [C20] "once, and only what was not handed over directly" $r == r && r.$tryb == nil && b.$direct == 0
	calls Buffer.set$send [C20] "only when the slot is filled" r.$tryb != nil && cast(r.$tryo, "*bufBookmark").state != 0
	calls Buffer.set$full [C20] "only when the slot is filled" r.$tryb != nil && cast(r.$tryo, "*bufBookmark").state != 0
	section [C20] "no row is replaced or dropped" forall k uint64: old(haskey(b.rows, k)) ==> haskey(b.rows, k) && b.rows[k] == old(b.rows[k])
	update r.$queued := 1
	update b.$mine := if r.$tryb != nil then b.$idx + 1 else old(b.$mine)
	ensures [C20,C29] "handed over, or put into a slot, not both" if r.$tryb != nil then b.$direct == 0 else b.$direct == 1
	ensures [C20] "the loop is woken when a slot is filled" r.$tryb != nil ==> b.$woken
	ensures r.$queued == 1
	ensures b.$mine <= b.tail

func (b *Buffer) loop()
	props C20
	requires b.hRow != nil && b.$sent <= b.head && b.hRow.id * 1024 <= b.head
	setup b.$looping := true
	setup b.$awake := false
	modifies *
	flag yields
	flag racyread
	flag relies
	invariant b.hRow != nil
	invariant b.$awake ==> quiet(b)
	invariant b.$sent <= b.head
	invariant b.hRow.id * 1024 <= b.head
	step [C20] "a number is passed in its own row" b.hRow.id == $old / 1024
	step [C20] "a number is passed when somebody has filled it" slot(b, $old).$saw != 0
	step [C20] "a request that waits is forwarded" b.$sent == $old + 1 || slot(b, $old).$saw == 2 || slot(b, $old).Bookmark.$read == nil || cast(slot(b, $old).Bookmark.$read, "*Request").$idle
	section [C20] "only a row that was passed is dropped" forall k uint64: old(haskey(b.rows, k)) ==> (k + 1) * 1024 <= b.head || haskey(b.rows, k) && b.rows[k] == old(b.rows[k])

func (b *Buffer) init()
	props C20
	modifies b.rows, b.hRow, b.tRow, b.set
	flag exclusive
	ensures [C20] "starts at the first row, which is filed" b.tRow != nil && b.hRow == b.tRow && b.hRow.id == 0 && b.rows != nil && haskey(b.rows, 0) && b.rows[0] == b.hRow && fresh(b.rows)

iface (s PointLoop) Loop()
	modifies *
	flag yields

func (s *SimplePoint) Run(ch)
	props C20
	requires "not run before" !s.standalone && s.b.head == 0 && s.b.$sent == 0
	modifies s.b.ch, s.standalone, s.b.rows, s.b.hRow, s.b.tRow, s.b.set
	flag exclusive
	ensures [C20] "an endpoint with its own channel has a queue" s.b.ch != nil && s.standalone == (ch == nil) && (s.standalone ==> s.b.tRow != nil)
