package github.com/funny-falcon/go-iproto/net/client/connection

fixed Connection.conn, Connection.CConf, Connection.loopNotify, Connection.closeWrite

// the loops have ended, and the control loop knows
ghost Connection.$rdone bool thread
ghost Connection.$wdone bool thread
ghost Connection.$rgot bool thread
ghost Connection.$wgot bool thread
// the request taken off the queue last
ghost iproto.SimplePoint.$rreq loc thread

volatile iproto.SimplePoint.stopped

iface (c Connection) loopNotify$send(msg)
	requires [C25] "the end of a loop is announced once" (msg == 2 ==> !c.$rdone) && (msg == 1 ==> !c.$wdone)
	modifies c.$rdone, c.$wdone
	ensures c.$rdone == (old(c.$rdone) || msg == 2) && c.$wdone == (old(c.$wdone) || msg == 1)
	requires [C25] "the end of the read loop has a reason" msg == 2 ==> c.readErr != nil
	flag yields

iface (c Connection) loopNotify$recv() (msg, ok)
	modifies c.$rgot, c.$wgot
	flag yields
	ensures "what is sent once is received once" msg == 2 ==> c.$rdone && c.$rgot && !old(c.$rgot)
	ensures "what is sent once is received once" msg == 1 ==> c.$wdone && c.$wgot && !old(c.$wgot)
	ensures "after the read loop has set its error" msg == 2 ==> c.readErr != nil
	ensures (msg != 2 ==> c.$rgot == old(c.$rgot)) && (msg != 1 ==> c.$wgot == old(c.$wgot))

// closed when there is nobody left who could read an answer
iface (c Connection) closeWrite$close()
	requires [C25] "the read loop has ended, and the error is known" c.$rgot && c.readErr != nil
iface (c Connection) closeWrite$recv() (msg, ok)
	flag yields
	ensures "it was closed" c.readErr != nil

iface (s *iproto.SimplePoint) ReceiveChan$recv() (msg, ok)
	modifies s.$rreq, allof("iproto.Request.$offered"), allof("iproto.Request.$tried")
	flag yields
	ensures !msg.$offered && !msg.$tried
	ensures ok && msg != nil && s.$rreq == msg && len(msg.Body) <= 0xffffffff


// ---------------- the table of requests in flight on a client connection ----------------
// the id given out last, and the request the last answer was for
ghost RequestHolder.$gid nat thread
ghost RequestHolder.$asked nat thread
ghost RequestHolder.$gone loc thread

lock RequestHolder.Mutex h
	guards reqs
	havocs mapof(h.reqs)
	inv h.reqs != nil && forall k uint32: haskey(h.reqs, k) ==> h.reqs[k] != nil
	inv [C24 C25] "one row per block of ids" forall j uint32: forall k uint32: haskey(h.reqs, j) && haskey(h.reqs, k) && h.reqs[j] == h.reqs[k] ==> j == k

pred slotof(h, id) = addr(h.cur.reqs[id % 256])

func (h *RequestHolder) init()
	props C24
	flag exclusive
	modifies h.cur, h.last, h.reqs
	ensures [C24] "one empty row, for the first ids" h.cur != nil && h.last == h.cur && fresh(h.cur) && h.reqs[0] == h.cur && (forall k uint32: haskey(h.reqs, k) ==> k == 0)

func (h *RequestHolder) getNext(conn) (req, id)
	props C24
	requires h.cur != nil
	modifies h.got, h.curId, h.reqs, h.cur, h.big, h.$gid
	flag yields
	update h.$gid := id
	invariant h.cur != nil
	section [C24] "rows with unanswered requests are kept" forall k uint32: old(haskey(h.reqs, k)) ==> haskey(h.reqs, k) && h.reqs[k] == old(h.reqs[k])
	section [C24] "a row is added for ids that have none, with nothing in it" forall k uint32: haskey(h.reqs, k) && !old(haskey(h.reqs, k)) ==> k == h.big && h.reqs[k] == h.cur && fresh(h.cur)
	ensures [C24] "never zero, never the ping id" id != 0 && id != 0xffffffff
	ensures [C24] "the slot with this id, of its row" h.cur != nil && id / 256 == h.big && req == slotof(h, id)
	ensures [C24] "not in use" req.fakeId == 0
	ensures h.$gid == id

func (h *RequestHolder) remove(fakeId) (ireq)
	props C24
	requires h.last != nil
	modifies h.last, h.lastBig, h.reqs, h.put, h.$asked, h.$gone, allof("RequestRow.freed"), allof("Request.fakeId"), allof("iproto.Request.$tried"), allof("iproto.Bookmark.$read")
	flag yields
	flag racyread
	update h.$asked := fakeId
	update h.$gone := ireq
	update ireq.$tried := false
	section [C24] "other rows are kept" forall k uint32: old(haskey(h.reqs, k)) && k != fakeId / 256 ==> haskey(h.reqs, k) && h.reqs[k] == old(h.reqs[k])
	ensures [C24] "the request that was given this id" ireq != nil ==> fakeId != 0 && h.lastBig == fakeId / 256 && forall s *Request: s == addr(h.last.reqs[fakeId % 256]) ==> old(s.fakeId) == fakeId && ireq == s.Request
	section [C24 C25] "its row is dropped only when every id of the row was answered" old(haskey(h.reqs, fakeId / 256)) && !haskey(h.reqs, fakeId / 256) ==> h.last.freed >= 256 || h.last.freed == 255 && (fakeId / 256 == 0 || fakeId / 256 == 0xffffff)
	shows [C24] "an id in use is released, once" forall w *RequestRow: w == h.last ==> (if fakeId != 0 && h.lastBig == fakeId / 256 && old(w.reqs[fakeId % 256].fakeId) == fakeId then w.reqs[fakeId % 256].fakeId == 0 && w.freed == (old(w.freed) + 1) % 0x100000000 else w.reqs[fakeId % 256].fakeId == old(w.reqs[fakeId % 256].fakeId) && w.freed == old(w.freed))
	shows [C24] "nothing else is" forall w *RequestRow: forall k in 0..256: w != h.last || k != fakeId % 256 ==> w.reqs[k].fakeId == old(w.reqs[k].fakeId)
	ensures h.last != nil && h.$asked == fakeId && h.$gone == ireq && (ireq != nil ==> !ireq.$tried)

macro LIST: (*local("[]*Request"))
// marked, with a request to answer
pred used(q) = q.fakeId != 0 && q.Request != nil

func (h *RequestHolder) getAll() (reqs)
	props C25
	flag racyread nobounds exclusive
	invariant forall b uint32: visited(b) ==> forall j in 0..256: used(h.reqs[b].reqs[j]) ==> exists i in 0..$acc: @LIST[i] == addr(h.reqs[b].reqs[j])
	invariant forall b uint32: visited(b) && b != $key ==> forall j in 0..256: used(h.reqs[b].reqs[j]) ==> exists i in 0..$acc: @LIST[i] == addr(h.reqs[b].reqs[j])
	invariant forall j in 0..$n: used(h.reqs[$key].reqs[j]) ==> exists i in 0..$acc: @LIST[i] == addr(h.reqs[$key].reqs[j])
	invariant 0 <= $acc && $acc <= len(@LIST)
	invariant forall i in 0..$acc: @LIST[i] != nil
	invariant forall i in 0..$acc: @LIST[i].fakeId != 0
	invariant forall i in 0..$acc: @LIST[i].Bookmark.$given
	invariant fresh(@LIST)
	ensures [C25] "all that were sent and not answered" forall b uint32: forall j in 0..256: haskey(h.reqs, b) && used(h.reqs[b].reqs[j]) ==> exists i in 0..len(reqs): reqs[i] == addr(h.reqs[b].reqs[j])
	ensures forall i in 0..len(reqs): reqs[i] != nil && reqs[i].Bookmark.$given
	ensures [C25] "and no others" forall i in 0..len(reqs): reqs[i].fakeId != 0

func (c *Connection) flushInFly()
	props C25
	flag yields exclusive racyread
	modifies *
	retains RespondFail "attached bookmarks stay where they are until they are taken off" forall b *iproto.Bookmark: (old(b.Request) != nil || old(b.$given) ==> b.Request == old(b.Request) || b.Request == nil) && (b.Request != nil ==> b.$given)
	retains ShutDown "attached bookmarks stay where they are until they are taken off" forall b *iproto.Bookmark: (old(b.Request) != nil || old(b.$given) ==> b.Request == old(b.Request) || b.Request == nil) && (b.Request != nil ==> b.$given)
	retains IOError "attached bookmarks stay where they are until they are taken off" forall b *iproto.Bookmark: (old(b.Request) != nil || old(b.$given) ==> b.Request == old(b.Request) || b.Request == nil) && (b.Request != nil ==> b.$given)
	calls RespondFail [C25] "I/O error, or shutdown if it was shut down" $code == (if c.shutdown then 0xff03 else 0xfe03)
	calls ShutDown [C25] "only if it was shut down" c.shutdown
	calls IOError [C25] "only if it was not shut down" !c.shutdown
	invariant forall i in 0..$n: $sl[i].Bookmark.$given && ($sl[i].Request == nil || $sl[i].Request.$tried)
	ensures [C25] "everything in flight is answered" forall b uint32: forall j in 0..256: old(haskey(c.inFly.reqs, b) && used(c.inFly.reqs[b].reqs[j])) ==> old(c.inFly.reqs[b]).reqs[j].Request == nil || old(c.inFly.reqs[b]).reqs[j].Request.$tried

pred cframe(c, id, code, body) = id == cast(c.conn, "io.Reader").$fid && code == cast(c.conn, "io.Reader").$fcode && arr(body) == cast(c.conn, "io.Reader").$fbarr && off(body) == cast(c.conn, "io.Reader").$fboff && len(body) == cast(c.conn, "io.Reader").$fblen
pred answered(c) = c.inFly.$gone == nil || cast(c.inFly.$gone, "*iproto.Request").$tried

func (c *Connection) readLoop()
	props C24 C25
	requires "it runs once" !c.$rdone
	requires c.conn != nil && srok(c.reader.r) && c.reader.r.r == cast(c.conn, "io.Reader") && c.inFly.last != nil && c.inFly.$gone == nil
	requires c.reader.rc == 0 || c.reader.rc == 1 || c.reader.rc == 2
	modifies *
	flag yields
	calls HeaderReader.ReadResponse [C24] "the request the last answer was for is answered" answered(c)
	calls remove [C24] "the id of the frame just read" $fakeId == cast(c.conn, "io.Reader").$fid
	calls RespondBytes [C24] "the request that was given this id, with the code and body of the answer" $r == c.inFly.$gone && cframe(c, c.inFly.$asked, $code, $body)
	calls loopNotify$send [C24] "the request the last answer was for is answered" answered(c)
	invariant answered(c) && c.inFly.last != nil && !c.$rdone
	invariant srok(local("net.HeaderReader").r)
	invariant local("net.HeaderReader").r.r == cast(c.conn, "io.Reader")
	retains RespondBytes "responders do not write to memory of the connection's reader" forall k in 0..len(local("net.HeaderReader").r.buf): local("net.HeaderReader").r.buf[k] == old(local("net.HeaderReader").r.buf[k])
	retains RespondBytes "the stream is what the peer sends" forall k in 0..cast(c.conn, "io.Reader").$pos: cast(c.conn, "io.Reader").$in[k] == old(cast(c.conn, "io.Reader").$in[k])

// the request taken last is written, unless somebody answered it before it was taken
pred written(c, w) = c.SimplePoint.$rreq == nil || !cast(c.SimplePoint.$rreq, "*iproto.Request").$took || w.$wid == c.inFly.$gid && c.inFly.$gid != 0

func (c *Connection) writeLoop()
	props C24 C25
	requires "it runs once" !c.$wdone
	requires c.CConf != nil && c.conn != nil && c.inFly.cur != nil && c.SimplePoint.$rreq == nil && c.inFly.$gid == 0
	requires hwok(c.writer) && c.writer.w.w == cast(c.conn, "io.Writer")
	modifies *
	flag yields
	retains getNext "fewer than 2^24 blocks of ids wait for answers at once, so that no slot is used twice" $req.Request == nil && !$req.Bookmark.$given
	retains ReceiveChan$recv "nobody hands out the buffer of the writer" arr($msg.Body) == nil || arr($msg.Body) != arr(local("net.HeaderWriter").w.buf)
	calls SetInFly [C24] "the request taken off the queue goes into the slot of the new id" $r == c.SimplePoint.$rreq && typeis($mid, "*Request") && cast($mid, "*Request") == slotof(c.inFly, c.inFly.$gid)
	calls SetInFly [C24] "the slot is marked only when there is a request in it" cast($mid, "*Request").fakeId == 0
	calls HeaderWriter.WriteRequest [C24] "under the id its slot is marked with" $req.Id == c.inFly.$gid && $req.Id != 0 && $req.Id != 0xffffffff && c.inFly.cur.reqs[$req.Id % 256].fakeId == $req.Id
	calls HeaderWriter.WriteRequest [C24] "as the application made it" $req.Msg == cast(c.SimplePoint.$rreq, "*iproto.Request").Msg
	calls NetConn.CloseWrite [C25] "writing stops without an error when the connection is shut down, and the others know" c.shutdown
	calls ReceiveChan$recv [C24] "the last one that was taken is written" written(c, local("net.HeaderWriter"))
	invariant written(c, local("net.HeaderWriter"))
	invariant c.inFly.cur != nil
	invariant hwok(local("net.HeaderWriter"))
	invariant $acc == c.inFly.$gid
	invariant $acc == nil || $acc == slotof(c.inFly, c.inFly.$gid)
	invariant $acc == nil || !$acc.Bookmark.$given
	invariant $acc == nil || $acc.fakeId == 0
	invariant $acc == nil || $acc.Request == nil
	invariant $acc != nil ==> c.inFly.$gid != 0 && c.inFly.$gid != 0xffffffff

func (c *Connection) controlLoopExit()
	props C25
	requires [C25] "both loops have ended" c.$rgot && c.$wgot
	requires c.conn != nil && c.CConf != nil
	modifies *
	flag yields

func (c *Connection) controlLoop()
	props C25
	requires c.conn != nil && c.CConf != nil && c.closeWrite != nil && c.State / 8 % 4 == 0 && !c.$rgot && !c.$wgot
	modifies *
	flag yields
	calls NetConn.CloseRead [C25] "answers are read as long as some are due" c.$wgot && c.inFly.got == c.inFly.put
	invariant (c.State / 16 % 2 == 1 ==> c.$wgot) && (c.State / 8 % 2 == 1 ==> c.$rgot)

func NewConnection(conf, id) (conn)
	props C24
	ensures [C24] "its read loop may start" fresh(conn) && conn.inFly.last != nil && conn.inFly.cur == conn.inFly.last && conn.CConf == conf && conn.closeWrite != nil && conn.State / 8 % 4 == 0
	ensures [C24] "no id was given out" conn.inFly.curId == 0 && conn.inFly.big == 0 && conn.inFly.lastBig == 0 && (forall k in 0..256: conn.inFly.cur.reqs[k].fakeId == 0 && conn.inFly.cur.reqs[k].Request == nil)

func (c *Connection) Loop()
	props C24 C25
	requires "made by NewConnection" c.CConf != nil && c.closeWrite != nil && c.inFly.cur != nil && c.inFly.last != nil && c.inFly.$gid == 0 && c.inFly.$gone == nil && c.SimplePoint.$rreq == nil
	requires "it runs once" !c.$rdone && !c.$wdone && !c.$rgot && !c.$wgot
	requires "a supported return-code width" c.CConf.RetCodeType == 0 || c.CConf.RetCodeType == 1 || c.CConf.RetCodeType == 2
	modifies *
	flag yields
