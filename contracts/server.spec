package github.com/funny-falcon/go-iproto/net/server

fixed Connection.Server, Connection.conn, Connection.out, Connection.loopNotify, Config.EndPoint, Config.RCMap, Config.RCType

// ---------------- server connections ----------------
// what this thread has put on the channel to the writer: how many, and the last one
ghost Connection.$sends nat
ghost Connection.$lid nat
ghost Connection.$lmsg nat
ghost Connection.$lcode nat
ghost Connection.$lbarr loc
ghost Connection.$lboff nat
ghost Connection.$lblen nat

macro RESPONSES: allof("net.Response.Id"), allof("net.Response.Msg"), allof("net.Response.Code"), allof("net.Response.Body")
macro SENT: c.$sends, c.$lid, c.$lmsg, c.$lcode, c.$lbarr, c.$lboff, c.$lblen

// the read loop has ended
ghost Connection.$rdone bool thread
// the control loop knows
ghost Connection.$rgot bool thread
// the channel to the writer is closed
ghost Connection.$oclosed bool
// closed by the control loop
ghost Connection.$closes bool thread

iface (c Connection) loopNotify$send(msg)
	requires [C27] "the end of reading is announced once" msg == 2 ==> !c.$rdone
	modifies c.$rdone
	ensures c.$rdone == (old(c.$rdone) || msg == 2)
	flag yields

iface (c Connection) loopNotify$recv() (msg, ok)
	modifies c.$rgot
	flag yields
	ensures "what is sent once is received once" msg == 2 ==> c.$rdone && c.$rgot && !old(c.$rgot)
	ensures msg != 2 ==> c.$rgot == old(c.$rgot)

iface (c Connection) out$close()
	requires [C27] "only when nothing can be sent any more" held(c) && c.$rdone && !c.$oclosed && len(c.buf) == 0 && forall k uint32: !haskey(c.inFly, k)
	modifies c.$oclosed, c.$closes
	ensures c.$oclosed && c.$closes

lock Connection.Mutex c
	guards inFly, buf, bufRealCap, $oclosed
	havocs mapof(c.inFly), elems(c.buf)
	inv cap(c.buf) <= 3518437208883 && 0 <= c.bufRealCap && c.bufRealCap <= 3518437208883
	inv [C27] "the channel is closed only after the last response" c.$oclosed ==> c.$rdone && c.$closes && len(c.buf) == 0 && forall k uint32: !haskey(c.inFly, k)
	inv "the table is dropped only when nothing is read any more" c.inFly == nil ==> c.$rdone
	inv forall k in 0..len(c.buf): len(c.buf[k].Body) <= 0xfffffff0
	inv [C26] "no internal code waits to be sent" forall k in 0..len(c.buf): c.buf[k].Code % 8 != 3
	inv [C27] "requests in flight are filed under their id" forall k uint32: haskey(c.inFly, k) ==> c.inFly[k] != nil && c.inFly[k].Id == k

pred mapok(m) = forall k iproto.RetCode: haskey(m, k) ==> k % 8 == 3 && m[k] % 8 != 3

iface (c Connection) out$send(msg)
	requires [C26] "no internal code is sent" msg.Code % 8 != 3
	requires len(msg.Body) <= 0xfffffff0
	requires [C27] "not on a closed channel" !c.$rdone || held(c) && !c.$oclosed
	modifies @SENT
	ensures c.$sends == old(c.$sends) + 1 && c.$lid == msg.Id && c.$lmsg == msg.Msg && c.$lcode == msg.Code && c.$lbarr == arr(msg.Body) && c.$lboff == off(msg.Body) && c.$lblen == len(msg.Body)
	flag yields

// what the writer has taken off it
ghost Connection.$recvs nat
ghost Connection.$rid nat
ghost Connection.$rmsg nat
ghost Connection.$rcode nat
ghost Connection.$rbarr loc
ghost Connection.$rboff nat
ghost Connection.$rblen nat

iface (c Connection) out$recv() (msg, ok)
	modifies c.$recvs, c.$rid, c.$rmsg, c.$rcode, c.$rbarr, c.$rboff, c.$rblen
	ensures ok ==> msg.Code % 8 != 3 && len(msg.Body) <= 0xfffffff0
	ensures c.$recvs == old(c.$recvs) + (if ok then 1 else 0)
	ensures ok ==> c.$rid == msg.Id && c.$rmsg == msg.Msg && c.$rcode == msg.Code && c.$rbarr == arr(msg.Body) && c.$rboff == off(msg.Body) && c.$rblen == len(msg.Body)
	flag yields

pred sentis(c, r) = c.$lid == r.Id && c.$lmsg == r.Msg && c.$lcode == r.Code && c.$lbarr == arr(r.Body) && c.$lboff == off(r.Body) && c.$lblen == len(r.Body)
// element k of the waiting responses is what element j was
pred was(c, k, j) = c.buf[k].Id == old(c.buf[j].Id) && c.buf[k].Msg == old(c.buf[j].Msg) && c.buf[k].Code == old(c.buf[j].Code) && arr(c.buf[k].Body) == old(arr(c.buf[j].Body)) && off(c.buf[k].Body) == old(off(c.buf[j].Body)) && len(c.buf[k].Body) == old(len(c.buf[j].Body))
pred lastwas(c, j) = c.$lid == old(c.buf[j].Id) && c.$lmsg == old(c.buf[j].Msg) && c.$lcode == old(c.buf[j].Code) && c.$lbarr == old(arr(c.buf[j].Body)) && c.$lboff == old(off(c.buf[j].Body)) && c.$lblen == old(len(c.buf[j].Body))
pred sameres(x, r) = x.Id == r.Id && x.Msg == r.Msg && x.Code == r.Code && arr(x.Body) == arr(r.Body) && off(x.Body) == off(r.Body) && len(x.Body) == len(r.Body)

func (cfg *Config) NewServer() (serv)
	props C26
	modifies *
	panics "a map that does not do so is refused" true
	invariant forall k iproto.RetCode: visited(k) ==> k % 8 == 3 && cfg.RCMap[k] % 8 != 3
	ensures [C26] "only replacements by external codes are accepted" mapok(serv.Config.RCMap)

func NewConnection(serv, connection, id) (conn)
	props C26 C27
	requires serv != nil
	ensures [C27] "nothing in flight, nothing to send" fresh(conn) && lockinv(conn) && conn.Server == serv && len(conn.buf) == 0 && forall k uint32: !haskey(conn.inFly, k)
	ensures conn.conn == connection && conn.out != nil && conn.state == 1
	ensures !conn.$rdone && !conn.$rgot && !conn.$oclosed && !conn.$closes

func (c *Connection) Respond(r)
	props C26 C27
	requires r != nil && c.Server != nil
	requires "bodies fit a frame" len(r.Body) <= 0xfffffff0
	requires "configured by NewServer" mapok(c.Server.Config.RCMap)
	modifies r.Code, c.inFly, c.buf, c.bufRealCap, @RESPONSES, @SENT
	flag yields
	section [C27] "for a request that is not in flight nothing is sent" old(!haskey(c.inFly, r.Id)) ==> c.$sends == old(c.$sends) && len(c.buf) == old(len(c.buf))
	section [C27] "one response for one in flight, sent or queued behind the others" old(haskey(c.inFly, r.Id)) ==> c.$sends + len(c.buf) == old(c.$sends + len(c.buf)) + 1 && (c.$sends != old(c.$sends) ==> old(len(c.buf)) == 0)
	section [C27] "which is no longer in flight" !haskey(c.inFly, r.Id)
	section [C27] "the others still are" forall k uint32: k != r.Id ==> (haskey(c.inFly, k) <==> old(haskey(c.inFly, k))) && (haskey(c.inFly, k) ==> c.inFly[k] == old(c.inFly[k]))
	section [C26 C27] "it is this one" (c.$sends != old(c.$sends) ==> sentis(c, r)) && (len(c.buf) != old(len(c.buf)) ==> sameres(c.buf[len(c.buf) - 1], r))
	section [C27] "those that wait keep their place" forall k in 0..old(len(c.buf)): was(c, k, k)
	ensures [C26] "internal codes are replaced, others unchanged" r.Code == (if old(r.Code) % 8 != 3 then old(r.Code) else if haskey(c.Server.Config.RCMap, old(r.Code)) && c.Server.Config.RCMap[old(r.Code)] != 0 then c.Server.Config.RCMap[old(r.Code)] else old(r.Code) - 1)

func (c *Connection) cleanBuffer() (hasOne)
	props C26 C27
	requires held(c)
	requires lockinv(c)
	modifies c.buf, c.bufRealCap, @RESPONSES, @SENT
	flag yields
	invariant c.$sends == old(c.$sends) + $n
	invariant c.buf == old(c.buf)
	invariant forall k in $n..old(len(c.buf)): was(c, k, k)
	invariant $n > 0 ==> lastwas(c, $n - 1)
	ensures lockinv(c)
	ensures [C27] "the rest keeps its order" forall k in 0..len(c.buf): was(c, k, k + (c.$sends - old(c.$sends)))
	ensures [C27] "the last one sent is the last one taken off" c.$sends != old(c.$sends) ==> lastwas(c, c.$sends - old(c.$sends) - 1)
	ensures [C27] "what is sent is taken off the front" len(c.buf) == old(len(c.buf)) - (c.$sends - old(c.$sends)) && c.$sends >= old(c.$sends)

pred frame(c, id, msg) = id == cast(c.conn, "io.Reader").$fid && msg == cast(c.conn, "io.Reader").$fmsg

func (c *Connection) readLoop()
	props C26 C27
	requires "it runs once" !c.$rdone
	requires c.Server != nil && c.conn != nil && c.Server.Config.EndPoint != nil
	requires cast(c.conn, "io.Reader").$pos >= 0
	requires c.Server.Config.RCType == 0 || c.Server.Config.RCType == 1 || c.Server.Config.RCType == 2
	modifies *
	flag yields
	calls out$send [C27] "only pings are answered here, with a ping of the same id" frame(c, $msg.Id, $msg.Msg) && $msg.Msg == 0xff00 && len($msg.Body) == 0
	calls Service.Send [C27] "the request as it was read" frame(c, $r.Id, $r.Msg) && arr($r.Body) == cast(c.conn, "io.Reader").$fbarr && off($r.Body) == cast(c.conn, "io.Reader").$fboff && len($r.Body) == cast(c.conn, "io.Reader").$fblen
	calls Service.Send [C27] "new, and answered through this connection" $r.state == 0 && $r.chain == nil && typeis($r.Responder, "*Connection") && cast($r.Responder, "*Connection") == c
	retains Service.Send "endpoints do not write to memory of the connection's reader" forall k in 0..len(local("net.HeaderReader").r.buf): local("net.HeaderReader").r.buf[k] == old(local("net.HeaderReader").r.buf[k])
	retains Service.Send "the stream is what the peer sends" forall k in 0..cast(c.conn, "io.Reader").$pos: cast(c.conn, "io.Reader").$in[k] == old(cast(c.conn, "io.Reader").$in[k])
	invariant srok(local("net.HeaderReader").r)
	invariant local("net.HeaderReader").r.r == cast(c.conn, "io.Reader")
	section [C27] "filed as in flight before it is handed over, nobody else touched" forall k uint32: if k == cast(c.conn, "io.Reader").$fid then haskey(c.inFly, k) else (haskey(c.inFly, k) <==> old(haskey(c.inFly, k))) && (haskey(c.inFly, k) ==> c.inFly[k] == old(c.inFly[k]))
	section [C27] "nothing is sent for it" len(c.buf) == old(len(c.buf))

func (c *Connection) writeLoop()
	props C26 C27
	requires c.Server != nil && c.conn != nil
	requires c.Server.Config.RCType == 0 || c.Server.Config.RCType == 1 || c.Server.Config.RCType == 2
	requires cast(c.conn, "io.Writer").$n >= 0 && c.$recvs == 0
	modifies *
	flag yields
	calls loopNotify$send "it is not the one that knows whether reading is over" $msg != 2
	calls HeaderWriter.WriteResponse [C26] "no internal code is written" $res.Code % 8 != 3
	calls HeaderWriter.WriteResponse [C27] "what is written is what was sent, in the same order" $res.Id == c.$rid && $res.Msg == c.$rmsg && $res.Code == c.$rcode && arr($res.Body) == c.$rbarr && off($res.Body) == c.$rboff && len($res.Body) == c.$rblen
	calls out$recv [C27] "all taken off before have been written, once each" local("net.HeaderWriter").$msgs == old(local("net.HeaderWriter").$msgs) + c.$recvs
	calls NetConn.CloseWrite [C27] "all taken off have been written" local("net.HeaderWriter").$msgs == old(local("net.HeaderWriter").$msgs) + c.$recvs && local("net.HeaderWriter").w.wr == 0
	invariant local("net.HeaderWriter").$msgs == old(local("net.HeaderWriter").$msgs) + c.$recvs
	invariant local("net.HeaderWriter").$msgs == old(local("net.HeaderWriter").$msgs) + c.$recvs - 1
	invariant hwok(local("net.HeaderWriter"))
	invariant c.$recvs > 0
	retains out$recv "nobody hands out the buffer of the writer" arr($msg.Body) == nil || arr($msg.Body) != arr(local("net.HeaderWriter").w.buf)

func (c *Connection) cancelInFly()
	props C27
	requires c.conn != nil
	invariant forall k in 0..len($sl): $sl[k] != nil
	invariant forall k in 0..$n: $sl[k] != nil
	invariant fresh($sl)
	modifies @ANSWERS
	flag yields

func (c *Connection) closed()
	props C27
	requires c.Server != nil
	requires "reading is over" c.$rdone
	modifies *
	flag yields

func (c *Connection) controlLoop()
	props C27
	requires c.Server != nil && c.conn != nil && c.out != nil && c.state == 1 && !c.$rgot && !c.$closes
	invariant c.$rgot || !c.$closes
	invariant c.state == 1 || c.state == 4 || c.state == 2 && c.$rdone || c.state == 6 && c.$rdone
	modifies *
	flag yields
