package github.com/funny-falcon/go-iproto

// ---------------- contexts ----------------
// told: this canceler has been cancelled
ghost Canceler.$told bool
ghost Context.$started nat
// what a thread saw registered (between two of its own steps)
ghost Context.$saw nat

// 0 live, 1 cancelled, 2 expired: the first change is the last
atomic Context.State c
	rely ($new == 0 || $new == 1 || $new == 2) && ($old != 0 ==> $new == $old)
	guar $old == 0 && ($new == 1 || $new == 2)

lock Context.m c
	guards cancels, cancelsn, cancelsm
	havocs mapof(c.cancelsm)
	inv "the slots in use are counted" c.cancelsn == (if c.cancels[0] != nil then 1 else 0) + (if c.cancels[1] != nil then 1 else 0)
	inv "nil is nobody" forall x Canceler: haskey(c.cancelsm, x) ==> x != nil

pred reg(c, x) = x != nil && (c.cancels[0] == x || c.cancels[1] == x || haskey(c.cancelsm, x))

pred once(c, x) = !(c.cancels[0] == x && c.cancels[1] == x) && !((c.cancels[0] == x || c.cancels[1] == x) && haskey(c.cancelsm, x))

iface (x Canceler) Cancel()
	modifies @ANSWERS
	flag yields
	ensures x.$told

func (c *Context) AddCanceler(cn)
	props C23
	requires cn != nil
	modifies c.State, c.cancels, c.cancelsn, c.cancelsm, c.childCond.L, @ANSWERS
	flag yields
	section [C23] "whoever is registered stays so" forall x Canceler: x != cn ==> (reg(c, x) <==> old(reg(c, x)))
	section [C23] "registered, unless the context is no longer live" reg(c, cn) || c.State != 0
	ensures [C23] "cancelled at once when the context is not live" old(c.State) != 0 ==> cn.$told

func (c *Context) RemoveCanceler(cn)
	props C23
	requires cn != nil
	modifies c.cancels, c.cancelsn, c.cancelsm
	flag yields
	section [C23] "the given one is unregistered" old(once(c, cn)) ==> !reg(c, cn)
	section [C23] "and only that one" forall x Canceler: x != cn ==> (reg(c, x) <==> old(reg(c, x)))

func (c *Context) cancelAll()
	props C23
	modifies c.State, c.cancels, c.cancelsn, c.cancelsm, c.childCond.L, @ANSWERS
	flag yields
	invariant fresh(arr($sl)) && forall k in 0..len($sl): $sl[k] != nil
	section [C23] "only the finished unregister themselves" forall x Canceler: reg(c, x) <==> old(reg(c, x))
	ensures [C23] "returns when nothing is registered" c.cancelsn == 0 && forall x Canceler: !reg(c, x)

func (c *Context) WaitAll()
	props C23
	flag yields
	section [C23] "waiting unregisters nothing" forall x Canceler: reg(c, x) <==> old(reg(c, x))
	ensures [C23] "returns when nothing is registered" forall x Canceler: !reg(c, x)

func (c *Context) Cancel()
	props C23
	modifies c.State, c.cancels, c.cancelsn, c.cancelsm, c.childCond.L, @ANSWERS
	flag yields
	step [C23] "recorded as cancelled" $new == 1
	ensures [C23] "cancelled or expired afterwards" c.State != 0
	ensures [C23] "a context that was over keeps its reason" old(c.State) != 0 ==> c.State == old(c.State)

func (c *Context) Expire()
	props C23
	modifies c.State, c.cancels, c.cancelsn, c.cancelsm, c.childCond.L, @ANSWERS
	flag yields
	step [C23] "recorded as expired" $new == 2
	ensures [C23] "cancelled or expired afterwards" c.State != 0
	ensures [C23] "a context that was over keeps its reason" old(c.State) != 0 ==> c.State == old(c.State)

func (c *Context) Done()
	props C23
	modifies c.parent, c.owngen, allof("RGenerator.g"), allof("Context.cancels"), allof("Context.cancelsn"), allof("Context.cancelsm")
	flag yields
	requires c.owngen ==> c.gen != nil
	ensures [C23] "a context whose work is done no longer belongs to its parent" c.parent == nil

func (r *RGenerator) Release()
	trusted
	modifies r.g
	flag yields

func (c *Context) Child() (child, ok)
	props C23
	modifies c.cancels, c.cancelsn, c.cancelsm, c.childCond.L, @ANSWERS
	flag yields
	ensures [C23] "a child of this context" child != nil && fresh(child)
	ensures [C23] "live only when the context was" old(c.State) != 0 ==> !ok
	ensures [C23] "cancelled at once when the context is not live" !ok ==> child.State != 0

func GetGenerator() (g)
	props C21
	flag yields
	ensures g != nil && genok(g)

func (c generators) Get() (gen)
	props C21
	flag yields
	ensures gen != nil && genok(gen)

iface (c generators) $recv() (msg, ok)
	flag yields
	ensures msg != nil && genok(msg)
iface (c generators) $send(msg)
	requires [C21] "kept for later use only in order" msg != nil && genok(msg)
	flag yields

// ---------------- making requests ----------------
pred genok(g) = 0 <= g.i && g.i < 32 && len(g.w.buf) == 0 && 0 <= g.w.DefSize && g.w.DefSize <= 0x40000000000 && (g.req != nil ==> g.res != nil)

func (gen *RGenerator) Request(id, msg, val) (req)
	props C21
	requires genok(gen)
	modifies gen.i, gen.req, gen.res, gen.w.all, spare(gen.w.buf), gen.w.$pre, gen.w.$at, gen.w.$vals, allof("Request.Id"), allof("Request.Msg"), allof("Request.Body"), allof("Request.Response")
	flag yields
	ensures genok(gen)
	ensures [C21] "the next unused slot, each once" if old(gen.req) != nil then req == old(addr(gen.req[gen.i])) else fresh(req)
	ensures [C21] "the slot is used up" if old(gen.i) == 31 then gen.i == 0 && gen.req == nil && gen.res == nil else gen.i == old(gen.i) + 1 && (old(gen.req) != nil ==> gen.req == old(gen.req) && gen.res == old(gen.res))
	ensures [C21] "with the given id and type" req.Id == id && req.Msg == msg
	ensures [C21] "and its own response" if old(gen.req) != nil then req.Response == old(addr(gen.res[gen.i])) else fresh(req.Response)
	ensures [C21] "a ready body is passed on as it is" typeis(val, Body) ==> arr(req.Body) == arr(cast(val, Body)) && off(req.Body) == off(cast(val, Body)) && len(req.Body) == len(cast(val, Body))
	ensures [C21] "anything else as it was marshalled, alone, and nobody writes to it afterwards" !typeis(val, Body) ==> up_marshalled(val, arr(req.Body), off(req.Body), len(req.Body)) && cap(req.Body) == len(req.Body) && (arr(gen.w.buf) == arr(req.Body) ==> off(gen.w.buf) >= off(req.Body) + len(req.Body))

package github.com/funny-falcon/go-iproto

// the bookmarks kept for coming requests belong to nobody yet
pred bufok(c) = forall k in 0..len(c.cancelBuf): !c.cancelBuf[k].Bookmark.$given && c.cancelBuf[k].Bookmark.Request == nil

func (c *Context) NewRequest(msg, body) (r, res)
	props C21 C23
	requires c.gen != nil ==> genok(c.gen)
	requires bufok(c)
	modifies c.reqId, c.gen, c.owngen, c.cancelBuf, allof("RGenerator.i"), allof("RGenerator.req"), allof("RGenerator.res"), allof("marshal.Writer.buf"), allof("marshal.Writer.DefSize"), allof("marshal.Writer.$pre"), allof("marshal.Writer.$at"), allof("marshal.Writer.$vals"), allelems("uint8"), c.cancels, c.cancelsn, c.cancelsm, c.childCond.L, @ANSWERS, allof("Request.Id"), allof("Request.Msg"), allof("Request.$tryb"), allof("Request.$tryo"), allof("contextBookmark.c"), allof("Bookmark.$given")
	flag yields
	ensures [C21] "made with the next id of the context and the given type" r != nil && r.Id == (old(c.reqId) + 1) % 4294967296 && r.Msg == msg
	ensures [C23] "cancelled at once when the context is not live" old(c.State) != 0 ==> r.$answers == 1 || r.$rearm

func (x *contextBookmark) Cancel()
	props C23
	implements Canceler.Cancel
	flag racyread
	update x.$told := true

func (c *Context) Go(f) (child)
	props C23
	requires f != nil
	modifies *
	flag yields
	spawn c.$started := c.$started + 1
	setup c.$started := 0
	ensures [C23] "work is not started under a context that was over" old(c.State) != 0 ==> c.$started == 0

iface (f Go) f(cx)
	modifies *
	flag yields
