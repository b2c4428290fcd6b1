package github.com/funny-falcon/go-iproto

// ---------------- parallel services ----------------
// slots this thread holds
ghost ParallelService.$tok nat thread
// slots put in while the service was made
ghost ParallelService.$put nat thread
// the request whose worker was started last
ghost ParallelService.$gave loc thread
// the request a context was made for
ghost ReqContext.$of loc
// this thread has offered it to a context
ghost Request.$offered bool thread
// answered, or offered to a context, and then worked on if the context was made
pred caredfor(serv, q) = q.$tried || q.$offered && (q.$took ==> serv.$gave == q)

fixed ParallelService.sema
fixed ParallelService.f

iface (s ParallelService) sema$recv() (msg, ok)
	modifies s.$tok
	ensures s.$tok == old(s.$tok) + 1
iface (s ParallelService) sema$send(msg)
	requires [C28] "a slot is freed by its holder, once" private(s) || s.$tok >= 1
	modifies s.$tok, s.$put
	ensures if private(s) then s.$put == old(s.$put) + 1 && s.$tok == old(s.$tok) else s.$put == old(s.$put) && s.$tok == old(s.$tok) - 1

iface (s ParallelService) f(ctx, req) (code, val)
	requires [C28] "a handler runs in a slot" owner.$tok == 1
	requires ctx != nil && req != nil
	modifies *
	flag yields
	panics "a handler may panic" ctx.gen == old(ctx.gen) && ctx.owngen == old(ctx.owngen) && forall b *Bookmark: old(b.$given) ==> b.$given
	ensures ctx.gen == old(ctx.gen) && ctx.owngen == old(ctx.owngen)
	ensures forall b *Bookmark: old(b.$given) ==> b.$given
	ensures up_handled(req, code, val)

func Run(s)
	trusted
	modifies *
	flag yields

func (b BF) New(f) (serv)
	props C28
	requires b.N >= 0 && f != nil
	modifies *
	flag yields
	invariant made("ParallelService").$put == $n
	ensures [C28] "as many slots as configured, one when not" serv != nil && serv.$put == cap(serv.sema) && serv.$put == (if old(b.N) == 0 then 1 else old(b.N))

func (serv *ParallelService) Loop()
	props C28
	setup serv.$tok := 0
	requires serv.f != nil
	modifies *
	flag yields
	invariant serv.$tok == 0
	invariant serv.SimplePoint.$rreq == nil || caredfor(serv, cast(serv.SimplePoint.$rreq, "*Request"))
	calls ReceiveChan$recv [C28] "no request is taken before the last one was worked on or answered" serv.SimplePoint.$rreq == nil || caredfor(serv, cast(serv.SimplePoint.$rreq, "*Request"))
	flag noreturn
	requires serv.SimplePoint.$rreq == nil
	ensures [C28] "holds no slot at the end" serv.$tok == 0

func (r *Request) Context() (cx)
	props C28
	setup r.$took := false
	modifies r.state, r.$took, r.$pend, r.$seen, r.chain, r.$n, r.$offered, allof("ReqContext.$of")
	flag yields
	update r.$offered := true
	update cx.$of := r
	ensures r.$offered
	ensures cx != nil ==> cx.$of == r
	ensures (cx != nil) == r.$took
	ensures cx != nil ==> fresh(cx) && !cx.Context.owngen && cx.Bookmark.$given
	ensures cx != nil ==> (cx.Bookmark.Request == r || cx.Bookmark.Request == nil)

func (serv *ParallelService) serv(ctx)
	props C28
	requires [C28] "started with one slot" serv.$tok == 1
	requires ctx != nil && ctx.Context.gen != nil && !ctx.Context.owngen && ctx.Bookmark.$given && serv.f != nil
	spawn serv.$tok := 0
	spawn serv.$gave := ctx.$of
	modifies *
	flag yields
	flag racyread
	calls Request.Respond [C28] "with the result of the handler" up_handled($r, $code, $val)
	ensures [C28] "its slot is free again" serv.$tok == 0

func (serv *ParallelService) inc(ctx)
	props C28
	requires [C28] "started with one slot" serv.$tok == 1
	requires ctx != nil && ctx.Context.gen != nil && !ctx.Context.owngen && ctx.Bookmark.$given
	modifies *
	flag yields
	flag recovers
	flag relies
	ensures [C28] "frees the slot, once" serv.$tok == 0
	ensures [C28] "its request is answered, or was before" old(ctx.Bookmark.Request) == nil || old(ctx.Bookmark.Request).state == 8 || ctx.Bookmark.Request == nil

func (cm *ReqContext) Done()
	props C28
	requires !cm.Context.owngen && cm.Bookmark.$given
	modifies @ANSWERS, cm.Bookmark.$read, cm.Context.parent, cm.Context.owngen, allof("RGenerator.g")
	flag yields
	flag racyread
	flag relies
	calls Request.RespondFail [C28] "with the internal error code" $code == 0xfc02
	ensures [C28] "its request is answered, or was before" old(cm.Bookmark.Request) == nil || old(cm.Bookmark.Request).state == 8 || cm.Bookmark.Request == nil
