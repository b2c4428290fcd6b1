package github.com/funny-falcon/go-iproto/net

// ---------------- the outside: io.Writer, io.Reader, deadlines ----------------
// everything the connection has accepted so far, and whether it ever reported an error
ghost io.Writer.$out []byte
ghost io.Writer.$n nat
ghost io.Writer.$failed bool

iface (c io.Writer) Write(p) (n, err)
	modifies c.$out, c.$n, c.$failed
	ensures 0 <= c.$n - old(c.$n) && c.$n - old(c.$n) <= len(p) && n == c.$n - old(c.$n)
	ensures err == nil ==> n == len(p)
	ensures forall k in 0 .. n: c.$out[old(c.$n) + k] == p[k]
	ensures forall k in 0 .. old(c.$n): c.$out[k] == old(c.$out[k])
	ensures c.$failed == (old(c.$failed) || err != nil)

// the endless stream the peer sends, and how much of it has been delivered
ghost io.Reader.$in []byte thread
ghost io.Reader.$pos nat thread
// the last frame taken from it
ghost io.Reader.$fid nat thread
ghost io.Reader.$fmsg nat thread
ghost io.Reader.$fcode nat thread
ghost io.Reader.$fbarr loc thread
ghost io.Reader.$fboff nat thread
ghost io.Reader.$fblen nat thread

iface (c io.Reader) Read(p) (n, err)
	modifies c.$pos, elems(p)
	ensures 0 <= n <= len(p)
	ensures c.$pos == old(c.$pos) + n
	ensures forall k in 0 .. n: p[k] == c.$in[old(c.$pos) + k]

iface (d SetDeadliner) SetReadDeadline(t) (err)
	ensures true
iface (d SetDeadliner) SetWriteDeadline(t) (err)
	ensures true

// ---------------- BufWriter ----------------
pred bwok(w) = w.w != nil && 0 <= w.wr && w.wr <= len(w.buf) && (arr(w.buf) == nil || len(w.buf) >= 16) && w.w.$n >= 0
// total length and byte i of everything written: received by the connection, then still buffered
pred total(w) = w.w.$n + w.wr
pred at(w, i) = if i < w.w.$n then w.w.$out[i] else w.buf[i - w.w.$n]
pred kept(w) = forall i in 0 .. old(total(w)): at(w, i) == old(at(w, i))
// no error of the connection went unreported
pred noerr(w) = w.w.$failed == old(w.w.$failed)
pred samebuf(w) = (arr(w.buf) == old(arr(w.buf)) && off(w.buf) == old(off(w.buf)) && len(w.buf) == old(len(w.buf))) || fresh(w.buf)

func (w *BufWriter) Write(body) (err)
	props C03 C01 C02
	requires bwok(w)
	requires "the buffer is private" arr(body) == nil || arr(body) != arr(w.buf)
	requires len(body) <= 0x40000000000
	modifies w.buf, w.wr, w.d, w.dChecked, elems(w.buf), w.w.$out, w.w.$n, w.w.$failed
	ensures bwok(w) || err != nil
	ensures "same connection, private buffer" w.w == old(w.w) && samebuf(w)
	ensures "appended to the stream" err == nil ==> total(w) == old(total(w)) + len(body)
	ensures "earlier bytes kept" err == nil ==> kept(w)
	ensures "the bytes of the body, in order" err == nil ==> (forall k in 0 .. len(body): at(w, old(total(w)) + k) == body[k])
	ensures [C03] "an error of the connection is reported" err == nil ==> noerr(w)

func (w *BufWriter) WriteUint32(i) (err)
	props C03 C02
	requires bwok(w)
	modifies w.buf, w.wr, w.d, w.dChecked, elems(w.buf), w.w.$out, w.w.$n, w.w.$failed
	ensures bwok(w) || err != nil
	ensures "same connection, private buffer" w.w == old(w.w) && samebuf(w)
	ensures "appended to the stream" err == nil ==> total(w) == old(total(w)) + 4
	ensures "earlier bytes kept" err == nil ==> kept(w)
	ensures "little-endian bytes" err == nil ==> word(w, old(total(w)), i)
	ensures [C03] "an error of the connection is reported" err == nil ==> noerr(w)

func (w *BufWriter) Write3Uint32(i, j, k) (err)
	props C03 C01 C02
	requires bwok(w)
	modifies w.buf, w.wr, w.d, w.dChecked, elems(w.buf), w.w.$out, w.w.$n, w.w.$failed
	ensures bwok(w) || err != nil
	ensures "same connection, private buffer" w.w == old(w.w) && samebuf(w)
	ensures "appended to the stream" err == nil ==> total(w) == old(total(w)) + 12
	ensures "earlier bytes kept" err == nil ==> kept(w)
	ensures "little-endian bytes" err == nil ==> word(w, old(total(w)), i) && word(w, old(total(w)) + 4, j) && word(w, old(total(w)) + 8, k)
	ensures [C03] "an error of the connection is reported" err == nil ==> noerr(w)

func (w *BufWriter) WriteByte(i) (err)
	props C03 C02
	requires bwok(w)
	modifies w.buf, w.wr, w.d, w.dChecked, elems(w.buf), w.w.$out, w.w.$n, w.w.$failed
	ensures bwok(w) || err != nil
	ensures "same connection, private buffer" w.w == old(w.w) && samebuf(w)
	ensures "appended to the stream" err == nil ==> total(w) == old(total(w)) + 1
	ensures "earlier bytes kept" err == nil ==> kept(w)
	ensures "the byte" err == nil ==> at(w, old(total(w))) == i
	ensures [C03] "an error of the connection is reported" err == nil ==> noerr(w)

func (w *BufWriter) Flush() (err)
	props C03 C01 C02
	requires bwok(w)
	modifies w.buf, w.wr, w.d, w.dChecked, w.w.$out, w.w.$n, w.w.$failed
	ensures bwok(w) || err != nil
	ensures "same connection, private buffer" w.w == old(w.w) && samebuf(w)
	ensures "nothing new in the stream" err == nil ==> total(w) == old(total(w))
	ensures "earlier bytes kept" err == nil ==> kept(w)
	ensures "nothing stays buffered" err == nil ==> w.wr == 0
	ensures "a buffer exists" err == nil ==> len(w.buf) >= 16
	ensures [C03] "an error of the connection is reported" err == nil ==> noerr(w)

func (w *BufWriter) write(buf) (err)
	optional
	props C03
	requires w.w != nil
	modifies w.d, w.dChecked, w.w.$out, w.w.$n, w.w.$failed
	ensures err == nil ==> w.w.$n == old(w.w.$n) + len(buf)
	ensures err == nil ==> (forall k in 0 .. len(buf): w.w.$out[old(w.w.$n) + k] == buf[k])
	ensures forall k in 0 .. old(w.w.$n): w.w.$out[k] == old(w.w.$out[k])
	ensures "an error of the connection is reported" err == nil ==> noerr(w)

// ---------------- HeaderWriter ----------------
pred rcw(rc) = if rc == RC4byte then 4 else if rc == RC1byte then 1 else 0
pred hwok(h) = bwok(h.w) && (h.rc == RC4byte || h.rc == RC1byte || h.rc == RC0byte) && h.rcl == rcw(h.rc)
// the stream continues, at position p, with the little-endian word v
pred word(w, p, v) = at(w, p) == v % 256 && at(w, p + 1) == v / 256 % 256 && at(w, p + 2) == v / 65536 % 256 && at(w, p + 3) == v / 16777216 % 256
pred bytesat(w, p, s) = forall k in 0 .. len(s): at(w, p + k) == s[k]

// responses written so far
ghost HeaderWriter.$msgs nat
// id of the request written last
ghost HeaderWriter.$wid nat

iface (c NetConn) RemoteAddr() (a)
iface (c NetConn) CloseRead() (err)
	flag yields
iface (c NetConn) CloseWrite() (err)
	flag yields
iface (c NetConn) Close() (err)
	flag yields

func (h *HeaderWriter) Init(w, timeout, rc)
	props C01 C02
	requires w != nil && w.$n >= 0
	requires "a supported return-code width" rc == RC4byte || rc == RC1byte || rc == RC0byte
	modifies h.w, h.rc, h.rcl
	ensures "ready, nothing buffered" hwok(h) && h.w.wr == 0 && h.w.w == w && h.rc == rc

func (h *HeaderWriter) WriteRequest(req) (err)
	props C01 C03
	requires hwok(h)
	requires "the buffer is private" arr(req.Body) == nil || arr(req.Body) != arr(h.w.buf)
	requires "the length fits its field" len(req.Body) <= 0xffffffff
	modifies h.w.buf, h.w.wr, h.w.d, h.w.dChecked, elems(h.w.buf), h.w.w.$out, h.w.w.$n, h.w.w.$failed, h.$wid
	update h.$wid := if req.Id == 0xffffffff then h.$wid else req.Id
	ensures h.$wid == (if req.Id == 0xffffffff then old(h.$wid) else req.Id)
	ensures hwok(h) || err != nil
	ensures h.w.w == old(h.w.w) && samebuf(h.w)
	ensures [C01] "header and body and nothing else" err == nil ==> total(h.w) == old(total(h.w)) + 12 + len(req.Body)
	ensures "everything before is kept" err == nil ==> kept(h.w)
	ensures [C01] "type" err == nil ==> word(h.w, old(total(h.w)), req.Msg)
	ensures [C01] "length" err == nil ==> word(h.w, old(total(h.w)) + 4, len(req.Body))
	ensures [C01] "id" err == nil ==> word(h.w, old(total(h.w)) + 8, req.Id)
	ensures [C01] "body" err == nil ==> bytesat(h.w, old(total(h.w)) + 12, req.Body)
	ensures [C03] "an error of the connection is reported" err == nil ==> noerr(h.w)

func (h *HeaderWriter) Ping() (err)
	props C01 C03
	requires hwok(h)
	modifies h.w.buf, h.w.wr, h.w.d, h.w.dChecked, elems(h.w.buf), h.w.w.$out, h.w.w.$n, h.w.w.$failed, h.$wid
	ensures h.$wid == old(h.$wid)
	ensures hwok(h) || err != nil
	ensures h.w.w == old(h.w.w) && samebuf(h.w)
	ensures [C01] "an empty frame" err == nil ==> total(h.w) == old(total(h.w)) + 12
	ensures "everything before is kept" err == nil ==> kept(h.w)
	ensures [C01] "the reserved type, length zero and the reserved id" err == nil ==> word(h.w, old(total(h.w)), 0xff00) && word(h.w, old(total(h.w)) + 4, 0) && word(h.w, old(total(h.w)) + 8, 0xffffffff)
	ensures [C03] "an error of the connection is reported" err == nil ==> noerr(h.w)

// number of return-code bytes of this response
pred rcl(h, msg) = if msg == 0xff00 then 0 else rcw(h.rc)

func (h *HeaderWriter) WriteResponse(res) (err)
	props C02 C03
	requires hwok(h)
	requires "the buffer is private" arr(res.Body) == nil || arr(res.Body) != arr(h.w.buf)
	requires "the length fits its field" len(res.Body) <= 0xfffffff0
	modifies h.w.buf, h.w.wr, h.w.d, h.w.dChecked, elems(h.w.buf), h.w.w.$out, h.w.w.$n, h.w.w.$failed, h.$msgs
	update h.$msgs := h.$msgs + 1
	ensures h.$msgs == old(h.$msgs) + 1
	ensures hwok(h) || err != nil
	ensures h.w.w == old(h.w.w) && samebuf(h.w)
	ensures [C02] "header, code, body and nothing else" err == nil ==> total(h.w) == old(total(h.w)) + 12 + rcl(h, res.Msg) + len(res.Body)
	ensures "everything before is kept" err == nil ==> kept(h.w)
	ensures [C02] "type" err == nil ==> word(h.w, old(total(h.w)), res.Msg)
	ensures [C02] "length counts code and body" err == nil ==> word(h.w, old(total(h.w)) + 4, rcl(h, res.Msg) + len(res.Body))
	ensures [C02] "id" err == nil ==> word(h.w, old(total(h.w)) + 8, res.Id)
	ensures [C02] "return code bytes" err == nil ==> (rcl(h, res.Msg) == 1 ==> at(h.w, old(total(h.w)) + 12) == res.Code % 256) && (rcl(h, res.Msg) == 4 ==> word(h.w, old(total(h.w)) + 12, res.Code))
	ensures [C02] "body" err == nil ==> bytesat(h.w, old(total(h.w)) + 12 + rcl(h, res.Msg), res.Body)
	ensures [C03] "an error of the connection is reported" err == nil ==> noerr(h.w)

func (h *HeaderWriter) Flush() (err)
	props C01 C02 C03
	requires hwok(h)
	modifies h.w.buf, h.w.wr, h.w.d, h.w.dChecked, h.w.w.$out, h.w.w.$n, h.w.w.$failed
	ensures hwok(h) || err != nil
	ensures h.w.w == old(h.w.w) && samebuf(h.w)
	ensures "nothing stays buffered, nothing added or lost" err == nil ==> h.w.wr == 0 && total(h.w) == old(total(h.w)) && kept(h.w)
	ensures [C03] "an error of the connection is reported" err == nil ==> noerr(h.w)

// ---------------- SliceReader ----------------
// position in the peer's stream of the next byte the decoder will see
pred lp(sl) = sl.r.$pos - len(sl.buf)
pred srok(sl) = sl.r != nil && sl.size > 0 && sl.size <= 0x10000000 && sl.r.$pos >= len(sl.buf) && (forall k in 0 .. len(sl.buf): sl.buf[k] == sl.r.$in[lp(sl) + k])
// the read window is a part of the previous one, or brand new
pred window(sl) = fresh(sl.buf) || (arr(sl.buf) == old(arr(sl.buf)) && off(sl.buf) >= old(off(sl.buf)) && off(sl.buf) + cap(sl.buf) <= old(off(sl.buf) + cap(sl.buf)) && off(sl.buf) + len(sl.buf) >= old(off(sl.buf) + len(sl.buf)))
// s lies outside the bytes any later read may write
pred apart(sl, s) = arr(s) == nil || arr(s) != arr(sl.buf) || off(s) + len(s) <= off(sl.buf) || off(s) >= off(sl.buf) + cap(sl.buf)
// s comes from the old window or is brand new
pred within(sl, s) = arr(s) == nil || fresh(s) || (arr(s) == old(arr(sl.buf)) && off(s) >= old(off(sl.buf)) && off(s) + len(s) <= old(off(sl.buf) + cap(sl.buf)))

func (sl *SliceReader) Read(n) (res, err)
	props C04 C05
	requires srok(sl)
	requires 0 <= n && n <= 0xffffffff
	modifies sl.buf, sl.d, sl.dChecked, spare(sl.buf), sl.r.$pos
	ensures sl.r == old(sl.r) && sl.size == old(sl.size)
	ensures err == nil ==> srok(sl)
	ensures [C04] "exactly the next n bytes" err == nil ==> len(res) == n && lp(sl) == old(lp(sl)) + n && (forall k in 0 .. n: res[k] == sl.r.$in[old(lp(sl)) + k])
	ensures [C04] "what is appended to it lands elsewhere" err == nil ==> cap(res) == n
	ensures [C04] "fails only if the connection did not deliver n bytes" err != nil ==> sl.r.$pos < old(lp(sl)) + n
	ensures [C05] "later reads write only into this shrinking window or into new memory" window(sl)
	ensures [C05] "and what was handed out is not in it" apart(sl, res) && within(sl, res)
	invariant 0 <= $acc && $acc <= cap($sl) && sl.r.$pos == old(lp(sl)) + $acc
	invariant forall k in 0 .. $acc: $sl[k] == sl.r.$in[old(lp(sl)) + k]

func (sl *SliceReader) read(buf) (n, err)
	optional
	props C04 C05
	requires sl.r != nil
	modifies sl.d, sl.dChecked, elems(buf), sl.r.$pos
	ensures 0 <= n && n <= len(buf)
	ensures sl.r.$pos == old(sl.r.$pos) + n
	ensures forall k in 0 .. n: buf[k] == sl.r.$in[old(sl.r.$pos) + k]

func (sl *SliceReader) ReadByte() (res, err)
	props C04 C05
	requires srok(sl)
	modifies sl.buf, sl.d, sl.dChecked, spare(sl.buf), sl.r.$pos
	ensures sl.r == old(sl.r) && sl.size == old(sl.size)
	ensures err == nil ==> srok(sl)
	ensures [C04] "exactly the next byte" err == nil ==> lp(sl) == old(lp(sl)) + 1 && res == sl.r.$in[old(lp(sl))]
	ensures [C04] "fails only if the connection did not deliver a byte" err != nil ==> sl.r.$pos < old(lp(sl)) + 1
	ensures [C05] "later reads write only into this shrinking window or into new memory" window(sl)

// ---------------- HeaderReader ----------------
pred inword(sl, p) = sl.r.$in[p] + 256 * sl.r.$in[p + 1] + 65536 * sl.r.$in[p + 2] + 16777216 * sl.r.$in[p + 3]

func (h *HeaderReader) Init(conn, timeout, rc)
	props C04
	requires conn != nil && conn.$pos >= 0
	modifies h.r, h.rc
	ensures "ready, nothing consumed" srok(h.r) && h.r.r == conn && lp(h.r) == conn.$pos && h.rc == rc && h.r.size == 8192

func (h *HeaderReader) ReadRequest() (req, err)
	props C04 C05
	requires srok(h.r)
	modifies h.r.buf, h.r.d, h.r.dChecked, spare(h.r.buf), h.r.r.$pos, h.r.r.$fid, h.r.r.$fmsg, h.r.r.$fbarr, h.r.r.$fboff, h.r.r.$fblen
	update h.r.r.$fid := req.Id
	update h.r.r.$fmsg := req.Msg
	update h.r.r.$fbarr := arr(req.Body)
	update h.r.r.$fboff := off(req.Body)
	update h.r.r.$fblen := len(req.Body)
	ensures h.r.r.$fid == req.Id && h.r.r.$fmsg == req.Msg && h.r.r.$fbarr == arr(req.Body) && h.r.r.$fboff == off(req.Body) && h.r.r.$fblen == len(req.Body)
	ensures h.r.r == old(h.r.r) && h.r.size == old(h.r.size)
	ensures err == nil ==> srok(h.r)
	ensures [C04] "fails only if the connection did not deliver the whole frame" err != nil ==> h.r.r.$pos < old(lp(h.r)) + 12 || h.r.r.$pos < old(lp(h.r)) + 12 + inword(h.r, old(lp(h.r)) + 4)
	ensures [C04] "type, id and body length as spelled" err == nil ==> req.Msg == inword(h.r, old(lp(h.r))) && len(req.Body) == inword(h.r, old(lp(h.r)) + 4) && req.Id == inword(h.r, old(lp(h.r)) + 8)
	ensures [C04] "what is appended to the body lands elsewhere" err == nil ==> cap(req.Body) == len(req.Body)
	ensures [C04] "the body bytes" err == nil ==> (forall k in 0 .. len(req.Body): req.Body[k] == h.r.r.$in[old(lp(h.r)) + 12 + k])
	ensures [C04] "consumes exactly the frame" err == nil ==> lp(h.r) == old(lp(h.r)) + 12 + len(req.Body)
	ensures [C05] "later reads write only into this shrinking window or into new memory" err == nil ==> window(h.r)
	ensures [C05] "and the body handed out is not in it" err == nil ==> apart(h.r, req.Body) && within(h.r, req.Body)

pred rrcl(h, msg) = if msg == 0xff00 then 0 else rcw(h.rc)

func (h *HeaderReader) ReadResponse() (res, err)
	props C04 C05
	requires srok(h.r)
	requires h.rc == RC4byte || h.rc == RC1byte || h.rc == RC0byte
	modifies h.r.buf, h.r.d, h.r.dChecked, spare(h.r.buf), h.r.r.$pos, h.r.r.$fid, h.r.r.$fmsg, h.r.r.$fcode, h.r.r.$fbarr, h.r.r.$fboff, h.r.r.$fblen
	update h.r.r.$fid := res.Id
	update h.r.r.$fmsg := res.Msg
	update h.r.r.$fcode := res.Code
	update h.r.r.$fbarr := arr(res.Body)
	update h.r.r.$fboff := off(res.Body)
	update h.r.r.$fblen := len(res.Body)
	ensures h.r.r.$fid == res.Id && h.r.r.$fmsg == res.Msg && h.r.r.$fcode == res.Code && h.r.r.$fbarr == arr(res.Body) && h.r.r.$fboff == off(res.Body) && h.r.r.$fblen == len(res.Body)
	ensures h.r.r == old(h.r.r) && h.r.size == old(h.r.size) && h.rc == old(h.rc)
	ensures err == nil ==> srok(h.r)
	ensures [C04] "fails only if the connection did not deliver the whole frame" err != nil ==> h.r.r.$pos < old(lp(h.r)) + 12 || h.r.r.$pos < old(lp(h.r)) + 12 + inword(h.r, old(lp(h.r)) + 4)
	ensures [C04] "type and id as spelled" err == nil ==> res.Msg == inword(h.r, old(lp(h.r))) && res.Id == inword(h.r, old(lp(h.r)) + 8)
	ensures [C04] "consumes exactly the frame" err == nil ==> lp(h.r) == old(lp(h.r)) + 12 + inword(h.r, old(lp(h.r)) + 4)
	ensures [C04] "too short for its return code: protocol error" err == nil && inword(h.r, old(lp(h.r)) + 4) < rrcl(h, res.Msg) ==> res.Code == 0x0302 && len(res.Body) == inword(h.r, old(lp(h.r)) + 4)
	ensures [C04] "return code as spelled" err == nil && inword(h.r, old(lp(h.r)) + 4) >= rrcl(h, res.Msg) ==> res.Code == (if rrcl(h, res.Msg) == 4 then inword(h.r, old(lp(h.r)) + 12) else if rrcl(h, res.Msg) == 1 then h.r.r.$in[old(lp(h.r)) + 12] else 0)
	ensures [C04] "what is appended to the body lands elsewhere" err == nil ==> cap(res.Body) == len(res.Body)
	ensures [C04] "the body bytes" err == nil && inword(h.r, old(lp(h.r)) + 4) >= rrcl(h, res.Msg) ==> len(res.Body) == inword(h.r, old(lp(h.r)) + 4) - rrcl(h, res.Msg) && (forall k in 0 .. len(res.Body): res.Body[k] == h.r.r.$in[old(lp(h.r)) + 12 + rrcl(h, res.Msg) + k])
	ensures [C05] "later reads write only into this shrinking window or into new memory" err == nil ==> window(h.r)
	ensures [C05] "and the body handed out is not in it" err == nil ==> apart(h.r, res.Body) && within(h.r, res.Body)

func (h *HeaderReader) ReadPing() (err)
	props C04
	requires srok(h.r)
	modifies h.r.buf, h.r.d, h.r.dChecked, spare(h.r.buf), h.r.r.$pos
	ensures h.r.r == old(h.r.r) && h.r.size == old(h.r.size)
	ensures [C04] "only a ping frame is accepted" err == nil ==> srok(h.r) && lp(h.r) == old(lp(h.r)) + 12 && inword(h.r, old(lp(h.r))) == 0xff00 && inword(h.r, old(lp(h.r)) + 8) == 0xffffffff
	ensures [C04] "a delivered ping frame is accepted" err != nil ==> h.r.r.$pos < old(lp(h.r)) + 12 || inword(h.r, old(lp(h.r))) != 0xff00 || inword(h.r, old(lp(h.r)) + 8) != 0xffffffff
