package github.com/funny-falcon/go-iproto/marshal

// ---------------- values with a size before them ----------------
// values written with a size
ghost Writer.$vals nat thread
// the size read last, and how much input was left when it had been read
ghost Reader.$size nat thread
ghost Reader.$left nat thread

pred wgood(w) = 0 <= w.DefSize && w.DefSize <= 0x40000000000 && len(w.buf) <= 0x20000000000
pred wkept(w) = len(w.buf) >= old(len(w.buf)) && (forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k]))
pred srcapart(w, b) = arr(b) == nil || arr(b) != arr(w.buf)
macro WMOD: w.buf, w.DefSize, spare(w.buf), w.$pre, w.$at

// a function that writes sizes or counts
iface (f functype.func_marshal_Writer_int) call(w, n)
	requires w != nil && wgood(w)
	modifies @WMOD
	ensures wkept(w) && moved(w) && len(w.buf) <= old(len(w.buf)) + 10
	ensures 0 <= w.DefSize && w.DefSize <= 0x40000000000
	ensures w.$pre == n && w.$at == len(w.buf)

// encoders are built from the type with reflection
iface (t TWriter) Write(w, v)
	requires w != nil && wgood(w)
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures wkept(w) && moved(w) && wgood(w)
	ensures len(w.buf) == old(len(w.buf)) + uf_encsize(owner, v) && uf_encsize(owner, v) >= 0

// the size of a value, where it is known before it is written
iface (t TWriter) SzGet(v) (n)
	ensures n >= 0 ==> n == uf_encsize(owner, v)

// what the size of pointers and interfaces is: nothing for nil, else the size of what they point at
func (t *TWriter) Size(v) (n)
	props C11
	flag reflpure
	assumes "a static size is the size of every value" t.Sz >= 0 && (refl_Kind(v) != 20 && (refl_Kind(v) != 22 || t.Implements)) ==> t.Sz == uf_encsize(t, v)
	assumes "pointers are written by their elements' encoder" refl_Kind(v) == 22 && !t.Implements && !refl_IsNil(v) ==> t.Elem != nil && uf_encsize(t, v) == uf_encsize(t.Elem, refl_Elem(v)) && (t.Elem.Sz >= 0 ==> t.Elem.Sz == uf_encsize(t.Elem, refl_Elem(v)))
	assumes "nil pointers are written as nothing" refl_Kind(v) == 22 && !t.Implements && refl_IsNil(v) ==> uf_encsize(t, v) == 0
	assumes "nil interfaces are written as nothing" refl_Kind(v) == 20 && refl_IsNil(v) ==> uf_encsize(t, v) == 0
	assumes "interfaces are written by the encoder of what is in them" refl_Kind(v) == 20 && !refl_IsNil(v) ==> uf_encsize(t, v) == uf_encsize(ur_writerfor(refl_Type(refl_Elem(v))), refl_Elem(v))
	ensures n >= 0 ==> n == uf_encsize(t, v)

func (t *TWriter) Count(v) (n)
	trusted maypanic
	ensures true

func WriterFor(rt) (wr)
	trusted
	ensures wr != nil && wr == ur_writerfor(rt)

// writers kept for later: the one who takes it is the only one who has it, it is as good as new
iface twriters$recv() (msg, ok)
	ensures fresh(msg) && (arr(msg.buf) == nil || fresh(msg.buf))
	ensures msg != nil && len(msg.buf) == 0 && 0 <= msg.DefSize && msg.DefSize <= 0x40000000000
iface twriters$send(msg)
	requires msg != nil && len(msg.buf) == 0 && 0 <= msg.DefSize && msg.DefSize <= 0x40000000000

func (t *TWriter) WithSize(w, v, szwr)
	props C11
	requires w != nil && wgood(w)
	assumes "encoders are complete" t.Write != nil
	assumes "the encoding of a value is shorter than 2^40 bytes" uf_encsize(t, v) <= 0x10000000000
	retains * "less than 2^41 bytes are written" len(w.buf) <= 0x20000000000
	modifies @WMOD, w.$vals
	update w.$vals := old(w.$vals) + 1
	ensures wkept(w) && wgood(w) && moved(w)
	ensures "one more value" w.$vals == old(w.$vals) + 1
	ensures [C11] "the size is the number of bytes that follow" len(w.buf) == w.$at + w.$pre

func (w *Writer) WriteWithSize(i, ws)
	props C11
	requires w != nil && wgood(w) && ws != nil
	assumes "strings are shorter than 2^40 bytes" typeis(i, "string") ==> len(cast(i, "string")) <= 0x10000000000
	assumes "byte slices are shorter than 2^40 bytes and not part of the output" typeis(i, "[]byte") ==> len(cast(i, "[]byte")) <= 0x10000000000 && srcapart(w, cast(i, "[]byte"))
	retains * "less than 2^41 bytes are written" len(w.buf) <= 0x20000000000
	modifies @WMOD, w.$vals
	update w.$vals := old(w.$vals) + 1
	ensures wkept(w) && wgood(w) && moved(w)
	ensures "one more value" w.$vals == old(w.$vals) + 1
	ensures [C11] "the size is the number of bytes that follow" len(w.buf) == w.$at + w.$pre

func (w *Writer) WriteValueWithSize(val, ws)
	props C11
	requires w != nil && wgood(w)
	modifies @WMOD, w.$vals
	ensures wkept(w) && wgood(w) && moved(w)
	ensures "one more value" w.$vals == old(w.$vals) + 1
	ensures [C11] "the size is the number of bytes that follow" len(w.buf) == w.$at + w.$pre

// as many elements follow as Count says (decided by the encoders built with reflection)
func (t *TWriter) WithCount(w, v, cntwr)
	props C11
	requires w != nil && wgood(w)
	assumes "encoders are complete" t.Write != nil
	retains * "less than 2^41 bytes are written" len(w.buf) <= 0x20000000000
	modifies @WMOD
	maypanic
	ensures wkept(w) && wgood(w) && moved(w)
	ensures [C11] "the encoding follows its count" len(w.buf) == w.$at + uf_encsize(t, v)

// ---- reading ----
iface (f functype.func_marshal_Reader_int) call(r) (n)
	requires r != nil
	modifies r.Body, r.Err, r.$size, r.$left
	ensures stuck(r)
	ensures 0 <= old(len(r.Body)) - len(r.Body) && took(r, old(len(r.Body)) - len(r.Body))
	ensures r.$size == n && r.$left == len(r.Body)

// decoders are built from the type with reflection
pred consumed(r) = 0 <= old(len(r.Body)) - len(r.Body) && took(r, old(len(r.Body)) - len(r.Body))
iface (t TReader) Fixed(r, v)
	requires r != nil
	modifies r.Body, r.Err
	ensures consumed(r) && (old(r.Err) != nil ==> r.Err != nil)
	ensures r.Err == nil && owner.$sized >= 0 ==> took(r, owner.$sized)
iface (t TReader) Tail(r, v)
	requires r != nil
	modifies r.Body, r.Err
	ensures consumed(r) && (old(r.Err) != nil ==> r.Err != nil)
iface (t TReader) AutoSize(r, v, sz)
	requires r != nil
	modifies r.Body, r.Err
	ensures consumed(r) && (old(r.Err) != nil ==> r.Err != nil)
	ensures r.Err == nil ==> took(r, sz)
iface (t TReader) AutoCount(r, v, cnt)
	requires r != nil
	modifies r.Body, r.Err
	ensures consumed(r) && (old(r.Err) != nil ==> r.Err != nil)

// the size the value was prepared for
ghost TReader.$sized nat thread
func (t *TReader) SetSize(v, sz) (ok, err)
	trusted maypanic
	modifies t.$sized
	ensures ok ==> t.$sized == sz
	ensures !ok ==> t.$sized == old(t.$sized)

func ReaderFor(rt) (rd)
	trusted
	ensures rd != nil

func (t *TReader) WithSize(r, v, szrd)
	props C11 C15
	requires r != nil
	assumes "decoders are complete" t.Fixed != nil && t.Tail != nil
	modifies r.Body, r.Err, r.$size, r.$left, t.$sized
	maypanic
	ensures "sticky error" old(r.Err) != nil ==> same(r) && r.Err == old(r.Err)
	ensures "reads from its input only" consumed(r)
	ensures [C11] "exactly as many bytes are consumed as the size says, or an error is reported" r.Err == nil ==> len(r.Body) == r.$left - r.$size && r.$size >= 0

func (r *Reader) ReadWithSize(i, rs) (err)
	props C11
	requires r != nil && rs != nil
	assumes "byte slices are shorter than 2^40 bytes" typeis(i, "[]byte") ==> len(cast(i, "[]byte")) <= 0x10000000000
	assumes "destinations are not nil" i == nil || dataof(i) != nil
	assumes "what is read into is not the reader" !typeis(i, "*[]byte") || cast(i, "*[]byte") != addr(r.Body)
	modifies *, r.$size, r.$left
	maypanic
	ensures "the error is returned" err == r.Err
	ensures "sticky error" old(r.Err) != nil ==> same(r) && r.Err == old(r.Err)
	ensures "reads from its input only" consumed(r)
	ensures [C11] "exactly as many bytes are consumed as the size says, or an error is reported" r.Err == nil ==> len(r.Body) == r.$left - r.$size && r.$size >= 0

func (r *Reader) ReadValueWithSize(val, rs) (err)
	props C11
	requires r != nil
	modifies r.Body, r.Err, r.$size, r.$left, allof("TReader.$sized")
	maypanic
	ensures "the error is returned" err == r.Err
	ensures "sticky error" old(r.Err) != nil ==> same(r) && r.Err == old(r.Err)
	ensures "reads from its input only" consumed(r)
	ensures [C11] "exactly as many bytes are consumed as the size says, or an error is reported" r.Err == nil ==> len(r.Body) == r.$left - r.$size && r.$size >= 0

// the general encoder: numbers, strings, lists, and whatever the reflection-built encoders make of other types
func (w *Writer) Write(i)
	trusted
	requires w != nil && wgood(w)
	modifies @WMOD, w.$vals
	ensures wkept(w) && wgood(w) && moved(w)
	ensures old(len(w.buf)) == 0 ==> up_marshalled(i, arr(w.buf), off(w.buf), len(w.buf))
	ensures typeis(i, "uint32") ==> len(w.buf) == old(len(w.buf)) + 4 && le(w.buf, old(len(w.buf)), 4) == cast(i, "uint32")
	ensures typeis(i, "uint8") ==> len(w.buf) == old(len(w.buf)) + 1 && w.buf[old(len(w.buf))] == cast(i, "uint8")
	ensures typeis(i, "sbox.OpKind") ==> len(w.buf) == old(len(w.buf)) + 1 && w.buf[old(len(w.buf))] == cast(i, "sbox.OpKind")
