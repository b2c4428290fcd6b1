package github.com/funny-falcon/go-iproto/marshal

// ---------------- Writer ----------------
// the size or count written last as a prefix, and how much had been written with it
ghost Writer.$pre nat thread
ghost Writer.$at nat thread

// the buffer grew by n bytes and what was written before is unchanged
pred grown(w, n) = len(w.buf) == old(len(w.buf)) + n && arr(w.buf) != nil && (forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k]))
// the new buffer is the old one extended in place, or a brand new one
pred moved(w) = fresh(w.buf) || (arr(w.buf) == old(arr(w.buf)) && off(w.buf) == old(off(w.buf)) && cap(w.buf) == old(cap(w.buf)))
// room for n more bytes can exist at all
pred room(w, n) = len(w.buf) + n <= 0x40000000000

func (w *Writer) ensure(n) (l)
	props C06 C10
	requires n >= 0
	requires room(w, n)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize
	ensures "returns the previous length" l == old(len(w.buf))
	ensures "length grows by n" len(w.buf) == l + n
	ensures "prefix kept" forall k in 0 .. l: w.buf[k] == old(w.buf[k])
	ensures "window extended in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000

func (w *Writer) Need(n) (b)
	props C06 C10
	requires n >= 0
	requires room(w, n)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize
	ensures "the n new bytes" len(b) == n && arr(b) == arr(w.buf) && off(b) == off(w.buf) + old(len(w.buf))
	ensures "length grows by n" len(w.buf) == old(len(w.buf)) + n
	ensures "prefix kept" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000

func (w *Writer) Written() (res)
	props C10
	modifies w.buf
	ensures "exactly the bytes written" len(res) == old(len(w.buf)) && arr(res) == old(arr(w.buf)) && off(res) == old(off(w.buf))
	ensures "no spare capacity is handed out" cap(res) == len(res)
	ensures "the writer keeps only what lies after" arr(w.buf) == old(arr(w.buf)) && len(w.buf) == 0 && off(w.buf) == old(off(w.buf)) + old(len(w.buf)) && cap(w.buf) == old(cap(w.buf)) - old(len(w.buf))

func (w *Writer) Reset()
	props C10
	modifies w.buf
	ensures len(w.buf) == 0 && arr(w.buf) == old(arr(w.buf)) && off(w.buf) == old(off(w.buf)) && cap(w.buf) == old(cap(w.buf))

func (w *Writer) Uint8(i)
	props C06 C10
	requires room(w, 1)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 1
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "little-endian bytes of the value" le(w.buf, old(len(w.buf)), 1) == mod2(i, 8)

func (w *Writer) Int8(i)
	props C06 C10
	requires room(w, 1)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 1
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "little-endian bytes of the value" le(w.buf, old(len(w.buf)), 1) == mod2(i, 8)

func (w *Writer) Uint16(i)
	props C06 C10
	requires room(w, 2)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 2
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "little-endian bytes of the value" le(w.buf, old(len(w.buf)), 2) == mod2(i, 16)

func (w *Writer) Int16(i)
	props C06 C10
	requires room(w, 2)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 2
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "little-endian bytes of the value" le(w.buf, old(len(w.buf)), 2) == mod2(i, 16)

func (w *Writer) Uint32(i)
	props C06 C10
	requires room(w, 4)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 4
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "little-endian bytes of the value" le(w.buf, old(len(w.buf)), 4) == mod2(i, 32)

func (w *Writer) Int32(i)
	props C06 C10
	requires room(w, 4)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 4
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "little-endian bytes of the value" le(w.buf, old(len(w.buf)), 4) == mod2(i, 32)

func (w *Writer) Uint64(i)
	props C06 C10
	requires room(w, 8)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 8
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "little-endian bytes of the value" le(w.buf, old(len(w.buf)), 8) == mod2(i, 64)

func (w *Writer) Int64(i)
	props C06 C10
	requires room(w, 8)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 8
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "little-endian bytes of the value" le(w.buf, old(len(w.buf)), 8) == mod2(i, 64)

func (w *Writer) Float32(i)
	props C06 C10
	requires room(w, 4)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 4
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "little-endian bytes of the value" le(w.buf, old(len(w.buf)), 4) == mod2(i, 32)

func (w *Writer) Float64(i)
	props C06 C10
	requires room(w, 8)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 8
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "little-endian bytes of the value" le(w.buf, old(len(w.buf)), 8) == mod2(i, 64)

func (w *Writer) IntUint8(i)
	props C06 C10
	requires room(w, 1)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf), w.$pre, w.$at
	update w.$pre := i
	update w.$at := len(w.buf)
	ensures w.$pre == i && w.$at == len(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 1
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "little-endian bytes of the value" le(w.buf, old(len(w.buf)), 1) == mod2(i, 8)

func (w *Writer) IntUint16(i)
	props C06 C10
	requires room(w, 2)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf), w.$pre, w.$at
	update w.$pre := i
	update w.$at := len(w.buf)
	ensures w.$pre == i && w.$at == len(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 2
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "little-endian bytes of the value" le(w.buf, old(len(w.buf)), 2) == mod2(i, 16)

func (w *Writer) IntUint32(i)
	props C06 C10
	requires room(w, 4)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf), w.$pre, w.$at
	update w.$pre := i
	update w.$at := len(w.buf)
	ensures w.$pre == i && w.$at == len(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 4
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "little-endian bytes of the value" le(w.buf, old(len(w.buf)), 4) == mod2(i, 32)

func (w *Writer) IntUint64(i)
	props C06 C10
	requires room(w, 8)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf), w.$pre, w.$at
	update w.$pre := i
	update w.$at := len(w.buf)
	ensures w.$pre == i && w.$at == len(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 8
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "little-endian bytes of the value" le(w.buf, old(len(w.buf)), 8) == mod2(i, 64)

func (w *Writer) Uint8sl(i)
	props C08 C10
	requires "the source does not overlap the spare room of the output" arr(i) == nil || arr(i) != arr(w.buf) || off(i) + len(i) <= off(w.buf) + len(w.buf) || off(i) >= off(w.buf) + cap(w.buf)
	requires room(w, len(i))
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + len(i)
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "the bytes themselves" forall k in 0 .. len(i): w.buf[old(len(w.buf)) + k] == mod2(old(i[k]), 8)

func (w *Writer) Bytes(i)
	props C08 C10
	requires "the source does not overlap the spare room of the output" arr(i) == nil || arr(i) != arr(w.buf) || off(i) + len(i) <= off(w.buf) + len(w.buf) || off(i) >= off(w.buf) + cap(w.buf)
	requires room(w, len(i))
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + len(i)
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "the bytes themselves" forall k in 0 .. len(i): w.buf[old(len(w.buf)) + k] == mod2(old(i[k]), 8)

func (w *Writer) String(i)
	props C08 C10
	requires room(w, len(i))
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + len(i)
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "the bytes themselves" forall k in 0 .. len(i): w.buf[old(len(w.buf)) + k] == mod2(old(i[k]), 8)

func (w *Writer) Int8sl(i)
	props C08 C10
	requires "the source does not overlap the spare room of the output" arr(i) == nil || arr(i) != arr(w.buf) || off(i) + len(i) <= off(w.buf) + len(w.buf) || off(i) >= off(w.buf) + cap(w.buf)
	requires room(w, len(i))
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + len(i)
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "the bytes themselves" forall k in 0 .. len(i): w.buf[old(len(w.buf)) + k] == mod2(old(i[k]), 8)
	invariant forall k in 0 .. $n: w.buf[old(len(w.buf)) + k] == mod2(old(i[k]), 8)
	invariant forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])

func (w *Writer) Uint16sl(i)
	props C08 C10
	requires "the source does not overlap the spare room of the output" arr(i) == nil || arr(i) != arr(w.buf) || off(i) + len(i) <= off(w.buf) + len(w.buf) || off(i) >= off(w.buf) + cap(w.buf)
	requires room(w, 2 * len(i))
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 2 * len(i)
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	invariant forall k in 0 .. $n: le(w.buf, old(len(w.buf)) + 2 * k, 2) == mod2(old(i[k]), 16)
	ensures "element by element" forall k in 0 .. len(i): le(w.buf, old(len(w.buf)) + 2 * k, 2) == mod2(old(i[k]), 16)
	invariant forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])

func (w *Writer) Int16sl(i)
	props C08 C10
	requires "the source does not overlap the spare room of the output" arr(i) == nil || arr(i) != arr(w.buf) || off(i) + len(i) <= off(w.buf) + len(w.buf) || off(i) >= off(w.buf) + cap(w.buf)
	requires room(w, 2 * len(i))
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 2 * len(i)
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	invariant forall k in 0 .. $n: le(w.buf, old(len(w.buf)) + 2 * k, 2) == mod2(old(i[k]), 16)
	ensures "element by element" forall k in 0 .. len(i): le(w.buf, old(len(w.buf)) + 2 * k, 2) == mod2(old(i[k]), 16)
	invariant forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])

func (w *Writer) Uint32sl(i)
	props C08 C10
	requires "the source does not overlap the spare room of the output" arr(i) == nil || arr(i) != arr(w.buf) || off(i) + len(i) <= off(w.buf) + len(w.buf) || off(i) >= off(w.buf) + cap(w.buf)
	requires room(w, 4 * len(i))
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 4 * len(i)
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	invariant forall k in 0 .. $n: le(w.buf, old(len(w.buf)) + 4 * k, 4) == mod2(old(i[k]), 32)
	ensures "element by element" forall k in 0 .. len(i): le(w.buf, old(len(w.buf)) + 4 * k, 4) == mod2(old(i[k]), 32)
	invariant forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])

func (w *Writer) Int32sl(i)
	props C08 C10
	requires "the source does not overlap the spare room of the output" arr(i) == nil || arr(i) != arr(w.buf) || off(i) + len(i) <= off(w.buf) + len(w.buf) || off(i) >= off(w.buf) + cap(w.buf)
	requires room(w, 4 * len(i))
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 4 * len(i)
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	invariant forall k in 0 .. $n: le(w.buf, old(len(w.buf)) + 4 * k, 4) == mod2(old(i[k]), 32)
	ensures "element by element" forall k in 0 .. len(i): le(w.buf, old(len(w.buf)) + 4 * k, 4) == mod2(old(i[k]), 32)
	invariant forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])

func (w *Writer) Uint64sl(i)
	props C08 C10
	requires "the source does not overlap the spare room of the output" arr(i) == nil || arr(i) != arr(w.buf) || off(i) + len(i) <= off(w.buf) + len(w.buf) || off(i) >= off(w.buf) + cap(w.buf)
	requires room(w, 8 * len(i))
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 8 * len(i)
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	invariant forall k in 0 .. $n: le(w.buf, old(len(w.buf)) + 8 * k, 8) == mod2(old(i[k]), 64)
	ensures "element by element" forall k in 0 .. len(i): le(w.buf, old(len(w.buf)) + 8 * k, 8) == mod2(old(i[k]), 64)
	invariant forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])

func (w *Writer) Int64sl(i)
	props C08 C10
	requires "the source does not overlap the spare room of the output" arr(i) == nil || arr(i) != arr(w.buf) || off(i) + len(i) <= off(w.buf) + len(w.buf) || off(i) >= off(w.buf) + cap(w.buf)
	requires room(w, 8 * len(i))
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 8 * len(i)
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	invariant forall k in 0 .. $n: le(w.buf, old(len(w.buf)) + 8 * k, 8) == mod2(old(i[k]), 64)
	ensures "element by element" forall k in 0 .. len(i): le(w.buf, old(len(w.buf)) + 8 * k, 8) == mod2(old(i[k]), 64)
	invariant forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])

func (w *Writer) Float32sl(i)
	props C08 C10
	requires "the source does not overlap the spare room of the output" arr(i) == nil || arr(i) != arr(w.buf) || off(i) + len(i) <= off(w.buf) + len(w.buf) || off(i) >= off(w.buf) + cap(w.buf)
	requires room(w, 4 * len(i))
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 4 * len(i)
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	invariant forall k in 0 .. $n: le(w.buf, old(len(w.buf)) + 4 * k, 4) == mod2(old(i[k]), 32)
	ensures "element by element" forall k in 0 .. len(i): le(w.buf, old(len(w.buf)) + 4 * k, 4) == mod2(old(i[k]), 32)
	invariant forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])

func (w *Writer) Float64sl(i)
	props C08 C10
	requires "the source does not overlap the spare room of the output" arr(i) == nil || arr(i) != arr(w.buf) || off(i) + len(i) <= off(w.buf) + len(w.buf) || off(i) >= off(w.buf) + cap(w.buf)
	requires room(w, 8 * len(i))
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + 8 * len(i)
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures [C06 C08 C10] "in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	invariant forall k in 0 .. $n: le(w.buf, old(len(w.buf)) + 8 * k, 8) == mod2(old(i[k]), 64)
	ensures "element by element" forall k in 0 .. len(i): le(w.buf, old(len(w.buf)) + 8 * k, 8) == mod2(old(i[k]), 64)
	invariant forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])


// ---------------- BER varints ----------------
pred vlen(i) = if i < 0x80 then 1 else if i < 0x4000 then 2 else if i < 0x200000 then 3 else if i < 0x10000000 then 4 else if i < 0x800000000 then 5 else if i < 0x40000000000 then 6 else if i < 0x2000000000000 then 7 else if i < 0x100000000000000 then 8 else if i < 0x8000000000000000 then 9 else 10
// byte number k (from the last one) of the encoding
pred vdig(i, k) = if k == 0 then i % 128 else if k == 1 then i / 0x80 % 128 else if k == 2 then i / 0x4000 % 128 else if k == 3 then i / 0x200000 % 128 else if k == 4 then i / 0x10000000 % 128 else if k == 5 then i / 0x800000000 % 128 else if k == 6 then i / 0x40000000000 % 128 else if k == 7 then i / 0x2000000000000 % 128 else if k == 8 then i / 0x100000000000000 % 128 else i / 0x8000000000000000 % 128

func varu64size(i) (n)
	props C07 C11
	unroll 11
	ensures "the length of the encoding" n == vlen(i)

func Varsize(i) (n)
	props C07 C11
	ensures "the length of the encoding of the low 64 bits" n == vlen(mod2(i, 64))

func (w *Writer) Uint64var(i)
	props C07 C10
	requires room(w, 10)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "shortest length" len(w.buf) == old(len(w.buf)) + vlen(i)
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "digits and continuation bits" forall k in 0 .. 10: k < vlen(i) ==> w.buf[len(w.buf) - 1 - k] == vdig(i, k) + (if k == 0 then 0 else 128)

func (w *Writer) Intvar(i)
	props C07 C10
	requires room(w, 10)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf), w.$pre, w.$at
	update w.$pre := i
	update w.$at := len(w.buf)
	ensures w.$pre == i && w.$at == len(w.buf)
	ensures "shortest length" len(w.buf) == old(len(w.buf)) + vlen(mod2(i, 64))
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "digits and continuation bits" forall k in 0 .. 10: k < vlen(mod2(i, 64)) ==> w.buf[len(w.buf) - 1 - k] == vdig(mod2(i, 64), k) + (if k == 0 then 0 else 128)


// ---------------- Reader ----------------
// n bytes were taken from the front of the input
pred took(r, n) = len(r.Body) == old(len(r.Body)) - n && arr(r.Body) == old(arr(r.Body)) && off(r.Body) == old(off(r.Body)) + n && cap(r.Body) == old(cap(r.Body)) - n
pred same(r) = len(r.Body) == old(len(r.Body)) && arr(r.Body) == old(arr(r.Body)) && off(r.Body) == old(off(r.Body)) && cap(r.Body) == old(cap(r.Body))
pred stuck(r) = old(r.Err) != nil ==> same(r) && r.Err == old(r.Err)
pred failed(r, c) = old(r.Err) == nil && c ==> same(r) && r.Err != nil
pred good(r, n) = old(r.Err) == nil && old(len(r.Body)) >= n

func (r *Reader) Uint8() (res)
	props C06 C09
	modifies r.Body, r.Err
	ensures [C09] "sticky error, zero result" stuck(r) && (old(r.Err) != nil ==> res == 0)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 1) && (old(len(r.Body)) < 1 ==> res == 0)
	ensures "decodes the little-endian value and takes exactly its bytes" good(r, 1) ==> took(r, 1) && r.Err == nil && res == old(le(r.Body, 0, 1))

func (r *Reader) Int8() (res)
	props C06 C09
	modifies r.Body, r.Err
	ensures [C09] "sticky error, zero result" stuck(r) && (old(r.Err) != nil ==> res == 0)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 1) && (old(len(r.Body)) < 1 ==> res == 0)
	ensures "decodes the little-endian value and takes exactly its bytes" good(r, 1) ==> took(r, 1) && r.Err == nil && res == sext(old(le(r.Body, 0, 1)), 8)

func (r *Reader) Uint16() (res)
	props C06 C09
	modifies r.Body, r.Err
	ensures [C09] "sticky error, zero result" stuck(r) && (old(r.Err) != nil ==> res == 0)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 2) && (old(len(r.Body)) < 2 ==> res == 0)
	ensures "decodes the little-endian value and takes exactly its bytes" good(r, 2) ==> took(r, 2) && r.Err == nil && res == old(le(r.Body, 0, 2))

func (r *Reader) Int16() (res)
	props C06 C09
	modifies r.Body, r.Err
	ensures [C09] "sticky error, zero result" stuck(r) && (old(r.Err) != nil ==> res == 0)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 2) && (old(len(r.Body)) < 2 ==> res == 0)
	ensures "decodes the little-endian value and takes exactly its bytes" good(r, 2) ==> took(r, 2) && r.Err == nil && res == sext(old(le(r.Body, 0, 2)), 16)

func (r *Reader) Uint32() (res)
	props C06 C09
	modifies r.Body, r.Err
	ensures [C09] "sticky error, zero result" stuck(r) && (old(r.Err) != nil ==> res == 0)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 4) && (old(len(r.Body)) < 4 ==> res == 0)
	ensures "decodes the little-endian value and takes exactly its bytes" good(r, 4) ==> took(r, 4) && r.Err == nil && res == old(le(r.Body, 0, 4))

func (r *Reader) Int32() (res)
	props C06 C09
	modifies r.Body, r.Err
	ensures [C09] "sticky error, zero result" stuck(r) && (old(r.Err) != nil ==> res == 0)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 4) && (old(len(r.Body)) < 4 ==> res == 0)
	ensures "decodes the little-endian value and takes exactly its bytes" good(r, 4) ==> took(r, 4) && r.Err == nil && res == sext(old(le(r.Body, 0, 4)), 32)

func (r *Reader) Uint64() (res)
	props C06 C09
	modifies r.Body, r.Err
	ensures [C09] "sticky error, zero result" stuck(r) && (old(r.Err) != nil ==> res == 0)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 8) && (old(len(r.Body)) < 8 ==> res == 0)
	ensures "decodes the little-endian value and takes exactly its bytes" good(r, 8) ==> took(r, 8) && r.Err == nil && res == old(le(r.Body, 0, 8))

func (r *Reader) Int64() (res)
	props C06 C09
	modifies r.Body, r.Err
	ensures [C09] "sticky error, zero result" stuck(r) && (old(r.Err) != nil ==> res == 0)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 8) && (old(len(r.Body)) < 8 ==> res == 0)
	ensures "decodes the little-endian value and takes exactly its bytes" good(r, 8) ==> took(r, 8) && r.Err == nil && res == sext(old(le(r.Body, 0, 8)), 64)

func (r *Reader) Float32() (res)
	props C06 C09
	modifies r.Body, r.Err
	ensures [C09] "sticky error, zero result" stuck(r) && (old(r.Err) != nil ==> res == 0)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 4) && (old(len(r.Body)) < 4 ==> res == 0)
	ensures "decodes the little-endian value and takes exactly its bytes" good(r, 4) ==> took(r, 4) && r.Err == nil && res == old(le(r.Body, 0, 4))

func (r *Reader) Float64() (res)
	props C06 C09
	modifies r.Body, r.Err
	ensures [C09] "sticky error, zero result" stuck(r) && (old(r.Err) != nil ==> res == 0)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 8) && (old(len(r.Body)) < 8 ==> res == 0)
	ensures "decodes the little-endian value and takes exactly its bytes" good(r, 8) ==> took(r, 8) && r.Err == nil && res == old(le(r.Body, 0, 8))

func (r *Reader) IntUint8() (res)
	props C06 C09
	modifies r.Body, r.Err, r.$size, r.$left
	update r.$size := res
	update r.$left := len(r.Body)
	ensures r.$size == res && r.$left == len(r.Body)
	ensures [C09] "sticky error, zero result" stuck(r) && (old(r.Err) != nil ==> res == 0)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 1) && (old(len(r.Body)) < 1 ==> res == 0)
	ensures "decodes the little-endian value and takes exactly its bytes" good(r, 1) ==> took(r, 1) && r.Err == nil && res == old(le(r.Body, 0, 1))

func (r *Reader) IntUint16() (res)
	props C06 C09
	modifies r.Body, r.Err, r.$size, r.$left
	update r.$size := res
	update r.$left := len(r.Body)
	ensures r.$size == res && r.$left == len(r.Body)
	ensures [C09] "sticky error, zero result" stuck(r) && (old(r.Err) != nil ==> res == 0)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 2) && (old(len(r.Body)) < 2 ==> res == 0)
	ensures "decodes the little-endian value and takes exactly its bytes" good(r, 2) ==> took(r, 2) && r.Err == nil && res == old(le(r.Body, 0, 2))

func (r *Reader) IntUint32() (res)
	props C06 C09
	modifies r.Body, r.Err, r.$size, r.$left
	update r.$size := res
	update r.$left := len(r.Body)
	ensures r.$size == res && r.$left == len(r.Body)
	ensures [C09] "sticky error, zero result" stuck(r) && (old(r.Err) != nil ==> res == 0)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 4) && (old(len(r.Body)) < 4 ==> res == 0)
	ensures "decodes the little-endian value and takes exactly its bytes" good(r, 4) ==> took(r, 4) && r.Err == nil && res == old(le(r.Body, 0, 4))

func (r *Reader) IntUint64() (res)
	props C06 C09
	modifies r.Body, r.Err, r.$size, r.$left
	update r.$size := res
	update r.$left := len(r.Body)
	ensures r.$size == res && r.$left == len(r.Body)
	ensures [C09] "sticky error, zero result" stuck(r) && (old(r.Err) != nil ==> res == 0)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 8) && (old(len(r.Body)) < 8 ==> res == 0)
	ensures "decodes the little-endian value and takes exactly its bytes" good(r, 8) ==> took(r, 8) && r.Err == nil && res == sext(old(le(r.Body, 0, 8)), 64)

func (r *Reader) Uint8sl(b)
	props C08 C09
	requires len(b) <= 0x40000000000
	modifies r.Body, r.Err, elems(b)
	ensures [C09] "sticky error" stuck(r)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < len(b))
	ensures [C09] "a failed read leaves the destination alone" old(r.Err) != nil || old(len(r.Body)) < len(b) ==> (forall k in 0 .. len(b): b[k] == old(b[k]))
	ensures "takes exactly the encodings" good(r, len(b)) ==> took(r, len(b)) && r.Err == nil
	ensures "stores the elements in order" good(r, len(b)) ==> (forall k in 0 .. len(b): b[k] == old(le(r.Body, k, 1)))

func (r *Reader) Bytes(b)
	props C08 C09
	requires len(b) <= 0x40000000000
	modifies r.Body, r.Err, elems(b)
	ensures [C09] "sticky error" stuck(r)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < len(b))
	ensures [C09] "a failed read leaves the destination alone" old(r.Err) != nil || old(len(r.Body)) < len(b) ==> (forall k in 0 .. len(b): b[k] == old(b[k]))
	ensures "takes exactly the encodings" good(r, len(b)) ==> took(r, len(b)) && r.Err == nil
	ensures "stores the elements in order" good(r, len(b)) ==> (forall k in 0 .. len(b): b[k] == old(le(r.Body, k, 1)))

func (r *Reader) Int8sl(b)
	props C08 C09
	requires len(b) <= 0x40000000000
	modifies r.Body, r.Err, elems(b)
	ensures [C09] "sticky error" stuck(r)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < len(b))
	ensures [C09] "a failed read leaves the destination alone" old(r.Err) != nil || old(len(r.Body)) < len(b) ==> (forall k in 0 .. len(b): b[k] == old(b[k]))
	invariant forall k in 0 .. $n: b[k] == sext(old(le(r.Body, k, 1)), 8)
	ensures "takes exactly the encodings" good(r, len(b)) ==> took(r, len(b)) && r.Err == nil
	ensures "stores the elements in order" good(r, len(b)) ==> (forall k in 0 .. len(b): b[k] == sext(old(le(r.Body, k, 1)), 8))

func (r *Reader) Uint16sl(b)
	props C08 C09
	requires len(b) <= 0x40000000000
	modifies r.Body, r.Err, elems(b)
	ensures [C09] "sticky error" stuck(r)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 2 * len(b))
	ensures [C09] "a failed read leaves the destination alone" old(r.Err) != nil || old(len(r.Body)) < 2 * len(b) ==> (forall k in 0 .. len(b): b[k] == old(b[k]))
	invariant forall k in 0 .. $n: b[k] == old(le(r.Body, 2 * k, 2))
	ensures "takes exactly the encodings" good(r, 2 * len(b)) ==> took(r, 2 * len(b)) && r.Err == nil
	ensures "stores the elements in order" good(r, 2 * len(b)) ==> (forall k in 0 .. len(b): b[k] == old(le(r.Body, 2 * k, 2)))

func (r *Reader) Int16sl(b)
	props C08 C09
	requires len(b) <= 0x40000000000
	modifies r.Body, r.Err, elems(b)
	ensures [C09] "sticky error" stuck(r)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 2 * len(b))
	ensures [C09] "a failed read leaves the destination alone" old(r.Err) != nil || old(len(r.Body)) < 2 * len(b) ==> (forall k in 0 .. len(b): b[k] == old(b[k]))
	invariant forall k in 0 .. $n: b[k] == sext(old(le(r.Body, 2 * k, 2)), 16)
	ensures "takes exactly the encodings" good(r, 2 * len(b)) ==> took(r, 2 * len(b)) && r.Err == nil
	ensures "stores the elements in order" good(r, 2 * len(b)) ==> (forall k in 0 .. len(b): b[k] == sext(old(le(r.Body, 2 * k, 2)), 16))

func (r *Reader) Uint32sl(b)
	props C08 C09
	requires len(b) <= 0x40000000000
	modifies r.Body, r.Err, elems(b)
	ensures [C09] "sticky error" stuck(r)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 4 * len(b))
	ensures [C09] "a failed read leaves the destination alone" old(r.Err) != nil || old(len(r.Body)) < 4 * len(b) ==> (forall k in 0 .. len(b): b[k] == old(b[k]))
	invariant forall k in 0 .. $n: b[k] == old(le(r.Body, 4 * k, 4))
	ensures "takes exactly the encodings" good(r, 4 * len(b)) ==> took(r, 4 * len(b)) && r.Err == nil
	ensures "stores the elements in order" good(r, 4 * len(b)) ==> (forall k in 0 .. len(b): b[k] == old(le(r.Body, 4 * k, 4)))

func (r *Reader) Int32sl(b)
	props C08 C09
	requires len(b) <= 0x40000000000
	modifies r.Body, r.Err, elems(b)
	ensures [C09] "sticky error" stuck(r)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 4 * len(b))
	ensures [C09] "a failed read leaves the destination alone" old(r.Err) != nil || old(len(r.Body)) < 4 * len(b) ==> (forall k in 0 .. len(b): b[k] == old(b[k]))
	invariant forall k in 0 .. $n: b[k] == sext(old(le(r.Body, 4 * k, 4)), 32)
	ensures "takes exactly the encodings" good(r, 4 * len(b)) ==> took(r, 4 * len(b)) && r.Err == nil
	ensures "stores the elements in order" good(r, 4 * len(b)) ==> (forall k in 0 .. len(b): b[k] == sext(old(le(r.Body, 4 * k, 4)), 32))

func (r *Reader) Uint64sl(b)
	props C08 C09
	requires len(b) <= 0x40000000000
	modifies r.Body, r.Err, elems(b)
	ensures [C09] "sticky error" stuck(r)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 8 * len(b))
	ensures [C09] "a failed read leaves the destination alone" old(r.Err) != nil || old(len(r.Body)) < 8 * len(b) ==> (forall k in 0 .. len(b): b[k] == old(b[k]))
	invariant forall k in 0 .. $n: b[k] == old(le(r.Body, 8 * k, 8))
	ensures "takes exactly the encodings" good(r, 8 * len(b)) ==> took(r, 8 * len(b)) && r.Err == nil
	ensures "stores the elements in order" good(r, 8 * len(b)) ==> (forall k in 0 .. len(b): b[k] == old(le(r.Body, 8 * k, 8)))

func (r *Reader) Int64sl(b)
	props C08 C09
	requires len(b) <= 0x40000000000
	modifies r.Body, r.Err, elems(b)
	ensures [C09] "sticky error" stuck(r)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 8 * len(b))
	ensures [C09] "a failed read leaves the destination alone" old(r.Err) != nil || old(len(r.Body)) < 8 * len(b) ==> (forall k in 0 .. len(b): b[k] == old(b[k]))
	invariant forall k in 0 .. $n: b[k] == sext(old(le(r.Body, 8 * k, 8)), 64)
	ensures "takes exactly the encodings" good(r, 8 * len(b)) ==> took(r, 8 * len(b)) && r.Err == nil
	ensures "stores the elements in order" good(r, 8 * len(b)) ==> (forall k in 0 .. len(b): b[k] == sext(old(le(r.Body, 8 * k, 8)), 64))

func (r *Reader) Float32sl(b)
	props C08 C09
	requires len(b) <= 0x40000000000
	modifies r.Body, r.Err, elems(b)
	ensures [C09] "sticky error" stuck(r)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 4 * len(b))
	ensures [C09] "a failed read leaves the destination alone" old(r.Err) != nil || old(len(r.Body)) < 4 * len(b) ==> (forall k in 0 .. len(b): b[k] == old(b[k]))
	invariant forall k in 0 .. $n: b[k] == old(le(r.Body, 4 * k, 4))
	ensures "takes exactly the encodings" good(r, 4 * len(b)) ==> took(r, 4 * len(b)) && r.Err == nil
	ensures "stores the elements in order" good(r, 4 * len(b)) ==> (forall k in 0 .. len(b): b[k] == old(le(r.Body, 4 * k, 4)))

func (r *Reader) Float64sl(b)
	props C08 C09
	requires len(b) <= 0x40000000000
	modifies r.Body, r.Err, elems(b)
	ensures [C09] "sticky error" stuck(r)
	ensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < 8 * len(b))
	ensures [C09] "a failed read leaves the destination alone" old(r.Err) != nil || old(len(r.Body)) < 8 * len(b) ==> (forall k in 0 .. len(b): b[k] == old(b[k]))
	invariant forall k in 0 .. $n: b[k] == old(le(r.Body, 8 * k, 8))
	ensures "takes exactly the encodings" good(r, 8 * len(b)) ==> took(r, 8 * len(b)) && r.Err == nil
	ensures "stores the elements in order" good(r, 8 * len(b)) ==> (forall k in 0 .. len(b): b[k] == old(le(r.Body, 8 * k, 8)))


func (r *Reader) Slice(sz) (res)
	props C08 C09
	modifies r.Body, r.Err
	ensures [C09] "sticky error" stuck(r) && (old(r.Err) != nil ==> res == nil)
	ensures [C09] "a size that does not fit is an error" failed(r, sz < 0 || old(len(r.Body)) < sz) && (sz < 0 || old(len(r.Body)) < sz ==> res == nil)
	ensures "the next sz bytes" sz >= 0 && good(r, sz) ==> took(r, sz) && r.Err == nil && arr(res) == old(arr(r.Body)) && off(res) == old(off(r.Body)) && len(res) == sz

func (r *Reader) String(sz) (res)
	props C08 C09
	modifies r.Body, r.Err
	ensures [C09] "sticky error" stuck(r) && (old(r.Err) != nil ==> len(res) == 0)
	ensures [C09] "a size that does not fit is an error" failed(r, sz < 0 || old(len(r.Body)) < sz) && (sz < 0 || old(len(r.Body)) < sz ==> len(res) == 0)
	ensures "the next sz bytes" sz >= 0 && good(r, sz) ==> took(r, sz) && r.Err == nil && len(res) == sz && (forall k in 0 .. sz: res[k] == old(r.Body[k]))

func (r *Reader) Tail() (res)
	props C08 C09
	modifies r.Body, r.Err
	ensures [C09] "sticky error" stuck(r) && (old(r.Err) != nil ==> res == nil)
	ensures "all the rest" old(r.Err) == nil ==> r.Err == nil && len(r.Body) == 0 && arr(res) == old(arr(r.Body)) && off(res) == old(off(r.Body)) && len(res) == old(len(r.Body))

pred oldb(r, i) = old(r.Body[i])
// the value of the first m digits (m <= 10)
pred vsum(r, m) = (if m >= 1 then old(r.Body[m - 1] % 128) * 1 else 0) + (if m >= 2 then old(r.Body[m - 2] % 128) * 128 else 0) + (if m >= 3 then old(r.Body[m - 3] % 128) * 16384 else 0) + (if m >= 4 then old(r.Body[m - 4] % 128) * 2097152 else 0) + (if m >= 5 then old(r.Body[m - 5] % 128) * 268435456 else 0) + (if m >= 6 then old(r.Body[m - 6] % 128) * 34359738368 else 0) + (if m >= 7 then old(r.Body[m - 7] % 128) * 4398046511104 else 0) + (if m >= 8 then old(r.Body[m - 8] % 128) * 562949953421312 else 0) + (if m >= 9 then old(r.Body[m - 9] % 128) * 72057594037927936 else 0) + (if m >= 10 then old(r.Body[m - 10] % 128) * 9223372036854775808 else 0)

func (r *Reader) Uint64var() (res)
	props C07 C09
	modifies r.Body, r.Err
	invariant r.Err == nil && same(r)
	invariant forall k in 0 .. $n: old(r.Body[k]) >= 128
	invariant [C07] $acc <= 0x1ffffffffffffff
	invariant [C07] $n <= 9 ==> $acc == vsum(r, $n)
	ensures [C09] "sticky error, zero result" stuck(r) && (old(r.Err) != nil ==> res == 0)
	ensures [C09] "an error leaves the input in place" old(r.Err) == nil && r.Err != nil ==> same(r)
	ensures "success takes exactly one encoding" r.Err == nil ==> len(r.Body) < old(len(r.Body)) && took(r, old(len(r.Body)) - len(r.Body)) && oldb(r, old(len(r.Body)) - len(r.Body) - 1) < 128
	ensures "every byte before the last has its continuation bit set" r.Err == nil ==> (forall k in 0 .. old(len(r.Body)) - len(r.Body) - 1: old(r.Body[k]) >= 128)
	ensures [C07] "the value spelled by the digits, nothing truncated" r.Err == nil && old(len(r.Body)) - len(r.Body) <= 10 ==> res == vsum(r, old(len(r.Body)) - len(r.Body))
	ensures [C07] "a complete encoding that fits is accepted" forall m in 1 .. 11: old(r.Err) == nil && m <= old(len(r.Body)) && (forall k in 0 .. m - 1: old(r.Body[k]) >= 128) && old(r.Body[m - 1]) < 128 && vsum(r, m) < 0x10000000000000000 ==> r.Err == nil

func (r *Reader) Intvar() (res)
	props C07 C09
	modifies r.Body, r.Err, r.$size, r.$left
	update r.$size := res
	update r.$left := len(r.Body)
	ensures r.$size == res && r.$left == len(r.Body)
	ensures [C09] "sticky error, zero result" stuck(r) && (old(r.Err) != nil ==> res == 0)
	ensures [C09] "an error leaves the input in place" old(r.Err) == nil && r.Err != nil ==> same(r)
	ensures "success takes exactly one encoding" r.Err == nil ==> len(r.Body) < old(len(r.Body)) && took(r, old(len(r.Body)) - len(r.Body)) && oldb(r, old(len(r.Body)) - len(r.Body) - 1) < 128
	ensures "every byte before the last has its continuation bit set" r.Err == nil ==> (forall k in 0 .. old(len(r.Body)) - len(r.Body) - 1: old(r.Body[k]) >= 128)
	ensures [C07] "the value spelled by the digits, nothing truncated" r.Err == nil && old(len(r.Body)) - len(r.Body) <= 10 ==> mod2(res, 64) == vsum(r, old(len(r.Body)) - len(r.Body))
	ensures [C07] "a complete encoding that fits is accepted" forall m in 1 .. 11: old(r.Err) == nil && m <= old(len(r.Body)) && (forall k in 0 .. m - 1: old(r.Body[k]) >= 128) && old(r.Body[m - 1]) < 128 && vsum(r, m) < 0x10000000000000000 ==> r.Err == nil

