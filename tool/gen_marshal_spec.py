#!/usr/bin/env python3
# Writes the regular part of contracts/marshal.spec (scalars and slices of every width).
out=[]
P=out.append
P("""package github.com/funny-falcon/go-iproto/marshal

// ---------------- Writer ----------------
// the size or count written last as a prefix, and how much had been written with it
ghost Writer.$pre nat thread
ghost Writer.$at nat thread

// the buffer grew by n bytes and what was written before is unchanged
pred grown(w, n) = len(w.buf) == old(len(w.buf)) + n && arr(w.buf) != nil && (forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k]))
// the new buffer is the old one extended in place, or a brand new one
pred moved(w) = fresh(w.buf) || (arr(w.buf) == old(arr(w.buf)) && off(w.buf) == old(off(w.buf)) && cap(w.buf) == old(cap(w.buf)))
// room for n more bytes can exist at all
pred room(w, n) = len(w.buf) + n <= 0x40000000000

func (w *Writer) ensure(n) (l)
	props C06 C10
	requires n >= 0
	requires room(w, n)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize
	ensures "returns the previous length" l == old(len(w.buf))
	ensures "length grows by n" len(w.buf) == l + n
	ensures "prefix kept" forall k in 0 .. l: w.buf[k] == old(w.buf[k])
	ensures "window extended in place or fresh" moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000

func (w *Writer) Need(n) (b)
	props C06 C10
	requires n >= 0
	requires room(w, n)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize
	ensures "the n new bytes" len(b) == n && arr(b) == arr(w.buf) && off(b) == off(w.buf) + old(len(w.buf))
	ensures "length grows by n" len(w.buf) == old(len(w.buf)) + n
	ensures "prefix kept" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000

func (w *Writer) Written() (res)
	props C10
	modifies w.buf
	ensures "exactly the bytes written" len(res) == old(len(w.buf)) && arr(res) == old(arr(w.buf)) && off(res) == old(off(w.buf))
	ensures "no spare capacity is handed out" cap(res) == len(res)
	ensures "the writer keeps only what lies after" arr(w.buf) == old(arr(w.buf)) && len(w.buf) == 0 && off(w.buf) == old(off(w.buf)) + old(len(w.buf)) && cap(w.buf) == old(cap(w.buf)) - old(len(w.buf))

func (w *Writer) Reset()
	props C10
	modifies w.buf
	ensures len(w.buf) == 0 && arr(w.buf) == old(arr(w.buf)) && off(w.buf) == old(off(w.buf)) && cap(w.buf) == old(cap(w.buf))
""")
def wcommon(n, sizer=False):
    P("\trequires room(w, %s)"%n)
    P("\trequires 0 <= w.DefSize <= 0x40000000000")
    P("\tmodifies w.buf, w.DefSize, spare(w.buf)"+(", w.$pre, w.$at" if sizer else ""))
    if sizer:
        P("\tupdate w.$pre := i\n\tupdate w.$at := len(w.buf)\n\tensures w.$pre == i && w.$at == len(w.buf)")
    P('\tensures "grows by exactly the encoding" len(w.buf) == old(len(w.buf)) + %s'%n)
    P('\tensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])')
    P('\tensures "in place or fresh" [C10] moved(w)'.replace('"in place or fresh" [C10]','[C06 C08 C10] "in place or fresh"'))
    P("\tensures 0 <= w.DefSize <= 0x40000000000")
scal=[("Uint8",1),("Int8",1),("Uint16",2),("Int16",2),("Uint32",4),("Int32",4),("Uint64",8),("Int64",8),("Float32",4),("Float64",8),
      ("IntUint8",1),("IntUint16",2),("IntUint32",4),("IntUint64",8)]
for nm,w in scal:
    P("func (w *Writer) %s(i)"%nm); P("\tprops C06 C10"); wcommon(w, nm.startswith("Int") and nm[3:4]=="U")
    P('\tensures "little-endian bytes of the value" le(w.buf, old(len(w.buf)), %d) == mod2(i, %d)\n'%(w,w*8))
for nm,w in [("Uint8sl",1),("Bytes",1),("String",1),("Int8sl",1),("Uint16sl",2),("Int16sl",2),("Uint32sl",4),("Int32sl",4),("Uint64sl",8),("Int64sl",8),("Float32sl",4),("Float64sl",8)]:
    P("func (w *Writer) %s(i)"%nm); P("\tprops C08 C10")
    n = "len(i)" if w==1 else "%d * len(i)"%w
    if nm!="String":
        P('\trequires "the source is not the spare room of the output" arr(i) != arr(w.buf) || arr(i) == nil || off(i) + %d * 0 + len(i) <= off(w.buf) + len(w.buf)'%w if False else '\trequires "the source does not overlap the spare room of the output" arr(i) == nil || arr(i) != arr(w.buf) || off(i) + len(i) <= off(w.buf) + len(w.buf) || off(i) >= off(w.buf) + cap(w.buf)')
    wcommon(n)
    if w==1:
        P('\tensures "the bytes themselves" forall k in 0 .. len(i): w.buf[old(len(w.buf)) + k] == mod2(old(i[k]), 8)')
    else:
        P('\tinvariant forall k in 0 .. $n: le(w.buf, old(len(w.buf)) + %d * k, %d) == mod2(old(i[k]), %d)'%(w,w,w*8))
        P('\tensures "element by element" forall k in 0 .. len(i): le(w.buf, old(len(w.buf)) + %d * k, %d) == mod2(old(i[k]), %d)'%(w,w,w*8))
    if nm=="Int8sl":
        P('\tinvariant forall k in 0 .. $n: w.buf[old(len(w.buf)) + k] == mod2(old(i[k]), 8)')
    if w>1 or nm=="Int8sl":
        P('\tinvariant forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])')
    P("")
P("""
// ---------------- BER varints ----------------
pred vlen(i) = if i < 0x80 then 1 else if i < 0x4000 then 2 else if i < 0x200000 then 3 else if i < 0x10000000 then 4 else if i < 0x800000000 then 5 else if i < 0x40000000000 then 6 else if i < 0x2000000000000 then 7 else if i < 0x100000000000000 then 8 else if i < 0x8000000000000000 then 9 else 10
// byte number k (from the last one) of the encoding
pred vdig(i, k) = if k == 0 then i % 128 else if k == 1 then i / 0x80 % 128 else if k == 2 then i / 0x4000 % 128 else if k == 3 then i / 0x200000 % 128 else if k == 4 then i / 0x10000000 % 128 else if k == 5 then i / 0x800000000 % 128 else if k == 6 then i / 0x40000000000 % 128 else if k == 7 then i / 0x2000000000000 % 128 else if k == 8 then i / 0x100000000000000 % 128 else i / 0x8000000000000000 % 128

func varu64size(i) (n)
	props C07 C11
	unroll 11
	ensures "the length of the encoding" n == vlen(i)

func Varsize(i) (n)
	props C07 C11
	ensures "the length of the encoding of the low 64 bits" n == vlen(mod2(i, 64))

func (w *Writer) Uint64var(i)
	props C07 C10
	requires room(w, 10)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf)
	ensures "shortest length" len(w.buf) == old(len(w.buf)) + vlen(i)
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "digits and continuation bits" forall k in 0 .. 10: k < vlen(i) ==> w.buf[len(w.buf) - 1 - k] == vdig(i, k) + (if k == 0 then 0 else 128)

func (w *Writer) Intvar(i)
	props C07 C10
	requires room(w, 10)
	requires 0 <= w.DefSize <= 0x40000000000
	modifies w.buf, w.DefSize, spare(w.buf), w.$pre, w.$at
	update w.$pre := i
	update w.$at := len(w.buf)
	ensures w.$pre == i && w.$at == len(w.buf)
	ensures "shortest length" len(w.buf) == old(len(w.buf)) + vlen(mod2(i, 64))
	ensures "earlier output unchanged" forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k])
	ensures moved(w)
	ensures 0 <= w.DefSize <= 0x40000000000
	ensures "digits and continuation bits" forall k in 0 .. 10: k < vlen(mod2(i, 64)) ==> w.buf[len(w.buf) - 1 - k] == vdig(mod2(i, 64), k) + (if k == 0 then 0 else 128)
""")
P("""
// ---------------- Reader ----------------
// n bytes were taken from the front of the input
pred took(r, n) = len(r.Body) == old(len(r.Body)) - n && arr(r.Body) == old(arr(r.Body)) && off(r.Body) == old(off(r.Body)) + n && cap(r.Body) == old(cap(r.Body)) - n
pred same(r) = len(r.Body) == old(len(r.Body)) && arr(r.Body) == old(arr(r.Body)) && off(r.Body) == old(off(r.Body)) && cap(r.Body) == old(cap(r.Body))
pred stuck(r) = old(r.Err) != nil ==> same(r) && r.Err == old(r.Err)
pred failed(r, c) = old(r.Err) == nil && c ==> same(r) && r.Err != nil
pred good(r, n) = old(r.Err) == nil && old(len(r.Body)) >= n
""")
SZM=", r.$size, r.$left\n\tupdate r.$size := res\n\tupdate r.$left := len(r.Body)\n\tensures r.$size == res && r.$left == len(r.Body)"
for nm,w,sg in [("Uint8",1,0),("Int8",1,1),("Uint16",2,0),("Int16",2,1),("Uint32",4,0),("Int32",4,1),("Uint64",8,0),("Int64",8,1),("Float32",4,0),("Float64",8,0),
      ("IntUint8",1,0),("IntUint16",2,0),("IntUint32",4,0),("IntUint64",8,1)]:
    P("func (r *Reader) %s() (res)"%nm)
    P("\tprops C06 C09")
    P("\tmodifies r.Body, r.Err"+(SZM if nm.startswith("IntU") else ""))
    P('\tensures [C09] "sticky error, zero result" stuck(r) && (old(r.Err) != nil ==> res == 0)')
    P('\tensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < %d) && (old(len(r.Body)) < %d ==> res == 0)'%(w,w))
    v="old(le(r.Body, 0, %d))"%w
    if sg: v="sext(%s, %d)"%(v,w*8)
    P('\tensures "decodes the little-endian value and takes exactly its bytes" good(r, %d) ==> took(r, %d) && r.Err == nil && res == %s\n'%(w,w,v))
for nm,w,sg in [("Uint8sl",1,0),("Bytes",1,0),("Int8sl",1,1),("Uint16sl",2,0),("Int16sl",2,1),("Uint32sl",4,0),("Int32sl",4,1),("Uint64sl",8,0),("Int64sl",8,1),("Float32sl",4,0),("Float64sl",8,0)]:
    P("func (r *Reader) %s(b)"%nm)
    P("\tprops C08 C09")
    if w==1 and not sg:
        pass
    n = "len(b)" if w==1 else "%d * len(b)"%w
    P("\trequires len(b) <= 0x40000000000")
    P("\tmodifies r.Body, r.Err, elems(b)")
    P('\tensures [C09] "sticky error" stuck(r)')
    P('\tensures [C09] "short input is an error and consumes nothing" failed(r, old(len(r.Body)) < %s)'%n)
    P('\tensures [C09] "a failed read leaves the destination alone" old(r.Err) != nil || old(len(r.Body)) < %s ==> (forall k in 0 .. len(b): b[k] == old(b[k]))'%n)
    v="old(le(r.Body, %s, %d))"%("k" if w==1 else "%d * k"%w,w)
    if sg: v="sext(%s, %d)"%(v,w*8)
    if not (w==1 and not sg):
        P('\tinvariant forall k in 0 .. $n: b[k] == %s'%v)
    P('\tensures "takes exactly the encodings" good(r, %s) ==> took(r, %s) && r.Err == nil'%(n,n))
    P('\tensures "stores the elements in order" good(r, %s) ==> (forall k in 0 .. len(b): b[k] == %s)\n'%(n,v))
P("""
func (r *Reader) Slice(sz) (res)
	props C08 C09
	modifies r.Body, r.Err
	ensures [C09] "sticky error" stuck(r) && (old(r.Err) != nil ==> res == nil)
	ensures [C09] "a size that does not fit is an error" failed(r, sz < 0 || old(len(r.Body)) < sz) && (sz < 0 || old(len(r.Body)) < sz ==> res == nil)
	ensures "the next sz bytes" sz >= 0 && good(r, sz) ==> took(r, sz) && r.Err == nil && arr(res) == old(arr(r.Body)) && off(res) == old(off(r.Body)) && len(res) == sz

func (r *Reader) String(sz) (res)
	props C08 C09
	modifies r.Body, r.Err
	ensures [C09] "sticky error" stuck(r) && (old(r.Err) != nil ==> len(res) == 0)
	ensures [C09] "a size that does not fit is an error" failed(r, sz < 0 || old(len(r.Body)) < sz) && (sz < 0 || old(len(r.Body)) < sz ==> len(res) == 0)
	ensures "the next sz bytes" sz >= 0 && good(r, sz) ==> took(r, sz) && r.Err == nil && len(res) == sz && (forall k in 0 .. sz: res[k] == old(r.Body[k]))

func (r *Reader) Tail() (res)
	props C08 C09
	modifies r.Body, r.Err
	ensures [C09] "sticky error" stuck(r) && (old(r.Err) != nil ==> res == nil)
	ensures "all the rest" old(r.Err) == nil ==> r.Err == nil && len(r.Body) == 0 && arr(res) == old(arr(r.Body)) && off(res) == old(off(r.Body)) && len(res) == old(len(r.Body))
""")
def vsum(m, b="r.Body"):
    return " + ".join("(if %s >= %d then old(%s[%s - %d] %% 128) * %d else 0)"%(m,j,b,m,j,128**(j-1)) for j in range(1,11))
body="""
	modifies r.Body, r.Err
	invariant r.Err == nil && same(r)
	invariant forall k in 0 .. $n: old(r.Body[k]) >= 128
	invariant [C07] $acc <= 0x1ffffffffffffff
	invariant [C07] $n <= 9 ==> $acc == vsum(r, $n)
	ensures [C09] "sticky error, zero result" stuck(r) && (old(r.Err) != nil ==> res == 0)
	ensures [C09] "an error leaves the input in place" old(r.Err) == nil && r.Err != nil ==> same(r)
	ensures "success takes exactly one encoding" r.Err == nil ==> len(r.Body) < old(len(r.Body)) && took(r, old(len(r.Body)) - len(r.Body)) && oldb(r, old(len(r.Body)) - len(r.Body) - 1) < 128
	ensures "every byte before the last has its continuation bit set" r.Err == nil ==> (forall k in 0 .. old(len(r.Body)) - len(r.Body) - 1: old(r.Body[k]) >= 128)
	ensures [C07] "the value spelled by the digits, nothing truncated" r.Err == nil && old(len(r.Body)) - len(r.Body) <= 10 ==> RES == vsum(r, old(len(r.Body)) - len(r.Body))
	ensures [C07] "a complete encoding that fits is accepted" forall m in 1 .. 11: old(r.Err) == nil && m <= old(len(r.Body)) && (forall k in 0 .. m - 1: old(r.Body[k]) >= 128) && old(r.Body[m - 1]) < 128 && vsum(r, m) < 0x10000000000000000 ==> r.Err == nil
"""
P("pred oldb(r, i) = old(r.Body[i])")
P("// the value of the first m digits (m <= 10)")
P("pred vsum(r, m) = "+vsum("m"))
P("\nfunc (r *Reader) Uint64var() (res)\n\tprops C07 C09"+body.replace("RES","res"))
P("func (r *Reader) Intvar() (res)\n\tprops C07 C09"+"\n".join(l+(SZM if "modifies" in l else "") for l in "\n".join(l for l in body.split("\n") if "invariant" not in l).replace("RES","mod2(res, 64)").split("\n")))
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'../contracts/marshal.spec'),'w').write("\n".join(out)+"\n")
