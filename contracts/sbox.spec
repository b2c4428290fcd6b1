package github.com/funny-falcon/go-iproto/sbox

// ---------------- tuples and requests of the box ----------------
// tuples written with this writer
ghost marshal.Writer.$tups nat thread
// tuples read with this reader
ghost marshal.Reader.$got nat thread

pred sgood(w) = 0 <= w.DefSize && w.DefSize <= 0x40000000000 && len(w.buf) <= 0x20000000000
pred skept(w) = len(w.buf) >= old(len(w.buf)) && (forall k in 0 .. old(len(w.buf)): w.buf[k] == old(w.buf[k]))
pred sapart(w, b) = arr(b) == nil || arr(b) != arr(w.buf)
// the bytes from p on are the BER encoding of the size n
pred ber(w, p, n) = forall k in 0 .. 10: k < vlen(n) ==> w.buf[p + vlen(n) - 1 - k] == vdig(n, k) + (if k == 0 then 0 else 128)
macro SMOD: w.buf, w.DefSize, spare(w.buf), w.$pre, w.$at, w.$vals
macro TMOD: w.buf, w.DefSize, spare(w.buf), w.$pre, w.$at, w.$vals, w.$tups
macro SLIM: "less than 2^41 bytes are written" len(w.buf) <= 0x20000000000

// encoders of tuples are built from the type with reflection
iface (t TWriter) Write(w, v)
	requires w != nil && sgood(w)
	modifies @TMOD
	ensures skept(w) && sgood(w) && moved(w) && w.$tups == old(w.$tups) + 1

func writer(rt) (wr)
	trusted
	ensures wr != nil && wr.Write != nil

func WriteTuple(w, i)
	props C14 C13
	requires w != nil && sgood(w)
	assumes "strings are shorter than 2^40 bytes" typeis(i, "string") ==> len(cast(i, "string")) <= 0x10000000000
	assumes "byte slices are shorter than 2^40 bytes and not part of the output" typeis(i, "[]byte") ==> len(cast(i, "[]byte")) <= 0x10000000000 && sapart(w, cast(i, "[]byte"))
	retains * @SLIM
	modifies @TMOD
	update w.$tups := old(w.$tups) + 1
	ensures skept(w) && sgood(w) && moved(w)
	ensures "one more tuple" w.$tups == old(w.$tups) + 1
	ensures [C14] "nothing is an empty tuple" i == nil ==> len(w.buf) == old(len(w.buf)) + 4 && le(w.buf, old(len(w.buf)), 4) == 0
	ensures [C14] "a tuple of one uint8: count, size, value" typeis(i, "uint8") ==> len(w.buf) == old(len(w.buf)) + 6 && le(w.buf, old(len(w.buf)), 4) == 1 && w.buf[old(len(w.buf)) + 4] == 1 && le(w.buf, old(len(w.buf)) + 5, 1) == mod2(cast(i, "uint8"), 8)
	ensures [C14] "a tuple of one int8: count, size, value" typeis(i, "int8") ==> len(w.buf) == old(len(w.buf)) + 6 && le(w.buf, old(len(w.buf)), 4) == 1 && w.buf[old(len(w.buf)) + 4] == 1 && le(w.buf, old(len(w.buf)) + 5, 1) == mod2(cast(i, "int8"), 8)
	ensures [C14] "a tuple of one uint16: count, size, value" typeis(i, "uint16") ==> len(w.buf) == old(len(w.buf)) + 7 && le(w.buf, old(len(w.buf)), 4) == 1 && w.buf[old(len(w.buf)) + 4] == 2 && le(w.buf, old(len(w.buf)) + 5, 2) == mod2(cast(i, "uint16"), 16)
	ensures [C14] "a tuple of one int16: count, size, value" typeis(i, "int16") ==> len(w.buf) == old(len(w.buf)) + 7 && le(w.buf, old(len(w.buf)), 4) == 1 && w.buf[old(len(w.buf)) + 4] == 2 && le(w.buf, old(len(w.buf)) + 5, 2) == mod2(cast(i, "int16"), 16)
	ensures [C14] "a tuple of one uint32: count, size, value" typeis(i, "uint32") ==> len(w.buf) == old(len(w.buf)) + 9 && le(w.buf, old(len(w.buf)), 4) == 1 && w.buf[old(len(w.buf)) + 4] == 4 && le(w.buf, old(len(w.buf)) + 5, 4) == mod2(cast(i, "uint32"), 32)
	ensures [C14] "a tuple of one int32: count, size, value" typeis(i, "int32") ==> len(w.buf) == old(len(w.buf)) + 9 && le(w.buf, old(len(w.buf)), 4) == 1 && w.buf[old(len(w.buf)) + 4] == 4 && le(w.buf, old(len(w.buf)) + 5, 4) == mod2(cast(i, "int32"), 32)
	ensures [C14] "a tuple of one uint64: count, size, value" typeis(i, "uint64") ==> len(w.buf) == old(len(w.buf)) + 13 && le(w.buf, old(len(w.buf)), 4) == 1 && w.buf[old(len(w.buf)) + 4] == 8 && le(w.buf, old(len(w.buf)) + 5, 8) == mod2(cast(i, "uint64"), 64)
	ensures [C14] "a tuple of one int64: count, size, value" typeis(i, "int64") ==> len(w.buf) == old(len(w.buf)) + 13 && le(w.buf, old(len(w.buf)), 4) == 1 && w.buf[old(len(w.buf)) + 4] == 8 && le(w.buf, old(len(w.buf)) + 5, 8) == mod2(cast(i, "int64"), 64)
	ensures [C14] "a tuple of one float32: count, size, value" typeis(i, "float32") ==> len(w.buf) == old(len(w.buf)) + 9 && le(w.buf, old(len(w.buf)), 4) == 1 && w.buf[old(len(w.buf)) + 4] == 4 && le(w.buf, old(len(w.buf)) + 5, 4) == mod2(cast(i, "float32"), 32)
	ensures [C14] "a tuple of one float64: count, size, value" typeis(i, "float64") ==> len(w.buf) == old(len(w.buf)) + 13 && le(w.buf, old(len(w.buf)), 4) == 1 && w.buf[old(len(w.buf)) + 4] == 8 && le(w.buf, old(len(w.buf)) + 5, 8) == mod2(cast(i, "float64"), 64)
	ensures [C14] "a tuple of one string: count, size, bytes" typeis(i, "string") ==> le(w.buf, old(len(w.buf)), 4) == 1 && len(w.buf) == old(len(w.buf)) + 4 + vlen(len(cast(i, "string"))) + len(cast(i, "string")) && ber(w, old(len(w.buf)) + 4, len(cast(i, "string"))) && (forall k in 0 .. len(cast(i, "string")): w.buf[len(w.buf) - len(cast(i, "string")) + k] == old(cast(i, "string")[k]))
	ensures [C14] "a tuple of one byte slice: count, size, bytes" typeis(i, "[]byte") ==> le(w.buf, old(len(w.buf)), 4) == 1 && len(w.buf) == old(len(w.buf)) + 4 + vlen(len(cast(i, "[]byte"))) + len(cast(i, "[]byte")) && ber(w, old(len(w.buf)) + 4, len(cast(i, "[]byte"))) && (forall k in 0 .. len(cast(i, "[]byte")): w.buf[len(w.buf) - len(cast(i, "[]byte")) + k] == old(cast(i, "[]byte")[k]))
	ensures [C14] "a list is written with as many fields as it has values" typeis(i, "[]interface{}") ==> le(w.buf, old(len(w.buf)), 4) == mod2(w.$vals - old(w.$vals), 32) && w.$vals - old(w.$vals) == len(cast(i, "[]interface{}"))
	calls WriteWithSize [C14] "the values of the list in order, each with a BER size" isfn($ws, "Intvar") && $i == cast(i, "[]interface{}")[w.$vals - old(w.$vals)]
	invariant w.$vals == old(w.$vals) + $n
	invariant skept(w) && sgood(w) && moved(w) && len(w.buf) >= old(len(w.buf)) + 4 && le(w.buf, old(len(w.buf)), 4) == mod2(len(cast(i, "[]interface{}")), 32)


// ---------------- keys ----------------
// one key, not a list: numbers, strings, structs
pred onekind(k) = 3 <= k && k <= 6 || 8 <= k && k <= 11 || k == 13 || k == 14 || k == 24 || k == 25
pred listkind(k) = k == 17 || k == 23
pred elkind(v) = refl_Kind(refl_Elem(refl_Type(v)))
// how many keys a value is
pred nkeysv(v) = if onekind(refl_Kind(v)) then 1 else if listkind(refl_Kind(v)) then (if elkind(v) == 8 then 1 else refl_Len(v)) else 0
pred nkeys(k) = if typeis(k, "int8") || typeis(k, "uint8") || typeis(k, "int16") || typeis(k, "uint16") || typeis(k, "int32") || typeis(k, "uint32") || typeis(k, "int64") || typeis(k, "uint64") || typeis(k, "string") || typeis(k, "[]byte") then 1 else if typeis(k, "[]uint32") then len(cast(k, "[]uint32")) else if typeis(k, "[]int32") then len(cast(k, "[]int32")) else if typeis(k, "[]uint64") then len(cast(k, "[]uint64")) else if typeis(k, "[]int64") then len(cast(k, "[]int64")) else if typeis(k, "[]float32") then len(cast(k, "[]float32")) else if typeis(k, "[]float64") then len(cast(k, "[]float64")) else if typeis(k, "[]string") then len(cast(k, "[]string")) else if typeis(k, "[][]byte") then len(cast(k, "[][]byte")) else if typeis(k, "[][][]byte") then len(cast(k, "[][][]byte")) else if typeis(k, "[]interface{}") then len(cast(k, "[]interface{}")) else if refl_Kind(refl_ValueOf(k)) == 22 then nkeysv(refl_Elem(refl_ValueOf(k))) else nkeysv(refl_ValueOf(k))

func CountKeysValues(v) (n)
	props C13
	flag reflpure
	maypanic
	ensures [C13] "one key, or as many as the list has elements" n == nkeysv(v) && n >= 0

func CountKeys(keys) (n)
	props C13
	flag reflpure
	maypanic
	ensures [C13] "one key, or as many as the list has elements" n == nkeys(keys) && n >= 0

func WriteKeysValues(w, v)
	props C13
	flag reflpure
	requires w != nil && sgood(w)
	assumes "keys are fewer than 2^40" refl_Len(v) >= 0
	retains * @SLIM
	modifies @TMOD
	maypanic
	ensures skept(w) && sgood(w) && moved(w)
	ensures [C13] "one tuple for each key" w.$tups == old(w.$tups) + nkeysv(v)
	invariant w.$tups == old(w.$tups) + $n
	invariant skept(w) && sgood(w) && moved(w)

func WriteKeys(w, keys)
	props C13
	flag reflpure
	requires w != nil && sgood(w)
	retains * @SLIM
	modifies @TMOD
	maypanic
	ensures skept(w) && sgood(w) && moved(w)
	ensures [C13] "one tuple for each key" w.$tups == old(w.$tups) + nkeys(keys)
	invariant w.$tups == old(w.$tups) + $n
	invariant skept(w) && sgood(w) && moved(w)
	calls WriteTuple [C13] "the keys in order" typeis(keys, "[]uint32") ==> typeis($i, "uint32") && cast($i, "uint32") == cast(keys, "[]uint32")[w.$tups - old(w.$tups)]
	calls WriteTuple [C13] "the keys in order" typeis(keys, "[]int32") ==> typeis($i, "int32") && cast($i, "int32") == cast(keys, "[]int32")[w.$tups - old(w.$tups)]
	calls WriteTuple [C13] "the keys in order" typeis(keys, "[]uint64") ==> typeis($i, "uint64") && cast($i, "uint64") == cast(keys, "[]uint64")[w.$tups - old(w.$tups)]
	calls WriteTuple [C13] "the keys in order" typeis(keys, "[]int64") ==> typeis($i, "int64") && cast($i, "int64") == cast(keys, "[]int64")[w.$tups - old(w.$tups)]
	calls WriteTuple [C13] "the keys in order" typeis(keys, "[]float32") ==> typeis($i, "float32") && cast($i, "float32") == cast(keys, "[]float32")[w.$tups - old(w.$tups)]
	calls WriteTuple [C13] "the keys in order" typeis(keys, "[]float64") ==> typeis($i, "float64") && cast($i, "float64") == cast(keys, "[]float64")[w.$tups - old(w.$tups)]
	calls WriteTuple [C13] "the keys in order" typeis(keys, "[]string") ==> typeis($i, "string") && len(cast($i, "string")) == len(cast(keys, "[]string")[w.$tups - old(w.$tups)]) && arr(cast($i, "string")) == arr(cast(keys, "[]string")[w.$tups - old(w.$tups)]) && off(cast($i, "string")) == off(cast(keys, "[]string")[w.$tups - old(w.$tups)])
	calls WriteTuple [C13] "the keys in order" typeis(keys, "[][]byte") ==> typeis($i, "[]byte") && len(cast($i, "[]byte")) == len(cast(keys, "[][]byte")[w.$tups - old(w.$tups)]) && arr(cast($i, "[]byte")) == arr(cast(keys, "[][]byte")[w.$tups - old(w.$tups)]) && off(cast($i, "[]byte")) == off(cast(keys, "[][]byte")[w.$tups - old(w.$tups)])
	calls WriteTuple [C13] "the keys in order" typeis(keys, "[][][]byte") ==> typeis($i, "[][]byte") && len(cast($i, "[][]byte")) == len(cast(keys, "[][][]byte")[w.$tups - old(w.$tups)]) && arr(cast($i, "[][]byte")) == arr(cast(keys, "[][][]byte")[w.$tups - old(w.$tups)]) && off(cast($i, "[][]byte")) == off(cast(keys, "[][][]byte")[w.$tups - old(w.$tups)])
	calls WriteTuple [C13] "the keys in order" typeis(keys, "[]interface{}") ==> $i == cast(keys, "[]interface{}")[w.$tups - old(w.$tups)]
	calls WriteTuple [C13] "the key itself" (typeis(keys, "int8") ==> $i == keys) && (typeis(keys, "uint8") ==> $i == keys) && (typeis(keys, "int16") ==> $i == keys) && (typeis(keys, "uint16") ==> $i == keys) && (typeis(keys, "int32") ==> $i == keys) && (typeis(keys, "uint32") ==> $i == keys) && (typeis(keys, "int64") ==> $i == keys) && (typeis(keys, "uint64") ==> $i == keys)

// ---------------- requests ----------------
func (s SelectReq) IWrite(w)
	props C13
	flag reflpure
	flag checkpoint
	calls WriteKeys "so far" skept(w) && sgood(w)
	requires w != nil && sgood(w)
	retains * @SLIM
	modifies @TMOD
	maypanic
	ensures skept(w) && sgood(w)
	ensures [C13] "space" len(w.buf) >= old(len(w.buf)) + 20 && le(w.buf, old(len(w.buf)), 4) == s.Space
	ensures [C13] "index" le(w.buf, old(len(w.buf)) + 4, 4) == s.Index
	ensures [C13] "offset" le(w.buf, old(len(w.buf)) + 8, 4) == s.Offset
	ensures [C13] "the limit given, the number of keys, or the maximum" le(w.buf, old(len(w.buf)) + 12, 4) == (if s.Limit >= 0 then s.Limit else if s.Limit == -2 then mod2(nkeys(s.Keys), 32) else 2147483647)
	ensures [C13] "the number of keys that follow" le(w.buf, old(len(w.buf)) + 16, 4) == mod2(w.$tups - old(w.$tups), 32)
	ensures [C13] "every key given" w.$tups - old(w.$tups) == nkeys(s.Keys)
	calls WriteKeys [C13] "after space" le(w.buf, old(len(w.buf)), 4) == s.Space
	calls WriteKeys [C13] "after index" le(w.buf, old(len(w.buf)) + 4, 4) == s.Index
	calls WriteKeys [C13] "after offset" le(w.buf, old(len(w.buf)) + 8, 4) == s.Offset
	calls WriteKeys [C13] "after limit" le(w.buf, old(len(w.buf)) + 12, 4) == (if s.Limit >= 0 then s.Limit else if s.Limit == -2 then mod2(nkeys(s.Keys), 32) else 2147483647)
	calls WriteKeys [C13] "after the count" le(w.buf, old(len(w.buf)) + 16, 4) == mod2(nkeys(s.Keys), 32)
	calls WriteKeys [C13] "the keys after the header" len(w.buf) == old(len(w.buf)) + 20 && $keys == s.Keys

func (i StoreReq) IWrite(w)
	props C13
	requires w != nil && sgood(w)
	retains * @SLIM
	modifies @TMOD
	ensures skept(w) && sgood(w)
	ensures [C13] "space and flags" len(w.buf) >= old(len(w.buf)) + 8 && le(w.buf, old(len(w.buf)), 4) == i.Space && le(w.buf, old(len(w.buf)) + 4, 4) == (if i.Return then 1 else 0) + 2 * i.Mode
	ensures [C13] "one tuple" w.$tups == old(w.$tups) + 1
	calls WriteTuple [C13] "the tuple given, after the header" len(w.buf) == old(len(w.buf)) + 8 && $i == i.Tuple

func (i DeleteReq) IWrite(w)
	props C13
	requires w != nil && sgood(w)
	retains * @SLIM
	modifies @TMOD
	ensures skept(w) && sgood(w)
	ensures [C13] "space and flags" len(w.buf) >= old(len(w.buf)) + 8 && le(w.buf, old(len(w.buf)), 4) == i.Space && le(w.buf, old(len(w.buf)) + 4, 4) == (if i.Return then 1 else 0)
	ensures [C13] "one key" w.$tups == old(w.$tups) + 1
	calls WriteTuple [C13] "the key given, after the header" len(w.buf) == old(len(w.buf)) + 8 && $i == i.Key

func (u UpdateReq) IWrite(w)
	props C13
	requires w != nil && sgood(w)
	retains * @SLIM
	modifies @TMOD
	ensures skept(w) && sgood(w)
	ensures [C13] "space and flags" len(w.buf) >= old(len(w.buf)) + 8 && le(w.buf, old(len(w.buf)), 4) == u.Space && le(w.buf, old(len(w.buf)) + 4, 4) == (if u.Return then 1 else 0)
	ensures [C13] "one key" w.$tups == old(w.$tups) + 1
	calls WriteTuple [C13] "the key given, after the header" len(w.buf) == old(len(w.buf)) + 8 && $i == u.Key
	calls Writer.Write [C13] "the operations, after the key" w.$tups == old(w.$tups) + 1 && typeis($i, "[]Op") && arr(cast($i, "[]Op")) == arr(u.Ops) && off(cast($i, "[]Op")) == off(u.Ops) && len(cast($i, "[]Op")) == len(u.Ops)

func (o Op) IWrite(w)
	props C13
	requires w != nil && sgood(w)
	requires "a known operation" o.Op <= 7 || o.Op == 61 || o.Op == 43 || o.Op == 38 || o.Op == 124 || o.Op == 94 || o.Op == 115 || o.Op == 100 || o.Op == 105
	assumes "strings are shorter than 2^40 bytes" typeis(o.Val, "string") ==> len(cast(o.Val, "string")) <= 0x10000000000
	assumes "byte slices are shorter than 2^40 bytes and not part of the output" typeis(o.Val, "[]byte") ==> len(cast(o.Val, "[]byte")) <= 0x10000000000 && sapart(w, cast(o.Val, "[]byte"))
	retains * @SLIM
	modifies @TMOD
	ensures skept(w) && sgood(w)
	ensures [C13] "length" len(w.buf) >= old(len(w.buf)) + 5
	ensures [C13] "field" le(w.buf, old(len(w.buf)), 4) == o.Field 
	ensures [C13] "operation code" w.buf[old(len(w.buf)) + 4] == opcode(o.Op)
	ensures [C13] "a sized uint32" typeis(o.Val, "uint32") ==> len(w.buf) == old(len(w.buf)) + 10 && w.buf[old(len(w.buf)) + 5] == 4 && le(w.buf, old(len(w.buf)) + 6, 4) == mod2(cast(o.Val, "uint32"), 32)
	ensures [C13] "a sized uint64" typeis(o.Val, "uint64") ==> len(w.buf) == old(len(w.buf)) + 14 && w.buf[old(len(w.buf)) + 5] == 8 && le(w.buf, old(len(w.buf)) + 6, 8) == mod2(cast(o.Val, "uint64"), 64)
	ensures [C13] "a sized int32" typeis(o.Val, "int32") ==> len(w.buf) == old(len(w.buf)) + 10 && w.buf[old(len(w.buf)) + 5] == 4 && le(w.buf, old(len(w.buf)) + 6, 4) == mod2(cast(o.Val, "int32"), 32)
	ensures [C13] "a sized int64" typeis(o.Val, "int64") ==> len(w.buf) == old(len(w.buf)) + 14 && w.buf[old(len(w.buf)) + 5] == 8 && le(w.buf, old(len(w.buf)) + 6, 8) == mod2(cast(o.Val, "int64"), 64)
	ensures [C13] "a sized string" typeis(o.Val, "string") ==> len(w.buf) == old(len(w.buf)) + 5 + vlen(len(cast(o.Val, "string"))) + len(cast(o.Val, "string")) && ber(w, old(len(w.buf)) + 5, len(cast(o.Val, "string"))) && (forall k in 0 .. len(cast(o.Val, "string")): w.buf[len(w.buf) - len(cast(o.Val, "string")) + k] == old(cast(o.Val, "string")[k]))
	ensures [C13] "a sized []byte" typeis(o.Val, "[]byte") ==> len(w.buf) == old(len(w.buf)) + 5 + vlen(len(cast(o.Val, "[]byte"))) + len(cast(o.Val, "[]byte")) && ber(w, old(len(w.buf)) + 5, len(cast(o.Val, "[]byte"))) && (forall k in 0 .. len(cast(o.Val, "[]byte")): w.buf[len(w.buf) - len(cast(o.Val, "[]byte")) + k] == old(cast(o.Val, "[]byte")[k]))
	ensures [C13] "no value is an empty value" o.Val == nil ==> len(w.buf) == old(len(w.buf)) + 6 && w.buf[old(len(w.buf)) + 5] == 0

pred opcode(o) = if o <= 7 then o else if o == 61 then 0 else if o == 43 then 1 else if o == 38 then 2 else if o == 124 then 3 else if o == 94 then 4 else if o == 115 then 5 else if o == 100 then 6 else 7

func stringvar(w, s)
	props C13
	requires w != nil && sgood(w)
	assumes "strings are shorter than 2^40 bytes" len(s) <= 0x10000000000
	retains * @SLIM
	modifies @SMOD, w.$strs
	update w.$strs := old(w.$strs) + 1
	ensures skept(w) && sgood(w) && moved(w) && w.$strs == old(w.$strs) + 1
	ensures [C13] "the size and the bytes" len(w.buf) == old(len(w.buf)) + vlen(len(s)) + len(s) && ber(w, old(len(w.buf)), len(s)) && (forall k in 0 .. len(s): w.buf[len(w.buf) - len(s) + k] == s[k])

// strings written with a BER size
ghost marshal.Writer.$strs nat thread

func (s RPCReq) IWrite(w)
	props C13
	requires w != nil && sgood(w)
	assumes "strings are shorter than 2^40 bytes" len(s.Name) <= 0x10000000000
	retains * @SLIM
	modifies @TMOD, w.$strs
	ensures skept(w) && sgood(w)
	ensures [C13] "no flags, the name with its size" le(w.buf, old(len(w.buf)), 4) == 0 && ber(w, old(len(w.buf)) + 4, len(s.Name)) && (forall k in 0 .. len(s.Name): w.buf[old(len(w.buf)) + 4 + vlen(len(s.Name)) + k] == s.Name[k])
	ensures [C13] "the number of arguments that follow" le(w.buf, old(len(w.buf)) + 4 + vlen(len(s.Name)) + len(s.Name), 4) == mod2(w.$strs - old(w.$strs) - 1, 32) && w.$strs - old(w.$strs) - 1 == len(s.Args)
	calls stringvar [C13] "the arguments in order" w.$strs - old(w.$strs) >= 1 ==> arr($s) == arr(s.Args[w.$strs - old(w.$strs) - 1]) && off($s) == off(s.Args[w.$strs - old(w.$strs) - 1]) && len($s) == len(s.Args[w.$strs - old(w.$strs) - 1])
	invariant w.$strs == old(w.$strs) + 1 + $n
	invariant skept(w) && sgood(w) && moved(w) && len(w.buf) >= old(len(w.buf)) + 8 + vlen(len(s.Name)) + len(s.Name)
	invariant le(w.buf, old(len(w.buf)), 4) == 0 && ber(w, old(len(w.buf)) + 4, len(s.Name)) && (forall k in 0 .. len(s.Name): w.buf[old(len(w.buf)) + 4 + vlen(len(s.Name)) + k] == s.Name[k])
	invariant le(w.buf, old(len(w.buf)) + 4 + vlen(len(s.Name)) + len(s.Name), 4) == mod2(len(s.Args), 32)

// ---------------- tuples of structs ----------------
// how many fields a struct is written as
pred structcnt(sw, v) = if sw.Tail == 0 then len(sw.Writer.Flds) else if sw.Tail == 1 then len(sw.Writer.Flds) - 1 + refl_Len(refl_Field(v, sw.Writer.Flds[len(sw.Writer.Flds) - 1].I)) else len(sw.Writer.Flds) - 1 + refl_Len(refl_Field(v, sw.Writer.Flds[len(sw.Writer.Flds) - 1].I)) * len(sw.Writer.Flds[len(sw.Writer.Flds) - 1].TWriter.Elem.Flds)

func (sw *TWriter) structCnt(v) (n)
	props C14
	flag reflpure
	requires sw != nil && sw.Writer != nil
	assumes "a tail is the last field" sw.Tail == 0 || sw.Tail == 1 || sw.Tail == 2
	assumes "structs have fewer than 2^15 fields" len(sw.Writer.Flds) < 32768
	assumes "structs have fewer than 2^15 fields" sw.Tail == 2 ==> len(sw.Writer.Flds[len(sw.Writer.Flds) - 1].TWriter.Elem.Flds) < 32768
	assumes "a tail is a field" sw.Tail != 0 ==> len(sw.Writer.Flds) > 0
	assumes "encoders are complete" sw.Tail != 0 ==> sw.Writer.Flds[len(sw.Writer.Flds) - 1].TWriter != nil && sw.Writer.Flds[len(sw.Writer.Flds) - 1].TWriter.Elem != nil
	ensures n == structcnt(sw, v)

func (sw *TWriter) structWriter(w, v)
	props C14
	flag reflpure
	requires sw != nil && sw.Writer != nil && w != nil && sgood(w)
	assumes "a tail is the last field" sw.Tail == 0 || sw.Tail == 1 || sw.Tail == 2
	assumes "structs have fewer than 2^15 fields" len(sw.Writer.Flds) < 32768
	assumes "structs have fewer than 2^15 fields" sw.Tail == 2 ==> len(sw.Writer.Flds[len(sw.Writer.Flds) - 1].TWriter.Elem.Flds) < 32768
	assumes "a tail is a field" sw.Tail != 0 ==> len(sw.Writer.Flds) > 0
	assumes "encoders are complete" forall k in 0 .. len(sw.Writer.Flds): sw.Writer.Flds[k].TWriter != nil
	assumes "encoders are complete" sw.Tail != 0 ==> sw.Writer.Flds[len(sw.Writer.Flds) - 1].TWriter.Elem != nil
	assumes "encoders are complete" sw.Tail == 2 ==> (forall k in 0 .. len(sw.Writer.Flds[len(sw.Writer.Flds) - 1].TWriter.Elem.Flds): sw.Writer.Flds[len(sw.Writer.Flds) - 1].TWriter.Elem.Flds[k].TWriter != nil)
	retains * @SLIM
	modifies @SMOD
	ensures skept(w) && sgood(w) && moved(w) && len(w.buf) >= old(len(w.buf)) + 4
	ensures [C14] "the count written first" le(w.buf, old(len(w.buf)), 4) == mod2(structcnt(sw, v), 32)
	ensures [C14] "as many fields as the count says" w.$vals - old(w.$vals) == structcnt(sw, v)
	calls WithSize [C14] "every field has a BER size" isfn($szwr, "Intvar")
	invariant skept(w) && sgood(w) && moved(w) && len(w.buf) >= old(len(w.buf)) + 4 && le(w.buf, old(len(w.buf)), 4) == mod2(structcnt(sw, v), 32)
	invariant w.$vals == old(w.$vals) + $n
	invariant w.$vals == old(w.$vals) + len(sw.Writer.Flds) - 1 + $n
	invariant w.$vals == old(w.$vals) + len(sw.Writer.Flds) - 1 + $n * len(sw.Writer.Flds[len(sw.Writer.Flds) - 1].TWriter.Elem.Flds)
	invariant w.$vals == old(w.$vals) + len(sw.Writer.Flds) - 1 + $m * len(sw.Writer.Flds[len(sw.Writer.Flds) - 1].TWriter.Elem.Flds) + $n

// ---------------- replies ----------------
macro RMOD: r.Body, r.Err, r.$size, r.$left
pred eaten(r) = 0 <= old(len(r.Body)) - len(r.Body) && took(r, old(len(r.Body)) - len(r.Body))
pred stuckerr(r) = old(r.Err) != nil ==> r.Err != nil

// decoders of tuples are built from the type with reflection
iface (t TReader) Fixed(r, v)
	requires r != nil
	modifies @RMOD
	ensures eaten(r) && stuckerr(r)
iface (t TReader) Auto(r, v)
	requires r != nil
	modifies @RMOD
	ensures eaten(r) && stuckerr(r)

func reader(rt) (rd)
	trusted
	ensures rd != nil && rd.Auto != nil && rd.Fixed != nil

func oneFieldTuple(r, sz) (ok)
	props C15
	requires r != nil
	modifies @RMOD
	ensures eaten(r) && stuckerr(r)
	ensures [C15] "one field of that size, or an error" ok && r.Err == nil ==> old(len(r.Body)) >= 5 && old(le(r.Body, 0, 4)) >= 1 && r.$size == sz
	ensures [C15] "anything else is an error" !ok ==> r.Err != nil

func ReadSizedTuple(r, i) (err)
	props C15
	requires r != nil
	modifies @RMOD
	ensures [C15] "every error is reported" err == r.Err && stuckerr(r)
	ensures [C15] "exactly the tuple is consumed" old(r.Err) == nil && r.Err == nil ==> took(r, 8 + old(le(r.Body, 0, 4)))
	ensures [C15] "never beyond the input" eaten(r)
	calls ReadRawTuple [C15] "decoded from its own bytes" old(r.Err) == nil && arr($r.Body) == old(arr(r.Body)) && off($r.Body) == old(off(r.Body)) + 4 && len($r.Body) == old(le(r.Body, 0, 4)) + 4 && $i == i

func ReadRawTuple(r, i) (err)
	props C15
	requires r != nil
	modifies @RMOD
	ensures eaten(r) && stuckerr(r)
	ensures [C15] "every error is reported" i != nil ==> err == r.Err
	ensures [C15] "nothing to read into, nothing read" i == nil ==> err == nil && same(r) && r.Err == old(r.Err)

macro OMOD: r[0].Body, r[0].Err, r[0].$size, r[0].$left, r[1].Body, r[1].Err, r[1].$size, r[1].$left, r[0].$got

func oneTuple(r, v, rd) (err)
	props C15
	flag reflpure
	requires r != nil
	assumes "decoders are complete" rd != nil ==> rd.Auto != nil
	modifies @OMOD
	update r[0].$got := old(r[0].$got) + (if r[0].Err == nil then 1 else 0)
	ensures [C15] "every error is reported" err == r[0].Err && (old(r[0].Err) != nil ==> err != nil)
	ensures [C15] "a tuple counts when it was read" r[0].$got == old(r[0].$got) + (if err == nil then 1 else 0)
	ensures [C15] "exactly the tuple is consumed" err == nil ==> took(addr(r[0]), 8 + old(le(r[0].Body, 0, 4)))
	ensures [C15] "never beyond the input" eaten(addr(r[0]))
	ensures r[0].Err == nil ==> r[1].Err == nil
	calls TReader.Auto [C15] "decoded from its own bytes" $r == addr(r[1]) && old(r[0].Err) == nil && arr($r.Body) == old(arr(r[0].Body)) && off($r.Body) == old(off(r[0].Body)) + 4 && len($r.Body) == old(le(r[0].Body, 0, 4)) + 4

func readSlice(r, v, l) (n)
	props C15
	flag reflpure
	requires r != nil && l >= 0
	modifies @OMOD
	maypanic
	ensures [C15] "as many as were read" n == r[0].$got - old(r[0].$got) && 0 <= n && n <= l
	ensures eaten(addr(r[0])) && (old(r[0].Err) != nil ==> r[0].Err != nil)
	ensures [C15] "all that were announced, or an error" elkind(v) != 20 ==> r[0].Err == nil ==> n == l
	invariant r[0].$got == old(r[0].$got) + $n
	invariant r[0].Err == nil && eaten(addr(r[0]))

func readArray(r, v, l) (n)
	props C15
	flag reflpure
	requires r != nil && l >= 0
	modifies @OMOD
	maypanic
	ensures [C15] "as many as were read" n == r[0].$got - old(r[0].$got) && 0 <= n && n <= l
	ensures eaten(addr(r[0])) && (old(r[0].Err) != nil ==> r[0].Err != nil)
	ensures [C15] "all that fit, or an error" elkind(v) != 20 && r[0].Err == nil ==> n == (if l < refl_Len(v) then l else refl_Len(v))
	invariant r[0].$got == old(r[0].$got) + $n
	invariant old(r[0].Err) == nil ==> r[0].Err == nil
	invariant old(r[0].Err) != nil ==> r[0].Err != nil
	invariant eaten(addr(r[0]))

func readFixedArray(r, v, l) (n)
	props C15
	flag reflpure
	requires r != nil && l >= 0
	modifies @OMOD
	maypanic
	ensures [C15] "as many as were read" n == r[0].$got - old(r[0].$got) && 0 <= n && n <= l
	ensures eaten(addr(r[0])) && (old(r[0].Err) != nil ==> r[0].Err != nil)
	ensures [C15] "all that fit, or an error" elkind(v) != 20 && r[0].Err == nil ==> n == (if l < refl_Len(v) then l else refl_Len(v))
	invariant r[0].$got == old(r[0].$got) + $n
	invariant old(r[0].Err) == nil ==> r[0].Err == nil
	invariant old(r[0].Err) != nil ==> r[0].Err != nil
	invariant eaten(addr(r[0]))

func readInterfaceArray(r, v, l) (n)
	props C15
	flag reflpure
	requires r != nil && l >= 0
	modifies @OMOD
	maypanic
	ensures [C15] "as many as were read" n == r[0].$got - old(r[0].$got) && 0 <= n && n <= l
	ensures eaten(addr(r[0])) && (old(r[0].Err) != nil ==> r[0].Err != nil)
	invariant $acc == r[0].$got - old(r[0].$got) && 0 <= $acc && $acc <= l
	invariant old(r[0].Err) != nil ==> r[0].Err != nil
	invariant eaten(addr(r[0]))

func readInterface(r, v, l) (n)
	props C15
	flag reflpure
	requires r != nil && l >= 0
	modifies @OMOD
	maypanic
	ensures [C15] "as many as were read" n == r[0].$got - old(r[0].$got) && 0 <= n && n <= l
	ensures eaten(addr(r[0])) && (old(r[0].Err) != nil ==> r[0].Err != nil)

func ReadMany(b, v) (read, total, err)
	props C15
	flag reflpure
	modifies *
	maypanic
	ensures [C15] "the count announced" if len(b) >= 4 then total == le(b, 0, 4) else total == 0 && err != nil
	ensures [C15] "never more than announced" 0 <= read && read <= total
	calls readInterface [C15] "the tuples after the count" len(b) >= 4 ==> arr($r[0].Body) == arr(b) && off($r[0].Body) == off(b) + 4 && len($r[0].Body) == len(b) - 4 && $l == le(b, 0, 4)

func ReadFirst(b, v) (read, total, err)
	props C15
	flag reflpure
	modifies *
	maypanic
	ensures [C15] "the count announced" if len(b) >= 4 then total == le(b, 0, 4) else total == 0 && err != nil
	ensures [C15] "something was read only when announced" read ==> total > 0
	calls ReadRawTuple [C15] "decoded from its own bytes" arr($r.Body) == arr(b) && off($r.Body) == off(b) + 8 && len($r.Body) == old(le(b, 4, 4)) + 4 && $i == v

// ---- decoders of tuples: from their own bytes only, errors stay ----
macro DMOD: r.Body, r.Err, r.$size, r.$left, allof("marshal.TReader.$sized")

func (t *TReader) sliceFixed(r, v)
	props C15
	flag reflpure
	requires t != nil && r != nil
	assumes "decoders are complete" t.Reader != nil && t.Reader.Elem != nil && t.Reader.Elem.Fixed != nil && t.Reader.Elem.Tail != nil
	modifies @DMOD
	maypanic
	ensures [C15] "from its own bytes only, errors stay" eaten(r) && stuckerr(r)
	ensures [C15] "too few fields is an error" r.Err == nil ==> old(len(r.Body)) >= 4 && old(le(r.Body, 0, 4)) >= refl_Len(v) || refl_Len(v) == 0
	calls WithSize [C15] "every field has a BER size" isfn($szrd, "Intvar") && $r == r
	invariant eaten(r) && stuckerr(r)

func (t *TReader) sliceAuto(r, v)
	props C15
	requires t != nil && r != nil
	assumes "decoders are complete" t.Reader != nil && t.Reader.Elem != nil && t.Reader.Elem.Fixed != nil && t.Reader.Elem.Tail != nil
	modifies @DMOD
	maypanic
	ensures [C15] "from its own bytes only, errors stay" eaten(r) && stuckerr(r)
	ensures [C15] "more fields than bytes is an error" old(len(r.Body)) >= 4 && old(le(r.Body, 0, 4)) > old(len(r.Body)) - 4 ==> r.Err != nil
	calls WithSize [C15] "every field has a BER size" isfn($szrd, "Intvar") && $r == r
	invariant eaten(r) && stuckerr(r)

func (t *TReader) fixedFixed(r, v)
	props C15
	requires t != nil && r != nil
	assumes "decoders are complete" t.Reader != nil && t.Reader.Fixed != nil
	modifies @DMOD
	maypanic
	ensures [C15] "from its own bytes only, errors stay" eaten(r) && stuckerr(r)
	calls Fixed [C15] "only a field of the right size" r.Err == nil ==> old(len(r.Body)) >= 5 && old(le(r.Body, 0, 4)) >= 1 && r.$size == t.Reader.Sz

func (t *TReader) string(r, v)
	props C15
	requires t != nil && r != nil
	modifies @DMOD
	maypanic
	ensures [C15] "from its own bytes only, errors stay" eaten(r) && stuckerr(r)
	ensures [C15] "no field is an error" r.Err == nil ==> old(len(r.Body)) >= 5 && old(le(r.Body, 0, 4)) >= 1

func (t *TReader) bytesFixed(r, v)
	props C15
	requires t != nil && r != nil
	assumes "decoders are complete" t.Reader != nil && t.Reader.Fixed != nil
	modifies @DMOD
	maypanic
	ensures [C15] "from its own bytes only, errors stay" eaten(r) && stuckerr(r)

func (t *TReader) bytesAuto(r, v)
	props C15
	requires t != nil && r != nil
	assumes "decoders are complete" t.Reader != nil && t.Reader.Fixed != nil && t.Reader.Tail != nil
	modifies @DMOD
	maypanic
	ensures [C15] "from its own bytes only, errors stay" eaten(r) && stuckerr(r)
	calls WithSize [C15] "every field has a BER size" isfn($szrd, "Intvar") && $r == r

func (sw *TReader) structFixed(r, v)
	props C15
	requires sw != nil && r != nil && sw.Reader != nil
	modifies @DMOD
	maypanic
	ensures [C15] "from its own bytes only, errors stay" eaten(r) && stuckerr(r)

func (sw *TReader) structAuto(r, v)
	props C15
	requires sw != nil && r != nil && sw.Reader != nil
	assumes "a tail is the last field" sw.Tail == 0 || sw.Tail == 1 || sw.Tail == 2
	assumes "a tail is a field" sw.Tail != 0 ==> len(sw.Reader.Flds) > 0
	assumes "structs have fewer than 2^15 fields" len(sw.Reader.Flds) < 32768
	assumes "decoders are complete" sw.Tail != 0 ==> sw.Reader.Flds[len(sw.Reader.Flds) - 1].TReader != nil && sw.Reader.Flds[len(sw.Reader.Flds) - 1].TReader.Elem != nil
	modifies @DMOD
	maypanic
	ensures [C15] "from its own bytes only, errors stay" eaten(r) && stuckerr(r)
	ensures [C15] "more fields than bytes is an error" refl_CanSet(v) ==> old(len(r.Body)) >= 4 && old(le(r.Body, 0, 4)) > old(len(r.Body)) - 4 ==> r.Err != nil
	calls SetCount [C15] "as many elements as there are fields for" $cnt >= 0 && $cnt <= old(le(r.Body, 0, 4))

func (sw *TReader) structRead(r, k, v)
	props C15
	requires sw != nil && r != nil && sw.Reader != nil && k >= 0
	assumes "a tail is the last field" sw.Tail == 0 || sw.Tail == 1 || sw.Tail == 2
	assumes "a tail is a field" sw.Tail != 0 ==> len(sw.Reader.Flds) > 0
	assumes "structs have fewer than 2^15 fields" len(sw.Reader.Flds) < 32768
	assumes "decoders are complete" forall j in 0 .. len(sw.Reader.Flds): sw.Reader.Flds[j].TReader != nil && sw.Reader.Flds[j].TReader.Fixed != nil && sw.Reader.Flds[j].TReader.Tail != nil
	assumes "decoders are complete" sw.Tail != 0 ==> sw.Reader.Flds[len(sw.Reader.Flds) - 1].TReader.Elem != nil && sw.Reader.Flds[len(sw.Reader.Flds) - 1].TReader.Elem.Fixed != nil && sw.Reader.Flds[len(sw.Reader.Flds) - 1].TReader.Elem.Tail != nil
	assumes "decoders are complete" sw.Tail == 2 ==> (forall j in 0 .. len(sw.Reader.Flds[len(sw.Reader.Flds) - 1].TReader.Elem.Flds): sw.Reader.Flds[len(sw.Reader.Flds) - 1].TReader.Elem.Flds[j].TReader != nil && sw.Reader.Flds[len(sw.Reader.Flds) - 1].TReader.Elem.Flds[j].TReader.Fixed != nil && sw.Reader.Flds[len(sw.Reader.Flds) - 1].TReader.Elem.Flds[j].TReader.Tail != nil)
	modifies @DMOD
	maypanic
	ensures [C15] "from its own bytes only, errors stay" eaten(r) && stuckerr(r)
	calls WithSize [C15] "every field has a BER size" isfn($szrd, "Intvar") && $r == r
	invariant eaten(r) && stuckerr(r)

package github.com/funny-falcon/go-iproto/marshal
func (t *TReader) SetCount(v, cnt) (err)
	trusted maypanic
	requires cnt >= 0
	ensures true
