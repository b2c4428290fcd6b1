package sbox

//verif:pkg sbox

// Concrete drivers for box requests, tuples and replies (C13, C14, C15) against a reference
// encoder written from the description of the format.

import (
	"encoding/binary"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"

	"github.com/funny-falcon/go-iproto/marshal"
)

func init() { log.SetOutput(ioutil.Discard) }

func vseed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func vn(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}
func vfail(t *testing.T, key, f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	fmt.Printf("\nVERIF-FAIL [%s] %s\n", key, s)
	t.FailNow()
}
func vdone(name string, n int) { fmt.Printf("\nVERIF-CASES %s %d\n", name, n) }

// ---------- the reference ----------
func u32(n int) []byte {
	b := make([]byte, 4)
	binary.LittleEndian.PutUint32(b, uint32(n))
	return b
}

func ber(n int) (b []byte) {
	b = []byte{byte(n & 127)}
	for n >>= 7; n > 0; n >>= 7 {
		b = append([]byte{byte(n&127) | 128}, b...)
	}
	return
}

func cat(bs ...[]byte) (r []byte) {
	for _, b := range bs {
		r = append(r, b...)
	}
	return
}

// the bare encoding of a value, or the one that tells its length where it has one
func enc(v reflect.Value, auto bool) []byte {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return enc(v.Elem(), auto)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b := make([]byte, 8)
		binary.LittleEndian.PutUint64(b, uint64(v.Int()))
		return b[:v.Type().Size()]
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b := make([]byte, 8)
		binary.LittleEndian.PutUint64(b, v.Uint())
		return b[:v.Type().Size()]
	case reflect.Float32:
		return u32(int(math.Float32bits(float32(v.Float()))))
	case reflect.Float64:
		b := make([]byte, 8)
		binary.LittleEndian.PutUint64(b, math.Float64bits(v.Float()))
		return b
	case reflect.String:
		if auto {
			return cat(u32(v.Len()), []byte(v.String()))
		}
		return []byte(v.String())
	case reflect.Slice, reflect.Array:
		var r []byte
		if auto && v.Kind() == reflect.Slice {
			r = u32(v.Len())
		}
		for i := 0; i < v.Len(); i++ {
			r = append(r, enc(v.Index(i), true)...)
		}
		return r
	case reflect.Struct:
		var r []byte
		for i := 0; i < v.NumField(); i++ {
			r = append(r, enc(v.Field(i), true)...)
		}
		return r
	}
	panic("enc " + v.Type().String())
}

func field(v reflect.Value) []byte {
	b := enc(v, false)
	return cat(ber(len(b)), b)
}

// the fields of a tuple
func fields(v reflect.Value) (fs [][]byte) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return fields(v.Elem())
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return [][]byte{field(v)}
		}
		for i := 0; i < v.Len(); i++ {
			fs = append(fs, field(v.Index(i)))
		}
		return
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			sf := v.Type().Field(i)
			if sf.PkgPath != "" || sf.Tag.Get("iproto") == "skip" {
				continue
			}
			f := v.Field(i)
			switch sf.Tag.Get("sbox") {
			case "tail":
				for j := 0; j < f.Len(); j++ {
					fs = append(fs, field(f.Index(j)))
				}
			case "tailsplit":
				for j := 0; j < f.Len(); j++ {
					fs = append(fs, fields(f.Index(j))...)
				}
			default:
				fs = append(fs, field(f))
			}
		}
		return
	}
	return [][]byte{field(v)}
}

func tuple(i interface{}) []byte {
	if i == nil {
		return u32(0)
	}
	fs := fields(reflect.ValueOf(i))
	return cat(u32(len(fs)), cat(fs...))
}

func written(f func(w *marshal.Writer)) (b []byte, p interface{}) {
	defer func() { p = recover() }()
	w := &marshal.Writer{DefSize: 16}
	w.Uint8(77)
	f(w)
	b = w.Written()
	if len(b) == 0 || b[0] != 77 {
		panic("earlier output changed")
	}
	return b[1:], nil
}

// ---------- random types and values ----------
var scalars = []interface{}{int8(0), uint8(0), int16(0), uint16(0), int32(0), uint32(0), int64(0), uint64(0), float32(0), float64(0)}

func rlen(rnd *rand.Rand, small bool) int {
	switch {
	case small || rnd.Intn(10) < 7:
		return rnd.Intn(6)
	case rnd.Intn(40) == 0:
		return 16382 + rnd.Intn(4)
	}
	return 126 + rnd.Intn(4)
}

type named uint32
type namedBytes []byte
type keylist []interface{}
type pair struct {
	A uint16
	B string
}
type trip struct {
	A   uint32
	hid int
	B   []byte
	C   int8
}
type withSkip struct {
	A uint32
	S uint64 `iproto:"skip"`
	B uint16
}

func rtype(rnd *rand.Rand, d int) reflect.Type {
	switch k := rnd.Intn(16); {
	case k < 6:
		return reflect.TypeOf(scalars[rnd.Intn(len(scalars))])
	case k == 6:
		return reflect.TypeOf(named(0))
	case k < 9:
		return reflect.TypeOf("")
	case k < 11:
		return reflect.TypeOf([]byte(nil))
	case d == 0:
		return reflect.TypeOf(uint32(0))
	case k == 11:
		return reflect.SliceOf(rtype(rnd, d-1))
	case k == 12:
		return reflect.ArrayOf(rnd.Intn(4)+1, rtype(rnd, d-1))
	case k == 13:
		return reflect.PtrTo(rtype(rnd, 0))
	case k == 14:
		return []reflect.Type{reflect.TypeOf(pair{}), reflect.TypeOf(struct {
			X int8
			Y uint64
		}{})}[rnd.Intn(2)]
	}
	return rstruct(rnd, d-1, false)
}

func rstruct(rnd *rand.Rand, d int, tail bool) reflect.Type {
	n := 1 + rnd.Intn(4)
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		fs = append(fs, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: rtype(rnd, d)})
	}
	if tail {
		switch rnd.Intn(3) {
		case 0:
			fs = append(fs, reflect.StructField{Name: "Tail", Type: reflect.SliceOf(rtype(rnd, 0)), Tag: `sbox:"tail"`})
		case 1:
			fs = append(fs, reflect.StructField{Name: "Tail", Type: reflect.SliceOf(rstruct(rnd, 0, false)), Tag: `sbox:"tailsplit"`})
		}
		if rnd.Intn(4) == 0 { // fields that do not count stand between
			fs = append([]reflect.StructField{{Name: "Skipped", Type: reflect.TypeOf(uint16(0)), Tag: `iproto:"skip"`}}, fs...)
		}
	}
	return reflect.StructOf(fs)
}

func rvalue(rnd *rand.Rand, v reflect.Value, small bool) {
	switch v.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(rnd.Uint64()))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(rnd.Uint64())
	case reflect.Float32:
		v.SetFloat(float64(float32(rnd.NormFloat64())))
	case reflect.Float64:
		v.SetFloat(rnd.NormFloat64())
	case reflect.String:
		b := make([]byte, rlen(rnd, small))
		rnd.Read(b)
		v.SetString(string(b))
	case reflect.Slice:
		n := rlen(rnd, small || v.Type().Elem().Kind() != reflect.Uint8)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			rvalue(rnd, v.Index(i), small || n > 10)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			rvalue(rnd, v.Index(i), small)
		}
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		rvalue(rnd, v.Elem(), small)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				rvalue(rnd, v.Field(i), small)
			}
		}
	}
}

// a value that can be a tuple
func rtuple(rnd *rand.Rand) interface{} {
	var rt reflect.Type
	switch rnd.Intn(8) {
	case 0, 1:
		rt = rstruct(rnd, 1, true)
	case 2:
		rt = []reflect.Type{reflect.TypeOf(pair{}), reflect.TypeOf(trip{}), reflect.TypeOf(withSkip{}), reflect.TypeOf(namedBytes(nil))}[rnd.Intn(4)]
	case 3:
		n := rnd.Intn(5)
		l := make([]interface{}, n)
		for i := range l {
			if rnd.Intn(6) > 0 {
				v := reflect.New(rtype(rnd, 1)).Elem()
				rvalue(rnd, v, false)
				l[i] = v.Interface()
			}
		}
		return l
	case 4:
		if rnd.Intn(3) == 0 {
			return nil
		}
		rt = reflect.PtrTo(rstruct(rnd, 0, false))
	default:
		rt = rtype(rnd, 2)
	}
	v := reflect.New(rt).Elem()
	rvalue(rnd, v, false)
	return v.Interface()
}

func same(a, b []byte) bool { return string(a) == string(b) }

func TestStandin_C14_tuples(t *testing.T) {
	rnd := rand.New(rand.NewSource(vseed()*7919 + 14))
	n := 0
	for ; n < vn(12000); n++ {
		x := rtuple(rnd)
		got, p := written(func(w *marshal.Writer) { WriteTuple(w, x) })
		want := tuple(x)
		if p != nil || !same(got, want) {
			vfail(t, "C14-tuple", "tuple %T %+v: wrote [% x] (%v), wanted [% x]", x, x, got, p, want)
		}
	}
	vdone("C14-tuples", n)
}

// ---------- requests ----------
func rkey(rnd *rand.Rand) interface{} {
	switch rnd.Intn(5) {
	case 0:
		v := reflect.New(reflect.TypeOf(scalars[rnd.Intn(len(scalars))])).Elem()
		rvalue(rnd, v, false)
		return v.Interface()
	case 1:
		return "key" + strconv.Itoa(rnd.Intn(1000))
	case 2:
		return []byte{1, 2, byte(rnd.Intn(256))}
	case 3:
		return pair{uint16(rnd.Intn(70000)), "x"}
	}
	return []interface{}{uint32(rnd.Intn(100)), "a"}
}

func rkeys(rnd *rand.Rand) (keys interface{}, want [][]byte) {
	n := rnd.Intn(5)
	list := func(v interface{}) (interface{}, [][]byte) {
		rv := reflect.ValueOf(v)
		for i := 0; i < rv.Len(); i++ {
			want = append(want, tuple(rv.Index(i).Interface()))
		}
		return v, want
	}
	types := []interface{}{[]uint32{}, []int32{}, []uint64{}, []int64{}, []float32{}, []float64{}, []string{}, [][]byte{}, [][][]byte{},
		[]uint16{}, []int16{}, []int8{}, []pair{}, []trip{}, []*pair{}, [][2]uint32{}, [][]uint32{}, []named{}, [][]string{}, []withSkip{}}
	switch k := rnd.Intn(6); k {
	case 0:
		x := rkey(rnd)
		if l, ok := x.([]interface{}); ok {
			return list(l)
		}
		if rnd.Intn(4) == 0 {
			p := reflect.New(reflect.TypeOf(x))
			p.Elem().Set(reflect.ValueOf(x))
			return p.Interface(), [][]byte{tuple(x)}
		}
		return x, [][]byte{tuple(x)}
	case 1:
		l := make([]interface{}, n)
		for i := range l {
			if rnd.Intn(6) > 0 {
				l[i] = rkey(rnd)
			}
		}
		switch rnd.Intn(4) {
		case 0:
			return list(keylist(l))
		case 1:
			p := keylist(l)
			list(p)
			return &p, want
		case 2:
			a := [3]interface{}{rkey(rnd), nil, rkey(rnd)}
			return list(a)
		}
		return list(l)
	case 2:
		v := reflect.New(reflect.ArrayOf(n+1, reflect.TypeOf(types[rnd.Intn(len(types))]).Elem())).Elem()
		rvalue(rnd, v, true)
		return list(v.Interface())
	}
	rt := reflect.TypeOf(types[rnd.Intn(len(types))])
	v := reflect.MakeSlice(rt, n, n)
	for i := 0; i < n; i++ {
		rvalue(rnd, v.Index(i), true)
	}
	return list(v.Interface())
}

func ropval(rnd *rand.Rand) (interface{}, []byte) {
	switch rnd.Intn(9) {
	case 0:
		v := rnd.Uint32()
		return v, field(reflect.ValueOf(v))
	case 1:
		v := int32(rnd.Uint32())
		return v, field(reflect.ValueOf(v))
	case 2:
		v := rnd.Uint64()
		return v, field(reflect.ValueOf(v))
	case 3:
		v := int64(rnd.Uint64())
		return v, field(reflect.ValueOf(v))
	case 4:
		v := make([]byte, rlen(rnd, false))
		rnd.Read(v)
		return v, field(reflect.ValueOf(v))
	case 5:
		v := string(make([]byte, rlen(rnd, false)))
		return v, field(reflect.ValueOf(v))
	case 6:
		return nil, []byte{0}
	case 7:
		s := Slice{int32(rnd.Intn(100)), int32(rnd.Intn(100)), "abc"}
		b := cat([]byte{4}, u32(int(s.Offset)), []byte{4}, u32(int(s.Length)), []byte{3}, []byte("abc"))
		return s, cat(ber(len(b)), b)
	}
	v := uint16(rnd.Intn(65536))
	return v, field(reflect.ValueOf(v))
}

func TestStandin_C13_requests(t *testing.T) {
	rnd := rand.New(rand.NewSource(vseed()*104729 + 13))
	n := 0
	one := func(what string, x marshal.IShortWriter, msg, wantMsg uint32, want []byte) {
		n++
		got, p := written(func(w *marshal.Writer) { w.Write(x) })
		if p != nil || !same(got, want) {
			vfail(t, "C13-"+what, "%T %+v: wrote [% x] (%v), wanted [% x]", x, x, got, p, want)
		}
		if msg != wantMsg {
			vfail(t, "C13-"+what, "%T: request type %d, wanted %d", x, msg, wantMsg)
		}
	}
	flag := map[bool]int{false: 0, true: 1}
	codes := map[OpKind]byte{OpSet: 0, OpAdd: 1, OpAnd: 2, OpOr: 3, OpXor: 4, OpSplice: 5, OpDelete: 6, OpInsert: 7, 0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7}
	var kinds []OpKind
	for i := 0; i < 256; i++ {
		if _, ok := codes[OpKind(i)]; ok {
			kinds = append(kinds, OpKind(i))
		}
	}
	for i := 0; i < vn(4000); i++ {
		keys, wk := rkeys(rnd)
		s := SelectReq{Space: rnd.Uint32(), Index: rnd.Uint32(), Offset: rnd.Uint32(), Keys: keys}
		lim := 0
		switch rnd.Intn(5) {
		case 0:
			s.Limit, lim = SelectAll, 1<<31-1
		case 1:
			s.Limit, lim = SelectN, len(wk)
		case 2:
			s.Limit, lim = 0, 0
		case 3:
			s.Limit, lim = math.MaxInt32, math.MaxInt32
		default:
			lim = rnd.Intn(1000)
			s.Limit = int32(lim)
		}
		if c := CountKeys(keys); c != len(wk) {
			vfail(t, "C13-select", "%T %+v: counted %d keys, wanted %d", keys, keys, c, len(wk))
		}
		one("select", s, uint32(s.IMsg()), 17, cat(u32(int(s.Space)), u32(int(s.Index)), u32(int(s.Offset)), u32(lim), u32(len(wk)), cat(wk...)))

		x := rtuple(rnd)
		st := StoreReq{Space: rnd.Uint32(), Return: rnd.Intn(2) == 0, Mode: uint16(rnd.Intn(3)), Tuple: x}
		if rnd.Intn(8) == 0 {
			st.Mode = uint16(rnd.Uint32())
		}
		one("store", st, uint32(st.IMsg()), 13, cat(u32(int(st.Space)), u32(flag[st.Return]|int(st.Mode)*2), tuple(x)))

		k := rkey(rnd)
		de := DeleteReq{Space: rnd.Uint32(), Return: rnd.Intn(2) == 0, Key: k}
		one("delete", de, uint32(de.IMsg()), 21, cat(u32(int(de.Space)), u32(flag[de.Return]), tuple(k)))

		up := UpdateReq{Space: rnd.Uint32(), Return: rnd.Intn(2) == 0, Key: k}
		var ops []byte
		for j := rnd.Intn(4); j > 0; j-- {
			v, wv := ropval(rnd)
			o := Op{Field: rnd.Uint32(), Op: kinds[rnd.Intn(len(kinds))], Val: v}
			up.Ops = append(up.Ops, o)
			ops = cat(ops, u32(int(o.Field)), []byte{codes[o.Op]}, wv)
		}
		one("update", up, uint32(up.IMsg()), 19, cat(u32(int(up.Space)), u32(flag[up.Return]), tuple(k), u32(len(up.Ops)), ops))

		rp := RPCReq{Name: string(make([]byte, rlen(rnd, false)))}
		var args []byte
		for j := rnd.Intn(4); j > 0; j-- {
			a := string(make([]byte, rlen(rnd, false)))
			rp.Args = append(rp.Args, a)
			args = cat(args, ber(len(a)), []byte(a))
		}
		one("rpc", rp, uint32(rp.IMsg()), 22, cat(u32(0), ber(len(rp.Name)), []byte(rp.Name), u32(len(rp.Args)), args))
	}
	vdone("C13-requests", n)
}

// ---------- replies ----------
func noPanic(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// types of tuples that can be read back
func rreadable(rnd *rand.Rand) reflect.Type {
	switch rnd.Intn(7) {
	case 0:
		return reflect.TypeOf(scalars[rnd.Intn(len(scalars))])
	case 1:
		return reflect.TypeOf("")
	case 2:
		return reflect.SliceOf([]reflect.Type{reflect.TypeOf(uint32(0)), reflect.TypeOf(""), reflect.TypeOf(int64(0)), reflect.TypeOf([]byte(nil)).Elem()}[rnd.Intn(4)])
	case 3:
		return reflect.TypeOf(trip{})
	case 4:
		return reflect.TypeOf(&pair{})
	}
	return rstruct(rnd, 0, rnd.Intn(2) == 0)
}

func reply(vs []reflect.Value) []byte {
	b := u32(len(vs))
	for _, v := range vs {
		x := tuple(v.Interface())
		b = cat(b, u32(len(x)-4), x)
	}
	return b
}

func equal(a, b reflect.Value) bool { return same(tuple(a.Interface()), tuple(b.Interface())) }

func TestStandin_C15_replies(t *testing.T) {
	rnd := rand.New(rand.NewSource(vseed()*15485863 + 15))
	n := 0
	for ; n < vn(2500); n++ {
		rt := rreadable(rnd)
		k := rnd.Intn(5)
		vs := make([]reflect.Value, k)
		for i := range vs {
			vs[i] = reflect.New(rt).Elem()
			rvalue(rnd, vs[i], rnd.Intn(3) > 0)
		}
		b := reply(vs)
		what := fmt.Sprintf("%d tuples of %v: [% x]", k, rt, b)

		// as many as there are, into a slice
		many := func(b []byte) (dst reflect.Value, read, total int, err error, p interface{}) {
			p = noPanic(func() {
				d := reflect.New(reflect.SliceOf(rt))
				dst = d.Elem()
				read, total, err = ReadMany(b, d.Interface())
			})
			return
		}
		isList := (rt.Kind() == reflect.Slice && rt.Elem().Kind() == reflect.Struct) || rt.Kind() == reflect.Interface
		if !isList {
			dst, read, total, err, p := many(b)
			if p != nil || err != nil || read != k || total != k || dst.Len() != k {
				vfail(t, "C15-many", "%s: read %d of %d, %v, panic %v", what, read, total, err, p)
			}
			for i := range vs {
				if !equal(vs[i], dst.Index(i)) {
					vfail(t, "C15-many", "%s: tuple %d is %+v", what, i, dst.Index(i).Interface())
				}
			}
			// an array takes what fits
			al := rnd.Intn(6)
			arr := reflect.New(reflect.ArrayOf(al, rt))
			p = noPanic(func() { read, total, err = ReadMany(b, arr.Interface()) })
			want := k
			if al < k {
				want = al
			}
			if p != nil || err != nil || read != want || total != k {
				vfail(t, "C15-many", "%s into an array of %d: read %d of %d, %v, panic %v", what, al, read, total, err, p)
			}
			// any destinations
			var list []interface{}
			for i := 0; i < al; i++ {
				list = append(list, reflect.New(rt).Interface())
			}
			if rt.Kind() != reflect.Slice && rt.Kind() != reflect.Array {
				p = noPanic(func() { read, total, err = ReadMany(b, list) })
				if p != nil || err != nil || read != want || total != k {
					vfail(t, "C15-many", "%s into a list of %d: read %d of %d, %v, panic %v", what, al, read, total, err, p)
				}
				for i := 0; i < want; i++ {
					if !equal(vs[i], reflect.ValueOf(list[i]).Elem()) {
						vfail(t, "C15-many", "%s: tuple %d in the list is %+v", what, i, reflect.ValueOf(list[i]).Elem().Interface())
					}
				}
			}
		}
		// the first
		first := reflect.New(rt)
		var ok bool
		var total int
		var err error
		p := noPanic(func() { ok, total, err = ReadFirst(b, first.Interface()) })
		if p != nil || err != nil || ok != (k > 0) || total != k || k > 0 && !equal(vs[0], first.Elem()) {
			vfail(t, "C15-first", "%s: the first is %+v (%v of %d), %v, panic %v", what, first.Elem().Interface(), ok, total, err, p)
		}
		if k > 0 {
			x := tuple(vs[0].Interface())
			r := marshal.Reader{Body: cat(u32(len(x)-4), x, []byte{1, 2, 3})}
			d := reflect.New(rt)
			p := noPanic(func() { err = ReadSizedTuple(&r, d.Interface()) })
			if p != nil || err != nil || len(r.Body) != 3 || !equal(vs[0], d.Elem()) {
				vfail(t, "C15-sized", "%s: the first alone is %+v, %v, panic %v, %d bytes left", what, d.Elem().Interface(), err, p, len(r.Body))
			}
		}
		// cut off
		for c := 0; c < len(b); c += 1 + len(b)/40 {
			cut := append([]byte(nil), b[:c]...)
			if !isList {
				_, read, total, err, p := many(cut[:c:c])
				if p != nil || err == nil || read > k || c >= 4 && total != k {
					vfail(t, "C15-cut", "%s cut at %d: read %d of %d, %v, panic %v", what, c, read, total, err, p)
				}
			}
			d := reflect.New(rt)
			var ok bool
			p := noPanic(func() { ok, _, err = ReadFirst(cut[:c:c], d.Interface()) })
			end := 4
			if k > 0 {
				end = 8 + len(tuple(vs[0].Interface()))
			}
			if p != nil || (c < end) != (err != nil) || ok && err != nil && c < end {
				vfail(t, "C15-cut", "%s cut at %d: the first: %v, %v, panic %v", what, c, ok, err, p)
			}
		}
		// a tuple that tells a wrong length or count
		for m := 0; m < 30 && len(b) > 4; m++ {
			bad := append([]byte(nil), b...)
			for j := 1 + rnd.Intn(3); j > 0; j-- {
				at := rnd.Intn(len(bad))
				if rnd.Intn(2) == 0 && k > 0 {
					at = rnd.Intn(13)
				}
				if at >= len(bad) {
					at = 0
				}
				bad[at] = []byte{0, 1, 127, 128, 255, byte(rnd.Intn(256))}[rnd.Intn(6)]
			}
			bad[3] = 0 // fewer than 2^24 tuples
			if !isList {
				_, read, total, err, p := many(bad)
				if p != nil || total != int(binary.LittleEndian.Uint32(bad)) || err == nil && read != total || read > total {
					vfail(t, "C15-bad", "%s made [% x]: read %d of %d, %v, panic %v", what, bad, read, total, err, p)
				}
			}
			if p := noPanic(func() { ReadFirst(bad, reflect.New(rt).Interface()) }); p != nil {
				vfail(t, "C15-bad", "%s made [% x]: panic %v", what, bad, p)
			}
			if p := noPanic(func() { r := marshal.Reader{Body: bad[4:]}; ReadSizedTuple(&r, reflect.New(rt).Interface()) }); p != nil {
				vfail(t, "C15-bad", "%s made [% x]: panic %v", what, bad, p)
			}
			fx := reflect.New(rt).Elem()
			rvalue(rnd, fx, true)
			if p := noPanic(func() { r := marshal.Reader{Body: bad[4:]}; ReadSizedTuple(&r, fx.Interface()) }); p != nil && rt.Kind() != reflect.Struct && rt.Kind() != reflect.String && rt.Size() > 8 {
				vfail(t, "C15-bad", "%s made [% x], into a fixed value: panic %v", what, bad, p)
			}
		}
	}
	// a tuple is decoded from its own bytes: a field that is longer than its tuple is an error
	two := cat(u32(2), u32(2), u32(1), []byte{2}, []byte{7}, u32(3), u32(1), []byte{2, 8, 9})
	var ss []string
	if read, _, err := ReadMany(two, &ss); err == nil || read > 0 {
		vfail(t, "C15-own", "[% x]: a field longer than its tuple is read: %q %v", two, ss, err)
	}
	vdone("C15-replies", n)
}
