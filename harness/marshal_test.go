package marshal_test

//verif:pkg marshal

// Concrete drivers for the marshal properties: independent oracles over seeded random
// inputs. They look for a failing input when a proof obligation fails.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"

	. "github.com/funny-falcon/go-iproto/marshal"
)

var vcases = map[string]int{}

func vseed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func vn(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}
func vfail(t *testing.T, key, f string, a ...interface{}) {
	fmt.Printf("\nVERIF-FAIL [%s] %s\n", key, fmt.Sprintf(f, a...))
	t.FailNow()
}
func vdone(name string, n int) { fmt.Printf("\nVERIF-CASES %s %d\n", name, n) }

// vguard turns a panic of the code under test into a failure
func vguard(t *testing.T, key, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			vfail(t, key, "%s panics: %v", what, r)
		}
	}()
	f()
}

var edges = []uint64{0, 1, 2, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x3fff, 0x4000, 0x4001, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64}

func vword(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return edges[r.Intn(len(edges))]
	case 1:
		return uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1
	case 2:
		return r.Uint64() >> uint(r.Intn(64))
	}
	return r.Uint64()
}
func vbytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func vle(w int, v uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, v)
	return b[:w]
}

type scalar struct {
	name string
	w    int
	wr   func(*Writer, uint64)
	rd   func(*Reader) uint64
	mask uint64
}

var scalars = []scalar{
	{"Uint8", 1, func(w *Writer, v uint64) { w.Uint8(uint8(v)) }, func(r *Reader) uint64 { return uint64(r.Uint8()) }, 0xff},
	{"Int8", 1, func(w *Writer, v uint64) { w.Int8(int8(v)) }, func(r *Reader) uint64 { return uint64(r.Int8()) & 0xff }, 0xff},
	{"Uint16", 2, func(w *Writer, v uint64) { w.Uint16(uint16(v)) }, func(r *Reader) uint64 { return uint64(r.Uint16()) }, 0xffff},
	{"Int16", 2, func(w *Writer, v uint64) { w.Int16(int16(v)) }, func(r *Reader) uint64 { return uint64(r.Int16()) & 0xffff }, 0xffff},
	{"Uint32", 4, func(w *Writer, v uint64) { w.Uint32(uint32(v)) }, func(r *Reader) uint64 { return uint64(r.Uint32()) }, 0xffffffff},
	{"Int32", 4, func(w *Writer, v uint64) { w.Int32(int32(v)) }, func(r *Reader) uint64 { return uint64(r.Int32()) & 0xffffffff }, 0xffffffff},
	{"Uint64", 8, func(w *Writer, v uint64) { w.Uint64(v) }, func(r *Reader) uint64 { return r.Uint64() }, math.MaxUint64},
	{"Int64", 8, func(w *Writer, v uint64) { w.Int64(int64(v)) }, func(r *Reader) uint64 { return uint64(r.Int64()) }, math.MaxUint64},
	{"Float32", 4, func(w *Writer, v uint64) { w.Float32(math.Float32frombits(uint32(v))) }, func(r *Reader) uint64 { return uint64(math.Float32bits(r.Float32())) }, 0xffffffff},
	{"Float64", 8, func(w *Writer, v uint64) { w.Float64(math.Float64frombits(v)) }, func(r *Reader) uint64 { return math.Float64bits(r.Float64()) }, math.MaxUint64},
	{"IntUint8", 1, func(w *Writer, v uint64) { w.IntUint8(int(v)) }, func(r *Reader) uint64 { return uint64(r.IntUint8()) }, 0xff},
	{"IntUint16", 2, func(w *Writer, v uint64) { w.IntUint16(int(v)) }, func(r *Reader) uint64 { return uint64(r.IntUint16()) }, 0xffff},
	{"IntUint32", 4, func(w *Writer, v uint64) { w.IntUint32(int(v)) }, func(r *Reader) uint64 { return uint64(r.IntUint32()) }, 0xffffffff},
	{"IntUint64", 8, func(w *Writer, v uint64) { w.IntUint64(int(v)) }, func(r *Reader) uint64 { return uint64(r.IntUint64()) }, math.MaxUint64},
}

func newWriter(r *rand.Rand) (*Writer, []byte) {
	w := &Writer{}
	if r.Intn(3) == 0 {
		w.DefSize = r.Intn(200)
	}
	pre := vbytes(r, r.Intn(70))
	w.Bytes(pre)
	return w, pre
}

func TestReplay_C06(t *testing.T) {
	r := rand.New(rand.NewSource(vseed()))
	n := vn(20000)
	for i := 0; i < n; i++ {
		s := scalars[r.Intn(len(scalars))]
		v := vword(r)
		w, pre := newWriter(r)
		vguard(t, "write "+s.name, fmt.Sprintf("%s(%#x)", s.name, v), func() { s.wr(w, v) })
		out := w.Written()
		want := append(append([]byte{}, pre...), vle(s.w, v)...)
		if !bytes.Equal(out, want) {
			vfail(t, "write "+s.name, "after writing % x, %s(%#x) gives % x, want % x", pre, s.name, v, out, want)
		}
		rest := vbytes(r, r.Intn(12))
		in := append(append([]byte{}, vle(s.w, v)...), rest...)
		rd := &Reader{Body: in}
		var got uint64
		vguard(t, "read "+s.name, fmt.Sprintf("reading %s from % x", s.name, in), func() { got = s.rd(rd) })
		if rd.Err != nil || got != v&s.mask || !bytes.Equal(rd.Body, rest) {
			vfail(t, "read "+s.name, "reading %s from % x gives %#x, error %v, rest % x", s.name, in, got, rd.Err, rd.Body)
		}
	}
	vdone("C06", n)
}

func vber(v uint64) []byte {
	var b []byte
	b = append(b, byte(v&0x7f))
	for v >>= 7; v != 0; v >>= 7 {
		b = append([]byte{0x80 | byte(v&0x7f)}, b...)
	}
	return b
}

// vunber: value, consumed, ok
func vunber(b []byte) (v *big.Int, n int, ok bool) {
	v = new(big.Int)
	for i, x := range b {
		v.Lsh(v, 7)
		v.Or(v, big.NewInt(int64(x&0x7f)))
		if x < 0x80 {
			return v, i + 1, v.BitLen() <= 64
		}
	}
	return v, 0, false
}

func TestReplay_C07(t *testing.T) {
	r := rand.New(rand.NewSource(vseed()))
	n := 0
	one := func(v uint64, b []byte) {
		n++
		w, pre := newWriter(r)
		vguard(t, "write", fmt.Sprintf("Uint64var(%#x)", v), func() { w.Uint64var(v) })
		want := append(append([]byte{}, pre...), vber(v)...)
		if out := w.Written(); !bytes.Equal(out, want) {
			vfail(t, "write", "after % x, Uint64var(%#x) gives % x, want % x", pre, v, out, want)
		}
		w, pre = newWriter(r)
		vguard(t, "write", fmt.Sprintf("Intvar(%d)", int(v)), func() { w.Intvar(int(v)) })
		want = append(append([]byte{}, pre...), vber(v)...)
		if out := w.Written(); !bytes.Equal(out, want) {
			vfail(t, "write", "after % x, Intvar(%d) gives % x, want % x", pre, int(v), out, want)
		}
		if z := Varsize(int(v)); z != len(vber(v)) {
			vfail(t, "size", "Varsize(%d)=%d, the encoding has %d bytes", int(v), z, len(vber(v)))
		}
		ins := [][]byte{append(vber(v), vbytes(r, r.Intn(5))...), vber(v)[:len(vber(v))-1], b}
		for _, in := range ins {
			rd := &Reader{Body: append([]byte{}, in...)}
			ri := &Reader{Body: append([]byte{}, in...)}
			var got uint64
			var goti int
			vguard(t, "read", fmt.Sprintf("Uint64var of % x", in), func() { got = rd.Uint64var(); goti = ri.Intvar() })
			bv, m, ok := vunber(in)
			if ok && m > 10 && rd.Err != nil {
				continue // redundant leading zero digits may be refused
			}
			if ok && (rd.Err != nil || got != bv.Uint64() || len(rd.Body) != len(in)-m || ri.Err != nil || goti != int(bv.Uint64()) || len(ri.Body) != len(in)-m) {
				vfail(t, "read", "reading varint % x gives %#x / %d, error %v, %d bytes left; it spells %#x in %d bytes", in, got, goti, rd.Err, len(rd.Body), bv, m)
			}
			if !ok && (rd.Err == nil || ri.Err == nil) {
				vfail(t, "read", "reading varint % x gives %#x without error; it is cut short or does not fit", in, got)
			}
			if !ok && (len(rd.Body) != len(in) || len(ri.Body) != len(in)) {
				vfail(t, "read", "reading bad varint % x consumed input", in)
			}
		}
	}
	for k := 0; k < 64; k++ {
		for d := -2; d <= 2; d++ {
			one(uint64(1)<<uint(k)+uint64(d), nil)
		}
	}
	for i := 0; i < vn(20000); i++ {
		b := vbytes(r, r.Intn(14))
		for j := range b {
			switch r.Intn(4) {
			case 0:
				b[j] = 0xff
			case 1:
				b[j] = 0x80
			case 2:
				b[j] |= 0x80
			}
		}
		if len(b) > 0 && r.Intn(2) == 0 {
			b[len(b)-1] &= 0x7f
		}
		if r.Intn(3) == 0 { // around the overflow boundary
			b = append([]byte{0x81, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, vbytes(r, r.Intn(3))...)
			b[0] = byte(0x80 | r.Intn(4))
			b[1+r.Intn(8)] = byte(0x80 | r.Intn(128))
		}
		one(vword(r), b)
	}
	vdone("C07", n)
}

// one numeric slice kind
type slk struct {
	name string
	w    int
	wr   func(*Writer, []uint64)
	rd   func(*Reader, []uint64) // stores the raw bits; in: previous bits
}

var slks = []slk{
	{"Uint8sl", 1, func(w *Writer, v []uint64) {
		a := make([]uint8, len(v))
		for i, x := range v {
			a[i] = uint8(x)
		}
		w.Uint8sl(a)
	},
		func(r *Reader, v []uint64) {
			a := make([]uint8, len(v))
			for i, x := range v {
				a[i] = uint8(x)
			}
			r.Uint8sl(a)
			for i, x := range a {
				v[i] = uint64(x)
			}
		}},
	{"Bytes", 1, func(w *Writer, v []uint64) {
		a := make([]uint8, len(v))
		for i, x := range v {
			a[i] = uint8(x)
		}
		w.Bytes(a)
	},
		func(r *Reader, v []uint64) {
			a := make([]uint8, len(v))
			for i, x := range v {
				a[i] = uint8(x)
			}
			r.Bytes(a)
			for i, x := range a {
				v[i] = uint64(x)
			}
		}},
	{"Int8sl", 1, func(w *Writer, v []uint64) {
		a := make([]int8, len(v))
		for i, x := range v {
			a[i] = int8(x)
		}
		w.Int8sl(a)
	},
		func(r *Reader, v []uint64) {
			a := make([]int8, len(v))
			for i, x := range v {
				a[i] = int8(x)
			}
			r.Int8sl(a)
			for i, x := range a {
				v[i] = uint64(uint8(x))
			}
		}},
	{"Uint16sl", 2, func(w *Writer, v []uint64) {
		a := make([]uint16, len(v))
		for i, x := range v {
			a[i] = uint16(x)
		}
		w.Uint16sl(a)
	},
		func(r *Reader, v []uint64) {
			a := make([]uint16, len(v))
			for i, x := range v {
				a[i] = uint16(x)
			}
			r.Uint16sl(a)
			for i, x := range a {
				v[i] = uint64(x)
			}
		}},
	{"Int16sl", 2, func(w *Writer, v []uint64) {
		a := make([]int16, len(v))
		for i, x := range v {
			a[i] = int16(x)
		}
		w.Int16sl(a)
	},
		func(r *Reader, v []uint64) {
			a := make([]int16, len(v))
			for i, x := range v {
				a[i] = int16(x)
			}
			r.Int16sl(a)
			for i, x := range a {
				v[i] = uint64(uint16(x))
			}
		}},
	{"Uint32sl", 4, func(w *Writer, v []uint64) {
		a := make([]uint32, len(v))
		for i, x := range v {
			a[i] = uint32(x)
		}
		w.Uint32sl(a)
	},
		func(r *Reader, v []uint64) {
			a := make([]uint32, len(v))
			for i, x := range v {
				a[i] = uint32(x)
			}
			r.Uint32sl(a)
			for i, x := range a {
				v[i] = uint64(x)
			}
		}},
	{"Int32sl", 4, func(w *Writer, v []uint64) {
		a := make([]int32, len(v))
		for i, x := range v {
			a[i] = int32(x)
		}
		w.Int32sl(a)
	},
		func(r *Reader, v []uint64) {
			a := make([]int32, len(v))
			for i, x := range v {
				a[i] = int32(x)
			}
			r.Int32sl(a)
			for i, x := range a {
				v[i] = uint64(uint32(x))
			}
		}},
	{"Uint64sl", 8, func(w *Writer, v []uint64) { a := make([]uint64, len(v)); copy(a, v); w.Uint64sl(a) },
		func(r *Reader, v []uint64) { r.Uint64sl(v) }},
	{"Int64sl", 8, func(w *Writer, v []uint64) {
		a := make([]int64, len(v))
		for i, x := range v {
			a[i] = int64(x)
		}
		w.Int64sl(a)
	},
		func(r *Reader, v []uint64) {
			a := make([]int64, len(v))
			for i, x := range v {
				a[i] = int64(x)
			}
			r.Int64sl(a)
			for i, x := range a {
				v[i] = uint64(x)
			}
		}},
	{"Float32sl", 4, func(w *Writer, v []uint64) {
		a := make([]float32, len(v))
		for i, x := range v {
			a[i] = math.Float32frombits(uint32(x))
		}
		w.Float32sl(a)
	},
		func(r *Reader, v []uint64) {
			a := make([]float32, len(v))
			for i, x := range v {
				a[i] = math.Float32frombits(uint32(x))
			}
			r.Float32sl(a)
			for i, x := range a {
				v[i] = uint64(math.Float32bits(x))
			}
		}},
	{"Float64sl", 8, func(w *Writer, v []uint64) {
		a := make([]float64, len(v))
		for i, x := range v {
			a[i] = math.Float64frombits(x)
		}
		w.Float64sl(a)
	},
		func(r *Reader, v []uint64) {
			a := make([]float64, len(v))
			for i, x := range v {
				a[i] = math.Float64frombits(x)
			}
			r.Float64sl(a)
			for i, x := range a {
				v[i] = math.Float64bits(x)
			}
		}},
}

func vlen(r *rand.Rand) int {
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 200 + r.Intn(2000)
	}
	return r.Intn(40)
}

func TestReplay_C08(t *testing.T) {
	r := rand.New(rand.NewSource(vseed()))
	n := vn(6000)
	for i := 0; i < n; i++ {
		k := slks[r.Intn(len(slks))]
		l := vlen(r)
		v := make([]uint64, l)
		var enc []byte
		for j := range v {
			v[j] = vword(r)
			enc = append(enc, vle(k.w, v[j])...)
		}
		w, pre := newWriter(r)
		vguard(t, "write "+k.name, fmt.Sprintf("%s(%x)", k.name, v), func() { k.wr(w, v) })
		if out, want := w.Written(), append(append([]byte{}, pre...), enc...); !bytes.Equal(out, want) {
			vfail(t, "write "+k.name, "after % x, %s(%x) gives % x, want % x", pre, k.name, v, out, want)
		}
		rest := vbytes(r, r.Intn(9))
		rd := &Reader{Body: append(append([]byte{}, enc...), rest...)}
		got := make([]uint64, l)
		vguard(t, "read "+k.name, fmt.Sprintf("%s of % x", k.name, enc), func() { k.rd(rd, got) })
		if rd.Err != nil || !bytes.Equal(rd.Body, rest) {
			vfail(t, "read "+k.name, "%s of %d elements from % x: error %v, rest % x", k.name, l, enc, rd.Err, rd.Body)
		}
		for j := range v {
			if got[j] != v[j]&(math.MaxUint64>>uint(64-8*k.w)) {
				vfail(t, "read "+k.name, "%s element %d from % x is %#x", k.name, j, enc, got[j])
			}
		}
		// strings and byte slices
		b := vbytes(r, l)
		w, pre = newWriter(r)
		vguard(t, "write String", "String", func() { w.String(string(b)) })
		if out := w.Written(); !bytes.Equal(out, append(append([]byte{}, pre...), b...)) {
			vfail(t, "write String", "after % x, String(%q) gives % x", pre, b, out)
		}
		rd = &Reader{Body: append(append([]byte{}, b...), rest...)}
		if i%2 == 0 {
			if s := rd.String(l); s != string(b) || !bytes.Equal(rd.Body, rest) || rd.Err != nil {
				vfail(t, "read String", "String(%d) of % x gives %q", l, b, s)
			}
		} else if s := rd.Slice(l); !bytes.Equal(s, b) || !bytes.Equal(rd.Body, rest) || rd.Err != nil {
			vfail(t, "read Slice", "Slice(%d) of % x gives % x", l, b, s)
		}
	}
	vdone("C08", n)
}

func TestReplay_C09(t *testing.T) {
	r := rand.New(rand.NewSource(vseed()))
	n := vn(20000)
	for i := 0; i < n; i++ {
		l := r.Intn(24)
		body := vbytes(r, l+8)[:l:l]
		for j := range body {
			if r.Intn(3) == 0 {
				body[j] |= 0x80
			}
		}
		orig := append([]byte{}, body...)
		rd := &Reader{Body: body}
		pos := 0
		failed := false
		desc := ""
		for op := 0; op < 6; op++ {
			e0 := rd.Err
			switch c := r.Intn(6); c {
			case 0, 1:
				s := scalars[r.Intn(len(scalars))]
				desc += s.name + " "
				var got uint64
				vguard(t, s.name, fmt.Sprintf("%s on % x", desc, orig), func() { got = s.rd(rd) })
				switch {
				case failed:
					if got != 0 {
						vfail(t, s.name, "%s on % x returns %#x after an error", desc, orig, got)
					}
				case l-pos < s.w:
					failed = true
					if rd.Err == nil || got != 0 {
						vfail(t, s.name, "%s on % x (%d bytes left): %#x without error", desc, orig, l-pos, got)
					}
				default:
					if want := append(append([]byte{}, orig[pos:pos+s.w]...), make([]byte, 8)...); got != binary.LittleEndian.Uint64(want) {
						vfail(t, s.name, "%s on % x returns %#x", desc, orig, got)
					}
					pos += s.w
				}
			case 2:
				sz := r.Intn(30) - 4
				if r.Intn(10) == 0 {
					sz = []int{math.MinInt64, math.MaxInt64, -1}[r.Intn(3)]
				}
				str := r.Intn(2) == 0
				desc += fmt.Sprintf("Slice/String(%d) ", sz)
				var got []byte
				vguard(t, "Slice", fmt.Sprintf("%s on % x", desc, orig), func() {
					if str {
						got = []byte(rd.String(sz))
					} else {
						got = rd.Slice(sz)
					}
				})
				switch {
				case failed:
					if len(got) != 0 {
						vfail(t, "Slice", "%s on % x returns data after an error", desc, orig)
					}
				case sz < 0 || l-pos < sz:
					failed = true
					if rd.Err == nil || len(got) != 0 {
						vfail(t, "Slice", "%s on % x (%d bytes left) gives % x without error", desc, orig, l-pos, got)
					}
				default:
					if !bytes.Equal(got, orig[pos:pos+sz]) {
						vfail(t, "Slice", "%s on % x gives % x", desc, orig, got)
					}
					pos += sz
				}
			case 3, 4:
				k := slks[r.Intn(len(slks))]
				m := r.Intn(6)
				desc += fmt.Sprintf("%s[%d] ", k.name, m)
				v := make([]uint64, m)
				for j := range v {
					v[j] = 0x0505050505050505 & (math.MaxUint64 >> uint(64-8*k.w))
				}
				vguard(t, k.name, fmt.Sprintf("%s on % x", desc, orig), func() { k.rd(rd, v) })
				if failed || l-pos < m*k.w {
					if !failed && rd.Err == nil {
						vfail(t, k.name, "%s on % x (%d bytes left): no error", desc, orig, l-pos)
					}
					failed = true
					for j := range v {
						if v[j] != 0x0505050505050505&(math.MaxUint64>>uint(64-8*k.w)) {
							vfail(t, k.name, "%s on % x: a failed read changed the destination", desc, orig)
						}
					}
				} else {
					for j := range v {
						want := append(append([]byte{}, orig[pos:pos+k.w]...), make([]byte, 8)...)
						if v[j] != binary.LittleEndian.Uint64(want) {
							vfail(t, k.name, "%s on % x: element %d is %#x", desc, orig, j, v[j])
						}
						pos += k.w
					}
				}
			case 5:
				if r.Intn(4) == 0 {
					desc += "Tail "
					got := rd.Tail()
					if failed && len(got) != 0 || !failed && !bytes.Equal(got, orig[pos:]) {
						vfail(t, "Tail", "%s on % x gives % x", desc, orig, got)
					}
					if !failed {
						pos = l
					}
					break
				}
				desc += "Uint64var "
				var got uint64
				vguard(t, "Uint64var", fmt.Sprintf("%s on % x", desc, orig), func() { got = rd.Uint64var() })
				if failed {
					if got != 0 {
						vfail(t, "Uint64var", "%s on % x returns %#x after an error", desc, orig, got)
					}
					break
				}
				v, m, ok := vunber(orig[pos:])
				if !ok || rd.Err != nil {
					failed = true
					if rd.Err == nil || ok && m <= 10 {
						vfail(t, "Uint64var", "%s on % x: error %v", desc, orig, rd.Err)
					}
				} else {
					if got != v.Uint64() {
						vfail(t, "Uint64var", "%s on % x gives %#x", desc, orig, got)
					}
					pos += m
				}
			}
			if failed && rd.Err == nil || e0 != nil && rd.Err != e0 || !failed && rd.Err != nil {
				vfail(t, "sticky", "%s on % x: error is %v, was %v", desc, orig, rd.Err, e0)
			}
			if !bytes.Equal(rd.Body, orig[pos:]) {
				vfail(t, "consumption", "%s on % x: % x left, want % x", desc, orig, rd.Body, orig[pos:])
			}
		}
	}
	vdone("C09", n)
}

func TestReplay_C10(t *testing.T) {
	r := rand.New(rand.NewSource(vseed()))
	n := vn(2500)
	for i := 0; i < n; i++ {
		w := &Writer{}
		if r.Intn(2) == 0 {
			w.DefSize = r.Intn(300)
		}
		var cur []byte
		type hand struct{ got, snap []byte }
		var hs []hand
		desc := ""
		for op := 0; op < 30; op++ {
			switch r.Intn(8) {
			case 0, 1:
				var got []byte
				desc += "Written "
				vguard(t, "Written", desc, func() { got = w.Written() })
				if !bytes.Equal(got, cur) {
					vfail(t, "Written", "%s hands out % x, written since the last time: % x", desc, got, cur)
				}
				if r.Intn(3) == 0 && len(got) > 0 { // the holder appends
					desc += "append "
					a := append(got, vbytes(r, r.Intn(20))...)
					hs = append(hs, hand{a, append([]byte{}, a...)})
				}
				hs = append(hs, hand{got, append([]byte{}, got...)})
				cur = nil
			case 2:
				k := slks[r.Intn(len(slks))]
				v := make([]uint64, vlen(r)/2)
				for j := range v {
					v[j] = vword(r)
					cur = append(cur, vle(k.w, v[j])...)
				}
				desc += fmt.Sprintf("%s[%d] ", k.name, len(v))
				vguard(t, k.name, desc, func() { k.wr(w, v) })
			case 3:
				v := vword(r)
				desc += "Uint64var "
				cur = append(cur, vber(v)...)
				vguard(t, "Uint64var", desc, func() { w.Uint64var(v) })
			case 4:
				m := r.Intn(50)
				desc += fmt.Sprintf("Need(%d) ", m)
				b := vbytes(r, m)
				vguard(t, "Need", desc, func() { copy(w.Need(m), b) })
				cur = append(cur, b...)
			default:
				s := scalars[r.Intn(len(scalars))]
				v := vword(r)
				desc += s.name + " "
				cur = append(cur, vle(s.w, v)...)
				vguard(t, s.name, desc, func() { s.wr(w, v) })
			}
			for j, h := range hs {
				if !bytes.Equal(h.got, h.snap) {
					vfail(t, "isolation", "%s: output %d handed out earlier changed from % x to % x", desc, j, h.snap, h.got)
				}
			}
		}
		if got := w.Written(); !bytes.Equal(got, cur) {
			vfail(t, "Written", "%s hands out % x, written since the last time: % x", desc, got, cur)
		}
		for j, h := range hs {
			if !bytes.Equal(h.got, h.snap) {
				vfail(t, "isolation", "%s: output %d handed out earlier changed from % x to % x", desc, j, h.snap, h.got)
			}
		}
	}
	vdone("C10", n)
}

// ---------- C11: size and count prefixes ----------

// the bare encoding of a value, or the one that tells its length where it has one
func venc(v reflect.Value, auto bool) []byte {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return venc(v.Elem(), auto)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return vle(int(v.Type().Size()), uint64(v.Int()))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return vle(int(v.Type().Size()), v.Uint())
	case reflect.Float32:
		return vle(4, uint64(math.Float32bits(float32(v.Float()))))
	case reflect.Float64:
		return vle(8, math.Float64bits(v.Float()))
	case reflect.String, reflect.Slice, reflect.Array:
		var r []byte
		if auto && v.Kind() != reflect.Array {
			r = vle(4, uint64(v.Len()))
		}
		if v.Kind() == reflect.String {
			return append(r, v.String()...)
		}
		for i := 0; i < v.Len(); i++ {
			r = append(r, venc(v.Index(i), true)...)
		}
		return r
	case reflect.Struct:
		var r []byte
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			switch t := v.Type().Field(i).Tag.Get("iproto"); {
			case strings.HasPrefix(t, "size("):
				b := venc(f, false)
				r = append(append(r, vpre(t[5:len(t)-1]).enc(len(b))...), b...)
			case strings.HasPrefix(t, "cnt("):
				r = append(append(r, vpre(t[4:len(t)-1]).enc(f.Len())...), venc(f, false)...)
			case t == "ber":
				r = append(r, vber(f.Uint())...)
			default:
				r = append(r, venc(f, true)...)
			}
		}
		return r
	}
	panic("venc " + v.Type().String())
}

type vpoint struct {
	X, Y int32
}
type vnote struct {
	Id   uint16
	Text string
}

func vtype(r *rand.Rand, d int) reflect.Type {
	scalars := []interface{}{int8(0), uint8(0), int16(0), uint16(0), int32(0), uint32(0), int64(0), uint64(0), float32(0), float64(0)}
	switch k := r.Intn(18); {
	case k < 5:
		return reflect.TypeOf(scalars[r.Intn(len(scalars))])
	case k < 8:
		return reflect.TypeOf("")
	case k < 10:
		return reflect.TypeOf([]byte(nil))
	case d == 0:
		return reflect.TypeOf(uint32(0))
	case k < 12:
		return reflect.SliceOf(vtype(r, d-1))
	case k == 12:
		if r.Intn(4) == 0 {
			return reflect.ArrayOf([]int{126, 127, 128, 129}[r.Intn(4)], reflect.TypeOf(uint8(0)))
		}
		return reflect.ArrayOf(r.Intn(4)+1, vtype(r, d-1))
	case k == 13:
		return reflect.PtrTo(vtype(r, 0))
	case k == 14:
		return []reflect.Type{reflect.TypeOf(vpoint{}), reflect.TypeOf(vnote{})}[r.Intn(2)]
	}
	var fs []reflect.StructField
	fixed := r.Intn(3) == 0 // all of them of a size known from the type
	for i := r.Intn(4); i >= 0; i-- {
		t := vtype(r, d-1)
		if k := r.Intn(2); fixed && k == 0 {
			t = reflect.TypeOf([]interface{}{int8(0), uint16(0), float32(0), uint64(0), vpoint{}}[r.Intn(5)])
		} else if fixed {
			t = reflect.ArrayOf([]int{1, 2, 31, 32, 63, 64, 127, 128, 129, 200}[r.Intn(10)], reflect.TypeOf([]interface{}{int8(0), uint8(0), uint32(0)}[r.Intn(3)]))
		}
		fs = append(fs, reflect.StructField{Type: t})
		f := &fs[len(fs)-1]
		f.Name, f.Tag = "F"+strconv.Itoa(len(fs)), vtag(r, t)
	}
	return reflect.StructOf(fs)
}

func vfill(r *rand.Rand, v reflect.Value, d int) {
	switch v.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.Uint64()))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(r.Uint64())
	case reflect.Float32:
		v.SetFloat(float64(float32(r.NormFloat64())))
	case reflect.Float64:
		v.SetFloat(r.NormFloat64())
	case reflect.String:
		v.SetString(string(vbytes(r, vcount(r, d))))
	case reflect.Slice:
		n := vcount(r, d)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			vfill(r, v.Index(i), d+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			vfill(r, v.Index(i), d+1)
		}
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		vfill(r, v.Elem(), d)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			vfill(r, v.Field(i), d+1)
		}
	}
}
func vcount(r *rand.Rand, d int) int {
	if d == 0 && r.Intn(4) == 0 {
		return []int{126, 127, 128, 129, 255, 300}[r.Intn(6)]
	}
	return r.Intn(5)
}

type vprefix struct {
	name string
	wr   func(*Writer, int)
	rd   func(*Reader) int
	enc  func(n int) []byte
	max  int
}

var vprefixes = []vprefix{
	{"i8", (*Writer).IntUint8, (*Reader).IntUint8, func(n int) []byte { return vle(1, uint64(n)) }, 0xff},
	{"i16", (*Writer).IntUint16, (*Reader).IntUint16, func(n int) []byte { return vle(2, uint64(n)) }, 0xffff},
	{"i32", (*Writer).IntUint32, (*Reader).IntUint32, func(n int) []byte { return vle(4, uint64(n)) }, 0xffffffff},
	{"i64", (*Writer).IntUint64, (*Reader).IntUint64, func(n int) []byte { return vle(8, uint64(n)) }, 1 << 40},
	{"ber", (*Writer).Intvar, (*Reader).Intvar, func(n int) []byte { return vber(uint64(n)) }, 1 << 40},
}

func vpre(name string) vprefix {
	for _, p := range vprefixes {
		if p.name == name {
			return p
		}
	}
	panic(name)
}

// a tag that a field of this type can have
func vtag(r *rand.Rand, t reflect.Type) reflect.StructTag {
	if r.Intn(2) == 0 {
		return ""
	}
	p := vprefixes[1+r.Intn(len(vprefixes)-1)].name
	switch t.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if r.Intn(2) == 0 {
			return `iproto:"ber"`
		}
	case reflect.Slice, reflect.String, reflect.Array:
		if r.Intn(2) == 0 {
			return reflect.StructTag(`iproto:"cnt(` + p + `)"`)
		}
	}
	return reflect.StructTag(`iproto:"size(` + p + `)"`)
}

func vholder(t reflect.Type, tag string) reflect.Value {
	return reflect.New(reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: reflect.TypeOf(uint16(0))},
		{Name: "V", Type: t, Tag: reflect.StructTag(`iproto:"` + tag + `"`)},
		{Name: "Z", Type: reflect.TypeOf(uint8(0))},
	}))
}

func TestStandin_C11_prefixes(t *testing.T) {
	r := rand.New(rand.NewSource(vseed() + 11))
	cases := 0
	for n := vn(6000); n > 0; n-- {
		rt := vtype(r, 2)
		v := reflect.New(rt)
		vfill(r, v.Elem(), 0)
		if rt.Kind() == reflect.Ptr && r.Intn(4) == 0 {
			v.Elem().Set(reflect.Zero(rt))
		}
		body := venc(v.Elem(), false)
		p := vprefixes[r.Intn(len(vprefixes))]
		if len(body) > p.max {
			continue
		}
		size := cat(p.enc(len(body)), body)
		cases++
		// a field with a size
		h := vholder(rt, "size("+p.name+")").Elem()
		h.Field(0).SetUint(0x1122)
		h.Field(1).Set(v.Elem())
		h.Field(2).SetUint(0x33)
		want := cat([]byte{0x22, 0x11}, size, []byte{0x33})
		var got []byte
		vguard(t, "panic", fmt.Sprintf("writing %v with a size(%s)", rt, p.name), func() {
			w, pre := newWriter(r)
			at := len(pre)
			w.Write(h.Interface())
			got = w.Written()[at:]
		})
		if !bytes.Equal(got, want) {
			vfail(t, "wrong-size", "%v with size(%s): written % x, want % x", rt, p.name, got, want)
		}
		// a value written with a size
		vguard(t, "panic", fmt.Sprintf("WriteWithSize of %v (%s)", rt, p.name), func() {
			w, pre := newWriter(r)
			at := len(pre)
			if r.Intn(2) == 0 {
				w.WriteWithSize(v.Elem().Interface(), p.wr)
			} else {
				w.WriteValueWithSize(v.Elem(), p.wr)
			}
			got = w.Written()[at:]
		})
		if !bytes.Equal(got, size) {
			vfail(t, "wrong-size", "WriteWithSize of %v (%s): written % x, want % x", rt, p.name, got, size)
		}
		// the prefix that is read, right or wrong
		in := cat(size, vbytes(r, r.Intn(20)))
		announced := len(body)
		if r.Intn(2) == 0 {
			announced = len(body) + r.Intn(9) - 4
			if announced < 0 || announced > p.max {
				announced = 0
			}
			in = cat(p.enc(announced), body, vbytes(r, r.Intn(20)))
		}
		vreads(t, r, rt, p, in, announced)
		// a field with a count
		if k := rt.Kind(); k != reflect.Slice && k != reflect.String && k != reflect.Array {
			continue
		}
		if v.Elem().Len() > p.max {
			continue
		}
		h = vholder(rt, "cnt("+p.name+")").Elem()
		h.Field(0).SetUint(0x1122)
		h.Field(1).Set(v.Elem())
		h.Field(2).SetUint(0x33)
		want = cat([]byte{0x22, 0x11}, p.enc(v.Elem().Len()), body, []byte{0x33})
		vguard(t, "panic", fmt.Sprintf("writing %v with a cnt(%s)", rt, p.name), func() {
			w, pre := newWriter(r)
			at := len(pre)
			w.Write(h.Interface())
			got = w.Written()[at:]
		})
		if !bytes.Equal(got, want) {
			vfail(t, "wrong-count", "%v with cnt(%s): written % x, want % x", rt, p.name, got, want)
		}
	}
	vdone("C11-prefixes", cases)
}

func vreads(t *testing.T, r *rand.Rand, rt reflect.Type, p vprefix, in []byte, announced int) {
	plen := len(p.enc(announced))
	what := fmt.Sprintf("reading %v with size(%s) %d from % x", rt, p.name, announced, in)
	d := reflect.New(rt)
	if rt.Kind() == reflect.Ptr {
		d.Elem().Set(reflect.New(rt.Elem()))
	}
	vguard(t, "panic", what, func() {
		rd := &Reader{Body: in}
		err := rd.ReadWithSize(d.Interface(), p.rd)
		if err == nil && len(in)-len(rd.Body) != plen+announced {
			vfail(t, "wrong-consumption", "%s: %d bytes consumed, no error", what, len(in)-len(rd.Body))
		}
		if err == nil && plen+announced > len(in) {
			vfail(t, "wrong-consumption", "%s: no error", what)
		}
		h := vholder(rt, "size("+p.name+")")
		rd = &Reader{Body: cat([]byte{1, 2}, in, []byte{7})}
		was := len(rd.Body)
		if err = rd.Read(h.Interface()); err == nil && was-len(rd.Body) != 2+plen+announced+1 {
			vfail(t, "wrong-consumption", "%s in a struct: %d bytes consumed, no error", what, was-len(rd.Body)-3)
		}
	})
}

func cat(bs ...[]byte) (r []byte) {
	for _, b := range bs {
		r = append(r, b...)
	}
	return
}
