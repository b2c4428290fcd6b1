package net_test

//verif:pkg net

// Concrete drivers for the frame layer (C01-C05): independent oracles over seeded random
// frame sequences, chunkings and injected connection errors.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"syscall"
	"testing"

	"github.com/funny-falcon/go-iproto"
	. "github.com/funny-falcon/go-iproto/net"
)

func vseed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func vn(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}
func vfail(t *testing.T, key, f string, a ...interface{}) {
	fmt.Printf("\nVERIF-FAIL [%s] %s\n", key, fmt.Sprintf(f, a...))
	t.FailNow()
}
func vdone(name string, n int) { fmt.Printf("\nVERIF-CASES %s %d\n", name, n) }

func vguard(t *testing.T, key, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			vfail(t, key, "%s panics: %v", what, r)
		}
	}()
	f()
}

var errConn = errors.New("connection broken")

// vconn records what it receives; after failAt bytes every write fails
type vconn struct {
	out    []byte
	failAt int
	failed bool
	err    error
}

// verrs are the errors a connection may report
var verrs = []error{errConn, io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, syscall.EAGAIN, syscall.EINTR, syscall.EPIPE}

func (c *vconn) Write(p []byte) (int, error) {
	if c.failAt >= 0 && len(c.out)+len(p) > c.failAt {
		n := c.failAt - len(c.out)
		if n < 0 {
			n = 0
		}
		c.out = append(c.out, p[:n]...)
		c.failed = true
		return n, c.err
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

// vstream delivers data in random pieces; at the end it returns endErr
type vstream struct {
	r      *rand.Rand
	data   []byte
	pos    int
	mode   int
	endErr error
}

func (s *vstream) Read(p []byte) (int, error) {
	left := len(s.data) - s.pos
	if left == 0 {
		return 0, s.endErr
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	switch s.mode {
	case 0:
		n = 1
	case 1:
		n = 1 + s.r.Intn(len(p))
	case 2:
		if s.r.Intn(8) == 0 {
			return 0, nil
		}
		n = 1 + s.r.Intn(20)
	case 3:
		n = 1 + s.r.Intn(3)
	}
	if n > len(p) {
		n = len(p)
	}
	if n > left {
		n = left
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.pos == len(s.data) && s.mode == 1 {
		return n, s.endErr
	}
	return n, nil
}

func le32(v uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, v); return b }
func vhead(msg, ln, id uint32) []byte {
	return append(append(le32(msg), le32(ln)...), le32(id)...)
}

var sizes = []int{0, 0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 13, 15, 16, 17, 100, 500, 4000, 8180, 8191, 8192, 8193, 16372, 16380, 16384, 16388, 20000, 32768, 70000}

func vbody(r *rand.Rand) []byte {
	n := sizes[r.Intn(len(sizes))]
	if r.Intn(3) == 0 {
		n = r.Intn(64)
	} else if r.Intn(4) == 0 {
		n += r.Intn(9) - 4
		if n < 0 {
			n = 0
		}
	}
	b := make([]byte, n)
	r.Read(b)
	return b
}
func vu32(r *rand.Rand) uint32 {
	switch r.Intn(4) {
	case 0:
		return []uint32{0, 1, 0xff, 0x100, 0xff00, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff}[r.Intn(12)]
	}
	return r.Uint32() >> uint(r.Intn(32))
}

var rcs = []struct {
	t RCType
	w int
}{{RC4byte, 4}, {RC1byte, 1}, {RC0byte, 0}}

// vdiff tells where two streams part
func vdiff(a, b []byte) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("lengths %d and %d, first difference at byte %d: %#x instead of %#x", len(a), len(b), i, a[i], b[i])
		}
	}
	return fmt.Sprintf("lengths %d and %d, equal up to there", len(a), len(b))
}

// vwrite plays one random sequence of frames; what may be requests (1), responses (2), both (3)
func vwrite(t *testing.T, key string, r *rand.Rand, what int, failing bool) {
	c := &vconn{failAt: -1, err: verrs[r.Intn(len(verrs))]}
	if failing {
		c.failAt = r.Intn(60000)
	}
	rc := rcs[r.Intn(3)]
	var h HeaderWriter
	h.Init(c, 0, rc.t)
	var want []byte
	log := fmt.Sprintf("rc width %d", rc.w)
	n := 1 + r.Intn(12)
	small := r.Intn(3) == 0
	if small {
		n = 1 + r.Intn(600)
	}
	for i := 0; i < n; i++ {
		body := vbody(r)
		if small && len(body) > 200 {
			body = body[:r.Intn(200)]
		}
		keep := append([]byte(nil), body...)
		var err error
		k := r.Intn(8)
		isReq := what == 1 || what == 3 && k < 4
		switch {
		case k == 7:
			log += "; flush"
			err = h.Flush()
			if err == nil && !bytes.Equal(c.out, want) {
				vfail(t, key, "after a successful flush the connection has not received exactly what was written: %s (%s)", vdiff(c.out, want), log)
			}
		case k == 6 && isReq, what == 3 && k == 6:
			log += "; ping"
			if err = h.Ping(); err == nil {
				want = append(want, vhead(0xff00, 0, 0xffffffff)...)
			}
		case isReq:
			msg, id := vu32(r), vu32(r)
			log += fmt.Sprintf("; request msg=%#x id=%#x body of %d", msg, id, len(body))
			if err = h.WriteRequest(Request{Msg: iproto.RequestType(msg), Id: id, Body: body}); err == nil {
				want = append(append(want, vhead(msg, uint32(len(body)), id)...), body...)
			}
		default:
			msg, id, code := vu32(r), vu32(r), vu32(r)
			w := rc.w
			if msg == 0xff00 {
				w = 0
			}
			log += fmt.Sprintf("; response msg=%#x id=%#x code=%#x body of %d", msg, id, code, len(body))
			if err = h.WriteResponse(Response{Msg: iproto.RequestType(msg), Id: id, Code: iproto.RetCode(code), Body: body}); err == nil {
				want = append(append(append(want, vhead(msg, uint32(w+len(body)), id)...), le32(code)[:w]...), body...)
			}
		}
		if len(log) > 1500 {
			log = "..." + log[len(log)-1200:]
		}
		if !bytes.Equal(body, keep) {
			vfail(t, key, "the body given to write was changed (%s)", log)
		}
		if c.failed && err == nil {
			vfail(t, key, "the connection reported an error during this call and it was not returned (%s)", log)
		}
		if err != nil {
			if !failing {
				vfail(t, key, "error %v without a connection error (%s)", err, log)
			}
			return
		}
	}
	if err := h.Flush(); err == nil {
		if c.failed {
			vfail(t, key, "flush swallowed the error of the connection (%s)", log)
		}
		if !bytes.Equal(c.out, want) {
			vfail(t, key, "the connection received something else than was written: %s (%s)", vdiff(c.out, want), log)
		}
	} else if !failing {
		vfail(t, key, "flush error %v without a connection error (%s)", err, log)
	}
}

func TestReplay_C01(t *testing.T) {
	r := rand.New(rand.NewSource(vseed()))
	n := vn(1500)
	for i := 0; i < n; i++ {
		vguard(t, "C01", "writing requests", func() { vwrite(t, "C01", r, 1, false) })
	}
	vdone("C01 request sequences", n)
}
func TestReplay_C02(t *testing.T) {
	r := rand.New(rand.NewSource(vseed()))
	n := vn(1500)
	for i := 0; i < n; i++ {
		vguard(t, "C02", "writing responses", func() { vwrite(t, "C02", r, 2, false) })
	}
	vdone("C02 response sequences", n)
}
func TestReplay_C03(t *testing.T) {
	r := rand.New(rand.NewSource(vseed()))
	n := vn(2500)
	for i := 0; i < n; i++ {
		vguard(t, "C03", "buffered writes", func() { vwrite(t, "C03", r, 3, i%2 == 1) })
	}
	vdone("C03 write sequences", n)
}

type vframe struct {
	msg, id, code uint32
	body          []byte // as it must be decoded
	flen          int    // encoded length
}

// vread plays one random stream of frames
func vread(t *testing.T, key string, r *rand.Rand, overwrite bool) {
	rc := rcs[r.Intn(3)]
	resp := r.Intn(2) == 0
	var data []byte
	var want []vframe
	n := 1 + r.Intn(10)
	if r.Intn(3) == 0 {
		n = 1 + r.Intn(300)
	}
	for i := 0; i < n; i++ {
		body := vbody(r)
		if n > 20 && len(body) > 100 {
			body = body[:r.Intn(100)]
		}
		f := vframe{msg: vu32(r), id: vu32(r), flen: 12 + len(body)}
		if r.Intn(10) == 0 {
			f.msg = 0xff00
		}
		data = append(append(data, vhead(f.msg, uint32(len(body)), f.id)...), body...)
		f.body = body
		if resp {
			w := rc.w
			if f.msg == 0xff00 {
				w = 0
			}
			if len(body) < w {
				f.code = 0x0302
			} else {
				var x [4]byte
				copy(x[:], body[:w])
				f.code = binary.LittleEndian.Uint32(x[:])
				f.body = body[w:]
			}
		}
		want = append(want, f)
	}
	cut := -1
	if !overwrite && r.Intn(2) == 0 {
		cut = r.Intn(len(data) + 1)
		data = data[:cut]
	}
	s := &vstream{r: r, data: data, mode: r.Intn(5), endErr: io.EOF}
	if r.Intn(3) == 0 {
		s.endErr = verrs[r.Intn(len(verrs))]
	}
	var h HeaderReader
	h.Init(s, 0, rc.t)
	used := 0
	var bodies [][]byte
	desc := fmt.Sprintf("rc width %d, responses %v, chunk mode %d, stream cut at %d", rc.w, resp, s.mode, cut)
	for i, f := range want {
		flen := f.flen
		var msg, id, code uint32
		var body []byte
		var err error
		if resp {
			var x Response
			x, err = h.ReadResponse()
			msg, id, code, body = uint32(x.Msg), x.Id, uint32(x.Code), x.Body
		} else {
			var x Request
			x, err = h.ReadRequest()
			msg, id, body = uint32(x.Msg), x.Id, x.Body
		}
		if used+flen > len(data) {
			if err == nil {
				vfail(t, key, "frame %d is cut short (%d of %d bytes) but was reported as msg=%#x id=%#x body of %d without error (%s)", i, len(data)-used, flen, msg, id, len(body), desc)
			}
			return
		}
		used += flen
		if err != nil {
			vfail(t, key, "frame %d of the stream is complete but reading it fails: %v (%s)", i, err, desc)
		}
		if msg != f.msg || id != f.id || code != f.code || !bytes.Equal(body, f.body) {
			vfail(t, key, "frame %d decoded as msg=%#x id=%#x code=%#x body of %d instead of msg=%#x id=%#x code=%#x body of %d; bodies: %s (%s)", i, msg, id, code, len(body), f.msg, f.id, f.code, len(f.body), vdiff(body, f.body), desc)
		}
		bodies = append(bodies, body)
		if overwrite {
			for j, b := range bodies {
				if !bytes.Equal(b, want[j].body) {
					vfail(t, key, "the body of frame %d, already delivered, changed when frame %d was read: %s (%s)", j, i, vdiff(b, want[j].body), desc)
				}
			}
		}
	}
	if cut < 0 || used == len(data) {
		var err error
		if resp {
			_, err = h.ReadResponse()
		} else {
			_, err = h.ReadRequest()
		}
		if err == nil {
			vfail(t, key, "a frame is decoded after the end of the stream (%s)", desc)
		}
	}
}

func TestReplay_C04(t *testing.T) {
	r := rand.New(rand.NewSource(vseed()))
	n := vn(2500)
	for i := 0; i < n; i++ {
		vguard(t, "C04", "reading frames", func() { vread(t, "C04", r, false) })
	}
	// ping
	for i := 0; i < 64; i++ {
		msg, id := uint32(0xff00), uint32(0xffffffff)
		if i&1 != 0 {
			msg = vu32(r)
		}
		if i&2 != 0 {
			id = vu32(r)
		}
		var h HeaderReader
		h.Init(&vstream{r: r, data: vhead(msg, 0, id), mode: i % 5, endErr: io.EOF}, 0, RC4byte)
		vguard(t, "C04", "ReadPing", func() {
			err := h.ReadPing()
			if (err == nil) != (msg == 0xff00 && id == 0xffffffff) {
				vfail(t, "C04", "ReadPing of msg=%#x id=%#x returns %v", msg, id, err)
			}
		})
	}
	vdone("C04 streams", n)
}
func TestReplay_C05(t *testing.T) {
	r := rand.New(rand.NewSource(vseed()))
	n := vn(800)
	for i := 0; i < n; i++ {
		vguard(t, "C05", "reading frames", func() { vread(t, "C05", r, true) })
	}
	vdone("C05 streams", n)
}
