package server

//verif:pkg net/server
//verif:race

// Concrete drivers for the server's connections (C26, C27): whole connections over an
// in-memory pipe with independent frame parsing, and Connection.Respond alone.

import (
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"math/rand"
	gonet "net"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
)

func vseed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func vn(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

var vmu sync.Mutex

func vfail(t *testing.T, key, f string, a ...interface{}) {
	vmu.Lock()
	fmt.Printf("\nVERIF-FAIL [%s] %s\n", key, fmt.Sprintf(f, a...))
	vmu.Unlock()
	t.FailNow()
}
func vdone(name string, n int) { fmt.Printf("\nVERIF-CASES %s %d\n", name, n) }

// vservice hands requests to a function
type vservice struct{ f func(*iproto.Request) }

func (s *vservice) Send(r *iproto.Request)        { s.f(r) }
func (s *vservice) DefaultTimeout() time.Duration { return 0 }
func (s *vservice) Runned() bool                  { return true }

// vconn is one end of a pipe
type vconn struct {
	r  *io.PipeReader
	w  *io.PipeWriter
	rw *io.PipeWriter // the other ends
	wr *io.PipeReader
}

func vpipe() *vconn {
	c := &vconn{}
	c.r, c.rw = io.Pipe()
	c.wr, c.w = io.Pipe()
	return c
}
func (c *vconn) Read(b []byte) (int, error)  { return c.r.Read(b) }
func (c *vconn) Write(b []byte) (int, error) { return c.w.Write(b) }
func (c *vconn) Close() error                { c.r.Close(); return c.w.Close() }
func (c *vconn) CloseRead() error            { return c.r.Close() }
func (c *vconn) CloseWrite() error           { return c.w.Close() }
func (c *vconn) LocalAddr() gonet.Addr       { return &gonet.TCPAddr{} }
func (c *vconn) RemoteAddr() gonet.Addr      { return &gonet.TCPAddr{} }

func vframe(msg, id uint32, body []byte) []byte {
	b := make([]byte, 12, 12+len(body))
	binary.LittleEndian.PutUint32(b, msg)
	binary.LittleEndian.PutUint32(b[4:], uint32(len(body)))
	binary.LittleEndian.PutUint32(b[8:], id)
	return append(b, body...)
}

// vcode: a return code, often of the internal kind
func vcode(rnd *rand.Rand) iproto.RetCode {
	switch rnd.Intn(5) {
	case 0:
		return iproto.RetCode(rnd.Uint32())
	case 1:
		return iproto.RetCode(rnd.Uint32()&^7 | 3)
	case 2:
		return iproto.RetCode(rnd.Intn(8))
	case 3:
		return iproto.RetCode(0xff03 + 0x100*rnd.Intn(3) - 0x100)
	}
	return iproto.RetCode(0xff00&rnd.Uint32() | 3)
}

func vmap(rnd *rand.Rand) map[iproto.RetCode]iproto.RetCode {
	switch rnd.Intn(3) {
	case 0:
		return nil
	case 1:
		return map[iproto.RetCode]iproto.RetCode{}
	}
	m := map[iproto.RetCode]iproto.RetCode{}
	for i := rnd.Intn(6); i >= 0; i-- {
		v := vcode(rnd)
		if rnd.Intn(6) == 0 {
			v = 0
		}
		if v%8 == 3 {
			v -= iproto.RetCode(1 + rnd.Intn(3))
		}
		m[vcode(rnd)&^7|3] = v
	}
	return m
}

func vwant(code iproto.RetCode, m map[iproto.RetCode]iproto.RetCode) iproto.RetCode {
	if code%8 != 3 {
		return code
	}
	if r := m[code]; r != 0 {
		return r
	}
	return code - 1
}

func TestReplay_C26_respond(t *testing.T) { vresponds(t) }
func TestReplay_C27_respond(t *testing.T) { vresponds(t) }

func vresponds(t *testing.T) {
	rnd := rand.New(rand.NewSource(vseed()*37 + 5))
	n := vn(400)
	for i := 0; i < n; i++ {
		m := vmap(rnd)
		srv := (&Config{EndPoint: &vservice{}, RCMap: m}).NewServer()
		c := NewConnection(srv, vpipe(), 1)
		var want []nt.Response
		flight := map[uint32]bool{}
		// more than fit into the channel now and then, a few ids
		k := rnd.Intn(40)
		if rnd.Intn(8) == 0 {
			k = 400
		}
		if rnd.Intn(40) == 0 {
			k = 900 + rnd.Intn(600)
		}
		eager := rnd.Intn(3)
		for j := 0; j < k; j++ {
			id := uint32(rnd.Intn(k))
			if rnd.Intn(2) == 0 && !flight[id] {
				flight[id] = true
				c.inFly[id] = &iproto.Request{Id: id}
			}
			code := vcode(rnd)
			for x := range m {
				if rnd.Intn(8) == 0 {
					code = x
				}
			}
			body := make([]byte, rnd.Intn(3))
			r := &iproto.Response{Id: id, Msg: iproto.RequestType(rnd.Intn(5)), Code: code, Body: body}
			msg := r.Msg
			c.Respond(r)
			if flight[id] {
				want = append(want, nt.Response{Id: id, Msg: msg, Code: vwant(code, m), Body: body})
				delete(flight, id)
			}
			if _, ok := c.inFly[id]; ok {
				vfail(t, "C27", "request %d still in flight after it was answered (map %v)", id, m)
			}
			if eager > 0 && rnd.Intn(3) == 0 { // the writer takes some, and frees room
				for x := rnd.Intn(10); x > 0 && len(c.out) > 0; x-- {
					g := <-c.out
					vcmp(t, want[0], g)
					want = want[1:]
				}
				c.Lock()
				if len(c.buf) > 0 && rnd.Intn(2) == 0 {
					c.cleanBuffer()
				}
				c.Unlock()
			}
		}
		for _, w := range want {
			if len(c.out) == 0 {
				c.Lock()
				c.cleanBuffer()
				c.Unlock()
				if len(c.out) == 0 {
					vfail(t, "C27", "response of request %d is never sent", w.Id)
				}
			}
			vcmp(t, w, <-c.out)
		}
		if len(c.out)+len(c.buf) > 0 {
			vfail(t, "C27", "%d responses nobody asked for", len(c.out)+len(c.buf))
		}
	}
	vdone("server-respond", n)
}

func vcmp(t *testing.T, w, g nt.Response) {
	if g.Code%8 == 3 {
		vfail(t, "C26", "internal code %#x is sent for request %d", g.Code, g.Id)
	}
	if w.Id == g.Id && w.Msg == g.Msg && w.Code != g.Code {
		vfail(t, "C26", "request %d: code %#x is sent, expected %#x", w.Id, g.Code, w.Code)
	}
	if w.Id != g.Id || w.Msg != g.Msg || string(w.Body) != string(g.Body) {
		vfail(t, "C27", "response id %d type %d body %q is sent, expected id %d type %d body %q", g.Id, g.Msg, g.Body, w.Id, w.Msg, w.Body)
	}
}

func TestReplay_C26_wire(t *testing.T) { vwires(t) }
func TestReplay_C27_wire(t *testing.T) { vwires(t) }

func vwires(t *testing.T) {
	log.SetOutput(io.Discard)
	rnd := rand.New(rand.NewSource(vseed()*41 + 9))
	n := vn(200)
	cases := 0
	for i := 0; i < n; i++ {
		cases += vwire(t, rnd, i)
	}
	vdone("server-wire", cases)
}

type vask struct {
	msg  uint32
	body string
	code iproto.RetCode
	resp string
}

func vwire(t *testing.T, rnd *rand.Rand, round int) int {
	m := vmap(rnd)
	rct := nt.RCType(rnd.Intn(3))
	total := rnd.Intn(60)
	if rnd.Intn(6) == 0 {
		total = 600
	}
	asks := map[uint32]*vask{}
	var ids []uint32
	var pings []uint32
	var stream []byte
	for j := 0; j < total; j++ {
		if rnd.Intn(6) == 0 {
			id := rnd.Uint32()
			if asks[id] == nil {
				pings = append(pings, id)
				stream = append(stream, vframe(0xff00, id, make([]byte, 0))...)
				continue
			}
		}
		id := rnd.Uint32()
		if rnd.Intn(2) == 0 {
			id = uint32(j)
		}
		if asks[id] != nil {
			continue
		}
		b := make([]byte, rnd.Intn(20))
		rnd.Read(b)
		rb := make([]byte, rnd.Intn(20))
		rnd.Read(rb)
		a := &vask{msg: uint32(rnd.Intn(200)), body: string(b), code: vcode(rnd), resp: string(rb)}
		asks[id] = a
		ids = append(ids, id)
		stream = append(stream, vframe(a.msg, id, b)...)
	}
	for _, p := range pings {
		if asks[p] != nil {
			return 0 // an unlucky draw
		}
	}
	mode := rnd.Intn(5)
	var mu sync.Mutex
	var late []*iproto.Request
	bad, calls := "", 0
	hseed := rnd.Int63()
	hr := rand.New(rand.NewSource(hseed))
	answer := func(r *iproto.Request, twice bool) {
		a := asks[r.Id]
		if a == nil {
			return
		}
		r.RespondBytes(a.code, []byte(a.resp))
		if twice {
			r.RespondBytes(0, []byte("again"))
			r.Cancel()
		}
	}
	var wg sync.WaitGroup
	svc := &vservice{func(r *iproto.Request) {
		mu.Lock()
		defer mu.Unlock()
		calls++
		a := asks[r.Id]
		if a == nil || uint32(r.Msg) != a.msg || string(r.Body) != a.body {
			bad = fmt.Sprintf("the handler got id %d type %d body %q, which nobody sent", r.Id, r.Msg, r.Body)
			return
		}
		if !r.SetPending() || !r.SetInFly(nil) {
			bad = fmt.Sprintf("request %d is not new", r.Id)
			return
		}
		if hr.Intn(8) == 0 {
			_ = append(r.Body, "appended by a careless handler"...)
		}
		twice := hr.Intn(4) == 0
		switch {
		case mode == 0 || mode == 3 && hr.Intn(2) == 0:
			answer(r, twice)
		case mode == 1:
			wg.Add(1)
			go func() { defer wg.Done(); answer(r, twice) }()
		default:
			late = append(late, r)
		}
	}}
	srv := (&Config{EndPoint: svc, RCMap: m, RCType: rct}).NewServer()
	pc := vpipe()
	c := NewConnection(srv, pc, 7)
	gone := make(chan uint64, 1)
	go func() { gone <- <-srv.connClosed }()
	c.Run()
	go func() {
		for len(stream) > 0 {
			k := 1 + len(stream)/3
			if k > len(stream) {
				k = len(stream)
			}
			if _, err := pc.rw.Write(stream[:k]); err != nil {
				return
			}
			stream = stream[k:]
		}
		// when all was read, the rest is answered in some order, then the client says goodbye
		for w := 0; ; w++ {
			mu.Lock()
			got, b := calls, bad
			mu.Unlock()
			if b != "" || got == len(ids) || w > 10000 {
				break
			}
			time.Sleep(time.Millisecond)
		}
		mu.Lock()
		rest := append([]*iproto.Request(nil), late...)
		mu.Unlock()
		if mode == 4 { // goodbye first
			pc.rw.Close()
		}
		for _, k := range hr.Perm(len(rest)) {
			answer(rest[k], k%5 == 0)
		}
		wg.Wait()
		pc.rw.Close()
	}()
	where := fmt.Sprintf("[round %d, seed %d, %d requests, %d pings, code width %d, mode %d] ", round, vseed(), len(ids), len(pings), rct, mode)
	// the client
	type res struct {
		msg, id uint32
		body    []byte
	}
	ch := make(chan res, 10)
	go func() {
		defer close(ch)
		for {
			var h [12]byte
			if _, err := io.ReadFull(pc.wr, h[:]); err != nil {
				return
			}
			b := make([]byte, binary.LittleEndian.Uint32(h[4:]))
			if _, err := io.ReadFull(pc.wr, b); err != nil {
				return
			}
			ch <- res{binary.LittleEndian.Uint32(h[:]), binary.LittleEndian.Uint32(h[8:]), b}
		}
	}()
	seen := map[uint32]int{}
	tm := time.After(15 * time.Second)
	stop := false
	for !stop {
		select {
		case g, ok := <-ch:
			if !ok {
				stop = true
				break
			}
			seen[g.id]++
			a := asks[g.id]
			if a == nil {
				found := false
				for _, p := range pings {
					found = found || p == g.id
				}
				if !found {
					vfail(t, "C27", "%sa response under id %d, which nobody sent", where, g.id)
				}
				if g.msg != 0xff00 || len(g.body) != 0 {
					vfail(t, "C27", "%sping %d is answered with type %d body %q", where, g.id, g.msg, g.body)
				}
				continue
			}
			if seen[g.id] > 1 {
				vfail(t, "C27", "%sa second response for request %d", where, g.id)
			}
			if g.msg != a.msg {
				vfail(t, "C27", "%srequest %d of type %d is answered with type %d", where, g.id, a.msg, g.msg)
			}
			w := vwant(a.code, m)
			switch rct {
			case nt.RC4byte, nt.RC1byte:
				k := 1
				if rct == nt.RC4byte {
					k = 4
				}
				if len(g.body) < k {
					vfail(t, "C27", "%sthe response for request %d has no code", where, g.id)
				}
				code := iproto.RetCode(g.body[0])
				if rct == nt.RC4byte {
					code = iproto.RetCode(binary.LittleEndian.Uint32(g.body))
				} else {
					w &= 0xff
				}
				if code%8 == 3 {
					vfail(t, "C26", "%srequest %d answered with %#x: internal code %#x sent (map %v)", where, g.id, a.code, code, m)
				}
				if code != w {
					vfail(t, "C26", "%srequest %d answered with %#x: code %#x sent, expected %#x (map %v)", where, g.id, a.code, code, w, m)
				}
				g.body = g.body[k:]
			}
			if string(g.body) != a.resp {
				vfail(t, "C27", "%srequest %d answered with %q: body %q sent", where, g.id, a.resp, g.body)
			}
		case <-tm:
			vfail(t, "C27", "%sthe connection does not end; %d of %d responses were sent", where, len(seen), len(ids)+len(pings))
		}
	}
	mu.Lock()
	b := bad
	mu.Unlock()
	if b != "" {
		vfail(t, "C27", "%s%s", where, b)
	}
	for _, id := range ids {
		if seen[id] != 1 {
			vfail(t, "C27", "%srequest %d was answered, but %d responses were sent for it", where, id, seen[id])
		}
	}
	for _, id := range pings {
		k := 0
		for _, p := range pings {
			if p == id {
				k++
			}
		}
		if seen[id] != k {
			vfail(t, "C27", "%sping %d: %d answers", where, id, seen[id])
		}
	}
	select {
	case id := <-gone:
		if id != 7 {
			vfail(t, "C27", "%sconnection %d reported closed", where, id)
		}
	case <-time.After(15 * time.Second):
		vfail(t, "C27", "%sthe closed connection is never reported", where)
	}
	return len(ids) + len(pings)
}

// a client that stops listening: the connection ends, late answers do no harm
func TestReplay_C27_deaf(t *testing.T) {
	log.SetOutput(io.Discard)
	rnd := rand.New(rand.NewSource(vseed()*47 + 3))
	n := vn(60)
	for i := 0; i < n; i++ {
		var mu sync.Mutex
		var late []*iproto.Request
		k := 1 + rnd.Intn(30)
		early := rnd.Intn(k)
		all := make(chan bool)
		svc := &vservice{func(r *iproto.Request) {
			r.SetPending()
			r.SetInFly(nil)
			mu.Lock()
			late = append(late, r)
			if len(late) == k {
				close(all)
			}
			mu.Unlock()
		}}
		srv := (&Config{EndPoint: svc}).NewServer()
		pc := vpipe()
		c := NewConnection(srv, pc, 9)
		gone := make(chan uint64, 1)
		go func() { gone <- <-srv.connClosed }()
		c.Run()
		var stream []byte
		for j := 0; j < k; j++ {
			stream = append(stream, vframe(5, uint32(j), []byte("x"))...)
		}
		pc.rw.Write(stream)
		<-all
		pc.wr.Close()
		var wg sync.WaitGroup
		for j := 0; j < k; j++ {
			if j == early {
				late[j].RespondBytes(0, nil) // writing it fails
				continue
			}
			wg.Add(1)
			go func(r *iproto.Request) {
				defer wg.Done()
				time.Sleep(time.Duration(r.Id%5) * time.Millisecond)
				r.RespondBytes(0, []byte("late"))
			}(late[j])
		}
		wg.Wait()
		select {
		case <-gone:
		case <-time.After(15 * time.Second):
			vfail(t, "C27", "[seed %d] a connection whose client does not listen never ends", vseed())
		}
	}
	vdone("server-deaf", n)
}

// an accepted map has internal codes on the left and others on the right
func TestReplay_C26_maps(t *testing.T) {
	log.SetOutput(io.Discard)
	rnd := rand.New(rand.NewSource(vseed()*43 + 1))
	n := vn(3000)
	for i := 0; i < n; i++ {
		m := map[iproto.RetCode]iproto.RetCode{}
		ok := true
		for j := rnd.Intn(4); j > 0; j-- {
			k, v := vcode(rnd), vcode(rnd)
			if rnd.Intn(4) > 0 {
				k = k&^7 | 3
				if v%8 == 3 {
					v++
				}
			}
			m[k] = v
		}
		for k, v := range m {
			ok = ok && k%8 == 3 && v%8 != 3
		}
		acc := true
		func() {
			defer func() {
				if recover() != nil {
					acc = false
				}
			}()
			(&Config{EndPoint: &vservice{}, RCMap: m}).NewServer()
		}()
		if acc && !ok {
			vfail(t, "C26", "the code map %v is accepted", m)
		}
	}
	vdone("server-maps", n)
}
