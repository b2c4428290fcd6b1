package connection

//verif:pkg net/client/connection

// Concrete drivers for client connections (C24, C25): the table of requests in flight
// alone, and whole connections over a loopback socket with a scripted peer that parses
// and builds frames by itself.

import (
	"encoding/binary"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"math/rand"
	"net"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/funny-falcon/go-iproto"
)

func init() { log.SetOutput(ioutil.Discard) }

func vseed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func vn(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 5
	}
	return n
}

var vmu sync.Mutex

func vfail(t *testing.T, key, f string, a ...interface{}) {
	vmu.Lock()
	fmt.Printf("\nVERIF-FAIL [%s] %s\n", key, fmt.Sprintf(f, a...))
	vmu.Unlock()
	t.FailNow()
}
func vdone(name string, n int) { fmt.Printf("\nVERIF-CASES %s %d\n", name, n) }

// vstart: where the ids of the connection begin
func vstart(rnd *rand.Rand) uint32 {
	switch rnd.Intn(4) {
	case 0:
		return 0
	case 1:
		return 0xffffffff - uint32(rnd.Intn(700)) // passes the ping id and zero
	case 2:
		return rnd.Uint32()
	}
	return uint32(rnd.Intn(600))
}

// ids given out and freed in random order, against a plain set
func TestReplay_C24_holder(t *testing.T) {
	rnd := rand.New(rand.NewSource(vseed()*131 + 3))
	runs := vn(40)
	for i := 0; i < runs; i++ {
		c := NewConnection(&CConf{}, 1)
		h := &c.inFly
		h.curId = vstart(rnd)
		start := h.curId
		if start > 1000 { // long ago every request of the first row was answered
			h.reqs = reqMap{}
		}
		used := map[uint32]*iproto.Request{}
		var order []uint32
		keep := rnd.Intn(900)
		var held *Request
		for step := 0; step < 3000; step++ {
			if rnd.Intn(100) < 52 && len(order) <= keep+50 || len(order) == 0 {
				slot, id := h.getNext(c)
				if slot == nil || id == 0 || id == 0xffffffff {
					vfail(t, "id", "ids from %#x: the id %#x is reserved (or without slot)", start, id)
				}
				if used[id] != nil {
					vfail(t, "unique", "ids from %#x: the id %#x is given out while a request with it is unanswered", start, id)
				}
				if slot == held {
					vfail(t, "slot", "ids from %#x: a slot is handed out twice", start)
				}
				r := &iproto.Request{Id: id ^ 0x5a5a, Responder: vresp{}}
				r.SetPending()
				if !r.SetInFly(slot) {
					vfail(t, "slot", "not accepted")
				}
				slot.fakeId = id
				used[id] = r
				order = append(order, id)
				if rnd.Intn(50) == 0 { // this one is never answered
					order = order[:len(order)-1]
				}
			} else {
				if rnd.Intn(10) == 0 { // an id that is not in use
					var id uint32
					switch rnd.Intn(4) {
					case 0:
						id = 0
					case 1:
						id = 0xffffffff
					case 2:
						id = rnd.Uint32()
					case 3:
						id = start + uint32(rnd.Intn(4000)) - 300
					}
					if used[id] == nil {
						if r := h.remove(id); r != nil {
							vfail(t, "unknown", "ids from %#x: an answer with the unused id %#x finds the request %#x", start, id, r.Id)
						}
						continue
					}
				}
				k := rnd.Intn(len(order))
				id := order[k]
				order = append(order[:k], order[k+1:]...)
				late := rnd.Intn(4) == 0 // it has timed out
				if late {
					used[id].RespondFail(iproto.RcTimeout)
				}
				r := h.remove(id)
				if late && r == nil {
					r = used[id]
				}
				if r != used[id] {
					vfail(t, "match", "ids from %#x: the answer with id %#x finds %v", start, id, r)
				}
				r.RespondFail(iproto.RcOK)
				delete(used, id)
				for k := rnd.Intn(4); k > 0; k-- {
					h.remove(id)
				}
				if r := h.remove(id); r != nil {
					vfail(t, "twice", "ids from %#x: a second answer with id %#x finds a request", start, id)
				}
			}
		}
		all := map[uint32]bool{}
		for _, q := range h.getAll() {
			if all[q.fakeId] || used[q.fakeId] != q.Request {
				vfail(t, "all", "ids from %#x: the list of requests in flight names %#x wrongly", start, q.fakeId)
			}
			all[q.fakeId] = true
		}
		if len(all) != len(used) {
			vfail(t, "all", "ids from %#x: %d requests in flight, %d of them listed", start, len(used), len(all))
		}
	}
	vdone("ids given out and freed in random order", runs)
}

type vresp struct{}

func (vresp) Respond(*iproto.Response) {}

type vans struct {
	r    *iproto.Request
	req  []byte
	n    int
	code iproto.RetCode
	body []byte
}

type vcollect struct {
	mu  sync.Mutex
	all []*vans
}

func (v *vcollect) Respond(res *iproto.Response) {
	v.mu.Lock()
	a := v.all[res.Id]
	a.n++
	a.code, a.body = res.Code, append([]byte(nil), res.Body...)
	v.mu.Unlock()
}

func vframe(b []byte, msg, id uint32, body []byte) []byte {
	var h [12]byte
	binary.LittleEndian.PutUint32(h[:], msg)
	binary.LittleEndian.PutUint32(h[4:], uint32(len(body)))
	binary.LittleEndian.PutUint32(h[8:], id)
	return append(append(b, h[:]...), body...)
}

// the code and body a peer answers a request body with
func vanswer(body []byte) (uint32, []byte) {
	var x uint32 = 17
	for _, c := range body {
		x = x*31 + uint32(c)
	}
	return x &^ 0xff, append([]byte{byte(x)}, body...)
}

const (
	vAll   = iota // answers everything, then closes
	vDrop         // answers some, then closes the socket
	vStop         // the client is stopped, the peer answers what it likes after that
	vModes        // number of modes
)

func TestReplay_C24_conn(t *testing.T) { vconns(t, 24) }
func TestReplay_C25_conn(t *testing.T) { vconns(t, 25) }

func vconns(t *testing.T, salt int64) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip("no loopback")
	}
	defer l.Close()
	rnd := rand.New(rand.NewSource(vseed()*977 + salt))
	runs := vn(60)
	for i := 0; i < runs; i++ {
		vconn1(t, l, rnd, rnd.Intn(vModes))
	}
	vdone("whole connections with a scripted peer", runs)
}

type vpeer struct {
	err  string
	seen int
}

func vconn1(t *testing.T, l net.Listener, rnd *rand.Rand, mode int) {
	errs := make(chan Error, 16)
	conf := &CConf{Network: "tcp", Address: l.Addr().String(), ConnErr: errs}
	c := NewConnection(conf, 1)
	c.inFly.curId = vstart(rnd)
	start := c.inFly.curId
	n := 1 + rnd.Intn(900)
	limit := rnd.Intn(n + 1) // answers given in the modes that end early
	pseed := rnd.Int63()
	window := 1 + rnd.Intn(600)
	done := make(chan vpeer, 1)
	stopped := make(chan bool)
	go func() {
		var p vpeer
		defer func() { done <- p }()
		sock, err := l.Accept()
		if err != nil {
			return
		}
		defer sock.Close()
		rnd := rand.New(rand.NewSource(pseed))
		type rq struct {
			id, msg uint32
			body    []byte
		}
		waiting := []rq{}
		inuse := map[uint32]bool{}
		answered := 0
		bogus := func(out []byte) []byte {
			id := []uint32{0, 0xffffffff, rnd.Uint32(), start + uint32(rnd.Intn(2000))}[rnd.Intn(4)]
			if inuse[id] || mode == vStop || id-start <= uint32(n+300) {
				return out // in use, or may be soon
			}
			return vframe(out, 7, id, []byte{1, 2, 3, 4, 5})
		}
		answer := func() bool {
			var out []byte
			for k := len(waiting); k > 0 && rnd.Intn(8) != 0; k-- {
				if mode != vAll && answered >= limit {
					break
				}
				j := rnd.Intn(len(waiting))
				q := waiting[j]
				waiting = append(waiting[:j], waiting[j+1:]...)
				code, body := vanswer(q.body)
				var cb [4]byte
				binary.LittleEndian.PutUint32(cb[:], code)
				if rnd.Intn(20) == 0 {
					out = bogus(out)
				}
				delete(inuse, q.id)
				out = vframe(out, q.msg, q.id, append(cb[:], body...))
				answered++
			}
			_, err := sock.Write(out)
			return err == nil
		}
		first := true
		for {
			var h [12]byte
			sock.SetReadDeadline(time.Now().Add(5 * time.Second))
			if _, err := io.ReadFull(sock, h[:]); err != nil {
				if err != io.EOF && mode != vDrop {
					p.err = "the peer reads " + err.Error()
				}
				break
			}
			q := rq{msg: binary.LittleEndian.Uint32(h[:]), id: binary.LittleEndian.Uint32(h[8:])}
			q.body = make([]byte, binary.LittleEndian.Uint32(h[4:]))
			io.ReadFull(sock, q.body)
			if q.msg == 0xff00 {
				if !first {
					p.err = "a ping frame in the middle"
					return
				}
				first = false
				sock.Write(h[:])
				continue
			}
			if q.id == 0 || q.id == 0xffffffff {
				p.err = fmt.Sprintf("a request is sent with the reserved id %#x", q.id)
				return
			}
			if inuse[q.id] {
				p.err = fmt.Sprintf("two unanswered requests have the id %#x", q.id)
				return
			}
			if len(q.body) < 4 || binary.LittleEndian.Uint32(q.body)^0x77 != q.msg {
				p.err = "the body of a request is not the one with its type"
				return
			}
			inuse[q.id] = true
			waiting = append(waiting, q)
			p.seen++
			if len(waiting) >= window || p.seen == n || rnd.Intn(40) == 0 {
				if !answer() {
					return
				}
			}
			if mode == vAll && p.seen == n {
				for len(waiting) > 0 && answer() {
				}
				return
			}
			if mode == vDrop && (answered >= limit || p.seen == n) {
				if rnd.Intn(2) == 0 {
					sock.Write([]byte{1, 2, 3}) // in the middle of a frame
				}
				return
			}
		}
		// the client has nothing more to say
		if mode == vStop {
			<-stopped
			for len(waiting) > 0 && answered < limit && answer() {
			}
		}
	}()
	ch := make(chan *iproto.Request, n)
	col := &vcollect{}
	for k := 0; k < n; k++ {
		body := make([]byte, 4+rnd.Intn(30))
		rnd.Read(body[4:])
		binary.LittleEndian.PutUint32(body, uint32(k)^0x77)
		r := &iproto.Request{Msg: iproto.RequestType(k), Id: uint32(k), Body: body, Responder: col}
		col.all = append(col.all, &vans{r: r, req: body})
	}
	c.Run(ch)
	feed := func() {
		for k, a := range col.all {
			if a.r.SetPending() {
				ch <- a.r
			}
			if mode == vStop && k == n/2 {
				go c.Stop()
				close(stopped)
			}
		}
	}
	go feed()
	want := 3 // the reports of a connection
	var last []string
	for want > 0 {
		select {
		case e := <-errs:
			last = append(last, fmt.Sprint(e.When, e.Error))
			want--
		case <-time.After(20 * time.Second):
			vfail(t, "ends", "ids from %#x, mode %d: the connection has not ended (%v)", start, mode, last)
		}
	}
	p := <-done
	if p.err != "" {
		vfail(t, "peer", "ids from %#x, mode %d: %s", start, mode, p.err)
	}
	// answers to those in flight follow the last report
	lost := iproto.RetCode(0xfe03)
	if mode == vStop {
		lost = 0xff03
	}
	for k, a := range col.all {
		for tries := 0; ; tries++ {
			col.mu.Lock()
			num := a.n
			col.mu.Unlock()
			if num > 0 || a.r.State() != iproto.RsInFly {
				break
			}
			if tries > 300 {
				vfail(t, "forgotten", "ids from %#x, mode %d: request %d of %d was sent and is never answered", start, mode, k, n)
			}
			time.Sleep(10 * time.Millisecond)
		}
		col.mu.Lock()
		num, code, body := a.n, a.code, a.body
		col.mu.Unlock()
		if num == 0 {
			continue // never taken
		}
		if num > 1 {
			vfail(t, "once", "ids from %#x, mode %d: request %d is answered %d times", start, mode, k, num)
		}
		wc, wb := vanswer(a.req)
		if code == lost && len(body) == 0 && mode != vAll {
			continue
		}
		if uint32(code) != wc || string(body) != string(wb) {
			vfail(t, "answer", "ids from %#x, mode %d: request %d of %d gets code %#x and a body of %d bytes, not its answer", start, mode, k, n, uint32(code), len(body))
		}
	}
}
