package iproto

//verif:pkg .

// Concrete drivers for parallel services (C28).

import (
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func init() { log.SetOutput(ioutil.Discard) }

func vseed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func vn(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}
func vfail(t *testing.T, key, f string, a ...interface{}) {
	fmt.Printf("\nVERIF-FAIL [%s] %s\n", key, fmt.Sprintf(f, a...))
	t.FailNow()
}
func vdone(name string, n int) { fmt.Printf("\nVERIF-CASES %s %d\n", name, n) }

type vgot struct {
	n    int32
	res  Response
	done chan bool
}

func (g *vgot) Respond(r *Response) {
	g.res = *r
	if atomic.AddInt32(&g.n, 1) == 1 {
		close(g.done)
	}
}

const (
	pvAnswer = iota
	pvPanic
	pvPanicLate
	pvTimeout
	pvCancelled
	pvNested
	pvKinds
	pvExpired
)

// vparallel: n slots, some requests of every kind; how many handlers run at once is counted
// by the handlers, and every request has to be answered, once and with the right code.
func vparallel(t *testing.T, rnd *rand.Rand, n, reqs int, desc string) {
	var now, most int32
	key := func(f string, a ...interface{}) { vfail(t, "C28-parallel", desc+": "+f, a...) }
	gate := make(chan bool)
	kinds := make([]int, reqs)
	var serv *ParallelService
	handler := func(cx *Context, r *Request) (RetCode, interface{}) {
		c := atomic.AddInt32(&now, 1)
		for {
			m := atomic.LoadInt32(&most)
			if c <= m || atomic.CompareAndSwapInt32(&most, m, c) {
				break
			}
		}
		k := pvAnswer
		if int(r.Id) < reqs {
			k = kinds[r.Id]
		}
		if k != pvPanic {
			<-gate
		}
		atomic.AddInt32(&now, -1)
		switch k {
		case pvPanic, pvPanicLate:
			panic("handler")
		case pvNested:
			r.Respond(RcOK, Body{1})
			panic("after its answer")
		}
		return RetCode(r.Id << 8), Body{byte(r.Id)}
	}
	serv = BF{N: n}.New(handler)
	real := n
	if real == 0 {
		real = 1
	}
	var rs []*Request
	var gs []*vgot
	for i := 0; i < reqs; i++ {
		kinds[i] = rnd.Intn(pvKinds)
		if i < real {
			kinds[i] = pvAnswer // (they fill the slots)
			if rnd.Intn(2) == 0 {
				kinds[i] = pvExpired
			}
		}
		g := &vgot{done: make(chan bool)}
		r := &Request{Id: uint32(i), Msg: 7, Responder: g}
		if kinds[i] == pvTimeout {
			r.SetTimeout(time.Duration(1+rnd.Intn(5)) * time.Millisecond)
		}
		gs, rs = append(gs, g), append(rs, r)
		serv.Send(r)
	}
	until := time.Now().Add(5 * time.Second)
	for atomic.LoadInt32(&now) < int32(real) && time.Now().Before(until) {
		time.Sleep(50 * time.Microsecond)
	}
	if m := atomic.LoadInt32(&now); m != int32(real) {
		key("%d handlers run while %d requests wait for %d slots", m, reqs, real)
	}
	time.Sleep(2 * time.Millisecond)
	for i, k := range kinds {
		if k == pvCancelled {
			rs[i].Cancel()
		}
		if k == pvExpired {
			rs[i].Expire() // (its handler runs: it is left to it)
		}
	}
	close(gate)
	for i, g := range gs {
		select {
		case <-g.done:
		case <-time.After(5 * time.Second):
			key("request %d (kind %d) is never answered", i, kinds[i])
		}
		want := RetCode(i << 8)
		switch kinds[i] {
		case pvPanic, pvPanicLate:
			want = 0xfc02
		case pvNested:
			want = 0
		case pvTimeout:
			if g.res.Code == 0xfd03 {
				want = 0xfd03
			}
		case pvCancelled:
			want = 0xff03
		}
		if g.res.Code != want {
			key("request %d (kind %d) is answered with code %#x, want %#x", i, kinds[i], g.res.Code, want)
		}
		if (kinds[i] == pvAnswer || kinds[i] == pvExpired) && (len(g.res.Body) != 1 || g.res.Body[0] != byte(i)) {
			key("request %d is answered with body %v", i, g.res.Body)
		}
	}
	if m := atomic.LoadInt32(&most); m > int32(real) {
		key("%d handlers ran at once, %d slots", m, real)
	}
	// all the slots are free again, and no more than these
	for round := 0; round < 2; round++ {
		gate = make(chan bool)
		g2 := gate
		atomic.StoreInt32(&most, 0)
		var gs2 []*vgot
		for i := 0; i < 2*real+2; i++ {
			g := &vgot{done: make(chan bool)}
			gs2 = append(gs2, g)
			serv.Send(&Request{Id: uint32(1000000 + i), Msg: 7, Responder: g})
		}
		until = time.Now().Add(5 * time.Second)
		for atomic.LoadInt32(&now) < int32(real) && time.Now().Before(until) {
			time.Sleep(50 * time.Microsecond)
		}
		if m := atomic.LoadInt32(&now); m != int32(real) {
			key("afterwards %d of %d slots are used", m, real)
		}
		time.Sleep(time.Millisecond)
		close(g2)
		for _, g := range gs2 {
			select {
			case <-g.done:
			case <-time.After(5 * time.Second):
				key("a request sent afterwards is never answered")
			}
		}
		if m := atomic.LoadInt32(&most); m != int32(real) {
			key("afterwards %d handlers ran at once, %d slots", m, real)
		}
	}
	for i, g := range gs {
		if m := atomic.LoadInt32(&g.n); m != 1 {
			key("request %d is answered %d times", i, m)
		}
	}
	// whatever is queued when it stops is answered
	gate = make(chan bool)
	g3 := gate
	var gs3 []*vgot
	for i := 0; i < 3*real+3; i++ {
		g := &vgot{done: make(chan bool)}
		gs3 = append(gs3, g)
		serv.Send(&Request{Id: uint32(1000000 + i), Msg: 7, Responder: g})
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { serv.Stop(); wg.Done() }()
	time.Sleep(time.Millisecond)
	close(g3)
	for i, g := range gs3 {
		select {
		case <-g.done:
		case <-time.After(5 * time.Second):
			key("request %d of those sent before it was stopped is never answered", i)
		}
	}
	wg.Wait()
}

func TestReplay_C28(t *testing.T) {
	rnd := rand.New(rand.NewSource(vseed()))
	c := 0
	for i := 0; i < vn(60); i++ {
		n := rnd.Intn(6)
		reqs := n + 1 + rnd.Intn(12)
		vparallel(t, rnd, n, reqs, fmt.Sprintf("%d slots, %d requests, round %d", n, reqs, i))
		c++
	}
	vdone("C28 parallel services", c)
}
