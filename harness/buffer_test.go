package iproto

//verif:pkg .

// Concrete drivers for the queue of an endpoint (C20).

import (
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func init() { log.SetOutput(ioutil.Discard) }

func vseed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func vn(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}
func vfail(t *testing.T, key, f string, a ...interface{}) {
	fmt.Printf("\nVERIF-FAIL [%s] %s\n", key, fmt.Sprintf(f, a...))
	t.FailNow()
}
func vdone(name string, n int) { fmt.Printf("\nVERIF-CASES %s %d\n", name, n) }

type vcount struct{ n int32 }

func (g *vcount) Respond(r *Response) { atomic.AddInt32(&g.n, 1) }

type vpoint struct{ SimplePoint }

func (p *vpoint) Loop() { <-p.ExitChan() }

type vqcase struct {
	senders, each, capn int
	backlog             bool // everything is queued before the worker starts
	cancel              int  // one in so many is cancelled while it waits (0: none)
	pause               int  // the worker rests after so many requests
}

func (c vqcase) String() string {
	return fmt.Sprintf("%d senders of %d requests, channel of %d, backlog %v, cancelled 1/%d, pause %d", c.senders, c.each, c.capn, c.backlog, c.cancel, c.pause)
}

func vqueue(t *testing.T, rnd *rand.Rand, c vqcase) {
	bad := func(f string, a ...interface{}) { vfail(t, "C20-queue", c.String()+": "+f, a...) }
	p := &vpoint{}
	p.SimplePoint.Init(p)
	ch := make(chan *Request, c.capn)
	// what Run does for an endpoint of its own, with a channel of the wanted size
	p.standalone = true
	p.b.init()
	p.b.ch = ch
	go p.b.loop()
	total := c.senders * c.each
	reqs := make([]*Request, total)
	given := make([]vcount, total)
	for i := range reqs {
		reqs[i] = &Request{Id: uint32(i), Responder: &given[i]}
	}
	seen := make([]int, total)
	early := make([]bool, total) // already in the channel when it was cancelled
	last := make([]int, c.senders)
	for i := range last {
		last[i] = -1
	}
	got, want := 0, total
	take := func(r *Request) {
		i := int(r.Id)
		if reqs[i] != r {
			bad("a strange request %p is forwarded", r)
		}
		seen[i]++
		if seen[i] > 1 {
			bad("request %d of sender %d is forwarded twice", i%c.each, i/c.each)
		}
		if i%c.each <= last[i/c.each] {
			bad("request %d of sender %d is forwarded after %d", i%c.each, i/c.each, last[i/c.each])
		}
		last[i/c.each] = i % c.each
		got++
	}
	var wg sync.WaitGroup
	send := func() {
		for s := 0; s < c.senders; s++ {
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				for i := 0; i < c.each; i++ {
					p.Send(reqs[s*c.each+i])
				}
			}(s)
		}
	}
	cancelled := make([]bool, total)
	if c.backlog {
		send()
		wg.Wait()
		time.Sleep(time.Millisecond)
		if c.cancel > 0 {
			for i := range reqs {
				if rnd.Intn(c.cancel) == 0 {
					cancelled[i] = true
					reqs[i].Cancel()
					if atomic.LoadInt32(&given[i].n) != 1 {
						bad("request %d is answered %d times when it is cancelled", i, given[i].n)
					}
				}
			}
		}
		// what was in the channel or in the hand of the loop may come in spite of it
		for i := 0; i <= c.capn && i < total; i++ {
			select {
			case r := <-ch:
				early[r.Id] = cancelled[r.Id]
				take(r)
			case <-time.After(5 * time.Second):
				i = total
			}
		}
	} else {
		send()
	}
	for i := range reqs {
		if cancelled[i] && !early[i] {
			want--
		}
	}
	limit := time.After(20 * time.Second)
	for got < want {
		select {
		case r := <-ch:
			if cancelled[r.Id] && !early[r.Id] {
				bad("request %d was cancelled while it waited and is forwarded", r.Id)
			}
			take(r)
			if c.pause > 0 && got%c.pause == 0 {
				time.Sleep(200 * time.Microsecond)
			}
		case <-limit:
			bad("%d of %d requests are forwarded, the rest is lost", got, want)
		}
	}
	wg.Wait()
	select {
	case r := <-ch:
		take(r)
		bad("request %d comes as one too many", r.Id)
	case <-time.After(5 * time.Millisecond):
	}
	p.b.close()
}

// vslow: some senders are held up between taking their number and filling their slot; some
// of their requests are answered in the meantime.
func vslow(t *testing.T, rnd *rand.Rand, n, slow int, gaps bool) {
	bad := func(f string, a ...interface{}) {
		vfail(t, "C20-slow", "%d requests, 1/%d of the senders slow, gaps %v: %s", n, slow, gaps, fmt.Sprintf(f, a...))
	}
	b := &Buffer{ch: make(chan *Request)}
	b.init()
	go b.loop()
	const (
		plain = iota
		held
		answered
	)
	kind := make([]int, n)
	seen := make([]int, n)
	var locked []*Request
	var wg sync.WaitGroup
	var reqs []*Request
	for i := 0; i < n; i++ {
		r := &Request{Id: uint32(i), Responder: &vcount{}}
		r.SetPending()
		reqs = append(reqs, r)
		if rnd.Intn(slow) != 0 {
			b.push(r)
			continue
		}
		kind[i] = held
		if rnd.Intn(2) == 0 {
			kind[i] = answered
		}
		at := atomic.LoadUint64(&b.tail)
		r.Lock()
		locked = append(locked, r)
		wg.Add(1)
		go func() { b.push(r); wg.Done() }()
		for atomic.LoadUint64(&b.tail) == at {
			time.Sleep(time.Microsecond)
		}
	}
	time.Sleep(time.Millisecond)
	rnd.Shuffle(len(locked), func(i, j int) { locked[i], locked[j] = locked[j], locked[i] })
	go func() {
		for i, r := range locked {
			if kind[r.Id] == answered {
				atomic.StoreUint32(&r.state, RsPerformed)
			}
			r.Unlock()
			if gaps && i%8 == 0 {
				time.Sleep(100 * time.Microsecond)
			}
		}
	}()
	want := 0
	for i := range kind {
		if kind[i] != answered {
			want++
		}
	}
	last := -1
	for got := 0; got < want; got++ {
		select {
		case r := <-b.ch:
			i := int(r.Id)
			if seen[i]++; seen[i] > 1 {
				bad("request %d is forwarded twice", i)
			}
			if kind[i] == answered {
				bad("request %d was answered and is forwarded", i)
			}
			if kind[i] == plain {
				if i < last {
					bad("request %d of one sender is forwarded after %d", i, last)
				}
				last = i
			}
		case <-time.After(10 * time.Second):
			bad("%d of %d requests are forwarded, the rest is lost", got, want)
		}
	}
	wg.Wait()
}

func TestReplay_C20(t *testing.T) {
	rnd := rand.New(rand.NewSource(vseed()))
	n := 0
	for _, c := range []vqcase{
		{1, 5000, 0, true, 0, 0}, {1, 5000, 1, true, 3, 0}, {4, 1500, 5, true, 2, 0}, {8, 700, 3, true, 0, 64},
		{1, 6000, 2, false, 0, 100}, {4, 2000, 1, false, 0, 0}, {8, 1000, 7, false, 0, 50}, {3, 4000, 1024, false, 0, 700},
		{1, 1, 0, false, 0, 0}, {1, 1024, 0, true, 0, 0}, {1, 1025, 0, true, 0, 0}, {1, 2049, 0, true, 1, 0},
	} {
		vqueue(t, rnd, c)
		n++
	}
	for i := 0; i < vn(12); i++ {
		c := vqcase{senders: 1 + rnd.Intn(8), capn: rnd.Intn(20), backlog: rnd.Intn(2) == 0, cancel: rnd.Intn(4), pause: rnd.Intn(200)}
		c.each = 1 + rnd.Intn(6000/c.senders)
		vqueue(t, rnd, c)
		n++
	}
	// bursts of one request at a time: every one has to wake the loop
	for i := 0; i < vn(400); i++ {
		vqueue(t, rnd, vqcase{senders: 1 + i%3, each: 1 + i%2, capn: 0, backlog: i%2 == 0})
		n++
	}
	for i := 0; i < vn(60); i++ {
		vslow(t, rnd, 2+rnd.Intn(40), 1+rnd.Intn(6), i%2 == 0)
		n++
	}
	for i := 0; i < vn(3); i++ {
		vslow(t, rnd, 3000, 50, i%2 == 0)
		n++
	}
	vdone("queues", n)
}
