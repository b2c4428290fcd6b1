package iproto

//verif:pkg .

// Concrete drivers for many requests made together (C22).

import (
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"testing"
	"time"
)

func init() { log.SetOutput(ioutil.Discard) }

func vseed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func vn(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}
func vfail(t *testing.T, key, f string, a ...interface{}) {
	fmt.Printf("\nVERIF-FAIL [%s] %s\n", key, fmt.Sprintf(f, a...))
	t.FailNow()
}
func vdone(name string, n int) { fmt.Printf("\nVERIF-CASES %s %d\n", name, n) }

// how one request is treated: 0 answered inside Send, 1 answered by a goroutine of its own,
// 2 answered by one of a few workers, 3 not at all (until it is failed), 4 cancelled by hand
type vmcase struct {
	n      int
	each   bool // collected through the channel
	fail   int  // 0 no, 1 cancelled, 2 timeout of the multi-request, 3 cancelled by the context
	failAt int  // so many requests are made when it is cancelled (-1: while it is collected)
	wait   bool // the answers are there before it is collected
	kinds  string
	delays int // microseconds
	cx     bool
	raced  bool
}

func (c vmcase) String() string {
	return fmt.Sprintf("%d requests (ways %s), by channel %v, failed %d at %d, collected late %v, context %v, delays %d us", c.n, c.kinds, c.each, c.fail, c.failAt, c.wait, c.cx, c.delays)
}

func vmulti(t *testing.T, rnd *rand.Rand, c vmcase) {
	bad := func(f string, a ...interface{}) { vfail(t, "C22-answers", c.String()+": "+f, a...) }
	var cx *Context
	var mr *MultiRequest
	if c.cx || c.fail == 3 {
		cx = &Context{}
		mr = cx.NewMulti()
	} else {
		mr = &MultiRequest{}
	}
	var wg, fg sync.WaitGroup
	pause := func(d int) {
		if d > 200 {
			time.Sleep(time.Duration(d) * time.Microsecond)
		} else {
			for i := 0; i < d; i++ {
				runtime.Gosched()
			}
		}
	}
	work := make(chan func(), c.n+1)
	for i := 0; i < 3; i++ {
		go func() {
			for f := range work {
				f()
			}
		}()
	}
	fail := func() {
		switch c.fail {
		case 1:
			mr.Cancel()
		case 3:
			cx.Cancel()
		}
	}
	if c.fail == 2 {
		mr.SetTimeout(time.Duration(1+rnd.Intn(3)) * time.Millisecond)
	}
	type made struct {
		r    *Request
		way  byte
		code RetCode
	}
	reqs := make([]made, 0, c.n)
	for i := 0; i < c.n; i++ {
		if (c.fail == 1 || c.fail == 3) && i == c.failAt {
			// cancelling a context does not return before the multi-request is collected
			if c.raced || c.fail == 3 {
				fg.Add(1)
				go func() { defer fg.Done(); fail() }()
			} else {
				fail()
			}
		}
		i := i
		if c.fail == 2 && i == c.failAt {
			time.Sleep(6 * time.Millisecond) // the others are made when the time is over
		}
		way := c.kinds[rnd.Intn(len(c.kinds))]
		code := RetCode(256 * (1 + i%50))
		d := rnd.Intn(c.delays + 1)
		serv := SF(func(r *Request) {
			ans := func() { r.RespondBytes(code, []byte{byte(i), byte(i >> 8)}) }
			switch way {
			case '0':
				ans()
			case '1':
				wg.Add(1)
				go func() { defer wg.Done(); pause(d); ans() }()
			case '2':
				wg.Add(1)
				work <- func() { defer wg.Done(); pause(d); ans() }
			case '3':
			case '4':
				wg.Add(1)
				go func() { defer wg.Done(); pause(d); r.Cancel() }()
			}
		})
		r := mr.SendMsgBody(serv, RequestType(7), Body{byte(i)})
		reqs = append(reqs, made{r, way, code})
	}
	if c.wait {
		wg.Wait()
	}
	if (c.fail == 1 || c.fail == 3) && c.failAt < 0 {
		fg.Add(1)
		d := rnd.Intn(c.delays + 1)
		go func() { defer fg.Done(); pause(d); fail() }()
	}
	var res []*Response
	got := make(chan bool)
	go func() {
		if c.each {
			for r := range mr.Each() {
				res = append(res, r)
			}
		} else {
			res = mr.Results()
		}
		close(got)
	}()
	select {
	case <-got:
	case <-time.After(5 * time.Second):
		bad("the answers are not complete (or the channel is not closed) after 5 seconds")
	}
	wg.Wait()
	fg.Wait()
	close(work)
	if len(res) != c.n {
		bad("%d answers", len(res))
	}
	seen := make([]bool, c.n)
	for _, r := range res {
		if r == nil {
			bad("a nil answer")
		}
		i := int(r.Id)
		if i >= c.n {
			bad("an answer to request %d", i)
		}
		if seen[i] {
			bad("two answers to request %d", i)
		}
		seen[i] = true
		if r != reqs[i].r.Response {
			bad("the answer to request %d is not its own", i)
		}
		failed := r.Code == RcCanceled || r.Code == RcTimeout
		switch {
		case !failed && (r.Code != reqs[i].code || len(r.Body) != 2 || int(r.Body[0])|int(r.Body[1])<<8 != i):
			bad("request %d is answered %v %v, wanted %v", i, r.Code, r.Body, reqs[i].code)
		case failed && c.fail == 0 && reqs[i].way != '4':
			bad("request %d is answered %v, though nobody has cancelled it", i, r.Code)
		case r.Code == RcTimeout && c.fail != 2:
			bad("request %d timed out", i)
		}
	}
	if cx != nil && c.fail != 3 {
		for try := 0; ; try++ {
			cx.m.Lock()
			_, in := cx.cancelsm[Canceler(mr)]
			in = in || cx.cancels[0] == Canceler(mr) || cx.cancels[1] == Canceler(mr)
			cx.m.Unlock()
			if !in {
				break
			}
			if try == 200 {
				bad("a collected multi-request is still registered with its context")
			}
			time.Sleep(time.Millisecond)
		}
	}
	ids := make([]int, len(res))
	for i, r := range MultiResponse(res).Sort() {
		ids[i] = int(r.Id)
	}
	if !sort.IntsAreSorted(ids) {
		bad("Sort does not sort: %v", ids)
	}
}

func TestStandin_C22_answers(t *testing.T) {
	rnd := rand.New(rand.NewSource(vseed()*52711 + 22))
	sizes := []int{0, 1, 2, 3, 5, 15, 16, 17, 31, 32, 33, 64, 100, 257}
	ways := []string{"0", "1", "2", "01", "12", "012", "0124", "4", "14"}
	n := 0
	deadline := time.Now().Add(time.Duration(vn(5)) * time.Second)
	for ; n < vn(3000) && time.Now().Before(deadline); n++ {
		c := vmcase{n: sizes[rnd.Intn(len(sizes))], each: rnd.Intn(2) == 0, fail: rnd.Intn(4), failAt: -1,
			wait: rnd.Intn(4) == 0, kinds: ways[rnd.Intn(len(ways))], delays: []int{0, 3, 30, 400}[rnd.Intn(4)], cx: rnd.Intn(2) == 0}
		if rnd.Intn(3) == 0 {
			c.n = rnd.Intn(60)
		}
		if c.fail != 0 {
			if rnd.Intn(2) == 0 && c.n > 0 {
				c.failAt = rnd.Intn(c.n)
				c.raced = rnd.Intn(2) == 0
			}
			if rnd.Intn(2) == 0 {
				c.kinds += "3"
			}
			if c.wait && c.failAt < 0 && c.fail != 2 {
				c.failAt = c.n / 2
			}
			if c.n == 0 {
				c.kinds = "0"
			}
		}
		vmulti(t, rnd, c)
	}
	vdone("C22-answers", n)
}

// the last answers come in while the results are collected
func TestStandin_C22_tight(t *testing.T) {
	n := 0
	deadline := time.Now().Add(time.Duration(vn(5)) * time.Second)
	for ; n < vn(400000) && time.Now().Before(deadline); n++ {
		mr := &MultiRequest{}
		k := 2 + n%5
		reqs := make([]*Request, k)
		for i := range reqs {
			reqs[i] = mr.Request(9, Body(nil))
			reqs[i].SetPending()
			reqs[i].SetInFly(nil)
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := range reqs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				if n%3 == 2 && i == 0 {
					mr.Cancel()
				}
				reqs[i].RespondBytes(0, nil)
			}(i)
		}
		done := make(chan int)
		var cnt int
		go func() {
			<-start
			seen := make([]int, k)
			if n%2 == 0 {
				for r := range mr.Each() {
					seen[r.Id]++
				}
			} else {
				for _, r := range mr.Results() {
					seen[r.Id]++
				}
			}
			for _, s := range seen {
				if s == 1 {
					cnt++
				}
			}
			close(done)
		}()
		close(start)
		wg.Wait()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			vfail(t, "C22-tight", "round %d: %d requests, all answered, are not collected", n, k)
		}
		if cnt != k {
			vfail(t, "C22-tight", "round %d: %d of %d requests have exactly one answer (by channel: %v)", n, cnt, k, n%2 == 0)
		}
	}
	vdone("C22-tight", n)
}
