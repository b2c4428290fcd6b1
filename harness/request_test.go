package iproto

//verif:pkg .

// Concrete drivers for requests, bookmarks, services and contexts (C16-C18, C21, C23, C29):
// every short history against a reference model, and schedules of competing completers.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func init() { log.SetOutput(ioutil.Discard) }

func vseed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }
func vn(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}
func vfail(t *testing.T, key, f string, a ...interface{}) {
	fmt.Printf("\nVERIF-FAIL [%s] %s\n", key, fmt.Sprintf(f, a...))
	t.FailNow()
}
func vdone(name string, n int) { fmt.Printf("\nVERIF-CASES %s %d\n", name, n) }

// vcall runs f and gives its panic; a call that does not come back within a few seconds fails.
func vcall(f func()) (p interface{}, hung bool) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() { p = recover() }()
		f()
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		return nil, true
	}
	return
}

// ---- one request, one history ----

type vevent struct {
	who  int // bookmark number from 1, 0: the responder
	res  Response
	st   uint32
	head bool
}

type vmark struct {
	Bookmark
	n     int
	log   *[]vevent
	rearm int // 1: back to pending, 2: back to new (first time only)
	model int // the same, for the model
}

func (m *vmark) Respond(res *Response) {
	*m.log = append(*m.log, vevent{who: m.n, res: *res, st: m.Request.state})
	switch m.rearm {
	case 1:
		m.rearm = 0
		m.Request.ResetToPending()
	case 2:
		m.rearm = 0
		m.Request.ResetToNew()
	}
}

type vresp struct {
	r   *Request
	log *[]vevent
}

func (v *vresp) Respond(res *Response) {
	*v.log = append(*v.log, vevent{who: 0, res: *res, st: v.r.state})
}

const (
	voPending = iota
	voFly
	voFlyMark
	voMark
	voMarkRearm
	voBytes
	voRespond
	voFail
	voCancel
	voExpire
	voIO
	voShut
	voTimeoutTwice
	voCount
)

var vopName = []string{"SetPending", "SetInFly(nil)", "SetInFly(mark)", "ChainBookmark", "ChainBookmark(re-arming)", "RespondBytes", "Respond", "RespondFail", "Cancel", "Expire", "IOError", "ShutDown", "Expire again"}

func vopsText(ops []int) string {
	s := ""
	for _, o := range ops {
		s += vopName[o] + "; "
	}
	return s
}

// vhistory runs the operations on one request beside a model of it. It gives the first
// disagreement and the property it is about.
func vhistory(ops []int, id uint32, msg RequestType, preset bool) (prop, what string) {
	var log []vevent
	r := &Request{Id: id, Msg: msg}
	if preset {
		r.Response = &Response{Id: 999, Msg: 998, Code: 997, Body: Body("old")}
	}
	r.Responder = &vresp{r, &log}
	// model: 0 new, 1 pending, 2 in flight, 8 answered
	st := 0
	var marks []*vmark // attached, oldest first
	seen := 0
	nmark := 0
	answers := 0
	for k, o := range ops {
		at := fmt.Sprintf("after %sthe model and the request disagree: ", vopsText(ops[:k+1]))
		complete := func(code RetCode, body []byte, need bool) (string, string) {
			// expected events
			got := log[seen:]
			seen = len(log)
			if need && st != 2 || st == 8 {
				if len(got) != 0 {
					return "C16", fmt.Sprintf("%sthe completion must be ignored, but %d were told", at, len(got))
				}
				return "", ""
			}
			i := 0
			for n := len(marks) - 1; n >= 0; n-- {
				if i >= len(got) || got[i].who != marks[n].n {
					return "C18", fmt.Sprintf("%sbookmark %d should be told as number %d, told: %v", at, marks[n].n, i, got)
				}
				i++
				if rearmed := got[i-1].st; rearmed != RsPrepared {
					return "C16", fmt.Sprintf("%sbookmark %d is told in state %d", at, marks[n].n, rearmed)
				}
				marks = marks[:n+1]
				if marks[n].model != 0 {
					// re-armed by this bookmark
					st = 2 - marks[n].model
					marks[n].model = 0
					if i != len(got) {
						return "C16", fmt.Sprintf("%safter the request was re-armed others were told", at)
					}
					return "", ""
				}
			}
			if i >= len(got) || got[i].who != 0 {
				return "C16", fmt.Sprintf("%sthe responder was not called", at)
			}
			i++
			if i != len(got) {
				return "C16", fmt.Sprintf("%smore than the bookmarks and the responder were told: %v", at, got)
			}
			answers++
			if answers > 1 {
				return "C16", at + "answered twice"
			}
			for _, e := range got {
				if e.res.Id != id || e.res.Msg != msg || e.res.Code != code || !bytes.Equal(e.res.Body, body) || (len(body) > 0 && &e.res.Body[0] != &body[0]) {
					return "C17", fmt.Sprintf("%sanswer id=%d msg=%d code=%#x body=%x, want id=%d msg=%d code=%#x body=%x", at, e.res.Id, e.res.Msg, uint32(e.res.Code), []byte(e.res.Body), id, msg, uint32(code), body)
				}
			}
			for _, m := range marks {
				if m.Request != nil || m.prev != nil {
					return "C18", fmt.Sprintf("%sbookmark %d still holds its request", at, m.n)
				}
			}
			if f := reflect.ValueOf(r).Elem().FieldByName("chain"); f.IsValid() && f.Kind() == reflect.Interface && !f.IsNil() {
				return "C18", at + "a bookmark is still attached to the answered request"
			}
			marks = nil
			st = 8
			return "", ""
		}
		ignored := func() (string, string) {
			if len(log) != seen {
				return "C16", fmt.Sprintf("%ssomebody was told: %v", at, log[seen:])
			}
			return "", ""
		}
		mk := func(rearm int) *vmark {
			nmark++
			return &vmark{n: nmark, log: &log, rearm: rearm}
		}
		p, w := "", ""
		switch o {
		case voPending:
			if got := r.SetPending(); got != (st == 0) {
				return "C29", fmt.Sprintf("%sSetPending gives %v", at, got)
			} else if got {
				st = 1
			}
			p, w = ignored()
		case voFly:
			if got := r.SetInFly(nil); got != (st == 1) {
				return "C16", fmt.Sprintf("%sSetInFly gives %v", at, got)
			} else if got {
				st = 2
			}
			p, w = ignored()
		case voFlyMark:
			m := mk(0)
			if got := r.SetInFly(m); got != (st == 1) {
				return "C16", fmt.Sprintf("%sSetInFly gives %v", at, got)
			} else if got {
				st = 2
				marks = append(marks, m)
			} else if m.Request != nil || m.prev != nil {
				return "C18", at + "a refused bookmark is attached"
			}
			p, w = ignored()
		case voMark, voMarkRearm:
			m := mk(0)
			if o == voMarkRearm {
				m.rearm = 1 + len(ops)%2
				m.model = m.rearm
			}
			if got := r.ChainBookmark(m); got != (st <= 1) {
				return "C18", fmt.Sprintf("%sChainBookmark gives %v", at, got)
			} else if got {
				marks = append(marks, m)
				if m.Request != r {
					return "C18", at + "an attached bookmark does not know its request"
				}
			} else if m.Request != nil || m.prev != nil {
				return "C18", at + "a refused bookmark is attached"
			}
			p, w = ignored()
		case voBytes:
			b := []byte{byte(k), 7}
			r.RespondBytes(RetCode(100+k), b)
			p, w = complete(RetCode(100+k), b, true)
		case voRespond:
			b := []byte{9, byte(k)}
			r.Respond(RetCode(200+k), Body(b))
			p, w = complete(RetCode(200+k), b, true)
		case voFail:
			r.RespondFail(RetCode(300 + k))
			p, w = complete(RetCode(300+k), nil, false)
		case voCancel:
			r.Cancel()
			p, w = complete(0xff03, nil, false)
		case voExpire, voTimeoutTwice:
			r.Expire()
			p, w = complete(0xfd03, nil, false)
		case voIO:
			r.IOError()
			p, w = complete(0xfe03, nil, false)
		case voShut:
			r.ShutDown()
			p, w = complete(0xff03, nil, false)
		}
		if p != "" {
			return p, w
		}
		if want := map[int]uint32{0: RsNew, 1: RsPending, 2: RsInFly, 8: RsPerformed}[st]; r.State() != want {
			return "C16", fmt.Sprintf("%sstate %d, want %d", at, r.State(), want)
		}
		if r.Performed() != (st == 8) {
			return "C16", fmt.Sprintf("%sPerformed() is %v", at, r.Performed())
		}
		if r.IsPending() != (st == 1) {
			return "C16", fmt.Sprintf("%sIsPending() is %v", at, r.IsPending())
		}
	}
	return "", ""
}

func vhistories(t *testing.T, name string, props ...string) {
	n := 0
	one := func(ops []int) {
		n++
		var p, w string
		pan, hung := vcall(func() { p, w = vhistory(ops, uint32(n*7+1), RequestType(n%5), n%3 == 0) })
		if hung || pan != nil {
			p, w = props[0], fmt.Sprintf("%spanics: %v, hangs: %v", vopsText(ops), pan, hung)
		}
		for _, q := range props {
			if p == q {
				vfail(t, p+":history", "%s", w)
			}
		}
	}
	var rec func(ops []int, d int)
	rec = func(ops []int, d int) {
		if d == 0 {
			one(ops)
			return
		}
		for o := 0; o < voCount; o++ {
			rec(append(ops[:len(ops):len(ops)], o), d-1)
		}
	}
	rec(nil, 4)
	rng := rand.New(rand.NewSource(vseed()))
	for i := 0; i < vn(60000); i++ {
		ops := make([]int, 3+rng.Intn(12))
		for j := range ops {
			ops[j] = rng.Intn(voCount)
			if rng.Intn(2) == 0 {
				ops[j] = rng.Intn(5) // longer lives
			}
		}
		one(ops)
	}
	vdone(name, n)
}

// ---- competing completers ----

type vcount struct {
	n     int32
	res   chan Response
	delay bool
}

func (c *vcount) Respond(r *Response) {
	if c.delay {
		for i := 0; i < 3; i++ {
			runtime.Gosched()
		}
	}
	atomic.AddInt32(&c.n, 1)
	c.res <- *r
}

// slow marks let other completers in between
type vslow struct {
	Bookmark
	n   int32
	act func(*Request)
}

func (m *vslow) Respond(r *Response) {
	atomic.AddInt32(&m.n, 1)
	for i := 0; i < 3; i++ {
		runtime.Gosched()
	}
	time.Sleep(time.Microsecond)
}

func vcompete(t *testing.T, name string) {
	rng := rand.New(rand.NewSource(vseed()))
	n := vn(3000)
	for i := 0; i < n; i++ {
		c := &vcount{res: make(chan Response, 64), delay: i%2 == 0}
		r := &Request{Id: uint32(i), Msg: 5, Responder: c}
		nm := rng.Intn(4)
		var marks []*vslow
		for k := 0; k < nm; k++ {
			m := &vslow{}
			marks = append(marks, m)
			if !r.ChainBookmark(m) {
				vfail(t, "C18:attach", "a bookmark cannot be attached to a new request")
			}
		}
		r.SetPending()
		fly := rng.Intn(3) > 0
		if fly {
			r.SetInFly(nil)
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		k := 2 + rng.Intn(5)
		kinds := make([]int, k)
		for j := 0; j < k; j++ {
			kinds[j] = rng.Intn(5)
			kind := kinds[j]
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				switch kind {
				case 0:
					r.RespondBytes(1, []byte{1})
				case 1:
					r.Cancel()
				case 2:
					r.Expire()
				case 3:
					r.IOError()
				case 4:
					r.RespondBytes(2, []byte{2})
				}
			}()
		}
		close(start)
		wg.Wait()
		want := int32(0)
		ok := map[RetCode]bool{}
		for _, kd := range kinds {
			if fly || (kd >= 1 && kd <= 3) {
				want = 1
			}
			ok[[]RetCode{1, 0xff03, 0xfd03, 0xfe03, 2}[kd]] = true
		}
		if got := atomic.LoadInt32(&c.n); got != want {
			vfail(t, "C16:compete", "completers %v of a request (in flight: %v, %d bookmarks): the responder was called %d times, want %d", kinds, fly, nm, got, want)
		}
		for _, m := range marks {
			if got := atomic.LoadInt32(&m.n); got != want {
				vfail(t, "C18:compete", "completers %v (in flight: %v): a bookmark was told %d times, want %d", kinds, fly, got, want)
			}
		}
		if want == 1 {
			res := <-c.res
			if !ok[res.Code] || (len(res.Body) > 0) != (res.Code < 100) || len(res.Body) > 0 && res.Body[0] != byte(res.Code) || res.Id != r.Id || res.Msg != 5 {
				vfail(t, "C17:compete", "completers %v: answer %v", kinds, res)
			}
		}
	}
	vdone(name, n)
}

// a completion while another one is telling: it has to wait and then be ignored; the answer
// already handed over stays as it was
type vblock struct {
	Bookmark
	in, out chan struct{}
	res     *Response
	before  Response
}

func (m *vblock) Respond(r *Response) {
	m.res = r
	m.before = *r
	close(m.in)
	<-m.out
}

func vduring(t *testing.T, name string) {
	n := 0
	for late := 0; late < 7; late++ {
		for where := 0; where < 2; where++ {
			for first := 0; first < 3; first++ {
				n++
				b := &vblock{in: make(chan struct{}), out: make(chan struct{})}
				c := &vcount{res: make(chan Response, 8)}
				r := &Request{Id: 77, Msg: 3, Responder: c}
				if where == 0 {
					r.ChainBookmark(b)
				} else {
					r.Responder = Callback(func(res *Response) { b.Respond(res); c.Respond(res) })
				}
				r.SetPending()
				r.SetInFly(nil)
				codes := []RetCode{11, 0xff03, 0xfd03}
				go func() {
					switch first {
					case 0:
						r.RespondBytes(11, []byte("answer"))
					case 1:
						r.Cancel()
					case 2:
						r.Expire()
					}
				}()
				<-b.in
				done := make(chan bool, 1)
				go func() {
					switch late {
					case 0:
						r.RespondBytes(12, []byte("other"))
					case 1:
						r.Cancel()
					case 2:
						r.Expire()
					case 3:
						r.IOError()
					case 4:
						r.ShutDown()
					case 5:
						r.SetInFly(nil)
					case 6:
						r.SetPending()
					}
					done <- true
				}()
				time.Sleep(200 * time.Microsecond)
				if *(&b.res.Code) != b.before.Code || b.res.Id != 77 || !bytes.Equal(b.res.Body, b.before.Body) {
					vfail(t, "C17:during", "while the answer was being told it changed from %v to %v", b.before, *b.res)
				}
				close(b.out)
				select {
				case <-done:
				case <-time.After(5 * time.Second):
					vfail(t, "C16:stuck", "a late completion (%d) never returns", late)
				}
				var res Response
				select {
				case res = <-c.res:
				case <-time.After(5 * time.Second):
					vfail(t, "C16:lost", "the responder was not called")
				}
				time.Sleep(50 * time.Microsecond)
				if atomic.LoadInt32(&c.n) != 1 {
					vfail(t, "C16:during", "a completion (%d) during the answer: the responder was called %d times", late, c.n)
				}
				if res.Code != codes[first] || (first == 0) != (string(res.Body) == "answer") {
					vfail(t, "C17:during", "a completion (%d) during the answer: got %v, want code %#x", late, res, uint32(codes[first]))
				}
				if r.Performed() != true || r.SetInFly(nil) || r.SetPending() {
					vfail(t, "C16:during", "an answered request can be worked on again")
				}
			}
		}
	}
	vdone(name, n)
}

// bookmarks attached while others complete: told, or refused
func vattach(t *testing.T, name string) {
	n := vn(3000)
	for i := 0; i < n; i++ {
		c := &vcount{res: make(chan Response, 8)}
		r := &Request{Id: uint32(i), Responder: c}
		if i%2 == 0 {
			r.SetPending()
		}
		ms := make([]*vslow, 6)
		oks := make([]bool, 6)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k := range ms {
			k := k
			ms[k] = &vslow{}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if k%3 == 2 {
					oks[k] = r.SetInFly(ms[k])
				} else {
					oks[k] = r.ChainBookmark(ms[k])
				}
			}()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if i%3 == 0 {
				runtime.Gosched()
			}
			if i%5 == 0 {
				r.RespondBytes(1, nil)
			}
			r.Cancel()
		}()
		close(start)
		wg.Wait()
		taken := 0
		for k, m := range ms {
			want := int32(0)
			if oks[k] {
				want = 1
				if k%3 == 2 {
					taken++
				}
			}
			if got := atomic.LoadInt32(&m.n); got != want {
				vfail(t, "C18:attach", "a bookmark (taker: %v) whose attachment reported %v was told %d times", k%3 == 2, oks[k], got)
			}
			if m.Request != nil {
				vfail(t, "C18:attach", "a bookmark still holds its answered request")
			}
		}
		if taken > 1 {
			vfail(t, "C16:taken", "a request was taken %d times", taken)
		}
		if atomic.LoadInt32(&c.n) != 1 {
			vfail(t, "C16:attach", "cancelled request: the responder was called %d times", c.n)
		}
	}
	vdone(name, n)
}

// contexts of a worker: a timeout hands the request back in flight, the end of the work without
// an answer is an internal error
func vworker(t *testing.T, name string) {
	n := 0
	for _, kind := range []int{0, 1, 2, 3, 4} {
		n++
		c := &vcount{res: make(chan Response, 8)}
		r := &Request{Id: 5, Msg: 6, Responder: c}
		r.SetPending()
		cx := r.Context()
		if cx == nil {
			vfail(t, "C16:worker", "a pending request cannot be taken")
		}
		if r.Context() != nil {
			vfail(t, "C16:worker", "a request was taken twice")
		}
		want := RetCode(0)
		switch kind {
		case 0:
			r.RespondBytes(9, []byte{1})
			want = 9
		case 1:
			r.Cancel()
			want = 0xff03
			if cx.Context.State != CxCanceled {
				vfail(t, "C23:worker", "a cancelled request leaves its context in state %d", cx.Context.State)
			}
		case 2:
			r.Expire()
			if atomic.LoadInt32(&c.n) != 0 || r.State() != RsInFly {
				vfail(t, "C16:worker", "a timeout of a worker's request: %d answers, state %d", c.n, r.State())
			}
			if cx.Context.State != CxTimeout {
				vfail(t, "C23:worker", "an expired request leaves its context in state %d", cx.Context.State)
			}
			r.RespondBytes(8, nil)
			want = 8
		case 3:
			cx.Done()
			want = 0xfc02
		case 4:
			r.Expire()
			cx.Done()
			want = 0xfc02
		}
		if atomic.LoadInt32(&c.n) != 1 {
			vfail(t, "C16:worker", "case %d: %d answers", kind, c.n)
		}
		if res := <-c.res; res.Code != want || res.Id != 5 || res.Msg != 6 {
			vfail(t, "C17:worker", "case %d: answer %v, want code %#x", kind, res, uint32(want))
		}
	}
	vdone(name, n)
}

func TestReplay_C16_history(t *testing.T) { vhistories(t, "C16 histories", "C16") }
func TestReplay_C16_compete(t *testing.T) { vcompete(t, "C16 competing completers") }
func TestReplay_C16_during(t *testing.T)  { vduring(t, "C16 completions during an answer") }
func TestReplay_C16_attach(t *testing.T)  { vattach(t, "C16 takers and completers") }
func TestReplay_C16_worker(t *testing.T)  { vworker(t, "C16 workers") }

func TestReplay_C17_history(t *testing.T) { vhistories(t, "C17 histories", "C17") }
func TestReplay_C17_compete(t *testing.T) { vcompete(t, "C17 competing completers") }
func TestReplay_C17_during(t *testing.T)  { vduring(t, "C17 completions during an answer") }
func TestReplay_C17_worker(t *testing.T)  { vworker(t, "C17 workers") }

func TestReplay_C18_history(t *testing.T) { vhistories(t, "C18 histories", "C18") }
func TestReplay_C18_attach(t *testing.T)  { vattach(t, "C18 attaching and completing") }
func TestReplay_C18_compete(t *testing.T) { vcompete(t, "C18 competing completers") }
func TestReplay_C18_during(t *testing.T)  { vduring(t, "C18 completions during an answer") }

// the statistics wrapper tells once per request, while it still knows the request
func TestReplay_C18_stat(t *testing.T) {
	n := 0
	for kind := 0; kind < 3; kind++ {
		n++
		var told int32
		var seen *Request
		c := &vcount{res: make(chan Response, 8)}
		s := StatWrap(SF(func(r *Request) {
			switch kind {
			case 0:
				r.RespondBytes(0, nil)
			case 1:
				r.Cancel()
			case 2:
				r.Expire()
				r.RespondBytes(0, nil)
			}
		}), func(r *Request, d time.Duration) { atomic.AddInt32(&told, 1); seen = r })
		r := &Request{Id: 3, Responder: c}
		if p, hung := vcall(func() { s.Send(r) }); p != nil || hung {
			vfail(t, "C18:stat", "sending through StatWrap: panic %v, hung %v", p, hung)
		}
		if told != 1 || seen != r || c.n != 1 {
			vfail(t, "C18:stat", "kind %d: the statistics were told %d times about %v, %d answers", kind, told, seen == r, c.n)
		}
		r2 := &Request{Id: 3, Responder: c}
		r2.Cancel()
		if p, hung := vcall(func() { s.Send(r2) }); p != nil || hung {
			vfail(t, "C18:stat", "sending an answered request through StatWrap: panic %v, hung %v", p, hung)
		}
		if told != 1 {
			vfail(t, "C18:stat", "an answered request was counted")
		}
	}
	vdone("C18 statistics", n)
}

// ---- endpoints and function services (C29) ----

type vloop struct{ SimplePoint }

func (*vloop) Loop() {}

func TestReplay_C29(t *testing.T) {
	n := 0
	states := []string{"new", "pending", "in flight", "answered", "re-armed to new"}
	mk := func(st int) (*Request, *vcount) {
		c := &vcount{res: make(chan Response, 8)}
		r := &Request{Id: 3, Responder: c}
		switch st {
		case 1:
			r.SetPending()
		case 2:
			r.SetPending()
			r.SetInFly(nil)
		case 3:
			r.Cancel()
		}
		return r, c
	}
	for st := 0; st < 4; st++ {
		for _, kind := range []string{"SF", "Route", "EndPoint", "child", "idle", "timeout"} {
			n++
			r, c := mk(st)
			called := 0
			switch kind {
			case "SF":
				p, hung := vcall(func() {
					SF(func(q *Request) {
						called++
						if q != r || q.State() != RsInFly {
							vfail(t, "C29:sf", "a function service is called with a request in state %d", q.State())
						}
					}).Send(r)
				})
				if p != nil || hung {
					vfail(t, "C29:sf", "a function service with a request that is %s: panic %v hung %v", states[st], p, hung)
				}
				if (called == 1) != (st == 0) || called > 1 {
					vfail(t, "C29:sf", "a function service was called %d times with a request that is %s", called, states[st])
				}
			case "Route":
				Route(func(q *Request) { called++ }).Send(r)
				if (called == 1) != (st == 0) || called > 1 {
					vfail(t, "C29:route", "a route was called %d times with a request that is %s", called, states[st])
				}
			default:
				p := &vloop{}
				p.Init(p)
				if kind == "timeout" {
					p.Timeout = time.Hour
				}
				ch := make(chan *Request, 4)
				if kind == "child" {
					p.Run(ch)
				} else if kind != "idle" {
					p.b.init()
					p.standalone = true
					p.b.ch = ch
				}
				pan, hung := vcall(func() { p.Send(r) })
				loud := kind == "child" || kind == "idle" || st == 1 || st == 2
				if (pan != nil) != loud || hung {
					vfail(t, "C29:send", "%s endpoint, request %s: panic %v, hung %v", kind, states[st], pan, hung)
				}
				q := 0
				if !loud && st == 0 {
					q = 1
				}
				if len(ch) != q {
					vfail(t, "C29:send", "%s endpoint, request %s: queued %d times, want %d", kind, states[st], len(ch), q)
				}
				if q == 1 && (<-ch != r || r.State() != RsPending) {
					vfail(t, "C29:send", "%s endpoint: wrong request or state %d", kind, r.State())
				}
				if kind == "timeout" {
					if (r.timer.h != 0) != (q == 1) {
						vfail(t, "C29:timeout", "request %s: timer set: %v", states[st], r.timer.h != 0)
					}
					r.Cancel()
				}
				if !loud && st == 0 && kind == "EndPoint" {
					// sending again elsewhere
					if pan, _ := vcall(func() { p.Send(r) }); pan == nil || len(ch) != 0 {
						vfail(t, "C29:send", "a request sent twice: panic %v, queued %d times more", pan, len(ch))
					}
				}
			}
			_ = c
		}
	}
	// competing senders
	for i := 0; i < vn(2000); i++ {
		n++
		p := &vloop{}
		p.Init(p)
		p.b.init()
		p.standalone = true
		p.b.ch = make(chan *Request, 8)
		r, _ := mk(0)
		var wg sync.WaitGroup
		var calls, pans int32
		start := make(chan struct{})
		for k := 0; k < 4; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if recover() != nil {
						atomic.AddInt32(&pans, 1)
					}
				}()
				<-start
				if k < 2 {
					p.Send(r)
				} else {
					SF(func(*Request) { atomic.AddInt32(&calls, 1) }).Send(r)
				}
			}()
		}
		close(start)
		wg.Wait()
		if len(p.b.ch)+int(calls) != 1 {
			vfail(t, "C29:compete", "competing senders: queued %d times, %d calls", len(p.b.ch), calls)
		}
	}
	vdone("C29 services", n)
}

// ---- generators (C21) ----

type vpair struct{ A, B uint32 }

func TestReplay_C21(t *testing.T) {
	rng := rand.New(rand.NewSource(vseed()))
	n := 0
	for round := 0; round < vn(30); round++ {
		g := GetGenerator()
		reqs := map[*Request]bool{}
		ress := map[*Response]bool{}
		var all []*Request
		var want [][]byte
		for i := 0; i < 20+rng.Intn(300); i++ {
			n++
			if rng.Intn(40) == 0 {
				g.Release()
				g = GetGenerator()
			}
			id, msg := rng.Uint32(), RequestType(rng.Uint32())
			var r *Request
			var b []byte
			switch rng.Intn(4) {
			case 0:
				b = make([]byte, rng.Intn(40))
				rng.Read(b)
				r = g.Request(id, msg, Body(b))
				if len(b) > 0 && (len(r.Body) != len(b) || &r.Body[0] != &b[0]) {
					vfail(t, "C21:body", "given bytes are not passed on as they are")
				}
			case 1:
				v := rng.Uint32()
				b = make([]byte, 4)
				binary.LittleEndian.PutUint32(b, v)
				r = g.Request(id, msg, v)
			case 2:
				b = make([]byte, rng.Intn(700))
				rng.Read(b)
				r = g.Request(id, msg, []byte(b))
				b = append([]byte{byte(len(b)), byte(len(b) >> 8), 0, 0}, b...)
			case 3:
				v := vpair{rng.Uint32(), rng.Uint32()}
				b = make([]byte, 8)
				binary.LittleEndian.PutUint32(b, v.A)
				binary.LittleEndian.PutUint32(b[4:], v.B)
				r = g.Request(id, msg, v)
			}
			if reqs[r] || ress[r.Response] || r.Response == nil {
				vfail(t, "C21:fresh", "request %d shares its storage with an earlier one", i)
			}
			if r.Id != id || r.Msg != msg || r.State() != RsNew || r.chain != nil || r.Responder != nil || r.timerSet {
				vfail(t, "C21:new", "request %d: id %d (want %d) type %d (want %d) state %d", i, r.Id, id, r.Msg, msg, r.State())
			}
			reqs[r], ress[r.Response] = true, true
			all, want = append(all, r), append(want, b)
			if !bytes.Equal(r.Body, b) {
				vfail(t, "C21:body", "request %d: body %x, want %x", i, []byte(r.Body), b)
			}
			if rng.Intn(3) == 0 {
				r.Responder = Callback(func(*Response) {})
				r.Cancel()
				want[len(want)-1] = nil
			}
		}
		// bodies are not shared: growing or overwriting one changes no other
		for i, r := range all {
			if !bytes.Equal(r.Body, want[i]) {
				vfail(t, "C21:share", "the body of request %d changed after later requests: %x, want %x", i, []byte(r.Body), want[i])
			}
		}
		for i, r := range all {
			if len(r.Body) == 0 {
				continue
			}
			for k := range r.Body {
				r.Body[k] ^= 0xff
			}
			_ = append(r.Body, 1, 2, 3)
			for j := i + 1; j < len(all) && j < i+40; j++ {
				if !bytes.Equal(all[j].Body, want[j]) {
					vfail(t, "C21:share", "the bodies of requests %d and %d overlap", i, j)
				}
			}
		}
		g.Release()
	}
	vdone("C21 generated requests", n)
}

// many users of the generator cache: nobody shares
func TestReplay_C21_parallel(t *testing.T) {
	var mu sync.Mutex
	seen := map[*Request]bool{}
	var wg sync.WaitGroup
	bad := ""
	n := vn(300)
	for w := 0; w < 8; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				cx := &Context{}
				var rs []*Request
				for k := 0; k < 5; k++ {
					r, _ := cx.NewRequest(RequestType(w), uint32(w*1000000+i*10+k))
					rs = append(rs, r)
				}
				runtime.Gosched()
				for k, r := range rs {
					if len(r.Body) != 4 || binary.LittleEndian.Uint32(r.Body) != uint32(w*1000000+i*10+k) || r.Msg != RequestType(w) || r.Id != uint32(k+1) {
						mu.Lock()
						bad = fmt.Sprintf("request %d of a context has id %d type %d body %x", k, r.Id, r.Msg, []byte(r.Body))
						mu.Unlock()
					}
					mu.Lock()
					if seen[r] {
						bad = "two contexts share a request"
					}
					seen[r] = true
					mu.Unlock()
				}
				cx.Cancel()
				cx.Done()
			}
		}()
	}
	wg.Wait()
	if bad != "" {
		vfail(t, "C21:parallel", "%s", bad)
	}
	vdone("C21 parallel users", n*40)
}

// ---- contexts (C23) ----

type vcanceler struct {
	n  int32
	cx *Context
	// leaves on its own before being cancelled
}

func (c *vcanceler) Cancel() {
	if atomic.AddInt32(&c.n, 1) == 1 {
		c.cx.RemoveCanceler(c)
	}
}

func TestStandin_C23_sequential(t *testing.T) {
	rng := rand.New(rand.NewSource(vseed()))
	n := 0
	for round := 0; round < vn(3000); round++ {
		n++
		cx := &Context{}
		var live []*vcanceler // registered
		var gone []*vcanceler
		over := CxState(0)
		steps := 1 + rng.Intn(14)
		trace := ""
		for s := 0; s < steps; s++ {
			switch k := rng.Intn(7); {
			case k < 4:
				c := &vcanceler{cx: cx}
				trace += "add "
				cx.AddCanceler(c)
				if over != 0 {
					if c.n == 0 {
						vfail(t, "C23:late", "%s: registered with a context that is over (%d) and not cancelled", trace, over)
					}
				} else {
					live = append(live, c)
				}
			case k < 6 && len(live) > 0:
				i := rng.Intn(len(live))
				trace += fmt.Sprintf("remove(%d of %d) ", i, len(live))
				cx.RemoveCanceler(live[i])
				gone = append(gone, live[i])
				live = append(live[:i], live[i+1:]...)
			case k == 6 && rng.Intn(3) == 0:
				want := CxCanceled
				do := cx.Cancel
				if rng.Intn(2) == 0 {
					want, do = CxTimeout, cx.Expire
				}
				trace += fmt.Sprintf("end(%d) ", want)
				if _, hung := vcall(do); hung {
					vfail(t, "C23:hang", "%s: ending the context never returns", trace)
				}
				if over == 0 {
					over = want
				}
				if cx.State != over {
					vfail(t, "C23:reason", "%s: recorded reason %d, want %d", trace, cx.State, over)
				}
				for _, c := range live {
					if c.n != 1 {
						vfail(t, "C23:reach", "%s: something registered was cancelled %d times", trace, c.n)
					}
				}
				live = nil
				for _, c := range gone {
					if c.n != 0 {
						vfail(t, "C23:gone", "%s: something unregistered was cancelled", trace)
					}
				}
			}
			// what is registered is exactly what the context knows
			know := len(cx.cancelsm)
			for _, c := range cx.cancels {
				if c != nil {
					know++
				}
			}
			if know != len(live) {
				vfail(t, "C23:unregister", "%s: %d registered, the context knows %d", trace, len(live), know)
			}
			for _, c := range live {
				_, inm := cx.cancelsm[c]
				if !(cx.cancels[0] == Canceler(c) || cx.cancels[1] == Canceler(c) || inm) {
					vfail(t, "C23:unregister", "%s: something registered was lost", trace)
				}
			}
			if cx.Alive() != (over == 0) || cx.Timeout() != (over == CxTimeout) {
				vfail(t, "C23:reason", "%s: Alive %v Timeout %v", trace, cx.Alive(), cx.Timeout())
			}
		}
		if over == 0 {
			hangs := len(live) > 0
			done := make(chan struct{})
			go func() { cx.WaitAll(); close(done) }()
			if !hangs {
				select {
				case <-done:
				case <-time.After(5 * time.Second):
					vfail(t, "C23:wait", "%s: WaitAll never returns", trace)
				}
			} else {
				for i, c := range live {
					if i == len(live)-1 && round%50 == 0 {
						time.Sleep(time.Millisecond)
						select {
						case <-done:
							vfail(t, "C23:wait", "%s: WaitAll returned while something is registered", trace)
						default:
						}
					}
					cx.RemoveCanceler(c)
				}
				select {
				case <-done:
				case <-time.After(5 * time.Second):
					vfail(t, "C23:wait", "%s: WaitAll never returns", trace)
				}
			}
		}
	}
	vdone("C23 histories", n)
}

func TestReplay_C23_requests(t *testing.T) {
	rng := rand.New(rand.NewSource(vseed()))
	n := 0
	for round := 0; round < vn(300); round++ {
		n++
		cx := &Context{}
		var rs []*Request
		var chs []<-chan *Response
		want := []RetCode{}
		k := rng.Intn(40)
		for i := 0; i < k; i++ {
			r, ch := cx.NewRequest(RequestType(i), uint32(i))
			rs, chs = append(rs, r), append(chs, ch)
			code := RetCode(0xff03)
			switch rng.Intn(4) {
			case 0:
				r.SetPending()
				r.SetInFly(nil)
				r.RespondBytes(7, nil)
				code = 7
			case 1:
				r.SetPending()
				r.SetInFly(nil)
			case 2:
				r.SetPending()
			}
			want = append(want, code)
		}
		child, ok := cx.Child()
		if !ok || child == nil {
			vfail(t, "C23:child", "a live context gives no child")
		}
		gc, _ := child.Child()
		r2, ch2 := gc.NewRequest(1, uint32(1))
		go func() { // the child's work ends when it is cancelled
			for child.Alive() {
				time.Sleep(10 * time.Microsecond)
			}
			child.Done()
		}()
		go func() {
			for gc.Alive() {
				time.Sleep(10 * time.Microsecond)
			}
			gc.Done()
		}()
		do, reason := cx.Cancel, CxCanceled
		if rng.Intn(2) == 0 {
			do, reason = cx.Expire, CxTimeout
		}
		if _, hung := vcall(do); hung {
			vfail(t, "C23:hang", "ending a context with %d requests and children never returns", k)
		}
		if cx.State != reason || child.Alive() || gc.Alive() {
			vfail(t, "C23:reach", "state %d, child alive %v, grandchild alive %v", cx.State, child.Alive(), gc.Alive())
		}
		for i, ch := range chs {
			select {
			case res := <-ch:
				if res.Code != want[i] || res.Id != rs[i].Id {
					vfail(t, "C23:reach", "request %d of the context: %v, want code %#x", i, *res, uint32(want[i]))
				}
			default:
				vfail(t, "C23:reach", "request %d of a context that is over has no answer", i)
			}
		}
		select {
		case <-ch2:
		case <-time.After(5 * time.Second):
			vfail(t, "C23:reach", "a request of a grandchild (state %d) has no answer", r2.State())
		}
		r3, ch3 := cx.NewRequest(1, uint32(1))
		select {
		case <-ch3:
		default:
			vfail(t, "C23:late", "a request made under a context that is over is in state %d", r3.State())
		}
		c3, ok := cx.Child()
		if ok || c3.Alive() {
			vfail(t, "C23:late", "a child made under a context that is over: ok %v, alive %v", ok, c3.Alive())
		}
		ran := int32(0)
		cx.Go(func(*Context) { atomic.AddInt32(&ran, 1) })
		cx.GoInt(func(*Context, interface{}) { atomic.AddInt32(&ran, 1) }, 1)
		cx.GoAsync(func(*Context) { atomic.AddInt32(&ran, 1) })
		cx.GoIntAsync(func(*Context, interface{}) { atomic.AddInt32(&ran, 1) }, 1)
		time.Sleep(20 * time.Microsecond)
		if atomic.LoadInt32(&ran) != 0 {
			vfail(t, "C23:late", "work was started under a context that is over")
		}
		cx.Done()
	}
	vdone("C23 requests and children", n)
}

func TestReplay_C23_work(t *testing.T) {
	n := 0
	for round := 0; round < vn(300); round++ {
		n++
		cx := &Context{}
		var ran [4]int32
		var kids []*Context
		f := func(i int) func(*Context) {
			return func(c *Context) { atomic.AddInt32(&ran[i], 1) }
		}
		kids = append(kids, cx.Go(f(0)), cx.GoInt(func(c *Context, i interface{}) {
			if i.(int) == 42 {
				f(1)(c)
			}
		}, 42), cx.GoAsync(func(c *Context) { f(2)(c); c.Done() }), cx.GoIntAsync(func(c *Context, i interface{}) {
			if i.(int) == 43 {
				f(3)(c)
			}
			c.Done()
		}, 43))
		if _, hung := vcall(cx.WaitAll); hung {
			vfail(t, "C23:wait", "WaitAll never returns although all work has ended")
		}
		for i := range ran {
			if atomic.LoadInt32(&ran[i]) != 1 {
				vfail(t, "C23:work", "work %d started under a live context ran %d times", i, ran[i])
			}
		}
		for _, k := range kids {
			if k == nil || !k.Alive() {
				vfail(t, "C23:work", "a finished child was cancelled")
			}
		}
		if cx.cancelsn != 0 || len(cx.cancelsm) != 0 {
			vfail(t, "C23:work", "finished children stay registered")
		}
	}
	vdone("C23 started work", n)
}

func TestReplay_C23_compete(t *testing.T) {
	n := vn(800)
	for i := 0; i < n; i++ {
		cx := &Context{}
		var wg sync.WaitGroup
		start := make(chan struct{})
		var cs [12]*vcanceler
		for k := range cs {
			cs[k] = &vcanceler{cx: cx}
		}
		pre := i % 5
		for k := 0; k < pre; k++ {
			cx.AddCanceler(cs[k])
		}
		for g := 0; g < 3; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := pre + g; k < len(cs); k += 3 {
					cx.AddCanceler(cs[k])
				}
			}()
		}
		var reasons [2]CxState
		for g := 0; g < 2; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if i%3 == 0 {
					runtime.Gosched()
				}
				if g == 0 {
					cx.Cancel()
				} else {
					cx.Expire()
				}
				reasons[g] = CxState(atomic.LoadUint32((*uint32)(&cx.State)))
			}()
		}
		close(start)
		fin := make(chan struct{})
		go func() { wg.Wait(); close(fin) }()
		select {
		case <-fin:
		case <-time.After(10 * time.Second):
			vfail(t, "C23:hang", "a context ended while things register: somebody never returns")
		}
		if cx.State != CxCanceled && cx.State != CxTimeout || reasons[0] != reasons[1] || reasons[0] != cx.State {
			vfail(t, "C23:reason", "reasons seen %v, recorded %d", reasons, cx.State)
		}
		for k, c := range cs {
			if atomic.LoadInt32(&c.n) == 0 {
				vfail(t, "C23:reach", "canceler %d (registered before: %v) was not cancelled", k, k < pre)
			}
		}
		if cx.cancelsn != 0 || len(cx.cancelsm) != 0 {
			vfail(t, "C23:unregister", "things stay registered with a context that is over: %d, %d", cx.cancelsn, len(cx.cancelsm))
		}
	}
	vdone("C23 competing ends", n)
}
