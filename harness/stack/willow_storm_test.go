package stack

import (
	"context"
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
)

// A storm is a set of clients that use willow at the same time: producers, consumers that work, fail, die or give up, and
// administrators. Requests and answers, also those between willow, the limiter and the locker, yield to others for a
// generated while, so they overlap in every phase. Nothing predicts the outcome; the history of requests and answers is judged afterwards.

type wsOp struct {
	Op       string        // enq, deq, cq, dq, dc, qc, lq
	Q        int           `json:",omitempty"`
	KV       int           `json:",omitempty"`
	Item     *wiItem       `json:",omitempty"`
	Qry      *gen.Q        `json:",omitempty"`
	N        int64         `json:",omitempty"`
	Before   time.Duration `json:",omitempty"` // pause before the operation
	Patience time.Duration `json:",omitempty"` // the client gives up after this long
	Turns    int           `json:",omitempty"` // ... or after this many turns of the scheduler
	Lost     bool          `json:",omitempty"` // the client's connection breaks when an item is written to it
	Stall    time.Duration `json:",omitempty"` // ... after the write was stuck for this long
	Work     time.Duration `json:",omitempty"` // time between the delivery and its end; negative: before the deadline
	Beat     time.Duration `json:",omitempty"` // heartbeats are sent this often while working
	End      string        `json:",omitempty"` // pass, fail, drop, twice (ack sent twice)
}
type wsLimit struct {
	KV    gen.KV
	Limit int64
}
type wsCase struct {
	Names    []string
	Max      []int64 // per queue
	Channels []gen.KV
	Rules    []wsLimit
	Delays   []int // how often requests and answers yield to the other goroutines, in turn
	Actors   [][]wsOp
	Exact    bool          // drain with one client per channel instead of one for everything
	Down     time.Duration // willow shuts down Down-1 after the start, with its clients still busy; 0: when they are done
}

func wsGen(profile string) func(r *vx.R) wsCase {
	return func(r *vx.R) wsCase {
		var c wsCase
		types := gen.Types(r, 1, 0)
		keys := wiKeys[:r.Range(1, 2)]
		names := []string{"jobs", "Q-1"}
		c.Names = names[:vx.Pick(r, 1, 1, 2)]
		kv := func(any float64) gen.KV {
			out := gen.KV{}
			for m := r.Range(1, len(keys)); len(out) < m; {
				v := gen.Small(r, types, 2)
				if r.Chance(any) {
					v = gen.AnyV()
				}
				out[vx.PickS(r, keys)] = v
			}
			return out
		}
		for m := vx.Pick(r, 1, 1, 2, 3); m > 0; m-- {
			k, dup := kv(0), false
			for _, o := range c.Channels {
				dup = dup || o.Canon() == k.Canon()
			}
			if !dup {
				c.Channels = append(c.Channels, k)
			}
		}
		for range c.Names {
			m := int64(-1)
			if profile == "C22" || r.Chance(0.15) {
				m = vx.Pick[int64](r, 1, 2, 3, 5, -1)
			}
			c.Max = append(c.Max, m)
		}
		if profile == "C22" || r.Chance(0.15) {
			for m := r.Range(0, 2); m > 0; m-- {
				k, dup := kv(0.6), false
				if r.Chance(0.2) {
					k = gen.KV{"_willow_running": gen.S("true")}
				}
				for _, o := range c.Rules {
					dup = dup || o.KV.Canon() == k.Canon()
				}
				if !dup {
					c.Rules = append(c.Rules, wsLimit{k, vx.Pick[int64](r, 1, 1, 2, 3)})
				}
			}
		}
		for m := vx.Pick(r, 0, 3, 5, 8); m > 0; m-- {
			c.Delays = append(c.Delays, vx.Pick(r, 0, 0, 1, 3, 10, 30, 100, 400))
		}
		c.Exact = r.Chance(0.3)
		qo := gen.QOpts{Keys: keys, Types: types, N: 2, Depth: 1, NoIDs: true}
		upd := vx.Pick(r, 0, 0, 0.3, 0.7)
		slow := r.Chance(0.6)
		pause := func() time.Duration {
			if !slow {
				return 0
			}
			return vx.Pick[time.Duration](r, 0, 0, 0, 1, 1, 5, 10, 50, 200, 1000) * time.Millisecond
		}
		lost := vx.Pick(r, 0.02, 0.07, 0.3)
		timeouts := vx.Pick(r, "short", "long", "mixed")
		if profile == "C21" {
			timeouts = "short"
		}
		item := func() *wiItem {
			it := &wiItem{Upd: r.Chance(upd), Retries: vx.Pick[uint64](r, 0, 1, 2, 5), Pos: vx.Pick(r, "front", "back"), Timeout: time.Hour}
			if timeouts == "short" || timeouts == "mixed" && r.Bool() {
				it.Timeout = vx.Pick(r, 10*time.Millisecond, 50*time.Millisecond, 200*time.Millisecond, time.Second)
			}
			return it
		}
		query := func() *gen.Q {
			q := gen.Q{}
			if r.Chance(map[string]float64{"C23": 0.8}[profile] + 0.15) {
				q = gen.GenQ(r, qo)
			}
			return &q
		}
		enq := func() wsOp {
			o := wsOp{Op: "enq", Q: r.IntN(len(c.Names)), KV: r.IntN(len(c.Channels)), Item: item(), Before: pause()}
			if r.Chance(0.05) {
				o.Patience = time.Duration(r.Range(0, 20)) * time.Millisecond
			}
			return o
		}
		deq := func() wsOp {
			o := wsOp{Op: "deq", Q: r.IntN(len(c.Names)), Qry: query(), Before: pause(), End: vx.Pick(r, "pass", "pass", "pass", "pass", "pass", "fail", "fail", "drop", "twice")}
			o.Work = vx.Pick[time.Duration](r, 0, 0, 1, 5, 20, 100) * time.Millisecond
			o.Patience = vx.Pick[time.Duration](r, 5, 50, 500, 3000, 12000) * time.Millisecond
			if profile == "C23" && r.Chance(0.5) || r.Chance(0.1) {
				o.Patience = time.Duration(r.Range(0, 60)) * time.Millisecond
			}
			if profile == "C23" && r.Chance(0.2) || r.Chance(0.06) {
				o.Turns = vx.Pick(r, 1, 5, 20, 60, 150, 400, 1000, 3000)
			}
			if o.Lost = r.Chance(lost); o.Lost {
				o.Stall = vx.Pick[time.Duration](r, 0, 0, 1, 5, 20, 100, 500) * time.Millisecond
			}
			switch {
			case profile == "C21" && r.Chance(0.6):
				o.Work = -vx.Pick[time.Duration](r, 0, 1, 1000, 1_000_000, 5_000_000)
			case r.Chance(0.05):
				o.Work = -vx.Pick[time.Duration](r, 1, 1_000_000)
			}
			if profile == "C21" && r.Chance(0.4) {
				o.Work = vx.Pick[time.Duration](r, 100, 500, 3000) * time.Millisecond
				o.Beat = vx.Pick[time.Duration](r, 5, 9, 20, 40, 60) * time.Millisecond
			}
			return o
		}
		if profile == "C23" && r.Chance(0.3) { // consumers and the channels they wait for arrive at the same time
			c.Rules, c.Exact = nil, r.Bool()
			for n := 0; n < 8 && len(c.Channels) < 6; n++ {
				k, dup := gen.KV{}, false
				for _, key := range keys {
					k[key] = gen.Small(r, types, 4)
				}
				for _, o := range c.Channels {
					dup = dup || o.Canon() == k.Canon()
				}
				if !dup {
					c.Channels = append(c.Channels, k)
				}
			}
			any := func() *gen.Q {
				if r.Chance(0.5) {
					return &gen.Q{}
				}
				return query()
			}
			held := r.Range(0, min(3, len(c.Channels)-1))
			for i := 0; i < held; i++ {
				it := item()
				it.Timeout = time.Hour
				c.Actors = append(c.Actors, []wsOp{{Op: "enq", KV: i, Item: it}}, []wsOp{{Op: "deq", Qry: &gen.Q{}, Patience: 10 * time.Second, Work: 30 * time.Second, End: "pass"}})
			}
			at := 100 * time.Millisecond
			for i := held; i < len(c.Channels); i++ {
				c.Actors = append(c.Actors, []wsOp{{Op: "enq", KV: i, Item: item(), Before: at}})
				for m := vx.Pick(r, 1, 1, 2); m > 0; m-- {
					c.Actors = append(c.Actors, []wsOp{{Op: "deq", Qry: any(), Before: at, Patience: time.Duration(r.Range(1, 20)) * 100 * time.Millisecond, End: vx.Pick(r, "pass", "fail")}})
				}
			}
			return c
		}
		for m := r.Range(1, 3); m > 0; m-- {
			var ops []wsOp
			for n := r.Range(1, 8); n > 0; n-- {
				ops = append(ops, enq())
			}
			c.Actors = append(c.Actors, ops)
		}
		for m := r.Range(1, 4); m > 0; m-- {
			var ops []wsOp
			for n := r.Range(1, 6); n > 0; n-- {
				ops = append(ops, deq())
			}
			c.Actors = append(c.Actors, ops)
		}
		if profile == "C24" || r.Chance(0.1) {
			for m := r.Range(1, 2); m > 0; m-- {
				var ops []wsOp
				for n := r.Range(1, 6); n > 0; n-- {
					o := wsOp{Op: vx.Pick(r, "cq", "cq", "dq", "dq", "dc", "dc", "qc", "lq", "uq"), Q: r.IntN(len(c.Names)), KV: r.IntN(len(c.Channels)), Before: pause()}
					switch o.Op {
					case "cq", "uq":
						o.N = vx.Pick[int64](r, -1, -1, 5)
					case "qc":
						o.Qry = query()
					}
					ops = append(ops, o)
				}
				c.Actors = append(c.Actors, ops)
			}
		}
		return c
	}
}

func wsShrink(c wsCase) []wsCase {
	var out []wsCase
	for i := range c.Actors {
		d := c
		d.Actors = append(append([][]wsOp{}, c.Actors[:i]...), c.Actors[i+1:]...)
		out = append(out, d)
	}
	if len(c.Delays) > 0 {
		d := c
		d.Delays = nil
		out = append(out, d)
	}
	for i := range c.Rules {
		d := c
		d.Rules = append(append([]wsLimit{}, c.Rules[:i]...), c.Rules[i+1:]...)
		out = append(out, d)
	}
	for i, ops := range c.Actors {
		for _, o := range vx.Cuts(ops) {
			d := c
			d.Actors = append([][]wsOp{}, c.Actors...)
			d.Actors[i] = o
			out = append(out, d)
		}
		for j, o := range ops {
			set := func(f func(o *wsOp)) {
				d := c
				d.Actors = append([][]wsOp{}, c.Actors...)
				d.Actors[i] = append([]wsOp{}, ops...)
				f(&d.Actors[i][j])
				out = append(out, d)
			}
			if o.Before > 0 {
				set(func(o *wsOp) { o.Before = 0 })
			}
			if o.Qry != nil && js(*o.Qry) != js(gen.Q{}) {
				set(func(o *wsOp) { o.Qry = &gen.Q{} })
			}
			if o.Turns > 0 {
				set(func(o *wsOp) { o.Turns = 0 })
			}
			if o.Lost {
				set(func(o *wsOp) { o.Lost, o.Stall = false, 0 })
				if o.Stall != 0 {
					set(func(o *wsOp) { o.Stall = 0 })
				}
			}
			if o.Q > 0 {
				set(func(o *wsOp) { o.Q = 0 })
			}
			if o.KV > 0 {
				set(func(o *wsOp) { o.KV = 0 })
			}
			if o.Beat > 0 {
				set(func(o *wsOp) { o.Beat = 0 })
			}
			if o.Item != nil && o.Item.Upd {
				it := *o.Item
				it.Upd = false
				set(func(o *wsOp) { o.Item = &it })
			}
		}
	}
	return out
}

const wsNever = int64(1) << 60

// wsAt is a point in the history: order is the order in which the clients saw things.
type wsAt struct {
	seq int64
	t   time.Time
}

type wsEnq struct {
	wiItem
	n          int
	q          string
	kv         gen.KV
	start, end wsAt
	status     int // 0: the client gave up
}
type wsDel struct {
	who        string
	it         *wsEnq
	id         string
	qry        gen.Q
	start, end wsAt
	lost       bool // written to a client that had given up
	ended      string
	ack        wsAt // when the ack was sent
	acked      wsAt
	ackStatus  int
	ackPass    bool
	same       func() []*wsDel // all deliveries of the item
	beats      []wsBeat
}
type wsBeat struct {
	start, end wsAt
	status     int
}
type wsWait struct {
	who, q     string
	qry        gen.Q
	start, end wsAt
}
type wsStall struct {
	q        string
	from, to wsAt
}
type wsAdm struct {
	wsOp
	q          string
	kv         gen.KV
	start, end wsAt
	status     int
	body       string
}

type wsWorld struct {
	c       wsCase
	rec     *vx.Rec
	net     *Net
	svc     *Svc
	limiter *Svc
	seq     atomic.Int64
	mu      sync.Mutex
	enqs    []*wsEnq
	dels    []*wsDel
	by      map[*wsEnq][]*wsDel
	adms    []*wsAdm
	stalls  []wsStall // deliveries that were stuck before they failed
	waits   []wsWait // dequeues that were given up without an answer
	bad     error
	flying  atomic.Int64
	refused atomic.Int64
	busy    int64 // requests unanswered when the shutdown began
	stopErr error
	hung    error
}

func (w *wsWorld) do(ctx context.Context, method, uri string, body any) (int, []byte) {
	w.flying.Add(1)
	defer w.flying.Add(-1)
	st, b := w.svc.Do(ctx, method, uri, body)
	if st == 503 {
		w.refused.Add(1)
	} else if w.c.Down > 0 && st >= 500 {
		w.mu.Lock()
		w.stopErr = fmt.Errorf("%s %s during the shutdown is answered with status %d %s", method, uri, st, cut(string(b), 300))
		w.mu.Unlock()
	}
	return st, b
}

// stalled is whether a delivery from the queue was stuck between the times
func (w *wsWorld) stalled(q string, from, to time.Time) bool {
	for _, s := range w.stalls {
		if s.q == q && !s.from.t.After(to) && !s.to.t.Before(from) {
			return true
		}
	}
	return false
}

func (w *wsWorld) at() wsAt { return wsAt{w.seq.Add(1), time.Now()} }

func (w *wsWorld) fail(format string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.bad == nil {
		w.bad = fmt.Errorf(format, a...)
	}
}

func (w *wsWorld) enqueue(who string, o wsOp) {
	e := &wsEnq{wiItem: *o.Item, q: w.c.Names[o.Q%len(w.c.Names)], kv: w.c.Channels[o.KV%len(w.c.Channels)]}
	w.mu.Lock()
	e.n = len(w.enqs)
	w.enqs = append(w.enqs, e)
	e.end = wsAt{wsNever, time.Unix(1<<40, 0)}
	w.mu.Unlock()
	ctx, cancel := context.WithCancel(context.Background())
	if o.Patience > 0 {
		ctx, cancel = context.WithTimeout(context.Background(), o.Patience)
	}
	defer cancel()
	start := w.at()
	w.mu.Lock()
	e.start = start
	w.mu.Unlock()
	st, b := w.do(ctx, "POST", wiURI(e.q, "/channels/items"), itemBody(e.kv, e.wiItem, []byte(strconv.Itoa(e.n))))
	end := w.at()
	w.mu.Lock()
	defer w.mu.Unlock()
	e.status = st
	if st != 0 {
		e.end = end
	}
	if st != 201 && st != 404 && st != 409 && !(st == 0 && o.Patience > 0) && w.bad == nil {
		w.bad = fmt.Errorf("%s: enqueueing item %d was answered with status %d %s", who, e.n, st, cut(string(b), 200))
	}
}

// delivery decodes an answered dequeue.
func (w *wsWorld) delivery(who string, q string, qry gen.Q, b []byte, start, end wsAt) *wsDel {
	var it v1willow.Item
	if err := json.Unmarshal(b, &it); err != nil {
		w.fail("%s: undecodable item: %v: %s", who, err, cut(string(b), 200))
		return nil
	}
	if err := it.Validate(); err != nil {
		w.fail("%s: an invalid item was delivered: %v: %s", who, err, cut(string(b), 200))
		return nil
	}
	n, err := strconv.Atoi(string(it.Spec.Properties.Data))
	w.mu.Lock()
	defer w.mu.Unlock()
	if err != nil || n < 0 || n >= len(w.enqs) {
		if w.bad == nil {
			w.bad = fmt.Errorf("%s: received data that nobody enqueued: %q", who, it.Spec.Properties.Data)
		}
		return nil
	}
	e := w.enqs[n]
	p := it.Spec.Properties
	kv := gen.FromKV(it.Spec.DBDefinition.KeyValues)
	var what string
	switch {
	case e.q != q:
		what = fmt.Sprintf("belongs to queue %q but was delivered from %q", e.q, q)
	case kv.Canon() != e.kv.Canon():
		what = fmt.Sprintf("was enqueued for %s but is delivered for %s", e.kv.Canon(), kv.Canon())
	case !qry.Match(kv, -100):
		what = fmt.Sprintf("of channel %s does not match the query %s", kv.Canon(), js(qry))
	case *p.Updateable != e.Upd || *p.RetryAttempts != e.Retries || *p.RetryPosition != e.Pos || *p.TimeoutDuration != e.Timeout:
		what = fmt.Sprintf("was enqueued as %+v but is delivered as %s", e.wiItem, js(p))
	case e.status == 404 || e.status == 409:
		what = fmt.Sprintf("was delivered although its enqueue had been refused with %d", e.status)
	}
	if what != "" && w.bad == nil {
		w.bad = fmt.Errorf("%s: item %d %s", who, n, what)
	}
	d := &wsDel{who: who, same: func() []*wsDel { return w.by[e] }, it: e, id: it.State.ID, qry: qry, start: start, end: end, ack: wsAt{wsNever, time.Unix(1<<40, 0)}}
	w.dels = append(w.dels, d)
	return d
}

// dequeue takes one item and treats it as told; false: nothing was received.
func (w *wsWorld) dequeue(who string, o wsOp) bool {
	q := w.c.Names[o.Q%len(w.c.Names)]
	type sent struct {
		code int
		body []byte
	}
	var ms sync.Mutex
	var wrote []sent
	start := w.at()
	gone := false
	var lostDelivery atomic.Bool
	base := context.WithValue(context.Background(), sentKey{}, func(code int, body []byte) {
		if code != 200 || len(body) == 0 {
			return
		}
		ms.Lock()
		late := gone
		if !late {
			wrote = append(wrote, sent{code, body})
		}
		ms.Unlock()
		if late {
			if d := w.delivery(who, q, *o.Qry, body, start, w.at()); d != nil {
				d.lost, d.ended = true, "lost"
			}
		}
	})
	if o.Lost {
		base = context.WithValue(base, brokenKey{}, func([]byte) {
			lostDelivery.Store(true)
			if o.Stall == 0 {
				return
			}
			from := w.at()
			time.Sleep(o.Stall)
			w.mu.Lock()
			w.stalls = append(w.stalls, wsStall{q, from, w.at()})
			w.mu.Unlock()
			w.rec.Label("delivery-stalled")
		})
	}
	ctx, cancel := context.WithTimeout(base, o.Patience)
	defer cancel()
	if o.Turns > 0 {
		go func() {
			for i := 0; i < o.Turns; i++ {
				runtime.Gosched()
			}
			cancel()
		}()
	}
	st, b := w.do(ctx, "GET", wiURI(q, "/channels/items"), o.Qry.AQ(nil))
	end := w.at()
	if lostDelivery.Load() {
		w.rec.Label("delivery-lost")
		return false
	}
	ms.Lock()
	gone = true
	lost := wrote
	ms.Unlock()
	switch st {
	case 0:
		for _, s := range lost {
			if d := w.delivery(who, q, *o.Qry, s.body, start, end); d != nil {
				d.lost, d.ended = true, "lost"
			}
		}
		w.rec.Label("gave-up")
		w.mu.Lock()
		w.waits = append(w.waits, wsWait{who, q, *o.Qry, start, end})
		w.mu.Unlock()
		return false
	case 200:
	case 404, 409:
		if ctx.Err() != nil {
			w.rec.Label("gave-up")
		} else if !w.deletes(q, nil) {
			w.fail("%s: dequeue from queue %q, which is never deleted, was answered with status %d %s", who, q, st, cut(string(b), 200))
		}
		return false
	default:
		w.fail("%s: dequeue from queue %q was answered with status %d %s", who, q, st, cut(string(b), 200))
		return false
	}
	d := w.delivery(who, q, *o.Qry, b, start, end)
	if d == nil {
		return true
	}
	d.ended = o.End
	work := o.Work
	if work < 0 {
		work = d.it.Timeout + work
	}
	if work > time.Minute { // channels held back by a limit keep asking, an hour of that takes too long
		work = 0
	}
	if o.Beat > 0 {
		for left := work; left > 0; left -= o.Beat {
			time.Sleep(min(left, o.Beat))
			bt := wsBeat{start: w.at()}
			st, b := w.do(context.Background(), "POST", wiURI(q, "/channels/items/heartbeat"), v1willow.Heartbeat{ItemID: d.id, KeyValues: d.it.kv.DT()})
			bt.end, bt.status = w.at(), st
			w.mu.Lock()
			d.beats = append(d.beats, bt)
			w.mu.Unlock()
			if st != 200 && st != 404 && st != 409 {
				w.fail("%s: a heartbeat for item %d was answered with status %d %s", who, d.it.n, st, cut(string(b), 200))
			}
			if st != 200 {
				return true
			}
		}
	} else if work > 0 {
		time.Sleep(work)
	}
	if o.End == "drop" {
		return true
	}
	at := w.at()
	w.mu.Lock()
	d.ack, d.ackPass = at, o.End != "fail"
	w.mu.Unlock()
	n := 1
	if o.End == "twice" {
		n = 2
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			st, b := w.do(context.Background(), "POST", wiURI(q, "/channels/items/ack"), v1willow.ACK{ItemID: d.id, KeyValues: d.it.kv.DT(), Passed: d.ackPass})
			at := w.at()
			w.mu.Lock()
			if d.ackStatus == 200 && st == 200 && w.bad == nil {
				w.bad = fmt.Errorf("%s: two acks of item %d were both accepted", who, d.it.n)
			}
			if d.ackStatus != 200 {
				d.ackStatus, d.acked = st, at
			}
			w.mu.Unlock()
			if st != 200 && st != 404 && st != 409 {
				w.fail("%s: the ack of item %d was answered with status %d %s", who, d.it.n, st, cut(string(b), 200))
			}
		}()
	}
	wg.Wait()
	return true
}

// deletes: does the storm delete the queue (or, if asked, the channel) at all?
func (w *wsWorld) deletes(q string, kv gen.KV) bool {
	for _, ops := range w.c.Actors {
		for _, o := range ops {
			if w.c.Names[o.Q%len(w.c.Names)] != q {
				continue
			}
			if o.Op == "dq" || o.Op == "dc" && kv != nil && w.c.Channels[o.KV%len(w.c.Channels)].Canon() == kv.Canon() {
				return true
			}
		}
	}
	return false
}

func (w *wsWorld) admin(who string, o wsOp) {
	a := &wsAdm{wsOp: o, q: w.c.Names[o.Q%len(w.c.Names)], kv: w.c.Channels[o.KV%len(w.c.Channels)]}
	a.end = wsAt{wsNever, time.Unix(1<<40, 0)}
	a.start = w.at()
	w.mu.Lock()
	w.adms = append(w.adms, a)
	w.mu.Unlock()
	var want []int
	var st int
	var b []byte
	ctx := context.Background()
	switch o.Op {
	case "cq":
		want = []int{201, 409}
		st, b = w.do(ctx, "POST", "/v1/queues", queueBody(a.q, o.N))
	case "uq":
		want = []int{200, 404, 409}
		st, b = w.do(ctx, "PUT", wiURI(a.q, ""), v1willow.QueueProperties{MaxItems: &o.N})
	case "dq":
		want = []int{204, 404, 409}
		st, b = w.do(ctx, "DELETE", wiURI(a.q, ""), nil)
	case "dc":
		want = []int{204, 404, 409}
		st, b = w.do(ctx, "DELETE", wiURI(a.q, "/channels"), a.kv.DT())
	case "qc":
		want = []int{200, 404, 409}
		st, b = w.do(ctx, "GET", wiURI(a.q, "/channels"), o.Qry.AQ(nil))
	case "lq":
		want = []int{200}
		st, b = w.do(ctx, "GET", "/v1/queues", nil)
	}
	end := w.at()
	w.mu.Lock()
	a.status, a.body, a.end = st, string(b), end
	w.mu.Unlock()
	for _, x := range want {
		if x == st {
			return
		}
	}
	w.fail("%s: %s of queue %q was answered with status %d %s", who, o.Op, a.q, st, cut(string(b), 200))
}

func queueBody(name string, max int64) *v1willow.Queue {
	return &v1willow.Queue{Spec: &v1willow.QueueSpec{DBDefinition: &v1willow.QueueDBDefinition{Name: &name}, Properties: &v1willow.QueueProperties{MaxItems: &max}}}
}

func wsProp(profile string, rule string, weight int, need ...string) vx.Runner {
	run := func(c wsCase, rec *vx.Rec) error {
		err, left := Bubble(func() error {
			w := &wsWorld{c: c, rec: rec}
			return w.run()
		})
		if err == nil && left && profile != "down" { // a process that exits need not tidy up first; its callers are all answered
			err = fmt.Errorf("goroutines of willow stay blocked for good after its shutdown")
		}
		if rec.Has(need...) {
			rec.Nontrivial()
		}
		return err
	}
	if profile == "down" {
		g := wsGen("")
		return vx.Prop[wsCase]{Name: "shutdown", Rule: rule, Run: run, Shrink: wsShrink, Weight: weight, Tries: 12, Gen: func(r *vx.R) wsCase {
			c := g(r)
			var steps []time.Duration
			for _, a := range c.Actors {
				at := time.Duration(0)
				for i, o := range a {
					a[i].Stall = 0 // others wait for it on a lock as willow goes down, which stops the virtual clock
					at += o.Before
					steps = append(steps, at)
				}
			}
			c.Down = 1 + vx.PickS(r, append(steps, 0))
			if r.Chance(0.2) {
				c.Down += vx.Pick[time.Duration](r, 1, 5, 100, 2000) * time.Millisecond
			}
			return c
		}}
	}
	return vx.Prop[wsCase]{Name: "storm", Rule: rule, Gen: wsGen(profile), Run: run, Shrink: wsShrink, Weight: weight, Tries: 12}
}

func (w *wsWorld) run() error {
	c := w.c
	w.net = NewNet()
	locker := w.net.StartLocker(15 * time.Second)
	w.limiter = w.net.StartLimiter()
	svc, err := w.net.StartWillow()
	if err != nil {
		return err
	}
	w.svc = svc
	synctest.Wait()
	lw := &liWorld{svc: w.limiter, net: w.net}
	ww := &liWorld{svc: w.svc, net: w.net}
	var rules []*liRule
	for _, r := range c.Rules {
		_, b, err := lw.call("POST", "/v1/limiter/rules", ruleBody(r.KV, r.Limit), 201)
		if err != nil {
			return err
		}
		var x v1limiter.Rule
		if err := json.Unmarshal(b, &x); err != nil {
			return err
		}
		rules = append(rules, &liRule{id: x.State.ID, kv: r.KV, limit: r.Limit})
	}
	for i, n := range c.Names {
		if _, _, err := ww.call("POST", "/v1/queues", queueBody(n, c.Max[i]), 201); err != nil {
			return err
		}
	}
	if len(c.Delays) > 0 {
		var turn atomic.Int64
		w.net.SetSpin(func() int { return c.Delays[int(turn.Add(1))%len(c.Delays)] })
	}
	var wg sync.WaitGroup
	if c.Down > 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(c.Down - 1)
			w.net.yield()
			busy := w.flying.Load()
			err := w.svc.Stop()
			w.mu.Lock()
			defer w.mu.Unlock()
			w.busy = busy
			if err != nil {
				w.stopErr = err
			}
		}()
	}
	for i, ops := range c.Actors {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j, o := range ops {
				time.Sleep(o.Before)
				who := fmt.Sprintf("actor %d, operation %d", i, j)
				switch o.Op {
				case "enq":
					w.enqueue(who, o)
				case "deq":
					w.dequeue(who, o)
				default:
					w.admin(who, o)
				}
			}
		}()
	}
	ok := make(chan struct{})
	go func() { wg.Wait(); close(ok) }()
	select {
	case <-ok:
	case <-time.After(24 * time.Hour):
		w.hung = fmt.Errorf("a request is never answered")
		if w.bad == nil {
			w.bad = w.hung
		}
	}
	time.Sleep(time.Minute) // what was given up ends, too
	w.mu.Lock() // and is seen here
	w.mu.Unlock()
	if err := w.net.Err(); err != nil {
		return err
	}
	if c.Down > 0 { // requests may be refused, but they are answered
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.stopErr != nil {
			return w.stopErr
		}
		if w.hung != nil {
			return w.hung
		}
		if w.busy > 0 {
			w.rec.Label("busy-at-shutdown")
		}
		if w.refused.Load() > 0 {
			w.rec.Label("refused")
		}
		w.net.SetSpin(nil)
		return liEnd(w.net, locker, w.limiter)
	}
	if w.bad != nil {
		return w.bad
	}
	w.net.SetSpin(nil)
	stormEnd := w.at()
	for _, r := range rules {
		if _, _, err := lw.call("DELETE", "/v1/limiter/rules/"+r.id, nil, 204); err != nil {
			return err
		}
	}
	// which queues there are now
	_, b, err := ww.call("GET", "/v1/queues", nil, 200)
	if err != nil {
		return err
	}
	var qs v1willow.Queues
	if err := json.Unmarshal(b, &qs); err != nil {
		return fmt.Errorf("undecodable queues: %v: %s", err, b)
	}
	have := map[string]bool{}
	for _, q := range qs {
		have[*q.Spec.DBDefinition.Name] = true
	}
	for _, n := range c.Names {
		if !have[n] && !w.deletes(n, nil) {
			return fmt.Errorf("queue %q is gone although nobody deleted it", n)
		}
	}
	// everything that is left is delivered and acknowledged
	left := 0
	for i, n := range c.Names {
		if !have[n] {
			continue
		}
		queries := []gen.Q{{}}
		if c.Exact {
			queries = nil
			for _, k := range c.Channels {
				q := gen.Q{Sel: &gen.Sel{}}
				for _, key := range k.Keys() {
					q.Sel.Conds = append(q.Sel.Conds, gen.Cond{Key: key, Op: "=", Val: k[key], TR: gen.TR{Min: k[key].T, Max: k[key].T}})
				}
				queries = append(queries, q)
			}
		}
		for _, q := range queries {
			for w.dequeue("drain", wsOp{Q: i, Qry: &q, Patience: 2 * time.Hour, End: "pass"}) {
				if left++; left > 20*(len(w.enqs)+1) {
					return fmt.Errorf("draining queue %q never ends", n)
				}
			}
		}
	}
	if left > 0 {
		w.rec.Label("drained")
	}
	if err := w.net.Err(); err != nil {
		return err
	}
	if w.bad != nil {
		return w.bad
	}
	if err := w.judge(stormEnd, rules); err != nil {
		return err
	}
	for _, n := range c.Names {
		if !have[n] {
			continue
		}
		if _, b, err := ww.call("GET", wiURI(n, "/channels"), gen.Q{}.AQ(nil), 200); err != nil {
			return err
		} else if s := strings.TrimSpace(string(b)); s != "[]" && s != "null" {
			return fmt.Errorf("queue %q still has channels after all its items are gone: %s", n, cut(s, 300))
		}
	}
	if _, b, err = lw.call("GET", "/v1/limiter/counters/query", gen.Q{}.AQ(nil), 200); err != nil {
		return err
	} else if s := strings.TrimSpace(string(b)); s != "[]" && s != "null" {
		return fmt.Errorf("all items are gone, but the limiter still counts %s", cut(s, 400))
	}
	if err := w.svc.Stop(); err != nil {
		return err
	}
	return liEnd(w.net, locker, w.limiter)
}

// deadline is the time until which the item is certainly held for this delivery, as far as timeouts are concerned.
func (d *wsDel) deadline() time.Time {
	return addTime(d.end.t, d.it.Timeout)
}

// holds: d certainly holds its item then.
func (d *wsDel) holds(at wsAt) bool {
	return !d.lost && d.end.seq < at.seq && at.seq < d.ack.seq && at.t.Before(d.heldUntil(at.seq)) && !d.disturbed(at.seq)
}

// disturbed: an item keeps its id when it is delivered again, so the late ack of a client that had lost the item counts
// for whoever holds the item then.
func (d *wsDel) disturbed(seq int64) bool {
	for _, f := range d.same() {
		if f != d && f.ackStatus == 200 && f.acked.seq > d.start.seq && f.ack.seq < seq {
			return true
		}
	}
	return false
}

// heldUntil takes the heartbeats into account that were accepted before seq.
func (d *wsDel) heldUntil(seq int64) time.Time {
	t := d.deadline()
	for _, b := range d.beats {
		if b.status == 200 && b.end.seq < seq {
			if x := addTime(b.start.t, d.it.Timeout); x.After(t) {
				t = x
			}
		}
	}
	return t
}

func (w *wsWorld) judge(stormEnd wsAt, rules []*liRule) error {
	dels := append([]*wsDel{}, w.dels...)
	sort.Slice(dels, func(i, j int) bool { return dels[i].end.seq < dels[j].end.seq })
	by := map[*wsEnq][]*wsDel{}
	w.by = by
	for _, d := range dels {
		by[d.it] = append(by[d.it], d)
		if d.end.seq < d.it.start.seq {
			return fmt.Errorf("item %d was delivered before it was enqueued", d.it.n)
		}
	}
	gone := func(q string, kv gen.KV, from int64) bool { // may something of this channel have been deleted after from?
		for _, a := range w.adms {
			if a.q == q && a.end.seq > from && (a.Op == "dq" || a.Op == "dc" && a.kv.Canon() == kv.Canon()) {
				return true
			}
		}
		return false
	}
	for e, ds := range by {
		if len(ds) > 1 {
			w.rec.Label("redelivered")
		}
		if e.Retries < 1000 && uint64(len(ds)) > e.Retries+1 {
			return fmt.Errorf("item %d may be retried %d times but was delivered %d times", e.n, e.Retries, len(ds))
		}
		passed := 0
		for i, d := range ds {
			if d.disturbed(wsNever) {
				w.rec.Label("late-ack")
			}
			// exclusion
			for _, f := range ds[:i] {
				if f.holds(d.end) {
					return fmt.Errorf("item %d was delivered to %s while %s held it (delivered %v before, timeout %s)", e.n, d.who, f.who, d.end.t.Sub(f.end.t), e.Timeout)
				}
				if f.ackStatus == 200 && f.ackPass && (f.acked.t.Before(d.end.t) || f.acked.seq < d.start.seq || f.acked.seq < d.end.seq && d.end.t.Before(f.deadline())) {
					return fmt.Errorf("item %d was delivered to %s after %s had acknowledged it", e.n, d.who, f.who)
				}
			}
			if d.ackStatus == 200 {
				w.rec.Label("acked")
				if d.ackPass {
					passed++
				} else {
					w.rec.Label("failed")
				}
			}
			if d.ackStatus == 404 || d.ackStatus == 409 {
				w.rec.Label("ack-refused")
				if d.acked.t.Before(d.heldUntil(d.ack.seq)) && !d.disturbed(d.acked.seq) && !gone(e.q, e.kv, e.start.seq) {
					return fmt.Errorf("the ack of item %d by %s was refused with %d although its timeout of %s had not passed: delivered %v before; %s", e.n, d.who, d.ackStatus, e.Timeout, d.acked.t.Sub(d.end.t), w.history(e))
				}
			}
			for _, b := range d.beats {
				if b.status == 200 {
					w.rec.Label("beat")
				} else if b.end.t.Before(d.heldUntil(b.start.seq)) && !d.disturbed(b.end.seq) && !gone(e.q, e.kv, e.start.seq) {
					return fmt.Errorf("a heartbeat for item %d by %s was refused with %d although its timeout of %s had not passed; %s", e.n, d.who, b.status, e.Timeout, w.history(e))
				}
			}
			// deletion
			for _, a := range w.adms {
				if a.status != 204 || a.q != e.q || e.end.seq > a.start.seq || !(a.Op == "dq" || a.Op == "dc" && a.kv.Canon() == e.kv.Canon()) {
					continue
				}
				if a.end.t.Before(d.end.t) || a.end.seq < d.start.seq {
					return fmt.Errorf("item %d was delivered to %s after its %s had been deleted", e.n, d.who, a.Op[1:])
				}
				if d.ackStatus == 200 && a.end.seq < d.ack.seq {
					return fmt.Errorf("an ack of item %d was accepted after its %s had been deleted", e.n, a.Op[1:])
				}
			}
		}
		if passed > 1 {
			return fmt.Errorf("item %d was acknowledged %d times", e.n, passed)
		}
	}
	// nothing that was accepted is lost
	for _, e := range w.enqs {
		if e.status == 409 && !w.full(e) && !gone(e.q, e.kv, e.start.seq) {
			return fmt.Errorf("item %d was refused although queue %q was not full", e.n, e.q)
		}
		if e.status == 409 {
			w.rec.Label("refused")
		}
		if e.status == 404 && !w.deletes(e.q, nil) {
			return fmt.Errorf("enqueueing item %d was answered with not found although queue %q exists", e.n, e.q)
		}
		if e.status != 201 {
			continue
		}
		w.rec.Label("accepted")
		if gone(e.q, e.kv, e.start.seq) {
			w.rec.Label("deleted")
			continue
		}
		acked := false
		tries := uint64(0)
		for _, d := range by[e] {
			if d.ackStatus == 200 && d.ackPass {
				acked = true
			} else {
				tries++
				if d.ackStatus == 200 && w.stalled(e.q, d.ack.t, d.acked.t) {
					tries++ // it ended the delivery that was stuck, after its own had timed out
				}
			}
		}
		if acked || tries > e.Retries {
			continue
		}
		if e.Upd && w.superseded(e) {
			w.rec.Label("superseded")
			continue
		}
		return fmt.Errorf("item %d (updateable %v, %d retries, at the %s) was accepted by queue %q but is lost: %s", e.n, e.Upd, e.Retries, e.Pos, e.q, w.history(e))
	}
	// nobody waits for what is there
	for _, g := range w.waits {
		for _, e := range w.enqs {
			if len(rules) > 0 || e.status != 201 || e.q != g.q || !g.qry.Match(e.kv, -100) || gone(e.q, e.kv, -1) || w.changes(e.q) || e.Upd {
				continue
			}
			from := e.end.t
			if g.start.t.After(from) {
				from = g.start.t
			}
			if w.stalled(g.q, from, g.end.t) || !from.Before(g.end.t) || len(by[e]) > 0 && by[e][0].start.t.Before(g.end.t) && !by[e][0].end.t.After(g.end.t) {
				continue
			}
			return fmt.Errorf("%s waited %v for an item of queue %q and gave up although item %d, enqueued %v before that, was there: %s", g.who, g.end.t.Sub(g.start.t), g.q, e.n, g.end.t.Sub(e.end.t), w.history(e))
		}
		w.rec.Label("waited")
	}
	// the order of the deliveries
	for _, a := range w.enqs {
		for _, b := range w.enqs {
			if a.status != 201 || b.status != 201 || a.q != b.q || a.kv.Canon() != b.kv.Canon() || a.end.seq >= b.start.seq || len(by[a]) == 0 || len(by[b]) == 0 {
				continue
			}
			da, db := by[a][0], by[b][0]
			if db.end.t.Before(da.end.t) || db.end.seq < da.start.seq {
				return fmt.Errorf("item %d was delivered first although item %d had been enqueued before it in the same channel", b.n, a.n)
			}
			w.rec.Label("ordered")
		}
	}
	// the limits on what is processed at the same time
	for _, d := range dels {
		if d.lost || d.end.seq > stormEnd.seq || gone(d.it.q, d.it.kv, d.start.seq) {
			continue
		}
		over := false // a late ack of an earlier delivery ended this one before its client noticed that it began
		for _, g := range by[d.it] {
			over = over || g != d && g.ackStatus == 200 && g.acked.seq > d.start.seq && g.ack.seq < d.end.seq
		}
		if over {
			continue
		}
		counts, kvs := map[string]int64{}, map[string]gen.KV{}
		add := func(e *wsEnq) gen.KV {
			k := e.kv.Clone()
			k["_willow_queue_name"], k["_willow_running"] = gen.S(e.q), gen.S("true")
			kvs[k.Canon()] = k
			return k
		}
		for _, f := range dels {
			if f != d && f.holds(d.end) && !gone(f.it.q, f.it.kv, f.start.seq) {
				counts[add(f.it).Canon()]++
			}
		}
		ok, checked := liAllows(rules, counts, kvs, add(d.it))
		if !ok {
			return fmt.Errorf("item %d was handed out although a limit is reached: %v are being processed", d.it.n, counts)
		}
		if checked {
			w.rec.Label("limit-checked")
		}
	}
	// the maximum of a queue: what is certainly in it never exceeds the maximum
	for i, n := range w.c.Names {
		if w.c.Max[i] == -1 || w.changes(n) {
			continue
		}
		for _, e := range w.enqs {
			if e.status != 201 || e.q != n {
				continue
			}
			in := int64(0)
			for _, f := range w.enqs {
				if f.q != n || f.status != 201 || f.end.seq > e.end.seq || f.Upd || gone(n, f.kv, f.start.seq) {
					continue
				}
				sure := true
				for _, d := range by[f] {
					if !d.holds(e.end) && d.start.seq < e.end.seq {
						sure = false
					}
				}
				if sure {
					in++
				}
			}
			if in > w.c.Max[i] {
				return fmt.Errorf("queue %q may hold %d items but holds %d", n, w.c.Max[i], in)
			}
			if in == w.c.Max[i] {
				w.rec.Label("filled")
			}
		}
	}
	return nil
}

// history tells what happened to an item.
func (w *wsWorld) history(e *wsEnq) string {
	at := func(a wsAt) string {
		if a.seq == wsNever {
			return "never"
		}
		return fmt.Sprintf("#%d +%v", a.seq, a.t.Sub(e.start.t))
	}
	s := fmt.Sprintf("enqueued from %s to %s with %d", at(e.start), at(e.end), e.status)
	for _, d := range w.dels {
		if d.it == e {
			s += fmt.Sprintf("; to %s from %s to %s (%s), ack at %s answered %d at %s", d.who, at(d.start), at(d.end), d.ended, at(d.ack), d.ackStatus, at(d.acked))
			for _, b := range d.beats {
				s += fmt.Sprintf(", beat %d from %s to %s", b.status, at(b.start), at(b.end))
			}
		}
	}
	return s
}

func (w *wsWorld) changes(q string) bool {
	for _, a := range w.adms {
		if a.q == q && (a.Op == "cq" || a.Op == "uq" || a.Op == "dq") {
			return true
		}
	}
	return false
}

// full: may the queue have been full when e was refused?
func (w *wsWorld) full(e *wsEnq) bool {
	max := int64(-1)
	for i, n := range w.c.Names {
		if n == e.q {
			max = w.c.Max[i]
		}
	}
	if w.changes(e.q) {
		return true
	}
	if max == -1 {
		return false
	}
	in := int64(0)
	for _, f := range w.enqs {
		if f == e || f.q != e.q || f.status == 404 || f.status == 409 || f.start.seq > e.end.seq {
			continue
		}
		acked := false
		for _, d := range w.dels {
			if d.it == f && d.ackStatus == 200 && d.ackPass && d.acked.seq < e.start.seq {
				acked = true
			}
		}
		if !acked {
			in++
		}
	}
	return in >= max
}

// superseded: may another item of the channel have taken the place of e?
func (w *wsWorld) superseded(e *wsEnq) bool {
	for _, f := range w.enqs {
		if f != e && f.q == e.q && f.kv.Canon() == e.kv.Canon() && f.status != 404 && f.status != 409 && (f.end.seq > e.start.seq) {
			return true
		}
	}
	for _, d := range w.dels { // a retry at the back replaces the updateable last item, and an updateable item that fails gives way to what waits
		if d.it != e && d.it.q == e.q && d.it.kv.Canon() == e.kv.Canon() && (d.it.Pos == "back" || len(w.by[e]) > 0 || w.stalled(e.q, e.start.t, e.start.t.Add(1000*time.Hour))) && !(d.ackStatus == 200 && d.ackPass && d.acked.seq < e.start.seq) {
			return true
		}
	}
	return false
}
