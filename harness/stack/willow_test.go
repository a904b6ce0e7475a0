package stack

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
)

// ---- willow in steps (with locker and limiter behind it), against a model of queues, channels, items and counters ----

type wiItem struct {
	Upd     bool          `json:",omitempty"`
	Retries uint64        `json:",omitempty"`
	Pos     string        // front back
	Timeout time.Duration // a random part makes ties of deadlines all but impossible
	Size    int           `json:",omitempty"`
}
type wiOp struct {
	Op   string        // see wiOps
	Q    int           `json:",omitempty"` // queue name
	KV   int           `json:",omitempty"` // channel; rule; override
	N    int64         `json:",omitempty"` // maximum; limit (-2: no properties at all)
	Ref  int           `json:",omitempty"` // item (of all ever delivered, from the newest), waiting client, rule
	Ref2 int           `json:",omitempty"` // override
	Pass bool          `json:",omitempty"`
	D    time.Duration `json:",omitempty"`
	Item *wiItem       `json:",omitempty"`
	Qry  *gen.Q        `json:",omitempty"`
	Lost bool          `json:",omitempty"` // the client's connection breaks when the item is written to it
	Bad  int           `json:",omitempty"` // 1: the item's id with another channel, 2: with another queue, 3: unknown id
}
type wiCase struct {
	Names     []string
	Channels  []gen.KV
	Rules     []gen.KV
	Overrides []gen.KV
	Ops       []wiOp
}

var wiOps = []string{"cq", "uq", "dq", "gq", "lq", "enq", "deq", "can", "ack", "hb", "dc", "qc", "wait", "wdl", "crule", "urule", "drule", "cov", "dov", "cown", "uov"}
var wiProfiles = map[string][]int{
	//       cq uq dq gq lq enq deq can ack hb dc qc wait wdl cr ur dr co do own uo
	"C19": {1, 0, 0, 0, 0, 30, 24, 1, 24, 3, 0, 2, 2, 2, 0, 0, 0, 0, 0, 0, 0},
	"C21": {1, 0, 0, 0, 0, 18, 20, 1, 8, 16, 1, 1, 8, 22, 0, 0, 0, 0, 0, 0, 0},
	"C22": {2, 5, 1, 0, 0, 30, 22, 2, 16, 1, 2, 1, 6, 4, 3, 3, 2, 2, 2, 1, 2},
	"C23": {3, 0, 1, 0, 0, 26, 30, 8, 10, 1, 2, 3, 2, 1, 0, 0, 0, 0, 0, 0, 0},
	"C24": {12, 6, 7, 5, 4, 22, 14, 2, 8, 2, 8, 10, 1, 1, 0, 0, 0, 0, 0, 3, 0},
}
var wiKeys = []string{"a", "b", "c"}

func wiGen(profile string) func(r *vx.R) wiCase {
	return func(r *vx.R) wiCase {
		var c wiCase
		types := gen.Types(r, r.Range(1, 2), 0)
		n := vx.Pick(r, 1, 2, 2, 3)
		keys := wiKeys[:r.Range(1, 3)]
		names := []string{"jobs", "git commits", "Q-1", "ü", "a.b", "jobs "}
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		c.Names = names[:vx.Pick(r, 1, 2, 2, 3)]
		if profile == "C19" || profile == "C21" {
			c.Names = c.Names[:1]
		}
		alike := profile == "C22" && r.Chance(0.4) // all channels have the same keys, and rules group by them
		if alike {
			keys, types, n = keys[:min(len(keys), 2)], types[:1], 3
		}
		kv := func(max int, any float64) gen.KV {
			out := gen.KV{}
			m := r.Range(1, max)
			if alike && max == 3 {
				m = len(keys)
			}
			for len(out) < m && len(out) < len(keys) {
				v := gen.Small(r, types, n)
				if r.Chance(any) {
					v = gen.AnyV()
				}
				out[vx.PickS(r, keys)] = v
			}
			return out
		}
		chans := r.Range(1, 4)
		if alike {
			chans = r.Range(2, 3)
		}
		for m := chans; len(c.Channels) < m; {
			k := kv(3, 0)
			dup := false
			for _, o := range c.Channels {
				dup = dup || o.Canon() == k.Canon()
			}
			if dup {
				m--
				continue
			}
			c.Channels = append(c.Channels, k)
		}
		sys := func(k gen.KV) gen.KV {
			if r.Chance(0.3) {
				k["_willow_running"] = gen.S("true")
				if r.Chance(0.5) {
					k["_willow_queue_name"] = gen.S(vx.PickS(r, c.Names))
				}
			}
			return k
		}
		for m := r.Range(1, 3); len(c.Rules) < m; {
			c.Rules = append(c.Rules, sys(kv(2, 0.5)))
		}
		if alike {
			c.Rules[0] = gen.KV{keys[0]: gen.AnyV()}
		}
		for m := r.Range(1, 3); len(c.Overrides) < m; {
			o := kv(2, 0.2)
			for k, v := range vx.PickS(r, c.Rules) {
				if v.T == gen.Any {
					v = gen.Small(r, types, n)
				}
				o[k] = v
			}
			c.Overrides = append(c.Overrides, o)
		}
		qo := gen.QOpts{Keys: keys, Types: types, N: n, Depth: 1, NoIDs: true}
		if r.Chance(0.1) {
			qo.Types = append(append([]int{}, types...), gen.Any)
		}
		max := func() int64 {
			switch profile {
			case "C22":
				return vx.Pick[int64](r, -1, 0, 1, 1, 2, 2, 3, 4, 6, 1<<62)
			case "C24":
				return vx.Pick[int64](r, -2, -1, 0, 1, 2, 5, 100)
			}
			return vx.Pick[int64](r, -2, -1, 50, 50, 50)
		}
		upd := vx.Pick(r, 0, 0.3, 0.3, 0.7)
		long := profile != "C21" && r.Chance(0.6)
		item := func() *wiItem {
			it := &wiItem{Upd: r.Chance(upd), Retries: vx.Pick[uint64](r, 0, 0, 1, 1, 2, 3, 1<<63), Pos: vx.Pick(r, "front", "back")}
			it.Timeout = time.Duration(1 + r.IntN(1_000_000))
			switch {
			case long:
				it.Timeout += time.Hour
			case r.Chance(0.04):
				it.Timeout += vx.Pick[time.Duration](r, 0, 1<<62)
			default:
				it.Timeout += vx.Pick(r, 10*time.Millisecond, 200*time.Millisecond, time.Second, 3*time.Second, 20*time.Second)
			}
			if r.Chance(0.05) {
				it.Size = vx.Pick(r, 1000, 70000)
			}
			return it
		}
		query := func() *gen.Q {
			q := gen.Q{}
			if r.Chance(0.7) {
				q = gen.GenQ(r, qo)
			}
			return &q
		}
		lost := vx.Pick(r, 0, 0, 0.1, 0.3)
		for i := range c.Names {
			if profile != "C24" || r.Chance(0.6) {
				c.Ops = append(c.Ops, wiOp{Op: "cq", Q: i, N: max()})
			}
		}
		if profile == "C22" && r.Chance(0.5) {
			c.Ops = append(c.Ops, wiOp{Op: "crule", KV: r.IntN(len(c.Rules)), N: vx.Pick[int64](r, 0, 1, 1, 2, 3)})
		}
		if profile == "C22" && r.Chance(0.4) {
			// several channels at the limits of one rule, with clients waiting for each; then they are freed one by one
			n := r.Range(1, 2)
			if len(c.Ops) > len(c.Names) {
				c.Ops[len(c.Ops)-1].N = int64(n)
				if alike {
					c.Ops[len(c.Ops)-1].KV = 0
				}
			}
			q := r.IntN(len(c.Names))
			for i, k := range c.Channels {
				var conds []gen.Cond
				for key, v := range k {
					conds = append(conds, gen.Cond{Key: key, Op: "=", Val: v, TR: gen.TR{v.T, v.T}})
				}
				sort.Slice(conds, func(i, j int) bool { return conds[i].Key < conds[j].Key })
				l := len(k)
				for m := n + r.Range(0, 1); m > 0; m-- {
					c.Ops = append(c.Ops, wiOp{Op: "enq", Q: q, KV: i, Item: &wiItem{Pos: "front", Timeout: time.Hour}})
					c.Ops = append(c.Ops, wiOp{Op: "deq", Q: q, Qry: &gen.Q{Sel: &gen.Sel{Conds: conds, Max: &l}}})
				}
			}
			if r.Bool() {
				r.Shuffle(len(c.Ops)-len(c.Names)-1, func(i, j int) {
					i, j = i+len(c.Names)+1, j+len(c.Names)+1
					c.Ops[i], c.Ops[j] = c.Ops[j], c.Ops[i]
				})
			}
			for m := r.Range(1, 3); m > 0; m-- {
				c.Ops = append(c.Ops, wiOp{Op: "ack", Ref: r.IntN(5), Pass: true}, wiOp{Op: "wait", D: vx.Pick(r, 6*time.Second, time.Second)})
			}
		}
		if profile == "C22" && r.Chance(0.35) {
			// a rule, and overrides of it that apply to a channel, which then waits until they allow more
			ch := r.IntN(len(c.Channels))
			full := c.Channels[ch].Clone()
			full["_willow_running"] = gen.S("true")
			var all []string
			for k := range full {
				all = append(all, k)
			}
			sort.Strings(all)
			rule := gen.KV{vx.PickS(r, all): gen.AnyV()}
			c.Rules = append(c.Rules, rule)
			c.Ops = append(c.Ops, wiOp{Op: "crule", KV: len(c.Rules) - 1, N: vx.Pick[int64](r, -1, 0, 1, 2, 5)})
			n := 0
			for m := r.Range(1, 3); m > 0; m-- {
				o := gen.KV{}
				for _, k := range all {
					if _, ok := rule[k]; ok || r.Chance(0.3) {
						o[k] = full[k]
						if r.Chance(0.3) {
							o[k] = gen.AnyV()
						}
					}
				}
				limit := vx.Pick(r, -1, 0, 1, 1, 1, 2, 2, 3)
				if limit > n {
					n = limit
				}
				c.Overrides = append(c.Overrides, o)
				c.Ops = append(c.Ops, wiOp{Op: "cov", KV: len(c.Overrides) - 1, N: int64(limit)})
			}
			q := r.IntN(len(c.Names))
			for m := n + 1; m > 0; m-- {
				k := ch
				if r.Chance(0.2) {
					k = r.IntN(len(c.Channels))
				}
				c.Ops = append(c.Ops, wiOp{Op: "enq", Q: q, KV: k, Item: &wiItem{Pos: "front", Timeout: time.Hour, Retries: 1}}, wiOp{Op: "deq", Q: q, Qry: &gen.Q{}})
			}
			for m := r.Range(1, 3); m > 0; m-- {
				switch r.IntN(4) {
				case 0:
					c.Ops = append(c.Ops, wiOp{Op: "uov", Ref2: r.IntN(3), N: vx.Pick[int64](r, -1, 1, 2, 3)})
				case 1:
					c.Ops = append(c.Ops, wiOp{Op: "dov", Ref2: r.IntN(3)})
				default:
					c.Ops = append(c.Ops, wiOp{Op: "ack", Ref: r.IntN(3), Pass: r.Chance(0.8)})
				}
				c.Ops = append(c.Ops, wiOp{Op: "wait", D: vx.Pick(r, 6*time.Second, 6*time.Second, time.Second)})
			}
		}
		for m := r.Range(2, 45); m > 0; m-- {
			o := wiOp{Op: wiOps[r.Weighted(wiProfiles[profile]...)], Q: r.IntN(len(c.Names))}
			switch o.Op {
			case "cq":
				o.N = max()
			case "uq":
				if o.N = max(); o.N == -2 {
					o.N = 3
				}
			case "enq":
				o.KV, o.Item = r.IntN(len(c.Channels)), item()
			case "deq", "qc":
				o.Qry = query()
				o.Lost = o.Op == "deq" && r.Chance(lost)
			case "can":
				o.Ref = r.IntN(4)
			case "ack", "hb":
				o.Ref, o.Pass = vx.Pick(r, 0, 0, 0, 1, 1, 2, 3, 5), r.Chance(0.45)
				if r.Chance(0.08) {
					o.Bad = r.Range(1, 3)
				}
			case "dc":
				o.KV = r.IntN(len(c.Channels))
			case "wait":
				o.D = vx.Pick(r, time.Nanosecond, time.Millisecond, 100*time.Millisecond, time.Second, 5*time.Second, 5*time.Second, 7*time.Second, 30*time.Second)
			case "wdl":
				o.Ref, o.D = r.IntN(3), vx.Pick[time.Duration](r, -1, -1, 0, 0, 1, time.Millisecond, -5*time.Millisecond)
			case "crule":
				o.KV, o.N = r.IntN(len(c.Rules)), vx.Pick[int64](r, -1, 0, 1, 1, 2, 3)
			case "urule":
				o.Ref, o.N = r.IntN(3), vx.Pick[int64](r, -1, 0, 1, 1, 2, 3)
			case "drule":
				o.Ref = r.IntN(3)
			case "cov":
				o.Ref, o.KV, o.N = r.IntN(3), r.IntN(len(c.Overrides)), vx.Pick[int64](r, -1, 0, 1, 1, 2, 3)
			case "dov":
				o.Ref, o.Ref2 = r.IntN(3), r.IntN(3)
			case "uov":
				o.Ref, o.Ref2, o.N = r.IntN(3), r.IntN(3), vx.Pick[int64](r, -1, 0, 1, 1, 2, 3)
			case "cown":
				o.KV = r.IntN(len(c.Channels))
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}
}

type wmItem struct {
	wiItem
	data     []byte
	seq      int
	failures uint64
	deadline time.Time
	ch       *wmChan
	ids      string // the id it was delivered with last
	state    string // waiting processing gone
}
type wmChan struct {
	kv      gen.KV
	canon   string
	queue   *wmQueue
	waiting []*wmItem
	proc    []*wmItem
	blocked bool      // it may be waiting for its next look at the limits
	okAt    time.Time // since when it could be handed out although it is blocked
}
type wmQueue struct {
	name  string
	max   int64
	chans map[string]*wmChan
}

func (q *wmQueue) total() (n int64) {
	for _, c := range q.chans {
		n += int64(len(c.waiting) + len(c.proc))
	}
	return
}

type wmAns struct {
	at     time.Time
	status int
	body   []byte
}
type wmClient struct {
	n      int
	queue  string
	q      *wmQueue // nil once that queue was deleted
	missed bool     // the queue did not exist
	qry    *gen.Q
	cancel context.CancelFunc
	gone   bool
	lost   bool // its connection breaks when an item is written to it
	ans    *wmAns
}

type wiWorld struct {
	c       wiCase
	rec     *vx.Rec
	net     *Net
	locker  *Svc
	limiter *Svc
	svc     *Svc
	lw      *liWorld
	queues  map[string]*wmQueue
	clients []*wmClient
	items   []*wmItem // every delivered item, oldest first
	live    map[string]*wmItem
	seq     int
	mu      sync.Mutex
	wake    chan struct{}
	tie     bool
}

func wiURI(name, rest string) string { return "/v1/queues/" + url.PathEscape(name) + rest }

func (w *wiWorld) call(method, uri string, body any, want ...int) (int, []byte, error) {
	x := &liWorld{svc: w.svc, net: w.net}
	return x.call(method, uri, body, want...)
}

func (w *wiWorld) name(i int) string { return w.c.Names[i%len(w.c.Names)] }
func (w *wiWorld) kv(i int) gen.KV   { return w.c.Channels[i%len(w.c.Channels)] }

func runKV(c *wmChan) gen.KV {
	k := c.kv.Clone()
	k["_willow_queue_name"], k["_willow_running"] = gen.S(c.queue.name), gen.S("true")
	return k
}
func enqKV(c *wmChan) gen.KV {
	k := gen.KV{"_willow_queue_name": gen.S(c.queue.name), "_willow_enqueued": gen.S("true")}
	for key, v := range c.kv {
		k["_willow_"+key] = v
	}
	return k
}

// counts is what the limiter has to hold.
func (w *wiWorld) counts() (map[string]int64, map[string]gen.KV) {
	n, kvs := map[string]int64{}, map[string]gen.KV{}
	put := func(k gen.KV, m int) {
		if m > 0 {
			n[k.Canon()], kvs[k.Canon()] = int64(m), k
		}
	}
	for _, q := range w.queues {
		for _, c := range q.chans {
			put(enqKV(c), len(c.waiting)+len(c.proc))
			put(runKV(c), len(c.proc))
		}
	}
	return n, kvs
}

func (w *wiWorld) allowed(c *wmChan) bool {
	n, kvs := w.counts()
	ok, checked := liAllows(w.lw.rules, n, kvs, runKV(c))
	if checked {
		w.rec.Label("limit-checked")
	}
	return ok
}

func (w *wiWorld) checkCounters() error {
	n, _ := w.counts()
	var want, got []string
	for k, m := range n {
		want = append(want, fmt.Sprintf("%s=%d", k, m))
	}
	x := &liWorld{svc: w.limiter, net: w.net}
	_, b, err := x.call("GET", "/v1/limiter/counters/query", gen.Q{}.AQ(nil), 200)
	if err != nil {
		return err
	}
	var cs v1limiter.Counters
	if err := json.Unmarshal(b, &cs); err != nil {
		return fmt.Errorf("undecodable counters: %v", err)
	}
	for _, x := range cs {
		got = append(got, fmt.Sprintf("%s=%d", gen.FromKV(x.Spec.DBDefinition.KeyValues).Canon(), *x.Spec.Properties.Counters))
	}
	if err := diff("the counters in the limiter", want, got); err != nil {
		return fmt.Errorf("%w; willow holds %s", err, w)
	}
	return nil
}

func (w *wiWorld) String() string {
	var out []string
	for _, q := range w.queues {
		for _, c := range q.chans {
			s := fmt.Sprintf("%q %s waiting [", q.name, c.canon)
			for _, i := range c.waiting {
				s += fmt.Sprintf("%d(upd %v, failed %d of %d) ", i.seq, i.Upd, i.failures, i.Retries)
			}
			s += "] processing ["
			for _, i := range c.proc {
				s += fmt.Sprintf("%d ", i.seq)
			}
			out = append(out, s+"]")
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func rm(xs []*wmItem, x *wmItem) []*wmItem {
	var out []*wmItem
	for _, y := range xs {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}

func (w *wiWorld) tidy(c *wmChan) {
	if len(c.waiting)+len(c.proc) == 0 {
		delete(c.queue.chans, c.canon)
		w.rec.Label("channel-emptied")
	}
}

func (w *wiWorld) gone(it *wmItem) {
	it.state = "gone"
	if w.live[it.ids] == it {
		delete(w.live, it.ids)
	}
}

// fail is the documented treatment of a failed item.
func (w *wiWorld) fail(it *wmItem) {
	c := it.ch
	c.proc = rm(c.proc, it)
	it.failures++
	it.state = "waiting"
	switch {
	case it.failures > it.Retries:
		w.rec.Label("retries-used-up")
		w.gone(it)
	case it.Pos == "front":
		if it.Upd && len(c.waiting) > 0 {
			w.rec.Label("retry-superseded")
			w.gone(it)
			break
		}
		w.rec.Label("retry-front")
		c.waiting = append([]*wmItem{it}, c.waiting...)
	default:
		if n := len(c.waiting); n > 0 && c.waiting[n-1].Upd {
			w.rec.Label("retry-replaces-last")
			w.gone(c.waiting[n-1])
			c.waiting[n-1] = it
		} else {
			w.rec.Label("retry-back")
			c.waiting = append(c.waiting, it)
		}
	}
	w.tidy(c)
}

// due lets the items time out whose deadline has come.
func (w *wiWorld) due() {
	now := time.Now()
	var xs []*wmItem
	for _, it := range w.live {
		if it.state == "processing" && !it.deadline.After(now) {
			xs = append(xs, it)
		}
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].deadline.Before(xs[j].deadline) })
	for i, it := range xs {
		if i > 0 && xs[i-1].deadline.Equal(it.deadline) && xs[i-1].ch == it.ch {
			w.tie = true
		}
		w.rec.Label("timeout")
		w.fail(it)
	}
}

func (w *wiWorld) settle() error {
	if err := w.net.Err(); err != nil {
		return err
	}
	w.mu.Lock()
	var answered, waiting []*wmClient
	for _, cl := range w.clients {
		switch {
		case cl.ans != nil:
			answered = append(answered, cl)
		default:
			waiting = append(waiting, cl)
		}
	}
	w.clients = waiting
	w.mu.Unlock()
	// a lost delivery puts its item back, so it may have come before any other delivery of the same instant
	sort.SliceStable(answered, func(i, j int) bool {
		return answered[i].ans.status == lostStatus && answered[j].ans.status != lostStatus
	})
	all := append([]*wmClient{}, answered...)
	tried := func() { // a client that was served by one channel may have tried another one before that
		for _, cl := range all {
			if cl.q != nil {
				for _, ch := range cl.q.chans {
					if len(ch.waiting) > 0 && !ch.blocked && cl.qry.Match(ch.kv, -100) && !w.allowed(ch) {
						ch.blocked = true
					}
				}
			}
		}
	}
	for tried(); len(answered) > 0; tried() {
		progress := false
		for i, cl := range answered {
			done, err := w.answer(cl)
			if err != nil {
				return err
			}
			if done {
				answered, progress = append(answered[:i:i], answered[i+1:]...), true
				break
			}
		}
		if !progress {
			cl := answered[0]
			return fmt.Errorf("client %d received an item that is not the next one of its channel: %s; willow should hold %s", cl.n, cut(string(cl.ans.body), 400), w)
		}
	}
	// nobody waits for what is there
	now := time.Now()
	for _, q := range w.queues {
		for _, ch := range q.chans {
			if len(ch.waiting) == 0 {
				ch.okAt = time.Time{}
				continue
			}
			if !w.allowed(ch) {
				ch.okAt = time.Time{}
			}
			for _, cl := range w.clients {
				if cl.q != q || cl.gone || !cl.qry.Match(ch.kv, -100) {
					continue
				}
				if !w.allowed(ch) {
					w.rec.Label("held-back")
					ch.blocked, ch.okAt = true, time.Time{}
					continue
				}
				if !ch.blocked {
					return fmt.Errorf("client %d waits although an item of channel %s of queue %q can be handed out; willow should hold %s", cl.n, ch.canon, q.name, w)
				}
				if ch.okAt.IsZero() {
					ch.okAt = now
				} else if now.Sub(ch.okAt) > 5*time.Second {
					return fmt.Errorf("client %d still waits although the limits have allowed an item of channel %s of queue %q for %s; willow should hold %s", cl.n, ch.canon, q.name, now.Sub(ch.okAt), w)
				}
			}
		}
	}
	return nil
}

// answer reconciles one answered dequeue; false: not yet possible (another answer may have to come first).
func (w *wiWorld) answer(cl *wmClient) (bool, error) {
	a := cl.ans
	if cl.missed {
		if a.status != 404 {
			return true, fmt.Errorf("dequeueing from the unknown queue %q was answered with status %d %s", cl.queue, a.status, cut(string(a.body), 200))
		}
		return true, nil
	}
	if cl.gone && a.status == 0 {
		return true, nil
	}
	if a.status != 200 && a.status != lostStatus {
		if cl.q == nil && (a.status == 404 || a.status == 409) {
			w.rec.Label("unblocked-by-delete")
			return true, nil
		}
		return true, fmt.Errorf("client %d waiting on queue %q was answered with status %d %s", cl.n, cl.queue, a.status, cut(string(a.body), 200))
	}
	var it v1willow.Item
	if err := json.Unmarshal(a.body, &it); err != nil {
		return true, fmt.Errorf("undecodable item: %v: %s", err, cut(string(a.body), 200))
	}
	if err := it.Validate(); err != nil {
		return true, fmt.Errorf("an invalid item was delivered: %v: %s", err, cut(string(a.body), 200))
	}
	q := w.queues[cl.queue]
	if q == nil {
		return true, fmt.Errorf("client %d received an item of the queue %q that does not exist: %s", cl.n, cl.queue, cut(string(a.body), 300))
	}
	kv := gen.FromKV(it.Spec.DBDefinition.KeyValues)
	ch := q.chans[kv.Canon()]
	if ch == nil {
		return true, fmt.Errorf("client %d received an item of a channel that does not exist in queue %q: %s", cl.n, cl.queue, cut(string(a.body), 300))
	}
	if !cl.qry.Match(kv, -100) {
		return true, fmt.Errorf("client %d received an item of channel %s, which does not match its query %s", cl.n, ch.canon, js(cl.qry))
	}
	if len(ch.waiting) == 0 || !bytes.Equal(ch.waiting[0].data, it.Spec.Properties.Data) {
		return false, nil
	}
	m := ch.waiting[0]
	p := it.Spec.Properties
	if *p.Updateable != m.Upd || *p.RetryAttempts != m.Retries || *p.RetryPosition != m.Pos || *p.TimeoutDuration != m.Timeout {
		return true, fmt.Errorf("item %d was enqueued as %+v but is delivered as updateable %v, %d retries, %s, timeout %s", m.seq, m.wiItem, *p.Updateable, *p.RetryAttempts, *p.RetryPosition, *p.TimeoutDuration)
	}
	if !w.allowed(ch) {
		return true, fmt.Errorf("item %d of channel %s was handed out although a limit is reached: %s; willow held %s", m.seq, ch.canon, w.lw.situation(runKV(ch)), w)
	}
	id := it.State.ID
	if o := w.live[id]; o != nil && o != m {
		return true, fmt.Errorf("items %d and %d are both delivered with id %s", o.seq, m.seq, id)
	}
	if m.ids != "" && m.ids != id && w.live[m.ids] == m {
		delete(w.live, m.ids)
	}
	ch.waiting = ch.waiting[1:]
	ch.proc = append(ch.proc, m)
	m.ids, m.state, m.deadline = id, "processing", addTime(a.at, m.Timeout)
	ch.blocked, ch.okAt = false, time.Time{}
	w.live[id] = m
	w.items = append(w.items, m)
	if a.status == lostStatus { // the item is there again
		w.rec.Label("delivery-lost")
		ch.proc, m.state = rm(ch.proc, m), "waiting"
		if m.Upd && len(ch.waiting) > 0 {
			w.gone(m)
		} else {
			ch.waiting = append([]*wmItem{m}, ch.waiting...)
		}
		return true, nil
	}
	w.rec.Label("delivered")
	if m.failures > 0 {
		w.rec.Label("redelivered")
	}
	if len(w.queues) > 1 || len(q.chans) > 1 {
		w.rec.Label("delivered-among-many")
	}
	return true, nil
}

func js(x any) string {
	b, _ := json.Marshal(x)
	return string(b)
}

const lostStatus = -1

func (w *wiWorld) dequeue(name string, qry *gen.Q, lost bool) {
	ctx, cancel := context.WithCancel(context.Background())
	var ans *wmAns
	if lost {
		ctx = context.WithValue(ctx, brokenKey{}, func(b []byte) { ans = &wmAns{time.Now(), lostStatus, append([]byte{}, b...)} })
	}
	cl := &wmClient{n: len(w.items) + 1000*len(w.clients), queue: name, q: w.queues[name], qry: qry, cancel: cancel, lost: lost}
	w.seq++
	cl.n = w.seq
	cl.missed = cl.q == nil
	w.clients = append(w.clients, cl)
	go func() {
		st, b := w.svc.Do(ctx, "GET", wiURI(name, "/channels/items"), qry.AQ(nil))
		w.mu.Lock()
		if cl.ans = (&wmAns{time.Now(), st, b}); st == 200 && ans != nil {
			cl.ans = ans
		}
		w.mu.Unlock()
		select {
		case w.wake <- struct{}{}:
		default:
		}
	}()
}

func (w *wiWorld) advance(d time.Duration) error {
	target := addTime(time.Now(), d)
	for {
		next := target
		for _, it := range w.live {
			if it.state == "processing" && it.deadline.Before(next) {
				next = it.deadline
			}
		}
		if d := time.Until(next); d > 0 {
			t := time.NewTimer(d)
			select {
			case <-t.C:
			case <-w.wake:
				t.Stop()
			}
		}
		synctest.Wait()
		w.due()
		if w.tie {
			return nil
		}
		if err := w.settle(); err != nil {
			return err
		}
		if !time.Now().Before(target) {
			return nil
		}
	}
}

func (w *wiWorld) item(ref int) *wmItem {
	if len(w.items) == 0 {
		return nil
	}
	return w.items[len(w.items)-1-ref%len(w.items)]
}

func (w *wiWorld) step(o wiOp) error {
	name := w.name(o.Q)
	q := w.queues[name]
	missing := q == nil
	switch o.Op {
	case "cq":
		body := &v1willow.Queue{Spec: &v1willow.QueueSpec{DBDefinition: &v1willow.QueueDBDefinition{Name: &name}}}
		max := o.N
		if max == -2 {
			max = -1
		} else {
			body.Spec.Properties = &v1willow.QueueProperties{MaxItems: &max}
		}
		if !missing {
			w.rec.Label("queue-twice")
			_, _, err := w.call("POST", "/v1/queues", body, 409)
			return err
		}
		if _, _, err := w.call("POST", "/v1/queues", body, 201); err != nil {
			return err
		}
		w.queues[name] = &wmQueue{name: name, max: max, chans: map[string]*wmChan{}}
		w.rec.Label("queue-created")
		for _, cl := range w.clients {
			if !cl.gone {
				w.rec.Label("created-while-waiting")
			}
		}
	case "uq":
		st := 200
		if missing {
			st = 404
		} else {
			q.max = o.N
			w.rec.Label("queue-updated")
		}
		_, _, err := w.call("PUT", wiURI(name, ""), &v1willow.QueueProperties{MaxItems: &o.N}, st)
		return err
	case "dq":
		st := 204
		sts := []int{st}
		if missing {
			sts = []int{204, 404}
		} else {
			w.rec.Label("queue-deleted")
			for _, ch := range q.chans {
				w.rec.Label("queue-deleted-with-items")
				w.dropChan(ch)
			}
			delete(w.queues, name)
			for _, cl := range w.clients {
				if cl.q == q {
					cl.q = nil
					w.rec.Label("deleted-while-waiting")
				}
			}
		}
		_, _, err := w.call("DELETE", wiURI(name, ""), nil, sts...)
		return err
	case "gq":
		st := 200
		if missing {
			st = 404
		}
		_, b, err := w.call("GET", wiURI(name, ""), gen.Q{}.AQ(nil), st)
		if err != nil || missing {
			return err
		}
		var g v1willow.Queue
		if err := json.Unmarshal(b, &g); err != nil {
			return fmt.Errorf("undecodable queue: %s", b)
		}
		line, err := queueLine(&g)
		if err != nil {
			return err
		}
		return diff("the queue read", []string{fmt.Sprintf("%q max %d", name, q.max)}, []string{line})
	case "lq":
		_, b, err := w.call("GET", "/v1/queues", nil, 200)
		if err != nil {
			return err
		}
		var gs v1willow.Queues
		if err := json.Unmarshal(b, &gs); err != nil {
			return fmt.Errorf("undecodable queues: %s", b)
		}
		var want, got []string
		for _, q := range w.queues {
			want = append(want, fmt.Sprintf("%q max %d", q.name, q.max))
		}
		for _, g := range gs {
			l, err := queueLine(g)
			if err != nil {
				return err
			}
			got = append(got, l)
		}
		return diff("the list of queues", want, got)
	case "enq":
		return w.enqueue(o, name, q)
	case "deq":
		w.dequeue(name, o.Qry, o.Lost)
	case "can":
		var alive []*wmClient
		for _, cl := range w.clients {
			if !cl.gone {
				alive = append(alive, cl)
			}
		}
		if len(alive) > 0 {
			cl := alive[o.Ref%len(alive)]
			cl.gone = true
			cl.cancel()
			w.rec.Label("cancelled")
		}
	case "ack", "hb":
		return w.ack(o)
	case "dc":
		kv := w.kv(o.KV)
		sts := []int{204}
		if missing {
			sts = []int{404}
		} else if ch := q.chans[kv.Canon()]; ch == nil {
			sts = []int{204, 404}
		} else {
			w.rec.Label("channel-deleted")
			if len(ch.proc) > 0 {
				w.rec.Label("channel-deleted-processing")
			}
			w.dropChan(ch)
		}
		_, _, err := w.call("DELETE", wiURI(name, "/channels"), kv.DT(), sts...)
		return err
	case "qc":
		st := 200
		if missing {
			st = 404
		}
		_, b, err := w.call("GET", wiURI(name, "/channels"), o.Qry.AQ(nil), st)
		if err != nil || missing {
			return err
		}
		var cs v1willow.Channels
		if err := json.Unmarshal(b, &cs); err != nil {
			return fmt.Errorf("undecodable channels: %s", b)
		}
		var want, got []string
		for _, ch := range q.chans {
			if o.Qry.Match(ch.kv, -100) {
				want = append(want, ch.canon)
			}
		}
		for _, x := range cs {
			if x == nil || x.Spec == nil || x.Spec.DBDefinition == nil {
				return fmt.Errorf("a channel is listed incompletely: %s", b)
			}
			got = append(got, gen.FromKV(x.Spec.DBDefinition.KeyValues).Canon())
		}
		if len(want) > 0 {
			w.rec.Label("channels-listed")
		}
		if err := diff(fmt.Sprintf("the channels of queue %q", name), want, got); err != nil {
			return fmt.Errorf("%w; willow should hold %s", err, w)
		}
	case "wait":
		return w.advance(o.D)
	case "wdl":
		var xs []*wmItem
		for _, it := range w.live {
			if it.state == "processing" {
				xs = append(xs, it)
			}
		}
		if len(xs) == 0 {
			return nil
		}
		sort.Slice(xs, func(i, j int) bool {
			return xs[i].deadline.Before(xs[j].deadline) || xs[i].deadline.Equal(xs[j].deadline) && xs[i].seq < xs[j].seq
		})
		if d := time.Until(xs[o.Ref%len(xs)].deadline) + o.D; d > 0 && d < 1<<40 {
			if d >= 0 && o.D >= 0 {
				w.rec.Label("to-the-deadline")
			} else {
				w.rec.Label("just-before-the-deadline")
			}
			return w.advance(d)
		}
	case "cown":
		// an override a user adds to the rule that willow itself keeps for its queues: some channels of the queue without limit
		_, b, err := (&liWorld{svc: w.limiter, net: w.net}).call("GET", "/v1/limiter/rules/query", gen.Q{}.AQ(nil), 200)
		if err != nil {
			return err
		}
		var rs v1limiter.Rules
		if err := json.Unmarshal(b, &rs); err != nil {
			return fmt.Errorf("undecodable rules: %v", err)
		}
		for _, x := range rs {
			if _, own := x.Spec.DBDefinition.GroupByKeyValues["_willow_enqueued"]; own {
				kv := enqKV(&wmChan{kv: w.kv(o.KV), queue: &wmQueue{name: name}})
				_, _, err := (&liWorld{svc: w.limiter, net: w.net}).call("POST", "/v1/limiter/rules/"+x.State.ID+"/overrides", ovBody(kv, -1), 201, 409)
				w.rec.Label("own-rule-override")
				return err
			}
		}
		return fmt.Errorf("the rule of the queues is gone: %s", b)
	case "crule", "urule", "drule", "cov", "dov", "uov":
		op := liOp{Op: o.Op, R: o.Ref, O: o.Ref2, KV: o.KV, N: o.N}
		return w.lw.step(op)
	}
	return nil
}

func queueLine(g *v1willow.Queue) (string, error) {
	if g == nil || g.Spec == nil || g.Spec.DBDefinition == nil || g.Spec.DBDefinition.Name == nil || g.Spec.Properties == nil || g.Spec.Properties.MaxItems == nil || g.State == nil {
		return "", fmt.Errorf("a queue comes back incomplete: %s", js(g))
	}
	return fmt.Sprintf("%q max %d", *g.Spec.DBDefinition.Name, *g.Spec.Properties.MaxItems), nil
}

func (w *wiWorld) dropChan(ch *wmChan) {
	for _, it := range append(append([]*wmItem{}, ch.waiting...), ch.proc...) {
		w.gone(it)
	}
	delete(ch.queue.chans, ch.canon)
}

func itemBody(kv gen.KV, it wiItem, data []byte) *v1willow.Item {
	return &v1willow.Item{Spec: &v1willow.ItemSpec{
		DBDefinition: &v1willow.ItemDBDefinition{KeyValues: kv.DT()},
		Properties:   &v1willow.ItemProperties{Data: data, Updateable: &it.Upd, RetryAttempts: &it.Retries, RetryPosition: &it.Pos, TimeoutDuration: &it.Timeout},
	}}
}

func (w *wiWorld) enqueue(o wiOp, name string, q *wmQueue) error {
	kv := w.kv(o.KV)
	w.seq++
	data := []byte(fmt.Sprintf("item %d", w.seq))
	if o.Item.Size > 0 {
		data = append(data, bytes.Repeat([]byte{0, 255, byte(w.seq)}, o.Item.Size)...)
	}
	m := &wmItem{wiItem: *o.Item, data: data, seq: w.seq, state: "waiting"}
	st := 201
	if q == nil {
		st = 404
	} else {
		ch := q.chans[kv.Canon()]
		if ch != nil && len(ch.waiting) > 0 && ch.waiting[len(ch.waiting)-1].Upd {
			w.rec.Label("replaced")
			old := ch.waiting[len(ch.waiting)-1]
			w.gone(old)
			m.ch = ch
			ch.waiting[len(ch.waiting)-1] = m
		} else if q.max != -1 && q.total() >= q.max {
			st = 409
			w.rec.Label("queue-full")
		} else {
			if ch == nil {
				ch = &wmChan{kv: kv, canon: kv.Canon(), queue: q}
				q.chans[ch.canon] = ch
				for _, cl := range w.clients {
					if cl.q == q && !cl.gone && cl.qry.Match(kv, -100) {
						w.rec.Label("new-channel-for-waiting")
					}
				}
			}
			m.ch = ch
			ch.waiting = append(ch.waiting, m)
		}
	}
	_, _, err := w.call("POST", wiURI(name, "/channels/items"), itemBody(kv, *o.Item, data), st)
	return err
}

func (w *wiWorld) ack(o wiOp) error {
	it := w.item(o.Ref)
	if it == nil {
		return nil
	}
	name, kv, id := it.ch.queue.name, it.ch.kv, it.ids
	st := 404
	switch {
	case o.Bad == 1 && len(w.c.Channels) > 1:
		for _, k := range w.c.Channels {
			if k.Canon() != kv.Canon() {
				kv = k
				break
			}
		}
	case o.Bad == 2 && len(w.c.Names) > 1:
		for _, n := range w.c.Names {
			if n != name {
				name = n
				break
			}
		}
	case o.Bad == 3:
		id = "no-such-item"
	default:
		// what replaced an item is not acknowledged by a late ack for the item
		if w.live[id] == it && it.state == "processing" {
			st = 200
		} else {
			w.rec.Label("not-processing")
		}
	}
	if o.Op == "hb" {
		if st == 200 {
			it.deadline = addTime(time.Now(), it.Timeout)
			w.rec.Label("heartbeat")
		}
		_, _, err := w.call("POST", wiURI(name, "/channels/items/heartbeat"), v1willow.Heartbeat{ItemID: id, KeyValues: kv.DT()}, st)
		return err
	}
	if _, _, err := w.call("POST", wiURI(name, "/channels/items/ack"), v1willow.ACK{ItemID: id, KeyValues: kv.DT(), Passed: o.Pass}, st); err != nil {
		return fmt.Errorf("%w (item %d, %s)", err, it.seq, it.state)
	}
	if st == 200 {
		if o.Pass {
			it.ch.proc = rm(it.ch.proc, it)
			w.gone(it)
			w.tidy(it.ch)
			w.rec.Label("acked")
		} else {
			w.fail(it)
			w.rec.Label("failed")
		}
	}
	return nil
}

func wiRun(need []string) func(c wiCase, rec *vx.Rec) error {
	return func(c wiCase, rec *vx.Rec) error {
		err, left := Bubble(func() error {
			w := &wiWorld{c: c, rec: rec, net: NewNet(), queues: map[string]*wmQueue{}, live: map[string]*wmItem{}, wake: make(chan struct{}, 1)}
			w.locker = w.net.StartLocker(15 * time.Second)
			w.limiter = w.net.StartLimiter()
			var err error
			if w.svc, err = w.net.StartWillow(); err != nil {
				return err
			}
			w.lw = &liWorld{c: liCase{Rules: c.Rules, Overrides: c.Overrides}, svc: w.limiter, net: w.net, counts: map[string]int64{}, ids: map[string]bool{}, rec: rec}
			synctest.Wait()
			for i, o := range c.Ops {
				if err := w.step(o); err != nil {
					return fmt.Errorf("step %d (%s): %w", i, o.Op, err)
				}
				if err := w.advance(0); err != nil {
					return fmt.Errorf("after step %d (%s): %w", i, o.Op, err)
				}
				if w.tie {
					return nil
				}
				if err := w.checkCounters(); err != nil {
					return fmt.Errorf("after step %d (%s): %w", i, o.Op, err)
				}
			}
			return w.finish()
		})
		if err == nil && left {
			err = fmt.Errorf("goroutines of willow stay blocked for good after its shutdown")
		}
		if rec.Has(need...) {
			rec.Nontrivial()
		}
		return err
	}
}

func (w *wiWorld) finish() error {
	for i := range w.c.Names {
		if err := w.step(wiOp{Op: "qc", Q: i, Qry: &gen.Q{}}); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
	}
	if err := w.step(wiOp{Op: "lq"}); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	// whoever still waits is answered when willow is told to stop
	if err := w.svc.Stop(); err != nil {
		return err
	}
	synctest.Wait()
	for _, cl := range w.clients {
		w.mu.Lock()
		a := cl.ans
		w.mu.Unlock()
		if a == nil {
			return fmt.Errorf("client %d, waiting on queue %q, is not answered although willow has ended", cl.n, cl.queue)
		}
		if !cl.gone && a.status < 400 {
			return fmt.Errorf("client %d, waiting on queue %q when willow was told to stop, was answered with status %d", cl.n, cl.queue, a.status)
		}
	}
	return liEnd(w.net, w.locker, w.limiter)
}

func wiShrink(c wiCase) []wiCase {
	var out []wiCase
	for _, o := range vx.Cuts(c.Ops) {
		d := c
		d.Ops = o
		out = append(out, d)
	}
	for i, o := range c.Ops {
		set := func(f func(o *wiOp)) {
			d := c
			d.Ops = append([]wiOp{}, c.Ops...)
			if o.Item != nil {
				it := *o.Item
				d.Ops[i].Item = &it
			}
			f(&d.Ops[i])
			out = append(out, d)
		}
		if o.Item != nil {
			if o.Item.Size > 0 {
				set(func(o *wiOp) { o.Item.Size = 0 })
			}
			if o.Item.Upd {
				set(func(o *wiOp) { o.Item.Upd = false })
			}
			if o.Item.Retries > 1 {
				set(func(o *wiOp) { o.Item.Retries = 1 })
			}
		}
		if o.Qry != nil {
			for _, q := range gen.ShrinkQ(*o.Qry) {
				q := q
				set(func(o *wiOp) { o.Qry = &q })
			}
		}
		if o.KV > 0 {
			set(func(o *wiOp) { o.KV = 0 })
		}
		if o.Q > 0 {
			set(func(o *wiOp) { o.Q = 0 })
		}
		if o.Ref > 0 {
			set(func(o *wiOp) { o.Ref = 0 })
		}
		if o.Lost {
			set(func(o *wiOp) { o.Lost = false })
		}
	}
	return out
}

func wiProp(profile, rule string, weight int, need ...string) vx.Runner {
	return vx.Prop[wiCase]{Name: "steps", Rule: rule, Gen: wiGen(profile), Run: wiRun(need), Shrink: wiShrink, Weight: weight}
}

func TestC19(t *testing.T) {
	curT = t
	vx.Check(t, wiProp("C19", "an item was delivered again after it failed", 1, "delivered", "redelivered"))
}

func TestC20(t *testing.T) {
	curT = t
	vx.Check(t, wsProp("C20", "an item was delivered more than once, or several clients competed for the items of a channel in order", 1, "acked", "ordered"))
}

func TestC21(t *testing.T) {
	curT = t
	vx.Check(t, wiProp("C21", "an item timed out and another one was kept alive by a heartbeat", 1, "timeout", "heartbeat"),
		wsProp("C21", "an item was delivered again, and heartbeats or late acks were sent", 2, "redelivered"))
}

func TestC22(t *testing.T) {
	curT = t
	vx.Check(t, wiProp("C22", "an enqueue was refused because the queue is full, or an item was held back by a limit", 2, "delivered"),
		wsProp("C22", "items were delivered while a limit applied", 1, "limit-checked"))
}

func TestC23(t *testing.T) {
	curT = t
	vx.Check(t, wiProp("C23", "a client that waited was served by a channel created later", 1, "new-channel-for-waiting"),
		wsProp("C23", "some waiting clients gave up, others acknowledged items", 1, "gave-up", "acked"))
}

func TestC24(t *testing.T) {
	curT = t
	vx.Check(t, wiProp("C24", "a queue or channel was deleted with items in it", 1, "queue-deleted-with-items"),
		wsProp("down", "requests were unanswered when the shutdown began", 1, "busy-at-shutdown"),
		wsProp("C24", "accepted items were deleted with their queue or channel during the storm", 2, "deleted", "accepted"))
}
