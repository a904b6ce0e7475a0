package stack

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"
	"github.com/DanLavine/willow/pkg/clients"
	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
	willowclient "github.com/DanLavine/willow/pkg/clients/willow_client"
	apierrors "github.com/DanLavine/willow/pkg/models/api/common/errors"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// ---- items held through the client, in virtual time and with faults. Times are in units of 50 ms.

type icItem struct {
	TO      int
	Pos     string
	Retries uint64
	At      int
}
type icAct struct {
	Before, Hold, Patience int
	Pass                   bool
	LateAck                bool // acks even if the item is lost
}
type icActor struct {
	Client int
	Acts   []icAct
}
type icCase struct {
	Name   string
	KV     gen.KV
	Items  []icItem
	Actors []icActor
	Faults []lcFault // Obtain: the ack route
}

func icGen(r *vx.R) icCase {
	c := icCase{Name: vx.Pick(r, "jobs", "jobs", "my jobs", "50%", "a?b#c", "q+1&x=y", "Jöbs-日本", "."), KV: gen.KV{"k": gen.Small(r, gen.Types(r, 1, 0), 3)}}
	if c.Name == "." {
		c.Name = "a.b"
	}
	to := vx.Pick(r, 20, 40, 100)
	for n := r.Range(1, 6); n > 0; n-- {
		it := icItem{TO: to, Pos: vx.Pick(r, "front", "back"), Retries: vx.Pick[uint64](r, 0, 1, 3, 10), At: vx.Pick(r, 0, 0, 1, 30, 200)}
		if r.Chance(0.2) {
			it.TO = vx.Pick(r, 20, 40, 100)
		}
		c.Items = append(c.Items, it)
	}
	for n := r.Range(1, 4); n > 0; n-- {
		a := icActor{Client: n - 1}
		for m := r.Range(1, 4); m > 0; m-- {
			a.Acts = append(a.Acts, icAct{Before: vx.Pick(r, 0, 0, 1, 7, 20), Hold: vx.Pick(r, 0, 1, to/2, to, 2*to, 5*to, 9*to+1), Patience: vx.Pick(r, 1, 20, 400, 4000), Pass: r.Chance(0.7), LateAck: r.Bool()})
		}
		c.Actors = append(c.Actors, a)
	}
	span := r.Range(1, 12)
	switch r.Weighted(3, 3, 5) {
	case 1: // short interruptions, far enough apart that the item must survive them
		for cl := 0; cl < 4; cl++ {
			at := r.Range(0, 2*to)
			for n := r.Range(0, 4); n > 0; n-- {
				c.Faults = append(c.Faults, lcFault{Client: cl, Kind: vx.Pick(r, "refuse", "busy", "error", "drop", "delay"), From: at, Len: r.Range(1, 6), By: r.Range(1, 4)})
				at += 6 + r.Range(100, 200)
			}
		}
	case 2:
		for n := r.Range(1, 5); n > 0; n-- {
			f := lcFault{Client: r.IntN(4), Kind: vx.Pick(r, "refuse", "busy", "error", "drop", "hang", "delay"), From: r.Range(0, span*to), Len: vx.Pick(r, 1, to/2, to, to+1, 2*to, 5*to), By: r.Range(1, 2*to)}
			f.Obtain = (f.Kind == "refuse" || f.Kind == "error") && r.Chance(0.25)
			c.Faults = append(c.Faults, f)
		}
	}
	return c
}

type icBeat struct {
	at, answered time.Duration
	fault        Fault
	status       int
}
type icHold struct {
	actor, client, item int
	to                  time.Duration
	got, released       time.Duration
	ended               time.Duration // when Done closed; -1 never
	asked               bool          // ACK was called
	ackErr              error
	ackFault            bool
	pass                bool
	callbacks           []string
	beats               []*icBeat
}

func (h *icHold) String() string {
	s := fmt.Sprintf("item %d of timeout %v with client %d from %v, ", h.item, h.to, h.client, h.got)
	if h.asked {
		s += fmt.Sprintf("ACK(%v) at %v answered %v, ", h.pass, h.released, h.ackErr)
	} else {
		s += fmt.Sprintf("given up at %v, ", h.released)
	}
	s += fmt.Sprintf("Done closed at %v, callbacks %q, heartbeats", h.ended, h.callbacks)
	for i, b := range h.beats {
		if i > 20 {
			s += " ..."
			break
		}
		s += fmt.Sprintf(" %v:%d", b.at, b.status)
	}
	return s
}

func icRun(c icCase, rec *vx.Rec) error {
	err, left := Bubble(func() error { return icWorld(c, rec) })
	if err == nil && left {
		err = fmt.Errorf("goroutines stay blocked for good after every item was acknowledged or lost and the services shut down")
	}
	return err
}

func icWorld(c icCase, rec *vx.Rec) error {
	net := NewNet()
	locker, limiter := net.StartLocker(lkDefault), net.StartLimiter()
	willow, err := net.StartWillow()
	if err != nil {
		return err
	}
	start := time.Now()
	now := func() time.Duration { return time.Since(start) }
	var mu sync.Mutex
	var bad error
	fail := func(format string, a ...any) {
		mu.Lock()
		if bad == nil {
			bad = fmt.Errorf(format, a...)
		}
		mu.Unlock()
	}
	var current = map[int]*icHold{} // by client
	beats := map[*http.Request]*icBeat{}
	which := func(host string) int {
		n := -1
		fmt.Sscanf(host, "willow-%d", &n)
		return n
	}
	isBeat := func(r *http.Request) bool { return strings.HasSuffix(r.URL.Path, "/channels/items/heartbeat") }
	isAck := func(r *http.Request) bool { return strings.HasSuffix(r.URL.Path, "/channels/items/ack") }
	active := func(f lcFault, host string) bool {
		n := now()
		return f.Client == which(host) && n >= time.Duration(f.From)*lcUnit && n < time.Duration(f.From+f.Len)*lcUnit
	}
	net.SetFault(func(host string, r *http.Request) Fault {
		fault := NoFault
		for _, f := range c.Faults {
			if active(f, host) && (f.Obtain && isAck(r) || !f.Obtain && isBeat(r)) && fault == NoFault {
				fault = map[string]Fault{"refuse": Refuse, "error": ServerError, "drop": DropAnswer, "hang": Hang, "busy": Reject409}[f.Kind]
			}
		}
		cl := which(host)
		mu.Lock()
		defer mu.Unlock()
		h := current[cl]
		if h != nil && isBeat(r) {
			b := &icBeat{at: now(), fault: fault, answered: -1}
			h.beats = append(h.beats, b)
			beats[r] = b
		}
		if h != nil && isAck(r) && fault != NoFault {
			h.ackFault = true
		}
		return fault
	})
	net.SetDelay(func(host string, r *http.Request) time.Duration {
		var d time.Duration
		for _, f := range c.Faults {
			if f.Kind == "delay" && active(f, host) && isBeat(r) {
				d = max(d, time.Duration(f.By)*lcUnit)
			}
		}
		return d
	})
	net.SetWatch(func(host string, r *http.Request, status int) {
		mu.Lock()
		defer mu.Unlock()
		if b := beats[r]; b != nil {
			b.status, b.answered = status, now()
		}
	})

	var cls []*willowclient.WillowClient
	for i := 0; i < 5; i++ {
		cl, err := willowclient.NewWillowClient(&clients.Config{URL: fmt.Sprintf("http://willow-%d", i)})
		if err != nil {
			return err
		}
		cls = append(cls, cl)
	}
	ctx := context.Background()
	if err := cls[4].CreateQueue(ctx, queueBody(c.Name, -1)); err != nil {
		return fmt.Errorf("CreateQueue(%q): %w", c.Name, err)
	}
	var wg sync.WaitGroup
	for i, it := range c.Items {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(it.At) * lcUnit)
			if err := cls[4].EnqueueQueueItem(ctx, c.Name, itemBody(c.KV, wiItem{Retries: it.Retries, Pos: it.Pos, Timeout: time.Duration(it.TO) * lcUnit}, []byte(fmt.Sprint(i)))); err != nil {
				fail("EnqueueQueueItem: %v", err)
			}
		}()
	}
	var holds []*icHold
	all := gen.Q{}
	for ai, a := range c.Actors {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, act := range a.Acts {
				time.Sleep(time.Duration(act.Before) * lcUnit)
				dctx, cancel := context.WithTimeout(ctx, time.Duration(act.Patience)*lcUnit)
				asked := now()
				it, err := cls[a.Client].DequeueQueueItem(dctx, c.Name, all.AQ(nil))
				gaveUp := dctx.Err() != nil
				cancel()
				if (it == nil) == (err == nil) {
					fail("DequeueQueueItem returned item %v and error %v", it, err)
				}
				if it == nil {
					if !gaveUp {
						fail("DequeueQueueItem asked at %v failed at %v: %v", asked, now(), err)
					}
					continue
				}
				n := -1
				fmt.Sscan(string(it.Data()), &n)
				if n < 0 || n >= len(c.Items) {
					fail("received the data %q that nobody enqueued", it.Data())
					continue
				}
				h := &icHold{actor: ai, client: a.Client, item: n, to: time.Duration(c.Items[n].TO) * lcUnit, got: now(), released: -1, ended: -1, pass: act.Pass}
				mu.Lock()
				holds = append(holds, h)
				current[a.Client] = h
				mu.Unlock()
				it.SetHeartbeatErrorCallback(func(err error) {
					mu.Lock()
					h.callbacks = append(h.callbacks, fmt.Sprint(err))
					mu.Unlock()
				})
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-it.Done()
					mu.Lock()
					h.ended = now()
					mu.Unlock()
				}()
				lost := false
				select {
				case <-it.Done():
					lost = true
				case <-time.After(time.Duration(act.Hold) * lcUnit):
				}
				mu.Lock()
				h.released = now()
				h.asked = !lost || act.LateAck && len(c.Actors) == 1
				mu.Unlock()
				if h.asked {
					err := it.ACK(ctx, act.Pass)
					mu.Lock()
					h.ackErr = err
					mu.Unlock()
					if now() != h.released {
						fail("ACK took %v although the service answered at once: %v", now()-h.released, h)
					}
					select {
					case <-it.Done():
					default:
						fail("Done is not closed after ACK: %v", h)
					}
				}
			}
		}()
	}
	finished := make(chan struct{})
	go func() { wg.Wait(); close(finished) }()
	select {
	case <-finished:
	case <-time.After(10 * time.Hour):
		mu.Lock()
		defer mu.Unlock()
		if bad != nil {
			return bad
		}
		for _, h := range holds {
			if h.ended < 0 {
				return fmt.Errorf("Done never closes: %v", h)
			}
		}
		return fmt.Errorf("a client call never returns")
	}
	time.Sleep(time.Minute)
	mu.Lock()
	defer mu.Unlock()
	if bad != nil {
		return bad
	}
	if err := net.Err(); err != nil {
		return err
	}
	survivable := func(client int, to time.Duration) bool {
		last := -1 << 30
		fs := append([]lcFault{}, c.Faults...)
		sort.Slice(fs, func(i, j int) bool { return fs[i].From < fs[j].From })
		for _, f := range fs {
			if f.Client != client || f.Obtain {
				continue
			}
			if f.Kind == "hang" || time.Duration(f.Len)*lcUnit > to*3/10 || time.Duration(f.From-last)*lcUnit < to || f.Kind == "delay" && time.Duration(f.By)*lcUnit > to*2/10 {
				return false
			}
			last = f.From + f.Len
		}
		return true
	}
	sort.SliceStable(holds, func(i, j int) bool { return holds[i].got < holds[j].got })
	for i, h := range holds {
		if h.ended < 0 {
			return fmt.Errorf("Done never closed: %v", h)
		}
		if h.asked && h.ended > h.released {
			return fmt.Errorf("Done closed after ACK returned: %v", h)
		}
		disturbed := false // the previous holder acknowledges at the very moment it loses the item, or later
		for _, p := range holds[:i] {
			disturbed = disturbed || p.item == h.item && p.asked && p.released >= h.got
		}
		if disturbed {
			rec.Label("disturbed")
			continue
		}
		faults, failed := 0, 0
		ok := h.got
		for _, b := range h.beats {
			if b.at > h.released {
				return fmt.Errorf("a heartbeat is sent although the item was acknowledged or lost: %v", h)
			}
			if b.fault != NoFault || b.answered != b.at {
				faults++
			}
			if b.status == 200 && b.answered <= h.released {
				ok = b.at
			}
			if b.at < h.released && (b.fault == Refuse || b.fault == ServerError || b.fault == DropAnswer || b.fault == Reject409) {
				failed++
			}
			if b.fault == NoFault && b.status != 200 && b.status != 0 && h.ended == h.released && b.at < h.released {
				failed++
			}
		}
		if h.ended < h.released && h.asked && h.ended != h.released {
			rec.Label("acked-late")
		}
		if faults == 0 || survivable(h.client, h.to) {
			if h.released-h.got > h.to {
				rec.Label("kept-beyond-timeout")
				rec.Nontrivial()
				if faults > 0 {
					rec.Label("kept-through-faults")
				}
			}
			if !h.asked || h.ended != h.released || h.ackErr != nil && !h.ackFault {
				return fmt.Errorf("an item was lost although the service was reachable (faults on its heartbeats: %d): %v", faults, h)
			}
			if faults == 0 && len(h.callbacks) > 0 {
				return fmt.Errorf("an error was reported although every heartbeat was answered: %v", h)
			}
		}
		if h.released > ok+h.to {
			return fmt.Errorf("no heartbeat succeeded since %v, yet the loss was not reported by %v: %v", ok, ok+h.to, h)
		}
		for _, e := range h.callbacks {
			if strings.Contains(e, "context canceled") {
				return fmt.Errorf("the heartbeat that the acknowledgement cut short is reported as an error: %v", h)
			}
		}
		if len(h.callbacks) < failed {
			return fmt.Errorf("%d heartbeats failed but only %d errors were reported: %v", failed, len(h.callbacks), h)
		}
		if failed > 0 {
			rec.Label("errors-reported")
		}
		if !h.asked || h.ended < h.released {
			rec.Label("lost")
			rec.Nontrivial()
		}
		if h.asked && h.ackFault {
			rec.Label("ack-fault")
			if h.ackErr == nil {
				return fmt.Errorf("the ack was not answered by the service, but ACK reports success: %v", h)
			}
		}
		// one at a time
		for _, p := range holds[:i] {
			if p.item != h.item {
				continue
			}
			if p.ended > h.got {
				return fmt.Errorf("the item was given to another client before the first one was told of its loss: first %v; second %v", p, h)
			}
			if p.asked && p.pass && p.ackErr == nil {
				return fmt.Errorf("an acknowledged item was delivered again: first %v; second %v", p, h)
			}
			rec.Label("redelivered")
		}
	}
	for _, s := range []*Svc{willow, limiter, locker} {
		if err := s.Stop(); err != nil {
			return err
		}
	}
	return nil
}

func icShrink(c icCase) []icCase {
	var out []icCase
	for i := range c.Actors {
		d := c
		d.Actors = append(append([]icActor{}, c.Actors[:i]...), c.Actors[i+1:]...)
		out = append(out, d)
	}
	for _, f := range vx.Cuts(c.Faults) {
		d := c
		d.Faults = f
		out = append(out, d)
	}
	for _, f := range vx.Cuts(c.Items) {
		d := c
		d.Items = f
		out = append(out, d)
	}
	for i := range c.Actors {
		for _, as := range vx.Cuts(c.Actors[i].Acts) {
			d := c
			d.Actors = append([]icActor{}, c.Actors...)
			d.Actors[i].Acts = as
			out = append(out, d)
		}
	}
	if c.Name != "jobs" {
		d := c
		d.Name = "jobs"
		out = append(out, d)
	}
	return out
}

// ---- every call of the clients against a scripted service

type ccCase struct {
	Call    int
	Name    string
	Name2   string
	KV      gen.KV
	Qry     gen.Q
	Match   gen.M
	N       int64
	Item    wiItem
	Data    []byte
	Trace   string
	Status  int
	Body    string // ok, error, empty, garbage, other, null
	Msg     string
	Answers int // objects in an answered list
}

// ccCall is one call of a client: what it sends and which answers it accepts.
type ccCall struct {
	name    string
	method  string
	path    func(c ccCase) string
	ok      int
	sends   func(c ccCase) any // nil: nothing
	returns func(c ccCase) any // nil: nothing
	list    bool
	call    func(ctx context.Context, c ccCase) (any, error)
}

const ccID = "6b1cbd5c-6b29-4b1f-8c8f-0a54d6d2a3c1"

func ccCalls() []ccCall {
	at := func(format string, two bool) func(c ccCase) string {
		return func(c ccCase) string {
			switch strings.Count(format, "%s") {
			case 0:
				return format
			case 1:
				return fmt.Sprintf(format, c.Name)
			}
			return fmt.Sprintf(format, c.Name, c.Name2)
		}
	}
	w := func() *willowclient.WillowClient {
		x, err := willowclient.NewWillowClient(&clients.Config{URL: "http://scripted"})
		if err != nil {
			panic(err)
		}
		return x
	}
	l := func() limiterclient.LimiterClient {
		x, err := limiterclient.NewLimiterClient(&clients.Config{URL: "http://scripted"})
		if err != nil {
			panic(err)
		}
		return x
	}
	nothing := func(ccCase) any { return nil }
	nilIf := func(x any, err error) (any, error) {
		if x == nil || reflect.ValueOf(x).IsNil() {
			return nil, err
		}
		return x, err
	}
	rule := func(c ccCase) any { return ruleBody(c.KV, c.N) }
	ruleOut := func(c ccCase) any {
		x := ruleBody(c.KV, c.N)
		x.State = &v1limiter.RuleState{ID: ccID}
		return x
	}
	ov := func(c ccCase) any { return ovBody(c.KV, c.N) }
	ovOut := func(c ccCase) any {
		x := ovBody(c.KV, c.N)
		x.State = &v1limiter.OverrideState{ID: ccID}
		return x
	}
	cnt := func(c ccCase) any { return cntBody(c.KV, c.N) }
	cntOut := func(c ccCase) any {
		x := cntBody(c.KV, c.N)
		x.State = &v1limiter.CounterState{}
		return x
	}
	queueOut := func(c ccCase) any {
		x := queueBody(c.Name, c.N)
		x.State = &v1willow.QueueState{}
		return x
	}
	item := func(c ccCase) any { return itemBody(c.KV, c.Item, c.Data) }
	itemOut := func(c ccCase) any {
		x := itemBody(c.KV, c.Item, c.Data)
		x.State = &v1willow.ItemState{ID: ccID}
		return x
	}
	query := func(c ccCase) any { return c.Qry.AQ(nil) }
	match := func(c ccCase) any { return c.Match.MQ() }
	kv := func(c ccCase) any { return c.KV.DT() }
	return []ccCall{
		{"CreateQueue", "POST", at("/v1/queues", false), 201, func(c ccCase) any { return queueBody(c.Name, c.N) }, nothing, false, func(ctx context.Context, c ccCase) (any, error) {
			return nil, w().CreateQueue(ctx, queueBody(c.Name, c.N))
		}},
		{"ListQueues", "GET", at("/v1/queues", false), 200, nothing, queueOut, true, func(ctx context.Context, c ccCase) (any, error) { return nilIf(w().ListQueues(ctx)) }},
		{"GetQueue", "GET", at("/v1/queues/%s", false), 200, query, queueOut, false, func(ctx context.Context, c ccCase) (any, error) {
			return nilIf(w().GetQueue(ctx, c.Name, c.Qry.AQ(nil)))
		}},
		{"UpdateQueue", "PUT", at("/v1/queues/%s", false), 200, func(c ccCase) any { return v1willow.QueueProperties{MaxItems: &c.N} }, nothing, false, func(ctx context.Context, c ccCase) (any, error) {
			return nil, w().UpdateQueue(ctx, c.Name, &v1willow.QueueProperties{MaxItems: &c.N})
		}},
		{"DeleteQueue", "DELETE", at("/v1/queues/%s", false), 204, nothing, nothing, false, func(ctx context.Context, c ccCase) (any, error) { return nil, w().DeleteQueue(ctx, c.Name) }},
		{"EnqueueQueueItem", "POST", at("/v1/queues/%s/channels/items", false), 201, item, nothing, false, func(ctx context.Context, c ccCase) (any, error) {
			return nil, w().EnqueueQueueItem(ctx, c.Name, itemBody(c.KV, c.Item, c.Data))
		}},
		{"DequeueQueueItem", "GET", at("/v1/queues/%s/channels/items", false), 200, query, itemOut, false, func(ctx context.Context, c ccCase) (any, error) {
			it, err := w().DequeueQueueItem(ctx, c.Name, c.Qry.AQ(nil))
			if it == nil {
				return nil, err
			}
			defer func() { _ = it.ACK(ctx, true) }() // ends its heartbeats
			return it.Data(), err
		}},
		{"DeleteQueueChannel", "DELETE", at("/v1/queues/%s/channels", false), 204, kv, nothing, false, func(ctx context.Context, c ccCase) (any, error) {
			return nil, w().DeleteQueueChannel(ctx, c.Name, c.KV.DT())
		}},
		{"Healthy (willow)", "GET", at("/health", false), 200, nothing, nothing, false, func(ctx context.Context, c ccCase) (any, error) { return nil, w().Healthy() }},
		{"CreateRule", "POST", at("/v1/limiter/rules", false), 201, rule, ruleOut, false, func(ctx context.Context, c ccCase) (any, error) {
			return nilIf(l().CreateRule(ctx, ruleBody(c.KV, c.N)))
		}},
		{"GetRule", "GET", at("/v1/limiter/rules/%s", false), 200, nothing, ruleOut, false, func(ctx context.Context, c ccCase) (any, error) { return nilIf(l().GetRule(ctx, c.Name)) }},
		{"QueryRules", "GET", at("/v1/limiter/rules/query", false), 200, query, ruleOut, true, func(ctx context.Context, c ccCase) (any, error) { return nilIf(l().QueryRules(ctx, c.Qry.AQ(nil))) }},
		{"MatchRules", "GET", at("/v1/limiter/rules/match", false), 200, match, ruleOut, true, func(ctx context.Context, c ccCase) (any, error) { return nilIf(l().MatchRules(ctx, c.Match.MQ())) }},
		{"UpdateRule", "PUT", at("/v1/limiter/rules/%s", false), 200, func(c ccCase) any { return v1limiter.RuleProperties{Limit: &c.N} }, nothing, false, func(ctx context.Context, c ccCase) (any, error) {
			return nil, l().UpdateRule(ctx, c.Name, &v1limiter.RuleProperties{Limit: &c.N})
		}},
		{"DeleteRule", "DELETE", at("/v1/limiter/rules/%s", false), 204, nothing, nothing, false, func(ctx context.Context, c ccCase) (any, error) { return nil, l().DeleteRule(ctx, c.Name) }},
		{"CreateOverride", "POST", at("/v1/limiter/rules/%s/overrides", false), 201, ov, ovOut, false, func(ctx context.Context, c ccCase) (any, error) {
			return nilIf(l().CreateOverride(ctx, c.Name, ovBody(c.KV, c.N)))
		}},
		{"GetOverride", "GET", at("/v1/limiter/rules/%s/overrides/%s", true), 200, nothing, ovOut, false, func(ctx context.Context, c ccCase) (any, error) {
			return nilIf(l().GetOverride(ctx, c.Name, c.Name2))
		}},
		{"QueryOverrides", "GET", at("/v1/limiter/rules/%s/overrides/query", false), 200, query, ovOut, true, func(ctx context.Context, c ccCase) (any, error) {
			return nilIf(l().QueryOverrides(ctx, c.Name, c.Qry.AQ(nil)))
		}},
		{"MatchOverrides", "GET", at("/v1/limiter/rules/%s/overrides/match", false), 200, match, ovOut, true, func(ctx context.Context, c ccCase) (any, error) {
			return nilIf(l().MatchOverrides(ctx, c.Name, c.Match.MQ()))
		}},
		{"UpdateOverride", "PUT", at("/v1/limiter/rules/%s/overrides/%s", true), 200, func(c ccCase) any { return v1limiter.OverrideProperties{Limit: &c.N} }, nothing, false, func(ctx context.Context, c ccCase) (any, error) {
			return nil, l().UpdateOverride(ctx, c.Name, c.Name2, &v1limiter.OverrideProperties{Limit: &c.N})
		}},
		{"DeleteOverride", "DELETE", at("/v1/limiter/rules/%s/overrides/%s", true), 204, nothing, nothing, false, func(ctx context.Context, c ccCase) (any, error) {
			return nil, l().DeleteOverride(ctx, c.Name, c.Name2)
		}},
		{"UpdateCounter", "PUT", at("/v1/limiter/counters", false), 200, cnt, nothing, false, func(ctx context.Context, c ccCase) (any, error) {
			return nil, l().UpdateCounter(ctx, cntBody(c.KV, c.N))
		}},
		{"QueryCounters", "GET", at("/v1/limiter/counters/query", false), 200, query, cntOut, true, func(ctx context.Context, c ccCase) (any, error) {
			return nilIf(l().QueryCounters(ctx, c.Qry.AQ(nil)))
		}},
		{"SetCounters", "PUT", at("/v1/limiter/counters/set", false), 200, cnt, nothing, false, func(ctx context.Context, c ccCase) (any, error) {
			return nil, l().SetCounters(ctx, cntBody(c.KV, c.N))
		}},
		{"Healthy (limiter)", "GET", at("/health", false), 200, nothing, nothing, false, func(ctx context.Context, c ccCase) (any, error) { return nil, l().Healthy() }},
		{"ACK", "POST", at("/v1/queues/%s/channels/items/ack", false), 200, func(c ccCase) any {
			return v1willow.ACK{ItemID: ccID, KeyValues: c.KV.DT(), Passed: c.N%2 == 0}
		}, nothing, false, nil},
		{"Healthy (locker)", "GET", at("/health", false), 200, nothing, nothing, false, func(ctx context.Context, c ccCase) (any, error) {
			x, err := lockerclient.NewLockClient(&clients.Config{URL: "http://scripted"})
			if err != nil {
				panic(err)
			}
			return nil, x.Healthy()
		}},
	}
}

var ccNames []string

func init() {
	for _, x := range ccCalls() {
		ccNames = append(ccNames, x.name)
	}
}

func ccGen(r *vx.R) ccCase {
	types := gen.Types(r, 2, 0)
	qo := gen.QOpts{Keys: []string{"a", "b"}, Types: types, N: 2, Depth: 1, NoIDs: true}
	c := ccCase{Call: r.IntN(len(ccNames)), Name: vx.Pick(r, "jobs", ccID, "my jobs", "50%", "a?b#c", "x&y=z+1", "Jöbs-日本", "%2e", ";v=1"), Name2: ccID,
		KV: gen.GenKV(r, []string{"a", "b"}, 2, types, 2), Qry: gen.GenQ(r, qo), N: vx.Pick[int64](r, -1, 0, 1, 7, 1<<40),
		Item: wiItem{Upd: r.Bool(), Retries: uint64(r.IntN(4)), Pos: vx.Pick(r, "front", "back"), Timeout: vx.Pick(r, 1, 3, time.Second, time.Hour)},
		Msg:  vx.Pick(r, "it is full", "no such thing: \"x\"", "日本\n"), Answers: r.Range(0, 3)}
	c.Match = gen.GenMatch(r, c.KV, qo, 2)
	if len(c.KV) == 0 {
		c.KV = gen.KV{"a": gen.S("x")}
	}
	for n := vx.Pick(r, 1, 3, 300); n > 0; n-- {
		c.Data = append(c.Data, byte(r.IntN(256)))
	}
	if r.Bool() {
		c.Trace = vx.Pick(r, "trace-1", "00-4bf9")
	}
	call := ccCalls()[c.Call]
	switch {
	case strings.Contains(call.name, "Rule") || strings.Contains(call.name, "Override"):
		c.Name = vx.Pick(r, ccID, "7b1cbd5c-6b29-4b1f-8c8f-0a54d6d2a3c2") // ids are made by the service
	}
	c.Status = vx.Pick(r, call.ok, call.ok, call.ok, 400, 404, 409, 500, 502, 503, 204, 200, 201, 202, 401, 418, 307)
	if c.Status == 307 {
		c.Status = 429
	}
	switch {
	case c.Status == call.ok:
		c.Body = vx.Pick(r, "ok", "ok", "ok", "empty", "garbage", "other", "null")
	default:
		c.Body = vx.Pick(r, "error", "error", "error", "empty", "garbage", "null")
	}
	return c
}

func ccRun(c ccCase, rec *vx.Rec) error {
	err, left := Bubble(func() error { return ccWorld(c, rec) })
	if err == nil && left {
		err = fmt.Errorf("goroutines of the client stay blocked for good after the call %s", ccNames[c.Call])
	}
	if err != nil {
		err = fmt.Errorf("%s answered with %d and a body of kind %s: %w", ccNames[c.Call], c.Status, c.Body, err)
	}
	return err
}

func ccWorld(c ccCase, rec *vx.Rec) error {
	call := ccCalls()[c.Call]
	type sent struct {
		method, path, raw, query string
		header                   http.Header
		body                     []byte
	}
	var mu sync.Mutex
	var reqs []sent
	var answer []byte
	var object any
	if call.returns(c) != nil {
		object = call.returns(c)
		if call.list {
			l := []any{}
			for i := 0; i < c.Answers; i++ {
				l = append(l, object)
			}
			object = l
		}
	}
	switch c.Body {
	case "ok":
		if object != nil {
			answer, _ = json.Marshal(object)
		}
	case "error":
		answer, _ = json.Marshal(&apierrors.Error{Message: c.Msg})
	case "garbage":
		answer = []byte("<html>bad</html>")
	case "other":
		answer = []byte(`[{"Spec":{}}]`)
		if !call.list {
			answer = []byte(`{"Spec":{}}`)
		}
	case "null":
		answer = []byte("null")
	}
	net := NewNet()
	heldACK := call.name == "ACK"
	svc := &Svc{name: "scripted", net: net, mux: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		if strings.HasSuffix(r.URL.Path, "/heartbeat") {
			rw.WriteHeader(200)
			return
		}
		if heldACK && r.Method == "GET" {
			it := itemBody(c.KV, c.Item, c.Data)
			it.Spec.Properties.TimeoutDuration = ptr(time.Hour)
			it.State = &v1willow.ItemState{ID: ccID}
			out, _ := json.Marshal(it)
			rw.WriteHeader(200)
			_, _ = rw.Write(out)
			return
		}
		if call.name == "DequeueQueueItem" && r.Method == "POST" {
			rw.WriteHeader(200)
			return
		}
		mu.Lock()
		reqs = append(reqs, sent{r.Method, r.URL.Path, r.URL.RawPath, r.URL.RawQuery, r.Header.Clone(), b})
		mu.Unlock()
		rw.WriteHeader(c.Status)
		_, _ = rw.Write(answer)
	})}
	net.svcs["scripted"] = svc
	ctx := context.Background()
	if c.Trace != "" {
		ctx = context.WithValue(ctx, clients.TraceID, c.Trace)
	}
	do := call.call
	if heldACK {
		cl, err := willowclient.NewWillowClient(&clients.Config{URL: "http://scripted"})
		if err != nil {
			return err
		}
		it, err := cl.DequeueQueueItem(ctx, c.Name, c.Qry.AQ(nil))
		if err != nil {
			return fmt.Errorf("DequeueQueueItem: %w", err)
		}
		do = func(ctx context.Context, c ccCase) (any, error) { return nil, it.ACK(ctx, c.N%2 == 0) }
	}
	var got any
	var err error
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		got, err = do(ctx, c)
	}()
	select {
	case p := <-done:
		if p != nil {
			return fmt.Errorf("the client panics: %v", p)
		}
	case <-time.After(time.Hour):
		return fmt.Errorf("the call does not return")
	}
	if len(reqs) != 1 {
		return fmt.Errorf("%d requests were sent", len(reqs))
	}
	q := reqs[0]
	if q.method != call.method || q.path != call.path(c) || q.query != "" {
		return fmt.Errorf("the request was %s %q?%q instead of %s %q", q.method, q.path, q.query, call.method, call.path(c))
	}
	if x := call.sends(c); x != nil {
		want, _ := json.Marshal(x)
		if !sameJSON(q.body, want) {
			return fmt.Errorf("the request body is %s instead of %s", cut(string(q.body), 300), cut(string(want), 300))
		}
	}
	if !strings.HasPrefix(call.name, "Healthy") {
		if q.header.Get("Content-Type") != "application/json" {
			return fmt.Errorf("the request has the content type %q", q.header.Get("Content-Type"))
		}
		if q.header.Get("X-Request-ID") != c.Trace {
			return fmt.Errorf("the request has the trace id %q instead of %q", q.header.Get("X-Request-ID"), c.Trace)
		}
	}
	rec.Label(call.name)
	if c.Status != call.ok {
		rec.Label("refused")
		if err == nil {
			return fmt.Errorf("the call reports success: %v", got)
		}
		if got != nil {
			return fmt.Errorf("the call returns %v together with the error %v", got, err)
		}
		documented := c.Status == 400 || c.Status == 409 || c.Status == 500 || c.Status == 404
		if c.Body == "error" && documented {
			var e *apierrors.Error
			if errors.As(err, &e) {
				if e.Message != c.Msg {
					return fmt.Errorf("the error is %q instead of %q", e.Message, c.Msg)
				}
				rec.Label("error-passed-on")
				rec.Nontrivial()
			} else if c.Status == 409 && (strings.HasPrefix(call.name, "Update") || strings.HasPrefix(call.name, "Create") || strings.HasPrefix(call.name, "Enqueue")) || c.Status == 404 && (strings.HasPrefix(call.name, "Get") || call.name == "ACK") {
				return fmt.Errorf("the error of the service is not passed on: %v", err)
			}
		}
		return nil
	}
	if object == nil {
		if err != nil {
			return fmt.Errorf("the call fails: %v", err)
		}
		rec.Nontrivial()
		return nil
	}
	switch c.Body {
	case "ok":
		if err != nil {
			return fmt.Errorf("the call fails: %v", err)
		}
		if call.name == "DequeueQueueItem" {
			if string(got.([]byte)) != string(c.Data) {
				return fmt.Errorf("the item has the data %q instead of %q", got, c.Data)
			}
		} else {
			b, _ := json.Marshal(got)
			if got == nil {
				b = []byte("[]")
			}
			if !sameJSON(b, answer) {
				return fmt.Errorf("the call returns %s instead of %s", cut(string(b), 400), cut(string(answer), 400))
			}
		}
		rec.Label("data-passed-on")
		rec.Nontrivial()
	case "null":
		if !call.list && err == nil {
			return fmt.Errorf("the answer null is returned as %v", got)
		}
	default:
		if err == nil {
			return fmt.Errorf("the answer %s is returned as %v", answer, got)
		}
		if got != nil {
			return fmt.Errorf("the call returns %v together with the error %v", got, err)
		}
	}
	return nil
}

func ptr[T any](x T) *T { return &x }

func sameJSON(a, b []byte) bool {
	var x, y any
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

// ---- the shortest timeouts

type tinyCase struct {
	Lock bool
	T    int // nanoseconds
}

func tinyRun(c tinyCase, rec *vx.Rec) error {
	err, left := Bubble(func() error {
		net := NewNet()
		net.svcs["scripted"] = &Svc{name: "scripted", net: net, mux: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			to := time.Duration(c.T)
			var out []byte
			switch {
			case r.Method == "GET":
				it := itemBody(gen.KV{"a": gen.S("x")}, wiItem{Pos: "front", Timeout: to}, []byte("x"))
				it.State = &v1willow.ItemState{ID: ccID}
				out, _ = json.Marshal(it)
				rw.WriteHeader(200)
			case r.URL.Path == "/v1/locks":
				out, _ = json.Marshal(&v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: gen.KV{"a": gen.S("x")}.DT()}, Properties: &v1locker.LockProperties{Timeout: &to}},
					State: &v1locker.LockState{LockID: ccID, SessionID: ccID, LocksHeldOrWaiting: 1, TimeTillExipre: to}})
				rw.WriteHeader(200)
			default:
				out, _ = json.Marshal(&apierrors.Error{Message: "gone"})
				rw.WriteHeader(404)
			}
			_, _ = rw.Write(out)
		})}
		cfg := &clients.Config{URL: "http://scripted"}
		var done <-chan struct{}
		if c.Lock {
			cl, err := lockerclient.NewLockClient(cfg)
			if err != nil {
				return err
			}
			l, err := cl.ObtainLock(context.Background(), &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: gen.KV{"a": gen.S("x")}.DT()}, Properties: &v1locker.LockProperties{Timeout: ptr(time.Duration(c.T))}}}, func(datatypes.KeyValues, error) {})
			if err != nil {
				return err
			}
			done = l.Done()
		} else {
			cl, err := willowclient.NewWillowClient(cfg)
			if err != nil {
				return err
			}
			it, err := cl.DequeueQueueItem(context.Background(), "q", gen.Q{}.AQ(nil))
			if err != nil {
				return err
			}
			done = it.Done()
		}
		select {
		case <-done:
		case <-time.After(time.Hour):
			return fmt.Errorf("Done of a timeout of %d ns is never closed", c.T)
		}
		rec.Nontrivial()
		return nil
	})
	if err == nil && left {
		err = fmt.Errorf("goroutines of the client are left")
	}
	return err
}

func tinyProp(lock bool) vx.Runner {
	return vx.Prop[tinyCase]{Name: "tiny", Rule: "every case", Weight: 1, Tries: 1,
		Gen: func(r *vx.R) tinyCase { return tinyCase{lock, vx.Pick(r, 1, 2, 3, 4, 5, 10, 11, 1000)} }, Run: tinyRun}
}

func TestC25(t *testing.T) {
	curT = t
	vx.Check(t,
		vx.Prop[icCase]{Name: "item", Rule: "an item was held for longer than its timeout, or lost because its heartbeats failed", Gen: icGen, Run: icRun, Shrink: icShrink, Tries: 4, Weight: 10},
		vx.Prop[ccCase]{Name: "calls", Rule: "data, success or an error of the service was passed on", Gen: ccGen, Run: ccRun, Weight: 5},
		tinyProp(false))
}
