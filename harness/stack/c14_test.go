package stack

import (
	"context"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"
	"github.com/DanLavine/willow/pkg/clients"
	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// Times are in units of 50 ms.

type lcAct struct {
	Before, Hold int
	KV           int
	TO           int // lock timeout
	GiveUp       int // 0: waits for ever
	Bad          int // the request is invalid; 0: it is not
}
type lcActor struct {
	Client int
	Acts   []lcAct
	Reuse  int // the request is used for the next one while the lock is held: 1 with other key-values, 2 with its map changed
}
type lcFault struct {
	Client    int
	Kind      string // refuse, error, drop, hang, delay
	From, Len int
	By        int  // delay
	Obtain    bool // on the obtain route instead of the heartbeats
}
type lcRestart struct{ At, Gap int }
type lcCase struct {
	KVs      []gen.KV
	Actors   []lcActor
	Faults   []lcFault
	Restarts []lcRestart
}

// lcBad are the ways in which a request can be invalid.
var lcBad = []func(*v1locker.Lock){
	func(l *v1locker.Lock) { l.Spec = nil },
	func(l *v1locker.Lock) { l.Spec.DBDefinition = nil },
	func(l *v1locker.Lock) { l.Spec.DBDefinition.KeyValues = nil },
	func(l *v1locker.Lock) { l.Spec.DBDefinition.KeyValues = datatypes.KeyValues{} },
	func(l *v1locker.Lock) { l.Spec.DBDefinition.KeyValues["z"] = datatypes.Any() },
	func(l *v1locker.Lock) {
		l.Spec.DBDefinition.KeyValues["z"] = datatypes.EncapsulatedValue{Type: datatypes.T_int, Data: "x"}
	},
	func(l *v1locker.Lock) { *l.Spec.Properties.Timeout = 0 },
	func(l *v1locker.Lock) { *l.Spec.Properties.Timeout = -time.Second },
	func(l *v1locker.Lock) {
		l.State = &v1locker.LockState{LockID: "x", SessionID: "y", LocksHeldOrWaiting: 1}
	},
}

const lcUnit = 50 * time.Millisecond

func lcGen(r *vx.R) lcCase {
	all, _ := lkKVs(r)
	var kvs []gen.KV
	seen := map[string]bool{}
	for _, kv := range all {
		if !seen[kv.Canon()] {
			seen[kv.Canon()] = true
			kvs = append(kvs, kv)
		}
	}
	c := lcCase{KVs: kvs}
	to := vx.Pick(r, 20, 40, 100)
	// actors of the same client use different key-values: the lock of one client is shared inside it
	used := map[[2]int]bool{}
	for n := r.Range(1, 5); n > 0; n-- {
		cl := r.IntN(3)
		var mine []int
		for k := range kvs {
			if !used[[2]int{cl, k}] && r.Chance(0.6) {
				mine = append(mine, k)
				used[[2]int{cl, k}] = true
			}
		}
		if len(mine) == 0 {
			continue
		}
		a := lcActor{Client: cl, Reuse: r.Weighted(3, 1, 1)}
		for m := r.Range(1, 5); m > 0; m-- {
			act := lcAct{Before: vx.Pick(r, 0, 0, 1, 7, 20), Hold: vx.Pick(r, 0, 1, to/2, to, 2*to, 5*to, 9*to+1), KV: vx.PickS(r, mine), TO: to}
			if r.Chance(0.15) {
				act.TO = vx.Pick(r, 20, 40, 100)
			}
			if r.Chance(0.15) {
				act.GiveUp = vx.Pick(r, 1, to, 3*to)
			}
			if r.Chance(0.04) {
				act.Bad = r.Range(1, len(lcBad))
			}
			a.Acts = append(a.Acts, act)
		}
		c.Actors = append(c.Actors, a)
	}
	if len(c.Actors) == 0 {
		c.Actors = []lcActor{{Acts: []lcAct{{KV: 0, Hold: 4 * to, TO: to}}}}
	}
	mode := r.Weighted(3, 3, 4, 2)
	span := r.Range(1, 12)
	switch mode {
	case 1: // short interruptions, far enough apart that the lock must survive them
		for cl := 0; cl < 3; cl++ {
			at := r.Range(0, 2*to)
			for n := r.Range(0, 4); n > 0; n-- {
				c.Faults = append(c.Faults, lcFault{Client: cl, Kind: vx.Pick(r, "refuse", "error", "drop", "delay"), From: at, Len: r.Range(1, 6*20/20), By: r.Range(1, 4)})
				at += 6 + r.Range(100, 200)
			}
		}
	case 2:
		for n := r.Range(1, 5); n > 0; n-- {
			f := lcFault{Client: r.IntN(3), Kind: vx.Pick(r, "refuse", "error", "drop", "hang", "delay", "reject"), From: r.Range(0, span*to), Len: vx.Pick(r, 1, to/2, to, to+1, 2*to, 5*to), By: r.Range(1, 2*to)}
			f.Obtain = (f.Kind == "refuse" || f.Kind == "error") && r.Chance(0.15)
			c.Faults = append(c.Faults, f)
		}
	case 3:
		for n := r.Range(1, 2); n > 0; n-- {
			c.Restarts = append(c.Restarts, lcRestart{At: r.Range(1, span*to), Gap: vx.Pick(r, 0, 1, to/2, 2*to)})
		}
	}
	return c
}

type lcHoldRec struct {
	actor, client, kv int
	to                time.Duration
	asked, got        time.Duration // since the start
	released          time.Duration // when Release was called
	ended             time.Duration // when Done closed; -1: never
	relTook           time.Duration
	relErr            error
	callbacks         []string
	refused           time.Duration // a heartbeat of this client was refused by the service; -1: none
}

func (h *lcHoldRec) String() string {
	return fmt.Sprintf("client %d, key-values %d, timeout %v: asked %v, obtained %v, Release called %v (took %v, error %v), Done closed %v, callbacks %q",
		h.client, h.kv, h.to, h.asked, h.got, h.released, h.relTook, h.relErr, h.ended, h.callbacks)
}

func lcRun(c lcCase, rec *vx.Rec) error {
	err, left := Bubble(func() error { return lcWorld(c, rec) })
	if err == nil && left {
		err = fmt.Errorf("goroutines stay blocked for good after every lock was released and the locker shut down")
	}
	return err
}

func lcWorld(c lcCase, rec *vx.Rec) error {
	net := NewNet()
	svc := net.StartLocker(lkDefault)
	start := time.Now()
	now := func() time.Duration { return time.Since(start) }
	active := func(f lcFault) bool {
		n := now()
		return n >= time.Duration(f.From)*lcUnit && n < time.Duration(f.From+f.Len)*lcUnit
	}
	which := func(host string) int {
		n := 0
		fmt.Sscanf(host, "locker-%d", &n)
		return n
	}
	isBeat := func(r *http.Request) bool { return strings.HasSuffix(r.URL.Path, "/heartbeat") }
	isObtain := func(r *http.Request) bool { return r.Method == "POST" && r.URL.Path == "/v1/locks" }
	type rejection struct {
		client int
		at     time.Duration
	}
	var rejections []rejection // under the lock of the network
	net.SetFault(func(host string, r *http.Request) Fault {
		for _, f := range c.Faults {
			if f.Client == which(host) && active(f) && (f.Obtain && isObtain(r) || !f.Obtain && isBeat(r)) {
				switch f.Kind {
				case "refuse":
					return Refuse
				case "reject":
					rejections = append(rejections, rejection{f.Client, now()})
					return []Fault{Reject404, Reject409}[f.By%2]
				case "error":
					return ServerError
				case "drop":
					return DropAnswer
				case "hang":
					return Hang
				}
			}
		}
		return NoFault
	})
	net.SetDelay(func(host string, r *http.Request) time.Duration {
		var d time.Duration
		for _, f := range c.Faults {
			if f.Client == which(host) && f.Kind == "delay" && active(f) && isBeat(r) {
				d = max(d, time.Duration(f.By)*lcUnit)
			}
		}
		return d
	})
	var mu sync.Mutex
	refusedAt := map[string]time.Duration{} // by lock id and client
	lockIDs := map[string]string{}
	_ = lockIDs
	net.SetWatch(func(host string, r *http.Request, status int) {
		if isBeat(r) && status >= 400 && status < 500 {
			mu.Lock()
			refusedAt[fmt.Sprintf("%d", which(host))+r.URL.Path] = now()
			mu.Unlock()
		}
	})

	var bad error
	fail := func(format string, a ...any) {
		mu.Lock()
		if bad == nil {
			bad = fmt.Errorf(format, a...)
		}
		mu.Unlock()
	}
	// restarts
	var restarts []time.Duration // [stop, start] pairs
	var gaps [][2]time.Duration
	restartsDone := make(chan struct{})
	rs := append([]lcRestart{}, c.Restarts...)
	sort.Slice(rs, func(i, j int) bool { return rs[i].At < rs[j].At })
	go func() {
		defer close(restartsDone)
		for _, x := range rs {
			if d := time.Duration(x.At)*lcUnit - now(); d > 0 {
				time.Sleep(d)
			}
			from := now()
			if err := svc.Stop(); err != nil {
				fail("%v", err)
			}
			net.Remove("locker")
			time.Sleep(time.Duration(x.Gap) * lcUnit)
			svc = net.StartLocker(lkDefault)
			mu.Lock()
			restarts = append(restarts, from)
			gaps = append(gaps, [2]time.Duration{from, now()})
			mu.Unlock()
		}
	}()

	var cls []*lockerclient.LockClient
	for i := 0; i < 3; i++ {
		cl, err := lockerclient.NewLockClient(&clients.Config{URL: fmt.Sprintf("http://locker-%d", i)})
		if err != nil {
			return err
		}
		cls = append(cls, cl)
	}
	var holds []*lcHoldRec
	type miss struct {
		actor, client, kv int
		asked, at         time.Duration
		err               error
		act               lcAct
	}
	var misses []miss
	var wg sync.WaitGroup
	for ai, a := range c.Actors {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n, act := range a.Acts {
				time.Sleep(time.Duration(act.Before) * lcUnit)
				to := time.Duration(act.TO) * lcUnit
				h := &lcHoldRec{actor: ai, client: a.Client, kv: act.KV, to: to, asked: now(), ended: -1, refused: -1}
				ctx, cancel := context.WithCancel(context.Background())
				if act.GiveUp > 0 {
					ctx, cancel = context.WithTimeout(context.Background(), time.Duration(act.GiveUp)*lcUnit)
				}
				reqTO := to
				req := &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: c.KVs[act.KV].DT()}, Properties: &v1locker.LockProperties{Timeout: &reqTO}}}
				if act.Bad > 0 {
					lcBad[act.Bad-1](req)
					l, err := cls[a.Client].ObtainLock(ctx, req, nil)
					cancel()
					if err == nil || l != nil || now() != h.asked {
						fail("ObtainLock with an invalid request returned %v, error %v after %v", l, err, now()-h.asked)
					}
					continue
				}
				l, err := cls[a.Client].ObtainLock(ctx, req,
					func(kv datatypes.KeyValues, err error) {
						if got := gen.FromKV(kv).Canon(); got != c.KVs[act.KV].Canon() {
							fail("the callback of the lock of %s is called with %s", c.KVs[act.KV].Canon(), got)
						}
						mu.Lock()
						h.callbacks = append(h.callbacks, err.Error())
						mu.Unlock()
					})
				// the request is the caller's again, who prepares the next one with it
				next := c.KVs[a.Acts[(n+1)%len(a.Acts)].KV].DT()
				switch a.Reuse {
				case 1:
					req.Spec.DBDefinition.KeyValues = next
				case 2:
					clear(req.Spec.DBDefinition.KeyValues)
					for k, v := range next {
						req.Spec.DBDefinition.KeyValues[k] = v
					}
					*req.Spec.Properties.Timeout = time.Hour
				}
				h.got = now()
				canceled := ctx.Err() != nil
				cancel()
				switch {
				case err != nil && l != nil:
					fail("ObtainLock returned a lock and an error: %v", err)
				case err == nil && l == nil && !canceled:
					fail("ObtainLock returned neither lock nor error although its context was not cancelled")
				}
				if l == nil {
					mu.Lock()
					misses = append(misses, miss{ai, a.Client, act.KV, h.asked, h.got, err, act})
					mu.Unlock()
					if act.GiveUp > 0 && h.got > h.asked+time.Duration(act.GiveUp)*lcUnit+time.Second {
						fail("ObtainLock cancelled at %v returned only at %v", h.asked+time.Duration(act.GiveUp)*lcUnit, h.got)
					}
					continue
				}
				mu.Lock()
				holds = append(holds, h)
				mu.Unlock()
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-l.Done()
					mu.Lock()
					h.ended = now()
					mu.Unlock()
				}()
				select {
				case <-l.Done():
				case <-time.After(time.Duration(act.Hold) * lcUnit):
				}
				at := now()
				relDone := make(chan error, 1)
				mu.Lock()
				h.released = at
				mu.Unlock()
				go func() { relDone <- l.Release(context.Background()) }()
				select {
				case h.relErr = <-relDone:
					h.relTook = now() - at
					if h.relTook > 0 {
						fail("Release took %v although the service answered it at once: %v", h.relTook, h)
					}
				case <-time.After(time.Hour):
					fail("Release did not return for an hour although the service answered it at once: %v", h)
					<-relDone
				}
				select {
				case <-l.Done():
				default:
					fail("Done is not closed after Release: %v", h)
				}
			}
		}()
	}
	finished := make(chan struct{})
	go func() { wg.Wait(); close(finished) }()
	select {
	case <-finished:
	case <-time.After(10 * time.Hour):
		mu.Lock()
		defer mu.Unlock()
		if bad != nil {
			return bad
		}
		for _, h := range holds {
			if h.ended < 0 {
				return fmt.Errorf("a client is never served, or never told about the end of its lock, for instance: %v", h)
			}
		}
		return fmt.Errorf("a client is never served although every lock is released")
	}
	<-restartsDone
	time.Sleep(time.Minute)
	mu.Lock()
	defer mu.Unlock()
	if bad != nil {
		return bad
	}
	if err := net.Err(); err != nil {
		return err
	}

	restarted := func(a, b time.Duration) bool {
		for _, g := range gaps {
			if g[1] >= a && g[0] <= b {
				return true
			}
		}
		return false
	}
	faulty := func(client int, a, b time.Duration, obtain bool) (n int) {
		for _, f := range c.Faults {
			if f.Client == client && f.Obtain == obtain && time.Duration(f.From)*lcUnit <= b && time.Duration(f.From+f.Len)*lcUnit >= a {
				n++
			}
		}
		return n
	}
	// survivable: every interruption hits at most one heartbeat, and the next interruption is far
	survivable := func(client int, to time.Duration) bool {
		last := -1 << 30
		fs := append([]lcFault{}, c.Faults...)
		sort.Slice(fs, func(i, j int) bool { return fs[i].From < fs[j].From })
		for _, f := range fs {
			if f.Client != client || f.Obtain {
				continue
			}
			if f.Kind == "hang" || f.Kind == "reject" || time.Duration(f.Len)*lcUnit > to*3/10 || time.Duration(f.From-last)*lcUnit < to {
				return false
			}
			if f.Kind == "delay" && time.Duration(f.By)*lcUnit > to*2/10 {
				return false
			}
			last = f.From + f.Len
		}
		return true
	}
	kvUsers := map[string]map[int]bool{}
	for ai, a := range c.Actors {
		for _, act := range a.Acts {
			k := c.KVs[act.KV].Canon()
			if kvUsers[k] == nil {
				kvUsers[k] = map[int]bool{}
			}
			kvUsers[k][ai] = true
		}
	}
	sort.SliceStable(holds, func(i, j int) bool { return holds[i].got < holds[j].got })
	for _, x := range rejections {
		told := false
		for _, h := range holds {
			told = told || h.client == x.client && (h.ended == x.at || h.released == x.at)
		}
		if !told {
			return fmt.Errorf("the service refused a heartbeat of client %d at %v: the lock is lost, and no lock of this client ended then", x.client, x.at)
		}
		rec.Label("heartbeat refused")
		rec.Nontrivial()
	}
	for i, h := range holds {
		if h.ended < 0 {
			return fmt.Errorf("Done never closed: %v", h)
		}
		if h.ended > h.released {
			return fmt.Errorf("Done closed after Release returned: %v", h)
		}
		for _, e := range h.callbacks {
			if strings.Contains(e, "context canceled") {
				return fmt.Errorf("the heartbeat that the release cut short is reported as an error: %v", h)
			}
		}
		f := faulty(h.client, h.got-h.to, h.released, false)
		rs := restarted(h.got, h.released)
		if !rs && (f == 0 || survivable(h.client, h.to)) {
			if h.released-h.got > h.to {
				rec.Label("kept-beyond-timeout")
				rec.Nontrivial()
				if f > 0 {
					rec.Label("kept-through-faults")
				}
			}
			if h.ended != h.released || h.relErr != nil {
				return fmt.Errorf("a lock was lost although the service was reachable (faults on its heartbeats: %d): %v", f, h)
			}
			if f == 0 && len(h.callbacks) > 0 {
				return fmt.Errorf("an error was reported although every heartbeat was answered: %v", h)
			}
		}
		if h.ended < h.released || h.relErr != nil {
			rec.Label("lost")
			if h.ended < h.released && h.relErr == nil {
				return fmt.Errorf("Release of a lost lock reports success: %v", h)
			}
		}
		for _, x := range c.Faults {
			from, to := time.Duration(x.From)*lcUnit, time.Duration(x.From+x.Len)*lcUnit
			if x.Client != h.client || x.Obtain || x.Kind == "delay" {
				continue
			}
			limit := max(from, h.got) + h.to
			if to >= limit && h.ended > limit {
				return fmt.Errorf("no heartbeat succeeded from %v on (%s), yet the loss was not reported by %v: %v", max(from, h.got), x.Kind, limit, h)
			}
			if to >= limit && h.released >= limit {
				rec.Label("outage-" + x.Kind)
				rec.Nontrivial()
			}
		}
		// one at a time
		for _, p := range holds[:i] {
			if p.kv != h.kv && c.KVs[p.kv].Canon() != c.KVs[h.kv].Canon() || restarted(p.got, h.got) {
				continue
			}
			if p.ended > h.got {
				return fmt.Errorf("the lock was given to another client before the first one was told of its loss: first %v; second %v", p, h)
			}
			if p.client != h.client {
				rec.Label("changed-hands")
			}
		}
		// nobody else wants it: it is there at once
		if len(kvUsers[c.KVs[h.kv].Canon()]) == 1 && h.got > h.asked && !restarted(0, h.got) && faulty(h.client, 0, h.got, false) == 0 && faulty(h.client, 0, h.got, true) == 0 {
			return fmt.Errorf("a lock that nobody else asks for was obtained only after %v: %v", h.got-h.asked, h)
		}
	}
	for key, at := range refusedAt {
		_ = key
		// the client's lock of that id must have ended by then
		cl := int(key[0] - '0')
		n := 0
		for _, h := range holds {
			if h.client == cl && h.got < at && h.ended > at {
				n++
			}
		}
		beats := 0
		for _, a := range c.Actors {
			if a.Client == cl {
				beats++
			}
		}
		if beats == 1 && n > 0 {
			return fmt.Errorf("a heartbeat was refused by the service at %v, and the client went on believing that it holds the lock", at)
		}
		rec.Label("refused-heartbeat")
	}
	for _, m := range misses {
		if m.err != nil && faulty(m.client, m.asked, m.at, true) == 0 && !restarted(m.asked, m.at) {
			return fmt.Errorf("ObtainLock of client %d (asked %v) failed at %v: %v", m.client, m.asked, m.at, m.err)
		}
		if m.err == nil {
			rec.Label("cancelled")
		} else {
			rec.Label("obtain-error")
		}
	}
	st, body := svc.Do(context.Background(), "GET", "/v1/locks", gen.Q{}.AQ(nil))
	if st != 200 || (string(body) != "[]" && string(body) != "null") {
		return fmt.Errorf("after every lock was released or expired the list is %d %s", st, body)
	}
	return svc.Stop()
}

func lcShrink(c lcCase) []lcCase {
	var out []lcCase
	for i := range c.Actors {
		d := c
		d.Actors = append(append([]lcActor{}, c.Actors[:i]...), c.Actors[i+1:]...)
		out = append(out, d)
	}
	for _, f := range vx.Cuts(c.Faults) {
		d := c
		d.Faults = f
		out = append(out, d)
	}
	for _, f := range vx.Cuts(c.Restarts) {
		d := c
		d.Restarts = f
		out = append(out, d)
	}
	for i := range c.Actors {
		if c.Actors[i].Reuse > 0 {
			d := c
			d.Actors = append([]lcActor{}, c.Actors...)
			d.Actors[i].Reuse = 0
			out = append(out, d)
		}
		for _, as := range vx.Cuts(c.Actors[i].Acts) {
			d := c
			d.Actors = append([]lcActor{}, c.Actors...)
			d.Actors[i].Acts = as
			out = append(out, d)
		}
		for j := range c.Actors[i].Acts {
			a := c.Actors[i].Acts[j]
			for _, b := range []lcAct{{a.Before, 0, a.KV, a.TO, a.GiveUp, a.Bad}, {a.Before, a.Hold / 2, a.KV, a.TO, a.GiveUp, a.Bad}, {0, a.Hold, a.KV, a.TO, a.GiveUp, a.Bad}, {a.Before, a.Hold, a.KV, a.TO, 0, a.Bad}} {
				if b != a {
					d := c
					d.Actors = append([]lcActor{}, c.Actors...)
					d.Actors[i].Acts = append([]lcAct{}, c.Actors[i].Acts...)
					d.Actors[i].Acts[j] = b
					out = append(out, d)
				}
			}
		}
	}
	return out
}

func TestC14(t *testing.T) {
	curT = t
	vx.Check(t, vx.Prop[lcCase]{Name: "client", Rule: "a lock was held for longer than its timeout, or its heartbeats failed for the timeout", Gen: lcGen, Run: lcRun, Shrink: lcShrink, Tries: 4, Weight: 10},
		vx.Prop[lshareCase]{Name: "shared", Rule: "several callers of one client shared a lock, or one waited", Gen: lshareGen, Run: lshareRun, Shrink: lshareShrink, Tries: 4, Weight: 4},
		tinyProp(true))
}
