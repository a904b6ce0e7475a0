package stack

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
)

// ---- a locker history in steps: after each call the service is left to settle, so the model knows every answer ----

type lkOp struct {
	Op      string // acquire, beat, release, giveup, sleep, list, batch
	KV      int    // acquire: which key-values
	TO      int    // acquire: timeout (index into lkTimeouts); -1: none given
	Ref     int    // beat, release: which grant (from the newest); giveup: which waiter
	Lock    int    // beat, release: which grant's lock id; -1: unknown id
	Forge   bool   // beat, release: a session id that was never handed out
	D       int    // sleep: index into lkSleeps
	Q       *gen.Q `json:",omitempty"`
	Current bool   // beat, release: aim at a current holder
}
type lkCase struct {
	KVs  []gen.KV
	Ops  []lkOp
	Down bool // shut the service down at the end
}

var lkTimeouts = []time.Duration{time.Millisecond, time.Second, time.Second + 1, 3 * time.Second, 15 * time.Second, time.Hour, 2540400 * time.Hour}
var lkSleeps = []time.Duration{1, time.Millisecond, 500 * time.Millisecond, time.Second, 2 * time.Second, 5 * time.Second, 16 * time.Second, 2 * time.Hour}

const lkDefault = 7 * time.Second

var lkKeys = []string{"a", "b", "c", "_associated"}

func lkKVs(r *vx.R) ([]gen.KV, []int) {
	types := gen.Types(r, 2, 0)
	n := r.Range(1, 4)
	var out []gen.KV
	for len(out) < n {
		kv := gen.GenKV(r, lkKeys[:3], 3, types, 2)
		if len(out) > 0 && r.Chance(0.4) { // a superset or subset of an earlier one
			kv = vx.PickS(r, out).Clone()
			if len(kv) > 1 && r.Bool() {
				delete(kv, kv.Keys()[r.IntN(len(kv))])
			} else {
				kv[vx.PickS(r, lkKeys[:3])] = gen.Small(r, types, 2)
			}
		}
		out = append(out, kv)
	}
	return out, types
}

func lkGen(r *vx.R) lkCase {
	c := lkCase{Down: r.Chance(0.3)}
	kvs, types := lkKVs(r)
	c.KVs = kvs
	to := func() int {
		if r.Chance(0.15) {
			return -1
		}
		return r.IntN(len(lkTimeouts))
	}
	for n := r.Range(1, 40); n > 0; n-- {
		o := lkOp{Op: []string{"acquire", "beat", "release", "giveup", "sleep", "list"}[r.Weighted(8, 6, 6, 2, 5, 2)]}
		switch o.Op {
		case "acquire":
			o.KV, o.TO = r.IntN(len(kvs)), to()
		case "beat", "release":
			o.Ref, o.Lock = r.Range(0, 3), r.Range(0, 3)
			o.Current = r.Chance(0.55)
			if !o.Current {
				if r.Chance(0.5) {
					o.Lock = o.Ref
				} else if r.Chance(0.3) {
					o.Lock = -1
				}
				o.Forge = r.Chance(0.25)
			}
		case "giveup":
			o.Ref = r.Range(0, 3)
		case "sleep":
			o.D = r.IntN(len(lkSleeps))
		case "list":
			if r.Chance(0.7) {
				q := gen.GenQ(r, gen.QOpts{Keys: lkKeys[:3], Types: types, N: 2, IDs: 3, Depth: 1})
				o.Q = &q
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

type lkReq struct {
	kv      int
	timeout time.Duration
	cancel  context.CancelFunc
	mu      sync.Mutex
	done    bool
	status  int
	lock    v1locker.Lock
	raw     []byte
	at      time.Time
	given   bool // gave up
}

func (q *lkReq) state() (bool, int) {
	q.mu.Lock()
	defer q.mu.Unlock()
	return q.done, q.status
}

type lkHold struct {
	req    *lkReq
	expire time.Time // zero: never
}

type lkWorld struct {
	c       lkCase
	svc     *Svc
	net     *Net
	held    map[string]*lkHold // by canonical key-values
	waiting map[string][]*lkReq
	grants  []*lkReq
	seen    map[string]bool
	rec     *vx.Rec
}

func (w *lkWorld) acquire(kv, to int) *lkReq {
	ctx, cancel := context.WithCancel(context.Background())
	q := &lkReq{kv: kv, cancel: cancel, timeout: lkDefault}
	spec := &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: w.c.KVs[kv].DT()}}
	if to >= 0 {
		q.timeout = lkTimeouts[to]
		d := q.timeout
		spec.Properties = &v1locker.LockProperties{Timeout: &d}
	}
	go func() {
		st, body := w.svc.Do(ctx, "POST", "/v1/locks", &v1locker.Lock{Spec: spec})
		q.mu.Lock()
		defer q.mu.Unlock()
		q.done, q.status, q.raw, q.at = true, st, body, time.Now()
		if st == 200 {
			if err := json.Unmarshal(body, &q.lock); err != nil {
				q.status = -1
			}
		}
	}()
	return q
}

func (w *lkWorld) canon(kv int) string { return w.c.KVs[kv].Canon() }

// granted moves a request into the holder's place after checking what the service told it.
func (w *lkWorld) granted(q *lkReq, now time.Time) error {
	l := q.lock
	if l.State == nil || l.State.LockID == "" || l.State.SessionID == "" {
		return fmt.Errorf("an acquire was answered without lock and session id: %s", q.raw)
	}
	if w.seen[l.State.SessionID] {
		return fmt.Errorf("session id %s was handed out before", l.State.SessionID)
	}
	w.seen[l.State.SessionID] = true
	if l.State.TimeTillExipre != q.timeout || l.Spec == nil || l.Spec.Properties == nil || l.Spec.Properties.Timeout == nil || *l.Spec.Properties.Timeout != q.timeout {
		return fmt.Errorf("a lock asked for with timeout %v was answered with %s", q.timeout, q.raw)
	}
	if got := gen.FromKV(l.Spec.DBDefinition.KeyValues).Canon(); got != w.canon(q.kv) {
		return fmt.Errorf("asked for the lock of %s, got %s", w.canon(q.kv), got)
	}
	if !q.at.Equal(now) {
		return fmt.Errorf("a grant arrived at %v instead of %v", q.at, now)
	}
	w.held[w.canon(q.kv)] = &lkHold{req: q, expire: addTime(now, q.timeout)}
	w.grants = append(w.grants, q)
	return nil
}

func addTime(t time.Time, d time.Duration) time.Time { return t.Add(d) }

// settle checks that every pending request is in the state that the model has for it. freed: key-values whose lock
// was given back just now, so that exactly one of its waiters must have it.
func (w *lkWorld) settle(freed map[string]bool) error {
	synctest.Wait()
	now := time.Now()
	if err := w.net.Err(); err != nil {
		return err
	}
	for k, qs := range w.waiting {
		var still []*lkReq
		var got []*lkReq
		for _, q := range qs {
			done, st := q.state()
			switch {
			case !done:
				still = append(still, q)
			case st == 200:
				got = append(got, q)
			default:
				return fmt.Errorf("a waiting acquire of %s was answered with status %d %s", k, st, q.raw)
			}
		}
		if len(got) > 1 {
			return fmt.Errorf("%d clients were given the lock of %s at the same time", len(got), k)
		}
		if len(got) == 1 {
			if w.held[k] != nil {
				return fmt.Errorf("the lock of %s was given to another client while its holder (timeout %v) still holds it", k, w.held[k].req.timeout)
			}
			if err := w.granted(got[0], now); err != nil {
				return err
			}
			if freed[k] {
				w.rec.Label("hand-over")
				w.rec.Nontrivial()
			}
		}
		if len(got) == 0 && w.held[k] == nil && len(still) > 0 {
			return fmt.Errorf("the lock of %s is free while %d clients wait for it", k, len(still))
		}
		w.waiting[k] = still
	}
	return nil
}

// advance lets the time pass, stopping at each expiry, one nanosecond before it included.
func (w *lkWorld) advance(d time.Duration) error {
	target := time.Now().Add(d)
	for {
		now := time.Now()
		next, due := target, false
		for _, h := range w.held {
			if !h.expire.After(next) {
				next, due = h.expire, true
			}
		}
		if due {
			if pre := next.Add(-1); pre.After(now) {
				time.Sleep(pre.Sub(now))
				if err := w.settle(nil); err != nil {
					return fmt.Errorf("one nanosecond before an expiry: %w", err)
				}
			}
		}
		time.Sleep(time.Until(next))
		freed := map[string]bool{}
		for k, h := range w.held {
			if !h.expire.After(next) {
				delete(w.held, k)
				freed[k] = true
				w.rec.Label("expiry")
			}
		}
		if err := w.settle(freed); err != nil {
			return err
		}
		if !next.Before(target) {
			return nil
		}
	}
}

func (w *lkWorld) list(q *gen.Q) error {
	var heldNow []string
	for k := range w.held {
		heldNow = append(heldNow, k)
	}
	sort.Strings(heldNow)
	ids := func(i int) string {
		if i >= 0 && i < len(heldNow) {
			return w.held[heldNow[i]].req.lock.State.LockID
		}
		return fmt.Sprintf("unknown-%d", i)
	}
	query := gen.Q{}
	if q != nil {
		query = *q
	}
	st, body, answered := w.call("GET", "/v1/locks", query.AQ(ids))
	if !answered {
		return fmt.Errorf("listing the locks was never answered")
	}
	if st != 200 {
		return fmt.Errorf("listing the locks was answered with status %d: %s", st, body)
	}
	var locks v1locker.Locks
	if err := json.Unmarshal(body, &locks); err != nil {
		return fmt.Errorf("the list of locks does not decode: %v: %s", err, body)
	}
	got := map[string]*v1locker.Lock{}
	for _, l := range locks {
		k := gen.FromKV(l.Spec.DBDefinition.KeyValues).Canon()
		if got[k] != nil {
			return fmt.Errorf("the list names %s twice", k)
		}
		got[k] = l
	}
	for i, k := range heldNow {
		h := w.held[k]
		want := q == nil || query.Match(w.c.KVs[h.req.kv], i)
		l := got[k]
		delete(got, k)
		if !want {
			if l != nil {
				return fmt.Errorf("the list names %s, which does not match the query", k)
			}
			continue
		}
		if l == nil {
			return fmt.Errorf("the list misses the held lock of %s", k)
		}
		left := h.expire.Sub(time.Now())
		if l.State.TimeTillExipre != left {
			return fmt.Errorf("the lock of %s expires in %v, the list says %v (timeout %v)", k, left, l.State.TimeTillExipre, h.req.timeout)
		}
		if l.Spec.Properties == nil || l.Spec.Properties.Timeout == nil || *l.Spec.Properties.Timeout != h.req.timeout {
			return fmt.Errorf("the list gives the wrong timeout for %s: %s", k, body)
		}
		if l.State.LockID != h.req.lock.State.LockID || l.State.SessionID != h.req.lock.State.SessionID {
			return fmt.Errorf("the list gives ids %s/%s for %s, its holder was given %s/%s", l.State.LockID, l.State.SessionID, k, h.req.lock.State.LockID, h.req.lock.State.SessionID)
		}
		if n := uint64(1 + len(w.waiting[k])); l.State.LocksHeldOrWaiting != n {
			return fmt.Errorf("%d clients hold or wait for %s, the list says %d", n, k, l.State.LocksHeldOrWaiting)
		}
		w.rec.Label("listed")
	}
	for k := range got {
		return fmt.Errorf("the list names %s, which nobody holds or waits for", k)
	}
	return nil
}

// call sends a request and reports whether it was answered without any time passing.
func (w *lkWorld) call(method, uri string, body any) (int, []byte, bool) {
	type ans struct {
		st int
		b  []byte
	}
	ch := make(chan ans, 1)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go func() {
		st, b := w.svc.Do(ctx, method, uri, body)
		ch <- ans{st, b}
	}()
	synctest.Wait()
	select {
	case a := <-ch:
		return a.st, a.b, true
	default:
		return 0, nil, false
	}
}

func (w *lkWorld) claim(o lkOp) error {
	lockID, session := "nolock", "nosession"
	var target *lkHold // the holder this claim is right for
	var targetKey string
	if o.Current && len(w.held) > 0 {
		ks := []string{}
		for k := range w.held {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		h := w.held[ks[o.Ref%len(ks)]]
		lockID, session = h.req.lock.State.LockID, h.req.lock.State.SessionID
	} else {
		n := len(w.grants)
		if o.Lock >= 0 && n > 0 {
			lockID = w.grants[n-1-o.Lock%n].lock.State.LockID
		}
		if !o.Forge && n > 0 {
			session = w.grants[n-1-o.Ref%n].lock.State.SessionID
		}
	}
	for k, h := range w.held {
		if h.req.lock.State.LockID == lockID && h.req.lock.State.SessionID == session {
			target, targetKey = h, k
		}
	}
	body := &v1locker.LockClaim{SessionID: session}
	var st int
	var resp []byte
	var ok bool
	if o.Op == "beat" {
		st, resp, ok = w.call("POST", "/v1/locks/"+lockID+"/heartbeat", body)
	} else {
		st, resp, ok = w.call("DELETE", "/v1/locks/"+lockID, body)
	}
	what := fmt.Sprintf("a %s with lock %s, session %s", o.Op, lockID, session)
	if !ok {
		return fmt.Errorf("%s was never answered", what)
	}
	if target == nil {
		w.rec.Label("refused-" + o.Op)
		if st != 404 && st != 409 {
			return fmt.Errorf("%s, which is not the current holder's, was answered with status %d %s", what, st, resp)
		}
		return w.settle(nil)
	}
	if o.Op == "beat" {
		if st != 200 {
			return fmt.Errorf("the holder's heartbeat was answered with status %d %s", st, resp)
		}
		target.expire = addTime(time.Now(), target.req.timeout)
		w.rec.Label("heartbeat")
		return w.settle(nil)
	}
	if st != 204 && st != 200 {
		return fmt.Errorf("the holder's release was answered with status %d %s", st, resp)
	}
	delete(w.held, targetKey)
	w.rec.Label("release")
	return w.settle(map[string]bool{targetKey: true})
}

func lkRun(c lkCase, rec *vx.Rec) error {
	err, left := Bubble(func() error {
		w := &lkWorld{c: c, held: map[string]*lkHold{}, waiting: map[string][]*lkReq{}, seen: map[string]bool{}, rec: rec, net: NewNet()}
		w.svc = w.net.StartLocker(lkDefault)
		synctest.Wait()
		err := w.run()
		if err != nil {
			return err
		}
		return w.finish()
	})
	if err == nil && left {
		err = fmt.Errorf("goroutines of the locker stay blocked for good after its shutdown")
	}
	return err
}

func (w *lkWorld) run() error {
	for i, o := range w.c.Ops {
		var err error
		switch o.Op {
		case "acquire":
			k := w.canon(o.KV)
			q := w.acquire(o.KV, o.TO)
			w.waiting[k] = append(w.waiting[k], q)
			err = w.settle(nil)
		case "beat", "release":
			err = w.claim(o)
		case "giveup":
			var all []*lkReq
			for _, k := range sortedKeys(w.waiting) {
				all = append(all, w.waiting[k]...)
			}
			if len(all) == 0 {
				continue
			}
			q := all[o.Ref%len(all)]
			k := w.canon(q.kv)
			for j, x := range w.waiting[k] {
				if x == q {
					w.waiting[k] = append(append([]*lkReq{}, w.waiting[k][:j]...), w.waiting[k][j+1:]...)
				}
			}
			q.cancel()
			w.rec.Label("give-up")
			err = w.settle(nil)
			if done, st := q.state(); err == nil && (!done || st == 200) {
				err = fmt.Errorf("a client that gave up was answered with status %d (answered: %v)", st, done)
			}
		case "sleep":
			err = w.advance(lkSleeps[o.D])
		case "list":
			err = w.list(o.Q)
		}
		if err != nil {
			return fmt.Errorf("step %d (%s): %w", i, o.Op, err)
		}
	}
	return nil
}

// finish: every holder releases, every waiter gives up or is served; nothing may be left. Or the service stops.
func (w *lkWorld) finish() error {
	if err := w.list(nil); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	if !w.c.Down {
		for round := 0; round < 200; round++ {
			ks := sortedKeys(w.held)
			if len(ks) == 0 {
				break
			}
			if err := w.claim(lkOp{Op: "release", Current: true}); err != nil {
				return fmt.Errorf("releasing everything at the end: %w", err)
			}
		}
		if err := w.list(nil); err != nil {
			return fmt.Errorf("after releasing everything: %w", err)
		}
	}
	var pend []*lkReq
	for _, qs := range w.waiting {
		pend = append(pend, qs...)
	}
	if err := w.svc.Stop(); err != nil {
		return err
	}
	synctest.Wait()
	for _, q := range pend {
		if done, st := q.state(); !done || st != 503 {
			return fmt.Errorf("a client waiting when the service shut down was answered with status %d (answered: %v), expected 503", st, done)
		}
		w.rec.Label("shutdown-waiter")
	}
	return w.net.Err()
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func lkShrink(c lkCase) []lkCase {
	var out []lkCase
	used := map[int]bool{}
	for _, o := range c.Ops {
		if o.Op == "acquire" {
			used[o.KV] = true
		}
	}
	for i := len(c.KVs) - 1; i >= 0 && len(c.KVs) > 1; i-- {
		if !used[i] {
			d := c
			d.KVs = append(append([]gen.KV{}, c.KVs[:i]...), c.KVs[i+1:]...)
			d.Ops = append([]lkOp{}, c.Ops...)
			for j := range d.Ops {
				if d.Ops[j].KV > i {
					d.Ops[j].KV--
				}
			}
			out = append(out, d)
		}
	}
	for _, o := range vx.Cuts(c.Ops) {
		d := c
		d.Ops = o
		out = append(out, d)
	}
	if c.Down {
		d := c
		d.Down = false
		out = append(out, d)
	}
	return out
}

// ---- many clients at once: real interleavings inside one virtual instant ----

type stAct struct {
	Before, Hold int // sleeps, in units
	KV           int
	TO           int    // units
	Beats        int    // heartbeats while holding
	End          string // release, expire, stale (a late heartbeat and release of an expired session)
	GiveUp       int    // units the client is willing to wait; 0: for ever
}
type stCase struct {
	KVs     []gen.KV
	Clients [][]stAct
	Spin    []int // how often requests and answers yield to other goroutines
	Down    int   // the service shuts down after Down-1 units, with the clients still busy; 0: when they are done
}

const stUnit = time.Second

func stGen(r *vx.R) stCase {
	kvs, _ := lkKVs(r)
	c := stCase{KVs: kvs}
	for n := r.Range(2, 8); n > 0; n-- {
		var as []stAct
		for m := r.Range(1, 6); m > 0; m-- {
			as = append(as, stAct{Before: vx.Pick(r, 0, 0, 0, 1, 2, 3), Hold: vx.Pick(r, 0, 0, 1, 2), KV: r.IntN(len(kvs)), TO: vx.Pick(r, 1, 2, 3, 10),
				Beats: vx.Pick(r, 0, 0, 1, 2), End: vx.Pick(r, "release", "release", "release", "expire", "stale"), GiveUp: vx.Pick(r, 0, 0, 0, 1, 2, 3, 5)})
		}
		c.Clients = append(c.Clients, as)
	}
	if r.Bool() {
		for n := r.Range(1, 12); n > 0; n-- {
			c.Spin = append(c.Spin, vx.Pick(r, 0, 0, 1, 3, 10, 40, 150))
		}
	}
	if r.Chance(0.3) {
		c.Down = 1 + vx.Pick(r, 0, 0, 0, 1, 2, 3)
	}
	return c
}

func stRun(c stCase, rec *vx.Rec) error {
	err, left := Bubble(func() error { return storm(c, rec) })
	if err == nil && left {
		err = fmt.Errorf("goroutines of the locker stay blocked for good after its shutdown")
	}
	return err
}

func storm(c stCase, rec *vx.Rec) error {
	net := NewNet()
	svc := net.StartLocker(lkDefault)
	type hold struct {
		session string
		until   time.Time // the service may give the lock away from then on
		gone    bool      // a release was sent
		end     time.Time // when it was released
	}
	var mu sync.Mutex
	cur := map[string]*hold{}
	granted := map[string]map[string]time.Time{} // key-values -> session -> end of the grants that were answered to clients already gone
	sessions := map[string]bool{}
	var bad error
	fail := func(format string, a ...any) {
		mu.Lock()
		if bad == nil {
			bad = fmt.Errorf(format, a...)
		}
		mu.Unlock()
	}
	waited := 0
	var refused atomic.Bool
	var down atomic.Bool // the shutdown has begun: requests may be refused, but all of them are answered
	if len(c.Spin) > 0 {
		var turn atomic.Int64
		net.SetSpin(func() int { return c.Spin[int(turn.Add(1))%len(c.Spin)] })
	}
	var wg sync.WaitGroup
	if c.Down > 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(c.Down-1) * stUnit)
			net.yield()
			down.Store(true)
			if err := svc.Stop(); err != nil {
				fail("%v", err)
			}
		}()
	}
	for _, acts := range c.Clients {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, a := range acts {
				time.Sleep(time.Duration(a.Before) * stUnit)
				k := c.KVs[a.KV].Canon()
				to := time.Duration(a.TO) * stUnit
				ctx, cancel := context.WithCancel(context.Background())
				if a.GiveUp > 0 {
					ctx, cancel = context.WithTimeout(context.Background(), time.Duration(a.GiveUp)*stUnit)
				}
				asked := time.Now()
				st, body := svc.Do(context.WithValue(ctx, sentKey{}, func(code int, b []byte) {
					var l v1locker.Lock
					if code != 200 || len(b) == 0 || json.Unmarshal(b, &l) != nil || l.State == nil {
						return
					}
					mu.Lock()
					if granted[k] == nil {
						granted[k] = map[string]time.Time{}
					}
					granted[k][l.State.SessionID] = time.Now().Add(to)
					mu.Unlock()
				}), "POST", "/v1/locks", &v1locker.Lock{Spec: &v1locker.LockSpec{
					DBDefinition: &v1locker.LockDBDefinition{KeyValues: c.KVs[a.KV].DT()}, Properties: &v1locker.LockProperties{Timeout: &to}}})
				gaveUp := ctx.Err() != nil
				cancel()
				if st != 200 {
					if down.Load() {
						if st != 503 && !(a.GiveUp > 0 && gaveUp && st == 0) {
							fail("an acquire of %s during the shutdown was answered with status %d %s", k, st, body)
						}
						refused.Store(true)
						continue
					}
					if !(a.GiveUp > 0 && gaveUp) {
						fail("an acquire of %s was answered with status %d %s", k, st, body)
					}
					continue
				}
				var l v1locker.Lock
				if err := json.Unmarshal(body, &l); err != nil {
					fail("undecodable lock: %v", err)
					continue
				}
				now := time.Now()
				h := &hold{session: l.State.SessionID, until: now.Add(to)}
				mu.Lock()
				if now.After(asked) {
					waited++
				}
				if sessions[h.session] && bad == nil {
					bad = fmt.Errorf("session id handed out twice")
				}
				sessions[h.session] = true
				if p := cur[k]; p != nil && !p.gone && now.Before(p.until) && bad == nil {
					bad = fmt.Errorf("the lock of %s was given to a second client at %v; the first one holds it until %v and did not release it", k, now, p.until)
				}
				delete(granted[k], h.session)
				if now.After(asked) && bad == nil && !down.Load() {
					// nobody waits for a lock that nobody holds
					free := asked
					if p := cur[k]; p != nil && p.gone && p.end.After(free) {
						free = p.end
					} else if p != nil && !p.gone && p.until.After(free) {
						free = p.until
					}
					for _, end := range granted[k] {
						if end.After(free) {
							free = end
						}
					}
					if free.Before(now) {
						bad = fmt.Errorf("a client asked for the lock of %s at %v and got it only at %v, although nobody has held it since %v", k, asked, now, free)
					}
				}
				cur[k] = h
				mu.Unlock()
				beat := func() int {
					st, _ := svc.Do(context.Background(), "POST", "/v1/locks/"+l.State.LockID+"/heartbeat", &v1locker.LockClaim{SessionID: h.session})
					return st
				}
				valid := func() bool { // still ours for certain
					return time.Now().Before(h.until)
				}
				for i := 0; i <= a.Beats; i++ {
					time.Sleep(time.Duration(a.Hold) * stUnit)
					if i < a.Beats {
						was := valid()
						mu.Lock()
						// from now on the hold may be longer: extend before the call, so that nobody is accused wrongly after it
						mu.Unlock()
						at := time.Now()
						st := beat()
						if was && st != 200 && !down.Load() {
							fail("the holder's heartbeat for %s at %v (valid until %v) was answered with status %d", k, at, h.until, st)
						}
						mu.Lock()
						if st == 200 {
							h.until = at.Add(to)
						}
						mu.Unlock()
					}
				}
				switch a.End {
				case "release":
					was := valid()
					mu.Lock()
					h.gone, h.end = true, time.Now()
					mu.Unlock()
					st, b := svc.Do(context.Background(), "DELETE", "/v1/locks/"+l.State.LockID, &v1locker.LockClaim{SessionID: h.session})
					if was && st != 204 && st != 200 && !down.Load() {
						fail("the holder's release of %s was answered with status %d %s", k, st, b)
					}
				case "stale":
					time.Sleep(time.Until(h.until) + 1)
					if st := beat(); st != 404 && st != 409 && !(st == 503 && down.Load()) {
						fail("a heartbeat of an expired session was answered with status %d", st)
					}
					if st, _ := svc.Do(context.Background(), "DELETE", "/v1/locks/"+l.State.LockID, &v1locker.LockClaim{SessionID: h.session}); st != 404 && st != 409 && !(st == 503 && down.Load()) {
						fail("a release of an expired session was answered with status %d", st)
					}
				}
			}
		}()
	}
	finished := make(chan struct{})
	go func() { wg.Wait(); close(finished) }()
	select {
	case <-finished:
	case <-time.After(10 * time.Hour):
		return fmt.Errorf("some client is never answered although every lock is released or expires")
	}
	time.Sleep(time.Minute)
	if bad != nil {
		return bad
	}
	if err := net.Err(); err != nil {
		return err
	}
	if waited > 0 {
		rec.Nontrivial()
		rec.Label("waited")
	}
	if refused.Load() {
		rec.Label("refused-at-shutdown")
		rec.Nontrivial()
	}
	if c.Down > 0 {
		return nil
	}
	st, body := svc.Do(context.Background(), "GET", "/v1/locks", gen.Q{}.AQ(nil))
	if st != 200 || (string(body) != "[]" && string(body) != "null") {
		return fmt.Errorf("after every lock was released or expired the list is %d %s", st, body)
	}
	if err := svc.Stop(); err != nil {
		return err
	}
	return net.Err()
}

func stShrink(c stCase) []stCase {
	var out []stCase
	if len(c.Spin) > 0 {
		d := c
		d.Spin = nil
		out = append(out, d)
	}
	if c.Down > 0 {
		d := c
		d.Down = 0
		out = append(out, d)
	}
	for i := range c.Clients {
		d := c
		d.Clients = append(append([][]stAct{}, c.Clients[:i]...), c.Clients[i+1:]...)
		out = append(out, d)
	}
	for i := range c.Clients {
		for _, as := range vx.Cuts(c.Clients[i]) {
			d := c
			d.Clients = append([][]stAct{}, c.Clients...)
			d.Clients[i] = as
			out = append(out, d)
		}
	}
	return out
}

var _ = math.MaxInt64

func lkProp(name, rule string, weight int, tune func(r *vx.R, c *lkCase)) vx.Runner {
	return vx.Prop[lkCase]{Name: name, Rule: rule, Weight: weight, Run: lkRun, Shrink: lkShrink, Tries: 2,
		Gen: func(r *vx.R) lkCase {
			c := lkGen(r)
			if tune != nil {
				tune(r, &c)
			}
			return c
		}}
}
func stProp(weight int) vx.Runner {
	return vx.Prop[stCase]{Name: "storm", Rule: "at least one client had to wait for a lock", Weight: weight, Gen: stGen, Run: stRun, Shrink: stShrink, Tries: 8}
}

func TestC11(t *testing.T) {
	curT = t
	vx.Check(t, stProp(2), lkProp("history", "a released or expired lock was handed to a waiting client", 1, nil))
}

// C12 leans on heartbeats and releases with stale, foreign and forged sessions.
func TestC12(t *testing.T) {
	curT = t
	vx.Check(t, lkProp("claims", "a released or expired lock was handed to a waiting client", 2, func(r *vx.R, c *lkCase) {
		for i := range c.Ops {
			if c.Ops[i].Op == "list" && r.Chance(0.7) {
				c.Ops[i] = lkOp{Op: vx.Pick(r, "beat", "release"), Ref: r.Range(0, 3), Lock: r.Range(-1, 3), Forge: r.Chance(0.2)}
			}
		}
	}), stProp(1))
}

func TestC13(t *testing.T) {
	curT = t
	vx.Check(t, lkProp("history", "a released or expired lock was handed to a waiting client", 2, nil), stProp(1))
}
