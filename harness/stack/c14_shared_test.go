package stack

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"
	"github.com/DanLavine/willow/pkg/clients"
	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
)

// ---- C14: several parts of one program ask the same client for the same lock ----

type lshareCase struct {
	KVs    []gen.KV
	Actors []lcActor
}

func lshareGen(r *vx.R) lshareCase {
	all, _ := lkKVs(r)
	var c lshareCase
	seen := map[string]bool{}
	for _, kv := range all {
		if !seen[kv.Canon()] && len(c.KVs) < 2 {
			seen[kv.Canon()] = true
			c.KVs = append(c.KVs, kv)
		}
	}
	cls := r.Range(1, 2)
	for n := r.Range(2, 6); n > 0; n-- {
		a := lcActor{Client: r.IntN(cls)}
		for m := r.Range(1, 5); m > 0; m-- {
			act := lcAct{Before: vx.Pick(r, 0, 0, 1, 2, 3, 10), Hold: vx.Pick(r, 0, 1, 2, 3, 10, 50), KV: r.IntN(len(c.KVs)), TO: vx.Pick(r, 20, 40)}
			if r.Chance(0.3) {
				act.GiveUp = vx.Pick(r, 1, 2, 3, 11)
			}
			a.Acts = append(a.Acts, act)
		}
		c.Actors = append(c.Actors, a)
	}
	return c
}

type lshareHold struct {
	client, kv int
	got        time.Duration
	released   time.Duration // when Release was called first; -1: not yet
	sharers    int
	ok         int // how many releases succeeded
	done       int // when Done was first seen closed, in the order of all events; 0: not yet
}

// a caller never gives up at an instant at which a lock is granted: such a
// grant stays with the service until its timeout. Every give-up adds its own
// power of two in nanoseconds, which no sum of others equals.
func lshareGiveUps(c lshareCase) [][]time.Duration {
	var out [][]time.Duration
	n := 0
	for _, a := range c.Actors {
		var row []time.Duration
		for _, act := range a.Acts {
			d := time.Duration(0)
			if act.GiveUp > 0 && n < 25 {
				d = time.Duration(act.GiveUp)*lcUnit + time.Duration(1<<n)
				n++
			}
			row = append(row, d)
		}
		out = append(out, row)
	}
	return out
}

func lshareRun(c lshareCase, rec *vx.Rec) error {
	err, left := Bubble(func() error { return lshareWorld(c, rec) })
	if err == nil && left {
		err = fmt.Errorf("goroutines stay blocked for good after every lock was released and the locker shut down")
	}
	return err
}

func lshareWorld(c lshareCase, rec *vx.Rec) error {
	net := NewNet()
	svc := net.StartLocker(lkDefault)
	start := time.Now()
	now := func() time.Duration { return time.Since(start) }
	var mu sync.Mutex
	var bad error
	fail := func(format string, a ...any) {
		mu.Lock()
		if bad == nil {
			bad = fmt.Errorf(format, a...)
		}
		mu.Unlock()
	}
	var cls []*lockerclient.LockClient
	for i := 0; i < 2; i++ {
		cl, err := lockerclient.NewLockClient(&clients.Config{URL: fmt.Sprintf("http://locker-%d", i)})
		if err != nil {
			return err
		}
		cls = append(cls, cl)
	}
	holds := map[lockerclient.Lock]*lshareHold{}
	type wait struct {
		client, kv int
		asked, got time.Duration
		served     bool
	}
	var waits []wait
	events := 0
	seen := func(h *lshareHold) {
		mu.Lock()
		if events++; h.done == 0 {
			h.done = events
		}
		mu.Unlock()
	}
	var wg sync.WaitGroup
	giveUps := lshareGiveUps(c)
	for i, a := range c.Actors {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j, act := range a.Acts {
				giveUp := giveUps[i][j]
				time.Sleep(time.Duration(act.Before) * lcUnit)
				to := time.Duration(act.TO) * lcUnit
				mu.Lock()
				events++
				asked := events
				mu.Unlock()
				w := wait{client: a.Client, kv: act.KV, asked: now()}
				ctx, cancel := context.WithCancel(context.Background())
				if giveUp > 0 {
					ctx, cancel = context.WithTimeout(context.Background(), giveUp)
				}
				l, err := cls[a.Client].ObtainLock(ctx, &v1locker.Lock{Spec: &v1locker.LockSpec{
					DBDefinition: &v1locker.LockDBDefinition{KeyValues: c.KVs[act.KV].DT()}, Properties: &v1locker.LockProperties{Timeout: &to}}}, nil)
				w.got, w.served = now(), l != nil
				gaveUp := ctx.Err() != nil
				cancel()
				if err != nil || l == nil && !gaveUp {
					fail("ObtainLock of client %d for key-values %d (asked %v) returned %v, error %v at %v", a.Client, act.KV, w.asked, l, err, w.got)
					return
				}
				mu.Lock()
				waits = append(waits, w)
				mu.Unlock()
				if giveUp > 0 && w.got > w.asked+giveUp {
					fail("ObtainLock was to give up at %v and returned at %v", w.asked+giveUp, w.got)
				}
				if l == nil {
					continue
				}
				mu.Lock()
				h := holds[l]
				if h == nil {
					h = &lshareHold{client: a.Client, kv: act.KV, got: w.got, released: -1}
					holds[l] = h
				}
				h.sharers++
				dead := h.released >= 0 && h.released < w.asked || h.done > 0 && h.done < asked
				wrong := h.client != a.Client || h.kv != act.KV
				mu.Unlock()
				if dead || wrong {
					fail("ObtainLock of client %d for key-values %d at %v returned the lock of client %d and key-values %d, which had ended before (released at %v)", a.Client, act.KV, w.asked, h.client, h.kv, h.released)
				}
				select {
				case <-l.Done():
					seen(h)
				case <-time.After(time.Duration(act.Hold) * lcUnit):
				}
				mu.Lock()
				if h.released < 0 {
					select {
					case <-l.Done():
						mu.Unlock()
						fail("the lock of client %d for key-values %d, obtained at %v, ended at %v although nobody released it", h.client, h.kv, h.got, now())
						return
					default:
					}
					h.released = now()
				}
				mu.Unlock()
				if err := l.Release(context.Background()); err == nil {
					mu.Lock()
					h.ok++
					mu.Unlock()
				}
				select {
				case <-l.Done():
					seen(h)
				case <-time.After(time.Hour):
					fail("Done is not closed after Release")
				}
			}
		}()
	}
	finished := make(chan struct{})
	go func() { wg.Wait(); close(finished) }()
	select {
	case <-finished:
	case <-time.After(10 * time.Hour):
		mu.Lock()
		defer mu.Unlock()
		if bad != nil {
			return bad
		}
		return fmt.Errorf("a caller is never served although every lock is released")
	}
	time.Sleep(time.Minute)
	mu.Lock()
	defer mu.Unlock()
	if bad != nil {
		return bad
	}
	type iv struct{ a, b time.Duration }
	held := map[int][]iv{}
	shared, waited := 0, 0
	for _, h := range holds {
		if h.ok != 1 {
			return fmt.Errorf("the lock of client %d for key-values %d, obtained at %v by %d callers, was released %d times", h.client, h.kv, h.got, h.sharers, h.ok)
		}
		if h.sharers > 1 {
			shared++
		}
		held[h.kv] = append(held[h.kv], iv{h.got, h.released})
		for _, g := range holds {
			if g != h && g.kv == h.kv && g.got < h.released && h.got < g.released {
				return fmt.Errorf("two locks for key-values %d are held at the same time: client %d from %v to %v, client %d from %v to %v", h.kv, h.client, h.got, h.released, g.client, g.got, g.released)
			}
		}
	}
	for kv := range held {
		sort.Slice(held[kv], func(i, j int) bool { return held[kv][i].a < held[kv][j].a })
	}
	for _, w := range waits {
		if w.got > w.asked {
			waited++
		}
		at := w.asked
		for _, h := range held[w.kv] {
			if h.a <= at && h.b > at {
				at = h.b
			}
		}
		if at < w.got {
			return fmt.Errorf("a caller of client %d waited for key-values %d from %v to %v (served %v) although nobody held it at %v", w.client, w.kv, w.asked, w.got, w.served, at)
		}
	}
	st, body := svc.Do(context.Background(), "GET", "/v1/locks", gen.Q{}.AQ(nil))
	if st != 200 || string(body) != "[]" && string(body) != "null" {
		return fmt.Errorf("after every lock was released the service answers the list with %d %s", st, body)
	}
	if err := net.Err(); err != nil {
		return err
	}
	if shared > 0 || waited > 0 {
		rec.Nontrivial()
	}
	if shared > 0 {
		rec.Label("shared by several callers")
	}
	return svc.Stop()
}

func lshareShrink(c lshareCase) []lshareCase {
	var out []lshareCase
	for i := range c.Actors {
		if len(c.Actors) > 1 {
			d := c
			d.Actors = append(append([]lcActor{}, c.Actors[:i]...), c.Actors[i+1:]...)
			out = append(out, d)
		}
		for _, as := range vx.Cuts(c.Actors[i].Acts) {
			d := c
			d.Actors = append([]lcActor{}, c.Actors...)
			d.Actors[i].Acts = as
			out = append(out, d)
		}
	}
	return out
}
