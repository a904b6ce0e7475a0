package stack

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/DanLavine/willow/internal/heartbeater"
	"github.com/DanLavine/willow/internal/verifx/vx"
)

// One history of a heartbeat supervisor: calls made at given (virtual) times, several of them possibly at the same
// instant, plus one shutdown. Times are in units of a tenth of the timeout, so that ties with the timeout are common.
type hbCall struct {
	At   int    // tenths of the timeout, counted from the start of Execute
	Nano int    // -1, 0 or +1 nanosecond
	Op   string // start, stop, beat, last
}
type hbCase struct {
	TimeoutMs  int
	NoShutdown bool // no shutdown callback given
	Shutdown   int  // tenths; -1: never
	Dwell      int  // tenths of the timeout the callbacks take
	Ops        []hbCall
}

func hbGen(r *vx.R) hbCase {
	c := hbCase{TimeoutMs: vx.Pick(r, 1, 10, 1000, 3600000), Shutdown: -1, NoShutdown: r.Chance(0.2)}
	if r.Chance(0.35) {
		c.Shutdown = r.Range(0, 60)
	}
	if r.Chance(0.3) {
		c.Dwell = r.Range(1, 15)
	}
	at := func(hi int) hbCall { return hbCall{At: r.Range(0, hi), Nano: vx.Pick(r, 0, 0, 0, -1, 1)} }
	if r.Chance(0.93) {
		s := at(vx.Pick(r, 0, 5, 20))
		s.Op = "start"
		c.Ops = append(c.Ops, s)
		if r.Chance(0.2) {
			s2 := at(30)
			s2.Op = "start"
			c.Ops = append(c.Ops, s2)
		}
	}
	// a chain of heartbeats with gaps around the timeout
	t := 0
	if len(c.Ops) > 0 {
		t = c.Ops[0].At
	}
	for n := r.Range(0, 8); n > 0; n-- {
		t += vx.Pick(r, 1, 3, 5, 9, 9, 10, 10, 11, 15)
		c.Ops = append(c.Ops, hbCall{At: t, Nano: vx.Pick(r, 0, 0, -1, 1), Op: "beat"})
	}
	for n := r.Range(0, 4); n > 0; n-- {
		s := at(80)
		s.Op = vx.Pick(r, "stop", "stop", "beat", "last")
		c.Ops = append(c.Ops, s)
	}
	if len(c.Ops) > 1 && r.Chance(0.4) { // provoke ties
		i, j := r.IntN(len(c.Ops)), r.IntN(len(c.Ops))
		c.Ops[i].At, c.Ops[i].Nano = c.Ops[j].At, c.Ops[j].Nano
	}
	return c
}

type hbEvent struct {
	op      string
	at, end time.Duration // since Execute began
	ok      bool
	last    time.Duration
	done    bool
}

func hbRun(c hbCase, rec *vx.Rec) error {
	err, left := Bubble(func() error { return hbHistory(c, rec) })
	if err == nil && left {
		err = fmt.Errorf("goroutines of the supervisor or its callers stay blocked for good")
	}
	return err
}

func hbHistory(c hbCase, rec *vx.Rec) error {
	timeout := time.Duration(c.TimeoutMs) * time.Millisecond
	unit := timeout / 10
	var mu sync.Mutex
	var t0 time.Time
	var timeouts, shutdowns []time.Duration
	onShutdown := func() {
		mu.Lock()
		shutdowns = append(shutdowns, time.Since(t0))
		mu.Unlock()
		time.Sleep(time.Duration(c.Dwell) * unit)
	}
	onTimeout := func() {
		mu.Lock()
		timeouts = append(timeouts, time.Since(t0))
		mu.Unlock()
		time.Sleep(time.Duration(c.Dwell) * unit)
	}
	if c.NoShutdown {
		onShutdown = nil
	}
	h, err := heartbeater.New(timeout, onShutdown, onTimeout)
	if err != nil {
		return fmt.Errorf("New refused a valid supervisor: %v", err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()

	t0 = time.Now()
	var execEnd time.Duration = -1
	var execErr error
	go func() {
		e := h.Execute(ctx)
		mu.Lock()
		execEnd, execErr = time.Since(t0), e
		mu.Unlock()
	}()
	at := func(tenths, nano int) time.Duration {
		return max(0, time.Duration(tenths)*unit+time.Duration(nano))
	}
	shutAt := time.Duration(-1)
	if c.Shutdown >= 0 {
		shutAt = at(c.Shutdown, 0)
		go func() { time.Sleep(shutAt); cancel() }()
	}
	evs := make([]*hbEvent, len(c.Ops))
	for i, o := range c.Ops {
		e := &hbEvent{op: o.Op, at: at(o.At, o.Nano)}
		evs[i] = e
		go func() {
			time.Sleep(e.at)
			var ok bool
			var last time.Time
			switch e.op {
			case "start":
				ok = h.Start()
			case "stop":
				ok = h.Stop()
			case "beat":
				ok = h.Heartbeat()
			case "last":
				last = h.GetLastHeartbeat()
			}
			mu.Lock()
			e.ok, e.end, e.done = ok, time.Since(t0), true
			e.last = last.Sub(t0)
			mu.Unlock()
		}()
	}
	time.Sleep(200 * unit)
	mu.Lock()
	ended := execEnd >= 0
	mu.Unlock()
	canEnd := false
	for _, e := range evs {
		if e.op == "start" || e.op == "stop" {
			canEnd = true
		}
	}
	if canEnd && !ended {
		return fmt.Errorf("the supervisor never ended (started or stopped, and every timeout long past)")
	}
	if !ended { // neither started nor stopped: nothing more to say; end it so that the bubble can close
		h.Stop()
		time.Sleep(unit)
	}
	time.Sleep(100 * unit)
	mu.Lock()
	defer mu.Unlock()
	if execEnd < 0 {
		return fmt.Errorf("the supervisor did not end when stopped")
	}
	if execErr != nil {
		return fmt.Errorf("the supervisor ended with an error: %v", execErr)
	}
	if !canEnd {
		if len(timeouts)+len(shutdowns) > 0 && c.Shutdown < 0 {
			return fmt.Errorf("callbacks ran although the supervisor was never started")
		}
		return nil
	}

	// exactly one ending
	stops := 0
	var stopAt time.Duration
	startAt := time.Duration(-1)
	for _, e := range evs {
		if !e.done {
			return fmt.Errorf("%s called at %v never returned", e.op, e.at)
		}
		if e.op == "stop" && e.ok {
			stops++
			stopAt = e.end
		}
		if e.op == "start" && e.ok {
			if startAt >= 0 {
				return fmt.Errorf("Start reported success twice")
			}
			startAt = e.end
			if e.end != e.at {
				return fmt.Errorf("Start took %v", e.end-e.at)
			}
		}
	}
	shuts := len(shutdowns)
	silentShutdown := c.NoShutdown && c.Shutdown >= 0 && stops == 0 && len(timeouts) == 0
	if silentShutdown {
		shuts = 1
	}
	if stops+len(timeouts)+shuts != 1 {
		return fmt.Errorf("the supervisor ended %d times by stop, %d times by timeout and %d times by shutdown; exactly one ending is allowed",
			stops, len(timeouts), shuts)
	}
	if len(shutdowns) == 1 && (c.Shutdown < 0 || shutdowns[0] < shutAt) {
		return fmt.Errorf("shutdown callback at %v without a shutdown (it was due at %v)", shutdowns[0], shutAt)
	}
	finish := execEnd
	if len(timeouts) == 1 {
		finish = timeouts[0]
	} else if len(shutdowns) == 1 {
		finish = shutdowns[0]
	} else if stops == 1 {
		finish = stopAt
	}

	// timing
	beats := []time.Duration{}
	for _, e := range evs {
		if e.op == "beat" && e.ok {
			if startAt < 0 {
				return fmt.Errorf("a heartbeat succeeded although the supervisor was never started")
			}
			beats = append(beats, e.end)
			if e.at >= startAt && e.end != e.at {
				return fmt.Errorf("a heartbeat of a running supervisor took %v", e.end-e.at)
			}
		}
	}
	sort.Slice(beats, func(i, j int) bool { return beats[i] < beats[j] })
	due := startAt + timeout
	for _, b := range beats {
		if b > due {
			return fmt.Errorf("a heartbeat succeeded at %v although the timeout was due at %v", b, due)
		}
		if b > finish {
			return fmt.Errorf("a heartbeat succeeded at %v, after the supervisor ended at %v", b, finish)
		}
		due = b + timeout
	}
	if startAt >= 0 {
		if len(timeouts) == 1 && timeouts[0] != due {
			return fmt.Errorf("timed out at %v; started at %v, successful heartbeats at %v: the timeout was due at %v", timeouts[0], startAt, beats, due)
		}
		if finish > due {
			return fmt.Errorf("ended at %v although the timeout was due at %v", finish, due)
		}
		// a shutdown or stop that came before everything else decides
		if shutAt >= 0 && shutAt < due && shutAt >= startAt && finish > shutAt {
			return fmt.Errorf("shut down at %v but ended only at %v", shutAt, finish)
		}
	} else if len(timeouts) == 1 {
		return fmt.Errorf("timed out although never started")
	}
	for _, e := range evs {
		switch e.op {
		case "stop", "beat":
			busyUntil := finish
			if len(timeouts)+len(shutdowns) > 0 {
				busyUntil += time.Duration(c.Dwell) * unit
			}
			running := startAt >= 0 && e.at > startAt || e.op == "stop"
			if !e.ok && e.end > max(e.at, busyUntil) {
				return fmt.Errorf("%s called at %v came back only at %v; the supervisor had ended at %v", e.op, e.at, e.end, finish)
			}
			if e.ok && running && e.end != e.at {
				return fmt.Errorf("%s blocked from %v to %v", e.op, e.at, e.end)
			}
			if !e.ok && e.at < finish && running {
				return fmt.Errorf("%s failed at %v although the supervisor was running until %v", e.op, e.at, finish)
			}
			if !e.ok && e.op == "beat" && running && e.end < finish {
				return fmt.Errorf("a heartbeat failed while the supervisor was running")
			}
		case "last":
			// the last successful heartbeat or start before the call; anything at the same instant may count or not
			lo, hi := time.Duration(-1), time.Duration(-1)
			if startAt >= 0 {
				for _, b := range append([]time.Duration{startAt}, beats...) {
					if b < e.at {
						lo = max(lo, b)
					}
					if b <= e.at {
						hi = max(hi, b)
					}
				}
			}
			if lo < 0 {
				lo = hi
			}
			if hi >= 0 && e.at > startAt && (e.last < lo || e.last > hi) {
				return fmt.Errorf("GetLastHeartbeat at %v answered %v, expected between %v and %v", e.at, e.last, lo, hi)
			}
		}
	}
	rec.Label("ended-" + map[bool]string{true: "timeout", false: map[bool]string{true: "stop", false: "shutdown"}[stops == 1]}[len(timeouts) == 1])
	if len(beats) > 0 && (stops == 1 || len(timeouts) == 1 || shuts == 1) {
		rec.Nontrivial()
	}
	return nil
}

func hbShrink(c hbCase) []hbCase {
	var out []hbCase
	for _, o := range vx.Cuts(c.Ops) {
		d := c
		d.Ops = o
		out = append(out, d)
	}
	if c.Dwell > 0 {
		d := c
		d.Dwell = 0
		out = append(out, d)
	}
	if c.Shutdown >= 0 {
		d := c
		d.Shutdown = -1
		out = append(out, d)
	}
	return out
}

func TestC27(t *testing.T) {
	curT = t
	vx.Check(t, vx.Prop[hbCase]{Name: "supervisor", Rule: "at least one successful heartbeat before the ending", Gen: hbGen, Run: hbRun, Shrink: hbShrink, Tries: 3})
}
