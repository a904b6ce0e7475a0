package stack

import (
	"context"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"
	"github.com/DanLavine/willow/pkg/clients"
	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
	willowclient "github.com/DanLavine/willow/pkg/clients/willow_client"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
)

// ---- C29, connections: what the Go clients and the services keep open does not grow with the number of calls

type cnCase struct {
	TLS   bool
	Calls []string
	Size  int // of the lists that are answered
}

var cnCalls = []string{
	"lock", "lock-health", "lock-lost",
	"rule", "rule-dup", "rule-get", "rule-missing", "rule-update", "rule-update-missing", "rule-delete-missing", "rules", "rules-match",
	"override", "override-dup", "override-missing", "override-update", "overrides", "overrides-match", "override-delete-missing",
	"counter", "counter-full", "counter-set", "counters", "limiter-health",
	"queue", "queue-dup", "queue-get", "queue-missing", "queue-update", "queues", "queue-delete-missing", "channel-delete",
	"item", "item-failed", "item-full", "item-missing", "dequeue-timeout", "ack-twice", "willow-health", "raw-counter",
}

func cnGen(r *vx.R) cnCase {
	c := cnCase{TLS: r.Bool(), Size: vx.Pick(r, 0, 3, 60)}
	for n := r.Range(1, 6); n > 0; n-- {
		c.Calls = append(c.Calls, vx.PickS(r, cnCalls))
	}
	return c
}

func cnShrink(c cnCase) []cnCase {
	var out []cnCase
	for _, q := range vx.Cuts(c.Calls) {
		out = append(out, cnCase{c.TLS, q, c.Size})
	}
	if c.TLS {
		out = append(out, cnCase{false, c.Calls, c.Size})
	}
	if c.Size > 0 {
		out = append(out, cnCase{c.TLS, c.Calls, 0})
	}
	return out
}

func (w *pcWorld) sockets() (n int) {
	for _, p := range w.procs {
		d := fmt.Sprintf("/proc/%d/fd", p.cmd.Process.Pid)
		es, _ := os.ReadDir(d)
		for _, e := range es {
			if l, err := os.Readlink(filepath.Join(d, e.Name())); err == nil && strings.HasPrefix(l, "socket:") {
				n++
			}
		}
	}
	return
}

func cnRun(c cnCase, rec *vx.Rec) error {
	pc := pcCase{TLS: c.TLS}
	for i := range pc.Cfg {
		pc.Cfg[i].Level = "info"
	}
	return pcWith(pc, func(w *pcWorld) error {
		for i := range w.procs {
			if err := w.start(i); err != nil {
				return err
			}
		}
		cwd, _ := os.Getwd()
		cfg := func(i int) *clients.Config {
			x := &clients.Config{URL: w.base(i)}
			if c.TLS {
				x.CAFile, x.ClientKeyFile, x.ClientCRTFile = filepath.Join(cwd, "ca.crt"), filepath.Join(cwd, "client.key"), filepath.Join(cwd, "client.crt")
			}
			return x
		}
		lk, err := lockerclient.NewLockClient(cfg(0))
		if err != nil {
			return err
		}
		li, err := limiterclient.NewLimiterClient(cfg(1))
		if err != nil {
			return err
		}
		wi, err := willowclient.NewWillowClient(cfg(2))
		if err != nil {
			return err
		}
		defer http.DefaultTransport.(*http.Transport).CloseIdleConnections()
		ctx := context.Background()
		all := gen.Q{}.AQ(nil)
		hour := time.Hour
		n := 0
		one := func(err error) error {
			if err != nil {
				return fmt.Errorf("the call fails: %w", err)
			}
			return nil
		}
		none := func(err error) error {
			if err == nil {
				return fmt.Errorf("the call does not fail")
			}
			return nil
		}
		rule, err := li.CreateRule(ctx, ruleBody(gen.KV{"a": gen.Int(1)}, 1000000))
		if err != nil {
			return err
		}
		full, err := li.CreateRule(ctx, ruleBody(gen.KV{"full": gen.Int(1)}, 0))
		if err != nil {
			return err
		}
		ov, err := li.CreateOverride(ctx, rule.State.ID, ovBody(gen.KV{"a": gen.Int(1), "b": gen.Int(1)}, 1000000))
		if err != nil {
			return err
		}
		_ = full
		if err := wi.CreateQueue(ctx, queueBody("q", 1000000)); err != nil {
			return err
		}
		if err := wi.CreateQueue(ctx, queueBody("none", 0)); err != nil {
			return err
		}
		for i := 0; i < c.Size; i++ {
			kv := gen.KV{"a": gen.Int(1), strings.Repeat("k", 40) + fmt.Sprint(i): gen.S(strings.Repeat("v", 60))}
			if _, err := li.CreateRule(ctx, ruleBody(kv, 100000)); err != nil {
				return err
			}
			if _, err := li.CreateOverride(ctx, rule.State.ID, ovBody(kv, 1000000)); err != nil {
				return err
			}
			if err := li.SetCounters(ctx, cntBody(kv, 1)); err != nil {
				return err
			}
			if err := wi.CreateQueue(ctx, queueBody(strings.Repeat("q", 50)+fmt.Sprint(i), 5)); err != nil {
				return err
			}
		}
		item := func(kv gen.KV) *v1willow.Item {
			return itemBody(kv, wiItem{Pos: "front", Timeout: time.Minute}, []byte("x"))
		}
		take := func(kv gen.KV, pass bool) (*willowclient.Item, error) {
			if err := wi.EnqueueQueueItem(ctx, "q", item(kv)); err != nil {
				return nil, err
			}
			it, err := wi.DequeueQueueItem(ctx, "q", all)
			if err != nil {
				return nil, err
			}
			return it, it.ACK(ctx, pass)
		}
		five := int64(1000000)
		call := func(k string) error {
			n++
			own := gen.KV{"own": gen.Int(n)}
			switch k {
			case "lock":
				l, err := lk.ObtainLock(ctx, pcLock(gen.KV{"l": gen.Int(1)}, 10*time.Second), nil)
				if err != nil {
					return one(err)
				}
				return one(l.Release(ctx))
			case "lock-lost":
				short, cancel := context.WithTimeout(ctx, 5*time.Millisecond)
				defer cancel()
				l, err := lk.ObtainLock(ctx, pcLock(gen.KV{"l": gen.Int(2)}, time.Hour), nil)
				if err != nil {
					return one(err)
				}
				if _, err := lk.ObtainLock(short, pcLock(gen.KV{"l": gen.Int(2)}, time.Hour), nil); err == nil {
					_ = err
				}
				_ = l.Release(ctx)
				return nil
			case "lock-health":
				return one(lk.Healthy())
			case "rule":
				x, err := li.CreateRule(ctx, ruleBody(own, 5))
				if err != nil {
					return one(err)
				}
				return one(li.DeleteRule(ctx, x.State.ID))
			case "rule-dup":
				_, err := li.CreateRule(ctx, ruleBody(gen.KV{"a": gen.Int(1)}, 5))
				return none(err)
			case "rule-get":
				_, err := li.GetRule(ctx, rule.State.ID)
				return one(err)
			case "rule-missing":
				_, err := li.GetRule(ctx, "nope")
				return none(err)
			case "rule-update":
				return one(li.UpdateRule(ctx, rule.State.ID, &v1limiter.RuleProperties{Limit: &five}))
			case "rule-update-missing":
				return none(li.UpdateRule(ctx, "nope", &v1limiter.RuleProperties{Limit: &five}))
			case "rule-delete-missing":
				return none(li.DeleteRule(ctx, "nope"))
			case "rules":
				_, err := li.QueryRules(ctx, all)
				return one(err)
			case "rules-match":
				_, err := li.MatchRules(ctx, gen.GenMatch(vx.NewR(1), gen.KV{"a": gen.Int(1)}, gen.QOpts{Keys: []string{"a"}, Types: gen.Types(vx.NewR(1), 1, 0), N: 1}, 2).MQ())
				return one(err)
			case "override":
				x, err := li.CreateOverride(ctx, rule.State.ID, ovBody(gen.KV{"a": gen.Int(1), "own": gen.Int(n)}, 5))
				if err != nil {
					return one(err)
				}
				return one(li.DeleteOverride(ctx, rule.State.ID, x.State.ID))
			case "override-dup":
				_, err := li.CreateOverride(ctx, rule.State.ID, ovBody(gen.KV{"a": gen.Int(1), "b": gen.Int(1)}, 5))
				return none(err)
			case "override-missing":
				_, err := li.GetOverride(ctx, rule.State.ID, "nope")
				return none(err)
			case "override-update":
				return one(li.UpdateOverride(ctx, rule.State.ID, ov.State.ID, &v1limiter.OverrideProperties{Limit: &five}))
			case "overrides":
				_, err := li.QueryOverrides(ctx, rule.State.ID, all)
				return one(err)
			case "overrides-match":
				_, err := li.MatchOverrides(ctx, rule.State.ID, gen.GenMatch(vx.NewR(1), gen.KV{"a": gen.Int(1)}, gen.QOpts{Keys: []string{"a"}, Types: gen.Types(vx.NewR(1), 1, 0), N: 1}, 2).MQ())
				return one(err)
			case "override-delete-missing":
				return none(li.DeleteOverride(ctx, "nope", "nope"))
			case "counter":
				return one(li.UpdateCounter(ctx, cntBody(gen.KV{"a": gen.Int(1), "b": gen.Int(1)}, 1)))
			case "counter-full":
				return none(li.UpdateCounter(ctx, cntBody(gen.KV{"full": gen.Int(1)}, 1)))
			case "counter-set":
				return one(li.SetCounters(ctx, cntBody(gen.KV{"set": gen.Int(1)}, 3)))
			case "counters":
				_, err := li.QueryCounters(ctx, all)
				return one(err)
			case "limiter-health":
				return one(li.Healthy())
			case "queue":
				if err := wi.CreateQueue(ctx, queueBody("own", 5)); err != nil {
					return one(err)
				}
				return one(wi.DeleteQueue(ctx, "own"))
			case "queue-dup":
				return none(wi.CreateQueue(ctx, queueBody("q", 5)))
			case "queue-get":
				_, err := wi.GetQueue(ctx, "q", all)
				return one(err)
			case "queue-missing":
				_, err := wi.GetQueue(ctx, "nope", all)
				return none(err)
			case "queue-update":
				return one(wi.UpdateQueue(ctx, "q", &v1willow.QueueProperties{MaxItems: &five}))
			case "queues":
				_, err := wi.ListQueues(ctx)
				return one(err)
			case "queue-delete-missing":
				_ = wi.DeleteQueue(ctx, "nope")
				return nil
			case "channel-delete":
				if err := wi.EnqueueQueueItem(ctx, "q", item(own)); err != nil {
					return one(err)
				}
				return one(wi.DeleteQueueChannel(ctx, "q", own.DT()))
			case "item":
				_, err := take(gen.KV{"c": gen.Int(1)}, true)
				return one(err)
			case "item-failed":
				_, err := take(gen.KV{"c": gen.Int(1)}, false)
				return one(err)
			case "item-full":
				return none(wi.EnqueueQueueItem(ctx, "none", item(own)))
			case "item-missing":
				return none(wi.EnqueueQueueItem(ctx, "nope", item(own)))
			case "dequeue-timeout":
				short, cancel := context.WithTimeout(ctx, 3*time.Millisecond)
				defer cancel()
				_, err := wi.DequeueQueueItem(short, "none", all)
				return none(err)
			case "ack-twice":
				it, err := take(gen.KV{"c": gen.Int(1)}, true)
				if err != nil {
					return one(err)
				}
				return none(it.ACK(ctx, true))
			case "willow-health":
				return one(wi.Healthy())
			case "raw-counter":
				// by a client that is none of ours: what the limiter itself keeps open towards the locker
				if err := w.call(1, "PUT", "/v1/limiter/counters", cntBody(gen.KV{"raw": gen.Int(1), "raw2": gen.Int(2)}, 1), nil, 200); err != nil {
					return err
				}
				return w.call(1, "PUT", "/v1/limiter/counters", cntBody(gen.KV{"full": gen.Int(1)}, 1), nil, 409)
			}
			panic(k)
		}
		_ = hour
		for _, k := range c.Calls {
			for i := 0; i < 3; i++ {
				if err := call(k); err != nil {
					return fmt.Errorf("%s: %w", k, err)
				}
			}
			settled := func(limit int) int {
				x := w.sockets()
				for end := time.Now().Add(3 * time.Second); x > limit && time.Now().Before(end); {
					time.Sleep(20 * time.Millisecond)
					x = w.sockets()
				}
				return x
			}
			time.Sleep(30 * time.Millisecond)
			before := w.sockets()
			const reps, slack = 30, 12
			for i := 0; i < reps; i++ {
				if err := call(k); err != nil {
					return fmt.Errorf("%s: %w", k, err)
				}
			}
			if after := settled(before + slack); after > before+slack {
				return fmt.Errorf("%d calls of kind %s leave the services with %d sockets more (TLS: %v, %d list elements)", reps, k, after-before, c.TLS, c.Size)
			}
			rec.Label(k)
		}
		rec.Nontrivial()
		if err := w.alive(2); err != nil {
			return err
		}
		for i := 2; i >= 0; i-- {
			if err := w.procs[i].stop(); err != nil {
				return err
			}
		}
		return nil
	})
}

func cnProp() vx.Runner {
	return vx.Prop[cnCase]{Name: "connections", Rule: "every call of the case was made 33 times", Gen: cnGen, Run: cnRun, Shrink: cnShrink, Weight: 1, Tries: 1, Hang: 15 * time.Minute}
}
