package stack

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"
	"github.com/DanLavine/willow/pkg/models/api"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// ---- C26: arbitrary requests against the three services

// fzReq is one request. $RULE, $OV, $LOCK, $SESSION and $ITEM in the path and in the body stand for the ids of things that
// exist.
type fzReq struct {
	Svc    int // 0: locker, 1: limiter, 2: willow
	Method string
	Path   string
	Types  []string // Content-Type headers
	Trace  string
	Body   string
	NilCT  bool // no Content-Type at all
	Wait   int  // seconds the client is willing to wait
}
type fzCase struct {
	Reqs  []fzReq
	Burst bool // all at once
}

var fzNames = []string{"locker", "limiter", "willow"}

type fzRoute struct {
	svc    int
	method string
	path   string
	body   func(r *vx.R) any // a valid body; nil: the route takes none
	blocks bool              // a valid request may have to wait
}

func fzKV(r *vx.R) gen.KV {
	kv := gen.KV{}
	for n := r.Range(1, 3); n > 0; n-- {
		k := vx.Pick(r, "a", "b", "a", "b", "c", "ключ", "k\"q", "_willow_queue_name", "_willow_running", "queue_name", "enqueued", "_associated_id", "_ASSOCIATED_ID", " ", "a/b?c#d")
		kv[k] = gen.Small(r, gen.Types(r, 1, 0), 3)
		if r.Chance(0.03) {
			kv[k] = gen.AnyV()
		}
	}
	return kv
}

func fzPlainKV(r *vx.R) gen.KV {
	kv := gen.KV{}
	for n := r.Range(1, 2); n > 0; n-- {
		kv[vx.Pick(r, "a", "b", "_associated_id")] = gen.Small(r, gen.Types(r, 1, 0.2), 3)
	}
	return kv
}

func fzQ(r *vx.R) any {
	if r.Chance(0.3) {
		return gen.Q{}.AQ(nil)
	}
	return gen.GenQ(r, gen.QOpts{Keys: []string{"a", "b", "_associated_id", ""}, Types: gen.Types(r, 3, 0.3), N: 3, Depth: 2}).AQ(nil)
}

func fzM(r *vx.R) any {
	return gen.GenMatch(r, gen.KV{"a": gen.Int(1)}, gen.QOpts{Keys: []string{"a", "b", "_associated_id", ""}, Types: gen.Types(r, 3, 0.3), N: 3}, 6).MQ()
}

func fzLimit(r *vx.R) int64 {
	return vx.Pick[int64](r, -1, 0, 1, 5, 1<<62, -2, -1<<63)
}

func fzDur(r *vx.R) time.Duration {
	return vx.Pick(r, time.Second, time.Hour, time.Millisecond, 1, 0, -1, -time.Hour, 1<<63-1, -1<<63, 2, 9)
}

var fzRoutes = []fzRoute{
	{0, "POST", "/v1/locks", func(r *vx.R) any {
		d := fzDur(r)
		return &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: fzKV(r).DT()}, Properties: &v1locker.LockProperties{Timeout: &d}}}
	}, true},
	{0, "GET", "/v1/locks", fzQ, false},
	{0, "DELETE", "/v1/locks/$LOCK", fzClaim, false},
	{0, "POST", "/v1/locks/$LOCK/heartbeat", fzClaim, false},
	{1, "POST", "/v1/limiter/rules", func(r *vx.R) any { return ruleBody(fzPlainKV(r), fzLimit(r)) }, false},
	{1, "GET", "/v1/limiter/rules/query", fzQ, false},
	{1, "GET", "/v1/limiter/rules/match", fzM, false},
	{1, "GET", "/v1/limiter/rules/$RULE", nil, false},
	{1, "PUT", "/v1/limiter/rules/$RULE", func(r *vx.R) any { n := fzLimit(r); return &v1limiter.RuleProperties{Limit: &n} }, false},
	{1, "DELETE", "/v1/limiter/rules/$RULE", nil, false},
	{1, "POST", "/v1/limiter/rules/$RULE/overrides", func(r *vx.R) any {
		kv := fzPlainKV(r)
		if r.Chance(0.8) {
			kv["a"] = gen.Int(1)
		}
		return ovBody(kv, fzLimit(r))
	}, false},
	{1, "GET", "/v1/limiter/rules/$RULE/overrides/query", fzQ, false},
	{1, "GET", "/v1/limiter/rules/$RULE/overrides/match", fzM, false},
	{1, "GET", "/v1/limiter/rules/$RULE/overrides/$OV", nil, false},
	{1, "PUT", "/v1/limiter/rules/$RULE/overrides/$OV", func(r *vx.R) any { n := fzLimit(r); return &v1limiter.OverrideProperties{Limit: &n} }, false},
	{1, "DELETE", "/v1/limiter/rules/$RULE/overrides/$OV", nil, false},
	{1, "PUT", "/v1/limiter/counters", func(r *vx.R) any {
		return cntBody(fzKV(r), vx.Pick[int64](r, 1, 2, -1, -3, 0, 1<<62, 1<<63-1, -1<<63))
	}, true},
	{1, "GET", "/v1/limiter/counters/query", fzQ, false},
	{1, "PUT", "/v1/limiter/counters/set", func(r *vx.R) any {
		return cntBody(fzKV(r), vx.Pick[int64](r, 1, 2, -1, 0, 1<<62, 1<<63-1, -1<<63))
	}, false},
	{2, "POST", "/v1/queues", func(r *vx.R) any {
		return queueBody(vx.Pick(r, "jobs", "q2", "", "q/3", "Q 2", "ä"), vx.Pick[int64](r, -1, 0, 1, 10, -2, 1<<63-1))
	}, false},
	{2, "GET", "/v1/queues", nil, false},
	{2, "GET", "/v1/queues/$QUEUE", nil, false},
	{2, "PUT", "/v1/queues/$QUEUE", func(r *vx.R) any {
		n := vx.Pick[int64](r, -1, 0, 1, 10, -2, 1<<63-1)
		return &v1willow.QueueProperties{MaxItems: &n}
	}, false},
	{2, "DELETE", "/v1/queues/$QUEUE", nil, false},
	{2, "GET", "/v1/queues/$QUEUE/channels", fzQ, false},
	{2, "DELETE", "/v1/queues/$QUEUE/channels", func(r *vx.R) any { return fzKV(r).DT() }, false},
	{2, "POST", "/v1/queues/$QUEUE/channels/items", func(r *vx.R) any {
		return itemBody(fzKV(r), wiItem{Upd: r.Bool(), Retries: vx.Pick[uint64](r, 0, 1, 1<<64-1), Pos: vx.Pick(r, "front", "back", "", "middle"), Timeout: fzDur(r)}, []byte(vx.Pick(r, "x", "", "\x00\xff")))
	}, true},
	{2, "GET", "/v1/queues/$QUEUE/channels/items", fzQ, true},
	{2, "POST", "/v1/queues/$QUEUE/channels/items/ack", func(r *vx.R) any {
		return &v1willow.ACK{ItemID: vx.Pick(r, "$ITEM", "$ITEM", "nope", ""), KeyValues: fzItemKV(r).DT(), Passed: r.Bool()}
	}, false},
	{2, "POST", "/v1/queues/$QUEUE/channels/items/heartbeat", func(r *vx.R) any {
		return &v1willow.Heartbeat{ItemID: vx.Pick(r, "$ITEM", "$ITEM", "nope", ""), KeyValues: fzItemKV(r).DT()}
	}, false},
}

// fzInvalid says why the model that the route documents refuses the body. (Whether the models themselves refuse the right
// things is the business of C03.)
func fzInvalid(rt *fzRoute, body string) string {
	dec := func(v any) string {
		if err := json.NewDecoder(strings.NewReader(body)).Decode(v); err != nil {
			return "its body cannot be decoded: " + err.Error()
		}
		return ""
	}
	say := func(err error) string { return "its body is invalid: " + err.Error() }
	switch {
	case rt.body == nil:
		return ""
	case rt.method == "DELETE" && strings.HasSuffix(rt.path, "/channels"):
		var kv datatypes.KeyValues
		if bad := dec(&kv); bad != "" {
			return bad
		}
		if err := kv.Validate(datatypes.MinDataType, datatypes.MaxWithoutAnyDataType); err != nil {
			return say(err)
		}
		return ""
	case rt.method == "POST" && !strings.HasSuffix(rt.path, "heartbeat") && !strings.HasSuffix(rt.path, "ack") || strings.Contains(rt.path, "counters") && rt.method == "PUT":
		var v api.APIObject
		switch {
		case rt.svc == 0:
			v = &v1locker.Lock{}
		case strings.HasSuffix(rt.path, "rules"):
			v = &v1limiter.Rule{}
		case strings.HasSuffix(rt.path, "overrides"):
			v = &v1limiter.Override{}
		case rt.svc == 1:
			v = &v1limiter.Counter{}
		case strings.HasSuffix(rt.path, "items"):
			v = &v1willow.Item{}
		default:
			v = &v1willow.Queue{}
		}
		if bad := dec(v); bad != "" {
			return bad
		}
		if err := v.ValidateSpecOnly(); err != nil {
			return say(err)
		}
		return ""
	}
	var v api.ApiModel
	switch {
	case rt.svc == 0 && rt.method != "GET":
		v = &v1locker.LockClaim{}
	case strings.HasSuffix(rt.path, "match"):
		v = &querymatchaction.MatchActionQuery{}
	case rt.method == "GET":
		v = &queryassociatedaction.AssociatedActionQuery{}
	case strings.HasSuffix(rt.path, "$RULE"):
		v = &v1limiter.RuleProperties{}
	case strings.HasSuffix(rt.path, "$OV"):
		v = &v1limiter.OverrideProperties{}
	case strings.HasSuffix(rt.path, "$QUEUE"):
		v = &v1willow.QueueProperties{}
	case strings.HasSuffix(rt.path, "ack"):
		v = &v1willow.ACK{}
	default:
		v = &v1willow.Heartbeat{}
	}
	if bad := dec(v); bad != "" {
		return bad
	}
	if err := v.Validate(); err != nil {
		return say(err)
	}
	return ""
}

func fzItemKV(r *vx.R) gen.KV {
	if r.Chance(0.6) {
		return gen.KV{"a": gen.Int(1)}
	}
	return fzKV(r)
}

func fzClaim(r *vx.R) any {
	return &v1locker.LockClaim{SessionID: vx.Pick(r, "$SESSION", "$SESSION", "nope", "")}
}

// fzMutate changes a random place of a decoded JSON document.
func fzMutate(r *vx.R, v any) any {
	odd := func() any {
		return vx.Pick[any](r, nil, true, false, "", "x", json.Number("0"), json.Number("-1"), json.Number("1.5"), json.Number("1e400"), json.Number("9223372036854775807"),
			json.Number("9223372036854775808"), json.Number("-9223372036854775809"), json.Number("18446744073709551616"), []any{}, map[string]any{}, []any{nil}, []any{map[string]any{}},
			map[string]any{"": nil}, "\x00", strings.Repeat("z", 5000), "é\u202e", "NaN", json.Number("256"), json.Number("101"), json.Number("13"), json.Number("14"))
	}
	switch x := v.(type) {
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		switch n := r.IntN(10); {
		case n < 1 || len(ks) == 0:
			x[vx.Pick(r, "", "extra", "_associated_id", "Type", "Data", "Value", "Spec", "State", "KeyValues", "Or", "And", "IDs")] = odd()
		case n < 2:
			delete(x, vx.PickS(r, ks))
		case n < 3:
			k := vx.PickS(r, ks)
			x[vx.Pick(r, strings.ToLower(k), strings.ToUpper(k), "", "_associated_id", k+"x")] = x[k]
			delete(x, k)
		case n < 4:
			x[vx.PickS(r, ks)] = odd()
		default:
			k := vx.PickS(r, ks)
			x[k] = fzMutate(r, x[k])
		}
		return x
	case []any:
		switch n := r.IntN(6); {
		case n < 1 || len(x) == 0:
			return append(x, odd())
		case n < 2:
			return x[:len(x)-1]
		case n < 3:
			return append(x, x...)
		default:
			i := r.IntN(len(x))
			x[i] = fzMutate(r, x[i])
			return x
		}
	default:
		return odd()
	}
}

func fzGen(r *vx.R) fzCase {
	c := fzCase{Burst: r.Chance(0.25)}
	for n := r.Range(1, 10); n > 0; n-- {
		rt := vx.PickS(r, fzRoutes)
		q := fzReq{Svc: rt.svc, Method: rt.method, Path: rt.path, Types: []string{"application/json"}, Wait: vx.Pick(r, 0, 1, 30)}
		if r.Chance(0.25) {
			for _, p := range []string{"$RULE", "$OV", "$LOCK", "$QUEUE"} {
				if strings.Contains(q.Path, p) && r.Chance(0.7) {
					q.Path = strings.Replace(q.Path, p, vx.Pick(r, "nope", "%20", "%2F", "..", "%00", "%ff", strings.Repeat("l", 3000), "q2", "Q%202", "", "$RULE", "$OV", "*", ":queue_name"), 1)
				}
			}
		}
		if r.Chance(0.05) {
			q.Method = vx.Pick(r, "GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS", "BREW")
		}
		if r.Chance(0.05) {
			q.Path = vx.Pick(r, "/", "/v1", "/v1/", "/v2/queues", q.Path+"/", q.Path+"/x", q.Path+"?a=b", "//", "/v1/docs", "/v1/docs/openapi/", "/v1/docs/openapi/x", "/%2e%2e/")
		}
		if r.Chance(0.08) {
			q.Types = vx.Pick(r, []string{}, []string{""}, []string{"text/plain"}, []string{"application/json", "text/plain"}, []string{"application/json; charset=utf-8"}, []string{strings.Repeat("x", 5000)})
			q.NilCT = len(q.Types) == 0
		}
		if r.Chance(0.1) {
			q.Trace = vx.Pick(r, "t", "\xff", strings.Repeat("t", 9999))
		}
		if rt.body != nil {
			b, err := json.Marshal(rt.body(r))
			if err != nil {
				panic(err)
			}
			for n := vx.Pick(r, 0, 0, 1, 1, 1, 2, 3); n > 0; n-- {
				var v any
				d := json.NewDecoder(bytes.NewReader(b))
				d.UseNumber()
				if d.Decode(&v) != nil {
					break
				}
				if m, err := json.Marshal(fzMutate(r, v)); err == nil {
					b = m
				}
			}
			q.Body = string(b)
			if r.Chance(0.15) {
				switch r.IntN(9) {
				case 0:
					q.Body = q.Body[:r.IntN(len(q.Body))]
				case 1:
					q.Body += vx.Pick(r, "x", "{}", "\x00", "]", ",")
				case 2:
					i := r.IntN(len(q.Body))
					q.Body = q.Body[:i] + vx.Pick(r, "\xff", "\x00", "\"", "{", "}", ",", ":", "\\u", "1e9") + q.Body[i:]
				case 3:
					q.Body = ""
				case 4:
					q.Body = vx.Pick(r, "null", "0", "true", "\"x\"", "[]", "{}", "[{}]", " ", "\ufeff{}", "nul")
				case 5:
					q.Body = strings.Repeat("[", 20000)
				case 6:
					q.Body = strings.Repeat(`{"Selection":`, 11000) + "{}" + strings.Repeat("}", 11000)
				case 7:
					q.Body = strings.Repeat(`{"Or":[`, 3000) + "{}" + strings.Repeat("]}", 3000)
				case 8:
					q.Body = `{"Selection":{"KeyValues":{"` + strings.Repeat("k", 200000) + `":{}}}}`
				}
			}
		} else if r.Chance(0.2) {
			q.Body = vx.Pick(r, "{", "x", "{}", "[]", strings.Repeat("y", 10000))
		}
		c.Reqs = append(c.Reqs, q)
	}
	return c
}

func fzShrink(c fzCase) []fzCase {
	var out []fzCase
	for _, q := range vx.Cuts(c.Reqs) {
		out = append(out, fzCase{q, c.Burst})
	}
	if c.Burst {
		d := c
		d.Burst = false
		out = append(out, d)
	}
	for i, q := range c.Reqs {
		put := func(q fzReq) {
			d := fzCase{append([]fzReq{}, c.Reqs...), c.Burst}
			d.Reqs[i] = q
			out = append(out, d)
		}
		if q.Trace != "" {
			p := q
			p.Trace = ""
			put(p)
		}
		if q.NilCT || len(q.Types) != 1 || q.Types[0] != "application/json" {
			p := q
			p.NilCT, p.Types = false, []string{"application/json"}
			put(p)
		}
		if len(q.Body) > 1000 {
			for _, n := range []int{len(q.Body) / 2, len(q.Body) - 1} {
				p := q
				p.Body = q.Body[:n]
				put(p)
			}
		}
		var v any
		d := json.NewDecoder(strings.NewReader(q.Body))
		d.UseNumber()
		if d.Decode(&v) == nil {
			if m, ok := v.(map[string]any); ok {
				for k := range m {
					n := map[string]any{}
					for l, w := range m {
						if l != k {
							n[l] = w
						}
					}
					b, _ := json.Marshal(n)
					p := q
					p.Body = string(b)
					put(p)
				}
			}
		}
	}
	return out
}

func fzRun(c fzCase, rec *vx.Rec) error {
	err, left := Bubble(func() error { return fzWorld(c, rec) })
	if err == nil && left {
		err = fmt.Errorf("goroutines of the services stay blocked for good after their shutdown")
	}
	return err
}

func fzWorld(c fzCase, rec *vx.Rec) error {
	net := NewNet()
	locker, limiter := net.StartLocker(15*time.Second), net.StartLimiter()
	willow, err := net.StartWillow()
	if err != nil {
		return err
	}
	synctest.Wait()
	svcs := []*Svc{locker, limiter, willow}
	ws := []*liWorld{{svc: locker, net: net}, {svc: limiter, net: net}, {svc: willow, net: net}}

	// some things exist
	var rule v1limiter.Rule
	var ov v1limiter.Override
	var lock v1locker.Lock
	var item v1willow.Item
	hour := time.Hour
	one := gen.KV{"a": gen.Int(1)}
	for _, s := range []struct {
		w      int
		method string
		uri    func() string
		body   any
		want   int
		into   any
	}{
		{1, "POST", func() string { return "/v1/limiter/rules" }, ruleBody(one, 5), 201, &rule},
		{1, "POST", func() string { return "/v1/limiter/rules/" + rule.State.ID + "/overrides" }, ovBody(gen.KV{"a": gen.Int(1), "b": gen.Int(1)}, 2), 201, &ov},
		{1, "PUT", func() string { return "/v1/limiter/counters" }, cntBody(gen.KV{"a": gen.Int(1), "b": gen.Int(1)}, 1), 200, nil},
		{0, "POST", func() string { return "/v1/locks" }, &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: gen.KV{"held": gen.Int(1)}.DT()}, Properties: &v1locker.LockProperties{Timeout: &hour}}}, 200, &lock},
		{2, "POST", func() string { return "/v1/queues" }, queueBody("jobs", 10), 201, nil},
		{2, "POST", func() string { return "/v1/queues/jobs/channels/items" }, itemBody(one, wiItem{Retries: 1, Pos: "front", Timeout: hour}, []byte("0")), 201, nil},
		{2, "POST", func() string { return "/v1/queues/jobs/channels/items" }, itemBody(one, wiItem{Retries: 1, Pos: "front", Timeout: hour}, []byte("1")), 201, nil},
		{2, "POST", func() string { return "/v1/queues/jobs/channels/items" }, itemBody(gen.KV{"a": gen.S("x")}, wiItem{Retries: 1, Pos: "front", Timeout: hour}, []byte("2")), 201, nil},
		{2, "GET", func() string { return "/v1/queues/jobs/channels/items" }, gen.Q{}.AQ(nil), 200, &item},
	} {
		_, b, err := ws[s.w].call(s.method, s.uri(), s.body, s.want)
		if err != nil {
			return fmt.Errorf("setup: %w", err)
		}
		if s.into != nil {
			if err := json.Unmarshal(b, s.into); err != nil {
				return fmt.Errorf("setup: %s %s answers with an undecodable body: %v %s", s.method, s.uri(), err, b)
			}
		}
	}
	ids := strings.NewReplacer("$RULE", rule.State.ID, "$OV", ov.State.ID, "$LOCK", lock.State.LockID, "$SESSION", lock.State.SessionID, "$ITEM", item.State.ID, "$QUEUE", "jobs")

	canon := func(b []byte) string {
		var l []any
		if json.Unmarshal(b, &l) != nil {
			return string(b)
		}
		var ss []string
		for _, x := range l {
			s, _ := json.Marshal(x)
			ss = append(ss, string(s))
		}
		sort.Strings(ss)
		return strings.Join(ss, "\n")
	}
	snapshot := func() (string, error) {
		var out strings.Builder
		for _, s := range []struct {
			w   int
			uri string
		}{{0, "/v1/locks"}, {1, "/v1/limiter/rules/query"}, {1, "/v1/limiter/rules/" + rule.State.ID + "/overrides/query"}, {1, "/v1/limiter/counters/query"}, {2, "/v1/queues"}, {2, "/v1/queues/jobs/channels"}} {
			want := []int{200}
			if strings.Contains(s.uri, "overrides") || strings.Contains(s.uri, "channels") {
				want = append(want, 404) // it may be deleted by now
			}
			st, b, err := ws[s.w].call("GET", s.uri, gen.Q{}.AQ(nil), want...)
			if err != nil {
				return "", err
			}
			fmt.Fprintf(&out, "%s: %d\n%s\n", s.uri, st, canon(b))
		}
		return out.String(), nil
	}
	before, err := snapshot()
	if err != nil {
		return err
	}
	answered4 := 0
	if c.Burst {
		var wg sync.WaitGroup
		var mu sync.Mutex
		var bad error
		for i, q := range c.Reqs {
			path, body := ids.Replace(q.Path), ids.Replace(q.Body)
			if _, err := url.ParseRequestURI(path); err != nil {
				continue
			}
			h := http.Header{}
			if !q.NilCT {
				h["Content-Type"] = q.Types
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				t := time.AfterFunc(time.Duration(q.Wait)*time.Second, cancel)
				defer t.Stop()
				st, b := svcs[q.Svc].Raw(ctx, q.Method, path, h, []byte(body))
				mu.Lock()
				defer mu.Unlock()
				if st >= 400 {
					answered4++
				}
				if st >= 500 && bad == nil {
					bad = fmt.Errorf("request %d of several at once: %s %s %s is answered with status %d %s: %s", i, fzNames[q.Svc], q.Method, cut(q.Path, 100), st, cut(string(b), 300), cut(body, 300))
				}
			}()
		}
		ok := make(chan struct{})
		go func() { wg.Wait(); close(ok) }()
		select {
		case <-ok:
		case <-time.After(time.Hour):
			return fmt.Errorf("a request is never answered")
		}
		time.Sleep(time.Minute)
		if err := net.Err(); err != nil {
			return err
		}
		if bad != nil {
			return bad
		}
		rec.Label("at-once")
		c.Reqs = nil
	}
	for i, q := range c.Reqs {
		path, body := ids.Replace(q.Path), ids.Replace(q.Body)
		if _, err := url.ParseRequestURI(path); err != nil {
			continue // no HTTP server accepts this
		}
		h := http.Header{}
		if !q.NilCT {
			h["Content-Type"] = q.Types
		}
		if q.Trace != "" {
			h.Set("X-Request-Id", q.Trace)
		}
		var route *fzRoute
		for k := range fzRoutes {
			if fzRoutes[k].svc == q.Svc && fzRoutes[k].method == q.Method && fzRoutes[k].path == q.Path {
				route = &fzRoutes[k]
			}
		}
		what := fmt.Sprintf("request %d: %s %s %s", i, fzNames[q.Svc], q.Method, cut(q.Path, 100))
		ctx, cancel := context.WithCancel(context.Background())
		type ans struct {
			st int
			b  []byte
		}
		ch := make(chan ans, 1)
		sent := time.Now()
		go func() {
			st, b := svcs[q.Svc].Raw(ctx, q.Method, path, h, []byte(body))
			ch <- ans{st, b}
		}()
		synctest.Wait()
		var a ans
		select {
		case a = <-ch:
		default:
			select {
			case a = <-ch:
			case <-time.After(time.Duration(q.Wait) * time.Second):
				cancel()
				a = <-ch
			}
		}
		cancel()
		synctest.Wait()
		if err := net.Err(); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		late := time.Since(sent) > 0 || a.st == 0
		if a.st == 0 && !strings.Contains(q.Path, "locks") && !strings.Contains(q.Path, "items") && !strings.Contains(q.Path, "counters") {
			return fmt.Errorf("%s is not answered: %s", what, cut(body, 300))
		}
		if a.st >= 500 {
			return fmt.Errorf("%s is answered with status %d %s: %s", what, a.st, cut(string(a.b), 300), cut(body, 300))
		}
		if a.st >= 200 {
			rec.Label(fmt.Sprintf("%s-%dxx", fzNames[q.Svc], a.st/100))
		}
		if route != nil {
			ct := ""
			if !q.NilCT && len(q.Types) > 0 {
				ct = q.Types[0]
			}
			var v any
			d := json.NewDecoder(strings.NewReader(body))
			bad := ""
			if ct == "" {
				bad = "it has no Content-Type"
			} else if route.body != nil {
				if err := d.Decode(&v); err != nil {
					if !strings.Contains(err.Error(), "cannot unmarshal number") { // a number that float64 cannot hold may still be unused
						bad = "its body is no JSON"
					}
				} else if _, ok := v.(map[string]any); !ok && v != nil {
					bad = "its body is no JSON object"
				}
			}
			if bad == "" {
				if bad = fzInvalid(route, body); bad != "" {
					rec.Label("invalid")
				} else {
					rec.Label("valid")
				}
			}
			if bad != "" && (a.st < 400 || late) {
				return fmt.Errorf("%s is answered with status %d although %s: %s", what, a.st, bad, cut(body, 300))
			}
			if a.st >= 400 {
				var e struct{ Message string }
				if json.Unmarshal(a.b, &e) != nil || e.Message == "" {
					return fmt.Errorf("%s is answered with status %d and no error message: %q; body %s", what, a.st, cut(string(a.b), 200), cut(body, 300))
				}
			} else if len(a.b) > 0 && !json.Valid(a.b) {
				return fmt.Errorf("%s is answered with status %d and no JSON: %q", what, a.st, cut(string(a.b), 200))
			}
		}
		after, err := snapshot()
		if err != nil {
			return fmt.Errorf("after %s (status %d, body %s): %w", what, a.st, cut(body, 300), err)
		}
		if a.st >= 400 && !late {
			answered4++
			if after != before {
				return fmt.Errorf("%s is answered with status %d %s, but it changed something: body %s; before %s; after %s", what, a.st, cut(string(a.b), 200), cut(body, 300), before, after)
			}
		}
		before = after
	}
	if answered4 > 0 {
		rec.Nontrivial()
	}

	// the services still work
	smoke := gen.KV{"smoke": gen.S("yes")}
	_, b, err := ws[0].call("POST", "/v1/locks", &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: smoke.DT()}, Properties: &v1locker.LockProperties{Timeout: &hour}}}, 200)
	if err != nil {
		return fmt.Errorf("afterwards: %w", err)
	}
	if err := json.Unmarshal(b, &lock); err != nil {
		return err
	}
	if _, _, err := ws[0].call("DELETE", "/v1/locks/"+lock.State.LockID, &v1locker.LockClaim{SessionID: lock.State.SessionID}, 204); err != nil {
		return fmt.Errorf("afterwards: %w", err)
	}
	for _, s := range []struct {
		w           int
		method, uri string
		body        any
		want        int
	}{
		{1, "POST", "/v1/limiter/rules", ruleBody(smoke, 1), 201},
		{1, "PUT", "/v1/limiter/counters", cntBody(smoke, 1), 200},
		{1, "PUT", "/v1/limiter/counters", cntBody(gen.KV{"smoke": gen.S("yes"), "x": gen.S("y")}, 1), 409},
		{1, "PUT", "/v1/limiter/counters", cntBody(smoke, -1), 200},
		{2, "POST", "/v1/queues", queueBody("smoke", 1), 201},
		{2, "POST", "/v1/queues/smoke/channels/items", itemBody(smoke, wiItem{Pos: "front", Timeout: hour}, []byte("hello")), 201},
		{2, "POST", "/v1/queues/smoke/channels/items", itemBody(smoke, wiItem{Pos: "front", Timeout: hour}, []byte("hello")), 409},
	} {
		if _, _, err := ws[s.w].call(s.method, s.uri, s.body, s.want); err != nil {
			return fmt.Errorf("afterwards: %w", err)
		}
	}
	_, b, err = ws[2].call("GET", "/v1/queues/smoke/channels/items", gen.Q{}.AQ(nil), 200)
	if err != nil {
		return fmt.Errorf("afterwards: %w", err)
	}
	if err := json.Unmarshal(b, &item); err != nil || item.State == nil || string(item.Spec.Properties.Data) != "hello" {
		return fmt.Errorf("afterwards: dequeued %s (%v)", b, err)
	}
	for _, s := range []struct {
		method, uri string
		body        any
		want        int
	}{
		{"POST", "/v1/queues/smoke/channels/items/ack", &v1willow.ACK{ItemID: item.State.ID, KeyValues: smoke.DT(), Passed: true}, 200},
		{"DELETE", "/v1/queues/smoke", nil, 204},
	} {
		if _, _, err := ws[2].call(s.method, s.uri, s.body, s.want); err != nil {
			return fmt.Errorf("afterwards: %w", err)
		}
	}
	for _, s := range []*Svc{willow, limiter, locker} {
		if err := s.Stop(); err != nil {
			return err
		}
	}
	return net.Err()
}

func TestC26(t *testing.T) {
	curT = t
	vx.Check(t, vx.Prop[fzCase]{Name: "requests", Rule: "at least one request was refused", Gen: fzGen, Run: fzRun, Shrink: fzShrink, Weight: 1, Tries: 2})
}
