package stack

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
)

// callNow sends a request and reports whether it was answered without any time passing.
func callNow(s *Svc, method, uri string, body any) (int, []byte, bool) {
	type ans struct {
		st int
		b  []byte
	}
	ch := make(chan ans, 1)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go func() {
		st, b := s.Do(ctx, method, uri, body)
		ch <- ans{st, b}
	}()
	synctest.Wait()
	select {
	case a := <-ch:
		return a.st, a.b, true
	default:
		return 0, nil, false
	}
}

// ---- the limiter in steps, against a model of rules, overrides and counters ----

type liOp struct {
	Op string // crule urule drule grule qrule mrule cov uov dov gov qov mov inc dec set qcount
	R  int    // which rule (of all ever created, from the newest); -1: an id that does not exist
	O  int    // which override of that rule; -1: an id that does not exist; -2: an override of another rule
	KV int
	N  int64
	Q  *gen.Q `json:",omitempty"`
	M  *gen.M `json:",omitempty"`
}
type liCase struct {
	Rules, Overrides, Counters []gen.KV
	Ops                        []liOp
}

var liKeys = []string{"a", "b", "c", "d"}

func liPools(r *vx.R) (rules, ovs, cnts []gen.KV, types []int) {
	types = gen.Types(r, r.Range(1, 2), 0)
	withAny := append(append([]int{}, types...), gen.Any)
	n := vx.Pick(r, 1, 2, 2, 3)
	keys := liKeys[:r.Range(2, 4)]
	v := func(any float64) gen.V {
		if r.Chance(any) {
			return gen.AnyV()
		}
		return gen.Small(r, types, n)
	}
	kv := func(maxKeys int, any float64) gen.KV {
		out := gen.KV{}
		for m := r.Range(1, maxKeys); len(out) < m && len(out) < len(keys); {
			out[vx.PickS(r, keys)] = v(any)
		}
		return out
	}
	for m := r.Range(1, 4); len(rules) < m; {
		rules = append(rules, kv(2, 0.5))
	}
	for m := r.Range(1, 4); len(cnts) < m+1; {
		cnts = append(cnts, kv(len(keys), 0))
	}
	for m := r.Range(1, 5); len(ovs) < m; {
		o := kv(2, 0.3)
		if r.Chance(0.9) {
			for k := range vx.PickS(r, rules) {
				o[k] = v(0.3)
			}
		}
		ovs = append(ovs, o)
	}
	_ = withAny
	return
}

func liLimit(r *vx.R) int64 {
	return vx.Pick[int64](r, -1, 0, 0, 1, 1, 2, 2, 3, 4, 5, 8, 1<<40)
}

// profile: weights of the operations
var liOps = []string{"crule", "urule", "drule", "grule", "qrule", "mrule", "cov", "uov", "dov", "gov", "qov", "mov", "inc", "dec", "set", "qcount"}
var liProfiles = map[string][]int{
	"C15": {5, 4, 1, 0, 0, 0, 5, 3, 2, 0, 0, 0, 22, 6, 3, 1},
	"C16": {1, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 14, 10, 6, 6},
	"C18": {8, 5, 4, 4, 4, 4, 9, 4, 4, 4, 4, 4, 4, 1, 0, 0},
}

func liGen(profile string) func(r *vx.R) liCase {
	return func(r *vx.R) liCase {
		var c liCase
		var types []int
		c.Rules, c.Overrides, c.Counters, types = liPools(r)
		qo := gen.QOpts{Keys: liKeys, Types: types, N: 2, IDs: 4, Depth: 1}
		if r.Chance(0.3) {
			qo.Types = append(append([]int{}, types...), gen.Any)
		}
		ref := func(n int) int {
			if r.Chance(0.06) {
				return -1
			}
			return r.IntN(n)
		}
		for i := r.Range(0, 2); i > 0; i-- {
			c.Ops = append(c.Ops, liOp{Op: "crule", KV: r.IntN(len(c.Rules)), N: liLimit(r)})
		}
		crowded := profile == "C18" && r.Chance(0.4)
		if crowded {
			// one rule with many overrides, which the matches below cover several of
			c.Rules = c.Rules[:1]
			for i := range c.Overrides {
				o := gen.KV{}
				for k, v := range c.Overrides[i] {
					o[k] = v
				}
				for k := range c.Rules[0] {
					if _, ok := o[k]; !ok || r.Chance(0.5) {
						o[k] = vx.PickS(r, c.Overrides)[k]
						if o[k].T == 0 {
							o[k] = gen.Small(r, types, 2)
						}
					}
				}
				c.Overrides[i] = o
			}
			c.Ops = []liOp{{Op: "crule", N: liLimit(r)}}
			for i := range c.Overrides {
				c.Ops = append(c.Ops, liOp{Op: "cov", KV: i, N: vx.Pick[int64](r, 0, 0, 1, -1, 5)})
			}
		}
		for n := r.Range(1, 40); n > 0; n-- {
			o := liOp{Op: liOps[r.Weighted(liProfiles[profile]...)]}
			if crowded && o.Op == "drule" && r.Chance(0.8) {
				o.Op = "mov"
			}
			switch o.Op {
			case "crule":
				o.KV, o.N = r.IntN(len(c.Rules)), liLimit(r)
			case "urule":
				o.R, o.N = ref(4), liLimit(r)
			case "drule", "grule":
				o.R = ref(4)
			case "cov":
				o.R, o.KV, o.N = ref(3), r.IntN(len(c.Overrides)), liLimit(r)
			case "uov":
				o.R, o.O, o.N = ref(3), r.Range(-2, 3), liLimit(r)
			case "dov", "gov":
				o.R, o.O = ref(3), r.Range(-2, 3)
			case "qrule", "qov", "qcount":
				o.R = ref(3)
				q := gen.Q{}
				if r.Chance(0.8) {
					q = gen.GenQ(r, qo)
				}
				o.Q = &q
			case "mrule", "mov":
				o.R = ref(3)
				around := vx.PickS(r, c.Counters)
				if o.Op == "mov" && r.Chance(0.6) {
					around = gen.KV{}
					for i := r.Range(1, 4); i > 0; i-- {
						for k, v := range vx.PickS(r, c.Overrides) {
							around[k] = v
						}
					}
				}
				m := gen.GenMatch(r, around, qo, 5)
				if r.Chance(0.3) {
					m.Min, m.Max = nil, nil
				}
				o.M = &m
			case "inc", "dec":
				o.KV, o.N = r.IntN(len(c.Counters)), vx.Pick[int64](r, 1, 1, 1, 1, 2, 3, 7, 1<<40)
			case "set":
				o.KV, o.N = r.IntN(len(c.Counters)), vx.Pick[int64](r, 0, 1, 2, 3, 5, 9, -1, -4, 1<<41)
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}
}

type liOv struct {
	id    string
	kv    gen.KV
	limit int64
	gone  bool
}
type liRule struct {
	id    string
	kv    gen.KV
	limit int64
	ovs   []*liOv
	gone  bool
}
type liWorld struct {
	c      liCase
	svc    *Svc
	locker *Svc
	net    *Net
	rules  []*liRule
	counts map[string]int64
	ids    map[string]bool
	rec    *vx.Rec
}

func covers(rule, counter gen.KV) bool {
	for k, v := range rule {
		w, ok := counter[k]
		if !ok || v.T != gen.Any && v.String() != w.String() && gen.Cmp(v, w) != 0 {
			return false
		}
	}
	return true
}

// liAllows is the documented decision: limits holds (keys, limit) of what applies.
func liAllows(rules []*liRule, counts map[string]int64, byCanon map[string]gen.KV, kv gen.KV) (ok, checked bool) {
	ok = true
	sum := func(keys gen.KV) int64 {
		n := int64(0)
		for canon, m := range counts {
			other := byCanon[canon]
			same := true
			for k := range keys {
				v, has := other[k]
				if !has || gen.Cmp(v, kv[k]) != 0 {
					same = false
				}
			}
			if same {
				n += m
			}
		}
		return n
	}
	check := func(keys gen.KV, limit int64) {
		if limit == -1 {
			return
		}
		checked = true
		if sum(keys) >= limit {
			ok = false
		}
	}
	for _, r := range rules {
		if r.gone || !covers(r.kv, kv) {
			continue
		}
		over := false
		for _, o := range r.ovs {
			if !o.gone && covers(o.kv, kv) {
				over = true
				check(o.kv, o.limit)
			}
		}
		if !over {
			check(r.kv, r.limit)
		}
	}
	return
}

func (w *liWorld) call(method, uri string, body any, want ...int) (int, []byte, error) {
	st, b, ok := callNow(w.svc, method, uri, body)
	if err := w.net.Err(); err != nil {
		return st, b, err
	}
	if !ok {
		return st, b, fmt.Errorf("%s %s was not answered", method, uri)
	}
	for _, x := range want {
		if x == st {
			if st >= 400 {
				var e struct{ Message string }
				if json.Unmarshal(b, &e) != nil || e.Message == "" {
					return st, b, fmt.Errorf("%s %s was answered with status %d and no error message: %q", method, uri, st, b)
				}
			}
			return st, b, nil
		}
	}
	return st, b, fmt.Errorf("%s %s was answered with status %d %s, expected %v", method, uri, st, cut(string(b), 200), want)
}

func ruleBody(kv gen.KV, limit int64) *v1limiter.Rule {
	return &v1limiter.Rule{Spec: &v1limiter.RuleSpec{DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: kv.DT()}, Properties: &v1limiter.RuleProperties{Limit: &limit}}}
}
func ovBody(kv gen.KV, limit int64) *v1limiter.Override {
	return &v1limiter.Override{Spec: &v1limiter.OverrideSpec{DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: kv.DT()}, Properties: &v1limiter.OverrideProperties{Limit: &limit}}}
}
func cntBody(kv gen.KV, n int64) *v1limiter.Counter {
	return &v1limiter.Counter{Spec: &v1limiter.CounterSpec{DBDefinition: &v1limiter.CounterDBDefinition{KeyValues: kv.DT()}, Properties: &v1limiter.CounteProperties{Counters: &n}}}
}

func (w *liWorld) rule(ref int) (*liRule, string) {
	if ref < 0 || len(w.rules) == 0 {
		return nil, "no-such-rule"
	}
	r := w.rules[len(w.rules)-1-ref%len(w.rules)]
	if r.gone {
		return nil, r.id
	}
	return r, r.id
}

// override: the record, its id, and whether the id belongs to that (existing) rule.
func (w *liWorld) override(r *liRule, ref int) (*liOv, string) {
	if ref == -2 {
		for _, x := range w.rules {
			if x != r && len(x.ovs) > 0 {
				return nil, x.ovs[len(x.ovs)-1].id
			}
		}
		ref = -1
	}
	if ref == -1 || r == nil || len(r.ovs) == 0 {
		return nil, "no-such-override"
	}
	o := r.ovs[len(r.ovs)-1-ref%len(r.ovs)]
	if o.gone {
		return nil, o.id
	}
	return o, o.id
}

func recLine(kv gen.KV, limit int64, id string) string {
	return fmt.Sprintf("%s limit %d id %s", kv.Canon(), limit, id)
}

func diff(what string, want, got []string) error {
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, "\n") != strings.Join(got, "\n") {
		return fmt.Errorf("%s: expected %q, got %q", what, want, got)
	}
	return nil
}

func ovLine(o *v1limiter.Override) (string, error) {
	if o == nil || o.Spec == nil || o.Spec.DBDefinition == nil || o.Spec.Properties == nil || o.Spec.Properties.Limit == nil || o.State == nil {
		return "", fmt.Errorf("an override comes back incomplete")
	}
	return recLine(gen.FromKV(o.Spec.DBDefinition.GroupByKeyValues), *o.Spec.Properties.Limit, o.State.ID), nil
}
func ruleLine(o *v1limiter.Rule) (string, error) {
	if o == nil || o.Spec == nil || o.Spec.DBDefinition == nil || o.Spec.Properties == nil || o.Spec.Properties.Limit == nil || o.State == nil {
		return "", fmt.Errorf("a rule comes back incomplete")
	}
	return recLine(gen.FromKV(o.Spec.DBDefinition.GroupByKeyValues), *o.Spec.Properties.Limit, o.State.ID), nil
}

func (w *liWorld) rulesGot(b []byte) (out []string, err error) {
	var rs v1limiter.Rules
	if err := json.Unmarshal(b, &rs); err != nil {
		return nil, fmt.Errorf("undecodable rules: %v: %s", err, b)
	}
	for _, r := range rs {
		l, err := ruleLine(r)
		if err != nil {
			return nil, err
		}
		out = append(out, l)
	}
	return
}
func (w *liWorld) ovsGot(b []byte) (out []string, err error) {
	var rs v1limiter.Overrides
	if err := json.Unmarshal(b, &rs); err != nil {
		return nil, fmt.Errorf("undecodable overrides: %v: %s", err, b)
	}
	for _, r := range rs {
		l, err := ovLine(r)
		if err != nil {
			return nil, err
		}
		out = append(out, l)
	}
	return
}

func (w *liWorld) newID(id string) error {
	if id == "" || w.ids[id] {
		return fmt.Errorf("a creation was answered with the id %q, which is empty or was used before", id)
	}
	w.ids[id] = true
	return nil
}

func (w *liWorld) step(o liOp) error {
	switch o.Op {
	case "crule":
		kv := w.c.Rules[o.KV]
		for _, r := range w.rules {
			if !r.gone && r.kv.Canon() == kv.Canon() {
				w.rec.Label("rule-conflict")
				_, _, err := w.call("POST", "/v1/limiter/rules", ruleBody(kv, o.N), 409)
				return err
			}
		}
		_, b, err := w.call("POST", "/v1/limiter/rules", ruleBody(kv, o.N), 201)
		if err != nil {
			return err
		}
		var got v1limiter.Rule
		if err := json.Unmarshal(b, &got); err != nil {
			return err
		}
		l, err := ruleLine(&got)
		if err != nil {
			return err
		}
		if want := recLine(kv, o.N, got.State.ID); l != want {
			return fmt.Errorf("creating the rule %s was answered with %s", want, l)
		}
		if err := w.newID(got.State.ID); err != nil {
			return err
		}
		w.rules = append(w.rules, &liRule{id: got.State.ID, kv: kv, limit: o.N})
	case "urule":
		r, id := w.rule(o.R)
		if r == nil {
			_, _, err := w.call("PUT", "/v1/limiter/rules/"+id, &v1limiter.RuleProperties{Limit: &o.N}, 404)
			return err
		}
		if _, _, err := w.call("PUT", "/v1/limiter/rules/"+id, &v1limiter.RuleProperties{Limit: &o.N}, 200); err != nil {
			return err
		}
		r.limit = o.N
		w.rec.Label("rule-update")
	case "drule":
		r, id := w.rule(o.R)
		if r == nil {
			_, _, err := w.call("DELETE", "/v1/limiter/rules/"+id, nil, 404, 204)
			return err
		}
		if _, _, err := w.call("DELETE", "/v1/limiter/rules/"+id, nil, 204); err != nil {
			return err
		}
		r.gone = true
		for _, x := range r.ovs {
			if !x.gone {
				w.rec.Label("rule-delete-with-overrides")
			}
		}
	case "grule":
		r, id := w.rule(o.R)
		if r == nil {
			_, _, err := w.call("GET", "/v1/limiter/rules/"+id, nil, 404)
			return err
		}
		_, b, err := w.call("GET", "/v1/limiter/rules/"+id, nil, 200)
		if err != nil {
			return err
		}
		var got v1limiter.Rule
		if err := json.Unmarshal(b, &got); err != nil {
			return err
		}
		if l, err := ruleLine(&got); err != nil || l != recLine(r.kv, r.limit, r.id) {
			return fmt.Errorf("getting the rule %s was answered with %s (%v)", recLine(r.kv, r.limit, r.id), l, err)
		}
	case "qrule", "mrule":
		var want []string
		for i, r := range w.rules {
			if !r.gone && (o.Q != nil && o.Q.Match(r.kv, i) || o.M != nil && o.M.Match(r.kv)) {
				want = append(want, recLine(r.kv, r.limit, r.id))
			}
		}
		var b []byte
		var err error
		if o.Q != nil {
			_, b, err = w.call("GET", "/v1/limiter/rules/query", o.Q.AQ(func(i int) string {
				if i < len(w.rules) {
					return w.rules[i].id
				}
				return "none"
			}), 200)
		} else {
			_, b, err = w.call("GET", "/v1/limiter/rules/match", o.M.MQ(), 200)
		}
		if err != nil {
			return err
		}
		got, err := w.rulesGot(b)
		if err != nil {
			return err
		}
		if len(want) > 0 {
			w.rec.Label("rules-found")
		}
		return diff("searching the rules", want, got)
	case "cov":
		r, id := w.rule(o.R)
		kv := w.c.Overrides[o.KV]
		uri := "/v1/limiter/rules/" + id + "/overrides"
		if r == nil {
			_, _, err := w.call("POST", uri, ovBody(kv, o.N), 404)
			return err
		}
		for k := range r.kv {
			if _, ok := kv[k]; !ok {
				_, _, err := w.call("POST", uri, ovBody(kv, o.N), 400)
				return err
			}
		}
		for _, x := range r.ovs {
			if !x.gone && x.kv.Canon() == kv.Canon() {
				w.rec.Label("override-conflict")
				_, _, err := w.call("POST", uri, ovBody(kv, o.N), 409)
				return err
			}
		}
		_, b, err := w.call("POST", uri, ovBody(kv, o.N), 201)
		if err != nil {
			return err
		}
		var got v1limiter.Override
		if err := json.Unmarshal(b, &got); err != nil {
			return err
		}
		l, err := ovLine(&got)
		if err != nil {
			return err
		}
		if want := recLine(kv, o.N, got.State.ID); l != want {
			return fmt.Errorf("creating the override %s was answered with %s", want, l)
		}
		if err := w.newID(got.State.ID); err != nil {
			return err
		}
		r.ovs = append(r.ovs, &liOv{id: got.State.ID, kv: kv, limit: o.N})
		w.rec.Label("override")
	case "uov", "dov", "gov":
		r, id := w.rule(o.R)
		x, oid := w.override(r, o.O)
		uri := "/v1/limiter/rules/" + id + "/overrides/" + oid
		switch o.Op {
		case "uov":
			if x == nil {
				_, _, err := w.call("PUT", uri, &v1limiter.OverrideProperties{Limit: &o.N}, 404)
				return err
			}
			if _, _, err := w.call("PUT", uri, &v1limiter.OverrideProperties{Limit: &o.N}, 200); err != nil {
				return err
			}
			x.limit = o.N
			w.rec.Label("override-update")
		case "dov":
			if x == nil {
				_, _, err := w.call("DELETE", uri, nil, 404, 204)
				return err
			}
			if _, _, err := w.call("DELETE", uri, nil, 204); err != nil {
				return err
			}
			x.gone = true
			w.rec.Label("override-delete")
		case "gov":
			if x == nil {
				_, _, err := w.call("GET", uri, nil, 404)
				return err
			}
			_, b, err := w.call("GET", uri, nil, 200)
			if err != nil {
				return err
			}
			var got v1limiter.Override
			if err := json.Unmarshal(b, &got); err != nil {
				return err
			}
			if l, err := ovLine(&got); err != nil || l != recLine(x.kv, x.limit, x.id) {
				return fmt.Errorf("getting the override %s was answered with %s (%v)", recLine(x.kv, x.limit, x.id), l, err)
			}
		}
	case "qov", "mov":
		r, id := w.rule(o.R)
		uri := "/v1/limiter/rules/" + id + "/overrides/"
		var want []string
		status := 404
		ids := func(i int) string { return "none" }
		if r != nil {
			status = 200
			ids = func(i int) string {
				if i < len(r.ovs) {
					return r.ovs[i].id
				}
				return "none"
			}
			for i, x := range r.ovs {
				if !x.gone && (o.Q != nil && o.Q.Match(x.kv, i) || o.M != nil && o.M.Match(x.kv)) {
					want = append(want, recLine(x.kv, x.limit, x.id))
				}
			}
		}
		var b []byte
		var err error
		if o.Q != nil {
			_, b, err = w.call("GET", uri+"query", o.Q.AQ(ids), status)
		} else {
			_, b, err = w.call("GET", uri+"match", o.M.MQ(), status)
		}
		if err != nil || r == nil {
			return err
		}
		got, err := w.ovsGot(b)
		if err != nil {
			return err
		}
		if len(want) > 0 {
			w.rec.Label("overrides-found")
		}
		return diff("searching the overrides of a rule", want, got)
	case "inc":
		kv := w.c.Counters[o.KV]
		ok, checked := liAllows(w.rules, w.counts, w.byCanon(), kv)
		want := 200
		if !ok {
			want = 409
			w.rec.Label("refused")
		} else if checked {
			w.rec.Label("allowed-below-limit")
		} else {
			w.rec.Label("allowed-unlimited")
		}
		if _, _, err := w.call("PUT", "/v1/limiter/counters", cntBody(kv, o.N), want); err != nil {
			return fmt.Errorf("incrementing %s by %d with %s: %w", kv.Canon(), o.N, w.situation(kv), err)
		}
		if ok {
			w.counts[kv.Canon()] += o.N
		}
	case "dec":
		kv := w.c.Counters[o.KV]
		if _, _, err := w.call("PUT", "/v1/limiter/counters", cntBody(kv, -o.N), 200); err != nil {
			return err
		}
		if n, ok := w.counts[kv.Canon()]; ok {
			if n-o.N <= 0 {
				delete(w.counts, kv.Canon())
				w.rec.Label("count-gone")
			} else {
				w.counts[kv.Canon()] = n - o.N
				w.rec.Label("decrement")
			}
		}
	case "set":
		kv := w.c.Counters[o.KV]
		if _, _, err := w.call("PUT", "/v1/limiter/counters/set", cntBody(kv, o.N), 200); err != nil {
			return err
		}
		if o.N > 0 {
			w.counts[kv.Canon()] = o.N
		} else {
			delete(w.counts, kv.Canon())
		}
		w.rec.Label("set")
	case "qcount":
		return w.query(o.Q)
	}
	return nil
}

func (w *liWorld) byCanon() map[string]gen.KV {
	m := map[string]gen.KV{}
	for _, kv := range w.c.Counters {
		m[kv.Canon()] = kv
	}
	return m
}

func (w *liWorld) situation(kv gen.KV) string {
	var s []string
	for _, r := range w.rules {
		if r.gone || !covers(r.kv, kv) {
			continue
		}
		l := fmt.Sprintf("rule %s limit %d", r.kv.Canon(), r.limit)
		for _, o := range r.ovs {
			if !o.gone && covers(o.kv, kv) {
				l += fmt.Sprintf(" (override %s limit %d)", o.kv.Canon(), o.limit)
			}
		}
		s = append(s, l)
	}
	return fmt.Sprintf("[%s] and counters %v", strings.Join(s, "; "), w.counts)
}

func (w *liWorld) query(q *gen.Q) error {
	all := gen.Q{}
	if q == nil {
		q = &all
	}
	var want []string
	for canon, n := range w.counts {
		if q.Match(w.byCanon()[canon], -100) {
			want = append(want, fmt.Sprintf("%s=%d", canon, n))
		}
	}
	_, b, err := w.call("GET", "/v1/limiter/counters/query", q.AQ(func(i int) string { return "none" }), 200)
	if err != nil {
		return err
	}
	var cs v1limiter.Counters
	if err := json.Unmarshal(b, &cs); err != nil {
		return fmt.Errorf("undecodable counters: %v: %s", err, b)
	}
	var got []string
	for _, x := range cs {
		got = append(got, fmt.Sprintf("%s=%d", gen.FromKV(x.Spec.DBDefinition.KeyValues).Canon(), *x.Spec.Properties.Counters))
	}
	if len(want) > 0 {
		w.rec.Label("counters-found")
	}
	return diff("querying the counters", want, got)
}

func liRun(need []string) func(c liCase, rec *vx.Rec) error {
	return func(c liCase, rec *vx.Rec) error {
		var labels atomic.Int64
		err, left := Bubble(func() error {
			w := &liWorld{c: c, rec: rec, counts: map[string]int64{}, ids: map[string]bool{}, net: NewNet()}
			w.locker = w.net.StartLocker(15 * time.Second)
			w.svc = w.net.StartLimiter()
			synctest.Wait()
			for i, o := range c.Ops {
				if err := w.step(o); err != nil {
					return fmt.Errorf("step %d (%s): %w", i, o.Op, err)
				}
				switch o.Op {
				case "inc", "dec", "set", "drule":
					if err := w.query(nil); err != nil {
						return fmt.Errorf("after step %d (%s): %w", i, o.Op, err)
					}
				}
			}
			// everything that was created is still there, and nothing else
			if err := w.step(liOp{Op: "qrule", Q: &gen.Q{}}); err != nil {
				return fmt.Errorf("at the end: %w", err)
			}
			for i := range w.rules {
				if err := w.step(liOp{Op: "qov", R: i, Q: &gen.Q{}}); err != nil {
					return fmt.Errorf("at the end: %w", err)
				}
			}
			if err := w.query(nil); err != nil {
				return fmt.Errorf("at the end: %w", err)
			}
			return liEnd(w.net, w.locker, w.svc)
		})
		_ = labels
		if err == nil && left {
			err = fmt.Errorf("goroutines of the limiter stay blocked for good after its shutdown")
		}
		if rec.Has(need...) {
			rec.Nontrivial()
		}
		return err
	}
}

func liEnd(net *Net, locker, limiter *Svc) error {
	synctest.Wait()
	st, body := locker.Do(context.Background(), "GET", "/v1/locks", gen.Q{}.AQ(nil))
	if st != 200 || (string(body) != "[]" && string(body) != "null") {
		return fmt.Errorf("with no request in progress the limiter still holds locks: %d %s", st, body)
	}
	if err := limiter.Stop(); err != nil {
		return err
	}
	if err := locker.Stop(); err != nil {
		return err
	}
	return net.Err()
}

func liShrink(c liCase) []liCase {
	var out []liCase
	for _, o := range vx.Cuts(c.Ops) {
		d := c
		d.Ops = o
		out = append(out, d)
	}
	drop := func(n int, uses func(o liOp) (int, bool), set func(d *liCase, i int), dec func(o *liOp)) {
		for i := n - 1; i >= 0 && n > 1; i-- {
			used := false
			for _, o := range c.Ops {
				if x, ok := uses(o); ok && x == i {
					used = true
				}
			}
			if used {
				continue
			}
			d := c
			d.Ops = append([]liOp{}, c.Ops...)
			for j := range d.Ops {
				if x, ok := uses(d.Ops[j]); ok && x > i {
					dec(&d.Ops[j])
				}
			}
			set(&d, i)
			out = append(out, d)
		}
	}
	cutKV := func(xs []gen.KV, i int) []gen.KV { return append(append([]gen.KV{}, xs[:i]...), xs[i+1:]...) }
	decKV := func(o *liOp) { o.KV-- }
	drop(len(c.Rules), func(o liOp) (int, bool) { return o.KV, o.Op == "crule" }, func(d *liCase, i int) { d.Rules = cutKV(c.Rules, i) }, decKV)
	drop(len(c.Overrides), func(o liOp) (int, bool) { return o.KV, o.Op == "cov" }, func(d *liCase, i int) { d.Overrides = cutKV(c.Overrides, i) }, decKV)
	drop(len(c.Counters), func(o liOp) (int, bool) { return o.KV, o.Op == "inc" || o.Op == "dec" || o.Op == "set" }, func(d *liCase, i int) { d.Counters = cutKV(c.Counters, i) }, decKV)
	for i, o := range c.Ops {
		if o.N > 1 || o.N < -1 {
			d := c
			d.Ops = append([]liOp{}, c.Ops...)
			d.Ops[i].N = o.N / 2
			out = append(out, d)
		}
		if o.Q != nil {
			for _, q := range gen.ShrinkQ(*o.Q) {
				d := c
				d.Ops = append([]liOp{}, c.Ops...)
				q := q
				d.Ops[i].Q = &q
				out = append(out, d)
			}
		}
	}
	return out
}

// ---- many clients of the limiter at once, judged by linearizability of the whole set of counters ----

type lsOp struct {
	Op     string // inc, dec, set, get
	KV     int
	N      int64 // get: what was read
	Before int
	GiveUp int
}
type lsRule struct {
	KV    int
	Limit int64
	Ovs   []lsOvr
}
type lsOvr struct {
	KV    int
	Limit int64
}
type lsCase struct {
	Rules, Overrides, Counters []gen.KV
	Setup                      []lsRule
	Clients                    [][]lsOp
	Delays                     []int   // milliseconds by which the locker's answers are held back, in turn
	Faults                     []Fault // what happens to the requests to the locker, in turn
	Spin                       []int   // how often requests, answers and the stored records yield to other goroutines, in turn
}

func lsGen(limits bool) func(r *vx.R) lsCase {
	return func(r *vx.R) lsCase {
		var c lsCase
		c.Rules, c.Overrides, c.Counters, _ = liPools(r)
		decs := r.Chance(0.5)
		lim := func() int64 {
			if !decs && r.Chance(0.15) {
				return -1
			}
			return vx.Pick[int64](r, 0, 1, 1, 2, 2, 3, 4)
		}
		if limits || r.Chance(0.3) {
			for n := r.Range(1, 3); n > 0; n-- {
				x := lsRule{KV: r.IntN(len(c.Rules)), Limit: lim()}
				for m := vx.Pick(r, 0, 0, 1, 2); m > 0; m-- {
					x.Ovs = append(x.Ovs, lsOvr{r.IntN(len(c.Overrides)), lim()})
				}
				c.Setup = append(c.Setup, x)
			}
		}
		sets := !limits && r.Chance(0.6)
		total := r.Range(2, 13)
		for n := r.Range(2, 6); n > 0 && total > 0; n-- {
			var ops []lsOp
			for m := r.Range(1, 5); m > 0 && total > 0; m-- {
				o := lsOp{Op: "inc", KV: r.IntN(len(c.Counters)), N: 1, Before: vx.Pick(r, 0, 0, 0, 0, 1)}
				if decs && r.Chance(0.3) {
					o.Op = "dec"
				} else if sets && r.Chance(0.2) {
					o.Op, o.N = "set", vx.Pick[int64](r, 0, 1, 2, 5)
				} else if !limits && r.Chance(0.15) {
					o.Op = "get"
				} else if !limits && r.Chance(0.3) {
					o.N = vx.Pick[int64](r, 2, 3)
				}
				if o.Op == "dec" && r.Chance(0.3) {
					o.N = vx.Pick[int64](r, 2, 3)
				}
				if limits && o.Op == "inc" && r.Chance(0.08) {
					o.GiveUp = vx.Pick(r, 1, 30, 100)
				}
				ops = append(ops, o)
				total--
			}
			c.Clients = append(c.Clients, ops)
		}
		if r.Chance(0.4) {
			for n := r.Range(1, 5); n > 0; n-- {
				c.Delays = append(c.Delays, vx.Pick(r, 0, 0, 1, 20, 150))
			}
		}
		if r.Chance(0.6) {
			for n := r.Range(1, 8); n > 0; n-- {
				c.Spin = append(c.Spin, vx.Pick(r, 0, 0, 1, 3, 10, 40))
			}
		}
		if limits && r.Chance(0.2) {
			for n := r.Range(1, 7); n > 0; n-- {
				c.Faults = append(c.Faults, vx.Pick(r, NoFault, NoFault, NoFault, NoFault, Refuse, ServerError, DropAnswer))
			}
		}
		return c
	}
}

// lsGet reads one counter; 0: it is absent
func lsGet(svc *Svc, kv gen.KV) (int64, error) {
	n := len(kv)
	q := gen.Q{Sel: &gen.Sel{Min: &n, Max: &n}}
	for k, v := range kv {
		q.Sel.Conds = append(q.Sel.Conds, gen.Cond{Key: k, Val: v, Op: "=", TR: gen.TR{v.T, v.T}})
	}
	st, b := svc.Do(context.Background(), "GET", "/v1/limiter/counters/query", q.AQ(nil))
	var cs v1limiter.Counters
	if err := json.Unmarshal(b, &cs); st != 200 || err != nil || len(cs) > 1 {
		return 0, fmt.Errorf("reading the counter %s is answered with status %d %s", kv.Canon(), st, b)
	}
	if len(cs) == 0 {
		return 0, nil
	}
	if got := gen.FromKV(cs[0].Spec.DBDefinition.KeyValues).Canon(); got != kv.Canon() {
		return 0, fmt.Errorf("reading the counter %s returned %s", kv.Canon(), got)
	}
	if got := *cs[0].Spec.Properties.Counters; got > 0 {
		return got, nil
	}
	return 0, fmt.Errorf("the counter %s is present with a count of %d", kv.Canon(), *cs[0].Spec.Properties.Counters)
}

type lsDone struct {
	lsOp
	client     int
	start, end int64 // global sequence numbers
	status     int   // 0: the client gave up
}

func lsRun(c lsCase, rec *vx.Rec) error {
	err, left := Bubble(func() error { return lsWorld(c, rec) })
	if err == nil && left {
		err = fmt.Errorf("goroutines of the limiter stay blocked for good after its shutdown")
	}
	return err
}

func lsWorld(c lsCase, rec *vx.Rec) error {
	net := NewNet()
	locker := net.StartLocker(15 * time.Second)
	svc := net.StartLimiter()
	synctest.Wait()
	w := &liWorld{c: liCase{Rules: c.Rules, Overrides: c.Overrides, Counters: c.Counters}, rec: rec, counts: map[string]int64{}, ids: map[string]bool{}, net: net, svc: svc, locker: locker}
	for _, x := range c.Setup {
		n := len(w.rules)
		if err := w.step(liOp{Op: "crule", KV: x.KV, N: x.Limit}); err != nil {
			return err
		}
		if len(w.rules) == n {
			continue
		}
		for _, o := range x.Ovs {
			if err := w.step(liOp{Op: "cov", R: 0, KV: o.KV, N: o.Limit}); err != nil {
				return err
			}
		}
	}
	var seq, turn atomic.Int64
	if len(c.Delays) > 0 {
		net.SetDelay(func(host string, r *http.Request) time.Duration {
			if host != "locker" {
				return 0
			}
			return time.Duration(c.Delays[int(turn.Add(1))%len(c.Delays)]) * time.Millisecond
		})
	}
	if len(c.Faults) > 0 {
		var n atomic.Int64
		net.SetFault(func(host string, r *http.Request) Fault {
			if host != "locker" {
				return NoFault
			}
			return c.Faults[int(n.Add(1))%len(c.Faults)]
		})
	}
	if len(c.Spin) > 0 {
		var n atomic.Int64
		net.SetSpin(func() int { return c.Spin[int(n.Add(1))%len(c.Spin)] })
	}
	var mu sync.Mutex
	var done []lsDone
	var bad error
	var wg sync.WaitGroup
	for ci, ops := range c.Clients {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range ops {
				time.Sleep(time.Duration(o.Before) * 10 * time.Millisecond)
				uri, n := "/v1/limiter/counters", o.N
				if o.Op == "get" {
					s := seq.Add(1)
					n, err := lsGet(svc, c.Counters[o.KV])
					e := seq.Add(1)
					mu.Lock()
					if err != nil && bad == nil {
						bad = err
					}
					o.N = n
					done = append(done, lsDone{o, ci, s, e, 200})
					mu.Unlock()
					continue
				}
				switch o.Op {
				case "dec":
					n = -n
				case "set":
					uri += "/set"
				}
				ctx, cancel := context.WithCancel(context.Background())
				if o.GiveUp > 0 {
					ctx, cancel = context.WithTimeout(context.Background(), time.Duration(o.GiveUp)*time.Millisecond)
				}
				s := seq.Add(1)
				st, b := svc.Do(ctx, "PUT", uri, cntBody(c.Counters[o.KV], n))
				e := seq.Add(1)
				gaveUp := ctx.Err() != nil
				cancel()
				mu.Lock()
				if len(c.Faults) > 0 && o.Op == "inc" && st == 500 {
					st, gaveUp = 0, true // the lock service failed: it may or may not have counted
				}
				if st != 200 && !(st == 409 && o.Op == "inc") && !gaveUp && bad == nil {
					bad = fmt.Errorf("%s of %s by %d was answered with status %d %s", o.Op, c.Counters[o.KV].Canon(), n, st, b)
				}
				if gaveUp && st != 200 && st != 409 {
					st, e = 0, 1<<60 // it may still take effect later
				}
				done = append(done, lsDone{o, ci, s, e, st})
				mu.Unlock()
			}
		}()
	}
	finished := make(chan struct{})
	go func() { wg.Wait(); close(finished) }()
	select {
	case <-finished:
	case <-time.After(time.Hour):
		return fmt.Errorf("a request is never answered")
	}
	net.SetDelay(nil)
	net.SetFault(nil)
	net.SetSpin(nil)
	time.Sleep(10 * time.Second) // requests whose client gave up end, too
	if bad != nil {
		return bad
	}
	if err := net.Err(); err != nil {
		return err
	}
	_, b, err := w.call("GET", "/v1/limiter/counters/query", gen.Q{}.AQ(nil), 200)
	if err != nil {
		return err
	}
	var cs v1limiter.Counters
	if err := json.Unmarshal(b, &cs); err != nil {
		return fmt.Errorf("undecodable counters: %v: %s", err, b)
	}
	final := map[string]int64{}
	for _, x := range cs {
		final[gen.FromKV(x.Spec.DBDefinition.KeyValues).Canon()] = *x.Spec.Properties.Counters
	}
	overlap, refused, accepted := false, 0, 0
	for i, a := range done {
		if a.status == 409 {
			refused++
		} else if a.Op == "inc" && a.status == 200 {
			accepted++
		}
		for _, b := range done[:i] {
			if a.start < b.end && b.start < a.end {
				overlap = true
			}
		}
	}
	if overlap && len(c.Setup) == 0 {
		rec.Nontrivial()
	}
	if overlap && refused > 0 && accepted > 0 {
		rec.Nontrivial()
		rec.Label("refused-and-accepted")
	}
	if !lsLinearizable(w, c, done, final) {
		sort.Slice(done, func(i, j int) bool { return done[i].start < done[j].start })
		var s []string
		for _, d := range done {
			s = append(s, fmt.Sprintf("[%d..%d] client %d %s %s %d -> %d", d.start, d.end, d.client, d.Op, c.Counters[d.KV].Canon(), d.N, d.status))
		}
		var rs []string
		for _, kv := range c.Counters {
			rs = append(rs, kv.Canon()+": "+w.situation(kv))
		}
		return fmt.Errorf("no order of the requests explains the answers and the final counts %v; limits: %s; requests: %s", final, strings.Join(rs, " | "), strings.Join(s, "; "))
	}
	return liEnd(net, locker, svc)
}

// lsLinearizable looks for an order of the requests, compatible with real time, in which the model gives every answer
// and ends with the final counts.
func lsLinearizable(w *liWorld, c lsCase, ops []lsDone, final map[string]int64) bool {
	by := w.byCanon()
	seen := map[string]bool{}
	sets := false
	for _, o := range ops {
		sets = sets || o.Op == "set"
	}
	var dfs func(mask uint64, counts map[string]int64) bool
	dfs = func(mask uint64, counts map[string]int64) bool {
		left := false
		minEnd := int64(1) << 62
		for i, o := range ops {
			if mask&(1<<i) == 0 {
				if o.status != 0 {
					left = true
				}
				minEnd = min(minEnd, o.end)
			}
		}
		if !left {
			same := len(counts) == len(final)
			for k, n := range counts {
				if final[k] != n {
					same = false
				}
			}
			if same {
				return true
			}
		}
		key := fmt.Sprint(mask, counts)
		if seen[key] {
			return false
		}
		seen[key] = true
		for i, o := range ops {
			if mask&(1<<i) != 0 || o.start > minEnd {
				continue
			}
			kv := c.Counters[o.KV]
			k := kv.Canon()
			next := map[string]int64{}
			for a, b := range counts {
				next[a] = b
			}
			switch o.Op {
			case "inc":
				ok, _ := liAllows(w.rules, counts, by, kv)
				if sets && o.status != 0 { // a set between decision and count is fine: only the adding up is judged
					ok = o.status == 200
				}
				if o.status == 200 && !ok || o.status == 409 && ok || o.status == 0 && !ok {
					continue
				}
				if ok {
					next[k] += o.N
				}
			case "dec":
				if n, ok := next[k]; ok {
					if n-o.N <= 0 {
						delete(next, k)
					} else {
						next[k] = n - o.N
					}
				}
			case "get":
				if next[k] != o.N {
					continue
				}
			case "set":
				if o.N > 0 {
					next[k] = o.N
				} else {
					delete(next, k)
				}
			}
			if dfs(mask|1<<i, next) {
				return true
			}
		}
		return false
	}
	return dfs(0, map[string]int64{})
}

func lsShrink(c lsCase) []lsCase {
	var out []lsCase
	for i := range c.Clients {
		d := c
		d.Clients = append(append([][]lsOp{}, c.Clients[:i]...), c.Clients[i+1:]...)
		out = append(out, d)
	}
	for _, x := range vx.Cuts(c.Setup) {
		d := c
		d.Setup = x
		out = append(out, d)
	}
	if len(c.Delays) > 0 {
		d := c
		d.Delays = nil
		out = append(out, d)
	}
	if len(c.Faults) > 0 {
		d := c
		d.Faults = nil
		out = append(out, d)
	}
	for i := range c.Clients {
		for _, x := range vx.Cuts(c.Clients[i]) {
			d := c
			d.Clients = append([][]lsOp{}, c.Clients...)
			d.Clients[i] = x
			out = append(out, d)
		}
	}
	for i, x := range c.Setup {
		if len(x.Ovs) > 0 {
			d := c
			d.Setup = append([]lsRule{}, c.Setup...)
			d.Setup[i].Ovs = x.Ovs[:len(x.Ovs)-1]
			out = append(out, d)
		}
	}
	return out
}

// ---- rules and overrides changed by many clients at once ----

type lrCase struct {
	Rule, Override gen.KV
	Clients        [][]string // crule, drule, cov, dov, inc
}

func lrRun(c lrCase, rec *vx.Rec) error {
	err, left := Bubble(func() error {
		net := NewNet()
		locker := net.StartLocker(15 * time.Second)
		svc := net.StartLimiter()
		synctest.Wait()
		var mu sync.Mutex
		var bad error
		fail := func(format string, a ...any) {
			mu.Lock()
			if bad == nil {
				bad = fmt.Errorf(format, a...)
			}
			mu.Unlock()
		}
		var rules, ovs []string // ids created, [rule/override]
		deleted := map[string]bool{}
		// creations alone: at most one of them may succeed between deletions
		var wg sync.WaitGroup
		var created, ovCreated atomic.Int64
		anyDelete := false
		for _, ops := range c.Clients {
			for _, o := range ops {
				if o == "drule" || o == "dov" {
					anyDelete = true
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range ops {
					mu.Lock()
					rid, oid := "", ""
					if len(rules) > 0 {
						rid = rules[len(rules)-1]
					}
					if len(ovs) > 0 {
						oid = ovs[len(ovs)-1]
					}
					mu.Unlock()
					switch {
					case o == "crule":
						st, b := svc.Do(context.Background(), "POST", "/v1/limiter/rules", ruleBody(c.Rule, 3))
						switch st {
						case 201:
							var r v1limiter.Rule
							_ = json.Unmarshal(b, &r)
							created.Add(1)
							mu.Lock()
							rules = append(rules, r.State.ID)
							mu.Unlock()
						case 409:
						default:
							fail("creating a rule was answered with status %d %s", st, b)
						}
					case o == "drule" && rid != "":
						st, b := svc.Do(context.Background(), "DELETE", "/v1/limiter/rules/"+rid, nil)
						switch st {
						case 204:
							mu.Lock()
							deleted[rid] = true
							mu.Unlock()
						case 404, 409:
						default:
							fail("deleting a rule was answered with status %d %s", st, b)
						}
					case o == "cov" && rid != "":
						st, b := svc.Do(context.Background(), "POST", "/v1/limiter/rules/"+rid+"/overrides", ovBody(c.Override, 2))
						switch st {
						case 201:
							var r v1limiter.Override
							_ = json.Unmarshal(b, &r)
							ovCreated.Add(1)
							mu.Lock()
							ovs = append(ovs, rid+"/overrides/"+r.State.ID)
							mu.Unlock()
						case 404, 409:
						default:
							fail("creating an override was answered with status %d %s", st, b)
						}
					case o == "dov" && oid != "":
						st, b := svc.Do(context.Background(), "DELETE", "/v1/limiter/rules/"+oid, nil)
						switch st {
						case 204:
							mu.Lock()
							deleted[oid] = true
							mu.Unlock()
						case 404, 409:
						default:
							fail("deleting an override was answered with status %d %s", st, b)
						}
					case o == "inc":
						if st, b := svc.Do(context.Background(), "PUT", "/v1/limiter/counters", cntBody(gen.KV{"a": gen.Int(1), "z": gen.Int(1)}, 1)); st != 200 && st != 409 {
							fail("an increment was answered with status %d %s", st, b)
						}
					}
				}
			}()
		}
		finished := make(chan struct{})
		go func() { wg.Wait(); close(finished) }()
		select {
		case <-finished:
		case <-time.After(time.Hour):
			return fmt.Errorf("a request is never answered")
		}
		if bad != nil {
			return bad
		}
		if err := net.Err(); err != nil {
			return err
		}
		if !anyDelete && (created.Load() > 1 || ovCreated.Load() > 1) {
			return fmt.Errorf("%d rules and %d overrides with the same key-values were created", created.Load(), ovCreated.Load())
		}
		if created.Load() > 0 {
			rec.Nontrivial()
		}
		// what was not deleted is there, what was deleted is gone; at most one rule with these key-values
		st, b := svc.Do(context.Background(), "GET", "/v1/limiter/rules/query", gen.Q{}.AQ(nil))
		var rs v1limiter.Rules
		if st != 200 || json.Unmarshal(b, &rs) != nil {
			return fmt.Errorf("querying the rules: %d %s", st, b)
		}
		var want, got []string
		for _, id := range rules {
			if !deleted[id] {
				want = append(want, id)
			}
		}
		for _, r := range rs {
			got = append(got, r.State.ID)
		}
		if err := diff("rules that exist after all requests", want, got); err != nil {
			return err
		}
		for _, id := range rules {
			st, b := svc.Do(context.Background(), "GET", "/v1/limiter/rules/"+id+"/overrides/query", gen.Q{}.AQ(nil))
			if deleted[id] {
				if st != 404 {
					return fmt.Errorf("the overrides of a deleted rule are answered with %d %s", st, b)
				}
				continue
			}
			var os v1limiter.Overrides
			if st != 200 || json.Unmarshal(b, &os) != nil {
				return fmt.Errorf("querying the overrides: %d %s", st, b)
			}
			want, got = nil, nil
			for _, o := range ovs {
				if strings.HasPrefix(o, id+"/") && !deleted[o] {
					want = append(want, o)
				}
			}
			for _, o := range os {
				got = append(got, id+"/overrides/"+o.State.ID)
			}
			if err := diff("overrides that exist after all requests", want, got); err != nil {
				return err
			}
		}
		return liEnd(net, locker, svc)
	})
	if err == nil && left {
		err = fmt.Errorf("goroutines of the limiter stay blocked for good after its shutdown")
	}
	return err
}

func lrGen(r *vx.R) lrCase {
	c := lrCase{Rule: gen.KV{"a": vx.Pick(r, gen.AnyV(), gen.Int(1))}}
	c.Override = gen.KV{"a": gen.Int(1), "z": vx.Pick(r, gen.AnyV(), gen.Int(1))}
	ws := []int{3, 2, 3, 2, 1}
	if r.Chance(0.4) {
		ws = []int{3, 0, 3, 0, 1}
	}
	for n := r.Range(2, 6); n > 0; n-- {
		var ops []string
		for m := r.Range(1, 5); m > 0; m-- {
			ops = append(ops, []string{"crule", "drule", "cov", "dov", "inc"}[r.Weighted(ws...)])
		}
		c.Clients = append(c.Clients, ops)
	}
	return c
}

func lrShrink(c lrCase) []lrCase {
	var out []lrCase
	for i := range c.Clients {
		d := c
		d.Clients = append(append([][]string{}, c.Clients[:i]...), c.Clients[i+1:]...)
		out = append(out, d)
		for _, x := range vx.Cuts(c.Clients[i]) {
			d := c
			d.Clients = append([][]string{}, c.Clients...)
			d.Clients[i] = x
			out = append(out, d)
		}
	}
	return out
}

func liProp(profile, rule string, weight int, need ...string) vx.Runner {
	return vx.Prop[liCase]{Name: "history", Rule: rule, Weight: weight, Gen: liGen(profile), Run: liRun(need), Shrink: liShrink, Tries: 2}
}
func lsProp(name string, limits bool, rule string, weight int) vx.Runner {
	return vx.Prop[lsCase]{Name: name, Rule: rule, Weight: weight, Gen: lsGen(limits), Run: lsRun, Shrink: lsShrink, Tries: 10}
}

func TestC15(t *testing.T) {
	curT = t
	vx.Check(t, liProp("C15", "an increment was refused and one was allowed below a limit", 1, "refused", "allowed-below-limit"))
}
func TestC16(t *testing.T) {
	curT = t
	vx.Check(t, liProp("C16", "a counter was found by a query and one disappeared at zero", 1, "counters-found", "count-gone"),
		lsProp("storm", false, "requests overlapped", 1))
}
func TestC17(t *testing.T) {
	curT = t
	vx.Check(t, lsProp("storm", true, "requests overlapped, and some were refused and some accepted", 1))
}
func TestC18(t *testing.T) {
	curT = t
	vx.Check(t, liProp("C18", "an override existed and a record was updated or deleted", 2, "override"),
		vx.Prop[lrCase]{Name: "race", Rule: "a rule was created", Weight: 1, Gen: lrGen, Run: lrRun, Shrink: lrShrink, Tries: 10})
}
