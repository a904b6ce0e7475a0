package models

import (
	"encoding/base64"
	"encoding/json"
	"math"
	"strconv"
	"time"

	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"
	"github.com/DanLavine/willow/pkg/models/api"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// pool is what an object is built from; draws beyond its end give small defaults, so that shorter pools are simpler
// objects.
type pool struct {
	KVs   []gen.KV // without 'any'
	Anys  []gen.KV // possibly with 'any'
	Qs    []gen.Q
	Ms    []gen.M
	Strs  []string
	Nums  []int64
	Bools []bool
	IDs   []string // ids named by the queries
}

type cursor struct {
	p                     pool
	kv, an, q, m, s, n, b int
}

func draw[T any](xs []T, i *int, def T) T {
	if *i < len(xs) {
		*i++
		return xs[*i-1]
	}
	return def
}
func (c *cursor) kvs() gen.KV  { return draw(c.p.KVs, &c.kv, gen.KV{"k": gen.S("v")}) }
func (c *cursor) anys() gen.KV { return draw(c.p.Anys, &c.an, gen.KV{"k": gen.AnyV()}) }
func (c *cursor) query() gen.Q { return draw(c.p.Qs, &c.q, gen.Q{}) }
func (c *cursor) match() gen.M { return draw(c.p.Ms, &c.m, gen.AnyMatch(gen.KV{"k": gen.S("v")})) }
func (c *cursor) bool() bool   { return draw(c.p.Bools, &c.b, false) }
func (c *cursor) num(lo, hi int64) int64 {
	x := draw(c.p.Nums, &c.n, lo)
	return min(max(x, lo), hi)
}
func (c *cursor) str() string { // never empty
	if s := draw(c.p.Strs, &c.s, "x"); s != "" {
		return s
	}
	return "x"
}

const (
	minI = math.MinInt64
	maxI = math.MaxInt64
)

func genPool(r *vx.R) pool {
	kv := func(withAny bool) gen.KV {
		out := gen.KV{}
		for n := 1 + r.IntN(4); n > 0; n-- {
			t := vx.PickS(r, gen.Concrete)
			if withAny && r.Chance(0.3) {
				t = gen.Any
			}
			k := wideString(r)
			if r.Chance(0.7) {
				k = vx.Pick(r, "k", "a", "b", "_willow_x", "")
			}
			out[k] = wideV(r, t)
		}
		return out
	}
	p := pool{IDs: []string{"id-0", wideString(r), "0"}}
	for i := r.IntN(4); i > 0; i-- {
		p.KVs = append(p.KVs, kv(false))
		p.Anys = append(p.Anys, kv(true))
		p.Strs = append(p.Strs, wideString(r), wideString(r))
		o := gen.QOpts{Keys: []string{"a", "b", wideString(r)}, Types: all, N: 3, IDs: len(p.IDs), Depth: 2}
		q := gen.GenQ(r, o)
		widenQ(r, &q)
		p.Qs = append(p.Qs, q)
		m := gen.GenMatch(r, kv(true), o, 4)
		p.Ms = append(p.Ms, m)
	}
	for i := r.IntN(10); i > 0; i-- {
		p.Bools = append(p.Bools, r.Bool())
		p.Nums = append(p.Nums, vx.Pick(r, int64(r.Uint64()), 0, 1, -1, 2, maxI, minI, 1e9, int64(r.IntN(100)), int64(r.Uint64()>>r.IntN(64))))
	}
	return p
}

func widenQ(r *vx.R, q *gen.Q) {
	if q.Sel != nil {
		for i := range q.Sel.Conds {
			c := &q.Sel.Conds[i]
			if c.Val.T != gen.Any && r.Chance(0.5) {
				c.Val = wideV(r, c.Val.T)
			}
		}
	}
	for i := range q.And {
		widenQ(r, &q.And[i])
	}
	for i := range q.Or {
		widenQ(r, &q.Or[i])
	}
}

// ---- the documented wire form, written independently of the repository's encoders ----

type obj = map[string]any

func num(i int64) json.Number   { return json.Number(strconv.FormatInt(i, 10)) }
func unum(i uint64) json.Number { return json.Number(strconv.FormatUint(i, 10)) }

func wireV(v gen.V) obj {
	if v.T == gen.Any {
		return obj{"Type": num(gen.Any), "Data": nil}
	}
	d := v.D
	switch v.T {
	case gen.F32:
		f, _ := strconv.ParseFloat(d, 32)
		d = strconv.FormatFloat(f, 'E', -1, 32)
	case gen.F64:
		f, _ := strconv.ParseFloat(d, 64)
		d = strconv.FormatFloat(f, 'E', -1, 64)
	}
	return obj{"Type": num(int64(v.T)), "Data": d}
}
func wireKV(kv gen.KV) obj {
	out := obj{}
	for k, v := range kv {
		out[k] = wireV(v)
	}
	return out
}
func wireTR(t gen.TR) obj {
	return obj{"MinDataType": num(int64(t.Min)), "MaxDataType": num(int64(t.Max))}
}

func wireQ(q gen.Q, ids []string) obj {
	out := obj{}
	if q.Sel != nil {
		s := obj{}
		if len(q.Sel.IDs) > 0 {
			l := []any{}
			for _, i := range q.Sel.IDs {
				l = append(l, idOf(ids)(i))
			}
			s["IDs"] = l
		}
		if len(q.Sel.Conds) > 0 {
			m := obj{}
			for _, c := range q.Sel.Conds {
				m[c.Key] = obj{"Value": wireV(c.Val), "Comparison": c.Op, "TypeRestrictions": wireTR(c.TR)}
			}
			s["KeyValues"] = m
		}
		if q.Sel.Min != nil {
			s["MinNumberOfKeyValues"] = num(int64(*q.Sel.Min))
		}
		if q.Sel.Max != nil {
			s["MaxNumberOfKeyValues"] = num(int64(*q.Sel.Max))
		}
		out["Selection"] = s
	}
	list := func(name string, qs []gen.Q) {
		if len(qs) > 0 {
			l := []any{}
			for _, x := range qs {
				l = append(l, wireQ(x, ids))
			}
			out[name] = l
		}
	}
	list("And", q.And)
	list("Or", q.Or)
	return out
}
func idOf(ids []string) func(int) string {
	return func(i int) string {
		if i >= 0 && i < len(ids) {
			return ids[i]
		}
		return "no-such-id-" + strconv.Itoa(i)
	}
}

// plain drops empty (as opposed to absent) lists: the wire does not tell them apart
func plain(q gen.Q) gen.Q {
	out := gen.Q{Sel: q.Sel}
	for _, x := range q.And {
		out.And = append(out.And, plain(x))
	}
	for _, x := range q.Or {
		out.Or = append(out.Or, plain(x))
	}
	return out
}
func wireM(m gen.M) obj {
	kv := obj{}
	for k, v := range m.KV {
		kv[k] = obj{"Value": wireV(v.Val), "TypeRestrictions": wireTR(v.TR)}
	}
	out := obj{"KeyValues": kv}
	if m.Min != nil {
		out["MinNumberOfPermutationKeyValues"] = num(int64(*m.Min))
	}
	if m.Max != nil {
		out["MaxNumberOfPermutationKeyValues"] = num(int64(*m.Max))
	}
	return out
}

// ---- kinds of API objects ----

type kind struct {
	name  string
	spec  bool // request form: only the specification may be set
	fresh func() api.ApiModel
	build func(c *cursor) (api.ApiModel, any)
	valid func(m any) bool
}

func ptr[T any](x T) *T { return &x }

func list[T any](c *cursor, one func(c *cursor) (T, any)) ([]T, any) {
	out, w := []T{}, []any{}
	for n := c.num(0, 3); n > 0; n-- {
		o, x := one(c)
		out, w = append(out, o), append(w, x)
	}
	return out, w
}

func lock(c *cursor, full bool) (*v1locker.Lock, any) {
	kv := c.kvs()
	l := &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: kv.DT()}}}
	spec := obj{"DBDefinition": obj{"KeyValues": wireKV(kv)}}
	w := obj{"Spec": spec}
	if c.bool() {
		l.Spec.Properties = &v1locker.LockProperties{}
		props := obj{}
		if c.bool() {
			d := c.num(1, maxI)
			l.Spec.Properties.Timeout = ptr(time.Duration(d))
			props["Timeout"] = num(d)
		}
		spec["Properties"] = props
	}
	if full {
		l.State = &v1locker.LockState{LockID: c.str(), SessionID: c.str(), TimeTillExipre: time.Duration(c.num(0, maxI)), LocksHeldOrWaiting: uint64(c.num(1, maxI))}
		w["State"] = obj{"LockID": l.State.LockID, "SessionID": l.State.SessionID, "TimeTillExipre": num(int64(l.State.TimeTillExipre)), "LocksHeldOrWaiting": unum(l.State.LocksHeldOrWaiting)}
	}
	return l, w
}

func override(c *cursor, full bool) (*v1limiter.Override, any) {
	kv, lim := c.anys(), c.num(-1, maxI)
	o := &v1limiter.Override{Spec: &v1limiter.OverrideSpec{DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: kv.DT()}, Properties: &v1limiter.OverrideProperties{Limit: &lim}}}
	w := obj{"Spec": obj{"DBDefinition": obj{"GroupByKeyValues": wireKV(kv)}, "Properties": obj{"Limit": num(lim)}}}
	if full {
		o.State = &v1limiter.OverrideState{ID: c.str(), Deleting: c.bool()}
		w["State"] = obj{"ID": o.State.ID, "Deleting": o.State.Deleting}
	}
	return o, w
}

func rule(c *cursor, full bool) (*v1limiter.Rule, any) {
	kv, lim := c.anys(), c.num(-1, maxI)
	o := &v1limiter.Rule{Spec: &v1limiter.RuleSpec{DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: kv.DT()}, Properties: &v1limiter.RuleProperties{Limit: &lim}}}
	w := obj{"Spec": obj{"DBDefinition": obj{"GroupByKeyValues": wireKV(kv)}, "Properties": obj{"Limit": num(lim)}}}
	if full {
		o.State = &v1limiter.RuleState{ID: c.str()}
		st := obj{"ID": o.State.ID}
		if ovs, wo := list(c, func(c *cursor) (*v1limiter.Override, any) { return override(c, true) }); len(ovs) > 0 {
			o.State.Overrides = ovs
			st["Overrides"] = wo
		}
		w["State"] = st
	}
	return o, w
}

func counter(c *cursor, full bool) (*v1limiter.Counter, any) {
	kv, n := c.kvs(), c.num(minI, maxI)
	o := &v1limiter.Counter{Spec: &v1limiter.CounterSpec{DBDefinition: &v1limiter.CounterDBDefinition{KeyValues: kv.DT()}, Properties: &v1limiter.CounteProperties{Counters: &n}}}
	w := obj{"Spec": obj{"DBDefinition": obj{"KeyValues": wireKV(kv)}, "Properties": obj{"Counters": num(n)}}}
	if full {
		o.State = &v1limiter.CounterState{Deleting: c.bool()}
		w["State"] = obj{"Deleting": o.State.Deleting}
	}
	return o, w
}

func queue(c *cursor, full bool) (*v1willow.Queue, any) {
	name := c.str()
	o := &v1willow.Queue{Spec: &v1willow.QueueSpec{DBDefinition: &v1willow.QueueDBDefinition{Name: &name}}}
	spec := obj{"DBDefinition": obj{"Name": name}}
	w := obj{"Spec": spec}
	if c.bool() {
		n := c.num(-1, maxI)
		o.Spec.Properties = &v1willow.QueueProperties{MaxItems: &n}
		spec["Properties"] = obj{"MaxItems": num(n)}
	}
	if full {
		o.State = &v1willow.QueueState{Deleting: c.bool()}
		w["State"] = obj{"Deleting": o.State.Deleting}
	}
	return o, w
}

func item(c *cursor, full bool) (*v1willow.Item, any) {
	kv, data := c.kvs(), []byte(c.str())
	if c.bool() {
		data = append(data, 0xff, 0, 0x80)
	}
	up, at, pos, to := c.bool(), uint64(c.num(minI, maxI)), "front", c.num(1, maxI)
	if c.bool() {
		pos = "back"
	}
	o := &v1willow.Item{Spec: &v1willow.ItemSpec{DBDefinition: &v1willow.ItemDBDefinition{KeyValues: kv.DT()},
		Properties: &v1willow.ItemProperties{Data: data, Updateable: &up, RetryAttempts: &at, RetryPosition: &pos, TimeoutDuration: ptr(time.Duration(to))}}}
	w := obj{"Spec": obj{"DBDefinition": obj{"KeyValues": wireKV(kv)}, "Properties": obj{"Data": base64.StdEncoding.EncodeToString(data), "Updateable": up,
		"RetryAttempts": unum(at), "RetryPosition": pos, "TimeoutDuration": num(to)}}}
	if full {
		o.State = &v1willow.ItemState{ID: c.str()}
		w["State"] = obj{"ID": o.State.ID}
	}
	return o, w
}

func channel(c *cursor) (*v1willow.Channel, any) {
	kv := c.kvs()
	o := &v1willow.Channel{Spec: &v1willow.ChannelSpec{DBDefinition: &v1willow.ChannelDBDefinition{KeyValues: kv.DT()}},
		State: &v1willow.ChannelState{EnqueuedItems: c.num(0, maxI/2), ProcessingItems: c.num(1, maxI/2)}}
	return o, obj{"Spec": obj{"DBDefinition": obj{"KeyValues": wireKV(kv)}}, "State": obj{"EnqueuedItems": num(o.State.EnqueuedItems), "ProcessingItems": num(o.State.ProcessingItems)}}
}

// ---- documented validity, written independently ----

func okEV(e datatypes.EncapsulatedValue, anyAllowed bool) bool {
	if e.Type == datatypes.T_any {
		return anyAllowed && e.Data == nil
	}
	v := gen.FromEV(e)
	if len(v.D) > 0 && v.D[0] == '?' && v.T != gen.Str {
		return false
	}
	var t int
	switch d := e.Data.(type) {
	case uint8:
		t = gen.U8
	case uint16:
		t = gen.U16
	case uint32:
		t = gen.U32
	case uint64:
		t = gen.U64
	case uint:
		t = gen.U
	case int8:
		t = gen.I8
	case int16:
		t = gen.I16
	case int32:
		t = gen.I32
	case int64:
		t = gen.I64
	case int:
		t = gen.I
	case float32:
		t = gen.F32
		if d != d {
			return false
		}
	case float64:
		t = gen.F64
		if d != d {
			return false
		}
	case string:
		t = gen.Str
	default:
		return false
	}
	return t == int(e.Type)
}
func okKV(kv datatypes.KeyValues, anyAllowed bool) bool {
	for _, v := range kv {
		if !okEV(v, anyAllowed) {
			return false
		}
	}
	return len(kv) > 0
}
func okType(t datatypes.DataType) bool { return (t >= gen.U8 && t <= gen.Str) || t == gen.Any }
func okTR(t v1common.TypeRestrictions) bool {
	return okType(t.MinDataType) && okType(t.MaxDataType) && t.MinDataType <= t.MaxDataType
}
func okQ(q *queryassociatedaction.AssociatedActionQuery) bool {
	if q == nil {
		return false
	}
	if s := q.Selection; s != nil {
		if len(s.IDs) == 0 && len(s.KeyValues) == 0 && s.MinNumberOfKeyValues == nil && s.MaxNumberOfKeyValues == nil {
			return false
		}
		for _, v := range s.KeyValues {
			switch v.Comparison {
			case "=", "!=":
				if !okEV(v.Value, true) {
					return false
				}
			case "<", "<=", ">", ">=":
				if !okEV(v.Value, false) {
					return false
				}
			default:
				return false
			}
			if !okTR(v.TypeRestrictions) {
				return false
			}
		}
		if s.MinNumberOfKeyValues != nil && s.MaxNumberOfKeyValues != nil && *s.MaxNumberOfKeyValues < *s.MinNumberOfKeyValues {
			return false
		}
	}
	for _, x := range append(append([]*queryassociatedaction.AssociatedActionQuery{}, q.And...), q.Or...) {
		if !okQ(x) {
			return false
		}
	}
	return true
}
func okM(m *querymatchaction.MatchActionQuery) bool {
	for _, v := range m.KeyValues {
		if !okEV(v.Value, true) || !okTR(v.TypeRestrictions) {
			return false
		}
	}
	if m.MinNumberOfPermutationKeyValues != nil && m.MaxNumberOfPermutationKeyValues != nil && *m.MaxNumberOfPermutationKeyValues < *m.MinNumberOfPermutationKeyValues {
		return false
	}
	return len(m.KeyValues) > 0
}
func okLock(l *v1locker.Lock, full bool) bool {
	if l == nil || l.Spec == nil || l.Spec.DBDefinition == nil || !okKV(l.Spec.DBDefinition.KeyValues, false) {
		return false
	}
	if p := l.Spec.Properties; p != nil && p.Timeout != nil && *p.Timeout <= 0 {
		return false
	}
	if full {
		return l.State != nil && l.State.LockID != "" && l.State.SessionID != "" && l.State.LocksHeldOrWaiting > 0
	}
	return l.State == nil
}
func okOverride(o *v1limiter.Override, full bool) bool {
	return o != nil && o.Spec != nil && o.Spec.DBDefinition != nil && okKV(o.Spec.DBDefinition.GroupByKeyValues, true) &&
		o.Spec.Properties != nil && okLimit(o.Spec.Properties.Limit) && (!full || o.State != nil)
}
func okLimit(l *int64) bool { return l != nil && *l >= -1 }
func okRule(o *v1limiter.Rule, full bool) bool {
	if !(o != nil && o.Spec != nil && o.Spec.DBDefinition != nil && okKV(o.Spec.DBDefinition.GroupByKeyValues, true) && o.Spec.Properties != nil && okLimit(o.Spec.Properties.Limit)) {
		return false
	}
	if full && o.State != nil {
		return okAll(o.State.Overrides, func(x *v1limiter.Override) bool { return okOverride(x, true) })
	}
	return true
}
func okCounter(o *v1limiter.Counter, full bool) bool {
	return o != nil && o.Spec != nil && o.Spec.DBDefinition != nil && okKV(o.Spec.DBDefinition.KeyValues, false) &&
		o.Spec.Properties != nil && o.Spec.Properties.Counters != nil && (!full || o.State != nil)
}
func okQueue(o *v1willow.Queue, full bool) bool {
	if !(o != nil && o.Spec != nil && o.Spec.DBDefinition != nil && o.Spec.DBDefinition.Name != nil && *o.Spec.DBDefinition.Name != "") {
		return false
	}
	if p := o.Spec.Properties; p != nil && !okLimit(p.MaxItems) {
		return false
	}
	return full == (o.State != nil)
}
func okItem(o *v1willow.Item, full bool) bool {
	if !(o != nil && o.Spec != nil && o.Spec.DBDefinition != nil && okKV(o.Spec.DBDefinition.KeyValues, false) && o.Spec.Properties != nil) {
		return false
	}
	p := o.Spec.Properties
	if len(p.Data) == 0 || p.Updateable == nil || p.RetryAttempts == nil || p.RetryPosition == nil || p.TimeoutDuration == nil {
		return false
	}
	if *p.RetryPosition != "front" && *p.RetryPosition != "back" || *p.TimeoutDuration <= 0 {
		return false
	}
	if full {
		return o.State != nil && o.State.ID != ""
	}
	return o.State == nil
}
func okChannel(o *v1willow.Channel) bool {
	return o != nil && o.Spec != nil && o.Spec.DBDefinition != nil && okKV(o.Spec.DBDefinition.KeyValues, false) &&
		o.State != nil && o.State.EnqueuedItems+o.State.ProcessingItems != 0
}
func okAll[T any](xs []*T, ok func(*T) bool) bool {
	for _, x := range xs {
		if !ok(x) {
			return false
		}
	}
	return true
}

var kinds = []kind{
	{"lock request", true, func() api.ApiModel { return &v1locker.Lock{} }, func(c *cursor) (api.ApiModel, any) { o, w := lock(c, false); return o, w },
		func(m any) bool { return okLock(m.(*v1locker.Lock), false) }},
	{"lock", false, func() api.ApiModel { return &v1locker.Lock{} }, func(c *cursor) (api.ApiModel, any) { o, w := lock(c, true); return o, w },
		func(m any) bool { return okLock(m.(*v1locker.Lock), true) }},
	{"locks", false, func() api.ApiModel { return &v1locker.Locks{} }, func(c *cursor) (api.ApiModel, any) {
		o, w := list(c, func(c *cursor) (*v1locker.Lock, any) { return lock(c, true) })
		return (*v1locker.Locks)(&o), w
	}, func(m any) bool {
		return okAll(*m.(*v1locker.Locks), func(x *v1locker.Lock) bool { return okLock(x, true) })
	}},
	{"lock claim", false, func() api.ApiModel { return &v1locker.LockClaim{} }, func(c *cursor) (api.ApiModel, any) {
		s := c.str()
		return &v1locker.LockClaim{SessionID: s}, obj{"SessionID": s}
	}, func(m any) bool { return m.(*v1locker.LockClaim).SessionID != "" }},
	{"rule request", true, func() api.ApiModel { return &v1limiter.Rule{} }, func(c *cursor) (api.ApiModel, any) { o, w := rule(c, false); return o, w },
		func(m any) bool { return okRule(m.(*v1limiter.Rule), false) }},
	{"rule", false, func() api.ApiModel { return &v1limiter.Rule{} }, func(c *cursor) (api.ApiModel, any) { o, w := rule(c, true); return o, w },
		func(m any) bool { return okRule(m.(*v1limiter.Rule), true) }},
	{"rules", false, func() api.ApiModel { return &v1limiter.Rules{} }, func(c *cursor) (api.ApiModel, any) {
		o, w := list(c, func(c *cursor) (*v1limiter.Rule, any) { return rule(c, true) })
		return (*v1limiter.Rules)(&o), w
	}, func(m any) bool {
		return okAll(*m.(*v1limiter.Rules), func(x *v1limiter.Rule) bool { return okRule(x, true) })
	}},
	{"rule properties", false, func() api.ApiModel { return &v1limiter.RuleProperties{} }, func(c *cursor) (api.ApiModel, any) {
		n := c.num(-1, maxI)
		return &v1limiter.RuleProperties{Limit: &n}, obj{"Limit": num(n)}
	}, func(m any) bool { return okLimit(m.(*v1limiter.RuleProperties).Limit) }},
	{"override request", true, func() api.ApiModel { return &v1limiter.Override{} }, func(c *cursor) (api.ApiModel, any) { o, w := override(c, false); return o, w },
		func(m any) bool { return okOverride(m.(*v1limiter.Override), false) }},
	{"override", false, func() api.ApiModel { return &v1limiter.Override{} }, func(c *cursor) (api.ApiModel, any) { o, w := override(c, true); return o, w },
		func(m any) bool { return okOverride(m.(*v1limiter.Override), true) }},
	{"overrides", false, func() api.ApiModel { return &v1limiter.Overrides{} }, func(c *cursor) (api.ApiModel, any) {
		o, w := list(c, func(c *cursor) (*v1limiter.Override, any) { return override(c, true) })
		return (*v1limiter.Overrides)(&o), w
	}, func(m any) bool {
		return okAll(*m.(*v1limiter.Overrides), func(x *v1limiter.Override) bool { return okOverride(x, true) })
	}},
	{"override properties", false, func() api.ApiModel { return &v1limiter.OverrideProperties{} }, func(c *cursor) (api.ApiModel, any) {
		n := c.num(-1, maxI)
		return &v1limiter.OverrideProperties{Limit: &n}, obj{"Limit": num(n)}
	}, func(m any) bool { return okLimit(m.(*v1limiter.OverrideProperties).Limit) }},
	{"counter request", true, func() api.ApiModel { return &v1limiter.Counter{} }, func(c *cursor) (api.ApiModel, any) { o, w := counter(c, false); return o, w },
		func(m any) bool { return okCounter(m.(*v1limiter.Counter), false) }},
	{"counter", false, func() api.ApiModel { return &v1limiter.Counter{} }, func(c *cursor) (api.ApiModel, any) { o, w := counter(c, true); return o, w },
		func(m any) bool { return okCounter(m.(*v1limiter.Counter), true) }},
	{"counters", false, func() api.ApiModel { return &v1limiter.Counters{} }, func(c *cursor) (api.ApiModel, any) {
		o, w := list(c, func(c *cursor) (*v1limiter.Counter, any) { return counter(c, true) })
		return (*v1limiter.Counters)(&o), w
	}, func(m any) bool {
		return okAll(*m.(*v1limiter.Counters), func(x *v1limiter.Counter) bool { return okCounter(x, true) })
	}},
	{"queue request", true, func() api.ApiModel { return &v1willow.Queue{} }, func(c *cursor) (api.ApiModel, any) { o, w := queue(c, false); return o, w },
		func(m any) bool { return okQueue(m.(*v1willow.Queue), false) }},
	{"queue", false, func() api.ApiModel { return &v1willow.Queue{} }, func(c *cursor) (api.ApiModel, any) { o, w := queue(c, true); return o, w },
		func(m any) bool { return okQueue(m.(*v1willow.Queue), true) }},
	{"queues", false, func() api.ApiModel { return &v1willow.Queues{} }, func(c *cursor) (api.ApiModel, any) {
		o, w := list(c, func(c *cursor) (*v1willow.Queue, any) { return queue(c, true) })
		return (*v1willow.Queues)(&o), w
	}, func(m any) bool {
		return okAll(*m.(*v1willow.Queues), func(x *v1willow.Queue) bool { return okQueue(x, true) })
	}},
	{"queue properties", false, func() api.ApiModel { return &v1willow.QueueProperties{} }, func(c *cursor) (api.ApiModel, any) {
		n := c.num(-1, maxI)
		return &v1willow.QueueProperties{MaxItems: &n}, obj{"MaxItems": num(n)}
	}, func(m any) bool { return okLimit(m.(*v1willow.QueueProperties).MaxItems) }},
	{"item request", true, func() api.ApiModel { return &v1willow.Item{} }, func(c *cursor) (api.ApiModel, any) { o, w := item(c, false); return o, w },
		func(m any) bool { return okItem(m.(*v1willow.Item), false) }},
	{"item", false, func() api.ApiModel { return &v1willow.Item{} }, func(c *cursor) (api.ApiModel, any) { o, w := item(c, true); return o, w },
		func(m any) bool { return okItem(m.(*v1willow.Item), true) }},
	{"channel", false, func() api.ApiModel { return &v1willow.Channel{} }, func(c *cursor) (api.ApiModel, any) { o, w := channel(c); return o, w },
		func(m any) bool { return okChannel(m.(*v1willow.Channel)) }},
	{"channels", false, func() api.ApiModel { return &v1willow.Channels{} }, func(c *cursor) (api.ApiModel, any) {
		o, w := list(c, channel)
		return (*v1willow.Channels)(&o), w
	}, func(m any) bool { return okAll(*m.(*v1willow.Channels), okChannel) }},
	{"ack", false, func() api.ApiModel { return &v1willow.ACK{} }, func(c *cursor) (api.ApiModel, any) {
		s, kv, p := c.str(), c.kvs(), c.bool()
		return &v1willow.ACK{ItemID: s, KeyValues: kv.DT(), Passed: p}, obj{"ItemID": s, "KeyValues": wireKV(kv), "Passed": p}
	}, func(m any) bool { a := m.(*v1willow.ACK); return a.ItemID != "" && okKV(a.KeyValues, false) }},
	{"heartbeat", false, func() api.ApiModel { return &v1willow.Heartbeat{} }, func(c *cursor) (api.ApiModel, any) {
		s, kv := c.str(), c.kvs()
		return &v1willow.Heartbeat{ItemID: s, KeyValues: kv.DT()}, obj{"ItemID": s, "KeyValues": wireKV(kv)}
	}, func(m any) bool { a := m.(*v1willow.Heartbeat); return a.ItemID != "" && okKV(a.KeyValues, false) }},
	{"error", false, func() api.ApiModel { return &errors.Error{} }, func(c *cursor) (api.ApiModel, any) {
		s := c.str()
		return &errors.Error{Message: s}, obj{"Message": s}
	}, func(m any) bool { return m.(*errors.Error).Message != "" }},
	{"query", false, func() api.ApiModel { return &queryassociatedaction.AssociatedActionQuery{} }, func(c *cursor) (api.ApiModel, any) {
		q := plain(c.query())
		return q.AQ(idOf(c.p.IDs)), wireQ(q, c.p.IDs)
	}, func(m any) bool { return okQ(m.(*queryassociatedaction.AssociatedActionQuery)) }},
	{"match", false, func() api.ApiModel { return &querymatchaction.MatchActionQuery{} }, func(c *cursor) (api.ApiModel, any) {
		m := c.match()
		return m.MQ(), wireM(m)
	}, func(m any) bool { return okM(m.(*querymatchaction.MatchActionQuery)) }},
}

func kindOf(name string) kind {
	for _, k := range kinds {
		if k.name == name {
			return k
		}
	}
	panic(name)
}
