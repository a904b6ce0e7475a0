// Package gen holds the generated data shapes (typed values, key-values, queries, matches), their conversion to the
// repository's types, and the reference meaning of comparisons, queries and matches. The reference is written from
// the documentation, independently of the code under test.
package gen

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/DanLavine/willow/internal/verifx/vx"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

const (
	U8 = iota + 1
	U16
	U32
	U64
	U
	I8
	I16
	I32
	I64
	I
	F32
	F64
	Str
	Any = 1024
)

var Concrete = []int{U8, U16, U32, U64, U, I8, I16, I32, I64, I, F32, F64, Str}

// V is a typed value in a form that does not depend on the repository's own encoding.
type V struct {
	T int
	D string
}

func AnyV() V              { return V{T: Any} }
func S(s string) V         { return V{T: Str, D: s} }
func Int(i int) V          { return V{T: I, D: strconv.Itoa(i)} }
func (v V) String() string { return fmt.Sprintf("%d:%s", v.T, v.D) }

func must[T any](x T, err error) T {
	if err != nil {
		panic(err)
	}
	return x
}

// EV is the repository's value for v.
func (v V) EV() datatypes.EncapsulatedValue {
	e := datatypes.EncapsulatedValue{Type: datatypes.DataType(v.T)}
	switch v.T {
	case U8:
		e.Data = uint8(must(strconv.ParseUint(v.D, 10, 8)))
	case U16:
		e.Data = uint16(must(strconv.ParseUint(v.D, 10, 16)))
	case U32:
		e.Data = uint32(must(strconv.ParseUint(v.D, 10, 32)))
	case U64:
		e.Data = must(strconv.ParseUint(v.D, 10, 64))
	case U:
		e.Data = uint(must(strconv.ParseUint(v.D, 10, 64)))
	case I8:
		e.Data = int8(must(strconv.ParseInt(v.D, 10, 8)))
	case I16:
		e.Data = int16(must(strconv.ParseInt(v.D, 10, 16)))
	case I32:
		e.Data = int32(must(strconv.ParseInt(v.D, 10, 32)))
	case I64:
		e.Data = must(strconv.ParseInt(v.D, 10, 64))
	case I:
		e.Data = int(must(strconv.ParseInt(v.D, 10, 64)))
	case F32:
		e.Data = float32(must(strconv.ParseFloat(v.D, 32)))
	case F64:
		e.Data = must(strconv.ParseFloat(v.D, 64))
	case Str:
		e.Data = v.D
	case Any:
	}
	return e
}

// FromEV is the inverse of EV.
func FromEV(e datatypes.EncapsulatedValue) V {
	v := V{T: int(e.Type)}
	switch d := e.Data.(type) {
	case nil:
	case uint8:
		v.D = strconv.FormatUint(uint64(d), 10)
	case uint16:
		v.D = strconv.FormatUint(uint64(d), 10)
	case uint32:
		v.D = strconv.FormatUint(uint64(d), 10)
	case uint64:
		v.D = strconv.FormatUint(d, 10)
	case uint:
		v.D = strconv.FormatUint(uint64(d), 10)
	case int8:
		v.D = strconv.FormatInt(int64(d), 10)
	case int16:
		v.D = strconv.FormatInt(int64(d), 10)
	case int32:
		v.D = strconv.FormatInt(int64(d), 10)
	case int64:
		v.D = strconv.FormatInt(d, 10)
	case int:
		v.D = strconv.FormatInt(int64(d), 10)
	case float32:
		v.D = strconv.FormatFloat(float64(d), 'g', -1, 32)
	case float64:
		v.D = strconv.FormatFloat(d, 'g', -1, 64)
	case string:
		v.D = d
	default:
		v.D = fmt.Sprintf("?%T:%v", d, d)
	}
	return v
}

// Cmp is the strict total order: type first, then data; Any is greatest.
func Cmp(a, b V) int {
	if a.T != b.T {
		if a.T < b.T {
			return -1
		}
		return 1
	}
	switch {
	case a.T == Any:
		return 0
	case a.T <= U:
		x, y := must(strconv.ParseUint(a.D, 10, 64)), must(strconv.ParseUint(b.D, 10, 64))
		return cmp(x, y)
	case a.T <= I:
		x, y := must(strconv.ParseInt(a.D, 10, 64)), must(strconv.ParseInt(b.D, 10, 64))
		return cmp(x, y)
	case a.T == F32:
		return cmp(float32(must(strconv.ParseFloat(a.D, 32))), float32(must(strconv.ParseFloat(b.D, 32))))
	case a.T == F64:
		return cmp(must(strconv.ParseFloat(a.D, 64)), must(strconv.ParseFloat(b.D, 64)))
	}
	return strings.Compare(a.D, b.D)
}

func cmp[T uint64 | int64 | float32 | float64](x, y T) int {
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}

// Eq is equality in the matching order: Any equals everything.
func Eq(a, b V) bool { return a.T == Any || b.T == Any || Cmp(a, b) == 0 }

type TR struct{ Min, Max int }

func FullTR() TR { return TR{U8, Any} }
func (t TR) R() v1common.TypeRestrictions {
	return v1common.TypeRestrictions{MinDataType: datatypes.DataType(t.Min), MaxDataType: datatypes.DataType(t.Max)}
}
func (t TR) In(ty int) bool { return t.Min <= ty && ty <= t.Max }

type KV map[string]V

func (kv KV) DT() datatypes.KeyValues {
	if kv == nil {
		return nil
	}
	out := datatypes.KeyValues{}
	for k, v := range kv {
		out[k] = v.EV()
	}
	return out
}
func FromKV(kv datatypes.KeyValues) KV {
	out := KV{}
	for k, v := range kv {
		out[k] = FromEV(v)
	}
	return out
}
func (kv KV) Keys() []string {
	ks := make([]string, 0, len(kv))
	for k := range kv {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Canon identifies a key-value set.
func (kv KV) Canon() string {
	var b strings.Builder
	for _, k := range kv.Keys() {
		fmt.Fprintf(&b, "%q=%s;", k, kv[k])
	}
	return b.String()
}
func (kv KV) Clone() KV {
	out := KV{}
	for k, v := range kv {
		out[k] = v
	}
	return out
}

type Cond struct {
	Key string
	Op  string
	Val V
	TR  TR
}
type Sel struct {
	IDs      []int // indices into the ids known to the case; negative: an id that does not exist
	Conds    []Cond
	Min, Max *int
}
type Q struct {
	Sel     *Sel
	And, Or []Q
}

var Ops = []string{"=", "!=", "<", "<=", ">", ">="}

func (c Cond) Match(kv KV) bool {
	v, ok := kv[c.Key]
	in := ok && c.TR.In(v.T)
	switch c.Op {
	case "=":
		return in && Eq(v, c.Val)
	case "!=":
		return !(in && Eq(v, c.Val))
	case "<":
		return in && (v.T == Any || Cmp(v, c.Val) < 0)
	case "<=":
		return in && (v.T == Any || Cmp(v, c.Val) <= 0)
	case ">":
		return in && Cmp(v, c.Val) > 0
	case ">=":
		return in && Cmp(v, c.Val) >= 0
	}
	panic(c.Op)
}

func (s *Sel) Match(kv KV, id int) bool {
	if s.Min != nil && len(kv) < *s.Min {
		return false
	}
	if s.Max != nil && len(kv) > *s.Max {
		return false
	}
	if len(s.IDs) > 0 {
		found := false
		for _, i := range s.IDs {
			found = found || i == id
		}
		if !found {
			return false
		}
	}
	// several "!=" of one selection exclude only what has all of the excluded values
	not, hit := 0, 0
	for _, c := range s.Conds {
		if c.Op == "!=" {
			not++
			if !c.Match(kv) {
				hit++
			}
		} else if !c.Match(kv) {
			return false
		}
	}
	return not == 0 || hit != not
}

// Match is (Sel and all of And) or any of Or; an empty query selects everything.
func (q Q) Match(kv KV, id int) bool {
	base := q.Sel != nil || len(q.And) > 0 || len(q.Or) == 0
	if q.Sel != nil && !q.Sel.Match(kv, id) {
		base = false
	}
	for _, a := range q.And {
		if base && !a.Match(kv, id) {
			base = false
		}
	}
	if base {
		return true
	}
	for _, o := range q.Or {
		if o.Match(kv, id) {
			return true
		}
	}
	return false
}

func (q Q) HasIDs() bool {
	if q.Sel != nil && len(q.Sel.IDs) > 0 {
		return true
	}
	for _, a := range append(append([]Q{}, q.And...), q.Or...) {
		if a.HasIDs() {
			return true
		}
	}
	return false
}

func (q Q) Size() int {
	n := 1
	if q.Sel != nil {
		n += len(q.Sel.Conds) + len(q.Sel.IDs)
	}
	for _, a := range q.And {
		n += a.Size()
	}
	for _, a := range q.Or {
		n += a.Size()
	}
	return n
}

// AQ is the repository's query for q; ids maps an index to a real id.
func (q Q) AQ(ids func(int) string) *queryassociatedaction.AssociatedActionQuery {
	out := &queryassociatedaction.AssociatedActionQuery{}
	if q.Sel != nil {
		s := &queryassociatedaction.Selection{MinNumberOfKeyValues: q.Sel.Min, MaxNumberOfKeyValues: q.Sel.Max}
		for _, i := range q.Sel.IDs {
			if ids == nil || i < 0 {
				s.IDs = append(s.IDs, fmt.Sprintf("no-such-id-%d", i))
			} else {
				s.IDs = append(s.IDs, ids(i))
			}
		}
		if len(q.Sel.Conds) > 0 {
			s.KeyValues = queryassociatedaction.SelectionKeyValues{}
			for _, c := range q.Sel.Conds {
				s.KeyValues[c.Key] = queryassociatedaction.ValueQuery{Value: c.Val.EV(), Comparison: v1common.DataComparison(c.Op), TypeRestrictions: c.TR.R()}
			}
		}
		out.Selection = s
	}
	if q.And != nil {
		out.And = []*queryassociatedaction.AssociatedActionQuery{}
	}
	if q.Or != nil {
		out.Or = []*queryassociatedaction.AssociatedActionQuery{}
	}
	for _, a := range q.And {
		out.And = append(out.And, a.AQ(ids))
	}
	for _, a := range q.Or {
		out.Or = append(out.Or, a.AQ(ids))
	}
	return out
}

// M is a match query.
type MV struct {
	Val V
	TR  TR
}
type M struct {
	KV       map[string]MV
	Min, Max *int
}

func (m M) Match(kv KV) bool {
	if m.Min != nil && len(kv) < *m.Min {
		return false
	}
	if m.Max != nil && len(kv) > *m.Max {
		return false
	}
	for k, v := range kv {
		t, ok := m.KV[k]
		if !ok || !t.TR.In(v.T) || !Eq(v, t.Val) {
			return false
		}
	}
	return true
}

func (m M) MQ() *querymatchaction.MatchActionQuery {
	out := &querymatchaction.MatchActionQuery{MinNumberOfPermutationKeyValues: m.Min, MaxNumberOfPermutationKeyValues: m.Max, KeyValues: querymatchaction.MatchKeyValues{}}
	for k, v := range m.KV {
		out.KeyValues[k] = querymatchaction.MatchValue{Value: v.Val.EV(), TypeRestrictions: v.TR.R()}
	}
	return out
}

// AnyMatch is what covers tags with exact values or Any.
func AnyMatch(tags KV) M {
	m := M{KV: map[string]MV{}}
	for k, v := range tags {
		m.KV[k] = MV{Val: v, TR: TR{v.T, Any}}
	}
	return m
}

// ---- generators ----

// Small returns a value from a small universe, so that collisions are common.
func Small(r *vx.R, types []int, n int) V {
	t := vx.PickS(r, types)
	switch t {
	case Any:
		return AnyV()
	case Str:
		return V{Str, string(rune('a' + r.IntN(n)))}
	case F32, F64:
		return V{t, strconv.FormatFloat(float64(r.IntN(n))/2, 'g', -1, 64)}
	}
	i := r.IntN(n)
	if t >= I8 && t <= I && r.Chance(0.3) {
		i = -i
	}
	return V{t, strconv.Itoa(i)}
}

func Types(r *vx.R, n int, any float64) []int {
	out := []int{}
	for i := 0; i < n; i++ {
		out = append(out, vx.PickS(r, Concrete))
	}
	if r.Chance(any) {
		out = append(out, Any)
	}
	return out
}

func GenTR(r *vx.R, types []int) TR {
	if r.Chance(0.35) {
		return FullTR()
	}
	pick := func() int {
		if r.Chance(0.7) {
			return vx.PickS(r, types)
		}
		return vx.PickS(r, append([]int{Any}, Concrete...))
	}
	a, b := pick(), pick()
	if a > b {
		a, b = b, a
	}
	if r.Chance(0.3) {
		b = Any
	}
	return TR{a, b}
}

func GenKV(r *vx.R, keys []string, maxKeys int, types []int, n int) KV {
	kv := KV{}
	want := r.Range(1, min(maxKeys, len(keys)))
	for len(kv) < want {
		kv[vx.PickS(r, keys)] = Small(r, types, n)
	}
	return kv
}

type QOpts struct {
	Keys  []string
	Types []int
	N     int
	IDs   int // number of ids that exist
	Depth int
	NoIDs bool
}

func genBounds(r *vx.R) (lo, hi *int) {
	switch r.Weighted(6, 1, 1, 1) {
	case 1:
		x := r.Range(0, 4)
		lo = &x
	case 2:
		x := r.Range(0, 4)
		hi = &x
	case 3:
		x := r.Range(0, 3)
		y := x + r.Range(0, 2)
		lo, hi = &x, &y
	}
	return
}

func GenSel(r *vx.R, o QOpts) *Sel {
	s := &Sel{}
	s.Min, s.Max = genBounds(r)
	if !o.NoIDs && r.Chance(0.15) {
		for i := r.Range(1, 3); i > 0; i-- {
			if o.IDs > 0 && r.Chance(0.85) {
				s.IDs = append(s.IDs, r.IntN(o.IDs))
			} else {
				s.IDs = append(s.IDs, -1-r.IntN(3))
			}
		}
	}
	used := map[string]bool{}
	for i := r.Weighted(2, 5, 4, 2); i > 0; i-- {
		c := Cond{Key: vx.PickS(r, o.Keys), Op: vx.PickS(r, Ops), Val: Small(r, o.Types, o.N), TR: GenTR(r, o.Types)}
		if used[c.Key] {
			continue
		}
		used[c.Key] = true
		if c.Val.T == Any && c.Op != "=" && c.Op != "!=" {
			c.Val = Small(r, []int{vx.PickS(r, Concrete)}, o.N)
		}
		s.Conds = append(s.Conds, c)
	}
	if len(s.IDs) == 0 && len(s.Conds) == 0 && s.Min == nil && s.Max == nil {
		x := r.Range(0, 2)
		s.Min = &x
	}
	return s
}

func GenQ(r *vx.R, o QOpts) Q {
	q := Q{}
	if r.Chance(0.8) {
		q.Sel = GenSel(r, o)
	}
	if o.Depth > 0 {
		sub := o
		sub.Depth--
		for i := r.Weighted(6, 3, 2); i > 0; i-- {
			q.And = append(q.And, GenQ(r, sub))
		}
		for i := r.Weighted(6, 3, 2); i > 0; i-- {
			q.Or = append(q.Or, GenQ(r, sub))
		}
		if r.Chance(0.05) && q.And == nil {
			q.And = []Q{}
		}
		if r.Chance(0.05) && q.Or == nil {
			q.Or = []Q{}
		}
	}
	return q
}

// ShrinkQ returns simpler queries.
func ShrinkQ(q Q) []Q {
	var out []Q
	out = append(out, q.And...)
	out = append(out, q.Or...)
	if q.Sel != nil && (len(q.And) > 0 || len(q.Or) > 0) {
		c := q
		c.Sel = nil
		out = append(out, c)
	}
	for i := range q.And {
		c := q
		c.And = append(append([]Q{}, q.And[:i]...), q.And[i+1:]...)
		out = append(out, c)
		for _, s := range ShrinkQ(q.And[i]) {
			c := q
			c.And = append([]Q{}, q.And...)
			c.And[i] = s
			out = append(out, c)
		}
	}
	for i := range q.Or {
		c := q
		c.Or = append(append([]Q{}, q.Or[:i]...), q.Or[i+1:]...)
		out = append(out, c)
		for _, s := range ShrinkQ(q.Or[i]) {
			c := q
			c.Or = append([]Q{}, q.Or...)
			c.Or[i] = s
			out = append(out, c)
		}
	}
	if q.Sel != nil {
		for i := range q.Sel.Conds {
			if len(q.Sel.Conds) > 1 || q.Sel.Min != nil || q.Sel.Max != nil || len(q.Sel.IDs) > 0 {
				s := *q.Sel
				s.Conds = append(append([]Cond{}, q.Sel.Conds[:i]...), q.Sel.Conds[i+1:]...)
				c := q
				c.Sel = &s
				out = append(out, c)
			}
		}
		if q.Sel.Min != nil || q.Sel.Max != nil {
			if len(q.Sel.Conds) > 0 || len(q.Sel.IDs) > 0 {
				s := *q.Sel
				s.Min, s.Max = nil, nil
				c := q
				c.Sel = &s
				out = append(out, c)
			}
		}
	}
	return out
}

// GenMatch returns a match query; around is often the key-values of a stored item plus noise.
func GenMatch(r *vx.R, around KV, o QOpts, maxKeys int) M {
	m := M{KV: map[string]MV{}}
	add := func(k string, v V) {
		tr := TR{v.T, Any}
		if r.Chance(0.4) {
			tr = GenTR(r, o.Types)
		}
		m.KV[k] = MV{Val: v, TR: tr}
	}
	for k, v := range around {
		if r.Chance(0.92) {
			if v.T == Any && r.Chance(0.6) {
				v = Small(r, o.Types, o.N)
			}
			add(k, v)
		}
	}
	for i := r.Range(0, 3); i > 0 && len(m.KV) < maxKeys; i-- {
		add(vx.PickS(r, o.Keys), Small(r, o.Types, o.N))
	}
	if len(m.KV) == 0 {
		add(vx.PickS(r, o.Keys), Small(r, o.Types, o.N))
	}
	m.Min, m.Max = genBounds(r)
	return m
}
