package models

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"
	"github.com/DanLavine/willow/pkg/models/api"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// ---- C02: round trips ----

type wireCase struct {
	Kind string
	Pool pool
}

func shrinkPool(p pool) []pool {
	var out []pool
	cut := func(set func(q *pool)) { q := p; set(&q); out = append(out, q) }
	for _, x := range vx.Cuts(p.KVs) {
		cut(func(q *pool) { q.KVs = x })
	}
	for _, x := range vx.Cuts(p.Anys) {
		cut(func(q *pool) { q.Anys = x })
	}
	for _, x := range vx.Cuts(p.Qs) {
		cut(func(q *pool) { q.Qs = x })
	}
	for i := range p.Qs {
		for _, s := range gen.ShrinkQ(p.Qs[i]) {
			cut(func(q *pool) { q.Qs = append([]gen.Q{}, p.Qs...); q.Qs[i] = s })
		}
	}
	for _, x := range vx.Cuts(p.Ms) {
		cut(func(q *pool) { q.Ms = x })
	}
	for _, x := range vx.Cuts(p.Strs) {
		cut(func(q *pool) { q.Strs = x })
	}
	for _, x := range vx.Cuts(p.Nums) {
		cut(func(q *pool) { q.Nums = x })
	}
	for _, x := range vx.Cuts(p.Bools) {
		cut(func(q *pool) { q.Bools = x })
	}
	for i, kv := range p.KVs {
		if len(kv) > 1 {
			for k := range kv {
				c := kv.Clone()
				delete(c, k)
				cut(func(q *pool) { q.KVs = append([]gen.KV{}, p.KVs...); q.KVs[i] = c })
			}
		}
	}
	for i, kv := range p.Anys {
		if len(kv) > 1 {
			for k := range kv {
				c := kv.Clone()
				delete(c, k)
				cut(func(q *pool) { q.Anys = append([]gen.KV{}, p.Anys...); q.Anys[i] = c })
			}
		}
	}
	return out
}

// norm drops nulls and compares numbers by their text.
func norm(x any) any {
	switch x := x.(type) {
	case map[string]any:
		out := map[string]any{}
		for k, v := range x {
			if v != nil {
				out[k] = norm(v)
			}
		}
		return out
	case []any:
		out := []any{}
		for _, v := range x {
			out = append(out, norm(v))
		}
		return out
	}
	return x
}

func parse(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x any
	err := d.Decode(&x)
	return x, err
}

func request(b []byte) *http.Request {
	r, err := http.NewRequest("POST", "http://x/", bytes.NewReader(b))
	if err != nil {
		panic(err)
	}
	return r
}

func show(x any) string {
	b, err := json.Marshal(x)
	if err != nil {
		return fmt.Sprintf("%+v", x)
	}
	return string(b)
}

func same(a, b any) bool { return reflect.DeepEqual(a, b) }

func roundTripProp() vx.Prop[wireCase] {
	return vx.Prop[wireCase]{
		Name: "round-trip", Rule: "the object is built from at least one generated part", Weight: 3,
		Gen: func(r *vx.R) wireCase { return wireCase{vx.PickS(r, kinds).name, genPool(r)} },
		Run: func(c wireCase, rec *vx.Rec) error {
			k := kindOf(c.Kind)
			cur := &cursor{p: c.Pool}
			o, wire := k.build(cur)
			if cur.kv+cur.an+cur.q+cur.m+cur.s+cur.n+cur.b > 0 {
				rec.Nontrivial()
			}
			rec.Label(c.Kind)
			var data []byte
			var err error
			if k.spec {
				data, err = api.ObjectEncodeRequest(o.(api.APIObject))
			} else {
				data, err = api.ModelEncodeRequest(o)
			}
			if err != nil {
				return fmt.Errorf("a valid %s is refused by the encoder: %v", c.Kind, err)
			}
			got, err := parse(data)
			if err != nil {
				return fmt.Errorf("%s: encoding is not JSON: %v", c.Kind, err)
			}
			if !reflect.DeepEqual(norm(got), norm(wire)) {
				return fmt.Errorf("%s is encoded as %s, the documented form is %s", c.Kind, data, show(wire))
			}
			back := k.fresh()
			if err := decode(k, back, data); err != nil {
				return fmt.Errorf("the decoder refuses an encoded %s: %v", c.Kind, err)
			}
			if !same(o, back) {
				return fmt.Errorf("%s changed on the wire: %s became %s", c.Kind, show(o), show(back))
			}
			// the documented form decodes to the same object, whatever its spacing
			doc, _ := json.MarshalIndent(wire, " ", "\t")
			back = k.fresh()
			if err := decode(k, back, doc); err != nil {
				return fmt.Errorf("the decoder refuses the documented form of a %s: %v", c.Kind, err)
			}
			if !same(o, back) {
				return fmt.Errorf("%s: the documented form decodes to %s, want %s", c.Kind, show(back), show(o))
			}
			if !k.spec { // and as a response
				w := httptest.NewRecorder()
				if _, err := api.ModelEncodeResponse(w, 207, o); err != nil {
					return fmt.Errorf("a valid %s is refused by the response encoder: %v", c.Kind, err)
				}
				resp := w.Result()
				if resp.StatusCode != 207 {
					return fmt.Errorf("response status is %d, want 207", resp.StatusCode)
				}
				back = k.fresh()
				if err := api.ModelDecodeResponse(resp, back); err != nil {
					return fmt.Errorf("the response decoder refuses a %s: %v", c.Kind, err)
				}
				if !same(o, back) {
					return fmt.Errorf("%s changed in a response: %s became %s", c.Kind, show(o), show(back))
				}
			}
			return nil
		},
		Shrink: func(c wireCase) []wireCase {
			var out []wireCase
			for _, p := range shrinkPool(c.Pool) {
				out = append(out, wireCase{c.Kind, p})
			}
			return out
		},
	}
}

func decode(k kind, into api.ApiModel, data []byte) error {
	if k.spec {
		if e := api.ObjectDecodeRequest(request(data), into.(api.APIObject)); e != nil {
			return e
		}
		return nil
	}
	if e := api.ModelDecodeRequest(request(data), into); e != nil {
		return e
	}
	return nil
}

type valueCase struct{ V gen.V }

func valueTripProp() vx.Prop[valueCase] {
	return vx.Prop[valueCase]{
		Name: "value", Rule: "always: every value is one point of its type's range",
		Gen: func(r *vx.R) valueCase { return valueCase{anyWide(r)} },
		Run: func(c valueCase, rec *vx.Rec) error {
			rec.Nontrivial()
			rec.Label(strconv.Itoa(c.V.T))
			e := c.V.EV()
			b, err := json.Marshal(e)
			if err != nil {
				return fmt.Errorf("%v cannot be encoded: %v", c.V, err)
			}
			var back datatypes.EncapsulatedValue
			if err := json.Unmarshal(b, &back); err != nil {
				return fmt.Errorf("%s cannot be decoded: %v", b, err)
			}
			if !same(e, back) {
				return fmt.Errorf("%v became %v on the wire (%s)", c.V, gen.FromEV(back), b)
			}
			kv := datatypes.KeyValues{"k": e, c.V.D: e}
			if b, err = json.Marshal(kv); err != nil {
				return fmt.Errorf("key-values with %v cannot be encoded: %v", c.V, err)
			}
			var kb datatypes.KeyValues
			if err := json.Unmarshal(b, &kb); err != nil {
				return fmt.Errorf("%s cannot be decoded: %v", b, err)
			}
			if !same(kv, kb) {
				return fmt.Errorf("key-values %s became %s on the wire", show(kv), show(kb))
			}
			keys := kv.Keys()
			sort.Strings(keys)
			if !reflect.DeepEqual(keys, kv.SortedKeys()) {
				return fmt.Errorf("sorted keys of %v are %v", keys, kv.SortedKeys())
			}
			return nil
		},
	}
}

func TestC02(t *testing.T) { vx.Check(t, roundTripProp(), valueTripProp()) }

// ---- C03: malformed input ----

type edit struct {
	Path int // which node (by walk order, modulo the number of nodes)
	Op   int
	Val  string // replacement JSON
}

type badCase struct {
	Kind  string
	Pool  pool
	Edits []edit
	Bytes []edit // byte-level edits after the structural ones
}

var replacements = []string{"null", "true", "false", "0", "-1", "1", "-2", "13", "14", "1024", "1.5", "1e400", "18446744073709551616", "9223372036854775808", "-9223372036854775809", "9223372036854775807",
	`""`, `"x"`, `"front"`, `"NaN"`, `"+Inf"`, `"300"`, `"-1"`, `"256"`, `"0x10"`, `"1_000"`, `"1e999"`, `" 1"`, `"="`, `"=="`, `"!"`, `"<"`, `"aGk="`, `"%%%"`,
	"[]", "{}", "[null]", "[{}]", `{"":null}`, `{"Type":0,"Data":""}`, `{"Type":1024,"Data":""}`, `{"Type":1024}`, `{"Type":11,"Data":"NaN"}`, `{"Type":12,"Data":"nan"}`, `{"Type":1,"Data":1}`, `{"Type":13,"Data":null}`,
	`{"Type":1,"Data":"256"}`, `{"Type":5,"Data":"-1"}`, `{"Type":6,"Data":"128"}`, `{"Type":10,"Data":"x"}`, `[[[[[[]]]]]]`}

type node struct {
	get func() any
	set func(any)
	del func()
}

// nodes lists every place of the document in a fixed order.
func nodes(root *any) []node {
	var out []node
	var walk func(get func() any, set func(any), del func())
	walk = func(get func() any, set func(any), del func()) {
		out = append(out, node{get, set, del})
		switch x := get().(type) {
		case map[string]any:
			ks := []string{}
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				walk(func() any { return x[k] }, func(v any) { x[k] = v }, func() { delete(x, k) })
			}
		case []any:
			for i := range x {
				walk(func() any { return x[i] }, func(v any) { x[i] = v }, func() { x[i] = nil })
			}
		}
	}
	walk(func() any { return *root }, func(v any) { *root = v }, func() { *root = nil })
	return out
}

func (c badCase) body() []byte {
	k := kindOf(c.Kind)
	_, wire := k.build(&cursor{p: c.Pool})
	b, _ := json.Marshal(wire)
	root, _ := parse(b)
	for _, e := range c.Edits {
		ns := nodes(&root)
		n := ns[e.Path%len(ns)]
		switch e.Op {
		case 0:
			n.del()
		case 1:
			v, _ := parse([]byte(e.Val))
			n.set(v)
		case 2: // copy another place here
			m := ns[(e.Path/7)%len(ns)]
			cp, _ := json.Marshal(m.get())
			v, _ := parse(cp)
			n.set(v)
		case 3: // rename or add a field
			if x, ok := n.get().(map[string]any); ok {
				v, _ := parse([]byte(e.Val))
				x[vx.PickS(vx.NewR(uint64(e.Path)), []string{"State", "Spec", "Properties", "Extra", "Timeout", "MaxItems", "KeyValues", "Limit", "IDs", "And", "Or", "Selection", "state", "spec", ""})] = v
			}
		case 4: // edit a number
			if x, ok := n.get().(json.Number); ok {
				if f, ok := new(big.Int).SetString(string(x), 10); ok {
					f.Neg(f)
					n.set(json.Number(f.String()))
				}
			}
		}
	}
	b, _ = json.Marshal(root)
	for _, e := range c.Bytes {
		if len(b) == 0 {
			break
		}
		i := e.Path % len(b)
		switch e.Op {
		case 0:
			b = append(append([]byte{}, b[:i]...), b[i+1:]...)
		case 1:
			b = append(append(append([]byte{}, b[:i]...), e.Val...), b[i:]...)
		case 2:
			b = append([]byte{}, b[:i]...)
		case 3:
			b = append([]byte{}, b...)
			b[i] = byte(e.Path >> 3)
		case 4:
			b = append(append([]byte{}, b...), b[i:]...)
		}
	}
	return b
}

func badProp() vx.Prop[badCase] {
	return vx.Prop[badCase]{
		Name: "malformed", Rule: "the mutated body breaks at least one rule, or is not the original body any more but still valid", Weight: 3,
		Gen: func(r *vx.R) badCase {
			c := badCase{Kind: vx.PickS(r, kinds).name, Pool: genPool(r)}
			for i := r.Weighted(2, 8, 4, 2); i > 0; i-- {
				c.Edits = append(c.Edits, edit{r.IntN(1 << 20), r.Weighted(4, 8, 3, 2, 2), vx.PickS(r, replacements)})
			}
			if r.Chance(0.2) {
				for i := r.Range(1, 3); i > 0; i-- {
					c.Bytes = append(c.Bytes, edit{r.IntN(1 << 20), r.IntN(5), vx.PickS(r, replacements)})
				}
			}
			return c
		},
		Run: func(c badCase, rec *vx.Rec) error {
			k := kindOf(c.Kind)
			body := c.body()
			into := k.fresh()
			var got error
			status := 0
			if k.spec {
				if e := api.ObjectDecodeRequest(request(body), into.(api.APIObject)); e != nil {
					got, status = e, e.StatusCode
				}
			} else if e := api.ModelDecodeRequest(request(body), into); e != nil {
				got, status = e, e.StatusCode
			}
			if got != nil {
				rec.Nontrivial()
				rec.Label("rejected")
				if status < 400 || status > 499 || got.Error() == "" {
					return fmt.Errorf("%s: a malformed body is answered with status %d %q, want a client error with a message; body %s", c.Kind, status, got, body)
				}
			} else if !k.valid(into) {
				return fmt.Errorf("%s: an invalid body is accepted: %s", c.Kind, body)
			} else {
				rec.Label("accepted")
			}
			// validation on its own agrees with the documented rules
			o := k.fresh()
			if json.Unmarshal(body, o) == nil {
				var ok bool
				if k.spec {
					ok = o.(api.APIObject).ValidateSpecOnly() == nil
				} else {
					ok = o.Validate() == nil
				}
				if want := k.valid(o); ok != want {
					return fmt.Errorf("%s: validation accepts: %v, want %v; body %s", c.Kind, ok, want, body)
				}
				if !ok {
					rec.Label("rule-broken")
				}
			} else if json.Valid(body) && got == nil {
				return fmt.Errorf("%s: accepted a body that does not decode: %s", c.Kind, body)
			}
			// as a response body
			if !k.spec {
				o := k.fresh()
				err := api.ModelDecodeResponse(&http.Response{Body: io.NopCloser(bytes.NewReader(body))}, o)
				if err == nil && !k.valid(o) {
					return fmt.Errorf("%s: an invalid response is accepted: %s", c.Kind, body)
				}
			}
			return nil
		},
		Shrink: func(c badCase) []badCase {
			var out []badCase
			for _, e := range vx.Cuts(c.Edits) {
				d := c
				d.Edits = e
				out = append(out, d)
			}
			for _, e := range vx.Cuts(c.Bytes) {
				d := c
				d.Bytes = e
				out = append(out, d)
			}
			for _, p := range shrinkPool(c.Pool) {
				d := c
				d.Pool = p
				out = append(out, d)
			}
			return out
		},
	}
}

type dataCase struct {
	Type int
	Data string // the JSON of Data; empty: left out
}

// wantValue is what (type, data) means, worked out with arbitrary precision; ok is false when it has to be refused.
func wantValue(c dataCase) (v gen.V, ok, sure bool) {
	var s string
	isStr := json.Unmarshal([]byte(c.Data), &s) == nil && strings.HasPrefix(c.Data, `"`)
	switch {
	case c.Type == gen.Any:
		return gen.AnyV(), c.Data == "" || c.Data == "null", true
	case c.Type < gen.U8 || c.Type > gen.Str || !isStr:
		return v, false, true
	case c.Type == gen.Str:
		return gen.S(s), true, true
	case integer(c.Type):
		for i, ch := range s {
			if !(ch >= '0' && ch <= '9' || i == 0 && ch == '-') {
				return v, false, s == "" || !strings.HasPrefix(s, "+")
			}
		}
		x, good := new(big.Int).SetString(s, 10)
		if !good || s == "-0" && unsigned(c.Type) {
			return v, false, s != "-0"
		}
		lo, hi := intBounds(c.Type)
		return gen.V{T: c.Type, D: x.String()}, x.Cmp(lo) >= 0 && x.Cmp(hi) <= 0, true
	}
	// floats: a plain decimal number must be accepted when in range; NaN never; other spellings are up to the service
	low := strings.ToLower(s)
	if strings.Contains(low, "nan") {
		return v, false, true
	}
	r, good := new(big.Rat).SetString(s)
	plain := good && !strings.ContainsAny(s, "/xXpPbBoO_")
	if !plain {
		return v, false, strings.IndexFunc(low, func(r rune) bool { return !strings.ContainsRune("0123456789abcdefinfinitypx+-._", r) }) >= 0
	}
	if c.Type == gen.F32 {
		f, _ := r.Float32()
		return gen.V{T: c.Type, D: strconv.FormatFloat(float64(f), 'g', -1, 32)}, f <= 3.4028234663852886e38 && f >= -3.4028234663852886e38, true
	}
	f, _ := r.Float64()
	return gen.V{T: c.Type, D: strconv.FormatFloat(f, 'g', -1, 64)}, f <= 1.7976931348623157e308 && f >= -1.7976931348623157e308, true
}

func dataProp() vx.Prop[dataCase] {
	types := append(append([]int{}, all...), 0, -1, 14, 1023, 1025, 1<<31)
	return vx.Prop[dataCase]{
		Name: "data", Rule: "the data is a string and the type is known",
		Gen: func(r *vx.R) dataCase {
			c := dataCase{Type: vx.PickS(r, types)}
			switch r.Weighted(6, 3, 2, 1) {
			case 0: // a number near some type's bounds
				t := vx.PickS(r, gen.Concrete[:12])
				v := wideV(r, t)
				if integer(t) && r.Chance(0.5) {
					x, _ := new(big.Int).SetString(v.D, 10)
					x.Add(x, big.NewInt(int64(r.IntN(5)-2)))
					v.D = x.String()
				}
				c.Data = show(v.D)
			case 1:
				c.Data = vx.PickS(r, replacements)
			case 2:
				c.Data = show(wideString(r))
			}
			if _, err := parse([]byte(c.Data)); c.Data != "" && err != nil {
				c.Data = "1"
			}
			return c
		},
		Run: func(c dataCase, rec *vx.Rec) error {
			want, ok, sure := wantValue(c)
			if strings.HasPrefix(c.Data, `"`) && c.Type >= gen.U8 {
				rec.Nontrivial()
			}
			doc := fmt.Sprintf(`{"Type":%d}`, c.Type)
			if c.Data != "" {
				doc = fmt.Sprintf(`{"Type":%d,"Data":%s}`, c.Type, c.Data)
			}
			check := func(how string, e datatypes.EncapsulatedValue, err error) error {
				accepted := err == nil
				if accepted && !sure {
					if !okEV(e, true) {
						return fmt.Errorf("%s: %s is accepted as %v", how, doc, gen.FromEV(e))
					}
					return nil
				}
				if sure && accepted != ok {
					return fmt.Errorf("%s: %s is accepted: %v (%v), want %v", how, doc, accepted, err, ok)
				}
				if accepted && sure && (gen.Cmp(gen.FromEV(e), want) != 0 || !okEV(e, true)) {
					return fmt.Errorf("%s: %s is read as %v, want %v", how, doc, gen.FromEV(e), want)
				}
				return nil
			}
			if ok {
				rec.Label("valid")
			}
			var e datatypes.EncapsulatedValue
			err := json.Unmarshal([]byte(doc), &e)
			if err == nil {
				if me := e.Validate(datatypes.MinDataType, datatypes.MaxDataType); me != nil {
					err = me
				}
			}
			if err := check("value", e, err); err != nil {
				return err
			}
			var kv datatypes.KeyValues
			err = json.Unmarshal([]byte(`{"k":`+doc+`}`), &kv)
			if err == nil {
				if me := kv.Validate(datatypes.MinDataType, datatypes.MaxDataType); me != nil {
					err = me
				}
			}
			return check("key-values", kv["k"], err)
		},
		Shrink: func(c dataCase) []dataCase { return nil },
	}
}

func TestC03(t *testing.T) { vx.Check(t, badProp(), dataProp()) }
