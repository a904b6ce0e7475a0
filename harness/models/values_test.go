package models

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"testing"

	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

var bits = map[int]int{gen.U8: 8, gen.U16: 16, gen.U32: 32, gen.U64: 64, gen.U: 64, gen.I8: 8, gen.I16: 16, gen.I32: 32, gen.I64: 64, gen.I: 64}

func unsigned(t int) bool { return t >= gen.U8 && t <= gen.U }
func integer(t int) bool  { return t >= gen.U8 && t <= gen.I }

// bounds of an integer type
func intBounds(t int) (lo, hi *big.Int) {
	one := big.NewInt(1)
	n := uint(bits[t])
	if unsigned(t) {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, n), one)
	}
	h := new(big.Int).Lsh(one, n-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
}

var someStrings = []string{"", "a", "A", "b", "aa", "ab", "1", "-1", "10", "9", " ", "\x00", "\n", "\"", "\\", "<b>&amp;", "\u2028", "é", "日本語", "😀", "null", "true", "{}", "+Inf", "1024", "\ufffd", "\u0001", "\x7f", "a\x00b"}

func wideString(r *vx.R) string {
	if r.Chance(0.6) {
		return vx.PickS(r, someStrings)
	}
	n := r.IntN(12)
	if r.Chance(0.03) {
		n = r.IntN(3000)
	}
	out := make([]rune, n)
	for i := range out {
		for {
			out[i] = rune(r.IntN([]int{0x80, 0x800, 0x10000, 0x110000}[r.IntN(4)]))
			if out[i] < 0xd800 || out[i] > 0xdfff {
				break
			}
		}
	}
	return string(out)
}

// wideV is a value anywhere in the range of its type, extremes included.
func wideV(r *vx.R, t int) gen.V {
	switch {
	case t == gen.Any:
		return gen.AnyV()
	case t == gen.Str:
		return gen.S(wideString(r))
	case t == gen.F32, t == gen.F64:
		var f float64
		if r.Chance(0.5) {
			f = vx.Pick(r, 0, math.Copysign(0, -1), 1, -1, 1.5, 0.1, math.Inf(1), math.Inf(-1), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1<<53, 1<<53+2, 1e300, 1e-300, 3.4e38)
		} else if t == gen.F32 {
			f = float64(math.Float32frombits(r.Uint32()))
		} else {
			f = math.Float64frombits(r.Uint64())
		}
		if math.IsNaN(f) {
			f = 2
		}
		if t == gen.F32 {
			return gen.V{T: t, D: strconv.FormatFloat(float64(float32(f)), 'g', -1, 32)}
		}
		return gen.V{T: t, D: strconv.FormatFloat(f, 'g', -1, 64)}
	}
	lo, hi := intBounds(t)
	var x *big.Int
	switch r.IntN(4) {
	case 0:
		x = new(big.Int).Add(lo, big.NewInt(int64(r.IntN(3))))
	case 1:
		x = new(big.Int).Sub(hi, big.NewInt(int64(r.IntN(3))))
	case 2:
		x = big.NewInt(int64(r.IntN(20) - 5))
	default:
		x = new(big.Int).SetUint64(r.Uint64() >> r.IntN(64))
		if r.Bool() {
			x.Neg(x)
		}
	}
	if x.Cmp(lo) < 0 {
		x = lo
	}
	if x.Cmp(hi) > 0 {
		x = hi
	}
	return gen.V{T: t, D: x.String()}
}

var all = append(append([]int{}, gen.Concrete...), gen.Any)

func anyWide(r *vx.R) gen.V { return wideV(r, vx.PickS(r, all)) }

// near is a value close to v: equal, neighbouring, the same data under another type, or unrelated.
func near(r *vx.R, v gen.V) gen.V {
	switch r.IntN(5) {
	case 0:
		return v
	case 1:
		return wideV(r, v.T)
	case 2:
		if integer(v.T) {
			x, _ := new(big.Int).SetString(v.D, 10)
			x.Add(x, big.NewInt(int64(r.IntN(3)-1)))
			lo, hi := intBounds(v.T)
			if x.Cmp(lo) >= 0 && x.Cmp(hi) <= 0 {
				return gen.V{T: v.T, D: x.String()}
			}
		}
		if v.T == gen.Str {
			return gen.S(v.D + vx.Pick(r, "", "a", "\x00", "0"))
		}
		return v
	case 3:
		if integer(v.T) {
			t := vx.PickS(r, []int{gen.U8, gen.U16, gen.U32, gen.U64, gen.U, gen.I8, gen.I16, gen.I32, gen.I64, gen.I})
			x, _ := new(big.Int).SetString(v.D, 10)
			lo, hi := intBounds(t)
			if x.Cmp(lo) >= 0 && x.Cmp(hi) <= 0 {
				return gen.V{T: t, D: v.D}
			}
		}
		return gen.S(v.D)
	}
	return anyWide(r)
}

type orderCase struct{ A, B, C gen.V }

func orderProp() vx.Prop[orderCase] {
	return vx.Prop[orderCase]{
		Name: "order", Rule: "at least two of the three values are different",
		Gen: func(r *vx.R) orderCase {
			a := anyWide(r)
			b := near(r, a)
			return orderCase{a, b, near(r, vx.Pick(r, a, b))}
		},
		Run: func(c orderCase, rec *vx.Rec) error {
			if c.A != c.B || c.B != c.C {
				rec.Nontrivial()
			}
			vs := []gen.V{c.A, c.B, c.C}
			for _, x := range vs {
				for _, y := range vs {
					ex, ey := x.EV(), y.EV()
					want := gen.Cmp(x, y) < 0
					if got := ex.LessMatchType(ey); got != want {
						return fmt.Errorf("type-aware order: (%v) < (%v) is %v, want %v", x, y, got, want)
					}
					wantPlain := want && x.T != gen.Any && y.T != gen.Any
					if got := ex.Less(ey); got != wantPlain {
						return fmt.Errorf("matching order: (%v) < (%v) is %v, want %v", x, y, got, wantPlain)
					}
					if got := ex.Type.LessMatchType(ey.Type); got != (x.T < y.T) {
						return fmt.Errorf("type order: %d < %d is %v", x.T, y.T, got)
					}
					if got := ex.Type.Less(ey.Type); got != (x.T < y.T && y.T != gen.Any) {
						return fmt.Errorf("matching type order: %d < %d is %v", x.T, y.T, got)
					}
					if x.T == y.T && x.T != gen.Any {
						rec.Label("same-type")
					}
				}
			}
			return nil
		},
		Shrink: func(c orderCase) []orderCase {
			return []orderCase{{c.A, c.A, c.A}, {c.A, c.B, c.A}, {c.A, c.C, c.A}, {c.B, c.C, c.B}}
		},
	}
}

// ---- range validation ----

type (
	namedString string
	namedInt    int
	namedU8     uint8
	namedF64    float64
)

// goData are Go values a caller can put into a typed value; kind names which declared type, if any, it is the data of.
var goData = []struct {
	name string
	of   int
	v    any
}{
	{"nil", gen.Any, nil}, {"uint8", gen.U8, uint8(7)}, {"uint16", gen.U16, uint16(7)}, {"uint32", gen.U32, uint32(7)},
	{"uint64", gen.U64, uint64(7)}, {"uint", gen.U, uint(7)}, {"int8", gen.I8, int8(7)}, {"int16", gen.I16, int16(7)},
	{"int32", gen.I32, int32(7)}, {"int64", gen.I64, int64(7)}, {"int", gen.I, int(7)}, {"float32", gen.F32, float32(7)},
	{"float64", gen.F64, float64(7)}, {"string", gen.Str, "7"}, {"empty string", gen.Str, ""}, {"zero int", gen.I, int(0)},
	{"+Inf", gen.F64, math.Inf(1)}, {"-Inf32", gen.F32, float32(math.Inf(-1))},
	{"NaN64", 0, math.NaN()}, {"NaN32", 0, float32(math.NaN())}, {"bool", 0, true}, {"bytes", 0, []byte("x")}, {"map", 0, map[string]int{}},
	{"pointer", 0, new(int)}, {"struct", 0, struct{}{}}, {"named string", 0, namedString("x")}, {"named int", 0, namedInt(1)},
	{"named uint8", 0, namedU8(1)}, {"named float64", 0, namedF64(1)}, {"complex", 0, complex(1, 1)}, {"uintptr", 0, uintptr(1)},
}

type validCase struct {
	Type     int
	Data     string
	Min, Max int
}

func validProp() vx.Prop[validCase] {
	types := append(append([]int{}, all...), 0, -1, 14, 15, 1023, 1025, 100)
	return vx.Prop[validCase]{
		Name: "validate", Rule: "the type is known",
		Gen: func(r *vx.R) validCase {
			c := validCase{Type: vx.PickS(r, types), Data: vx.PickS(r, goData).name}
			if r.Chance(0.6) {
				for _, g := range goData {
					if g.of == c.Type && r.Chance(0.7) {
						c.Data = g.name
					}
				}
			}
			c.Min, c.Max = vx.PickS(r, all), vx.PickS(r, all)
			if r.Chance(0.8) && c.Min > c.Max {
				c.Min, c.Max = c.Max, c.Min
			}
			return c
		},
		Run: func(c validCase, rec *vx.Rec) error {
			var d any
			of := -1
			for _, g := range goData {
				if g.name == c.Data {
					d, of = g.v, g.of
				}
			}
			known := (c.Type >= gen.U8 && c.Type <= gen.Str) || c.Type == gen.Any
			want := known && of == c.Type && c.Type >= c.Min && c.Type <= c.Max
			if known {
				rec.Nontrivial()
			}
			if want {
				rec.Label("valid")
			}
			ev := datatypes.EncapsulatedValue{Type: datatypes.DataType(c.Type), Data: d}
			lo, hi := datatypes.DataType(c.Min), datatypes.DataType(c.Max)
			if got := ev.Validate(lo, hi) == nil; got != want {
				return fmt.Errorf("value of type %d holding a %s: valid in [%d,%d] is %v, want %v", c.Type, c.Data, c.Min, c.Max, got, want)
			}
			if got := (datatypes.KeyValues{"k": ev}).Validate(lo, hi) == nil; got != want {
				return fmt.Errorf("key-values with a value of type %d holding a %s: valid in [%d,%d] is %v, want %v", c.Type, c.Data, c.Min, c.Max, got, want)
			}
			if wantT := known && c.Type >= c.Min && c.Type <= c.Max; (ev.Type.Validate(lo, hi) == nil) != wantT {
				return fmt.Errorf("type %d in [%d,%d]: want valid %v", c.Type, c.Min, c.Max, wantT)
			}
			if want { // whatever is accepted has to be usable
				_ = ev.Less(ev)
				if ev.LessMatchType(ev) {
					return fmt.Errorf("value of type %d holding a %s is less than itself", c.Type, c.Data)
				}
				if _, err := json.Marshal(ev); err != nil {
					return fmt.Errorf("valid value of type %d holding a %s cannot be encoded: %v", c.Type, c.Data, err)
				}
			}
			return nil
		},
		Shrink: func(c validCase) []validCase {
			return []validCase{{c.Type, c.Data, 1, 1024}, {c.Type, c.Data, 1, 13}}
		},
	}
}

func TestC01(t *testing.T) { vx.Check(t, orderProp(), validProp()) }
