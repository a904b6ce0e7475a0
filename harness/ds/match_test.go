package ds

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"
	"github.com/DanLavine/willow/pkg/datamanipulation"
	"github.com/DanLavine/willow/pkg/models/datatypes"

	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	btreeonetomany "github.com/DanLavine/willow/internal/datastructures/btree_one_to_many"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
)

// newStore wires s to a plain tagged store, or to one owner of a grouped store in which the other owners hold
// the same key-values under other items.
func newStore(s *store, owners int) func(kv gen.KV, val int) (string, error) {
	if owners == 0 {
		t := btreeassociated.NewThreadSafe()
		s.query = func(q *queryassociatedaction.AssociatedActionQuery, f func(string, datatypes.KeyValues, any) bool) error {
			return t.QueryAction(q, func(x btreeassociated.AssociatedKeyValues) bool { return f(x.AssociatedID(), x.KeyValues(), x.Value()) })
		}
		s.match = func(m gen.M, f func(string, datatypes.KeyValues, any) bool) error {
			return t.MatchAction(m.MQ(), func(x btreeassociated.AssociatedKeyValues) bool { return f(x.AssociatedID(), x.KeyValues(), x.Value()) })
		}
		s.remove = func(kv gen.KV) error { return t.Delete(kv.DT(), nil) }
		return func(kv gen.KV, val int) (string, error) {
			return t.CreateOrFind(kv.DT(), func() any { return val }, func(btreeassociated.AssociatedKeyValues) {})
		}
	}
	t := btreeonetomany.NewThreadSafe()
	name := func(i int) string { return fmt.Sprintf("owner%d", i) }
	s.query = func(q *queryassociatedaction.AssociatedActionQuery, f func(string, datatypes.KeyValues, any) bool) error {
		return t.QueryAction(name(0), q, func(x btreeonetomany.OneToManyItem) bool { return f(x.ManyID(), x.ManyKeyValues(), x.Value()) })
	}
	s.match = func(m gen.M, f func(string, datatypes.KeyValues, any) bool) error {
		return t.MatchAction(name(0), m.MQ(), func(x btreeonetomany.OneToManyItem) bool { return f(x.ManyID(), x.ManyKeyValues(), x.Value()) })
	}
	s.remove = func(kv gen.KV) error { return t.DeleteOneOfManyByKeyValues(name(0), kv.DT(), nil) }
	return func(kv gen.KV, val int) (string, error) {
		for i := 1; i < owners; i++ {
			if _, err := t.CreateOrFind(name(i), kv.DT(), func() any { return -1 - val }, func(btreeonetomany.OneToManyItem) {}); err != nil {
				return "", err
			}
		}
		return t.CreateOrFind(name(0), kv.DT(), func() any { return val }, func(btreeonetomany.OneToManyItem) {})
	}
}

// ---- C08: matches against the reference meaning ----

type maCase struct {
	Items  []gen.KV
	Gone   []int
	M      gen.M
	StopAt int
	Owners int
}

func genMa(r *vx.R) maCase {
	keys := genKeys(r)
	if r.Chance(0.5) {
		keys = []string{"a", "b", "c", "d", "e"}
	}
	types := gen.Types(r, r.Range(1, 2), 0.7)
	n := vx.Pick(r, 1, 2, 2, 3)
	c := maCase{StopAt: 1 << 30}
	for i := r.IntN(16); i > 0; i-- {
		if len(c.Items) > 0 && r.Chance(0.3) {
			k := vx.PickS(r, c.Items).Clone()
			for x := range k {
				if len(k) > 1 {
					delete(k, x)
				}
				break
			}
			c.Items = append(c.Items, k)
			continue
		}
		c.Items = append(c.Items, gen.GenKV(r, keys, 5, types, n))
	}
	for i := range c.Items {
		if r.Chance(0.15) {
			c.Gone = append(c.Gone, i)
		}
	}
	var around gen.KV
	if len(c.Items) > 0 {
		around = vx.PickS(r, c.Items)
	}
	c.M = gen.GenMatch(r, around, gen.QOpts{Keys: keys, Types: types, N: n}, 6)
	if r.Chance(0.15) {
		c.StopAt = r.IntN(3)
	}
	if r.Chance(0.3) {
		c.Owners = r.Range(1, 3)
	}
	return c
}

func runMa(c maCase, rec *vx.Rec) error {
	s, err := fill(c.Owners, c.Items, c.Gone)
	if err != nil {
		return err
	}
	if err := c.M.MQ().Validate(); err != nil {
		rec.Label("invalid match")
		return nil
	}
	want := map[int]bool{}
	for _, i := range s.live {
		if c.M.Match(c.Items[i]) {
			want[i] = true
		}
	}
	if err := s.visits("match", c.Items, want, c.StopAt, func(f func(string, datatypes.KeyValues, any) bool) error { return s.match(c.M, f) }); err != nil {
		return err
	}
	if len(want) > 0 && len(want) < len(s.live) {
		rec.Nontrivial()
	}
	if len(want) > 2 {
		rec.Label("three or more matches")
	}
	return nil
}

func shrinkMa(c maCase) []maCase {
	var out []maCase
	for _, it := range vx.Cuts(c.Items) {
		d := c
		d.Items, d.Gone = it, nil
		out = append(out, d)
	}
	for _, g := range vx.Cuts(c.Gone) {
		d := c
		d.Gone = g
		out = append(out, d)
	}
	for k := range c.M.KV {
		if len(c.M.KV) > 1 {
			d := c
			d.M.KV = map[string]gen.MV{}
			for x, v := range c.M.KV {
				if x != k {
					d.M.KV[x] = v
				}
			}
			out = append(out, d)
		}
	}
	if c.Owners > 0 {
		d := c
		d.Owners = 0
		out = append(out, d)
	}
	return out
}

type pmCase struct {
	Keys     []string
	Min, Max int
}

func genPm(r *vx.R) pmCase {
	c := pmCase{Min: r.IntN(5), Max: -1}
	for i := r.IntN(9); i > 0; i-- {
		c.Keys = append(c.Keys, fmt.Sprintf("k%d", len(c.Keys)))
	}
	r.Shuffle(len(c.Keys), func(i, j int) { c.Keys[i], c.Keys[j] = c.Keys[j], c.Keys[i] })
	if r.Chance(0.6) {
		c.Max = c.Min + r.IntN(5)
	}
	return c
}

func runPm(c pmCase, rec *vx.Rec) error {
	in := append([]string{}, c.Keys...)
	got, err := datamanipulation.GenerateStringPermutations(in, c.Min, c.Max)
	if err != nil {
		return fmt.Errorf("bounds [%d,%d] refused: %v", c.Min, c.Max, err)
	}
	want := map[string]bool{}
	for m := 1; m < 1<<len(c.Keys); m++ {
		var s []string
		for i, k := range c.Keys {
			if m&(1<<i) != 0 {
				s = append(s, k)
			}
		}
		if len(s) < c.Min || (c.Max != -1 && len(s) > c.Max) {
			continue
		}
		sort.Strings(s)
		want[strings.Join(s, ",")] = true
	}
	seen := map[string]bool{}
	for _, g := range got {
		s := append([]string{}, g...)
		sort.Strings(s)
		k := strings.Join(s, ",")
		if seen[k] {
			return fmt.Errorf("combination {%s} appears twice", k)
		}
		seen[k] = true
		if !want[k] {
			return fmt.Errorf("combination {%s} is not a subset within [%d,%d]", k, c.Min, c.Max)
		}
	}
	if len(seen) != len(want) {
		for k := range want {
			if !seen[k] {
				return fmt.Errorf("combination {%s} within [%d,%d] is missing", k, c.Min, c.Max)
			}
		}
	}
	if len(want) > 3 {
		rec.Nontrivial()
	}
	return nil
}

func TestC08(t *testing.T) {
	vx.Check(t,
		vx.Prop[maCase]{Name: "match", Gen: genMa, Run: runMa, Shrink: shrinkMa, Weight: 8,
			Rule: "match that covers some but not all of the stored items"},
		vx.Prop[pmCase]{Name: "combinations", Gen: genPm, Run: runPm,
			Shrink: func(c pmCase) []pmCase {
				var out []pmCase
				for _, k := range vx.Cuts(c.Keys) {
					out = append(out, pmCase{k, c.Min, c.Max})
				}
				return out
			},
			Rule: "more than three combinations expected"})
}
