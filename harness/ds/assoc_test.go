package ds

import (
	"fmt"
	"sort"
	"testing"

	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"
	"github.com/DanLavine/willow/pkg/models/datatypes"

	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
)

// ---- C06: the tagged store against a map from key-values to item ----

type asOp struct {
	K      string
	KV     gen.KV
	Idx    int  // which known id (deleted ones included); negative: unknown id
	No     bool // the callback declines or refuses
	Budget int  // destroyTree: how many removals are allowed before refusing
}
type asCase struct {
	Ops []asOp
}

type asItem struct {
	id  string
	kv  gen.KV
	tok int
}

func genKeys(r *vx.R) []string {
	all := []string{"a", "b", "c", "aa", "_x", "key with space", ""}
	n := r.Range(1, 4)
	out := append([]string{}, all[:n]...)
	if r.Chance(0.3) {
		out = append(out, vx.PickS(r, all[4:6]))
	}
	return out
}

func genAs(r *vx.R) asCase {
	keys := genKeys(r)
	types := gen.Types(r, r.Range(1, 3), 0.4)
	n := vx.Pick(r, 1, 2, 2, 3, 6)
	var pool []gen.KV
	kv := func() gen.KV {
		if len(pool) > 0 && r.Chance(0.6) {
			k := vx.PickS(r, pool).Clone()
			if r.Chance(0.3) { // a neighbour: subset, superset or one changed value
				switch r.IntN(3) {
				case 0:
					for x := range k {
						if len(k) > 1 {
							delete(k, x)
						}
						break
					}
				case 1:
					k[vx.PickS(r, keys)] = gen.Small(r, types, n)
				case 2:
					for _, x := range k.Keys() {
						k[x] = gen.Small(r, types, n)
						break
					}
				}
			}
			return k
		}
		k := gen.GenKV(r, keys, 4, types, n)
		pool = append(pool, k)
		return k
	}
	c := asCase{}
	grow := r.Range(2, 8)
	for i := r.Range(3, 60); i > 0; i-- {
		o := asOp{Idx: -1}
		switch r.Weighted(grow, grow, 4, 3, 3, 1, 1) {
		case 0:
			o.K, o.KV, o.No = "create", kv(), r.Chance(0.12)
		case 1:
			o.K, o.KV, o.No = "cof", kv(), r.Chance(0.12)
		case 2:
			o.K, o.KV, o.No = "delete", kv(), r.Chance(0.2)
		case 3:
			o.K, o.Idx, o.No = "deleteID", r.IntN(30)-1, r.Chance(0.2)
		case 4:
			o.K, o.Idx, o.No = "destroyID", r.IntN(30)-1, r.Chance(0.2)
		case 5:
			o.K, o.Budget = "destroyTree", vx.Pick(r, 0, 1, 3, 1000, 1000)
		case 6:
			o.K = "check"
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runAs(c asCase, rec *vx.Rec) error {
	t := btreeassociated.NewThreadSafe()
	live := map[string]*asItem{} // by canonical key-values
	byID := map[string]*asItem{}
	var ids []string
	tok := 0
	big, refusals := 0, 0

	same := func(what string, it *asItem, x btreeassociated.AssociatedKeyValues) error {
		if x.Value().(int) != it.tok {
			return fmt.Errorf("%s: got item %v, want %d (%s)", what, x.Value(), it.tok, it.kv.Canon())
		}
		if it.id != "" && x.AssociatedID() != it.id {
			return fmt.Errorf("%s: item %d has id %q, want %q", what, it.tok, x.AssociatedID(), it.id)
		}
		got := x.KeyValues()
		if gen.FromKV(got).Canon() != it.kv.Canon() {
			return fmt.Errorf("%s: item %d has key-values %s, want %s", what, it.tok, gen.FromKV(got).Canon(), it.kv.Canon())
		}
		// the key-values handed out are a copy
		for k := range got {
			got[k] = datatypes.String("changed by the caller")
		}
		got["added by the caller"] = datatypes.Any()
		return nil
	}
	collect := func(q *queryassociatedaction.AssociatedActionQuery) (map[int]bool, error) {
		seen := map[int]bool{}
		var bad error
		err := t.QueryAction(q, func(x btreeassociated.AssociatedKeyValues) bool {
			k := gen.FromKV(x.KeyValues()).Canon()
			it := live[k]
			if it == nil {
				bad = fmt.Errorf("query shows key-values %s which are not stored", k)
				return false
			}
			if e := same("query", it, x); e != nil {
				bad = e
				return false
			}
			if seen[it.tok] {
				bad = fmt.Errorf("query shows item %d twice", it.tok)
				return false
			}
			seen[it.tok] = true
			return true
		})
		if bad != nil {
			return nil, bad
		}
		return seen, err
	}
	check := func() error {
		seen, err := collect(&queryassociatedaction.AssociatedActionQuery{})
		if err != nil {
			return fmt.Errorf("select all: %v", err)
		}
		if len(seen) != len(live) {
			return fmt.Errorf("select all shows %d items, %d are stored", len(seen), len(live))
		}
		for _, it := range live {
			for _, q := range []*queryassociatedaction.AssociatedActionQuery{
				queryassociatedaction.KeyValuesToExactAssociatedActionQuery(it.kv.DT()), queryassociatedaction.StringToAssociatedActionQuery(it.id)} {
				seen, err := collect(q)
				if err != nil {
					return err
				}
				if len(seen) != 1 || !seen[it.tok] {
					return fmt.Errorf("lookup of item %d (%s, id %s) shows %v", it.tok, it.kv.Canon(), it.id, seen)
				}
			}
		}
		for _, id := range ids {
			if byID[id] == nil {
				seen, err := collect(queryassociatedaction.StringToAssociatedActionQuery(id))
				if err != nil {
					return err
				}
				if len(seen) != 0 {
					return fmt.Errorf("the id of a removed item still finds %v", seen)
				}
			}
		}
		return nil
	}
	remove := func(it *asItem) {
		delete(live, it.kv.Canon())
		delete(byID, it.id)
	}

	for i, o := range c.Ops {
		where := fmt.Sprintf("op %d %s %s", i, o.K, o.KV.Canon())
		var it *asItem
		id := fmt.Sprintf("unknown-%d", o.Idx)
		if o.KV != nil {
			it = live[o.KV.Canon()]
		} else if o.Idx >= 0 && len(ids) > 0 {
			id = ids[o.Idx%len(ids)]
			it = byID[id]
		}
		var bad error
		asked := 0
		can := func(x btreeassociated.AssociatedKeyValues) bool {
			asked++
			if it == nil {
				bad = fmt.Errorf("%s: asked about item %v although nothing matches", where, x.Value())
			} else if e := same(where, it, x); e != nil {
				bad = e
			}
			return !o.No
		}
		switch o.K {
		case "create", "cof":
			tok++
			ran, found := 0, 0
			mk := func() any {
				ran++
				if o.No {
					return nil
				}
				return tok
			}
			in := o.KV.DT()
			var rid string
			var err error
			if o.K == "create" {
				rid, err = t.Create(in, mk)
			} else {
				rid, err = t.CreateOrFind(in, mk, func(x btreeassociated.AssociatedKeyValues) {
					found++
					if it == nil {
						bad = fmt.Errorf("%s: found item %v although none is stored", where, x.Value())
					} else if e := same(where, it, x); e != nil {
						bad = e
					}
				})
			}
			// what the caller does with its key-values afterwards is its own business
			for k := range in {
				delete(in, k)
				break
			}
			switch {
			case bad != nil:
				return bad
			case it != nil && o.K == "create":
				if err != btreeassociated.ErrorKeyValuesAlreadyExists || ran != 0 {
					return fmt.Errorf("%s: key-values exist, got error %v after %d create callbacks", where, err, ran)
				}
			case err != nil:
				return fmt.Errorf("%s: %v", where, err)
			case it != nil:
				if ran != 0 || found != 1 || rid != it.id {
					return fmt.Errorf("%s: item %d exists (id %s), got id %s after %d create and %d find callbacks", where, it.tok, it.id, rid, ran, found)
				}
			default:
				if ran != 1 || found != 0 {
					return fmt.Errorf("%s: nothing stored, but %d create and %d find callbacks ran", where, ran, found)
				}
				if o.No {
					refusals++
					break
				}
				if rid == "" || byID[rid] != nil {
					return fmt.Errorf("%s: id %q is empty or already in use", where, rid)
				}
				for _, x := range ids {
					if x == rid {
						return fmt.Errorf("%s: id %q was used before", where, rid)
					}
				}
				n := &asItem{id: rid, kv: o.KV.Clone(), tok: tok}
				live[o.KV.Canon()], byID[rid] = n, n
				ids = append(ids, rid)
			}
		case "delete", "deleteID", "destroyID":
			var err error
			switch o.K {
			case "delete":
				err = t.Delete(o.KV.DT(), can)
			case "deleteID":
				err = t.DeleteByAssociatedID(id, can)
			case "destroyID":
				err = t.DestroyByAssociatedID(id, can)
			}
			if bad != nil {
				return bad
			}
			if err != nil {
				return fmt.Errorf("%s: %v", where, err)
			}
			if want := 0; it != nil {
				want = 1
				if asked != want {
					return fmt.Errorf("%s: the item is stored, but the callback ran %d times", where, asked)
				}
				if !o.No {
					remove(it)
				} else {
					refusals++
				}
			}
		case "destroyTree":
			left := o.Budget
			err := t.DestroyTree(func(x btreeassociated.AssociatedKeyValues) bool {
				it := live[gen.FromKV(x.KeyValues()).Canon()]
				if it == nil {
					bad = fmt.Errorf("%s: asked about item %v which is not stored", where, x.Value())
					return false
				}
				if e := same(where, it, x); e != nil {
					bad = e
				}
				if left == 0 {
					return false
				}
				left--
				remove(it)
				return true
			})
			if bad != nil {
				return bad
			}
			if err != nil && left != 0 {
				return fmt.Errorf("%s: %v", where, err)
			}
			if left > 0 && len(live) != 0 {
				return fmt.Errorf("%s: %d items survive although no removal was refused", where, len(live))
			}
		case "check":
		}
		if len(live) > big {
			big = len(live)
		}
		if o.K == "check" || i%4 == 3 || i == len(c.Ops)-1 {
			if err := check(); err != nil {
				return fmt.Errorf("after %s: %v", where, err)
			}
		}
	}
	if big >= 3 {
		rec.Nontrivial()
	}
	if refusals > 0 {
		rec.Label("declined or refused")
	}
	return nil
}

func shrinkAs(c asCase) []asCase {
	var out []asCase
	for _, ops := range vx.Cuts(c.Ops) {
		out = append(out, asCase{ops})
	}
	for i := range c.Ops {
		if len(c.Ops[i].KV) > 1 {
			for _, k := range c.Ops[i].KV.Keys() {
				ops := append([]asOp{}, c.Ops...)
				ops[i].KV = ops[i].KV.Clone()
				delete(ops[i].KV, k)
				out = append(out, asCase{ops})
			}
		}
	}
	return out
}

func TestC06(t *testing.T) {
	vx.Check(t, vx.Prop[asCase]{
		Name: "tagged-store", Gen: genAs, Run: runAs, Shrink: shrinkAs,
		Rule: "sequence that held at least three items at once",
	})
}

// ---- C07: queries against the reference meaning ----

type quCase struct {
	Items  []gen.KV
	Gone   []int // items removed again before the query
	Q      gen.Q
	Tags   []gen.KV // tags judged by MatchTags only
	StopAt int      // the visitor stops after this many
	Owners int      // 0: plain tagged store; else grouped store with this many owners
}

func genQu(r *vx.R) quCase {
	keys := genKeys(r)
	types := gen.Types(r, r.Range(1, 3), 0.5)
	n := vx.Pick(r, 2, 3, 3, 6)
	c := quCase{StopAt: 1 << 30}
	for i := r.IntN(14); i > 0; i-- {
		c.Items = append(c.Items, gen.GenKV(r, keys, 4, types, n))
	}
	for i := range c.Items {
		if r.Chance(0.15) {
			c.Gone = append(c.Gone, i)
		}
	}
	for i := 0; i < 6; i++ {
		c.Tags = append(c.Tags, gen.GenKV(r, keys, 4, types, n))
	}
	c.Q = gen.GenQ(r, gen.QOpts{Keys: keys, Types: types, N: n, IDs: len(c.Items), Depth: r.Weighted(3, 3, 1)})
	if r.Chance(0.15) {
		c.StopAt = r.IntN(3)
	}
	if r.Chance(0.3) {
		c.Owners = r.Range(1, 3)
	}
	return c
}

type store struct {
	ids    []string
	live   map[string]int // canonical key-values -> index of first item
	idx    map[string]int // id -> index
	query  func(q *queryassociatedaction.AssociatedActionQuery, f func(id string, kv datatypes.KeyValues, val any) bool) error
	match  func(m gen.M, f func(id string, kv datatypes.KeyValues, val any) bool) error
	remove func(kv gen.KV) error
}

// fill loads items (duplicates collapse) and removes those in gone.
func fill(owners int, items []gen.KV, gone []int) (*store, error) {
	s := &store{live: map[string]int{}, idx: map[string]int{}}
	create := newStore(s, owners)
	for i, kv := range items {
		id, err := create(kv, i)
		if err != nil {
			return nil, err
		}
		if _, ok := s.live[kv.Canon()]; !ok {
			s.live[kv.Canon()] = i
			s.idx[id] = i
		}
		s.ids = append(s.ids, id)
	}
	for _, i := range gone {
		kv := items[i]
		if _, ok := s.live[kv.Canon()]; ok {
			if err := s.remove(kv); err != nil {
				return nil, err
			}
			delete(s.live, kv.Canon())
		}
	}
	return s, nil
}

// visits checks a lookup's visits against the set of expected items.
func (s *store) visits(what string, items []gen.KV, want map[int]bool, stopAt int, look func(f func(id string, kv datatypes.KeyValues, val any) bool) error) error {
	seen := map[int]bool{}
	n := 0
	var bad error
	err := look(func(id string, kv datatypes.KeyValues, val any) bool {
		n++
		i, ok := val.(int)
		if !ok || i < 0 || i >= len(items) {
			bad = fmt.Errorf("%s visited unknown item %v", what, val)
			return false
		}
		if gen.FromKV(kv).Canon() != items[i].Canon() || s.ids[i] != id {
			bad = fmt.Errorf("%s visited item %d with key-values %s and id %s, stored %s and %s", what, i, gen.FromKV(kv).Canon(), id, items[i].Canon(), s.ids[i])
			return false
		}
		if seen[i] {
			bad = fmt.Errorf("%s visited item %d (%s) twice", what, i, items[i].Canon())
			return false
		}
		seen[i] = true
		return n < stopAt
	})
	if bad != nil {
		return bad
	}
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	for i := range seen {
		if !want[i] {
			return fmt.Errorf("%s visited item %d (%s) which does not match", what, i, items[i].Canon())
		}
	}
	wantN := len(want)
	if stopAt < 1 {
		stopAt = 1
	}
	if wantN > stopAt {
		wantN = stopAt
	}
	if len(seen) != wantN {
		var missing []string
		for i := range want {
			if !seen[i] {
				missing = append(missing, fmt.Sprintf("%d (%s)", i, items[i].Canon()))
			}
		}
		sort.Strings(missing)
		return fmt.Errorf("%s visited %d of %d matching items (stop after %d); not visited: %v", what, len(seen), len(want), stopAt, missing)
	}
	return nil
}

func runQu(c quCase, rec *vx.Rec) error {
	s, err := fill(c.Owners, c.Items, c.Gone)
	if err != nil {
		return err
	}
	aq := c.Q.AQ(func(i int) string { return s.ids[i%len(s.ids)] })
	if err := aq.Validate(); err != nil {
		rec.Label("invalid query")
		return nil
	}
	// ids in the reference are indices of the item that owns the id
	canonID := func(i int) int { return s.live[c.Items[i].Canon()] }
	ref := mapIDs(c.Q, len(c.Items), func(i int) int {
		id := s.ids[i]
		return s.idx[id]
	})
	want := map[int]bool{}
	for _, i := range s.live {
		if ref.Match(c.Items[i], canonID(i)) {
			want[i] = true
		}
	}
	if err := s.visits("query", c.Items, want, c.StopAt, func(f func(string, datatypes.KeyValues, any) bool) error { return s.query(aq, f) }); err != nil {
		return err
	}
	if !c.Q.HasIDs() {
		for _, kv := range append(append([]gen.KV{}, c.Tags...), c.Items...) {
			if got, exp := aq.MatchTags(kv.DT()), c.Q.Match(kv, -1); got != exp {
				return fmt.Errorf("MatchTags(%s) = %v, a store holding it answers %v", kv.Canon(), got, exp)
			}
		}
	}
	if len(want) > 0 && len(want) < len(s.live) {
		rec.Nontrivial()
	}
	if c.Owners > 0 {
		rec.Label("grouped store")
	}
	if len(c.Q.And)+len(c.Q.Or) > 0 {
		rec.Label("nested query")
	}
	return nil
}

func mapIDs(q gen.Q, n int, f func(int) int) gen.Q {
	out := q
	if q.Sel != nil {
		s := *q.Sel
		s.IDs = nil
		for _, i := range q.Sel.IDs {
			if i >= 0 {
				if n > 0 {
					i = f(i % n)
				}
			} else {
				i = i - 1000
			}
			s.IDs = append(s.IDs, i)
		}
		out.Sel = &s
	}
	out.And, out.Or = nil, nil
	for _, a := range q.And {
		out.And = append(out.And, mapIDs(a, n, f))
	}
	for _, a := range q.Or {
		out.Or = append(out.Or, mapIDs(a, n, f))
	}
	return out
}

func shrinkQu(c quCase) []quCase {
	var out []quCase
	if !c.Q.HasIDs() {
		for _, it := range vx.Cuts(c.Items) {
			d := c
			d.Items, d.Gone = it, nil
			out = append(out, d)
		}
	}
	for _, g := range vx.Cuts(c.Gone) {
		d := c
		d.Gone = g
		out = append(out, d)
	}
	for _, t := range vx.Cuts(c.Tags) {
		d := c
		d.Tags = t
		out = append(out, d)
	}
	for _, q := range gen.ShrinkQ(c.Q) {
		d := c
		d.Q = q
		out = append(out, d)
	}
	for i := range c.Items {
		if len(c.Items[i]) > 1 {
			for _, k := range c.Items[i].Keys() {
				d := c
				d.Items = append([]gen.KV{}, c.Items...)
				d.Items[i] = d.Items[i].Clone()
				delete(d.Items[i], k)
				out = append(out, d)
			}
		}
	}
	if c.Owners > 0 {
		d := c
		d.Owners = 0
		out = append(out, d)
	}
	return out
}

func TestC07(t *testing.T) {
	vx.Check(t, vx.Prop[quCase]{
		Name: "query", Gen: genQu, Run: runQu, Shrink: shrinkQu,
		Rule: "query that selects some but not all of the stored items",
	})
}
