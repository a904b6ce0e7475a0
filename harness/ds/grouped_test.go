package ds

import (
	"fmt"
	"sort"
	"testing"

	btreeonetomany "github.com/DanLavine/willow/internal/datastructures/btree_one_to_many"
	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// ---- C10: the grouped store against a map from owner to a map from key-values to item ----

type grOp struct {
	K      string
	Owner  int
	KV     gen.KV
	Idx    int // which known id, of any owner; negative: unknown
	No     bool
	Budget int
	Q      *gen.Q
	M      *gen.M
	Stop   int
}
type grCase struct{ Ops []grOp }

var grOwners = []string{"a", "b", "ab", "A", " ", "_associated_id"}

type grItem struct {
	owner int
	id    string
	kv    gen.KV
	tok   int
}

func genGr(r *vx.R) grCase {
	keys := genKeys(r)
	types := gen.Types(r, r.Range(1, 2), 0.4)
	n := vx.Pick(r, 1, 2, 2, 4)
	owners := r.Range(1, len(grOwners))
	var pool []gen.KV
	kv := func() gen.KV {
		if len(pool) > 0 && r.Chance(0.7) {
			return vx.PickS(r, pool).Clone()
		}
		k := gen.GenKV(r, keys, 3, types, n)
		pool = append(pool, k)
		return k
	}
	c := grCase{}
	for i := r.Range(4, 60); i > 0; i-- {
		o := grOp{Owner: r.IntN(owners), Idx: -1, Stop: 1 << 30}
		switch r.Weighted(12, 3, 3, 2, 2, 2) {
		case 0:
			o.K, o.KV, o.No = "cof", kv(), r.Chance(0.12)
		case 1:
			o.K, o.KV, o.No = "delete", kv(), r.Chance(0.2)
		case 2:
			o.K, o.Idx, o.No = "destroyID", r.IntN(30)-1, r.Chance(0.2)
		case 3:
			o.K, o.Budget = "destroyOne", vx.Pick(r, 0, 1, 2, 1000, 1000)
		case 4:
			q := gen.GenQ(r, gen.QOpts{Keys: keys, Types: types, N: n, IDs: 8, Depth: r.Weighted(3, 2, 1)})
			o.K, o.Q = "query", &q
		case 5:
			var around gen.KV
			if r.Chance(0.8) {
				around = kv()
			}
			m := gen.GenMatch(r, around, gen.QOpts{Keys: keys, Types: types, N: n}, 5)
			o.K, o.M = "match", &m
		}
		if r.Chance(0.15) {
			o.Stop = r.Range(1, 3)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runGr(c grCase, rec *vx.Rec) error {
	t := btreeonetomany.NewThreadSafe()
	live := make([]map[string]*grItem, len(grOwners))
	for i := range live {
		live[i] = map[string]*grItem{}
	}
	byID := map[string]*grItem{}
	var ids []string
	tok, shared := 0, 0

	same := func(what string, owner int, it *grItem, x btreeonetomany.OneToManyItem) error {
		if it == nil {
			return fmt.Errorf("%s: shows item %v of owner %q, which is not stored under %q", what, x.Value(), x.OneID(), grOwners[owner])
		}
		if x.Value() != any(it.tok) || x.OneID() != grOwners[it.owner] || it.owner != owner || (it.id != "" && x.ManyID() != it.id) || x.ManyID() == "" {
			return fmt.Errorf("%s: got item %v owner %q id %q, want %d owner %q id %q", what, x.Value(), x.OneID(), x.ManyID(), it.tok, grOwners[it.owner], it.id)
		}
		got := x.ManyKeyValues()
		if gen.FromKV(got).Canon() != it.kv.Canon() {
			return fmt.Errorf("%s: item %d has key-values %s, want %s", what, it.tok, gen.FromKV(got).Canon(), it.kv.Canon())
		}
		for k := range got {
			got[k] = datatypes.String("changed by the caller")
		}
		return nil
	}
	idOf := func(i int) string {
		if i < 0 || len(ids) == 0 {
			return fmt.Sprintf("no-such-id-%d", i)
		}
		return ids[i%len(ids)]
	}
	// look compares a lookup under one owner with the expected items
	look := func(what string, owner, stop int, want map[int]bool, run func(f btreeonetomany.OneToManyTreeIterate) error) error {
		seen := map[int]bool{}
		var bad error
		err := run(func(x btreeonetomany.OneToManyItem) bool {
			it := live[owner][gen.FromKV(x.ManyKeyValues()).Canon()]
			if e := same(what, owner, it, x); e != nil {
				bad = e
				return false
			}
			if seen[it.tok] {
				bad = fmt.Errorf("%s: visits item %d twice", what, it.tok)
			}
			seen[it.tok] = true
			return len(seen) < stop
		})
		if bad != nil {
			return bad
		}
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		for i := range seen {
			if !want[i] {
				return fmt.Errorf("%s: visits item %d which does not match", what, i)
			}
		}
		n := min(len(want), stop)
		if len(seen) != n {
			return fmt.Errorf("%s: visits %d of %d matching items (stop after %d)", what, len(seen), len(want), stop)
		}
		return nil
	}
	check := func() error {
		for ow := range live {
			want := map[int]bool{}
			for _, it := range live[ow] {
				want[it.tok] = true
			}
			all := gen.Q{}
			if err := look(fmt.Sprintf("select all of owner %q", grOwners[ow]), ow, 1<<30, want, func(f btreeonetomany.OneToManyTreeIterate) error {
				return t.QueryAction(grOwners[ow], all.AQ(nil), f)
			}); err != nil {
				return err
			}
		}
		return nil
	}

	for i, o := range c.Ops {
		where := fmt.Sprintf("op %d %s owner %q %s", i, o.K, grOwners[o.Owner], o.KV.Canon())
		owner := grOwners[o.Owner]
		var it *grItem
		id := idOf(o.Idx)
		if o.KV != nil {
			it = live[o.Owner][o.KV.Canon()]
		} else if x := byID[id]; x != nil && x.owner == o.Owner {
			it = x
		}
		var bad error
		asked := 0
		can := func(x btreeonetomany.OneToManyItem) bool {
			asked++
			if e := same(where, o.Owner, it, x); e != nil {
				bad = e
			}
			return !o.No
		}
		switch o.K {
		case "cof":
			tok++
			made, found := 0, 0
			in := o.KV.DT()
			rid, err := t.CreateOrFind(owner, in, func() any {
				made++
				if o.No {
					return nil
				}
				return tok
			}, func(x btreeonetomany.OneToManyItem) {
				found++
				if e := same(where, o.Owner, it, x); e != nil {
					bad = e
				}
			})
			for k := range in {
				delete(in, k)
				break
			}
			_, reserved := o.KV["_associated_id"]
			switch {
			case bad != nil:
				return bad
			case reserved:
				if err == nil || made+found != 0 {
					return fmt.Errorf("%s: the reserved key was accepted", where)
				}
			case err != nil:
				return fmt.Errorf("%s: %v", where, err)
			case it != nil:
				if made != 0 || found != 1 || rid != it.id {
					return fmt.Errorf("%s: item %d exists (id %s), got id %s after %d create and %d find callbacks", where, it.tok, it.id, rid, made, found)
				}
			case made != 1 || found != 0:
				return fmt.Errorf("%s: nothing stored, but %d create and %d find callbacks ran", where, made, found)
			case !o.No:
				if rid == "" || byID[rid] != nil {
					return fmt.Errorf("%s: id %q is empty or in use", where, rid)
				}
				n := &grItem{owner: o.Owner, id: rid, kv: o.KV.Clone(), tok: tok}
				live[o.Owner][o.KV.Canon()], byID[rid] = n, n
				ids = append(ids, rid)
				for ow := range live {
					if ow != o.Owner && live[ow][o.KV.Canon()] != nil {
						shared++
					}
				}
			}
		case "delete", "destroyID":
			var err error
			if o.K == "delete" {
				err = t.DeleteOneOfManyByKeyValues(owner, o.KV.DT(), can)
			} else {
				err = t.DestroyOneOfManyByID(owner, id, can)
			}
			if bad != nil {
				return bad
			}
			if err != nil {
				return fmt.Errorf("%s: %v", where, err)
			}
			if it != nil {
				if asked != 1 {
					return fmt.Errorf("%s: item %d is stored, but the callback ran %d times", where, it.tok, asked)
				}
				if !o.No {
					delete(live[o.Owner], it.kv.Canon())
					delete(byID, it.id)
				}
			}
		case "destroyOne":
			left := o.Budget
			had := len(live[o.Owner])
			err := t.DestroyOne(owner, func(x btreeonetomany.OneToManyItem) bool {
				it := live[o.Owner][gen.FromKV(x.ManyKeyValues()).Canon()]
				if e := same(where, o.Owner, it, x); e != nil {
					bad = e
					return false
				}
				if left == 0 {
					return false
				}
				left--
				delete(live[o.Owner], it.kv.Canon())
				delete(byID, it.id)
				return true
			})
			if bad != nil {
				return bad
			}
			if err != nil && had <= o.Budget {
				return fmt.Errorf("%s: %v", where, err)
			}
			if had <= o.Budget && len(live[o.Owner]) != 0 {
				return fmt.Errorf("%s: %d items survive although no removal was refused", where, len(live[o.Owner]))
			}
		case "query":
			aq := o.Q.AQ(func(i int) string { return idOf(i) })
			if aq.Validate() != nil {
				continue
			}
			ref := mapIDs(*o.Q, len(ids), func(i int) int { return i })
			want := map[int]bool{}
			for _, it := range live[o.Owner] {
				at := -1 << 30
				for i, x := range ids {
					if x == it.id {
						at = i
					}
				}
				if ref.Match(it.kv, at) {
					want[it.tok] = true
				}
			}
			if err := look(where, o.Owner, o.Stop, want, func(f btreeonetomany.OneToManyTreeIterate) error { return t.QueryAction(owner, aq, f) }); err != nil {
				return err
			}
		case "match":
			mq := o.M.MQ()
			if mq.Validate() != nil {
				continue
			}
			want := map[int]bool{}
			for _, it := range live[o.Owner] {
				if o.M.Match(it.kv) {
					want[it.tok] = true
				}
			}
			if err := look(where, o.Owner, o.Stop, want, func(f btreeonetomany.OneToManyTreeIterate) error { return t.MatchAction(owner, mq, f) }); err != nil {
				return err
			}
		}
		if err := check(); err != nil {
			return fmt.Errorf("after %s: %v", where, err)
		}
	}
	if shared > 0 {
		rec.Nontrivial()
	}
	return nil
}

func shrinkGr(c grCase) []grCase {
	var out []grCase
	for _, ops := range vx.Cuts(c.Ops) {
		out = append(out, grCase{ops})
	}
	for i := range c.Ops {
		ks := c.Ops[i].KV.Keys()
		sort.Strings(ks)
		for _, k := range ks {
			if len(ks) > 1 {
				ops := append([]grOp{}, c.Ops...)
				ops[i].KV = ops[i].KV.Clone()
				delete(ops[i].KV, k)
				out = append(out, grCase{ops})
			}
		}
	}
	return out
}

// the documented refusals of unusable parameters
type grArgs struct{ Which int }

func runGrArgs(c grArgs, rec *vx.Rec) error {
	t := btreeonetomany.NewThreadSafe()
	kv := datatypes.KeyValues{"a": datatypes.Int(1)}
	mk := func() any { return 1 }
	fd := func(btreeonetomany.OneToManyItem) {}
	it := func(btreeonetomany.OneToManyItem) bool { return true }
	all := gen.Q{}
	m := gen.AnyMatch(gen.KV{"a": gen.Int(1)})
	if _, err := t.CreateOrFind("o", kv, mk, fd); err != nil {
		return err
	}
	var err error
	what := ""
	switch c.Which % 10 {
	case 0:
		what = "create with an empty owner"
		_, err = t.CreateOrFind("", kv, mk, fd)
	case 1:
		what = "create with no key-values"
		_, err = t.CreateOrFind("o", nil, mk, fd)
	case 2:
		what = "create without a create callback"
		_, err = t.CreateOrFind("o", kv, nil, fd)
	case 3:
		what = "create without a find callback"
		_, err = t.CreateOrFind("o", kv, mk, nil)
	case 4:
		what = "query with an empty owner"
		err = t.QueryAction("", all.AQ(nil), it)
	case 5:
		what = "match with an empty owner"
		err = t.MatchAction("", m.MQ(), it)
	case 6:
		what = "destroy with an empty owner"
		err = t.DestroyOne("", it)
	case 7:
		what = "destroy by id with an empty id"
		err = t.DestroyOneOfManyByID("o", "", it)
	case 8:
		what = "delete with an empty owner"
		err = t.DeleteOneOfManyByKeyValues("", kv, it)
	case 9:
		what = "query without a visitor"
		err = t.QueryAction("o", all.AQ(nil), nil)
	}
	if err == nil {
		return fmt.Errorf("%s is accepted", what)
	}
	n := 0
	if err := t.QueryAction("o", all.AQ(nil), func(btreeonetomany.OneToManyItem) bool { n++; return true }); err != nil || n != 1 {
		return fmt.Errorf("after %s the store shows %d items (%v)", what, n, err)
	}
	rec.Nontrivial()
	return nil
}

func TestC10(t *testing.T) {
	vx.Check(t, vx.Prop[grCase]{
		Name: "grouped-store", Gen: genGr, Run: runGr, Shrink: shrinkGr, Weight: 50,
		Rule: "sequence in which two owners held the same key-values at once",
	}, vx.Prop[grArgs]{
		Name: "grouped-arguments", Gen: func(r *vx.R) grArgs { return grArgs{r.IntN(10)} }, Run: runGrArgs,
		Rule: "every call with an unusable parameter",
	})
}
