package ds

import (
	"fmt"
	"sort"
	"testing"

	"github.com/DanLavine/willow/internal/datastructures/btree"
	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// ---- C04: the ordered tree against a sorted map ----

type btOp struct {
	K       string
	Key     gen.V
	TR      gen.TR
	Decline bool // the callback declines to create / to delete
	Stop    int  // visitor stops after this many visits (0: never)
}

type btCase struct {
	Node int
	Ops  []btOp
}

var btFinds = []string{"find", "ne", "lt", "lte", "gt", "gte"}

func genBt(r *vx.R) btCase {
	c := btCase{Node: vx.Pick(r, 2, 2, 2, 3, 3, 4, 5, 7)}
	types := gen.Types(r, r.Range(1, 3), 0.6)
	n := vx.Pick(r, 2, 4, 8, 16, 40)
	key := func() gen.V { return gen.Small(r, types, n) }
	outside := func() gen.V {
		if r.Chance(0.1) {
			return gen.Small(r, append([]int{gen.Any}, gen.Concrete...), n)
		}
		return key()
	}
	length := vx.Pick(r, 5, 20, 60, 150)
	phase := 0
	for i := 0; i < length; i++ {
		if i%20 == 0 {
			phase = r.IntN(3)
		}
		w := []int{6, 3, 4, 3, 1, 1}
		if phase == 1 {
			w = []int{2, 1, 3, 9, 3, 1}
		} else if phase == 2 {
			w = []int{12, 5, 1, 1, 0, 0}
		}
		o := btOp{TR: gen.GenTR(r, types), Stop: r.Weighted(5, 2, 1, 1, 1)}
		switch r.Weighted(w...) {
		case 0:
			o.K, o.Key, o.Decline = "create", key(), r.Chance(0.12)
		case 1:
			o.K, o.Key, o.Decline = "cof", key(), r.Chance(0.12)
		case 2:
			o.K, o.Key = vx.PickS(r, btFinds), outside()
			if o.Key.T == gen.Any && o.K != "find" {
				o.Key = gen.Small(r, []int{vx.PickS(r, gen.Concrete)}, n)
			}
		case 3:
			o.K, o.Key, o.Decline = "delete", key(), r.Chance(0.2)
		case 4:
			o.K, o.Key, o.Decline = "destroy", key(), r.Chance(0.3)
		case 5:
			if r.Chance(0.3) {
				o.K, o.Decline = "destroyAll", r.Chance(0.5)
			} else {
				o.K = "empty"
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

type btModel struct {
	keys []gen.V // sorted
	val  map[gen.V]int
}

func (m *btModel) add(k gen.V, v int) {
	i := sort.Search(len(m.keys), func(i int) bool { return gen.Cmp(m.keys[i], k) >= 0 })
	m.keys = append(m.keys, gen.V{})
	copy(m.keys[i+1:], m.keys[i:])
	m.keys[i] = k
	m.val[k] = v
}
func (m *btModel) del(k gen.V) {
	i := sort.Search(len(m.keys), func(i int) bool { return gen.Cmp(m.keys[i], k) >= 0 })
	m.keys = append(m.keys[:i], m.keys[i+1:]...)
	delete(m.val, k)
}

// want is what a lookup must visit.
func (m *btModel) want(k string, key gen.V, tr gen.TR) []gen.V {
	var out []gen.V
	for _, e := range m.keys {
		if !tr.In(e.T) {
			continue
		}
		c := gen.Cmp(e, key)
		ok := false
		switch k {
		case "find":
			ok = gen.Eq(e, key)
		case "ne":
			ok = c != 0
		case "lt":
			ok = c < 0 || e.T == gen.Any
		case "lte":
			ok = c <= 0 || e.T == gen.Any
		case "gt":
			ok = c > 0
		case "gte":
			ok = c >= 0
		}
		if ok {
			out = append(out, e)
		}
	}
	return out
}

func btLookup(t btree.BTree, k string) func(datatypes.EncapsulatedValue, gen.TR, btree.BTreeIterate) error {
	return func(key datatypes.EncapsulatedValue, tr gen.TR, f btree.BTreeIterate) error {
		switch k {
		case "find":
			return t.Find(key, tr.R(), f)
		case "ne":
			return t.FindNotEqual(key, tr.R(), f)
		case "lt":
			return t.FindLessThan(key, tr.R(), f)
		case "lte":
			return t.FindLessThanOrEqual(key, tr.R(), f)
		case "gt":
			return t.FindGreaterThan(key, tr.R(), f)
		case "gte":
			return t.FindGreaterThanOrEqual(key, tr.R(), f)
		}
		panic(k)
	}
}

// item is a value handed to the tree; the key travels with it so that misplaced values are seen.
type item struct {
	id  int
	key gen.V
}

func checkLookup(t btree.BTree, m *btModel, k string, key gen.V, tr gen.TR, stop int, rec *vx.Rec) error {
	want := map[gen.V]bool{}
	for _, e := range m.want(k, key, tr) {
		want[e] = true
	}
	seen := map[gen.V]bool{}
	visits := 0
	var bad error
	err := btLookup(t, k)(key.EV(), tr, func(ek datatypes.EncapsulatedValue, it any) bool {
		visits++
		v := gen.FromEV(ek)
		x, ok := it.(*item)
		switch {
		case !ok:
			bad = fmt.Errorf("visited %T", it)
		case x.key != v || m.val[v] != x.id:
			bad = fmt.Errorf("entry %v carries the item of %v (id %d, want %d)", v, x.key, x.id, m.val[v])
		case seen[v]:
			bad = fmt.Errorf("entry %v visited twice", v)
		case !want[v]:
			bad = fmt.Errorf("entry %v visited but does not satisfy the search", v)
		case stop > 0 && visits > stop:
			bad = fmt.Errorf("visited %d entries after the visitor said stop at %d", visits, stop)
		}
		seen[v] = true
		return stop == 0 || visits < stop
	})
	if err != nil {
		return fmt.Errorf("%s(%v, %v): unexpected error %v", k, key, tr, err)
	}
	if bad != nil {
		return fmt.Errorf("%s(%v, %v, stop %d): %v", k, key, tr, stop, bad)
	}
	n := len(want)
	if stop > 0 && stop < n {
		n = stop
		rec.Label("stopped early")
	}
	if visits != n {
		return fmt.Errorf("%s(%v, %v, stop %d): visited %d of %d entries", k, key, tr, stop, visits, n)
	}
	return nil
}

func runBt(c btCase, rec *vx.Rec) error {
	t, err := btree.NewThreadSafe(c.Node)
	if err != nil {
		return fmt.Errorf("NewThreadSafe(%d): %v", c.Node, err)
	}
	m := &btModel{val: map[gen.V]int{}}
	deleted, most := 0, 0
	for i, o := range c.Ops {
		at := func(f string, a ...any) error {
			return fmt.Errorf("op %d %s %v: %s", i, o.K, o.Key, fmt.Sprintf(f, a...))
		}
		id, has := m.val[o.Key]
		switch o.K {
		case "create", "cof":
			created, found := 0, 0
			var foundIt any
			onCreate := func() any {
				created++
				if o.Decline {
					return nil
				}
				return &item{i + 1, o.Key}
			}
			var err error
			if o.K == "create" {
				err = t.Create(o.Key.EV(), onCreate)
				if has != (err == btree.ErrorKeyAlreadyExists) || (!has && err != nil) {
					return at("exists %v but got error %v", has, err)
				}
			} else {
				err = t.CreateOrFind(o.Key.EV(), onCreate, func(it any) { found++; foundIt = it })
				if err != nil {
					return at("unexpected error %v", err)
				}
				if has && (found != 1 || foundIt.(*item).id != id) || !has && found != 0 {
					return at("exists %v, find callback ran %d times with %v", has, found, foundIt)
				}
			}
			if has && created != 0 || !has && created != 1 {
				return at("exists %v, create callback ran %d times", has, created)
			}
			if !has && !o.Decline {
				m.add(o.Key, i+1)
			}
			if !has && o.Decline {
				rec.Label("declined create")
			}
		case "delete", "destroy":
			calls := 0
			var badKey error
			can := func(k datatypes.EncapsulatedValue, it any) bool {
				calls++
				if x, ok := it.(*item); !ok || gen.FromEV(k) != o.Key || x.id != id {
					badKey = fmt.Errorf("delete check got %v %v", k, it)
				}
				return !o.Decline
			}
			var err error
			if o.K == "delete" {
				err = t.Delete(o.Key.EV(), can)
			} else {
				err = t.Destroy(o.Key.EV(), can)
			}
			if err != nil {
				return at("unexpected error %v", err)
			}
			if badKey != nil {
				return at("%v", badKey)
			}
			if has && calls != 1 || !has && calls != 0 {
				return at("exists %v, delete check ran %d times", has, calls)
			}
			if has && !o.Decline {
				m.del(o.Key)
				deleted++
			}
		case "destroyAll":
			calls := 0
			gone := map[gen.V]bool{}
			var bad error
			err := t.DestroyAll(func(k datatypes.EncapsulatedValue, it any) bool {
				calls++
				v := gen.FromEV(k)
				if x, ok := it.(*item); !ok || m.val[v] == 0 || x.id != m.val[v] || gone[v] {
					bad = fmt.Errorf("destroy check got %v %v (again %v)", k, it, gone[v])
				}
				if o.Decline && calls > o.Stop {
					return false
				}
				gone[v] = true
				return true
			})
			if err != nil || bad != nil {
				return at("error %v %v", err, bad)
			}
			n := len(m.keys)
			if o.Decline && o.Stop < n {
				n = o.Stop
				if calls != n+1 {
					return at("destroy check ran %d times after a refusal at %d", calls, n+1)
				}
			}
			if len(gone) != n {
				return at("destroyed %d of %d", len(gone), n)
			}
			for k := range gone {
				m.del(k)
			}
		case "empty":
		default:
			if err := checkLookup(t, m, o.K, o.Key, o.TR, o.Stop, rec); err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
		}
		if t.Empty() != (len(m.keys) == 0) {
			return at("Empty()=%v with %d entries", t.Empty(), len(m.keys))
		}
		most = max(most, len(m.keys))
		if i%7 == 0 || i == len(c.Ops)-1 || len(c.Ops) < 12 {
			if err := checkLookup(t, m, "find", gen.AnyV(), gen.FullTR(), 0, rec); err != nil {
				return at("afterwards: %v", err)
			}
			for _, k := range m.keys {
				if k.T != gen.Any {
					if err := checkLookup(t, m, "find", k, gen.TR{Min: k.T, Max: k.T}, 0, rec); err != nil {
						return at("afterwards: %v", err)
					}
				}
			}
		}
	}
	// every lock must be free again: a writer passes through the whole tree
	if err := t.DestroyAll(nil); err != nil {
		return fmt.Errorf("final destroy: %v", err)
	}
	if !t.Empty() {
		return fmt.Errorf("not empty after destroying everything")
	}
	if deleted > 0 && most > c.Node {
		rec.Nontrivial()
	}
	return nil
}

func shrinkBt(c btCase) []btCase {
	var out []btCase
	for _, ops := range vx.Cuts(c.Ops) {
		out = append(out, btCase{c.Node, ops})
	}
	for i, o := range c.Ops {
		if o.Stop != 0 {
			d := btCase{c.Node, append([]btOp{}, c.Ops...)}
			d.Ops[i].Stop = 0
			out = append(out, d)
		}
		if o.Decline {
			d := btCase{c.Node, append([]btOp{}, c.Ops...)}
			d.Ops[i].Decline = false
			out = append(out, d)
		}
	}
	return out
}

func TestC04(t *testing.T) {
	vx.Check(t, vx.Prop[btCase]{
		Name: "btree-model", Gen: genBt, Run: runBt, Shrink: shrinkBt,
		Rule: "operation sequence during which the tree held more entries than fit one node and something was deleted",
	})
}
