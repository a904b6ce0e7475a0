package ds

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"

	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	btreeonetomany "github.com/DanLavine/willow/internal/datastructures/btree_one_to_many"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
)

// ---- C09: the tagged stores under concurrent use, each (owner, key-values) a linearizable cell ----

type acOp struct {
	K     string
	KV    int // index into Pool
	Owner int
	Id    int // which of the ids known at that moment
	No    bool
	Ids   []int // queryIDs: which of the known ids
	Q     *gen.Q
	M     *gen.M
	Pause int
}
type acCase struct {
	Grouped bool
	Owners  int
	Pool    []gen.KV
	Pre     []int
	Workers [][]acOp
}

func genAc(r *vx.R) acCase {
	keys := []string{"a", "b", "c"}[:r.Range(1, 3)]
	types := gen.Types(r, 1, 0.4)
	n := vx.Pick(r, 1, 2, 3)
	c := acCase{Grouped: r.Chance(0.4), Owners: 1}
	if c.Grouped {
		c.Owners = r.Range(1, 2)
	}
	seen := map[string]bool{}
	for i := r.Range(1, 6); i > 0; i-- {
		kv := gen.GenKV(r, keys, 3, types, n)
		if !seen[kv.Canon()] {
			seen[kv.Canon()] = true
			c.Pool = append(c.Pool, kv)
		}
	}
	for i := range c.Pool {
		if r.Chance(0.5) {
			c.Pre = append(c.Pre, i)
		}
	}
	opts := gen.QOpts{Keys: keys, Types: types, N: n, NoIDs: true, Depth: r.Weighted(3, 1)}
	destroyTree := r.Chance(0.12)
	idOps := vx.Pick(r, 0, 2, 3)
	for i := r.Range(2, 6); i > 0; i-- {
		var ops []acOp
		for j := r.Range(2, 12); j > 0; j-- {
			o := acOp{KV: r.IntN(len(c.Pool)), Owner: r.IntN(c.Owners), Id: r.IntN(8), Pause: r.Weighted(8, 3, 1)}
			switch r.Weighted(8, 2, 5, idOps, idOps, 3, 3, 1) {
			case 0:
				o.K, o.No = "cof", r.Chance(0.12)
			case 1:
				o.K, o.No = "create", r.Chance(0.12)
			case 2:
				o.K, o.No = "delete", r.Chance(0.15)
			case 3:
				o.K, o.No = "deleteID", r.Chance(0.15)
			case 4:
				o.K, o.No = "destroyID", r.Chance(0.15)
			case 5:
				o.K = "query"
				q := gen.Q{}
				if r.Chance(0.7) {
					q = gen.GenQ(r, opts)
				}
				o.Q = &q
			case 6:
				o.K = "match"
				m := gen.GenMatch(r, c.Pool[o.KV], opts, 4)
				o.M = &m
				if r.Chance(0.4) {
					o.K, o.M, o.Ids = "queryIDs", nil, []int{o.Id, r.IntN(8), r.IntN(8)}
					if r.Chance(0.4) {
						q := gen.GenQ(r, gen.QOpts{Keys: keys, Types: types, N: n, NoIDs: true})
						o.Q = &q
					}
				}
			case 7:
				o.K = "cof"
				if destroyTree {
					o.K = "destroyTree"
				}
			}
			if c.Grouped && o.K == "create" {
				o.K = "cof"
			}
			if c.Grouped && o.K == "deleteID" {
				o.K = "delete"
			}
			ops = append(ops, o)
		}
		c.Workers = append(c.Workers, ops)
	}
	return c
}

type acItem struct {
	tok   int
	cell  string
	owner int
}

// acStore is the common face of both stores.
type acStore struct {
	create      func(o acOp, kv gen.KV, mk func() any) (string, error)
	cof         func(o acOp, kv gen.KV, mk func() any, found func(id string, kv gen.KV, v any)) (string, error)
	del         func(o acOp, kv gen.KV, can func(id string, kv gen.KV, v any) bool) error
	deleteID    func(o acOp, id string, can func(id string, kv gen.KV, v any) bool) error
	destroyID   func(o acOp, id string, can func(id string, kv gen.KV, v any) bool) error
	query       func(o acOp, q gen.Q, ids []string, f func(id string, kv gen.KV, v any) bool) error
	match       func(o acOp, f func(id string, kv gen.KV, v any) bool) error
	destroyTree func(o acOp, can func(id string, kv gen.KV, v any) bool) error
	itemErr     []error // an item being destroyed
	treeErr     error   // the whole store (or owner) being destroyed
}

func plainStore() *acStore {
	t := btreeassociated.NewThreadSafe()
	w := func(f func(id string, kv gen.KV, v any) bool) func(btreeassociated.AssociatedKeyValues) bool {
		return func(x btreeassociated.AssociatedKeyValues) bool {
			return f(x.AssociatedID(), gen.FromKV(x.KeyValues()), x.Value())
		}
	}
	return &acStore{
		create: func(o acOp, kv gen.KV, mk func() any) (string, error) { return t.Create(kv.DT(), mk) },
		cof: func(o acOp, kv gen.KV, mk func() any, found func(id string, kv gen.KV, v any)) (string, error) {
			return t.CreateOrFind(kv.DT(), mk, func(x btreeassociated.AssociatedKeyValues) {
				found(x.AssociatedID(), gen.FromKV(x.KeyValues()), x.Value())
			})
		},
		del: func(o acOp, kv gen.KV, can func(string, gen.KV, any) bool) error { return t.Delete(kv.DT(), w(can)) },
		deleteID: func(o acOp, id string, can func(string, gen.KV, any) bool) error {
			return t.DeleteByAssociatedID(id, w(can))
		},
		destroyID: func(o acOp, id string, can func(string, gen.KV, any) bool) error {
			return t.DestroyByAssociatedID(id, w(can))
		},
		query: func(o acOp, q gen.Q, ids []string, f func(string, gen.KV, any) bool) error {
			return t.QueryAction(q.AQ(func(i int) string { return ids[i] }), w(f))
		},
		match:       func(o acOp, f func(string, gen.KV, any) bool) error { return t.MatchAction(o.M.MQ(), w(f)) },
		destroyTree: func(o acOp, can func(string, gen.KV, any) bool) error { return t.DestroyTree(w(can)) },
		itemErr:     []error{btreeassociated.ErrorTreeItemDestroying},
		treeErr:     btreeassociated.ErrorTreeDestroying,
	}
}

func groupedStore() *acStore {
	t := btreeonetomany.NewThreadSafe()
	one := func(o acOp) string { return fmt.Sprintf("owner%d", o.Owner) }
	w := func(o acOp, f func(id string, kv gen.KV, v any) bool) func(btreeonetomany.OneToManyItem) bool {
		return func(x btreeonetomany.OneToManyItem) bool {
			if x.OneID() != one(o) {
				return f("wrong owner "+x.OneID(), gen.FromKV(x.ManyKeyValues()), x.Value())
			}
			return f(x.ManyID(), gen.FromKV(x.ManyKeyValues()), x.Value())
		}
	}
	return &acStore{
		cof: func(o acOp, kv gen.KV, mk func() any, found func(id string, kv gen.KV, v any)) (string, error) {
			return t.CreateOrFind(one(o), kv.DT(), mk, func(x btreeonetomany.OneToManyItem) { found(x.ManyID(), gen.FromKV(x.ManyKeyValues()), x.Value()) })
		},
		del: func(o acOp, kv gen.KV, can func(string, gen.KV, any) bool) error {
			return t.DeleteOneOfManyByKeyValues(one(o), kv.DT(), w(o, can))
		},
		destroyID: func(o acOp, id string, can func(string, gen.KV, any) bool) error {
			return t.DestroyOneOfManyByID(one(o), id, w(o, can))
		},
		query: func(o acOp, q gen.Q, ids []string, f func(string, gen.KV, any) bool) error {
			return t.QueryAction(one(o), q.AQ(func(i int) string { return ids[i] }), w(o, f))
		},
		match:       func(o acOp, f func(string, gen.KV, any) bool) error { return t.MatchAction(one(o), o.M.MQ(), w(o, f)) },
		destroyTree: func(o acOp, can func(string, gen.KV, any) bool) error { return t.DestroyOne(one(o), w(o, can)) },
		itemErr:     []error{btreeonetomany.ErrorManyIDDestroying, btreeonetomany.ErrorManyKeyValuesDestroying},
		treeErr:     btreeonetomany.ErrorOneIDDestroying,
	}
}

func runAc(c acCase, rec *vx.Rec) error {
	var s *acStore
	if c.Grouped {
		s = groupedStore()
	} else {
		s = plainStore()
	}
	h := &hist{cells: map[string][]vx.CellOp{}}
	var toks atomic.Int64
	type known struct {
		id  string
		tok int
		kv  int
	}
	var kmu sync.Mutex
	ids := make([][]known, c.Owners)
	idOf := map[int]string{}
	byCanon := map[string]int{}
	for i, kv := range c.Pool {
		byCanon[kv.Canon()] = i
	}
	cell := func(owner, kv int) string { return fmt.Sprintf("owner%d %s", owner, c.Pool[kv].Canon()) }
	destroying := &spans{xs: map[string][][2]int64{}}
	type refused struct {
		what string
		keys []string
		a, b int64
	}
	var refusals []refused

	// look validates one visited item and gives its cell and token.
	look := func(what string, o acOp, id string, kv gen.KV, v any) (int, int) {
		it, ok := v.(*acItem)
		if !ok {
			h.fail("%s visited %v", what, v)
			return -1, 0
		}
		i, ok := byCanon[kv.Canon()]
		if !ok || it.cell != cell(o.Owner, i) {
			h.fail("%s on owner%d visited item %d of %q under key-values %s", what, o.Owner, it.tok, it.cell, kv.Canon())
			return -1, 0
		}
		kmu.Lock()
		if x := idOf[it.tok]; x != "" && x != id {
			h.fail("%s: item %d has id %q, created with %q", what, it.tok, id, x)
		}
		kmu.Unlock()
		if id == "" {
			h.fail("%s: item %d has no id", what, it.tok)
		}
		return i, it.tok
	}
	refuse := func(o acOp, keys []string, err error, a int64) bool {
		b := h.now()
		tree := fmt.Sprintf("owner%d", o.Owner)
		if err == s.treeErr {
			keys = []string{tree}
		} else {
			hit := false
			for _, e := range s.itemErr {
				hit = hit || e == err
			}
			if !hit {
				return false
			}
			keys = append(keys, tree)
		}
		kmu.Lock()
		refusals = append(refusals, refused{o.K, keys, a, b})
		kmu.Unlock()
		return true
	}
	do := func(o acOp) {
		kv := c.Pool[o.KV]
		ck := cell(o.Owner, o.KV)
		start := h.now()
		switch o.K {
		case "create", "cof":
			tok := int(toks.Add(1))
			made, found, got := 0, 0, 0
			mk := func() any {
				made++
				dwell(o.Pause)
				if o.No {
					return nil
				}
				return &acItem{tok, ck, o.Owner}
			}
			var id string
			var err error
			if o.K == "create" {
				id, err = s.create(o, kv, mk)
			} else {
				id, err = s.cof(o, kv, mk, func(id string, k gen.KV, v any) {
					found++
					i, t := look("create-or-find", o, id, k, v)
					if i != -1 && i != o.KV {
						h.fail("create-or-find of %s found %s", kv.Canon(), k.Canon())
					}
					got = t
					dwell(o.Pause)
				})
			}
			end := h.now()
			if err != nil && refuse(o, []string{ck}, err, start) {
				if made+found != 0 {
					h.fail("%s %s ran a callback and was refused: %v", o.K, kv.Canon(), err)
				}
				return
			}
			switch {
			case o.K == "create" && err == btreeassociated.ErrorKeyValuesAlreadyExists:
				h.add(ck, vx.CellOp{Kind: "has", Start: start, End: end, What: "create"})
			case err != nil:
				h.fail("%s %s: %v", o.K, kv.Canon(), err)
			case made+found != 1:
				h.fail("%s %s ran %d create and %d find callbacks", o.K, kv.Canon(), made, found)
			case found == 1:
				h.add(ck, vx.CellOp{Kind: "get", ID: got, Start: start, End: end, What: o.K})
			case o.No:
				h.add(ck, vx.CellOp{Kind: "get", ID: 0, Start: start, End: end, What: o.K + " declined"})
			default:
				kmu.Lock()
				if id == "" {
					h.fail("%s %s created an item without id", o.K, kv.Canon())
				}
				for t, x := range idOf {
					if x == id {
						h.fail("items %d and %d share id %s", t, tok, id)
					}
				}
				idOf[tok] = id
				ids[o.Owner] = append(ids[o.Owner], known{id, tok, o.KV})
				kmu.Unlock()
				h.add(ck, vx.CellOp{Kind: "put", ID: tok, Start: start, End: end, What: o.K})
			}
		case "delete", "deleteID", "destroyID":
			asked, got, at := 0, 0, o.KV
			can := func(id string, k gen.KV, v any) bool {
				asked++
				at, got = look(o.K, o, id, k, v)
				dwell(o.Pause)
				return !o.No
			}
			var err error
			var want known
			if o.K == "delete" {
				err = s.del(o, kv, can)
			} else {
				kmu.Lock()
				if n := len(ids[o.Owner]); n > 0 {
					// the most recently created are the likeliest to be there still
					want = ids[o.Owner][max(0, n-1-o.Id)]
				}
				kmu.Unlock()
				if want.id == "" {
					return
				}
				at, ck = want.kv, cell(o.Owner, want.kv)
				if o.K == "deleteID" {
					err = s.deleteID(o, want.id, can)
				} else {
					err = s.destroyID(o, want.id, can)
				}
			}
			end := h.now()
			if o.K == "destroyID" {
				destroying.add(ck, start, end)
			}
			if err != nil && refuse(o, []string{ck}, err, start) {
				if asked != 0 {
					h.fail("%s %s asked and was refused: %v", o.K, ck, err)
				}
				return
			}
			if err != nil || asked > 1 || at == -1 {
				h.fail("%s %s: error %v after asking %d times", o.K, ck, err, asked)
				return
			}
			if asked == 1 && cell(o.Owner, at) != ck {
				h.fail("%s of %s asked about %s", o.K, ck, cell(o.Owner, at))
				return
			}
			if want.id != "" {
				switch {
				case asked == 1 && got != want.tok:
					h.fail("%s of id %s (item %d) asked about item %d", o.K, want.id, want.tok, got)
				case asked == 0:
					h.add(ck, vx.CellOp{Kind: "not", ID: want.tok, Start: start, End: end, What: o.K})
				case o.No:
					h.add(ck, vx.CellOp{Kind: "get", ID: got, Start: start, End: end, What: o.K + " refused"})
				default:
					h.add(ck, vx.CellOp{Kind: "del", ID: got, Start: start, End: end, What: o.K})
				}
				return
			}
			switch {
			case asked == 0:
				h.add(ck, vx.CellOp{Kind: "get", ID: 0, Start: start, End: end, What: o.K})
			case o.No:
				h.add(ck, vx.CellOp{Kind: "get", ID: got, Start: start, End: end, What: o.K + " refused"})
			default:
				h.add(ck, vx.CellOp{Kind: "del", ID: got, Start: start, End: end, What: o.K})
			}
		case "query", "match":
			seen := map[int]int{}
			f := func(id string, k gen.KV, v any) bool {
				i, t := look(o.K, o, id, k, v)
				if i == -1 {
					return false
				}
				if seen[i] != 0 {
					h.fail("%s visited %s twice (items %d and %d)", o.K, k.Canon(), seen[i], t)
				}
				seen[i] = t
				dwell(o.Pause)
				return true
			}
			var err error
			want := func(kv gen.KV) bool { return o.Q.Match(kv, -1) }
			if o.K == "query" {
				err = s.query(o, *o.Q, nil, f)
			} else {
				want = o.M.Match
				err = s.match(o, f)
			}
			end := h.now()
			if err != nil {
				if refuse(o, nil, err, start) {
					return
				}
				if o.K == "query" && o.Q.AQ(nil).Validate() != nil || o.K == "match" && o.M.MQ().Validate() != nil {
					return
				}
				h.fail("%s: %v", o.K, err)
				return
			}
			for i, kv := range c.Pool {
				if want(kv) {
					h.add(cell(o.Owner, i), vx.CellOp{Kind: "get", ID: seen[i], Start: start, End: end, What: o.K})
				} else if seen[i] != 0 {
					h.fail("%s visited %s which does not match", o.K, kv.Canon())
				}
			}
		case "queryIDs":
			// the items with the ids are visited, whatever happens to the items with the other ids meanwhile
			var asked []known
			var names []string
			q := gen.Q{Sel: &gen.Sel{}}
			if o.Q != nil && o.Q.Sel != nil {
				*q.Sel = *o.Q.Sel
			}
			q.Sel.IDs = nil
			kmu.Lock()
			for _, i := range o.Ids {
				n := len(ids[o.Owner])
				if n == 0 {
					break
				}
				x := ids[o.Owner][max(0, n-1-i)]
				dup := false
				for _, y := range asked {
					dup = dup || y == x
				}
				if !dup {
					q.Sel.IDs = append(q.Sel.IDs, len(asked))
					asked = append(asked, x)
					names = append(names, x.id)
				}
			}
			kmu.Unlock()
			if len(asked) == 0 {
				return
			}
			seen := map[int]int{}
			err := s.query(o, q, names, func(id string, k gen.KV, v any) bool {
				_, t := look(o.K, o, id, k, v)
				if t == 0 {
					return false
				}
				seen[t]++
				dwell(o.Pause)
				return true
			})
			end := h.now()
			if err != nil {
				if !refuse(o, nil, err, start) && q.AQ(func(i int) string { return names[i] }).Validate() == nil {
					h.fail("query by ids: %v", err)
				}
				return
			}
			for i, x := range asked {
				switch match := q.Match(c.Pool[x.kv], i); {
				case seen[x.tok] > 1:
					h.fail("query by ids visited item %d %d times", x.tok, seen[x.tok])
				case seen[x.tok] == 1 && !match:
					h.fail("query by ids visited item %d of %s which does not match", x.tok, c.Pool[x.kv].Canon())
				case seen[x.tok] == 1:
					h.add(cell(o.Owner, x.kv), vx.CellOp{Kind: "get", ID: x.tok, Start: start, End: end, What: o.K})
				case match:
					h.add(cell(o.Owner, x.kv), vx.CellOp{Kind: "not", ID: x.tok, Start: start, End: end, What: o.K})
				}
				delete(seen, x.tok)
			}
			for t := range seen {
				h.fail("query by ids %v visited item %d", names, t)
			}
		case "destroyTree":
			gone := map[int]int{}
			err := s.destroyTree(o, func(id string, k gen.KV, v any) bool {
				i, t := look("destroy-all", o, id, k, v)
				if i == -1 {
					return true
				}
				if gone[i] != 0 {
					h.fail("destroy-all asked about %s twice", k.Canon())
				}
				gone[i] = t
				return true
			})
			end := h.now()
			if err == nil {
				destroying.add(fmt.Sprintf("owner%d", o.Owner), start, end)
			} else if refuse(o, nil, err, start) {
				return
			} else {
				h.fail("destroy-all: %v", err)
				return
			}
			for i := range c.Pool {
				if gone[i] != 0 {
					h.add(cell(o.Owner, i), vx.CellOp{Kind: "del", ID: gone[i], Start: start, End: end, What: "destroyTree"})
				} else {
					h.add(cell(o.Owner, i), vx.CellOp{Kind: "get", ID: 0, Start: start, End: end, What: "destroyTree"})
				}
			}
		}
	}
	for _, i := range c.Pre {
		for ow := 0; ow < c.Owners; ow++ {
			do(acOp{K: "cof", KV: i, Owner: ow})
		}
	}
	var begin sync.WaitGroup
	begin.Add(1)
	var wg sync.WaitGroup
	for _, ops := range c.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			begin.Wait()
			for _, o := range ops {
				do(o)
			}
		}()
	}
	begin.Done()
	wg.Wait()
	for _, r := range refusals {
		ok := false
		for _, k := range r.keys {
			ok = ok || destroying.overlaps(k, r.a, r.b)
		}
		if len(r.keys) > 0 && !ok {
			return fmt.Errorf("%s was refused as destroying (%v) although nothing was being destroyed", r.what, r.keys)
		}
	}
	// quiescent: what is stored is seen by every kind of lookup, can be removed, and can be created again
	for ow := 0; ow < c.Owners; ow++ {
		all := gen.Q{}
		do(acOp{K: "query", Q: &all, Owner: ow})
		for i, kv := range c.Pool {
			m := gen.AnyMatch(kv)
			do(acOp{K: "match", M: &m, Owner: ow})
			do(acOp{K: "cof", KV: i, Owner: ow})
			do(acOp{K: "delete", KV: i, Owner: ow})
		}
		do(acOp{K: "query", Q: &all, Owner: ow})
	}
	// lookups may skip an item while a removal by id is asking for it, even if that is refused in the end
	for ck, ops := range h.cells {
		var keep []vx.CellOp
		owner := ck[:len("owner0")]
		for _, x := range ops {
			skip := (x.What == "query" || x.What == "match") && x.ID == 0 || (x.What == "deleteID" || x.What == "queryIDs") && x.Kind == "not"
			if skip && (destroying.overlaps(ck, x.Start, x.End) || destroying.overlaps(owner, x.Start, x.End)) {
				continue
			}
			keep = append(keep, x)
		}
		h.cells[ck] = keep
	}
	if err := h.check(); err != nil {
		return err
	}
	over := 0
	for _, ops := range h.cells {
		for i := 1; i < len(ops); i++ {
			if ops[i].Start < ops[i-1].End && (ops[i].Kind == "put" || ops[i].Kind == "del" || ops[i-1].Kind == "put" || ops[i-1].Kind == "del") {
				over++
			}
		}
	}
	if over > 0 {
		rec.Nontrivial()
	}
	if c.Grouped {
		rec.Label("grouped store")
	}
	if len(refusals) > 0 {
		rec.Label("refused while destroying")
	}
	return nil
}

func shrinkAc(c acCase) []acCase {
	var out []acCase
	for _, w := range vx.Cuts(c.Workers) {
		d := c
		d.Workers = w
		out = append(out, d)
	}
	for _, p := range vx.Cuts(c.Pre) {
		d := c
		d.Pre = p
		out = append(out, d)
	}
	for i := range c.Workers {
		for _, ops := range vx.Cuts(c.Workers[i]) {
			d := c
			d.Workers = append([][]acOp{}, c.Workers...)
			d.Workers[i] = ops
			out = append(out, d)
		}
	}
	return out
}

var _ = queryassociatedaction.AssociatedActionQuery{}

func TestC09(t *testing.T) {
	vx.Check(t, vx.Prop[acCase]{
		Name: "tagged-concurrent", Gen: genAc, Run: runAc, Shrink: shrinkAc, Tries: 40, Hang: 20 * time.Second,
		Rule: "concurrent history in which a create or removal overlapped another operation on the same key-values",
	})
}
