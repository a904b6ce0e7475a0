package ds

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/DanLavine/willow/internal/datastructures/btree"
	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// ---- C05: the ordered tree under concurrent use, each key a linearizable cell ----

type bcOp struct {
	K       string
	Key     gen.V
	TR      gen.TR
	Decline bool
	Pause   int // how long the callback dwells
}
type bcCase struct {
	Node    int
	Pre     []gen.V
	Workers [][]bcOp
}

func genBc(r *vx.R) bcCase {
	c := bcCase{Node: vx.Pick(r, 2, 2, 2, 3, 4, 5)}
	types := gen.Types(r, r.Range(1, 2), 0.3)
	n := vx.Pick(r, 3, 6, 12, 24)
	pre := map[gen.V]bool{}
	for i := r.IntN(n + 1); i > 0; i-- {
		pre[gen.Small(r, types, n)] = true
	}
	for k := range pre {
		c.Pre = append(c.Pre, k)
	}
	destroyAll := r.Chance(0.12)
	pause := func() int { return r.Weighted(8, 3, 1) }
	w := r.Range(2, 6)
	for i := 0; i < w; i++ {
		var ops []bcOp
		for j := r.Range(2, 14); j > 0; j-- {
			o := bcOp{Key: gen.Small(r, types, n), Pause: pause()}
			switch r.Weighted(5, 4, 3, 6, 2, 2, 1) {
			case 0:
				o.K, o.Decline = "create", r.Chance(0.1)
			case 1:
				o.K, o.Decline = "cof", r.Chance(0.1)
			case 2:
				o.K = "find"
			case 3:
				o.K, o.Decline = "delete", r.Chance(0.15)
			case 4:
				o.K, o.Decline = "destroy", r.Chance(0.15)
			case 5:
				o.K, o.TR = vx.Pick(r, "scan", "scan", "ne", "lt", "lte", "gt", "gte"), gen.GenTR(r, types)
				if o.Key.T == gen.Any && o.K != "scan" {
					o.K = "scan"
				}
				if o.K == "scan" {
					o.Key = gen.AnyV()
				}
			case 6:
				o.K = "find"
				if destroyAll {
					o.K = "destroyAll"
				}
			}
			ops = append(ops, o)
		}
		c.Workers = append(c.Workers, ops)
	}
	return c
}

func dwell(p int) {
	switch p {
	case 1:
		runtime.Gosched()
	case 2:
		time.Sleep(20 * time.Microsecond)
	}
}

type hist struct {
	mu    sync.Mutex
	cells map[string][]vx.CellOp
	clock atomic.Int64
	err   error
}

func (h *hist) now() int64 { return h.clock.Add(1) }
func (h *hist) add(key string, o vx.CellOp) {
	h.mu.Lock()
	h.cells[key] = append(h.cells[key], o)
	h.mu.Unlock()
}
func (h *hist) fail(f string, a ...any) {
	h.mu.Lock()
	if h.err == nil {
		h.err = fmt.Errorf(f, a...)
	}
	h.mu.Unlock()
}
func (h *hist) check() error {
	if h.err != nil {
		return h.err
	}
	for k, ops := range h.cells {
		if err := vx.Linearizable(ops); err != nil {
			return fmt.Errorf("key %s: %v", k, err)
		}
	}
	return nil
}

// span remembers when destroying calls ran, to judge the errors they may cause elsewhere.
type spans struct {
	mu sync.Mutex
	xs map[string][][2]int64
}

func (s *spans) add(k string, a, b int64) {
	s.mu.Lock()
	s.xs[k] = append(s.xs[k], [2]int64{a, b})
	s.mu.Unlock()
}
func (s *spans) overlaps(k string, a, b int64) bool {
	for _, x := range s.xs[k] {
		if x[0] < b && a < x[1] {
			return true
		}
	}
	return false
}

func runBc(c bcCase, rec *vx.Rec) error {
	t, err := btree.NewThreadSafe(c.Node)
	if err != nil {
		return err
	}
	h := &hist{cells: map[string][]vx.CellOp{}}
	var ids atomic.Int64
	all := map[gen.V]bool{}
	for _, ops := range c.Workers {
		for _, o := range ops {
			all[o.Key] = true
		}
	}
	for _, k := range c.Pre {
		all[k] = true
		id := int(ids.Add(1))
		s := h.now()
		if err := t.Create(k.EV(), func() any { return &item{id, k} }); err != nil {
			return fmt.Errorf("creating %v: %v", k, err)
		}
		h.add(k.String(), vx.CellOp{Kind: "put", ID: id, Start: s, End: h.now(), What: "create"})
	}
	destroys := &spans{xs: map[string][][2]int64{}}
	type refused struct {
		what, key string
		a, b      int64
	}
	var rmu sync.Mutex
	var refusals []refused
	refuse := func(o bcOp, err error, s int64) bool {
		e := h.now()
		switch err {
		case nil:
			return false
		case btree.ErrorKeyDestroying:
			rmu.Lock()
			refusals = append(refusals, refused{o.K, o.Key.String(), s, e})
			rmu.Unlock()
			return true
		case btree.ErrorTreeDestroying:
			rmu.Lock()
			refusals = append(refusals, refused{o.K, "*", s, e})
			rmu.Unlock()
			return true
		}
		return false
	}
	do := func(o bcOp) {
		ks := o.Key.String()
		s := h.now()
		switch o.K {
		case "create", "cof":
			id := int(ids.Add(1))
			created, found := 0, 0
			foundID := 0
			onCreate := func() any {
				created++
				dwell(o.Pause)
				if o.Decline {
					return nil
				}
				return &item{id, o.Key}
			}
			var err error
			if o.K == "create" {
				err = t.Create(o.Key.EV(), onCreate)
			} else {
				err = t.CreateOrFind(o.Key.EV(), onCreate, func(it any) {
					found++
					x := it.(*item)
					if x.key != o.Key {
						h.fail("create-or-find of %v found the item of %v", o.Key, x.key)
					}
					foundID = x.id
					dwell(o.Pause)
				})
			}
			e := h.now()
			if refuse(o, err, s) {
				if created+found != 0 {
					h.fail("%s %v ran a callback and returned %v", o.K, o.Key, err)
				}
				return
			}
			switch {
			case err == btree.ErrorKeyAlreadyExists && o.K == "create":
				if created != 0 {
					h.fail("create %v ran its callback although the key exists", o.Key)
				}
				h.add(ks, vx.CellOp{Kind: "has", Start: s, End: e, What: "create"})
			case err != nil:
				h.fail("%s %v: unexpected error %v", o.K, o.Key, err)
			case created+found != 1:
				h.fail("%s %v ran %d create and %d find callbacks", o.K, o.Key, created, found)
			case found == 1:
				h.add(ks, vx.CellOp{Kind: "get", ID: foundID, Start: s, End: e, What: o.K})
			case o.Decline:
				h.add(ks, vx.CellOp{Kind: "get", ID: 0, Start: s, End: e, What: o.K + " declined"})
			default:
				h.add(ks, vx.CellOp{Kind: "put", ID: id, Start: s, End: e, What: o.K})
			}
		case "find":
			got, n := 0, 0
			err := t.Find(o.Key.EV(), gen.TR{Min: o.Key.T, Max: o.Key.T}.R(), func(k datatypes.EncapsulatedValue, it any) bool {
				n++
				x := it.(*item)
				if x.key != o.Key {
					h.fail("find of %v visited the item of %v", o.Key, x.key)
				}
				got = x.id
				dwell(o.Pause)
				return true
			})
			e := h.now()
			if refuse(o, err, s) {
				return
			}
			if err != nil || n > 1 {
				h.fail("find %v: error %v, visits %d", o.Key, err, n)
			}
			h.add(ks, vx.CellOp{Kind: "get", ID: got, Start: s, End: e, What: "find"})
		case "delete", "destroy":
			got, n := 0, 0
			can := func(k datatypes.EncapsulatedValue, it any) bool {
				n++
				x := it.(*item)
				if x.key != o.Key || gen.FromEV(k) != o.Key {
					h.fail("%s of %v was asked about %v", o.K, o.Key, x.key)
				}
				got = x.id
				dwell(o.Pause)
				return !o.Decline
			}
			var err error
			if o.K == "delete" {
				err = t.Delete(o.Key.EV(), can)
			} else {
				err = t.Destroy(o.Key.EV(), can)
			}
			e := h.now()
			if o.K == "destroy" && err == nil {
				destroys.add(ks, s, e)
			}
			if refuse(o, err, s) {
				if n != 0 {
					h.fail("%s %v ran its callback and returned %v", o.K, o.Key, err)
				}
				return
			}
			if err != nil || n > 1 {
				h.fail("%s %v: error %v, checks %d", o.K, o.Key, err, n)
			}
			switch {
			case n == 0:
				h.add(ks, vx.CellOp{Kind: "get", ID: 0, Start: s, End: e, What: o.K})
			case o.Decline:
				h.add(ks, vx.CellOp{Kind: "get", ID: got, Start: s, End: e, What: o.K + " declined"})
			default:
				h.add(ks, vx.CellOp{Kind: "del", ID: got, Start: s, End: e, What: o.K})
			}
		case "scan", "ne", "lt", "lte", "gt", "gte":
			got := map[gen.V]int{}
			k := o.K
			if k == "scan" {
				k = "find"
			}
			err := btLookup(t, k)(o.Key.EV(), o.TR, func(k datatypes.EncapsulatedValue, it any) bool {
				v := gen.FromEV(k)
				x := it.(*item)
				if x.key != v {
					h.fail("scan: entry %v carries the item of %v", v, x.key)
				}
				if got[v] != 0 {
					h.fail("scan: entry %v visited twice", v)
				}
				got[v] = x.id
				if o.Pause > 0 && len(got)%3 == 0 {
					dwell(o.Pause)
				}
				return true
			})
			e := h.now()
			if refuse(o, err, s) {
				if len(got) != 0 {
					h.fail("%s visited entries and returned %v", o.K, err)
				}
				return
			}
			if err != nil {
				h.fail("%s: unexpected error %v", o.K, err)
			}
			m := &btModel{}
			for v := range all {
				m.keys = append(m.keys, v)
			}
			want := map[gen.V]bool{}
			for _, v := range m.want(k, o.Key, o.TR) {
				want[v] = true
				h.add(v.String(), vx.CellOp{Kind: "get", ID: got[v], Start: s, End: e, What: o.K})
			}
			for v := range got {
				if !want[v] {
					h.fail("%s(%v, %v) visited %v", o.K, o.Key, o.TR, v)
				}
			}
		case "destroyAll":
			gone := map[gen.V]int{}
			err := t.DestroyAll(func(k datatypes.EncapsulatedValue, it any) bool {
				v := gen.FromEV(k)
				if gone[v] != 0 {
					h.fail("destroy-all: entry %v visited twice", v)
				}
				gone[v] = it.(*item).id
				return true
			})
			e := h.now()
			if err == nil {
				destroys.add("*", s, e)
			}
			if refuse(o, err, s) {
				return
			}
			if err != nil {
				h.fail("destroy-all: %v", err)
			}
			for v := range all {
				if gone[v] != 0 {
					h.add(v.String(), vx.CellOp{Kind: "del", ID: gone[v], Start: s, End: e, What: "destroyAll"})
				} else {
					h.add(v.String(), vx.CellOp{Kind: "get", ID: 0, Start: s, End: e, What: "destroyAll"})
				}
			}
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, ops := range c.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, o := range ops {
				do(o)
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, r := range refusals {
		if !destroys.overlaps(r.key, r.a, r.b) {
			return fmt.Errorf("%s was refused as destroying (key %s) although nothing was being destroyed", r.what, r.key)
		}
	}
	// quiescent: one scan and one find per key, then nothing may still be locked
	do(bcOp{K: "scan", Key: gen.AnyV(), TR: gen.FullTR()})
	for v := range all {
		do(bcOp{K: "find", Key: v})
		do(bcOp{K: "delete", Key: v})
	}
	if err := h.check(); err != nil {
		return err
	}
	if !t.Empty() {
		return fmt.Errorf("not empty after everything was deleted")
	}
	over := 0
	for _, ops := range h.cells {
		for i := 1; i < len(ops); i++ {
			if ops[i].Start < ops[i-1].End {
				over++
			}
		}
	}
	if over > 0 {
		rec.Nontrivial()
	}
	return nil
}

func shrinkBc(c bcCase) []bcCase {
	var out []bcCase
	for _, w := range vx.Cuts(c.Workers) {
		out = append(out, bcCase{c.Node, c.Pre, w})
	}
	for _, p := range vx.Cuts(c.Pre) {
		out = append(out, bcCase{c.Node, p, c.Workers})
	}
	for i := range c.Workers {
		for _, ops := range vx.Cuts(c.Workers[i]) {
			w := append([][]bcOp{}, c.Workers...)
			w[i] = ops
			out = append(out, bcCase{c.Node, c.Pre, w})
		}
	}
	return out
}

func TestC05(t *testing.T) {
	vx.Check(t, vx.Prop[bcCase]{
		Name: "btree-concurrent", Gen: genBc, Run: runBc, Shrink: shrinkBc, Tries: 40, Hang: 30 * time.Second,
		Rule: "concurrent history in which operations on one key overlapped in time",
	})
}
