package vx

import (
	"fmt"
	"sort"
	"strings"
)

// CellOp is one completed operation on a single cell (absent, or holding an id > 0).
//
//	"put"    the cell was absent and now holds ID
//	"get"    the cell held ID (0: absent)
//	"not"    the cell did not hold ID
//	"has"    the cell held something
//	"del"    the cell held ID and is now absent
type CellOp struct {
	Kind       string
	ID         int
	Start, End int64
	What       string
}

// Linearizable reports whether the completed operations have an order, consistent with real time, in which each
// answer is right for one cell that starts absent.
func Linearizable(ops []CellOp) error {
	n := len(ops)
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].Start < ops[j].Start })
	done := make([]byte, n)
	seen := map[string]bool{}
	best := 0
	steps := 0
	var rec func(left, state int) bool
	rec = func(left, state int) bool {
		if left == 0 {
			return true
		}
		if n-left > best {
			best = n - left
		}
		steps++
		if steps > 2_000_000 {
			return true // give up silently: undecided is not a violation
		}
		key := string(done) + fmt.Sprint(state)
		if seen[key] {
			return false
		}
		seen[key] = true
		minEnd := int64(1<<62 - 1)
		for i := 0; i < n; i++ {
			if done[i] == 0 && ops[i].End < minEnd {
				minEnd = ops[i].End
			}
		}
		for i := 0; i < n && ops[i].Start <= minEnd; i++ {
			if done[i] == 1 {
				continue
			}
			o := ops[i]
			next := state
			ok := false
			switch o.Kind {
			case "put":
				ok, next = state == 0, o.ID
			case "get":
				ok = state == o.ID
			case "not":
				ok = state != o.ID
			case "has":
				ok = state != 0
			case "del":
				ok, next = state == o.ID && o.ID != 0, 0
			}
			if !ok {
				continue
			}
			done[i] = 1
			if rec(left-1, next) {
				return true
			}
			done[i] = 0
		}
		return false
	}
	if rec(n, 0) {
		return nil
	}
	var b strings.Builder
	for _, o := range ops {
		fmt.Fprintf(&b, " [%d-%d %s %s %d]", o.Start, o.End, o.What, o.Kind, o.ID)
	}
	s := b.String()
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return fmt.Errorf("no order of the operations explains their answers:%s", s)
}
