// Package vx is the property-testing engine used by every check in /verif: seeded generation, a per-case
// watchdog, greedy shrinking, replay, and a machine-readable report.
package vx

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// R is the random source handed to generators.
type R struct{ *rand.Rand }

func NewR(seed uint64) *R { return &R{rand.New(rand.NewPCG(seed, seed^0x9e3779b97f4a7c15))} }

func (r *R) Range(lo, hi int) int  { return lo + r.IntN(hi-lo+1) }
func (r *R) Chance(p float64) bool { return r.Float64() < p }
func (r *R) Bool() bool            { return r.IntN(2) == 0 }
func Pick[T any](r *R, xs ...T) T  { return xs[r.IntN(len(xs))] }
func PickS[T any](r *R, xs []T) T  { return xs[r.IntN(len(xs))] }
func (r *R) Weighted(ws ...int) int { // index by weight
	total := 0
	for _, w := range ws {
		total += w
	}
	n := r.IntN(total)
	for i, w := range ws {
		if n < w {
			return i
		}
		n -= w
	}
	return len(ws) - 1
}

// Rec records what a case reached; a case is non-trivial when Nontrivial was called.
type Rec struct {
	mu     sync.Mutex
	nt     bool
	labels map[string]int
	sample string
}

func (r *Rec) Nontrivial() { r.mu.Lock(); r.nt = true; r.mu.Unlock() }
func (r *Rec) Label(l string) {
	r.mu.Lock()
	if r.labels == nil {
		r.labels = map[string]int{}
	}
	r.labels[l]++
	r.mu.Unlock()
}

// Has reports whether all the labels were recorded.
func (r *Rec) Has(ls ...string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, l := range ls {
		if r.labels[l] == 0 {
			return false
		}
	}
	return true
}

// Prop is one executable check.
type Prop[C any] struct {
	Name   string
	Rule   string // when a case counts as non-trivial
	Gen    func(r *R) C
	Run    func(c C, rec *Rec) error
	Shrink func(c C) []C // candidate simplifications, most aggressive first
	Weight int
	Hang   time.Duration // real time after which a case counts as wedged
	Tries  int           // how often a case is retried when shrinking/replaying (schedule dependent cases)
	Fixed  func() []C    // cases that are always run first
}

// shrinkHang is the patience while shrinking; cases that run in real time (a long Hang) keep theirs.
func (p Prop[C]) shrinkHang() time.Duration {
	if p.hang() > time.Minute {
		return p.hang()
	}
	return min(p.hang(), 4*time.Second)
}

type Runner interface {
	name() string
	rule() string
	weight() int
	hang() time.Duration
	one(t *T, seed uint64) bool
	replay(t *T, data json.RawMessage) bool
	fixed(t *T) bool
}

func (p Prop[C]) name() string { return p.Name }
func (p Prop[C]) rule() string { return p.Rule }
func (p Prop[C]) weight() int {
	if p.Weight <= 0 {
		return 1
	}
	return p.Weight
}
func (p Prop[C]) hang() time.Duration {
	if p.Hang <= 0 {
		return 25 * time.Second
	}
	return p.Hang
}

type Violation struct {
	Sub     string          `json:"sub"`
	Message string          `json:"message"`
	Case    json.RawMessage `json:"case"`
	Shrunk  bool            `json:"shrunk"`
}

type report struct {
	Evaluations int               `json:"evaluations"`
	Nontrivial  int               `json:"nontrivial"`
	PerSub      map[string][2]int `json:"per_sub"`
	Labels      map[string]int    `json:"labels"`
	Rules       map[string]string `json:"rules"`
	Samples     []json.RawMessage `json:"samples"`
	Violations  []Violation       `json:"violations"`
	WallS       float64           `json:"wall_s"`
	Done        bool              `json:"done"`
}

type T struct {
	out           string
	rep           report
	mu            sync.Mutex
	tick          atomic.Int64 // ticks the current case has been running
	curHang       atomic.Int64
	running       atomic.Bool
	curSub        string
	curData       json.RawMessage
	deadline      time.Time
	start         time.Time
	perSubSamples map[string]int
	distinct      map[uint64]struct{}
}

func (t *T) write() {
	t.rep.WallS = time.Since(t.start).Seconds()
	hs := make([]byte, 0, 8*len(t.distinct))
	for h := range t.distinct {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	_ = os.WriteFile(t.out+".nt", hs, 0o644)
	b, _ := json.Marshal(t.rep)
	_ = os.WriteFile(t.out+".tmp", b, 0o644)
	_ = os.Rename(t.out+".tmp", t.out)
}

func (t *T) begin(sub string, data json.RawMessage, hang time.Duration) {
	t.mu.Lock()
	t.curSub, t.curData = sub, data
	t.mu.Unlock()
	t.curHang.Store(int64(3 * hang / (100 * time.Millisecond)))
	t.tick.Store(0)
	t.running.Store(true)
	b, _ := json.Marshal(Violation{Sub: sub, Case: data})
	_ = os.WriteFile(t.out+".cur", b, 0o644)
}
func (t *T) end() { t.running.Store(false) }

func (t *T) watchdog() {
	for {
		time.Sleep(100 * time.Millisecond)
		if t.running.Load() && t.tick.Add(1) > t.curHang.Load() {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			dump := string(buf[:n])
			_ = os.WriteFile(t.out+".stacks", buf[:n], 0o644)
			t.mu.Lock()
			t.rep.Violations = append(t.rep.Violations, Violation{Sub: t.curSub, Case: t.curData,
				Message: "operation never completed (wedged): " + hangSummary(dump)})
			t.mu.Unlock()
			t.rep.Done = true
			t.write()
			os.Exit(70)
		}
	}
}

func hangSummary(dump string) string {
	seen := map[string]int{}
	for _, g := range strings.Split(dump, "\n\n") {
		if !strings.Contains(g, "willow/") {
			continue
		}
		lines := strings.Split(g, "\n")
		head := lines[0]
		if i := strings.Index(head, "["); i >= 0 {
			head = strings.TrimSuffix(head[i:], ":")
		}
		for _, l := range lines[1:] {
			if strings.Contains(l, "DanLavine/willow/") && !strings.Contains(l, "verifx") && !strings.HasPrefix(l, "\t") {
				if i := strings.LastIndex(l, "("); i > 0 {
					l = l[:i]
				}
				seen[head+" "+strings.TrimPrefix(l, "github.com/DanLavine/willow/")]++
				break
			}
		}
	}
	keys := []string{}
	for k := range seen {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if len(keys) > 6 {
		keys = keys[:6]
	}
	return strings.Join(keys, "; ")
}

// safeRun runs one case in its own goroutine. A case that does not end within the limit is reported as wedged and
// its goroutines are left behind.
func (p Prop[C]) safeRun(c C, rec *Rec, limit time.Duration) error {
	done := make(chan error, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		done <- p.Run(c, rec)
	}()
	timer := time.NewTimer(limit)
	defer timer.Stop()
	select {
	case err := <-done:
		return err
	case <-timer.C:
	}
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	if f := os.Getenv("DEBUG_STACKS"); f != "" {
		_ = os.WriteFile(f, buf[:n], 0o644)
	}
	return fmt.Errorf("operation never completed (wedged): %s", hangSummary(string(buf[:n])))
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func (p Prop[C]) one(t *T, seed uint64) bool {
	c := p.Gen(NewR(seed))
	return p.exec(t, c)
}

func (p Prop[C]) fixed(t *T) bool {
	if p.Fixed == nil {
		return true
	}
	for _, c := range p.Fixed() {
		if !p.exec(t, c) {
			return false
		}
	}
	return true
}

func (p Prop[C]) exec(t *T, c C) bool {
	data, err := json.Marshal(c)
	if err != nil {
		panic(fmt.Sprintf("case does not marshal: %v", err))
	}
	rec := &Rec{}
	t.begin(p.Name, data, p.hang())
	err = p.safeRun(c, rec, p.hang())
	t.end()
	t.rep.Evaluations++
	ps := t.rep.PerSub[p.Name]
	ps[0]++
	rec.mu.Lock() // what the case left behind may still note something
	defer rec.mu.Unlock()
	if rec.nt {
		h := hash(p.Name + string(data))
		if _, dup := t.distinct[h]; !dup && len(t.distinct) < 1<<21 {
			t.distinct[h] = struct{}{}
			t.rep.Nontrivial++
			ps[1]++
		}
		if t.perSubSamples[p.Name] < 3 && len(data) < 4000 {
			t.perSubSamples[p.Name]++
			b, _ := json.Marshal(map[string]any{"sub": p.Name, "case": json.RawMessage(data)})
			t.rep.Samples = append(t.rep.Samples, b)
		}
	}
	t.rep.PerSub[p.Name] = ps
	for l, n := range rec.labels {
		t.rep.Labels[p.Name+"/"+l] += n
	}
	if err == nil {
		return true
	}
	if known(err) {
		t.rep.Labels[p.Name+"/known-finding"]++
		return true
	}
	// record the unshrunk violation first, so that a crash while shrinking loses nothing
	t.rep.Violations = append(t.rep.Violations, Violation{Sub: p.Name, Message: err.Error(), Case: data})
	t.write()
	best, bestErr, shrunk := p.shrink(t, c, err)
	bd, _ := json.Marshal(best)
	t.rep.Violations[len(t.rep.Violations)-1] = Violation{Sub: p.Name, Message: bestErr.Error(), Case: bd, Shrunk: shrunk}
	return false
}

func (p Prop[C]) shrink(t *T, c C, err error) (C, error, bool) {
	if p.Shrink == nil {
		return c, err, false
	}
	tries := p.Tries
	if tries <= 0 {
		tries = 1
	}
	stop := time.Now().Add(shrinkBudget())
	shrunk := false
again:
	for time.Now().Before(stop) {
		for _, cand := range p.Shrink(c) {
			if time.Now().After(stop) {
				break again
			}
			data, _ := json.Marshal(cand)
			for i := 0; i < tries; i++ {
				t.begin(p.Name, data, p.hang())
				e := p.safeRun(cand, &Rec{}, p.shrinkHang())
				t.end()
				if e != nil && !known(e) {
					c, err, shrunk = cand, e, true
					continue again
				}
			}
		}
		break
	}
	return c, err, shrunk
}

func (p Prop[C]) replay(t *T, data json.RawMessage) bool {
	var c C
	if err := json.Unmarshal(data, &c); err != nil {
		panic(err)
	}
	n := envInt("VX_REPLAY_TRIES", 1)
	if p.Tries > 0 {
		n *= p.Tries
	}
	for i := 0; i < n; i++ {
		t.begin(p.Name, data, p.hang())
		err := p.safeRun(c, &Rec{}, p.hang())
		t.end()
		t.rep.Evaluations++
		if err != nil {
			t.rep.Violations = append(t.rep.Violations, Violation{Sub: p.Name, Message: err.Error(), Case: data})
			return false
		}
	}
	return true
}

// known reports whether a failure is one that known-findings.txt lists (check.py passes the signatures).
func known(err error) bool {
	if err == nil {
		return false
	}
	for _, s := range strings.Split(os.Getenv("VX_KNOWN"), "\n") {
		if s != "" && strings.Contains(err.Error(), s) {
			return true
		}
	}
	return false
}

func shrinkBudget() time.Duration {
	return time.Duration(envInt("VX_SHRINK_MS", 15000)) * time.Millisecond
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Thorough reports whether the deep tier was asked for.
func Thorough() bool { return os.Getenv("VX_TIER") == "thorough" }

func hash(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

// Check drives the given checks within the budget and writes the report.
func Check(tt *testing.T, props ...Runner) {
	out := os.Getenv("VX_OUT")
	if out == "" {
		out = "/tmp/vx-report.json"
	}
	t := &T{out: out, start: time.Now(), perSubSamples: map[string]int{}, distinct: map[uint64]struct{}{}}
	t.rep.PerSub, t.rep.Labels, t.rep.Rules = map[string][2]int{}, map[string]int{}, map[string]string{}
	for _, p := range props {
		t.rep.Rules[p.name()] = p.rule()
	}
	go t.watchdog()
	finish := func() {
		t.rep.Done = true
		t.write()
		for _, v := range t.rep.Violations {
			tt.Errorf("%s: %s\ncase: %s", v.Sub, v.Message, v.Case)
		}
	}
	defer finish()

	if f := os.Getenv("VX_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			panic(err)
		}
		for _, p := range props {
			if p.name() == v.Sub {
				p.replay(t, v.Case)
				return
			}
		}
		panic("no check called " + v.Sub)
	}

	only := os.Getenv("VX_SUB")
	if only != "" {
		var keep []Runner
		for _, p := range props {
			if p.name() == only {
				keep = append(keep, p)
			}
		}
		props = keep
	}
	seed := uint64(envInt("VX_SEED", 1))
	shard := uint64(envInt("VX_SHARD", 0))
	budget := time.Duration(envInt("VX_BUDGET_MS", 5000)) * time.Millisecond
	maxCases := envInt("VX_CASES", 1<<30)

	if shard == 0 {
		for _, p := range props {
			if !p.fixed(t) {
				return
			}
		}
	}
	total := 0
	for _, p := range props {
		total += p.weight()
	}
	for _, p := range props {
		share := budget * time.Duration(p.weight()) / time.Duration(total)
		stop := time.Now().Add(share)
		base := hash(fmt.Sprintf("%d/%s", seed, p.name()))
		for i := 0; i < maxCases && (i < 3 || time.Now().Before(stop)); i++ {
			s := base + (uint64(i)*64+shard)*0x9e3779b97f4a7c15
			if !p.one(t, s) {
				return
			}
		}
		t.write()
	}
}

// Cuts returns shorter versions of xs: halves removed first, then quarters, down to single elements.
func Cuts[T any](xs []T) [][]T {
	var out [][]T
	n := len(xs)
	for size := (n + 1) / 2; size >= 1; size /= 2 {
		for start := 0; start < n; start += size {
			end := min(start+size, n)
			if end-start == n && n > 0 && size > 1 {
				continue
			}
			c := make([]T, 0, n-(end-start))
			c = append(c, xs[:start]...)
			c = append(c, xs[end:]...)
			out = append(out, c)
		}
		if size == 1 {
			break
		}
	}
	return out
}
