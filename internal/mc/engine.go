// Package mc is a small stateless model checker. A scenario is a deterministic
// function of a sequence of bounded choices; the explorer enumerates every
// choice sequence whose deviation cost is within the bound, exactly once each.
//
//   - Free(n) is a choice that is always fully enumerated (cost 0).
//   - Choose(n) is a choice whose alternatives 1..n-1 cost one deviation each
//     (context-bound style: a pre-emption, a fault, a feature switched on).
package mc

import (
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type choice struct {
	n    uint16
	c    uint16
	free bool
}

// Violation is the verdict of one execution.
type Violation struct {
	Sig    string   `json:"sig"`
	Detail string   `json:"detail"`
	Choice []int    `json:"choices"`
	Log    []string `json:"log,omitempty"`
	Scen   string   `json:"scenario"`
}

type failure struct{ sig, detail string }
type skip struct{}

// T is the handle of one execution.
type T struct {
	prefix  []uint16
	trace   []choice
	verbose bool
	log     []string
	steps   int
	states  []uint64
	cases   []uint64
	samples []string
	TT      *testing.T // for synctest scenarios
	Tier    string
	Long    int // for scenarios: which list of the execution is the long one, counted down
	nondet  bool
}

var seed = maphash.MakeSeed()

func h(s string) uint64 { return maphash.String(seed, s) }

func (t *T) choose(n int, free bool) int {
	if n <= 0 {
		panic(fmt.Sprintf("mc: choice among %d", n))
	}
	if n == 1 {
		return 0
	}
	if n > 65535 {
		panic("mc: too many alternatives")
	}
	i := len(t.trace)
	c := 0
	if i < len(t.prefix) {
		c = int(t.prefix[i])
		if c >= n { // the code under test behaved differently on re-execution
			t.nondet = true
			c = n - 1
		}
	}
	t.trace = append(t.trace, choice{uint16(n), uint16(c), free})
	t.steps++
	return c
}

// Choose returns 0..n-1; every value but 0 costs one deviation.
func (t *T) Choose(n int) int { return t.choose(n, false) }

// Free returns 0..n-1, all enumerated.
func (t *T) Free(n int) int { return t.choose(n, true) }

// Flip is a costed boolean, false by default.
func (t *T) Flip() bool { return t.Choose(2) == 1 }

// Pick is a costed choice among values (the first one is free).
func Pick[V any](t *T, vs ...V) V { return vs[t.Choose(len(vs))] }

// Each is a fully enumerated choice among values.
func Each[V any](t *T, vs ...V) V { return vs[t.Free(len(vs))] }

// Step counts one transition of the system under test.
func (t *T) Step() { t.steps++ }

// State records a reached state (deduplicated over the whole run).
func (t *T) State(s string) { t.states = append(t.states, h(s)) }

// Case records the identity of the case built by this execution.
func (t *T) Case(s string) { t.cases = append(t.cases, h(s)) }

// Sample offers a human readable sample of the execution.
func (t *T) Sample(f string, a ...interface{}) {
	if t.samples == nil || t.verbose {
		t.samples = append(t.samples, fmt.Sprintf(f, a...))
	}
}

// WantSample says whether the engine is interested in a sample.
func (t *T) WantSample() bool { return true }

// Logf records a line shown in the replay artefact only.
func (t *T) Logf(f string, a ...interface{}) {
	if t.verbose {
		t.log = append(t.log, fmt.Sprintf(f, a...))
	}
}

// Failf ends the execution with a violation.
func (t *T) Failf(sig, f string, a ...interface{}) {
	panic(failure{sig, fmt.Sprintf(f, a...)})
}

// Skip ends the execution: the choice sequence denotes nothing of interest.
func (t *T) Skip() { panic(skip{}) }

// Scenario is one bounded state space.
type Scenario struct {
	Name     string
	Bound    string   // human readable bound
	K        int      // deviation bound, quick
	KT       int      // deviation bound, thorough (0: same as K)
	Serial   bool     // run on one worker (touches process globals)
	Sync     bool     // wants a *testing.T for synctest
	Thorough bool     // only in the thorough tier
	Max      int      // safety cap on executions in quick (0: none); hitting it is reported as not exhaustive
	Run      func(*T) `json:"-"`
}

// Property is a set of scenarios.
type Property struct {
	ID          string
	Level       string // evidence level, model_checking by default
	Method      string
	Rule        string
	Race        bool // build the worker with the race detector and the scheduling overlay
	Assumptions []string
	Scenarios   []Scenario
}

// ScenReport is the measured coverage of one scenario.
type ScenReport struct {
	Name        string  `json:"name"`
	Bound       string  `json:"bound"`
	Deviations  int     `json:"deviation_bound"`
	Executions  int64   `json:"executions"`
	Transitions int64   `json:"transitions"`
	Exhaustive  bool    `json:"exhaustive"`
	MaxChoices  int     `json:"longest_choice_sequence"`
	Nondet      int64   `json:"nondeterministic_replays,omitempty"`
	Skipped     int64   `json:"skipped,omitempty"`
	WallS       float64 `json:"wall_s"`
}

// Report is what a worker hands to its parent.
type Report struct {
	Scens      []ScenReport
	States     int
	Cases      int
	Samples    []string
	Violations []Violation
	Known      []Violation
}

type set struct {
	sh [64]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
}

func newSet() *set {
	s := &set{}
	for i := range s.sh {
		s.sh[i].m = map[uint64]struct{}{}
	}
	return s
}
func (s *set) add(v uint64) {
	b := &s.sh[v>>58]
	b.Lock()
	b.m[v] = struct{}{}
	b.Unlock()
}
func (s *set) len() int {
	n := 0
	for i := range s.sh {
		n += len(s.sh[i].m)
	}
	return n
}

// Slot publishes what a worker goroutine is executing (for crash attribution).
type Slot interface {
	Begin(scen string, prefix []uint16)
	End()
}

// Options configure a run.
type Options struct {
	Tier     string
	Workers  int
	Deadline time.Time
	Slots    []Slot
	Known    func(sig string) bool
	TT       *testing.T
	MaxViol  int
	Only     string
	Phase    string // "sync": only scenarios that are Sync, "plain": only the others
}

type item struct{ p []uint16 }

// RunOne executes a scenario on one choice prefix.
func RunOne(s *Scenario, prefix []uint16, o *Options, verbose bool) (t *T, v *Violation) {
	t = &T{prefix: prefix, verbose: verbose, TT: o.TT, Tier: o.Tier}
	t.trace = make([]choice, 0, len(prefix)+16)
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case skip:
				t.steps = -1
				return
			case failure:
				v = &Violation{Sig: r.sig, Detail: r.detail}
			default:
				v = &Violation{Sig: "panic: " + PanicSig(r), Detail: fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))}
			}
			v.Scen = s.Name
			for _, c := range t.trace {
				v.Choice = append(v.Choice, int(c.c))
			}
			for len(v.Choice) > 0 && v.Choice[len(v.Choice)-1] == 0 {
				v.Choice = v.Choice[:len(v.Choice)-1]
			}
			v.Log = t.log
		}
	}()
	s.Run(t)
	return t, nil
}

// Guard runs f and converts a panic of the code under test into a failure
// value; engine control panics pass through.
func Guard(f func()) (p interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, skip:
				panic(r)
			}
			p, stack = r, trimStack(string(debug.Stack()))
		}
	}()
	f()
	return nil, ""
}

var hexRe = regexp.MustCompile(`0x[0-9a-f]+|\[[0-9:]+\]|[0-9]+`)

// PanicSig canonicalises a panic value.
func PanicSig(r interface{}) string {
	return hexRe.ReplaceAllString(fmt.Sprint(r), "N")
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Explore runs every scenario of p within its bounds.
func Explore(p *Property, o Options) *Report {
	rep := &Report{}
	states, cases := newSet(), newSet()
	for i := range p.Scenarios {
		s := &p.Scenarios[i]
		if o.Only != "" && o.Only != s.Name {
			continue
		}
		if o.Phase != "" && s.Sync != (o.Phase == "sync") {
			continue
		}
		if s.Thorough && o.Tier != "thorough" {
			continue
		}
		exploreScenario(s, &o, rep, states, cases)
		if len(rep.Violations) >= o.MaxViol {
			break
		}
	}
	rep.States, rep.Cases = states.len(), cases.len()
	return rep
}

func exploreScenario(s *Scenario, o *Options, rep *Report, states, cases *set) {
	start := time.Now()
	K := s.K
	if o.Tier == "thorough" && s.KT > K {
		K = s.KT
	}
	sr := ScenReport{Name: s.Name, Bound: s.Bound, Deviations: K}
	workers := o.Workers
	if s.Serial {
		workers = 1
	}
	if workers > len(o.Slots) {
		workers = len(o.Slots)
	}
	var (
		mu      sync.Mutex
		cond    = sync.NewCond(&mu)
		cur     = []item{{nil}}
		next    []item
		busy    int
		stop    atomic.Bool
		execs   atomic.Int64
		trans   atomic.Int64
		nondet  atomic.Int64
		skipped atomic.Int64
		maxLen  atomic.Int64
		samples []string
		sigs    = map[string]bool{}
		capped  atomic.Bool
	)
	for _, v := range rep.Known {
		sigs[v.Sig] = true
	}
	truncated := false
	for level := 0; level <= K && len(cur) > 0; level++ {
		next = nil
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				slot := o.Slots[w]
				var local []item
				var localNext []item
				for {
					if stop.Load() {
						break
					}
					var it item
					if len(local) > 0 {
						it = local[len(local)-1]
						local = local[:len(local)-1]
						// share surplus
						if len(local) > 0 && execs.Load()%16 == 0 {
							mu.Lock()
							if len(cur) < workers*4 {
								k := (len(local) + 1) / 2
								cur = append(cur, local[:k]...)
								local = append([]item(nil), local[k:]...)
								cond.Broadcast()
							}
							mu.Unlock()
						}
					} else {
						mu.Lock()
						if len(localNext) > 0 {
							next = append(next, localNext...)
							localNext = nil
						}
						for len(cur) == 0 && busy > 0 && !stop.Load() {
							cond.Wait()
						}
						if len(cur) == 0 || stop.Load() {
							cond.Broadcast()
							mu.Unlock()
							break
						}
						k := len(cur) / (workers * 2)
						if k < 1 {
							k = 1
						}
						if k > 64 {
							k = 64
						}
						local = append(local, cur[len(cur)-k:]...)
						cur = cur[:len(cur)-k]
						busy++
						mu.Unlock()
						it = local[len(local)-1]
						local = local[:len(local)-1]
					}
					slot.Begin(s.Name, it.p)
					t, v := RunOne(s, it.p, o, false)
					slot.End()
					n := execs.Add(1)
					if t.steps < 0 {
						skipped.Add(1)
					} else {
						trans.Add(int64(t.steps))
					}
					if t.nondet {
						nondet.Add(1)
					}
					for _, x := range t.states {
						states.add(x)
					}
					for _, x := range t.cases {
						cases.add(x)
					}
					if len(t.samples) > 0 && (n <= 2 || n&(n-1) == 0) {
						mu.Lock()
						if len(samples) < 6 {
							samples = append(samples, fmt.Sprintf("[%s dev=%d] %s", s.Name, level, t.samples[0]))
						}
						mu.Unlock()
					}
					if v != nil {
						mu.Lock()
						if o.Known != nil && o.Known(v.Sig) {
							if !sigs[v.Sig] {
								sigs[v.Sig] = true
								rep.Known = append(rep.Known, *v)
							}
						} else if !sigs[v.Sig] && len(rep.Violations) < o.MaxViol {
							sigs[v.Sig] = true
							slot.Begin(s.Name, it.p)
							fillDetail(s, v, o)
							slot.End()
							rep.Violations = append(rep.Violations, *v)
							if len(rep.Violations) >= o.MaxViol {
								stop.Store(true)
								cond.Broadcast()
							}
						}
						mu.Unlock()
					}
					// expand: deviations at positions not fixed by the prefix
					for {
						l := maxLen.Load()
						if int64(len(t.trace)) <= l || maxLen.CompareAndSwap(l, int64(len(t.trace))) {
							break
						}
					}
					cost := 0
					for _, c := range t.trace[:min(len(it.p), len(t.trace))] {
						if !c.free && c.c != 0 {
							cost++
						}
					}
					for i := len(t.trace) - 1; i >= len(it.p); i-- {
						c := t.trace[i]
						nc := cost
						if !c.free {
							nc++
						}
						if nc > K {
							continue
						}
						for a := 1; a < int(c.n); a++ {
							np := make([]uint16, i+1)
							for j := 0; j < i; j++ {
								np[j] = t.trace[j].c
							}
							np[i] = uint16(a)
							if nc > level {
								localNext = append(localNext, item{np})
							} else {
								local = append(local, item{np})
							}
						}
					}
					if len(localNext) > 4096 {
						mu.Lock()
						next = append(next, localNext...)
						mu.Unlock()
						localNext = nil
					}
					if len(local) == 0 {
						mu.Lock()
						next = append(next, localNext...)
						localNext = nil
						busy--
						cond.Broadcast()
						mu.Unlock()
					}
					if n%64 == 0 {
						if time.Now().After(o.Deadline) || (s.Max > 0 && o.Tier != "thorough" && n > int64(s.Max)) {
							capped.Store(true)
							stop.Store(true)
							mu.Lock()
							cond.Broadcast()
							mu.Unlock()
						}
					}
				}
			}(w)
		}
		wg.Wait()
		if stop.Load() {
			truncated = true
			break
		}
		cur = next
		// deterministic order, shortest first (LIFO: reverse)
		if len(cur) < 2000000 {
			sort.SliceStable(cur, func(i, j int) bool { return len(cur[i].p) > len(cur[j].p) })
		}
	}
	sr.Executions = execs.Load()
	sr.Transitions = trans.Load()
	sr.Exhaustive = !truncated && !capped.Load()
	sr.MaxChoices = int(maxLen.Load())
	sr.Nondet = nondet.Load()
	sr.Skipped = skipped.Load()
	sr.WallS = time.Since(start).Seconds()
	rep.Scens = append(rep.Scens, sr)
	if len(samples) > 4 {
		samples = samples[len(samples)-4:]
	}
	rep.Samples = append(rep.Samples, samples...)
	runtime.GC()
}

func fillDetail(s *Scenario, v *Violation, o *Options) {
	p := make([]uint16, len(v.Choice))
	for i, c := range v.Choice {
		p[i] = uint16(c)
	}
	same, n := 0, 3
	for i := 0; i < n; i++ {
		_, v2 := RunOne(s, p, o, true)
		if v2 != nil {
			if v2.Sig == v.Sig {
				same++
			}
			if v.Log == nil {
				v.Log = v2.Log
			}
		}
	}
	v.Log = append(v.Log, fmt.Sprintf("re-executed %d times, same verdict %d times", n, same))
}

// WriteJSON writes v indented.
func WriteJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

// IsControl says whether a recovered value is an engine control panic.
func IsControl(r interface{}) bool {
	switch r.(type) {
	case failure, skip:
		return true
	}
	return false
}

// Log returns the recorded log lines.
func (t *T) Log() []string { return t.log }
