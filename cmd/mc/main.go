// Command mc builds the worker from /repo's working tree, supervises it
// (crashes and hangs of the code under test become verdicts), writes the
// evidence file and prints the verdict.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif3mf/internal/instr"
	"verif3mf/internal/mc"
)

const (
	hangAfter = 45 * time.Second
	soloLimit = 90 * time.Second
	rssLimit  = 14 << 30
	soloRSS   = 8 << 30
)

var root = "/verif"

// properties that are decided on the race build
var raceProps = map[string]bool{"C15": true, "C22": true, "C29": true, "C30": true}

// properties whose scenarios under schedules alone are decided on it
var mixedProps = map[string]bool{"C16": true}

type known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Sig      string `json:"signature,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(id string) ([]known, error) {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return nil, err
	}
	var all struct {
		Findings []known `json:"findings"`
	}
	if err := json.Unmarshal(b, &all); err != nil {
		return nil, err
	}
	var out []known
	for _, k := range all.Findings {
		if k.Property == id && k.Status == "known" {
			out = append(out, k)
		}
	}
	return out, nil
}

func main() {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		root = d
	}
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "check":
		if len(os.Args) < 3 {
			usage()
		}
		os.Exit(check(os.Args[2], has("--race") || raceProps[os.Args[2]], opt("--scen")))
	case "replay":
		if len(os.Args) < 3 {
			usage()
		}
		os.Exit(replay(os.Args[2]))
	case "setup":
		dir := scratch()
		defer os.RemoveAll(dir)
		for _, race := range []bool{false, true} {
			if _, err := build(dir, race); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
		}
	default:
		usage()
	}
}

func has(f string) bool {
	for _, a := range os.Args {
		if a == f {
			return true
		}
	}
	return false
}

func opt(f string) string {
	for i, a := range os.Args {
		if a == f && i+1 < len(os.Args) {
			return os.Args[i+1]
		}
	}
	return ""
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: mc check ID [--race] [--scen NAME] | replay FILE | setup")
	os.Exit(2)
}

func scratch() string {
	d, err := os.MkdirTemp("", "verif3mf-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return d
}

func build(dir string, race bool) (string, error) {
	bin := filepath.Join(dir, "worker")
	args := []string{"build", "-o", bin}
	if race {
		bin += "-race"
		ov := filepath.Join(dir, "overlay.json")
		args = []string{"build", "-race", "-overlay", ov, "-o", bin}
		if err := instr.Generate("/repo", filepath.Join(dir, "overlay"), ov, true); err != nil {
			return "", err
		}
	}
	args = append(args, "./cmd/worker")
	run := func() ([]byte, error) {
		cmd := exec.Command("go", args...)
		cmd.Dir = root
		return cmd.CombinedOutput()
	}
	out, err := run()
	if err != nil && race {
		// arguments of a go statement that need a type the overlay cannot tell
		fmt.Printf("overlay: %s\n", tail(string(out), 500))
		if err := instr.Generate("/repo", filepath.Join(dir, "overlay2"), filepath.Join(dir, "overlay.json"), false); err != nil {
			return "", err
		}
		out, err = run()
	}
	if err != nil {
		return "", fmt.Errorf("building the worker from /repo: %v\n%s", err, out)
	}
	return bin, nil
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

type outcome struct {
	code   int
	reason string // "", "hang", "memory"
	stderr string
}

// runWorker runs the worker, killing it when poll returns a reason.
func runWorker(bin string, args []string, poll func(pid int) string) outcome {
	cmd := exec.Command(bin, args...)
	cmd.Dir = root
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=7", "GOTRACEBACK=single")
	var stderr lim
	cmd.Stdout = &stderr
	cmd.Stderr = &stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return outcome{code: -1, stderr: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
	reason := ""
	for {
		select {
		case <-done:
			return outcome{cmd.ProcessState.ExitCode(), reason, stderr.String()}
		case <-tick.C:
			if reason == "" {
				if reason = poll(cmd.Process.Pid); reason != "" {
					_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				}
			}
		}
	}
}

type lim struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lim) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}
func (l *lim) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

type artefact struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Choices  []int    `json:"choices"`
	Sig      string   `json:"signature"`
	Detail   string   `json:"detail"`
	Log      []string `json:"log,omitempty"`
	Race     bool     `json:"race_build"`
	HowTo    string   `json:"replay_with"`
}

func save(id string, race bool, v mc.Violation) string {
	dir := filepath.Join(root, ".out", "replays")
	_ = os.MkdirAll(dir, 0o755)
	sum := sha256.Sum256([]byte(v.Scen + v.Sig + fmt.Sprint(v.Choice)))
	p := filepath.Join(dir, fmt.Sprintf("%s-%x.json", id, sum[:6]))
	a := artefact{id, v.Scen, v.Choice, v.Sig, v.Detail, v.Log, race, "cd /verif && ./run.sh replay " + p}
	if err := mc.WriteJSON(p, a); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	return p
}

func seed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

type phase struct {
	race bool
	only string // "plain", "sync" or both
}

type report struct {
	Property *mc.Property
	Report   *mc.Report
}

// explore runs the worker over the scenarios of a phase.
func explore(id, tier, scen, known string, budget time.Duration, ph phase) (rep report, viols []mc.Violation, rc int) {
	dir := scratch()
	defer os.RemoveAll(dir)
	bin, err := build(dir, ph.race)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return rep, nil, 2
	}
	workers := 8
	for attempt := 0; ; attempt++ {
		slotFile := filepath.Join(dir, fmt.Sprintf("slots%d", attempt))
		out := filepath.Join(dir, "report.json")
		mem, _, err := mc.MapSlots(slotFile, workers)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return rep, nil, 2
		}
		args := []string{"-prop", id, "-tier", tier, "-slots", slotFile, "-out", out, "-known", known, "-workers", strconv.Itoa(workers), "-budget", budget.String(), "-only", ph.only}
		if scen != "" {
			args = append(args, "-scen", scen)
		}
		var hung []int
		oc := runWorker(bin, args, func(pid int) string {
			if rss(pid) > rssLimit {
				return "memory"
			}
			for i := 0; i < workers; i++ {
				if _, st, _, _, run := mc.ReadSlot(mem, i); run && time.Since(st) > hangAfter {
					hung = append(hung, i)
				}
			}
			if len(hung) > 0 {
				return "hang"
			}
			return ""
		})
		if oc.code == 0 && oc.reason == "" {
			b, err := os.ReadFile(out)
			if err == nil {
				err = json.Unmarshal(b, &rep)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, err, oc.stderr)
				return rep, nil, 2
			}
			viols = rep.Report.Violations
			break
		}
		if oc.code == 3 && oc.reason == "" {
			fmt.Fprintln(os.Stderr, "worker error:", oc.stderr)
			return rep, nil, 2
		}
		// The code under test crashed, hung or exhausted memory: attribute it by
		// re-executing each in-flight execution alone.
		fmt.Printf("worker ended abnormally (exit %d %s)\n", oc.code, oc.reason)
		var cands []mc.Violation
		for i := 0; i < workers; i++ {
			_, _, sc, pre, run := mc.ReadSlot(mem, i)
			if run {
				cands = append(cands, mc.Violation{Scen: sc, Choice: pre})
			}
		}
		for _, c := range cands {
			fmt.Printf("  in flight: %s %v\n", c.Scen, c.Choice)
		}
		var wg sync.WaitGroup
		found := make([]*mc.Violation, len(cands))
		sem := make(chan struct{}, 4)
		for i, c := range cands {
			wg.Add(1)
			go func(i int, c mc.Violation) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				found[i] = solo(bin, dir, id, tier, c, i)
			}(i, c)
		}
		wg.Wait()
		for _, f := range found {
			if f != nil {
				viols = append(viols, *f)
			}
		}
		if len(viols) > 0 {
			viols = viols[:1]
			break
		}
		fmt.Fprintln(os.Stderr, "abnormal end did not reproduce:\n"+tail(oc.stderr, 4000))
		if attempt >= 1 {
			if oc.code == 66 && len(cands) > 0 && strings.Contains(oc.stderr, "WARNING: DATA RACE") {
				// The detector is never wrong about a race, only about where it looks.
				v := cands[0]
				v.Sig, v.Detail = "data race", oc.stderr
				viols = []mc.Violation{v}
				break
			}
			return rep, nil, 2
		}
	}
	return rep, viols, 0
}

func check(id string, race bool, scen string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	ks, err := loadKnown(id)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var sigs []string
	for _, k := range ks {
		sigs = append(sigs, k.Sig)
	}
	sj, _ := json.Marshal(sigs)
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 40 * time.Minute
	}
	if b := os.Getenv("VERIF_BUDGET"); b != "" {
		if d, err := time.ParseDuration(b); err == nil {
			budget = d
		}
	}
	phases := []phase{{race, ""}}
	if mixedProps[id] && !race {
		phases = []phase{{false, "plain"}, {true, "sync"}}
	}
	var rep report
	var viols []mc.Violation
	for _, ph := range phases {
		r, vs, rc := explore(id, tier, scen, string(sj), budget, ph)
		if rc != 0 {
			return rc
		}
		if race = ph.race; len(vs) > 0 || r.Report == nil {
			rep, viols = r, vs
			break
		}
		if rep.Report == nil {
			rep = r
			continue
		}
		a, b := rep.Report, r.Report
		a.Scens, a.Samples, a.Known = append(a.Scens, b.Scens...), append(a.Samples, b.Samples...), append(a.Known, b.Known...)
		a.States, a.Cases = a.States+b.States, a.Cases+b.Cases
	}
	isKnown := func(sig string) *known {
		for i := range ks {
			if ks[i].Sig == sig {
				return &ks[i]
			}
		}
		return nil
	}
	nviol := 0
	exit := 0
	for _, v := range viols {
		if k := isKnown(v.Sig); k != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
			continue
		}
		nviol++
		exit = 1
		p := save(id, race, v)
		fmt.Printf("violated: scenario %s, signature %s\n%s\n", v.Scen, v.Sig, tail(v.Detail, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
	}
	if rep.Report != nil {
		for _, v := range rep.Report.Known {
			if k := isKnown(v.Sig); k != nil {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
			}
		}
	}
	evidence(id, tier, rep.Property, rep.Report, nviol, time.Since(start).Seconds())
	return exit
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var (
	panicRe = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*|WARNING: DATA RACE|runtime: goroutine stack exceeds.*)$`)
	fnRe    = regexp.MustCompile(`(?m)^\s*(github\.com/hpinc/go3mf[^\s(]*)`)
)

func solo(bin, dir, id, tier string, c mc.Violation, i int) *mc.Violation {
	f := filepath.Join(dir, fmt.Sprintf("solo%d.json", i))
	out := filepath.Join(dir, fmt.Sprintf("soloout%d.json", i))
	_ = os.Remove(out)
	if err := mc.WriteJSON(f, map[string]interface{}{"scenario": c.Scen, "choices": c.Choice}); err != nil {
		return nil
	}
	start := time.Now()
	oc := runWorker(bin, []string{"-prop", id, "-tier", tier, "-solo", f, "-out", out}, func(pid int) string {
		if rss(pid) > soloRSS {
			return "memory"
		}
		if time.Since(start) > soloLimit {
			return "hang"
		}
		return ""
	})
	v := c
	switch {
	case oc.reason == "hang":
		v.Sig, v.Detail = "hang", fmt.Sprintf("the execution does not terminate within %v", soloLimit)
		return &v
	case oc.reason == "memory":
		v.Sig, v.Detail = "memory", "the execution allocates without bound"
		return &v
	case oc.code == 1 && strings.Contains(oc.stderr, "panic") == false:
		b, err := os.ReadFile(out)
		if err == nil && json.Unmarshal(b, &v) == nil && v.Sig != "" {
			return &v
		}
		return nil
	case oc.code == 0 || oc.code == 3:
		return nil
	}
	if b, err := os.ReadFile(out); err == nil {
		var w mc.Violation
		if json.Unmarshal(b, &w) == nil && w.Sig != "" {
			return &w
		}
	}
	sig := "crash"
	if m := panicRe.FindString(oc.stderr); m != "" {
		sig = "crash: " + mc.PanicSig(m)
		if strings.Contains(m, "DATA RACE") {
			sig = "data race"
			seen := map[string]bool{}
			for _, fn := range fnRe.FindAllStringSubmatch(oc.stderr, -1) {
				if !seen[fn[1]] && len(seen) < 4 {
					seen[fn[1]] = true
					sig += " " + strings.TrimPrefix(fn[1], "github.com/hpinc/go3mf")
				}
			}
		}
	}
	v.Sig, v.Detail = sig, tail(oc.stderr, 6000)
	return &v
}

func evidence(id, tier string, p *mc.Property, r *mc.Report, nviol int, wall float64) {
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed(), "wall_s": wall, "violations": nviol}
	cov := map[string]interface{}{}
	if p == nil || r == nil {
		ev["level"] = "other"
		cov["explanation"] = "the run ended when the code under test crashed; see the VIOLATION line"
	} else {
		if p.Level == "" {
			p.Level = "model_checking"
		}
		ev["level"] = p.Level
		if cov["method"] = p.Method; p.Method == "" {
			cov["method"] = "stateless model checking of the real code: every choice sequence within the bounds is executed and compared with a reference model"
		}
		if p.Rule == "" {
			p.Rule = "every execution within the bounds below is run on the code built from /repo and judged by the property's oracle"
		}
		var execs, trans int64
		exh := true
		for _, s := range r.Scens {
			execs += s.Executions - s.Skipped
			trans += s.Transitions
			exh = exh && s.Exhaustive
		}
		samples := r.Samples
		if samples == nil {
			samples = []string{}
		}
		if len(samples) > 24 {
			samples = samples[:24]
		}
		for i := range samples {
			samples[i] = tail(samples[i], 1500)
		}
		cov["samples"] = samples
		cov["exhaustive"] = exh
		cov["scenarios"] = r.Scens
		if p.Level == "model_checking" {
			cov["states"] = r.States
			cov["transitions"] = trans
			cov["traces_validated_against_impl"] = execs
			cov["distinct_cases"] = r.Cases
			cov["rule"] = p.Rule
		} else {
			cov["evaluations"] = execs
			cov["distinct_nontrivial"] = r.Cases
			cov["rule"] = p.Rule
			cov["choice_points"] = trans
		}
		if len(p.Assumptions) > 0 {
			ev["assumptions"] = p.Assumptions
		}
	}
	ev["coverage"] = cov
	_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := mc.WriteJSON(filepath.Join(root, "evidence", id+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	b, _ := json.Marshal(cov["scenarios"])
	fmt.Printf("%s tier=%s wall=%.1fs %s\n", id, tier, wall, b)
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var a artefact
	if err := json.Unmarshal(b, &a); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	bin, err := build(dir, a.Race)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	v := solo(bin, dir, a.Property, "quick", mc.Violation{Scen: a.Scenario, Choice: a.Choices}, 0)
	if v == nil {
		fmt.Println("replay: the property held on this execution")
		return 0
	}
	fmt.Printf("replay: %s\n%s\n", v.Sig, v.Detail)
	for _, l := range v.Log {
		fmt.Println("  ", l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", a.Property, file)
	return 1
}
