// Command worker runs one property's exploration in-process. It is built from
// /repo's working tree by cmd/mc and supervised by it.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"testing"
	"time"

	"verif3mf/internal/mc"
	"verif3mf/internal/props"
)

var (
	fProp    = flag.String("prop", "", "property")
	fTier    = flag.String("tier", "quick", "tier")
	fSlots   = flag.String("slots", "", "slot file")
	fOut     = flag.String("out", "", "report file")
	fBudget  = flag.Duration("budget", 120*time.Second, "time budget")
	fKnown   = flag.String("known", "", "JSON array of known signatures")
	fSolo    = flag.String("solo", "", "JSON replay file: run one execution only")
	fScen    = flag.String("scen", "", "only this scenario")
	fWorkers = flag.Int("workers", runtime.GOMAXPROCS(0), "workers")
	fOnly    = flag.String("only", "", "only scenarios under schedules (sync) or the others (plain)")
	fMaxViol = flag.Int("maxviol", 1, "stop after this many violations")
	fList    = flag.Bool("list", false, "list properties")
)

type solo struct {
	Scen    string `json:"scenario"`
	Choices []int  `json:"choices"`
}

func main() {
	testing.Init()
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	if *fList {
		for _, p := range props.All() {
			fmt.Println(p.ID, p.Level, p.Race)
		}
		return
	}
	p := props.Get(*fProp)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(3)
	}
	// synctest needs a *testing.T: run as the only test of a test main
	testing.Main(func(pat, str string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "mc", F: func(tt *testing.T) { os.Exit(run(p, tt)) }}}, nil, nil)
	os.Exit(3)
}

func run(p *mc.Property, tt *testing.T) int {
	var known []string
	if *fKnown != "" {
		if err := json.Unmarshal([]byte(*fKnown), &known); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	o := mc.Options{Tier: *fTier, Workers: *fWorkers, Deadline: time.Now().Add(*fBudget), TT: tt, MaxViol: *fMaxViol, Only: *fScen, Phase: *fOnly,
		Known: func(s string) bool {
			for _, k := range known {
				if k == s {
					return true
				}
			}
			return false
		}}
	if *fSolo != "" {
		var s solo
		b, err := os.ReadFile(*fSolo)
		if err == nil {
			err = json.Unmarshal(b, &s)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		for i := range p.Scenarios {
			if p.Scenarios[i].Name != s.Scen {
				continue
			}
			pre := make([]uint16, len(s.Choices))
			for i, c := range s.Choices {
				pre[i] = uint16(c)
			}
			// What a process does for the first time can order goroutines that
			// nothing orders later: give races more than one occasion.
			var t *mc.T
			var v *mc.Violation
			for n := 0; n < 3 && v == nil; n++ {
				t, v = mc.RunOne(&p.Scenarios[i], pre, &o, n == 2)
			}
			if v == nil {
				v = &mc.Violation{Log: t.Log()}
			}
			if *fOut != "" {
				if err := mc.WriteJSON(*fOut, v); err != nil {
					return 3
				}
			} else {
				b, _ := json.MarshalIndent(v, "", " ")
				fmt.Println(string(b))
				fmt.Println(v.Detail)
			}
			if v.Sig != "" {
				return 1
			}
			return 0
		}
		fmt.Fprintln(os.Stderr, "unknown scenario", s.Scen)
		return 3
	}
	if p := os.Getenv("VERIF_PROFILE"); p != "" {
		f, err := os.Create(p)
		if err == nil && pprof.StartCPUProfile(f) == nil {
			defer pprof.StopCPUProfile()
		}
	}
	_, slots, err := mc.MapSlots(*fSlots, *fWorkers)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	o.Slots = slots
	rep := mc.Explore(p, o)
	out := struct {
		Property *mc.Property
		Report   *mc.Report
	}{&mc.Property{ID: p.ID, Level: p.Level, Method: p.Method, Rule: p.Rule, Assumptions: p.Assumptions}, rep}
	if err := mc.WriteJSON(*fOut, out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return 0
}
