package props

import (
	"archive/zip"
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"

	"github.com/hpinc/go3mf"

	"verif3mf/internal/mc"
	"verif3mf/vsched"
)

// childDocs are the documents of the child parts of the schedules.
var childDocs = []struct {
	name string
	doc  func(path string, n int) string
}{
	{"good", func(path string, n int) string { return childDoc(path, n, "") }},
	{"bad attribute", func(path string, n int) string { return childDoc(path, n, `<object id="x`+path+`"><mesh/></object>`) }},
	{"ill-formed", func(path string, n int) string {
		return strings.Replace(childDoc(path, n, ""), "</object>", "</wrong>", 1)
	}},
	{"cut", func(path string, n int) string { d := childDoc(path, n, ""); return d[:len(d)/2] }},
}

func childDoc(path string, n int, extra string) string {
	var b strings.Builder
	b.WriteString(`<model xmlns="` + nsCore + `" xmlns:m="http://schemas.microsoft.com/3dmanufacturing/material/2015/02" xmlns:q="urn:q"><resources>`)
	b.WriteString(`<m:colorgroup id="2"><m:color color="#010203"/></m:colorgroup>`)
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, `<object id="%d" name="%s"><mesh><vertices><vertex x="%d" y="1" z="2"/></vertices></mesh></object>`, 10+i, path, i)
	}
	b.WriteString(extra)
	b.WriteString(`</resources><build/><q:extra a="1">` + path + `</q:extra></model>`)
	return b.String()
}

const childRoot = `<model xmlns="` + nsCore + `"><metadata name="Title">t</metadata><resources><object id="1" name="root"><components><component objectid="2"/></components></object></resources><build><item objectid="1"/></build></model>`

type schedInput struct {
	data []byte
	regs []region
	root string
}

var schedMu sync.Mutex
var schedInputs = map[string]*schedInput{}

// schedPackage is a package with the given kinds of child parts.
func schedPackage(kinds []int, bigRoot int) *schedInput {
	key := fmt.Sprint(kinds, bigRoot)
	schedMu.Lock()
	defer schedMu.Unlock()
	if in, ok := schedInputs[key]; ok {
		return in
	}
	root := childRoot
	if bigRoot > 0 {
		root = strings.Replace(root, "<object ", strings.Repeat(`<object id="5"><mesh><vertices><vertex x="0" y="0" z="0"/></vertices></mesh></object>`, bigRoot)+"<object ", 1)
	}
	p := &pkg{Rels: []pkgRel{{go3mf.DefaultModelPath, rtModel, "r0"}}}
	main := pkgPart{Name: go3mf.DefaultModelPath, CT: ctModel, Data: []byte(root)}
	var kids []pkgPart
	for i, k := range kinds {
		path := fmt.Sprintf("/3D/c%d.model", i)
		main.Rels = append(main.Rels, pkgRel{path, rtModel, fmt.Sprintf("k%d", i)})
		kids = append(kids, pkgPart{Name: path, CT: ctModel, Data: []byte(childDocs[k].doc(path, 1+i%2))})
	}
	p.Parts = append(append(p.Parts, main), kids...)
	method := uint16(zip.Store)
	if len(kinds) == 2 && kinds[0] == 0 {
		method = zip.Deflate
	}
	in := &schedInput{data: p.build(method), root: root}
	in.regs = regions(in.data)
	schedInputs[key] = in
	return in
}

// outcome is what decoding gave, for comparison.
func outcome(m *go3mf.Model, err error) string {
	s := "error: "
	if err == nil {
		s = "no error"
	} else {
		for _, e := range allErrors(err) {
			s += e.Error() + "\n"
		}
	}
	return s + "\n" + dump(m)
}

var aloneMu sync.Mutex
var aloneCache = map[string]string{}

// alone is the outcome of decoding the package without any other goroutine.
func alone(kinds []int, big int, strict bool) string {
	key := fmt.Sprint(kinds, big, strict)
	aloneMu.Lock()
	defer aloneMu.Unlock()
	if s, ok := aloneCache[key]; ok {
		return s
	}
	m, err := decodePackage(schedPackage(kinds, big).data, strict)
	s := outcome(m, err)
	aloneCache[key] = s
	return s
}

var ownMu sync.Mutex
var ownErrs = map[string]string{}

// ownError is the error of child i when nothing else is wrong.
func ownError(kinds []int, i int, strict bool) string {
	one := make([]int, len(kinds))
	one[i] = kinds[i]
	key := fmt.Sprint(one, strict)
	ownMu.Lock()
	defer ownMu.Unlock()
	if e, ok := ownErrs[key]; ok {
		return e
	}
	_, err := decodePackage(schedPackage(one, 0).data, strict)
	s := ""
	if err != nil {
		s = err.Error()
	}
	ownErrs[key] = s
	return s
}

func decodeDelayed(t *mc.T, r *schedReader, strict bool) (*go3mf.Model, error) {
	got := new(go3mf.Model)
	var err error
	delayed(t, 1, func() {
		d := go3mf.NewDecoder(r, int64(len(r.data)))
		d.Strict = strict
		err = d.Decode(got)
	})
	return got, err
}

func decodeUnder(t *mc.T, class int, r *schedReader, strict bool, ctx context.Context, extra ...func()) (*go3mf.Model, error) {
	got := new(go3mf.Model)
	var err error
	tasks := append([]func(){func() {
		d := go3mf.NewDecoder(r, int64(len(r.data)))
		d.Strict = strict
		err = d.DecodeContext(ctx, got)
	}}, extra...)
	controlled(t, class, tasks...)
	return got, err
}

// schedChildren decodes packages of good and bad children under every schedule.
func schedChildren(class int, combos func(t *mc.T) []int) func(t *mc.T) {
	return schedChildrenUnder(combos, func(t *mc.T, r *schedReader, strict bool) (*go3mf.Model, error) {
		return decodeUnder(t, class, r, strict, context.Background())
	})
}

func schedChildrenUnder(combos func(t *mc.T) []int, decode func(*mc.T, *schedReader, bool) (*go3mf.Model, error)) func(t *mc.T) {
	return func(t *mc.T) {
		kinds := combos(t)
		strict := t.Free(2) == 0
		in := schedPackage(kinds, 0)
		t.Case(fmt.Sprint(kinds, strict))
		t.Logf("children %v strict=%v", kinds, strict)
		got, err := decode(t, &schedReader{data: in.data}, strict)
		var own []string
		syntax := false
		for i, k := range kinds {
			if k != 0 {
				own = append(own, ownError(kinds, i, strict))
				syntax = syntax || k > 1
			}
		}
		switch {
		case len(own) == 0:
			if w, g := alone(kinds, 0, strict), outcome(got, err); w != g {
				t.Failf("the model depends on the schedule", "%s", diff(w, g))
			}
		case err == nil:
			t.Failf("a failing child is not reported", "want one of %q", own)
		case strict || syntax:
			ok := false
			for _, o := range own {
				ok = ok || o == err.Error()
			}
			if !ok {
				t.Failf("not the error of a failing child", "got %v\nwant one of %q", err, own)
			}
			if errors.Is(err, context.Canceled) {
				t.Failf("not the error of a failing child", "got %v", err)
			}
		default: // every error is reported, in the order of the parts
			var have []string
			for _, e := range allErrors(err) {
				have = append(have, e.Error())
			}
			if strings.Join(have, "\n") != strings.Join(own, "\n") {
				t.Failf("errors depend on the schedule", "got %q\nwant %q", have, own)
			}
			if w, g := alone(kinds, 0, strict), outcome(got, err); w != g {
				t.Failf("the model depends on the schedule", "%s", diff(w, g))
			}
		}
		t.Sample("children %v strict=%v: %v", kinds, strict, err)
	}
}

// schedFault fails reads of one child part.
func schedFault(t *mc.T) {
	kinds := [][]int{{0, 0}, {0, 0, 0}, {0, 1}}[t.Free(3)]
	strict := t.Free(2) == 0
	in := schedPackage(kinds, 0)
	which := t.Free(len(kinds))
	var r region
	for _, x := range in.regs {
		if x.name == fmt.Sprintf("/3D/c%d.model", which) {
			r = x
		}
	}
	off := r.lo
	if t.Free(2) == 1 {
		off = r.hi - 2
	}
	rd := &schedReader{data: in.data, off: off, err: errFault}
	t.Case(fmt.Sprint(kinds, strict, which, off))
	t.Logf("children %v strict=%v, fault in child %d", kinds, strict, which)
	_, err := decodeUnder(t, 1, rd, strict, context.Background())
	if err == nil {
		t.Failf("a read error of a child is not reported", "no error")
	}
	if errors.Is(err, errFault) {
		t.State("fault")
		return
	}
	if strict && len(kinds) == 2 && kinds[1] == 1 && which == 0 && err.Error() == ownError(kinds, 1, strict) {
		t.State("other child first")
		return
	}
	t.Failf("not the error of a failing child", "got %v, want the read error", err)
}

// schedCancel cancels the context at any point.
func schedCancel(class int) func(t *mc.T) {
	return func(t *mc.T) {
		kinds := [][]int{{0, 0}, {0}, {}}[t.Free(3)]
		strict := t.Free(2) == 0
		big := 0
		if len(kinds) < 2 {
			big = 400 // more elements than are read between two checks
		}
		in := schedPackage(kinds, big)
		t.Case(fmt.Sprint(kinds, strict, big))
		t.Logf("children %v strict=%v", kinds, strict)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		r := &cancelReader{schedReader: schedReader{data: in.data}}
		for _, x := range in.regs {
			if x.name == go3mf.DefaultModelPath {
				r.root = x
			}
		}
		got := new(go3mf.Model)
		var err error
		when := -1
		controlled(t, class, func() {
			d := go3mf.NewDecoder(r, int64(len(in.data)))
			d.Strict = strict
			err = d.DecodeContext(ctx, got)
		}, func() {
			when = r.progress()
			cancel()
		})
		if err != nil && !errors.Is(err, context.Canceled) {
			t.Failf("not the context's error", "got %v", err)
		}
		if err == nil {
			if when == 0 {
				t.Failf("cancellation is ignored", "cancelled before the root model was read, but no error")
			}
			if left := int(r.root.hi) - when; when > 0 && left > 20000 {
				t.Failf("cancellation is ignored", "cancelled %d bytes before the end of the root model, but no error", left)
			}
			if w, g := alone(kinds, big, strict), outcome(got, err); w != g {
				t.Failf("cancelled decoding returns half a model", "%s", diff(w, g))
			}
		}
		t.State(fmt.Sprint(when, err))
		t.Sample("cancelled at stage %d: %v", when, err)
	}
}

// cancelReader knows how much of the root model has been asked for.
type cancelReader struct {
	schedReader
	root region
	pos  int
}

//go:norace
func (r *cancelReader) progress() int { return r.pos }

//go:norace
func (r *cancelReader) ReadAt(p []byte, off int64) (int, error) {
	n, err := r.schedReader.ReadAt(p, off)
	if off < r.root.hi && off+int64(len(p)) > r.root.lo+30 && len(p) != 30 && off >= r.root.lo {
		if end := int(off) + n; end > r.pos {
			r.pos = end
		}
	}
	return n, err
}

var _ = vsched.Point

// manyChildren are long lists of parts of one kind, with one of another kind at any place.
func manyChildren(t *mc.T) []int {
	sizes := []int{5, 9, 17, 33}
	if t.Tier == "thorough" {
		sizes = []int{5, 6, 7, 8, 9, 10, 12, 13, 16, 17, 18, 32, 33, 40, 65}
	}
	n := sizes[t.Free(len(sizes))]
	kinds := make([]int, n)
	base := t.Free(len(childDocs))
	for i := range kinds {
		kinds[i] = base
	}
	other := t.Free(len(childDocs))
	if other == base {
		return kinds
	}
	at := t.Free(n)
	if t.Tier != "thorough" && at > 1 && at < n-1 && at != n/2 {
		t.Skip()
	}
	kinds[at] = other
	return kinds
}

func combos(max int, ks ...[]int) func(t *mc.T) []int {
	return func(t *mc.T) []int { return ks[t.Free(len(ks))] }
}

func init() {
	register(&mc.Property{ID: "C15", Race: true,
		Method: "stateless exploration of every schedule of the real decoder within a pre-emption bound: /repo is built with the race detector and an overlay that puts scheduling points before the statements goroutines execute, around every sync operation and at every read; the scheduler lives in a synctest bubble and releases one goroutine at a time, so deadlocks and goroutines that never end are seen too",
		Rule:   "one execution is one schedule of one package; states are the distinct vectors of goroutine states and positions",
		Assumptions: []string{
			"code between two scheduling points is atomic in the explored schedules; conflicting accesses inside are found by the race detector, whose happens-before relation does not see the scheduler",
		},
		Scenarios: []mc.Scenario{
			{Name: "children", Bound: "2 and 3 good children, points in goroutine bodies, sync operations and reads, 2 pre-emptions", K: 2, KT: 3, Sync: true,
				Run: schedChildren(1, combos(0, []int{0, 0}, []int{0, 0, 0}))},
			{Name: "failing", Bound: "2 children, good, malformed, ill-formed or cut, 2 pre-emptions", K: 2, KT: 3, Sync: true,
				Run: schedChildren(1, combos(0, []int{0, 1}, []int{1, 0}, []int{1, 1}, []int{0, 2}, []int{2, 1}, []int{1, 2}, []int{3, 0}, []int{2, 3}))},
			{Name: "statements", Bound: "2 children, points before every statement the goroutines reach, 1 pre-emption", K: 1, Sync: true,
				Run: schedChildren(2, combos(0, []int{0, 0}, []int{0, 1}, []int{1, 1}))},
			{Name: "statements of three", Bound: "3 children, points before every statement the goroutines reach, 1 pre-emption", K: 1, Sync: true, Thorough: true,
				Run: schedChildren(2, combos(0, []int{0, 0, 0}, []int{0, 1, 2}, []int{1, 0, 1}))},
			{Name: "four children", Bound: "4 children, points in goroutine bodies, sync operations and reads, 1 pre-emption", K: 1, Sync: true, Thorough: true,
				Run: schedChildren(1, combos(0, []int{0, 0, 0, 0}, []int{0, 1, 0, 1}))},
			{Name: "many children", Bound: "5, 9, 17, 33 children (thorough: fifteen lengths up to 65), all of one of four kinds or one of another kind, first, second, halfway or last (thorough: anywhere), the first runnable goroutine goes on", K: 0, Sync: true,
				Run: schedChildrenUnder(manyChildren, decodeDelayed)},
			{Name: "some more children", Bound: "5 and 9 children of these kinds, the choice of the goroutine that goes on differs once", K: 1, Sync: true, Thorough: true,
				Run: schedChildrenUnder(func(t *mc.T) []int {
					k := manyChildren(t)
					if len(k) != 5 && len(k) != 9 {
						t.Skip()
					}
					return k
				}, decodeDelayed)},
			{Name: "faults", Bound: "a failing read in each child, 1 pre-emption (thorough: 2)", K: 1, KT: 2, Sync: true, Run: schedFault},
			{Name: "cancel", Bound: "0 to 2 children, cancelled at any point, 2 pre-emptions", K: 2, KT: 3, Sync: true, Run: schedCancel(1)},
		}})
}
