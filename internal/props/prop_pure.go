package props

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/production"

	"verif3mf/internal/mc"
)

// ---- C29 --------------------------------------------------------------------------

// pureOp is an operation that only looks at a model. It returns what it found.
type pureOp struct {
	name string
	run  func(m *go3mf.Model) string
}

func errText(err error) string {
	if err == nil {
		return "no error"
	}
	var s []string
	for _, e := range allErrors(err) {
		s = append(s, e.Error())
	}
	return strings.Join(s, "\n")
}

var pureOps = []pureOp{
	{"encode", func(m *go3mf.Model) string {
		var w schedWriter
		if err := go3mf.NewEncoder(&w).Encode(m); err != nil {
			return "error " + err.Error()
		}
		p, err := openPkg(w.Bytes())
		if err != nil {
			return "package " + err.Error()
		}
		var b strings.Builder
		b.WriteString(relSet("", p.Rels))
		for _, x := range p.Parts {
			fmt.Fprintf(&b, "%s %s\n%s\n%s\n", x.Name, x.CT, x.Data, relSet(x.Name, x.Rels))
		}
		return b.String()
	}},
	{"marshal", func(m *go3mf.Model) string {
		b, err := go3mf.MarshalModel(m)
		return string(b) + errText(err)
	}},
	{"validate", func(m *go3mf.Model) string { return errText(m.Validate()) }},
	{"coherency", func(m *go3mf.Model) string { return errText(m.ValidateCoherency()) }},
	{"measure", func(m *go3mf.Model) string {
		s := fmt.Sprint(m.BoundingBox())
		_ = m.WalkObjects(func(p string, o *go3mf.Object) error {
			if o.Mesh != nil {
				s += fmt.Sprint(p, o.ID, o.Mesh.BoundingBox())
			}
			return nil
		})
		return s
	}},
	{"look up", func(m *go3mf.Model) string {
		s := ""
		note := func(rs *go3mf.Resources) {
			s += fmt.Sprint("unused ", rs.UnusedID(), " ")
		}
		note(&m.Resources)
		for _, p := range append([]string{"", m.PathOrDefault(), "/no.model"}, sortedKeys(m.Childs)...) {
			rs, ok := m.FindResources(p)
			s += fmt.Sprint(p, ok)
			if ok {
				note(rs)
			}
			for id := uint32(0); id < 40; id++ {
				_, a := m.FindAsset(p, id)
				_, o := m.FindObject(p, id)
				s += fmt.Sprint(a, o)
			}
		}
		_ = m.WalkAssets(func(p string, a go3mf.Asset) error { s += fmt.Sprint(p, a.Identify()); return nil })
		_ = m.WalkObjects(func(p string, o *go3mf.Object) error { s += fmt.Sprint(p, o.ID); return nil })
		for _, it := range m.Build.Items {
			s += it.ObjectPath() + fmt.Sprint(it.HasTransform())
		}
		for _, o := range m.Resources.Objects {
			if o.Components != nil {
				for _, c := range o.Components.Component {
					s += c.ObjectPath("/x") + fmt.Sprint(c.HasTransform())
				}
			}
		}
		return s
	}},
}

// pureModel is a model without attachments: their streams can be read once.
func pureModel(t *mc.T) (string, func() *go3mf.Model) {
	models := []struct {
		name string
		f    func() *go3mf.Model
	}{
		{"all", func() *go3mf.Model { return bare(sampleAll()) }},
		{"multi", func() *go3mf.Model { return bare(sampleMulti()) }},
		{"default path", func() *go3mf.Model { m := bare(sampleMulti()); m.Path = ""; return m }},
		{"invalid", func() *go3mf.Model {
			m := bare(sampleMulti())
			m.Resources.Objects[0].ID = 1
			m.Resources.Objects[0].Mesh.Triangles.Triangle[0].V1 = 99
			m.Childs["/3D/a.model"].Resources.Objects[0].Mesh.Triangles.Triangle[0].V2 = 0
			m.Childs["/3D/b.model"].Resources.Objects[0].PID = 77
			m.Build.Items[0].ObjectID = 88
			m.Build.Items = append(m.Build.Items, &go3mf.Item{})
			m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: "urn:none", LocalName: "none", IsRequired: true})
			m.Relationships = append(m.Relationships, go3mf.Relationship{Path: "bad"}, go3mf.Relationship{Path: "/no", Type: "t"}, go3mf.Relationship{Path: "/no", Type: "t"})
			return m
		}},
		{"without uuids", func() *go3mf.Model {
			m := bare(sampleMulti())
			m.Build.AnyAttr = nil
			m.Build.Items[0].AnyAttr = nil
			m.Resources.Objects[0].AnyAttr = nil
			return m
		}},
		{"relationships", func() *go3mf.Model {
			m := bare(sampleMulti())
			m.RootRelationships = []go3mf.Relationship{{Path: "/Thumbnails/m.png", Type: go3mf.RelTypeThumbnail}}
			m.Relationships = []go3mf.Relationship{{Path: "/x/y.bin", Type: rtOther}}
			m.Childs["/3D/a.model"].Relationships = []go3mf.Relationship{{Path: "/x/y.bin", Type: rtOther}, {Path: "/x/z.bin", Type: rtOther}}
			return m
		}},
		{"nested", func() *go3mf.Model {
			m := bare(sampleMulti())
			for i := 0; i < 3; i++ {
				id := uint32(40 + i)
				prev := uint32(3)
				if i > 0 {
					prev = id - 1
				}
				m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: id, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: prev}, {ObjectID: prev, Transform: go3mf.Identity().Translate(1, 0, 0)}}}})
				m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: id})
			}
			return m
		}},
		{"empty", func() *go3mf.Model { return new(go3mf.Model) }},
	}
	x := models[t.Free(len(models))]
	return x.name, func() *go3mf.Model { return roomy(x.f()) }
}

// roomy gives every slice of the model room to grow, so that appending to it
// would write into memory of the model.
func roomy(m *go3mf.Model) *go3mf.Model {
	walkValues("", reflect.ValueOf(m), func(p string, v reflect.Value) bool {
		if v.Kind() == reflect.Slice && v.CanSet() && v.Len() > 0 {
			s := reflect.MakeSlice(v.Type(), v.Len(), v.Len()+3)
			reflect.Copy(s, v)
			v.Set(s)
		}
		return true
	}, map[uintptr]bool{})
	return m
}

// spare is what lies behind the end of the slices of a model. It belongs to whoever
// made them, who may share the memory between models.
func spare(m *go3mf.Model) string {
	var b strings.Builder
	slicesOf(reflect.ValueOf(m), func(p string, s reflect.Value) {
		for i, full := s.Len(), s.Slice(0, s.Cap()); i < s.Cap(); i++ {
			if x := full.Index(i); !x.IsZero() {
				fmt.Fprintf(&b, "behind the end of %s: %+v\n", p, x)
			}
		}
	})
	return b.String()
}

func unchanged(t *mc.T, m *go3mf.Model, before, what, detail string) {
	if after := dump(m); after != before {
		t.Failf("the model is changed: "+what, "%s\n%s", detail, diff(before, after))
	}
	if s := spare(m); s != "" {
		t.Failf("the memory of a slice of the model is changed: "+what, "%s\n%s", detail, s)
	}
}

func bare(m *go3mf.Model) *go3mf.Model {
	m.Attachments = nil
	return m
}

// pureSequence runs sequences of operations on one model.
func pureSequence(t *mc.T) {
	name, f := pureModel(t)
	m := f()
	before := dump(m)
	var names []string
	first := map[string]string{}
	n := 2
	if t.Tier == "thorough" {
		n = 3
	}
	for i := 0; i < n; i++ {
		op := pureOps[t.Free(len(pureOps))]
		names = append(names, op.name)
		t.Logf("%s: %s", name, op.name)
		got := op.run(m)
		t.Step()
		unchanged(t, m, before, op.name, fmt.Sprintf("%s after %v", name, names))
		want, ok := first[op.name]
		if !ok {
			want = op.run(f())
			first[op.name] = want
		}
		if got != want {
			t.Failf("not the same result: "+op.name, "%s after %v\n%s", name, names, diff(want, got))
		}
	}
	t.Case(name + fmt.Sprint(names))
	t.Sample("%s: %v", name, names)
}

// pureModels runs every operation twice on generated models.
func pureModels(t *mc.T) {
	var m *go3mf.Model
	switch t.Free(2) {
	case 0:
		m = genCore(t, coreOpts{})
	case 1:
		m = genPkg(t)
	}
	m.Attachments = nil
	roomy(m)
	before := dump(m)
	for _, op := range pureOps {
		a := op.run(m)
		unchanged(t, m, before, op.name, "")
		if b := op.run(m); a != b {
			t.Failf("not the same result: "+op.name, "%s", diff(a, b))
		}
		t.Step()
	}
	t.Case(before)
	t.State(before)
}

var pureOnce sync.Map

// pureTogether runs operations on one model at the same time.
func pureTogether(class int, n int) func(t *mc.T) {
	return func(t *mc.T) {
		name, f := pureModel(t)
		var ops []pureOp
		from := 0
		for i := 0; i < n; i++ {
			from += t.Free(len(pureOps) - from)
			ops = append(ops, pureOps[from])
		}
		m := f()
		key := name
		before, ok := pureOnce.Load(key)
		if !ok {
			before = dump(m)
			pureOnce.Store(key, before)
		}
		got := make([]string, n)
		var tasks []func()
		var names []string
		for i, op := range ops {
			names = append(names, op.name)
			tasks = append(tasks, func() { got[i] = op.run(m) })
		}
		t.Case(name + fmt.Sprint(names))
		t.Logf("%s: %v together", name, names)
		delayed(t, class, tasks...)
		for i, op := range ops {
			k := name + " " + op.name
			want, ok := pureOnce.Load(k)
			if !ok {
				want = op.run(f())
				pureOnce.Store(k, want)
			}
			if got[i] != want {
				t.Failf("not the same result together: "+op.name, "%s with %v\n%s", name, names, diff(want.(string), got[i]))
			}
		}
		unchanged(t, m, before.(string), strings.Join(names, " and "), name)
		t.Sample("%s: %v together", name, names)
	}
}

// ---- C30 --------------------------------------------------------------------------

// scribble overwrites every byte of b.
func scribble(b []byte) {
	for i := range b {
		b[i] = '#'
	}
}

// reused decodes several times with one decoder, or from one buffer, and
// changes what it can between the decodings.
func reused(t *mc.T) {
	var in [2][]byte
	for i := range in {
		method := uint16(8 * i)
		in[i] = packageOf(sampleMulti(), 0).build(method)
	}
	data := in[t.Free(2)]
	strict := t.Free(2) == 0
	how := t.Free(5)
	t.Case(fmt.Sprint(len(data), strict, how))
	t.Logf("strict=%v how=%d", strict, how)
	want, err := decodePackage(append([]byte(nil), data...), strict)
	if err != nil {
		t.Failf("a valid package is rejected", "%v", err)
	}
	w := dump(want)
	d := go3mf.NewDecoder(bytes.NewReader(data), int64(len(data)))
	d.Strict = strict
	var models [3]go3mf.Model
	for i := range models {
		if how == 1 { // a new decoder over the same bytes
			d = go3mf.NewDecoder(bytes.NewReader(data), int64(len(data)))
			d.Strict = strict
		}
		if how == 2 && i == 1 { // a decoding that is cancelled in between
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			if err := d.DecodeContext(ctx, new(go3mf.Model)); err == nil {
				t.Failf("cancellation is ignored", "no error")
			}
		}
		if err := d.Decode(&models[i]); err != nil {
			t.Failf("a decoder cannot be used again", "decoding %d: %v", i, err)
		}
		t.Step()
		if how >= 3 { // change the model before the next one is decoded
			g := dump(&models[i])
			if g != w {
				t.Failf("decoding again gives another model", "decoding %d\n%s", i, diff(w, g))
			}
			if how == 3 {
				vandalise(&models[i])
			}
			for _, a := range models[i].Attachments {
				io.Copy(io.Discard, a.Stream)
			}
		}
	}
	if how < 3 {
		for i := range models {
			if g := dump(&models[i]); g != w {
				t.Failf("decoding again gives another model", "decoding %d\n%s", i, diff(w, g))
			}
		}
		// what happens to one model does not happen to another
		vandalise(&models[1])
		scribble(data)
		for _, i := range []int{0, 2} {
			if g := dump(&models[i]); g != w {
				t.Failf("models share state", "model %d changed\n%s", i, diff(w, g))
			}
		}
	}
	t.Sample("strict=%v how=%d", strict, how)
}

var _ = production.Namespace

// slicesOf calls f for every slice in v.
func slicesOf(v reflect.Value, f func(p string, s reflect.Value)) {
	walkValues("", v, func(p string, v reflect.Value) bool {
		if v.Kind() == reflect.Slice {
			f(p, v)
		}
		return true
	}, map[uintptr]bool{})
}

func walkValues(p string, v reflect.Value, f func(string, reflect.Value) bool, seen map[uintptr]bool) {
	if !v.IsValid() || v.Type() == attachmentType || !f(p, v) {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		walkValues(p, v.Elem(), f, seen)
	case reflect.Interface:
		if !v.IsNil() {
			walkValues(p, v.Elem(), f, seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanInterface() {
				walkValues(p+"."+v.Type().Field(i).Name, v.Field(i), f, seen)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			walkValues(fmt.Sprintf("%s[%d]", p, i), v.Index(i), f, seen)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			walkValues(fmt.Sprintf("%s[%v]", p, k), v.MapIndex(k), f, seen)
		}
	}
}

// vandalise changes everything that can be changed in place.
func vandalise(m *go3mf.Model) {
	walkValues("", reflect.ValueOf(m), func(p string, v reflect.Value) bool {
		if v.Kind() == reflect.Slice && v.Cap() > v.Len() {
			full := v.Slice(0, v.Cap())
			for i := v.Len(); i < v.Cap(); i++ {
				smash(full.Index(i))
			}
		}
		smash(v)
		return true
	}, map[uintptr]bool{})
	walkValues("", reflect.ValueOf(m), func(p string, v reflect.Value) bool {
		if v.Kind() == reflect.Map && v.CanSet() {
			for _, k := range v.MapKeys() {
				v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
			}
		}
		return true
	}, map[uintptr]bool{})
}

func smash(v reflect.Value) {
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString("vandal " + v.String())
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Float32, reflect.Float64:
		v.SetFloat(v.Float() + 17)
	case reflect.Uint8, reflect.Uint32, reflect.Uint64, reflect.Uint, reflect.Uint16:
		v.SetUint(v.Uint() ^ 1)
	case reflect.Int8, reflect.Int, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() ^ 1)
	}
}

// grown writes behind the end of every slice of a decoded model, as append does.
func grown(t *mc.T) {
	data := packageOf(sampleMulti(), 0).build(0)
	m := new(go3mf.Model)
	var err error
	route := t.Free(2)
	if route == 0 {
		m, err = decodePackage(data, true)
	} else {
		err = go3mf.UnmarshalModel(sampleDoc(), m)
	}
	if err != nil {
		t.Failf("a valid package is rejected", "%v", err)
	}
	before := dump(m)
	k, n := t.Free(400), 0
	what := ""
	slicesOf(reflect.ValueOf(m), func(p string, s reflect.Value) {
		if n == k {
			what = p
			if s.Cap() > s.Len() {
				full := s.Slice(0, s.Cap())
				for i := s.Len(); i < s.Cap(); i++ {
					x := full.Index(i)
					switch x.Kind() {
					case reflect.Ptr, reflect.Interface, reflect.Struct, reflect.Slice:
						x.Set(reflect.Zero(x.Type()))
					default:
						smash(x)
					}
					walkValues("", x, func(_ string, v reflect.Value) bool { smash(v); return true }, map[uintptr]bool{})
				}
			}
		}
		n++
	})
	if what == "" {
		if n > 400 {
			t.Failf("harness", "%d slices", n)
		}
		t.Skip()
	}
	t.Case(what)
	if after := dump(m); after != before {
		t.Failf("appending to a slice changes another", "%s\n%s", what, diff(before, after))
	}
	t.Sample("append to %s", what)
}

// unmarshalled overwrites the document after it was read.
func unmarshalled(t *mc.T) {
	doc := form{prec: 4}.root(sampleAll())
	data := render(doc, nsCore, prefixes, styleN(t.Free(nStyles)))
	keep := append([]byte(nil), data...)
	var a, b, c go3mf.Model
	err := go3mf.UnmarshalModel(data, &a)
	if err != nil {
		t.Failf("a valid document is rejected", "%v", err)
	}
	if !bytes.Equal(keep, data) {
		t.Failf("the input is changed", "%q", data)
	}
	w := dump(&a)
	if err := go3mf.UnmarshalModel(data, &b); err != nil {
		t.Failf("a valid document is rejected", "%v", err)
	}
	scribble(data)
	if g := dump(&a); g != w {
		t.Failf("the model depends on the input buffer", "%s", diff(w, g))
	}
	vandalise(&a)
	if g := dump(&b); g != w {
		t.Failf("models share state", "%s", diff(w, g))
	}
	if err := go3mf.UnmarshalModel(keep, &c); err != nil {
		t.Failf("a valid document is rejected", "%v", err)
	}
	if g := dump(&c); g != w {
		t.Failf("models share state", "%s", diff(w, g))
	}
	t.Case(string(keep))
}

// reusedModels decodes generated models twice and overwrites one of the results.
func reusedModels(t *mc.T) {
	var m *go3mf.Model
	if t.Free(2) == 0 {
		m = genCore(t, coreOpts{})
	} else {
		m = genPkg(t)
	}
	var a, b go3mf.Model
	var data []byte
	if t.Free(2) == 0 {
		data = packageOf(m, 0).build(0)
		d := go3mf.NewDecoder(bytes.NewReader(data), int64(len(data)))
		if d.Decode(&a) != nil || d.Decode(&b) != nil {
			t.Skip() // not this property
		}
	} else {
		data = render(form{prec: 4}.root(m), nsCore, prefixes, styleN(0))
		if go3mf.UnmarshalModel(data, &a) != nil || go3mf.UnmarshalModel(data, &b) != nil {
			t.Skip()
		}
	}
	t.Case(string(data))
	w := dump(&a)
	if g := dump(&b); g != w {
		t.Failf("decoding again gives another model", "%s", diff(w, g))
	}
	vandalise(&b)
	scribble(data)
	if g := dump(&a); g != w {
		t.Failf("models share state", "%s", diff(w, g))
	}
}

// decodeTogether decodes the same bytes with two decoders at the same time.
func decodeTogether(sets, others [][]int) func(t *mc.T) {
	return func(t *mc.T) { together(t, sets[t.Free(len(sets))], others[t.Free(len(others))]) }
}

func together(t *mc.T, kinds, other []int) {
	strict := t.Free(2) == 0
	same := t.Free(2) == 0
	if same {
		other = kinds
	}
	ra := &schedReader{data: schedPackage(kinds, 0).data}
	rb := ra
	if !same {
		rb = &schedReader{data: schedPackage(other, 0).data}
	}
	var got [2]go3mf.Model
	var errs [2]error
	t.Case(fmt.Sprint(kinds, other, strict, same))
	t.Logf("%v and %v, strict=%v, same=%v", kinds, other, strict, same)
	decode := func(i int, r *schedReader) func() {
		return func() {
			d := go3mf.NewDecoder(r, int64(len(r.data)))
			d.Strict = strict
			errs[i] = d.Decode(&got[i])
		}
	}
	controlled(t, 1, decode(0, ra), decode(1, rb))
	for i, k := range [][]int{kinds, other} {
		bad := false
		for _, x := range k {
			bad = bad || x != 0
		}
		if bad && strict { // what was decoded before the error depends on the schedule
			if errs[i] == nil || errs[i].Error() != ownError(k, 1, strict) {
				t.Failf("decoders disturb each other", "error %v", errs[i])
			}
			continue
		}
		if w, g := alone(k, 0, strict), outcome(&got[i], errs[i]); w != g {
			t.Failf("decoders disturb each other", "%s", diff(w, g))
		}
	}
}

func init() {
	register(&mc.Property{ID: "C29", Race: true,
		Method: "bounded exhaustive enumeration: sequences of operations on sample models, every operation twice on generated models, and every schedule of pairs of operations on one model within a pre-emption bound, with the race detector",
		Rule:   "one execution is one sequence of operations on one model, or one schedule of operations that run together; the model is compared, through every field, before and after",
		Assumptions: []string{
			"models have no attachments: the stream of an attachment can be read once, so encoding consumes it by design",
		},
		Scenarios: []mc.Scenario{
			{Name: "sequences", Bound: "8 models x all sequences of 2 (thorough: 3) of 6 operations", Run: pureSequence},
			{Name: "models", Bound: "core models and packages with up to 1 (thorough: 2) deviations, every operation twice", K: 1, KT: 2, Run: pureModels},
			{Name: "together", Bound: "8 models x all pairs of operations, points in goroutine bodies, sync operations and writes, 1 delay (thorough: 2)", K: 1, KT: 2, Sync: true, Run: pureTogether(1, 2)},
			{Name: "three together", Bound: "8 models x all triples of operations, 1 delay", K: 1, Sync: true, Thorough: true, Run: pureTogether(1, 3)},
		}})
	register(&mc.Property{ID: "C30", Race: true,
		Method: "bounded exhaustive enumeration: repeated decoding with one decoder, from one buffer and by concurrent decoders; between and after the decodings everything reachable in one model and every byte of the input is overwritten and the other models are compared field by field",
		Rule:   "one execution is one way of decoding the same input several times, or one schedule of two decoders",
		Scenarios: []mc.Scenario{
			{Name: "reused", Bound: "2 packages x strict x 4 ways, 3 decodings", Run: reused},
			{Name: "models", Bound: "core models and packages with up to 1 (thorough: 2) deviations, decoded twice, from a package or a document", K: 1, KT: 2, Run: reusedModels},
			{Name: "unmarshalled", Bound: "every document style", Run: unmarshalled},
			{Name: "grown", Bound: "every slice of two decoded models that use everything", Run: grown},
			{Name: "together", Bound: "two decoders on packages of up to 1 child, 1 pre-emption (thorough: 2)", K: 1, KT: 2, Sync: true, Run: decodeTogether([][]int{{}, {0}}, [][]int{{}, {0}})},
			{Name: "with children", Bound: "two decoders on packages of 2 children, every order, no pre-emption", Sync: true, Thorough: true, Run: decodeTogether([][]int{{0, 0}}, [][]int{{}, {0}, {0, 1}})},
		}})
}
