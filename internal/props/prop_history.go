package props

import (
	"encoding/xml"
	"fmt"
	"image/color"
	"io"
	"sync"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

// ---- C33 --------------------------------------------------------------------------

// loopStream is an attachment stream that starts again once it was read to its end.
type loopStream struct {
	data []byte
	off  int
}

func (l *loopStream) Read(p []byte) (int, error) {
	if l.off == len(l.data) {
		l.off = 0
		return 0, io.EOF
	}
	n := copy(p, l.data[l.off:])
	l.off += n
	return n, nil
}

func loop(s string) *loopStream { return &loopStream{data: []byte(s)} }

type modelEdit struct {
	name string
	run  func(m *go3mf.Model)
}

// rootMesh returns the first mesh of the root part.
func rootMesh(m *go3mf.Model) *go3mf.Mesh {
	for _, o := range m.Resources.Objects {
		if o.Mesh != nil {
			return o.Mesh
		}
	}
	return new(go3mf.Mesh)
}

func rootComponents(m *go3mf.Model) []*go3mf.Component {
	for _, o := range m.Resources.Objects {
		if o.Components != nil {
			return o.Components.Component
		}
	}
	return nil
}

func firstChild(m *go3mf.Model) (string, *go3mf.ChildModel) {
	for _, p := range sortedKeys(m.Childs) {
		return p, m.Childs[p]
	}
	return "", new(go3mf.ChildModel)
}

var modelEdits = []modelEdit{
	{"move a vertex", func(m *go3mf.Model) {
		if v := rootMesh(m).Vertices.Vertex; len(v) > 0 {
			v[0] = go3mf.Point3D{v[0][0] - 7, v[0][1] - 8, v[0][2] - 9}
		}
	}},
	{"turn a triangle", func(m *go3mf.Model) {
		if ts := rootMesh(m).Triangles.Triangle; len(ts) > 0 {
			ts[0].V1, ts[0].V2 = ts[0].V2, ts[0].V1
		}
	}},
	{"turn the triangles but the first and the last", func(m *go3mf.Model) {
		eachResources(m, func(_ string, rs *go3mf.Resources) {
			for _, o := range rs.Objects {
				if o.Mesh == nil {
					continue
				}
				ts := o.Mesh.Triangles.Triangle
				for i := 1; i < len(ts)-1; i++ {
					ts[i].V1, ts[i].V2 = ts[i].V2, ts[i].V1
				}
				vs := o.Mesh.Vertices.Vertex
				for i := 1; i < len(vs)-1; i++ {
					vs[i][2] -= 20
				}
			}
		})
	}},
	{"remove a triangle", func(m *go3mf.Model) {
		if ts := &rootMesh(m).Triangles.Triangle; len(*ts) > 0 {
			*ts = (*ts)[:len(*ts)-1]
		}
	}},
	{"move a vertex of a child part", func(m *go3mf.Model) {
		_, c := firstChild(m)
		for _, o := range c.Resources.Objects {
			if o.Mesh != nil {
				o.Mesh.Vertices.Vertex[0][0] -= 50
			}
		}
	}},
	{"swap objects", func(m *go3mf.Model) {
		if os := m.Resources.Objects; len(os) > 1 {
			os[0], os[1] = os[1], os[0]
		}
	}},
	{"swap the ids of objects", func(m *go3mf.Model) {
		if os := m.Resources.Objects; len(os) > 1 {
			a, b := os[0], os[len(os)-1]
			a.ID, b.ID = b.ID, a.ID
		}
	}},
	{"replace an object", func(m *go3mf.Model) {
		if os := m.Resources.Objects; len(os) > 0 {
			n := tetra(os[0].ID)
			n.Name = "new"
			n.AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: uuidN(60)}}
			os[0] = n
		}
	}},
	{"add an object", func(m *go3mf.Model) {
		n := tetra(m.Resources.UnusedID())
		n.AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: uuidN(61)}}
		m.Resources.Objects = append(m.Resources.Objects, n)
	}},
	{"change the id of a resource", func(m *go3mf.Model) {
		for _, a := range m.Resources.Assets {
			if c, ok := a.(*materials.ColorGroup); ok {
				c.ID += 100
			}
		}
	}},
	{"change a colour", func(m *go3mf.Model) {
		for _, a := range m.Resources.Assets {
			switch a := a.(type) {
			case *go3mf.BaseMaterials:
				a.Materials[0].Color = color.RGBA{200, 100, 50, 25}
			case *materials.ColorGroup:
				a.Colors = append(a.Colors[:1], color.RGBA{7, 7, 7, 7})
			}
		}
	}},
	{"remove a resource", func(m *go3mf.Model) {
		if n := len(m.Resources.Assets); n > 0 {
			m.Resources.Assets = m.Resources.Assets[:n-1]
		}
	}},
	{"rename a child part", func(m *go3mf.Model) {
		if p, c := firstChild(m); p != "" {
			delete(m.Childs, p)
			m.Childs["/3D/z.model"] = c
		}
	}},
	{"rename a child part between others", func(m *go3mf.Model) {
		if c := m.Childs["/3D/aa.model"]; c != nil {
			delete(m.Childs, "/3D/aa.model")
			m.Childs["/3D/ab.model"] = c
		}
	}},
	{"swap child parts", func(m *go3mf.Model) {
		if ps := sortedKeys(m.Childs); len(ps) > 1 {
			m.Childs[ps[0]], m.Childs[ps[1]] = m.Childs[ps[1]], m.Childs[ps[0]]
		}
	}},
	{"remove a child part", func(m *go3mf.Model) {
		p, _ := firstChild(m)
		delete(m.Childs, p)
	}},
	{"add a child part", func(m *go3mf.Model) {
		n := tetra(2)
		n.AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: uuidN(62)}}
		if m.Childs == nil {
			m.Childs = map[string]*go3mf.ChildModel{}
		}
		m.Childs["/3D/0.model"] = &go3mf.ChildModel{Resources: go3mf.Resources{Objects: []*go3mf.Object{n}}}
	}},
	{"move an object to a child part", func(m *go3mf.Model) {
		_, c := firstChild(m)
		if n := len(m.Resources.Objects); n > 0 && c.Resources.Objects != nil {
			o := m.Resources.Objects[n-1]
			m.Resources.Objects = m.Resources.Objects[:n-1]
			c.Resources.Objects = append(c.Resources.Objects, o)
		}
	}},
	{"move a component", func(m *go3mf.Model) {
		for _, c := range rootComponents(m) {
			c.Transform = go3mf.Identity().Translate(-30, 0, 4)
		}
	}},
	{"let a component name another object", func(m *go3mf.Model) {
		if cs := rootComponents(m); len(cs) > 0 {
			cs[0].ObjectID = 30
		}
	}},
	{"move an item", func(m *go3mf.Model) {
		for _, it := range m.Build.Items {
			it.Transform = go3mf.Identity().Translate(1000, 0, 0)
		}
	}},
	{"let an item name another part", func(m *go3mf.Model) {
		for _, it := range m.Build.Items {
			if a := production.GetItemAttr(it); a != nil && a.Path != "" {
				a.Path, it.ObjectID = "/3D/a.model", 2
			}
		}
	}},
	{"remove an item", func(m *go3mf.Model) {
		if n := len(m.Build.Items); n > 0 {
			m.Build.Items = m.Build.Items[1:]
		}
	}},
	{"change the path", func(m *go3mf.Model) {
		if m.Path == "/3D/other.model" {
			m.Path = ""
		} else {
			m.Path = "/3D/other.model"
		}
	}},
	{"change the extensions", func(m *go3mf.Model) {
		if n := len(m.Extensions); n > 0 {
			m.Extensions[0].LocalName, m.Extensions[n-1].IsRequired = "q", true
		}
	}},
	{"remove an extension", func(m *go3mf.Model) {
		if n := len(m.Extensions); n > 0 {
			m.Extensions = m.Extensions[1:]
		}
	}},
	{"change the metadata", func(m *go3mf.Model) {
		m.Metadata = append(m.Metadata[:len(m.Metadata):len(m.Metadata)], go3mf.Metadata{Name: xml.Name{Local: "Designer"}, Value: "d"})
		m.Units, m.Language = go3mf.UnitInch, "fr"
	}},
	{"change the relationships", func(m *go3mf.Model) {
		m.Relationships = append(m.Relationships[:0], m.Relationships...)
		for i := range m.Relationships {
			m.Relationships[i].ID = fmt.Sprint("changed", i)
		}
		m.Thumbnail = ""
	}},
	{"change the beams", func(m *go3mf.Model) {
		for _, o := range m.Resources.Objects {
			if o.Mesh == nil {
				continue
			}
			for _, a := range o.Mesh.Any {
				if b, ok := a.(*beamlattice.BeamLattice); ok {
					b.Radius, b.MinLength = 1, 0.25
					b.Beams.Beam[0].Radius[1] = 7
					b.BeamSets.BeamSet = b.BeamSets.BeamSet[:1]
				}
			}
		}
	}},
	{"change the slices", func(m *go3mf.Model) {
		for _, a := range m.Resources.Assets {
			if s, ok := a.(*slices.SliceStack); ok && len(s.Slices) > 1 {
				s.Slices = s.Slices[:1]
				s.Slices[0].TopZ = 77
				s.Slices[0].Vertices.Vertex[1] = go3mf.Point2D{5, 6}
			}
		}
	}},
	{"change the attributes", func(m *go3mf.Model) {
		if len(m.Resources.Objects) > 0 {
			o := m.Resources.Objects[0]
			if a := production.GetObjectAttr(o); a != nil {
				a.UUID = uuidN(63)
			}
			o.AnyAttr = o.AnyAttr[:len(o.AnyAttr):len(o.AnyAttr)]
			o.Type, o.Name = go3mf.ObjectTypeSupport, "renamed"
		}
	}},
	{"change the attachments", func(m *go3mf.Model) {
		if n := len(m.Attachments); n > 0 {
			m.Attachments[0].Stream = loop("another")
			m.Attachments = m.Attachments[:n-1]
		}
	}},
}

// histOps are the observers of a model that has streams that can be read again.
var histOps = append(append([]pureOp(nil), pureOps...), pureOp{"decode what is encoded", func(m *go3mf.Model) string {
	var w schedWriter
	if err := go3mf.NewEncoder(&w).Encode(m); err != nil {
		return "error " + err.Error()
	}
	var d go3mf.Model
	data := w.Bytes()
	if err := go3mf.NewDecoder(&memFile{data: data}, int64(len(data))).Decode(&d); err != nil {
		return "error " + err.Error()
	}
	for _, rs := range [][]go3mf.Relationship{d.Relationships, d.RootRelationships} {
		for i := range rs {
			rs[i].ID = "" // may be random
		}
	}
	for _, c := range d.Childs {
		for i := range c.Relationships {
			c.Relationships[i].ID = ""
		}
	}
	return dump(&d)
}})

type memFile struct{ data []byte }

func (m *memFile) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(m.data)) {
		return 0, io.EOF
	}
	n := copy(p, m.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

var histBases = []struct {
	name string
	f    func() *go3mf.Model
}{
	{"multi", func() *go3mf.Model {
		m := histMulti()
		for i := range m.Attachments {
			m.Attachments[i].Stream = loop(fmt.Sprint("png", i))
		}
		return m
	}},
	{"decoded", func() *go3mf.Model {
		m, err := decodePackage(histPackage(), true)
		if err != nil {
			return new(go3mf.Model)
		}
		for i := range m.Attachments {
			m.Attachments[i].Stream = loop(fmt.Sprint("png", i))
		}
		return m
	}},
	{"single", func() *go3mf.Model { return bare(sampleAll()) }},
}

var histPackage = sync.OnceValue(func() []byte { return packageOf(histMulti(), 0).build(0) })

// histMulti has three child parts.
func histMulti() *go3mf.Model {
	m := sampleMulti()
	o := tetra(5)
	o.AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: uuidN(29)}}
	m.Childs["/3D/aa.model"] = &go3mf.ChildModel{Resources: go3mf.Resources{Objects: []*go3mf.Object{o}}}
	return m
}

var histOnce sync.Map // base, edits, observer -> result

func histWant(base int, edits []int, op int) string {
	k := fmt.Sprint(base, edits, op)
	if v, ok := histOnce.Load(k); ok {
		return v.(string)
	}
	m := histBases[base].f()
	for _, e := range edits {
		modelEdits[e].run(m)
	}
	s := histOps[op].run(m)
	histOnce.Store(k, s)
	return s
}

// history looks at a model, changes it, looks at it again, and so on: what is seen is
// what is seen on a model that was never looked at before.
func history(plan string, bases int) func(t *mc.T) {
	return func(t *mc.T) {
		base := t.Free(bases)
		m := histBases[base].f()
		var edits []int
		names := histBases[base].name
		last := 0
		for _, step := range plan {
			if step == 'e' {
				e := t.Free(len(modelEdits))
				edits = append(edits, e)
				modelEdits[e].run(m)
				names += ", " + modelEdits[e].name
				t.Step()
				continue
			}
			op := last
			if step == 'o' {
				op = t.Free(len(histOps))
			}
			last = op
			names += ", " + histOps[op].name
			t.Logf("%s", names)
			got := histOps[op].run(m)
			t.Step()
			if want := histWant(base, edits, op); got != want {
				t.Failf("the result depends on what was done before: "+histOps[op].name, "%s\n%s", names, diff(want, got))
			}
		}
		t.Case(names)
		t.State(fmt.Sprint(base, edits))
		t.Sample("%s", names)
	}
}

// histOthers looks at other models with the same paths and identifiers in between.
func histOthers(t *mc.T) {
	var at []int // the changes that make the models
	n := 2
	names := ""
	for i := 0; i < n; i++ {
		e, op := t.Free(len(modelEdits)+1), t.Free(len(histOps))
		m := histBases[0].f()
		at = at[:0]
		if e > 0 {
			modelEdits[e-1].run(m)
			at = append(at, e-1)
			names += ", " + modelEdits[e-1].name
		}
		names += ", " + histOps[op].name
		got := histOps[op].run(m)
		t.Step()
		if want := histWant(0, at, op); got != want {
			t.Failf("the result depends on another model: "+histOps[op].name, "%s\n%s", names, diff(want, got))
		}
	}
	t.Case(names)
}

func init() {
	register(&mc.Property{ID: "C33",
		Method: "bounded exhaustive enumeration of histories: every sequence of looking at a model and changing it, up to a depth, on the real code; each look is compared with the same look at a model that has the same content and was never looked at",
		Rule:   "one execution is one history of one model: looks and changes in turn",
		Assumptions: []string{
			"the reference is the code itself on a fresh model; what it should say is the subject of the other properties",
		},
		Scenarios: []mc.Scenario{
			{Name: "one change", Bound: fmt.Sprintf("look, change, look, look: 3 models, all sequences of %d looks and %d changes", len(histOps), len(modelEdits)), Run: history("oeoo", 3)},
			{Name: "two changes", Bound: "look, change, change, look: 1 model", Run: history("oeeo", 1)},
			{Name: "other models", Bound: "2 models that differ by one change, each looked at once", Run: histOthers},
			{Name: "look between", Bound: "look, change, look, change, look: 2 models", Thorough: true, Run: history("oeoeo", 2)},
			{Name: "three changes", Bound: "look, change, same look, change, change, same look: 1 model", Thorough: true, Run: history("oesees", 1)},
		}})
}
