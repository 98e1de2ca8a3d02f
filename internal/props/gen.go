package props

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"image/color"
	"sort"
	"strconv"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

const (
	nsQ = "urn:unknown:q" // an extension no spec is registered for
	nsR = "urn:unknown:r" // another one
)

var extQ = go3mf.Extension{Namespace: nsQ, LocalName: "q"}
var extR = go3mf.Extension{Namespace: nsR, LocalName: "r"}

// text explores string contents that need care in XML.
func text(t *mc.T, def string) string {
	return mc.Pick(t, def, `a&b<c>"d"'e'`, " lead trail ", "tab\tnl\nend\rcr", "é世😀", "]]>&amp;<!-- -->")
}

func qattr(local, value string) xml.Attr {
	return xml.Attr{Name: xml.Name{Space: nsQ, Local: local}, Value: value}
}

// anyAttr optionally yields attributes of unknown namespaces.
func anyAttr(t *mc.T) spec.AnyAttr {
	switch t.Choose(5) {
	case 1:
		return spec.AnyAttr{&spec.UnknownAttrs{Space: nsQ, Attr: []xml.Attr{qattr("k", "v")}}}
	case 2:
		return spec.AnyAttr{&spec.UnknownAttrs{Space: nsQ, Attr: []xml.Attr{qattr("k", "1"), qattr("l", "2")}}}
	case 3:
		return spec.AnyAttr{
			&spec.UnknownAttrs{Space: nsQ, Attr: []xml.Attr{qattr("k", `x&"<>'`)}},
			&spec.UnknownAttrs{Space: nsR, Attr: []xml.Attr{{Name: xml.Name{Space: nsR, Local: "k"}, Value: "\t\n"}}},
		}
	case 4:
		return spec.AnyAttr{&spec.UnknownAttrs{Space: nsR, Attr: []xml.Attr{{Name: xml.Name{Space: nsR, Local: "id"}, Value: "77"}}}}
	}
	return nil
}

// unknownTokens builds the token list of a foreign element.
func unknownTokens(shape int) spec.UnknownTokens {
	se := func(space, local string, attr ...xml.Attr) xml.StartElement {
		return xml.StartElement{Name: xml.Name{Space: space, Local: local}, Attr: attr}
	}
	ee := func(space, local string) xml.EndElement {
		return xml.EndElement{Name: xml.Name{Space: space, Local: local}}
	}
	var tk []xml.Token
	switch shape {
	case 0: // leaf
		tk = []xml.Token{se(nsQ, "leaf", qattr("a", "1"), xml.Attr{Name: xml.Name{Local: "id"}, Value: "9"}), ee(nsQ, "leaf")}
	case 1: // text
		tk = []xml.Token{se(nsQ, "txt"), xml.CharData(`some & <text> "x"`), ee(nsQ, "txt")}
	case 2: // nested
		tk = []xml.Token{se(nsQ, "outer"), se(nsQ, "inner", qattr("b", "2")), xml.CharData("deep"), ee(nsQ, "inner"), se(nsR, "inner"), ee(nsR, "inner"), ee(nsQ, "outer")}
	case 3: // same name nested
		tk = []xml.Token{se(nsQ, "n"), se(nsQ, "n"), se(nsQ, "n", qattr("c", "3")), ee(nsQ, "n"), ee(nsQ, "n"), xml.CharData("after"), ee(nsQ, "n")}
	case 4: // foreign element with core-named and core children
		tk = []xml.Token{se(nsQ, "object"), se(go3mf.Namespace, "object", xml.Attr{Name: xml.Name{Local: "id"}, Value: "1"}), se(go3mf.Namespace, "mesh"), ee(go3mf.Namespace, "mesh"), ee(go3mf.Namespace, "object"), ee(nsQ, "object")}
	case 5: // mixed content
		tk = []xml.Token{se(nsQ, "mix"), xml.CharData("a"), se(nsQ, "x"), ee(nsQ, "x"), xml.CharData("b"), se(nsQ, "y"), ee(nsQ, "y"), xml.CharData(" c "), ee(nsQ, "mix")}
	case 6: // two attributes of the same local name in different namespaces
		tk = []xml.Token{se(nsR, "leaf", qattr("a", "1"), xml.Attr{Name: xml.Name{Space: nsR, Local: "a"}, Value: "2"}, xml.Attr{Name: xml.Name{Local: "a"}, Value: "3"}), ee(nsR, "leaf")}
	}
	return spec.UnknownTokens{Token: tk}
}

const nShapes = 7

// anyElems optionally yields foreign elements.
func anyElems(t *mc.T) spec.Any {
	k := t.Choose(nShapes + 2)
	if k == 0 {
		return nil
	}
	if k == nShapes+1 {
		a, b := unknownTokens(0), unknownTokens(1)
		c := unknownTokens(2)
		return spec.Any{&a, &b, &c}
	}
	u := unknownTokens(k - 1)
	return spec.Any{&u}
}

// coreOpts tune the core generator.
type coreOpts struct {
	any      bool // unknown extension content
	rich     bool
	noAssets bool
}

var coords = []float32{0, 1, -1.5, 100.25, 0.1, 1234.5678, -0.0001, 99999}

func coord(t *mc.T) float32 { return coords[t.Choose(len(coords))] }

// transform explores transforms (3 decimals so that they are representable).
func transform(t *mc.T) go3mf.Matrix {
	switch t.Choose(6) {
	case 1:
		return go3mf.Identity()
	case 2:
		return go3mf.Identity().Translate(1, -2.5, 3.125)
	case 3:
		return go3mf.Matrix{0, 1, 0, 0, -1, 0, 0, 0, 0, 0, 1, 0, 10, 20, 30, 1}
	case 4:
		return go3mf.Matrix{0.5, 0.001, 1.5, 0, 2.25, 3, 4.125, 0, 5, 6, 7, 0, 8, 9, 10.5, 1}
	case 5:
		return go3mf.Matrix{2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 1}
	}
	return go3mf.Matrix{}
}

func metadatas(t *mc.T) []go3mf.Metadata {
	switch t.Choose(7) {
	case 1:
		return []go3mf.Metadata{{Name: xml.Name{Local: "Title"}, Value: "a title"}}
	case 2:
		return []go3mf.Metadata{{Name: xml.Name{Local: "Title"}, Value: text(t, "v"), Type: text(t, "xs:string"), Preserve: true}, {Name: xml.Name{Local: "Designer"}, Value: ""}}
	case 3:
		return []go3mf.Metadata{{Name: xml.Name{Space: "q", Local: "custom"}, Value: "x"}}
	case 4:
		return []go3mf.Metadata{{Name: xml.Name{Local: "und:eclared"}, Value: "x"}}
	case 5:
		return []go3mf.Metadata{{Name: xml.Name{Local: text(t, "Description")}, Value: text(t, " padded ")}}
	case 6:
		return []go3mf.Metadata{{Name: xml.Name{Local: "A"}, Value: "1"}, {Name: xml.Name{Local: "B"}, Value: "2", Preserve: true}, {Name: xml.Name{Local: "C"}, Type: "t"}}
	}
	return nil
}

func metaGroup(t *mc.T, o coreOpts) go3mf.MetadataGroup {
	g := go3mf.MetadataGroup{Metadata: metadatas(t)}
	if o.any {
		g.AnyAttr = anyAttr(t)
	}
	return g
}

func rgba(t *mc.T) color.RGBA {
	return mc.Pick(t, color.RGBA{1, 2, 3, 255}, color.RGBA{255, 0, 171, 4}, color.RGBA{0, 0, 0, 0}, color.RGBA{16, 160, 250, 128})
}

func genBase(t *mc.T, id uint32, o coreOpts) *go3mf.BaseMaterials {
	b := &go3mf.BaseMaterials{ID: id}
	n := mc.Pick(t, 2, 0, 1, 3)
	for i := 0; i < n; i++ {
		x := go3mf.Base{Name: text(t, fmt.Sprintf("mat%d", i)), Color: rgba(t)}
		if o.any && i == 0 {
			x.AnyAttr = anyAttr(t)
		}
		b.Materials = append(b.Materials, x)
	}
	if o.any {
		b.AnyAttr = anyAttr(t)
	}
	return b
}

func genMeshObject(t *mc.T, id, pid uint32, o coreOpts) *go3mf.Object {
	ob := &go3mf.Object{ID: id}
	ob.Type = mc.Pick(t, go3mf.ObjectTypeModel, go3mf.ObjectTypeOther, go3mf.ObjectTypeSupport, go3mf.ObjectTypeSolidSupport, go3mf.ObjectTypeSurface)
	ob.Thumbnail = mc.Pick(t, "", "/Thumbnails/o.png")
	ob.PartNumber = mc.Pick(t, "", "pn-1", `p"&<`)
	ob.Name = mc.Pick(t, "", "obj", "é<&>")
	if pid != 0 {
		ob.PID = mc.Pick(t, pid, 0)
		if ob.PID != 0 {
			ob.PIndex = mc.Pick(t, uint32(0), 1)
		}
	}
	ob.Metadata = metaGroup(t, o)
	m := &go3mf.Mesh{}
	ob.Mesh = m
	shape := t.Choose(4)
	switch shape {
	case 0: // tetrahedron
		m.Vertices.Vertex = []go3mf.Point3D{{0, 0, 0}, {coord(t), 0, 0}, {0, coord(t), 0}, {0, 0, coord(t)}}
		m.Triangles.Triangle = []go3mf.Triangle{{V1: 0, V2: 2, V3: 1}, {V1: 0, V2: 1, V3: 3}, {V1: 1, V2: 2, V3: 3}, {V1: 2, V2: 0, V3: 3}}
	case 1: // empty mesh
	case 2: // vertices only
		m.Vertices.Vertex = []go3mf.Point3D{{1, 2, 3}}
	case 3: // one triangle
		m.Vertices.Vertex = []go3mf.Point3D{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}
		m.Triangles.Triangle = []go3mf.Triangle{{V1: 0, V2: 1, V3: 2}}
	}
	for i := range m.Triangles.Triangle {
		tr := &m.Triangles.Triangle[i]
		if i > 2 { // two are enough to see state leaking from one to the next
			continue
		}
		if pid != 0 {
			switch t.Choose(6) {
			case 1:
				tr.PID, tr.P1, tr.P2, tr.P3 = pid, 0, 0, 0
			case 2:
				tr.PID, tr.P1, tr.P2, tr.P3 = pid, 1, 1, 1
			case 3:
				tr.PID, tr.P1, tr.P2, tr.P3 = pid, 0, 1, 0
			case 4:
				tr.PID, tr.P1, tr.P2, tr.P3 = pid, 0, 0, 1
			case 5:
				tr.PID, tr.P1, tr.P2, tr.P3 = pid+100, 2, 3, 4
			}
		}
		if o.any {
			tr.AnyAttr = anyAttr(t)
		}
	}
	if o.any {
		ob.AnyAttr = anyAttr(t)
		m.AnyAttr = anyAttr(t)
		m.Vertices.AnyAttr = anyAttr(t)
		m.Triangles.AnyAttr = anyAttr(t)
		m.Any = anyElems(t)
	}
	return ob
}

func genComponentObject(t *mc.T, id uint32, refs []uint32, o coreOpts) *go3mf.Object {
	ob := &go3mf.Object{ID: id, Components: &go3mf.Components{}}
	ob.Type = mc.Pick(t, go3mf.ObjectTypeModel, go3mf.ObjectTypeSupport)
	ob.Name = mc.Pick(t, "", "assembly")
	ob.Metadata = metaGroup(t, o)
	for _, r := range refs {
		c := &go3mf.Component{ObjectID: r, Transform: transform(t)}
		if o.any {
			c.AnyAttr = anyAttr(t)
		}
		ob.Components.Component = append(ob.Components.Component, c)
	}
	if o.any {
		ob.AnyAttr = anyAttr(t)
		ob.Components.AnyAttr = anyAttr(t)
	}
	return ob
}

func genItem(t *mc.T, id uint32, o coreOpts) *go3mf.Item {
	it := &go3mf.Item{ObjectID: id, Transform: transform(t), PartNumber: mc.Pick(t, "", "it-1", `"&`)}
	it.Metadata = metaGroup(t, o)
	if o.any {
		it.AnyAttr = anyAttr(t)
	}
	return it
}

// genCore explores core models around a base that uses every core element.
func genCore(t *mc.T, o coreOpts) *go3mf.Model {
	m := &go3mf.Model{}
	m.Units = mc.Pick(t, go3mf.UnitMillimeter, go3mf.UnitMicrometer, go3mf.UnitCentimeter, go3mf.UnitInch, go3mf.UnitFoot, go3mf.UnitMeter)
	m.Language = mc.Pick(t, "en-US", "", `e"&<`)
	m.Thumbnail = mc.Pick(t, "", "/Thumbnails/m.png")
	q := extQ
	q.IsRequired = t.Flip()
	m.Extensions = []go3mf.Extension{q, extR}
	if t.Flip() {
		m.Extensions[1].IsRequired = true
	}
	m.Metadata = metadatas(t)
	if !o.noAssets {
		switch t.Choose(3) {
		case 0:
			m.Resources.Assets = []go3mf.Asset{genBase(t, 1, o)}
		case 1:
			m.Resources.Assets = []go3mf.Asset{genBase(t, 1, o), genBase(t, 20, o)}
		}
	}
	switch t.Choose(4) {
	case 0:
		m.Resources.Objects = []*go3mf.Object{genMeshObject(t, 2, 1, o), genComponentObject(t, 3, []uint32{2, 2}, o)}
		m.Build.Items = []*go3mf.Item{genItem(t, 3, o), genItem(t, 2, o)}
	case 1:
		m.Resources.Objects = []*go3mf.Object{genMeshObject(t, 2, 1, o)}
		m.Build.Items = []*go3mf.Item{genItem(t, 2, o)}
	case 2:
		m.Resources.Objects = []*go3mf.Object{genMeshObject(t, 4294967295, 0, o), genMeshObject(t, 2, 1, o), genComponentObject(t, 3, nil, o)}
		m.Build.Items = []*go3mf.Item{genItem(t, 4294967295, o), genItem(t, 2, o), genItem(t, 3, o)}
	case 3:
	}
	if o.any {
		m.AnyAttr = anyAttr(t)
		m.Resources.AnyAttr = anyAttr(t)
		m.Build.AnyAttr = anyAttr(t)
		m.Any = anyElems(t)
	}
	return m
}

// ---------------------------------------------------------------------------
// Normal form: what decode(encode(m)) must be.

func roundF(x float32, prec int) float32 {
	v, err := strconv.ParseFloat(strconv.FormatFloat(float64(x), 'f', prec, 32), 32)
	if err != nil {
		panic(err)
	}
	return float32(v)
}

// roundM is what a transform becomes: three decimals, no transform and the
// identity are the same thing.
func roundM(m go3mf.Matrix) go3mf.Matrix {
	if m == (go3mf.Matrix{}) || m == go3mf.Identity() {
		return go3mf.Matrix{}
	}
	for i := range m {
		if i%4 == 3 {
			m[i] = 0
		} else {
			m[i] = roundF(m[i], 3)
			if m[i] == 0 {
				m[i] = 0 // -0.000 and 0.000 are the same coefficient
			}
		}
	}
	m[15] = 1
	if m == go3mf.Identity() {
		return go3mf.Matrix{}
	}
	return m
}

func canonM(m go3mf.Matrix) go3mf.Matrix {
	if m == go3mf.Identity() {
		return go3mf.Matrix{}
	}
	for i := range m {
		if m[i] == 0 {
			m[i] = 0
		}
	}
	return m
}

func eachResources(m *go3mf.Model, f func(path string, rs *go3mf.Resources)) {
	f("", &m.Resources)
	var ps []string
	for p := range m.Childs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		f(p, &m.Childs[p].Resources)
	}
}

// normalize turns the encoded model into the model a decoder must produce.
func normalize(m *go3mf.Model, prec int) {
	eachResources(m, func(_ string, rs *go3mf.Resources) {
		for _, o := range rs.Objects {
			if o.Mesh != nil {
				for i, v := range o.Mesh.Vertices.Vertex {
					o.Mesh.Vertices.Vertex[i] = go3mf.Point3D{roundF(v[0], prec), roundF(v[1], prec), roundF(v[2], prec)}
				}
				for i := range o.Mesh.Triangles.Triangle {
					tr := &o.Mesh.Triangles.Triangle[i]
					if tr.PID == 0 {
						tr.PID, tr.P1, tr.P2, tr.P3 = o.PID, o.PIndex, o.PIndex, o.PIndex
					}
				}
			}
			if o.Components != nil {
				for _, c := range o.Components.Component {
					c.Transform = roundM(c.Transform)
				}
			}
		}
	})
	for _, it := range m.Build.Items {
		it.Transform = roundM(it.Transform)
	}
}

// canonModel rewrites equivalent representations of a decoded model.
func canonModel(m *go3mf.Model) {
	eachResources(m, func(_ string, rs *go3mf.Resources) {
		for _, o := range rs.Objects {
			if o.Components != nil {
				for _, c := range o.Components.Component {
					c.Transform = canonM(c.Transform)
				}
			}
		}
	})
	for _, it := range m.Build.Items {
		it.Transform = canonM(it.Transform)
	}
}

func sortAttrs(at []xml.Attr) {
	sort.SliceStable(at, func(i, j int) bool {
		if at[i].Name.Space != at[j].Name.Space {
			return at[i].Name.Space < at[j].Name.Space
		}
		return at[i].Name.Local < at[j].Name.Local
	})
}

// canonAttrs sorts foreign attributes (their order is not information) and
// optionally removes namespace declarations.
func canonAttrs(m *go3mf.Model, dropNS bool) {
	st := func(a *spec.AnyAttr) {
		var out spec.AnyAttr
		for _, g := range *a {
			if u, ok := g.(*spec.UnknownAttrs); ok {
				if u.Space == "xmlns" && dropNS {
					continue
				}
				c := &spec.UnknownAttrs{Space: u.Space, Attr: append([]xml.Attr(nil), u.Attr...)}
				sortAttrs(c.Attr)
				g = c
			}
			out = append(out, g)
		}
		sort.SliceStable(out, func(i, j int) bool { return out[i].Namespace() < out[j].Namespace() })
		*a = out
	}
	tk := func(u *spec.UnknownTokens) {
		u.Token = append([]xml.Token(nil), u.Token...)
		for i, x := range u.Token {
			if se, ok := x.(xml.StartElement); ok {
				var at []xml.Attr
				for _, a := range se.Attr {
					if !dropNS || a.Name.Space != "xmlns" && (a.Name.Space != "" || a.Name.Local != "xmlns") {
						at = append(at, a)
					}
				}
				sortAttrs(at)
				se.Attr = at
				u.Token[i] = se
			}
		}
	}
	any := func(a spec.Any) {
		for _, x := range a {
			if u, ok := x.(*spec.UnknownTokens); ok {
				tk(u)
			}
		}
	}
	any(m.Any)
	for _, c := range m.Childs {
		any(c.Any)
	}
	st(&m.AnyAttr)
	st(&m.Build.AnyAttr)
	for _, it := range m.Build.Items {
		st(&it.AnyAttr)
		st(&it.Metadata.AnyAttr)
	}
	eachResources(m, func(_ string, rs *go3mf.Resources) {
		st(&rs.AnyAttr)
		for _, a := range rs.Assets {
			if u, ok := a.(*go3mf.UnknownAsset); ok {
				tk(&u.UnknownTokens)
			}
			if b, ok := a.(*go3mf.BaseMaterials); ok {
				st(&b.AnyAttr)
				for i := range b.Materials {
					st(&b.Materials[i].AnyAttr)
				}
			}
		}
		for _, o := range rs.Objects {
			st(&o.AnyAttr)
			st(&o.Metadata.AnyAttr)
			if o.Components != nil {
				st(&o.Components.AnyAttr)
				for _, c := range o.Components.Component {
					st(&c.AnyAttr)
				}
			}
			if o.Mesh != nil {
				st(&o.Mesh.AnyAttr)
				any(o.Mesh.Any)
				st(&o.Mesh.Vertices.AnyAttr)
				st(&o.Mesh.Triangles.AnyAttr)
				for i := range o.Mesh.Triangles.Triangle {
					st(&o.Mesh.Triangles.Triangle[i].AnyAttr)
				}
			}
		}
	})
}

// ---------------------------------------------------------------------------
// Encoding helpers.

func encodePackage(m *go3mf.Model, prec int) ([]byte, error) {
	var b bytes.Buffer
	e := go3mf.NewEncoder(&b)
	e.FloatPrecision = prec
	if err := e.Encode(m); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

func decodePackage(data []byte, strict bool) (*go3mf.Model, error) {
	m := new(go3mf.Model)
	d := go3mf.NewDecoder(bytes.NewReader(data), int64(len(data)))
	d.Strict = strict
	err := d.Decode(m)
	return m, err
}

func ftoa(x float32, prec int) string { return strconv.FormatFloat(float64(x), 'f', prec, 32) }
func utoa(x uint32) string            { return strconv.FormatUint(uint64(x), 10) }

func joinU(x []uint32) string {
	var s []string
	for _, v := range x {
		s = append(s, utoa(v))
	}
	return strings.Join(s, " ")
}

func sortedKeys[V any](m map[string]V) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}
