package props

import (
	"encoding/xml"
	"fmt"
	"image/color"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	specerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

const childPath = "/3D/a.model"

// ---- C17: core --------------------------------------------------------------

// notIndirect leaves recursion through other objects to its own scenario.
func notIndirect(m *go3mf.Model) func(string) bool {
	direct := map[string]bool{}
	eachResources(m, func(p string, rs *go3mf.Resources) {
		rp := p
		if p == "" {
			rp = rootName(m)
		}
		for i, o := range rs.Objects {
			if o.Components == nil {
				continue
			}
			for j, c := range o.Components.Component {
				if c.ObjectID == o.ID && resourcesOf(m, compPath(c, rp)) == rs {
					direct[fmt.Sprintf("/model/resources/object[%d]/components/component[%d]", i, j)+p] = true
				}
			}
		}
	})
	return func(k string) bool {
		f := strings.Split(k, " | ")
		if f[2] != specerr.ErrRecursion.Error() || strings.Contains(f[1], "beamlattice") {
			return false
		}
		return !direct[f[1]+f[0]]
	}
}

func base(t *mc.T, id uint32, n int) *go3mf.BaseMaterials {
	b := &go3mf.BaseMaterials{ID: mc.Pick(t, id, 0, 3, id%2+1)}
	for i := 0; i < n; i++ {
		b.Materials = append(b.Materials, go3mf.Base{Name: mc.Pick(t, "m", ""), Color: mc.Pick(t, color.RGBA{1, 2, 3, 4}, color.RGBA{}, color.RGBA{A: 1})})
	}
	if t.Flip() {
		b.Materials = nil
	}
	return b
}

func validMetadata(t *mc.T) []go3mf.Metadata {
	title := go3mf.Metadata{Name: xml.Name{Local: "Title"}, Value: "v"}
	switch t.Choose(7) {
	case 1:
		return nil
	case 2:
		return []go3mf.Metadata{title, {Value: "v"}}
	case 3:
		return []go3mf.Metadata{{Name: xml.Name{Local: "Titles"}}, title}
	case 4:
		return []go3mf.Metadata{title, title, title}
	case 5:
		return []go3mf.Metadata{{Name: xml.Name{Space: nsQ, Local: "Title"}}, title}
	case 6:
		return []go3mf.Metadata{title, {Name: xml.Name{Space: nsR, Local: "Title"}}}
	}
	return []go3mf.Metadata{title}
}

func validMeshObject(t *mc.T, id uint32) *go3mf.Object {
	o := &go3mf.Object{ID: mc.Pick(t, id, 0, 1, 9), PID: mc.Pick(t, uint32(1), 0, 2, 99), PIndex: mc.Pick(t, uint32(0), 1, 2)}
	o.Type = mc.Pick(t, go3mf.ObjectTypeModel, go3mf.ObjectTypeOther, go3mf.ObjectTypeSupport, go3mf.ObjectTypeSolidSupport, go3mf.ObjectTypeSurface)
	o.Metadata.Metadata = validMetadata(t)
	m := &go3mf.Mesh{}
	nv, nt := mc.Pick(t, 4, 3, 2, 0), mc.Pick(t, 4, 3, 5, 0)
	for i := 0; i < nv; i++ {
		m.Vertices.Vertex = append(m.Vertices.Vertex, go3mf.Point3D{float32(i % 2), float32(i / 2), float32(i)})
	}
	tri := []go3mf.Triangle{{V1: 0, V2: 2, V3: 1}, {V1: 0, V2: 1, V3: 3}, {V1: 1, V2: 2, V3: 3}, {V1: 2, V2: 0, V3: 3}, {V1: 2, V2: 0, V3: 1}}
	m.Triangles.Triangle = tri[:nt]
	for i := range m.Triangles.Triangle {
		tr := &m.Triangles.Triangle[i]
		switch t.Choose(14) {
		case 1:
			tr.V1 = tr.V2
		case 2:
			tr.V3 = tr.V1
		case 3:
			tr.V2 = tr.V3
		case 4:
			tr.V1 = 4
		case 5:
			tr.V2 = 5
		case 6:
			tr.V3 = 1 << 31
		case 7:
			tr.PID, tr.P1, tr.P2, tr.P3 = 1, 0, 1, 1
		case 8:
			tr.PID, tr.P1 = 1, 2
		case 9:
			tr.PID, tr.P2 = 1, 2
		case 10:
			tr.PID, tr.P3 = 1, 1<<32-1
		case 11:
			tr.PID = 99
		case 12:
			tr.PID = 2
		case 13:
			tr.P1, tr.P2, tr.P3 = 7, 7, 7
		}
	}
	switch t.Choose(4) {
	case 0:
		o.Mesh = m
	case 1: // no content
	case 2:
		o.Mesh, o.Components = m, &go3mf.Components{}
	case 3:
		o.Mesh, m.Any = m, spec.Any{&spec.UnknownTokens{}}
	}
	return o
}

func validComponents(t *mc.T, id uint32, refs ...*go3mf.Component) *go3mf.Object {
	o := &go3mf.Object{ID: mc.Pick(t, id, 0, 1, 4), PID: mc.Pick(t, uint32(0), 1, 99), PIndex: mc.Pick(t, uint32(0), 1)}
	o.Type = mc.Pick(t, go3mf.ObjectTypeModel, go3mf.ObjectTypeOther)
	o.Components = &go3mf.Components{}
	for _, c := range refs {
		c.ObjectID = mc.Pick(t, c.ObjectID, 0, 1, 99, id)
		p := ""
		if len(c.AnyAttr) == 1 {
			p = c.AnyAttr[0].(*production.ComponentAttr).Path
		}
		if np := mc.Pick(t, p, childPath, go3mf.DefaultModelPath, "/3D/none.model"); np != p {
			c.AnyAttr = spec.AnyAttr{&production.ComponentAttr{Path: np}}
		}
		o.Components.Component = append(o.Components.Component, c)
	}
	switch t.Choose(3) {
	case 1:
		o.Components.Component = nil
	case 2:
		o.Components = nil
	}
	return o
}

// validCore is a valid model of two parts with any K fields changed.
func validCore(t *mc.T) *go3mf.Model {
	m := &go3mf.Model{Path: mc.Pick(t, "", go3mf.DefaultModelPath, "/3D/r.model", childPath)}
	switch t.Choose(7) {
	case 0:
		m.Extensions = []go3mf.Extension{ext(extQ, false)}
	case 1:
	case 2:
		m.Extensions = []go3mf.Extension{ext(extQ, true)}
	case 3:
		m.Extensions = []go3mf.Extension{ext(extQ, true), ext(extR, true)}
	case 4:
		m.Extensions = []go3mf.Extension{ext(extR, false), ext(extQ, true)}
	case 5:
		m.Extensions = []go3mf.Extension{ext(extQ, false), ext(materials.DefaultExtension, true), ext(slices.DefaultExtension, true), ext(beamlattice.DefaultExtension, true)}
	case 6:
		m.Extensions = []go3mf.Extension{ext(extR, false)}
	}
	m.Metadata = validMetadata(t)
	m.Attachments = []go3mf.Attachment{{Path: "/t.png", ContentType: "image/png"}}
	rel := func() []go3mf.Relationship {
		if !t.Flip() {
			return []go3mf.Relationship{{Path: "/t.png", Type: go3mf.RelTypeThumbnail}}
		}
		return []go3mf.Relationship{{Path: "/none.png", Type: go3mf.RelTypeThumbnail}}
	}
	m.RootRelationships, m.Relationships = rel(), rel()
	m.Resources.Assets = []go3mf.Asset{base(t, 1, 2), base(t, 2, 1)}
	at := func(p string) spec.AnyAttr { return spec.AnyAttr{&production.ComponentAttr{Path: p}} }
	m.Resources.Objects = []*go3mf.Object{validMeshObject(t, 3),
		validComponents(t, 4, &go3mf.Component{ObjectID: 3}, &go3mf.Component{ObjectID: 9, AnyAttr: at(childPath)})}
	c := &go3mf.ChildModel{Relationships: rel()}
	c.Resources.Assets = []go3mf.Asset{base(t, 1, 2)}
	c.Resources.Objects = []*go3mf.Object{validMeshObject(t, 9), validComponents(t, 10, &go3mf.Component{ObjectID: 9})}
	m.Childs = map[string]*go3mf.ChildModel{childPath: c}
	if m.Path == childPath { // the relationships of a part without name are nobody's
		c.Relationships = nil
	}
	for _, x := range []struct {
		id   uint32
		path string
	}{{4, ""}, {9, childPath}} {
		it := &go3mf.Item{ObjectID: mc.Pick(t, x.id, 0, 1, 3, 99), Metadata: go3mf.MetadataGroup{Metadata: validMetadata(t)}}
		if p := mc.Pick(t, x.path, "", childPath, go3mf.DefaultModelPath, "/3D/none.model"); p != "" {
			it.AnyAttr = spec.AnyAttr{&production.ItemAttr{Path: p}}
		}
		m.Build.Items = append(m.Build.Items, it)
	}
	return m
}

// sameNames says whether the root part has the name of a child part: then the
// resources of the child cannot be found.
func sameNames(m *go3mf.Model) bool { _, ok := m.Childs[rootName(m)]; return ok }

func coreDeviations(t *mc.T) {
	m := validCore(t)
	if sameNames(m) {
		// only the error itself is judged
		err := m.Validate()
		for _, k := range errorKeys(err) {
			if k == vkey("", "/model", specerr.ErrOPCDuplicatedModelName.Error()) {
				return
			}
		}
		t.Failf("a violation is not reported: duplicated part name", "%v", err)
	}
	t.Case(dump(m))
	checkValid(t, m, notIndirect(m))
}

// meshShapes are all numbers of vertices and triangles.
func meshShapes(t *mc.T) {
	o := &go3mf.Object{ID: 1, Mesh: &go3mf.Mesh{}}
	o.Type = go3mf.ObjectType(t.Free(5))
	nv, nt := t.Free(6), t.Free(6)
	o.Mesh.Vertices.Vertex = make([]go3mf.Point3D, nv)
	for i := 0; i < nt; i++ {
		o.Mesh.Triangles.Triangle = append(o.Mesh.Triangles.Triangle, go3mf.Triangle{V1: 0, V2: 1, V3: 2})
	}
	switch t.Free(3) {
	case 1:
		o.Mesh.Any = spec.Any{&spec.UnknownTokens{}}
	case 2:
		o.Components = &go3mf.Components{}
	}
	m := &go3mf.Model{Resources: go3mf.Resources{Objects: []*go3mf.Object{o}}}
	if t.Free(2) == 1 {
		m.Childs = map[string]*go3mf.ChildModel{childPath: {Resources: m.Resources}}
		m.Resources = go3mf.Resources{}
	}
	t.Case(dump(m))
	checkValid(t, m, notIndirect(m))
}

// triangleIndices are all combinations of boundary values in a triangle.
func triangleIndices(t *mc.T) {
	o := &go3mf.Object{ID: 10, Mesh: &go3mf.Mesh{}, PID: mc.Each(t, uint32(0), 1, 2, 9), PIndex: mc.Each(t, uint32(0), 1, 2)}
	n := 4
	o.Mesh.Vertices.Vertex = make([]go3mf.Point3D, n)
	o.Mesh.Triangles.Triangle = []go3mf.Triangle{{V1: 0, V2: 2, V3: 1}, {V1: 0, V2: 1, V3: 3}, {V1: 1, V2: 2, V3: 3}, {V1: 2, V2: 0, V3: 3}}
	tr := &o.Mesh.Triangles.Triangle[mc.Each(t, 0, 3)]
	if t.Free(2) == 0 {
		v := func() uint32 { return mc.Each(t, uint32(0), 1, 3, 4, 1<<32-1) }
		tr.V1, tr.V2, tr.V3 = v(), v(), v()
	} else {
		p := func() uint32 { return mc.Each(t, uint32(0), 1, 2, 3, 1<<32-1) }
		tr.PID, tr.P1, tr.P2, tr.P3 = mc.Each(t, uint32(0), 1, 2, 3, 9), p(), p(), p()
	}
	mats := func(n int) (out []go3mf.Base) {
		for i := 0; i < n; i++ {
			out = append(out, go3mf.Base{Name: "x", Color: color.RGBA{A: 1}})
		}
		return
	}
	m := &go3mf.Model{Resources: go3mf.Resources{Objects: []*go3mf.Object{o}, Assets: []go3mf.Asset{
		&go3mf.BaseMaterials{ID: 1, Materials: mats(2)}, &materials.ColorGroup{ID: 2, Colors: make([]color.RGBA, 3)}, &materials.Texture2D{ID: 3}}}}
	t.Case(dump(m))
	checkValid(t, m, notIndirect(m))
}

// componentGraphs are all references between the objects of two parts.
func componentGraphs(t *mc.T) {
	m := &go3mf.Model{Path: mc.Each(t, "", "/3D/r.model"), Childs: map[string]*go3mf.ChildModel{}}
	root := rootName(m)
	comp := func() *go3mf.Component {
		c := &go3mf.Component{ObjectID: uint32(t.Free(4))}
		if p := mc.Each(t, "", root, childPath, "/3D/none.model"); p != "" {
			c.AnyAttr = spec.AnyAttr{&production.ComponentAttr{Path: p}}
		}
		return c
	}
	objs := func(n int) []*go3mf.Object {
		a := &go3mf.Object{ID: 1, Components: &go3mf.Components{}}
		for i := 0; i < n; i++ {
			a.Components.Component = append(a.Components.Component, comp())
		}
		b := &go3mf.Object{ID: 2, Mesh: &go3mf.Mesh{}, Type: go3mf.ObjectTypeOther}
		return []*go3mf.Object{a, b}
	}
	m.Resources.Objects = objs(2)
	m.Childs[childPath] = &go3mf.ChildModel{Resources: go3mf.Resources{Objects: objs(1)}}
	it := &go3mf.Item{ObjectID: uint32(t.Free(4))}
	if p := mc.Each(t, "", root, childPath, "/3D/none.model"); p != "" {
		it.AnyAttr = spec.AnyAttr{&production.ItemAttr{Path: p}}
	}
	m.Build.Items = []*go3mf.Item{it}
	t.Case(dump(m))
	checkValid(t, m, notIndirect(m))
}

// relationshipLists are all short lists of relationships of each owner.
func relationshipLists(t *mc.T) {
	m := &go3mf.Model{Path: mc.Each(t, "", "/3D/r.model"), Childs: map[string]*go3mf.ChildModel{childPath: {}}}
	m.Attachments = []go3mf.Attachment{{Path: "/a.png", ContentType: "image/png"}, {Path: "/b.xml", ContentType: go3mf.ContentTypePrintTicket},
		{Path: "/c.xml", ContentType: go3mf.ContentTypePrintTicket}}
	var rels []go3mf.Relationship
	n := t.Free(4)
	types := []string{go3mf.RelTypeThumbnail, go3mf.RelTypePrintTicket}
	paths := []string{"", "/", "a.png", "/a.png", "/A.png", "/b.xml", "/c.xml", "/.png", "/x/../a.png", "/missing.png"}
	if n < 3 || t.Tier == "thorough" {
		types = append(types, go3mf.RelType3DModel, "other")
		paths = append(paths, childPath, rootName(m))
	}
	for i := 0; i < n; i++ {
		rels = append(rels, go3mf.Relationship{Path: mc.Each(t, paths...), Type: mc.Each(t, types...), ID: mc.Each(t, "")})
	}
	// a name that differs in case only is the same part, but is seen as another one
	for i := range rels {
		for j := range rels[:i] {
			if rels[i].Path != rels[j].Path && strings.EqualFold(rels[i].Path, rels[j].Path) && rels[i].Type == rels[j].Type {
				t.Skip()
			}
		}
	}
	switch t.Free(3) {
	case 0:
		m.Relationships = rels
	case 1:
		m.RootRelationships = rels
	case 2:
		m.Childs[childPath].Relationships = rels
	}
	t.Case(dump(m))
	checkValid(t, m, notIndirect(m))
}

// metadataLists are all short lists of metadata of each owner.
func metadataLists(t *mc.T) {
	names := []xml.Name{{Local: "Title"}, {Local: "title"}, {Local: "LICENSETERMS"}, {Local: "Issue"}, {}, {Space: nsQ, Local: "Title"}, {Space: nsR, Local: "Title"},
		{Space: nsQ, Local: "x"}, {Local: "Applicatio"}, {Local: "zzz"}}
	var ms []go3mf.Metadata
	for i, n := 0, t.Free(4); i < n; i++ {
		ms = append(ms, go3mf.Metadata{Name: mc.Each(t, names...), Value: mc.Each(t, "")})
	}
	o := tetra(1)
	m := &go3mf.Model{Resources: go3mf.Resources{Objects: []*go3mf.Object{o}}, Build: go3mf.Build{Items: []*go3mf.Item{{ObjectID: 1}, {ObjectID: 1}}}}
	m.Extensions = mc.Each(t, []go3mf.Extension{extQ}, nil)
	c := &go3mf.ChildModel{Resources: go3mf.Resources{Objects: []*go3mf.Object{tetra(1)}}}
	m.Childs = map[string]*go3mf.ChildModel{childPath: c}
	switch t.Free(4) {
	case 0:
		m.Metadata = ms
	case 1:
		m.Build.Items[1].Metadata.Metadata = ms
	case 2:
		o.Metadata.Metadata = ms
	case 3:
		c.Resources.Objects[0].Metadata.Metadata = ms
	}
	t.Case(dump(m))
	checkValid(t, m, notIndirect(m))
}

// allMetadataNames are the names of the specification and all their edits.
func allMetadataNames(t *mc.T) {
	var names []string
	for n := range metaNames {
		names = append(names, n)
	}
	n := sortedNames(names)[t.Free(len(names))]
	bs := []byte(n)
	var ms []go3mf.Metadata
	add := func(s string) { ms = append(ms, go3mf.Metadata{Name: xml.Name{Local: s}}) }
	for i := range bs {
		add(string(bs[:i]))
		add(string(bs[i:]))
		add(string(bs[:i]) + string(bs[i+1:]))
		add(string(bs[:i]) + " " + string(bs[i:]))
		add(string(bs[:i]) + strings.ToUpper(string(bs[i])) + string(bs[i+1:]))
		add(string(bs[:i]) + strings.ToUpper(string(bs[i:])))
		add(string(bs[:i]) + "z" + string(bs[i+1:]))
	}
	add(n + "s")
	for _, md := range ms {
		t.Case(md.Name.Local)
		checkValid(t, &go3mf.Model{Metadata: []go3mf.Metadata{md}}, nil)
	}
}

func sortedNames(n []string) []string {
	m := map[string]bool{}
	for _, x := range n {
		m[x] = true
	}
	return sortedKeys(m)
}

// indirectRecursion are all cycles through two or three objects of two parts.
func indirectRecursion(t *mc.T) {
	n := 2 + t.Free(2)
	m := &go3mf.Model{Path: go3mf.DefaultModelPath, Childs: map[string]*go3mf.ChildModel{childPath: {}}}
	parts := make([]string, n)
	for i := range parts {
		parts[i] = mc.Each(t, go3mf.DefaultModelPath, childPath)
	}
	for i := range parts {
		j := (i + 1) % n
		o := &go3mf.Object{ID: uint32(i + 1), Components: &go3mf.Components{Component: []*go3mf.Component{
			{ObjectID: uint32(j + 1), AnyAttr: spec.AnyAttr{&production.ComponentAttr{Path: parts[j]}}}}}}
		rs := resourcesOf(m, parts[i])
		rs.Objects = append(rs.Objects, o)
	}
	m.Build.Items = []*go3mf.Item{{ObjectID: 1, AnyAttr: spec.AnyAttr{&production.ItemAttr{Path: parts[0]}}}}
	t.Case(dump(m))
	want, got := refValidate(m), errorKeys(m.Validate())
	if len(got) == 0 {
		t.Failf("recursion through other objects is not reported", "%s", strings.Join(want, "\n"))
	}
	compareErrors(t, "", want, got, nil)
}

// decodedMetadata is a valid document with a name of an extension.
func decodedMetadata(t *mc.T) {
	m := new(go3mf.Model)
	doc := `<model xmlns="http://schemas.microsoft.com/3dmanufacturing/core/2015/02" xmlns:q="` + nsQ + `">` +
		`<metadata name="` + mc.Each(t, "q:x", "q:title") + `">v</metadata><resources/><build/></model>`
	if err := go3mf.UnmarshalModel([]byte(doc), m); err != nil {
		t.Failf("a valid document is rejected", "%v", err)
	}
	if len(m.Extensions) == 0 {
		m.Extensions = []go3mf.Extension{extQ}
	}
	t.Case(doc)
	if err := m.Validate(); err != nil {
		t.Failf("a decoded metadata with the prefix of a declared namespace is reported", "%v", err)
	}
}

// decodedValid validates the samples and what the decoder makes of them.
func decodedValid(t *mc.T) {
	m := mc.Each(t, sampleAll, sampleMulti, sampleCore)()
	mc.Each(t, func() {}, func() { m.Thumbnail = "" }, func() { m.Metadata = nil })()
	for _, x := range m.Metadata {
		if x.Name.Space != "" {
			m.Metadata = nil // see decoded metadata
			break
		}
	}
	if len(m.Attachments) == 0 {
		m.Attachments = []go3mf.Attachment{{Stream: stream("png"), Path: "/3D/Texture/t.png", ContentType: "image/png"}}
		m.Relationships = append(m.Relationships, go3mf.Relationship{Path: "/3D/Texture/t.png", Type: materials.RelTypeTexture3D})
	}
	before := errorKeys(m.Validate())
	data, err := encodePackage(m, 4)
	if err != nil {
		t.Failf("a valid model is not encoded", "%v", err)
	}
	d, err := decodePackage(data, true)
	if err != nil {
		t.Failf("an encoded model is not decoded", "%v", err)
	}
	after := errorKeys(d.Validate())
	compareErrors(t, "before encoding: ", refValidate(m), before, notIndirect(m))
	compareErrors(t, "after decoding: ", refValidate(d), after, notIndirect(d))
	compareErrors(t, "after decoding against before: ", before, after, nil)
	t.Case(string(data))
}

// ---- C18: materials -----------------------------------------------------------

func validMaterials(t *mc.T) []go3mf.Asset {
	u := func(def uint32, alt ...uint32) uint32 { return mc.Pick(t, append([]uint32{def}, alt...)...) }
	colors := func(n int) (out []color.RGBA) {
		for i := 0; i < n; i++ {
			out = append(out, mc.Pick(t, color.RGBA{uint8(i), 2, 3, 255}, color.RGBA{}, color.RGBA{B: 1}))
		}
		if t.Flip() {
			out = nil
		}
		return
	}
	cg := &materials.ColorGroup{ID: u(2, 0, 1), Colors: colors(2)}
	cg2 := &materials.ColorGroup{ID: u(3, 0), Colors: colors(1)}
	tx := &materials.Texture2D{ID: u(4, 0, 1), Path: mc.Pick(t, "/t.png", "", "/T.PNG", "/none.png", "t.png"),
		ContentType: mc.Pick(t, materials.TextureTypePNG, 0, materials.TextureTypeJPEG)}
	tg := &materials.Texture2DGroup{ID: u(5, 0), TextureID: u(4, 0, 2, 5, 99)}
	tg.Coords = make([]materials.TextureCoord, mc.Pick(t, 3, 0, 1))
	cm := &materials.CompositeMaterials{ID: u(6, 0), MaterialID: u(1, 0, 2, 6, 99), Indices: []uint32{u(0, 1, 2), u(1, 2, 1<<32-1)}}
	if t.Flip() {
		cm.Indices = nil
	}
	cm.Composites = make([]materials.Composite, mc.Pick(t, 2, 0, 1))
	multi := func(id uint32, pids ...uint32) *materials.MultiProperties {
		mp := &materials.MultiProperties{ID: u(id, 0)}
		for _, p := range pids {
			mp.PIDs = append(mp.PIDs, u(p, 0, 1, 2, 3, 5, 6, 7, 8, 99))
		}
		switch t.Choose(4) {
		case 1:
			mp.PIDs = nil
		case 2:
			mp.PIDs = mp.PIDs[:1]
		case 3:
			mp.PIDs = append(mp.PIDs, 5)
		}
		mp.BlendMethods = make([]materials.BlendMethod, mc.Pick(t, 1, 0, 2, 3))
		for i := 0; i < 2; i++ {
			mp.Multis = append(mp.Multis, materials.Multi{PIndices: []uint32{u(0, 1, 2, 1<<31), u(1, 0, 2, 3, 1<<32-1)}})
		}
		switch t.Choose(5) {
		case 1:
			mp.Multis = nil
		case 2:
			mp.Multis[1].PIndices = nil
		case 3:
			mp.Multis[0].PIndices = mp.Multis[0].PIndices[:1]
		case 4:
			mp.Multis[1].PIndices = append(mp.Multis[1].PIndices, 9, 9)
		}
		return mp
	}
	return []go3mf.Asset{base(t, 1, 2), cg, cg2, tx, tg, cm, multi(7, 1, 2), multi(8, 6, 5)}
}

func withExt(m *go3mf.Model, e go3mf.Extension) *go3mf.Model {
	m.Extensions = append(m.Extensions, e)
	return m
}

// twice gives a namespace two prefixes, and says with the first or the second of them
// that it is required.
func twice(t *mc.T, m *go3mf.Model, e go3mf.Extension) {
	b := e
	b.LocalName += "2"
	if t.Free(2) == 0 {
		e.IsRequired, b.IsRequired = true, false
	} else {
		e.IsRequired, b.IsRequired = false, true
	}
	withExt(withExt(withExt(m, e), extQ), b)
}

// place puts the resources in the root part or in another one.
func place(t *mc.T, rs go3mf.Resources) *go3mf.Model {
	m := &go3mf.Model{Path: mc.Pick(t, "", "/3D/r.model")}
	switch t.Choose(3) {
	case 0:
		m.Resources = rs
	case 1:
		m.Childs = map[string]*go3mf.ChildModel{childPath: {Resources: rs}}
	case 2: // the same identifiers name other things in the other part
		m.Resources = go3mf.Resources{Assets: []go3mf.Asset{&go3mf.BaseMaterials{ID: 1, Materials: []go3mf.Base{{Name: "a", Color: color.RGBA{A: 1}}}}}}
		m.Childs = map[string]*go3mf.ChildModel{childPath: {Resources: rs}}
	}
	return m
}

func materialDeviations(t *mc.T) {
	assets := validMaterials(t)
	m := place(t, go3mf.Resources{Assets: assets})
	m.Attachments = []go3mf.Attachment{{Path: "/other.png"}, {Path: "/t.png"}}
	switch t.Choose(4) {
	case 0:
		withExt(m, materials.DefaultExtension)
	case 1:
		withExt(m, ext(materials.DefaultExtension, true))
	case 2:
		withExt(m, extQ)
	case 3:
		twice(t, m, materials.DefaultExtension)
	}
	t.Case(dump(m))
	checkValid(t, m, notIndirect(m))
}

// multiLists are all lists of references of a multiproperties.
func multiLists(t *mc.T) {
	n := t.Free(4)
	mp := &materials.MultiProperties{ID: 9}
	var lens []int
	// 1: base of 2, 2, 3: colors of 2 and 1, 5: coords of 3, 6: composite of 2, 8: multi of 1, 99 and 0: nothing
	for i := 0; i < n; i++ {
		mp.PIDs = append(mp.PIDs, mc.Each(t, uint32(1), 2, 3, 5, 6, 8, 99, 0))
		lens = append(lens, 0)
	}
	mp.BlendMethods = make([]materials.BlendMethod, t.Free(n+2))
	mu := materials.Multi{}
	for i := 0; i < n; i++ {
		mu.PIndices = append(mu.PIndices, mc.Each(t, uint32(0), 1, 2, 3))
	}
	mp.Multis = []materials.Multi{mu}
	rs := go3mf.Resources{Assets: []go3mf.Asset{
		&go3mf.BaseMaterials{ID: 1, Materials: []go3mf.Base{{Name: "a", Color: color.RGBA{A: 1}}, {Name: "a", Color: color.RGBA{A: 1}}}},
		&materials.ColorGroup{ID: 2, Colors: []color.RGBA{{A: 1}, {A: 2}}},
		&materials.ColorGroup{ID: 3, Colors: []color.RGBA{{A: 1}}},
		&materials.Texture2D{ID: 4, Path: "/t.png", ContentType: materials.TextureTypePNG},
		&materials.Texture2DGroup{ID: 5, TextureID: 4, Coords: make([]materials.TextureCoord, 3)},
		&materials.CompositeMaterials{ID: 6, MaterialID: 1, Indices: []uint32{0, 1}, Composites: make([]materials.Composite, 2)},
		&materials.MultiProperties{ID: 8, PIDs: []uint32{1}, Multis: make([]materials.Multi, 1)}, mp}}
	m := withExt(&go3mf.Model{Resources: rs}, materials.DefaultExtension)
	m.Attachments = []go3mf.Attachment{{Path: "/t.png"}}
	t.Case(dump(mp))
	checkValid(t, m, notIndirect(m))
}

// ---- C19: slices ---------------------------------------------------------------

func validSlice(t *mc.T, z float32) slices.Slice {
	s := slices.Slice{TopZ: mc.Pick(t, z, 0, -5, z-1, z+1)}
	s.Vertices.Vertex = make([]go3mf.Point2D, mc.Pick(t, 3, 0, 1, 2))
	for i := 0; i < 2; i++ {
		s.Polygons = append(s.Polygons, slices.Polygon{StartV: mc.Pick(t, uint32(0), 1, 3, 1<<32-1),
			Segments: []slices.Segment{{V2: mc.Pick(t, uint32(1), 2, 3, 4)}, {V2: mc.Pick(t, uint32(0), 2, 3)}}})
		if t.Flip() {
			s.Polygons[i].Segments = nil
		}
	}
	switch t.Choose(3) {
	case 1:
		s.Polygons = nil
	case 2:
		s.Polygons, s.Vertices = nil, slices.Vertices{}
	}
	return s
}

func sliceDeviations(t *mc.T) {
	at := func(obj *go3mf.Object, id uint32) *go3mf.Object {
		obj.Type = mc.Pick(t, go3mf.ObjectTypeModel, go3mf.ObjectTypeOther, go3mf.ObjectTypeSupport, go3mf.ObjectTypeSolidSupport, go3mf.ObjectTypeSurface)
		a := &slices.ObjectAttr{SliceStackID: mc.Pick(t, id, 0, 1, 2, 3, 8, 99), MeshResolution: mc.Pick(t, slices.ResolutionFull, slices.ResolutionLow)}
		switch t.Choose(3) {
		case 0:
			obj.AnyAttr = spec.AnyAttr{a}
		case 1:
		case 2:
			obj.AnyAttr = spec.AnyAttr{&spec.UnknownAttrs{Space: nsQ, Attr: []xml.Attr{qattr("k", "v")}}, a}
		}
		return obj
	}
	own := &slices.SliceStack{ID: mc.Pick(t, uint32(2), 0, 1), BottomZ: mc.Pick(t, float32(0), 1.5, -7), Slices: []slices.Slice{validSlice(t, 1), validSlice(t, 2)}}
	other := &slices.SliceStack{ID: 1, Slices: []slices.Slice{validSlice(t, 3)}}
	third := &slices.SliceStack{ID: 2, Slices: []slices.Slice{{TopZ: mc.Pick(t, float32(4), 3, 2)}}}
	refs := &slices.SliceStack{ID: 3}
	m := &go3mf.Model{Path: mc.Pick(t, "", "/3D/r.model")}
	home, away := rootName(m), childPath
	if t.Flip() {
		home, away = away, home
	}
	for _, id := range []uint32{1, 2} {
		refs.Refs = append(refs.Refs, slices.SliceRef{SliceStackID: mc.Pick(t, id, 0, 3, 8, 9, 99), Path: mc.Pick(t, away, "", home, "/3D/none.model")})
	}
	switch t.Choose(4) {
	case 1:
		refs.Refs = nil
	case 2:
		refs.Slices = []slices.Slice{{TopZ: 9}}
	case 3:
		own.Refs = refs.Refs
	}
	mesh := go3mf.Resources{Assets: []go3mf.Asset{&go3mf.BaseMaterials{ID: 8, Materials: []go3mf.Base{{Name: "a", Color: color.RGBA{A: 1}}}}, own, refs},
		Objects: []*go3mf.Object{at(tetra(10), 2), at(tetra(11), 3)}}
	far := go3mf.Resources{Assets: []go3mf.Asset{other, third, &slices.SliceStack{ID: 3, Refs: []slices.SliceRef{{SliceStackID: 2, Path: home}}},
		&go3mf.BaseMaterials{ID: 8, Materials: []go3mf.Base{{Name: "a", Color: color.RGBA{A: 1}}}}, &slices.SliceStack{ID: 9}}}
	m.Childs = map[string]*go3mf.ChildModel{}
	for p, rs := range map[string]go3mf.Resources{home: mesh, away: far} {
		if p == childPath {
			m.Childs[p] = &go3mf.ChildModel{Resources: rs}
		} else {
			m.Resources = rs
		}
	}
	switch t.Choose(5) {
	case 4:
		twice(t, m, slices.DefaultExtension)
	case 0:
		withExt(m, slices.DefaultExtension)
	case 1:
		withExt(m, ext(slices.DefaultExtension, true))
	case 2:
		withExt(withExt(m, extQ), slices.DefaultExtension)
	case 3:
	}
	t.Case(dump(m))
	checkValid(t, m, notIndirect(m))
}

var tilts = []go3mf.Matrix{{}, go3mf.Identity(), {2, 3, 0, 0, 1, 3, 0, 0, 0, 0, 1, 0, 2, 3, 4, 1}, {1, 0, 1, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1},
	{1, 0, 0, 0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0, 1}, {1, 0, 0, 0, 0, 1, 0, 0, 1, 0, 1, 0, 0, 0, 0, 1}, {1, 0, 0, 0, 0, 1, 0, 0, 0, 1, 1, 0, 0, 0, 0, 1},
	{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 0, 0, 0, 0, 1}, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}}

// sliceTransforms are all placements of sliced objects by a build of up to three levels.
func sliceTransforms(t *mc.T, parts bool) {
	tilt := func() go3mf.Matrix {
		if parts {
			return tilts[mc.Each(t, 0, 3)]
		}
		return tilts[t.Choose(len(tilts))]
	}
	m := &go3mf.Model{Path: mc.Pick(t, "", "/3D/r.model")}
	where := func() string {
		if parts {
			return mc.Each(t, "", childPath)
		}
		return ""
	}
	rs := map[string]*go3mf.Resources{}
	child := &go3mf.ChildModel{}
	m.Childs = map[string]*go3mf.ChildModel{childPath: child}
	rs[""], rs[childPath] = &m.Resources, &child.Resources
	stack := func() go3mf.Asset {
		return &slices.SliceStack{ID: 1, Slices: []slices.Slice{{TopZ: 1}}}
	}
	for _, r := range rs {
		r.Assets = []go3mf.Asset{stack()}
	}
	sliced := func(o *go3mf.Object) *go3mf.Object {
		o.AnyAttr = spec.AnyAttr{&slices.ObjectAttr{SliceStackID: 1}}
		return o
	}
	comps := func(self string, n int, max uint32) *go3mf.Components {
		cs := &go3mf.Components{}
		for i := 0; i < n; i++ {
			c := &go3mf.Component{ObjectID: 2 + uint32(t.Free(int(max))), Transform: tilt()}
			if parts {
				if p := mc.Each(t, "", childPath); p != "" {
					c.AnyAttr = spec.AnyAttr{&production.ComponentAttr{Path: p}}
				}
			}
			cs.Component = append(cs.Component, c)
		}
		return cs
	}
	_ = where
	for p, r := range map[string]*go3mf.Resources{"": rs[""]} {
		r.Objects = append(r.Objects, sliced(tetra(2)), sliced(&go3mf.Object{ID: 3, Components: comps(p, 1, 3)}))
		if !parts {
			r.Objects = append(r.Objects, sliced(&go3mf.Object{ID: 4, Components: comps(p, 2, 3)}))
		}
	}
	if parts {
		rs[childPath].Objects = append(rs[childPath].Objects, sliced(tetra(2)), sliced(&go3mf.Object{ID: 3, Components: comps(childPath, 1, 2)}))
	}
	n := 1
	if parts {
		n = 1 + t.Free(2)
	}
	for i := 0; i < n; i++ {
		it := &go3mf.Item{ObjectID: uint32(2 + t.Free(3)), Transform: tilt()}
		if parts {
			if p := mc.Each(t, "", childPath); p != "" {
				it.AnyAttr = spec.AnyAttr{&production.ItemAttr{Path: p}}
			}
		}
		m.Build.Items = append(m.Build.Items, it)
	}
	withExt(m, slices.DefaultExtension)
	t.Case(dump(m))
	checkValid(t, m, notIndirect(m))
}

// sliceTops are all orders of tops in stacks and references.
func sliceTops(t *mc.T) {
	top := func() float32 { return mc.Each(t, float32(-2), 0, 1, 2, 2.5) }
	stack := func(id uint32, n int) *slices.SliceStack {
		st := &slices.SliceStack{ID: id, BottomZ: mc.Each(t, float32(0), -3)}
		for i := 0; i < n; i++ {
			st.Slices = append(st.Slices, slices.Slice{TopZ: top()})
		}
		return st
	}
	a, b := stack(1, 1+t.Free(2)), stack(2, t.Free(3))
	r := &slices.SliceStack{ID: 3, Refs: []slices.SliceRef{{SliceStackID: 1, Path: childPath}, {SliceStackID: 2, Path: childPath}}}
	m := withExt(&go3mf.Model{}, slices.DefaultExtension)
	m.Resources.Assets = []go3mf.Asset{r}
	m.Childs = map[string]*go3mf.ChildModel{childPath: {Resources: go3mf.Resources{Assets: []go3mf.Asset{a, b}}}}
	t.Case(dump(m))
	checkValid(t, m, notIndirect(m))
}

// sliceHeights refers to two stacks of up to four slices.
func sliceHeights(t *mc.T) {
	stack := func(id uint32) *slices.SliceStack {
		st := &slices.SliceStack{ID: id}
		for i, n := 0, 1+t.Free(4); i < n; i++ {
			st.Slices = append(st.Slices, slices.Slice{TopZ: float32(1 + t.Free(deeper(t, 3)))})
		}
		return st
	}
	r := &slices.SliceStack{ID: 3, Refs: []slices.SliceRef{{SliceStackID: 1, Path: childPath}, {SliceStackID: 2, Path: childPath}}}
	m := withExt(&go3mf.Model{}, slices.DefaultExtension)
	m.Resources.Assets = []go3mf.Asset{r}
	m.Childs = map[string]*go3mf.ChildModel{childPath: {Resources: go3mf.Resources{Assets: []go3mf.Asset{stack(1), stack(2)}}}}
	t.Case(dump(m))
	checkValid(t, m, notIndirect(m))
}

// ---- C20: beam lattices ----------------------------------------------------------

// notClip leaves the rule about clipping modes to its own scenario.
func notClip(k string) bool {
	return strings.HasSuffix(k, " | "+beamlattice.ErrLatticeClippedNoMesh.Error())
}

func latticeModel(t *mc.T, o *go3mf.Object) *go3mf.Model {
	rs := go3mf.Resources{}
	a := tetra(1)
	a.Type = mc.Pick(t, go3mf.ObjectTypeModel, go3mf.ObjectTypeSupport, go3mf.ObjectTypeSolidSupport)
	b := &go3mf.Object{ID: 2, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 1}}}}
	c := tetra(3)
	c.Mesh.Any = spec.Any{&beamlattice.BeamLattice{Radius: 1, MinLength: 1, ClipMode: beamlattice.ClipInside, ClippingMeshID: 1}}
	switch t.Choose(4) {
	case 1:
		c.Mesh.Any = spec.Any{&spec.UnknownTokens{}, c.Mesh.Any[0]}
	case 2:
		c.Mesh.Any = spec.Any{c.Mesh.Any[0], &spec.UnknownTokens{}}
	case 3:
		c.Mesh.Any = spec.Any{&spec.UnknownTokens{}}
	}
	d := tetra(5)
	rs.Objects = []*go3mf.Object{a, b, c, o, d}
	m := place(t, rs)
	switch t.Choose(4) {
	case 3:
		twice(t, m, beamlattice.DefaultExtension)
	case 0:
		withExt(m, beamlattice.DefaultExtension)
	case 1:
		withExt(withExt(m, extQ), ext(beamlattice.DefaultExtension, true))
	case 2:
	}
	return m
}

func latticeDeviations(t *mc.T) {
	o := tetra(mc.Pick(t, uint32(4), 0, 1))
	o.Type = mc.Pick(t, go3mf.ObjectTypeModel, go3mf.ObjectTypeOther, go3mf.ObjectTypeSupport, go3mf.ObjectTypeSolidSupport, go3mf.ObjectTypeSurface)
	switch t.Choose(4) {
	case 1:
		o.Mesh.Triangles = go3mf.Triangles{}
	case 2:
		o.Mesh.Vertices.Vertex = o.Mesh.Vertices.Vertex[:3]
		o.Mesh.Triangles = go3mf.Triangles{}
	case 3:
		o.Mesh.Vertices, o.Mesh.Triangles = go3mf.Vertices{}, go3mf.Triangles{}
	}
	ref := func() uint32 { return mc.Pick(t, uint32(1), 0, 2, 3, 4, 5, 99) }
	bl := &beamlattice.BeamLattice{MinLength: mc.Pick(t, float32(0.5), 0, -1), Radius: mc.Pick(t, float32(2), 0, 1), ClippingMeshID: ref(), RepresentationMeshID: ref()}
	bl.ClipMode = mc.Pick(t, beamlattice.ClipInside, beamlattice.ClipNone, beamlattice.ClipOutside)
	for i := 0; i < 3; i++ {
		k := uint32(i)
		bl.Beams.Beam = append(bl.Beams.Beam, beamlattice.Beam{Indices: [2]uint32{mc.Pick(t, k, 3, 4, 1<<32-1), mc.Pick(t, k+1, k, 4, 5)},
			Radius: [2]float32{mc.Pick(t, float32(2), 0, 1, 1.5), mc.Pick(t, float32(2), 0, 1, 1.5)}})
	}
	if t.Flip() {
		bl.Beams.Beam = nil
	}
	bl.BeamSets.BeamSet = []beamlattice.BeamSet{
		{Refs: []uint32{mc.Pick(t, uint32(0), 1, 2, 3, 4), mc.Pick(t, uint32(1), 2, 3, 1<<32-1)}},
		{Refs: []uint32{mc.Pick(t, uint32(2), 0, 3)}}, {},
	}
	switch t.Choose(4) {
	case 0:
		o.Mesh.Any = spec.Any{bl}
	case 1:
		o.Mesh.Any = spec.Any{&spec.UnknownTokens{}, bl}
	case 2:
		o.Mesh = nil
	case 3: // no lattice
	}
	m := latticeModel(t, o)
	t.Case(dump(m))
	checkValid(t, m, notClip)
}

// beamValues are all values of a beam.
func beamValues(t *mc.T) {
	o := tetra(4)
	o.Mesh.Vertices.Vertex = o.Mesh.Vertices.Vertex[:t.Free(5)]
	o.Mesh.Triangles = go3mf.Triangles{}
	bl := &beamlattice.BeamLattice{MinLength: 1, Radius: 2, ClipMode: beamlattice.ClipInside, ClippingMeshID: 1}
	b := beamlattice.Beam{Indices: [2]uint32{uint32(t.Free(6)), uint32(t.Free(6))}}
	b.Radius = [2]float32{mc.Each(t, float32(0), 1, 2, 3), mc.Each(t, float32(0), 1, 2, 3)}
	bl.Beams.Beam = []beamlattice.Beam{b}
	bl.BeamSets.BeamSet = []beamlattice.BeamSet{{Refs: []uint32{uint32(t.Free(3)), 0}}}
	if t.Free(2) == 1 {
		bl.Beams.Beam = append(bl.Beams.Beam, beamlattice.Beam{Indices: [2]uint32{0, 1}, Radius: [2]float32{2, 2}})
	}
	o.Mesh.Any = spec.Any{bl}
	rs := go3mf.Resources{Objects: []*go3mf.Object{tetra(1), o}}
	m := withExt(&go3mf.Model{Resources: rs}, beamlattice.DefaultExtension)
	t.Case(dump(m))
	checkValid(t, m, notClip)
}

// clipModes are the combinations of clipping modes and meshes.
func clipModes(t *mc.T) {
	o := tetra(4)
	mode := mc.Each(t, beamlattice.ClipNone, beamlattice.ClipInside, beamlattice.ClipOutside)
	id := mc.Each(t, uint32(0), 1)
	o.Mesh.Any = spec.Any{&beamlattice.BeamLattice{MinLength: 1, Radius: 2, ClipMode: mode, ClippingMeshID: id}}
	m := withExt(&go3mf.Model{Resources: go3mf.Resources{Objects: []*go3mf.Object{tetra(1), o}}}, beamlattice.DefaultExtension)
	got, want := errorKeys(m.Validate()), refValidate(m)
	t.Case(dump(m))
	switch {
	case len(got) == len(want):
	case id == 0 && mode == beamlattice.ClipNone && len(got) == 1 && notClip(got[0]):
		t.Failf("a lattice that is not clipped is reported to have no clipping mesh", "%v", got)
	case id == 0 && mode != beamlattice.ClipNone && len(got) == 0:
		t.Failf("a clipped lattice without clipping mesh is not reported", "clipping mode %v", mode)
	}
	if len(got) != len(want) || len(got) > 0 && got[0] != want[0] {
		t.Failf("validation of clipping differs", "%v want %v", got, want)
	}
}

// ---- C21: production -------------------------------------------------------------

func productionDeviations(t *mc.T) {
	n := 0
	id := func() string {
		n++
		return mc.Pick(t, uuidN(n), "", "a-b-c-d", uuidN(1), uuidN(n)+"0", strings.ToUpper(uuidN(n)), "urn:uuid:"+uuidN(n), "g"+uuidN(n)[1:])
	}
	attr := func(a spec.AttrGroup) spec.AnyAttr {
		switch t.Choose(3) {
		case 1:
			return nil
		case 2:
			return spec.AnyAttr{&spec.UnknownAttrs{Space: nsQ, Attr: []xml.Attr{qattr("k", "v")}}, a}
		}
		return spec.AnyAttr{a}
	}
	m := &go3mf.Model{Path: mc.Pick(t, "", "/3D/r.model")}
	m.Build.AnyAttr = attr(&production.BuildAttr{UUID: id()})
	item := func(oid uint32, path string) *go3mf.Item {
		return &go3mf.Item{ObjectID: oid, AnyAttr: attr(&production.ItemAttr{UUID: id(), Path: mc.Pick(t, path, "", childPath, rootName(m), "/3D/none.model")})}
	}
	obj := func(o *go3mf.Object) *go3mf.Object { o.AnyAttr = attr(&production.ObjectAttr{UUID: id()}); return o }
	comp := func(oid uint32, path string, alt ...string) *go3mf.Component {
		return &go3mf.Component{ObjectID: oid, AnyAttr: attr(&production.ComponentAttr{UUID: id(), Path: mc.Pick(t, append([]string{path}, alt...)...)})}
	}
	const b = "/3D/b.model"
	comps := func(id uint32, cs ...*go3mf.Component) *go3mf.Object {
		return &go3mf.Object{ID: id, Components: &go3mf.Components{Component: cs}}
	}
	m.Resources.Objects = []*go3mf.Object{obj(tetra(1)), obj(comps(2, comp(1, "", childPath, rootName(m)), comp(1, childPath, "", b)))}
	m.Childs = map[string]*go3mf.ChildModel{
		childPath: {Resources: go3mf.Resources{Objects: []*go3mf.Object{obj(tetra(1)), obj(comps(2, comp(1, "", b, childPath, rootName(m))))}}},
		b:         {Resources: go3mf.Resources{Objects: []*go3mf.Object{obj(tetra(1))}}},
	}
	m.Build.Items = []*go3mf.Item{item(2, ""), item(1, childPath)}
	switch t.Choose(4) {
	case 3:
		twice(t, m, production.DefaultExtension)
	case 0:
		withExt(m, production.DefaultExtension)
	case 1:
		withExt(withExt(m, extQ), ext(production.DefaultExtension, true))
	case 2:
	}
	t.Case(dump(m))
	checkValid(t, m, notIndirect(m))
}

func init() {
	register(&mc.Property{ID: "C17", Scenarios: []mc.Scenario{
		{Name: "deviations", Bound: "any two fields of a valid model of two parts changed (thorough: three)", K: 2, KT: 3, Run: coreDeviations},
		{Name: "mesh shapes", Bound: "all numbers of vertices and triangles up to five, all types", Run: meshShapes},
		{Name: "triangle indices", Bound: "all boundary values of the vertices and properties of a triangle and its object", Run: triangleIndices},
		{Name: "component graphs", Bound: "all references among four objects of two parts", Run: componentGraphs},
		{Name: "relationships", Bound: "all lists of up to three relationships of every owner", Run: relationshipLists},
		{Name: "metadata", Bound: "all lists of up to three metadata of every owner", Run: metadataLists},
		{Name: "metadata names", Bound: "all edits of the names of the specification", Run: allMetadataNames},
		{Name: "decoded", Bound: "three packages", Run: decodedValid},
		{Name: "indirect recursion", Bound: "all cycles of two and three objects of two parts", Run: indirectRecursion},
		{Name: "decoded metadata", Bound: "two documents", Run: decodedMetadata},
		{Name: "lists", Bound: "every sequence of up to four or five valid and faulty assets, bases, objects, components, items, triangles, extensions, metadata, relationships (thorough: one more)", Run: coreLists},
		{Name: "long lists", Bound: "the first or second of the lists of 9 to 257 (thorough: 2049) equal elements but for one, at either end, next to it or halfway: all pairs of elements", Run: long(coreLists)},
		placesScenario("C17", "every reference of a triangle, an object, a component or an item"),
	}})
	register(&mc.Property{ID: "C18", Scenarios: []mc.Scenario{
		{Name: "deviations", Bound: "any three fields of valid resources changed (thorough: four)", K: 3, KT: 4, Run: materialDeviations},
		{Name: "multi", Bound: "all lists of up to three references of eight kinds with indices up to three", Run: multiLists},
		{Name: "lists", Bound: "every sequence of up to three to six valid and faulty multis, references of multis, colours, composites, textures, groups (thorough: one more)", Run: materialLists},
		{Name: "long lists", Bound: "the first or second of the lists of 9 to 257 (thorough: 2049) equal elements but for one, at either end, next to it or halfway: all pairs of elements", Run: long(materialLists)},
		placesScenario("C18", "every reference of a texture group, a composite or a multiproperties"),
	}})
	register(&mc.Property{ID: "C19", Scenarios: []mc.Scenario{
		{Name: "deviations", Bound: "any three fields of valid resources in two parts changed (thorough: four)", K: 3, KT: 4, Run: sliceDeviations},
		{Name: "transforms", Bound: "all graphs of three objects, up to three transforms out of nine", K: 3, KT: 4, Run: func(t *mc.T) { sliceTransforms(t, false) }},
		{Name: "transforms in parts", Bound: "all graphs of four objects in two parts, two items, all tilted or not", Run: func(t *mc.T) { sliceTransforms(t, true) }},
		{Name: "tops", Bound: "all tops out of five of two stacks of up to two slices", Run: sliceTops},
		{Name: "heights", Bound: "two referred stacks of one to four slices of all tops out of three (thorough: four)", Run: sliceHeights},
		{Name: "lists", Bound: "every sequence of up to three to five valid and faulty slices, polygons, segments, references, objects (thorough: one more)", Run: sliceLists},
		{Name: "long lists", Bound: "the first or second of the lists of 9 to 257 (thorough: 2049) equal elements but for one, at either end, next to it or halfway: all pairs of elements", Run: long(sliceLists)},
		placesScenario("C19", "every reference of a stack, a segment or an object"),
	}})
	register(&mc.Property{ID: "C20", Scenarios: []mc.Scenario{
		{Name: "deviations", Bound: "any three fields of a valid lattice changed (thorough: four)", K: 3, KT: 4, Run: latticeDeviations},
		{Name: "beams", Bound: "all values of a beam and a reference", Run: beamValues},
		{Name: "clip modes", Bound: "all clipping modes with and without mesh", Run: clipModes},
		{Name: "lists", Bound: "every sequence of up to four valid and faulty beams, beam sets, objects (thorough: five)", Run: latticeLists},
		{Name: "long lists", Bound: "the first or second of the lists of 9 to 257 (thorough: 2049) equal elements but for one, at either end, next to it or halfway: all pairs of elements", Run: long(latticeLists)},
		placesScenario("C20", "both references of a lattice"),
	}})
	register(&mc.Property{ID: "C21", Scenarios: []mc.Scenario{
		{Name: "deviations", Bound: "any three attributes of a valid model of three parts changed (thorough: four)", K: 3, KT: 4, Run: productionDeviations},
		{Name: "lists", Bound: "every sequence of up to four valid and faulty items, objects, components (thorough: five)", Run: productionLists},
		{Name: "long lists", Bound: "the first or second of the lists of 9 to 257 (thorough: 2049) equal elements but for one, at either end, next to it or halfway: all pairs of elements", Run: long(productionLists)},
		placesScenario("C21", "every reference of a component or an item with a path"),
	}})
}
