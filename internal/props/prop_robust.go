package props

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"image/color"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/importer/stl"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

// C09: whatever is read, reading it and using the result ends normally. The
// engine turns a panic, a crash of the process, an execution that does not end
// and one that exhausts memory into violations.

func useErr(err error) {
	if err == nil {
		return
	}
	_ = err.Error()
	if l, ok := err.(*errors.List); ok {
		for _, e := range l.Errors {
			_ = e.Error()
		}
	}
}

// useAll does with a model all that its users do.
func useAll(m *go3mf.Model) {
	m.BoundingBox()
	useErr(m.Validate())
	useErr(m.ValidateCoherency())
	m.PathOrDefault()
	for _, path := range append([]string{"", "/none"}, sortedKeys(m.Childs)...) {
		rs, ok := m.FindResources(path)
		if ok {
			rs.UnusedID()
			rs.FindObject(0)
			rs.FindAsset(1)
		}
		m.FindObject(path, 2)
		m.FindAsset(path, 1)
	}
	m.WalkAssets(func(path string, a go3mf.Asset) error {
		m.FindAsset(path, a.Identify())
		a.XMLName()
		if g, ok := a.(spec.PropertyGroup); ok {
			g.Len()
		}
		switch a := a.(type) {
		case *materials.Texture2D:
			_ = fmt.Sprint(a.ContentType.String(), a.TileStyleU.String(), a.TileStyleV.String(), a.Filter.String())
		case *materials.MultiProperties:
			for _, b := range a.BlendMethods {
				_ = b.String()
			}
		}
		return nil
	})
	m.WalkObjects(func(path string, o *go3mf.Object) error {
		_ = o.Type.String()
		m.FindObject(path, o.ID)
		slices.GetObjectAttr(o)
		production.GetObjectAttr(o)
		if o.Mesh != nil {
			o.Mesh.BoundingBox()
			useErr(o.Mesh.ValidateCoherency())
			if b := beamlattice.GetBeamLattice(o.Mesh); b != nil {
				_ = b.CapMode.String() + b.ClipMode.String()
			}
			mb := go3mf.NewMeshBuilder(&go3mf.Mesh{Vertices: go3mf.Vertices{Vertex: append([]go3mf.Point3D(nil), o.Mesh.Vertices.Vertex...)}})
			mb.AddVertex(go3mf.Point3D{1, 2, 3})
		}
		if o.Components != nil {
			for _, c := range o.Components.Component {
				production.GetComponentAttr(c)
				m.FindObject(c.ObjectPath(path), c.ObjectID)
				if c.HasTransform() {
					_ = c.Transform.String()
				}
			}
		}
		return nil
	})
	for _, it := range m.Build.Items {
		production.GetItemAttr(it)
		m.FindObject(it.ObjectPath(), it.ObjectID)
		if it.HasTransform() {
			_ = it.Transform.String()
		}
	}
	production.GetBuildAttr(&m.Build)
	_ = m.Units.String()
}

// writeAll encodes a model and reads the result.
func writeAll(m *go3mf.Model) {
	production.SetMissingUUIDs(m)
	doc, err := go3mf.MarshalModel(m)
	if err == nil {
		again := new(go3mf.Model)
		useErr(go3mf.UnmarshalModel(doc, again))
		useErr(again.Validate())
	}
	var b bytes.Buffer
	if err := go3mf.NewEncoder(&b).Encode(m); err == nil {
		again := new(go3mf.Model)
		useErr(go3mf.NewDecoder(bytes.NewReader(b.Bytes()), int64(b.Len())).Decode(again))
		again.BoundingBox()
	}
}

// robustDoc reads a root model document in both modes and uses the result.
func robustDoc(t *mc.T, doc []byte) {
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel(doc, m)
	useErr(err)
	t.State(fmt.Sprint(err))
	useAll(m)
	writeAll(m)
	data := wrapModel(doc)
	m = new(go3mf.Model)
	if err := go3mf.NewDecoder(bytes.NewReader(data), int64(len(data))).Decode(m); err != nil {
		useErr(err)
		useAll(m) // what has been read until the error
	}
}

// robustPkg reads a package in both modes and uses the result.
func robustPkg(t *mc.T, data []byte) {
	for _, strict := range []bool{false, true} {
		m := new(go3mf.Model)
		d := go3mf.NewDecoder(bytes.NewReader(data), int64(len(data)))
		d.Strict = strict
		err := d.Decode(m)
		useErr(err)
		t.State(fmt.Sprint(err))
		useAll(m)
		if !strict {
			writeAll(m)
		}
	}
}

var hostileOnce sync.Once
var hostileBase *N
var hostileNames []string

// hostileTree is a document with every element, and the names in it.
func hostileTree() (*N, []string) {
	hostileOnce.Do(func() {
		m := sampleAll()
		m.AnyAttr = spec.AnyAttr{&spec.UnknownAttrs{Space: nsQ, Attr: []xml.Attr{qattr("k", "v")}}}
		m.Any = spec.Any{&spec.UnknownTokens{Token: unknownTokens(1).Token}}
		m.Resources.Assets = append(m.Resources.Assets, &slices.SliceStack{ID: 27, Refs: []slices.SliceRef{{SliceStackID: 26, Path: "/3D/b.model"}}})
		tellApart(m)
		hostileBase = form{prec: 4}.root(m)
		seen := map[string]bool{}
		for _, r := range walkN(hostileBase) {
			k := r.n.Space + " " + r.n.Local
			if !seen[k] {
				seen[k] = true
				hostileNames = append(hostileNames, k)
			}
		}
	})
	return hostileBase, hostileNames
}

// tellApart gives neighbours values which differ from each other and from what an element
// without the attribute has, so that whatever an element takes over from the one before shows.
func tellApart(m *go3mf.Model) {
	m.Metadata[0].Type, m.Metadata[0].Preserve = "xs:x", true
	m.Metadata = append(m.Metadata, go3mf.Metadata{Name: xml.Name{Local: "Designer"}, Value: "d", Type: "xs:y"})
	for _, a := range m.Resources.Assets {
		switch a := a.(type) {
		case *go3mf.BaseMaterials:
			a.Materials[0].Color, a.Materials[1].Color = color.RGBA{11, 12, 13, 255}, color.RGBA{21, 22, 23, 24}
		case *slices.SliceStack:
			for i := range a.Slices {
				p := &a.Slices[i].Polygons[0]
				p.StartV = uint32(i + 1)
				if i == 0 {
					p.Segments[0].P1 = 2
					q := slices.Polygon{StartV: 2, Segments: []slices.Segment{{V2: 1, PID: 22, P1: 1, P2: 1}, {V2: 2}}}
					a.Slices[i].Polygons = append(a.Slices[i].Polygons, q)
				}
			}
		}
	}
	mesh, comps := m.Resources.Objects[0].Mesh, m.Resources.Objects[1].Components.Component
	mesh.Triangles.Triangle[0].P1, mesh.Triangles.Triangle[0].P2, mesh.Triangles.Triangle[0].P3 = 3, 1, 2
	mesh.Triangles.Triangle[1].P1, mesh.Triangles.Triangle[1].P2, mesh.Triangles.Triangle[1].P3 = 1, 2, 3
	comps[0].Transform = go3mf.Identity().Translate(4, 5, 6)
	m.Resources.Objects[1].PartNumber, m.Resources.Objects[1].Name, m.Resources.Objects[1].Thumbnail = "pm", "parts", "/Thumbnails/q.png"
	m.Build.Items[1].Transform, m.Build.Items[1].PartNumber = go3mf.Identity().Translate(7, 8, 9), "y"
	m.Build.Items[2].PartNumber = "z"
	lat := m.Resources.Objects[2].Mesh.Any[0].(*beamlattice.BeamLattice)
	lat.Beams.Beam[1].Radius, lat.Beams.Beam[1].CapMode = [2]float32{3, 4}, [2]beamlattice.CapMode{beamlattice.CapModeHemisphere, beamlattice.CapModeSphere}
	lat.BeamSets.BeamSet[1].Name, lat.BeamSets.BeamSet[1].Identifier = "t", "j"
}

var hostileValues = []string{
	"", " ", "0", "1", "2", "3", "9", "26", "30", "-1", "-0", "4294967295", "4294967296", "99999999999999999999", "2147483648", "1e38", "-1e38", "1e39", "NaN", "Inf", "-Inf", "0x1p-2", "1_0", "x", "\u00e9", "\ufffd",
	"/", "//", ".", "..", "/3D/3dmodel.model", "/3D/a.model", "3D/3dmodel.model", "a b", "0 0", "1 0", "0 1 26 30 1", "multiply multiply multiply", "#", "#F", "#FFFFFF", "#FFFFFFFF", "#GGGGGG", "#FFFFFFFFF",
	"1 0 0 0 1 0 0 0 1 0 0 0", "0 0 0 0 0 0 0 0 0 0 0 0", "1 2 3 4 5 6 7 8 9 10 11", "1 2 3 4 5 6 7 8 9 10 11 12 13", "1e38 1e38 1e38 1e38 1e38 1e38 1e38 1e38 1e38 1e38 1e38 1e38",
	"00000000-0000-0000-0000-000000000001", "{00000000-0000-0000-0000-000000000001}", "urn:uuid:00000000-0000-0000-0000-000000000001", "00000000-0000-0000-0000-00000000000", "inside", "none", "butt", "fullres", "lowres", "support", "solidsupport", "other", "q:k", ":", "q m s b p zz",
}

// mutation is a change of a tree.
type mutation struct {
	what string
	do   func(root *N)
}

// at gives the i-th element of a tree in document order.
func at(root *N, i int) nodeRef { return walkN(root)[i] }

func dropKid(parent, kid *N) {
	for i, k := range parent.Kids {
		if k == kid {
			parent.Kids = append(parent.Kids[:i:i], parent.Kids[i+1:]...)
			return
		}
	}
}

var mutOnce sync.Once
var mutAll, mutFew []mutation

// mutations gives all the changes of the base document, and a few of them to be combined.
func mutations() (all, few []mutation) {
	mutOnce.Do(func() {
		base, names := hostileTree()
		nodes := walkN(base)
		add := func(both bool, what string, do func(*N)) {
			mutAll = append(mutAll, mutation{what, do})
			if both {
				mutFew = append(mutFew, mutation{what, do})
			}
		}
		for i, r := range nodes {
			i, name := i, r.n.Local
			for k := range r.n.Attr {
				k := k
				for _, v := range hostileValues {
					v := v
					numeric := r.n.Attr[k].Value != "" && strings.Trim(r.n.Attr[k].Value, "0123456789") == ""
					add(numeric && (v == "4294967295" || v == "3"), fmt.Sprintf("%s %d: %s=%q", name, i, r.n.Attr[k].Local, v), func(root *N) {
						if x := at(root, i).n; k < len(x.Attr) {
							x.Attr[k].Value = v
						}
					})
				}
				add(true, fmt.Sprintf("%s %d: without %s", name, i, r.n.Attr[k].Local), func(root *N) {
					if x := at(root, i).n; k < len(x.Attr) {
						x.Attr = append(x.Attr[:k:k], x.Attr[k+1:]...)
					}
				})
			}
			add(false, fmt.Sprintf("%s %d: without attributes", name, i), func(root *N) { at(root, i).n.Attr = nil })
			add(false, fmt.Sprintf("%s %d: empty", name, i), func(root *N) { at(root, i).n.Kids = nil })
			add(false, fmt.Sprintf("%s %d: reversed", name, i), func(root *N) {
				k := at(root, i).n.Kids
				for a, b := 0, len(k)-1; a < b; a, b = a+1, b-1 {
					k[a], k[b] = k[b], k[a]
				}
			})
			for _, nm := range names {
				f := strings.SplitN(nm, " ", 2)
				add(false, fmt.Sprintf("%s %d: renamed %s", name, i, nm), func(root *N) { x := at(root, i).n; x.Space, x.Local = f[0], f[1] })
				add(false, fmt.Sprintf("%s %d: with an empty %s", name, i, nm), func(root *N) {
					x := at(root, i).n
					x.Kids = append([]*N{el(f[0], f[1])}, x.Kids...)
				})
			}
			if i == 0 {
				continue
			}
			add(true, fmt.Sprintf("%s %d: removed", name, i), func(root *N) {
				r := at(root, i)
				dropKid(r.path[len(r.path)-1], r.n)
			})
			add(false, fmt.Sprintf("%s %d: repeated", name, i), func(root *N) {
				r := at(root, i)
				p := r.path[len(r.path)-1]
				p.Kids = append(p.Kids, r.n.clone())
			})
			for j := range nodes {
				j := j
				add(false, fmt.Sprintf("%s %d: also in %s %d", name, i, nodes[j].n.Local, j), func(root *N) {
					a, b := at(root, i).n.clone(), at(root, j).n
					b.Kids = append([]*N{a}, b.Kids...)
				})
			}
		}
	})
	return mutAll, mutFew
}

// robustTree changes one or two things of a document that has everything.
func robustTree(t *mc.T) {
	base, _ := hostileTree()
	all, few := mutations()
	root := base.clone()
	what := "nothing"
	if k := t.Free(len(all) + 1); k > 0 {
		all[k-1].do(root)
		what = all[k-1].what
	}
	robustMutant(t, root, what, few, t.Choose(2) == 1)
}

// robustPairs changes two things of it.
func robustPairs(t *mc.T) {
	base, _ := hostileTree()
	_, few := mutations()
	root := base.clone()
	a := t.Free(len(few))
	if a+1 == len(few) {
		t.Skip()
	}
	b := a + 1 + t.Free(len(few)-a-1)
	if t.Tier != "thorough" && (a+b)%3 != 0 {
		t.Skip()
	}
	func() {
		defer func() { recover() }() // the second place can be gone
		few[b].do(root)
		few[a].do(root)
	}()
	t.Case(few[a].what + ", " + few[b].what)
	robustOne(t, root)
}

func robustMutant(t *mc.T, root *N, what string, few []mutation, two bool) {
	if two {
		k := t.Free(len(few))
		what += ", " + few[k].what
		func() {
			defer func() { recover() }()
			few[k].do(root)
		}()
	}
	t.Case(what)
	t.Logf("%s", what)
	robustOne(t, root)
}

func robustOne(t *mc.T, root *N) {
	doc := render(root, nsCore, prefixes, styleN(0))
	t.Logf("%s", doc)
	robustDoc(t, doc)
}

var byteValues = []byte{0, ' ', '"', '&', '\'', '-', '/', '0', '9', ':', '<', '=', '>', 'a', '.', 0x80, 0xff}

// robustBytes changes any byte of a document that has everything.
func robustBytes(t *mc.T) {
	base, _ := hostileTree()
	doc := render(base, nsCore, prefixes, styleN(0))
	i := t.Free(len(doc))
	out := append([]byte(nil), doc...)
	if t.Tier == "thorough" {
		out[i] = byte(t.Free(256))
	} else {
		out[i] = mc.Each(t, '"', '&', '/', '9', ':', '<', '>', byte(0xff))
	}
	t.Case(fmt.Sprint(i, out[i]))
	robustDoc(t, out)
}

// robustZip changes the bytes of a package.
func robustZip(t *mc.T) {
	b := faultInput(t.Free(2)).data
	out := append([]byte(nil), b...)
	i := t.Free(len(out))
	var k int
	if t.Tier == "thorough" {
		k = t.Free(15)
	} else {
		k = mc.Each(t, 0, 3, 7, 9, 11, 12, 14)
	}
	switch {
	case k < 8:
		out[i] ^= 1 << k
	case k < 10:
		out[i] = byte(255 * (k - 8))
	default:
		v := [][]byte{{0, 0}, {255, 255}, {255, 255, 255, 255}, {255, 255, 255, 127}, {0, 0, 0, 0}}[k-10]
		copy(out[i:], v)
	}
	t.Case(fmt.Sprint(i, out[i]))
	robustPkg(t, out)
}

// robustPackages changes the parts and the relationships of a package.
func robustPackages(t *mc.T) { robustPkg(t, changedPackage(t)) }

// changedPackage is a package with two changes of its parts or relationships.
func changedPackage(t *mc.T) []byte {
	m := sampleMulti()
	p := packageOf(m, zip.Store)
	names := []string{"", "/", "//", ".", "..", "/none", "/3D", "/3D/", "3D/a.model", "/3D/A.MODEL", "../3D/a.model", "#a", "?b", "/3D/a.model#x", "http://h/a", "a:b", "%41", "%", "/3D/%41.model", "\u00e9", "/_rels/.rels", "/[Content_Types].xml", "/3D/_rels/3dmodel.model.rels", "/docProps/core.xml"}
	for _, x := range p.Parts {
		names = append(names, x.Name)
	}
	types := []string{"", rtModel, rtThumb, rtTex, rtOther, "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties", "http://schemas.openxmlformats.org/package/2006/relationships/digital-signature/origin"}
	cts := []string{"", ctModel, ctRels, "image/png", "a", "a/b; c=d", "application/xml", "application/vnd.openxmlformats-package.core-properties+xml"}
	data := [][]byte{nil, []byte("x"), []byte("<"), []byte(`<?xml version="1.0"?>`), relsXML(p.Rels), []byte(`<model xmlns="` + nsCore + `"/>`), []byte(`<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"/>`)}
	for _, x := range p.Parts[:3] {
		data = append(data, x.Data)
	}
	rels := func() (out []*[]pkgRel) {
		out = append(out, &p.Rels)
		for i := range p.Parts {
			out = append(out, &p.Parts[i].Rels)
		}
		return
	}
	var what []string
	for i := 0; i < 2; i++ {
		switch t.Choose(9) {
		case 0:
		case 1: // a part with another name
			x := &p.Parts[t.Free(len(p.Parts))]
			n := mc.Each(t, names...)
			what = append(what, x.Name+" named "+n)
			x.Name = n
		case 2:
			x := &p.Parts[t.Free(len(p.Parts))]
			c := mc.Each(t, cts...)
			what = append(what, x.Name+" of type "+c)
			x.CT = c
		case 3:
			x := &p.Parts[t.Free(len(p.Parts))]
			k := t.Free(len(data))
			what = append(what, fmt.Sprint(x.Name, " with data ", k))
			x.Data = data[k]
		case 4:
			k := t.Free(len(p.Parts))
			what = append(what, "without "+p.Parts[k].Name)
			p.Parts = append(p.Parts[:k:k], p.Parts[k+1:]...)
		case 5: // twice
			k := t.Free(len(p.Parts))
			what = append(what, "repeated "+p.Parts[k].Name)
			p.Parts = append(p.Parts, p.Parts[k])
		case 6: // a relationship more
			r := rels()
			k := t.Free(len(r))
			n, ty := mc.Each(t, names...), mc.Each(t, types...)
			what = append(what, fmt.Sprint("relationship ", k, " to ", n, " of type ", ty))
			*r[k] = append(*r[k], pkgRel{Target: n, Type: ty, ID: mc.Pick(t, fmt.Sprint("n", i), "", "rid1", "r1")})
		case 7: // no relationships
			r := rels()
			k := t.Free(len(r))
			what = append(what, fmt.Sprint("no relationships ", k))
			*r[k] = nil
		case 8: // one relationship changed
			r := rels()
			k := t.Free(len(r))
			if len(*r[k]) == 0 {
				t.Skip()
			}
			j := t.Free(len(*r[k]))
			n := mc.Each(t, names...)
			what = append(what, fmt.Sprint("relationship ", k, ".", j, " to ", n))
			*r[k] = append([]pkgRel(nil), *r[k]...)
			(*r[k])[j].Target = n
		}
	}
	t.Case(strings.Join(what, ", "))
	t.Logf("%v", what)
	return p.build(zip.Store)
}

// robustGraphs has every graph of components among three objects and two parts.
func robustGraphs(t *mc.T) {
	const head = `<model xmlns="` + nsCore + `" xmlns:p="` + nsProd + `" xmlns:s="` + nsSlice + `"><resources>`
	stack := `<s:slicestack id="9"><s:slice ztop="1"/></s:slicestack><s:slicestack id="8"><s:sliceref slicestackid="9" slicepath="/3D/a.model"/></s:slicestack>`
	targets := []string{`objectid="1"`, `objectid="2"`, `objectid="3"`, `objectid="4"`, `objectid="1" p:path="/3D/a.model"`, `objectid="2" p:path="/3D/a.model"`, `objectid="1" p:path="/3D/3dmodel.model"`, `objectid="7" p:path="/none"`}
	object := func(id int, n int) string {
		var b strings.Builder
		fmt.Fprintf(&b, `<object id="%d"`, id)
		b.WriteString(mc.Pick(t, ` s:slicestackid="9"`, ``, ` s:slicestackid="8" s:meshresolution="lowres"`) + `>`)
		if n < 0 {
			return b.String() + strings.Replace(meshXML, "\n", "", -1) + `</object>`
		}
		b.WriteString(`<components>`)
		for i := 0; i < n; i++ {
			b.WriteString(`<component ` + targets[t.Free(len(targets))] + `/>`)
		}
		return b.String() + `</components></object>`
	}
	root := head + stack + object(1, 1+t.Free(2)) + object(2, 1+t.Free(2)) + object(3, -1) + `</resources><build><item objectid="1"/><item objectid="2" p:path="/3D/a.model"/></build></model>`
	kid := head + stack + object(1, -1) + object(2, t.Free(2)) + `</resources></model>`
	p := &pkg{
		Parts: []pkgPart{{Name: go3mf.DefaultModelPath, CT: ctModel, Data: []byte(root), Rels: []pkgRel{{Target: "/3D/a.model", Type: rtModel, ID: "a"}}}, {Name: "/3D/a.model", CT: ctModel, Data: []byte(kid)}},
		Rels:  []pkgRel{{Target: go3mf.DefaultModelPath, Type: rtModel, ID: "r0"}},
	}
	t.Case(root + kid)
	t.Logf("%s\n%s", root, kid)
	data := p.build(zip.Store)
	m := new(go3mf.Model)
	err := go3mf.NewDecoder(bytes.NewReader(data), int64(len(data))).Decode(m)
	if err != nil {
		t.Failf("a document is rejected", "%v\n%s\n%s", err, root, kid)
	}
	useAll(m)
	t.State(fmt.Sprint(m.Validate()))
}

// robustRefs has every graph of the references between slice stacks of three
// parts, property groups, and meshes.
func robustRefs(t *mc.T) {
	parts := []string{go3mf.DefaultModelPath, "/3D/a.model", "/3D/b.model"}
	var docs [3]string
	if kind := t.Free(3); kind == 0 {
		targets := []string{"", ""}
		for _, path := range parts {
			targets = append(targets, fmt.Sprintf(`<s:sliceref slicestackid="1" slicepath="%s"/>`, path))
		}
		targets = append(targets, `<s:sliceref slicestackid="2" slicepath="/3D/a.model"/>`, `<s:sliceref slicestackid="5" slicepath="/3D/a.model"/>`, `<s:sliceref slicestackid="1" slicepath="/none"/>`)
		targets[1] = `<s:slice ztop="1"><s:vertices><s:vertex x="0" y="0"/><s:vertex x="1" y="0"/></s:vertices><s:polygon startv="0"><s:segment v2="1"/></s:polygon></s:slice>`
		for i := range docs {
			a := targets[t.Free(len(targets))]
			if i == 0 {
				a += targets[t.Free(len(targets))]
			} else {
				a += targets[t.Choose(len(targets))]
			}
			docs[i] = `<s:slicestack id="1">` + a + `</s:slicestack>`
			if i == 1 {
				docs[i] += `<s:slicestack id="2">` + targets[t.Choose(len(targets))] + `</s:slicestack>`
			}
			docs[i] += `<object id="5" s:slicestackid="1">` + meshXML + `</object>`
		}
	} else if kind == 1 {
		ids := []string{"1", "2", "3", "4", "5", "9"}
		id := func() string { return ids[t.Choose(len(ids))] }
		groups := []string{
			`<m:multiproperties id="1" pids="` + ids[t.Free(len(ids))] + ` ` + ids[t.Free(len(ids))] + `"><m:multi pindices="0 ` + mc.Pick(t, "0", "9") + `"/></m:multiproperties>`,
			`<m:multiproperties id="2" pids="` + ids[t.Free(len(ids))] + `"><m:multi pindices="0"/></m:multiproperties>`,
			`<m:compositematerials id="3" matid="` + id() + `" matindices="0 1"><m:composite values="1 0"/></m:compositematerials>`,
			`<m:texture2dgroup id="4" texid="` + id() + `"><m:tex2coord u="0" v="0"/></m:texture2dgroup>`,
			`<object id="5" pid="` + id() + `" pindex="` + mc.Pick(t, "0", "4294967295") + `"><mesh><vertices><vertex x="0" y="0" z="0"/><vertex x="1" y="0" z="0"/><vertex x="0" y="1" z="0"/></vertices><triangles><triangle v1="0" v2="1" v3="2" pid="` + id() + `" p1="0" p2="1" p3="9"/></triangles></mesh></object>`,
		}
		if t.Free(2) == 1 {
			groups[0], groups[3] = groups[3], groups[0]
		}
		for _, g := range groups {
			docs[0] += g
		}
	} else {
		ids := []string{"1", "2", "3", "9"}
		for i := 1; i < 4; i++ {
			attr := ` clippingmode="` + mc.Pick(t, "inside", "none", "outside") + `"`
			if k := t.Free(len(ids) + 1); k > 0 {
				attr += ` clippingmesh="` + ids[k-1] + `"`
			}
			if k := t.Choose(len(ids) + 1); k > 0 {
				attr += ` representationmesh="` + ids[k-1] + `"`
			}
			body := `<mesh><vertices><vertex x="0" y="0" z="0"/><vertex x="1" y="0" z="0"/></vertices><triangles/><b:beamlattice minlength="0.1" radius="1"` + attr + `><b:beams><b:beam v1="0" v2="1"/></b:beams></b:beamlattice></mesh>`
			if i == 2 && t.Free(2) == 1 {
				body = `<components><component objectid="` + ids[t.Free(len(ids))] + `"/></components>`
			}
			docs[0] += fmt.Sprintf(`<object id="%d">%s</object>`, i, body)
		}
	}
	p := &pkg{Rels: []pkgRel{{Target: parts[0], Type: rtModel, ID: "r0"}}}
	build := []string{`<item objectid="5"/><item objectid="5" p:path="/3D/a.model"/><item objectid="2"/>`, "", ""}
	for i, path := range parts {
		x := pkgPart{Name: path, CT: ctModel, Data: []byte(scaleDoc("", docs[i], build[i]))}
		if i == 0 {
			x.Rels = []pkgRel{{Target: parts[1], Type: rtModel, ID: "a"}, {Target: parts[2], Type: rtModel, ID: "b"}}
		}
		p.Parts = append(p.Parts, x)
	}
	t.Case(fmt.Sprint(docs))
	t.Logf("%q", docs)
	data := p.build(zip.Store)
	m := new(go3mf.Model)
	err := go3mf.NewDecoder(bytes.NewReader(data), int64(len(data))).Decode(m)
	if err != nil {
		t.Failf("a document is rejected", "%v\n%q", err, docs)
	}
	useAll(m)
	t.State(fmt.Sprint(m.Validate()))
}

const meshXML = `<mesh><vertices><vertex x="0" y="0" z="0"/><vertex x="1" y="0" z="0"/><vertex x="0" y="1" z="0"/><vertex x="0" y="0" z="1"/></vertices>
<triangles><triangle v1="0" v2="2" v3="1"/><triangle v1="0" v2="1" v3="3"/><triangle v1="0" v2="3" v3="2"/><triangle v1="1" v2="2" v3="3"/></triangles></mesh>`

// robustSTL gives changed and arbitrary files to the importer.
func robustSTL(t *mc.T) {
	var data []byte
	v := stlCoords["units"]
	fs := []facet{{v[0], v[2], v[1]}, {v[0], v[1], v[3]}}
	switch t.Free(3) {
	case 0:
		words := []string{"solid", "facet", "normal", "outer", "loop", "vertex", "endloop", "endfacet", "endsolid", " ", "\n", "\r", "1", "-1 2 3", "nan", "é\xff\x00", "vertex 1 2 3\n"}
		n := t.Free(4)
		if t.Tier == "thorough" {
			n = t.Free(5)
		}
		for i := 0; i < n; i++ {
			data = append(data, words[t.Free(len(words))]...)
		}
		t.Case(string(data))
		robustImport(t, data)
		return
	case 1:
		data = []byte(asciiSTL(fs))
	case 2:
		data = binarySTL("", fs, 0, 0)
	}
	if t.Free(2) == 1 {
		i := t.Free(len(data))
		if t.Tier == "thorough" {
			data[i] = byte(t.Free(256))
		} else {
			data[i] = byteValues[t.Free(len(byteValues))]
		}
	}
	t.Case(string(data))
	robustImport(t, data)
}

func robustImport(t *mc.T, data []byte) {
	m := new(go3mf.Model)
	err := stl.NewDecoder(bytes.NewReader(data)).Decode(m)
	useErr(err)
	t.State(fmt.Sprint(err))
	useAll(m)
	writeAll(m)
}

func asciiSTL(fs []facet) string {
	var b strings.Builder
	b.WriteString("solid x\n")
	for _, f := range fs {
		b.WriteString("facet normal 0 0 0\nouter loop\n")
		for _, p := range f {
			fmt.Fprintf(&b, "vertex %v %v %v\n", p[0], p[1], p[2])
		}
		b.WriteString("endloop\nendfacet\n")
	}
	return b.String() + "endsolid x\n"
}

// Families of documents of any size.

func repeat(n int, f string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(strings.NewReplacer("@1", fmt.Sprint(i+1), "@2", fmt.Sprint(i+2), "@", fmt.Sprint(i)).Replace(f))
	}
	return b.String()
}

const scaleHead = `<model xmlns="` + nsCore + `" xmlns:m="` + nsMat + `" xmlns:s="` + nsSlice + `" xmlns:b="` + nsBeam + `" xmlns:p="` + nsProd + `" xmlns:q="` + nsQ + `"`

func scaleDoc(attrs, res, build string) string {
	return scaleHead + attrs + `><resources>` + res + `</resources><build>` + build + `</build></model>`
}

func meshOf(id int, vertices, triangles, rest string) string {
	return fmt.Sprintf(`<object id="%d"><mesh><vertices>%s</vertices><triangles>%s</triangles>%s</mesh></object>`, id, vertices, triangles, rest)
}

var scaleFamilies = []struct {
	name string
	f    func(n int) string
}{
	{"vertices", func(n int) string {
		return scaleDoc("", meshOf(1, repeat(n, `<vertex x="@" y="1" z="2"/>`), `<triangle v1="0" v2="1" v3="2"/>`, ""), `<item objectid="1"/>`)
	}},
	{"triangles", func(n int) string {
		return scaleDoc("", meshOf(1, repeat(n+2, `<vertex x="@" y="1" z="2"/>`), repeat(n, `<triangle v1="@" v2="@1" v3="@2"/>`), ""), `<item objectid="1"/>`)
	}},
	{"triangles on an edge", func(n int) string {
		return scaleDoc("", meshOf(1, repeat(n+2, `<vertex x="@" y="1" z="2"/>`), repeat(n, `<triangle v1="0" v2="1" v3="@2"/>`), ""), `<item objectid="1"/>`)
	}},
	{"objects", func(n int) string {
		return scaleDoc("", repeat(n, `<object id="@1">`+meshXML+`</object>`), repeat(n, `<item objectid="@1"/>`))
	}},
	{"properties", func(n int) string {
		return scaleDoc("", repeat(n, `<basematerials id="@1"><base name="a" displaycolor="#FFFFFF"/></basematerials>`)+repeat(n, `<object id="9000@1" pid="@1" pindex="0">`+meshXML+`</object>`), `<item objectid="90001"/>`)
	}},
	{"items", func(n int) string {
		return scaleDoc("", `<object id="1">`+meshXML+`</object>`, repeat(n, `<item objectid="1"/>`))
	}},
	{"components", func(n int) string {
		return scaleDoc("", `<object id="1">`+meshXML+`</object><object id="2"><components>`+repeat(n, `<component objectid="1"/>`)+`</components></object>`, `<item objectid="2"/>`)
	}},
	{"chain", func(n int) string {
		return scaleDoc("", `<object id="1">`+meshXML+`</object>`+repeat(n, `<object id="@2"><components><component objectid="@1"/></components></object>`), fmt.Sprintf(`<item objectid="%d"/>`, n+1))
	}},
	{"backward chain", func(n int) string {
		return scaleDoc("", repeat(n, `<object id="@1"><components><component objectid="@2"/></components></object>`), `<item objectid="1"/>`)
	}},
	{"metadata", func(n int) string {
		return scaleHead + `>` + repeat(n, `<metadata name="q:a@">x</metadata>`) + `<resources/><build/></model>`
	}},
	{"comments", func(n int) string {
		return scaleHead + `><metadata name="a">` + repeat(n, `xxxx<!---->`) + `</metadata><resources/><build/></model>`
	}},
	{"long value", func(n int) string {
		return scaleHead + `><metadata name="` + strings.Repeat("a", n) + `">` + strings.Repeat("&lt;", n) + `</metadata><resources/><build/></model>`
	}},
	{"extensions", func(n int) string { return scaleDoc(repeat(n, ` xmlns:x@="u@"`), "", "") }},
	{"namespaces", func(n int) string {
		return strings.Replace(scaleDoc("", "", ""), "<build>", "<build"+repeat(n, ` xmlns:x@="u@" x@:a="1"`)+">", 1)
	}},
	{"attributes", func(n int) string {
		return strings.Replace(scaleDoc("", "", ""), "<build>", "<build"+repeat(n, ` q:a@="1"`)+">", 1)
	}},
	{"nested", func(n int) string {
		return strings.Replace(scaleDoc("", "", ""), "</model>", strings.Repeat("<q:a>", n)+strings.Repeat("</q:a>", n)+"</model>", 1)
	}},
	{"nested core", func(n int) string {
		return scaleHead + ">" + strings.Repeat("<resources>", n) + strings.Repeat("</resources>", n) + "</model>"
	}},
	{"siblings", func(n int) string {
		return strings.Replace(scaleDoc("", "", ""), "</model>", strings.Repeat("<q:a/>", n)+"</model>", 1)
	}},
	{"errors", func(n int) string { return scaleDoc("", "", repeat(n, `<item objectid="x"/>`)) }},
	{"bases", func(n int) string {
		return scaleDoc("", `<basematerials id="1">`+repeat(n, `<base name="a@" displaycolor="#FFFFFF"/>`)+`</basematerials>`, "")
	}},
	{"slices", func(n int) string {
		return scaleDoc("", `<s:slicestack id="1">`+repeat(n, `<s:slice ztop="@"><s:vertices><s:vertex x="0" y="0"/><s:vertex x="1" y="0"/><s:vertex x="0" y="1"/></s:vertices><s:polygon startv="0"><s:segment v2="1"/><s:segment v2="2"/><s:segment v2="0"/></s:polygon></s:slice>`)+`</s:slicestack>`, "")
	}},
	{"slice references", func(n int) string {
		return scaleDoc("", `<s:slicestack id="1">`+repeat(n, `<s:sliceref slicestackid="1" slicepath="/a@"/>`)+`</s:slicestack>`, "")
	}},
	{"polygons", func(n int) string {
		return scaleDoc("", `<s:slicestack id="1"><s:slice ztop="1"><s:vertices>`+repeat(n, `<s:vertex x="@" y="0"/>`)+`</s:vertices>`+repeat(n, `<s:polygon startv="0"><s:segment v2="1"/></s:polygon>`)+`</s:slice></s:slicestack>`, "")
	}},
	{"segments", func(n int) string {
		return scaleDoc("", `<s:slicestack id="1"><s:slice ztop="1"><s:vertices>`+repeat(n+1, `<s:vertex x="@" y="0"/>`)+`</s:vertices><s:polygon startv="0">`+repeat(n, `<s:segment v2="@1" pid="1" p1="0"/>`)+`</s:polygon></s:slice></s:slicestack>`, "")
	}},
	{"beams", func(n int) string {
		return scaleDoc("", meshOf(1, repeat(n+1, `<vertex x="@" y="1" z="2"/>`), "", `<b:beamlattice minlength="0.001" radius="1"><b:beams>`+repeat(n, `<b:beam v1="@" v2="@1"/>`)+`</b:beams></b:beamlattice>`), `<item objectid="1"/>`)
	}},
	{"beam sets", func(n int) string {
		return scaleDoc("", meshOf(1, repeat(n+1, `<vertex x="@" y="1" z="2"/>`), "", `<b:beamlattice minlength="0.001" radius="1"><b:beams>`+repeat(n, `<b:beam v1="@" v2="@1"/>`)+`</b:beams><b:beamsets>`+repeat(n, `<b:beamset identifier="@"><b:ref index="@"/></b:beamset>`)+`</b:beamsets></b:beamlattice>`), `<item objectid="1"/>`)
	}},
	{"multis", func(n int) string {
		return scaleDoc("", `<m:colorgroup id="1"><m:color color="#FFFFFF"/></m:colorgroup><m:multiproperties id="2" pids="`+repeat(n, `1 `)+`">`+repeat(n, `<m:multi pindices="0"/>`)+`</m:multiproperties>`, "")
	}},
	{"composites", func(n int) string {
		return scaleDoc("", `<basematerials id="1"><base name="a" displaycolor="#FFFFFF"/></basematerials><m:compositematerials id="2" matid="1" matindices="`+repeat(n, `0 `)+`">`+repeat(n, `<m:composite values="1"/>`)+`</m:compositematerials>`, "")
	}},
	{"colors", func(n int) string {
		return scaleDoc("", `<m:colorgroup id="1">`+repeat(n, `<m:color color="#FFFFFF"/>`)+`</m:colorgroup><m:texture2dgroup id="2" texid="3">`+repeat(n, `<m:tex2coord u="0" v="1"/>`)+`</m:texture2dgroup>`, "")
	}},
	{"textures", func(n int) string {
		return scaleDoc("", repeat(n, `<m:texture2d id="@1" path="/a@.png" contenttype="image/png"/>`), "")
	}},
}

var scaleOps = []struct {
	name string
	f    func(doc []byte, m *go3mf.Model)
}{
	{"Validate", func(_ []byte, m *go3mf.Model) { useErr(m.Validate()) }},
	{"ValidateCoherency", func(_ []byte, m *go3mf.Model) { useErr(m.ValidateCoherency()) }},
	{"BoundingBox", func(_ []byte, m *go3mf.Model) { m.BoundingBox() }},
	{"walk", func(_ []byte, m *go3mf.Model) {
		m.WalkObjects(func(string, *go3mf.Object) error { return nil })
		m.WalkAssets(func(string, go3mf.Asset) error { return nil })
	}},
	{"SetMissingUUIDs", func(_ []byte, m *go3mf.Model) { production.SetMissingUUIDs(m) }},
	{"Marshal", func(_ []byte, m *go3mf.Model) { go3mf.MarshalModel(m) }},
	{"Encode", func(_ []byte, m *go3mf.Model) { go3mf.NewEncoder(new(bytes.Buffer)).Encode(m) }},
}

// scaleTime is far above what any operation takes, far below what it would
// take if time were exponential.
const scaleTime = 20 * time.Second

// scale measures the memory taken per byte of input, which does not grow with
// the input.
func scale(t *mc.T) {
	fam := scaleFamilies[t.Free(len(scaleFamilies))]
	op := t.Free(len(scaleOps) + 2)
	t.Case(fmt.Sprint(fam.name, op))
	name := "UnmarshalModel"
	small, large := 500, 4000
	if t.Tier == "thorough" {
		small, large = 2000, 16000
	}
	if op == len(scaleOps)+1 {
		name = "Decode"
	} else if op > 0 {
		name = scaleOps[op-1].name
	}
	cost := func(n int) float64 {
		doc := []byte(fam.f(n))
		data := wrapModel(doc)
		m := new(go3mf.Model)
		f := func() { useErr(go3mf.UnmarshalModel(doc, m)) }
		if op == len(scaleOps)+1 {
			f = func() { useErr(go3mf.NewDecoder(bytes.NewReader(data), int64(len(data))).Decode(m)) }
		} else if op > 0 {
			f()
			f = func() { scaleOps[op-1].f(doc, m) }
		}
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		start := time.Now()
		f()
		if d := time.Since(start); d > scaleTime {
			t.Failf("time is out of proportion: "+name, "%s of %d %s takes %v", name, n, fam.name, d)
		}
		runtime.ReadMemStats(&b)
		return float64(b.TotalAlloc-a.TotalAlloc) / float64(len(doc))
	}
	a, b := cost(small), cost(large)
	t.State(fam.name + name)
	if b > 2*a+16 {
		t.Failf("memory is out of proportion: "+name, "%s of %d %s allocates %.1f bytes per byte of the document, of %d %.1f", name, small, fam.name, a, large, b)
	}
	if b > 400 {
		t.Failf("memory is out of proportion: "+name, "%s of %d %s allocates %.1f bytes per byte of the document", name, large, fam.name, b)
	}
}

// ladders are components that have the one below twice or more: as many paths
// as the power of the height.
func ladders(t *mc.T) {
	h := 8 << (3 * t.Free(2)) // 8 or 64
	if t.Tier == "thorough" {
		h *= 8
	}
	width := 2 + t.Free(2)
	leaf := t.Free(5) // a mesh, nothing, the top, an object that does not exist, a sliced mesh
	parts := t.Free(2) == 1
	sliced := t.Free(3)
	path := ""
	if parts {
		path = ` p:path="/3D/a.model"`
	}
	stack := `<s:slicestack id="90001"><s:slice ztop="1"/></s:slicestack>`
	attr := []string{"", ` s:slicestackid="90001"`, ` s:slicestackid="90001" s:meshresolution="lowres"`}[sliced]
	var b strings.Builder
	switch leaf {
	case 0:
		b.WriteString(`<object id="1">` + meshXML + `</object>`)
	case 1:
		b.WriteString(`<object id="1"/>`)
	case 2:
		fmt.Fprintf(&b, `<object id="1"><components><component objectid="%d"/></components></object>`, h)
	case 4:
		b.WriteString(`<object id="1" s:slicestackid="90001">` + meshXML + `</object>`)
	}
	for i := 2; i <= h; i++ {
		fmt.Fprintf(&b, `<object id="%d"%s><components>`, i, attr)
		for k := 0; k < width; k++ {
			fmt.Fprintf(&b, `<component objectid="%d" transform="1 0 0 0 1 0 0 0 1 %d 0 0"%s/>`, i-1, k, path)
		}
		b.WriteString(`</components></object>`)
	}
	doc := scaleDoc("", stack+b.String(), fmt.Sprintf(`<item objectid="%d"%s/>`, h, path))
	p := &pkg{
		Parts: []pkgPart{{Name: go3mf.DefaultModelPath, CT: ctModel, Data: []byte(doc), Rels: []pkgRel{{Target: "/3D/a.model", Type: rtModel, ID: "a"}}}, {Name: "/3D/a.model", CT: ctModel, Data: []byte(doc)}},
		Rels:  []pkgRel{{Target: go3mf.DefaultModelPath, Type: rtModel, ID: "r0"}},
	}
	t.Case(fmt.Sprint(h, width, leaf, parts, sliced))
	data := p.build(zip.Store)
	m := new(go3mf.Model)
	start := time.Now()
	if err := go3mf.NewDecoder(bytes.NewReader(data), int64(len(data))).Decode(m); err != nil {
		t.Failf("a document is rejected", "%v", err)
	}
	useAll(m)
	writeAll(m)
	t.State(fmt.Sprint(m.Validate() == nil))
	if d := time.Since(start); d > scaleTime {
		t.Failf("time is out of proportion", "%v for components %d high", d, h)
	}
}

// robustDeep has long chains of components.
func robustDeep(t *mc.T) {
	n := mc.Each(t, 1000, 10000)
	if t.Tier == "thorough" {
		n = mc.Each(t, 10000, 30000)
	}
	for _, fam := range scaleFamilies {
		if !strings.HasSuffix(fam.name, "chain") && !strings.HasPrefix(fam.name, "nested") {
			continue
		}
		m := new(go3mf.Model)
		useErr(go3mf.UnmarshalModel([]byte(fam.f(n)), m))
		useAll(m)
		writeAll(m)
		t.Step()
	}
	t.Case(fmt.Sprint(n))
}

// attachmentsInProportion reads and writes parts of any number and size.
func attachmentsInProportion(t *mc.T) {
	n, size := 0, 0
	many := t.Free(2) == 0
	cost := func(k int) float64 {
		n, size = 1, k*100
		if many {
			n, size = k, 100
		}
		root := `<model xmlns="` + nsCore + `"><resources/><build/></model>`
		p := &pkg{Parts: []pkgPart{{Name: go3mf.DefaultModelPath, CT: ctModel, Data: []byte(root)}}, Rels: []pkgRel{{Target: go3mf.DefaultModelPath, Type: rtModel, ID: "r0"}}}
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("/x/a%d.png", i)
			p.Parts = append(p.Parts, pkgPart{Name: name, CT: "image/png", Data: bytes.Repeat([]byte("x"), size)})
			p.Parts[0].Rels = append(p.Parts[0].Rels, pkgRel{Target: name, Type: rtOther, ID: fmt.Sprint("a", i)})
		}
		data := p.build(zip.Store)
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		m := new(go3mf.Model)
		if err := go3mf.NewDecoder(bytes.NewReader(data), int64(len(data))).Decode(m); err != nil {
			t.Failf("a package is rejected", "%v", err)
		}
		if err := go3mf.NewEncoder(new(bytes.Buffer)).Encode(m); err != nil {
			t.Failf("a model is rejected", "%v", err)
		}
		runtime.ReadMemStats(&b)
		return float64(b.TotalAlloc-a.TotalAlloc) / float64(len(data))
	}
	a, b := cost(100), cost(1600)
	t.Case(fmt.Sprint(many))
	if b > 2*a+16 {
		t.Failf("memory is out of proportion: attachments", "%.1f bytes per byte, then %.1f", a, b)
	}
}

func init() {
	register(&mc.Property{ID: "C09", Scenarios: []mc.Scenario{
		{Name: "documents", Bound: "a document with every element of every extension: every attribute with 63 values or removed, every element removed, repeated, emptied, reversed, renamed or given any other element; thorough: with any of 600 removals and changes of references more", K: 0, KT: 1, Run: robustTree},
		{Name: "pairs", Bound: "every third (thorough: every) pair of the removals and changes of references", Run: robustPairs},
		{Name: "bytes of documents", Bound: "every byte of that document changed into 8 values (thorough: 256)", Run: robustBytes},
		{Name: "bytes of packages", Bound: "every byte of two packages changed in 7 ways (thorough: 15)", Run: robustZip},
		{Name: "packages", Bound: "one change (thorough: two) of the names, types, data, number of parts or of relationships", K: 1, KT: 2, Run: robustPackages},
		{Name: "graphs", Bound: "every graph of components of two objects with up to two components to eight targets in two parts, and every change of one slice stack", K: 0, KT: 1, Run: robustGraphs},
		{Name: "references", Bound: "every graph of the references of slice stacks in three parts, of property groups, of clipping and representation meshes among three objects; one change more (thorough: two) of a second reference", K: 1, KT: 2, Run: robustRefs},
		{Name: "stl", Bound: "every sequence of up to three (thorough: four) words, every byte of two files changed", Run: robustSTL},
		{Name: "ladders", Bound: "components 8 to 64 (thorough: 512) high, each using the one below two or three times, over five kinds of leaf", Run: ladders},
		{Name: "proportion", Bound: "30 families of documents with 500 and 4000 (thorough: 2000 and 16000) elements, nine operations", Serial: true, Run: scale},
		{Name: "attachments", Bound: "100 and 1600 parts, parts of 10 and 160 kB", Serial: true, Run: attachmentsInProportion},
		{Name: "depth", Bound: "chains of components and nested elements, 1000 and 10000 (thorough 30000) deep", Serial: true, Run: robustDeep},
	}})
}
