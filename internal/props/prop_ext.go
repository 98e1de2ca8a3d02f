package props

import (
	"encoding/xml"
	"fmt"
	"image/color"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

func ext(e go3mf.Extension, required bool) go3mf.Extension {
	e.IsRequired = required
	return e
}

func ids(t *mc.T, def ...uint32) []uint32 {
	switch t.Choose(5) {
	case 1:
		return nil
	case 2:
		return []uint32{0}
	case 3:
		return []uint32{4294967295, 0, 7}
	case 4:
		return append(append([]uint32(nil), def...), def...)
	}
	return def
}

func genTexture(t *mc.T, id uint32) *materials.Texture2D {
	return &materials.Texture2D{ID: id,
		Path:        mc.Pick(t, "/3D/Texture/t.png", "/3D/a.jpg"),
		ContentType: mc.Pick(t, materials.TextureTypePNG, materials.TextureTypeJPEG),
		TileStyleU:  mc.Pick(t, materials.TileWrap, materials.TileMirror, materials.TileClamp, materials.TileNone),
		TileStyleV:  mc.Pick(t, materials.TileWrap, materials.TileMirror, materials.TileClamp, materials.TileNone),
		Filter:      mc.Pick(t, materials.TextureFilterAuto, materials.TextureFilterLinear, materials.TextureFilterNearest),
	}
}

func genTexGroup(t *mc.T, id, tex uint32) *materials.Texture2DGroup {
	g := &materials.Texture2DGroup{ID: id, TextureID: mc.Pick(t, tex, 4294967295)}
	for i, n := 0, mc.Pick(t, 2, 0, 1, 3); i < n; i++ {
		g.Coords = append(g.Coords, materials.TextureCoord{coord(t), coord(t)})
	}
	return g
}

func genColorGroup(t *mc.T, id uint32) *materials.ColorGroup {
	g := &materials.ColorGroup{ID: id}
	for i, n := 0, mc.Pick(t, 2, 0, 1, 3); i < n; i++ {
		g.Colors = append(g.Colors, rgba(t))
	}
	return g
}

func genComposite(t *mc.T, id, base uint32) *materials.CompositeMaterials {
	g := &materials.CompositeMaterials{ID: id, MaterialID: base, Indices: ids(t, 0, 1)}
	for i, n := 0, mc.Pick(t, 2, 0, 1, 3); i < n; i++ {
		g.Composites = append(g.Composites, materials.Composite{Values: mc.Pick(t, []float32{0.5, 0.25}, nil, []float32{1}, []float32{0, 0.3333, 1000})})
	}
	return g
}

func genMulti(t *mc.T, id uint32, pids ...uint32) *materials.MultiProperties {
	g := &materials.MultiProperties{ID: id, PIDs: ids(t, pids...)}
	g.BlendMethods = mc.Pick(t, []materials.BlendMethod{materials.BlendMultiply}, nil, []materials.BlendMethod{materials.BlendMix},
		[]materials.BlendMethod{materials.BlendMix, materials.BlendMultiply, materials.BlendMix})
	for i, n := 0, mc.Pick(t, 2, 0, 1, 3); i < n; i++ {
		g.Multis = append(g.Multis, materials.Multi{PIndices: ids(t, uint32(i), 1)})
	}
	return g
}

func tetra(id uint32) *go3mf.Object {
	return &go3mf.Object{ID: id, Mesh: &go3mf.Mesh{
		Vertices:  go3mf.Vertices{Vertex: []go3mf.Point3D{{0, 0, 0}, {10, 0, 0}, {0, 10, 0}, {0, 0, 10}}},
		Triangles: go3mf.Triangles{Triangle: []go3mf.Triangle{{V1: 0, V2: 2, V3: 1}, {V1: 0, V2: 1, V3: 3}, {V1: 1, V2: 2, V3: 3}, {V1: 2, V2: 0, V3: 3}}},
	}}
}

func genMaterials(t *mc.T) *go3mf.Model {
	m := &go3mf.Model{Extensions: []go3mf.Extension{ext(materials.DefaultExtension, t.Flip())}}
	o := tetra(10)
	o.Mesh.Triangles.Triangle[1].PID, o.Mesh.Triangles.Triangle[1].P1, o.Mesh.Triangles.Triangle[1].P2 = 5, 0, 1
	m.Resources.Objects = []*go3mf.Object{o}
	m.Build.Items = []*go3mf.Item{{ObjectID: 10}}
	base := &go3mf.BaseMaterials{ID: 1, Materials: []go3mf.Base{{Name: "a", Color: color.RGBA{1, 2, 3, 255}}, {Name: "b", Color: color.RGBA{3, 2, 1, 255}}}}
	all := []go3mf.Asset{base, genTexture(t, 2), genTexGroup(t, 3, 2), genColorGroup(t, 5), genComposite(t, 6, 1), genMulti(t, 7, 5, 3)}
	switch k := t.Choose(9); k {
	case 0:
	case 1: // reverse order
		for i, j := 0, len(all)-1; i < j; i, j = i+1, j-1 {
			all[i], all[j] = all[j], all[i]
		}
	case 2: // two of each
		all = append(all, genColorGroup(t, 15), genTexGroup(t, 13, 2), genComposite(t, 16, 1), genMulti(t, 17, 5))
		all = append(all, genTexture(t, 12))
	default: // without one
		k -= 3
		all = append(all[:k:k], all[k+1:]...)
	}
	m.Resources.Assets = all
	return m
}

func genSlices(t *mc.T) *go3mf.Model {
	m := &go3mf.Model{Extensions: []go3mf.Extension{ext(slices.DefaultExtension, t.Flip())}}
	st := &slices.SliceStack{ID: 1, BottomZ: mc.Pick(t, float32(1), 0, -2.5, 0.1)}
	for i, n := 0, mc.Pick(t, 2, 0, 1, 3); i < n; i++ {
		s := slices.Slice{TopZ: float32(i) + mc.Pick(t, float32(2), 2.125, 0, -7)}
		for j, nv := 0, mc.Pick(t, 3, 0, 1, 2); j < nv; j++ {
			s.Vertices.Vertex = append(s.Vertices.Vertex, go3mf.Point2D{float32(j) + coord(t), coord(t)})
		}
		for j, np := 0, mc.Pick(t, 1, 0, 2); j < np; j++ {
			p := slices.Polygon{StartV: mc.Pick(t, uint32(0), 2, 4294967295)}
			for k, ns := 0, mc.Pick(t, 3, 0, 1); k < ns; k++ {
				g := slices.Segment{V2: uint32((k + 1) % 3)}
				switch t.Choose(8) {
				case 1:
					g.PID, g.P1, g.P2 = 9, 0, 0
				case 2:
					g.PID, g.P1, g.P2 = 9, 1, 1
				case 3:
					g.PID, g.P1, g.P2 = 9, 1, 0
				case 4:
					g.PID, g.P1, g.P2 = 4294967295, 2, 3
				case 5:
					g.V2 = 4294967295
				case 6: // of the object's property group
					g.P1, g.P2 = 1, 2
				case 7:
					g.P1, g.P2 = 3, 3
				}
				p.Segments = append(p.Segments, g)
			}
			s.Polygons = append(s.Polygons, p)
		}
		st.Slices = append(st.Slices, s)
	}
	refs := &slices.SliceStack{ID: 2, BottomZ: mc.Pick(t, float32(0), 3)}
	for i, n := 0, mc.Pick(t, 2, 0, 1); i < n; i++ {
		refs.Refs = append(refs.Refs, slices.SliceRef{SliceStackID: mc.Pick(t, uint32(3+i), 1), Path: mc.Pick(t, "/2D/a.model", `/2D/b&"<.model`)})
	}
	if t.Flip() {
		st.Refs = refs.Refs
	}
	m.Resources.Assets = []go3mf.Asset{st, refs}
	o := tetra(10)
	switch t.Choose(4) {
	case 0:
		o.AnyAttr = spec.AnyAttr{&slices.ObjectAttr{SliceStackID: mc.Pick(t, uint32(1), 0, 4294967295), MeshResolution: mc.Pick(t, slices.ResolutionFull, slices.ResolutionLow)}}
	case 1:
	case 2:
		o.AnyAttr = spec.AnyAttr{&slices.ObjectAttr{SliceStackID: 2}, &spec.UnknownAttrs{Space: nsQ}}
		o.AnyAttr[1].(*spec.UnknownAttrs).Attr = append(o.AnyAttr[1].(*spec.UnknownAttrs).Attr, qattr("slicestackid", "x"))
		m.Extensions = append(m.Extensions, extQ)
	case 3:
		c := &go3mf.Object{ID: 11, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 10}}}, AnyAttr: spec.AnyAttr{&slices.ObjectAttr{SliceStackID: 1, MeshResolution: slices.ResolutionLow}}}
		m.Resources.Objects = []*go3mf.Object{o, c}
	}
	if len(m.Resources.Objects) == 0 {
		m.Resources.Objects = []*go3mf.Object{o}
	}
	m.Build.Items = []*go3mf.Item{{ObjectID: 10}}
	return m
}

// genBeams explores beam lattices; rad are radii exact at every precision used.
func genBeams(t *mc.T) *go3mf.Model {
	m := &go3mf.Model{Extensions: []go3mf.Extension{ext(beamlattice.DefaultExtension, t.Flip())}}
	caps := func(def beamlattice.CapMode) beamlattice.CapMode {
		return mc.Pick(t, def, beamlattice.CapModeSphere, beamlattice.CapModeHemisphere, beamlattice.CapModeButt)
	}
	b := &beamlattice.BeamLattice{
		Radius:               mc.Pick(t, float32(1), 0.5, 2.25),
		MinLength:            mc.Pick(t, float32(0.0001), 0, 3),
		ClipMode:             mc.Pick(t, beamlattice.ClipNone, beamlattice.ClipInside, beamlattice.ClipOutside),
		ClippingMeshID:       mc.Pick(t, uint32(0), 11, 4294967295),
		RepresentationMeshID: mc.Pick(t, uint32(0), 11),
		CapMode:              caps(beamlattice.CapModeSphere),
	}
	for i, n := 0, mc.Pick(t, 2, 0, 1, 3); i < n; i++ {
		x := beamlattice.Beam{Indices: [2]uint32{uint32(i), mc.Pick(t, uint32(i+1), 0, 4294967295)}}
		x.Radius = [2]float32{mc.Pick(t, b.Radius, 0.5, 1, 3, 0), mc.Pick(t, b.Radius, 0.5, 1, 3, 0)}
		x.CapMode = [2]beamlattice.CapMode{caps(b.CapMode), caps(b.CapMode)}
		b.Beams.Beam = append(b.Beams.Beam, x)
	}
	for i, n := 0, mc.Pick(t, 1, 0, 2, 3); i < n; i++ {
		s := beamlattice.BeamSet{Refs: ids(t, 0, 1), Name: mc.Pick(t, "set", "", `n"&<>`), Identifier: mc.Pick(t, "id", "", `i'&<>`)}
		b.BeamSets.BeamSet = append(b.BeamSets.BeamSet, s)
	}
	o := tetra(10)
	o.Mesh.Any = spec.Any{b}
	if t.Flip() {
		u := unknownTokens(2)
		o.Mesh.Any = spec.Any{&u, b}
		m.Extensions = append(m.Extensions, extQ, extR)
	}
	if t.Flip() {
		o.Mesh.Triangles.Triangle = nil
	}
	m.Resources.Objects = []*go3mf.Object{tetra(11), o}
	if t.Flip() { // another lattice, to see state leaking
		p := tetra(12)
		p.Mesh.Any = spec.Any{&beamlattice.BeamLattice{Radius: 7, MinLength: 1, CapMode: beamlattice.CapModeButt,
			Beams: beamlattice.Beams{Beam: []beamlattice.Beam{{Indices: [2]uint32{0, 1}, Radius: [2]float32{7, 7}, CapMode: [2]beamlattice.CapMode{2, 2}}}}}}
		m.Resources.Objects = append(m.Resources.Objects, p)
	}
	m.Build.Items = []*go3mf.Item{{ObjectID: 10}}
	return m
}

// normBeams is the normal form of beam lattices: rounding, and the defaults of
// radii that are not given.
func normBeams(m *go3mf.Model, prec int) {
	normalize(m, prec)
	for _, o := range m.Resources.Objects {
		if o.Mesh == nil {
			continue
		}
		b := beamlattice.GetBeamLattice(o.Mesh)
		if b == nil {
			continue
		}
		for i := range b.Beams.Beam {
			x := &b.Beams.Beam[i]
			if x.Radius[0] == 0 {
				x.Radius[0] = b.Radius
			}
			if x.Radius[1] == 0 {
				x.Radius[1] = x.Radius[0]
			}
			x.Radius = [2]float32{roundF(x.Radius[0], prec), roundF(x.Radius[1], prec)}
		}
		b.Radius, b.MinLength = roundF(b.Radius, prec), roundF(b.MinLength, prec)
	}
}

func normMaterials(m *go3mf.Model, prec int) {
	normalize(m, prec)
	for _, a := range m.Resources.Assets {
		switch a := a.(type) {
		case *materials.Texture2DGroup:
			for i, c := range a.Coords {
				a.Coords[i] = materials.TextureCoord{roundF(c[0], prec), roundF(c[1], prec)}
			}
		case *materials.CompositeMaterials:
			for i, c := range a.Composites {
				var v []float32
				for _, x := range c.Values {
					v = append(v, roundF(x, prec))
				}
				a.Composites[i].Values = v
			}
		}
	}
}

func normSlices(m *go3mf.Model, prec int) {
	normalize(m, prec)
	for _, a := range m.Resources.Assets {
		if s, ok := a.(*slices.SliceStack); ok {
			if s.BottomZ == 0 {
				s.BottomZ = 0 // the default, of no sign
			}
			s.BottomZ = roundF(s.BottomZ, prec)
			for i := range s.Slices {
				s.Slices[i].TopZ = roundF(s.Slices[i].TopZ, prec)
				for j, v := range s.Slices[i].Vertices.Vertex {
					s.Slices[i].Vertices.Vertex[j] = go3mf.Point2D{roundF(v[0], prec), roundF(v[1], prec)}
				}
			}
		}
	}
}

func uuidN(n int) string { return fmt.Sprintf("f47ac10b-58cc-0372-8567-0e02b2c3d4%02d", n) }

func genProduction(t *mc.T) *go3mf.Model {
	m := &go3mf.Model{Extensions: []go3mf.Extension{ext(production.DefaultExtension, !t.Flip())}}
	u := func(n int) string {
		return mc.Pick(t, uuidN(n), "F47AC10B-58CC-0372-8567-0E02B2C3D4FF", "urn:uuid:f47ac10b-58cc-0372-8567-0e02b2c3d479", "{f47ac10b-58cc-0372-8567-0e02b2c3d479}", "f47ac10b58cc037285670e02b2c3d479")
	}
	path := func() string { return mc.Pick(t, "", "/3D/other.model", `/3D/é&"<.model`) }
	pres := func() bool { return !t.Flip() }
	mix := func(a spec.AttrGroup) spec.AnyAttr {
		out := spec.AnyAttr{a}
		if t.Flip() {
			out = append(out, &spec.UnknownAttrs{Space: nsQ})
			x := out[1].(*spec.UnknownAttrs)
			x.Attr = append(x.Attr, qattr("UUID", "not one"), qattr("path", "p"))
			if len(m.Extensions) == 1 {
				m.Extensions = append(m.Extensions, extQ)
			}
		}
		return out
	}
	if pres() {
		m.Build.AnyAttr = mix(&production.BuildAttr{UUID: u(0)})
	}
	for i := 0; i < 2; i++ {
		o := tetra(uint32(10 + i))
		if pres() {
			o.AnyAttr = mix(&production.ObjectAttr{UUID: u(1 + i)})
		}
		m.Resources.Objects = append(m.Resources.Objects, o)
	}
	c := &go3mf.Object{ID: 12, Components: &go3mf.Components{}}
	for i := 0; i < 2; i++ {
		x := &go3mf.Component{ObjectID: uint32(10 + i), Transform: transform(t)}
		if pres() {
			x.AnyAttr = mix(&production.ComponentAttr{UUID: u(4 + i), Path: path()})
		}
		c.Components.Component = append(c.Components.Component, x)
	}
	if pres() {
		c.AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: u(3)}}
	}
	m.Resources.Objects = append(m.Resources.Objects, c)
	for i := 0; i < 2; i++ {
		it := &go3mf.Item{ObjectID: uint32(11 + i), PartNumber: mc.Pick(t, "", "pn")}
		if pres() {
			it.AnyAttr = mix(&production.ItemAttr{UUID: u(6 + i), Path: path()})
		}
		m.Build.Items = append(m.Build.Items, it)
	}
	return m
}

// checkPaths compares the accessors of a decoded model with its attributes.
func checkPaths(t *mc.T, m *go3mf.Model) {
	data := mustEncode(t, m, 4)
	got, err := decodePackage(data, true)
	if err != nil {
		t.Failf("decode-error", "%v", err)
	}
	t.Case(dump(m))
	path := func(a spec.AnyAttr) string {
		for _, g := range a {
			switch g := g.(type) {
			case *production.ItemAttr:
				return g.Path
			case *production.ComponentAttr:
				return g.Path
			}
		}
		return ""
	}
	var want, have []string
	for i, it := range m.Build.Items {
		p := path(it.AnyAttr)
		want = append(want, p)
		have = append(have, got.Build.Items[i].ObjectPath())
	}
	for i, o := range m.Resources.Objects {
		if o.Components == nil {
			continue
		}
		for j, c := range o.Components.Component {
			p := path(c.AnyAttr)
			if p == "" {
				p = "/parent.model"
			}
			want = append(want, p)
			have = append(have, got.Resources.Objects[i].Components.Component[j].ObjectPath("/parent.model"))
		}
	}
	w, g := fmt.Sprint(want), fmt.Sprint(have)
	t.State(g)
	t.Sample("%s", g)
	if w != g {
		t.Failf("object-path", "ObjectPath: want %s got %s", w, g)
	}
}

// customPath is an attribute group of another extension that knows about paths.
type customPath string

func (customPath) Namespace() string                                { return "urn:custom-path" }
func (c customPath) ObjectPath() string                             { return string(c) }
func (customPath) Unmarshal3MFAttr(spec.XMLAttr) error              { return nil }
func (customPath) Marshal3MF(spec.Encoder, *xml.StartElement) error { return nil }

// accessors asks for the paths and groups of every list of up to three attribute groups.
func accessors(t *mc.T) {
	groups := func() (a spec.AnyAttr) {
		for i, n := 0, t.Free(4); i < n; i++ {
			switch t.Free(11) {
			case 8:
				a = append(a, &production.ItemAttr{UUID: "i", Path: go3mf.DefaultModelPath})
			case 9:
				a = append(a, &production.ComponentAttr{Path: go3mf.DefaultModelPath})
			case 10:
				a = append(a, customPath("/"))
			case 0:
				a = append(a, &spec.UnknownAttrs{Space: "urn:unknown:q"})
			case 1:
				a = append(a, customPath(""))
			case 2:
				a = append(a, customPath("/custom.model"))
			case 3:
				a = append(a, &production.ItemAttr{UUID: "i"})
			case 4:
				a = append(a, &production.ItemAttr{Path: "/item.model"})
			case 5:
				a = append(a, &production.ComponentAttr{UUID: "c"})
			case 6:
				a = append(a, &production.ComponentAttr{Path: "/component.model"})
			case 7:
				a = append(a, &production.ObjectAttr{UUID: "o"}, &production.BuildAttr{UUID: "b"})
			}
		}
		return
	}
	a := groups()
	path := ""
	var item *production.ItemAttr
	var comp *production.ComponentAttr
	var obj *production.ObjectAttr
	var build *production.BuildAttr
	for i := len(a) - 1; i >= 0; i-- {
		if p, ok := a[i].(interface{ ObjectPath() string }); ok && p.ObjectPath() != "" {
			path = p.ObjectPath()
		}
		switch g := a[i].(type) {
		case *production.ItemAttr:
			item = g
		case *production.ComponentAttr:
			comp = g
		case *production.ObjectAttr:
			obj = g
		case *production.BuildAttr:
			build = g
		}
	}
	t.Case(dump(a))
	if got := (&go3mf.Item{AnyAttr: a}).ObjectPath(); got != path {
		t.Failf("object-path", "item with %s: %q, want %q", dump(a), got, path)
	}
	c := &go3mf.Component{AnyAttr: a}
	for _, def := range []string{"", "/parent.model"} {
		want := path
		if want == "" {
			want = def
		}
		if got := c.ObjectPath(def); got != want {
			t.Failf("object-path", "component with %s: %q, want %q", dump(a), got, want)
		}
	}
	if production.GetItemAttr(&go3mf.Item{AnyAttr: a}) != item || production.GetComponentAttr(c) != comp ||
		production.GetObjectAttr(&go3mf.Object{AnyAttr: a}) != obj || production.GetBuildAttr(&go3mf.Build{AnyAttr: a}) != build {
		t.Failf("accessor", "an accessor does not return the first group of its kind of %s", dump(a))
	}
	t.State(path)
}

func codecProperty(id, what string, gen func(*mc.T) *go3mf.Model, norm func(*go3mf.Model, int), precs bool, more ...mc.Scenario) {
	prec := func(t *mc.T) int {
		if precs {
			return precision(t)
		}
		return mc.Pick(t, 4, 6, -1)
	}
	register(&mc.Property{
		ID:          id,
		Method:      "bounded exhaustive exploration of the real encoder and decoder against reference documents and a normal form",
		Rule:        what,
		Assumptions: []string{"models are a base using every element of the extension plus at most K deviations (values, presence, counts, order)"},
		Scenarios: append([]mc.Scenario{
			{Name: "roundtrip", Bound: "models with <=K deviations; both package routes and MarshalModel", K: 2, KT: 3, Run: func(t *mc.T) {
				route := t.Free(3)
				p := 4
				if route < 2 {
					p = prec(t)
				}
				roundtrip(t, gen(t), p, route, norm)
			}},
			{Name: "encode", Bound: "models with <=K deviations against the reference document", K: 2, KT: 3, Run: func(t *mc.T) {
				p := prec(t)
				checkEncoded(t, gen(t), p)
			}},
			{Name: "decode", Bound: "lexical style x form x models with <=K deviations in total", K: 2, KT: 3, Run: func(t *mc.T) {
				checkDecode(t, gen(t), norm)
			}},
			{Name: "decode all styles", Bound: "every lexical style x form, models with <=K deviations", K: 1, KT: 2, Run: func(t *mc.T) {
				checkDecodeAll(t, gen(t), norm)
			}},
		}, append(append(more, childScenario(0, gen, norm), childScenario(1, gen, norm), childScenario(2, gen, norm)), shapeScenarios(map[string]string{"C04": "materials", "C05": "slices", "C06": "beamlattice", "C07": "production"}[id], 0, 1, 2, 3)...)...),
	})
}

func init() {
	codecProperty("C04", "every materials resource is encoded and decoded exactly", genMaterials, normMaterials, true, valueScenariosOf(normMaterials, materialValues)...)
	codecProperty("C05", "every slice stack is encoded and decoded exactly", genSlices, normSlices, true, valueScenariosOf(normSlices, sliceValues)...)
	codecProperty("C06", "every beam lattice is encoded and decoded exactly", genBeams, normBeams, false, valueScenariosOf(normBeams, latticeValues)...)
	codecProperty("C07", "every production attribute is encoded and decoded exactly", genProduction, normalize, false, append(valueScenariosOf(normalize, productionValues),
		mc.Scenario{Name: "accessors", Bound: "every list of up to three of eleven attribute groups", Run: accessors},
		mc.Scenario{Name: "paths", Bound: "production models with <=K deviations", K: 2, KT: 3, Run: func(t *mc.T) { checkPaths(t, genProduction(t)) }})...)
}
