package props

import (
	"encoding/xml"
	"image/color"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

// Every list a validator goes through, with every sequence of valid and faulty
// elements: what is reported for an element depends on what the rule says and
// not on what has been seen or reported before it.

func seq[T any](t *mc.T, max int, alts ...func() T) (out []T) {
	if t.Long != 0 {
		if t.Long--; t.Long == 0 {
			t.Long = -1
			return longSeq(t, alts)
		}
		if max > 1 {
			max = 1
		}
	}
	for n := t.Free(max + 1); len(out) < n; {
		out = append(out, alts[t.Free(len(alts))]())
	}
	return
}

// longSeq is a long list of the same, but for one element at either end, next to it or within.
func longSeq[T any](t *mc.T, alts []func() T) (out []T) {
	sizes := []int{9, 64, 257}
	if t.Tier == "thorough" {
		sizes = append(sizes, 513, 1001, 1025, 2049)
	}
	n := sizes[t.Free(len(sizes))]
	a, b, at := t.Free(len(alts)), t.Free(len(alts)), []int{0, 1, n / 2, n - 2, n - 1}
	if a == b {
		at = at[:1]
	}
	for k := at[t.Free(len(at))]; len(out) < n; {
		if len(out) == k {
			out = append(out, alts[b]())
		} else {
			out = append(out, alts[a]())
		}
	}
	return
}

// long is a scenario whose first or second list is long.
func long(run func(t *mc.T)) func(t *mc.T) {
	return func(t *mc.T) {
		t.Long = 1 + t.Free(2)
		run(t)
		if t.Long > 0 {
			t.Skip() // there is no second one
		}
	}
}

func each1[T any](vs ...T) (out []func() T) {
	for _, v := range vs {
		v := v
		out = append(out, func() T { return v })
	}
	return
}

func deeper(t *mc.T, n int) int {
	if t.Tier == "thorough" {
		return n + 1
	}
	return n
}

// either puts the resources into the root part or into another one.
func either(t *mc.T, rs go3mf.Resources) *go3mf.Model {
	m := &go3mf.Model{}
	if t.Free(2) == 0 {
		m.Resources = rs
	} else {
		m.Childs = map[string]*go3mf.ChildModel{childPath: {Resources: rs}}
	}
	return m
}

var grey = color.RGBA{1, 2, 3, 255}

func twoBases(id uint32) *go3mf.BaseMaterials {
	return &go3mf.BaseMaterials{ID: id, Materials: []go3mf.Base{{Name: "a", Color: grey}, {Name: "b", Color: grey}}}
}

func compAt(id uint32, path string) *go3mf.Component {
	c := &go3mf.Component{ObjectID: id}
	if path != "" {
		c.AnyAttr = spec.AnyAttr{&production.ComponentAttr{Path: path}}
	}
	return c
}

func itemAt(id uint32, path string) *go3mf.Item {
	c := &go3mf.Item{ObjectID: id}
	if path != "" {
		c.AnyAttr = spec.AnyAttr{&production.ItemAttr{Path: path}}
	}
	return c
}

func coreLists(t *mc.T) {
	var m *go3mf.Model
	switch t.Free(9) {
	case 0: // assets
		alts := each1[func() go3mf.Asset]()
		for _, id := range []uint32{0, 1, 2, 3} {
			id := id
			alts = append(alts, func() func() go3mf.Asset { return func() go3mf.Asset { return twoBases(id) } })
		}
		alts = append(alts, func() func() go3mf.Asset { return func() go3mf.Asset { return &go3mf.BaseMaterials{ID: 1} } })
		var rs go3mf.Resources
		for _, f := range seq(t, deeper(t, 5), alts...) {
			rs.Assets = append(rs.Assets, f())
		}
		rs.Objects = []*go3mf.Object{tetra(mc.Each(t, uint32(2), 9))}
		m = either(t, rs)
	case 1: // bases
		b := &go3mf.BaseMaterials{ID: 1, Materials: seq(t, deeper(t, 5), each1(go3mf.Base{Name: "a", Color: grey}, go3mf.Base{Name: "a"}, go3mf.Base{Color: grey}, go3mf.Base{})...)}
		m = either(t, go3mf.Resources{Assets: []go3mf.Asset{b}})
	case 2: // objects
		var alts []func() *go3mf.Object
		for _, id := range []uint32{0, 1, 2} {
			id := id
			alts = append(alts,
				func() *go3mf.Object { return tetra(id) },
				func() *go3mf.Object { return &go3mf.Object{ID: id} },
				func() *go3mf.Object {
					return &go3mf.Object{ID: id, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 1}}}}
				},
				func() *go3mf.Object { o := tetra(id); o.PID, o.PIndex = 9, 2; return o })
		}
		m = either(t, go3mf.Resources{Assets: []go3mf.Asset{twoBases(9)}, Objects: seq(t, deeper(t, 4), alts...)})
	case 3: // components
		o := &go3mf.Object{ID: 2, Components: &go3mf.Components{}}
		alts := []func() *go3mf.Component{}
		for _, x := range []struct {
			id   uint32
			path string
		}{{1, ""}, {0, ""}, {2, ""}, {9, ""}, {1, childPath}, {2, childPath}, {1, "/none"}} {
			x := x
			alts = append(alts, func() *go3mf.Component { return compAt(x.id, x.path) })
		}
		o.Components.Component = seq(t, deeper(t, 5), alts...)
		m = either(t, go3mf.Resources{Objects: []*go3mf.Object{tetra(1), o}})
	case 4: // items
		alts := []func() *go3mf.Item{}
		for _, x := range []struct {
			id   uint32
			path string
		}{{1, ""}, {0, ""}, {2, ""}, {9, ""}, {1, childPath}, {2, childPath}, {1, "/none"}} {
			x := x
			alts = append(alts, func() *go3mf.Item { return itemAt(x.id, x.path) })
		}
		alts = append(alts, func() *go3mf.Item {
			return &go3mf.Item{ObjectID: 1, Metadata: go3mf.MetadataGroup{Metadata: []go3mf.Metadata{{Name: xml.Name{Local: "x"}}}}}
		})
		other := tetra(2)
		other.Type = go3mf.ObjectTypeOther
		m = either(t, go3mf.Resources{Objects: []*go3mf.Object{tetra(1), other}})
		m.Build.Items = seq(t, deeper(t, 4), alts...)
	case 5: // triangles
		o := tetra(1)
		o.Type = mc.Each(t, go3mf.ObjectTypeOther, go3mf.ObjectTypeModel)
		o.PID = mc.Each(t, uint32(0), 9)
		o.Mesh.Triangles.Triangle = seq(t, 4, each1(go3mf.Triangle{V1: 0, V2: 1, V3: 2}, go3mf.Triangle{V1: 1, V2: 1, V3: 2}, go3mf.Triangle{V1: 1, V2: 2, V3: 1}, go3mf.Triangle{V1: 1, V2: 2, V3: 4},
			go3mf.Triangle{V1: 4, V2: 4, V3: 4}, go3mf.Triangle{V1: 0, V2: 1, V3: 2, PID: 9, P1: 0, P2: 1, P3: 1}, go3mf.Triangle{V1: 0, V2: 1, V3: 2, PID: 9, P1: 2, P2: 1, P3: 1},
			go3mf.Triangle{V1: 0, V2: 1, V3: 2, PID: 8, P1: 0, P2: 1, P3: 1}, go3mf.Triangle{V1: 0, V2: 1, V3: 2, PID: 9, P1: 0, P2: 0, P3: 2}, go3mf.Triangle{V1: 0, V2: 1, V3: 2, PID: 7, P1: 0, P2: 1, P3: 0},
			go3mf.Triangle{V1: 0, V2: 1, V3: 2, PID: 6, P1: 0, P2: 2, P3: 5})...)
		m = either(t, go3mf.Resources{Assets: []go3mf.Asset{twoBases(9), &materials.ColorGroup{ID: 7, Colors: []color.RGBA{grey}}, &materials.Texture2D{ID: 6, Path: "/t.png", ContentType: materials.TextureTypePNG}}, Objects: []*go3mf.Object{o}})
	case 6: // extensions
		m = either(t, go3mf.Resources{Objects: []*go3mf.Object{tetra(1)}})
		m.Extensions = seq(t, deeper(t, 4), each1(ext(extQ, true), ext(extQ, false), ext(extR, true), ext(materials.DefaultExtension, true), ext(slices.DefaultExtension, false))...)
	case 7: // metadata
		m = either(t, go3mf.Resources{})
		n := func(s, l string) go3mf.Metadata {
			return go3mf.Metadata{Name: xml.Name{Space: s, Local: l}, Value: "v"}
		}
		m.Metadata = seq(t, deeper(t, 5), each1(n("", "Title"), n("", "Designer"), n("", ""), n("", "x"), n(nsR, "Title"))...)
	case 8: // relationships
		m = either(t, go3mf.Resources{})
		m.Attachments = []go3mf.Attachment{{Path: "/a.png", ContentType: "image/png"}, {Path: "/b.xml", ContentType: go3mf.ContentTypePrintTicket}}
		rels := seq(t, deeper(t, 4), each1(go3mf.Relationship{Path: "/a.png", Type: go3mf.RelTypeThumbnail}, go3mf.Relationship{Path: "/b.xml", Type: go3mf.RelTypePrintTicket}, go3mf.Relationship{Path: "/none", Type: "other"},
			go3mf.Relationship{Path: "/a.png", Type: "other"}, go3mf.Relationship{Path: "", Type: "other"}, go3mf.Relationship{Path: "/b.xml", Type: go3mf.RelTypeThumbnail})...)
		switch t.Free(3) {
		case 0:
			m.Relationships = rels
		case 1:
			m.RootRelationships = rels
		case 2:
			if len(m.Childs) == 0 {
				t.Skip()
			}
			m.Childs[childPath].Relationships = rels
		}
	}
	t.Case(dump(m))
	checkValid(t, m, notIndirect(m))
}

func materialLists(t *mc.T) {
	assets := []go3mf.Asset{twoBases(1), &materials.ColorGroup{ID: 2, Colors: []color.RGBA{grey, grey}}, &materials.Texture2D{ID: 3, Path: "/t.png", ContentType: materials.TextureTypePNG},
		&materials.Texture2DGroup{ID: 5, TextureID: 3, Coords: make([]materials.TextureCoord, 3)}}
	switch t.Free(6) {
	case 0: // groups and indices of several multis
		mp := &materials.MultiProperties{ID: 9, PIDs: seq(t, deeper(t, 3), each1[uint32](1, 2, 5, 99)...)}
		sets := [][]uint32{nil, {0}, {9}, {0, 0}, {0, 9}, {9, 9}, {0, 0, 9}, {2, 2, 0, 0}}
		for _, s := range seq(t, 3, each1(sets...)...) {
			mp.Multis = append(mp.Multis, materials.Multi{PIndices: append([]uint32(nil), s...)})
		}
		assets = append(assets, mp)
	case 1: // many groups
		mp := &materials.MultiProperties{ID: 9, PIDs: seq(t, deeper(t, 5), each1[uint32](1, 2, 5, 6, 8, 99)...)}
		mp.Multis = []materials.Multi{{PIndices: make([]uint32, len(mp.PIDs))}}
		mp.BlendMethods = make([]materials.BlendMethod, t.Free(3))
		assets = append(assets, &materials.CompositeMaterials{ID: 6, MaterialID: 1, Indices: []uint32{0, 1}, Composites: make([]materials.Composite, 2)},
			&materials.MultiProperties{ID: 8, PIDs: []uint32{5}, Multis: make([]materials.Multi, 1)}, mp)
	case 2: // colours
		assets = append(assets, &materials.ColorGroup{ID: 9, Colors: seq(t, 6, each1(grey, color.RGBA{}, color.RGBA{R: 1})...)})
	case 3: // composites
		assets = append(assets, &materials.CompositeMaterials{ID: 9, MaterialID: mc.Each(t, uint32(1), 2, 99), Indices: seq(t, deeper(t, 4), each1[uint32](0, 1, 2, 1<<32-1)...),
			Composites: seq(t, 2, each1(materials.Composite{}, materials.Composite{Values: []float32{1}}, materials.Composite{Values: []float32{0.5, 0.5, 0}})...)})
	case 4: // textures
		tx := func(path string, ct materials.Texture2DType) func() go3mf.Asset {
			return func() go3mf.Asset { return &materials.Texture2D{ID: 0, Path: path, ContentType: ct} }
		}
		as := seq(t, deeper(t, 3), tx("/t.png", 1), tx("/t.png", 0), tx("", 1), tx("", 0), tx("/u.jpg", 2), tx("/none.png", 1), tx("t.png", 1))
		for i, a := range as {
			a.(*materials.Texture2D).ID = uint32(20 + i)
			assets = append(assets, a)
		}
		assets = append(assets, &materials.Texture2DGroup{ID: 30, TextureID: mc.Each(t, uint32(3), 20, 22, 30), Coords: make([]materials.TextureCoord, 1)})
	case 5: // groups of every kind in every order
		assets = nil
		id := uint32(0)
		next := func() uint32 { id++; return id }
		for _, f := range seq(t, deeper(t, 4),
			func() go3mf.Asset { return twoBases(next()) },
			func() go3mf.Asset { return &materials.ColorGroup{ID: next(), Colors: []color.RGBA{grey}} },
			func() go3mf.Asset {
				return &materials.Texture2D{ID: next(), Path: "/t.png", ContentType: materials.TextureTypePNG}
			},
			func() go3mf.Asset {
				return &materials.Texture2DGroup{ID: next(), TextureID: 1, Coords: make([]materials.TextureCoord, 1)}
			},
			func() go3mf.Asset {
				return &materials.CompositeMaterials{ID: next(), MaterialID: 2, Indices: []uint32{0}, Composites: make([]materials.Composite, 1)}
			},
			func() go3mf.Asset {
				return &materials.MultiProperties{ID: next(), PIDs: []uint32{1, 3}, Multis: []materials.Multi{{PIndices: []uint32{0, 1}}}}
			},
			func() go3mf.Asset { return &materials.ColorGroup{ID: 2} },
			func() go3mf.Asset {
				return &go3mf.UnknownAsset{}
			}) {
			assets = append(assets, f)
		}
	}
	m := either(t, go3mf.Resources{Assets: assets})
	withExt(m, materials.DefaultExtension)
	m.Attachments = []go3mf.Attachment{{Path: "/t.png"}, {Path: "/u.jpg"}}
	t.Case(dump(m))
	checkValid(t, m, notIndirect(m))
}

func squareOf(segs ...uint32) slices.Polygon {
	p := slices.Polygon{}
	for _, v := range segs {
		p.Segments = append(p.Segments, slices.Segment{V2: v})
	}
	return p
}

func sliceLists(t *mc.T) {
	st := &slices.SliceStack{ID: 1, BottomZ: mc.Each(t, float32(0), 1)}
	o := tetra(10)
	o.AnyAttr = spec.AnyAttr{&slices.ObjectAttr{SliceStackID: 1}}
	objs := []*go3mf.Object{o}
	other := []go3mf.Asset{&slices.SliceStack{ID: 1, Slices: []slices.Slice{{TopZ: 1}, {TopZ: 3}}}, &slices.SliceStack{ID: 2, Slices: []slices.Slice{{TopZ: 2}}}, &slices.SliceStack{ID: 3, Refs: []slices.SliceRef{{SliceStackID: 2, Path: childPath}}}, twoBases(4),
		&slices.SliceStack{ID: 5}, &slices.SliceStack{ID: 6, Slices: []slices.Slice{{TopZ: 4, Vertices: slices.Vertices{Vertex: make([]go3mf.Point2D, 3)}, Polygons: []slices.Polygon{squareOf(1, 2)}}}}}
	assets := []go3mf.Asset{st, twoBases(7)}
	switch t.Free(5) {
	case 0: // slices
		for _, z := range seq(t, deeper(t, 5), each1[float32](0, 1, 2, 3, -1)...) {
			st.Slices = append(st.Slices, slices.Slice{TopZ: z})
		}
	case 1: // polygons of two slices
		o.Type = mc.Each(t, go3mf.ObjectTypeModel, go3mf.ObjectTypeSolidSupport, go3mf.ObjectTypeSupport)
		far, start, bad := squareOf(1, 3, 0), squareOf(1, 2, 3), squareOf(3, 9)
		start.StartV, bad.StartV = 3, 9
		for i, n := 0, 1+t.Free(2); i < n; i++ {
			st.Slices = append(st.Slices, slices.Slice{TopZ: float32(i + 1), Vertices: slices.Vertices{Vertex: make([]go3mf.Point2D, mc.Each(t, 3, 1))},
				Polygons: seq(t, 3-i, each1(squareOf(1, 2, 0), squareOf(1, 2), squareOf(), far, start, bad)...)})
		}
	case 2: // segments
		p := slices.Polygon{StartV: mc.Each(t, uint32(0), 1, 9)}
		for _, v := range seq(t, deeper(t, 5), each1[uint32](0, 1, 2, 3)...) {
			p.Segments = append(p.Segments, slices.Segment{V2: v})
		}
		st.Slices = []slices.Slice{{TopZ: 2, Vertices: slices.Vertices{Vertex: make([]go3mf.Point2D, 3)}, Polygons: []slices.Polygon{p}}}
	case 3: // references
		o.Type = mc.Each(t, go3mf.ObjectTypeModel, go3mf.ObjectTypeSupport)
		r := func(id uint32, path string) slices.SliceRef { return slices.SliceRef{SliceStackID: id, Path: path} }
		st.Refs = seq(t, deeper(t, 4), each1(r(1, childPath), r(2, childPath), r(3, childPath), r(4, childPath), r(5, childPath), r(6, childPath), r(0, childPath), r(9, childPath), r(1, ""), r(0, ""), r(1, go3mf.DefaultModelPath), r(1, "/none"))...)
	case 4: // objects
		st.Slices = []slices.Slice{{TopZ: 3, Vertices: slices.Vertices{Vertex: make([]go3mf.Point2D, 3)}, Polygons: []slices.Polygon{squareOf(1, 2)}}}
		assets = append(assets, &slices.SliceStack{ID: 2, Slices: []slices.Slice{{TopZ: 3}}})
		id := uint32(10)
		obj := func(stack uint32, typ go3mf.ObjectType, res slices.MeshResolution) func() *go3mf.Object {
			return func() *go3mf.Object {
				o := tetra(id)
				id++
				o.Type = typ
				o.AnyAttr = spec.AnyAttr{&slices.ObjectAttr{SliceStackID: stack, MeshResolution: res}}
				return o
			}
		}
		objs = seq(t, deeper(t, 4), obj(1, 0, 0), obj(2, 0, 0), obj(1, go3mf.ObjectTypeOther, 0), obj(0, 0, 1), obj(7, 0, 1), obj(99, 0, 0), func() *go3mf.Object { id++; return tetra(id - 1) })
	}
	m := &go3mf.Model{Resources: go3mf.Resources{Assets: assets, Objects: objs}, Childs: map[string]*go3mf.ChildModel{childPath: {Resources: go3mf.Resources{Assets: other}}}}
	withExt(m, slices.DefaultExtension)
	t.Case(dump(m))
	checkValid(t, m, notIndirect(m))
}

func latticeLists(t *mc.T) {
	o := tetra(4)
	o.Mesh.Triangles = go3mf.Triangles{}
	bl := &beamlattice.BeamLattice{MinLength: 1, Radius: 2, ClipMode: beamlattice.ClipInside, ClippingMeshID: 1}
	bl.Beams.Beam = []beamlattice.Beam{{Indices: [2]uint32{0, 1}, Radius: [2]float32{2, 2}}, {Indices: [2]uint32{1, 2}, Radius: [2]float32{2, 2}}}
	o.Mesh.Any = spec.Any{bl}
	objs := []*go3mf.Object{tetra(1), o}
	switch t.Free(3) {
	case 0: // beams
		b := func(v1, v2 uint32, r1, r2 float32) beamlattice.Beam {
			return beamlattice.Beam{Indices: [2]uint32{v1, v2}, Radius: [2]float32{r1, r2}}
		}
		bl.Beams.Beam = seq(t, deeper(t, 4), each1(b(0, 1, 2, 2), b(1, 0, 2, 3), b(1, 1, 2, 2), b(4, 1, 2, 2), b(0, 9, 2, 2), b(9, 9, 2, 2), b(2, 3, 0, 0), b(2, 3, 2, 0), b(3, 2, 0, 1))...)
	case 1: // beam sets
		sets := [][]uint32{nil, {0}, {2}, {1, 0}, {2, 0}, {0, 3, 1, 2}}
		for _, s := range seq(t, deeper(t, 4), each1(sets...)...) {
			bl.BeamSets.BeamSet = append(bl.BeamSets.BeamSet, beamlattice.BeamSet{Refs: append([]uint32(nil), s...)})
		}
	case 2: // objects
		id := uint32(0)
		lattice := func(clip, rep uint32) func() *go3mf.Object {
			return func() *go3mf.Object {
				id++
				o := tetra(id)
				o.Mesh.Triangles = go3mf.Triangles{}
				o.Mesh.Any = spec.Any{&beamlattice.BeamLattice{MinLength: 1, Radius: 2, ClipMode: beamlattice.ClipInside, ClippingMeshID: clip, RepresentationMeshID: rep, Beams: bl.Beams}}
				return o
			}
		}
		objs = seq(t, deeper(t, 4), func() *go3mf.Object { id++; return tetra(id) }, lattice(1, 2), lattice(2, 1), lattice(3, 9), lattice(9, 0), lattice(1, 3),
			func() *go3mf.Object {
				id++
				return &go3mf.Object{ID: id, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 1}}}}
			})
		for _, o := range objs {
			if o.Components != nil && o.ID == 1 {
				t.Skip() // of itself
			}
		}
	}
	m := either(t, go3mf.Resources{Objects: objs})
	withExt(m, beamlattice.DefaultExtension)
	t.Case(dump(m))
	skip := notIndirect(m)
	checkValid(t, m, func(k string) bool { return notClip(k) || skip(k) })
}

func productionLists(t *mc.T) {
	ids := []string{uuidN(1), "", "bad", uuidN(2), uuidN(1) + "0"}
	m := either(t, go3mf.Resources{Objects: []*go3mf.Object{tetra(1)}})
	rs := &m.Resources
	if c, ok := m.Childs[childPath]; ok {
		rs = &c.Resources
	}
	rs.Objects[0].AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: uuidN(7)}}
	m.Build.AnyAttr = spec.AnyAttr{&production.BuildAttr{UUID: uuidN(8)}}
	switch t.Free(3) {
	case 0: // items
		alts := []func() *go3mf.Item{func() *go3mf.Item { return &go3mf.Item{ObjectID: 1} }}
		for _, id := range ids {
			id := id
			alts = append(alts, func() *go3mf.Item {
				return &go3mf.Item{ObjectID: 1, AnyAttr: spec.AnyAttr{&production.ItemAttr{UUID: id}}}
			})
		}
		alts = append(alts, func() *go3mf.Item {
			return &go3mf.Item{ObjectID: 1, AnyAttr: spec.AnyAttr{&production.ItemAttr{UUID: uuidN(3), Path: childPath}}}
		})
		m.Build.Items = seq(t, deeper(t, 4), alts...)
	case 1: // objects
		k := uint32(10)
		alts := []func() *go3mf.Object{func() *go3mf.Object { k++; return tetra(k) }}
		for _, id := range ids {
			id := id
			alts = append(alts, func() *go3mf.Object {
				k++
				o := tetra(k)
				o.AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: id}}
				return o
			})
		}
		rs.Objects = seq(t, deeper(t, 4), alts...)
	case 2: // components
		alts := []func() *go3mf.Component{func() *go3mf.Component { return &go3mf.Component{ObjectID: 1} }}
		for _, id := range ids {
			id := id
			alts = append(alts, func() *go3mf.Component {
				return &go3mf.Component{ObjectID: 1, AnyAttr: spec.AnyAttr{&production.ComponentAttr{UUID: id}}}
			})
		}
		for _, p := range []string{childPath, go3mf.DefaultModelPath} {
			p := p
			alts = append(alts, func() *go3mf.Component {
				return &go3mf.Component{ObjectID: 1, AnyAttr: spec.AnyAttr{&production.ComponentAttr{UUID: uuidN(3), Path: p}}}
			})
		}
		rs.Objects = append(rs.Objects, &go3mf.Object{ID: 2, AnyAttr: spec.AnyAttr{&production.ObjectAttr{UUID: uuidN(9)}}, Components: &go3mf.Components{Component: seq(t, deeper(t, 4), alts...)}})
	}
	withExt(m, production.DefaultExtension)
	t.Case(dump(m))
	checkValid(t, m, notIndirect(m))
}
