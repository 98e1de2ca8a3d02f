package props

import (
	"fmt"
	"image/color"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

// Exhaustive exploration of the values of the extensions (C04-C07): every
// combination within a resource, and long or repeated lists, whose elements
// must not affect each other.

func valueScenariosOf(norm func(*go3mf.Model, int), vs []valueScenario) (out []mc.Scenario) {
	for _, v := range vs {
		out = append(out, mc.Scenario{Name: v.name, Bound: v.bound + "; round trip, document and decoding", Run: func(t *mc.T) {
			how := t.Free(4)
			if v.document && how < 2 {
				t.Skip()
			}
			m, prec := v.gen(t)
			switch {
			case how == 0:
				roundtrip(t, m, prec, 0, norm)
			case how == 1:
				checkEncoded(t, m, prec)
			case prec != 4:
				t.Skip()
			case how == 2:
				checkDecodeAs(t, m, norm, styleN(0), form{prec: 4})
			default:
				roundtrip(t, m, 4, 2, norm)
			}
		}})
	}
	return
}

// extModel has a mesh object, and resources of an extension.
func extModel(e go3mf.Extension, assets ...go3mf.Asset) *go3mf.Model {
	return &go3mf.Model{
		Extensions: []go3mf.Extension{e},
		Resources:  go3mf.Resources{Assets: assets, Objects: []*go3mf.Object{tetra(10)}},
		Build:      go3mf.Build{Items: []*go3mf.Item{{ObjectID: 10}}},
	}
}

// extFloats has a bounded set of numbers, and a precision.
func extFloats(t *mc.T) ([]float32, int) {
	prec := []int{4, -1, 0, 2, 6, 12}[t.Free(6)]
	if t.Free(2) == 0 {
		return floatsOf(uint32(t.Free(85) * 3)), prec
	}
	k := []int{1, 5, 15, 25, 95, 99, 105, 12345, 99995, 123456785}[t.Free(10)]
	return decimals(k, t.Free(8)), prec
}

func anyText(t *mc.T) (s string) {
	for i, n := 0, 1+t.Free(2); i < n; i++ {
		s += textPieces[t.Free(len(textPieces))]
	}
	return
}

var listSizes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 257, 1001, 2100}

// indices has every list of up to n indices out of k, or a long one.
func indices(t *mc.T, n, k int) (out []uint32) {
	l := t.Free(n + 1)
	for i := 0; i < l; i++ {
		out = append(out, uint32(t.Free(k)))
	}
	return
}

func seqN(n, from int) (out []uint32) {
	for i := 0; i < n; i++ {
		out = append(out, uint32(from+i))
	}
	return
}

// ---- materials ----

func genTextureValues(t *mc.T) (*go3mf.Model, int) {
	tex := func(id uint32) *materials.Texture2D {
		return &materials.Texture2D{ID: id, Path: "/3D/t.png",
			ContentType: materials.Texture2DType(1 + t.Free(2)), TileStyleU: materials.TileStyle(t.Free(4)),
			TileStyleV: materials.TileStyle(t.Free(4)), Filter: materials.TextureFilter(t.Free(3))}
	}
	if t.Free(2) == 0 { // one after another
		return extModel(materials.DefaultExtension, tex(1), tex(2)), 4
	}
	a := &materials.Texture2D{ID: 1, Path: "/t.png", ContentType: materials.TextureTypeJPEG, TileStyleV: materials.TileClamp}
	a.ID = integers[t.Free(len(integers))]
	if t.Free(2) == 0 {
		return extModel(materials.DefaultExtension, a), 4
	}
	return extModel(materials.DefaultExtension, a, &materials.Texture2D{ID: 7, ContentType: materials.TextureTypePNG}, &materials.Texture2DGroup{ID: 8, TextureID: a.ID}), 4
}

func genTexturePaths(t *mc.T) (*go3mf.Model, int) {
	a := &materials.Texture2D{ID: 1, Path: anyText(t), ContentType: materials.TextureTypeJPEG, TileStyleV: materials.TileClamp}
	return extModel(materials.DefaultExtension, a, &materials.Texture2D{ID: 7, Path: "x", ContentType: materials.TextureTypePNG}), 4
}

func genMaterialNumbers(t *mc.T) (*go3mf.Model, int) {
	fs, prec := extFloats(t)
	g := &materials.Texture2DGroup{ID: 2, TextureID: 1}
	c := &materials.CompositeMaterials{ID: 3, MaterialID: 4, Indices: []uint32{0}}
	for i, f := range fs {
		g.Coords = append(g.Coords, materials.TextureCoord{f, fs[len(fs)-1-i]})
		c.Composites = append(c.Composites, materials.Composite{Values: fs[i:]})
	}
	return extModel(materials.DefaultExtension, g, c), prec
}

var blends = []materials.BlendMethod{materials.BlendMultiply, materials.BlendMix}

// genValueLists has resources whose elements are lists, of every pair or
// triple of lengths.
func genValueLists(t *mc.T) (*go3mf.Model, int) {
	a, b, c := t.Free(9), t.Free(9), t.Free(4)
	lens := []int{a, b}
	for i := 0; i < c; i++ {
		lens = append(lens, []int{0, 5, 1}[i])
	}
	if t.Free(2) == 0 {
		g := &materials.CompositeMaterials{ID: 3, MaterialID: 4, Indices: seqN(a, b)}
		g2 := &materials.CompositeMaterials{ID: 4, MaterialID: 4, Indices: seqN(b, 100)}
		for i, n := range lens {
			var v, w []float32
			for j := 0; j < n; j++ {
				v = append(v, float32(i)+float32(j)/8)
				w = append(w, float32(10*j+i))
			}
			g.Composites = append(g.Composites, materials.Composite{Values: v})
			g2.Composites = append(g2.Composites, materials.Composite{Values: w})
		}
		return extModel(materials.DefaultExtension, g, g2), 4
	}
	g := &materials.MultiProperties{ID: 3, PIDs: seqN(a, b)}
	g2 := &materials.MultiProperties{ID: 4, PIDs: seqN(b, 100)}
	for i, n := range lens {
		g.Multis = append(g.Multis, materials.Multi{PIndices: seqN(n, 10*i)})
		g2.Multis = append(g2.Multis, materials.Multi{PIndices: seqN(n, 1000*i)})
	}
	for i := 0; i < b; i++ {
		g.BlendMethods = append(g.BlendMethods, blends[i*a%2])
	}
	for i := 0; i < a; i++ {
		g2.BlendMethods = append(g2.BlendMethods, blends[i*b%3%2])
	}
	return extModel(materials.DefaultExtension, g, g2), 4
}

func genIndexLists(t *mc.T) (*go3mf.Model, int) {
	vals := []uint32{0, 1, 10, 65535, 1<<32 - 1}
	list := func(n int) (out []uint32) {
		for _, i := range indices(t, n, len(vals)) {
			out = append(out, vals[i])
		}
		return
	}
	switch t.Free(4) {
	case 0:
		return extModel(materials.DefaultExtension, &materials.CompositeMaterials{ID: 3, MaterialID: 1, Indices: list(4)}), 4
	case 1:
		return extModel(materials.DefaultExtension, &materials.MultiProperties{ID: 3, PIDs: list(4)}), 4
	case 2:
		return extModel(materials.DefaultExtension, &materials.MultiProperties{ID: 3, PIDs: []uint32{1}, Multis: []materials.Multi{{PIndices: list(2)}, {PIndices: list(2)}}}), 4
	}
	g := &materials.MultiProperties{ID: 3, PIDs: []uint32{1, 2}}
	for i, n := 0, t.Free(7); i < n; i++ {
		g.BlendMethods = append(g.BlendMethods, blends[t.Free(2)])
	}
	return extModel(materials.DefaultExtension, g), 4
}

func genColors(t *mc.T) (*go3mf.Model, int) {
	x, at := t.Free(256), t.Free(4)
	g := &materials.ColorGroup{ID: 3}
	for _, base := range []uint8{0, 1, 0x0f, 0x10, 0x7f, 0xa0, 0xff} {
		c := [4]uint8{base, base, base, base}
		c[at] = uint8(x)
		g.Colors = append(g.Colors, color.RGBA{c[0], c[1], c[2], c[3]})
	}
	return extModel(materials.DefaultExtension, g), 4
}

func genMaterialSizes(t *mc.T) (*go3mf.Model, int) {
	n := listSizes[t.Free(len(listSizes))]
	m := extModel(materials.DefaultExtension)
	add := func(a ...go3mf.Asset) { m.Resources.Assets = append(m.Resources.Assets, a...) }
	switch t.Free(8) {
	case 0:
		g, h := &materials.Texture2DGroup{ID: 1, TextureID: 9}, &materials.Texture2DGroup{ID: 2, TextureID: 9}
		for i := 0; i < n; i++ {
			g.Coords = append(g.Coords, materials.TextureCoord{float32(i), -float32(i) / 4})
			h.Coords = append(h.Coords, materials.TextureCoord{float32(n - i), 1})
		}
		add(g, h)
	case 1:
		g, h := &materials.ColorGroup{ID: 1}, &materials.ColorGroup{ID: 2}
		for i := 0; i < n; i++ {
			g.Colors = append(g.Colors, color.RGBA{uint8(i), uint8(i >> 8), 1, uint8(255 - i%2)})
			h.Colors = append(h.Colors, color.RGBA{1, uint8(i), uint8(i >> 8), 255})
		}
		add(g, h)
	case 2:
		g := &materials.CompositeMaterials{ID: 1, MaterialID: 2, Indices: []uint32{3, 4}}
		for i := 0; i < n; i++ {
			g.Composites = append(g.Composites, materials.Composite{Values: []float32{float32(i), 0.5}[:1+i%2]})
		}
		add(g)
	case 3:
		g := &materials.CompositeMaterials{ID: 1, MaterialID: 2, Indices: seqN(n, 5), Composites: make([]materials.Composite, 2)}
		for i := 0; i < n; i++ {
			g.Composites[0].Values = append(g.Composites[0].Values, float32(i))
			g.Composites[1].Values = append(g.Composites[1].Values, float32(n-i))
		}
		add(g)
	case 4:
		g := &materials.MultiProperties{ID: 1, PIDs: seqN(n, 2), Multis: []materials.Multi{{PIndices: seqN(n, 7)}, {PIndices: seqN(n, 9)}}}
		for i := 0; i < n; i++ {
			g.BlendMethods = append(g.BlendMethods, blends[i*i/3%2])
		}
		add(g)
	case 5:
		g := &materials.MultiProperties{ID: 1, PIDs: []uint32{2, 3}}
		for i := 0; i < n; i++ {
			g.Multis = append(g.Multis, materials.Multi{PIndices: []uint32{uint32(i), uint32(n - i), 7}[:1+i%3]})
		}
		add(g)
	case 6:
		for i := 0; i < n; i++ {
			id := uint32(100 + i)
			switch i % 6 {
			case 0:
				add(&materials.ColorGroup{ID: id, Colors: []color.RGBA{{uint8(i), 1, 1, 255}}})
			case 1:
				add(&materials.Texture2D{ID: id, Path: "/3D/" + utoa(id), ContentType: materials.TextureTypeJPEG, TileStyleU: materials.TileStyle(i % 4)})
			case 2:
				add(&materials.Texture2DGroup{ID: id, TextureID: id - 1, Coords: []materials.TextureCoord{{float32(i), 0}}})
			case 3:
				add(&materials.CompositeMaterials{ID: id, MaterialID: id, Indices: []uint32{id}, Composites: []materials.Composite{{Values: []float32{float32(i)}}}})
			case 4:
				add(&materials.MultiProperties{ID: id, PIDs: []uint32{id}, Multis: []materials.Multi{{PIndices: []uint32{id}}}})
			case 5:
				add(&go3mf.BaseMaterials{ID: id, Materials: []go3mf.Base{{Name: utoa(id), Color: color.RGBA{1, 2, 3, 255}}}})
			}
		}
	case 7:
		for i := 0; i < n; i++ {
			add(&materials.ColorGroup{ID: uint32(i + 1), Colors: make([]color.RGBA, i%3)})
		}
	}
	return m, 4
}

var materialValues = []valueScenario{
	{name: "textures", bound: "every pair of textures of all enumerated values; textures of 19 identifiers", gen: genTextureValues},
	{name: "texture paths", bound: "paths of 1-2 out of 25 pieces", gen: genTexturePaths, document: true},
	{name: "numbers", bound: "texture coordinates and composites of 16 numbers of 85 exponents, or next to decimal ties; 6 precisions", gen: genMaterialNumbers},
	{name: "value lists", bound: "composites and multis of up to 5 elements of 0-8 values each", gen: genValueLists},
	{name: "index lists", bound: "every list of up to 4 identifiers out of 5, up to 6 blend methods", gen: genIndexLists},
	{name: "colors", bound: "every value of every channel next to 7 values of the others", gen: genColors},
	{name: "sizes", bound: "20 lengths up to 2100 of 8 lists", gen: genMaterialSizes},
}

// ---- slices ----

func genSliceNumbers(t *mc.T) (*go3mf.Model, int) {
	fs, prec := extFloats(t)
	a := &slices.SliceStack{ID: 1, BottomZ: fs[t.Free(len(fs))]}
	for i, f := range fs {
		a.Slices = append(a.Slices, slices.Slice{TopZ: f, Vertices: slices.Vertices{Vertex: []go3mf.Point2D{{f, fs[len(fs)-1-i]}, {fs[len(fs)-1-i], 1}}}})
	}
	return extModel(slices.DefaultExtension, a), prec
}

func genSegments(t *mc.T) (*go3mf.Model, int) {
	p := slices.Polygon{StartV: uint32(t.Free(3))}
	for i := 0; i < 2; i++ {
		g := slices.Segment{V2: uint32(t.Free(3)), PID: []uint32{0, 1, 9}[t.Free(3)]}
		g.P1, g.P2 = uint32(t.Free(3)), uint32(t.Free(3))
		p.Segments = append(p.Segments, g)
	}
	a := &slices.SliceStack{ID: 1, Slices: []slices.Slice{{TopZ: 1, Polygons: []slices.Polygon{p, {StartV: 1, Segments: []slices.Segment{{V2: 2}}}}}}}
	return extModel(slices.DefaultExtension, a), 4
}

func genSliceIntegers(t *mc.T) (*go3mf.Model, int) {
	x, y := integers[t.Free(len(integers))], integers[t.Free(len(integers))]
	g := slices.Segment{V2: 1}
	p := slices.Polygon{}
	a := &slices.SliceStack{ID: 1}
	b := &slices.SliceStack{ID: 2, Refs: []slices.SliceRef{{SliceStackID: 1, Path: "/a.model"}, {SliceStackID: 3, Path: "/b.model"}}}
	m := extModel(slices.DefaultExtension, a, b)
	switch t.Free(7) {
	case 0:
		a.ID, b.ID = x, y
	case 1:
		b.Refs[0].SliceStackID, b.Refs[1].SliceStackID = x, y
	case 2:
		p.StartV, g.V2 = x, y
	case 3:
		g.PID, g.P1, g.P2 = 1, x, y
	case 4:
		g.PID, g.P1, g.P2 = max(x, 1), y, y
	case 5:
		g.P1, g.P2 = x, y
	case 6:
		m.Resources.Objects[0].AnyAttr = spec.AnyAttr{&slices.ObjectAttr{SliceStackID: x, MeshResolution: slices.MeshResolution(y % 2)}}
		m.Resources.Objects = append(m.Resources.Objects, tetra(11), tetra(12))
		m.Resources.Objects[1].AnyAttr = spec.AnyAttr{&slices.ObjectAttr{SliceStackID: y}}
	}
	p.Segments = []slices.Segment{g, {V2: 7}, g}
	a.Slices = []slices.Slice{{TopZ: 1, Polygons: []slices.Polygon{p}}}
	return m, 4
}

// genSliceShapes has stacks of every small shape.
func genSliceShapes(t *mc.T) (*go3mf.Model, int) {
	a := &slices.SliceStack{ID: 1, BottomZ: 1}
	v := 0
	for i, n := 0, t.Free(3); i < n; i++ {
		s := slices.Slice{TopZ: float32(2 + i)}
		for j, n := 0, t.Free(3)*2; j < n; j++ {
			v++
			s.Vertices.Vertex = append(s.Vertices.Vertex, go3mf.Point2D{float32(v), float32(-v)})
		}
		for j, n := 0, t.Free(4); j < n; j++ {
			p := slices.Polygon{StartV: uint32(v)}
			for k, n := 0, t.Free(3)*2; k < n; k++ {
				v++
				p.Segments = append(p.Segments, slices.Segment{V2: uint32(v), PID: uint32(v % 3), P1: uint32(v % 2)})
				if v%3 == 0 {
					p.Segments[k].P1 = 0
				}
			}
			s.Polygons = append(s.Polygons, p)
		}
		a.Slices = append(a.Slices, s)
	}
	return extModel(slices.DefaultExtension, a), 4
}

func genSlicePaths(t *mc.T) (*go3mf.Model, int) {
	return extModel(slices.DefaultExtension, &slices.SliceStack{ID: 1, Refs: []slices.SliceRef{{SliceStackID: 1, Path: anyText(t)}, {SliceStackID: 2, Path: "/x"}}}), 4
}

func genSliceSizes(t *mc.T) (*go3mf.Model, int) {
	n := listSizes[t.Free(len(listSizes))]
	a, b := &slices.SliceStack{ID: 1}, &slices.SliceStack{ID: 2, BottomZ: 3}
	m := extModel(slices.DefaultExtension, a, b)
	var s slices.Slice
	switch t.Free(7) {
	case 0:
		for i := 0; i < n; i++ {
			s.Vertices.Vertex = append(s.Vertices.Vertex, go3mf.Point2D{float32(i), -float32(i) / 4})
		}
		a.Slices = []slices.Slice{s, {TopZ: 7, Vertices: slices.Vertices{Vertex: []go3mf.Point2D{{1, 2}}}}}
	case 1:
		p := slices.Polygon{StartV: 5}
		for i := 0; i < n; i++ {
			p.Segments = append(p.Segments, slices.Segment{V2: uint32(i), PID: uint32(i % 2), P1: uint32(i % 2 * i), P2: uint32(i % 2 * (i / 3))})
		}
		a.Slices = []slices.Slice{{TopZ: 1, Polygons: []slices.Polygon{p, p}}, {TopZ: 2, Polygons: []slices.Polygon{{Segments: p.Segments}}}}
	case 2:
		for i := 0; i < n; i++ {
			s.Polygons = append(s.Polygons, slices.Polygon{StartV: uint32(i), Segments: []slices.Segment{{V2: uint32(i)}, {V2: 1}}[:i%3]})
		}
		a.Slices = []slices.Slice{s}
		b.Slices = []slices.Slice{s}
	case 3:
		for i := 0; i < n; i++ {
			a.Slices = append(a.Slices, slices.Slice{TopZ: float32(i), Vertices: slices.Vertices{Vertex: []go3mf.Point2D{{float32(i), 1}}}})
			b.Slices = append(b.Slices, slices.Slice{TopZ: float32(n - i), Polygons: []slices.Polygon{{StartV: uint32(i)}}})
		}
	case 4:
		for i := 0; i < n; i++ {
			a.Refs = append(a.Refs, slices.SliceRef{SliceStackID: uint32(i), Path: "/" + utoa(uint32(i*i))})
			b.Refs = append(b.Refs, slices.SliceRef{SliceStackID: uint32(n - i), Path: "/x" + utoa(uint32(i%3))})
		}
	case 5:
		for i := 0; i < n; i++ {
			m.Resources.Assets = append(m.Resources.Assets, &slices.SliceStack{ID: uint32(10 + i), BottomZ: float32(i % 3), Slices: []slices.Slice{{TopZ: float32(i)}, {}}[:i%3]})
		}
	case 6:
		for i := 0; i < n; i++ {
			o := tetra(uint32(20 + i))
			o.AnyAttr = spec.AnyAttr{&slices.ObjectAttr{SliceStackID: uint32(i), MeshResolution: slices.MeshResolution(i / 2 % 2)}}
			if i%5 == 4 {
				o.AnyAttr = nil
			}
			m.Resources.Objects = append(m.Resources.Objects, o)
		}
	}
	return m, 4
}

var sliceValues = []valueScenario{
	{name: "numbers", bound: "bottoms, tops and vertices of 16 numbers of 85 exponents, or next to decimal ties; 6 precisions", gen: genSliceNumbers},
	{name: "segments", bound: "two segments with every vertex, property group and pair of indices out of 3 each", gen: genSegments},
	{name: "integers", bound: "pairs of 19 integers in 7 pairs of fields", gen: genSliceIntegers},
	{name: "shapes", bound: "stacks of up to 2 slices of up to 4 vertices and 3 polygons of up to 4 segments", gen: genSliceShapes},
	{name: "paths", bound: "paths of 1-2 out of 25 pieces", gen: genSlicePaths},
	{name: "sizes", bound: "20 lengths up to 2100 of 7 lists", gen: genSliceSizes},
}

// ---- beam lattices ----

func beamModel(bs ...*beamlattice.BeamLattice) *go3mf.Model {
	m := extModel(beamlattice.DefaultExtension)
	m.Resources.Objects = nil
	for i, b := range bs {
		o := tetra(uint32(10 + i))
		o.Mesh.Any = spec.Any{b}
		m.Resources.Objects = append(m.Resources.Objects, o)
	}
	return m
}

func genBeamValues(t *mc.T) (*go3mf.Model, int) {
	b := &beamlattice.BeamLattice{Radius: 1, MinLength: 1, CapMode: beamlattice.CapMode(t.Free(3))}
	for i := 0; i < 2; i++ {
		b.Beams.Beam = append(b.Beams.Beam, beamlattice.Beam{Indices: [2]uint32{uint32(i), uint32(2 + i)},
			Radius:  [2]float32{[]float32{1, 0.5, 2}[t.Free(3)], []float32{1, 0.5, 2}[t.Free(3)]},
			CapMode: [2]beamlattice.CapMode{beamlattice.CapMode(t.Free(3)), beamlattice.CapMode(t.Free(3))}})
	}
	return beamModel(b), 4
}

func genLattices(t *mc.T) (*go3mf.Model, int) {
	one := func() *beamlattice.BeamLattice {
		b := &beamlattice.BeamLattice{Radius: 1, MinLength: []float32{0, 0.0001, 2}[t.Free(3)],
			ClipMode: beamlattice.ClipMode(t.Free(3)), CapMode: beamlattice.CapMode(t.Free(3)),
			ClippingMeshID: []uint32{0, 5}[t.Free(2)], RepresentationMeshID: []uint32{0, 5}[t.Free(2)]}
		if t.Free(2) == 1 {
			b.Beams.Beam = []beamlattice.Beam{{Indices: [2]uint32{0, 1}, Radius: [2]float32{1, 1}, CapMode: [2]beamlattice.CapMode{b.CapMode, b.CapMode}}}
		}
		if t.Free(2) == 1 {
			b.BeamSets.BeamSet = []beamlattice.BeamSet{{Name: "n", Refs: []uint32{0}}}
		}
		return b
	}
	c := beamlattice.CapMode(t.Free(3))
	other := &beamlattice.BeamLattice{Radius: []float32{1, 3}[t.Free(2)], MinLength: []float32{0, 5}[t.Free(2)], CapMode: c, ClipMode: beamlattice.ClipMode(t.Free(2)),
		Beams: beamlattice.Beams{Beam: []beamlattice.Beam{{Indices: [2]uint32{0, 1}, Radius: [2]float32{1, 1}, CapMode: [2]beamlattice.CapMode{c, c}}}}}
	if t.Free(2) == 0 {
		return beamModel(one(), other), 4
	}
	return beamModel(other, one()), 4
}

func genBeamNumbers(t *mc.T) (*go3mf.Model, int) {
	prec := []int{-1, 4, 2}[t.Free(3)]
	if t.Free(2) == 0 { // exact at every precision
		x, y := float32(integers[t.Free(len(integers))]), float32(1+t.Free(8))
		if t.Free(2) == 0 {
			y /= 4
		}
		b := &beamlattice.BeamLattice{Radius: max(x, 1), MinLength: y}
		for i := 0; i < 4; i++ {
			b.Beams.Beam = append(b.Beams.Beam, beamlattice.Beam{Radius: [2]float32{[]float32{b.Radius, y}[i&1], []float32{b.Radius, y}[i>>1]}})
		}
		return beamModel(b), prec
	}
	fs := floatsOf(uint32(t.Free(255)))
	b := &beamlattice.BeamLattice{Radius: 1, MinLength: fs[t.Free(len(fs))]}
	if prec == -1 {
		for i, f := range fs {
			if f <= 0 {
				continue
			}
			g := fs[(i+2)%len(fs)]
			if g <= 0 {
				g = 1
			}
			b.Radius = f
			b.Beams.Beam = append(b.Beams.Beam, beamlattice.Beam{Radius: [2]float32{f, g}}, beamlattice.Beam{Radius: [2]float32{g, g}})
		}
	}
	return beamModel(b), prec
}

func genBeamIntegers(t *mc.T) (*go3mf.Model, int) {
	x, y := integers[t.Free(len(integers))], integers[t.Free(len(integers))]
	b := &beamlattice.BeamLattice{Radius: 1, MinLength: 1}
	switch t.Free(4) {
	case 0:
		b.ClippingMeshID, b.RepresentationMeshID = x, y
	case 1:
		b.Beams.Beam = []beamlattice.Beam{{Indices: [2]uint32{x, y}, Radius: [2]float32{1, 1}}, {Indices: [2]uint32{y, 1}, Radius: [2]float32{1, 1}}}
	case 2:
		b.BeamSets.BeamSet = []beamlattice.BeamSet{{Refs: []uint32{x, y, x}}, {Refs: []uint32{y}}}
	case 3: // identifiers and names
		b.BeamSets.BeamSet = []beamlattice.BeamSet{{Refs: seqN(int(x%5), 0), Name: utoa(x)}, {Identifier: utoa(y)}, {}}
	}
	return beamModel(b), 4
}

func genSetTexts(t *mc.T) (*go3mf.Model, int) {
	s := anyText(t)
	b := &beamlattice.BeamLattice{Radius: 1, MinLength: 1}
	if t.Free(2) == 0 {
		b.BeamSets.BeamSet = []beamlattice.BeamSet{{Name: s}, {Name: "x", Identifier: "y"}}
	} else {
		b.BeamSets.BeamSet = []beamlattice.BeamSet{{Identifier: s, Refs: []uint32{1}}, {Identifier: "x"}}
	}
	return beamModel(b), 4
}

// genSetLists has three sets of 0-6 references each.
func genSetLists(t *mc.T) (*go3mf.Model, int) {
	b := &beamlattice.BeamLattice{Radius: 1, MinLength: 1}
	for i, n := 0, 1+t.Free(3); i < n; i++ {
		b.BeamSets.BeamSet = append(b.BeamSets.BeamSet, beamlattice.BeamSet{Name: []string{"", "n"}[t.Free(2)], Identifier: []string{"", "id"}[t.Free(2)], Refs: seqN(t.Free(7), 10*i)})
	}
	return beamModel(b), 4
}

func genBeamSizes(t *mc.T) (*go3mf.Model, int) {
	n := listSizes[t.Free(len(listSizes))]
	a := &beamlattice.BeamLattice{Radius: 1, MinLength: 1}
	b := &beamlattice.BeamLattice{Radius: 2, MinLength: 1, CapMode: beamlattice.CapModeButt}
	switch t.Free(4) {
	case 0:
		for i := 0; i < n; i++ {
			a.Beams.Beam = append(a.Beams.Beam, beamlattice.Beam{Indices: [2]uint32{uint32(i), uint32(i * i)}, Radius: [2]float32{float32(1 + i%3), float32(1 + i%2)}, CapMode: [2]beamlattice.CapMode{beamlattice.CapMode(i % 3), beamlattice.CapMode(i % 2)}})
			b.Beams.Beam = append(b.Beams.Beam, beamlattice.Beam{Indices: [2]uint32{uint32(n - i), 1}, Radius: [2]float32{2, 2}, CapMode: [2]beamlattice.CapMode{beamlattice.CapModeButt, beamlattice.CapModeButt}})
		}
	case 1:
		for i := 0; i < n; i++ {
			a.BeamSets.BeamSet = append(a.BeamSets.BeamSet, beamlattice.BeamSet{Name: utoa(uint32(i)), Refs: seqN(i%4, i)})
			b.BeamSets.BeamSet = append(b.BeamSets.BeamSet, beamlattice.BeamSet{Identifier: utoa(uint32(i / 2)), Refs: seqN(1, i)})
		}
	case 2:
		a.BeamSets.BeamSet = []beamlattice.BeamSet{{Refs: seqN(n, 0)}, {Refs: seqN(n, 5)}}
		b.BeamSets.BeamSet = []beamlattice.BeamSet{{Refs: seqN(n, 9)}}
	case 3:
		var all []*beamlattice.BeamLattice
		for i := 0; i < n; i++ {
			x := &beamlattice.BeamLattice{Radius: float32(1 + i%4), MinLength: float32(i % 3), CapMode: beamlattice.CapMode(i % 3), ClipMode: beamlattice.ClipMode(i / 2 % 3), ClippingMeshID: uint32(i)}
			for j := 0; j < i%3; j++ {
				x.Beams.Beam = append(x.Beams.Beam, beamlattice.Beam{Indices: [2]uint32{uint32(i), uint32(j)}, Radius: [2]float32{x.Radius, x.Radius}, CapMode: [2]beamlattice.CapMode{x.CapMode, x.CapMode}})
			}
			all = append(all, x)
		}
		return beamModel(all...), 4
	}
	return beamModel(a, b), 4
}

var latticeValues = []valueScenario{
	{name: "beams", bound: "two beams of every radius and cap out of 3, lattices of 3 caps", gen: genBeamValues},
	{name: "lattices", bound: "every lattice of 2 to 3 values in 7 fields, before and after 24 others", gen: genLattices},
	{name: "numbers", bound: "lengths and radii of 8 numbers of 255 exponents, and exact ones; 3 precisions", gen: genBeamNumbers},
	{name: "integers", bound: "pairs of 19 integers in 4 pairs of fields", gen: genBeamIntegers},
	{name: "strings", bound: "names and identifiers of 1-2 out of 25 pieces", gen: genSetTexts},
	{name: "sets", bound: "up to 3 sets of 0-6 references, with and without name and identifier", gen: genSetLists},
	{name: "sizes", bound: "20 lengths up to 2100 of 4 lists", gen: genBeamSizes},
}

// ---- production ----

// genPresence has every combination of attributes of a build with two items,
// and an object with three components.
func genPresence(t *mc.T) (*go3mf.Model, int) {
	n := 0
	u := func() string {
		n++
		return uuidN(n)
	}
	o := tetra(10)
	c := &go3mf.Object{ID: 12, Components: &go3mf.Components{}}
	m := extModel(production.DefaultExtension)
	m.Resources.Objects = []*go3mf.Object{o, c}
	m.Build.Items = nil
	if t.Free(2) == 1 {
		m.Build.AnyAttr = spec.AnyAttr{&production.BuildAttr{UUID: u()}}
	}
	for _, x := range m.Resources.Objects {
		if t.Free(2) == 1 {
			x.AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: u()}}
		}
	}
	for i := 0; i < 3; i++ {
		x := &go3mf.Component{ObjectID: 10}
		switch t.Free(4) {
		case 1:
			x.AnyAttr = spec.AnyAttr{&production.ComponentAttr{UUID: u()}}
		case 2:
			x.AnyAttr = spec.AnyAttr{&production.ComponentAttr{UUID: u(), Path: "/3D/" + utoa(uint32(i)) + ".model"}}
		case 3:
			x.AnyAttr = spec.AnyAttr{&production.ComponentAttr{UUID: u(), Path: "/3D/a.model"}}
		}
		c.Components.Component = append(c.Components.Component, x)
	}
	for i := 0; i < 2; i++ {
		x := &go3mf.Item{ObjectID: 10}
		switch t.Free(4) {
		case 1:
			x.AnyAttr = spec.AnyAttr{&production.ItemAttr{UUID: u()}}
		case 2:
			x.AnyAttr = spec.AnyAttr{&production.ItemAttr{UUID: u(), Path: "/3D/" + utoa(uint32(i)) + ".model"}}
		case 3:
			x.AnyAttr = spec.AnyAttr{&production.ItemAttr{UUID: u(), Path: "/3D/b.model"}}
		}
		m.Build.Items = append(m.Build.Items, x)
	}
	return m, 4
}

func genProductionPaths(t *mc.T) (*go3mf.Model, int) {
	p := "/" + anyText(t)
	m := extModel(production.DefaultExtension)
	c := &go3mf.Object{ID: 12, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 10}, {ObjectID: 10}}}}
	m.Resources.Objects = append(m.Resources.Objects, c)
	if t.Free(2) == 0 {
		c.Components.Component[0].AnyAttr = spec.AnyAttr{&production.ComponentAttr{UUID: uuidN(1), Path: p}}
	} else {
		m.Build.Items[0].AnyAttr = spec.AnyAttr{&production.ItemAttr{UUID: uuidN(1), Path: p}}
	}
	return m, 4
}

// genUUIDs has a UUID with every digit at every place.
func genUUIDs(t *mc.T) (*go3mf.Model, int) {
	const base = "f47ac10b-58cc-0372-8567-0e02b2c3d479"
	at := t.Free(len(base))
	if base[at] == '-' {
		t.Skip()
	}
	d := "0123456789abcdefABCDEF"[t.Free(22)]
	u := base[:at] + string(d) + base[at+1:]
	switch t.Free(3) {
	case 1:
		u = "urn:uuid:" + u
	case 2:
		u = "{" + u + "}"
	}
	m := extModel(production.DefaultExtension)
	switch t.Free(4) {
	case 0:
		m.Build.AnyAttr = spec.AnyAttr{&production.BuildAttr{UUID: u}}
	case 1:
		m.Resources.Objects[0].AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: u}}
	case 2:
		m.Build.Items[0].AnyAttr = spec.AnyAttr{&production.ItemAttr{UUID: u}}
	case 3:
		m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: 12, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 10, AnyAttr: spec.AnyAttr{&production.ComponentAttr{UUID: u}}}}}})
	}
	return m, 4
}

func genProductionSizes(t *mc.T) (*go3mf.Model, int) {
	n := listSizes[t.Free(len(listSizes))]
	m := extModel(production.DefaultExtension)
	u := func(i int) string { return fmt.Sprintf("f47ac10b-58cc-0372-8567-0e02b2c3%04d", i) }
	path := func(i int) string {
		if i%3 == 1 {
			return "/3D/" + utoa(uint32(i)) + ".model"
		}
		return ""
	}
	switch t.Free(3) {
	case 0:
		for i := 0; i < n; i++ {
			x := &go3mf.Item{ObjectID: 10}
			if i%4 != 3 {
				x.AnyAttr = spec.AnyAttr{&production.ItemAttr{UUID: u(i), Path: path(i)}}
			}
			m.Build.Items = append(m.Build.Items, x)
		}
	case 1:
		c := &go3mf.Object{ID: 12, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 10}}}}
		for i := 0; i < n; i++ {
			x := &go3mf.Component{ObjectID: 10}
			if i%4 != 3 {
				x.AnyAttr = spec.AnyAttr{&production.ComponentAttr{UUID: u(i), Path: path(i)}}
			}
			c.Components.Component = append(c.Components.Component, x)
		}
		m.Resources.Objects = append(m.Resources.Objects, c)
	case 2:
		for i := 0; i < n; i++ {
			o := &go3mf.Object{ID: uint32(20 + i), Mesh: &go3mf.Mesh{}}
			if i%4 != 3 {
				o.AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: u(i)}}
			}
			m.Resources.Objects = append(m.Resources.Objects, o)
		}
	}
	return m, 4
}

var productionValues = []valueScenario{
	{name: "presence", bound: "every combination of attributes of a build, 2 objects, 3 components and 2 items", gen: genPresence},
	{name: "strings", bound: "paths of 1-2 out of 25 pieces", gen: genProductionPaths},
	{name: "identifiers", bound: "UUIDs with each of 22 digits in each place, 3 notations, on 4 elements", gen: genUUIDs},
	{name: "sizes", bound: "20 lengths up to 2100 of 3 lists", gen: genProductionSizes},
}
