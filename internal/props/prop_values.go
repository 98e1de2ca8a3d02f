package props

import (
	"encoding/xml"
	"image/color"
	"math"

	"github.com/hpinc/go3mf"

	"verif3mf/internal/mc"
)

// Exhaustive exploration of values: every value of a bounded set in every
// field of its kind, with the rest of the model fixed. The scenarios are shared
// by the round trip (C01) and the documents (C02).

type valueScenario struct {
	name, bound string
	gen         func(t *mc.T) (m *go3mf.Model, prec int)
	document    bool // not of a package: not every value is fit for one
}

func meshModel(o *go3mf.Object) *go3mf.Model {
	return &go3mf.Model{
		Extensions: []go3mf.Extension{extQ},
		Resources:  go3mf.Resources{Objects: []*go3mf.Object{o}},
		Build:      go3mf.Build{Items: []*go3mf.Item{{ObjectID: o.ID}}},
	}
}

var mantissas = []uint32{0, 1, 2, 0x2aaaaa, 0x400000, 0x4ccccd, 0x7ffffe, 0x7fffff}

// floatsOf has the numbers of an exponent, of both signs.
func floatsOf(exp uint32) (out []float32) {
	for _, m := range mantissas {
		for s := uint32(0); s < 2; s++ {
			out = append(out, math.Float32frombits(s<<31|exp<<23|m))
		}
	}
	return
}

// decimals has the numbers around k/10^p: on a tie, and next to it.
func decimals(k int, p int) (out []float32) {
	f := float32(float64(k) / math.Pow(10, float64(p)))
	out = []float32{f, math.Nextafter32(f, -1e9), math.Nextafter32(f, 1e9)}
	for _, x := range out {
		out = append(out, -x)
	}
	return
}

func genNumbers(t *mc.T) (*go3mf.Model, int) {
	prec := []int{4, -1, 0, 1, 2, 3, 5, 6, 9, 12, 20}[t.Free(11)]
	var fs []float32
	if t.Free(2) == 0 {
		fs = floatsOf(uint32(t.Free(255)))
	} else {
		k := []int{1, 5, 15, 25, 35, 45, 95, 99, 105, 12345, 99995, 123456785, 999999, 5000005}[t.Free(14)]
		fs = decimals(k, t.Free(10))
	}
	m := &go3mf.Mesh{}
	for i, f := range fs {
		p := go3mf.Point3D{1, 2, 3}
		p[i%3] = f
		p[(i+1)%3] = fs[len(fs)-1-i]
		m.Vertices.Vertex = append(m.Vertices.Vertex, p)
	}
	return meshModel(&go3mf.Object{ID: 1, Mesh: m}), prec
}

func genMatrices(t *mc.T) (*go3mf.Model, int) {
	var fs []float32
	if t.Free(2) == 0 {
		fs = floatsOf(uint32(t.Free(255)))
	} else {
		fs = decimals([]int{1, 5, 15, 25, 9995, 10000, 9999, 10005, 4, 6}[t.Free(10)], 3+t.Free(3))
	}
	at := []int{0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14}[t.Free(12)]
	base := []go3mf.Matrix{go3mf.Identity(), {15: 1}, {0, 1, 0, 0, -1, 0, 0, 0, 0, 0, 1, 0, 10, 20, 30, 1}}[t.Free(3)]
	o := &go3mf.Object{ID: 1, Mesh: &go3mf.Mesh{}}
	c := &go3mf.Object{ID: 2, Components: &go3mf.Components{}}
	m := meshModel(o)
	m.Resources.Objects = append(m.Resources.Objects, c)
	for _, f := range fs {
		x := base
		x[at] = f
		m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: 2, Transform: x})
		c.Components.Component = append(c.Components.Component, &go3mf.Component{ObjectID: 1, Transform: x})
	}
	return m, 4
}

func genTriangles(t *mc.T) (*go3mf.Model, int) {
	o := &go3mf.Object{ID: 2, Mesh: &go3mf.Mesh{Vertices: go3mf.Vertices{Vertex: make([]go3mf.Point3D, 3)}}}
	o.PID = uint32(t.Free(2))
	o.PIndex = uint32(t.Free(3))
	for i := 0; i < 2; i++ {
		tr := go3mf.Triangle{V1: 0, V2: 1, V3: 2, PID: uint32(t.Free(3))}
		if tr.PID != 0 {
			tr.P1, tr.P2, tr.P3 = uint32(t.Free(3)), uint32(t.Free(3)), uint32(t.Free(3))
		}
		o.Mesh.Triangles.Triangle = append(o.Mesh.Triangles.Triangle, tr)
	}
	m := meshModel(o)
	for id := uint32(1); id < 3; id++ {
		b := &go3mf.BaseMaterials{ID: id + 10*(id-1)}
		for i := 0; i < 3; i++ {
			b.Materials = append(b.Materials, go3mf.Base{Name: "x", Color: color.RGBA{uint8(i), 0, 0, 255}})
		}
		m.Resources.Assets = append(m.Resources.Assets, b)
	}
	return m, 4
}

var integers = []uint32{0, 1, 2, 9, 10, 11, 99, 100, 255, 256, 65535, 65536, 99999, 1 << 24, 1<<24 + 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1}

func genIntegers(t *mc.T) (*go3mf.Model, int) {
	x, y := integers[t.Free(len(integers))], integers[t.Free(len(integers))]
	o := &go3mf.Object{ID: 1, Mesh: &go3mf.Mesh{}}
	c := &go3mf.Object{ID: 2, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 1}}}}
	m := meshModel(o)
	m.Resources.Objects = append(m.Resources.Objects, c)
	b := &go3mf.BaseMaterials{ID: 3}
	m.Resources.Assets = append(m.Resources.Assets, b)
	tr := go3mf.Triangle{V1: 0, V2: 1, V3: 2}
	switch t.Free(10) {
	case 0:
		o.ID, c.ID = x, y
	case 1:
		o.PID, o.PIndex = x, y
	case 2:
		tr.V1, tr.V2 = x, y
	case 3:
		tr.V3, tr.V1 = x, y
	case 4:
		tr.PID, tr.P1, tr.P2, tr.P3 = 1, x, y, 0
	case 5:
		tr.PID, tr.P1, tr.P2, tr.P3 = max(x, 1), 5, 5, y
	case 6:
		c.Components.Component[0].ObjectID, m.Build.Items[0].ObjectID = x, y
	case 7:
		b.ID = x
		o.PID, o.PIndex = 4, 7
		tr.PID, tr.P1, tr.P2, tr.P3 = max(y, 1), 7, 7, 7
	case 8:
		o.PID, o.PIndex = 1, x
		tr.PID, tr.P1, tr.P2, tr.P3 = 1, y, y, y
	case 9:
		b.Materials = []go3mf.Base{{Name: "c", Color: color.RGBA{uint8(x), uint8(y), uint8(x >> 8), uint8(y >> 8)}}, {Name: "d", Color: color.RGBA{uint8(y >> 16), uint8(x >> 16), 3, 255}}}
	}
	o.Mesh.Triangles.Triangle = []go3mf.Triangle{tr, {V1: 7, V2: 8, V3: 9}}
	return m, 4
}

var textPieces = []string{"a", " ", "<", "&", `"`, "'", ">", "\n", "\t", "\r", "\u00a0", "é", "\ufffd", "😀", "]]>", "&amp;", "&#10;", "<!--", "--", "\u2028", "\u0085", "\ufeff", "\u007f", ":", "{"}

func genTexts(t *mc.T) (*go3mf.Model, int) {
	n := 1 + t.Free(2)
	s := ""
	for i := 0; i < n; i++ {
		s += textPieces[t.Free(len(textPieces))]
	}
	o := &go3mf.Object{ID: 1, Mesh: &go3mf.Mesh{}}
	m := meshModel(o)
	switch t.Free(11) {
	case 0:
		m.Metadata = []go3mf.Metadata{{Name: xml.Name{Local: "Title"}, Value: s}, {Name: xml.Name{Local: "Designer"}, Value: "x"}}
	case 1:
		m.Metadata = []go3mf.Metadata{{Name: xml.Name{Local: s}, Value: "v"}, {Name: xml.Name{Space: "q", Local: s}, Value: "w"}}
	case 2:
		m.Metadata = []go3mf.Metadata{{Name: xml.Name{Local: "Title"}, Value: "v", Type: s}}
	case 3:
		o.Name = s
	case 4:
		o.PartNumber = s
	case 5:
		m.Build.Items[0].PartNumber = s
	case 6:
		m.Resources.Assets = []go3mf.Asset{&go3mf.BaseMaterials{ID: 3, Materials: []go3mf.Base{{Name: s}, {Name: "x"}}}}
	case 7:
		m.Language = s
	case 8:
		o.Metadata.Metadata = []go3mf.Metadata{{Name: xml.Name{Local: "Title"}, Value: s}, {Name: xml.Name{Local: "Designer"}, Value: "x"}}
	case 9:
		m.Build.Items[0].Metadata.Metadata = []go3mf.Metadata{{Name: xml.Name{Local: s}, Value: s}}
	case 10:
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: "urn:" + s, LocalName: "z"})
	}
	return m, 4
}

// genSizes has lists of many lengths.
func genSizes(t *mc.T) (*go3mf.Model, int) {
	n := []int{0, 1, 2, 3, 7, 8, 9, 99, 100, 101, 999, 1000, 1001, 1002, 2500}[t.Free(15)]
	o := &go3mf.Object{ID: 1, Mesh: &go3mf.Mesh{}}
	m := meshModel(o)
	switch t.Free(8) {
	case 0:
		for i := 0; i < n; i++ {
			o.Mesh.Vertices.Vertex = append(o.Mesh.Vertices.Vertex, go3mf.Point3D{float32(i), float32(-i) / 2, float32(i%7) * 1e4})
		}
	case 1:
		for i := 0; i < n; i++ {
			o.Mesh.Triangles.Triangle = append(o.Mesh.Triangles.Triangle, go3mf.Triangle{V1: uint32(i), V2: uint32(i + 1), V3: uint32(i * i), PID: uint32(i % 3), P1: uint32(i % 2)})
			if i%3 == 0 {
				o.Mesh.Triangles.Triangle[i].P1 = 0
			}
		}
	case 2:
		c := &go3mf.Components{}
		for i := 0; i < n; i++ {
			c.Component = append(c.Component, &go3mf.Component{ObjectID: uint32(i + 1), Transform: []go3mf.Matrix{{}, go3mf.Identity().Translate(float32(i), 0, 0)}[i%2]})
		}
		m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: 2, Components: c})
	case 3:
		for i := 0; i < n; i++ {
			m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: uint32(i), PartNumber: utoa(uint32(i % 5))})
		}
	case 4:
		for i := 0; i < n; i++ {
			m.Metadata = append(m.Metadata, go3mf.Metadata{Name: xml.Name{Local: utoa(uint32(i))}, Value: utoa(uint32(n - i)), Preserve: i%2 == 0})
		}
	case 5:
		b := &go3mf.BaseMaterials{ID: 3}
		for i := 0; i < n; i++ {
			b.Materials = append(b.Materials, go3mf.Base{Name: utoa(uint32(i)), Color: color.RGBA{uint8(i), uint8(i >> 8), 1, uint8(255 - i%2)}})
		}
		m.Resources.Assets = append(m.Resources.Assets, b)
	case 6:
		for i := 0; i < n; i++ {
			m.Resources.Assets = append(m.Resources.Assets, &go3mf.BaseMaterials{ID: uint32(i + 10), Materials: make([]go3mf.Base, i%3)})
			m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: uint32(i + 10000), Type: go3mf.ObjectType(i % 5), Mesh: &go3mf.Mesh{}})
		}
	case 7: // a long text
		s := make([]byte, n*3)
		for i := range s {
			s[i] = "ab<&>c d"[i%8]
		}
		m.Metadata = []go3mf.Metadata{{Name: xml.Name{Local: "Title"}, Value: string(s)}}
		o.Name = string(s)
	}
	return m, 4
}

// genExtensions has lists of extensions, required and not.
func genExtensions(t *mc.T) (*go3mf.Model, int) {
	m := meshModel(&go3mf.Object{ID: 1, Mesh: &go3mf.Mesh{}})
	m.Extensions = nil
	names := []string{"q", "r", "qq", "a-b.c_d", "é"}
	n := t.Free(4)
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		k := t.Free(len(names))
		if used[k] {
			t.Skip()
		}
		used[k] = true
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: "urn:" + names[len(names)-1-k], LocalName: names[k], IsRequired: t.Free(2) == 1})
	}
	m.Units = go3mf.Units(t.Free(6))
	m.Resources.Objects[0].Type = go3mf.ObjectType(t.Free(5))
	return m, 4
}

var valueScenarios = []valueScenario{
	{name: "numbers", bound: "coordinates: 16 mantissas and signs of all 255 exponents, numbers on and next to decimal ties; 11 precisions", gen: genNumbers},
	{name: "matrices", bound: "the same numbers in every coefficient of 3 transforms of items and components", gen: genMatrices},
	{name: "triangle properties", bound: "two triangles with every identifier and three indices out of 3 each, in objects with 2 x 3 default properties", gen: genTriangles},
	{name: "integers", bound: "pairs of 19 integers in 10 pairs of fields", gen: genIntegers},
	{name: "strings", bound: "strings of 1-2 out of 25 pieces in 11 fields", gen: genTexts},
	{name: "sizes", bound: "15 lengths up to 2500 of 8 lists", gen: genSizes},
	{name: "declarations", bound: "ordered lists of up to 3 out of 5 extensions, required or not, 6 units, 5 object types", gen: genExtensions},
}

func valuesRoundtrip() (out []mc.Scenario) {
	for _, v := range valueScenarios {
		out = append(out, mc.Scenario{Name: v.name, Bound: v.bound, Run: func(t *mc.T) {
			m, prec := v.gen(t)
			route := 2
			if prec != 4 {
				route = 0
			} else if v.name == "sizes" || v.name == "declarations" {
				route = t.Free(3)
			}
			roundtrip(t, m, prec, route, normalize)
		}})
	}
	return
}

func valuesEncoded() (out []mc.Scenario) {
	for _, v := range valueScenarios {
		out = append(out, mc.Scenario{Name: v.name, Bound: v.bound, Run: func(t *mc.T) {
			m, prec := v.gen(t)
			checkEncoded(t, m, prec)
		}})
	}
	return
}
