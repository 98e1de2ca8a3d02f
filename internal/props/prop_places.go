package props

import (
	"image/color"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

// Every reference of a resource to another one, with whatever has the number it
// says in each of three parts: a reference is to the resource of its own part, or
// of the part it names, and to none other.

const thirdPath = "/3D/z.model"

// holder is what has the number id in a part. The resources it needs itself are there.
func holder(k int, id uint32, rs *go3mf.Resources) {
	asset := func(a go3mf.Asset) { rs.Assets = append(rs.Assets, a) }
	switch k {
	case 1:
		asset(&go3mf.BaseMaterials{ID: id, Materials: []go3mf.Base{{Name: "a", Color: grey}}})
	case 2:
		asset(&go3mf.BaseMaterials{ID: id, Materials: []go3mf.Base{{Name: "a", Color: grey}, {Name: "b", Color: grey}, {Name: "c", Color: grey}}})
	case 3:
		asset(&materials.ColorGroup{ID: id, Colors: []color.RGBA{grey, grey}})
	case 4:
		asset(&materials.Texture2D{ID: id, Path: "/t.png", ContentType: materials.TextureTypePNG})
	case 5:
		asset(&materials.Texture2D{ID: 40, Path: "/t.png", ContentType: materials.TextureTypePNG})
		asset(&materials.Texture2DGroup{ID: id, TextureID: 40, Coords: make([]materials.TextureCoord, 2)})
	case 6:
		asset(twoBases(41))
		asset(&materials.CompositeMaterials{ID: id, MaterialID: 41, Indices: []uint32{0, 1}, Composites: make([]materials.Composite, 1)})
	case 7:
		asset(&materials.ColorGroup{ID: 42, Colors: []color.RGBA{grey}})
		asset(&materials.MultiProperties{ID: id, PIDs: []uint32{42}, Multis: []materials.Multi{{PIndices: []uint32{0}}, {PIndices: []uint32{0}}}})
	case 8:
		asset(&slices.SliceStack{ID: id, BottomZ: 1, Slices: []slices.Slice{{TopZ: 2}, {TopZ: 3}}})
	case 9:
		asset(&slices.SliceStack{ID: id, BottomZ: 1, Refs: []slices.SliceRef{{SliceStackID: 43, Path: "/3D/s.model"}}})
	case 10:
		rs.Objects = append(rs.Objects, tetra(id))
	case 11:
		rs.Objects = append(rs.Objects, tetra(44), &go3mf.Object{ID: id, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 44}}}})
	case 12:
		o := tetra(id)
		o.Type = go3mf.ObjectTypeSupport
		rs.Objects = append(rs.Objects, o)
	}
}

const holders = 13

// referrer adds a resource that refers to number 2 in a way of the extension.
func referrer(t *mc.T, prop string, rs *go3mf.Resources, m *go3mf.Model) {
	asset := func(a go3mf.Asset) { rs.Assets = append(rs.Assets, a) }
	where := func() string { return mc.Each(t, "", childPath, thirdPath, "/3D/none.model") }
	switch prop {
	case "C17":
		switch t.Free(4) {
		case 0:
			o := tetra(20)
			i := uint32(t.Free(4))
			x := &o.Mesh.Triangles.Triangle[t.Free(2)*3]
			x.PID, x.P1 = 2, i
			if t.Free(2) == 1 {
				x.P2, x.P3 = i, 0
			}
			rs.Objects = append(rs.Objects, o)
		case 1:
			o := tetra(20)
			o.PID, o.PIndex = 2, uint32(t.Free(4))
			rs.Objects = append(rs.Objects, o)
		case 2:
			c := &go3mf.Component{ObjectID: 2}
			if p := where(); p != "" {
				c.AnyAttr = spec.AnyAttr{&production.ComponentAttr{UUID: uuidN(9), Path: p}}
			}
			rs.Objects = append(rs.Objects, tetra(21), &go3mf.Object{ID: 20, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 21}, c}}})
		case 3:
			it := &go3mf.Item{ObjectID: 2}
			if p := where(); p != "" {
				it.AnyAttr = spec.AnyAttr{&production.ItemAttr{UUID: uuidN(9), Path: p}}
			}
			m.Build.Items = append(m.Build.Items, it)
		}
	case "C18":
		switch t.Free(4) {
		case 0:
			asset(&materials.Texture2DGroup{ID: 20, TextureID: 2, Coords: make([]materials.TextureCoord, 1)})
		case 1:
			asset(&materials.CompositeMaterials{ID: 20, MaterialID: 2, Indices: []uint32{0, uint32(t.Free(4))}, Composites: make([]materials.Composite, 1)})
		case 2:
			asset(&materials.MultiProperties{ID: 20, PIDs: []uint32{2}, Multis: []materials.Multi{{PIndices: []uint32{uint32(t.Free(4))}}}})
		case 3:
			asset(&materials.ColorGroup{ID: 21, Colors: []color.RGBA{grey, grey, grey}})
			asset(&materials.MultiProperties{ID: 20, PIDs: []uint32{21, 2}, BlendMethods: make([]materials.BlendMethod, 1), Multis: []materials.Multi{{PIndices: []uint32{2, 0}}, {PIndices: []uint32{uint32(t.Free(4)), uint32(t.Free(4))}}}})
		}
	case "C19":
		switch t.Free(3) {
		case 0:
			asset(&slices.SliceStack{ID: 20, BottomZ: 1, Refs: []slices.SliceRef{{SliceStackID: 2, Path: where()}}})
		case 1:
			o := tetra(20)
			o.AnyAttr = spec.AnyAttr{&slices.ObjectAttr{SliceStackID: 2, MeshResolution: mc.Each(t, slices.ResolutionFull, slices.ResolutionLow)}}
			rs.Objects = append(rs.Objects, o)
		case 2:
			asset(&slices.SliceStack{ID: 22, Slices: []slices.Slice{{TopZ: 1, Vertices: slices.Vertices{Vertex: make([]go3mf.Point2D, 3)},
				Polygons: []slices.Polygon{{Segments: []slices.Segment{{V2: 1}, {V2: 2, PID: 2, P1: uint32(t.Free(4)), P2: uint32(t.Free(4))}, {V2: 0}}}}}}})
		}
	case "C20":
		o := tetra(20)
		bl := &beamlattice.BeamLattice{MinLength: 1, Radius: 2}
		bl.Beams.Beam = []beamlattice.Beam{{Indices: [2]uint32{0, 1}, Radius: [2]float32{2, 2}}}
		k := t.Free(3)
		bl.ClipMode, bl.ClippingMeshID = beamlattice.ClipInside, 2
		if k == 1 {
			bl.ClippingMeshID = 21
			rs.Objects = append(rs.Objects, tetra(21))
		}
		if k != 0 {
			bl.RepresentationMeshID = 2
		}
		o.Mesh.Any = spec.Any{bl}
		rs.Objects = append(rs.Objects, o)
	case "C21":
		if t.Free(2) == 0 {
			c := &go3mf.Component{ObjectID: 2, AnyAttr: spec.AnyAttr{&production.ComponentAttr{UUID: uuidN(9), Path: where()}}}
			rs.Objects = append(rs.Objects, tetra(21), &go3mf.Object{ID: 20, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 21}, c}}})
		} else {
			m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: 2, AnyAttr: spec.AnyAttr{&production.ItemAttr{UUID: uuidN(9), Path: where()}}})
		}
	}
}

// places validates a reference with all that may have its number.
func places(prop string) func(t *mc.T) {
	return func(t *mc.T) {
		m := &go3mf.Model{}
		root, child, third := t.Free(holders), t.Free(holders), 0
		switch t.Free(4) { // the third part has nothing, what the others have, or something else
		case 1:
			third = root
		case 2:
			third = child
		case 3:
			third = (root+child)%holders + 1
		}
		parts := [3]go3mf.Resources{}
		user := t.Free(2)
		if t.Free(2) == 1 { // the reference comes first
			referrer(t, prop, &parts[user], m)
		}
		for i, k := range [3]int{root, child, third} {
			holder(k, 2, &parts[i])
		}
		if len(parts[user].Assets)+len(parts[user].Objects)+len(m.Build.Items) == 0 || !uses20(parts[user], m) {
			referrer(t, prop, &parts[user], m)
		}
		m.Resources = parts[0]
		m.Childs = map[string]*go3mf.ChildModel{childPath: {Resources: parts[1]}, thirdPath: {Resources: parts[2]},
			"/3D/s.model": {Resources: go3mf.Resources{Assets: []go3mf.Asset{&slices.SliceStack{ID: 43, BottomZ: 1, Slices: []slices.Slice{{TopZ: 2}}}}}}}
		m.Attachments = []go3mf.Attachment{{Path: "/t.png"}}
		m.Extensions = []go3mf.Extension{materials.DefaultExtension, slices.DefaultExtension, beamlattice.DefaultExtension}
		if prop == "C21" {
			m.Extensions = append(m.Extensions, ext(production.DefaultExtension, t.Free(2) == 1))
		}
		t.Case(dump(m))
		checkValid(t, m, notIndirect(m))
	}
}

// uses20 says whether the reference is there.
func uses20(rs go3mf.Resources, m *go3mf.Model) bool {
	if len(m.Build.Items) > 0 {
		return true
	}
	for _, a := range rs.Assets {
		if i := a.Identify(); i == 20 || i == 22 {
			return true
		}
	}
	for _, o := range rs.Objects {
		if o.ID == 20 {
			return true
		}
	}
	return false
}

func placesScenario(prop, what string) mc.Scenario {
	return mc.Scenario{Name: "places", Bound: what + " to a number that each of three parts gives to one of twelve kinds of resources or to none", Run: places(prop)}
}
