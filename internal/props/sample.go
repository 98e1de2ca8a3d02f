package props

import (
	"encoding/xml"
	"image/color"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
)

// sampleAll is a valid model that uses every element and attribute of the core
// specification and of every extension at least once, in its normal form.
func sampleAll() *go3mf.Model {
	m := sampleCore()
	m.Extensions = append(m.Extensions, materials.DefaultExtension, slices.DefaultExtension, beamlattice.DefaultExtension, production.DefaultExtension)
	m.Thumbnail = "/Thumbnails/m.png"
	m.Build.AnyAttr = spec.AnyAttr{&production.BuildAttr{UUID: uuidN(1)}}
	m.Build.Items[0].AnyAttr = spec.AnyAttr{&production.ItemAttr{UUID: uuidN(2)}}
	m.Build.Items[0].Transform = go3mf.Identity().Translate(1, 2, 3)
	m.Build.Items[1].AnyAttr = spec.AnyAttr{&production.ItemAttr{UUID: uuidN(3)}}
	m.Resources.Objects[0].AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: uuidN(4)}, &slices.ObjectAttr{SliceStackID: 26, MeshResolution: slices.ResolutionFull}}
	m.Resources.Objects[0].Thumbnail, m.Resources.Objects[0].PartNumber = "/Thumbnails/o.png", "pn"
	m.Resources.Objects[1].AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: uuidN(5)}}
	m.Resources.Objects[1].Components.Component[0].AnyAttr = spec.AnyAttr{&production.ComponentAttr{UUID: uuidN(6)}}
	m.Resources.Objects[1].Components.Component[1].AnyAttr = spec.AnyAttr{&production.ComponentAttr{UUID: uuidN(7)}}
	m.Resources.Assets = append(m.Resources.Assets,
		&materials.Texture2D{ID: 20, Path: "/3D/Texture/t.png", ContentType: materials.TextureTypePNG, TileStyleU: materials.TileMirror, TileStyleV: materials.TileClamp, Filter: materials.TextureFilterNearest},
		&materials.Texture2DGroup{ID: 21, TextureID: 20, Coords: []materials.TextureCoord{{0.5, 1}, {1, 0.25}}},
		&materials.ColorGroup{ID: 22, Colors: []color.RGBA{{1, 2, 3, 255}, {4, 5, 6, 7}}},
		&materials.CompositeMaterials{ID: 23, MaterialID: 1, Indices: []uint32{0, 1}, Composites: []materials.Composite{{Values: []float32{0.5, 0.5}}, {Values: []float32{1, 0}}}},
		&materials.MultiProperties{ID: 24, PIDs: []uint32{1, 22}, BlendMethods: []materials.BlendMethod{materials.BlendMultiply}, Multis: []materials.Multi{{PIndices: []uint32{0, 1}}, {PIndices: []uint32{1, 0}}}},
		&slices.SliceStack{ID: 26, BottomZ: -1, Slices: []slices.Slice{sampleSlice(1), sampleSlice(2)}},
	)
	lat := tetra(30)
	lat.AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: uuidN(8)}}
	lat.Mesh.Any = spec.Any{&beamlattice.BeamLattice{
		Radius: 2, MinLength: 0.5, ClipMode: beamlattice.ClipInside, ClippingMeshID: 2, RepresentationMeshID: 2, CapMode: beamlattice.CapModeButt,
		Beams: beamlattice.Beams{Beam: []beamlattice.Beam{
			{Indices: [2]uint32{0, 1}, Radius: [2]float32{1, 1.5}, CapMode: [2]beamlattice.CapMode{beamlattice.CapModeSphere, beamlattice.CapModeHemisphere}},
			{Indices: [2]uint32{1, 2}, Radius: [2]float32{2, 2}, CapMode: [2]beamlattice.CapMode{beamlattice.CapModeButt, beamlattice.CapModeButt}}}},
		BeamSets: beamlattice.BeamSets{BeamSet: []beamlattice.BeamSet{{Name: "s", Identifier: "i", Refs: []uint32{0, 1}}, {Refs: []uint32{1}}}},
	}}
	m.Resources.Objects = append(m.Resources.Objects, lat)
	m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: 30, AnyAttr: spec.AnyAttr{&production.ItemAttr{UUID: uuidN(9)}}})
	return m
}

func sampleSlice(z float32) slices.Slice {
	return slices.Slice{TopZ: z, Vertices: slices.Vertices{Vertex: []go3mf.Point2D{{0, 0}, {1, 0}, {0, 1}}},
		Polygons: []slices.Polygon{{StartV: 0, Segments: []slices.Segment{{V2: 1, PID: 1, P1: 0, P2: 1}, {V2: 2}, {V2: 0, PID: 1, P1: 1, P2: 1}}}}}
}

// sampleMulti is sampleAll spread over three parts, with attachments.
func sampleMulti() *go3mf.Model {
	m := sampleAll()
	m.Path = go3mf.DefaultModelPath
	a, b := tetra(2), tetra(3)
	a.AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: uuidN(20)}}
	b.AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: uuidN(21)}}
	st := &slices.SliceStack{ID: 7, Slices: []slices.Slice{sampleSlice(3)}}
	m.Childs = map[string]*go3mf.ChildModel{
		"/3D/a.model": {Resources: go3mf.Resources{Objects: []*go3mf.Object{a}, Assets: []go3mf.Asset{
			&go3mf.BaseMaterials{ID: 4, Materials: []go3mf.Base{{Name: "x", Color: color.RGBA{9, 9, 9, 255}}}}}}},
		"/3D/b.model": {Resources: go3mf.Resources{Objects: []*go3mf.Object{b}, Assets: []go3mf.Asset{st}}},
	}
	m.Resources.Objects[1].Components.Component[1].AnyAttr = spec.AnyAttr{&production.ComponentAttr{UUID: uuidN(7), Path: "/3D/a.model"}}
	m.Build.Items[1] = &go3mf.Item{ObjectID: 3, AnyAttr: spec.AnyAttr{&production.ItemAttr{UUID: uuidN(3), Path: "/3D/b.model"}}}
	m.Resources.Assets = append(m.Resources.Assets, &slices.SliceStack{ID: 27, BottomZ: 1, Refs: []slices.SliceRef{{SliceStackID: 7, Path: "/3D/b.model"}}})
	m.RootRelationships = []go3mf.Relationship{{Path: go3mf.DefaultModelPath, Type: go3mf.RelType3DModel, ID: "rid1"}, {Path: "/Thumbnails/m.png", Type: go3mf.RelTypeThumbnail, ID: "rid2"}}
	m.Relationships = []go3mf.Relationship{
		{Path: "/3D/a.model", Type: go3mf.RelType3DModel, ID: "r1"}, {Path: "/3D/b.model", Type: go3mf.RelType3DModel, ID: "r2"},
		{Path: "/3D/Texture/t.png", Type: materials.RelTypeTexture3D, ID: "r3"}, {Path: "/Thumbnails/o.png", Type: go3mf.RelTypeThumbnail, ID: "r4"},
	}
	m.Attachments = []go3mf.Attachment{
		{Stream: stream("png0"), Path: "/Thumbnails/m.png", ContentType: "image/png"},
		{Stream: stream("png1"), Path: "/3D/Texture/t.png", ContentType: "image/png"},
		{Stream: stream("png2"), Path: "/Thumbnails/o.png", ContentType: "image/png"},
	}
	return m
}

var _ = xml.Name{}
