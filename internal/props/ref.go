package props

import (
	"encoding/xml"
	"fmt"
	"image/color"
	"sort"
	"strconv"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
)

// This file is the reference of the 3MF document grammar: what XML tree a model
// denotes. It is written from the 3MF core, materials, slice, beam lattice and
// production specifications and shares no code with the encoder.

const (
	nsCore  = "http://schemas.microsoft.com/3dmanufacturing/core/2015/02"
	nsMat   = "http://schemas.microsoft.com/3dmanufacturing/material/2015/02"
	nsSlice = "http://schemas.microsoft.com/3dmanufacturing/slice/2015/07"
	nsBeam  = "http://schemas.microsoft.com/3dmanufacturing/beamlattice/2017/02"
	nsProd  = "http://schemas.microsoft.com/3dmanufacturing/production/2015/06"
)

// form selects one of the equivalent documents of a model.
type form struct {
	prec     int
	explicit bool // defaults and inherited values are spelled out
	upper    bool // colours in upper case, numbers in scientific notation
}

func (f form) num(x float32) string {
	if f.upper {
		return strconv.FormatFloat(float64(roundF(x, f.prec)), 'E', -1, 32)
	}
	return strconv.FormatFloat(float64(x), 'f', f.prec, 32)
}

func (f form) color(c color.RGBA) string {
	s := fmt.Sprintf("#%02x%02x%02x", c.R, c.G, c.B)
	if c.A != 255 || f.explicit {
		s += fmt.Sprintf("%02x", c.A)
	}
	if f.upper {
		s = strings.ToUpper(s)
	}
	return s
}

func (f form) matrix(m go3mf.Matrix) string {
	var s []string
	for _, i := range []int{0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14} {
		if f.upper {
			s = append(s, strconv.FormatFloat(float64(roundF(m[i], 3)), 'E', -1, 32))
		} else {
			s = append(s, strconv.FormatFloat(float64(m[i]), 'f', 3, 32))
		}
	}
	sep := " "
	if f.upper {
		sep = "  \t"
	}
	return strings.Join(s, sep)
}

func isIdentity(m go3mf.Matrix) bool {
	return m == go3mf.Matrix{} || m == go3mf.Matrix{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}
}

var unitNames = map[go3mf.Units]string{
	go3mf.UnitMillimeter: "millimeter", go3mf.UnitMicrometer: "micron", go3mf.UnitCentimeter: "centimeter",
	go3mf.UnitInch: "inch", go3mf.UnitFoot: "foot", go3mf.UnitMeter: "meter",
}

var typeNames = map[go3mf.ObjectType]string{
	go3mf.ObjectTypeModel: "model", go3mf.ObjectTypeOther: "other", go3mf.ObjectTypeSupport: "support",
	go3mf.ObjectTypeSolidSupport: "solidsupport", go3mf.ObjectTypeSurface: "surface",
}

func (f form) attrs(n *N, any spec.AnyAttr) *N {
	for _, g := range any {
		switch g := g.(type) {
		case *spec.UnknownAttrs:
			for _, a := range g.Attr {
				n.ns(a.Name.Space, a.Name.Local, a.Value)
			}
		case *production.BuildAttr:
			n.ns(nsProd, "UUID", g.UUID)
		case *production.ObjectAttr:
			n.ns(nsProd, "UUID", g.UUID)
		case *production.ItemAttr:
			if g.Path != "" {
				n.ns(nsProd, "path", g.Path)
			}
			n.ns(nsProd, "UUID", g.UUID)
		case *production.ComponentAttr:
			if g.Path != "" {
				n.ns(nsProd, "path", g.Path)
			}
			n.ns(nsProd, "UUID", g.UUID)
		case *slices.ObjectAttr:
			n.ns(nsSlice, "slicestackid", utoa(g.SliceStackID))
			if g.MeshResolution != slices.ResolutionFull || f.explicit {
				n.ns(nsSlice, "meshresolution", map[slices.MeshResolution]string{slices.ResolutionFull: "fullres", slices.ResolutionLow: "lowres"}[g.MeshResolution])
			}
		default:
			panic(fmt.Sprintf("ref: unknown attribute group %T", g))
		}
	}
	return n
}

// tokensTree converts the tokens of a foreign element.
func tokensTree(tk []xml.Token) *N {
	var root *N
	var st []*N
	for _, t := range tk {
		switch t := t.(type) {
		case xml.StartElement:
			n := &N{Space: t.Name.Space, Local: t.Name.Local}
			for _, a := range t.Attr {
				n.ns(a.Name.Space, a.Name.Local, a.Value)
			}
			if len(st) > 0 {
				st[len(st)-1].add(n)
			} else {
				root = n
			}
			st = append(st, n)
		case xml.EndElement:
			st = st[:len(st)-1]
		case xml.CharData:
			// mixed content keeps its place: character data is a pseudo child
			st[len(st)-1].add(&N{Local: "#text", Text: string(t)})
		}
	}
	return root
}

func (f form) any(n *N, any spec.Any) *N {
	for _, g := range any {
		switch g := g.(type) {
		case *spec.UnknownTokens:
			if len(g.Token) > 0 {
				n.add(tokensTree(g.Token))
			}
		case *beamlattice.BeamLattice:
			n.add(f.beamLattice(g))
		default:
			panic(fmt.Sprintf("ref: unknown element %T", g))
		}
	}
	return n
}

func (f form) metadata(ms []go3mf.Metadata) (out []*N) {
	for _, m := range ms {
		name := m.Name.Local
		if m.Name.Space != "" {
			name = m.Name.Space + ":" + name
		}
		n := el(nsCore, "metadata").a("name", name)
		if m.Preserve || f.explicit {
			n.a("preserve", strconv.FormatBool(m.Preserve))
		}
		if m.Type != "" {
			n.a("type", m.Type)
		}
		n.Text = m.Value
		out = append(out, n)
	}
	return out
}

func (f form) metaGroup(n *N, g go3mf.MetadataGroup) {
	if len(g.Metadata) == 0 && len(g.AnyAttr) == 0 {
		return
	}
	n.add(f.attrs(el(nsCore, "metadatagroup", f.metadata(g.Metadata)...), g.AnyAttr))
}

func (f form) transform(n *N, m go3mf.Matrix) {
	if !isIdentity(m) {
		n.a("transform", f.matrix(m))
	} else if f.explicit {
		n.a("transform", f.matrix(go3mf.Matrix{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}))
	}
}

func (f form) object(o *go3mf.Object) *N {
	n := el(nsCore, "object").a("id", utoa(o.ID))
	if o.Type != go3mf.ObjectTypeModel || f.explicit {
		n.a("type", typeNames[o.Type])
	}
	if o.Thumbnail != "" {
		n.a("thumbnail", o.Thumbnail)
	}
	if o.PartNumber != "" {
		n.a("partnumber", o.PartNumber)
	}
	if o.Name != "" {
		n.a("name", o.Name)
	}
	if o.PID != 0 {
		n.a("pid", utoa(o.PID))
	}
	if o.PIndex != 0 || o.PID != 0 && f.explicit {
		n.a("pindex", utoa(o.PIndex))
	}
	f.attrs(n, o.AnyAttr)
	f.metaGroup(n, o.Metadata)
	if o.Mesh != nil {
		m := el(nsCore, "mesh")
		f.attrs(m, o.Mesh.AnyAttr)
		vs := f.attrs(el(nsCore, "vertices"), o.Mesh.Vertices.AnyAttr)
		for _, v := range o.Mesh.Vertices.Vertex {
			vs.add(el(nsCore, "vertex").a("x", f.num(v[0])).a("y", f.num(v[1])).a("z", f.num(v[2])))
		}
		ts := f.attrs(el(nsCore, "triangles"), o.Mesh.Triangles.AnyAttr)
		for _, t := range o.Mesh.Triangles.Triangle {
			x := el(nsCore, "triangle").a("v1", utoa(t.V1)).a("v2", utoa(t.V2)).a("v3", utoa(t.V3))
			inherited := t.PID == 0 || (t.PID == o.PID && t.P1 == o.PIndex && t.P2 == o.PIndex && t.P3 == o.PIndex)
			switch {
			case f.explicit && t.PID != 0:
				x.a("pid", utoa(t.PID)).a("p1", utoa(t.P1)).a("p2", utoa(t.P2)).a("p3", utoa(t.P3))
			case inherited:
			default:
				x.a("pid", utoa(t.PID)).a("p1", utoa(t.P1))
				if t.P2 != t.P1 || t.P3 != t.P1 {
					x.a("p2", utoa(t.P2)).a("p3", utoa(t.P3))
				}
			}
			ts.add(f.attrs(x, t.AnyAttr))
		}
		m.add(vs, ts)
		f.any(m, o.Mesh.Any)
		n.add(m)
	} else if o.Components != nil {
		cs := f.attrs(el(nsCore, "components"), o.Components.AnyAttr)
		for _, c := range o.Components.Component {
			x := el(nsCore, "component").a("objectid", utoa(c.ObjectID))
			f.transform(x, c.Transform)
			cs.add(f.attrs(x, c.AnyAttr))
		}
		n.add(cs)
	}
	return n
}

func (f form) floats(v []float32) string {
	var s []string
	for _, x := range v {
		s = append(s, f.num(x))
	}
	return strings.Join(s, " ")
}

func (f form) asset(a go3mf.Asset) *N {
	switch a := a.(type) {
	case *go3mf.BaseMaterials:
		n := f.attrs(el(nsCore, "basematerials").a("id", utoa(a.ID)), a.AnyAttr)
		for _, b := range a.Materials {
			n.add(f.attrs(el(nsCore, "base").a("name", b.Name).a("displaycolor", f.color(b.Color)), b.AnyAttr))
		}
		return n
	case *go3mf.UnknownAsset:
		return tokensTree(a.UnknownTokens.Token)
	case *materials.ColorGroup:
		n := el(nsMat, "colorgroup").a("id", utoa(a.ID))
		for _, c := range a.Colors {
			n.add(el(nsMat, "color").a("color", f.color(c)))
		}
		return n
	case *materials.Texture2D:
		n := el(nsMat, "texture2d").a("id", utoa(a.ID)).a("path", a.Path)
		n.a("contenttype", map[materials.Texture2DType]string{materials.TextureTypePNG: "image/png", materials.TextureTypeJPEG: "image/jpeg"}[a.ContentType])
		tile := map[materials.TileStyle]string{materials.TileWrap: "wrap", materials.TileMirror: "mirror", materials.TileClamp: "clamp", materials.TileNone: "none"}
		if a.TileStyleU != materials.TileWrap || f.explicit {
			n.a("tilestyleu", tile[a.TileStyleU])
		}
		if a.TileStyleV != materials.TileWrap || f.explicit {
			n.a("tilestylev", tile[a.TileStyleV])
		}
		if a.Filter != materials.TextureFilterAuto || f.explicit {
			n.a("filter", map[materials.TextureFilter]string{materials.TextureFilterAuto: "auto", materials.TextureFilterLinear: "linear", materials.TextureFilterNearest: "nearest"}[a.Filter])
		}
		return n
	case *materials.Texture2DGroup:
		n := el(nsMat, "texture2dgroup").a("id", utoa(a.ID)).a("texid", utoa(a.TextureID))
		for _, c := range a.Coords {
			n.add(el(nsMat, "tex2coord").a("u", f.num(c[0])).a("v", f.num(c[1])))
		}
		return n
	case *materials.CompositeMaterials:
		n := el(nsMat, "compositematerials").a("id", utoa(a.ID)).a("matid", utoa(a.MaterialID)).a("matindices", joinU(a.Indices))
		for _, c := range a.Composites {
			n.add(el(nsMat, "composite").a("values", f.floats(c.Values)))
		}
		return n
	case *materials.MultiProperties:
		n := el(nsMat, "multiproperties").a("id", utoa(a.ID)).a("pids", joinU(a.PIDs))
		var bm []string
		for _, b := range a.BlendMethods {
			bm = append(bm, map[materials.BlendMethod]string{materials.BlendMix: "mix", materials.BlendMultiply: "multiply"}[b])
		}
		if len(bm) > 0 || f.explicit {
			n.a("blendmethods", strings.Join(bm, " "))
		}
		for _, m := range a.Multis {
			n.add(el(nsMat, "multi").a("pindices", joinU(m.PIndices)))
		}
		return n
	case *slices.SliceStack:
		n := el(nsSlice, "slicestack").a("id", utoa(a.ID))
		if a.BottomZ != 0 || f.explicit {
			n.a("zbottom", f.num(a.BottomZ))
		}
		for _, s := range a.Slices {
			x := el(nsSlice, "slice").a("ztop", f.num(s.TopZ))
			vs := el(nsSlice, "vertices")
			for _, v := range s.Vertices.Vertex {
				vs.add(el(nsSlice, "vertex").a("x", f.num(v[0])).a("y", f.num(v[1])))
			}
			if len(vs.Kids) > 0 || f.explicit {
				x.add(vs)
			}
			for _, p := range s.Polygons {
				y := el(nsSlice, "polygon").a("startv", utoa(p.StartV))
				for _, g := range p.Segments {
					z := el(nsSlice, "segment").a("v2", utoa(g.V2))
					if g.PID != 0 {
						z.a("pid", utoa(g.PID))
					}
					if g.PID != 0 || g.P1 != 0 || g.P2 != 0 {
						z.a("p1", utoa(g.P1))
						if g.P2 != g.P1 || f.explicit {
							z.a("p2", utoa(g.P2))
						}
					}
					y.add(z)
				}
				x.add(y)
			}
			n.add(x)
		}
		for _, r := range a.Refs {
			n.add(el(nsSlice, "sliceref").a("slicestackid", utoa(r.SliceStackID)).a("slicepath", r.Path))
		}
		return n
	}
	panic(fmt.Sprintf("ref: unknown asset %T", a))
}

func (f form) beamLattice(b *beamlattice.BeamLattice) *N {
	capN := map[beamlattice.CapMode]string{beamlattice.CapModeSphere: "sphere", beamlattice.CapModeHemisphere: "hemisphere", beamlattice.CapModeButt: "butt"}
	clipN := map[beamlattice.ClipMode]string{beamlattice.ClipNone: "none", beamlattice.ClipInside: "inside", beamlattice.ClipOutside: "outside"}
	n := el(nsBeam, "beamlattice").a("minlength", f.num(b.MinLength)).a("radius", f.num(b.Radius))
	if b.ClipMode != beamlattice.ClipNone || f.explicit {
		n.a("clippingmode", clipN[b.ClipMode])
	}
	if b.ClippingMeshID != 0 {
		n.a("clippingmesh", utoa(b.ClippingMeshID))
	}
	if b.RepresentationMeshID != 0 {
		n.a("representationmesh", utoa(b.RepresentationMeshID))
	}
	if b.CapMode != beamlattice.CapModeSphere || f.explicit {
		n.a("cap", capN[b.CapMode])
	}
	bs := el(nsBeam, "beams")
	for _, x := range b.Beams.Beam {
		y := el(nsBeam, "beam").a("v1", utoa(x.Indices[0])).a("v2", utoa(x.Indices[1]))
		r1 := f.num(x.Radius[0])
		r2 := f.num(x.Radius[1])
		eff := b.Radius
		if x.Radius[0] != 0 {
			eff = x.Radius[0]
		}
		if x.Radius[0] != 0 && (x.Radius[0] != b.Radius || f.explicit) {
			y.a("r1", r1)
		}
		if x.Radius[1] != 0 && (x.Radius[1] != eff || f.explicit) {
			y.a("r2", r2)
		}
		if x.CapMode[0] != b.CapMode || f.explicit {
			y.a("cap1", capN[x.CapMode[0]])
		}
		if x.CapMode[1] != b.CapMode || f.explicit {
			y.a("cap2", capN[x.CapMode[1]])
		}
		bs.add(y)
	}
	n.add(bs)
	if len(b.BeamSets.BeamSet) > 0 || f.explicit {
		ss := el(nsBeam, "beamsets")
		for _, s := range b.BeamSets.BeamSet {
			y := el(nsBeam, "beamset")
			if s.Name != "" {
				y.a("name", s.Name)
			}
			if s.Identifier != "" {
				y.a("identifier", s.Identifier)
			}
			for _, r := range s.Refs {
				y.add(el(nsBeam, "ref").a("index", utoa(r)))
			}
			ss.add(y)
		}
		n.add(ss)
	}
	return n
}

func (f form) resources(rs *go3mf.Resources) *N {
	n := f.attrs(el(nsCore, "resources"), rs.AnyAttr)
	for _, a := range rs.Assets {
		n.add(f.asset(a))
	}
	for _, o := range rs.Objects {
		n.add(f.object(o))
	}
	return n
}

func (f form) head(m *go3mf.Model) *N {
	n := el(nsCore, "model")
	if m.Units != go3mf.UnitMillimeter || f.explicit {
		n.a("unit", unitNames[m.Units])
	}
	if m.Language != "" {
		n.ns(xmlNS, "lang", m.Language)
	}
	for _, e := range m.Extensions {
		n.ns("xmlns", e.LocalName, e.Namespace)
	}
	var req []string
	for _, e := range m.Extensions {
		if e.IsRequired {
			req = append(req, e.LocalName)
		}
	}
	if len(req) > 0 {
		n.a("requiredextensions", strings.Join(req, " "))
	}
	return n
}

// root is the document of the root model part.
func (f form) root(m *go3mf.Model) *N {
	n := f.head(m)
	if m.Thumbnail != "" {
		n.a("thumbnail", m.Thumbnail)
	}
	f.attrs(n, m.AnyAttr)
	n.add(f.metadata(m.Metadata)...)
	n.add(f.resources(&m.Resources))
	b := f.attrs(el(nsCore, "build"), m.Build.AnyAttr)
	for _, it := range m.Build.Items {
		x := el(nsCore, "item").a("objectid", utoa(it.ObjectID))
		f.transform(x, it.Transform)
		if it.PartNumber != "" {
			x.a("partnumber", it.PartNumber)
		}
		f.attrs(x, it.AnyAttr)
		f.metaGroup(x, it.Metadata)
		b.add(x)
	}
	n.add(b)
	return f.any(n, m.Any)
}

// child is the document of a non-root model part.
func (f form) child(m *go3mf.Model, c *go3mf.ChildModel) *N {
	n := f.head(m)
	n.add(f.resources(&c.Resources))
	n.add(el(nsCore, "build"))
	return f.any(n, c.Any)
}

// ---------------------------------------------------------------------------
// semantic reduces a document to what it means: defaults dropped, inherited
// values spelled out, numbers compared as numbers.

var floatAttrs = map[string]string{ // element -> attributes that are numbers or lists of numbers
	nsCore + " vertex": "x y z", nsCore + " item": "transform objectid", nsCore + " component": "transform objectid",
	nsCore + " object": "id pid pindex", nsCore + " triangle": "v1 v2 v3 pid p1 p2 p3", nsCore + " basematerials": "id",
	nsMat + " colorgroup": "id", nsMat + " texture2d": "id", nsMat + " texture2dgroup": "id texid", nsMat + " tex2coord": "u v",
	nsMat + " compositematerials": "id matid matindices", nsMat + " composite": "values", nsMat + " multiproperties": "id pids",
	nsMat + " multi": "pindices", nsSlice + " slicestack": "id zbottom", nsSlice + " slice": "ztop", nsSlice + " vertex": "x y",
	nsSlice + " polygon": "startv", nsSlice + " segment": "v2 pid p1 p2", nsSlice + " sliceref": "slicestackid",
	nsBeam + " beamlattice": "minlength radius clippingmesh representationmesh", nsBeam + " beam": "v1 v2 r1 r2", nsBeam + " ref": "index",
}

var dropDefaults = map[string]string{
	nsCore + " model unit": "millimeter", nsCore + " object type": "model", nsCore + " object pindex": "0",
	nsCore + " metadata preserve": "false", nsCore + " item transform": "1 0 0 0 1 0 0 0 1 0 0 0",
	nsCore + " component transform": "1 0 0 0 1 0 0 0 1 0 0 0", nsMat + " texture2d tilestyleu": "wrap",
	nsMat + " texture2d tilestylev": "wrap", nsMat + " texture2d filter": "auto", nsSlice + " slicestack zbottom": "0",
	nsBeam + " beamlattice clippingmode": "none", nsBeam + " beamlattice cap": "sphere",
	nsMat + " multiproperties blendmethods": "",
}

// dropEmpty lists the containers whose absence means the same as being empty.
var dropEmpty = map[string]bool{
	nsCore + " metadatagroup": true, nsSlice + " vertices": true, nsBeam + " beamsets": true,
}

func numbers(s string) string {
	fs := strings.Fields(s)
	for i, x := range fs {
		v, err := strconv.ParseFloat(x, 64)
		if err != nil {
			return "!" + s
		}
		v32 := float32(v)
		if v > 1<<24 || v < -(1<<24) { // identifiers need their 32 bits
			fs[i] = strconv.FormatFloat(v, 'g', -1, 64)
			continue
		}
		if v32 == 0 {
			v32 = 0
		}
		fs[i] = strconv.FormatFloat(float64(v32), 'g', -1, 32)
		if fs[i] == "-0" {
			fs[i] = "0"
		}
	}
	return strings.Join(fs, " ")
}

func (n *N) get(local string) (string, bool) {
	for _, a := range n.Attr {
		if a.Space == "" && a.Local == local {
			return a.Value, true
		}
	}
	return "", false
}

func (n *N) set(local, v string) {
	for i, a := range n.Attr {
		if a.Space == "" && a.Local == local {
			n.Attr[i].Value = v
			return
		}
	}
	n.a(local, v)
}

func (n *N) def(local, v string) string {
	if x, ok := n.get(local); ok {
		return x
	}
	n.a(local, v)
	return v
}

func semantic(root *N) *N {
	r := root.clone()
	sem(r, nil)
	return r
}

func sem(n *N, up []*N) {
	key := n.Space + " " + n.Local
	nums := strings.Fields(floatAttrs[key])
	var out []A
	for _, a := range n.Attr {
		if a.Space == "" {
			for _, x := range nums {
				if x == a.Local {
					a.Value = numbers(a.Value)
				}
			}
			if d, ok := dropDefaults[key+" "+a.Local]; ok && a.Value == d {
				continue
			}
			if (key == nsCore+" base" && a.Local == "displaycolor") || (key == nsMat+" color" && a.Local == "color") {
				a.Value = strings.ToLower(a.Value)
				if len(a.Value) == 7 {
					a.Value += "ff"
				}
			}
			if key == nsCore+" model" && a.Local == "requiredextensions" {
				f := strings.Fields(a.Value)
				sort.Strings(f)
				a.Value = strings.Join(f, " ")
				if a.Value == "" {
					continue
				}
			}
		}
		if key == nsCore+" model" {
			if a.Space == xmlNS && a.Local == "lang" && a.Value == "" {
				continue
			}
			if a.Space == "xmlns" && a.Value == nsCore {
				continue
			}
		}
		if key == nsCore+" object" && a.Space == nsSlice && a.Local == "meshresolution" && a.Value == "fullres" {
			continue
		}
		out = append(out, a)
	}
	n.Attr = out
	anc := func(local string) *N {
		for i := len(up) - 1; i >= 0; i-- {
			if up[i].Local == local {
				return up[i]
			}
		}
		return &N{}
	}
	switch key {
	case nsCore + " triangle":
		o := anc("object")
		pid, _ := o.get("pid")
		if _, ok := n.get("pid"); ok || pid != "" {
			if pid == "" {
				pid = "0"
			}
			pix, _ := o.get("pindex")
			if pix == "" {
				pix = "0"
			}
			n.def("pid", pid)
			p1 := n.def("p1", pix)
			n.def("p2", p1)
			n.def("p3", p1)
		}
	case nsBeam + " beam":
		l := anc("beamlattice")
		r, _ := l.get("radius")
		r1 := n.def("r1", r)
		n.def("r2", r1)
		c, ok := l.get("cap")
		if !ok {
			c = "sphere"
		}
		n.def("cap1", c)
		n.def("cap2", c)
	case nsSlice + " segment":
		if p1, ok := n.get("p1"); ok {
			n.def("p2", p1)
		}
	}
	var kids []*N
	for _, k := range n.Kids {
		if k.Space == "" && k.Local == "#text" {
			kids = append(kids, k)
			continue
		}
		sem(k, append(up[:len(up):len(up)], n))
		if dropEmpty[k.Space+" "+k.Local] && len(k.Kids) == 0 && len(k.Attr) == 0 {
			continue
		}
		kids = append(kids, k)
	}
	n.Kids = kids
}
