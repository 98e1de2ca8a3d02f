package props

import (
	"fmt"
	"image/color"
	"sort"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	specerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

// The reference validator: the rules of the specifications, one by one, written
// over the data of a model. It yields the set of violations, each with the part,
// the place in the part and the rule.

type refValidator struct {
	m    *go3mf.Model
	out  []string
	path string   // part reported with the errors
	at   []string // place
}

func missing(name string) error { return specerr.NewMissingFieldError(name) }

func vkey(path, xpath, text string) string { return path + " | " + xpath + " | " + text }

func (r *refValidator) add(err error) {
	r.out = append(r.out, vkey(r.path, "/"+strings.Join(r.at, "/"), err.Error()))
}

func (r *refValidator) in(level string, f func()) {
	r.at = append(r.at, level)
	f()
	r.at = r.at[:len(r.at)-1]
}

func (r *refValidator) inI(level string, i int, f func()) { r.in(fmt.Sprintf("%s[%d]", level, i), f) }

func (r *refValidator) part(path string, f func()) {
	old := r.path
	r.path = path
	f()
	r.path = old
}

func (r *refValidator) uses(ns string) bool {
	for _, e := range r.m.Extensions {
		if e.Namespace == ns {
			return true
		}
	}
	return false
}

func rootName(m *go3mf.Model) string {
	if m.Path == "" {
		return go3mf.DefaultModelPath
	}
	return m.Path
}

// resourcesOf finds the resources of a part.
func resourcesOf(m *go3mf.Model, path string) *go3mf.Resources {
	if path == "" || path == rootName(m) {
		return &m.Resources
	}
	if c, ok := m.Childs[path]; ok {
		return &c.Resources
	}
	return nil
}

func objectOf(m *go3mf.Model, path string, id uint32) *go3mf.Object {
	if rs := resourcesOf(m, path); rs != nil {
		for _, o := range rs.Objects {
			if o.ID == id {
				return o
			}
		}
	}
	return nil
}

func assetOf(m *go3mf.Model, path string, id uint32) go3mf.Asset {
	if rs := resourcesOf(m, path); rs != nil {
		for _, a := range rs.Assets {
			if a.Identify() == id {
				return a
			}
		}
	}
	return nil
}

func itemPath(it *go3mf.Item) string {
	for _, a := range it.AnyAttr {
		if a, ok := a.(*production.ItemAttr); ok && a.Path != "" {
			return a.Path
		}
	}
	return ""
}

func compPath(c *go3mf.Component, def string) string {
	for _, a := range c.AnyAttr {
		if a, ok := a.(*production.ComponentAttr); ok && a.Path != "" {
			return a.Path
		}
	}
	return def
}

func sortedParts(m *go3mf.Model) (out []string) {
	for p := range m.Childs {
		out = append(out, p)
	}
	sort.Strings(out)
	return
}

// refValidate is the whole rule book.
func refValidate(m *go3mf.Model) []string {
	r := &refValidator{m: m}
	r.in("model", func() {
		r.part("", func() { r.rels(m.RootRelationships) })
		for _, e := range m.Extensions {
			if e.IsRequired && !registered[e.Namespace] {
				r.add(specerr.ErrRequiredExt)
				break
			}
		}
		for p, c := range m.Childs {
			if p == rootName(m) {
				r.add(specerr.ErrOPCDuplicatedModelName)
			} else {
				r.part(p, func() { r.rels(c.Relationships) })
			}
		}
		r.part(rootName(m), func() { r.rels(m.Relationships) })
		r.metadata(m.Metadata)
		for p, c := range m.Childs {
			r.part(p, func() { r.resources(&c.Resources, p) })
		}
		r.resources(&m.Resources, rootName(m))
		r.in("build", func() {
			for i, it := range m.Build.Items {
				r.inI("item", i, func() { r.item(it) })
			}
			if r.uses(production.Namespace) {
				r.buildUUIDs()
			}
		})
	})
	return r.out
}

var registered = map[string]bool{materials.Namespace: true, production.Namespace: true, slices.Namespace: true, beamlattice.Namespace: true}

func (r *refValidator) rels(rels []go3mf.Relationship) {
	attached := func(path string) *go3mf.Attachment {
		for i := range r.m.Attachments {
			if strings.EqualFold(r.m.Attachments[i].Path, path) {
				return &r.m.Attachments[i]
			}
		}
		return nil
	}
	isPart := func(path string) bool {
		if strings.EqualFold(path, rootName(r.m)) {
			return true
		}
		for p := range r.m.Childs {
			if strings.EqualFold(p, path) {
				return true
			}
		}
		return attached(path) != nil
	}
	seen := map[string]bool{}
	tickets := 0
	for i, rel := range rels {
		r.inI("relationship", i, func() {
			if !strings.HasPrefix(rel.Path, "/") || strings.Contains(rel.Path, "/.") {
				r.add(specerr.ErrOPCPartName)
			} else {
				if !isPart(rel.Path) {
					r.add(specerr.ErrOPCRelTarget)
				}
				k := rel.Path + "\x00" + rel.Type
				if seen[k] {
					r.add(specerr.ErrOPCDuplicatedRel)
				}
				seen[k] = true
			}
			if a := attached(rel.Path); rel.Type == go3mf.RelTypePrintTicket && a != nil {
				if a.ContentType != go3mf.ContentTypePrintTicket {
					r.add(specerr.ErrOPCContentType)
				}
				if tickets++; tickets > 1 {
					r.add(specerr.ErrOPCDuplicatedTicket)
				}
			}
		})
	}
}

var metaNames = map[string]bool{"title": true, "designer": true, "description": true, "copyright": true, "licenseterms": true,
	"rating": true, "creationdate": true, "modificationdate": true, "application": true}

func (r *refValidator) metadata(ms []go3mf.Metadata) {
	for i, md := range ms {
		r.inI("metadata", i, func() {
			switch {
			case md.Name.Local == "":
				r.add(missing("name"))
			case md.Name.Space == "":
				if !metaNames[strings.ToLower(md.Name.Local)] {
					r.add(specerr.ErrMetadataName)
				}
			case !r.uses(md.Name.Space):
				r.add(specerr.ErrMetadataNamespace)
			}
			for j := 0; j < i; j++ {
				if ms[j].Name == md.Name {
					r.add(specerr.ErrMetadataDuplicated)
					break
				}
			}
		})
	}
}

func (r *refValidator) item(it *go3mf.Item) {
	if it.ObjectID == 0 {
		r.add(missing("objectid"))
	} else if o := objectOf(r.m, itemPath(it), it.ObjectID); o == nil {
		r.add(specerr.ErrMissingResource)
	} else if o.Type == go3mf.ObjectTypeOther {
		r.add(specerr.ErrOtherItem)
	}
	r.metadata(it.Metadata.Metadata)
}

func (r *refValidator) resources(rs *go3mf.Resources, path string) {
	r.in("resources", func() {
		seen := map[uint32]bool{0: false}
		id := func(id uint32) {
			if seen[id] && id != 0 {
				r.add(specerr.ErrDuplicatedID)
			}
			seen[id] = true
		}
		for i, a := range rs.Assets {
			r.inI(a.XMLName().Local, i, func() {
				id(a.Identify())
				r.asset(a, path)
			})
		}
		for i, o := range rs.Objects {
			r.inI("object", i, func() {
				id(o.ID)
				r.object(o, path)
			})
		}
	})
}

func (r *refValidator) asset(a go3mf.Asset, path string) {
	if a, ok := a.(*go3mf.BaseMaterials); ok {
		if a.ID == 0 {
			r.add(specerr.ErrMissingID)
		}
		if len(a.Materials) == 0 {
			r.add(specerr.ErrEmptyResourceProps)
		}
		for i, b := range a.Materials {
			r.inI("base", i, func() {
				if b.Name == "" {
					r.add(missing("name"))
				}
				if b.Color == (color.RGBA{}) {
					r.add(missing("displaycolor"))
				}
			})
		}
	}
	if r.uses(materials.Namespace) {
		r.materials(a, path)
	}
	if st, ok := a.(*slices.SliceStack); ok && r.uses(slices.Namespace) {
		r.sliceStack(st, path)
	}
}

// groupLen is the number of properties of a property group, -1 for other resources.
func groupLen(a go3mf.Asset) int {
	switch a := a.(type) {
	case *go3mf.BaseMaterials:
		return len(a.Materials)
	case *materials.ColorGroup:
		return len(a.Colors)
	case *materials.Texture2DGroup:
		return len(a.Coords)
	case *materials.CompositeMaterials:
		return len(a.Composites)
	case *materials.MultiProperties:
		return len(a.Multis)
	}
	return -1
}

func solidType(o *go3mf.Object) bool {
	return o.Type == go3mf.ObjectTypeModel || o.Type == go3mf.ObjectTypeSolidSupport
}

func (r *refValidator) object(o *go3mf.Object, path string) {
	if o.ID == 0 {
		r.add(specerr.ErrMissingID)
	}
	if o.PID == 0 && o.PIndex != 0 {
		r.add(missing("pid"))
	}
	if (o.Mesh == nil) == (o.Components == nil) {
		r.add(specerr.ErrInvalidObject)
	}
	r.metadata(o.Metadata.Metadata)
	if o.Mesh != nil {
		if o.PID != 0 {
			if a := assetOf(r.m, path, o.PID); a == nil {
				r.add(specerr.ErrMissingResource)
			} else if n := groupLen(a); n >= 0 && uint64(o.PIndex) >= uint64(n) {
				r.add(specerr.ErrIndexOutOfBounds)
			}
		}
		r.in("mesh", func() { r.mesh(o, path) })
	}
	if o.Components != nil && len(o.Components.Component) > 0 {
		if o.PID != 0 {
			r.add(specerr.ErrComponentsPID)
		}
		r.in("components", func() {
			for i, c := range o.Components.Component {
				r.inI("component", i, func() {
					cp := compPath(c, path)
					switch {
					case c.ObjectID == 0:
						r.add(missing("objectid"))
					case objectOf(r.m, cp, c.ObjectID) == nil:
						r.add(specerr.ErrMissingResource)
					case r.leadsTo(cp, c.ObjectID, path, o.ID):
						r.add(specerr.ErrRecursion)
					}
				})
			}
		})
	}
	if r.uses(slices.Namespace) {
		r.objectSlices(o, path)
	}
	if r.uses(beamlattice.Namespace) {
		r.lattice(o, path)
	}
	if r.uses(production.Namespace) {
		r.objectUUIDs(o, path)
	}
}

// leadsTo says whether an object contains another one, or is it.
func (r *refValidator) leadsTo(path string, id uint32, tpath string, tid uint32) bool {
	type key struct {
		rs *go3mf.Resources
		id uint32
	}
	target := key{resourcesOf(r.m, tpath), tid}
	seen := map[key]bool{}
	var walk func(path string, id uint32) bool
	walk = func(path string, id uint32) bool {
		k := key{resourcesOf(r.m, path), id}
		if k == target {
			return true
		}
		o := objectOf(r.m, path, id)
		if o == nil || o.Components == nil || seen[k] {
			return false
		}
		seen[k] = true
		for _, c := range o.Components.Component {
			if walk(compPath(c, path), c.ObjectID) {
				return true
			}
		}
		return false
	}
	return walk(path, id)
}

func (r *refValidator) mesh(o *go3mf.Object, path string) {
	nv := uint64(len(o.Mesh.Vertices.Vertex))
	if solidType(o) {
		if nv < 3 {
			r.add(specerr.ErrInsufficientVertices)
		}
		if len(o.Mesh.Triangles.Triangle) < 4 && len(o.Mesh.Any) == 0 {
			r.add(specerr.ErrInsufficientTriangles)
		}
	}
	for i, tr := range o.Mesh.Triangles.Triangle {
		r.inI("triangle", i, func() {
			if tr.V1 == tr.V2 || tr.V2 == tr.V3 || tr.V1 == tr.V3 {
				r.add(specerr.ErrDuplicatedIndices)
			}
			if uint64(tr.V1) >= nv || uint64(tr.V2) >= nv || uint64(tr.V3) >= nv {
				r.add(specerr.ErrIndexOutOfBounds)
			}
			own := tr.PID != 0 && (tr.PID != o.PID || tr.P1 != o.PIndex || tr.P2 != o.PIndex || tr.P3 != o.PIndex)
			if !own {
				return // has the property of the object
			}
			if a := assetOf(r.m, path, tr.PID); a == nil {
				r.add(specerr.ErrMissingResource)
			} else if n := groupLen(a); n >= 0 && (uint64(tr.P1) >= uint64(n) || uint64(tr.P2) >= uint64(n) || uint64(tr.P3) >= uint64(n)) {
				r.add(specerr.ErrIndexOutOfBounds)
			}
		})
	}
}

// ---- materials

func (r *refValidator) materials(a go3mf.Asset, path string) {
	bad := func(cond bool, err error) {
		if cond {
			r.add(err)
		}
	}
	switch a := a.(type) {
	case *materials.ColorGroup:
		bad(a.ID == 0, specerr.ErrMissingID)
		bad(len(a.Colors) == 0, specerr.ErrEmptyResourceProps)
		for i, c := range a.Colors {
			r.inI("color", i, func() { bad(c == color.RGBA{}, missing("color")) })
		}
	case *materials.Texture2D:
		bad(a.ID == 0, specerr.ErrMissingID)
		found := false
		for _, at := range r.m.Attachments {
			found = found || strings.EqualFold(at.Path, a.Path)
		}
		bad(a.Path == "", missing("path"))
		bad(a.Path != "" && !found, materials.ErrMissingTexturePart)
		bad(a.ContentType == 0, missing("contenttype"))
	case *materials.Texture2DGroup:
		bad(a.ID == 0, specerr.ErrMissingID)
		_, isTexture := assetOf(r.m, path, a.TextureID).(*materials.Texture2D)
		bad(a.TextureID == 0, missing("texid"))
		bad(a.TextureID != 0 && !isTexture, materials.ErrTextureReference)
		bad(len(a.Coords) == 0, specerr.ErrEmptyResourceProps)
	case *materials.CompositeMaterials:
		bad(a.ID == 0, specerr.ErrMissingID)
		ref := assetOf(r.m, path, a.MaterialID)
		base, isBase := ref.(*go3mf.BaseMaterials)
		bad(a.MaterialID == 0, missing("matid"))
		bad(a.MaterialID != 0 && ref == nil, specerr.ErrMissingResource)
		bad(a.MaterialID != 0 && ref != nil && !isBase, materials.ErrCompositeBase)
		if a.MaterialID != 0 && isBase {
			out := false
			for _, x := range a.Indices {
				out = out || uint64(x) >= uint64(len(base.Materials))
			}
			bad(out, specerr.ErrIndexOutOfBounds)
		}
		bad(len(a.Indices) == 0, missing("matindices"))
		bad(len(a.Composites) == 0, specerr.ErrEmptyResourceProps)
	case *materials.MultiProperties:
		bad(a.ID == 0, specerr.ErrMissingID)
		bad(len(a.PIDs) == 0, missing("pids"))
		bad(len(a.BlendMethods) > len(a.PIDs)-1, materials.ErrMultiBlend)
		bad(len(a.Multis) == 0, specerr.ErrEmptyResourceProps)
		colors := 0
		for i, pid := range a.PIDs {
			ref := assetOf(r.m, path, pid)
			bad(ref == nil, specerr.ErrMissingResource)
			switch ref.(type) {
			case *go3mf.BaseMaterials, *materials.CompositeMaterials:
				bad(i > 0, materials.ErrMaterialMulti)
			case *materials.MultiProperties:
				bad(true, materials.ErrMultiRefMulti)
			case *materials.ColorGroup:
				colors++
				bad(colors > 1, materials.ErrMultiColors)
			}
		}
		for i, mu := range a.Multis {
			out := false
			for k, x := range mu.PIndices {
				if k >= len(a.PIDs) {
					break
				}
				ref := assetOf(r.m, path, a.PIDs[k])
				if _, multi := ref.(*materials.MultiProperties); multi {
					continue // the reference is the violation
				}
				if n := groupLen(ref); n >= 0 && uint64(x) >= uint64(n) {
					out = true
				}
			}
			r.inI("multi", i, func() { bad(out, specerr.ErrIndexOutOfBounds) })
		}
	}
}

// ---- slices

func (r *refValidator) sliceStack(st *slices.SliceStack, path string) {
	if st.ID == 0 {
		r.add(specerr.ErrMissingID)
	}
	if (len(st.Slices) == 0) == (len(st.Refs) == 0) {
		r.add(slices.ErrSlicesAndRefs)
	}
	hasLast, last := false, float32(0)
	for i, ref := range st.Refs {
		r.inI("sliceref", i, func() {
			same := ref.Path == path || ref.Path == rootName(r.m) && path == ""
			if ref.Path == "" {
				r.add(missing("slicepath"))
			} else if same {
				r.add(slices.ErrSliceRefSamePart)
			}
			if ref.SliceStackID == 0 {
				r.add(missing("slicestackid"))
			}
			if ref.Path == "" || same || ref.SliceStackID == 0 {
				return
			}
			a := assetOf(r.m, ref.Path, ref.SliceStackID)
			target, ok := a.(*slices.SliceStack)
			switch {
			case a == nil:
				r.add(specerr.ErrMissingResource)
			case !ok:
				r.add(slices.ErrNonSliceStack)
			default:
				if len(target.Refs) > 0 {
					r.add(slices.ErrSliceRefRef)
				}
				if n := len(target.Slices); n > 0 {
					if hasLast && target.Slices[0].TopZ <= last {
						r.add(slices.ErrSliceNoMonotonic)
					}
					hasLast, last = true, target.Slices[n-1].TopZ
				}
			}
		})
	}
	for i := range st.Slices {
		s := &st.Slices[i]
		r.inI("slice", i, func() {
			if s.TopZ == 0 {
				r.add(missing("ztop"))
			} else if s.TopZ < st.BottomZ {
				r.add(slices.ErrSliceSmallTopZ)
			}
			if i > 0 && s.TopZ <= st.Slices[i-1].TopZ {
				r.add(slices.ErrSliceNoMonotonic)
			}
			nv := uint64(len(s.Vertices.Vertex))
			if nv == 0 && len(s.Polygons) == 0 {
				return
			}
			if nv < 2 {
				r.add(slices.ErrSliceInsufficientVertices)
			}
			if len(s.Polygons) == 0 {
				r.add(slices.ErrSliceInsufficientPolygons)
			}
			for k, p := range s.Polygons {
				r.inI("polygon", k, func() {
					if len(p.Segments) == 0 {
						r.add(slices.ErrSliceInsufficientSegments)
					}
					if uint64(p.StartV) >= nv {
						r.add(specerr.ErrIndexOutOfBounds)
					}
					for l, g := range p.Segments {
						r.inI("segment", l, func() {
							if uint64(g.V2) >= nv {
								r.add(specerr.ErrIndexOutOfBounds)
							}
						})
					}
				})
			}
		})
	}
}

func closed(st *slices.SliceStack) bool {
	for _, s := range st.Slices {
		for _, p := range s.Polygons {
			if n := len(p.Segments); n > 0 && p.Segments[n-1].V2 != p.StartV {
				return false
			}
		}
	}
	return true
}

func planar(m go3mf.Matrix) bool {
	if m == (go3mf.Matrix{}) {
		return true
	}
	return m[2] == 0 && m[6] == 0 && m[8] == 0 && m[9] == 0 && m[10] == 1
}

func (r *refValidator) objectSlices(o *go3mf.Object, path string) {
	var at *slices.ObjectAttr
	for _, a := range o.AnyAttr {
		if a, ok := a.(*slices.ObjectAttr); ok {
			at = a
			break
		}
	}
	if at == nil {
		return
	}
	if at.MeshResolution == slices.ResolutionLow {
		req := false
		for _, e := range r.m.Extensions {
			req = req || e.Namespace == slices.Namespace && e.IsRequired
		}
		if !req {
			r.add(slices.ErrSliceExtRequired)
		}
	}
	if at.SliceStackID == 0 {
		r.add(missing("slicestackid"))
		return
	}
	a := assetOf(r.m, path, at.SliceStackID)
	st, ok := a.(*slices.SliceStack)
	switch {
	case a == nil:
		r.add(specerr.ErrMissingResource)
	case !ok:
		r.add(slices.ErrNonSliceStack)
	default:
		if r.tilted(path, o.ID) {
			r.add(slices.ErrSliceInvalidTranform)
		}
		if solidType(o) {
			ok := closed(st)
			for _, ref := range st.Refs {
				if t, isStack := assetOf(r.m, ref.Path, ref.SliceStackID).(*slices.SliceStack); isStack && !closed(t) {
					ok = false
				}
			}
			if !ok {
				r.add(slices.ErrSlicePolygonNotClosed)
			}
		}
	}
}

// tilted says whether the build places an object with a transform out of the plane.
func (r *refValidator) tilted(path string, id uint32) bool {
	type state struct {
		rs     *go3mf.Resources
		id     uint32
		tilted bool
	}
	seen := map[state]bool{}
	bad := false
	var visit func(p string, oid uint32, tilt bool)
	visit = func(p string, oid uint32, tilt bool) {
		k := state{resourcesOf(r.m, p), oid, tilt}
		if seen[k] {
			return
		}
		seen[k] = true
		if tilt && oid == id && k.rs == resourcesOf(r.m, path) {
			bad = true
		}
		if o := objectOf(r.m, p, oid); o != nil && o.Components != nil {
			for _, c := range o.Components.Component {
				visit(compPath(c, p), c.ObjectID, tilt || !planar(c.Transform))
			}
		}
	}
	for _, it := range r.m.Build.Items {
		visit(itemPath(it), it.ObjectID, !planar(it.Transform))
	}
	return bad
}

// ---- beam lattice

func latticeOf(o *go3mf.Object) *beamlattice.BeamLattice {
	if o.Mesh == nil {
		return nil
	}
	for _, a := range o.Mesh.Any {
		if a, ok := a.(*beamlattice.BeamLattice); ok {
			return a
		}
	}
	return nil
}

func (r *refValidator) lattice(o *go3mf.Object, path string) {
	bl := latticeOf(o)
	if bl == nil {
		return
	}
	r.in("mesh", func() {
		r.in("beamlattice", func() {
			if !solidType(o) {
				r.add(beamlattice.ErrLatticeObjType)
			}
			if bl.MinLength == 0 {
				r.add(missing("minlength"))
			}
			if bl.Radius == 0 {
				r.add(missing("radius"))
			}
			if bl.ClipMode != beamlattice.ClipNone && bl.ClippingMeshID == 0 {
				r.add(beamlattice.ErrLatticeClippedNoMesh)
			}
			for _, id := range []uint32{bl.ClippingMeshID, bl.RepresentationMeshID} {
				if id == 0 {
					continue
				}
				if id == o.ID {
					r.add(specerr.ErrRecursion)
					continue
				}
				var ref *go3mf.Object
				for _, x := range resourcesOf(r.m, path).Objects { // defined before
					if x.ID == o.ID {
						break
					}
					if x.ID == id {
						ref = x
						break
					}
				}
				if ref == nil {
					r.add(specerr.ErrMissingResource)
				} else if ref.Mesh == nil || ref.Type != go3mf.ObjectTypeModel || latticeOf(ref) != nil {
					r.add(beamlattice.ErrLatticeInvalidMesh)
				}
			}
			nv := uint64(len(o.Mesh.Vertices.Vertex))
			for i, b := range bl.Beams.Beam {
				r.inI("beam", i, func() {
					if b.Indices[0] == b.Indices[1] {
						r.add(beamlattice.ErrLatticeSameVertex)
					} else if uint64(b.Indices[0]) >= nv || uint64(b.Indices[1]) >= nv {
						r.add(specerr.ErrIndexOutOfBounds)
					}
					r1, r2 := b.Radius[0], b.Radius[1]
					if r2 != 0 && r1 == 0 || r1 != 0 && r1 != bl.Radius && r2 == 0 {
						r.add(beamlattice.ErrLatticeBeamR2)
					}
				})
			}
			for i, s := range bl.BeamSets.BeamSet {
				r.inI("beamset", i, func() {
					for _, x := range s.Refs {
						if uint64(x) >= uint64(len(bl.Beams.Beam)) {
							r.add(specerr.ErrIndexOutOfBounds)
							break
						}
					}
				})
			}
		})
	})
}

// ---- production

func (r *refValidator) buildUUIDs() {
	var at *production.BuildAttr
	for _, a := range r.m.Build.AnyAttr {
		if a, ok := a.(*production.BuildAttr); ok {
			at = a
			break
		}
	}
	if at == nil {
		r.add(missing("UUID"))
	} else if !validUUID(at.UUID) {
		r.add(production.ErrUUID)
	}
	for i, it := range r.m.Build.Items {
		r.inI("item", i, func() {
			for _, a := range it.AnyAttr {
				if a, ok := a.(*production.ItemAttr); ok {
					r.uuid(a.UUID)
					return
				}
			}
			r.add(missing("UUID"))
		})
	}
}

func (r *refValidator) uuid(s string) {
	if s == "" {
		r.add(missing("UUID"))
	} else if !validUUID(s) {
		r.add(production.ErrUUID)
	}
}

func (r *refValidator) objectUUIDs(o *go3mf.Object, path string) {
	var at *production.ObjectAttr
	for _, a := range o.AnyAttr {
		if a, ok := a.(*production.ObjectAttr); ok {
			at = a
			break
		}
	}
	if at == nil {
		r.add(missing("UUID"))
	} else if !validUUID(at.UUID) {
		r.add(production.ErrUUID)
	}
	if o.Components == nil {
		return
	}
	r.in("components", func() {
		for i, c := range o.Components.Component {
			r.inI("component", i, func() {
				for _, a := range c.AnyAttr {
					if a, ok := a.(*production.ComponentAttr); ok {
						r.uuid(a.UUID)
						if a.Path != "" && resourcesOf(r.m, path) != &r.m.Resources {
							r.add(production.ErrProdRefInNonRoot)
						}
						return
					}
				}
				r.add(missing("UUID"))
			})
		}
	})
}

// ---- comparison

// errorKeys lists the errors of a validation.
func errorKeys(err error) (out []string) {
	for _, e := range members(err) {
		if x, ok := e.(*specerr.Error); ok {
			out = append(out, vkey(x.Path, x.XPath(), x.Err.Error()))
		} else {
			out = append(out, vkey("", "", e.Error()))
		}
	}
	return
}

// collapse removes repetitions of the errors about entries of a list of numbers,
// that have no place of their own, and the ones that are judged elsewhere.
func collapse(keys []string, unjudged func(string) bool) []string {
	var out []string
	seen := map[string]bool{}
	for _, k := range keys {
		f := strings.Split(k, " | ")
		last := f[1][strings.LastIndex(f[1], "/")+1:]
		if strings.HasPrefix(last, "multiproperties[") {
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		if unjudged != nil && unjudged(k) {
			continue
		}
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// checkValid compares the errors of a validation with the rule book.
func checkValid(t *mc.T, m *go3mf.Model, unjudged func(string) bool) {
	t.Step()
	want := refValidate(m)
	err := m.Validate()
	got := errorKeys(err)
	compareErrors(t, "", want, got, unjudged)
	if err != nil && len(got) == 0 {
		t.Failf("an empty error is returned", "%#v", err)
	}
	for _, k := range want {
		t.State(k)
	}
	// The parts that can be validated alone give the same errors.
	eachResources(m, func(p string, rs *go3mf.Resources) {
		var names []string
		rp := p
		if p == "" {
			rp = rootName(m)
			names = []string{"", rp}
		} else if p == rootName(m) {
			return
		} else {
			names = []string{p}
		}
		for i, o := range rs.Objects {
			for _, n := range names {
				r := &refValidator{m: m}
				r.object(o, rp)
				compareErrors(t, fmt.Sprintf("object %d of %q alone: ", i, n), fromObject(r.out), fromObject(errorKeys(o.Validate(m, n))), func(k string) bool {
					f := strings.Split(k, " | ")
					return unjudged != nil && unjudged(vkey(p, fmt.Sprintf("/model/resources/object[%d]", i)+f[1], f[2]))
				})
			}
		}
		for i, a := range rs.Assets {
			if b, ok := a.(*go3mf.BaseMaterials); ok {
				r := &refValidator{m: &go3mf.Model{}}
				r.asset(b, rp)
				compareErrors(t, fmt.Sprintf("asset %d of %q alone: ", i, p), fromObject(r.out), fromObject(errorKeys(b.Validate(m, rp))), unjudged)
			}
		}
	})
}

// fromObject gives the keys relative to an element.
func fromObject(keys []string) (out []string) {
	for _, k := range keys {
		f := strings.Split(k, " | ")
		if f[1] == "/" {
			f[1] = ""
		}
		out = append(out, vkey("", f[1], f[2]))
	}
	return
}

func compareErrors(t *mc.T, what string, want, got []string, unjudged func(string) bool) {
	want, got = collapse(want, unjudged), collapse(got, unjudged)
	count := map[string]int{}
	for _, k := range want {
		count[k]++
	}
	for _, k := range got {
		count[k]--
	}
	var all []string
	for k := range count {
		all = append(all, k)
	}
	sort.Strings(all)
	rule := func(k string) string { return strings.Split(k, " | ")[2] }
	isWanted := func(rule string) bool {
		for _, w := range want {
			if strings.HasSuffix(w, " | "+rule) {
				return true
			}
		}
		return false
	}
	for _, k := range all {
		switch {
		case count[k] > 0:
			t.Failf("a violation is not reported: "+rule(k), "%s%s\nreported:\n%s", what, k, strings.Join(got, "\n"))
		case count[k] < 0 && isWanted(rule(k)):
			t.Failf("a violation is reported at the wrong place or twice: "+rule(k), "%s%s\nexpected:\n%s", what, k, strings.Join(want, "\n"))
		case count[k] < 0:
			t.Failf("an error without violation: "+rule(k), "%s%s\nexpected:\n%s", what, k, strings.Join(want, "\n"))
		}
	}
}

var _ = spec.AnyAttr(nil)
