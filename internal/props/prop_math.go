package props

import (
	"errors"
	"fmt"
	"math"
	"sort"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

// ---- C31: algebra -------------------------------------------------------

type mat = go3mf.Matrix

// affine builds a transform from the 12 numbers of its textual form.
func affine(v ...float32) (m mat) {
	for r := 0; r < 4; r++ {
		for c := 0; c < 3; c++ {
			m[4*r+c] = v[3*r+c]
		}
	}
	m[15] = 1
	return m
}

// matrices holds small integers, so that float32 arithmetic is exact whatever
// the order of the operations.
var matrices = func() []mat {
	out := []mat{
		go3mf.Identity(),
		affine(1, 0, 0, 0, 1, 0, 0, 0, 1, 1, 2, 3),         // translation
		affine(2, 0, 0, 0, 3, 0, 0, 0, 4, 0, 0, 0),         // scale
		affine(-1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0),        // mirror
		affine(0, 1, 0, -1, 0, 0, 0, 0, 1, 0, 0, 0),        // quarter turn about z
		affine(0, 1, 0, 0, 0, 1, 1, 0, 0, 5, -1, 2),        // axes permutation and translation
		affine(1, 2, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0),         // shear
		affine(1, -1, 2, 3, 1, -2, -1, 2, 1, 4, -5, 6),     // general
		affine(0, 0, 0, 0, 0, 0, 0, 0, 0, 7, 8, 9),         // everything to one point
		affine(1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1),         // rank one
		{2, 1, 0, 3, -1, 1, 2, 0, 1, 0, 1, -2, 3, 1, 1, 2}, // not affine
	}
	return out
}()

var basis = func() (out []mat) {
	for i := 0; i < 16; i++ {
		m := go3mf.Identity()
		m[i] += float32(i + 2)
		out = append(out, m)
	}
	return
}()

var points = []go3mf.Point3D{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 2, 3}, {-4, 5, -6}, {7, -1, 2}}

// refMul is the row vector product: first a, then b.
func refMul(a, b mat) (m mat) {
	for r := 0; r < 4; r++ {
		for c := 0; c < 4; c++ {
			var s float64
			for k := 0; k < 4; k++ {
				s += float64(a[4*r+k]) * float64(b[4*k+c])
			}
			m[4*r+c] = float32(s)
		}
	}
	return
}

func refPoint(m mat, p go3mf.Point3D) (q go3mf.Point3D) {
	for c := 0; c < 3; c++ {
		s := float64(m[12+c])
		for k := 0; k < 3; k++ {
			s += float64(p[k]) * float64(m[4*k+c])
		}
		q[c] = float32(s)
	}
	return
}

func isAffine(m mat) bool { return m[3] == 0 && m[7] == 0 && m[11] == 0 && m[15] == 1 }

func algebraProducts(t *mc.T) {
	set := append(append([]mat{{}}, matrices...), basis...)
	a, b := set[t.Free(len(set))], set[t.Free(len(set))]
	got := a.Mul(b)
	t.Case(fmt.Sprint(a, b))
	t.State(fmt.Sprint(got))
	t.Sample("%v . %v = %v", a, b, got)
	if want := refMul(b, a); got != want {
		t.Failf("product differs", "%v.Mul(%v)\n got %v\nwant %v", a, b, got, want)
	}
	if a.Mul(go3mf.Identity()) != a || go3mf.Identity().Mul(a) != a {
		t.Failf("identity is not neutral", "%v", a)
	}
	for _, c := range matrices {
		t.Step()
		if l, r := a.Mul(b).Mul(c), a.Mul(b.Mul(c)); l != r {
			t.Failf("product is not associative", "(%v %v) %v\n got %v\nand %v", a, b, c, l, r)
		}
	}
	for _, p := range points {
		t.Step()
		if g, w := a.Mul3D(p), refPoint(a, p); g != w {
			t.Failf("point transformation differs", "%v.Mul3D(%v) = %v, want %v", a, p, g, w)
		}
		if isAffine(a) && isAffine(b) {
			if g, w := got.Mul3D(p), a.Mul3D(b.Mul3D(p)); g != w {
				t.Failf("transforming by a product differs from successive transformations", "%v %v %v: %v and %v", a, b, p, g, w)
			}
		}
		p2 := go3mf.Point2D{p[0], p[1]}
		w3 := refPoint(a, go3mf.Point3D{p[0], p[1], 0})
		if g := a.Mul2D(p2); g != (go3mf.Point2D{w3[0], w3[1]}) {
			t.Failf("2D point transformation differs", "%v.Mul2D(%v) = %v, want %v", a, p2, g, w3)
		}
		if g, w := a.Translate(p[0], p[1], p[2]).Mul3D(p), addP(refPoint(a, p), p); g != w {
			t.Failf("translation differs", "%v.Translate(%v) of the same point = %v, want %v", a, p, g, w)
		}
	}
	tr := a.Translate(3, 5, 7)
	for i := range tr {
		w := a[i]
		if i >= 12 && i < 15 {
			w += []float32{3, 5, 7}[i-12]
		}
		if tr[i] != w {
			t.Failf("translation changes another element", "%v: %v", a, tr)
		}
	}
}

func addP(a, b go3mf.Point3D) go3mf.Point3D {
	return go3mf.Point3D{a[0] + b[0], a[1] + b[1], a[2] + b[2]}
}

func refBox(m mat, b go3mf.Box) go3mf.Box {
	if m == (mat{}) {
		return b
	}
	var out *go3mf.Box
	for i := 0; i < 8; i++ {
		p := b.Min
		for k := 0; k < 3; k++ {
			if i>>k&1 == 1 {
				p[k] = b.Max[k]
			}
		}
		out = grow(out, refPoint(m, p))
	}
	return *out
}

func grow(b *go3mf.Box, p go3mf.Point3D) *go3mf.Box {
	if b == nil {
		return &go3mf.Box{Min: p, Max: p}
	}
	for k := 0; k < 3; k++ {
		if p[k] < b.Min[k] {
			b.Min[k] = p[k]
		}
		if p[k] > b.Max[k] {
			b.Max[k] = p[k]
		}
	}
	return b
}

func algebraBoxes(t *mc.T) {
	set := append([]mat{{}}, matrices...)
	for _, m := range basis {
		if isAffine(m) {
			set = append(set, m)
		}
	}
	noW := matrices[7]
	noW[15] = 0
	set = append(set, noW)
	m := set[t.Free(len(set))]
	vals := []float32{-2, 0, 1, 4}
	var b go3mf.Box
	for k := 0; k < 3; k++ {
		i := t.Free(len(vals))
		j := t.Free(len(vals) - i)
		b.Min[k], b.Max[k] = vals[i], vals[i+j]
	}
	got, want := m.MulBox(b), refBox(m, b)
	t.Case(fmt.Sprint(m, b))
	t.State(fmt.Sprint(got))
	t.Sample("%v box %v = %v", m, b, got)
	if got != want {
		t.Failf("box transformation differs", "%v.MulBox(%v)\n got %v\nwant %v", m, b, got, want)
	}
}

// ---- C16: bounding boxes -------------------------------------------------

var bbMeshes = [][]go3mf.Point3D{
	{{1, 2, 3}, {4, 6, 8}, {-1, 5, 4}},
	nil,
	{{0, 0, 0}},
	{{5, 5, 5}},
	{{-3, -2, -1}, {-1, -3, -2}},
	{{0, 0, 0}, {2, 2, 2}},
	{{1e6, -1e6, 0}, {1, 1, 1}},
}

var bbTransforms = []mat{
	{},
	go3mf.Identity(),
	affine(1, 0, 0, 0, 1, 0, 0, 0, 1, 10, 20, 30),
	affine(2, 0, 0, 0, 3, 0, 0, 0, 4, 0, 0, 0),
	affine(-1, 0, 0, 0, -1, 0, 0, 0, 1, 1, 0, 0),
	affine(0, 1, 0, -1, 0, 0, 0, 0, 1, 0, 0, 5),
	affine(0, 1, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0),
	affine(1, 2, 0, 0, 1, 0, 0, 3, 1, 0, 0, 0),
	affine(1, -1, 0, 1, 1, 0, 0, 0, 1, 3, 3, 3),
	affine(0, 0, 0, 0, 0, 0, 0, 0, 0, -9, -9, -9),
}

func axisAligned(m mat) bool {
	if m == (mat{}) {
		return true
	}
	for r := 0; r < 3; r++ {
		n, k := 0, 0
		for c := 0; c < 3; c++ {
			if m[4*r+c] != 0 {
				n++
			}
			if m[4*c+r] != 0 {
				k++
			}
		}
		if n > 1 || k > 1 {
			return false
		}
	}
	return true
}

type bbRef struct {
	m       *go3mf.Model
	open    map[string]bool
	cyclic  bool
	aligned bool
}

func (r *bbRef) find(path string, id uint32) *go3mf.Object {
	var rs *go3mf.Resources
	root := r.m.Path
	if root == "" {
		root = go3mf.DefaultModelPath
	}
	if path == "" || path == root {
		rs = &r.m.Resources
	} else if c := r.m.Childs[path]; c != nil {
		rs = &c.Resources
	} else {
		return nil
	}
	for _, o := range rs.Objects {
		if o.ID == id {
			return o
		}
	}
	return nil
}

func extPath(at spec.AnyAttr) string {
	for _, a := range at {
		switch a := a.(type) {
		case *production.ItemAttr:
			return a.Path
		case *production.ComponentAttr:
			return a.Path
		}
	}
	return ""
}

// box computes the box of boxes; verts collects the transformed vertices.
func (r *bbRef) box(o *go3mf.Object, path string) (box *go3mf.Box, verts []go3mf.Point3D) {
	key := fmt.Sprintf("%s#%d", path, o.ID)
	if r.open[key] {
		r.cyclic = true
		return nil, nil
	}
	r.open[key] = true
	defer delete(r.open, key)
	if o.Mesh != nil {
		for _, v := range o.Mesh.Vertices.Vertex {
			box = grow(box, v)
			verts = append(verts, v)
		}
		return
	}
	if o.Components == nil {
		return
	}
	for _, c := range o.Components.Component {
		p := extPath(c.AnyAttr)
		if p == "" {
			p = path
		}
		ref := r.find(p, c.ObjectID)
		if ref == nil {
			continue
		}
		b, vs := r.box(ref, p)
		if b == nil {
			continue
		}
		r.aligned = r.aligned && axisAligned(c.Transform)
		tb := refBox(c.Transform, *b)
		box = grow(grow(box, tb.Min), tb.Max)
		for _, v := range vs {
			if c.Transform != (mat{}) {
				v = refPoint(c.Transform, v)
			}
			verts = append(verts, v)
		}
	}
	return
}

func bbModel(t *mc.T) *go3mf.Model {
	m := &go3mf.Model{Path: mc.Pick(t, "", "/3D/root.model")}
	paths := []string{"/3D/a.model", "/3D/b.model"}
	m.Childs = map[string]*go3mf.ChildModel{}
	root := m.Path
	if root == "" {
		root = go3mf.DefaultModelPath
	}
	attrPath := func(t *mc.T) string { return mc.Pick(t, "", paths[0], paths[1], root, "/3D/none.model") }
	object := func(id uint32, comp bool) *go3mf.Object {
		o := &go3mf.Object{ID: id}
		kind := 0
		if comp {
			kind = 1
		}
		if t.Flip() {
			kind = 1 - kind
		}
		if kind == 0 {
			o.Mesh = &go3mf.Mesh{}
			o.Mesh.Vertices.Vertex = append(o.Mesh.Vertices.Vertex, bbMeshes[t.Choose(len(bbMeshes))]...)
			return o
		}
		n := mc.Pick(t, 1, 2, 0, -1)
		if n < 0 {
			return o // neither a mesh nor components
		}
		o.Components = &go3mf.Components{}
		for i := 0; i < n; i++ {
			c := &go3mf.Component{ObjectID: mc.Pick(t, 1, uint32(2), 3, 9), Transform: bbTransforms[t.Choose(len(bbTransforms))]}
			if p := attrPath(t); p != "" || t.Flip() {
				c.AnyAttr = spec.AnyAttr{&production.ComponentAttr{UUID: uuidN(1), Path: p}}
			}
			o.Components.Component = append(o.Components.Component, c)
		}
		return o
	}
	for i := uint32(1); i <= 3; i++ {
		m.Resources.Objects = append(m.Resources.Objects, object(i, i > 1))
	}
	for _, p := range paths {
		c := &go3mf.ChildModel{}
		c.Resources.Objects = append(c.Resources.Objects, object(1, false), object(2, true))
		c.Resources.Objects[0].Mesh, c.Resources.Objects[0].Components = &go3mf.Mesh{}, nil
		c.Resources.Objects[0].Mesh.Vertices.Vertex = []go3mf.Point3D{{100, float32(len(p)), 0}, {103, 7, 1}}
		m.Childs[p] = c
	}
	for i, n := 0, mc.Pick(t, 1, 2, 0, 3); i < n; i++ {
		it := &go3mf.Item{ObjectID: mc.Pick(t, 2, uint32(1), 3, 9), Transform: bbTransforms[t.Choose(len(bbTransforms))]}
		if p := attrPath(t); p != "" {
			it.AnyAttr = spec.AnyAttr{&production.ItemAttr{UUID: uuidN(2), Path: p}}
		}
		m.Build.Items = append(m.Build.Items, it)
	}
	return m
}

func boundingBoxes(t *mc.T) {
	m := bbModel(t)
	logModel(t, m)
	checkBox(t, m)
}

// boxParts has every graph of three objects in each of two parts with the same
// identifiers.
func boxParts(t *mc.T) {
	m := &go3mf.Model{Path: mc.Pick(t, "", "/3D/r.model")}
	root := rootName(m)
	here, there := root, childPath
	path := func() string {
		if t.Flip() {
			return here
		}
		return mc.Each(t, "", there)
	}
	k := float32(1)
	objects := func(rs *go3mf.Resources) {
		for id := uint32(1); id <= 3; id++ {
			k *= 4
			o := &go3mf.Object{ID: id}
			n := 0
			if id > 1 {
				n = t.Free(2) + t.Choose(2)
			}
			if n == 0 {
				o.Mesh = &go3mf.Mesh{Vertices: go3mf.Vertices{Vertex: []go3mf.Point3D{{k, 0, -k}, {k + 1, 2, 0}}}}
			} else {
				o.Components = &go3mf.Components{}
			}
			for i := 0; i < n; i++ {
				c := compAt(1+uint32(t.Free(3)), path())
				k *= 2
				c.Transform = go3mf.Identity().Translate(k, -k, 0)
				o.Components.Component = append(o.Components.Component, c)
			}
			rs.Objects = append(rs.Objects, o)
		}
	}
	c := &go3mf.ChildModel{}
	objects(&m.Resources)
	here, there = there, here
	objects(&c.Resources)
	here, there = there, here
	m.Childs = map[string]*go3mf.ChildModel{childPath: c}
	m.Build.Items = []*go3mf.Item{itemAt(1+uint32(t.Free(3)), path())}
	if t.Flip() {
		m.Build.Items = append(m.Build.Items, itemAt(1, path()))
	}
	logModel(t, m)
	checkBox(t, m)
}

func checkBox(t *mc.T, m *go3mf.Model) { checkBoxOf(t, m, m.BoundingBox) }

// boxSchedules measures a model whose items are of all kinds under every schedule.
func boxSchedules(class, items int) func(t *mc.T) {
	return func(t *mc.T) {
		m := &go3mf.Model{}
		add := func(id uint32, vs ...go3mf.Point3D) {
			m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: id, Mesh: &go3mf.Mesh{Vertices: go3mf.Vertices{Vertex: vs}}})
		}
		add(1, go3mf.Point3D{-5, 1, 1}, go3mf.Point3D{1, 1, 7})
		add(2, go3mf.Point3D{2, -6, 2}, go3mf.Point3D{8, 0, 0})
		add(3, go3mf.Point3D{0, 0, -7}, go3mf.Point3D{0, 9, 0})
		add(4) // nothing
		m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: 5, Components: &go3mf.Components{Component: []*go3mf.Component{
			{ObjectID: 1, Transform: go3mf.Identity().Translate(20, 0, 0)}, {ObjectID: 2}}}})
		m.Childs = map[string]*go3mf.ChildModel{childPath: {Resources: go3mf.Resources{Objects: []*go3mf.Object{
			{ID: 1, Mesh: &go3mf.Mesh{Vertices: go3mf.Vertices{Vertex: []go3mf.Point3D{{0, 0, 30}}}}}}}}}
		for i := 0; i < items; i++ {
			k := t.Free(7)
			it := &go3mf.Item{ObjectID: uint32(k + 1)} // 6: no such object
			if k == 6 {
				it = itemAt(1, childPath)
			}
			m.Build.Items = append(m.Build.Items, it)
		}
		logModel(t, m)
		checkBoxOf(t, m, func() (b go3mf.Box) {
			controlled(t, class, func() { b = m.BoundingBox() })
			return
		})
	}
}

func checkBoxOf(t *mc.T, m *go3mf.Model, measure func() go3mf.Box) {
	r := &bbRef{m: m, open: map[string]bool{}, aligned: true}
	var want *go3mf.Box
	var verts []go3mf.Point3D
	for _, it := range m.Build.Items {
		p := extPath(it.AnyAttr)
		if o := r.find(p, it.ObjectID); o != nil {
			b, vs := r.box(o, p)
			if b != nil {
				r.aligned = r.aligned && axisAligned(it.Transform)
				tb := refBox(it.Transform, *b)
				want = grow(grow(want, tb.Min), tb.Max)
				for _, v := range vs {
					if it.Transform != (mat{}) {
						v = refPoint(it.Transform, v)
					}
					verts = append(verts, v)
				}
			}
		}
	}
	before := dump(m)
	got := measure()
	t.Case(before)
	t.State(fmt.Sprint(got))
	t.Sample("box %v of %d items", got, len(m.Build.Items))
	if dump(m) != before {
		t.Failf("measuring changes the model", "%s", diff(before, dump(m)))
	}
	if r.cyclic {
		return // nothing to compare with: recursive models have no box
	}
	if want == nil {
		want = &go3mf.Box{}
	}
	if got != *want {
		t.Failf("bounding box differs", "got %v want %v", got, *want)
	}
	var hull *go3mf.Box
	for _, v := range verts {
		hull = grow(hull, v)
		for k := 0; k < 3; k++ {
			if v[k] < got.Min[k] || v[k] > got.Max[k] {
				t.Failf("a vertex is outside the bounding box", "%v not in %v", v, got)
			}
		}
	}
	if r.aligned && hull != nil && got != *hull {
		t.Failf("bounding box is not the smallest one", "got %v want %v", got, *hull)
	}
}

func meshBoxes(t *mc.T) {
	vals := []float32{0, -1, 2, 1e30, -1e30, 0.001}
	n := t.Free(5)
	mesh := &go3mf.Mesh{}
	var want *go3mf.Box
	if n == 4 { // longer ones: inside in all directions but one
		pts := []go3mf.Point3D{{}, {2, 2, 2}, {1, 1, 9}, {1, 1, -9}, {9, 1, 1}, {-9, 1, 1}, {1, 9, 1}, {1, -9, 1}}
		for n = 0; n < deeper(t, 6); n++ {
			p := pts[t.Free(len(pts))]
			mesh.Vertices.Vertex = append(mesh.Vertices.Vertex, p)
			want = grow(want, p)
		}
		n = 0
	}
	for i := 0; i < n; i++ {
		var p go3mf.Point3D
		for k := range p {
			p[k] = vals[t.Free(len(vals))]
			if i == 2 && k == 1 {
				break
			}
		}
		mesh.Vertices.Vertex = append(mesh.Vertices.Vertex, p)
		want = grow(want, p)
	}
	if want == nil {
		want = &go3mf.Box{}
	}
	got := mesh.BoundingBox()
	t.Case(fmt.Sprint(mesh.Vertices.Vertex))
	t.State(fmt.Sprint(got))
	if got != *want {
		t.Failf("mesh bounding box differs", "%v: got %v want %v", mesh.Vertices.Vertex, got, *want)
	}
}

// boxScale measures graphs whose unfolding is exponential.
func boxScale(t *mc.T) {
	m := &go3mf.Model{}
	depth := mc.Each(t, 2, 16, 64, 400)
	m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: 1, Mesh: &go3mf.Mesh{Vertices: go3mf.Vertices{Vertex: []go3mf.Point3D{{1, 1, 1}, {2, 3, 4}}}}})
	for i := 2; i <= depth; i++ {
		id := uint32(i)
		cs := []*go3mf.Component{{ObjectID: id - 1}, {ObjectID: id - 1}, {ObjectID: id - 1}}
		if t.Tier == "cyclic" || i == 2 {
			cs = append(cs, &go3mf.Component{ObjectID: uint32(mc.Each(t, 1, depth))})
		}
		m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: id, Components: &go3mf.Components{Component: cs}})
	}
	m.Build.Items = []*go3mf.Item{{ObjectID: uint32(depth)}}
	got := m.BoundingBox()
	t.Case(fmt.Sprint(depth, len(m.Resources.Objects[1].Components.Component)))
	if want := (go3mf.Box{Min: go3mf.Point3D{1, 1, 1}, Max: go3mf.Point3D{2, 3, 4}}); got != want {
		t.Failf("bounding box differs", "got %v want %v", got, want)
	}
}

// ---- C24: mesh builder ---------------------------------------------------

var builderPoints = []go3mf.Point3D{
	{0, 0, 0}, {float32(math.Copysign(0, -1)), 0, 0}, {1, 2, 3}, {1, 2, 3.00001}, {3, 2, 1}, {-1, 2, 3},
	{3000, 0, 0}, {5000, 0, 0}, {-3000, 0, 0}, {0, 3000, 5000}, {0, 5000, 3000},
	{1000, 1, 1}, {math.Nextafter32(1000, 2000), 1, 1},
	{31.9, 0, 0}, {math.Nextafter32(31.9, 32), 0, 0}, {math.Nextafter32(math.Nextafter32(31.9, 32), 32), 0, 0},
	{1e10, 0, 0}, {2e10, 0, 0}, {1e30, 1e30, 1e30}, {1e30, 1e30, 2e30}, {math.MaxFloat32, 0, 0}, {-math.MaxFloat32, 0, 0},
	{1, 2, -3}, {1, -2, 3}, {1e-6, 0, 0}, {4e-6, 0, 0}, {-2e-6, 0, 0}, {1e-9, 0, 0},
}

func near(a, b go3mf.Point3D) bool {
	for k := range a {
		if a[k] != b[k] && math.Abs(float64(a[k])-float64(b[k])) > 1.001e-6 {
			return false
		}
	}
	return true
}

func builder(t *mc.T, n int) {
	mesh := &go3mf.Mesh{}
	for i, k := 0, t.Choose(3); i < k; i++ {
		mesh.Vertices.Vertex = append(mesh.Vertices.Vertex, builderPoints[t.Choose(len(builderPoints))])
	}
	mb := go3mf.NewMeshBuilder(mesh)
	for i := 0; i < n; i++ {
		switch t.Choose(4) {
		case 1:
			mb.CalculateConnectivity = !mb.CalculateConnectivity
		case 2: // the mesh is extended behind the builder's back
			mesh.Vertices.Vertex = append(mesh.Vertices.Vertex, builderPoints[t.Free(4)])
		case 3:
			i = n
		}
		p := builderPoints[t.Free(len(builderPoints))]
		before := append([]go3mf.Point3D(nil), mesh.Vertices.Vertex...)
		got := mb.AddVertex(p)
		t.Step()
		after := mesh.Vertices.Vertex
		t.Logf("AddVertex(%v) = %d, %d vertices, connectivity %v", p, got, len(after), mb.CalculateConnectivity)
		t.State(fmt.Sprint(after, mb.CalculateConnectivity))
		for j := range before {
			if after[j] != before[j] {
				t.Failf("an existing vertex changes", "vertex %d: %v to %v", j, before[j], after[j])
			}
		}
		if int(got) >= len(after) {
			t.Failf("the index is not that of a vertex", "%d of %d", got, len(after))
		}
		if !near(after[got], p) {
			t.Failf("distant vertices are merged", "%v is given the index of %v", p, after[got])
		}
		first := -1
		close := false
		for j, v := range before {
			if v == p && first < 0 {
				first = j
			}
			close = close || near(v, p)
		}
		switch {
		case !mb.CalculateConnectivity || !close:
			if len(after) != len(before)+1 || int(got) != len(before) || after[got] != p {
				t.Failf("a new vertex is not appended", "%v: index %d, %d vertices before, %d after", p, got, len(before), len(after))
			}
		case first >= 0:
			if len(after) != len(before) {
				t.Failf("an equal vertex is added again", "%v, index %d", p, got)
			}
			// any earlier vertex of the same cell will do, the first one added comes first
			if int(got) > first {
				t.Failf("the index is not that of the first equal vertex", "%v: %d, first %d", p, got, first)
			}
		default:
			if len(after) == len(before)+1 && int(got) != len(before) || len(after) > len(before)+1 {
				t.Failf("the index of a new vertex is wrong", "%v: %d of %d", p, got, len(after))
			}
		}
	}
	t.Case(fmt.Sprint(mesh.Vertices.Vertex))
}

// closePairs adds two points that differ by a few tenths of the accuracy.
func closePairs(t *mc.T) {
	base := []float64{0, 1e-3, -1e-3, 0.05, -0.05, 0.5e-6, 0.9}[t.Free(7)]
	axis := t.Free(3)
	var p, q go3mf.Point3D
	p[axis] = float32(base + float64(t.Free(81)-40)*1e-7)
	q[axis] = float32(base + float64(t.Free(81)-40)*1e-7)
	other := (axis + 1 + t.Free(2)) % 3
	p[other] = 1
	q[other] = 1
	addPair(t, p, q)
}

// stepPairs adds two points at any magnitude, some steps of single precision apart.
func stepPairs(t *mc.T) {
	var p, q go3mf.Point3D
	axis := t.Free(3)
	bits := uint32(t.Free(255))<<23 | []uint32{0, 1, 0x155555, 0x400000, 0x7ffff0}[t.Free(5)]
	if t.Free(2) == 1 {
		bits |= 1 << 31
	}
	p[axis] = math.Float32frombits(bits)
	q[axis] = math.Float32frombits(bits + []uint32{0, 1, 2, 3, 9}[t.Free(5)])
	if t.Free(2) == 1 {
		p, q = q, p
	}
	addPair(t, p, q)
}

// addPair adds two points to a mesh.
func addPair(t *mc.T, p, q go3mf.Point3D) {
	t.Case(fmt.Sprint(p, q))
	mesh := &go3mf.Mesh{}
	var mb *go3mf.MeshBuilder
	if t.Free(2) == 0 {
		mb = go3mf.NewMeshBuilder(mesh)
		if i := mb.AddVertex(p); i != 0 || len(mesh.Vertices.Vertex) != 1 {
			t.Failf("a new vertex is not appended", "%v: index %d", p, i)
		}
	} else {
		mesh.Vertices.Vertex = []go3mf.Point3D{p}
		mb = go3mf.NewMeshBuilder(mesh)
	}
	i := mb.AddVertex(q)
	t.Step()
	n := len(mesh.Vertices.Vertex)
	t.State(fmt.Sprint(p, q, i, n))
	switch {
	case int(i) != n-1 || n > 2 || mesh.Vertices.Vertex[0] != p:
		t.Failf("the index is not that of a vertex", "%v, %v: %d of %d", p, q, i, n)
	case p == q && n != 1:
		t.Failf("an equal vertex is added again", "%v", p)
	case n == 1 && !near(p, q):
		t.Failf("distant vertices are merged", "%v and %v", p, q)
	case n == 2 && mesh.Vertices.Vertex[1] != q:
		t.Failf("a new vertex is not appended", "%v: %v", q, mesh.Vertices.Vertex[1])
	}
}

// ---- C23: lookup and walking ----------------------------------------------

var lookupIDs = []uint32{1, 2, 3, 0, math.MaxUint32}

func lookupModel(t *mc.T) *go3mf.Model {
	m := &go3mf.Model{Path: mc.Pick(t, "", go3mf.DefaultModelPath, "/other.model")}
	var first *go3mf.Object
	fill := func(rs *go3mf.Resources, na, no int) {
		for i, n := 0, (na+t.Choose(3))%3; i < n; i++ {
			rs.Assets = append(rs.Assets, &go3mf.BaseMaterials{ID: lookupIDs[t.Choose(len(lookupIDs))]})
		}
		for i, n := 0, (no+t.Choose(3))%3; i < n; i++ {
			k := t.Choose(len(lookupIDs) + 1)
			if k == len(lookupIDs) { // the one that was made first, again
				if first != nil {
					rs.Objects = append(rs.Objects, first)
				}
				continue
			}
			o := &go3mf.Object{ID: lookupIDs[(1+k)%len(lookupIDs)]}
			if first == nil {
				first = o
			}
			rs.Objects = append(rs.Objects, o)
		}
	}
	fill(&m.Resources, 1, 1)
	names := []string{"/b.model", "/a.model", "/B.model", go3mf.DefaultModelPath, "/other.model", "/a.modelx", "/Other.model", "/3D/3DModel.model"}
	n := mc.Pick(t, 2, 0, 1, 3)
	for i := 0; i < n; i++ {
		if m.Childs == nil {
			m.Childs = map[string]*go3mf.ChildModel{}
		}
		c := &go3mf.ChildModel{}
		fill(&c.Resources, 1, 1)
		m.Childs[names[(i+t.Choose(len(names)))%len(names)]] = c
	}
	return m
}

var errStop = errors.New("stop")

func lookup(t *mc.T) {
	m := lookupModel(t)
	before := dump(m)
	t.Case(before)
	t.Sample("%d children, %d assets, %d objects", len(m.Childs), len(m.Resources.Assets), len(m.Resources.Objects))
	root := m.Path
	if root == "" {
		root = go3mf.DefaultModelPath
	}
	if m.PathOrDefault() != root {
		t.Failf("path of the root model differs", "%q want %q", m.PathOrDefault(), root)
	}
	parts := map[string]*go3mf.Resources{"": &m.Resources}
	for p, c := range m.Childs {
		parts[p] = &c.Resources
	}
	parts[root] = &m.Resources
	for _, p := range []string{"", go3mf.DefaultModelPath, "/other.model", "/a.model", "/b.model", "/B.model", "/a.modelx", "a.model", "/A.model", "/none", "/Other.model", "/3D/3DModel.model"} {
		want := parts[p]
		got, ok := m.FindResources(p)
		if ok != (want != nil) || got != want {
			t.Failf("FindResources differs", "%q: found %v, want %v", p, ok, want != nil)
		}
		for _, id := range lookupIDs {
			t.Step()
			var wo *go3mf.Object
			var wa go3mf.Asset
			if want != nil {
				for i := len(want.Objects) - 1; i >= 0; i-- {
					if want.Objects[i].ID == id {
						wo = want.Objects[i]
					}
				}
				for i := len(want.Assets) - 1; i >= 0; i-- {
					if want.Assets[i].Identify() == id {
						wa = want.Assets[i]
					}
				}
				if o, ok := want.FindObject(id); o != wo || ok != (wo != nil) {
					t.Failf("Resources.FindObject differs", "%q %d", p, id)
				}
				if a, ok := want.FindAsset(id); a != wa || ok != (wa != nil) {
					t.Failf("Resources.FindAsset differs", "%q %d", p, id)
				}
			}
			if o, ok := m.FindObject(p, id); o != wo || ok != (wo != nil) {
				t.Failf("Model.FindObject differs", "%q %d: %v want %v", p, id, o, wo)
			}
			if a, ok := m.FindAsset(p, id); a != wa || ok != (wa != nil) {
				t.Failf("Model.FindAsset differs", "%q %d: %v want %v", p, id, a, wa)
			}
		}
	}
	type visit struct {
		path string
		ptr  interface{}
	}
	var wantA, wantO []visit
	names := make([]string, 0)
	for p := range m.Childs {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range append(names, "") {
		rs := &m.Resources
		if p != "" {
			rs = &m.Childs[p].Resources
		}
		for _, a := range rs.Assets {
			wantA = append(wantA, visit{p, a})
		}
		for _, o := range rs.Objects {
			wantO = append(wantO, visit{p, o})
		}
	}
	for k, want := range [][]visit{wantA, wantO} {
		for stop := 0; stop <= len(want); stop++ {
			t.Step()
			var got []visit
			rec := func(p string, v interface{}) error {
				got = append(got, visit{p, v})
				if len(got) == stop+1 {
					return errStop
				}
				return nil
			}
			var err error
			if k == 0 {
				err = m.WalkAssets(func(p string, a go3mf.Asset) error { return rec(p, a) })
			} else {
				err = m.WalkObjects(func(p string, o *go3mf.Object) error { return rec(p, o) })
			}
			exp, wantErr := want, error(nil)
			if stop < len(want) {
				exp, wantErr = want[:stop+1], errStop
			}
			if err != wantErr {
				t.Failf("error of a walk differs", "kind %d stop %d: %v", k, stop, err)
			}
			if len(exp) != len(got) {
				t.Failf("visits of a walk differ", "kind %d stop %d: %d visits, want %d", k, stop, len(got), len(exp))
			}
			for i := range exp {
				if exp[i] != got[i] {
					t.Failf("visits of a walk differ", "kind %d stop %d visit %d: %q want %q", k, stop, i, got[i].path, exp[i].path)
				}
			}
		}
	}
	if after := dump(m); after != before {
		t.Failf("looking up changes the model", "%s", diff(before, after))
	}
}

func unusedIDs(t *mc.T) {
	ids := []uint32{0, 1, 2, 3, 4, 5, math.MaxUint32, 1 << 31}
	var rs go3mf.Resources
	used := map[uint32]bool{0: true}
	for i, n := 0, t.Free(6); i < n; i++ {
		id := ids[t.Free(len(ids))]
		used[id] = true
		if t.Choose(2) == i%2 {
			rs.Assets = append(rs.Assets, &go3mf.BaseMaterials{ID: id})
		} else {
			rs.Objects = append(rs.Objects, &go3mf.Object{ID: id})
		}
	}
	got := rs.UnusedID()
	t.Case(dump(rs))
	t.State(fmt.Sprint(got))
	want := uint32(1)
	for used[want] {
		want++
	}
	if used[got] {
		t.Failf("the identifier is in use", "%d in %v", got, used)
	}
	if got != want {
		t.Failf("the identifier is not the lowest one", "%d want %d in %v", got, want, used)
	}
}

func init() {
	register(&mc.Property{ID: "C16", Race: true, Scenarios: []mc.Scenario{
		{Name: "graphs", Bound: "three objects and two child parts, up to three items, up to two components, 10 transforms; deviations from a base graph", K: 3, KT: 4, Run: boundingBoxes},
		{Name: "parts", Bound: "all graphs of three objects in each of two parts, one component each (one object or, thorough, two with two)", K: 1, KT: 2, Run: boxParts},
		{Name: "meshes", Bound: "all meshes of up to two vertices (three partly) over six coordinates, of six (thorough: seven) vertices over eight points", Run: meshBoxes},
		{Name: "long", Bound: "meshes, objects and models of 18 numbers up to 257 (thorough: 4097) of vertices, components, items or objects, one of which, any, is far in any of six directions", Run: boxLong},
		{Name: "shared", Bound: "object chains up to 400 deep with threefold sharing", Run: boxScale},
		{Name: "models", Bound: "3 items of 7 kinds, every order of the goroutines", Sync: true, Run: boxSchedules(1, 3)},
		{Name: "schedules", Bound: "2 items of 7 kinds, 2 pre-emptions (thorough: 3), points in goroutine bodies and sync operations", K: 2, KT: 3, Sync: true, Run: boxSchedules(1, 2)},
		{Name: "statements", Bound: "2 items of 7 kinds, points before every statement the goroutines reach, 1 pre-emption (thorough: 2)", K: 1, KT: 2, Sync: true, Run: boxSchedules(2, 2)},
	}})
	register(&mc.Property{ID: "C23", Scenarios: []mc.Scenario{
		{Name: "lookup", Bound: "up to two assets and objects in each of up to four parts, every lookup, every stop of a walk", K: 5, KT: 6, Run: lookup},
		{Name: "unused", Bound: "all lists of up to five identifiers out of eight", K: 1, KT: 2, Run: unusedIDs},
		{Name: "long lists", Bound: "25 lengths up to 1025 in 8 orders, 3 distances of the identifiers, assets, objects or both, in the root or a child, all different or any of five with the identifier of another one", Run: longLookup},
		{Name: "many parts", Bound: "9 numbers of children up to 130, 3 root paths, 2 ways of naming", Run: manyParts},
	}})
	register(&mc.Property{ID: "C24", Scenarios: []mc.Scenario{
		{Name: "three", Bound: "three additions over 28 points, up to two vertices beforehand", K: 2, KT: 3, Run: func(t *mc.T) { builder(t, 3) }},
		{Name: "four", Bound: "four additions over 28 points", K: 0, KT: 1, Run: func(t *mc.T) { builder(t, 4) }},
		{Name: "close pairs", Bound: "all pairs of 81 points a tenth of the accuracy apart around 7 places, on every axis, the first one added or in the mesh beforehand", Run: closePairs},
		{Name: "steps", Bound: "all pairs of a number of any of 255 exponents, 5 mantissas and a sign, and the one up to 9 steps of single precision farther, on every axis, in either order", Run: stepPairs},
		{Name: "many", Bound: "six numbers of vertices up to 1000 (thorough: 70000) in five arrangements, added and added again in five orders each", Run: manyVertices},
	}})
	register(&mc.Property{ID: "C31", Scenarios: []mc.Scenario{
		{Name: "products", Bound: "all triples of 28x28x11 matrices, seven points", Run: algebraProducts},
		{Name: "boxes", Bound: "all boxes over four coordinates, 24 matrices", Run: algebraBoxes},
	}})
}
