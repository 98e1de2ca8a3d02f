package props

import (
	stderrors "errors"
	"fmt"
	"sort"
	"strings"

	"github.com/hpinc/go3mf"
	specerr "github.com/hpinc/go3mf/errors"

	"verif3mf/internal/mc"
)

type tri [3]uint32

// coherent is the definition: at least four triangles over at least three
// vertices, and every edge lies in exactly two of them, which traverse it in
// opposite directions.
func coherent(nv int, ts []tri) error {
	if nv < 3 {
		return specerr.ErrInsufficientVertices
	}
	if len(ts) < 4 {
		return specerr.ErrInsufficientTriangles
	}
	for _, t := range ts {
		for j := 0; j < 3; j++ {
			a, b := t[j], t[(j+1)%3]
			same, opposite := 0, 0
			for _, u := range ts {
				for k := 0; k < 3; k++ {
					c, d := u[k], u[(k+1)%3]
					if a == c && b == d {
						same++
					} else if a == d && b == c {
						opposite++
					}
				}
			}
			if same != 1 || opposite != 1 {
				return specerr.ErrMeshConsistency
			}
		}
	}
	return nil
}

func triMesh(nv int, ts []tri) *go3mf.Mesh {
	m := &go3mf.Mesh{}
	m.Vertices.Vertex = make([]go3mf.Point3D, nv)
	for _, t := range ts {
		m.Triangles.Triangle = append(m.Triangles.Triangle, go3mf.Triangle{V1: t[0], V2: t[1], V3: t[2]})
	}
	return m
}

func judgeMesh(t *mc.T, nv int, ts []tri) {
	t.Case(fmt.Sprint(nv, ts))
	t.Logf("%d vertices, triangles %v", nv, ts)
	want := coherent(nv, ts)
	got := triMesh(nv, ts).ValidateCoherency()
	t.Step()
	if !stderrors.Is(got, want) || (got == nil) != (want == nil) {
		t.Failf("wrong verdict on a mesh", "%d vertices, %v: got %v, want %v", nv, ts, got, want)
	}
	if want == nil {
		t.State(fmt.Sprint(ts))
		t.Sample("coherent: %v", ts)
	}
}

// allMeshes are all sequences of four triangles over four vertices.
func allMeshes(t *mc.T) {
	var ts []tri
	for i := 0; i < 4; i++ {
		n := 24
		if i == 0 {
			n = 8
		}
		k := t.Free(n)
		r := k / 8
		c := [8]tri{{0, 1, 2}, {0, 2, 1}, {0, 1, 3}, {0, 3, 1}, {0, 2, 3}, {0, 3, 2}, {1, 2, 3}, {1, 3, 2}}[k%8]
		ts = append(ts, tri{c[r%3], c[(r+1)%3], c[(r+2)%3]})
	}
	judgeMesh(t, 4, ts)
}

var solids = map[string][]tri{
	"tetra":           {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}},
	"bipyramid":       {{0, 1, 3}, {1, 2, 3}, {2, 0, 3}, {1, 0, 4}, {2, 1, 4}, {0, 2, 4}},
	"octahedron":      {{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}, {1, 0, 5}, {2, 1, 5}, {3, 2, 5}, {0, 3, 5}},
	"two":             {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}, {4, 6, 5}, {4, 5, 7}, {4, 7, 6}, {5, 6, 7}},
	"sharing an edge": {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}, {0, 4, 1}, {0, 1, 5}, {0, 5, 4}, {1, 4, 5}},
	"lens":            {{0, 1, 2}, {0, 2, 1}, {0, 1, 3}, {0, 3, 1}},
	"two lenses":      {{0, 1, 2}, {0, 2, 1}, {3, 4, 5}, {3, 5, 4}},
}

// nearMeshes are solids with some triangles changed.
func nearMeshes(t *mc.T) {
	name := mc.Each(t, "tetra", "bipyramid", "octahedron", "two", "sharing an edge", "lens", "two lenses")
	labels := mc.Each(t, []uint32{0, 1, 2, 3, 4, 5, 6, 7}, []uint32{7, 6, 5, 4, 3, 2, 1, 0}, []uint32{0, 65536, 1 << 31, 1<<32 - 1, 1, 65537, 1 << 16 * 3, 1<<31 + 1})
	var ts []tri
	for _, x := range solids[name] {
		y := tri{labels[x[0]], labels[x[1]], labels[x[2]]}
		switch k := t.Choose(12); k {
		case 0:
		case 1: // dropped
			continue
		case 2: // flipped
			y[0], y[1] = y[1], y[0]
		case 3: // twice
			ts = append(ts, y)
		case 4: // rotated
			y[0], y[1], y[2] = y[1], y[2], y[0]
		case 5: // both sides
			ts = append(ts, tri{y[1], y[0], y[2]})
		case 6, 7, 8: // another vertex
			y[k-6] = labels[7]
		case 9, 10, 11: // degenerate
			y[k-9] = y[(k-8)%3]
		}
		ts = append(ts, y)
	}
	nv := 8
	if t.Flip() {
		nv = mc.Each(t, 0, 2, 3)
	}
	judgeMesh(t, nv, ts)
}

// largeMeshes are bipyramids over many vertices with one triangle changed.
func largeMeshes(t *mc.T) {
	n := uint32(mc.Each(t, 300, 33000))
	m := &go3mf.Mesh{}
	m.Vertices.Vertex = make([]go3mf.Point3D, n+2)
	for i := uint32(0); i < n; i++ {
		j := (i + 1) % n
		m.Triangles.Triangle = append(m.Triangles.Triangle, go3mf.Triangle{V1: i, V2: j, V3: n}, go3mf.Triangle{V1: j, V2: i, V3: n + 1})
	}
	l := len(m.Triangles.Triangle)
	at := mc.Each(t, 0, 1, l/2, l-1)
	var want error = specerr.ErrMeshConsistency
	switch t.Free(5) {
	case 0:
		want = nil
	case 1:
		x := &m.Triangles.Triangle[at]
		x.V1, x.V2 = x.V2, x.V1
	case 2:
		m.Triangles.Triangle = append(m.Triangles.Triangle[:at], m.Triangles.Triangle[at+1:]...)
	case 3:
		m.Triangles.Triangle = append(m.Triangles.Triangle, m.Triangles.Triangle[at])
	case 4:
		m.Triangles.Triangle[at].V3 = (m.Triangles.Triangle[at].V1 + 2) % n
	}
	t.Case(fmt.Sprint(n, at, want, len(m.Triangles.Triangle)))
	if got := m.ValidateCoherency(); got != want {
		t.Failf("wrong verdict on a mesh", "%d triangles, changed at %d: got %v, want %v", l, at, got, want)
	}
}

// coherentObject is one of the kinds of objects of models.
func coherentObject(t *mc.T, id uint32) (*go3mf.Object, bool) {
	good, bad := triMesh(4, solids["tetra"]), triMesh(4, []tri{{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 3, 2}})
	switch t.Free(6) {
	case 0:
		return &go3mf.Object{ID: id, Mesh: bad}, true
	case 1:
		return &go3mf.Object{ID: id, Mesh: good}, false
	case 2:
		return &go3mf.Object{ID: id, Mesh: bad, Type: go3mf.ObjectTypeSolidSupport}, true
	case 3:
		return &go3mf.Object{ID: id, Mesh: bad, Type: mc.Each(t, go3mf.ObjectTypeSupport, go3mf.ObjectTypeSurface, go3mf.ObjectTypeOther)}, false
	case 4:
		return &go3mf.Object{ID: id, Components: &go3mf.Components{}}, false
	default:
		return &go3mf.Object{ID: id, Mesh: &go3mf.Mesh{}}, true
	}
}

// modelCoherency checks which objects of a model are reported, under every schedule.
func modelCoherency(class, root int, kids ...int) func(t *mc.T) {
	return func(t *mc.T) {
		m := &go3mf.Model{}
		var want []string
		add := func(path string, n int) (rs go3mf.Resources) {
			for i := 0; i < n; i++ {
				o, bad := coherentObject(t, uint32(i+1))
				rs.Objects = append(rs.Objects, o)
				if bad {
					want = append(want, fmt.Sprintf("%s /model/resources/object[%d]/mesh %v", path, i, o.Mesh.ValidateCoherency()))
				}
			}
			return
		}
		m.Resources = add("", root)
		for i, n := range kids {
			if m.Childs == nil {
				m.Childs = map[string]*go3mf.ChildModel{}
			}
			path := fmt.Sprintf("/3D/c%d.model", i)
			m.Childs[path] = &go3mf.ChildModel{Resources: add(path, n)}
		}
		t.Case(strings.Join(want, "\n"))
		t.Logf("want %q", want)
		var err error
		controlled(t, class, func() { err = m.ValidateCoherency() })
		var have []string
		for _, e := range allErrors(err) {
			x, ok := e.(*specerr.Error)
			if !ok {
				t.Failf("an error without location", "%v", e)
			}
			have = append(have, fmt.Sprintf("%s %s %v", x.Path, x.XPath(), x.Err))
		}
		order := strings.Join(have, "\n")
		sort.Strings(have)
		sort.Strings(want)
		if strings.Join(have, "\n") != strings.Join(want, "\n") {
			t.Failf("wrong objects", "got %q\nwant %q", have, want)
		}
		again := ""
		if e := m.ValidateCoherency(); e != nil {
			var l []string
			for _, e := range allErrors(e) {
				x := e.(*specerr.Error)
				l = append(l, fmt.Sprintf("%s %s %v", x.Path, x.XPath(), x.Err))
			}
			again = strings.Join(l, "\n")
		}
		if again != order {
			t.Failf("the order of the errors depends on the schedule", "%s\nor\n%s", order, again)
		}
		t.Sample("%q", want)
	}
}

func init() {
	register(&mc.Property{ID: "C22", Race: true,
		Method: "exhaustive enumeration of small meshes and of changes of solids against the definition of coherency, and of the schedules of the goroutines that check a model's objects (controlled scheduler, race detector)",
		Rule:   "one execution is one mesh, or one schedule of one model",
		Scenarios: []mc.Scenario{
			{Name: "meshes", Bound: "all sequences of 4 triangles over 4 vertices (the first up to rotation)", Run: allMeshes},
			{Name: "solids", Bound: "7 solids x 3 labellings, 2 (thorough: 3) changed triangles of 11 kinds", K: 2, KT: 3, Run: nearMeshes},
			{Name: "large", Bound: "2 closed meshes of 600 and 66000 triangles, one triangle changed in 4 ways at 4 places", Run: largeMeshes},
			{Name: "models", Bound: "2 objects of 8 kinds in the root and 1 in each of 2 children, every order of the goroutines", Sync: true, Run: modelCoherency(1, 2, 1, 1)},
			{Name: "schedules", Bound: "1 object of 8 kinds in the root and 1 in a child, 2 pre-emptions (thorough: 3), points in goroutine bodies and sync operations", K: 2, KT: 3, Sync: true, Run: modelCoherency(1, 1, 1)},
			{Name: "statements", Bound: "one object each in the root and a child, points before every statement the goroutines reach, 1 pre-emption", K: 1, Sync: true, Run: modelCoherency(2, 1, 1)},
		}})
}
