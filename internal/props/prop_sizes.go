package props

import (
	"bytes"
	"fmt"
	"hash/crc32"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/hpinc/go3mf"
	specerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

// Scales at which buffers, windows and thresholds change what code does.

// contentOf is n bytes, no part of which is like another when kind is 0.
func contentOf(n, kind int) []byte {
	b := make([]byte, n)
	x := uint32(2463534242)
	for i := range b {
		switch kind {
		case 0:
			x ^= x << 13
			x ^= x >> 17
			x ^= x << 5
			b[i] = byte(x)
		case 1:
			b[i] = "0123456789abcdef"[i%16]
		}
	}
	return b
}

// pieceReader gives its content in pieces of any size.
type pieceReader struct {
	data []byte
	size int
}

func (p *pieceReader) Read(b []byte) (int, error) {
	if len(p.data) == 0 {
		return 0, io.EOF
	}
	n := p.size
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], p.data)
	p.data = p.data[n:]
	return n, nil
}

func sumOf(b []byte) string { return fmt.Sprintf("%d bytes, sum %08x", len(b), crc32.ChecksumIEEE(b)) }

// pkgSizes writes and reads attachments of any size, related from anywhere.
func pkgSizes(t *mc.T) {
	sizes := []int{0, 1}
	max := 22
	if t.Tier == "thorough" {
		max = 25
	}
	for k := 8; k <= max; k++ {
		sizes = append(sizes, 1<<k-1, 1<<k, 1<<k+1)
	}
	sizes = append(sizes, 100000, 1000000, 3000001, 1<<24+1)
	n := sizes[t.Free(len(sizes))]
	content := contentOf(n, t.Free(3))
	role, chunk := t.Free(4), mc.Each(t, 1<<30, 1000)
	m := &go3mf.Model{Resources: go3mf.Resources{Objects: []*go3mf.Object{tetra(1)}}, Build: go3mf.Build{Items: []*go3mf.Item{{ObjectID: 1}}}}
	c := &go3mf.ChildModel{Resources: go3mf.Resources{Objects: []*go3mf.Object{tetra(2)}}}
	m.Childs = map[string]*go3mf.ChildModel{"/3D/c.model": c}
	m.Attachments = []go3mf.Attachment{
		{Path: "/x/first.bin", ContentType: "application/octet-stream", Stream: stream("first")},
		{Path: "/x/sized.bin", ContentType: "application/octet-stream", Stream: &pieceReader{content, chunk}},
		{Path: "/x/last.bin", ContentType: "application/octet-stream", Stream: stream("last")},
	}
	contents := map[string][]byte{"/x/first.bin": []byte("first"), "/x/sized.bin": content, "/x/last.bin": []byte("last")}
	m.Relationships = []go3mf.Relationship{{Path: "/x/first.bin", Type: rtOther}, {Path: "/x/last.bin", Type: rtOther}}
	rel := go3mf.Relationship{Path: "/x/sized.bin", Type: rtOther}
	switch role {
	case 0:
		m.Relationships = append(m.Relationships, rel)
	case 1:
		m.RootRelationships = append(m.RootRelationships, rel)
	case 2:
		c.Relationships = append(c.Relationships, rel)
	case 3:
		m.RootRelationships, c.Relationships = append(m.RootRelationships, rel), append(c.Relationships, rel)
	}
	what := fmt.Sprintf("%s role %d pieces of %d", sumOf(content), role, chunk)
	t.Case(what)
	t.Logf("%s", what)
	t.Sample("%s", what)
	data := mustEncode(t, m, 4)
	p, err := openPkg(data)
	if err != nil {
		t.Failf("invalid package", "%v", err)
	}
	for name, want := range contents {
		t.Step()
		part := p.find(name)
		if part == nil {
			t.Failf("part is missing", "%s", name)
		}
		if !bytes.Equal(part.Data, want) {
			t.Failf("content of a part differs", "%s: %s, want %s", name, sumOf(part.Data), sumOf(want))
		}
	}
	got, err := decodePackage(data, true)
	if err != nil {
		t.Failf("decode-error", "%v", err)
	}
	if len(got.Attachments) != len(contents) {
		t.Failf("attachments differ", "%d attachments, want %d", len(got.Attachments), len(contents))
	}
	for i := range got.Attachments {
		t.Step()
		a := &got.Attachments[i]
		b, err := io.ReadAll(a.Stream)
		if err != nil || !bytes.Equal(b, contents[a.Path]) {
			t.Failf("content of an attachment differs", "%s: %s, want %s, error %v", a.Path, sumOf(b), sumOf(contents[a.Path]), err)
		}
	}
}

// pkgCounts writes and reads packages of many parts.
func pkgCounts(t *mc.T) {
	counts := []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129}
	if t.Tier == "thorough" {
		counts = append(counts, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025)
	}
	n := counts[t.Free(len(counts))]
	kind := t.Free(5)
	m := &go3mf.Model{Resources: go3mf.Resources{Objects: []*go3mf.Object{tetra(1)}}, Build: go3mf.Build{Items: []*go3mf.Item{{ObjectID: 1}}}}
	c := &go3mf.ChildModel{Resources: go3mf.Resources{Objects: []*go3mf.Object{tetra(2)}}}
	m.Childs = map[string]*go3mf.ChildModel{"/3D/c.model": c}
	for k := 0; k < n; k++ {
		i := (k*37 + 5) % n // not in order
		if n%37 == 0 {
			i = k
		}
		name := fmt.Sprintf("/x/%d.bin", i)
		rel := go3mf.Relationship{Path: name, Type: rtOther}
		if kind != 0 {
			m.Attachments = append(m.Attachments, go3mf.Attachment{Path: name, ContentType: fmt.Sprintf("image/x%d", i%3), Stream: stream("content of " + name)})
		}
		switch kind {
		case 0:
			o := tetra(uint32(i + 1))
			o.Name = name
			m.Childs[fmt.Sprintf("/3D/%d.model", i)] = &go3mf.ChildModel{Resources: go3mf.Resources{Objects: []*go3mf.Object{o}}}
		case 1:
			m.Relationships = append(m.Relationships, rel)
		case 2:
			m.RootRelationships = append(m.RootRelationships, rel)
		case 3:
			c.Relationships = append(c.Relationships, rel)
		case 4: // and the same ones twice
			rel.ID = fmt.Sprintf("r%d", i)
			m.Relationships = append(m.Relationships, rel)
			c.Relationships = append(c.Relationships, rel)
		}
	}
	t.Case(fmt.Sprint(n, kind))
	t.Logf("%d of kind %d", n, kind)
	t.Sample("%d of kind %d", n, kind)
	data := mustEncode(t, m, 4)
	rewind(m)
	checkPackage(t, m, data)
	rewind(m)
	got, err := decodePackage(data, true)
	if err != nil {
		t.Failf("decode-error", "%v", err)
	}
	matchModel(t, "roundtrip", wantDecoded(m), got)
}

// listOrders are ways of ordering what is in a list.
var listOrders = []struct {
	name string
	at   func(i, n int) int
}{
	{"ascending", func(i, n int) int { return i }},
	{"descending", func(i, n int) int { return n - 1 - i }},
	{"rotated", func(i, n int) int { return (i + n/3) % n }},
	{"halves", func(i, n int) int { return i*2%n + i*2/n*(1-n%2) }},
	{"one out of place", func(i, n int) int {
		switch i {
		case n / 2:
			return n - 1
		case n - 1:
			return n / 2
		}
		return i
	}},
	{"twice", func(i, n int) int { return i / 2 }},
	{"again", func(i, n int) int { return i % (n/2 + 1) }},
	{"all the same", func(i, n int) int { return 0 }},
}

// longLookup looks up everything in long lists of any order.
func longLookup(t *mc.T) {
	counts := []int{1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025}
	n := counts[t.Free(len(counts))]
	step := mc.Each(t, 1, 3, 1<<20)
	order := listOrders[t.Free(len(listOrders))]
	assets := t.Free(3)
	path := mc.Each(t, "", "/a.model")
	from, to := -1, -1 // one identifier is also that of another resource
	if step == 1 && path != "" && n > 4 {
		if k := t.Free(21); k > 0 {
			at := []int{0, 1, n / 2, n - 2, n - 1}
			from, to = at[(k-1)/4], at[(1+(k-1)/4+(k-1)%4)%5]
		}
	}
	m := &go3mf.Model{Childs: map[string]*go3mf.ChildModel{"/a.model": {}}}
	rs, _ := m.FindResources(path)
	firstA, firstO := map[uint32]go3mf.Asset{}, map[uint32]*go3mf.Object{}
	used := map[uint32]bool{0: true}
	var walkA []go3mf.Asset
	var walkO []*go3mf.Object
	for i := 0; i < n; i++ {
		id := uint32(1 + order.at(i, n)*step)
		if i == to {
			id = uint32(1 + order.at(from, n)*step)
		}
		used[id] = true
		if assets == 0 || assets == 2 && i%2 == 0 {
			a := &go3mf.BaseMaterials{ID: id}
			rs.Assets, walkA = append(rs.Assets, a), append(walkA, a)
			if firstA[id] == nil {
				firstA[id] = a
			}
		} else {
			o := &go3mf.Object{ID: id}
			rs.Objects, walkO = append(rs.Objects, o), append(walkO, o)
			if firstO[id] == nil {
				firstO[id] = o
			}
		}
	}
	what := fmt.Sprintf("%d %s, steps of %d, assets %d in %q, %d as %d", n, order.name, step, assets, path, to, from)
	t.Case(what)
	t.Logf("%s", what)
	t.Sample("%s", what)
	for i := -1; i <= n; i++ {
		for d := 0; d < 2 && d < step; d++ {
			t.Step()
			id := uint32(1+i*step) + uint32(d)
			wo, wa := firstO[id], firstA[id]
			if o, ok := rs.FindObject(id); o != wo || ok != (wo != nil) {
				t.Failf("Resources.FindObject differs", "%d of %s", id, what)
			}
			if o, ok := m.FindObject(path, id); o != wo || ok != (wo != nil) {
				t.Failf("Model.FindObject differs", "%d of %s", id, what)
			}
			if a, ok := rs.FindAsset(id); a != wa || ok != (wa != nil) {
				t.Failf("Resources.FindAsset differs", "%d of %s", id, what)
			}
			if a, ok := m.FindAsset(path, id); a != wa || ok != (wa != nil) {
				t.Failf("Model.FindAsset differs", "%d of %s", id, what)
			}
		}
	}
	want := uint32(1)
	for used[want] {
		want++
	}
	if got := rs.UnusedID(); got != want {
		t.Failf("the identifier is not the lowest one", "%d want %d: %s", got, want, what)
	}
	k := 0
	if err := m.WalkAssets(func(p string, a go3mf.Asset) error {
		if k >= len(walkA) || walkA[k] != a || p != path {
			t.Failf("visits of a walk differ", "asset %d of %s", k, what)
		}
		k++
		return nil
	}); err != nil || k != len(walkA) {
		t.Failf("visits of a walk differ", "%d assets of %s: %v", k, what, err)
	}
	k = 0
	if err := m.WalkObjects(func(p string, o *go3mf.Object) error {
		if k >= len(walkO) || walkO[k] != o || p != path {
			t.Failf("visits of a walk differ", "object %d of %s", k, what)
		}
		k++
		return nil
	}); err != nil || k != len(walkO) {
		t.Failf("visits of a walk differ", "%d objects of %s: %v", k, what, err)
	}
}

// manyParts looks up every part of a model with many.
func manyParts(t *mc.T) {
	n := mc.Each(t, 4, 5, 8, 9, 16, 17, 33, 65, 130)
	m := &go3mf.Model{Path: mc.Each(t, "", "/p1.model", "/p003.model"), Childs: map[string]*go3mf.ChildModel{}}
	pad := mc.Each(t, "%d", "%03d")
	parts := map[string]*go3mf.Resources{}
	for k := 0; k < n; k++ {
		p := fmt.Sprintf("/p"+pad+".model", (k*37+5)%n)
		m.Childs[p] = &go3mf.ChildModel{Resources: go3mf.Resources{Objects: []*go3mf.Object{{ID: uint32(k + 1)}, {ID: 1}}, Assets: []go3mf.Asset{&go3mf.BaseMaterials{ID: uint32(k + 1)}}}}
		parts[p] = &m.Childs[p].Resources
	}
	m.Resources.Objects = []*go3mf.Object{{ID: 1}}
	parts[""], parts[m.PathOrDefault()] = &m.Resources, &m.Resources
	what := fmt.Sprintf("%d parts %q root %q", n, pad, m.Path)
	t.Case(what)
	t.Logf("%s", what)
	t.Sample("%s", what)
	for p, want := range parts {
		t.Step()
		if got, ok := m.FindResources(p); !ok || got != want {
			t.Failf("FindResources differs", "%q of %s", p, what)
		}
		for _, o := range want.Objects {
			first := o
			for i := len(want.Objects) - 1; i >= 0; i-- {
				if want.Objects[i].ID == o.ID {
					first = want.Objects[i]
				}
			}
			if got, ok := m.FindObject(p, o.ID); !ok || got != first {
				t.Failf("Model.FindObject differs", "%d in %q of %s", o.ID, p, what)
			}
		}
	}
	var names []string
	for p := range m.Childs {
		names = append(names, p)
	}
	sort.Strings(names)
	var visits []string
	_ = m.WalkObjects(func(p string, o *go3mf.Object) error {
		visits = append(visits, fmt.Sprintf("%s %p", p, o))
		return nil
	})
	var want []string
	for _, p := range append(names, "") {
		rs := &m.Resources
		if p != "" {
			rs = &m.Childs[p].Resources
		}
		for _, o := range rs.Objects {
			want = append(want, fmt.Sprintf("%s %p", p, o))
		}
	}
	if fmt.Sprint(visits) != fmt.Sprint(want) {
		t.Failf("visits of a walk differ", "%s: %v\nwant %v", what, visits, want)
	}
}

// boxLong measures meshes, models and objects of any number of vertices, items and
// components: each extreme is reached by one of them, anywhere.
func boxLong(t *mc.T) {
	sizes := []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 129, 257}
	if t.Tier == "thorough" {
		sizes = append(sizes, 1000, 1001, 4097)
	}
	n := sizes[t.Free(len(sizes))]
	at := t.Free(n)
	if n > 129 && t.Tier != "thorough" && at%7 != n%7 && at != 0 && at != n-1 {
		t.Skip()
	}
	axis, dir := t.Free(3), mc.Each(t, float32(1), -1)
	kind := t.Free(5)
	far := go3mf.Point3D{1, 2, 3}
	far[axis] += dir * 50
	point := func(i int) go3mf.Point3D {
		if i == at {
			return far
		}
		return go3mf.Point3D{1, 2, 3}
	}
	m := &go3mf.Model{}
	vs := func(ps ...go3mf.Point3D) *go3mf.Mesh { return &go3mf.Mesh{Vertices: go3mf.Vertices{Vertex: ps}} }
	switch kind {
	case 0, 1: // vertices
		mesh := vs()
		for i := 0; i < n; i++ {
			mesh.Vertices.Vertex = append(mesh.Vertices.Vertex, point(i))
		}
		m.Resources.Objects = []*go3mf.Object{{ID: 1, Mesh: mesh}}
		m.Build.Items = []*go3mf.Item{{ObjectID: 1}}
		if kind == 1 {
			m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: 1, Transform: go3mf.Identity().Translate(1, 1, 1)})
		}
	case 2: // items
		for i := 0; i < n; i++ {
			p := point(i)
			m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: 1, Transform: go3mf.Identity().Translate(p[0], p[1], p[2])})
		}
		m.Resources.Objects = []*go3mf.Object{{ID: 1, Mesh: vs(go3mf.Point3D{}, go3mf.Point3D{1, 1, 1})}}
	case 3: // components
		o := &go3mf.Object{ID: 2, Components: &go3mf.Components{}}
		for i := 0; i < n; i++ {
			p := point(i)
			o.Components.Component = append(o.Components.Component, &go3mf.Component{ObjectID: 1, Transform: go3mf.Identity().Translate(p[0], p[1], p[2])})
		}
		m.Resources.Objects = []*go3mf.Object{{ID: 1, Mesh: vs(go3mf.Point3D{}, go3mf.Point3D{1, 1, 1})}, o}
		m.Build.Items = []*go3mf.Item{{ObjectID: 2}}
	case 4: // objects
		for i := 0; i < n; i++ {
			m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: uint32(n - i), Mesh: vs(point(i))})
			m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: uint32(i + 1)})
		}
	}
	t.Logf("%d of kind %d, the %dth is far on axis %d in direction %v", n, kind, at, axis, dir)
	if kind < 2 {
		var want *go3mf.Box
		for _, v := range m.Resources.Objects[0].Mesh.Vertices.Vertex {
			want = grow(want, v)
		}
		if got := m.Resources.Objects[0].Mesh.BoundingBox(); got != *want {
			t.Failf("mesh bounding box differs", "got %v want %v", got, *want)
		}
	}
	checkBoxOf(t, m, m.BoundingBox)
}

// manyVertices adds many vertices, each several times, in any order.
func manyVertices(t *mc.T) {
	sizes := []int{9, 17, 64, 65, 257, 1000}
	if t.Tier == "thorough" {
		sizes = append(sizes, 4097, 70000)
	}
	n := sizes[t.Free(len(sizes))]
	shape := t.Free(5)
	order := listOrders[t.Free(5)] // the permutations
	again := listOrders[t.Free(5)]
	before := mc.Each(t, 0, 1, n/2)
	ps := make([]go3mf.Point3D, n)
	for i := range ps {
		f := float32(i)
		switch shape {
		case 0: // a line
			ps[i] = go3mf.Point3D{f, 0, 0}
		case 1: // a plane
			ps[i] = go3mf.Point3D{0, float32(i % 17), -float32(i / 17)}
		case 2: // a cloud
			ps[i] = go3mf.Point3D{float32(i % 7), float32(i / 7 % 11), float32(i / 77)}
		case 3: // close to each other
			ps[i] = go3mf.Point3D{1, f * 0.00001, 1}
		case 4: // on both sides
			ps[i] = go3mf.Point3D{f - float32(n/2), float32(n/2) - f, f}
		}
	}
	what := fmt.Sprintf("%d shape %d, %s then %s, %d beforehand", n, shape, order.name, again.name, before)
	t.Case(what)
	t.Logf("%s", what)
	t.Sample("%s", what)
	mesh := &go3mf.Mesh{}
	index := make([]int, n)
	for i := range index {
		index[i] = -1
	}
	for i := 0; i < before; i++ {
		index[order.at(i, n)] = i
		mesh.Vertices.Vertex = append(mesh.Vertices.Vertex, ps[order.at(i, n)])
	}
	mb := go3mf.NewMeshBuilder(mesh)
	mb.CalculateConnectivity = true
	add := func(k int) {
		t.Step()
		if index[k] < 0 {
			index[k] = len(mesh.Vertices.Vertex)
		}
		got := mb.AddVertex(ps[k])
		if int(got) != index[k] || int(got) >= len(mesh.Vertices.Vertex) || mesh.Vertices.Vertex[got] != ps[k] {
			t.Failf("the index is not that of the vertex", "%v: %d want %d of %d: %s", ps[k], got, index[k], len(mesh.Vertices.Vertex), what)
		}
	}
	for i := 0; i < n; i++ {
		add(order.at(i, n))
		add(again.at(i/2, n))
	}
	for i := 0; i < n; i++ {
		add(again.at(i, n))
	}
	if len(mesh.Vertices.Vertex) != n {
		t.Failf("number of vertices differs", "%d want %d: %s", len(mesh.Vertices.Vertex), n, what)
	}
}

// manyUUIDs fills in models of many things.
func longUUID(n int) string { return fmt.Sprintf("11111111-2222-4333-8444-%012d", n) }

func manyUUIDs(t *mc.T) {
	sizes := []int{1, 2, 9, 16, 17, 33, 64, 65, 129, 257, 1025}
	n := sizes[t.Free(len(sizes))]
	kind, missing := t.Free(5), t.Free(4)
	m := &go3mf.Model{}
	given := 0
	id := func(i int) string {
		switch {
		case missing == 1 && i%2 == 0, missing == 2 && i == n/2, missing == 3 && i != n-1:
			given++
			return longUUID(i + 1)
		}
		return ""
	}
	var ids []*string
	item := func(s string, i int) *go3mf.Item {
		it := &go3mf.Item{ObjectID: uint32(i + 1)}
		if s != "" {
			it.AnyAttr = spec.AnyAttr{&production.ItemAttr{UUID: s}}
		}
		return it
	}
	object := func(s string, i int) *go3mf.Object {
		o := &go3mf.Object{ID: uint32(i + 1)}
		if s != "" {
			o.AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: s}}
		}
		return o
	}
	var o *go3mf.Object
	if kind == 1 {
		o = object(longUUID(5000), 0)
		o.Components = &go3mf.Components{}
		m.Resources.Objects = append(m.Resources.Objects, o)
	}
	for i := 0; i < n; i++ {
		s := id(i)
		switch kind {
		case 0:
			m.Build.Items = append(m.Build.Items, item(s, i))
		case 1:
			c := &go3mf.Component{ObjectID: uint32(i + 2)}
			if s != "" {
				c.AnyAttr = spec.AnyAttr{&production.ComponentAttr{UUID: s}}
			}
			o.Components.Component = append(o.Components.Component, c)
		case 2:
			m.Resources.Objects = append(m.Resources.Objects, object(s, i))
		case 3, 4:
			if m.Childs == nil {
				m.Childs = map[string]*go3mf.ChildModel{}
			}
			name := childPath
			if kind == 4 {
				name = fmt.Sprintf("/3D/%d.model", i)
			}
			if m.Childs[name] == nil {
				m.Childs[name] = &go3mf.ChildModel{}
			}
			m.Childs[name].Resources.Objects = append(m.Childs[name].Resources.Objects, object(s, i))
		}
	}
	what := fmt.Sprintf("%d of kind %d, missing %d", n, kind, missing)
	t.Case(what)
	t.Logf("%s", what)
	t.Sample("%s", what)
	production.SetMissingUUIDs(m)
	collect := func(at spec.AnyAttr) {
		for _, a := range at {
			switch a := a.(type) {
			case *production.ItemAttr:
				ids = append(ids, &a.UUID)
			case *production.ObjectAttr:
				ids = append(ids, &a.UUID)
			case *production.ComponentAttr:
				ids = append(ids, &a.UUID)
			}
		}
	}
	for _, it := range m.Build.Items {
		collect(it.AnyAttr)
	}
	eachResources(m, func(_ string, rs *go3mf.Resources) {
		for _, o := range rs.Objects {
			collect(o.AnyAttr)
			if o.Components != nil {
				for _, c := range o.Components.Component {
					collect(c.AnyAttr)
				}
			}
		}
	})
	want := n
	if kind == 1 {
		want++
		given++
	}
	seen := map[string]bool{}
	for _, s := range ids {
		t.Step()
		if !validUUID(*s) {
			t.Failf("the UUID is not valid", "%q: %s", *s, what)
		}
		seen[*s] = true
	}
	if len(ids) != want || len(seen) != want {
		t.Failf("a UUID is still missing", "%d UUIDs, %d different, for %d: %s", len(ids), len(seen), want, what)
	}
	kept := 0
	for i := 0; i < n; i++ {
		if seen[longUUID(i+1)] {
			kept++
		}
	}
	if kind == 1 && seen[longUUID(5000)] {
		kept++
	}
	if kept != given {
		t.Failf("a UUID is replaced", "%d of %d are kept: %s", kept, given, what)
	}
}

// longErrors has many errors, in lists made in every way, at many levels.
func longErrors(t *mc.T) {
	sizes := []int{1, 2, 9, 16, 17, 33, 64, 65, 100, 101, 129, 257, 1025}
	n := sizes[t.Free(len(sizes))]
	way, levels := t.Free(5), mc.Each(t, 0, 1, 2, 9, 17, 33, 65)
	if n > 300 && levels > 17 {
		t.Skip()
	}
	var r refVal
	r.list = true
	var es []error
	for i := 0; i < n; i++ {
		var e error = &customErr{i}
		switch i % 5 {
		case 1:
			e = specerr.NewMissingFieldError(fmt.Sprintf("f%d", i))
		case 2:
			e = specerr.ErrMissingID
		case 3:
			e = fmt.Errorf("outer %d: %w", i, specerr.ErrRecursion)
		}
		es = append(es, e)
		r.errs = append(r.errs, &refErr{leaf: e})
	}
	wrapAll := func(e error, from int, errs []*refErr) error {
		for k := from; k < levels; k++ {
			lvl := fmt.Sprintf("l%d[%d]", k, k*3)
			e = specerr.WrapIndex(e, fmt.Sprintf("l%d", k), k*3)
			for _, x := range errs {
				x.levels = append(x.levels, lvl)
			}
		}
		return e
	}
	switch way {
	case 0: // one by one
		for _, e := range es {
			r.err = specerr.Append(r.err, e)
		}
		r.err = wrapAll(r.err, 0, r.errs)
	case 1: // all at once
		r.err = wrapAll(specerr.Append(nil, es...), 0, r.errs)
	case 2: // lists of nine
		for i := 0; i < n; i += 9 {
			j := i + 9
			if j > n {
				j = n
			}
			r.err = specerr.Append(r.err, specerr.Append(nil, es[i:j]...))
		}
		r.err = wrapAll(r.err, 0, r.errs)
	case 3: // each at its level
		for i, e := range es {
			r.err = specerr.Append(r.err, wrapAll(e, 0, r.errs[i:i+1]))
		}
	case 4: // a list into the other
		var b error
		for i := n / 2; i < n; i++ {
			b = specerr.Append(b, es[i])
		}
		for i := 0; i < n/2; i++ {
			r.err = specerr.Append(r.err, nil, es[i])
		}
		r.err = wrapAll(specerr.Append(r.err, b), 0, r.errs)
	}
	r.desc = fmt.Sprintf("%d errors made in way %d, %d levels", n, way, levels)
	t.Case(r.desc)
	t.Logf("%s", r.desc)
	t.Sample("%s", r.desc)
	checkErrors(t, r)
}

// farNeighbours has a malformed element among many of its kind.
func farNeighbours(t *mc.T) {
	d := attrOnce()
	s := d.sites[t.Free(len(d.sites))]
	if s.part != "" {
		t.Skip()
	}
	root := d.docs[""].clone()
	r := walkN(root)[s.node]
	if single[r.n.Local] || len(r.path) == 0 {
		t.Skip()
	}
	sizes := []int{10, 64, 257, 1002, 65538}
	if t.Tier == "thorough" {
		sizes = append(sizes, 2001, 4097)
	}
	n := sizes[t.Free(len(sizes))]
	if n > 65535 && len(walkN(r.n)) > 1 {
		t.Skip() // too long
	}
	bad := []int{n - 1, n / 2, 0, -1}[t.Free(map[bool]int{true: 1, false: 4}[n > 65535])]
	if n > 300 && (r.n.Local == "mesh" || len(walkN(r.n)) > 6) && t.Tier != "thorough" {
		t.Skip() // long ones
	}
	up := r.path[len(r.path)-1]
	v, _ := s.def.two()
	r.n.put(s.def.space, s.def.local, v)
	var copies, kids []*N
	for i := 0; i < n; i++ {
		copies = append(copies, r.n.clone())
	}
	isBad := map[*N]bool{}
	for i, c := range copies {
		if bad < 0 || i == bad {
			isBad[c] = true
			c.put(s.def.space, s.def.local, badByKind[s.def.kind][0])
		}
	}
	for _, k := range up.Kids {
		if k == r.n {
			kids = append(kids, copies...)
		} else {
			kids = append(kids, k)
		}
	}
	up.Kids = kids
	what := fmt.Sprintf("%s: %d, malformed %d", s, n, bad)
	t.Case(what)
	t.Logf("%s", what)
	t.Sample("%s", what)
	var want, have []string
	for _, ref := range walkN(root) {
		if isBad[ref.n] {
			want = append(want, fmt.Sprintf("%s@%s required=%v", xpath(ref), s.def.local, s.def.required))
		}
	}
	doc := render(root, nsCore, prefixes, style{})
	for _, e := range allErrors(go3mf.UnmarshalModel(doc, new(go3mf.Model))) {
		t.Step()
		have = append(have, located(e))
	}
	t.State(fmt.Sprint(have))
	if strings.Join(want, "\n") != strings.Join(have, "\n") {
		t.Failf("wrong errors", "%s\nwant %d: %.2000s\ngot  %d: %.2000s", what, len(want), strings.Join(want, "\n     "), len(have), strings.Join(have, "\n     "))
	}
}

// shapeHuge gives any list of the model more elements than 16 bits can count.
func shapeHuge(pkg string) func(t *mc.T) {
	return func(t *mc.T) {
		m := shapeModel()
		paths, lists := listsOf(m)
		i := t.Free(len(lists))
		if p := packageOfPath(m, paths[i]); p != pkg && (pkg != "" || p != "go3mf") {
			t.Skip()
		}
		switch lists[i].Interface().(type) {
		case []*go3mf.Object, []go3mf.Asset, []slices.Slice:
			if t.Tier != "thorough" {
				t.Skip() // too much
			}
		}
		n := 65537
		if t.Tier == "thorough" {
			n = mc.Each(t, 65536, 65537, 131073)
		}
		resize(lists[i], n)
		what := fmt.Sprintf("%s: %d", paths[i], n)
		t.Case(what)
		t.Logf("%s", what)
		t.Sample("%s", what)
		data := mustEncode(t, m, 4)
		got, err := decodePackage(data, true)
		if err != nil {
			t.Failf("decode-error", "%s: %v", what, err)
		}
		m.Path = go3mf.DefaultModelPath
		normAll(m, 4)
		canonModel(got)
		canonAttrs(m, false)
		canonAttrs(got, false)
		w, g := dump(m), dump(got)
		if w != g {
			t.Failf("roundtrip "+firstDiffLine(w, g), "%s: %s", what, clip([]byte(diff(w, g))))
		}
	}
}

// shapeTexts gives any text of the model a great length.
func shapeTexts(pkg string) func(t *mc.T) {
	return func(t *mc.T) {
		m := shapeModel()
		var ls []leafOf
		for _, l := range leavesOf(m) {
			if l.v.Kind() == reflect.String && packageOfPath(m, l.path) == map[bool]string{true: "go3mf", false: pkg}[pkg == ""] {
				ls = append(ls, l)
			}
		}
		if len(ls) == 0 {
			t.Skip()
		}
		l := ls[t.Free(len(ls))]
		sizes := []int{63, 64, 255, 256, 257, 1023, 1024, 2047, 2048, 4093, 4094, 4095, 4096, 4097, 8191, 8192, 32768, 65535, 65536, 70001}
		if t.Tier == "thorough" {
			sizes = append(sizes, 1<<20-1, 1<<20, 1<<20+1, 1<<22+1)
		}
		n := sizes[t.Free(len(sizes))]
		kind := t.Free(4)
		s := ""
		switch kind {
		case 0: // plain, but for the end
			s = strings.Repeat("a", n-1) + "<"
		case 1:
			s = strings.Repeat(`&<>"'`, n/5+1)[:n]
		case 2: // of several bytes
			s = strings.Repeat("x", n%3) + strings.Repeat("€", n/3)
		case 3: // words
			s = strings.Repeat("lorem ipsum ", n/12+1)[:n-1] + "."
		}
		if strings.HasSuffix(l.field, "Path") { // a reference to a part
			if kind > 0 {
				t.Skip()
			}
			s = "/" + strings.Repeat("a", n-1) + "z"
		}
		l.v.SetString(s)
		what := fmt.Sprintf("%s: %d of kind %d", l.path, n, kind)
		t.Case(what)
		t.Logf("%s", what)
		t.Sample("%s", what)
		data := mustEncode(t, m, 4)
		got, err := decodePackage(data, true)
		if err != nil {
			t.Failf("decode-error", "%s: %v", what, err)
		}
		m.Path = go3mf.DefaultModelPath
		normAll(m, 4)
		canonModel(got)
		canonAttrs(m, false)
		canonAttrs(got, false)
		w, g := dump(m), dump(got)
		if w != g {
			t.Failf("roundtrip "+firstDiffLine(w, g), "%s: %s", what, clip([]byte(diff(w, g))))
		}
	}
}
