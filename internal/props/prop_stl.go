package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime"
	"strconv"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/importer/stl"

	"verif3mf/internal/mc"
)

type facet [3]go3mf.Point3D

// chunks delivers data in pieces of at most n bytes, the last one with or
// without io.EOF, and err in place of the byte at off.
type chunks struct {
	data   []byte
	n      int
	eof    bool // io.EOF comes with the last bytes
	off    int  // -1 if there is no fault
	err    error
	pos    int
	onRead func(pos int)
}

func (c *chunks) Read(p []byte) (int, error) {
	if c.onRead != nil {
		c.onRead(c.pos)
	}
	end := len(c.data)
	if c.off >= 0 && c.off < end {
		end = c.off
	}
	if c.pos >= end {
		if c.off >= 0 {
			return 0, c.err
		}
		return 0, io.EOF
	}
	if c.n > 0 && c.pos+c.n < end {
		end = c.pos + c.n
	}
	n := copy(p, c.data[c.pos:end])
	c.pos += n
	if c.eof && c.off < 0 && c.pos == len(c.data) {
		return n, io.EOF
	}
	return n, nil
}

func binarySTL(header string, fs []facet, normal float32, attr uint16) []byte {
	var b bytes.Buffer
	h := make([]byte, 80)
	copy(h, header)
	b.Write(h)
	binary.Write(&b, binary.LittleEndian, uint32(len(fs)))
	for _, f := range fs {
		binary.Write(&b, binary.LittleEndian, [3]float32{normal, normal, normal})
		for _, p := range f {
			binary.Write(&b, binary.LittleEndian, [3]float32(p))
		}
		binary.Write(&b, binary.LittleEndian, attr)
	}
	return b.Bytes()
}

// spelling is a way to write the same ASCII file.
type stlSpelling struct {
	name          string
	indent, eol   string
	sep           string
	upper         bool
	title         string
	format        byte
	blank, noLast bool // empty lines; no end of line after the last line
	solids        bool // a solid per facet
	trailing      string
}

var stlSpellings = []stlSpelling{
	{name: "plain", indent: "  ", eol: "\n", sep: " ", title: "a", format: 'g'},
	{name: "no name", eol: "\n", sep: " ", format: 'g'},
	{name: "CRLF", indent: "\t", eol: "\r\n", sep: " ", title: "a", format: 'g'},
	{name: "upper case", indent: " ", eol: "\n", sep: " ", upper: true, title: "A", format: 'g'},
	{name: "tabs", indent: "\t\t", eol: "\n", sep: "\t \t", title: "a b", format: 'g', trailing: " \t"},
	{name: "scientific", eol: "\n", sep: " ", title: "a", format: 'e'},
	{name: "fixed", eol: "\n", sep: " ", title: "a", format: 'f'},
	{name: "blank lines", eol: "\n", sep: " ", title: "a", format: 'g', blank: true},
	{name: "no last end of line", eol: "\n", sep: " ", title: "a", format: 'g', noLast: true},
	{name: "names like keywords", eol: "\n", sep: " ", title: "vertex facet", format: 'g'},
	{name: "two solids", eol: "\n", sep: " ", title: "a", format: 'g', solids: true},
	{name: "long name", eol: "\n", sep: " ", title: strings.Repeat("n", 400), format: 'g'},
}

// asciiLines are the lines of an ASCII file, without indentation.
func asciiLines(fs []facet, s stlSpelling) []string {
	num := func(f float32) string { return strconv.FormatFloat(float64(f), s.format, -1, 32) }
	join := func(f ...string) string { return strings.Join(f, s.sep) }
	title := func(w string) string {
		if s.title == "" {
			return w
		}
		return w + " " + s.title
	}
	out := []string{title("solid")}
	for i, f := range fs {
		if s.solids && i > 0 {
			out = append(out, title("endsolid"), title("solid"))
		}
		out = append(out, join("facet", "normal", num(0), num(0), num(1)), join("outer", "loop"))
		for _, p := range f {
			out = append(out, join("vertex", num(p[0]), num(p[1]), num(p[2])))
		}
		out = append(out, "endloop", "endfacet")
	}
	return append(out, title("endsolid"))
}

func joinLines(lines []string, s stlSpelling) []byte {
	var b strings.Builder
	for i, l := range lines {
		if i > 0 {
			b.WriteString(s.eol)
			if s.blank {
				b.WriteString(s.eol)
			}
			b.WriteString(s.indent)
		}
		if s.upper {
			l = strings.ToUpper(l)
		}
		b.WriteString(l + s.trailing)
	}
	if !s.noLast {
		b.WriteString(s.eol)
	}
	return []byte(b.String())
}

var stlCoords = map[string][]go3mf.Point3D{
	"units":    {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}},
	"ascii":    {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}}, // all their bytes are ASCII
	"signs":    {{-1, -1, -1}, {-1, -1, 1}, {1.5, -1, -1}, {-1, 1, -1}},
	"small":    {{0.001, 0.002, 0.003}, {0.002, 0.001, 0.003}, {0.003, 0.002, 0.001}, {-0.001, 0.002, 0.003}},
	"large":    {{123456.79, 1e6, -1e6}, {-123456.79, 1e6, 1e6}, {1e6, 1e6, 1e6}, {0.1, 0.2, 0.3}},
	"permuted": {{1, 2, 3}, {3, 2, 1}, {2, 1, 3}, {1, 3, 2}},
}

// judgeSTL compares an imported object with the facets of the file.
func judgeSTL(t *mc.T, m *go3mf.Model, before string, nobj, nitems int, fs []facet) {
	if len(m.Resources.Objects) != nobj+1 || len(m.Build.Items) != nitems+1 {
		t.Failf("not one object and one item are added", "%d objects, %d items", len(m.Resources.Objects)-nobj, len(m.Build.Items)-nitems)
	}
	o, it := m.Resources.Objects[nobj], m.Build.Items[nitems]
	if o == nil || o.Mesh == nil || o.Components != nil || o.PID != 0 || o.Type != go3mf.ObjectTypeModel {
		t.Failf("the object is not a model with a mesh", "%s", dump(o))
	}
	if it.ObjectID != o.ID || it.ObjectPath() != "" || it.HasTransform() {
		t.Failf("the item does not place the object", "%s", dump(it))
	}
	m.Resources.Objects, m.Build.Items = m.Resources.Objects[:nobj], m.Build.Items[:nitems]
	if got := dump(m); got != before {
		t.Failf("the rest of the model changed", "%s", diff(before, got))
	}
	if o.ID == 0 {
		t.Failf("the object has no ID", "")
	}
	if _, ok := m.Resources.FindObject(o.ID); ok {
		t.Failf("the ID of the object is taken", "%d", o.ID)
	}
	if _, ok := m.Resources.FindAsset(o.ID); ok {
		t.Failf("the ID of the object is taken", "%d", o.ID)
	}
	vs, ts := o.Mesh.Vertices.Vertex, o.Mesh.Triangles.Triangle
	if len(ts) != len(fs) {
		t.Failf("the number of triangles is not the number of facets", "%d triangles of %d facets", len(ts), len(fs))
	}
	used := make([]bool, len(vs))
	for i, x := range ts {
		for j, v := range [3]uint32{x.V1, x.V2, x.V3} {
			if int(v) >= len(vs) {
				t.Failf("an index is out of bounds", "triangle %d: %v of %d", i, x, len(vs))
			}
			used[v] = true
			if vs[v] != fs[i][j] {
				t.Failf("a facet changed", "facet %d vertex %d: %v instead of %v", i, j, vs[v], fs[i][j])
			}
		}
		if x.PID != 0 || x.P1 != 0 || x.P2 != 0 || x.P3 != 0 {
			t.Failf("a triangle has properties", "%+v", x)
		}
	}
	seen := map[go3mf.Point3D]bool{}
	for i, v := range vs {
		if seen[v] {
			t.Failf("vertices are not merged", "%v", v)
		}
		seen[v] = true
		if !used[i] {
			t.Failf("a vertex belongs to no facet", "%v", v)
		}
	}
}

// stlTarget is the model a file is imported to.
func stlTarget(k int) (m *go3mf.Model, nobj, nitems int) {
	m = new(go3mf.Model)
	if k > 0 {
		m.Resources.Objects = []*go3mf.Object{tetra(1), tetra(3)}
		m.Resources.Assets = []go3mf.Asset{&go3mf.BaseMaterials{ID: 2}}
		m.Build.Items = []*go3mf.Item{{ObjectID: 3, PartNumber: "x"}}
	}
	return m, len(m.Resources.Objects), len(m.Build.Items)
}

func stlReader(t *mc.T, data []byte) *chunks {
	c := &chunks{data: data, off: -1}
	switch t.Choose(5) {
	case 1:
		c.n = 1
	case 2:
		c.n = 7
	case 3:
		c.n, c.eof = 50, true
	case 4:
		c.eof = true
	}
	return c
}

func someFacets(t *mc.T, v []go3mf.Point3D, max int) (fs []facet) {
	n := t.Free(max + 1)
	for i := 0; i < n; i++ {
		// The first and all others of a short list are any triples of vertices.
		f := facet{v[0], v[1], v[2]}
		if i == 0 || i == 1 && t.Tier == "thorough" {
			f = facet{v[t.Free(len(v))], v[t.Free(len(v))], v[t.Free(len(v))]}
		} else if i == 1 {
			f = mc.Each(t, facet{v[0], v[1], v[2]}, facet{v[2], v[1], v[0]}, facet{v[3], v[1], v[1]}, facet{v[1], v[3], v[2]})
		} else if i%2 == 1 {
			f = facet{v[3], v[1], v[0]}
		}
		fs = append(fs, f)
	}
	return
}

func stlFacets(t *mc.T, ascii bool) {
	coords := stlCoords[mc.Each(t, sortedKeys(stlCoords)...)]
	fs := someFacets(t, coords, 5)
	var data []byte
	if ascii {
		s := stlSpellings[t.Choose(len(stlSpellings))]
		data = joinLines(asciiLines(fs, s), s)
	} else {
		header := mc.Pick(t, "", "solid", "solid "+strings.Repeat("x", 74), strings.Repeat("\xff", 80), "SOLID a\n facet", "solid a\nfacet normal 0 0 0\nouter loop\nvertex 1 2 3\n", strings.Repeat(" ", 80), "COLOR=\x01\x02\x03\x04")
		data = binarySTL(header, fs, mc.Pick(t, float32(0), 2, float32(math.NaN())), mc.Pick(t, uint16(0), 0xffff, 0x2020))
	}
	m, nobj, nitems := stlTarget(t.Choose(2))
	before := dump(m)
	t.Case(string(data))
	if err := stl.NewDecoder(stlReader(t, data)).Decode(m); err != nil {
		t.Failf("a well-formed file is rejected", "%v\n%.300q", err, data)
	}
	judgeSTL(t, m, before, nobj, nitems, fs)
	t.State(dump(m))
}

// stlSample is a file and the number of its bytes that are needed.
func stlSample(t *mc.T) (data []byte, need int) {
	v := stlCoords["units"]
	fs := []facet{{v[0], v[2], v[1]}, {v[0], v[1], v[3]}, {v[0], v[3], v[2]}, {v[1], v[2], v[3]}, {v[0], v[0], v[1]}, {v[3], v[0], v[1]}, {v[3], v[0], v[1]}}
	fs = fs[:mc.Each(t, 7, 4, 1)]
	switch k := t.Free(4); k {
	case 0:
		data = binarySTL("", fs, 0, 0)
		need = len(data)
	case 1:
		data = binarySTL("solid "+strings.Repeat("x", 74), fs, 0, 0)
		need = len(data)
	default:
		s := stlSpellings[(k-2)*2]
		data = joinLines(asciiLines(fs, s), s)
		need = bytes.LastIndex(data, []byte("endsolid")) + len("endsolid")
	}
	return data, need
}

func stlTruncated(t *mc.T) {
	data, need := stlSample(t)
	cut := t.Free(need)
	c := stlReader(t, data[:cut])
	m, _, _ := stlTarget(1)
	before := dump(m)
	t.Case(string(data[:cut]))
	err := stl.NewDecoder(c).Decode(m)
	if err == nil {
		t.Failf("a truncated file is accepted", "the first %d bytes of\n%q", cut, data)
	}
	if got := dump(m); got != before {
		t.Failf("a rejected file changes the model", "%s", diff(before, got))
	}
}

func stlFaults(t *mc.T) {
	data, need := stlSample(t)
	c := stlReader(t, data)
	c.off, c.err = t.Free(need), mc.Each(t, errFault, io.ErrUnexpectedEOF, fmt.Errorf("wrapped: %w", errFault))
	m, _, _ := stlTarget(1)
	before := dump(m)
	t.Case(fmt.Sprint(len(data), c.off, c.err))
	err := stl.NewDecoder(c).Decode(m)
	if err == nil {
		t.Failf("a read fault is swallowed", "fault at %d of\n%q", c.off, data)
	}
	if !errors.Is(err, c.err) {
		t.Failf("a read fault is not recognisable", "fault at %d of %d: %v", c.off, len(data), err)
	}
	if got := dump(m); got != before {
		t.Failf("a rejected file changes the model", "%s", diff(before, got))
	}
}

// stlMalformed changes one line of an ASCII file so that a facet is no longer one.
func stlMalformed(t *mc.T) {
	s := stlSpellings[mc.Each(t, 0, 2, 3, 4)]
	v := stlCoords["units"]
	fs := []facet{{v[0], v[2], v[1]}, {v[0], v[1], v[3]}, {v[0], v[3], v[2]}, {v[1], v[2], v[3]}}
	lines := asciiLines(fs, s)
	var idx []int
	for i, l := range lines {
		if strings.HasPrefix(l, "vertex") {
			idx = append(idx, i)
		}
	}
	i := idx[t.Free(len(idx))]
	w := strings.Fields(lines[i])
	word := 1 + t.Free(3)
	switch t.Free(9) {
	case 0:
		lines[i] = "" // no vertex
	case 1:
		lines[i] += s.eol + lines[i] // an additional one
	case 2:
		w = append(w[:word], w[word+1:]...)
		lines[i] = strings.Join(w, s.sep)
	case 3:
		lines[i] += s.sep + "1"
	case 4:
		w[word] = mc.Each(t, "x", "1x", "-", "1,5", ".", "e5", "0x", "--1", "1e")
		lines[i] = strings.Join(w, s.sep)
	case 5:
		lines[i] = w[0]
	case 6:
		w[word] = mc.Each(t, "1e39", "-1e400")
		lines[i] = strings.Join(w, s.sep)
	case 7:
		lines[i] = strings.Join(w[1:], s.sep)
	case 8:
		lines[i] = strings.Join(w, "")
	}
	data := joinLines(lines, s)
	m, _, _ := stlTarget(1)
	before := dump(m)
	t.Case(string(data))
	err := stl.NewDecoder(stlReader(t, data)).Decode(m)
	if err == nil {
		t.Failf("a malformed file is accepted", "%s", data)
	}
	if got := dump(m); got != before {
		t.Failf("a rejected file changes the model", "%s", diff(before, got))
	}
}

// stlFacetSizes are files whose facets have any number of vertices.
func stlFacetSizes(t *mc.T) {
	s := stlSpellings[mc.Each(t, 0, 3, 4, 10)]
	v := stlCoords["units"]
	n := 1 + t.Free(3)
	if t.Tier == "thorough" {
		n = 1 + t.Free(4)
	}
	fs := make([]facet, n)
	sizes := make([]int, n)
	good := true
	for i := range sizes {
		fs[i] = facet{v[0], v[1+i%3], v[3-i%3]}
		sizes[i] = (3 + t.Free(8)) % 8
		good = good && sizes[i] == 3
	}
	if good {
		t.Skip() // the other scenarios
	}
	var lines []string
	i, k := -1, 0
	for _, l := range asciiLines(fs, s) {
		switch w := strings.Fields(l)[0]; {
		case w == "facet":
			i, k = i+1, 0
		case w == "vertex":
			if k++; k > sizes[i] {
				continue
			}
			for k == 3 && sizes[i] > k {
				lines = append(lines, strings.Join([]string{"vertex", "0", "0", strconv.Itoa(sizes[i])}, s.sep))
				sizes[i]--
			}
		}
		lines = append(lines, l)
	}
	data := joinLines(lines, s)
	m, _, _ := stlTarget(1)
	before := dump(m)
	t.Case(string(data))
	if err := stl.NewDecoder(bytes.NewReader(data)).Decode(m); err == nil {
		t.Failf("a facet without three vertices is accepted", "%s", data)
	}
	if got := dump(m); got != before {
		t.Failf("a rejected file changes the model", "%s", diff(before, got))
	}
}

// stlCounts imports files of any number of facets.
func stlCounts(t *mc.T) {
	ascii := t.Free(2) == 1
	ctx, what := context.Background(), t.Free(3)
	switch what {
	case 1:
		c, cancel := context.WithCancel(ctx)
		defer cancel()
		ctx = c
	case 2:
		ctx = context.WithValue(ctx, new(int), 1)
	}
	max := 2101
	if t.Tier == "thorough" {
		max = 5001
	}
	big := []int{65535, 65536, 65537, 70001}
	n := t.Free(max + len(big))
	if n >= max { // more than 16 bits can count
		n = big[n-max]
	}
	fs := make([]facet, n)
	for i := range fs {
		f := float32(i)
		fs[i] = facet{{f, 0, 0}, {f + 1, 0, 0}, {0, 1, float32(i * 7 % 11)}}
	}
	data := binarySTL("", fs, 0, 0)
	if ascii {
		data = joinLines(asciiLines(fs, stlSpellings[1]), stlSpellings[1])
	}
	m, nobj, nitems := stlTarget(n % 2)
	before := dump(m)
	t.Case(fmt.Sprint(ascii, what, n))
	if err := stl.NewDecoder(&chunks{data: data, off: -1, eof: n%3 == 0}).DecodeContext(ctx, m); err != nil {
		t.Failf("a well-formed file is rejected", "%d facets, ascii %v: %v", n, ascii, err)
	}
	judgeSTL(t, m, before, nobj, nitems, fs)
	t.State(fmt.Sprint(ascii, n))
}

// stlEndless is a file without end.
type stlEndless struct {
	head, body []byte
	pos        int
	onRead     func(pos int)
}

func (e *stlEndless) Read(p []byte) (int, error) {
	e.onRead(e.pos)
	n := 0
	for n < len(p) && n < 512 {
		q := e.pos
		if q < len(e.head) {
			p[n] = e.head[q]
		} else {
			p[n] = e.body[(q-len(e.head))%len(e.body)]
		}
		e.pos++
		n++
	}
	return n, nil
}

// stlCancel cancels the import of an endless file.
func stlCancel(t *mc.T) {
	v := stlCoords["units"]
	e := &stlEndless{}
	fs := []facet{{v[0], v[2], v[1]}}
	size := 50
	if t.Free(2) == 0 {
		b := binarySTL("", fs, 0, 0)
		e.head, e.body = append([]byte{}, b[:84]...), b[84:]
		binary.LittleEndian.PutUint32(e.head[80:], mc.Each(t, uint32(math.MaxUint32), 20000))
	} else {
		l := asciiLines(fs, stlSpellings[0])
		e.head = []byte(l[0] + "\n")
		e.body = []byte(strings.Join(l[1:len(l)-1], "\n") + "\n")
		size = len(e.body)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	at := t.Free(100) * 1024 // about 2000 facets
	limit := len(e.head) + at + 1024 + 4096 + 1001*size
	e.onRead = func(pos int) {
		if pos >= at {
			cancel()
		}
		if pos > limit {
			panic(errFault)
		}
	}
	m, _, _ := stlTarget(1)
	before := dump(m)
	t.Case(fmt.Sprint(size, len(e.head), e.head[len(e.head)-1], at))
	defer func() {
		if r := recover(); r == errFault {
			t.Failf("cancelling does not end the import", "cancelled at byte %d", at)
		} else if r != nil {
			panic(r)
		}
	}()
	err := stl.NewDecoder(e).DecodeContext(ctx, m)
	if !errors.Is(err, context.Canceled) {
		t.Failf("a cancelled import does not return the error of its context", "%v", err)
	}
	if got := dump(m); got != before {
		t.Failf("a rejected file changes the model", "%s", diff(before, got))
	}
}

// stlHostile gives files that claim more facets than they have.
func stlHostile(t *mc.T) {
	v := stlCoords["units"]
	b := binarySTL(mc.Each(t, "", "solid"), []facet{{v[0], v[2], v[1]}, {v[0], v[1], v[3]}}, 0, 0)
	n := mc.Each(t, uint32(3), 1<<10, 1<<20, 1<<24, 1<<28, 1<<31-1, 1<<31, 1<<32-1)
	binary.LittleEndian.PutUint32(b[80:], n)
	m, _, _ := stlTarget(1)
	before := dump(m)
	t.Case(string(b))
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	var err error
	if n <= 1<<24 { // do not try with more until that is known to be safe
		err = stl.NewDecoder(bytes.NewReader(b)).Decode(m)
	} else if stlSafe() {
		err = stl.NewDecoder(bytes.NewReader(b)).Decode(m)
	} else {
		t.Skip()
	}
	runtime.ReadMemStats(&m1)
	if err == nil {
		t.Failf("a truncated file is accepted", "%d facets", n)
	}
	if a := m1.TotalAlloc - m0.TotalAlloc; a > 16<<20 {
		t.Failf("memory is not in proportion to the file", "%d bytes allocated for a file of %d bytes", a, len(b))
	}
	if got := dump(m); got != before {
		t.Failf("a rejected file changes the model", "%s", diff(before, got))
	}
}

// stlSafe says whether the memory taken for a short file does not follow its count.
func stlSafe() bool {
	b := binarySTL("", nil, 0, 0)
	binary.LittleEndian.PutUint32(b[80:], 1<<24)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	stl.NewDecoder(bytes.NewReader(b)).Decode(new(go3mf.Model))
	runtime.ReadMemStats(&m1)
	return m1.TotalAlloc-m0.TotalAlloc < 16<<20
}

func init() {
	register(&mc.Property{ID: "C25", Scenarios: []mc.Scenario{
		{Name: "binary", Bound: "up to five facets, the first any triple of four vertices and the second any of four (thorough: any), six sets of coordinates; any two of header, normal, attributes, reader, model changed", K: 2, KT: 3, Run: func(t *mc.T) { stlFacets(t, false) }},
		{Name: "ascii", Bound: "the same in twelve spellings", K: 2, KT: 3, Run: func(t *mc.T) { stlFacets(t, true) }},
		{Name: "truncations", Bound: "every truncation of twelve files", K: 1, Run: stlTruncated},
		{Name: "read faults", Bound: "every fault of the reader of twelve files", K: 1, Run: stlFaults},
		{Name: "malformed", Bound: "every vertex line broken in every way", K: 1, Run: stlMalformed},
		{Name: "facet sizes", Bound: "up to three (thorough: four) facets of none to seven vertices each, four spellings", Run: stlFacetSizes},
		{Name: "facet counts", Bound: "every number of facets up to 2100 (thorough: 5000), and four above 65534, in both formats, with each of three contexts", Run: stlCounts},
		{Name: "cancellation", Bound: "cancelled after any kilobyte up to two thousand facets", Run: stlCancel},
		{Name: "hostile counts", Bound: "ten counts", Serial: true, Run: stlHostile},
	}})
}
