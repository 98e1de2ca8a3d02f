package props

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

var errFault = errors.New("injected fault")

// faultReader is an io.ReaderAt that fails every (or only the first) read that
// needs the byte at off.
type faultReader struct {
	mu      sync.Mutex
	data    []byte
	off     int64
	err     error
	partial bool // deliver the bytes before off
	once    bool
	hits    int
}

func (f *faultReader) ReadAt(p []byte, off int64) (int, error) {
	n := 0
	var err error
	if off < int64(len(f.data)) {
		n = copy(p, f.data[off:])
	}
	if n < len(p) {
		err = io.EOF
	}
	if off <= f.off && f.off < off+int64(len(p)) {
		f.mu.Lock()
		defer f.mu.Unlock()
		if f.once && f.hits > 0 {
			return n, err
		}
		f.hits++
		n = 0
		if f.partial {
			n = int(f.off - off)
		}
		return n, f.err
	}
	return n, err
}

type region struct {
	name   string
	lo, hi int64
}

// regions returns where the local headers and data of the parts are.
func regions(data []byte) (out []region) {
	z, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		panic(err)
	}
	for _, f := range z.File {
		o, err := f.DataOffset()
		if err != nil {
			panic(err)
		}
		out = append(out, region{"/" + f.Name, o - 30 - int64(len(f.Name)), o + int64(f.CompressedSize64)})
	}
	return
}

func smallMulti() *go3mf.Model {
	m := &go3mf.Model{Path: go3mf.DefaultModelPath, Extensions: []go3mf.Extension{extQ}}
	o := tetra(1)
	o.Metadata = go3mf.MetadataGroup{Metadata: []go3mf.Metadata{{Value: "some text"}}}
	o.Metadata.Metadata[0].Name.Local = "Title"
	m.Resources.Objects = []*go3mf.Object{o}
	m.Build.Items = []*go3mf.Item{{ObjectID: 1}}
	m.Any = append(m.Any, ptr(unknownTokens(1)))
	m.Childs = map[string]*go3mf.ChildModel{
		"/3D/a.model": {Resources: go3mf.Resources{Objects: []*go3mf.Object{tetra(5)}}},
		"/3D/b.model": {Resources: go3mf.Resources{Objects: []*go3mf.Object{tetra(6)}},
			Relationships: []go3mf.Relationship{{Path: "/x/c.bin", Type: rtOther, ID: "c"}}},
	}
	m.Attachments = []go3mf.Attachment{
		{Path: "/x/t.png", ContentType: "image/png", Stream: stream(strings.Repeat("png", 50))},
		{Path: "/x/p.png", ContentType: "image/png", Stream: stream("part")},
		{Path: "/x/c.bin", ContentType: "application/octet-stream", Stream: stream("child")},
	}
	m.RootRelationships = []go3mf.Relationship{{Path: "/x/t.png", Type: rtThumb, ID: "t"}}
	m.Relationships = []go3mf.Relationship{{Path: "/x/p.png", Type: rtOther, ID: "p"}}
	return m
}

// packageOf builds a package for m with the independent writer.
func packageOf(m *go3mf.Model, method uint16) *pkg {
	root, main, kids := wantRels(m)
	f := form{prec: 4}
	p := &pkg{Rels: toPkgRels(root)}
	p.Parts = append(p.Parts, pkgPart{Name: m.PathOrDefault(), CT: ctModel, Data: render(f.root(m), nsCore, prefixes, styleN(0)), Rels: toPkgRels(main)})
	for _, n := range sortedKeys(m.Childs) {
		p.Parts = append(p.Parts, pkgPart{Name: n, CT: ctModel, Data: render(f.child(m, m.Childs[n]), nsCore, prefixes, styleN(0)), Rels: toPkgRels(kids[n])})
	}
	for i := range m.Attachments {
		a := &m.Attachments[i]
		p.Parts = append(p.Parts, pkgPart{Name: a.Path, CT: a.ContentType, Data: attachmentBytes(a)})
	}
	return p
}

type faultBase struct {
	data []byte
	full string
	reg  []region
}

var faultOnce [2]sync.Once
var faultBases [2]faultBase

func faultInput(i int) *faultBase {
	faultOnce[i].Do(func() {
		method := uint16(zip.Store)
		if i == 1 {
			method = zip.Deflate
		}
		b := &faultBases[i]
		b.data = packageOf(smallMulti(), 0).build(method)
		got, err := decodePackage(b.data, true)
		if err != nil {
			panic(err)
		}
		b.full = dump(got)
		b.reg = regions(b.data)
	})
	return &faultBases[i]
}

// judge decides a decoding that a fault may have disturbed.
func judge(t *mc.T, what string, full string, got *go3mf.Model, err error) {
	if err != nil {
		t.State("error " + err.Error())
		return
	}
	g := dump(got)
	t.State(g)
	if g != full {
		t.Failf("fault swallowed: "+what, "Decode returned no error but an incomplete model\n%s", diff(full, g))
	}
}

func readFaults(t *mc.T) {
	b := faultInput(t.Free(2))
	off := t.Free(len(b.data))
	kind := t.Free(4)
	once := t.Free(2) == 1
	strict := t.Free(2) == 0
	f := &faultReader{data: b.data, off: int64(off), once: once}
	f.err, f.partial = errFault, kind&1 == 1
	if kind >= 2 {
		f.err = io.EOF
	}
	in := "the directory"
	for _, r := range b.reg {
		if r.lo <= f.off && f.off < r.hi {
			in = r.name
		}
	}
	t.Case(fmt.Sprint(off, kind, once, strict, len(b.data)))
	t.Logf("fault at byte %d (%s) err=%v partial=%v once=%v strict=%v", off, in, f.err, f.partial, once, strict)
	d := go3mf.NewDecoder(f, int64(len(b.data)))
	d.Strict = strict
	var got go3mf.Model
	err := d.Decode(&got)
	judge(t, in, b.full, &got, err)
	if err != nil && f.hits == 0 {
		t.Failf("error without fault", "%v", err)
	}
	part := !strings.HasSuffix(in, ".rels") && !strings.HasPrefix(in, "/[") && in != "the directory"
	if err != nil && part && f.err == errFault && !errors.Is(err, errFault) {
		t.Failf("fault not recognisable: "+in, "errors.Is(%q, fault) is false", err)
	}
	if off&255 == 0 {
		t.Sample("fault at %d in %s: %v", off, in, err)
	}
}

// bigInput is a package whose attachments and parts are larger than the buffers.
var bigInput = sync.OnceValue(func() [2]*faultBase {
	var out [2]*faultBase
	for i, method := range []uint16{zip.Store, zip.Deflate} {
		m := smallMulti()
		o := m.Childs["/3D/b.model"].Resources.Objects[0]
		x := uint32(1)
		next := func() byte { x = x*1664525 + 1013904223; return byte(x >> 24) }
		for j := 0; j < 400; j++ {
			o.Mesh.Vertices.Vertex = append(o.Mesh.Vertices.Vertex, go3mf.Point3D{float32(next()) * 31, float32(next()) / 8, float32(next())})
		}
		for j := range m.Attachments {
			noise := make([]byte, 12000)
			for k := range noise {
				noise[k] = next()
			}
			m.Attachments[j].Stream = &memStream{data: noise}
		}
		b := &faultBase{data: packageOf(m, 0).build(method)}
		got, err := decodePackage(b.data, true)
		if err != nil {
			panic(err)
		}
		b.full = dump(got)
		b.reg = regions(b.data)
		out[i] = b
	}
	return out
})

// bigFaults fails reads in the middle of large parts and attachments.
func bigFaults(t *mc.T) {
	b := bigInput()[t.Free(2)]
	off := t.Free((len(b.data)+250)/251) * 251
	if off >= len(b.data) {
		t.Skip()
	}
	kind := t.Free(4)
	strict := t.Free(2) == 0
	once := t.Free(2) == 1
	f := &faultReader{data: b.data, off: int64(off), once: once, err: errFault, partial: kind&1 == 1}
	if kind >= 2 {
		f.err = io.EOF
	}
	t.Case(fmt.Sprint(off, kind, strict, once, len(b.data)))
	t.Logf("fault at byte %d of %d, err=%v partial=%v once=%v strict=%v", off, len(b.data), f.err, f.partial, once, strict)
	d := go3mf.NewDecoder(f, int64(len(b.data)))
	d.Strict = strict
	var got go3mf.Model
	err := d.Decode(&got)
	judge(t, "in a large part", b.full, &got, err)
}

// damages changes one byte of the stored data of a part: its checksum does not hold.
func damages(t *mc.T) {
	b := faultInput(0)
	step := 1
	if t.Free(2) == 1 {
		b, step = bigInput()[0], 401
	}
	off := t.Free((len(b.data)+step-1)/step) * step
	in := ""
	for _, r := range b.reg {
		if lo := r.lo + 30 + int64(len(r.name)) - 1; lo <= int64(off) && int64(off) < r.hi {
			in = r.name
		}
	}
	if in == "" || strings.HasSuffix(in, ".rels") || strings.HasPrefix(in, "/[") { // read by the OPC library
		t.Skip()
	}
	strict := t.Free(2) == 0
	data := append([]byte(nil), b.data...)
	data[off] ^= 1
	t.Case(fmt.Sprint(off, strict, len(b.data)))
	t.Logf("byte %d (%s) changed, strict=%v", off, in, strict)
	d := go3mf.NewDecoder(bytes.NewReader(data), int64(len(data)))
	d.Strict = strict
	var got go3mf.Model
	err := d.Decode(&got)
	judge(t, "damage in "+in, b.full, &got, err)
}

func truncations(t *mc.T) {
	b := faultInput(t.Free(2))
	n := t.Free(len(b.data))
	strict := t.Free(2) == 0
	lie := t.Free(2) == 1 // the size given is the original one
	data := b.data[:n:n]
	size := int64(n)
	if lie {
		size = int64(len(b.data))
	}
	t.Case(fmt.Sprint(n, strict, lie, len(b.data)))
	d := go3mf.NewDecoder(bytes.NewReader(data), size)
	d.Strict = strict
	var got go3mf.Model
	err := d.Decode(&got)
	judge(t, "truncated package", b.full, &got, err)
	if n == len(b.data)/2 {
		t.Sample("%d of %d bytes: %v", n, len(b.data), err)
	}
}

// malformedFaults fails reads of a package one part of which has a malformed element, which
// does not stop a decoding that is not strict.
func malformedFaults(t *mc.T) {
	p := packageOf(smallMulti(), 0)
	which := t.Free(3)
	doc := p.Parts[which].Data
	bad := bytes.Replace(doc, []byte(`<object id="`), []byte(`<object id="x`), 1)
	if bytes.Equal(doc, bad) {
		panic("the document has no object")
	}
	p.Parts[which].Data = bad
	method := uint16(zip.Store)
	if t.Free(2) == 1 {
		method = zip.Deflate
	}
	data := p.build(method)
	if d, err := decodePackage(data, false); err == nil || !isLocated(err) {
		panic(fmt.Sprint("no content error: ", err, d))
	}
	off := t.Free((len(data)+2)/3) * 3
	if off >= len(data) {
		t.Skip()
	}
	in := ""
	for _, r := range regions(data) {
		if lo := r.lo + 30 + int64(len(r.name)) - 1; lo <= int64(off) && int64(off) < r.hi {
			in = r.name
		}
	}
	if in == "" || strings.HasSuffix(in, ".rels") || strings.HasPrefix(in, "/[") {
		t.Skip()
	}
	f := &faultReader{data: data, off: int64(off), err: errFault, partial: t.Free(2) == 1}
	if t.Free(2) == 1 {
		f.err = io.EOF
	}
	t.Case(fmt.Sprint(which, method, off, f.partial, f.err))
	t.Logf("part %s malformed, fault at byte %d (%s) err=%v partial=%v", p.Parts[which].Name, off, in, f.err, f.partial)
	d := go3mf.NewDecoder(f, int64(len(data)))
	d.Strict = false
	err := d.Decode(new(go3mf.Model))
	t.State(fmt.Sprint(err))
	switch {
	case f.hits == 0:
	case err == nil:
		t.Failf("fault swallowed: "+in, "no error")
	case f.err == errFault && !errors.Is(err, errFault):
		t.Failf("fault not recognisable: "+in, "errors.Is(%q, fault) is false", err)
	case isLocated(err):
		t.Failf("fault taken for malformed content: "+in, "the error is just %v", err)
	}
}

// partTruncations cuts the document of one model part, in a valid package.
func partTruncations(t *mc.T) {
	m := smallMulti()
	p := packageOf(m, 0)
	which := t.Free(3)
	doc := p.Parts[which].Data
	malformed := t.Free(2) == 1
	if malformed {
		doc = bytes.Replace(doc, []byte(`<object id="`), []byte(`<object id="x`), 1)
	}
	n := t.Free(len(doc))
	route := 0
	if which == 0 {
		route = t.Free(2)
	}
	strict := route == 1 || !malformed && t.Free(2) == 0
	if len(bytes.TrimSpace(doc[:n])) == 0 {
		t.Skip() // an empty root model is accepted by design of the library
	}
	if end := bytes.LastIndexByte(doc, '>'); n > end {
		t.Skip()
	}
	p.Parts[which].Data = doc[:n]
	t.Case(fmt.Sprint(which, n, route, strict, malformed))
	t.Logf("document:\n%s", doc[:n])
	var got go3mf.Model
	var err error
	if route == 1 {
		err = go3mf.UnmarshalModel(doc[:n], &got)
	} else {
		data := p.build(zip.Store)
		d := go3mf.NewDecoder(bytes.NewReader(data), int64(len(data)))
		d.Strict = strict
		err = d.Decode(&got)
	}
	if err == nil || isLocated(err) {
		t.Failf("truncated document accepted", "part %s cut at %d: error %v\n%s", p.Parts[which].Name, n, err, doc[:n])
	}
	t.State(fmt.Sprint(which, err))
	if n == len(doc)/2 {
		t.Sample("part %s cut at %d of %d: %v", p.Parts[which].Name, n, len(doc), err)
	}
}

// allTruncations cuts the document that uses every element of every extension.
func allTruncations(t *mc.T) {
	doc := sampleDoc()
	n := 1 + t.Free(len(doc)-1)
	if end := bytes.LastIndexByte(doc, '>'); n > end {
		t.Skip()
	}
	t.Case(fmt.Sprint(n))
	var got go3mf.Model
	if err := go3mf.UnmarshalModel(doc[:n:n], &got); err == nil {
		t.Failf("truncated document accepted", "cut at %d of %d: no error\n...%s", n, len(doc), doc[max(0, n-60):n])
	} else if n&1023 == 0 {
		t.Sample("cut at %d of %d: %v", n, len(doc), err)
	}
}

var sampleOnce sync.Once
var sampleDocBytes []byte

func sampleDoc() []byte {
	sampleOnce.Do(func() {
		sampleDocBytes = render(form{prec: 4}.root(sampleAll()), nsCore, prefixes, styleN(0))
	})
	return sampleDocBytes
}

// writerFault fails at the n-th write.
type faultWriter struct {
	n     int
	kind  int // error after 0 none, 1 half, 2 all of the data
	once  bool
	calls int
	hit   bool
	buf   bytes.Buffer
}

func (w *faultWriter) Write(p []byte) (int, error) {
	i := w.calls
	w.calls++
	if i == w.n || i > w.n && !w.once {
		w.hit = true
		n := [3]int{0, len(p) / 2, len(p)}[w.kind]
		w.buf.Write(p[:n])
		return n, errFault
	}
	return w.buf.Write(p)
}

func writeModel(big bool) *go3mf.Model {
	m := sampleMulti()
	if big { // parts larger than the buffers on the way
		o := tetra(90)
		for i := 0; i < 3000; i++ {
			o.Mesh.Vertices.Vertex = append(o.Mesh.Vertices.Vertex, go3mf.Point3D{float32(i*7919%9973) / 7, float32(i*104729%9973) / 3, float32(i)})
		}
		m.Childs["/3D/b.model"].Resources.Objects = append(m.Childs["/3D/b.model"].Resources.Objects, o)
		noise := make([]byte, 40000)
		x := uint32(1)
		for i := range noise {
			x = x*1664525 + 1013904223
			noise[i] = byte(x >> 24)
		}
		m.Attachments[1].Stream = &memStream{data: noise}
	}
	return m
}

var writesOnce sync.Once
var nWrites [2]int

func writeFaults(t *mc.T) {
	writesOnce.Do(func() {
		for i := range nWrites {
			w := &faultWriter{n: 1 << 30}
			if err := go3mf.NewEncoder(w).Encode(writeModel(i == 1)); err != nil {
				panic(err)
			}
			nWrites[i] = w.calls
		}
	})
	big := t.Free(2)
	w := &faultWriter{n: t.Free(nWrites[big]), kind: t.Free(3), once: t.Free(2) == 1}
	t.Case(fmt.Sprint(big, w.n, w.kind, w.once))
	t.Logf("write %d of %d, kind %d, once %v", w.n, nWrites[big], w.kind, w.once)
	err := go3mf.NewEncoder(w).Encode(writeModel(big == 1))
	t.State(fmt.Sprint(big, w.n, err))
	if w.hit && err == nil {
		t.Failf("write fault swallowed", "write %d of %d failed (kind %d, once %v) but Encode returned nil", w.n, nWrites[big], w.kind, w.once)
	}
	if !w.hit {
		t.Failf("fault not reached", "only %d writes", w.calls)
	}
	t.Sample("write %d of %d kind %d: %v", w.n, nWrites[big], w.kind, err)
}

// faultStream fails at a byte of an attachment.
type faultStream struct {
	data  []byte
	off   int
	at    int
	chunk int
	with  bool // error together with the last data
	err   error
	once  bool
	hits  int
}

func (s *faultStream) Read(p []byte) (int, error) {
	if s.off >= s.at && !(s.once && s.hits > 0) {
		s.hits++
		return 0, s.err
	}
	if s.off >= len(s.data) {
		return 0, io.EOF
	}
	end := s.off + min(s.chunk, len(p), len(s.data)-s.off)
	if s.off < s.at && end >= s.at && !(s.once && s.hits > 0) {
		end = s.at
	}
	n := copy(p, s.data[s.off:end])
	s.off += n
	if s.off == s.at && s.with && !(s.once && s.hits > 0) {
		s.hits++
		return n, s.err
	}
	return n, nil
}

func streamFaults(t *mc.T) {
	m := smallMulti()
	i := t.Free(len(m.Attachments))
	data := attachmentBytes(&m.Attachments[i])
	s := &faultStream{data: data, at: t.Free(len(data) + 1), chunk: mc.Each(t, 1, 7, 1000), with: t.Free(2) == 1, once: t.Free(2) == 1}
	s.err = mc.Each(t, errFault, io.ErrUnexpectedEOF, io.ErrClosedPipe)
	m.Attachments[i].Stream = s
	t.Case(fmt.Sprint(i, s.at, s.chunk, s.with, s.once, s.err))
	var b bytes.Buffer
	err := go3mf.NewEncoder(&b).Encode(m)
	if err == nil {
		t.Failf("stream fault swallowed", "attachment %d failed at byte %d with %v but Encode returned nil", i, s.at, s.err)
	}
	t.State(fmt.Sprint(i, s.at, err))
	t.Sample("attachment %d byte %d: %v", i, s.at, err)
}

// duplicates: parts that cannot be written are errors.
func badParts(t *mc.T) {
	m := smallMulti()
	k := t.Free(8)
	switch k {
	case 0:
		m.Attachments = append(m.Attachments, go3mf.Attachment{Path: "/x/T.PNG", ContentType: "image/png", Stream: stream("x")})
	case 1:
		m.Attachments[0].Path = m.Path
	case 2:
		m.Attachments[0].Path = "/3D/a.model"
	case 3:
		m.Attachments[0].ContentType = ""
	case 4:
		m.Attachments[0].Path = ""
	case 5:
		m.Childs["/3D/A.model"] = new(go3mf.ChildModel)
	case 6:
		m.Childs["a.model"] = new(go3mf.ChildModel)
	case 7:
		m.Childs[m.Path] = new(go3mf.ChildModel)
	}
	t.Case(fmt.Sprint(k))
	if _, err := encodePackage(m, 4); err == nil {
		t.Failf("unwritable part accepted", "case %d: Encode returned nil", k)
	} else {
		t.State(err.Error())
		t.Sample("case %d: %v", k, err)
	}
}

// failingElem is an element of an extension that cannot be marshalled.
type failingElem struct{ go3mf.UnknownAsset }

func (*failingElem) Marshal3MF(spec.Encoder, *xml.StartElement) error { return errFault }

func failingElements(t *mc.T) {
	m := smallMulti()
	x := &failingElem{}
	ok := ptr(unknownTokens(0))
	before, after := t.Free(2) == 1, t.Free(2) == 1
	put := func(a *spec.Any) {
		var out spec.Any
		if before {
			out = append(out, ok)
		}
		out = append(out, x)
		if after {
			out = append(out, ok)
		}
		*a = out
	}
	k := t.Free(6)
	route := t.Free(2)
	switch k {
	case 0:
		put(&m.Any)
	case 1:
		put(&m.Childs["/3D/a.model"].Any)
	case 2:
		put(&m.Resources.Objects[0].Mesh.Any)
	case 3:
		put(&m.Childs["/3D/b.model"].Resources.Objects[0].Mesh.Any)
	case 4:
		m.Resources.Assets = append(m.Resources.Assets, x, &go3mf.BaseMaterials{ID: 77})
	case 5:
		m.Childs["/3D/b.model"].Resources.Assets = append(m.Childs["/3D/b.model"].Resources.Assets, x, &go3mf.BaseMaterials{ID: 77})
	}
	if route == 1 && k&1 == 1 {
		t.Skip() // MarshalModel writes the root model only
	}
	t.Case(fmt.Sprint(k, before, after, route))
	var err error
	if route == 0 {
		_, err = encodePackage(m, 4)
	} else {
		_, err = go3mf.MarshalModel(m)
	}
	t.State(fmt.Sprint(k, err))
	if err == nil {
		t.Failf("element error swallowed", "case %d: no error", k)
	}
	t.Sample("case %d: %v", k, err)
}

func init() {
	register(&mc.Property{
		ID: "C12", Level: "fault_enumeration",
		Method: "exhaustive fault injection into the real decoder: every byte of a package x kind of fault, every truncation",
		Rule:   "a read that fails or ends early makes decoding fail, or had no part in the result",
		Assumptions: []string{
			"a fault hits the reads that need one given byte: error or early end, with or without the bytes before it, once or for ever",
			"a root document without any content is accepted (pinned by the test suite)",
		},
		Scenarios: []mc.Scenario{
			{Name: "read faults", Bound: "2 packages (stored, deflated) of 3 model parts and 3 attachments: every byte x 4 kinds x once/for ever x strict", Run: readFaults},
			{Name: "large parts", Bound: "2 packages whose parts and attachments exceed the buffers: every 251st byte x 4 kinds x once/for ever x strict", Run: bigFaults},
			{Name: "damaged data", Bound: "a stored package: every byte of the data of the parts changed; one with large parts: every 401st byte", Run: damages},
			{Name: "truncated packages", Bound: "the same packages cut at every byte x strict x size told", Run: truncations},
			{Name: "malformed parts", Bound: "a malformed element in any of 3 model parts, not strictly: every third byte of the parts and attachments x 4 kinds, stored and deflated", Run: malformedFaults},
			{Name: "truncated parts", Bound: "every model part, well-formed or with a malformed element, cut at every byte x strict, and UnmarshalModel", Run: partTruncations},
			{Name: "truncated extensions", Bound: "a document using every element of every extension cut at every byte", Run: allTruncations},
		},
	})
	register(&mc.Property{
		ID: "C13", Level: "fault_enumeration",
		Method: "exhaustive fault injection into the real encoder: every write x kind of fault, every byte of every attachment",
		Rule:   "a write or an attachment that fails makes encoding fail",
		Assumptions: []string{
			"a small model (three parts, every extension) and one whose parts exceed the buffers",
		},
		Scenarios: []mc.Scenario{
			{Name: "write faults", Bound: "2 models: every write x error after none, half or all of the data x once/for ever", Run: writeFaults},
			{Name: "stream faults", Bound: "every byte of 3 attachments x 3 chunk sizes x 3 errors x error with/after data x once/for ever", Run: streamFaults},
			{Name: "failing elements", Bound: "6 places of elements that cannot be marshalled x neighbours x Encode, MarshalModel", Run: failingElements},
			{Name: "unwritable parts", Bound: "8 models whose parts clash or are invalid", Run: badParts},
		},
	})
}
