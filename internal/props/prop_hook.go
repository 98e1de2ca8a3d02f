package props

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"image/color"
	"slices"
	"sort"
	"strings"
	"sync"

	"github.com/hpinc/go3mf"
	specerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

// ---- C32: extensions registered by users of the library --------------------

const (
	nsHook     = "http://hook/elements"
	nsHookPlus = "http://hook/plain" // a specification without validator
	nsAttrOK   = "http://hook/attrs/accept"
	nsAttrNo   = "http://hook/attrs/decline"
	nsAttrBad  = "http://hook/attrs/error"
)

var (
	errHookStart   = errors.New("start failed")
	errHookKid     = errors.New("kid failed")
	errHookAttr    = errors.New("attribute failed")
	errHookMarshal = errors.New("marshal failed")
)

// hookElem is what the element decoders of the test specification build.
type hookElem struct {
	Name xml.Name
	Attr []xml.Attr
	Kids []*hookElem
	Text string
	Ends int
	rel  string
	fail bool
}

func (h *hookElem) Marshal3MF(x spec.Encoder, parent *xml.StartElement) error {
	if h.fail {
		return errHookMarshal
	}
	if h.rel != "" {
		x.AddRelationship(spec.Relationship{Path: h.rel, Type: "http://hook/rel", ID: "hook" + h.rel[1:2]})
	}
	se := xml.StartElement{Name: h.Name, Attr: h.Attr}
	x.EncodeToken(se)
	if h.Text != "" {
		x.EncodeToken(xml.CharData(h.Text))
	}
	for _, k := range h.Kids {
		if err := k.Marshal3MF(x, &se); err != nil {
			return err
		}
	}
	x.EncodeToken(se.End())
	return nil
}

func (h *hookElem) describe() string {
	s := fmt.Sprintf("%s%q ends=%d %q(", h.Name.Local, h.Attr, h.Ends, h.Text)
	for _, k := range h.Kids {
		s += k.describe() + " "
	}
	return s + ")"
}

// hookAsset is a hookElem that may be in the resources.
type hookAsset struct{ hookElem }

func (h *hookAsset) Identify() (id uint32) {
	for _, a := range h.Attr {
		if a.Name.Local == "id" {
			fmt.Sscan(a.Value, &id)
		}
	}
	return
}
func (h *hookAsset) XMLName() xml.Name { return h.Name }

type hookDec struct {
	element interface{}
	e       *hookElem
}

func (d *hookDec) Element() interface{} { return d.element }
func (d *hookDec) Start(attrs []spec.XMLAttr) error {
	for _, a := range attrs {
		d.e.Attr = append(d.e.Attr, xml.Attr{Name: a.Name, Value: string(a.Value)})
	}
	switch d.e.Name.Local {
	case "bad":
		return errHookStart
	case "kid":
		for _, a := range d.e.Attr {
			if a.Value == "bad" {
				return errHookKid
			}
		}
	}
	return nil
}
func (d *hookDec) End()              { d.e.Ends++ }
func (d *hookDec) CharData(b []byte) { d.e.Text += string(b) }
func (d *hookDec) Child(name xml.Name) (int, spec.ElementDecoder) {
	if name.Space != nsHook || name.Local != "kid" {
		return 0, nil
	}
	k := &hookElem{Name: name}
	d.e.Kids = append(d.e.Kids, k)
	return len(d.e.Kids) - 1, &hookDec{e: k}
}

type hookSpec struct{ ns string }

func (s hookSpec) NewElementDecoder(name xml.Name) spec.GetterElementDecoder {
	if name.Space != s.ns {
		panic("the specification of " + s.ns + " is asked for an element of " + name.Space)
	}
	switch name.Local {
	case "asset", "bad":
		a := &hookAsset{hookElem{Name: name}}
		return &hookDec{element: a, e: &a.hookElem}
	case "thing":
		h := &hookElem{Name: name}
		return &hookDec{element: h, e: h}
	case "bare":
		return &hookDec{element: struct{ x int }{1}, e: &hookElem{Name: name}}
	}
	return nil
}

// hookAttrs is the attribute group of the test specification.
type hookAttrs struct {
	Space  string
	Parent xml.Name
	Attr   []xml.Attr
}

func (h *hookAttrs) Namespace() string { return h.Space }
func (h *hookAttrs) Unmarshal3MFAttr(a spec.XMLAttr) error {
	h.Attr = append(h.Attr, xml.Attr{Name: a.Name, Value: string(a.Value)})
	if h.Space == nsAttrBad && len(h.Attr)%2 == 0 {
		return errHookAttr
	}
	return nil
}
func (h *hookAttrs) Marshal3MF(_ spec.Encoder, start *xml.StartElement) error {
	start.Attr = append(start.Attr, h.Attr...)
	return nil
}

func (s hookSpec) NewAttrGroup(parent xml.Name) spec.AttrGroup {
	if s.ns == nsAttrNo {
		return nil
	}
	return &hookAttrs{Space: s.ns, Parent: parent}
}

// hookValidator is a specification with a validator, which does what the
// table of the model says.
type hookValidator struct{ hookSpec }

type hookCall struct {
	ns, path, what string
}

type hookTable struct {
	calls []hookCall
	err   func(ns, what string) error
}

var hookTables sync.Map // *go3mf.Model -> *hookTable

func (s hookValidator) Validate(model interface{}, path string, element interface{}) error {
	v, ok := hookTables.Load(model)
	if !ok {
		return nil
	}
	tb := v.(*hookTable)
	what := fmt.Sprintf("%T", element)
	switch e := element.(type) {
	case *go3mf.Model:
		if e == model.(*go3mf.Model) {
			what = "model"
		}
	case go3mf.Asset:
		what = fmt.Sprintf("asset %d", e.Identify())
	case *go3mf.Object:
		what = fmt.Sprintf("object %d", e.ID)
	}
	tb.calls = append(tb.calls, hookCall{s.ns, path, what})
	return tb.err(s.ns, what)
}

func nsValidator(k int) string { return fmt.Sprintf("http://hook/validator/%d", k) }

func init() {
	for _, ns := range []string{nsHook, nsHookPlus, nsAttrOK, nsAttrNo, nsAttrBad} {
		spec.Register(ns, hookSpec{ns})
	}
	for k := 0; k < 2; k++ {
		spec.Register(nsValidator(k), hookValidator{hookSpec{nsValidator(k)}})
	}
}

// hookKinds are the things put in a slot of a document: the text, and what
// comes of it.
type hookThing struct {
	src  string
	kept string // description of what is kept as an element, if anything
	as   string // and as an asset
	err  []string
}

var hookThings = []hookThing{
	{src: `<h:asset id="7" k="v"/>`, kept: "asset id=7,k=v ends=1", as: "asset id=7,k=v ends=1"},
	{src: `<h:thing k="1">a<h:kid a="1">b</h:kid> c<h:kid/></h:thing>`, kept: `thing k=1 ends=1 "a c" [kid a=1 ends=1 "b"] [kid ends=1]`},
	{src: `<h:bare k="1"><h:kid a="1"/></h:bare>`},
	{src: `<h:no k="1"><h:thing/><resources xmlns="` + nsCore + `"><object id="9"/></resources></h:no>`},
	{src: `<h:bad k="1"><h:other/><h:kid a="2"/></h:bad>`, kept: "bad k=1 ends=1 [kid a=2 ends=1]", as: "bad k=1 ends=1 [kid a=2 ends=1]", err: []string{"bad[]: start failed"}},
	{src: `<h:asset><h:kid/><q:x><h:asset/><h:kid a="bad"/></q:x><h:kid a="bad"/></h:asset>`, kept: "asset ends=1 [kid ends=1] [kid a=bad ends=1]", as: "asset ends=1 [kid ends=1] [kid a=bad ends=1]", err: []string{"asset[]/kid[1]: kid failed"}},
	{src: `<q:u><h:asset/></q:u>`, kept: "unknown", as: "unknown"},
	{src: `<h:asset/><h:thing/>`, kept: "asset ends=1|thing ends=1", as: "asset ends=1"},
}

func describeHook(h *hookElem) string {
	s := h.Name.Local
	var as []string
	for _, a := range h.Attr {
		as = append(as, a.Name.Local+"="+a.Value)
	}
	if len(as) > 0 {
		s += " " + strings.Join(as, ",")
	}
	s += fmt.Sprintf(" ends=%d", h.Ends)
	if h.Text != "" {
		s += fmt.Sprintf(" %q", h.Text)
	}
	for _, k := range h.Kids {
		s += " [" + describeHook(k) + "]"
	}
	return s
}

func describeAny(v interface{}) string {
	switch v := v.(type) {
	case *hookElem:
		return describeHook(v)
	case *hookAsset:
		return describeHook(&v.hookElem)
	case *spec.UnknownTokens, *go3mf.UnknownAsset:
		return "unknown"
	}
	return fmt.Sprintf("%T", v)
}

// hookElements puts elements of a registered specification at every place.
func hookElements(t *mc.T) {
	const (
		rootStart = iota
		rootResources0
		rootResources1
		mesh0
		mesh1
		rootEnd
		childResources
		childMesh
		childEnd
		inUnregistered
		nSlots
	)
	var slots [nSlots]hookThing
	for i := range slots {
		if k := t.Choose(len(hookThings) + 1); k > 0 {
			slots[i] = hookThings[k-1]
		}
	}
	root := fmt.Sprintf(`<model xmlns="%s" xmlns:h="%s" xmlns:q="%s">%s<resources>%s<basematerials id="1"><base name="a" displaycolor="#ffffff"/></basematerials>%s<object id="2"><mesh>%s<vertices><vertex x="1" y="2" z="3"/></vertices><triangles/>%s</mesh></object></resources><build><item objectid="2"/></build>%s<q:w>%s</q:w></model>`,
		nsCore, nsHook, nsQ, slots[rootStart].src, slots[rootResources0].src, slots[rootResources1].src, slots[mesh0].src, slots[mesh1].src, slots[rootEnd].src, slots[inUnregistered].src)
	child := fmt.Sprintf(`<model xmlns="%s" xmlns:h="%s" xmlns:q="%s"><resources>%s<object id="1"><mesh><vertices/><triangles/>%s</mesh></object></resources><build/>%s</model>`,
		nsCore, nsHook, nsQ, slots[childResources].src, slots[childMesh].src, slots[childEnd].src)
	data := hookPackage(root, child)
	t.Case(root + child)
	t.Logf("root: %s\nchild: %s", root, child)

	// what is expected
	list := func(asset bool, pre []string, ks ...int) (out []string) {
		out = pre
		for _, k := range ks {
			s := slots[k].kept
			if asset {
				s = slots[k].as
			}
			if s != "" {
				out = append(out, strings.Split(s, "|")...)
			}
		}
		return
	}
	assets := list(true, nil, rootResources0)
	nBefore := len(assets)
	assets = append(assets, "*go3mf.BaseMaterials")
	assets = append(assets, list(true, nil, rootResources1)...)
	want := map[string][]string{
		"model":        append(list(false, nil, rootStart, rootEnd), "unknown"),
		"assets":       assets,
		"mesh":         list(false, nil, mesh0, mesh1),
		"child":        list(false, nil, childEnd),
		"child assets": list(true, nil, childResources),
		"child mesh":   list(false, nil, childMesh),
	}
	var errs []string
	addErr := func(slot int, path, xpath string, index int) {
		for _, e := range slots[slot].err {
			at := ""
			if index >= 0 {
				at = fmt.Sprintf("[%d]", index)
			}
			e = strings.Replace(e, "[]", at, 1)
			s := "go3mf: "
			if path != "" {
				s += "Path: " + path + " "
			}
			errs = append(errs, s+"XPath: "+xpath+"/"+e)
		}
	}
	const cp = "/3D/child.model"
	addErr(childResources, cp, "/model/resources", 0)
	addErr(childMesh, cp, "/model/resources/object[0]/mesh", -1)
	addErr(childEnd, cp, "/model", -1)
	addErr(rootStart, "", "/model", -1)
	addErr(rootResources0, "", "/model/resources", 0)
	addErr(rootResources1, "", "/model/resources", nBefore+1)
	addErr(mesh0, "", "/model/resources/object[0]/mesh", -1)
	addErr(mesh1, "", "/model/resources/object[0]/mesh", -1)
	addErr(rootEnd, "", "/model", -1)

	// decoding
	_, err := decodePackage(data, true)
	switch {
	case len(errs) == 0 && err != nil:
		t.Failf("hook: strict error", "%v", err)
	case len(errs) != 0 && (err == nil || err.Error() != errs[0]):
		t.Failf("hook: strict error", "%v instead of %v", err, errs[0])
	case len(errs) != 0 && !errors.Is(err, errHookStart) && !errors.Is(err, errHookKid):
		t.Failf("hook: error identity", "%v", err)
	}
	m, err := decodePackage(data, false)
	if got := errStrings(err); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", errs) {
		t.Failf("hook: errors", "%q instead of %q", got, errs)
	}
	compare := func(m *go3mf.Model, what string) {
		got := map[string][]string{}
		add := func(k string, v interface{}) { got[k] = append(got[k], describeAny(v)) }
		if len(m.Resources.Objects) != 1 || m.Resources.Objects[0].Mesh == nil || len(m.Build.Items) != 1 || len(m.Childs) != 1 || len(m.Childs[cp].Resources.Objects) != 1 {
			t.Failf("hook: the rest", "%s: %s", what, dump(m))
		}
		for _, v := range m.Any {
			add("model", v)
		}
		for _, v := range m.Resources.Assets {
			add("assets", v)
		}
		for _, v := range m.Resources.Objects[0].Mesh.Any {
			add("mesh", v)
		}
		for _, v := range m.Childs[cp].Any {
			add("child", v)
		}
		for _, v := range m.Childs[cp].Resources.Assets {
			add("child assets", v)
		}
		for _, v := range m.Childs[cp].Resources.Objects[0].Mesh.Any {
			add("child mesh", v)
		}
		for k, w := range want {
			if fmt.Sprintf("%q", got[k]) != fmt.Sprintf("%q", w) {
				t.Failf("hook: "+k, "%s: %q instead of %q\n%s\n%s", what, got[k], w, root, child)
			}
		}
		t.State(fmt.Sprintf("%q", got))
		if n := len(m.Resources.Objects[0].Mesh.Vertices.Vertex); n != 1 {
			t.Failf("hook: the rest", "%s: %d vertices", what, n)
		}
	}
	compare(m, "decoded")
	// encoding it and decoding again
	var b bytes.Buffer
	if err := go3mf.NewEncoder(&b).Encode(m); err != nil {
		t.Failf("hook: encode", "%v", err)
	}
	m, err = decodePackage(b.Bytes(), false)
	got := errStrings(err)
	// elements that are not kept are gone, and indices with them: only the number counts
	if len(got) != len(errs) {
		t.Failf("hook: errors", "decoded again: %q instead of %q", got, errs)
	}
	// what is encoded of the model comes in the order of the slots
	compare(m, "decoded again")
	t.Sample("%d slots used", len(errs))
}

func errStrings(err error) (out []string) {
	if l, ok := err.(*specerr.List); ok {
		for _, e := range l.Errors {
			out = append(out, e.Error())
		}
	} else if err != nil {
		out = append(out, err.Error())
	}
	return
}

// hookPackage is a package with a root model and a child.
func hookPackage(root, child string) []byte {
	p := &pkg{
		Parts: []pkgPart{
			{Name: go3mf.DefaultModelPath, CT: ctModel, Data: []byte(root), Rels: []pkgRel{{ID: "c", Type: rtModel, Target: "/3D/child.model"}}},
			{Name: "/3D/child.model", CT: ctModel, Data: []byte(child)},
		},
		Rels: []pkgRel{{ID: "r", Type: rtModel, Target: go3mf.DefaultModelPath}},
	}
	return p.build(zip.Deflate)
}

// hookAttributes puts attributes of registered specifications on one or two
// elements.
func hookAttributes(t *mc.T) {
	m := sampleCore()
	doc := form{prec: 4}.root(m)
	nodes := walkN(doc)
	spaces := []string{nsAttrOK, nsAttrNo, nsAttrBad}
	prefix := map[string]string{nsAttrOK: "ok", nsAttrNo: "no", nsAttrBad: "bad"}
	for k, v := range prefixes {
		prefix[k] = v
	}
	for _, ns := range spaces {
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: ns, LocalName: prefix[ns]})
		doc.ns("xmlns", prefix[ns], ns)
	}
	type put struct {
		node  int
		attrs []A
	}
	var puts []put
	n1 := t.Free(len(nodes))
	puts = append(puts, put{node: n1})
	if k := t.Free(4); k > 0 && n1+k < len(nodes) {
		puts = append(puts, put{node: n1 + k})
	}
	for i := range puts {
		switch t.Free(6) {
		case 5:
			puts[i].attrs = []A{{nsAttrBad, "a", "1"}, {nsAttrBad, "b", "2"}, {nsAttrOK, "x", "2"}, {nsAttrBad, "c", "3"}, {nsAttrBad, "d", "4"}, {nsAttrNo, "x", "2"}}
		case 0:
			puts[i].attrs = []A{{nsAttrOK, "a", "1"}, {nsAttrOK, "b", "2"}, {nsAttrOK, "c", "3"}}
		case 1:
			puts[i].attrs = []A{{nsAttrNo, "a", "1"}, {nsAttrOK, "b", "2"}, {nsAttrNo, "c", "3"}}
		case 2:
			puts[i].attrs = []A{{nsAttrBad, "a", "1"}, {nsAttrBad, "b", "2"}, {nsAttrBad, "c", "3"}}
		case 3:
			puts[i].attrs = []A{{nsAttrBad, "a", "1"}, {nsAttrOK, "b", "2"}, {nsAttrBad, "c", "3"}, {nsAttrOK, "d", "4"}, {nsQ, "e", "5"}}
		case 4:
			puts[i].attrs = []A{{nsAttrBad, "a", "1"}, {nsAttrNo, "x", "2"}}
		}
	}
	var errs []string
	for _, p := range puts {
		ref := nodes[p.node]
		slot := anyAttrOf(m, doc, ref)
		bads := 0
		for _, a := range p.attrs {
			ref.n.ns(a.Space, a.Local, a.Value)
			if slot == nil {
				continue
			}
			name := xml.Name{Space: a.Space, Local: a.Local}
			g := slot.Get(a.Space)
			if g == nil {
				if a.Space == nsAttrNo || a.Space == nsQ {
					g = &spec.UnknownAttrs{Space: a.Space}
				} else {
					g = &hookAttrs{Space: a.Space, Parent: xml.Name{Space: nsCore, Local: ref.n.Local}}
				}
				*slot = append(*slot, g)
			}
			switch g := g.(type) {
			case *spec.UnknownAttrs:
				g.Attr = append(g.Attr, xml.Attr{Name: name, Value: a.Value})
			case *hookAttrs:
				g.Attr = append(g.Attr, xml.Attr{Name: name, Value: a.Value})
			}
			if a.Space == nsAttrBad {
				if bads++; bads%2 == 0 {
					errs = append(errs, "go3mf: XPath: "+xpathOf(ref)+": attribute failed")
				}
			}
		}
	}
	out := render(doc, nsCore, prefix, styleN(mc.Each(t, 0, 3)))
	t.Case(string(out))
	t.Logf("document:\n%s", out)
	normalize(m, 4)
	data := wrapModel(out)
	_, err := decodePackage(data, true)
	got := errStrings(err)
	if len(got) != min(len(errs), 1) || len(got) == 1 && (got[0] != errs[0] || !errors.Is(err, errHookAttr)) {
		t.Failf("hook: strict attribute error", "%q instead of %q\n%s", got, errs, out)
	}
	for i := 0; i < 2; i++ {
		g, err := decodePackage(data, false)
		if got := errStrings(err); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", errs) {
			t.Failf("hook: attribute errors", "%q instead of %q\n%s", got, errs, out)
		}
		g.Path = ""
		canonModel(g)
		wd, gd := dump(m), dump(g)
		t.State(gd)
		if wd != gd {
			t.Failf("hook: attributes", "decoding %d: %s\n%s", i, diff(wd, gd), out)
		}
		if data, err = encodePackage(g, 4); err != nil {
			t.Failf("hook: encode", "%v", err)
		}
		m.RootRelationships, m.Relationships = nil, nil
	}
}

// xpathOf locates an element of a document as the errors do.
func xpathOf(ref nodeRef) string {
	all := append(append([]*N(nil), ref.path...), ref.n)
	s := ""
	for i, n := range all {
		s += "/" + n.Local
		var same func(k *N) bool
		switch n.Local {
		case "metadata", "object", "base", "vertex", "triangle", "component", "item":
			same = func(k *N) bool { return k.Local == n.Local }
		case "basematerials": // numbered among the assets
			same = func(k *N) bool { return k.Local != "object" && k.Local != "#text" }
		default:
			continue
		}
		idx := 0
		for _, k := range all[i-1].Kids {
			if k == n {
				break
			}
			if same(k) {
				idx++
			}
		}
		s += fmt.Sprintf("[%d]", idx)
	}
	return s
}

// hookMarshal has elements that add relationships or fail at every place a
// model has for elements.
func hookMarshal(t *mc.T) {
	const cp = "/3D/child.model"
	mesh := func() *go3mf.Object { return &go3mf.Object{ID: 5, Mesh: new(go3mf.Mesh)} }
	m := &go3mf.Model{
		Extensions: []go3mf.Extension{{Namespace: nsHook, LocalName: "h"}},
		Resources:  go3mf.Resources{Objects: []*go3mf.Object{mesh(), mesh()}},
		Childs:     map[string]*go3mf.ChildModel{cp: {Resources: go3mf.Resources{Objects: []*go3mf.Object{mesh()}}}},
		Attachments: []go3mf.Attachment{
			{Path: "/0.bin", ContentType: "x/y", Stream: stream("0")}, {Path: "/1.bin", ContentType: "x/y", Stream: stream("1")},
		},
	}
	root, child := map[string]bool{}, map[string]bool{}
	fail := false
	put := func(rels map[string]bool) *hookAsset {
		e := &hookAsset{hookElem{Name: xml.Name{Space: nsHook, Local: "asset"}}}
		switch t.Choose(4) {
		case 0:
			return nil
		case 1:
			e.rel = "/0.bin"
			rels[e.rel] = true
		case 2:
			e.Kids = []*hookElem{{Name: xml.Name{Space: nsHook, Local: "kid"}, rel: "/1.bin"}}
			rels["/1.bin"] = true
		case 3:
			e.Kids = []*hookElem{{Name: xml.Name{Space: nsHook, Local: "kid"}, fail: true}}
			fail = true
		}
		return e
	}
	rootOnly := false // fails in the root part
	for i := 0; i < 2; i++ {
		if e := put(root); e != nil {
			m.Any = append(m.Any, e)
		}
		if e := put(root); e != nil {
			m.Resources.Assets = append(m.Resources.Assets, e)
		}
		if e := put(root); e != nil {
			o := m.Resources.Objects[i].Mesh
			o.Any = append(o.Any, e)
		}
	}
	rootOnly = fail
	c := m.Childs[cp]
	if e := put(child); e != nil {
		c.Any = append(c.Any, e)
	}
	if e := put(child); e != nil {
		c.Resources.Assets = append(c.Resources.Assets, e)
	}
	if e := put(child); e != nil {
		c.Resources.Objects[0].Mesh.Any = append(c.Resources.Objects[0].Mesh.Any, e)
	}
	t.Case(fmt.Sprint(dump(m), fail))
	if _, err := go3mf.MarshalModel(m); rootOnly != errors.Is(err, errHookMarshal) || !rootOnly && err != nil {
		t.Failf("hook: MarshalModel error", "%v", err)
	}
	data, err := encodePackage(m, 4)
	if fail {
		if !errors.Is(err, errHookMarshal) {
			t.Failf("hook: Encode error", "%v", err)
		}
		return
	}
	if err != nil {
		t.Failf("hook: Encode error", "%v", err)
	}
	p, err := openPkg(data)
	if err != nil {
		t.Failf("hook: package", "%v", err)
	}
	for part, want := range map[string]map[string]bool{go3mf.DefaultModelPath: root, cp: child} {
		got := map[string]bool{}
		for _, r := range p.find(part).Rels {
			if r.Type == "http://hook/rel" {
				if got[r.Target] {
					t.Failf("hook: relationship twice", "%v", r)
				}
				got[r.Target] = true
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Failf("hook: relationships", "%s: %v instead of %v", part, got, want)
		}
		t.State(fmt.Sprint(part, got))
	}
}

// hookValidate validates models with listed extensions whose validators report
// errors at chosen places.
func hookValidate(t *mc.T) {
	asset := func(id uint32, k int) go3mf.Asset {
		switch k {
		case 1:
			return &go3mf.BaseMaterials{ID: id, Materials: []go3mf.Base{{Name: "a", Color: color.RGBA{A: 1}}}}
		case 2:
			return &hookAsset{hookElem{Name: xml.Name{Space: nsHook, Local: "asset"}, Attr: []xml.Attr{{Name: xml.Name{Local: "id"}, Value: utoa(id)}}}}
		}
		return &go3mf.UnknownAsset{UnknownTokens: spec.UnknownTokens{Token: []xml.Token{xml.StartElement{Name: xml.Name{Space: nsQ, Local: "u"}}}}}
	}
	m := new(go3mf.Model)
	if t.Free(2) == 1 {
		m.Path = "/3D/other.model"
	}
	resources := func(first uint32, rs *go3mf.Resources) {
		for i := t.Free(3); i > 0; i-- {
			rs.Assets = append(rs.Assets, asset(first+uint32(len(rs.Assets)), 1+t.Free(3)))
		}
		for i := t.Free(3); i > 0; i-- {
			rs.Objects = append(rs.Objects, &go3mf.Object{ID: first + 10 + uint32(i), Type: go3mf.ObjectTypeSupport, Mesh: new(go3mf.Mesh)})
		}
	}
	resources(1, &m.Resources)
	switch t.Free(3) {
	case 1:
		m.Childs = map[string]*go3mf.ChildModel{"/b.model": {}}
		resources(100, &m.Childs["/b.model"].Resources)
	case 2:
		m.Childs = map[string]*go3mf.ChildModel{"/b.model": {}, "/a.model": {}}
		m.Childs["/a.model"].Resources.Objects = []*go3mf.Object{{ID: 201, Type: go3mf.ObjectTypeSupport, Mesh: new(go3mf.Mesh)}}
		m.Childs["/b.model"].Resources.Assets = []go3mf.Asset{asset(202, 2)}
	}
	var exts []string
	required := false
	switch t.Free(8) {
	case 6: // the same namespace with another prefix
		exts = []string{nsValidator(0), nsQ, nsValidator(0)}
	case 7:
		exts = []string{nsValidator(1), nsValidator(0), nsValidator(0), nsValidator(1)}
		required = true
	case 0:
		exts = []string{nsValidator(0)}
	case 1:
		exts = []string{nsValidator(0), nsValidator(1)}
	case 2:
		exts = []string{nsHookPlus, nsValidator(1), nsQ, nsValidator(0)}
	case 3:
		exts = []string{nsHookPlus}
	case 4:
		exts = []string{nsHook, nsValidator(0)}
		required = true
	case 5:
		exts = []string{nsQ, nsValidator(0)}
		required = true
	}
	for i, ns := range exts {
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: ns, LocalName: fmt.Sprint("p", i), IsRequired: required && i == 0})
	}
	// The places a validator looks at, in order.
	type place struct {
		what, path, at string // at is the prefix of the text of the errors located there
	}
	var places []place
	places = append(places, place{"model", m.Path, "go3mf: XPath: /model"})
	add := func(path, at string, rs *go3mf.Resources) {
		for i, a := range rs.Assets {
			places = append(places, place{fmt.Sprintf("asset %d", a.Identify()), path, fmt.Sprintf("%s%s[%d]", at, a.XMLName().Local, i)})
		}
		for i, o := range rs.Objects {
			places = append(places, place{fmt.Sprintf("object %d", o.ID), path, fmt.Sprintf("%sobject[%d]", at, i)})
		}
	}
	for _, path := range sortedKeys(m.Childs) {
		add(path, "go3mf: Path: "+path+" XPath: /model/resources/", &m.Childs[path].Resources)
	}
	add(m.PathOrDefault(), "go3mf: XPath: /model/resources/", &m.Resources)
	// One or two of them fail.
	mode := t.Free(5)
	fails := map[string]bool{}
	if mode > 0 {
		fails[places[t.Free(len(places))].what] = true
		if t.Free(2) == 1 {
			fails[places[len(places)-1].what] = true
		}
	}
	tb := &hookTable{err: func(ns, what string) error {
		if !fails[what] {
			return nil
		}
		k := ns[len(ns)-1:]
		switch mode {
		case 1:
			return fmt.Errorf("e%s", k)
		case 2:
			return &specerr.List{Errors: []error{fmt.Errorf("e%s", k), fmt.Errorf("f%s", k)}}
		case 3:
			return specerr.WrapIndex(fmt.Errorf("e%s", k), "kid", 3)
		case 4:
			l := specerr.Append(nil, specerr.Wrap(fmt.Errorf("e%s", k), "kid"), fmt.Errorf("f%s", k))
			return specerr.Wrap(l, "group")
		}
		return nil
	}}
	suffix := func(k string) []string {
		switch mode {
		case 1:
			return []string{": e" + k}
		case 2:
			return []string{": e" + k, ": f" + k}
		case 3:
			return []string{"/kid[3]: e" + k}
		case 4:
			return []string{"/group/kid: e" + k, "/group: f" + k}
		}
		return nil
	}
	var calls []hookCall
	var errs []string
	if required && exts[0] == nsQ {
		errs = append(errs, "go3mf: XPath: /model: "+specerr.ErrRequiredExt.Error())
	}
	for _, p := range places {
		for i, ns := range exts {
			if !strings.HasPrefix(ns, "http://hook/validator/") || slices.Contains(exts[:i], ns) {
				continue
			}
			calls = append(calls, hookCall{ns, p.path, p.what})
			if fails[p.what] {
				for _, s := range suffix(ns[len(ns)-1:]) {
					errs = append(errs, p.at+s)
				}
			}
		}
	}
	t.Case(fmt.Sprint(calls, errs))
	hookTables.Store(m, tb)
	defer hookTables.Delete(m)
	for i := 0; i < 2; i++ {
		tb.calls = nil
		got := errStrings(m.Validate())
		sort.Strings(got)
		sort.Strings(errs)
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", errs) {
			t.Failf("hook: validation errors", "%q instead of %q", got, errs)
		}
		sortCalls := func(c []hookCall) {
			sort.Slice(c, func(i, j int) bool { return fmt.Sprint(c[i]) < fmt.Sprint(c[j]) })
		}
		sortCalls(tb.calls)
		sortCalls(calls)
		if fmt.Sprint(tb.calls) != fmt.Sprint(calls) {
			t.Failf("hook: validator calls", "%v instead of %v", tb.calls, calls)
		}
	}
	t.State(fmt.Sprint(errs))
	t.Sample("%d calls, %d errors", len(calls), len(errs))
}

// hookAny encodes a spec.Any by itself.
func hookAny(t *mc.T) {
	n := t.Free(4)
	var any spec.Any
	var want []string
	fail := -1
	for i := 0; i < n; i++ {
		e := &hookElem{Name: xml.Name{Local: string(rune('a' + i))}}
		any = append(any, e)
		if t.Free(2) == 1 {
			e.fail = true
			if fail < 0 {
				fail = i
			}
		}
		if fail < 0 {
			want = append(want, e.Name.Local)
		}
	}
	rec := &recEncoder{}
	err := any.Marshal3MF(rec, &xml.StartElement{})
	t.Case(fmt.Sprint(n, fail))
	if fmt.Sprint(rec.names) != fmt.Sprint(want) || (err != nil) != (fail >= 0) {
		sig := "hook: spec.Any.Marshal3MF"
		for i, e := range any {
			if e := e.(*hookElem); !e.fail || i == n-1 {
				if err == nil && (e.fail && len(rec.names) == 0 || !e.fail && len(rec.names) == 1 && rec.names[0] == e.Name.Local) {
					sig = "spec.Any.Marshal3MF stops after the first element that succeeds"
				}
				break
			}
		}
		t.Failf(sig, "%d elements, first that fails %d: %v, %v", n, fail, rec.names, err)
	}
}

type recEncoder struct{ names []string }

func (r *recEncoder) AddRelationship(spec.Relationship) {}
func (r *recEncoder) FloatPresicion() int               { return 4 }
func (r *recEncoder) Flush() error                      { return nil }
func (r *recEncoder) SetAutoClose(bool)                 {}
func (r *recEncoder) SetSkipAttrEscape(bool)            {}
func (r *recEncoder) EncodeToken(tk xml.Token) {
	if s, ok := tk.(xml.StartElement); ok {
		r.names = append(r.names, s.Name.Local)
	}
}

func init() {
	register(&mc.Property{
		ID:     "C32",
		Method: "bounded exhaustive exploration of the real decoder, encoder and validator with recording specifications registered under their own namespaces",
		Rule:   "registered specifications are asked for their elements, attributes and validation exactly where the model has room for them; the result is kept in order, encoded by its own marshallers and errors are located",
		Assumptions: []string{
			"7 test specifications: accepting, declining and failing ones, with and without validator",
		},
		Scenarios: []mc.Scenario{
			{Name: "elements", Bound: "9 kinds of content at 10 places of a package with a child part, <=K places used, strict and not, encoded and decoded again", K: 2, KT: 3, Run: hookElements},
			{Name: "attributes", Bound: "1-2 elements out of all core ones x 5 sets of attributes each x 2 styles x strict, encoded and decoded again", Run: hookAttributes},
			{Name: "marshal", Bound: "elements that add a relationship or fail at 9 places, <=K of them", K: 3, KT: 4, Run: hookMarshal},
			{Name: "validate", Bound: "0-2 assets of 3 kinds and 0-2 objects in the root and in a part, 8 lists of extensions, 5 kinds of errors at 1-2 places", Run: hookValidate},
			{Name: "any", Bound: "lists of 0-3 elements, each of which may fail", Run: hookAny},
		},
	})
}
