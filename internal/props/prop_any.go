package props

import (
	"encoding/xml"
	"fmt"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

// nodeRef is an element of a document together with its ancestors.
type nodeRef struct {
	n    *N
	path []*N
}

func walkN(root *N) (out []nodeRef) {
	var rec func(n *N, path []*N)
	rec = func(n *N, path []*N) {
		if n.Local == "#text" {
			return
		}
		out = append(out, nodeRef{n, path})
		for _, k := range n.Kids {
			rec(k, append(path[:len(path):len(path)], n))
		}
	}
	rec(root, nil)
	return
}

// treeTokens is the inverse of tokensTree.
func treeTokens(n *N) (out []xml.Token) {
	if n.Local == "#text" {
		return []xml.Token{xml.CharData(n.Text)}
	}
	se := xml.StartElement{Name: xml.Name{Space: n.Space, Local: n.Local}}
	for _, a := range n.Attr {
		se.Attr = append(se.Attr, xml.Attr{Name: xml.Name{Space: a.Space, Local: a.Local}, Value: a.Value})
	}
	out = append(out, se)
	if n.Text != "" {
		out = append(out, xml.CharData(n.Text))
	}
	for _, k := range n.Kids {
		out = append(out, treeTokens(k)...)
	}
	return append(out, se.End())
}

// foreign is a foreign element to plant in a document.
func foreign(t *mc.T) *N {
	k := t.Free(nShapes + 4)
	if k < nShapes {
		return tokensTree(unknownTokens(k).Token)
	}
	switch k {
	case nShapes: // same local names as core ones, at several depths
		return el(nsQ, "resources", el(nsQ, "object", el(nsQ, "mesh", el(nsQ, "vertices"))), el(nsQ, "resources"))
	case nShapes + 3: // all kinds of values
		w := el(nsQ, "wrap").a("e", "")
		in := el(nsR, "in").a("none", "").a("first", " a").a("second", "a  b ")
		in.Attr = append(in.Attr, A{Space: nsR, Local: "e"}, A{Space: nsQ, Local: "t", Value: "a\tb\nc\rd"})
		w.Kids = append(w.Kids, in, el(nsR, "bare").a("e", "").a("v", "\"<&>'é]]>"), el(nsCore, "item").a("objectid", "").a("partnumber", ""))
		return w
	case nShapes + 1: // core elements inside
		return el(nsQ, "wrap",
			el(nsCore, "resources", el(nsCore, "object").a("id", "99")),
			el(nsCore, "build", el(nsCore, "item").a("objectid", "99")),
			el(nsCore, "model"), el(nsCore, "vertex").a("x", "zz"), el(nsCore, "triangle").a("v1", "-1"),
			el(nsCore, "metadata").a("name", "no"))
	}
	return el(nsQ, "wrap", el(nsCore, "mesh", el(nsCore, "vertices", el(nsCore, "vertex").a("x", "1").a("y", "1").a("z", "1"))),
		el(nsCore, "components", el(nsCore, "component").a("objectid", "1")))
}

// sampleCore is a model using every core element, for planting content.
func sampleCore() *go3mf.Model {
	return &go3mf.Model{
		Units: go3mf.UnitInch, Language: "en",
		Extensions: []go3mf.Extension{extQ, extR},
		Metadata:   []go3mf.Metadata{{Name: xml.Name{Local: "Title"}, Value: "t"}},
		Resources: go3mf.Resources{
			Assets: []go3mf.Asset{&go3mf.BaseMaterials{ID: 1, Materials: []go3mf.Base{{Name: "a"}, {Name: "b"}}}},
			Objects: []*go3mf.Object{
				{ID: 2, PID: 1, PIndex: 1, Name: "mesh", Metadata: go3mf.MetadataGroup{Metadata: []go3mf.Metadata{{Name: xml.Name{Local: "o"}, Value: "v"}}},
					Mesh: &go3mf.Mesh{
						Vertices:  go3mf.Vertices{Vertex: []go3mf.Point3D{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}},
						Triangles: go3mf.Triangles{Triangle: []go3mf.Triangle{{V1: 0, V2: 2, V3: 1, PID: 1, P1: 0, P2: 1, P3: 1}, {V1: 0, V2: 1, V3: 3, PID: 1, P1: 1, P2: 1, P3: 1}}},
					}},
				{ID: 3, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 2}, {ObjectID: 2, Transform: go3mf.Identity().Translate(1, 2, 3)}}}},
			},
		},
		Build: go3mf.Build{Items: []*go3mf.Item{{ObjectID: 3, PartNumber: "x", Metadata: go3mf.MetadataGroup{Metadata: []go3mf.Metadata{{Name: xml.Name{Local: "i"}, Value: "v"}}}}, {ObjectID: 2}}},
	}
}

// plantElem inserts a foreign element at every place of a document. Where the
// API has room for it it is kept, elsewhere it is ignored; in no case does it
// change anything else.
func plantElem(t *mc.T) {
	m := sampleCore()
	doc := form{prec: 4}.root(m)
	nodes := walkN(doc)
	ref := nodes[t.Free(len(nodes))]
	x := foreign(t)
	pos := t.Free(3)
	switch pos {
	case 0:
		pos = 0
	case 1:
		pos = len(ref.n.Kids) / 2
	default:
		pos = len(ref.n.Kids)
	}
	if ref.n.Local == "metadata" && ref.n.Text != "" {
		pos = 0
	}
	u := &spec.UnknownTokens{Token: treeTokens(x)}
	switch ref.n.Local {
	case "model":
		m.Any = spec.Any{u}
	case "mesh":
		m.Resources.Objects[0].Mesh.Any = spec.Any{u}
	case "resources":
		at := 0 // unknown resources keep their place among the assets
		if pos > 0 {
			at = 1
		}
		as := append([]go3mf.Asset(nil), m.Resources.Assets[:at]...)
		as = append(as, nil)
		as = append(as, m.Resources.Assets[at:]...)
		as[at] = &go3mf.UnknownAsset{UnknownTokens: *u}
		m.Resources.Assets = as
	}
	ref.n.Kids = append(ref.n.Kids[:pos:pos], append([]*N{x}, ref.n.Kids[pos:]...)...)
	out := render(doc, nsCore, prefixes, styleN(mc.Each(t, 0, 3, 2)))
	t.Case(string(out))
	t.Logf("document:\n%s", out)
	comparePlanted(t, m, out, ref.n.Local+" <- "+x.Local)
}

func comparePlanted(t *mc.T, want *go3mf.Model, doc []byte, what string) {
	normalize(want, 4)
	for _, strict := range []bool{true, false} {
		got, err := decodePackage(wrapModel(doc), strict)
		if err != nil {
			t.Failf("foreign-error", "%s: strict=%v: %v\n%s", what, strict, err, doc)
		}
		got.Path = ""
		canonModel(got)
		canonAttrs(want, false)
		canonAttrs(got, false)
		// the id of an unknown asset is checked through its interface
		for i, a := range got.Resources.Assets {
			if u, ok := a.(*go3mf.UnknownAsset); ok {
				wid := uint32(0)
				if s, ok := u.Token[0].(xml.StartElement); ok {
					for _, at := range s.Attr {
						if at.Name.Space == "" && at.Name.Local == "id" {
							fmt.Sscan(at.Value, &wid)
						}
					}
				}
				if u.Identify() != wid {
					t.Failf("unknown-asset-id", "%s: Identify() = %d, want %d", what, u.Identify(), wid)
				}
				got.Resources.Assets[i] = &go3mf.UnknownAsset{UnknownTokens: u.UnknownTokens}
			}
		}
		w, g := dump(want), dump(got)
		t.State(g)
		if w != g {
			t.Failf("foreign "+firstDiffLine(w, g), "%s: strict=%v\n%s\n--- document\n%s", what, strict, diff(w, g), doc)
		}
	}
	t.Sample("%s", what)
}

// anyAttrOf returns the place where the API keeps foreign attributes of the
// element with the given ancestors, nil if there is none.
func anyAttrOf(m *go3mf.Model, doc *N, ref nodeRef) *spec.AnyAttr {
	idx := func(p *N, n *N) int {
		i := 0
		for _, k := range p.Kids {
			if k == n {
				return i
			}
			if k.Local == n.Local && k.Space == n.Space {
				i++
			}
		}
		return -1
	}
	up := func(i int) *N { return ref.path[len(ref.path)-i] }
	object := func(n *N) *go3mf.Object { return m.Resources.Objects[idx(doc.Kids[1], n)] }
	switch ref.n.Local {
	case "model":
		return &m.AnyAttr
	case "resources":
		return &m.Resources.AnyAttr
	case "build":
		return &m.Build.AnyAttr
	case "item":
		return &m.Build.Items[idx(up(1), ref.n)].AnyAttr
	case "metadatagroup":
		if up(1).Local == "item" {
			return &m.Build.Items[idx(up(2), up(1))].Metadata.AnyAttr
		}
		return &object(up(1)).Metadata.AnyAttr
	case "basematerials":
		return &m.Resources.Assets[0].(*go3mf.BaseMaterials).AnyAttr
	case "base":
		return &m.Resources.Assets[0].(*go3mf.BaseMaterials).Materials[idx(up(1), ref.n)].AnyAttr
	case "object":
		return &object(ref.n).AnyAttr
	case "mesh":
		return &object(up(1)).Mesh.AnyAttr
	case "vertices":
		return &object(up(2)).Mesh.Vertices.AnyAttr
	case "triangles":
		return &object(up(2)).Mesh.Triangles.AnyAttr
	case "triangle":
		return &object(up(3)).Mesh.Triangles.Triangle[idx(up(1), ref.n)].AnyAttr
	case "components":
		return &object(up(1)).Components.AnyAttr
	case "component":
		return &object(up(2)).Components.Component[idx(up(1), ref.n)].AnyAttr
	}
	return nil
}

// plantAttr adds foreign attributes to every element of a document.
func plantAttr(t *mc.T) {
	m := sampleCore()
	doc := form{prec: 4}.root(m)
	nodes := walkN(doc)
	ref := nodes[t.Free(len(nodes))]
	type at struct{ space, local, value string }
	var as []at
	switch t.Free(10) {
	case 0:
		as = []at{{nsQ, "k", "v"}}
	case 1:
		as = []at{{nsQ, "id", "x"}, {nsQ, "objectid", "-"}, {nsR, "name", "n"}}
	case 2:
		as = []at{{nsR, "x", "a&b<\">'"}, {nsQ, "pid", "1e9"}}
	case 3:
		as = []at{{nsMat, "color", "?"}}
	case 4:
		as = []at{{nsBeam, "radius", "?"}, {nsQ, "v1", "?"}}
	case 5:
		as = []at{{nsProd, "other", "?"}}
	case 6:
		as = []at{{nsSlice, "other", "?"}}
	case 7:
		as = []at{{nsQ, "unit", "inch"}, {nsQ, "transform", "1"}, {nsQ, "type", "none"}, {nsQ, "displaycolor", ""}}
	case 8:
		as = []at{{nsProd, "path", "/x.model"}}
	case 9:
		as = []at{{nsQ, "a", "1"}, {nsR, "b", "2"}, {nsQ, "c", "3"}}
	}
	slot := anyAttrOf(m, doc, ref)
	own := len(ref.n.Attr)
	for _, a := range as {
		ref.n.ns(a.space, a.local, a.value)
		if slot == nil {
			continue
		}
		// attributes the production and slice extensions define here
		known := map[string]bool{"build": true, "item": true, "object": true, "component": true}
		if a.space == nsProd && known[ref.n.Local] || a.space == nsSlice && ref.n.Local == "object" {
			t.Skip() // C05, C07
		}
		var g spec.AttrGroup
		for _, o := range *slot {
			if o.Namespace() == a.space {
				g = o
			}
		}
		if g == nil {
			g = &spec.UnknownAttrs{Space: a.space}
			*slot = append(*slot, g)
		}
		u := g.(*spec.UnknownAttrs)
		u.Attr = append(u.Attr, xml.Attr{Name: xml.Name{Space: a.space, Local: a.local}, Value: a.value})
	}
	moveAttrs(t, ref.n, own)
	for _, ns := range []string{nsMat, nsBeam, nsProd, nsSlice} {
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: ns, LocalName: prefixes[ns]})
		doc.ns("xmlns", prefixes[ns], ns)
	}
	out := render(doc, nsCore, prefixes, styleN(mc.Each(t, 0, 7)))
	t.Case(string(out))
	t.Logf("document:\n%s", out)
	for _, a := range as {
		if a.space != nsQ && a.space != nsR {
			comparePlanted(t, m, out, ref.n.Local+" "+a.space)
			return
		}
	}
	comparePlanted(t, m, out, ref.n.Local+fmt.Sprint(as))
}

// similarSpaces are namespaces that resemble each other, or a known one.
var similarSpaces = []string{nsQ, strings.ToUpper(nsQ), "Urn:unknown:q", nsQ + "/", nsQ + "#", nsQ[:len(nsQ)-1], nsQ + nsQ, nsQ + ":" + nsR,
	strings.ToUpper(nsProd), nsProd + "/", nsProd[:len(nsProd)-1], strings.ToUpper(nsSlice), nsSlice + "/", strings.ToUpper(nsMat), nsMat + "/2",
	strings.ToUpper(nsCore), nsCore + "/", nsCore[:len(nsCore)-1], "urn:XML", "q", "a"}

// plantSimilar has attributes and elements in two namespaces that resemble
// each other, or a known one: each of them is one of its own.
func plantSimilar(t *mc.T) {
	m := sampleCore()
	m.Extensions = m.Extensions[:0]
	doc := form{prec: 4}.root(m)
	nodes := walkN(doc)
	ref := nodes[t.Free(len(nodes))]
	one := t.Free(len(similarSpaces))
	two := t.Free(len(similarSpaces))
	if one == two {
		t.Skip()
	}
	spaces := []string{similarSpaces[one], similarSpaces[two]}
	pre := map[string]string{}
	for k, v := range prefixes {
		pre[k] = v
	}
	ref.n.Attr = ref.n.Attr[:len(ref.n.Attr):len(ref.n.Attr)]
	slot := anyAttrOf(m, doc, ref)
	for i, space := range spaces {
		pre[space] = string('a' + rune(i))
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: space, LocalName: pre[space]})
		doc.ns("xmlns", pre[space], space)
	}
	for i, local := range []string{"path", "UUID", "id", "slicestackid"} {
		ref.n.ns(spaces[i%2], local, "?")
	}
	if slot != nil {
		for i, space := range spaces {
			u := &spec.UnknownAttrs{Space: space}
			for _, local := range []string{"path", "UUID", "id", "slicestackid"}[i:] {
				if len(u.Attr) == 0 || local == "id" && i == 0 || local == "slicestackid" && i == 1 {
					u.Attr = append(u.Attr, xml.Attr{Name: xml.Name{Space: space, Local: local}, Value: "?"})
				}
			}
			*slot = append(*slot, u)
		}
	}
	if ref.n.Local == "resources" || ref.n.Local == "model" { // elements as well
		var x []*N
		for _, space := range spaces {
			for _, local := range []string{"slicestack", "object", "colorgroup"} {
				x = append(x, el(space, local).a("id", "7"))
			}
		}
		ref.n.Kids = append(ref.n.Kids, x...)
		for _, x := range x {
			u := &spec.UnknownTokens{Token: treeTokens(x)}
			if ref.n.Local == "model" {
				m.Any = append(m.Any, u)
			} else {
				m.Resources.Assets = append(m.Resources.Assets, &go3mf.UnknownAsset{UnknownTokens: *u})
			}
		}
	}
	out := render(doc, nsCore, pre, styleN(mc.Each(t, 0, 3)))
	t.Case(string(out))
	t.Logf("document:\n%s", out)
	what := fmt.Sprintf("%s with %q", ref.n.Local, spaces)
	comparePlanted(t, m, out, what)
	got := new(go3mf.Model)
	if err := go3mf.UnmarshalModel(out, got); err != nil {
		t.Failf("foreign-error", "%s: %v\n%s", what, err, out)
	}
	out, err := go3mf.MarshalModel(got)
	if err != nil {
		t.Failf("foreign-error", "%s: encoding: %v", what, err)
	}
	comparePlanted(t, m, out, what+", saved")
}

// plantCore adds core elements and attributes the schema does not have: they
// are ignored.
func plantCore(t *mc.T) {
	m := sampleCore()
	doc := form{prec: 4}.root(m)
	nodes := walkN(doc)
	ref := nodes[t.Free(len(nodes))]
	var x *N
	switch t.Free(5) {
	case 0:
		x = el(nsCore, "unknown")
	case 1:
		x = el(nsCore, "unknown", el(nsCore, "object").a("id", "9"), el(nsCore, "unknown"))
	case 2: // same name as its parent
		x = el(nsCore, ref.n.Local)
	case 3:
		x = el(nsMat, "nothing", el(nsMat, "colorgroup").a("id", "8"))
	case 4:
		x = el(nsSlice, "nothing")
	}
	if ref.n.Local == "metadata" && x.Local == ref.n.Local {
		x = el(nsCore, ref.n.Local)
	}
	ref.n.Kids = append([]*N{x}, ref.n.Kids...)
	for _, ns := range []string{nsMat, nsSlice} {
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: ns, LocalName: prefixes[ns]})
		doc.ns("xmlns", prefixes[ns], ns)
	}
	out := render(doc, nsCore, prefixes, styleN(mc.Each(t, 0, 2)))
	t.Case(string(out))
	t.Logf("document:\n%s", out)
	comparePlanted(t, m, out, ref.n.Local+" <- "+x.Local)
}

// moveAttrs moves the attributes from own on behind, in front or in the middle of the own ones.
func moveAttrs(t *mc.T, n *N, own int) {
	if own == 0 || own == len(n.Attr) {
		return
	}
	at := []int{own, 0, own / 2}[t.Free(3)]
	a := append([]A(nil), n.Attr[:at]...)
	a = append(a, n.Attr[own:]...)
	n.Attr = append(a, n.Attr[at:own]...)
}

// plantExt plants foreign elements and attributes in the elements of the
// supported extensions, which have no room for them: nothing changes.
func plantExt(t *mc.T) {
	m := sampleAll()
	m.Thumbnail, m.Resources.Objects[0].Thumbnail = "", ""
	doc := form{prec: 4}.root(m)
	var nodes []nodeRef
	for _, r := range walkN(doc) {
		if r.n.Space != nsCore {
			nodes = append(nodes, r)
		}
	}
	ref := nodes[t.Free(len(nodes))]
	var what string
	own := len(ref.n.Attr)
	switch k := t.Free(5) + 7; {
	case k == 7:
		x := foreign(t)
		pos := []int{0, len(ref.n.Kids) / 2, len(ref.n.Kids)}[t.Free(3)]
		ref.n.Kids = append(ref.n.Kids[:pos:pos], append([]*N{x}, ref.n.Kids[pos:]...)...)
		what = x.Local
	case k == 8:
		ref.n.ns(nsQ, "id", "x").ns(nsR, "v2", "-1").ns(nsQ, "x", "?").ns(nsQ, "path", "p")
	case k == 9:
		ref.n.ns(nsQ, "startv", "z").ns(nsR, "ztop", "z").ns(nsQ, "pid", "?").ns(nsQ, "radius", "p").ns(nsQ, "index", "q")
	case k == 10:
		ref.n.ns(nsProd, "UUID", "not one").ns(nsSlice, "slicestackid", "z").ns(nsQ, "slicepath", "z")
	case k == 11:
		ref.n.ns(nsQ, "u", "z").ns(nsQ, "values", "z").ns(nsQ, "color", "z")
	}
	moveAttrs(t, ref.n, own)
	out := render(doc, nsCore, prefixes, styleN(mc.Each(t, 0, 3)))
	t.Case(string(out))
	t.Logf("document:\n%s", out)
	comparePlanted(t, m, out, ref.n.Local+" <- "+what)
}

// foreignTexts has the text of foreign elements in pieces of every kind: what
// is between two tags is one text, whatever it is written with.
func foreignTexts(t *mc.T) {
	type piece struct {
		src, text string
		tag       string
	}
	pieces := []piece{{src: "a", text: "a"}, {src: " ", text: " "}, {src: "<!-- x -->"}, {src: "<![CDATA[ ]]>", text: " "}, {src: "<q:c/>", tag: "c"}, {src: "&#32;", text: " "}, {src: "<?p x?>"}, {src: "<![CDATA[b]]>", text: "b"}, {src: "\n", text: "\n"}, {src: "&lt;", text: "<"}, {src: "\u00a0", text: "\u00a0"}, {src: "&#x85;", text: "\u0085"}}
	n := 3 + t.Free(3)
	if t.Tier == "thorough" {
		n++
	}
	var body strings.Builder
	var want []string
	run := ""
	flush := func() {
		if strings.Trim(run, " \t\r\n") != "" {
			want = append(want, "text "+run)
		}
		run = ""
	}
	for i := 0; i < n; i++ {
		k := len(pieces)
		if n > 3 {
			k = 6
		}
		p := pieces[t.Free(k)]
		body.WriteString(p.src)
		if p.tag != "" {
			flush()
			want = append(want, "start "+p.tag, "end "+p.tag)
		}
		run += p.text
	}
	flush()
	x := `<q:t>` + body.String() + `</q:t>`
	place := t.Free(4)
	doc := `<model xmlns="` + nsCore + `" xmlns:q="` + nsQ + `"><resources>%s<object id="2"><mesh><vertices/><triangles/>%s</mesh></object></resources><build/>%s</model>`
	at := []any{"", "", ""}
	if place < 3 {
		at[place] = x
	} else { // followed by another one
		at[2] = x + `<q:u>v</q:u>`
	}
	data := []byte(fmt.Sprintf(doc, at...))
	t.Case(string(data))
	t.Logf("%s", data)
	tokens := func(m *go3mf.Model) []xml.Token {
		switch place {
		case 0:
			return m.Resources.Assets[0].(*go3mf.UnknownAsset).Token
		case 1:
			return m.Resources.Objects[0].Mesh.Any[0].(*spec.UnknownTokens).Token
		}
		return m.Any[0].(*spec.UnknownTokens).Token
	}
	for i := 0; i < 2; i++ {
		m := new(go3mf.Model)
		if err := go3mf.UnmarshalModel(data, m); err != nil {
			t.Failf("foreign text: error", "%v\n%s", err, data)
		}
		var got []string
		run := ""
		flush := func() {
			if strings.Trim(run, " \t\r\n") != "" {
				got = append(got, "text "+run)
			}
			run = ""
		}
		tks := tokens(m)
		for _, tk := range tks[1 : len(tks)-1] {
			switch tk := tk.(type) {
			case xml.StartElement:
				flush()
				got = append(got, "start "+tk.Name.Local)
			case xml.EndElement:
				flush()
				got = append(got, "end "+tk.Name.Local)
			case xml.CharData:
				run += string(tk)
			}
		}
		flush()
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			t.Failf("foreign text", "in %s: %q instead of %q", data, got, want)
		}
		t.State(fmt.Sprintf("%q", got))
		var err error
		if data, err = go3mf.MarshalModel(m); err != nil {
			t.Failf("foreign text: encode", "%v", err)
		}
	}
}

func genCoreAny(t *mc.T) *go3mf.Model { return genCore(t, coreOpts{any: true}) }

func init() {
	register(&mc.Property{
		ID:     "C08",
		Method: "bounded exhaustive exploration of the real decoder and encoder with foreign content at every place of a document",
		Rule:   "content of extensions without a registered spec is kept where the API has room for it, ignored elsewhere, and never alters the rest",
		Assumptions: []string{
			"7+3 shapes of foreign elements, 10 sets of foreign attributes; runs of whitespace between foreign elements are not content",
		},
		Scenarios: []mc.Scenario{
			{Name: "roundtrip", Bound: "core models with foreign attributes and elements, <=K deviations, three routes", K: 2, Run: func(t *mc.T) {
				roundtrip(t, genCore(t, coreOpts{any: true}), 4, t.Free(3), normalize)
			}},
			childScenario(0, genCoreAny, normalize),
			childScenario(1, genCoreAny, normalize),
			childScenario(2, genCoreAny, normalize),
			{Name: "decode", Bound: "lexical style x core models with foreign content, <=K deviations", K: 2, Run: func(t *mc.T) {
				checkDecode(t, genCore(t, coreOpts{any: true}), normalize)
			}},
			{Name: "foreign element anywhere", Bound: "every element x 10 foreign subtrees x 3 positions x 3 styles x strict", K: 0, Run: plantElem},
			{Name: "foreign attribute anywhere", Bound: "every element x 10 attribute sets x 3 positions x 2 styles x strict", K: 0, Run: plantAttr},
			{Name: "foreign content in extensions", Bound: "every element of the supported extensions x (10 subtrees + 4 attribute sets) x 3 positions x 2 styles x strict", K: 0, Run: plantExt},
			{Name: "similar namespaces", Bound: "every element x attributes (and children) in every two of 21 namespaces that resemble each other or a known one x 2 styles x strict, decoded, encoded, decoded", K: 0, Run: plantSimilar},
			{Name: "undefined core content anywhere", Bound: "every element x 5 undefined core/extension elements x 2 styles x strict", K: 0, Run: plantCore},
			{Name: "texts", Bound: "the text of a foreign element at 4 places in up to 5 pieces (thorough: 6) of 12 kinds, decoded, encoded, decoded", Run: foreignTexts},
		},
	})
}
