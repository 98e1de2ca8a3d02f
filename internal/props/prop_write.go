package props

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

// ---- C35: the encoder given to the marshallers of extensions ---------------
//
// The model is the sequence of tokens itself: whatever a marshaller writes has to be
// found, token by token, by a reader that resolves the namespaces strictly, at the
// place of the marshaller, and nothing else of the document may differ from the
// same model with a marker written by a marshaller at the same place.

const (
	nsWA = "http://write/a" // declared on the root
	nsWB = "http://write/b" // not declared
	nsWC = "http://write/c" // not declared
	nsWM = "http://write/marker"
)

// writer is an element, an asset and an attribute group that does what it is told.
type writer struct {
	do    func(x spec.Encoder, start *xml.StartElement)
	attrs []xml.Attr
	prec  []int // what FloatPresicion said, in order
}

func (w *writer) Marshal3MF(x spec.Encoder, start *xml.StartElement) error {
	w.prec = append(w.prec, x.FloatPresicion())
	if w.do != nil {
		w.do(x, start)
	}
	return nil
}
func (w *writer) Identify() uint32  { return 0 }
func (w *writer) XMLName() xml.Name { return xml.Name{Space: nsWA, Local: "w"} }

type groupWriter struct{ *writer }

func (w groupWriter) Marshal3MF(x spec.Encoder, start *xml.StartElement) error {
	w.prec = append(w.prec, x.FloatPresicion())
	start.Attr = append(start.Attr, w.attrs...)
	return nil
}
func (w groupWriter) Unmarshal3MFAttr(spec.XMLAttr) error { return nil }
func (w groupWriter) Namespace() string                   { return nsWA }

var (
	_ spec.AttrGroup = groupWriter{}
	_ go3mf.Asset    = new(writer)
)

// attrText is the canonical text of attributes whose namespaces are resolved.
func attrText(attrs []xml.Attr) string {
	var s []string
	for _, a := range attrs {
		if a.Name.Space != "xmlns" && a.Name != (xml.Name{Local: "xmlns"}) {
			s = append(s, fmt.Sprintf(" {%s}%s=%q", a.Name.Space, a.Name.Local, a.Value))
		}
	}
	sort.Strings(s)
	return strings.Join(s, "")
}

// flatTokens lists the tokens of a document, with the namespaces resolved strictly
// and without the declarations. A start element is "<{space}local attributes".
func flatTokens(data []byte) ([]string, error) {
	if _, err := parse(data); err != nil { // undeclared prefixes, repeated attributes
		return nil, err
	}
	d := xml.NewDecoder(bytes.NewReader(data))
	var out []string
	text := ""
	flush := func() {
		if text != "" {
			out = append(out, "="+text)
		}
		text = ""
	}
	for {
		tok, err := d.Token()
		if err == io.EOF {
			flush()
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		switch k := tok.(type) {
		case xml.StartElement:
			flush()
			out = append(out, fmt.Sprintf("<{%s}%s%s", k.Name.Space, k.Name.Local, attrText(k.Attr)))
		case xml.EndElement:
			flush()
			out = append(out, fmt.Sprintf(">{%s}%s", k.Name.Space, k.Name.Local))
		case xml.CharData:
			text += string(k)
		}
	}
}

// mergeText joins the neighbouring texts.
func mergeText(in []string) (out []string) {
	for _, s := range in {
		if n := len(out); n > 0 && s[0] == '=' && out[n-1][0] == '=' {
			out[n-1] += s[1:]
			continue
		}
		if s != "=" {
			out = append(out, s)
		}
	}
	return
}

var writeValues = []string{"v", `a<b>&"c"'d'`, "\t x\ny\r ", "", "]]> é\U0001F600{}", "c\rd", "c\td"}

// writeAttrs are the attributes a marshaller may write: the groups do not overlap.
var writeAttrs = [][]xml.Attr{
	{{Name: xml.Name{Local: "plain"}}},
	{{Name: xml.Name{Space: nsWA, Local: "a"}}},
	{{Name: xml.Name{Space: nsWB, Local: "b"}}},
	{{Name: xml.Name{Space: xmlNS, Local: "space"}}},
	{{Name: xml.Name{Space: "xmlns", Local: "o"}, Value: nsWB}, {Name: xml.Name{Space: nsWB, Local: "pb"}}},
	{{Name: xml.Name{Space: "xmlns", Local: "a"}, Value: nsWB}, {Name: xml.Name{Space: nsWA, Local: "ra"}}},
	{{Name: xml.Name{Space: nsWC, Local: "c"}}, {Name: xml.Name{Space: nsWC, Local: "c2"}}},
	{{Name: xml.Name{Space: nsWC, Local: "before"}}, {Name: xml.Name{Space: "xmlns", Local: "t"}, Value: nsWC}},
	{{Name: xml.Name{Space: nsCore, Local: "core"}}},
}

var defaultDecls = []xml.Attr{
	{Name: xml.Name{Local: "xmlns"}, Value: nsWB},
	{Name: xml.Name{Local: "xmlns"}, Value: ""},
	{Name: xml.Name{Local: "xmlns"}, Value: nsCore},
}

// writeProgram makes a tree to write: the writer and the tokens it stands for.
func writeProgram(t *mc.T, depth int, left *int, dflt string) (func(x spec.Encoder), []string) {
	*left--
	var start xml.StartElement
	start.Name.Local = "e" + utoa(uint32(*left))
	start.Name.Space = []string{nsWA, "", nsCore, nsWB}[t.Choose(4)]
	first := (1 + t.Choose(1+len(writeAttrs))) % (1 + len(writeAttrs))
	if first > 0 {
		start.Attr = append(start.Attr, writeAttrs[first-1]...)
		if second := t.Choose(1 + len(writeAttrs)); second > 0 && second != first && !(first > 0 && (first == 5 && second == 6 || first == 6 && second == 5)) {
			start.Attr = append(start.Attr, writeAttrs[second-1]...)
		}
	}
	if d := t.Choose(1 + len(defaultDecls)); d > 0 {
		dflt = defaultDecls[d-1].Value
		if t.Choose(2) == 0 {
			start.Attr = append(start.Attr, defaultDecls[d-1])
		} else {
			start.Attr = append([]xml.Attr{defaultDecls[d-1]}, start.Attr...)
		}
	}
	hasValue := false
	for i := range start.Attr {
		a := &start.Attr[i]
		if a.Name.Space == "xmlns" || a.Name == (xml.Name{Local: "xmlns"}) {
			continue
		}
		if !hasValue { // the first one carries the special value
			a.Value = writeValues[t.Choose(len(writeValues))]
			hasValue = true
		} else {
			a.Value = "w"
		}
	}
	space := start.Name.Space
	if space == "" {
		space = dflt
	}
	var acts []func(x spec.Encoder)
	toks := []string{fmt.Sprintf("<{%s}%s%s", space, start.Name.Local, attrText(start.Attr))}
	end := fmt.Sprintf(">{%s}%s", space, start.Name.Local)

	form := t.Choose(4)
	skip := form == 2 && !strings.ContainsAny(attrText(start.Attr), "<&'\\")
	acts = append(acts, func(x spec.Encoder) {
		if form == 1 {
			x.SetAutoClose(true)
		}
		if skip {
			x.SetSkipAttrEscape(true)
		}
		x.EncodeToken(start)
		if form == 3 {
			x.Flush()
		}
		if form == 1 {
			x.SetAutoClose(false)
		}
		if skip {
			x.SetSkipAttrEscape(false)
		}
	})
	if form == 1 {
		toks = append(toks, end)
		return func(x spec.Encoder) {
			for _, a := range acts {
				a(x)
			}
		}, toks
	}
	text := func() {
		k := t.Choose(1 + len(writeValues))
		if k == 0 {
			return
		}
		s := writeValues[k-1]
		cut := 0
		if len(s) > 1 {
			cut = 1
		}
		acts = append(acts, func(x spec.Encoder) {
			x.EncodeToken(xml.CharData(s[:cut]))
			x.EncodeToken(xml.CharData(s[cut:]))
		})
		toks = append(toks, "="+s)
	}
	text()
	for n := t.Choose(3); n > 0 && *left > 0 && depth < 3; n-- {
		w, k := writeProgram(t, depth+1, left, dflt)
		acts = append(acts, w)
		toks = append(toks, k...)
		text()
	}
	acts = append(acts, func(x spec.Encoder) { x.EncodeToken(start.End()) })
	toks = append(toks, end)
	return func(x spec.Encoder) {
		for _, a := range acts {
			a(x)
		}
	}, toks
}

// writeModel is a model with the given elements at the six places.
func writeModelAt(w []*writer) *go3mf.Model {
	md := []go3mf.Metadata{{Name: xml.Name{Local: "Title"}, Value: "<t>"}}
	m := &go3mf.Model{Metadata: md, Language: "en", Path: go3mf.DefaultModelPath}
	a, b := tetra(1), tetra(2)
	m.Resources.Objects = []*go3mf.Object{a}
	m.Build.Items = []*go3mf.Item{{ObjectID: 1, PartNumber: "p"}}
	c := &go3mf.ChildModel{Resources: go3mf.Resources{Objects: []*go3mf.Object{b}}}
	m.Childs = map[string]*go3mf.ChildModel{"/3D/c.model": c}
	add := func(k int, any *spec.Any) {
		if w[k] != nil {
			*any = append(*any, w[k])
		}
	}
	if w[0] != nil {
		m.Resources.Assets = append(m.Resources.Assets, w[0])
	}
	add(1, &m.Any)
	add(2, &a.Mesh.Any)
	if w[3] != nil {
		c.Resources.Assets = append(c.Resources.Assets, w[3])
	}
	add(4, &c.Any)
	add(5, &b.Mesh.Any)
	return m
}

// encodeParts encodes m: the documents of the root and of the child models.
func encodeParts(t *mc.T, m *go3mf.Model, marshal bool, prec int) [][]byte {
	if marshal {
		data, err := go3mf.MarshalModel(m)
		if err != nil {
			t.Failf("write: MarshalModel", "%v", err)
		}
		return [][]byte{data}
	}
	data, err := encodePackage(m, prec)
	if err != nil {
		t.Failf("write: Encode", "%v", err)
	}
	p, err := openPkg(data)
	if err != nil {
		t.Failf("write: package", "%v", err)
	}
	out := [][]byte{p.find(m.PathOrDefault()).Data}
	for _, path := range sortedKeys(m.Childs) {
		out = append(out, p.find(path).Data)
	}
	return out
}

func compareTokens(t *mc.T, what string, data []byte, want []string) {
	got, err := flatTokens(data)
	if err != nil {
		t.Failf("write: not well-formed", "%s: %v\n%s", what, err, data)
	}
	want = mergeText(want)
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(nothing)", "(nothing)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			t.Failf("write: tokens", "%s: token %d is %s instead of %s\n%s", what, i, g, w, data)
		}
	}
}

func pickExtensions(t *mc.T) []go3mf.Extension {
	switch t.Choose(5) {
	case 1:
		return []go3mf.Extension{{Namespace: nsWA, LocalName: "ns1"}}
	case 2:
		return nil
	case 3:
		return []go3mf.Extension{{Namespace: nsWA, LocalName: "a"}, {Namespace: nsWA, LocalName: "z"}, {Namespace: nsWC, LocalName: "ns2"}}
	case 4:
		return []go3mf.Extension{{Namespace: nsWA, LocalName: "o"}, {Namespace: nsWC, LocalName: "t", IsRequired: true}}
	}
	return []go3mf.Extension{{Namespace: nsWA, LocalName: "a"}}
}

// writeElements: marshallers of elements at one or two places.
func writeElements(t *mc.T) {
	exts := pickExtensions(t)
	place := t.Free(3)
	if t.Choose(2) == 1 { // of a child model
		place += 3
	}
	marshal := place < 3 && t.Choose(2) == 0 // the cheap one
	places := 6
	if marshal {
		places = 3
	}
	left := 4
	prog, toks := writeProgram(t, 1, &left, nsCore)
	var (
		do   [6]func(x spec.Encoder)
		want [6][]string
	)
	do[place], want[place] = prog, toks
	if other := t.Choose(places); other > 0 { // a second marshaller with elements of its own
		k := (place + other) % places
		n := 2
		do[k], want[k] = writeProgram(t, 2, &n, nsCore)
	}
	mark := make([]*writer, 6)
	ws := make([]*writer, 6)
	for k := range do {
		if do[k] == nil {
			continue
		}
		name := xml.Name{Space: nsWM, Local: "m" + utoa(uint32(k))}
		mark[k] = &writer{do: func(x spec.Encoder, _ *xml.StartElement) {
			se := xml.StartElement{Name: name}
			x.EncodeToken(se)
			x.EncodeToken(se.End())
		}}
		ws[k] = &writer{do: func(x spec.Encoder, start *xml.StartElement) { do[k](x) }}
	}
	bm, m := writeModelAt(mark), writeModelAt(ws)
	bm.Extensions, m.Extensions = exts, exts
	prec := 4
	if !marshal {
		prec = mc.Pick(t, 9, 4, 0)
	}
	base, data := encodeParts(t, bm, marshal, prec), encodeParts(t, m, marshal, prec)
	t.Case(fmt.Sprint(marshal, prec, exts, place, want))
	for i := range base {
		bt, err := flatTokens(base[i])
		if err != nil {
			t.Failf("write: not well-formed", "%v\n%s", err, base[i])
		}
		var all []string
		for _, s := range bt {
			k := -1
			fmt.Sscanf(s, "<{"+nsWM+"}m%d", &k)
			if k >= 0 {
				all = append(all, want[k]...)
			} else if !strings.Contains(s, "{"+nsWM+"}m") {
				all = append(all, s)
			}
		}
		compareTokens(t, fmt.Sprint("part ", i), data[i], all)
		t.Step()
		t.State(fmt.Sprint(i, all))
	}
}

// anyAttrFields finds every attribute group of the values reachable from v.
func anyAttrFields(v reflect.Value, path string, out *[]*spec.AnyAttr, names *[]string) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			anyAttrFields(v.Elem(), path, out, names)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			anyAttrFields(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out, names)
		}
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		for _, k := range keys {
			anyAttrFields(v.MapIndex(k), fmt.Sprintf("%s[%s]", path, k), out, names)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !v.Type().Field(i).IsExported() {
				continue
			}
			if f.Type() == reflect.TypeOf(spec.AnyAttr(nil)) {
				*out = append(*out, f.Addr().Interface().(*spec.AnyAttr))
				*names = append(*names, path+"."+v.Type().Field(i).Name)
				continue
			}
			anyAttrFields(f, path+"."+v.Type().Field(i).Name, out, names)
		}
	}
}

func writeSample() *go3mf.Model {
	m := sampleMulti()
	for _, a := range m.Attachments { // not of interest
		_ = a
	}
	m.Attachments = nil
	md := []go3mf.Metadata{{Name: xml.Name{Local: "Title"}, Value: "t"}}
	m.Resources.Objects[0].Metadata.Metadata = md
	m.Build.Items[0].Metadata.Metadata = md
	return m
}

var writePlaces = func() int {
	var out []*spec.AnyAttr
	var names []string
	anyAttrFields(reflect.ValueOf(writeSample()), "", &out, &names)
	return len(out)
}()

// writeGroups: attribute groups on every element that may carry them.
func writeGroups(t *mc.T) {
	place := t.Free(writePlaces)
	exts := pickExtensions(t)
	marshal := t.Choose(2) == 1
	var attrs []xml.Attr
	used := map[int]bool{}
	for i := 0; i < 3; i++ {
		k := t.Choose(len(writeAttrs) + 1)
		if i == 0 {
			k++ // at least one
			if k > len(writeAttrs) {
				k = len(writeAttrs)
			}
		}
		if k == 0 {
			break
		}
		if used[k-1] {
			t.Skip()
		}
		used[k-1] = true
		for _, a := range writeAttrs[k-1] {
			if a.Name.Space == "xmlns" { // rebinding the prefixes of other groups is not theirs to do
				a.Name.Local = "own" + a.Name.Local
			} else {
				a.Value = "w"
				if i == 0 {
					a.Value = writeValues[t.Choose(len(writeValues))]
				}
			}
			attrs = append(attrs, a)
		}
	}
	second := t.Choose(2) == 1 // split over two groups
	build := func(groups ...[]xml.Attr) [][]byte {
		m := writeSample()
		m.Extensions = append(exts[:len(exts):len(exts)], m.Extensions...)
		var fields []*spec.AnyAttr
		var names []string
		anyAttrFields(reflect.ValueOf(m), "", &fields, &names)
		for _, g := range groups {
			*fields[place] = append(*fields[place], groupWriter{&writer{attrs: g}})
		}
		t.Logf("%s", names[place])
		return encodeParts(t, m, marshal, 4)
	}
	base := build([]xml.Attr{{Name: xml.Name{Space: nsWM, Local: "m"}, Value: "1"}})
	var data [][]byte
	if second && len(attrs) > 1 {
		data = build(attrs[:1], attrs[1:])
	} else {
		data = build(attrs)
	}
	t.Case(fmt.Sprint(place, attrs, exts, marshal, second))
	marker := fmt.Sprintf(" {%s}m=\"1\"", nsWM)
	found := false
	for i := range base {
		bt, err := flatTokens(base[i])
		if err != nil {
			t.Failf("write: not well-formed", "%v\n%s", err, base[i])
		}
		var want []string
		for _, s := range bt {
			if j := strings.Index(s, marker); j >= 0 {
				found = true
				s = resort(strings.Replace(s, marker, attrText(attrs), 1))
			} else {
				s = resort(s)
			}
			want = append(want, s)
		}
		got, err := flatTokens(data[i])
		if err != nil {
			t.Failf("write: not well-formed", "%v\n%s", err, data[i])
		}
		for j := range got {
			got[j] = resort(got[j])
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			for j := range got {
				if j >= len(want) || got[j] != want[j] {
					t.Failf("write: attributes", "part %d token %d is %s instead of %s", i, j, got[j], append(want, make([]string, len(got))...)[j])
				}
			}
			t.Failf("write: attributes", "part %d has %d tokens instead of %d", i, len(got), len(want))
		}
		t.Step()
		t.State(fmt.Sprint(i, want))
	}
	if !found && !(marshal && place >= 0) {
		t.Failf("write: group ignored", "place %d", place)
	}
}

// resort orders the attributes of a start element, whose values have no " {" in them
// other than at the start of the next attribute.
func resort(s string) string {
	if s[0] != '<' {
		return s
	}
	parts := strings.Split(s, " {")
	sort.Strings(parts[1:])
	return strings.Join(parts, " {")
}

// writePrecision: what the marshallers are told about the precision.
func writePrecision(t *mc.T) {
	prec := mc.Each(t, 4, 0, 1, 9, -1, 17, 100)
	marshal := t.Free(2) == 1
	if marshal && prec != 4 {
		t.Skip()
	}
	m := writeSample()
	if t.Free(2) == 1 {
		m.Childs = nil
		m.Resources.Objects[1].Components.Component[1].AnyAttr = nil
		m.Build.Items[1] = &go3mf.Item{ObjectID: 2}
		m.Relationships = nil
	}
	var fields []*spec.AnyAttr
	var names []string
	anyAttrFields(reflect.ValueOf(m), "", &fields, &names)
	var all []*writer
	for _, f := range fields {
		w := new(writer)
		all = append(all, w)
		*f = append(*f, groupWriter{w})
	}
	add := func(rs *go3mf.Resources) {
		w := new(writer)
		all, names = append(all, w), append(names, "asset")
		rs.Assets = append(rs.Assets, w)
		for _, o := range rs.Objects {
			if o.Mesh != nil {
				w := new(writer)
				all, names = append(all, w), append(names, "mesh")
				o.Mesh.Any = append(o.Mesh.Any, w)
			}
		}
	}
	add(&m.Resources)
	for _, k := range sortedKeys(m.Childs) {
		add(&m.Childs[k].Resources)
		w := new(writer)
		all, names = append(all, w), append(names, "child")
		m.Childs[k].Any = append(m.Childs[k].Any, w)
	}
	t.Case(fmt.Sprint(prec, marshal, len(m.Childs)))
	encodeParts(t, m, marshal, prec)
	for i, w := range all {
		if len(w.prec) == 0 && !marshal {
			t.Failf("write: marshaller not called", "%s", names[i])
		}
		for _, p := range w.prec {
			if p != prec {
				t.Failf("write: precision", "%s is told %d instead of %d", names[i], p, prec)
			}
		}
		t.Step()
	}
}

// writeRels: the relationships added by marshallers.
func writeRels(t *mc.T) {
	menu := []spec.Relationship{
		{Path: "/x.bin", Type: "http://write/t", ID: "i1"},
		{Path: "/x.bin", Type: "http://write/t", ID: "i2"},
		{Path: "/x.bin", Type: "http://write/u", ID: "i3"},
		{Path: "/y.bin", Type: "http://write/t"},
		{Path: "/X.bin", Type: "http://write/t", ID: "i5"},
	}
	var have []go3mf.Relationship
	switch t.Free(3) {
	case 1:
		have = []go3mf.Relationship{{Path: "/x.bin", Type: "http://write/t", ID: "h1"}}
	case 2:
		have = []go3mf.Relationship{{Path: "/y.bin", Type: "http://write/u", ID: "h1"}, {Path: "/y.bin", Type: "http://write/t", ID: "h2"}}
	}
	child := t.Free(2) == 1
	ws := make([]*writer, 6)
	first := 0
	if child {
		first = 3
	}
	// In the order of the document.
	var seq []spec.Relationship
	for _, k := range []int{0, 2, 1} {
		var mine []spec.Relationship
		for n := t.Free(3 - k%2); n > 0; n-- {
			mine = append(mine, menu[t.Free(len(menu))])
		}
		seq = append(seq, mine...)
		ws[first+k] = &writer{do: func(x spec.Encoder, _ *xml.StartElement) {
			for _, r := range mine {
				x.AddRelationship(r)
			}
		}}
	}
	m := writeModelAt(ws)
	m.Relationships = nil
	if child {
		m.Childs["/3D/c.model"].Relationships = have
	} else {
		m.Relationships = have
	}
	t.Case(fmt.Sprint(have, seq, child))
	data, err := encodePackage(m, 4)
	if err != nil {
		t.Failf("write: Encode", "%v", err)
	}
	p, err := openPkg(data)
	if err != nil {
		t.Failf("write: package", "%v", err)
	}
	type key struct{ target, typ string }
	want := map[key]string{}
	for _, r := range have {
		want[key{r.Path, r.Type}] = r.ID
	}
	for _, r := range seq {
		if _, ok := want[key{r.Path, r.Type}]; !ok {
			want[key{r.Path, r.Type}] = r.ID
		}
	}
	part, other := go3mf.DefaultModelPath, "/3D/c.model"
	if child {
		part, other = other, part
	}
	ids := map[string]bool{}
	got := map[key]bool{}
	for _, r := range p.find(part).Rels {
		if r.ID == "" || ids[r.ID] {
			t.Failf("write: relationship identifier", "%q of %v", r.ID, r)
		}
		ids[r.ID] = true
		if r.Type == go3mf.RelType3DModel {
			continue
		}
		k := key{r.Target, r.Type}
		id, ok := want[k]
		if !ok || got[k] {
			t.Failf("write: relationship", "%v is not expected", r)
		}
		got[k] = true
		if id != "" && r.ID != id {
			t.Failf("write: relationship identifier", "%v instead of %q", r, id)
		}
	}
	for k := range want {
		if !got[k] {
			t.Failf("write: relationship", "%v is missing", k)
		}
	}
	for _, r := range p.find(other).Rels {
		if r.Type != go3mf.RelType3DModel {
			t.Failf("write: relationship", "%v is in %s", r, other)
		}
	}
	t.State(fmt.Sprint(part, len(want), want))
}

var (
	_ = slices.Namespace
	_ = materials.Namespace
	_ = production.Namespace
)

func init() {
	register(&mc.Property{
		ID:     "C35",
		Method: "stateless exploration of the real encoder driven by marshallers that write every token sequence within the bounds, compared token by token (namespaces resolved strictly) with the tokens asked for",
		Rule:   "The tokens, attributes and relationships written by the marshallers of elements, assets and attribute groups are in the document at their place, and nothing else differs from the document with a marker at that place.",
		Assumptions: []string{
			"a marshaller writes well-formed tokens: an end for every start that is not closed automatically, no attribute twice, and only values without markup when it skips the escaping",
			"the prefixes chosen by the encoder are not judged, the namespaces they denote are",
			"comments, processing instructions and directives are not judged",
		},
		Scenarios: []mc.Scenario{
			{Name: "elements", Bound: "trees of up to 4 elements and depth 3 at any of 6 places (and up to 2 more at another), with deviations", K: 3, KT: 4, Run: writeElements},
			{Name: "groups", Bound: fmt.Sprintf("up to 3 kinds of attributes in one or two groups on each of %d places", writePlaces), K: 2, KT: 3, Run: writeGroups},
			{Name: "precision", Bound: "7 precisions, every place", Run: writePrecision},
			{Name: "relationships", Bound: "up to 5 relationships by three marshallers of a part", Run: writeRels},
		},
	})
}
