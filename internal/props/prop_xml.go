package props

import (
	"archive/zip"
	"bytes"
	"compress/flate"
	"encoding/xml"
	"fmt"
	"io"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

// The reader of the library is seen through an extension that records the
// elements of its namespace as they are delivered.

const nsCap = "urn:verif:capture"

type capSpec struct{}

func (capSpec) NewAttrGroup(xml.Name) spec.AttrGroup { return nil }
func (capSpec) NewElementDecoder(n xml.Name) spec.GetterElementDecoder {
	return &capDecoder{name: n, out: new(captured)}
}

type captured struct {
	ev   []string
	text []byte
}

func (*captured) Marshal3MF(spec.Encoder, *xml.StartElement) error { return nil }

func (c *captured) flush() {
	if len(c.text) > 0 {
		c.ev = append(c.ev, "T "+string(c.text))
	}
	c.text = c.text[:0]
}

type capDecoder struct {
	name xml.Name
	out  *captured
}

func (d *capDecoder) Start(attrs []spec.XMLAttr) error {
	d.out.flush()
	var b strings.Builder
	fmt.Fprintf(&b, "S {%s}%s", d.name.Space, d.name.Local)
	for _, a := range attrs {
		fmt.Fprintf(&b, " {%s}%s=%q", a.Name.Space, a.Name.Local, a.Value)
	}
	d.out.ev = append(d.out.ev, b.String())
	return nil
}
func (d *capDecoder) End() {
	d.out.flush()
	d.out.ev = append(d.out.ev, "E")
}
func (d *capDecoder) Element() interface{} { return d.out }
func (d *capDecoder) Child(n xml.Name) (int, spec.ElementDecoder) {
	return -1, &capDecoder{name: n, out: d.out}
}
func (d *capDecoder) CharData(b []byte) { d.out.text = append(d.out.text, b...) }

func init() { spec.Register(nsCap, capSpec{}) }

const (
	xmlHead = `<model xmlns="` + nsCore + `" xmlns:c="` + nsCap + `"><c:r>`
	xmlTail = `</c:r></model>`
)

// inside cuts the events of the children of the root in the namespace nsCap.
func inside(ev []string) (out []string) {
	depth, in := 0, 0
	for _, e := range ev {
		if e[0] == 'S' {
			depth++
			if depth == 2 && strings.HasPrefix(e, "S {"+nsCap+"}") {
				in = 1
			}
		}
		if in == 1 {
			out = append(out, e)
		}
		if e == "E" {
			if depth == 2 {
				in = 0
			}
			depth--
		}
	}
	return
}

// onlyHere are reasons for which encoding/xml does not reject a document.
func onlyHere(why string) bool {
	for _, w := range []string{"two roots", "text outside", "repeated attribute", "space", "doctype", "declaration", "end tag", "colons", "instruction"} {
		if strings.HasSuffix(why, w) {
			return true
		}
	}
	return false
}

// judgeXML compares the reading of a document with that of the reference.
func judgeXML(t *mc.T, doc string, decode func([]byte, *go3mf.Model) error) {
	t.Case(doc)
	want, v, why := readXML(doc)
	gev, gerr := goXML(doc)
	switch {
	case v == xmlOK && gerr != nil:
		t.Failf("the reference reader is wrong", "%q is well-formed, encoding/xml: %v", doc, gerr)
	case v == xmlOK && strings.Join(gev, "\n") != strings.Join(want, "\n"):
		t.Failf("the reference reader is wrong", "%q\n%q\nencoding/xml\n%q", doc, want, gev)
	case v == xmlBad && gerr == nil && !onlyHere(why):
		t.Failf("the reference reader is wrong", "%q is ill-formed (%s), encoding/xml accepts it", doc, why)
	}
	m := new(go3mf.Model)
	err := decode([]byte(doc), m)
	t.State(fmt.Sprint(v, err == nil, why, len(want)))
	switch v {
	case xmlBad:
		if err == nil {
			t.Failf("ill-formed document accepted: "+why, "%s: %s", clipDoc(doc), why)
		}
		return
	case xmlFree:
		return
	}
	if err != nil {
		t.Failf("well-formed document rejected", "%s: %v", clipDoc(doc), err)
	}
	var got []string
	for _, a := range m.Any {
		if c, ok := a.(*captured); ok {
			got = append(got, c.ev...)
		}
	}
	if w := inside(want); strings.Join(got, "\n") != strings.Join(w, "\n") {
		t.Failf("content read differently", "%s\nwant %q\ngot  %q", clipDoc(doc), clips(w), clips(got))
	}
}

func clipDoc(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q...(%d bytes)...%q", s[:150], len(s), s[len(s)-150:])
	}
	return fmt.Sprintf("%q", s)
}

func clips(s []string) (out []string) {
	for _, x := range s {
		if len(x) > 200 {
			x = x[:100] + "..." + x[len(x)-100:]
		}
		out = append(out, x)
		if len(out) == 40 {
			break
		}
	}
	return
}

// xmlHole is a place of a document with the pieces to put there.
type xmlHole struct {
	name        string
	pre, post   string
	alpha       []string
	max, maxAll int // longest string in quick and thorough
}

func letters(s string, more ...string) []string {
	var out []string
	for _, c := range s {
		out = append(out, string(c))
	}
	return append(out, more...)
}

var xmlHoles = []xmlHole{
	{"content", "<a>", "</a>", letters("<>/&;#ax1 \r\n][!-?=\"", "&#13;", "&#xA;"), 4, 5},
	{"tag", "<a", ">x</a>", letters("a= \n\"'b:/><&1.", "xmlns"), 4, 5},
	{"attributes", "<a ", "/>", letters("a= \"'b:", "xmlns", `="1"`, `="2" `), 5, 6},
	{"value", `<a b="`, `"/>`, letters("&<>'\"a;#x38\r\n\t]", "&#13;", "&#10;"), 4, 5},
	{"value in apostrophes", `<a b='`, `'/>`, letters("&<>'\"a;#x38\r\n\t]", "&#13;", "&#10;"), 4, 5},
	{"reference", "<a>z&", ";y</a>", letters("#xXalgtmpquos016D8Ff;&"), 4, 5},
	{"reference in value", "<a b='z&", ";y'/>", letters("#xalgtmpquos06D8;&"), 4, 5},
	{"comment", "x<!--", "-->y", letters("-><!a&]"), 6, 7},
	{"section", "x<![CDATA[", "]]>y", letters("]><[&a\r\n-"), 5, 6},
	{"instruction", "x<?", "?>y", letters("?><ax l-=\"1"), 4, 6},
	{"end tag", "<a></", ">y", letters("ab:  /><\n=\"1"), 4, 6},
	{"markup", "x<!", ">y", letters("-[CDAT]><a", "CDATA[", "DOCTYPE"), 5, 6},
	{"name", "<", "/>", letters("a1-._: é·×\u0301😀\ufffd", "\xff", "\x80", "\x00", "\u0c85", "\ud7ff"), 3, 4},
	{"attribute name", "<b ", "='1'/>", letters("a1-._:é·×\u0301😀\ufffd", "\xff", "\x80", "\x01", "\u0c85"), 3, 4},
	{"bytes", "<a>", "</a>", []string{"a", "\x00", "\x1f", "\x7f", "\x80", "\xbf", "\xc0", "\xc1", "\xc3", "\xa9", "\xe0", "\xed", "\xef", "\xf0", "\xf4", "\xf5", "\xff", "\xbb"}, 4, 5},
	{"bytes of values", "<a b='", "'/>", []string{"a", "\x00", "\x1f", "\x80", "\xbf", "\xc0", "\xc3", "\xe0", "\xed", "\xef", "\xf4", "\xff"}, 4, 4},
}

func xmlStrings(t *mc.T) {
	h := xmlHoles[t.Free(len(xmlHoles))]
	max := h.max
	if t.Tier == "thorough" {
		max = h.maxAll
	}
	n := t.Free(max + 1)
	var b strings.Builder
	b.WriteString(xmlHead + h.pre)
	for i := 0; i < n; i++ {
		b.WriteString(h.alpha[t.Free(len(h.alpha))])
	}
	b.WriteString(h.post + xmlTail)
	judgeXML(t, b.String(), go3mf.UnmarshalModel)
}

// xmlTruncate gives every beginning of the strings.
func xmlTruncate(t *mc.T) {
	doc := mc.Each(t, xmlDocs()...)
	judgeXML(t, doc[:t.Free(len(doc)+1)], go3mf.UnmarshalModel)
}

// xmlMutate changes one byte of a document into any other, removes or repeats it.
func xmlMutate(t *mc.T) {
	doc := mc.Each(t, xmlDocs()[:3]...)
	i := t.Free(len(doc))
	switch k := t.Free(258); k {
	case 256:
		doc = doc[:i] + doc[i+1:]
	case 257:
		doc = doc[:i] + doc[i:i+1] + doc[i:]
	default:
		doc = doc[:i] + string([]byte{byte(k)}) + doc[i+1:]
	}
	judgeXML(t, doc, go3mf.UnmarshalModel)
}

// xmlChars plants every character of the basic plane and some others.
func xmlChars(t *mc.T) {
	hi := t.Free(0x110)
	var b strings.Builder
	how := t.Free(5)
	for lo := 0; lo < 0x100; lo++ {
		c := rune(hi<<8 | lo)
		if hi >= 0x100 { // one block of every other plane
			c = rune((hi-0x100+1)<<16 | 0xff00 | lo)
		}
		var s string
		lit := string(c)
		if c >= 0xD800 && c < 0xE000 {
			lit = string([]byte{0xe0 | byte(c>>12), 0x80 | byte(c>>6)&0x3f, 0x80 | byte(c)&0x3f})
		}
		switch how {
		case 0:
			s = "<a>" + lit + "</a>"
		case 1:
			s = "<a b='" + lit + "'/>"
		case 2:
			s = "<a><![CDATA[" + lit + "]]></a>"
		case 3:
			s = fmt.Sprintf("<a>&#%d;</a>", c)
		case 4:
			s = fmt.Sprintf("<a b='&#x%X;'>&#x%04x;</a>", c, c)
		}
		_, v, _ := readXML(xmlHead + s + xmlTail)
		if v == xmlOK {
			b.WriteString(s)
		} else {
			judgeXML(t, xmlHead+s+xmlTail, go3mf.UnmarshalModel)
		}
		t.Step()
	}
	judgeXML(t, xmlHead+b.String()+xmlTail, go3mf.UnmarshalModel)
}

var xmlTags = []string{
	"<a>", "<b>", "<p:a>", `<a xmlns="u">`, `<a xmlns="">`, `<p:a xmlns:p="u">`, `<p:a xmlns:p="v" p:k="1" k="2">`,
	`<p:b xmlns:q="u" q:k="1" xmlns:p="u" k="3" c:z="">`, `<c:a>`, `<b xml:lang="x">`, `<a xmlns:c="w">`, `<b p:k="1" q:k="2" xmlns:p="u" xmlns:q="u">`,
}

// xmlNesting enumerates sequences of tags.
func xmlNesting(t *mc.T) {
	n := 4
	if t.Tier == "thorough" {
		n = 5
	}
	var b strings.Builder
	b.WriteString(xmlHead)
	var open []string
	for i := 0; i < n; i++ {
		k := t.Free(len(xmlTags) + 2)
		if k < len(xmlTags) {
			tag := xmlTags[k]
			if t.Flip() {
				b.WriteString(tag[:len(tag)-1] + "/>")
				continue
			}
			b.WriteString(tag)
			name := strings.FieldsFunc(tag, func(c rune) bool { return strings.ContainsRune("< >", c) })[0]
			open = append(open, name)
			continue
		}
		if k == len(xmlTags) {
			b.WriteString("x")
			continue
		}
		if len(open) == 0 {
			if i == n-1 {
				b.WriteString("</a>")
				continue
			}
			t.Skip()
		}
		name := open[len(open)-1]
		open = open[:len(open)-1]
		b.WriteString("</" + mc.Pick(t, name, "a", "p:a", "b", "c:r") + ">")
	}
	for len(open) > 0 {
		b.WriteString("</" + open[len(open)-1] + ">")
		open = open[:len(open)-1]
	}
	// Names whose prefixes have gone out of scope.
	b.WriteString(`<a c:k="1"/>` + xmlTail)
	judgeXML(t, b.String(), go3mf.UnmarshalModel)
}

var xmlMisc = []string{
	xmlHead + "x" + xmlTail, " \n", "<!-- c -->", "<?pi d?>", "x", "<![CDATA[x]]>", "&lt;", "&#32;", "<other/>", `<!DOCTYPE model>`, "</model>", "<c:r/>", "<", "\x00",
	`<?xml version="1.0"?>`, "\uFEFF", `<model xmlns="` + nsCore + `"/>`, "]]>",
}

var xmlStarts = []string{"", `<?xml version="1.0" encoding="UTF-8"?>`, `<?xml version="1.0" encoding="utf-8" standalone="yes"?>`, "\uFEFF", "\uFEFF" + `<?xml version="1.0" encoding="UTF-8"?>`}

// xmlStructure enumerates documents.
func xmlStructure(t *mc.T) {
	doc := mc.Each(t, xmlStarts...)
	n := 4
	if t.Tier == "thorough" {
		n = 5
	}
	for i := 0; i < n; i++ {
		k := t.Free(len(xmlMisc) + 1)
		if k == len(xmlMisc) {
			break
		}
		doc += xmlMisc[k]
	}
	judgeXML(t, doc, go3mf.UnmarshalModel)
}

var xmlNames = []string{
	"a", "x", "y", "z", "u", "v", "w", "x1", "v1", "v2", "v3", "v4", "p1", "p2", "p3", "p4", "q1", "pid", "pip", "pidd", "color", "colot", "Color", "vertex", "verted", "vertexs",
	"triangle", "trianglf", "trianglee", "abcdefgh", "abcdefgi", "abcdefghi", "abcdefghj", "abc", "ab", "é", "éé", "a:x", "c:x", "a-b", "c:vertex", "_",
}

// xmlNameSequences reads every sequence of names: a name does not depend on those before.
func xmlNameSequences(t *mc.T) {
	var b strings.Builder
	b.WriteString(xmlHead + `<w xmlns:a="u">`)
	n := 2
	if t.Tier == "thorough" {
		n = 3
	}
	for i := 0; i < n; i++ {
		e := xmlNames[t.Free(len(xmlNames))]
		a := e
		if i == 0 {
			a = xmlNames[t.Free(len(xmlNames))]
		}
		fmt.Fprintf(&b, "<%s %s='%d'></%s>", e, a, i, e)
	}
	b.WriteString("</w>" + xmlTail)
	judgeXML(t, b.String(), go3mf.UnmarshalModel)
}

// xmlAttributes has elements with many attributes of different lengths.
func xmlAttributes(t *mc.T) {
	counts := []int{0, 1, 2, 9, 10, 11, 19, 20, 21, 39, 40, 41, 85}
	var b strings.Builder
	b.WriteString(xmlHead)
	for i := 0; i < 3; i++ {
		n := counts[t.Free(len(counts))]
		b.WriteString("<a")
		for k := 0; k < n; k++ {
			fmt.Fprintf(&b, " k%d='%s'", k, strings.Repeat(string(rune('a'+(i*7+k)%26)), (k*5+i*11)%23))
		}
		b.WriteString(mc.Each(t, "/>", ">x</a>"))
	}
	b.WriteString(xmlTail)
	judgeXML(t, b.String(), go3mf.UnmarshalModel)
}

func xmlDocs() []string {
	return []string{
		`<?xml version="1.0" encoding="UTF-8"?>` + "\n" + xmlHead + "<a x='1' y = \"&lt;&#65;&#x42;\r\n'\">t\r\nu\rv&amp;w<!-- - c --><![CDATA[<]]&]]></a><b:c xmlns:b='u' b:d=''/>é" + xmlTail + "<!--e-->\n",
		xmlHead + "<vertex x='1.5' y='-2' z='3e1'/><triangle v1='0' v2='1' v3='2' pid='1' p1='7' p2='8' p3='9'/><color color='#FF00AA'></color><longer-name.x _y='&quot;&apos;'>\r</longer-name.x><?pi some ?data?>" + xmlTail,
		xmlHead + "\r\n<a\r\nb='1'\t>]]<b/>]</a\n><![CDATA[\r\r\n]]]>]]>\r<!---->\n&gt;]]" + xmlTail + "\r\n",
		xmlHead + "<a xmlns='u'><b xmlns:c='w' c:k='1'><c:d/></b><c:e xmlns=''><f/></c:e></a>" + strings.Repeat("<k v='é'>ü😀</k>", 3) + xmlTail,
		xmlHead + "<a>" + xmlTail,
		xmlHead + "<a b=1/>" + xmlTail,
	}
}

// chunked packs a document so that it is delivered in the given pieces: the
// compressor flushes after each of them.
func chunked(doc []byte, cuts []int) []byte {
	p := &pkg{
		Parts: []pkgPart{{Name: go3mf.DefaultModelPath, CT: ctModel, Data: doc}},
		Rels:  []pkgRel{{Target: go3mf.DefaultModelPath, Type: rtModel, ID: "r0"}},
	}
	p.Compress = func(w io.Writer) (io.WriteCloser, error) {
		f, err := flate.NewWriter(w, flate.BestSpeed)
		return &cutWriter{f, cuts, len(doc)}, err
	}
	return p.build(zip.Deflate)
}

type cutWriter struct {
	*flate.Writer
	cuts []int
	n    int
}

func (c *cutWriter) Write(p []byte) (int, error) {
	if len(p) != c.n {
		return c.Writer.Write(p)
	}
	last := 0
	for _, x := range c.cuts {
		c.Writer.Write(p[last:x])
		c.Writer.Flush()
		last = x
	}
	_, err := c.Writer.Write(p[last:])
	return len(p), err
}

// delivered checks that the decompressor hands out the pieces asked for.
func delivered(t *mc.T, data []byte, doc []byte, cuts []int) {
	z, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		panic(err)
	}
	f, err := z.Open(strings.TrimPrefix(go3mf.DefaultModelPath, "/"))
	if err != nil {
		panic(err)
	}
	buf := make([]byte, len(doc)+1)
	last := 0
	for _, x := range append(append([]int(nil), cuts...), len(doc)) {
		if x == last {
			continue
		}
		if n, _ := f.Read(buf); n != x-last {
			t.Failf("the document is not delivered as wanted", "cuts %v: %d bytes", cuts, n)
		}
		last = x
	}
}

func decodePkg(cuts []int) func([]byte, *go3mf.Model) error {
	return func(doc []byte, m *go3mf.Model) error {
		b := chunked(doc, cuts)
		return go3mf.NewDecoder(bytes.NewReader(b), int64(len(b))).Decode(m)
	}
}

// xmlChunks delivers documents cut in every way into up to three pieces
// (thorough: four), or in pieces of the same size.
func xmlChunks(t *mc.T) {
	doc := mc.Each(t, xmlDocs()...)
	var cuts []int
	if t.Free(2) == 0 {
		a := t.Free(len(doc) + 1)
		cuts = []int{a}
		if t.Flip() {
			b := a + 1 + t.Free(len(doc)-a+1)
			if b > len(doc) {
				t.Skip()
			}
			cuts = append(cuts, b)
		}
	} else {
		n := 1 + t.Free(64)
		for i := n; i < len(doc); i += n {
			cuts = append(cuts, i)
		}
	}
	b := chunked([]byte(doc), cuts)
	delivered(t, b, []byte(doc), cuts)
	sameXML(t, doc, decodePkg(cuts))
	judgeXML(t, doc, decodePkg(cuts))
}

// xmlBuffer moves documents over the end of the buffers of the reader.
func xmlBuffer(t *mc.T) {
	doc := mc.Each(t, xmlDocs()...)
	size := mc.Each(t, 4096, 8192)
	at := t.Free(len(doc) + 3)
	pad := size - at
	var where string
	switch t.Free(4) {
	case 0:
		where = strings.Repeat(" ", pad)
	case 1:
		where = "<!--" + strings.Repeat("c", pad-7) + "-->"
	case 2:
		where = "<?pi " + strings.Repeat("c", pad-7) + "?>"
	case 3: // inside
		i := strings.Index(doc, "<c:r>") + 5
		doc = doc[:i] + strings.Repeat("t", pad) + doc[i:]
	}
	if strings.HasPrefix(doc, "<?xml") {
		i := strings.Index(doc, "?>") + 2
		doc = doc[:i] + where + doc[i:]
	} else {
		doc = where + doc
	}
	if t.Free(2) == 0 {
		judgeXML(t, doc, go3mf.UnmarshalModel)
	} else {
		sameXML(t, doc, decodePkg(nil))
		judgeXML(t, doc, decodePkg(nil))
	}
}

// sameXML compares the reading of a document with its reading in one piece, whatever it is.
func sameXML(t *mc.T, doc string, decode func([]byte, *go3mf.Model) error) {
	read := func(decode func([]byte, *go3mf.Model) error) string {
		m := new(go3mf.Model)
		err := decode([]byte(doc), m)
		if err != nil {
			return "error"
		}
		var got []string
		for _, a := range m.Any {
			if c, ok := a.(*captured); ok {
				got = append(got, c.ev...)
			}
		}
		return strings.Join(got, "\n")
	}
	if a, b := read(go3mf.UnmarshalModel), read(decode); a != b {
		t.Failf("reading depends on the pieces", "%s\nin one piece %q\notherwise %q", clipDoc(doc), clips([]string{a}), clips([]string{b}))
	}
}

// xmlLong has tokens longer than the buffers of the reader.
func xmlLong(t *mc.T) {
	n := mc.Each(t, 8, 9, 4000, 4090, 4096, 4097, 8191, 8192, 8193, 20000, 70000)
	s := strings.Repeat("ab", n/2+1)[:n]
	var f string
	switch t.Free(9) {
	case 0:
		f = s
	case 1:
		f = "<a b='" + s + "' c=\"" + s + "\"/>"
	case 2:
		f = "<" + s + "/><" + s + ">x</" + s + "><" + s[:n-1] + "/>"
	case 3:
		f = "<a " + s + "='1' " + s[1:] + "c='2'></a>"
	case 4:
		f = "<!--" + s + "-->y"
	case 5:
		f = "<![CDATA[" + s + "]]]]>y"
	case 6:
		f = "<a" + strings.Repeat(" ", n) + "b='1'/>"
	case 7:
		f = "<?" + s + " " + s + "?>y"
	case 8:
		f = strings.Repeat("&lt;\r\n", n)
	}
	doc := xmlHead + f + xmlTail
	switch t.Free(3) {
	case 0:
		judgeXML(t, doc, go3mf.UnmarshalModel)
	case 1:
		judgeXML(t, doc, decodePkg(nil))
	case 2:
		judgeXML(t, doc[:len(doc)-len(xmlTail)], go3mf.UnmarshalModel)
	}
}

// xmlDeep nests elements.
func xmlDeep(t *mc.T) {
	n := mc.Each(t, 1, 9, 10, 11, 100, 1000, 3000)
	open, end := `<a k='1'>`, `</a>`
	if t.Free(2) == 1 {
		open, end = `<p:a xmlns:p="u">x`, `y</p:a>`
	}
	d := n - t.Free(3) + 1 // one end tag missing, none, one too many
	if d < 0 {
		t.Skip()
	}
	judgeXML(t, xmlHead+strings.Repeat(open, n)+strings.Repeat(end, d)+xmlTail, go3mf.UnmarshalModel)
}

func init() {
	register(&mc.Property{ID: "C11", Scenarios: []mc.Scenario{
		{Name: "strings", Bound: "every string of up to 3 to 6 pieces (thorough: one or two more) of 7 to 22 pieces at 16 places of a document", Run: xmlStrings},
		{Name: "truncations", Bound: "every beginning of six documents", Run: xmlTruncate},
		{Name: "mutations", Bound: "every byte of three documents changed into any other, removed, repeated", Run: xmlMutate},
		{Name: "characters", Bound: "every character of the basic plane and the end of the others, in text, values, sections and references", Run: xmlChars},
		{Name: "nesting", Bound: "every sequence of 4 (thorough: 5) of 12 start tags, text and end tags; any two of: empty element, wrong end tag", K: 1, KT: 2, Run: xmlNesting},
		{Name: "structure", Bound: "every sequence of up to 4 (thorough: 5) of 18 pieces after five beginnings", Run: xmlStructure},
		{Name: "names", Bound: "every sequence of 3 (thorough: 4) of 42 names", Run: xmlNameSequences},
		{Name: "attributes", Bound: "every sequence of three elements with up to 85 attributes", Run: xmlAttributes},
		{Name: "chunks", Bound: "six documents delivered in every two pieces (thorough: three), and in pieces of 1 to 64 bytes", KT: 1, Run: xmlChunks},
		{Name: "buffer", Bound: "six documents at every place over two multiples of the size of a buffer", Run: xmlBuffer},
		{Name: "long tokens", Bound: "tokens of eight kinds of up to 70000 bytes", Run: xmlLong},
		{Name: "depth", Bound: "up to 3000 elements nested", Run: xmlDeep},
	}})
}
