package props

import (
	"encoding/xml"
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// A reader of XML 1.0 with namespaces, written from the recommendations for
// complete documents in memory. It knows no DTD.

type verdict int

const (
	xmlOK   verdict = iota // well-formed: has to be accepted
	xmlBad                 // ill-formed: has to be rejected
	xmlFree                // readers differ: not judged
)

type refXML struct {
	s      string
	i      int
	ev     []string
	free   string // why the document is not judged
	scopes []map[string]string
	text   []byte
	hasTxt bool
}

type xmlStop struct {
	why string
}

func (r *refXML) bad(why string) { panic(xmlStop{why}) }
func (r *refXML) unjudged(why string) {
	if r.free == "" {
		r.free = why
	}
}
func (r *refXML) has(p string) bool { return strings.HasPrefix(r.s[r.i:], p) }
func (r *refXML) take(p string) bool {
	if r.has(p) {
		r.i += len(p)
		return true
	}
	return false
}
func (r *refXML) need() {
	if r.i >= len(r.s) {
		r.bad("eof")
	}
}

func isXMLSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func (r *refXML) space() bool {
	j := r.i
	for r.i < len(r.s) && isXMLSpace(r.s[r.i]) {
		r.i++
	}
	return r.i > j
}

func isXMLChar(c rune) bool {
	return c == '\t' || c == '\n' || c == '\r' || c >= 0x20 && c <= 0xD7FF || c >= 0xE000 && c <= 0xFFFD || c >= 0x10000 && c <= 0x10FFFF
}

var nameStartRanges = [][2]rune{{':', ':'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}, {0xC0, 0xD6}, {0xD8, 0xF6}, {0xF8, 0x2FF}, {0x370, 0x37D}, {0x37F, 0x1FFF},
	{0x200C, 0x200D}, {0x2070, 0x218F}, {0x2C00, 0x2FEF}, {0x3001, 0xD7FF}, {0xF900, 0xFDCF}, {0xFDF0, 0xFFFD}, {0x10000, 0xEFFFF}}
var nameRanges = [][2]rune{{'-', '-'}, {'.', '.'}, {'0', '9'}, {0xB7, 0xB7}, {0x300, 0x36F}, {0x203F, 0x2040}}

func inRanges(c rune, rs [][2]rune) bool {
	for _, x := range rs {
		if c >= x[0] && c <= x[1] {
			return true
		}
	}
	return false
}

// goName says whether encoding/xml takes s for a name.
func goName(s string) bool {
	d := xml.NewDecoder(strings.NewReader("<" + s + "/>"))
	_, err := d.RawToken()
	return err == nil
}

// name reads a Name.
func (r *refXML) name() string {
	j := r.i
	for r.i < len(r.s) {
		c, n := utf8.DecodeRuneInString(r.s[r.i:])
		if c < 0x80 && !(c >= '0' && c <= '9' || c == '-' || c == '.' || inRanges(c, nameStartRanges)) {
			break
		}
		r.i += n
	}
	s := r.s[j:r.i]
	if s == "" {
		r.need()
		r.bad("no name")
	}
	ok := utf8.ValidString(s)
	for k, c := range s {
		if !inRanges(c, nameStartRanges) && (k == 0 || !inRanges(c, nameRanges)) {
			ok = false
		}
	}
	ascii := true
	for k := range s {
		ascii = ascii && s[k] < 0x80
	}
	if !ascii && utf8.ValidString(s) && strings.Count(s, ":") <= 1 && goName(s) != ok {
		r.unjudged("name") // editions of XML differ
		return s
	}
	if !ok {
		r.bad("name")
	}
	return s
}

// qname splits a name. Names with misplaced colons are left to the reader.
func (r *refXML) qname() (prefix, local string) {
	s := r.name()
	n := strings.Count(s, ":")
	if n > 1 {
		r.bad("colons")
	}
	if n == 0 {
		return "", s
	}
	i := strings.IndexByte(s, ':')
	if i == 0 || i == len(s)-1 {
		r.unjudged("colon")
	}
	return s[:i], s[i+1:]
}

func (r *refXML) lookup(prefix string) (string, bool) {
	for i := len(r.scopes) - 1; i >= 0; i-- {
		if v, ok := r.scopes[i][prefix]; ok {
			return v, true
		}
	}
	return "", false
}

func (r *refXML) resolve(prefix string, elem bool) string {
	if prefix == "" && !elem {
		return ""
	}
	if prefix == "xml" {
		return "http://www.w3.org/XML/1998/namespace"
	}
	if prefix == "xmlns" {
		r.unjudged("xmlns prefix")
	}
	v, ok := r.lookup(prefix)
	if !ok && prefix != "" {
		r.unjudged("undeclared prefix")
		return prefix
	}
	return v
}

// ref reads a reference whose & is next.
func (r *refXML) ref() string {
	r.i++
	end := r.i
	for end < len(r.s) && (r.s[end] == '#' || r.s[end] >= '0' && r.s[end] <= '9' || r.s[end] >= 'a' && r.s[end] <= 'z' || r.s[end] >= 'A' && r.s[end] <= 'Z') {
		end++
	}
	if end >= len(r.s) || r.s[end] != ';' {
		r.bad("reference")
	}
	s := r.s[r.i:end]
	r.i = end + 1
	switch s {
	case "lt":
		return "<"
	case "gt":
		return ">"
	case "amp":
		return "&"
	case "quot":
		return `"`
	case "apos":
		return "'"
	}
	if !strings.HasPrefix(s, "#") || len(s) < 2 {
		r.bad("reference")
	}
	var n uint64
	var err error
	if s[1] == 'x' {
		n, err = strconv.ParseUint(s[2:], 16, 64)
	} else {
		n, err = strconv.ParseUint(s[1:], 10, 64)
	}
	if err != nil || n > 0x10FFFF {
		r.bad("reference")
	}
	if n >= 0xD800 && n < 0xE000 {
		r.unjudged("surrogate")
		return "\uFFFD"
	}
	if !isXMLChar(rune(n)) {
		r.bad("character")
	}
	return string(rune(n))
}

// char reads a literal character, ends of line normalized.
func (r *refXML) char(strict bool) string {
	r.need()
	c, n := utf8.DecodeRuneInString(r.s[r.i:])
	if c == utf8.RuneError && n <= 1 || !isXMLChar(c) {
		if strict {
			r.bad("character")
		}
		r.unjudged("character")
	}
	s := r.s[r.i : r.i+n]
	r.i += n
	if s == "\r" {
		r.take("\n")
		return "\n"
	}
	return s
}

func (r *refXML) flush() {
	if len(r.text) > 0 {
		r.ev = append(r.ev, "T "+string(r.text))
	}
	r.text = r.text[:0]
}

func (r *refXML) comment() {
	for !r.has("--") {
		r.char(false)
	}
	r.i += 2
	if !r.take(">") {
		r.need()
		r.bad("comment")
	}
}

var xmlDecl = regexp.MustCompile(`^<\?xml version="1\.0"( encoding="[Uu][Tt][Ff]-8")?( standalone="(yes|no)")? ?\?>`)

func (r *refXML) pi(start int) {
	target := r.name()
	if strings.EqualFold(target, "xml") {
		if m := xmlDecl.FindString(r.s[start:]); start == 0 && m != "" {
			r.i = len(m)
			return
		}
		r.unjudged("declaration")
	}
	if !r.has("?>") && !r.space() {
		r.need()
		r.unjudged("instruction")
	}
	for !r.take("?>") {
		r.char(false)
	}
}

// element reads an element whose < has been read.
func (r *refXML) element() {
	prefix, local := r.qname()
	type attr struct{ prefix, local, value string }
	var attrs []attr
	scope := map[string]string{}
	empty := false
	for {
		sp := r.space()
		r.need()
		if r.take("/") {
			if !r.take(">") {
				r.need()
				r.bad("tag")
			}
			empty = true
			break
		}
		if r.take(">") {
			break
		}
		p, l := r.qname()
		if !sp {
			r.bad("space")
		}
		r.space()
		if !r.take("=") {
			r.need()
			r.bad("tag")
		}
		r.space()
		r.need()
		q := r.s[r.i]
		if q != '"' && q != '\'' {
			r.bad("quote")
		}
		r.i++
		var v strings.Builder
		for {
			r.need()
			switch c := r.s[r.i]; {
			case c == q:
			case c == '<':
				r.bad("less than")
			case c == '&':
				v.WriteString(r.ref())
				continue
			default:
				v.WriteString(r.char(true))
				continue
			}
			break
		}
		r.i++
		attrs = append(attrs, attr{p, l, v.String()})
		if p == "xmlns" {
			if l == "xml" || l == "xmlns" || v.Len() == 0 {
				r.unjudged("reserved prefix")
			}
			scope[l] = v.String()
		} else if p == "" && l == "xmlns" {
			scope[""] = v.String()
		}
		if strings.HasPrefix(v.String(), "http://www.w3.org/") {
			r.unjudged("reserved namespace")
		}
	}
	if prefix == "" && local == "xmlns" {
		r.unjudged("reserved name")
	}
	r.scopes = append(r.scopes, scope)
	var b strings.Builder
	fmt.Fprintf(&b, "S {%s}%s", r.resolve(prefix, true), local)
	seen := map[string]bool{}
	for _, a := range attrs {
		space := a.prefix
		if a.prefix != "xmlns" {
			space = r.resolve(a.prefix, false)
		}
		name := fmt.Sprintf("{%s}%s", space, a.local)
		if seen[name] {
			r.unjudged("repeated attribute") // the tests of the library have some
		}
		seen[name] = true
		fmt.Fprintf(&b, " %s=%q", name, a.value)
	}
	r.flush()
	r.ev = append(r.ev, b.String())
	if !empty {
		r.content()
		p, l := r.qname()
		if p != prefix || l != local {
			r.bad("end tag")
		}
		r.space()
		if !r.take(">") {
			r.need()
			r.bad("tag")
		}
	}
	r.flush()
	r.ev = append(r.ev, "E")
	r.scopes = r.scopes[:len(r.scopes)-1]
}

// content reads up to and including the </ of the end tag.
func (r *refXML) content() {
	for {
		r.need()
		at := r.i
		switch {
		case r.take("</"):
			return
		case r.take("<!--"):
			r.comment()
		case r.take("<![CDATA["):
			for !r.take("]]>") {
				r.text = append(r.text, r.char(true)...)
			}
		case r.take("<!"):
			r.bad("declaration")
		case r.take("<?"):
			r.pi(at)
		case r.take("<"):
			r.element()
		case r.has("&"):
			r.text = append(r.text, r.ref()...)
		case r.has("]]>"):
			r.bad("end of CDATA")
		default:
			r.text = append(r.text, r.char(true)...)
		}
	}
}

func (r *refXML) document() {
	r.take("\uFEFF")
	roots := 0
	for r.i < len(r.s) {
		at := r.i
		switch {
		case r.space():
		case r.take("<!--"):
			r.comment()
		case r.take("<!"):
			r.bad("doctype")
		case r.take("<?"):
			r.pi(at)
		case r.has("</"):
			r.bad("end tag")
		case r.take("<"):
			if roots++; roots > 1 {
				r.unjudged("two roots") // the tests of the library have some
			}
			r.element()
		default:
			r.bad("text outside")
		}
	}
	if roots == 0 {
		r.unjudged("no root")
	}
}

// readXML gives the content of a document: S for start tags with names and
// attributes, T for text, E for end tags.
func readXML(s string) (ev []string, v verdict, why string) {
	r := &refXML{s: s}
	defer func() {
		if x := recover(); x != nil {
			if st, ok := x.(xmlStop); ok {
				if r.free != "" { // ill-formed, but some readers stop being reliable before
					ev, v, why = nil, xmlBad, r.free+", "+st.why
					if !certain(st.why) {
						v = xmlFree
					}
					return
				}
				ev, v, why = nil, xmlBad, st.why
				return
			}
			panic(x)
		}
	}()
	r.document()
	if r.free == "" && len(r.ev) > 0 && !strings.HasPrefix(r.ev[0], "S {"+nsCore+"}model") {
		r.unjudged("other root")
	}
	if r.free != "" {
		return r.ev, xmlFree, r.free
	}
	return r.ev, xmlOK, ""
}

// certain says that a document is ill-formed whatever comes before.
func certain(why string) bool { return why == "eof" }

// goXML is readXML with encoding/xml.
func goXML(s string) (ev []string, err error) {
	d := xml.NewDecoder(strings.NewReader(s))
	var text []byte
	depth := 0
	flush := func() {
		if len(text) > 0 {
			ev = append(ev, "T "+string(text))
		}
		text = text[:0]
	}
	for {
		tok, err := d.Token()
		if err == io.EOF {
			return ev, nil
		}
		if err != nil {
			return nil, err
		}
		switch x := tok.(type) {
		case xml.StartElement:
			depth++
			flush()
			var b strings.Builder
			fmt.Fprintf(&b, "S {%s}%s", x.Name.Space, x.Name.Local)
			for _, a := range x.Attr {
				fmt.Fprintf(&b, " {%s}%s=%q", a.Name.Space, a.Name.Local, a.Value)
			}
			ev = append(ev, b.String())
		case xml.EndElement:
			depth--
			flush()
			ev = append(ev, "E")
		case xml.CharData:
			if depth > 0 {
				text = append(text, x...)
			}
		}
	}
}
