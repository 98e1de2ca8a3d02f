package props

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"verif3mf/internal/mc"
)

// knownNS are the namespaces whose elements have a schema; in any other (foreign)
// element character data may be mixed with elements.
var knownNS = map[string]bool{nsCore: true, nsMat: true, nsSlice: true, nsBeam: true, nsProd: true}

// N is an XML element of the reference trees. Space is the namespace URI.
type N struct {
	Space, Local string
	Attr         []A
	Kids         []*N
	Text         string // character data (elements have either kids or text)
}

// A is an attribute. Space is the namespace URI ("" for none).
type A struct{ Space, Local, Value string }

func el(space, local string, kids ...*N) *N { return &N{Space: space, Local: local, Kids: kids} }

func (n *N) a(local, value string) *N { n.Attr = append(n.Attr, A{"", local, value}); return n }
func (n *N) ns(space, local, value string) *N {
	n.Attr = append(n.Attr, A{space, local, value})
	return n
}
func (n *N) add(k ...*N) *N { n.Kids = append(n.Kids, k...); return n }

func (n *N) clone() *N {
	c := *n
	c.Attr = append([]A(nil), n.Attr...)
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	return &c
}

// canon renders the tree with attributes sorted.
func (n *N) canon() string {
	var b strings.Builder
	n.canonTo(&b, "")
	return b.String()
}

func (n *N) canonTo(b *strings.Builder, in string) {
	fmt.Fprintf(b, "%s<{%s}%s", in, n.Space, n.Local)
	at := append([]A(nil), n.Attr...)
	sort.SliceStable(at, func(i, j int) bool {
		if at[i].Space != at[j].Space {
			return at[i].Space < at[j].Space
		}
		return at[i].Local < at[j].Local
	})
	for _, a := range at {
		fmt.Fprintf(b, " {%s}%s=%q", a.Space, a.Local, a.Value)
	}
	b.WriteString(">")
	if n.Text != "" {
		fmt.Fprintf(b, "%q", n.Text)
	}
	b.WriteString("\n")
	for _, k := range n.Kids {
		k.canonTo(b, in+" ")
	}
}

// style is a lexical rendering of a tree: every style denotes the same document.
type style struct {
	prefixCore   bool   // core elements carry a prefix instead of the default namespace
	apos         bool   // attribute quotes
	openClose    bool   // <a></a> instead of <a/>
	ws           bool   // whitespace between elements and around attributes
	decl         int    // 0 none, 1 xml declaration, 2 declaration + processing instructions everywhere
	revAttr      bool   // attributes in reverse order
	charRefs     bool   // escape every character as a hexadecimal character reference
	decRefs      bool   // escape every character as a decimal character reference
	localNS      bool   // extension namespaces declared on the elements that use them
	comments     bool   // comments everywhere
	cdata        bool   // character data in CDATA sections
	crlf         bool   // whitespace is \r\n
	nsLast       bool   // xmlns declarations after the other attributes
	rebind       bool   // elements rebind an unrelated prefix (scoping)
	lists        string // separator of the items of lists
	extraUnknown bool   // foreign attributes/elements at places the schema ignores
}

// both is one style on top of another.
func (s style) both(o style) style {
	v, w := reflect.ValueOf(&s).Elem(), reflect.ValueOf(o)
	for i := 0; i < v.NumField(); i++ {
		if f := w.Field(i); !f.IsZero() {
			switch x := v.Field(i).Addr().UnsafePointer(); f.Kind() {
			case reflect.Bool:
				*(*bool)(x) = f.Bool()
			case reflect.Int:
				*(*int)(x) = int(f.Int())
			case reflect.String:
				*(*string)(x) = f.String()
			}
		}
	}
	return s
}

// listAttrs are the attributes that hold lists.
var listAttrs = map[string]bool{"requiredextensions": true, "transform": true, "matindices": true, "values": true, "blendmethods": true, "pids": true, "pindices": true}

const listSep = "\uE000"

// pickStyle explores the lexical variants (one deviation each).
func pickStyle(t *mc.T) style { return styleN(t.Choose(nStyles)) }

const nStyles = 18

func styleN(n int) style {
	var s style
	switch n {
	case 1:
		s.prefixCore = true
	case 2:
		s.apos = true
	case 3:
		s.openClose = true
	case 4:
		s.ws = true
	case 5:
		s.decl = 1
	case 6:
		s.decl = 2
	case 7:
		s.revAttr = true
	case 8:
		s.charRefs = true
	case 9:
		s.decRefs = true
	case 10:
		s.localNS = true
	case 11:
		s.comments = true
	case 12:
		s.cdata = true
	case 13:
		s.crlf = true
		s.ws = true
	case 14:
		s.nsLast = true
		s.rebind = true
	case 15:
		s.lists = "\t"
	case 16:
		s.lists = "\n   "
	case 17:
		s.lists = "  "
	}
	return s
}

func esc(s string, st style) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case st.charRefs:
			fmt.Fprintf(&b, "&#x%X;", r)
		case st.decRefs:
			fmt.Fprintf(&b, "&#%d;", r)
		case r == '&':
			b.WriteString("&amp;")
		case r == '<':
			b.WriteString("&lt;")
		case r == '>':
			b.WriteString("&gt;")
		case r == '"':
			b.WriteString("&quot;")
		case r == '\'':
			b.WriteString("&apos;")
		case r == '\n' || r == '\r' || r == '\t':
			fmt.Fprintf(&b, "&#%d;", r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

const xmlNS = "http://www.w3.org/XML/1998/namespace"

// render writes the document. prefixes maps namespace URI -> prefix for every
// namespace of the tree other than the core one; they are declared on the root
// unless the root already declares them with an explicit xmlns attribute
// (A{Space:"xmlns"}).
func render(root *N, core string, prefixes map[string]string, st style) []byte {
	var b bytes.Buffer
	nl := "\n"
	if st.crlf {
		nl = "\r\n"
	}
	if st.decl > 0 {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>`)
	}
	if st.decl > 1 {
		b.WriteString(nl + `<?app some="thing" ?>`)
	}
	if st.comments {
		b.WriteString("<!-- a comment - with <markup> & stuff -->")
	}
	declared := map[string]bool{}
	used := map[string]bool{}
	var collect func(n *N)
	collect = func(n *N) {
		used[n.Space] = true
		for _, a := range n.Attr {
			used[a.Space] = true
		}
		for _, k := range n.Kids {
			collect(k)
		}
	}
	collect(root)
	var rec func(n *N, depth int, scope map[string]string, st style)
	rec = func(n *N, depth int, scope map[string]string, st style) {
		if n.Space == "" && n.Local == "#text" {
			b.WriteString(esc(n.Text, st))
			return
		}
		if !knownNS[n.Space] { // character data of foreign elements is content
			st.ws, st.comments, st.crlf = false, false, false
			if st.decl > 1 {
				st.decl = 1
			}
		}
		q := byte('"')
		if st.apos {
			q = '\''
		}
		var decls, attrs []string
		attr := func(name, val string) string {
			eq := "="
			if st.ws {
				eq = " = "
			}
			return name + eq + string(q) + esc(val, st) + string(q)
		}
		local := map[string]string{}
		for k, v := range scope {
			local[k] = v
		}
		if depth == 0 {
			if st.prefixCore {
				decls = append(decls, attr("xmlns:core", core))
			} else {
				decls = append(decls, attr("xmlns", core))
			}
			for _, a := range n.Attr {
				if a.Space == "xmlns" {
					declared[a.Value] = true
					local[a.Value] = a.Local
				}
			}
			if !st.localNS {
				var us []string
				for u := range prefixes {
					us = append(us, u)
				}
				sort.Strings(us)
				for _, u := range us {
					if !declared[u] && used[u] {
						decls = append(decls, attr("xmlns:"+prefixes[u], u))
						local[u] = prefixes[u]
					}
				}
			}
		}
		need := func(u string) string {
			if u == core {
				if st.prefixCore {
					return "core:"
				}
				return ""
			}
			if u == xmlNS {
				return "xml:"
			}
			if p, ok := local[u]; ok {
				return p + ":"
			}
			p := prefixes[u]
			if p == "" {
				panic("props: no prefix for " + u)
			}
			local[u] = p
			decls = append(decls, attr("xmlns:"+p, u))
			return p + ":"
		}
		name := n.Local
		if n.Space != "" {
			name = need(n.Space) + n.Local
		}
		for _, a := range n.Attr {
			switch a.Space {
			case "":
				if st.lists != "" && listAttrs[a.Local] && knownNS[n.Space] {
					// white space is normalized by the rules of XML
					attrs = append(attrs, strings.Replace(attr(a.Local, strings.ReplaceAll(a.Value, " ", listSep)), esc(listSep, st), st.lists, -1))
					continue
				}
				attrs = append(attrs, attr(a.Local, a.Value))
			case "xmlns":
				attrs = append(attrs, attr("xmlns:"+a.Local, a.Value))
			default:
				attrs = append(attrs, attr(need(a.Space)+a.Local, a.Value))
			}
		}
		if st.rebind && depth > 0 {
			decls = append(decls, attr("xmlns:zz", fmt.Sprintf("urn:rebound:%d", depth)))
		}
		if st.revAttr {
			// namespace declarations keep their relative order: the model's list
			// of extensions is ordered
			var plain, nsd []string
			for _, a := range attrs {
				if strings.HasPrefix(a, "xmlns:") {
					nsd = append(nsd, a)
				} else {
					plain = append([]string{a}, plain...)
				}
			}
			attrs = append(nsd, plain...)
		}
		all := append(append([]string(nil), decls...), attrs...)
		if st.nsLast {
			all = append(append([]string(nil), attrs...), decls...)
		}
		b.WriteString("<" + name)
		for _, a := range all {
			if st.ws {
				b.WriteString(nl + "\t ")
			} else {
				b.WriteByte(' ')
			}
			b.WriteString(a)
		}
		if st.ws && len(all) > 0 {
			b.WriteByte(' ')
		}
		if len(n.Kids) == 0 && n.Text == "" && !st.openClose {
			b.WriteString("/>")
			return
		}
		b.WriteString(">")
		if n.Text != "" {
			if st.cdata && !strings.Contains(n.Text, "]]>") {
				b.WriteString("<![CDATA[" + n.Text + "]]>")
			} else if st.comments && len(n.Text) > 1 {
				r := []rune(n.Text)
				b.WriteString(esc(string(r[:1]), st) + "<!-- c -->" + esc(string(r[1:]), st))
			} else if st.decl > 1 && len(n.Text) > 1 {
				r := []rune(n.Text)
				b.WriteString(esc(string(r[:1]), st) + "<?pi x?>" + esc(string(r[1:]), st))
			} else {
				b.WriteString(esc(n.Text, st))
			}
		}
		for _, k := range n.Kids {
			if st.ws {
				b.WriteString(nl + "  ")
			}
			if st.comments {
				b.WriteString("<!--<x/>-->")
			}
			if st.decl > 1 {
				b.WriteString("<?pi <x> ?>")
			}
			rec(k, depth+1, local, st)
		}
		if len(n.Kids) > 0 && st.ws {
			b.WriteString(nl)
		}
		b.WriteString("</" + name)
		if st.ws {
			b.WriteByte(' ')
		}
		b.WriteString(">")
	}
	rec(root, 0, map[string]string{}, st)
	if st.ws {
		b.WriteString(nl)
	}
	return b.Bytes()
}

// parse reads a document with the standard library and resolves namespaces
// strictly: any prefix that is not declared in scope is an error. Namespace
// declarations are dropped from the attributes except on the root.
func parse(data []byte) (*N, error) {
	d := xml.NewDecoder(bytes.NewReader(data))
	d.Strict = true
	type frame struct {
		n       *N
		ns      map[string]string
		rawNm   xml.Name
		foreign bool
	}
	var stack []frame
	var root *N
	for {
		tok, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch tk := tok.(type) {
		case xml.StartElement:
			ns := map[string]string{"xml": xmlNS}
			if len(stack) > 0 {
				for k, v := range stack[len(stack)-1].ns {
					ns[k] = v
				}
			} else if root != nil {
				return nil, fmt.Errorf("second root element %s", tk.Name.Local)
			}
			for _, a := range tk.Attr {
				if a.Name.Space == "xmlns" {
					if a.Value == "" {
						return nil, fmt.Errorf("empty namespace for prefix %s", a.Name.Local)
					}
					ns[a.Name.Local] = a.Value
				} else if a.Name.Space == "" && a.Name.Local == "xmlns" {
					ns[""] = a.Value
				}
			}
			res := func(p string) (string, error) {
				u, ok := ns[p]
				if !ok {
					return "", fmt.Errorf("undeclared prefix %q", p)
				}
				return u, nil
			}
			n := &N{Local: tk.Name.Local}
			if tk.Name.Space != "" {
				if n.Space, err = res(tk.Name.Space); err != nil {
					return nil, fmt.Errorf("element %s: %v", tk.Name.Local, err)
				}
			} else {
				n.Space = ns[""]
			}
			seen := map[A]bool{}
			for _, a := range tk.Attr {
				if a.Name.Local == "" {
					return nil, fmt.Errorf("attribute without name in %s", tk.Name.Local)
				}
				x := A{"", a.Name.Local, a.Value}
				if a.Name.Space == "xmlns" {
					x.Space = "xmlns"
				} else if a.Name.Space == "" && a.Name.Local == "xmlns" {
					x.Space = "xmlns"
					x.Local = ""
				} else if a.Name.Space != "" {
					if x.Space, err = res(a.Name.Space); err != nil {
						return nil, fmt.Errorf("attribute %s of %s: %v", a.Name.Local, tk.Name.Local, err)
					}
				}
				k := A{x.Space, x.Local, ""}
				if seen[k] {
					return nil, fmt.Errorf("duplicated attribute {%s}%s in %s", x.Space, x.Local, tk.Name.Local)
				}
				seen[k] = true
				if x.Space == "xmlns" && len(stack) > 0 {
					continue
				}
				n.Attr = append(n.Attr, x)
			}
			if len(stack) > 0 {
				p := stack[len(stack)-1].n
				p.Kids = append(p.Kids, n)
			} else {
				root = n
			}
			foreign := !knownNS[n.Space]
			if len(stack) > 0 {
				foreign = foreign || stack[len(stack)-1].foreign
			}
			stack = append(stack, frame{n: n, ns: ns, rawNm: tk.Name, foreign: foreign})
		case xml.EndElement:
			if len(stack) == 0 {
				return nil, fmt.Errorf("unexpected end element %s", tk.Name.Local)
			}
			f := stack[len(stack)-1]
			if f.rawNm != tk.Name {
				return nil, fmt.Errorf("element %v closed by %v", f.rawNm, tk.Name)
			}
			if len(f.n.Kids) > 0 && !f.foreign {
				f.n.Text = strings.TrimSpace(f.n.Text)
			}
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 && stack[len(stack)-1].foreign {
				p := stack[len(stack)-1].n
				if k := len(p.Kids); k > 0 && p.Kids[k-1].Local == "#text" {
					p.Kids[k-1].Text += string(tk)
				} else {
					p.add(&N{Local: "#text", Text: string(tk)})
				}
			} else if len(stack) > 0 {
				stack[len(stack)-1].n.Text += string(tk)
			} else if strings.TrimSpace(string(tk)) != "" {
				return nil, fmt.Errorf("character data outside the root element")
			}
		}
	}
	if len(stack) != 0 {
		return nil, fmt.Errorf("unclosed element %s", stack[len(stack)-1].n.Local)
	}
	if root == nil {
		return nil, fmt.Errorf("no root element")
	}
	return root, nil
}
