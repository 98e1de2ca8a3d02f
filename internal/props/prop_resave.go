package props

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"net/url"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

// ---- C36: what was decoded can be encoded and decoded again ----------------

// savedForm turns a decoded model into what saving it with the precision keeps.
func savedForm(m *go3mf.Model, prec int) {
	roundAll(reflect.ValueOf(m), prec)
	eachResources(m, func(_ string, rs *go3mf.Resources) {
		for _, o := range rs.Objects {
			if o.Mesh != nil {
				o.Components = nil // an object is one or the other
				for i := range o.Mesh.Triangles.Triangle {
					tr := &o.Mesh.Triangles.Triangle[i]
					if tr.PID == 0 {
						tr.PID, tr.P1, tr.P2, tr.P3 = o.PID, o.PIndex, o.PIndex, o.PIndex
					}
				}
				if b := beamlattice.GetBeamLattice(o.Mesh); b != nil {
					for i := range b.Beams.Beam {
						for k, r := range b.Beams.Beam[i].Radius {
							if !(r > 0) { // not a radius
								if k == 0 {
									b.Beams.Beam[i].Radius[k] = b.Radius
								} else {
									b.Beams.Beam[i].Radius[k] = b.Beams.Beam[i].Radius[0]
								}
							}
						}
					}
				}
			} else {
				o.PID, o.PIndex = 0, 0 // only meshes have properties
			}
		}
	})
}

var anyAttrType = reflect.TypeOf(spec.AnyAttr{})

// dropZeroAttrs removes the attributes of extensions that have no value.
func dropZeroAttrs(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			dropZeroAttrs(v.Elem())
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			dropZeroAttrs(v.MapIndex(k))
		}
	case reflect.Slice:
		if v.Type() == anyAttrType {
			var out spec.AnyAttr
			for _, a := range v.Interface().(spec.AnyAttr) {
				if p := reflect.ValueOf(a); p.Kind() != reflect.Ptr || !p.Elem().IsZero() {
					out = append(out, a)
				}
			}
			v.Set(reflect.ValueOf(out))
			return
		}
		for i := 0; i < v.Len(); i++ {
			dropZeroAttrs(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				dropZeroAttrs(v.Field(i))
			}
		}
	}
}

var matrixType = reflect.TypeOf(go3mf.Matrix{})

// roundAll rounds every number.
func roundAll(v reflect.Value, prec int) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			roundAll(v.Elem(), prec)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			roundAll(v.Index(i), prec)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			roundAll(v.MapIndex(k), prec)
		}
	case reflect.Array:
		if v.Type() == matrixType && v.CanSet() {
			v.Set(reflect.ValueOf(roundM(v.Interface().(go3mf.Matrix))))
			return
		}
		for i := 0; i < v.Len(); i++ {
			roundAll(v.Index(i), prec)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				roundAll(v.Field(i), prec)
			}
		}
	case reflect.Float32:
		if v.CanSet() {
			f := roundF(float32(v.Float()), prec)
			if f == 0 {
				f = 0
			}
			v.SetFloat(float64(f))
		}
	}
}

// savedText is the content of a model after saving it. The order of foreign
// attributes is not information.
func savedText(m *go3mf.Model, prec int) string {
	savedForm(m, prec)
	canonModel(m)
	canonAttrs(m, true)
	dropZeroAttrs(reflect.ValueOf(m))
	sort.Slice(m.Attachments, func(i, j int) bool { return m.Attachments[i].Path < m.Attachments[j].Path })
	return dump(m)
}

func sameSaved(t *mc.T, m1, m2 *go3mf.Model, doc []byte) {
	w, g := savedText(m1, 4), savedText(m2, 4)
	t.State(g)
	if w != g {
		t.Failf("resave: "+firstDiffLine(w, g), "%s\n%s", diff(w, g), doc)
	}
}

// goodNames tells whether all names are without colons and start with letters.
func goodNames(n *N) bool {
	ok := func(s string) bool {
		return s == "" || s[0] == '#' || !strings.Contains(s, ":") && (s[0] == '_' || s[0] >= 'A' && s[0] <= 'Z' || s[0] >= 'a' && s[0] <= 'z' || s[0] >= 0x80)
	}
	for _, r := range walkN(n) {
		if !ok(r.n.Local) {
			return false
		}
		for _, a := range r.n.Attr {
			if !ok(a.Local) {
				return false
			}
		}
	}
	return true
}

// goodDoc tells whether the document is well-formed with respect to namespaces.
func goodDoc(doc []byte) bool {
	n, err := parse(doc)
	return err == nil && goodNames(n) && !noNamespace.Match(doc)
}

var noNamespace = regexp.MustCompile(`xmlns:\w+=(""|'')`)

func resaveDoc(t *mc.T, doc []byte) {
	t.Step()
	m1 := new(go3mf.Model)
	if err := go3mf.UnmarshalModel(doc, m1); err != nil {
		return
	}
	if !goodDoc(doc) {
		return // read in spite of its names
	}
	t.Step()
	b1, err := go3mf.MarshalModel(m1)
	if err != nil {
		t.Failf("resave: cannot be encoded", "%v", err)
	}
	t.Logf("saved as:\n%s", b1)
	m2 := new(go3mf.Model)
	if err := go3mf.UnmarshalModel(b1, m2); err != nil {
		t.Failf("resave: cannot be decoded", "%v\n%s", err, b1)
	}
	b2, err := go3mf.MarshalModel(m2)
	if err != nil {
		t.Failf("resave: cannot be encoded again", "%v", err)
	}
	sameSaved(t, m1, m2, b1)
	if !bytes.Equal(b1, b2) {
		t.Failf("resave: differs when saved again", "%s", window(string(b1), string(b2)))
	}
}

// resavePkg reads a package, strictly or not, writes it, and reads that.
func resavePkg(t *mc.T, data []byte, strict bool) {
	t.Step()
	m1, err := decodePackage(data, strict)
	if err != nil {
		return
	}
	t.Step()
	d1, err := encodePackage(m1, 4)
	if oddTargets(m1) {
		return // it would not be a package
	}
	if err != nil {
		t.Failf("resave: cannot be encoded", "%v", err)
	}
	m1, _ = decodePackage(data, strict) // with the attachments to be read
	m2, err := decodePackage(d1, true)
	if err != nil {
		t.Failf("resave: cannot be decoded", "%v", err)
	}
	d2, err := encodePackage(m2, 4)
	if err != nil {
		t.Failf("resave: cannot be encoded again", "%v", err)
	}
	m2, _ = decodePackage(d1, true)
	r1, r2 := takeRels(m1), takeRels(m2)
	for r := range r1 {
		if !r2[r] {
			t.Failf("resave: a relationship is lost", "%s of %v, now %v", r, r1, r2)
		}
	}
	sameSaved(t, m1, m2, nil)
	p1, err1 := openPkg(d1)
	p2, err2 := openPkg(d2)
	if err1 != nil || err2 != nil {
		t.Failf("resave: package", "%v %v", err1, err2)
	}
	if a, b := partsOf(p1), partsOf(p2); a != b {
		t.Failf("resave: differs when saved again", "%s", window(a, b))
	}
}

// partsOf is the content of a package. Orders and identifiers are not information.
func partsOf(p *pkg) string {
	rels := func(rs []pkgRel) {
		for i := range rs {
			rs[i].ID = ""
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].Type+" "+rs[i].Target < rs[j].Type+" "+rs[j].Target })
	}
	rels(p.Rels)
	for i := range p.Parts {
		rels(p.Parts[i].Rels)
	}
	sort.SliceStable(p.Parts, func(i, j int) bool { return p.Parts[i].Name < p.Parts[j].Name })
	return dump(p)
}

// window shows where two texts start to differ.
func window(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, i-200):min(len(s), i+200)] }
	return fmt.Sprintf("at %d:\n%s\n---\n%s", i, cut(a), cut(b))
}

// takeRels removes the relationships from the model. Encoding adds those to
// thumbnails and textures.
func takeRels(m *go3mf.Model) map[string]bool {
	out := map[string]bool{}
	take := func(from string, rs []go3mf.Relationship) {
		for _, r := range rs {
			out[from+" -> "+r.Path+" "+r.Type] = true
		}
	}
	take("package", m.RootRelationships)
	take("model", m.Relationships)
	m.RootRelationships, m.Relationships = nil, nil
	for p, c := range m.Childs {
		take(p, c.Relationships)
		c.Relationships = nil
	}
	return out
}

// oddTargets tells whether a part, thumbnail, texture or relationship has a name or
// target that is no part name, or a relationship has no type.
func oddTargets(m *go3mf.Model) bool {
	odd := func(s string) bool {
		if s == "" {
			return false
		}
		u, err := url.Parse(s)
		return err != nil || u.Scheme != "" || u.Host != "" || u.Fragment != "" || u.RawQuery != "" ||
			strings.Contains(s, "//") || strings.HasSuffix(s, "/") || strings.HasSuffix(s, ".") || strings.Contains(s, "/.") ||
			strings.ContainsAny(s, "\\\" <>{}|^`%#?") || !isPrintable(s)
	}
	bad := odd(m.Thumbnail) || odd(m.Path)
	for p := range m.Childs {
		bad = bad || odd(p)
	}
	for _, a := range m.Attachments {
		bad = bad || odd(a.Path)
	}
	types := func(rs []go3mf.Relationship) {
		for _, r := range rs {
			bad = bad || strings.TrimSpace(r.Type) == "" || odd(r.Path)
		}
	}
	types(m.RootRelationships)
	types(m.Relationships)
	for _, c := range m.Childs {
		types(c.Relationships)
	}
	eachResources(m, func(_ string, rs *go3mf.Resources) {
		for _, o := range rs.Objects {
			bad = bad || odd(o.Thumbnail)
		}
		for _, a := range rs.Assets {
			if x, ok := a.(*materials.Texture2D); ok {
				bad = bad || x.Path == "" || odd(x.Path)
			}
		}
	})
	return bad
}

func isPrintable(s string) bool {
	for _, r := range s {
		if r < 0x20 || r > 0x7e {
			return false
		}
	}
	return true
}

func resaveChange(t *mc.T) {
	base, _ := hostileTree()
	all, _ := mutations()
	root := base.clone()
	what := "nothing"
	if k := t.Free(len(all) + 1); k > 0 {
		all[k-1].do(root)
		what = all[k-1].what
	}
	t.Case(what)
	t.Logf("%s", what)
	resaveOne(t, root)
}

func resaveOne(t *mc.T, root *N) {
	doc := render(root, nsCore, prefixes, styleN(0))
	t.Logf("%s", doc)
	if t.Free(2) == 1 {
		if !goodDoc(doc) {
			t.Skip()
		}
		resavePkg(t, childPackage(doc), true)
		return
	}
	resaveDoc(t, doc)
}

// childPackage has the document as a child model.
func childPackage(doc []byte) []byte {
	p := &pkg{Rels: []pkgRel{{Target: go3mf.DefaultModelPath, Type: rtModel, ID: "r0"}}}
	p.Parts = []pkgPart{
		{Name: go3mf.DefaultModelPath, CT: ctModel, Data: []byte(scaleDoc("", "", "")), Rels: []pkgRel{{Target: "/3D/c.model", Type: rtModel, ID: "a"}}},
		{Name: "/3D/c.model", CT: ctModel, Data: doc},
	}
	return p.build(zip.Store)
}

// attrOf is one of the values of an attribute, or no attribute.
func attrOf(t *mc.T, name string, values ...string) string {
	k := t.Free(len(values) + 1)
	if k == 0 {
		return ""
	}
	return fmt.Sprintf(" %s=%q", name, values[k-1])
}

// resaveIndices are the references of triangles, segments and beams.
func resaveIndices(t *mc.T) {
	const vs = `<vertex x="0" y="0" z="0"/><vertex x="1" y="0" z="0"/><vertex x="0" y="1" z="0"/><vertex x="0" y="0" z="1"/>`
	const groups = `<basematerials id="7"><base name="a" displaycolor="#112233"/><base name="b" displaycolor="#112234"/><base name="c" displaycolor="#112235"/></basematerials>`
	var res string
	switch t.Free(3) {
	case 0:
		o := `<object id="1"` + attrOf(t, "pid", "7") + attrOf(t, "pindex", "0", "1") + `>`
		var trs string
		for n := 1 + t.Free(2); n > 0; n-- {
			a := attrOf(t, "pid", "7", "8")
			if a != "" || n == 1 {
				a += attrOf(t, "p1", "0", "1", "2") + attrOf(t, "p2", "0", "1", "2") + attrOf(t, "p3", "0", "1", "2")
			}
			trs += `<triangle v1="0" v2="1" v3="2"` + a + `/>`
		}
		res = groups + o + `<mesh><vertices>` + vs + `</vertices><triangles>` + trs + `</triangles></mesh></object>`
	case 1:
		var segs string
		for n := 1 + t.Free(2); n > 0; n-- {
			segs += `<s:segment v2="1"` + attrOf(t, "pid", "7", "0") + attrOf(t, "p1", "0", "1", "2") + attrOf(t, "p2", "0", "1", "2") + `/>`
		}
		res = groups + `<s:slicestack id="1"><s:slice ztop="1"><s:vertices><s:vertex x="0" y="0"/><s:vertex x="1" y="0"/></s:vertices><s:polygon startv="0">` + segs + `</s:polygon></s:slice></s:slicestack>`
	case 2:
		var beams string
		for n := 1 + t.Free(2); n > 0; n-- {
			beams += `<b:beam v1="0" v2="1"` + attrOf(t, "r1", "0.5", "1", "2") + attrOf(t, "r2", "0.5", "1", "2") + attrOf(t, "cap1", "hemisphere", "sphere", "butt") + attrOf(t, "cap2", "hemisphere", "sphere", "butt") + `/>`
		}
		l := `<b:beamlattice radius="1" minlength="0.1"` + attrOf(t, "cap", "hemisphere", "sphere", "butt") + `>`
		res = groups + `<object id="1"><mesh><vertices>` + vs + `</vertices>` + l + `<b:beams>` + beams + `</b:beams></b:beamlattice></mesh></object>`
	}
	doc := scaleDoc("", res, "")
	t.Case(doc)
	t.Logf("%s", doc)
	resaveDoc(t, []byte(doc))
}

func resavePairs(t *mc.T) {
	base, _ := hostileTree()
	_, few := mutations()
	root := base.clone()
	a := t.Free(len(few))
	if a+1 == len(few) {
		t.Skip()
	}
	b := a + 1 + t.Free(len(few)-a-1)
	if t.Tier != "thorough" && (a+b)%5 != 0 {
		t.Skip()
	}
	func() {
		defer func() { recover() }() // the second place can be gone
		few[b].do(root)
		few[a].do(root)
	}()
	t.Case(few[a].what + ", " + few[b].what)
	doc := render(root, nsCore, prefixes, styleN(0))
	t.Logf("%s", doc)
	resaveDoc(t, doc)
}

func resaveBytes(t *mc.T) {
	base, _ := hostileTree()
	doc := render(base, nsCore, prefixes, styleN(0))
	i := t.Free(len(doc))
	out := append([]byte(nil), doc...)
	out[i] = mc.Each(t, byte('"'), '&', '/', '9', ':', ' ', 'a', '-')
	t.Case(fmt.Sprint(i, out[i]))
	resaveDoc(t, out)
}

// rootModels is the number of relationships of a package to models.
func rootModels(data []byte) (n int) {
	z, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return 0
	}
	for _, f := range z.File {
		if !strings.EqualFold(f.Name, "_rels/.rels") {
			continue
		}
		if r, err := f.Open(); err == nil {
			b, _ := io.ReadAll(r)
			n += bytes.Count(b, []byte(rtModel))
			r.Close()
		}
	}
	return n
}

func resavePackages(t *mc.T) {
	data := changedPackage(t)
	if rootModels(data) > 1 {
		t.Skip() // which is the model?
	}
	resavePkg(t, data, t.Free(2) == 0)
}

func init() {
	register(&mc.Property{
		ID:          "C36",
		Method:      "exhaustive enumeration of changes of a document and a package that have everything, through the real decoder, encoder and decoder again",
		Rule:        "What is decoded without error can be encoded; decoding that gives the same model, up to the precision of numbers; encoding it once more gives the same parts.",
		Assumptions: []string{"numbers are rounded to the precision of the encoder, transforms to three decimals", "an object with a mesh has no components, properties of objects without mesh are not written", "radii that are not positive are those of the lattice", "packages have one root model and all relationships have types", "documents that are not well-formed with respect to namespaces are not judged"},
		Scenarios: []mc.Scenario{
			{Name: "changes", Bound: "every change of every element and attribute of a document, as root and as child model", Run: resaveChange},
			{Name: "two changes", Bound: "a fifth (thorough: all) of the pairs of removals and numbers", Run: resavePairs},
			{Name: "indices", Bound: "one or two triangles, segments and beams with every choice of present and absent references, radii and caps", Run: resaveIndices},
			{Name: "bytes", Bound: "every byte of the document replaced by 8 others", Run: resaveBytes},
			{Name: "packages", Bound: "one (thorough: two) of the changes of parts and relationships of a package, strict or not", K: 1, KT: 2, Run: resavePackages},
		},
	})
}
