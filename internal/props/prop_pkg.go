package props

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"image/color"
	"path"
	"sort"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

const rtOther = "http://example.com/other"

// genPkg builds a model spread over parts, with attachments and relationships.
func genPkg(t *mc.T) *go3mf.Model {
	m := &go3mf.Model{Path: mc.Pick(t, "/3D/3dmodel.model", "", "/model.model", "/a/b/c.model", "/3D/Other.model")}
	m.Extensions = []go3mf.Extension{materials.DefaultExtension, extQ, extR}
	o := tetra(1)
	m.Resources.Objects = []*go3mf.Object{o}
	m.Build.Items = []*go3mf.Item{{ObjectID: 1}}
	kids := mc.Pick(t, 1, 0, 2, 3)
	var names []string
	if kids > 0 {
		m.Childs = map[string]*go3mf.ChildModel{}
	}
	for i := 0; i < kids; i++ {
		name := mc.Pick(t,
			[]string{"/3D/c0.model", "/other/c1.model", "/3D/sub/c2.model"}[i],
			fmt.Sprintf("c%d.model", i), fmt.Sprintf("sub/deep/c%d.model", i), fmt.Sprintf("/c%d.model", i), fmt.Sprintf("/3D/mod%%20el%d.model", i),
			fmt.Sprintf("/3D/x.y%d", i))
		ob := tetra(uint32(10 + i))
		ob.Name = name
		c := &go3mf.ChildModel{Resources: go3mf.Resources{Objects: []*go3mf.Object{ob}}}
		switch t.Choose(6) {
		case 1:
			ob.Thumbnail = "/Thumbnails/o.png"
		case 2:
			c.Resources.Assets = []go3mf.Asset{&go3mf.BaseMaterials{ID: 1, Materials: []go3mf.Base{{Name: "x", Color: color.RGBA{1, 2, 3, 255}}}}}
		case 3:
			c.Any = spec.Any{ptr(unknownTokens(2))}
		case 4:
			c.Resources.AnyAttr = spec.AnyAttr{&spec.UnknownAttrs{Space: nsQ, Attr: []xml.Attr{qattr("k", "v")}}}
			ob.Mesh.Any = spec.Any{ptr(unknownTokens(0))}
		case 5:
			c.Resources = go3mf.Resources{}
		}
		m.Childs[name] = c
		names = append(names, name)
	}
	nat := mc.Pick(t, 2, 0, 1, 3)
	paths := []string{"/3D/Texture/a.png", "/Thumbnails/o.png", "/Metadata/data.bin"}
	for i := 0; i < nat; i++ {
		p := mc.Pick(t, paths[i], fmt.Sprintf("/x%d", i), fmt.Sprintf("/3D/Deep/er/n%d.model", i), fmt.Sprintf("/a%%20b/%d.xml", i))
		a := go3mf.Attachment{Path: p, ContentType: mc.Pick(t, "image/png", "application/octet-stream", "text/plain; charset=utf-8")}
		a.Stream = stream(mc.Pick(t, "data"+fmt.Sprint(i), "", "<xml>&\x00\xff", strings.Repeat("0123456789abcdef", 5000)))
		m.Attachments = append(m.Attachments, a)
		rel := func(typ string) go3mf.Relationship {
			return go3mf.Relationship{Path: p, Type: typ, ID: mc.Pick(t, "", fmt.Sprintf("id%d", i), fmt.Sprintf("rId%d", i))}
		}
		k := t.Choose(7)
		if i == 1 {
			k = (k + 1) % 7
		}
		switch k {
		case 0:
			m.Relationships = append(m.Relationships, rel(rtTex))
		case 1:
			m.RootRelationships = append(m.RootRelationships, rel(rtThumb))
		case 2:
			if kids == 0 {
				t.Skip()
			}
			c := m.Childs[names[kids-1]]
			c.Relationships = append(c.Relationships, rel(rtOther))
		case 3: // unreachable
		case 4: // from everywhere
			m.RootRelationships = append(m.RootRelationships, rel(rtThumb))
			m.Relationships = append(m.Relationships, rel(rtOther))
			for _, n := range names {
				m.Childs[n].Relationships = append(m.Childs[n].Relationships, rel(rtOther))
			}
		case 5: // two types
			r := go3mf.Relationship{Path: p, Type: rtTex}
			m.Relationships = append(m.Relationships, rel(rtOther), r)
		case 6:
			m.Relationships = append(m.Relationships, rel(rtOther))
			m.Resources.Assets = append(m.Resources.Assets, &materials.Texture2D{ID: uint32(20 + i), Path: p, ContentType: materials.TextureTypePNG})
		}
	}
	switch t.Choose(5) {
	case 1:
		m.Thumbnail = "/Thumbnails/o.png"
	case 2:
		o.Thumbnail = "/Thumbnails/o.png"
	case 3:
		m.Thumbnail, o.Thumbnail = "/Thumbnails/o.png", "/Thumbnails/missing.png"
	case 4: // a relationship of another kind to a thumbnail
		o.Thumbnail = "/Thumbnails/o.png"
		m.Relationships = append(m.Relationships, go3mf.Relationship{Path: o.Thumbnail, Type: rtOther})
	}
	return m
}

func ptr[V any](v V) *V { return &v }

// wantRels are the relationships the encoder must write.
func wantRels(m *go3mf.Model) (root, main []go3mf.Relationship, kids map[string][]go3mf.Relationship) {
	once := func(rs []go3mf.Relationship) (out []go3mf.Relationship) { // given twice, written once
	next:
		for _, r := range rs {
			for _, o := range out {
				if o.Path == r.Path && o.Type == r.Type {
					continue next
				}
			}
			out = append(out, r)
		}
		return
	}
	root = once(m.RootRelationships)
	add := func(rs []go3mf.Relationship, p, typ string) []go3mf.Relationship {
		for _, r := range rs {
			if r.Path == p && r.Type == typ {
				return rs
			}
		}
		return append(rs, go3mf.Relationship{Path: p, Type: typ})
	}
	root = add(root, m.PathOrDefault(), rtModel)
	if m.Thumbnail != "" {
		root = add(root, m.Thumbnail, rtThumb)
	}
	res := func(rs []go3mf.Relationship, r *go3mf.Resources) []go3mf.Relationship {
		for _, a := range r.Assets {
			if x, ok := a.(*materials.Texture2D); ok {
				rs = add(rs, x.Path, rtTex)
			}
		}
		for _, o := range r.Objects {
			has := o.Thumbnail == ""
			for _, x := range rs { // see thumbRelationship
				has = has || x.Path == o.Thumbnail
			}
			if !has {
				rs = append(rs, go3mf.Relationship{Path: o.Thumbnail, Type: rtThumb})
			}
		}
		return rs
	}
	main = once(m.Relationships)
	for p := range m.Childs {
		main = add(main, p, rtModel)
	}
	main = res(main, &m.Resources)
	kids = map[string][]go3mf.Relationship{}
	for p, c := range m.Childs {
		kids[p] = res(once(c.Relationships), &c.Resources)
	}
	return
}

// relStrings renders relationships as a sorted set; unspecified ids are not
// compared: each want is matched with a have of the same target and type.
func matchRels(t *mc.T, what string, want []go3mf.Relationship, have []pkgRel) {
	left := append([]pkgRel(nil), have...)
	for _, w := range want {
		ok := false
		for i, h := range left {
			if h.Target == w.Path && h.Type == w.Type && (w.ID == "" || w.ID == h.ID) {
				left = append(left[:i:i], left[i+1:]...)
				ok = true
				break
			}
		}
		if !ok {
			t.Failf("relationships lost "+what, "%s: no relationship %+v\nwant %+v\nhave %+v", what, w, want, have)
		}
	}
	if len(left) > 0 {
		t.Failf("relationships added "+what, "%s: unexpected relationships %+v\nwant %+v\nhave %+v", what, left, want, have)
	}
}

func toPkgRels(rs []go3mf.Relationship) (out []pkgRel) {
	for _, r := range rs {
		out = append(out, pkgRel{r.Path, r.Type, r.ID})
	}
	return
}

// checkPackage compares an encoded package with the model it was made of.
func checkPackage(t *mc.T, m *go3mf.Model, data []byte) *pkg {
	p, err := openPkg(data)
	if err != nil {
		t.Failf("invalid package", "%v", err)
	}
	root, main, kids := wantRels(m)
	matchRels(t, "package", root, p.Rels)
	seen := map[string]bool{}
	part := func(name, ct string) *pkgPart {
		x := p.find(name)
		if x == nil {
			t.Failf("part lost", "package has no part %s", name)
		}
		if x.Name != name {
			t.Failf("part renamed", "part %s is named %s", name, x.Name)
		}
		if x.CT != ct {
			t.Failf("content type", "part %s has content type %q, want %q", name, x.CT, ct)
		}
		seen[x.Name] = true
		return x
	}
	x := part(m.PathOrDefault(), ctModel)
	matchRels(t, "root model", main, x.Rels)
	f := form{prec: 4}
	checkDoc(t, "root", x.Data, f.root(m))
	for name, c := range m.Childs {
		x := part(resolve(m.PathOrDefault(), name), ctModel)
		matchRels(t, "child model", kids[name], x.Rels)
		tree, err := parse(x.Data)
		if err != nil {
			t.Failf("malformed child", "%v\n%s", err, x.Data)
		}
		if w, g := childAttrs(semantic(f.child(m, c))).canon(), childAttrs(semantic(tree)).canon(); w != g {
			t.Failf("document child", "%s\n--- document\n%s", diff(w, g), x.Data)
		}
	}
	for i := range m.Attachments {
		a := &m.Attachments[i]
		x := part(a.Path, a.ContentType)
		if !bytes.Equal(x.Data, attachmentBytes(a)) {
			t.Failf("attachment content", "part %s: %q instead of %q", a.Path, clip(x.Data), clip(attachmentBytes(a)))
		}
		if len(x.Rels) > 0 {
			t.Failf("attachment relationships", "part %s has relationships %+v", a.Path, x.Rels)
		}
	}
	for _, x := range p.Parts {
		if !seen[x.Name] {
			t.Failf("part added", "unexpected part %s", x.Name)
		}
	}
	return p
}

func clip(b []byte) string {
	if len(b) > 60 {
		return string(b[:60]) + "..."
	}
	return string(b)
}

// samePart says whether two part names are equivalent.
func samePart(a, b string) bool { return strings.EqualFold(a, b) }

// wantDecoded is what decoding the package of m yields.
func wantDecoded(m *go3mf.Model) *go3mf.Model {
	root, main, kids := wantRels(m)
	w := *m
	w.Path = m.PathOrDefault()
	exists := func(source, target string) string {
		n := resolve(source, target)
		for _, a := range m.Attachments {
			if samePart(a.Path, n) {
				return a.Path
			}
		}
		return ""
	}
	reach := map[string]bool{}
	keep := func(source string, rs []go3mf.Relationship) (out []go3mf.Relationship) {
		for _, r := range rs {
			if r.Type == rtModel {
				continue
			}
			if a := exists(source, r.Path); a != "" {
				reach[a] = true
				out = append(out, r)
			}
		}
		return
	}
	w.RootRelationships = keep("/", root)
	w.Relationships = keep(w.Path, main)
	w.Childs = nil
	for n, c := range m.Childs {
		if w.Childs == nil {
			w.Childs = map[string]*go3mf.ChildModel{}
		}
		x := *c
		full := resolve(w.Path, n)
		x.Relationships = keep(full, kids[n])
		w.Childs[full] = &x
	}
	w.Attachments = nil
	for _, a := range m.Attachments {
		if reach[a.Path] {
			w.Attachments = append(w.Attachments, a)
		}
	}
	normalize(&w, 4)
	return &w
}

// matchModel compares a decoded multi-part model with what is wanted.
func matchModel(t *mc.T, what string, want, got *go3mf.Model) {
	cmp := func(part string, w, g []go3mf.Relationship) { matchRels(t, what+" "+part, w, toPkgRels(g)) }
	cmp("RootRelationships", want.RootRelationships, got.RootRelationships)
	cmp("Relationships", want.Relationships, got.Relationships)
	strip := func(m *go3mf.Model) string {
		x := *m
		x.RootRelationships, x.Relationships = nil, nil
		x.Attachments = append([]go3mf.Attachment(nil), x.Attachments...)
		sort.Slice(x.Attachments, func(i, j int) bool { return x.Attachments[i].Path < x.Attachments[j].Path })
		x.Childs = map[string]*go3mf.ChildModel{}
		for n, c := range m.Childs {
			y := *c
			y.Relationships = nil
			x.Childs[n] = &y
		}
		canonModel(&x)
		canonAttrs(&x, false)
		return dump(&x)
	}
	w, g := strip(want), strip(got)
	if w != g {
		t.Failf(what+" "+firstDiffLine(w, g), "%s", diff(w, g))
	}
	for n, c := range want.Childs {
		cmp("child relationships", c.Relationships, got.Childs[n].Relationships)
	}
	t.State(g)
}

func pkgEncode(t *mc.T) {
	m := genPkg(t)
	t.Case(dump(m))
	t.Logf("model:\n%s", dump(m))
	data := mustEncode(t, m, 4)
	rewind(m)
	checkPackage(t, m, data)
	t.Sample("path=%q childs=%d attachments=%d", m.Path, len(m.Childs), len(m.Attachments))
}

// pkgNames gives two or three parts any names that resemble each other, and any role.
func pkgNames(t *mc.T) {
	names := []string{"/a/x.png", "/b/x.png", "/x.png", "/a/x.jpg", "/a/x", "/a/xx.png", "/3D/x.png", "/a/b/x.png", "/x/3dmodel.model", "/3D/3dmodel.model2", "/3D/dmodel.model"}
	m := &go3mf.Model{Path: mc.Each(t, "", "/a/3dmodel.model")}
	m.Resources.Objects = []*go3mf.Object{tetra(1)}
	m.Build.Items = []*go3mf.Item{{ObjectID: 1}}
	m.Childs = map[string]*go3mf.ChildModel{}
	anchor := &go3mf.ChildModel{Resources: go3mf.Resources{Objects: []*go3mf.Object{tetra(3)}}}
	m.Childs["/3D/c.model"] = anchor
	types := t.Free(2) == 0
	parts := 2
	if t.Tier == "thorough" {
		parts = 3
	}
	for i := 0; i < parts; i++ {
		k := t.Free(len(names))
		n := names[k]
		names = append(names[:k:k], names[k+1:]...)
		if role := t.Free(5); role == 0 {
			o := tetra(uint32(10 + i))
			o.Name = n
			m.Childs[n] = &go3mf.ChildModel{Resources: go3mf.Resources{Objects: []*go3mf.Object{o}}}
		} else {
			ct := "image/png"
			if types {
				ct = "text/" + string('a'+rune(i))
			}
			m.Attachments = append(m.Attachments, go3mf.Attachment{Path: n, ContentType: ct, Stream: stream("content of " + n)})
			rel := go3mf.Relationship{Path: n, Type: rtOther}
			switch role {
			case 1:
				m.Relationships = append(m.Relationships, rel)
			case 2:
				m.RootRelationships = append(m.RootRelationships, rel)
			case 3:
				anchor.Relationships = append(anchor.Relationships, rel)
			case 4:
				m.Relationships = append(m.Relationships, rel)
				anchor.Relationships = append(anchor.Relationships, rel)
			}
		}
	}
	t.Case(dump(m))
	t.Logf("model:\n%s", dump(m))
	data := mustEncode(t, m, 4)
	rewind(m)
	checkPackage(t, m, data)
	rewind(m)
	got, err := decodePackage(data, true)
	if err != nil {
		t.Failf("decode-error", "%v", err)
	}
	matchModel(t, "roundtrip", wantDecoded(m), got)
}

func rewind(m *go3mf.Model) {
	for i := range m.Attachments {
		if s, ok := m.Attachments[i].Stream.(*memStream); ok {
			s.off = 0
		}
	}
}

func pkgRoundtrip(t *mc.T) {
	m := genPkg(t)
	strict := t.Free(2) == 0
	t.Case(dump(m))
	t.Logf("model:\n%s", dump(m))
	data := mustEncode(t, m, 4)
	got, err := decodePackage(data, strict)
	if err != nil {
		t.Failf("decode-error", "%v", err)
	}
	matchModel(t, "roundtrip", wantDecoded(m), got)
	// and again
	data, err = encodePackage(got, 4)
	if err != nil {
		t.Failf("re-encode-error", "%v", err)
	}
	dump(got) // rereads nothing: keeps the attachment contents
	for i := range got.Attachments {
		got.Attachments[i].Stream = m.Attachments[indexOf(m, got.Attachments[i].Path)].Stream
	}
	again, err := decodePackage(data, strict)
	if err != nil {
		t.Failf("decode-error", "second decoding: %v", err)
	}
	matchModel(t, "second roundtrip", wantDecoded(got), again)
	t.Sample("path=%q childs=%d attachments=%d", m.Path, len(m.Childs), len(m.Attachments))
}

func indexOf(m *go3mf.Model, p string) int {
	for i, a := range m.Attachments {
		if samePart(a.Path, p) {
			return i
		}
	}
	return 0
}

// relTarget writes the target of a relationship in one of its equivalent forms.
func relTarget(source, target string, kind int) string {
	switch kind {
	case 1: // relative to the folder of the source
		a := strings.Split(strings.Trim(path.Dir(source), "/"), "/")
		if a[0] == "" {
			a = nil
		}
		b := strings.Split(strings.TrimPrefix(target, "/"), "/")
		for len(a) > 0 && len(b) > 1 && a[0] == b[0] {
			a, b = a[1:], b[1:]
		}
		return strings.Repeat("../", len(a)) + strings.Join(b, "/")
	case 2:
		return strings.ToUpper(target)
	case 3:
		return "/./" + strings.TrimPrefix(target, "/")
	}
	return target
}

// pkgDecode decodes packages written by an independent writer.
func pkgDecode(t *mc.T) {
	m := genPkg(t)
	m.Path = m.PathOrDefault()
	for n, c := range m.Childs { // names as found in the package
		if full := resolve(m.Path, n); full != n {
			delete(m.Childs, n)
			m.Childs[full] = c
		}
	}
	t.Case(dump(m))
	root, main, kids := wantRels(m)
	f := form{prec: 4}
	kind := t.Choose(4)
	style := styleN(0)
	p := &pkg{}
	rewrite := func(source string, rs []go3mf.Relationship) (out []pkgRel) {
		for i := range rs {
			rs[i].Path = relTarget(source, rs[i].Path, kind)
			if rs[i].ID == "" {
				rs[i].ID = fmt.Sprintf("n%d", i)
			}
			out = append(out, pkgRel{rs[i].Path, rs[i].Type, rs[i].ID})
		}
		return
	}
	if t.Flip() { // relationships in reverse order
		for _, rs := range append([][]go3mf.Relationship{root, main}, vals(kids)...) {
			for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
				rs[i], rs[j] = rs[j], rs[i]
			}
		}
	}
	if t.Flip() { // relationships to parts that do not exist
		bad := go3mf.Relationship{Path: "/nowhere.png", Type: rtOther, ID: "zz"}
		root, main = append(root, bad), append(main, bad)
		for n := range kids {
			kids[n] = append(kids[n], bad)
		}
	}
	p.Rels = rewrite("/", root)
	p.Parts = append(p.Parts, pkgPart{Name: m.Path, CT: ctModel, Data: render(f.root(m), nsCore, prefixes, style), Rels: rewrite(m.Path, main)})
	var names []string
	for n := range m.Childs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		p.Parts = append(p.Parts, pkgPart{Name: n, CT: ctModel, Data: render(f.child(m, m.Childs[n]), nsCore, prefixes, style), Rels: rewrite(n, kids[n])})
	}
	for i := range m.Attachments {
		a := &m.Attachments[i]
		p.Parts = append(p.Parts, pkgPart{Name: a.Path, CT: a.ContentType, Data: attachmentBytes(a)})
	}
	if t.Flip() { // parts nobody refers to
		p.Parts = append(p.Parts, pkgPart{Name: "/Unused/u.bin", CT: "application/octet-stream", Data: []byte("u")},
			pkgPart{Name: "/3D/unused.model", CT: ctModel, Data: []byte("not even xml")})
	}
	if t.Flip() {
		for i, j := 0, len(p.Parts)-1; i < j; i, j = i+1, j-1 {
			p.Parts[i], p.Parts[j] = p.Parts[j], p.Parts[i]
		}
	}
	p.Defaults, p.Dirs = t.Flip(), t.Flip()
	method := mc.Pick(t, zip.Store, zip.Deflate)
	data := p.build(method)
	t.Logf("kind %d method %d package: %+v", kind, method, p.Parts)
	m.RootRelationships, m.Relationships = root, main
	for n := range kids {
		m.Childs[n].Relationships = kids[n]
	}
	got, err := decodePackage(data, true)
	if err != nil {
		t.Failf("decode-error", "%v", err)
	}
	w := wantWritten(m)
	matchModel(t, "decode", w, got)
	t.Sample("kind=%d childs=%d attachments=%d", kind, len(m.Childs), len(m.Attachments))
}

func vals(m map[string][]go3mf.Relationship) (out [][]go3mf.Relationship) {
	for _, v := range m {
		out = append(out, v)
	}
	return
}

// wantWritten is wantDecoded for relationships that are already complete.
func wantWritten(m *go3mf.Model) *go3mf.Model {
	x := *m
	w := wantDecoded(&x)
	only := func(have, given []go3mf.Relationship) (out []go3mf.Relationship) {
		for _, r := range have {
			for _, g := range given {
				if r == g {
					out = append(out, r)
					break
				}
			}
		}
		return
	}
	w.RootRelationships = only(w.RootRelationships, m.RootRelationships)
	w.Relationships = only(w.Relationships, m.Relationships)
	for n, c := range w.Childs {
		c.Relationships = only(c.Relationships, m.Childs[n].Relationships)
	}
	return w
}

// thumbRelationship: an object's thumbnail that is also the target of another
// relationship needs a thumbnail relationship of its own.
func thumbRelationship(t *mc.T) {
	typ := mc.Each(t, rtTex, rtOther)
	child := t.Free(2) == 1
	o := tetra(1)
	o.Thumbnail = "/Thumbnails/o.png"
	m := &go3mf.Model{Attachments: []go3mf.Attachment{{Path: o.Thumbnail, ContentType: "image/png", Stream: stream("x")}}}
	rs := []go3mf.Relationship{{Path: o.Thumbnail, Type: typ}}
	part := m.PathOrDefault()
	if child {
		part = "/3D/c.model"
		m.Resources.Objects = []*go3mf.Object{tetra(1)}
		m.Childs = map[string]*go3mf.ChildModel{part: {Relationships: rs, Resources: go3mf.Resources{Objects: []*go3mf.Object{o}}}}
	} else {
		m.Resources.Objects = []*go3mf.Object{o}
		m.Relationships = rs
	}
	t.Case(dump(m))
	p, err := openPkg(mustEncode(t, m, 4))
	if err != nil {
		t.Failf("invalid package", "%v", err)
	}
	for _, r := range p.find(part).Rels {
		if r.Target == o.Thumbnail && r.Type == rtThumb {
			return
		}
	}
	t.Failf("no thumbnail relationship for a part with another relationship", "%s: %+v", part, p.find(part).Rels)
}

// pkgMoreRels adds a relationship to a package, at any place of any list: to any part or to
// none, of any type. Relationships between models say no more when there is one already, or
// when they come from a child; others are kept, and make no attachments of models.
func pkgMoreRels(t *mc.T) {
	p := packageOf(smallMulti(), 0)
	decode := func() (*go3mf.Model, error) {
		m, err := decodePackage(p.build(zip.Store), true)
		if m != nil {
			sort.SliceStable(m.Attachments, func(i, j int) bool { return m.Attachments[i].Path < m.Attachments[j].Path })
		}
		return m, err
	}
	want, err := decode()
	if err != nil {
		panic(err)
	}
	n := 1
	if t.Tier == "thorough" {
		n = 2
	}
	lists := []*[]pkgRel{&p.Rels, &p.Parts[0].Rels, &p.Parts[1].Rels, &p.Parts[2].Rels}
	desc := ""
	for i := 0; i < n; i++ {
		from := t.Free(len(lists))
		list := lists[from]
		at := t.Free(len(*list) + 1)
		typ := mc.Each(t, rtModel, rtOther, rtThumb, rtTex)
		k := t.Free(len(p.Parts) + 1)
		to := "/none.bin"
		if k < len(p.Parts) {
			to = p.Parts[k].Name
		}
		if typ == rtModel && (from == 0 || from == 1 && k > 2) {
			t.Skip() // another root or child model
		}
		r := pkgRel{to, typ, fmt.Sprint("more", i)}
		kept := 0 // relationships in front of it that the model has
		for _, x := range (*list)[:at] {
			if x.Type != rtModel && x.Target != "/none.bin" {
				kept++
			}
		}
		*list = append((*list)[:at:at], append([]pkgRel{r}, (*list)[at:]...)...)
		if typ != rtModel && k < len(p.Parts) {
			rels := &want.RootRelationships
			switch from {
			case 1:
				rels = &want.Relationships
			case 2, 3:
				rels = &want.Childs[p.Parts[from-1].Name].Relationships
			}
			*rels = append((*rels)[:kept:kept], append([]go3mf.Relationship{{Path: r.Target, Type: r.Type, ID: r.ID}}, (*rels)[kept:]...)...)
		}
		desc += fmt.Sprintf("list %d, place %d: %s to %s. ", from, at, typ, to)
	}
	t.Case(desc)
	t.Logf("%s", desc)
	got, err := decode()
	if err != nil {
		t.Failf("decode-error", "%s%v", desc, err)
	}
	w, g := dump(want), dump(got)
	t.State(g)
	if w != g {
		t.Failf("one more relationship", "%s\n%s", desc, diff(w, g))
	}
}

func init() {
	register(&mc.Property{
		ID:     "C14",
		Method: "bounded exhaustive exploration of the real encoder and decoder on package layouts, against an independent OPC reader and writer",
		Rule:   "every part, attachment, content type and relationship of a model is written where it belongs and found again",
		Assumptions: []string{
			"0-3 child models, 0-3 attachments, 5 root paths, 6 child names, 4 attachment names, 7 ways of linking each, combined with <=K deviations",
			"attachments no relationship leads to are written but not read back; relationships to missing parts are dropped; relationships of attachments have no place in the API",
		},
		Scenarios: []mc.Scenario{
			{Name: "encode", Bound: "package layouts with <=K deviations", K: 2, KT: 3, Run: pkgEncode},
			{Name: "roundtrip", Bound: "package layouts with <=K deviations, decoded, encoded and decoded again", K: 2, KT: 3, Run: pkgRoundtrip},
			{Name: "decode", Bound: "package layouts x spelling of targets, order, content types, compression, noise, <=K deviations in total", K: 2, KT: 3, Run: pkgDecode},
			{Name: "names", Bound: "two (thorough: three) parts with any of eleven names that resemble each other, each a child model or related from the package, the root model, a child or both models", Run: pkgNames},
			{Name: "more relationships", Bound: "a (thorough: two) further relationship of 4 types in any place of any list of a package of 3 models and 3 attachments, to any of the parts or none", Run: pkgMoreRels},
			{Name: "every extension over three parts", Bound: "one model x strict", Run: func(t *mc.T) {
				strict := t.Free(2) == 0
				m := sampleMulti()
				t.Case(dump(m))
				data := mustEncode(t, m, 4)
				rewind(m)
				checkPackage(t, m, data)
				got, err := decodePackage(data, strict)
				if err != nil {
					t.Failf("decode-error", "%v", err)
				}
				matchModel(t, "sample", wantDecoded(m), got)
			}},
			{Name: "sizes", Bound: "51 sizes of an attachment up to 16 MiB (thorough: 60 up to 32 MiB), 3 kinds of content, 4 ways of relating it, at once or in pieces", Run: pkgSizes},
			{Name: "counts", Bound: "19 numbers of parts up to 129 (thorough: 29 up to 1025), child models or attachments related in 4 ways", Run: pkgCounts},
			{Name: "thumbnail with another relationship", Bound: "2 types x root/child", Run: thumbRelationship},
		},
	})
}
