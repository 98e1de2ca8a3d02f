package props

import (
	"errors"
	"fmt"
	"image/color"
	"math/big"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/hpinc/go3mf"
	specerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

// ---- sites: every typed attribute of every element -----------------------------

type attrKind int

const (
	kUint attrKind = iota
	kFloat
	kRGBA
	kMatrix
	kEnum
	kBool
	kUUID
	kUints
	kFloats
	kEnums
)

type attrDef struct {
	space, local string
	kind         attrKind
	required     bool
	values       []string // of enumerations
}

func u(names string, required bool) (out []attrDef) {
	for _, n := range strings.Fields(names) {
		out = append(out, attrDef{"", n, kUint, required, nil})
	}
	return
}

func fl(names string, required bool) []attrDef {
	out := u(names, required)
	for i := range out {
		out[i].kind = kFloat
	}
	return out
}

func enum(name string, required bool, values ...string) attrDef {
	return attrDef{"", name, kEnum, required, values}
}

func defs(a ...[]attrDef) (out []attrDef) {
	for _, x := range a {
		out = append(out, x...)
	}
	return
}

var (
	capNames  = []string{"sphere", "hemisphere", "butt"}
	tileNames = []string{"wrap", "mirror", "clamp", "none"}
	uuidAttr  = attrDef{nsProd, "UUID", kUUID, true, nil}
	oneMatrix = attrDef{"", "transform", kMatrix, false, nil}
)

// attrTable has the typed attributes of every element, after the 3MF schemas.
var attrTable = map[string][]attrDef{
	nsCore + " model":         {enum("unit", false, "micron", "millimeter", "centimeter", "inch", "foot", "meter")},
	nsCore + " metadata":      {{"", "preserve", kBool, false, nil}},
	nsCore + " build":         {uuidAttr},
	nsCore + " item":          defs(u("objectid", true), []attrDef{oneMatrix, uuidAttr}),
	nsCore + " basematerials": u("id", true),
	nsCore + " base":          {{"", "displaycolor", kRGBA, true, nil}},
	nsCore + " object": defs(u("id", true), u("pid pindex", false), []attrDef{enum("type", false, "model", "other", "support", "solidsupport", "surface"), uuidAttr,
		{nsSlice, "slicestackid", kUint, true, nil}, {nsSlice, "meshresolution", kEnum, false, []string{"fullres", "lowres"}}}),
	nsCore + " vertex":             fl("x y z", true),
	nsCore + " triangle":           defs(u("v1 v2 v3", true), u("pid p1 p2 p3", false)),
	nsCore + " component":          defs(u("objectid", true), []attrDef{oneMatrix, uuidAttr}),
	nsMat + " texture2d":           defs(u("id", true), []attrDef{enum("contenttype", true, "image/png", "image/jpeg"), enum("tilestyleu", false, tileNames...), enum("tilestylev", false, tileNames...), enum("filter", false, "auto", "linear", "nearest")}),
	nsMat + " texture2dgroup":      u("id texid", true),
	nsMat + " tex2coord":           fl("u v", true),
	nsMat + " colorgroup":          u("id", true),
	nsMat + " color":               {{"", "color", kRGBA, true, nil}},
	nsMat + " compositematerials":  defs(u("id matid", true), []attrDef{{"", "matindices", kUints, true, nil}}),
	nsMat + " composite":           {{"", "values", kFloats, true, nil}},
	nsMat + " multiproperties":     defs(u("id", true), []attrDef{{"", "pids", kUints, true, nil}, {"", "blendmethods", kEnums, false, []string{"mix", "multiply"}}}),
	nsMat + " multi":               {{"", "pindices", kUints, true, nil}},
	nsSlice + " slicestack":        defs(u("id", true), fl("zbottom", false)),
	nsSlice + " slice":             fl("ztop", true),
	nsSlice + " vertex":            fl("x y", true),
	nsSlice + " polygon":           u("startv", true),
	nsSlice + " segment":           defs(u("v2", true), u("pid p1 p2", false)),
	nsSlice + " sliceref":          u("slicestackid", true),
	nsBeam + " beamlattice":        defs(fl("radius minlength precision", true), []attrDef{enum("clippingmode", false, "none", "inside", "outside"), enum("clipping", false, "none", "inside", "outside"), enum("cap", false, capNames...)}, u("clippingmesh representationmesh", false)),
	nsBeam + " beam":               defs(u("v1 v2", true), fl("r1 r2", false), []attrDef{enum("cap1", false, capNames...), enum("cap2", false, capNames...)}),
	nsBeam + " ref":                u("index", true),
	"urn:unknown:q" + " something": u("id", true),
}

// single elements have no index in a location.
var single = map[string]bool{"model": true, "resources": true, "build": true, "mesh": true, "vertices": true, "triangles": true,
	"components": true, "metadatagroup": true, "beamlattice": true, "beams": true, "beamsets": true}

// xpath is the location of an element.
func xpath(ref nodeRef) string {
	s := ""
	chain := append(append([]*N(nil), ref.path...), ref.n)
	for i, n := range chain {
		s += "/" + n.Local
		if single[n.Local] || i == 0 {
			continue
		}
		up := chain[i-1]
		k := 0
		for _, sib := range up.Kids {
			if sib == n {
				break
			}
			same := sib.Local == n.Local && sib.Space == n.Space
			if up.Local == "resources" && up.Space == nsCore { // assets are counted together
				same = (sib.Local == "object" && sib.Space == nsCore) == (n.Local == "object" && n.Space == nsCore)
			}
			if same {
				k++
			}
		}
		s += "[" + strconv.Itoa(k) + "]"
	}
	return s
}

type site struct {
	part  string // "" is the root model
	node  int    // in the walk of its document
	def   attrDef
	xpath string
}

func (s site) String() string { return s.part + " " + s.xpath + "@" + s.def.local }

type attrDocs struct {
	model *go3mf.Model
	docs  map[string]*N
	parts []string // of docs, in the order of the relationships, root last
	sites []site
}

// attrModel has every element and attribute, in three parts.
func attrModel() *go3mf.Model {
	m := sampleMulti()
	m.Metadata = append(m.Metadata, go3mf.Metadata{Value: "second", Preserve: true})
	m.Metadata[len(m.Metadata)-1].Name.Local = "Designer"
	q := el("urn:unknown:q", "something", el("urn:unknown:q", "inner").a("id", "x")).a("id", "77")
	m.Resources.Assets = append(m.Resources.Assets, &go3mf.UnknownAsset{UnknownTokens: spec.UnknownTokens{Token: treeTokens(q)}})
	return m
}

func newAttrDocs(m *go3mf.Model, f form) *attrDocs {
	d := &attrDocs{model: m, docs: map[string]*N{}}
	for _, p := range sortedKeys(m.Childs) {
		d.docs[p] = f.child(m, m.Childs[p])
		d.parts = append(d.parts, p)
	}
	d.parts = append(d.parts, "")
	d.docs[""] = f.root(m)
	for _, p := range d.parts {
		for i, ref := range walkN(d.docs[p]) {
			if len(ref.path) > 1 && !knownNS[ref.n.Space] && !knownNS[ref.path[len(ref.path)-1].Space] {
				continue
			}
			if p != "" && (ref.n.Local == "model" || ref.n.Local == "build") {
				continue // the root model has them
			}
			for _, def := range attrTable[ref.n.Space+" "+ref.n.Local] {
				d.sites = append(d.sites, site{p, i, def, xpath(ref)})
			}
		}
	}
	return d
}

type edit struct {
	s site
	v string
}

func (n *N) put(space, local, v string) {
	for i := range n.Attr {
		if n.Attr[i].Space == space && n.Attr[i].Local == local {
			n.Attr[i].Value = v
			return
		}
	}
	n.ns(space, local, v)
}

// with returns the documents with other values of some attributes.
func (d *attrDocs) with(st style, es ...edit) map[string][]byte {
	out := map[string][]byte{}
	for _, p := range d.parts {
		n := d.docs[p]
		mine := false
		for _, e := range es {
			mine = mine || e.s.part == p
		}
		if mine {
			n = n.clone()
			refs := walkN(n)
			for _, e := range es {
				if e.s.part == p {
					refs[e.s.node].n.put(e.s.def.space, e.s.def.local, e.v)
				}
			}
		}
		out[p] = render(n, nsCore, prefixes, st)
	}
	return out
}

// decode reads the documents as a package, or the root one alone.
func (d *attrDocs) decode(docs map[string][]byte, pack, strict bool) (*go3mf.Model, error) {
	if !pack {
		m := new(go3mf.Model)
		return m, go3mf.UnmarshalModel(docs[""], m)
	}
	p := packageOf(d.model, 0)
	for i := range p.Parts {
		name := p.Parts[i].Name
		if name == d.model.PathOrDefault() {
			name = ""
		}
		if b, ok := docs[name]; ok {
			p.Parts[i].Data = b
		}
	}
	return decodePackage(p.build(0), strict)
}

// ---- flat models ------------------------------------------------------------------

var rgbaType = reflect.TypeOf(color.RGBA{})

// flatten lists the leaves of a model by their path.
func flatten(v interface{}) map[string]string {
	out := map[string]string{}
	var rec func(p string, v reflect.Value)
	rec = func(p string, v reflect.Value) {
		if !v.IsValid() {
			return
		}
		if v.Type() == attachmentType {
			out[p] = fmt.Sprint(v.Field(1), v.Field(2))
			return
		}
		if v.Type() == rgbaType {
			c := v.Interface().(color.RGBA)
			out[p] = fmt.Sprintf("#%02x%02x%02x%02x", c.R, c.G, c.B, c.A)
			return
		}
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				out[p] = "nil"
			} else {
				rec(p, v.Elem())
			}
		case reflect.Struct:
			out[p+"{}"] = v.Type().String()
			for i := 0; i < v.NumField(); i++ {
				rec(p+"."+v.Type().Field(i).Name, v.Field(i))
			}
		case reflect.Array:
			if v.Len() == 16 {
				s := ""
				for i := 0; i < 16; i++ {
					s += fmt.Sprint(" ", v.Index(i))
				}
				out[p] = s
				return
			}
			fallthrough
		case reflect.Slice:
			if v.Kind() == reflect.Slice {
				out[p+"#"] = strconv.Itoa(v.Len())
			}
			for i := 0; i < v.Len(); i++ {
				rec(p+"["+strconv.Itoa(i)+"]", v.Index(i))
			}
		case reflect.Map:
			out[p+"#"] = strconv.Itoa(v.Len())
			for _, k := range v.MapKeys() {
				rec(p+"["+k.String()+"]", v.MapIndex(k))
			}
		default:
			if v.CanInterface() {
				if s, ok := v.Interface().(fmt.Stringer); ok {
					out[p] = s.String()
					return
				}
			}
			switch v.Kind() {
			case reflect.String:
				out[p] = v.String()
			case reflect.Float32:
				out[p] = strconv.FormatFloat(v.Float(), 'g', -1, 32)
			case reflect.Bool:
				out[p] = strconv.FormatBool(v.Bool())
			default:
				if v.CanUint() {
					out[p] = strconv.FormatUint(v.Uint(), 10)
				} else if v.CanInt() {
					out[p] = strconv.FormatInt(v.Int(), 10)
				} else {
					panic("flatten: " + v.Kind().String())
				}
			}
		}
	}
	rec("", reflect.ValueOf(v))
	return out
}

// differing lists the paths that differ.
func differing(a, b map[string]string) (out []string) {
	for p, x := range a {
		if y, ok := b[p]; !ok || x != y {
			out = append(out, p)
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return
}

// masked reports whether a path belongs to the footprint of an attribute.
func masked(foot []string, p string) bool {
	for _, f := range foot {
		if p == f || strings.HasSuffix(f, "#") && strings.HasPrefix(p, f[:len(f)-1]) {
			return true
		}
	}
	return false
}

// two are two valid values of a kind that differ in every part.
func (a attrDef) two() (string, string) {
	switch a.kind {
	case kUint:
		return "1001", "2002"
	case kFloat:
		return "1001.5", "2002.25"
	case kRGBA:
		return "#11223344", "#55667788"
	case kMatrix:
		return "2 0 0 0 2 0 0 0 2 7 8 9", "3 0 0 0 3 0 0 0 3 4 5 6"
	case kBool:
		return "true", "false"
	case kUUID:
		return "11111111-58cc-4372-8567-0e02b2c3d479", "22222222-58cc-4372-8567-0e02b2c3d479"
	case kUints:
		return "1001", "2002 2003"
	case kFloats:
		return "1001.5", "2002.25 2003"
	case kEnums:
		return "mix", "multiply multiply"
	}
	return a.values[0], a.values[1]
}

var badByKind = map[attrKind][]string{
	kUint:   {"x", "", "-1", "1.5", "4294967296", "1x", "0x1", "1 2", "99999999999999999999"},
	kFloat:  {"x", "", "1x", "1,5", "--1", "1e", "e5", ".", "1 2", "-", "1e999"},
	kRGBA:   {"#GG0000", "", "112233", "#12345", "#1234567", "#123456789", "#", "red", "#11 233", "#1122334G"},
	kMatrix: {"x", "", "1 0 0 0 1 0 0 0 1 0 0", "1 0 0 0 1 0 0 0 1 0 0 0 0", "1 0 0 0 1 0 0 0 1 0 0 x", "1,0 0 0 0 1 0 0 0 1 0 0 0"},
	kBool:   {"x", "", "yes", "2"},
	kEnum:   {"unheard", "", "0"},
	kUUID:   {"x", "", "f47ac10b-58cc-4372-8567-0e02b2c3d47", "f47ac10b-58cc-4372-8567-0e02b2c3d47g", "f47ac10b_58cc_4372_8567_0e02b2c3d479"},
	kUints:  {"1 x", "x", "-1", "1,2", "4294967296 1"},
	kFloats: {"0.5 x", "x", "0.5,0.5", "1 1e999"},
	kEnums:  {"mix x", "x", "Mix"},
}

var attrOnce = sync.OnceValue(func() *attrDocs { return newAttrDocs(attrModel(), form{prec: 4}) })

// located is a reported attribute.
func located(err error) string {
	var pe *specerr.ParseAttrError
	e, ok := err.(*specerr.Error)
	if !ok || !errors.As(err, &pe) {
		return fmt.Sprintf("not a located attribute error: %v", err)
	}
	return fmt.Sprintf("%s@%s required=%v", e.XPath(), pe.Name, pe.Required)
}

func (s site) want() string {
	return fmt.Sprintf("%s@%s required=%v", s.xpath, s.def.local, s.def.required)
}

// allErrors lists the members of an error.
func allErrors(err error) []error {
	if l, ok := err.(*specerr.List); ok {
		return l.Errors
	}
	if err == nil {
		return nil
	}
	return []error{err}
}

var footMu sync.Mutex
var footCache = map[string]*footInfo{}

type footInfo struct {
	base  map[string]string
	paths []string // what the value determines
	mask  []string // what the attribute determines, if only by being there
}

// footprint is the part of the model an attribute determines.
func (d *attrDocs) footprint(t *mc.T, pack bool, s site) *footInfo {
	key := fmt.Sprint(pack, s)
	footMu.Lock()
	f, ok := footCache[key]
	footMu.Unlock()
	if ok {
		return f
	}
	v, w := s.def.two()
	a, err := d.decode(d.with(style{}, edit{s, v}), pack, true)
	if err != nil {
		t.Failf("a valid value is rejected", "%s=%q: %v", s, v, err)
	}
	b, err := d.decode(d.with(style{}, edit{s, w}), pack, true)
	if err != nil {
		t.Failf("a valid value is rejected", "%s=%q: %v", s, w, err)
	}
	f = &footInfo{base: flatten(a)}
	f.paths = differing(f.base, flatten(b))
	if len(f.paths) == 0 {
		t.Failf("the attribute is not read", "%s=%q or %q", s, v, w)
	}
	c, err := d.decode(d.with(style{}), pack, true)
	if err != nil {
		t.Failf("a valid document is rejected", "%v", err)
	}
	f.mask = append(differing(f.base, flatten(c)), f.paths...)
	footMu.Lock()
	footCache[key] = f
	footMu.Unlock()
	return f
}

func pickSite(t *mc.T, d *attrDocs, pack bool) site {
	s := d.sites[t.Free(len(d.sites))]
	if !pack && s.part != "" {
		t.Skip()
	}
	return s
}

func pickBad(t *mc.T, s site) string {
	bad := badByKind[s.def.kind]
	i := t.Free(12)
	if i >= len(bad) {
		t.Skip()
	}
	return bad[i]
}

// malformed gives one attribute a malformed value.
func malformed(t *mc.T) {
	d := attrOnce()
	mode := t.Free(3) // package strict, package not strict, UnmarshalModel
	s := pickSite(t, d, mode < 2)
	bad := pickBad(t, s)
	pack, strict := mode < 2, mode == 0
	t.Case(fmt.Sprint(s, bad, mode))
	t.Logf("%s=%q strict=%v", s, bad, strict)
	foot := d.footprint(t, pack, s)
	got, err := d.decode(d.with(style{}, edit{s, bad}), pack, strict)
	t.Step()
	if err == nil {
		t.Failf("malformed value accepted: "+s.def.local, "%s=%q: no error", s, bad)
	}
	all := allErrors(err)
	var have []string
	for _, e := range all {
		l := located(e)
		if n := len(have); n == 0 || have[n-1] != l || s.def.kind < kUints {
			have = append(have, l)
		}
		if e, ok := e.(*specerr.Error); ok && s.part != "" && e.Path != s.part {
			t.Failf("the error does not tell the part", "%s=%q: path %q in %v", s, bad, e.Path, e)
		}
	}
	t.State(fmt.Sprint(have))
	if len(have) != 1 || have[0] != s.want() {
		t.Failf("wrong location", "%s=%q\nwant %s\ngot  %s", s, bad, s.want(), strings.Join(have, "\n     "))
	}
	if strict {
		return
	}
	flat := flatten(got)
	for _, p := range differing(foot.base, flat) {
		if !masked(foot.mask, p) {
			t.Failf("a malformed attribute changes other content", "%s=%q: %s is %q, with a valid value %q", s, bad, p, flat[p], foot.base[p])
		}
	}
	t.Sample("%s=%q: %v", s, bad, err)
}

// donors are the different elements of a name in all the documents.
func (d *attrDocs) donors(space, local string) (out []*N) {
	seen := map[string]bool{}
	for _, p := range d.parts {
		for _, r := range walkN(d.docs[p]) {
			if r.n.Space != space || r.n.Local != local {
				continue
			}
			if k := string(render(r.n, nsCore, prefixes, style{})); !seen[k] {
				seen[k] = true
				out = append(out, r.n)
			}
		}
	}
	return
}

// neighbours puts other elements of its kind around a malformed one, malformed or not.
func neighbours(t *mc.T) {
	d := attrOnce()
	s := d.sites[t.Free(len(d.sites))]
	if s.part != "" {
		t.Skip()
	}
	root := d.docs[""].clone()
	r := walkN(root)[s.node]
	if single[r.n.Local] || len(r.path) == 0 {
		t.Skip()
	}
	donors := d.donors(r.n.Space, r.n.Local)
	if r.n.Local == "metadata" {
		donors = append([]*N{el(nsCore, "metadata").a("name", "q:a")}, donors...)
	}
	donors = append([]*N{el(nsQ, r.n.Local, el(nsCore, "z"))}, donors...)
	up := r.path[len(r.path)-1]
	bads := []*N{r.n}
	desc := ""
	put := func() *N {
		k := t.Free(len(donors))
		n := donors[k].clone()
		if k > 0 && t.Free(2) == 1 {
			bads = append(bads, n)
			desc += " bad"
		}
		desc += fmt.Sprintf(" donor %d", k)
		return n
	}
	var before, after []*N
	layout := t.Free(4)
	if layout >= 2 && t.Tier != "thorough" && len(donors) > 4 {
		donors = donors[:4]
	}
	switch layout {
	case 0:
		before = []*N{put()}
	case 1:
		after = []*N{put()}
	case 2:
		before, after = []*N{put()}, []*N{put()}
	case 3:
		before = []*N{put(), put()}
	}
	t.Case(fmt.Sprint(s, layout, desc))
	t.Logf("%s layout %d:%s", s, layout, desc)
	var kids []*N
	for _, k := range up.Kids {
		if k == r.n {
			kids = append(append(append(kids, before...), k), after...)
		} else {
			kids = append(kids, k)
		}
	}
	up.Kids = kids
	v, w := s.def.two()
	refs := walkN(root)
	at := func(x string) (*go3mf.Model, error, []string) {
		var want []string
		for _, n := range append(append(append([]*N(nil), before...), r.n), after...) {
			if n.Space == r.n.Space {
				n.put(s.def.space, s.def.local, v)
			}
		}
		for _, ref := range refs {
			for _, b := range bads {
				if ref.n == b {
					b.put(s.def.space, s.def.local, x)
					want = append(want, fmt.Sprintf("%s@%s required=%v", xpath(ref), s.def.local, s.def.required))
				}
			}
		}
		m := new(go3mf.Model)
		err := go3mf.UnmarshalModel(render(root, nsCore, prefixes, style{}), m)
		return m, err, want
	}
	a, err, _ := at(v)
	if err != nil {
		t.Failf("a valid value is rejected", "%s=%q: %v", s, v, err)
	}
	b, err, _ := at(w)
	if err != nil {
		t.Failf("a valid value is rejected", "%s=%q: %v", s, w, err)
	}
	got, err, want := at(badByKind[s.def.kind][0])
	var have []string
	for _, e := range allErrors(err) {
		have = append(have, located(e))
	}
	t.State(fmt.Sprint(have))
	if strings.Join(want, "\n") != strings.Join(have, "\n") {
		t.Failf("wrong errors", "%s\nwant %s\ngot  %s", s, strings.Join(want, "\n     "), strings.Join(have, "\n     "))
	}
	base, flat := flatten(a), flatten(got)
	mask := differing(base, flatten(b))
	for _, p := range differing(base, flat) {
		if !masked(mask, p) {
			t.Failf("a malformed attribute changes other content", "%s: %s is %q, with valid values %q", s, p, flat[p], base[p])
		}
	}
}

// malformedPairs gives two attributes malformed values.
func malformedPairs(t *mc.T) {
	d := attrOnce()
	n := len(d.sites)
	mode := 1
	if t.Tier == "thorough" {
		mode = t.Free(2)
	}
	pack := mode == 0
	i := t.Free(n)
	j := t.Free(n)
	a, b := d.sites[i], d.sites[j]
	if i >= j || !pack && (a.part != "" || b.part != "") {
		t.Skip()
	}
	t.Case(fmt.Sprint(a, b, pack))
	t.Logf("%s and %s malformed, package=%v", a, b, pack)
	docs := d.with(style{}, edit{a, badByKind[a.def.kind][0]}, edit{b, badByKind[b.def.kind][0]})
	got, err := d.decode(docs, pack, false)
	want := []string{a.want(), b.want()}
	if a.part == b.part && a.node == b.node { // in the order of the attributes
		n := d.docs[a.part].clone()
		e := walkN(n)[a.node].n
		e.put(a.def.space, a.def.local, "")
		e.put(b.def.space, b.def.local, "")
		for _, at := range e.Attr {
			if at.Space == a.def.space && at.Local == a.def.local {
				break
			}
			if at.Space == b.def.space && at.Local == b.def.local {
				want[0], want[1] = want[1], want[0]
				break
			}
		}
	}
	var have []string
	for _, e := range allErrors(err) {
		have = append(have, located(e))
	}
	if strings.Join(want, "\n") != strings.Join(have, "\n") {
		t.Failf("wrong errors", "%s and %s\nwant %s\ngot  %s", a, b, strings.Join(want, "\n     "), strings.Join(have, "\n     "))
	}
	fa, fb := d.footprint(t, pack, a), d.footprint(t, pack, b)
	flat := flatten(got)
	for _, p := range differing(fa.base, flat) {
		if !masked(fa.mask, p) && !masked(fb.mask, p) {
			t.Failf("a malformed attribute changes other content", "%s and %s: %s is %q, with valid values %q", a, b, p, flat[p], fa.base[p])
		}
	}
	t.State(fmt.Sprint(have))
}

// firstOfTwo: strict decoding reports the first malformed attribute.
func firstOfTwo(t *mc.T) {
	d := attrOnce()
	i, j := t.Free(len(d.sites)), t.Free(len(d.sites))
	a, b := d.sites[i], d.sites[j]
	if i >= j || a.part != b.part || a.node == b.node {
		t.Skip()
	}
	if t.Tier != "thorough" && (i*31+j)%7 != 0 && a.def.kind == b.def.kind {
		t.Skip()
	}
	t.Case(fmt.Sprint(a, b))
	_, err := d.decode(d.with(style{}, edit{a, badByKind[a.def.kind][0]}, edit{b, badByKind[b.def.kind][0]}), true, true)
	if err == nil {
		t.Failf("malformed value accepted", "%s and %s: no error", a, b)
	}
	if have := located(allErrors(err)[0]); have != a.want() {
		t.Failf("wrong location", "%s and %s\nwant %s\ngot  %s", a, b, a.want(), have)
	}
	t.State(a.want())
}

// permutation is the k-th order of n things.
func permutation(n, k int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	out := make([]int, 0, n)
	for i := n; i > 0; i-- {
		j := k % i
		k /= i
		out = append(out, left[j])
		left = append(left[:j], left[j+1:]...)
	}
	return out
}

// pickOrder picks an order of n attributes: any one of a few, or any rotation, reversed or not.
func pickOrder(t *mc.T, n, max int) []int {
	if n <= max {
		f := 1
		for i := 2; i <= n; i++ {
			f *= i
		}
		return permutation(n, t.Free(f))
	}
	r, back := t.Free(n), t.Free(2) == 1
	out := make([]int, n)
	for i := range out {
		out[i] = (r + i) % n
		if back {
			out[i] = (r + n - i) % n
		}
	}
	return out
}

// orders gives an element with one or two malformed attributes its attributes in another order.
func orders(t *mc.T) {
	d := attrOnce()
	var mine []int
	seen := map[string]bool{}
	for i, s := range d.sites {
		if n := walkN(d.docs[s.part])[s.node].n; s.part == "" {
			key := n.Space + " " + n.Local + " " + s.def.space + s.def.local + fmt.Sprint(n.Attr)
			if t.Tier != "thorough" {
				key = n.Space + " " + n.Local + " " + s.def.space + s.def.local
			}
			if !seen[key] {
				seen[key] = true
				mine = append(mine, i)
			}
		}
	}
	s := d.sites[mine[t.Free(len(mine))]]
	max := 4
	if t.Tier == "thorough" {
		max = 6
	}
	e := walkN(d.docs[""])[s.node].n.clone()
	other := -1 // a second malformed one
	var of []site
	for _, o := range d.sites {
		if o.part == "" && o.node == s.node && o.def.local != s.def.local {
			of = append(of, o)
		}
	}
	if k := t.Free(len(of) + 1); k > 0 {
		other = k - 1
	}
	e.put(s.def.space, s.def.local, badByKind[s.def.kind][t.Free(2)])
	if other >= 0 {
		e.put(of[other].def.space, of[other].def.local, badByKind[of[other].def.kind][0])
	}
	var attrs, plain, spaces []A
	for _, a := range e.Attr {
		if a.Space == "xmlns" { // the order of the extensions
			spaces = append(spaces, a)
		} else {
			plain = append(plain, a)
		}
	}
	for _, i := range pickOrder(t, len(plain), max) {
		attrs = append(attrs, plain[i])
	}
	if len(spaces) > 0 && t.Free(2) == 1 {
		attrs = append(spaces, attrs...)
	} else {
		attrs = append(attrs, spaces...)
	}
	root := d.docs[""].clone()
	n := walkN(root)[s.node].n
	n.Attr = attrs
	t.Logf("%s: %v", s, attrs)
	got := new(go3mf.Model)
	err := go3mf.UnmarshalModel(render(root, nsCore, prefixes, style{}), got)
	t.Step()
	var want []string
	for _, a := range attrs {
		bad := []site{s}
		if other >= 0 {
			bad = append(bad, of[other])
		}
		for _, o := range bad {
			if a.Space == o.def.space && a.Local == o.def.local {
				want = append(want, o.want())
			}
		}
	}
	var have []string
	for _, e := range allErrors(err) {
		l := located(e)
		if k := len(have); k == 0 || have[k-1] != l || s.def.kind < kUints {
			have = append(have, l)
		}
	}
	if strings.Join(want, "\n") != strings.Join(have, "\n") {
		t.Failf("wrong errors", "%s: %v\nwant %s\ngot  %s", s, attrs, strings.Join(want, "\n     "), strings.Join(have, "\n     "))
	}
	f := d.footprint(t, false, s)
	var mask []string
	if other >= 0 {
		mask = d.footprint(t, false, of[other]).mask
	}
	for p, v := range flatten(got) {
		if strings.Contains(p, ".UnknownTokens.") || strings.Contains(p, "AnyAttr") {
			continue // in the order of the document
		}
		if v != f.base[p] && !masked(f.mask, p) && !masked(mask, p) {
			t.Failf("a malformed attribute changes other content", "%s: %v: %s is %q, with a valid value %q", s, attrs, p, v, f.base[p])
		}
	}
	t.State(fmt.Sprint(have))
}

// ---- C27: values ------------------------------------------------------------------

// exact32 is the number denoted by s, to the nearest float32.
func exact32(s string) (float32, bool) {
	r, ok := new(big.Rat).SetString(strings.TrimPrefix(s, "+"))
	if !ok {
		return 0, false
	}
	f, _ := r.Float32()
	return f, f <= 3.4028235e38 && f >= -3.4028235e38
}

func num(f float32) string { return strconv.FormatFloat(float64(f), 'g', -1, 32) }

// goodByKind are spellings of values: the spelling, and what the model has.
func (a attrDef) good() (out [][2]string) {
	add := func(s, v string) { out = append(out, [2]string{s, v}) }
	switch a.kind {
	case kUint:
		for _, v := range []string{"7", "12", "1", "2147483647"} {
			add(v, v)
			add("0"+v, v)
			add("000000000000"+v, v)
		}
	case kFloat:
		for _, s := range []string{"2.5", "+2.5", "02.50", "2.5e0", "25e-1", "0.25E+1", ".25e1", "250e-2", "+.25E1", "2.50000000000000000000000000001",
			"7", "1e10", "3.4028234e38", "1e-40", "123456789", "16777217", "0.1", "33554431.0000001", "4.7e-38"} {
			f, _ := exact32(s)
			add(s, num(f))
		}
	case kRGBA:
		add("#0A141e", "#0a141eff")
		add("#0a141eFF", "#0a141eff")
		add("#0A141E28", "#0a141e28")
		add("#fedcba00", "#fedcba00")
		add("#00000001", "#00000001")
	case kMatrix:
		m := " 2 0 0 0 0 2 0 0 0 0 2 0 7.5 8 -9 1"
		add("2 0 0 0 2 0 0 0 2 7.5 8 -9", m)
		add("  2  0 0 0 2 0 0 0 2 7.5 8 -9 ", m)
		add("2.0 0 0.0 -0e5 +2 0 .0 0 20e-1 75e-1 0.8E1 -9", strings.Replace(m, "0 0 0 0 2", "0 0 0 -0 2", 0))
		add("2\t0 0\n0 2 0 0 0 2 7.5 8\r\n-9", m)
		out[2] = [2]string{"2.0 0 0.0 0e5 +2 0 .0 0 20e-1 75e-1 0.8E1 -9", m}
	case kBool:
		add("true", "true")
		add("false", "false")
		add("1", "true")
		add("0", "false")
	case kUUID:
		for _, s := range []string{"f47ac10b-58cc-4372-8567-0e02b2c3d479", "F47AC10B-58CC-4372-8567-0E02B2C3D479", "f47ac10b-58CC-0372-8567-0e02b2c3d479"} {
			add(s, s)
		}
	case kUints:
		add("7 8", "7 8")
		add("  07   8 ", "7 8")
		add("7\t9 8", "7 9 8")
		add("6", "6")
	case kFloats:
		add("0.25 0.75", "0.25 0.75")
		add(" 25e-2  +.75 ", "0.25 0.75")
		add("6", "6")
		add("0.125 0.5 0.375", "0.125 0.5 0.375")
	case kEnum:
		for _, v := range a.values {
			add(v, v)
		}
	case kEnums:
		add("multiply", "multiply")
		add("multiply multiply", "multiply multiply")
		add("  multiply \n multiply ", "multiply multiply")
	}
	return
}

// spellings gives an attribute every spelling of values.
func spellings(t *mc.T) {
	d := attrOnce()
	s := pickSite(t, d, true)
	good := s.def.good()
	k := t.Free(20)
	if k >= len(good) {
		t.Skip()
	}
	v, want := good[k][0], good[k][1]
	foot := d.footprint(t, true, s)
	t.Case(fmt.Sprint(s, v))
	t.Logf("%s=%q", s, v)
	got, err := d.decode(d.with(style{}, edit{s, v}), true, true)
	t.Step()
	if err != nil {
		t.Failf("a valid value is rejected: "+s.def.local, "%s=%q: %v", s, v, err)
	}
	flat := flatten(got)
	for _, p := range differing(foot.base, flat) {
		if !masked(foot.mask, p) {
			t.Failf("a value changes other content", "%s=%q: %s is %q, with another value %q", s, v, p, flat[p], foot.base[p])
		}
	}
	list := s.def.kind == kUints || s.def.kind == kFloats || s.def.kind == kEnums
	if list {
		root := ""
		for _, p := range foot.paths {
			if strings.HasSuffix(p, "#") {
				root = p[:len(p)-1]
			}
		}
		n, _ := strconv.Atoi(flat[root+"#"])
		var vals []string
		for i := 0; i < n; i++ {
			vals = append(vals, flat[root+"["+strconv.Itoa(i)+"]"])
		}
		if g := strings.Join(vals, " "); g != want {
			t.Failf("wrong value: "+s.def.local, "%s=%q is read as %s, want %s", s, v, g, want)
		}
	} else {
		for _, p := range foot.paths {
			if flat[p] != want && !strings.Contains(p, ".UnknownTokens.") {
				t.Failf("wrong value: "+s.def.local, "%s=%q: %s is read as %s, want %s", s, v, p, flat[p], want)
			}
		}
	}
	t.State(want)
	t.Sample("%s=%q: %s", s, v, want)
}

// enumerations gives an attribute of a fixed set of values what is not quite one of them.
func enumerations(t *mc.T) {
	d := attrOnce()
	var mine []int
	seen := map[string]bool{}
	for i, s := range d.sites {
		n := walkN(d.docs[s.part])[s.node].n
		key := n.Space + " " + n.Local + " " + s.def.local
		if (s.def.kind == kEnum || s.def.kind == kBool || s.def.kind == kEnums) && s.part == "" && !seen[key] {
			seen[key] = true
			mine = append(mine, i)
		}
	}
	s := d.sites[mine[t.Free(len(mine))]]
	values := s.def.values
	if s.def.kind == kBool {
		values = []string{"true", "false", "1", "0"}
	}
	v := []byte(values[t.Free(len(values))])
	switch t.Free(6) {
	case 0: // a letter in the other case
		i := t.Free(len(v))
		if v[i] < 'A' {
			t.Skip()
		}
		v[i] ^= 0x20
	case 1: // all letters
		v = []byte(strings.ToUpper(string(v)))
	case 2: // one missing
		i := t.Free(len(v))
		v = append(v[:i:i], v[i+1:]...)
	case 3: // one more
		i := t.Free(len(v) + 1)
		v = append(v[:i:i], append([]byte{mc.Each[byte](t, 'a', 's', '0', '-', '_')}, v[i:]...)...)
	case 4: // a part
		v = v[:t.Free(len(v))]
	case 5: // a value of another attribute
		var all []string
		for _, i := range mine {
			all = append(all, d.sites[i].def.values...)
		}
		v = []byte(all[t.Free(len(all))])
	}
	bad := string(v)
	for _, ok := range append([]string{""}, values...) {
		if ok == bad {
			t.Skip()
		}
	}
	if _, err := strconv.ParseBool(bad); err == nil && s.def.kind == kBool {
		t.Skip() // True, T and the like
	}
	t.Logf("%s=%q", s, bad)
	t.Case(fmt.Sprint(s, bad))
	got, err := d.decode(d.with(style{}, edit{s, bad}), false, false)
	t.Step()
	var have []string
	for _, e := range allErrors(err) {
		have = append(have, located(e))
	}
	if len(have) != 1 || have[0] != s.want() {
		t.Failf("malformed value: "+s.def.local, "%s=%q\nwant %s\ngot  %v", s, bad, s.want(), have)
	}
	foot := d.footprint(t, false, s)
	flat := flatten(got)
	for _, p := range differing(foot.base, flat) {
		if !masked(foot.mask, p) {
			t.Failf("a value changes other content", "%s=%q: %s is %q, with another value %q", s, bad, p, flat[p], foot.base[p])
		}
	}
	t.State(bad)
}

var (
	numberRE = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]+)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
	dotEndRE = regexp.MustCompile(`^[+-]?[0-9]+\.([eE][+-]?[0-9]+)?$`)
	uintRE   = regexp.MustCompile(`^[0-9]+$`)
)

// shortString builds every string of up to n characters of an alphabet.
func shortString(t *mc.T, alphabet string, n int) string {
	b := make([]byte, 0, n)
	for i := 0; i < n; i++ {
		k := t.Free(len(alphabet) + 1)
		if k == 0 {
			break
		}
		b = append(b, alphabet[k-1])
	}
	return string(b)
}

var numDoc = `<model xmlns="` + nsCore + `" xmlns:m="` + nsMat + `"><resources><m:texture2dgroup id="1" texid="1"><m:tex2coord u="%[1]s" v="0"/></m:texture2dgroup><object id="%[2]s"><mesh><vertices><vertex x="0" y="%[1]s" z="0"/></vertices><triangles/></mesh></object></resources><build/></model>`

// numbers decodes every short string as a number.
func numberStrings(t *mc.T) {
	n := 5
	if t.Tier == "thorough" {
		n = 6
	}
	s := shortString(t, "01.-+eE9 x", n)
	t.Case(s)
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel([]byte(fmt.Sprintf(numDoc, s, "1")), m)
	t.Step()
	t.State(fmt.Sprint(s, err == nil))
	switch {
	case numberRE.MatchString(s):
		want, ok := exact32(s)
		if !ok {
			return // out of range
		}
		if err != nil {
			t.Failf("a number is rejected", "%q: %v", s, err)
		}
		y := m.Resources.Objects[0].Mesh.Vertices.Vertex[0][1]
		if y != want {
			t.Failf("wrong number", "%q is read as %v, want %v", s, y, want)
		}
		if g := flatten(m)[".Resources.Assets[0].Coords[0][0]"]; y != 0 && g != num(want) {
			t.Failf("wrong number", "%q is read as %v, want %v", s, g, want)
		}
	case dotEndRE.MatchString(s) || strings.ContainsAny(s, " x"):
		// lenient forms are tolerated if they denote a number once trimmed
		if c := strings.TrimSpace(s); err == nil && !dotEndRE.MatchString(s) && !numberRE.MatchString(c) {
			if strings.HasPrefix(strings.TrimLeft(s, "+-"), "0x") {
				return // hexadecimal
			}
			t.Failf("malformed value accepted", "%q", s)
		}
	case err == nil:
		t.Failf("malformed value accepted", "%q", s)
	case len(allErrors(err)) != 2:
		t.Failf("wrong errors", "%q: %v", s, err)
	}
	if s == "1.9E1" {
		t.Sample("%q", s)
	}
}

// idStrings decodes every short string as an identifier.
func idStrings(t *mc.T) {
	var s string
	if t.Free(2) == 0 {
		s = shortString(t, "019-+ x.", 5)
	} else {
		v := new(big.Int).Lsh(big.NewInt(1), uint(mc.Each(t, 8, 16, 31, 32, 33, 63, 64, 65)))
		v.Add(v, big.NewInt(int64(t.Free(5)-2)))
		s = v.String()
	}
	t.Case(s)
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel([]byte(fmt.Sprintf(numDoc, "0", s)), m)
	t.State(fmt.Sprint(s, err == nil))
	if uintRE.MatchString(s) {
		v, _ := new(big.Int).SetString(s, 10)
		if v.BitLen() > 32 {
			if err == nil {
				t.Failf("malformed value accepted", "%q", s)
			}
			return
		}
		if v.BitLen() > 31 && err != nil {
			return // beyond the range of the specification
		}
		if err != nil {
			t.Failf("a number is rejected", "%q: %v", s, err)
		}
		if g := uint64(m.Resources.Objects[0].ID); g != v.Uint64() {
			t.Failf("wrong number", "%q is read as %d", s, g)
		}
		return
	}
	if c := strings.TrimPrefix(strings.TrimSpace(s), "+"); err == nil && !uintRE.MatchString(c) {
		t.Failf("malformed value accepted", "%q", s)
	}
}

// colors parses every one and two character edit of colours, and formats all channel values.
func colors(t *mc.T) {
	base := []byte(mc.Each(t, "#a1B2c3d4", "#a1B2c3", "#FFFFFFFF", "#00000000"))
	switch t.Free(4) {
	case 0: // one character is replaced
		base[t.Free(len(base))] = byte(t.Free(256))
	case 1: // two characters
		const chars = "0aFgG#x @/:`"
		base[t.Free(len(base))] = chars[t.Free(len(chars))]
		base[t.Free(len(base))] = chars[t.Free(len(chars))]
	case 2: // lengths
		n := t.Free(13)
		for len(base) < n {
			base = append(base, 'a')
		}
		base = base[:n]
	case 3: // every value of a channel
		c := 1 + 2*t.Free(len(base)/2)
		v := t.Free(256)
		f := mc.Each(t, "%02x", "%02X")
		copy(base[c:], fmt.Sprintf(f, v))
	}
	s := string(base)
	t.Case(s)
	valid := (len(s) == 7 || len(s) == 9) && s[0] == '#'
	for i := 1; valid && i < len(s); i++ {
		valid = isHex(s[i])
	}
	got, err := spec.ParseRGBA(s)
	t.State(fmt.Sprint(s, got))
	if valid != (err == nil) {
		t.Failf("color", "ParseRGBA(%q) error %v", s, err)
	}
	if !valid {
		return
	}
	h := s[1:]
	if len(h) == 6 {
		h += "ff"
	}
	v, _ := strconv.ParseUint(h, 16, 32)
	want := color.RGBA{uint8(v >> 24), uint8(v >> 16), uint8(v >> 8), uint8(v)}
	if got != want {
		t.Failf("color", "ParseRGBA(%q) = %v, want %v", s, got, want)
	}
	if back, err := spec.ParseRGBA(spec.FormatRGBA(want)); err != nil || back != want {
		t.Failf("color", "FormatRGBA(%v) = %q, which parses to %v, %v", want, spec.FormatRGBA(want), back, err)
	}
}

// matrixStrings parses matrices with every field in turn replaced, and formats them.
func matrixStrings(t *mc.T) {
	fields := strings.Fields("1 2 3 4 5 6 7 8 9 10 11 12")
	want := [16]float32{1, 2, 3, 0, 4, 5, 6, 0, 7, 8, 9, 0, 10, 11, 12, 1}
	slot := [12]int{0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14}
	valid := true
	switch t.Free(3) {
	case 0: // the number of fields
		n := t.Free(16)
		for len(fields) < n {
			fields = append(fields, "0")
		}
		fields = fields[:n]
		valid = n == 12
	case 1:
		i := t.Free(12)
		v := mc.Each(t, "-1.5", "1e3", "+.5", "0.001", "1e-10", "123456.789", "x", "", "1,5", "1x", "-", "1e999", "-1E+2")
		fields[i] = v
		f, ok := exact32(v)
		if !ok || !numberRE.MatchString(v) {
			valid = false
		}
		want[slot[i]] = f
	case 2:
		i, j := t.Free(12), t.Free(12)
		fields[i], want[slot[i]] = "-3", -3
		fields[j], want[slot[j]] = "0.25", 0.25
	}
	sep := mc.Each(t, " ", "  ", "\t", "\n", "\r\n ")
	s := strings.Join(fields, sep)
	s = mc.Each(t, "", " ", "\n") + s + mc.Each(t, "", " ")
	t.Case(s)
	got, ok := spec.ParseMatrix(s)
	t.State(fmt.Sprint(got, ok))
	if ok != valid {
		t.Failf("matrix", "ParseMatrix(%q): %v", s, ok)
	}
	if !ok {
		return
	}
	if got != want {
		t.Failf("matrix", "ParseMatrix(%q) = %v, want %v", s, got, want)
	}
	back, ok := spec.ParseMatrix(go3mf.Matrix(got).String())
	if w := roundM(go3mf.Matrix(want)); !ok || go3mf.Matrix(back) != w {
		t.Failf("matrix", "%v formatted as %q is parsed as %v, %v", w, go3mf.Matrix(got).String(), back, ok)
	}
}

func init() {
	register(&mc.Property{
		ID: "C10", Level: "fault_enumeration",
		Method: "exhaustive enumeration of malformed attributes at every attribute of every element, on the real decoder, against the schema's table of attributes",
		Rule:   "an error names the attribute and its element's path; elsewhere the model is what it is with a well-formed value",
		Assumptions: []string{
			"the table of typed attributes follows the 3MF schemas; what an attribute determines is observed from two valid values",
			"what is read for a malformed attribute itself is unspecified",
		},
		Scenarios: []mc.Scenario{
			{Name: "one", Bound: "every typed attribute of every element of three parts x malformed values of its kind x strict package, lenient package, UnmarshalModel", Run: malformed},
			{Name: "two", Bound: "every pair of attributes malformed, lenient (UnmarshalModel; thorough: also packages)", Run: malformedPairs},
			{Name: "neighbours", Bound: "every typed attribute of the root part, with one or two more elements of its kind around it, each of all there are in the documents, malformed or not", Run: neighbours},
			{Name: "long lists", Bound: "every typed attribute of the root part, in 10 to 65538 copies of its element, malformed in the first, middle, last one or all", Run: farNeighbours},
			{Name: "orders", Bound: "every typed attribute of every kind of element (thorough: every element) of the root part malformed, alone or with another one of its element, and every order of up to 4 (thorough: 6) attributes, every rotation of more, there and back", Run: orders},
			{Name: "first", Bound: "pairs of attributes of different elements malformed, strict (quick: a seventh of those of the same kind)", Run: firstOfTwo},
		},
	})
	register(&mc.Property{
		ID: "C27", Level: "model_checking",
		Method: "exhaustive enumeration of textual forms: every attribute x forms of its kind through the real decoder, every short string as a number or identifier, every one or two character edit of colours",
		Rule:   "a valid form gives the value it denotes (exact rational arithmetic) and changes nothing else; any other string is rejected",
		Assumptions: []string{
			"numbers follow the pattern of the 3MF schema; white space around them, a plus sign before integers, a trailing point, other spellings of booleans, hexadecimal and the names of infinity and NaN are not judged",
		},
		Scenarios: []mc.Scenario{
			{Name: "spellings", Bound: "every typed attribute of every element of three parts x forms of its kind", Run: spellings},
			{Name: "malformed", Bound: "every typed attribute x malformed values, in the three decoding modes", Run: malformed},
			{Name: "enumerations", Bound: "every attribute of a fixed set of values x each of its values with one letter or all in the other case, one character missing or added anywhere, only a part of it; the values of the other attributes", Run: enumerations},
			{Name: "numbers", Bound: "every string of up to 5 (thorough: 6) characters of 01.-+eE9, space, x as two kinds of coordinates", Run: numberStrings},
			{Name: "identifiers", Bound: "every string of up to 5 characters of 019-+.x and space, and values around powers of two", Run: idStrings},
			{Name: "colours", Bound: "4 colours: every character x every byte, every pair of positions x 12 characters, every length, every channel value", Run: colors},
			{Name: "matrices", Bound: "0 to 15 fields, every field x 13 forms, every pair of fields, x separators", Run: matrixStrings},
		},
	})
}
