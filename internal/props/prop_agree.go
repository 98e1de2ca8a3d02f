package props

import (
	"archive/zip"
	"bytes"
	"context"
	"encoding/xml"
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/hpinc/go3mf"
	specerr "github.com/hpinc/go3mf/errors"

	"verif3mf/internal/mc"
)

// ---- C37: every way in and out gives the same ------------------------------

// isLocated tells whether the error is about elements and not about the document.
func isLocated(err error) bool {
	switch err.(type) {
	case *specerr.Error, *specerr.List:
		return true
	}
	return false
}

func errString(err error) string {
	if err == nil {
		return "no error"
	}
	return err.Error()
}

// anyOrder is the text of the errors, one a line.
func errLines(err error) []string {
	var out []string
	for _, e := range allErrors(err) {
		out = append(out, e.Error())
	}
	return out
}

// pathless is the text of an error without the part it is in.
func pathless(err error) string {
	var e *specerr.Error
	if errors.As(err, &e) {
		return e.XPath() + ": " + e.Err.Error()
	}
	return err.Error()
}

// ofRootOnly tells whether a child model has no such errors.
func ofRootOnly(err error) bool {
	var e *specerr.Error
	if !errors.As(err, &e) {
		return false
	}
	p := e.XPath()
	return p == "/model" || strings.HasPrefix(p, "/model/build") || strings.HasPrefix(p, "/model/metadata")
}

const agreeChild = "/3D/c.model"

func agreeDoc(t *mc.T, doc []byte) {
	u := new(go3mf.Model)
	ue := go3mf.UnmarshalModel(doc, u)
	l, le := decodePackage(wrapModel(doc), false)
	t.Step()
	// a document and a package that has nothing else
	if errString(ue) != errString(le) {
		t.Failf("agree: UnmarshalModel and Decode have different errors", "%v\n%v\n%s", ue, le, doc)
	}
	if u.Path != "" || l.Path != go3mf.DefaultModelPath {
		t.Failf("agree: path", "%q %q", u.Path, l.Path)
	}
	u.Path = l.Path
	du, dl := dump(u), dump(l)
	if du != dl {
		t.Failf("agree: UnmarshalModel and Decode give different models", "%s\n%s", diff(du, dl), doc)
	}
	t.State(dl)
	// strictly or not
	s := new(go3mf.Model)
	p := &pkg{
		Parts: []pkgPart{{Name: go3mf.DefaultModelPath, CT: ctModel, Data: doc}},
		Rels:  []pkgRel{{Target: go3mf.DefaultModelPath, Type: rtModel, ID: "r0"}},
	}
	data := p.build(zip.Deflate)
	d := go3mf.NewDecoder(bytes.NewReader(data), int64(len(data)))
	se := d.DecodeContext(context.Background(), s)
	t.Step()
	switch {
	case le == nil:
		if se != nil {
			t.Failf("agree: strict decoding rejects what lenient decoding has no complaint about", "%v\n%s", se, doc)
		}
		if ds := dump(s); ds != dl {
			t.Failf("agree: strict and lenient decoding give different models", "%s\n%s", diff(ds, dl), doc)
		}
	case se == nil:
		t.Failf("agree: strict decoding accepts what lenient decoding complains about", "%v\n%s", le, doc)
	case isLocated(le):
		if w := allErrors(le)[0].Error(); se.Error() != w {
			t.Failf("agree: strict decoding has another error than the first one", "%v\n%v\n%s", se, w, doc)
		}
	default:
		if !isLocated(se) && se.Error() != le.Error() {
			t.Failf("agree: strict decoding has another error", "%v\n%v\n%s", se, le, doc)
		}
	}
	agreeChildren(t, doc, l, le)
	if le != nil {
		return
	}
	// written with or without a package
	if !goodDoc(doc) || oddTargets(l) {
		return
	}
	b, err := go3mf.MarshalModel(u)
	if err != nil {
		t.Failf("agree: MarshalModel", "%v\n%s", err, doc)
	}
	t.Step()
	out, err := encodePackage(l, 4)
	if err != nil {
		t.Failf("agree: Encode", "%v\n%s", err, doc)
	}
	q, err := openPkg(out)
	if err != nil {
		t.Failf("agree: package", "%v\n%s", err, doc)
	}
	r := q.find(go3mf.DefaultModelPath)
	if r == nil {
		t.Failf("agree: no root model", "%s", doc)
	}
	if w := bytes.TrimPrefix(r.Data, []byte(xml.Header)); !bytes.Equal(w, b) {
		t.Failf("agree: MarshalModel and Encode write different documents", "%s\n%s", window(string(b), string(w)), doc)
	}
	if a, b := errString(u.Validate()), errString(l.Validate()); a != b {
		t.Failf("agree: validation", "%s\n%s\n%s", a, b, doc)
	}
}

// agreeChildren compares the document as a child model with it as the root.
func agreeChildren(t *mc.T, doc []byte, l *go3mf.Model, le error) {
	t.Step()
	c, ce := decodePackage(childPackage(doc), false)
	if le != nil && !isLocated(le) {
		if ce == nil {
			t.Failf("agree: a child model is accepted that is no document", "%v\n%s", le, doc)
		}
		return
	}
	if ce != nil && !isLocated(ce) {
		t.Failf("agree: a child model is rejected that is a document", "%v\n%s", ce, doc)
	}
	var want, got []string
	for _, e := range allErrors(le) {
		if !ofRootOnly(e) {
			want = append(want, pathless(e))
		}
	}
	for _, e := range allErrors(ce) {
		got = append(got, pathless(e))
		var x *specerr.Error
		if !errors.As(e, &x) || x.Path != agreeChild {
			t.Failf("agree: an error of a child model does not name it", "%v\n%s", e, doc)
		}
	}
	if w, g := strings.Join(want, "\n"), strings.Join(got, "\n"); w != g {
		t.Failf("agree: errors of a child model differ", "%s\n%s", diff(w, g), doc)
	}
	child := c.Childs[agreeChild]
	if child == nil {
		t.Failf("agree: no child model", "%s", doc)
	}
	w, g := dump([]interface{}{l.Resources, l.Any}), dump([]interface{}{child.Resources, child.Any})
	if w != g {
		t.Failf("agree: resources of a child model differ", "%s\n%s", diff(w, g), doc)
	}
	// strictly
	_, se := decodePackage(childPackage(doc), true)
	t.Step()
	if (se == nil) != (ce == nil) {
		t.Failf("agree: strict and lenient decoding of a child model", "%v\n%v\n%s", se, ce, doc)
	}
	if se != nil && se.Error() != allErrors(ce)[0].Error() {
		t.Failf("agree: strict decoding has another error than the first one", "%v\n%v\n%s", se, ce, doc)
	}
}

func agreeChange(t *mc.T) {
	base, _ := hostileTree()
	all, _ := mutations()
	root := base.clone()
	what := "nothing"
	if k := t.Free(len(all) + 1); k > 0 {
		all[k-1].do(root)
		what = all[k-1].what
	}
	t.Case(what)
	t.Logf("%s", what)
	doc := render(root, nsCore, prefixes, styleN(0))
	t.Logf("%s", doc)
	agreeDoc(t, doc)
}

func agreePairs(t *mc.T) {
	base, _ := hostileTree()
	_, few := mutations()
	root := base.clone()
	a := t.Free(len(few))
	if a+1 == len(few) {
		t.Skip()
	}
	b := a + 1 + t.Free(len(few)-a-1)
	if t.Tier != "thorough" && (a+b)%7 != 0 {
		t.Skip()
	}
	func() {
		defer func() { recover() }() // the second place can be gone
		few[b].do(root)
		few[a].do(root)
	}()
	t.Case(few[a].what + ", " + few[b].what)
	doc := render(root, nsCore, prefixes, styleN(0))
	t.Logf("%s", doc)
	agreeDoc(t, doc)
}

func agreeBytes(t *mc.T) {
	base, _ := hostileTree()
	doc := render(base, nsCore, prefixes, styleN(0))
	i := t.Free(len(doc))
	out := append([]byte(nil), doc...)
	switch k := t.Free(6); k {
	case 0: // cut off
		out = out[:i]
	default:
		out[i] = `"&<9-`[k-1]
	}
	t.Case(fmt.Sprint(i, out[i:min(i+1, len(out))]))
	agreeDoc(t, out)
}

// ---- C38: neighbours -------------------------------------------------------

// pieces is what the parts of a document give.
type pieces struct {
	assets, objects, items, metadata, any []string
	errs                                  map[string][]string // by the list
	written                               map[string][]string
	fail                                  string
}

var (
	levelIndex = regexp.MustCompile(`^(/model/(?:(?:resources|build)/)?[^/\[]+)\[\d+\]`)
	soloMu     sync.Mutex
	soloCache  = map[string]*pieces{}
	listCache  = map[string]*listGiven{}
)

func givenBy(root *N) *pieces {
	doc := render(root, nsCore, prefixes, styleN(0))
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel(doc, m)
	p := &pieces{errs: map[string][]string{}, written: map[string][]string{}}
	if err != nil && !isLocated(err) {
		p.fail = err.Error()
		return p
	}
	for _, a := range m.Resources.Assets {
		p.assets = append(p.assets, dump(a))
	}
	for _, o := range m.Resources.Objects {
		p.objects = append(p.objects, dump(o))
	}
	for _, i := range m.Build.Items {
		p.items = append(p.items, dump(i))
	}
	for _, x := range m.Metadata {
		p.metadata = append(p.metadata, dump(x))
	}
	for _, x := range m.Any {
		p.any = append(p.any, dump(x))
	}
	for _, e := range allErrors(err) {
		s := levelIndex.ReplaceAllString(pathless(e), "$1")
		for _, l := range []string{"/model/resources/", "/model/build/", "/model/metadata"} {
			if strings.HasPrefix(s, l) {
				p.errs[l] = append(p.errs[l], s)
			}
		}
	}
	if err != nil || !goodNames(root) {
		return p
	}
	b, err := go3mf.MarshalModel(m)
	if err != nil {
		p.fail = "MarshalModel: " + err.Error()
		return p
	}
	w, err := parse(b)
	if err != nil {
		p.fail = "MarshalModel: " + err.Error()
		return p
	}
	for _, k := range w.Kids {
		switch {
		case k.Space == nsCore && (k.Local == "resources" || k.Local == "build"):
			for _, x := range k.Kids {
				key := k.Local
				if k.Local == "resources" && x.Space == nsCore && x.Local == "object" {
					key = "object"
				}
				p.written[key] = append(p.written[key], x.canon())
			}
		default:
			key := "any"
			if k.Space == nsCore {
				key = k.Local
			}
			p.written[key] = append(p.written[key], k.canon())
		}
	}
	return p
}

// solo is what one of the parts gives alone. The list is the element it is in.
func solo(root, list, kid *N) *pieces {
	r := &N{Space: root.Space, Local: root.Local, Attr: root.Attr}
	if list == nil {
		r.Kids = []*N{kid}
	} else {
		r.Kids = []*N{{Space: list.Space, Local: list.Local, Attr: list.Attr, Kids: []*N{kid}}}
	}
	key := r.canon()
	soloMu.Lock()
	p := soloCache[key]
	soloMu.Unlock()
	if p != nil {
		return p
	}
	p = givenBy(r)
	soloMu.Lock()
	if len(soloCache) > 20000 {
		clear(soloCache)
	}
	soloCache[key] = p
	soloMu.Unlock()
	return p
}

// sumOfParts checks that a document gives what its parts give alone.
func sumOfParts(t *mc.T, root *N) {
	if root.Space != nsCore || root.Local != "model" {
		t.Skip()
	}
	t.Step()
	got := givenBy(root)
	want := &pieces{errs: map[string][]string{}, written: map[string][]string{}}
	add := func(list, kid *N) {
		p := solo(root, list, kid)
		want.assets = append(want.assets, p.assets...)
		want.objects = append(want.objects, p.objects...)
		want.items = append(want.items, p.items...)
		want.metadata = append(want.metadata, p.metadata...)
		want.any = append(want.any, p.any...)
		for k, e := range p.errs {
			want.errs[k] = append(want.errs[k], e...)
		}
		for k, e := range p.written {
			want.written[k] = append(want.written[k], e...)
		}
		if want.fail == "" {
			want.fail = p.fail
		}
		t.Step()
	}
	for _, k := range root.Kids {
		if k.Space == nsCore && (k.Local == "resources" || k.Local == "build") {
			for _, x := range k.Kids {
				add(k, x)
			}
		} else {
			add(nil, k)
		}
	}
	if (want.fail == "") != (got.fail == "") {
		t.Failf("sum: verdict", "%q together, %q alone", got.fail, want.fail)
	}
	if got.fail != "" {
		return
	}
	same := func(what string, w, g []string) {
		t.State(fmt.Sprint(what, g))
		if a, b := strings.Join(w, "\n"), strings.Join(g, "\n"); a != b {
			t.Failf("sum: "+what+" differ from those of the parts alone", "%s", diff(a, b))
		}
	}
	same("assets", want.assets, got.assets)
	same("objects", want.objects, got.objects)
	same("items", want.items, got.items)
	same("metadata", want.metadata, got.metadata)
	same("elements", want.any, got.any)
	for _, k := range []string{"/model/resources/", "/model/build/", "/model/metadata"} {
		same("errors of "+k, want.errs[k], got.errs[k])
	}
	if len(got.written) > 0 {
		for _, k := range []string{"resources", "object", "build", "metadata", "any"} {
			same("written "+k, want.written[k], got.written[k])
		}
	}
}

func sumChange(t *mc.T) {
	base, _ := hostileTree()
	all, _ := mutations()
	root := base.clone()
	what := "nothing"
	if k := t.Free(len(all) + 1); k > 0 {
		all[k-1].do(root)
		what = all[k-1].what
	}
	t.Case(what)
	t.Logf("%s", what)
	t.Logf("%s", render(root, nsCore, prefixes, styleN(0)))
	sumOfParts(t, root)
}

// listGiven is what a list of elements in a place gives.
type listGiven struct {
	errs, kids []string
	fail       string
}

var anyIndex = regexp.MustCompile(`\[\d+\]`)

// inPlace decodes and encodes a document with nothing but the elements of the chain, the last
// of which has the given children.
func inPlace(chain, kids []*N) *listGiven {
	var n *N
	for i := len(chain) - 1; i >= 0; i-- {
		c := chain[i]
		x := &N{Space: c.Space, Local: c.Local, Attr: c.Attr}
		if n == nil {
			x.Kids = kids
		} else {
			x.Kids = []*N{n}
		}
		n = x
	}
	doc := render(n, nsCore, prefixes, styleN(0))
	key := fmt.Sprint(len(chain), string(doc))
	if len(kids) == 1 {
		soloMu.Lock()
		g := listCache[key]
		soloMu.Unlock()
		if g != nil {
			return g
		}
	}
	g := new(listGiven)
	if len(kids) == 1 {
		defer func() {
			soloMu.Lock()
			if len(listCache) > 50000 {
				clear(listCache)
			}
			listCache[key] = g
			soloMu.Unlock()
		}()
	}
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel(doc, m)
	if err != nil && !isLocated(err) {
		g.fail = err.Error()
		return g
	}
	for _, e := range allErrors(err) {
		g.errs = append(g.errs, anyIndex.ReplaceAllString(pathless(e), ""))
	}
	if !goodNames(n) {
		return g
	}
	b, err := go3mf.MarshalModel(m)
	if err != nil {
		g.fail = "MarshalModel: " + err.Error()
		return g
	}
	w, err := parse(b)
	if err != nil {
		g.fail = "MarshalModel: " + err.Error()
		return g
	}
	for _, c := range chain[1:] {
		var next *N
		for _, k := range w.Kids {
			if k.Space == c.Space && k.Local == c.Local {
				next = k
				break
			}
		}
		if w = next; w == nil {
			return g
		}
	}
	for _, k := range w.Kids {
		g.kids = append(g.kids, k.canon())
	}
	byName(g.kids)
	return g
}

// byName sorts elements by name: the order of elements of different kinds is not kept.
func byName(kids []string) {
	name := func(i int) string { s, _, _ := strings.Cut(kids[i], ">"); s, _, _ = strings.Cut(s, " "); return s }
	names := map[string]string{}
	for i, k := range kids {
		names[k] = name(i)
	}
	sort.SliceStable(kids, func(i, j int) bool { return names[kids[i]] < names[kids[j]] })
}

// lists are the elements which hold any number of elements.
var lists = map[string]bool{"resources": true, "build": true, "metadatagroup": true, "basematerials": true, "vertices": true, "triangles": true, "components": true,
	"texture2dgroup": true, "colorgroup": true, "compositematerials": true, "multiproperties": true, "slicestack": true, "polygon": true, "beams": true, "beamsets": true, "beamset": true}

// listPlace is a changed element of a list, and where that is.
type listPlace struct {
	chain []*N
	kid   *N
}

var placesCache sync.Map // of each change

// placesOf are the lists around the place of a change, outermost first.
func placesOf(k int) []listPlace {
	if p, ok := placesCache.Load(k); ok {
		return p.([]listPlace)
	}
	base, _ := hostileTree()
	all, _ := mutations()
	root := base.clone()
	all[k].do(root)
	a, b := base, root
	chain := []*N{base}
	var places []listPlace
	for len(a.Kids) == len(b.Kids) && a.Space == b.Space && a.Local == b.Local {
		diff, n := 0, 0
		for i := range a.Kids {
			if a.Kids[i].canon() != b.Kids[i].canon() {
				diff = i
				n++
			}
		}
		if n != 1 {
			break
		}
		if lists[a.Local] {
			places = append(places, listPlace{append([]*N(nil), chain...), b.Kids[diff]})
		}
		a, b = a.Kids[diff], b.Kids[diff]
		chain = append(chain, a)
	}
	placesCache.Store(k, places)
	return places
}

// sumLists has a changed element of a list before, after and between others.
func sumLists(t *mc.T) {
	all, _ := mutations()
	k := t.Free(len(all))
	places, mu := placesOf(k), all[k]
	if len(places) == 0 {
		t.Skip()
	}
	p := places[t.Free(len(places))]
	others := p.chain[len(p.chain)-1].Kids
	i := t.Free(len(others))
	if t.Tier != "thorough" && len(others) > 5 && (i+k)%3 != 0 {
		t.Skip()
	}
	o := others[i]
	order := [][]*N{{p.kid, o}, {o, p.kid}, {o, p.kid, o}, {p.kid, p.kid}}[t.Free(4)]
	t.Case(fmt.Sprint(mu.what, len(p.chain), o.canon(), len(order), order[0] == o))
	t.Logf("%s: %d elements in %s", mu.what, len(order), p.chain[len(p.chain)-1].Local)
	got := inPlace(p.chain, order)
	want := new(listGiven)
	for _, k := range order {
		g := inPlace(p.chain, []*N{k})
		want.errs = append(want.errs, g.errs...)
		want.kids = append(want.kids, g.kids...)
		if g.fail != "" {
			want.fail = g.fail
		}
		t.Step()
	}
	byName(want.kids)
	t.State(fmt.Sprint(got))
	if (got.fail == "") != (want.fail == "") {
		t.Failf("sum: verdict", "%q together, %q alone", got.fail, want.fail)
	}
	if got.fail != "" {
		return
	}
	if a, b := strings.Join(want.errs, "\n"), strings.Join(got.errs, "\n"); a != b {
		t.Failf("sum: errors differ from those of the elements alone", "%s", diff(a, b))
	}
	if a, b := strings.Join(want.kids, "\n"), strings.Join(got.kids, "\n"); a != b {
		t.Failf("sum: elements differ from those of the elements alone", "%s", diff(a, b))
	}
}

func init() {
	register(&mc.Property{
		ID:          "C37",
		Method:      "exhaustive enumeration of changes of a document that has everything, each read and written in every way the library has",
		Rule:        "UnmarshalModel, Decode and DecodeContext, of stored and compressed packages, give the same errors and models; strict decoding accepts what lenient decoding has no complaint about and otherwise reports its first complaint; a child model gives the resources and complaints of the same document as root; MarshalModel writes what Encode writes.",
		Assumptions: []string{"one malformed document, not several parts at a time", "errors of the document itself (no XML) may come after complaints about elements in strict mode"},
		Scenarios: []mc.Scenario{
			{Name: "changes", Bound: "every change of every element and attribute of a document", Run: agreeChange},
			{Name: "two changes", Bound: "a seventh (thorough: all) of the pairs of removals and numbers", Run: agreePairs},
			{Name: "bytes", Bound: "the document cut off at every byte, and every byte replaced by 5 others", Run: agreeBytes},
		},
	})
	register(&mc.Property{
		ID:          "C38",
		Method:      "exhaustive enumeration of changes of a document that has everything, compared with its parts read and written alone",
		Rule:        "What a resource, an item, a piece of metadata or an unknown element gives when it is decoded, complained about and encoded does not depend on its neighbours.",
		Assumptions: []string{"references are not followed when decoding and encoding"},
		Scenarios: []mc.Scenario{
			{Name: "changes", Bound: "every change of every element and attribute of a document", Run: sumChange},
			{Name: "lists", Bound: "every changed element of every list of the document before, after and between every unchanged one (a third of those of long lists; thorough: all), and twice", Run: sumLists},
		},
	})
}
