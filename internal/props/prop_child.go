package props

import (
	"archive/zip"
	"fmt"

	"github.com/hpinc/go3mf"

	"verif3mf/internal/mc"
)

// Everything that can be in the root model, in a child model.

const movedChild = "/3D/c.model"

// moveAway puts the resources of the model into a child model.
func moveAway(m *go3mf.Model) {
	m.Childs = map[string]*go3mf.ChildModel{movedChild: {Resources: m.Resources}}
	m.Resources = go3mf.Resources{}
}

// childNormal is what decoding gives when the resources are moved.
func childNormal(m *go3mf.Model, prec int, norm func(*go3mf.Model, int)) {
	c := m.Childs[movedChild]
	m.Resources, c.Resources = c.Resources, go3mf.Resources{}
	norm(m, prec)
	m.Resources, c.Resources = go3mf.Resources{}, m.Resources
}

func childRoundtrip(t *mc.T, m *go3mf.Model, prec int, norm func(*go3mf.Model, int)) {
	moveAway(m)
	// relationships to what is not in the package are not kept
	for _, o := range m.Childs[movedChild].Resources.Objects {
		if o.Thumbnail != "" {
			found := false
			for _, a := range m.Attachments {
				found = found || a.Path == o.Thumbnail
			}
			if !found {
				o.Thumbnail = ""
			}
		}
	}
	roundtrip(t, m, prec, t.Free(2), func(m *go3mf.Model, prec int) { childNormal(m, prec, norm) })
}

func childEncoded(t *mc.T, m *go3mf.Model, prec int) {
	moveAway(m)
	checkEncoded(t, m, prec)
}

// childDecode decodes one of the documents that denote the resources as a child model.
func childDecode(t *mc.T, m *go3mf.Model, norm func(*go3mf.Model, int)) {
	st := styleN(t.Free(nStyles))
	f := form{prec: 4, explicit: t.Free(2) == 1, upper: t.Free(2) == 1}
	if st.localNS {
		if prefixedMeta(m) {
			t.Skip()
		}
		m.Extensions = nil
	}
	moveAway(m)
	c := m.Childs[movedChild]
	t.Case(dump(c.Resources) + fmt.Sprint(st, f))
	doc := render(f.child(m, c), nsCore, prefixes, st)
	t.Logf("style %+v form %+v document:\n%s", st, f, doc)
	p := &pkg{
		Parts: []pkgPart{
			{Name: go3mf.DefaultModelPath, CT: ctModel, Data: []byte(scaleDoc("", "", "")), Rels: []pkgRel{{Target: movedChild, Type: rtModel, ID: "a"}}},
			{Name: movedChild, CT: ctModel, Data: doc},
		},
		Rels: []pkgRel{{Target: go3mf.DefaultModelPath, Type: rtModel, ID: "r0"}},
	}
	got, err := decodePackage(p.build(zip.Store), t.Free(2) == 0)
	if err != nil {
		t.Failf("decode-error "+mc.PanicSig(err), "%v\n%s", err, doc)
	}
	childNormal(m, 4, norm)
	canonModel(got)
	canonAttrs(m, false)
	canonAttrs(got, st.localNS || st.rebind)
	if got.Childs[movedChild] == nil {
		t.Failf("no child model", "%s", doc)
	}
	w, g := dump(c.Resources), dump(got.Childs[movedChild].Resources)
	t.State(g)
	if w != g {
		t.Failf("decode child "+firstDiffLine(w, g), "style %+v form %+v\n%s\n--- document\n%s", st, f, diff(w, g), doc)
	}
}

func childScenario(k int, gen func(*mc.T) *go3mf.Model, norm func(*go3mf.Model, int)) mc.Scenario {
	switch k {
	case 0:
		return mc.Scenario{Name: "in a child: roundtrip", Bound: "the resources of models with <=K deviations in a child part; strictly or not", K: 1, KT: 2, Run: func(t *mc.T) {
			childRoundtrip(t, gen(t), mc.Each(t, 4, 6, -1), norm)
		}}
	case 1:
		return mc.Scenario{Name: "in a child: encode", Bound: "the resources of models with <=K deviations in a child part, against the reference document", K: 1, KT: 2, Run: func(t *mc.T) {
			childEncoded(t, gen(t), mc.Each(t, 4, 6, -1))
		}}
	}
	return mc.Scenario{Name: "in a child: decode", Bound: "every lexical style x form, the resources of models with <=K deviations in a child part; strictly or not", K: 1, KT: 2, Run: func(t *mc.T) {
		childDecode(t, gen(t), norm)
	}}
}
