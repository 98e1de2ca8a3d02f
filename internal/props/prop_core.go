package props

import (
	"bytes"
	"context"
	"fmt"

	"github.com/hpinc/go3mf"

	"verif3mf/internal/mc"
)

var prefixes = map[string]string{nsQ: "q", nsR: "r", nsMat: "m", nsSlice: "s", nsBeam: "b", nsProd: "p"}

// mustEncode encodes or fails.
func mustEncode(t *mc.T, m *go3mf.Model, prec int) []byte {
	data, err := encodePackage(m, prec)
	if err != nil {
		t.Failf("encode-error", "Encode: %v\nmodel:\n%s", err, dump(m))
	}
	return data
}

func logModel(t *mc.T, m *go3mf.Model) {
	t.Logf("model:\n%s", dump(m))
}

// roundtrip checks decode(encode(m)) against the normal form of m.
func roundtrip(t *mc.T, m *go3mf.Model, prec int, route int, norm func(*go3mf.Model, int)) {
	before := dump(m)
	t.Case(before)
	t.Logf("model:\n%s\nprecision %d route %d", before, prec, route)
	var got *go3mf.Model
	switch route {
	case 0, 1, 3:
		data := mustEncode(t, m, prec)
		var g *go3mf.Model
		var err error
		if route < 3 {
			g, err = decodePackage(data, route == 0)
		} else { // with a context that can be cancelled
			ctx, cancel := context.WithCancel(context.Background())
			g = new(go3mf.Model)
			err = go3mf.NewDecoder(bytes.NewReader(data), int64(len(data))).DecodeContext(ctx, g)
			cancel()
		}
		if err != nil {
			t.Failf("decode-error", "Decode(Encode(m)): %v", err)
		}
		got = g
		m.Path = go3mf.DefaultModelPath
	case 2:
		data, err := go3mf.MarshalModel(m)
		if err != nil {
			t.Failf("marshal-error", "MarshalModel: %v", err)
		}
		t.Logf("document:\n%s", data)
		got = new(go3mf.Model)
		if err := go3mf.UnmarshalModel(data, got); err != nil {
			t.Failf("unmarshal-error", "UnmarshalModel(MarshalModel(m)): %v\n%s", err, data)
		}
		prec = 4
	}
	norm(m, prec)
	canonModel(got)
	canonAttrs(m, false)
	canonAttrs(got, false)
	w, g := dump(m), dump(got)
	t.State(g)
	if w != g {
		t.Failf("roundtrip "+firstDiffLine(w, g), "%s", diff(w, g))
	}
	if t.WantSample() {
		t.Sample("prec=%d route=%d objects=%d items=%d", prec, route, len(m.Resources.Objects), len(m.Build.Items))
	}
}

// checkDoc parses an encoded document and compares it with the reference tree.
func checkDoc(t *mc.T, what string, doc []byte, want *N) {
	tree, err := parse(doc)
	if err != nil {
		t.Failf("malformed "+what, "%v\n%s", err, doc)
	}
	w, g := semantic(want).canon(), semantic(tree).canon()
	if w != g {
		t.Failf("document "+what, "%s\n--- document\n%s", diff(w, g), doc)
	}
}

// checkEncoded verifies every model part of the encoded package.
func checkEncoded(t *mc.T, m *go3mf.Model, prec int) {
	s := dump(m)
	t.Case(s)
	t.Logf("model:\n%s\nprecision %d", s, prec)
	data := mustEncode(t, m, prec)
	p, err := openPkg(data)
	if err != nil {
		t.Failf("package", "%v", err)
	}
	f := form{prec: prec}
	root := p.find(m.PathOrDefault())
	if root == nil {
		t.Failf("no-root-part", "package has no %s", m.PathOrDefault())
	}
	checkDoc(t, "root", root.Data, f.root(m))
	for cp, c := range m.Childs {
		x := p.find(resolve(m.PathOrDefault(), cp))
		if x == nil {
			t.Failf("no-child-part", "package has no %s", cp)
		}
		want := semantic(f.child(m, c))
		tree, err := parse(x.Data)
		if err != nil {
			t.Failf("malformed child", "%v\n%s", err, x.Data)
		}
		got := semantic(tree)
		if w, g := childAttrs(want).canon(), childAttrs(got).canon(); w != g {
			t.Failf("document child", "%s\n--- document\n%s", diff(w, g), x.Data)
		}
	}
	t.State(string(root.Data))
	t.Sample("%d bytes, precision %d", len(root.Data), prec)
}

// childAttrs keeps the attributes of a non-root model element that matter.
func childAttrs(n *N) *N {
	var out []A
	for _, a := range n.Attr {
		if (a.Space == "" && (a.Local == "unit" || a.Local == "requiredextensions")) || a.Space == "xmlns" {
			out = append(out, a)
		}
	}
	n.Attr = out
	return n
}

// checkDecode renders one of the documents that denote m and decodes it.
// prepare turns m into what the decoder must produce.
func checkDecode(t *mc.T, m *go3mf.Model, norm func(*go3mf.Model, int)) {
	st := pickStyle(t)
	f := form{prec: 4, explicit: t.Flip(), upper: t.Flip()}
	checkDecodeAs(t, m, norm, st, f)
}

// checkDecodeAll is checkDecode with every combination of style and form.
func checkDecodeAll(t *mc.T, m *go3mf.Model, norm func(*go3mf.Model, int)) {
	st := styleN(t.Free(nStyles))
	f := form{prec: 4, explicit: t.Free(2) == 1, upper: t.Free(2) == 1}
	checkDecodeAs(t, m, norm, st, f)
}

func checkDecodeAs(t *mc.T, m *go3mf.Model, norm func(*go3mf.Model, int), st style, f form) {
	route := t.Free(2)
	if st.localNS {
		for _, e := range m.Extensions {
			if e.IsRequired {
				t.Skip()
			}
		}
		if prefixedMeta(m) {
			t.Skip() // the prefixes of metadata names are declared on the root
		}
		m.Extensions = nil
	}
	t.Case(dump(m) + fmt.Sprint(st, f, route))
	doc := render(f.root(m), nsCore, prefixes, st)
	t.Logf("style %+v form %+v route %d document:\n%s", st, f, route, doc)
	var got *go3mf.Model
	var err error
	if route == 0 {
		got, err = decodePackage(wrapModel(doc), true)
		got.Path = ""
	} else {
		got = new(go3mf.Model)
		err = go3mf.UnmarshalModel(doc, got)
	}
	if err != nil {
		t.Failf("decode-error "+mc.PanicSig(err), "%v\n%s", err, doc)
	}
	norm(m, 4)
	canonModel(got)
	if st.prefixCore {
		// the prefix bound to the core namespace is reported as an extension
		var out []go3mf.Extension
		for _, e := range got.Extensions {
			if e.Namespace != nsCore {
				out = append(out, e)
			}
		}
		got.Extensions = out
	}
	if st.localNS {
		got.Extensions = nil // declarations needed by attributes of the root itself
	}
	canonAttrs(m, false)
	canonAttrs(got, st.localNS || st.rebind)
	w, g := dump(m), dump(got)
	t.State(g)
	if w != g {
		t.Failf("decode "+firstDiffLine(w, g), "style %+v form %+v\n%s\n--- document\n%s", st, f, diff(w, g), doc)
	}
	t.Sample("style=%+v explicit=%v", st, f.explicit)
}

func prefixedMeta(m *go3mf.Model) bool {
	has := func(ms []go3mf.Metadata) bool {
		for _, x := range ms {
			if x.Name.Space != "" {
				return true
			}
		}
		return false
	}
	if has(m.Metadata) {
		return true
	}
	for _, it := range m.Build.Items {
		if has(it.Metadata.Metadata) {
			return true
		}
	}
	for _, o := range m.Resources.Objects {
		if has(o.Metadata.Metadata) {
			return true
		}
	}
	return false
}

func genCorePlain(t *mc.T) *go3mf.Model { return genCore(t, coreOpts{}) }

func precision(t *mc.T) int { return mc.Pick(t, 4, 0, 1, 2, 6, 9, -1) }

func init() {
	register(&mc.Property{
		ID:     "C01",
		Method: "bounded exhaustive exploration of the real encoder and decoder against a normal form",
		Rule:   "every core model within the generator's deviation bound decodes to its normal form after encoding",
		Assumptions: []string{
			"models are a base 3MF model using every core element plus at most K deviations from it (values, presence, shapes)",
			"coordinates are compared after rounding to FloatPrecision, transforms after rounding to three decimals",
		},
		Scenarios: append([]mc.Scenario{
			{Name: "core", Bound: "core models with <=K deviations from the base; both package routes and MarshalModel", K: 2, KT: 3, Run: func(t *mc.T) {
				route := t.Free(3)
				prec := 4
				if route < 2 {
					prec = precision(t)
				}
				roundtrip(t, genCore(t, coreOpts{}), prec, route, normalize)
			}},
		}, append(append(valuesRoundtrip(), childScenario(0, genCorePlain, normalize)), shapeScenarios("", 0, 3)...)...),
	})
	register(&mc.Property{
		ID:     "C02",
		Method: "bounded exhaustive exploration of the real encoder against an independent document grammar",
		Rule:   "every model part written is well-formed, namespace-valid XML whose content is exactly the model's",
		Assumptions: []string{
			"same model space as C01 and C08; documents are read back with encoding/xml.RawToken and a strict namespace resolver",
		},
		Scenarios: append([]mc.Scenario{
			{Name: "core", Bound: "core models with <=K deviations from the base", K: 2, KT: 3, Run: func(t *mc.T) {
				prec := precision(t)
				checkEncoded(t, genCore(t, coreOpts{}), prec)
			}},
			{Name: "core+any", Bound: "core models with foreign attributes and elements, <=K deviations", K: 2, KT: 2, Run: func(t *mc.T) {
				checkEncoded(t, genCore(t, coreOpts{any: true}), 4)
			}},
		}, append(append(valuesEncoded(), childScenario(1, genCorePlain, normalize)), shapeScenarios("", 1)...)...),
	})
	register(&mc.Property{
		ID:     "C03",
		Method: "bounded exhaustive exploration of the real decoder on every lexical form of the documents of a model",
		Rule:   "every equivalent XML serialisation of a model decodes to that model",
		Assumptions: []string{
			"18 lexical styles, explicit/implicit defaults, scientific notation/upper case; combined with <=K-1 deviations of the model",
		},
		Scenarios: append([]mc.Scenario{
			{Name: "core", Bound: "lexical style x form x core models, <=K deviations in total", K: 2, KT: 3, Run: func(t *mc.T) {
				checkDecode(t, genCore(t, coreOpts{}), normalize)
			}},
			{Name: "core all styles", Bound: "every style x form, core models with <=K deviations", K: 1, KT: 2, Run: func(t *mc.T) {
				checkDecodeAll(t, genCore(t, coreOpts{}), normalize)
			}},
			{Name: "two styles", Bound: "a model that uses everything, none, all or some of its extensions required, in any two styles (thorough: three)", Run: func(t *mc.T) {
				m := shapeModel()
				mask := t.Free(4)
				for i := range m.Extensions {
					m.Extensions[i].IsRequired = mask == 1 || mask > 1 && i%2 == mask%2
				}
				a := t.Free(nStyles)
				b := a + t.Free(nStyles-a)
				st := styleN(a).both(styleN(b))
				if t.Tier == "thorough" {
					st = st.both(styleN(b + t.Free(nStyles-b)))
				}
				checkDecodeAs(t, m, normAll, st, form{prec: 4, explicit: t.Free(2) == 1, upper: t.Free(2) == 1})
			}},
		}, append(shapeScenarios("", 2), childScenario(2, genCorePlain, normalize))...),
	})
}
