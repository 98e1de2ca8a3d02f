package props

import (
	"encoding/xml"
	"fmt"
	"reflect"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/spec"

	"verif3mf/internal/mc"
)

// ---- C01-C07: shapes ----------------------------------------------------------------

// normAll is the normal form of a model that uses everything.
func normAll(m *go3mf.Model, prec int) {
	normMaterials(m, prec)
	normSlices(m, prec)
	normBeams(m, prec)
}

// shapeModel uses everything, with texts that have to be escaped.
func shapeModel() *go3mf.Model {
	m := bare(sampleAll())
	m.Metadata[0].Value, m.Metadata[0].Type = `<t> & "t"`, `x&"y"`
	m.Resources.Assets[0].(*go3mf.BaseMaterials).Materials[0].Name = `a<&'">`
	m.Resources.Objects[0].Name, m.Resources.Objects[0].PartNumber = `n&<"`, `p'>&`
	m.Resources.Objects[0].Metadata.Metadata[0].Value = `&<>`
	m.Resources.Objects[0].AnyAttr = append(m.Resources.Objects[0].AnyAttr, &spec.UnknownAttrs{Space: nsQ, Attr: []xml.Attr{qattr("u", `q"&<`)}})
	m.Build.Items[0].PartNumber = `i&"<`
	for _, a := range m.Resources.Assets {
		if x, ok := a.(*materials.Texture2D); ok {
			x.Path = `/3D/Texture/t&'t.png`
		}
	}
	for _, o := range m.Resources.Objects {
		if o.Mesh != nil {
			if b := beamlattice.GetBeamLattice(o.Mesh); b != nil {
				b.BeamSets.BeamSet[0].Name, b.BeamSets.BeamSet[0].Identifier = `s&"<`, `i&"<`
			}
		}
	}
	return m
}

// listsOf are the lists of a model, outer ones before inner ones.
func listsOf(m *go3mf.Model) (paths []string, lists []reflect.Value) {
	walkValues("", reflect.ValueOf(m), func(p string, v reflect.Value) bool {
		if v.Kind() == reflect.Slice && v.CanSet() && v.Len() > 0 {
			switch v.Interface().(type) {
			case spec.AnyAttr, spec.Any, []go3mf.Extension, []go3mf.Relationship:
				// one group or element of a namespace; declarations and relationships
				// are the subject of other scenarios
				if _, ok := v.Interface().([]go3mf.Extension); ok || v.Type().Elem() == reflect.TypeOf(go3mf.Relationship{}) {
					return false
				}
				return true
			}
			if strings.HasSuffix(p, ".Attr") {
				return false
			}
			paths = append(paths, p)
			lists = append(lists, v)
		}
		return true
	}, map[uintptr]bool{})
	return
}

// cloneValue copies v, with other numbers.
func cloneValue(v reflect.Value, k int) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(cloneValue(v.Elem(), k))
			c.Set(p)
		}
	case reflect.Interface:
		if !v.IsNil() {
			c.Set(cloneValue(v.Elem(), k))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				c.Field(i).Set(cloneValue(v.Field(i), k))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(cloneValue(v.Index(i), k))
		}
	case reflect.Slice:
		if v.Len() > 0 {
			c.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				c.Index(i).Set(cloneValue(v.Index(i), k))
			}
		}
	case reflect.Uint32:
		if v.Uint() != 0 {
			c.SetUint(v.Uint() + uint64(k))
		}
	case reflect.Float32:
		if v.Float() != 0 {
			c.SetFloat(v.Float() + float64(k))
		}
	}
	return c
}

// resize gives a list n elements: its own, again and again, with other numbers.
func resize(v reflect.Value, n int) {
	out := reflect.MakeSlice(v.Type(), n, n)
	for i := 0; i < n; i++ {
		out.Index(i).Set(cloneValue(v.Index(i%v.Len()), i/v.Len()*v.Len()))
	}
	v.Set(out)
}

// packageOfPath is the package that defines what is found at a path of a model.
func packageOfPath(m *go3mf.Model, p string) string {
	pkg := "go3mf"
	of := func(v interface{}) {
		s := reflect.TypeOf(v).String()
		pkg = strings.TrimPrefix(s[:strings.IndexByte(s, '.')], "*")
	}
	walkValues("", reflect.ValueOf(m), func(q string, v reflect.Value) bool {
		if !strings.HasPrefix(p, q) {
			return false
		}
		if v.Kind() == reflect.Interface {
			of(v.Interface())
		}
		return true
	}, map[uintptr]bool{})
	return pkg
}

func codecRoute(t *mc.T, m *go3mf.Model, how int) {
	switch how {
	case 0:
		roundtrip(t, m, 4, 0, normAll)
	case 1:
		checkEncoded(t, m, 4)
	case 2:
		checkDecodeAs(t, m, normAll, styleN(0), form{prec: 4})
	case 3:
		roundtrip(t, m, 4, 2, normAll)
	default:
		roundtrip(t, m, 4, 3, normAll)
	}
}

// shapeLists gives any two lists of the model other lengths.
func shapeLists(pkg string, hows ...int) func(t *mc.T) {
	return func(t *mc.T) {
		how := hows[t.Free(len(hows))]
		m := shapeModel()
		paths, lists := listsOf(m)
		i := t.Free(len(lists))
		j := i + t.Free(len(lists)-i)
		what := ""
		if pkg != "" && packageOfPath(m, paths[i]) != pkg && packageOfPath(m, paths[j]) != pkg {
			t.Skip()
		}
		if i == j {
			n := t.Free(41)
			if t.Tier == "thorough" && n == 40 {
				n += t.Free(260)
			}
			resize(lists[i], n)
			what = fmt.Sprintf("%s: %d", paths[i], n)
		} else {
			sizes := []int{0, 1, 3}
			if t.Tier == "thorough" {
				sizes = []int{0, 1, 2, 3, 4, 5, 7, 9}
			}
			a, b := sizes[t.Free(len(sizes))], sizes[t.Free(len(sizes))]
			resize(lists[j], b)
			resize(lists[i], a)
			what = fmt.Sprintf("%s: %d, %s: %d", paths[i], a, paths[j], b)
		}
		t.Logf("%s", what)
		codecRoute(t, m, how)
	}
}

// bigSizes are around powers of two and multiples of a thousand.
var bigSizes = func() (out []int) {
	for n := 64; n <= 4096; n *= 2 {
		out = append(out, n-1, n, n+1)
	}
	for n := 1000; n <= 3000; n += 1000 {
		for d := -4; d <= 4; d++ {
			out = append(out, n+d)
		}
	}
	return
}()

// shapeBig gives any list of the model a great length.
func shapeBig(pkg string) func(t *mc.T) {
	return func(t *mc.T) {
		m := shapeModel()
		paths, lists := listsOf(m)
		i := t.Free(len(lists))
		if p := packageOfPath(m, paths[i]); p != pkg && (pkg != "" || p != "go3mf") {
			t.Skip()
		}
		n := bigSizes[t.Free(len(bigSizes))]
		resize(lists[i], n)
		t.Logf("%s: %d", paths[i], n)
		codecRoute(t, m, mc.Each(t, 4, 3))
	}
}

type leafOf struct {
	path, parent, field string
	v                   reflect.Value
}

// leavesOf are the texts and numbers of a model.
func leavesOf(m *go3mf.Model) (out []leafOf) {
	walkValues("", reflect.ValueOf(m), func(p string, v reflect.Value) bool {
		i := strings.LastIndexByte(p, '.')
		if i < 0 {
			return true
		}
		field := p[i+1:]
		if p == ".Path" {
			return false
		}
		switch field {
		case "Extensions", "Attr", "UUID", "Name.Space", "Thumbnail", "ContentType", "Preserve":
			return false
		}
		if strings.HasSuffix(p, ".Name.Space") || v.Type() == reflect.TypeOf(spec.UnknownAttrs{}) {
			return false
		}
		switch v.Type().String() {
		case "string", "uint32", "float32":
			if v.CanSet() {
				if j := strings.IndexByte(field, '['); j > 0 { // an array or a list
					i += 1 + j
				}
				out = append(out, leafOf{p, p[:i], p[i:], v})
			}
		}
		return true
	}, map[uintptr]bool{})
	return
}

func objectAt(m *go3mf.Model, path string) (o *go3mf.Object) {
	walkValues("", reflect.ValueOf(m), func(p string, v reflect.Value) bool {
		if x, ok := v.Interface().(*go3mf.Object); ok && p == path {
			o = x
		}
		return true
	}, map[uintptr]bool{})
	return
}

// shapeValues lets a text or number of the model be the same as another one.
func shapeValues(pkg string, hows ...int) func(t *mc.T) {
	return func(t *mc.T) {
		how := hows[t.Free(len(hows))]
		m := shapeModel()
		ls := leavesOf(m)
		a := ls[t.Free(len(ls))]
		if pkg != "" && packageOfPath(m, a.path) != pkg {
			t.Skip()
		}
		if o := objectAt(m, a.parent); o != nil && o.Mesh == nil && (a.field == ".PID" || a.field == ".PIndex") {
			// not allowed on an object of components
			t.Skip()
		}
		var of []leafOf
		for _, b := range ls {
			if b.v.Type() != a.v.Type() || b.path == a.path {
				continue
			}
			if strings.HasSuffix(a.field, "Path") && !strings.HasPrefix(b.v.String(), "/") {
				continue // not the name of a part
			}
			if strings.Contains(a.path, "Radius") && b.v.Float() <= 0 {
				continue // not the radius of a beam
			}
			if b.parent == a.parent || t.Tier == "thorough" {
				of = append(of, b)
			}
		}
		k := t.Free(len(of) + 2)
		switch {
		case k == len(of):
			a.v.SetZero()
			t.Logf("%s empty", a.path)
		case k > len(of):
			switch a.v.Kind() {
			case reflect.String:
				a.v.SetString(a.v.String() + "&")
			case reflect.Uint32:
				a.v.SetUint(1<<32 - 1)
			default:
				a.v.SetFloat(0.125)
			}
			t.Logf("%s another", a.path)
		default:
			a.v.Set(of[k].v)
			t.Logf("%s like %s", a.path, of[k].path)
		}
		codecRoute(t, m, how)
	}
}

// shapeScenarios are about a package, or about everything.
func shapeScenarios(pkg string, hows ...int) []mc.Scenario {
	big := []mc.Scenario{{Name: "great lengths", Bound: "the same model: each of its lists with every length within one of a power of two from 64 to 4096, or within four of 1000, 2000 and 3000; packages decoded with a context, MarshalModel", Run: shapeBig(pkg)},
		{Name: "greatest lengths", Bound: "the same model: each of its lists (thorough: objects, assets and slices as well) with 65537 elements (thorough: three lengths)", Run: shapeHuge(pkg)},
		{Name: "great texts", Bound: "the same model: each of its texts with 20 lengths up to 70001 (thorough: 24 up to 4 MiB), four kinds of characters", Run: shapeTexts(pkg)}}
	if hows[0] != 0 {
		big = nil
	}
	return append(big, []mc.Scenario{
		{Name: "lengths", Bound: "a model that uses everything: every length up to 40 (thorough: 300) of each of its lists, 3 (thorough: 8) lengths of any two of them", Run: shapeLists(pkg, hows...)},
		{Name: "coincidences", Bound: "the same model: every text and number is like any other one of the same kind in its element (thorough: anywhere), is zero, or another one", Run: shapeValues(pkg, hows...)},
	}...)
}
