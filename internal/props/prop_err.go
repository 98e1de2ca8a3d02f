package props

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/hpinc/go3mf"
	specerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/uuid"

	"verif3mf/internal/mc"
)

// ---- C28: error lists ------------------------------------------------------

// refErr is a plain error with the levels added to it, innermost first.
type refErr struct {
	leaf   error
	levels []string
	path   string
}

func (r *refErr) xpath() string {
	rev := make([]string, len(r.levels))
	for i, l := range r.levels {
		rev[len(rev)-1-i] = l
	}
	return "/" + strings.Join(rev, "/")
}

func (r *refErr) text() string {
	switch {
	case len(r.levels) == 0:
		return r.leaf.Error()
	case r.path == "":
		return "go3mf: XPath: " + r.xpath() + ": " + r.leaf.Error()
	}
	return "go3mf: Path: " + r.path + " XPath: " + r.xpath() + ": " + r.leaf.Error()
}

type refVal struct {
	err  error // real value
	errs []*refErr
	list bool
	desc string
}

type customErr struct{ n int }

func (c *customErr) Error() string { return fmt.Sprintf("custom %d", c.n) }

var errAlien = errors.New("alien")

// errorExprs builds every expression of append and wrap operations with a
// stack machine and compares the result with a list of located errors.
func errorExprs(t *mc.T, n int) {
	var st []refVal
	leaves := 0
	for i := 0; i < n; i++ {
		ops := []int{0, 1, 2, 3, 4, 5, 6}
		if len(st) >= 1 {
			ops = append(ops, 10, 11, 12, 13, 14)
		}
		if len(st) >= 2 {
			ops = append(ops, 20)
		}
		if len(st) >= 3 {
			ops = append(ops, 21)
		}
		op := ops[t.Free(len(ops))]
		t.Step()
		if op < 10 {
			leaves++
			var v refVal
			var leaf error
			switch op {
			case 0:
				leaf = specerr.ErrMissingID
			case 1:
				leaf = specerr.NewParseAttrError(fmt.Sprintf("a%d", leaves), leaves%2 == 0)
			case 2:
				leaf = specerr.NewMissingFieldError(fmt.Sprintf("f%d", leaves))
			case 3:
				leaf = fmt.Errorf("outer: %w", &customErr{leaves})
			case 4: // no error
			case 5:
				v.err, v.list = (*specerr.List)(nil), true
			case 6:
				a, b := &customErr{-leaves}, specerr.ErrRecursion
				v = refVal{err: &specerr.List{Errors: []error{a, b}}, errs: []*refErr{{leaf: a}, {leaf: b}}, list: true}
			}
			if leaf != nil {
				v.err, v.errs = leaf, []*refErr{{leaf: leaf}}
			}
			v.desc = fmt.Sprintf("leaf%d", op)
			st = append(st, v)
			continue
		}
		x := st[len(st)-1]
		var r refVal
		switch op {
		case 10, 11, 12, 14:
			if x.list && len(x.errs) == 0 && x.err == error((*specerr.List)(nil)) {
				t.Skip() // a nil list is only an argument of Append
			}
			var lvl, path string
			switch op {
			case 10:
				lvl, r.err = fmt.Sprintf("w%d", i), specerr.Wrap(x.err, fmt.Sprintf("w%d", i))
			case 11:
				lvl, r.err = fmt.Sprintf("i%d[%d]", i, i*7), specerr.WrapIndex(x.err, fmt.Sprintf("i%d", i), i*7)
			case 12:
				lvl, path = fmt.Sprintf("p%d", i), fmt.Sprintf("/3D/%d.model", i)
				r.err = specerr.WrapPath(x.err, lvl, path)
			case 14: // takes the path away
				lvl, r.err = fmt.Sprintf("n%d", i), specerr.WrapPath(x.err, fmt.Sprintf("n%d", i), "")
			}
			for _, e := range x.errs {
				ne := &refErr{leaf: e.leaf, levels: append(append([]string(nil), e.levels...), lvl), path: e.path}
				if path != "" || op == 14 {
					ne.path = path
				}
				r.errs = append(r.errs, ne)
			}
			r.list = x.list
			r.desc = fmt.Sprintf("wrap%d(%s)", op, x.desc)
			st = st[:len(st)-1]
		case 13:
			r = x
			r.err = specerr.Append(x.err)
			r.desc = fmt.Sprintf("append(%s)", x.desc)
			st = st[:len(st)-1]
		case 20, 21:
			k := op - 18
			args := st[len(st)-k:]
			var es []error
			var ds []string
			for j, a := range args {
				if j > 0 {
					es = append(es, a.err)
				}
				r.errs = append(r.errs, a.errs...)
				ds = append(ds, a.desc)
			}
			r.err = specerr.Append(args[0].err, es...)
			r.list = true
			r.desc = fmt.Sprintf("append(%s)", strings.Join(ds, ","))
			allNil := true
			for _, a := range args {
				allNil = allNil && a.err == nil
			}
			if allNil && r.err != nil {
				t.Failf("appending nothing gives an error", "%s: %#v", r.desc, r.err)
			}
			st = st[:len(st)-k]
		}
		st = append(st, r)
	}
	top := st[len(st)-1]
	t.Case(top.desc)
	t.Sample("%s = %v", top.desc, top.errs)
	checkErrors(t, top)
}

// errorHistories keeps three errors in variables and appends to them in every
// order, one to another included: each has exactly what was appended to it.
func errorHistories(t *mc.T, n int) {
	var real [3]error
	var want [3][]error
	next := 0
	leaf := func() error { next++; return fmt.Errorf("leaf %d", next) }
	desc := ""
	switch t.Free(4) {
	case 1:
		for i := range real {
			real[i] = &specerr.List{}
		}
		desc = "lists: "
	case 2:
		real[1] = &specerr.List{}
		real[2] = leaf()
		want[2] = []error{real[2]}
		desc = "nil, list, error: "
	case 3:
		a, b, c := leaf(), leaf(), leaf()
		real[0] = &specerr.List{Errors: append(make([]error, 0, 8), a, b, c)}
		want[0] = []error{a, b, c}
		real[1] = (*specerr.List)(nil)
		desc = "list of 3, nil list, nil: "
	}
	for i := 0; i < n; i++ {
		k := t.Free(15)
		t.Step()
		switch {
		case k < 3:
			e := leaf()
			real[k] = specerr.Append(real[k], e)
			want[k] = append(want[k][:len(want[k]):len(want[k])], e)
			desc += fmt.Sprintf("%d+leaf ", k)
		case k < 6:
			k -= 3
			a, b, c := leaf(), leaf(), leaf()
			real[k] = specerr.Append(real[k], a, b, nil, c)
			want[k] = append(want[k][:len(want[k]):len(want[k])], a, b, c)
			desc += fmt.Sprintf("%d+leaves ", k)
		case k < 12:
			a, b := (k-6)/2, (k-6)%2
			if b >= a {
				b++
			}
			real[a] = specerr.Append(real[a], real[b])
			want[a] = append(want[a][:len(want[a]):len(want[a])], want[b]...)
			desc += fmt.Sprintf("%d+%d ", a, b)
		default: // two others
			k -= 12
			a, b := (k+1)%3, (k+2)%3
			real[k] = specerr.Append(real[k], real[a], real[b])
			want[k] = append(append(want[k][:len(want[k]):len(want[k])], want[a]...), want[b]...)
			desc += fmt.Sprintf("%d+%d+%d ", k, a, b)
		}
	}
	t.Case(desc)
	for k := range real {
		got := members(real[k])
		ok := len(got) == len(want[k])
		for i := 0; ok && i < len(got); i++ {
			ok = got[i] == want[k][i]
		}
		if !ok {
			t.Failf("an error has not exactly what was appended to it", "%s: %d has %v, want %v", desc, k, got, want[k])
		}
		t.State(fmt.Sprint(len(got)))
	}
}

func members(err error) []error {
	if l, ok := err.(*specerr.List); ok {
		if l == nil {
			return nil
		}
		return l.Errors
	}
	if err == nil {
		return nil
	}
	return []error{err}
}

// noErrors are lists that hold no error: they are no error, whatever is asked.
func noErrors(t *mc.T) {
	k := t.Free(3)
	list := func() *specerr.List { // Append may add to it
		return []*specerr.List{nil, {}, {Errors: []error{}}}[k]
	}
	l := list()
	desc := fmt.Sprintf("%#v", l)
	t.Case(desc)
	t.State(desc)
	if l.Len() != 0 {
		t.Failf("length of a list differs", "%s: %d", desc, l.Len())
	}
	if err := l.Unwrap(); err != nil {
		t.Failf("Unwrap of a list differs", "%s: %v", desc, err)
	}
	for _, target := range []error{errAlien, &specerr.ParseAttrError{Name: "x"}, &specerr.List{Errors: []error{errAlien}}, nil} {
		if l.Is(target) {
			t.Failf("errors.Is sees an error that is not there", "%s: %v", desc, target)
		}
	}
	var pa *specerr.ParseAttrError
	var ce *customErr
	if l.As(&pa) || l.As(&ce) || pa != nil || ce != nil {
		t.Failf("errors.As differs", "%s: found %v %v", desc, pa, ce)
	}
	if errors.Is(l, errAlien) || errors.As(error(l), &pa) {
		t.Failf("errors.Is sees an error that is not there", "%s", desc)
	}
	sort.Sort(l)
	_ = l.Error()
	for _, wrap := range []func(error) error{
		func(err error) error { return err },
		func(err error) error { return specerr.Append(nil, err) },
		func(err error) error { return specerr.Append(err, nil) },
		func(err error) error { return specerr.Append(err, &specerr.List{}, (*specerr.List)(nil)) },
	} {
		if got := specerr.Append(wrap(list()), errAlien); got == nil || !errors.Is(got, errAlien) || len(members(got)) != 1 {
			t.Failf("errors are lost", "%s and one error: %v", desc, got)
		}
	}
}

func checkErrors(t *mc.T, v refVal) {
	got := members(v.err)
	if len(v.errs) > 0 && v.err == nil {
		t.Failf("errors are lost", "%s: nil, want %d errors", v.desc, len(v.errs))
	}
	if len(got) != len(v.errs) {
		t.Failf("number of errors differs", "%s: %d want %d: %v", v.desc, len(got), len(v.errs), v.err)
	}
	var lines []string
	for i, w := range v.errs {
		g := got[i]
		if g == nil || g.Error() != w.text() {
			t.Failf("text of an error differs", "%s: %v\nwant %s", v.desc, g, w.text())
		}
		lines = append(lines, w.text())
		e, located := g.(*specerr.Error)
		if located != (len(w.levels) > 0) {
			t.Failf("location of an error is lost", "%s: %T", v.desc, g)
		}
		if located && (e.XPath() != w.xpath() || e.Path != w.path) {
			t.Failf("location of an error differs", "%s: %q %q\nwant %q %q", v.desc, e.XPath(), e.Path, w.xpath(), w.path)
		}
		for _, err := range []error{g, v.err} {
			if !errors.Is(err, w.leaf) {
				t.Failf("errors.Is does not see an error", "%s: error %d", v.desc, i)
			}
		}
		t.State(w.text())
	}
	if len(v.errs) > 0 {
		if errors.Is(v.err, errAlien) {
			t.Failf("errors.Is sees an error that is not there", "%s", v.desc)
		}
		var pa *specerr.ParseAttrError
		var mf *specerr.MissingFieldError
		var ce *customErr
		var wantPA, wantMF, wantCE error
		for _, w := range v.errs {
			for _, x := range []struct {
				slot *error
				ok   bool
				e    error
			}{
				{&wantPA, errors.As(w.leaf, &pa), pa}, {&wantMF, errors.As(w.leaf, &mf), mf}, {&wantCE, errors.As(w.leaf, &ce), ce},
			} {
				if x.ok && *x.slot == nil {
					*x.slot = x.e
				}
			}
		}
		pa, mf, ce = nil, nil, nil
		check := func(ok bool, got, want error, what string) {
			if ok != (want != nil) || ok && got != want {
				t.Failf("errors.As differs", "%s: %s found %v, want %v", v.desc, what, got, want)
			}
		}
		check(errors.As(v.err, &pa), pa, wantPA, "ParseAttrError")
		check(errors.As(v.err, &mf), mf, wantMF, "MissingFieldError")
		check(errors.As(v.err, &ce), ce, wantCE, "custom error")
	}
	if l, ok := v.err.(*specerr.List); ok {
		if l.Len() != len(v.errs) {
			t.Failf("length of a list differs", "%s: %d want %d", v.desc, l.Len(), len(v.errs))
		}
		if u := l.Unwrap(); len(v.errs) == 0 && u != nil || len(v.errs) > 0 && u != got[0] {
			t.Failf("Unwrap of a list differs", "%s: %v", v.desc, u)
		}
		switch {
		case l == nil:
			if l.Error() != "" {
				t.Failf("text of a list differs", "%s: %q", v.desc, l.Error())
			}
		case len(lines) == 1:
			if w := "1 error occurred:\n\t* " + lines[0] + "\n"; l.Error() != w {
				t.Failf("text of a list differs", "%s: %q want %q", v.desc, l.Error(), w)
			}
		default:
			w := fmt.Sprintf("%d errors occurred:\n\t", len(lines))
			for i, x := range lines {
				if i > 0 {
					w += "\n\t"
				}
				w += "* " + x
			}
			if w += "\n"; l.Error() != w {
				t.Failf("text of a list differs", "%s: %q want %q", v.desc, l.Error(), w)
			}
			first := l.Error()
			sort.Sort(l)
			sort.Strings(lines)
			for i, e := range l.Errors {
				if e.Error() != lines[i] {
					t.Failf("sorting a list loses errors", "%s: %v", first, l)
				}
			}
		}
	}
}

// ---- C26: UUIDs -------------------------------------------------------------

const stdUUID = "f47ac10b-58cc-4372-8567-0e02b2c3d479"

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func stdForm(s string) bool {
	if len(s) != 36 {
		return false
	}
	for i := 0; i < 36; i++ {
		switch i {
		case 8, 13, 18, 23:
			if s[i] != '-' {
				return false
			}
		default:
			if !isHex(s[i]) {
				return false
			}
		}
	}
	return true
}

func validUUID(s string) bool {
	switch {
	case stdForm(s):
		return true
	case len(s) == 45 && strings.EqualFold(s[:9], "urn:uuid:"):
		return stdForm(s[9:])
	case len(s) == 38 && s[0] == '{' && s[37] == '}':
		return stdForm(s[1:37])
	case len(s) == 32:
		for i := 0; i < 32; i++ {
			if !isHex(s[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func uuidForms() []string {
	return []string{stdUUID, "urn:uuid:" + stdUUID, "{" + stdUUID + "}", strings.ReplaceAll(stdUUID, "-", ""),
		strings.ToUpper(stdUUID), "URN:UUID:" + strings.ToUpper(stdUUID), "00000000-0000-0000-0000-000000000000", "", "x"}
}

func checkUUID(t *mc.T, s string) {
	t.Step()
	t.Case(s)
	err := uuid.Validate(s)
	if (err == nil) != validUUID(s) {
		t.Failf("validation of a UUID differs", "%q: %v", s, err)
	}
}

// uuidEdits tries every byte at every pair of positions.
func uuidEdits(t *mc.T) {
	forms := uuidForms()
	base := []byte(forms[t.Free(len(forms))])
	edit := t.Free(4)
	alphabet := "0aF-{}:gG/@`\x00\xff \n"
	switch edit {
	case 0:
		checkUUID(t, string(base))
	case 1: // one byte, all values
		if len(base) == 0 {
			t.Skip()
		}
		i := t.Free(len(base))
		for c := 0; c < 256; c++ {
			b := append([]byte(nil), base...)
			b[i] = byte(c)
			checkUUID(t, string(b))
		}
	case 2: // two bytes out of the alphabet
		if len(base) < 2 {
			t.Skip()
		}
		i := t.Free(len(base) - 1)
		j := i + 1 + t.Free(len(base)-1-i)
		for x := 0; x < len(alphabet); x++ {
			for y := 0; y < len(alphabet); y++ {
				b := append([]byte(nil), base...)
				b[i], b[j] = alphabet[x], alphabet[y]
				checkUUID(t, string(b))
			}
		}
	case 3: // deletions, insertions, cuts and transpositions
		for i := 0; i <= len(base); i++ {
			checkUUID(t, string(base[:i]))
			checkUUID(t, string(base[i:]))
			for x := 0; x < len(alphabet); x++ {
				ins := string(base[:i]) + alphabet[x:x+1] + string(base[i:])
				checkUUID(t, ins)
				for j := 0; j < len(ins); j++ {
					checkUUID(t, ins[:j]+ins[j+1:])
				}
				checkUUID(t, ins+alphabet[x:x+1])
			}
			for j := 0; j < len(base); j++ {
				b := append([]byte(nil), base...)
				if i < len(b) {
					b[i], b[j] = b[j], b[i]
				}
				checkUUID(t, string(b))
			}
		}
	}
}

// chunkReader delivers the bytes in the given chunk sizes.
type chunkReader struct {
	data []byte
	size int
	err  error
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, c.err
	}
	n := len(p)
	if c.size > 0 && n > c.size {
		n = c.size
	}
	n = copy(p[:n], c.data)
	c.data = c.data[n:]
	return n, nil
}

func uuidNew(t *mc.T) {
	pos := t.Free(16)
	val := byte(t.Free(256))
	fill := mc.Each(t, byte(0), 0xff, 0xa5)
	chunk := mc.Each(t, 0, 1, 5)
	raw := bytes.Repeat([]byte{fill}, 16)
	raw[pos] = val
	want := append([]byte(nil), raw...)
	want[6] = want[6]&0x0f | 0x40
	want[8] = want[8]&0x3f | 0x80
	w := fmt.Sprintf("%x-%x-%x-%x-%x", want[:4], want[4:6], want[6:8], want[8:10], want[10:])
	next := bytes.Repeat([]byte{0x11}, 16)
	uuid.SetRand(&chunkReader{data: append(append([]byte(nil), raw...), next...), size: chunk, err: io.EOF})
	defer uuid.SetRand(nil)
	got := uuid.New()
	t.Case(hex.EncodeToString(raw) + fmt.Sprint(chunk))
	t.State(got)
	t.Sample("%x -> %s", raw, got)
	if got != w {
		t.Failf("generated UUID differs", "%x: %s want %s", raw, got, w)
	}
	if uuid.Validate(got) != nil || !stdForm(got) {
		t.Failf("generated UUID is not valid", "%s", got)
	}
	if g2 := uuid.New(); g2 != "11111111-1111-4111-9111-111111111111" {
		t.Failf("second generated UUID differs", "%s", g2)
	}
	if p, _ := mc.Guard(func() { uuid.New() }); p == nil {
		t.Failf("a UUID is generated without random bytes", "")
	}
}

func uuidDefault(t *mc.T) {
	uuid.SetRand(&chunkReader{data: make([]byte, 16)})
	uuid.SetRand(nil)
	seen := map[string]bool{}
	for i := 0; i < 64; i++ {
		s := uuid.New()
		if !stdForm(s) || s[14] != '4' || !strings.ContainsRune("89ab", rune(s[19])) {
			t.Failf("generated UUID is not valid", "%s", s)
		}
		if seen[s] {
			t.Failf("generated UUIDs repeat", "%s", s)
		}
		seen[s] = true
	}
}

// fillUUIDs removes every subset of up to K UUIDs and attributes of a model.
func fillUUIDs(t *mc.T) {
	m := &go3mf.Model{Childs: map[string]*go3mf.ChildModel{}}
	foreignAttr := &spec.UnknownAttrs{Space: "http://f.example", Attr: nil}
	n := 0
	const fixed = "11111111-2222-4333-8444-5555555555"
	next := func() string { n++; return fmt.Sprintf("%s%02d", fixed, n) }
	forms := func(id string) string { // other ways of writing an identifier
		switch t.Choose(5) {
		case 1:
			return strings.ReplaceAll(id, "-", "")
		case 2:
			return "{" + id + "}"
		case 3:
			return "urn:uuid:" + id
		case 4:
			return strings.ReplaceAll(id, "4333-8444", "4AAA-8BBB")
		}
		return id
	}
	given := map[string]bool{}
	missing := 0
	attr := func(mk func(string) spec.AttrGroup) spec.AnyAttr {
		id := next()
		switch t.Choose(6) {
		case 1:
			missing++
			return nil
		case 2:
			missing++
			return spec.AnyAttr{mk("")}
		case 3:
			missing++
			return spec.AnyAttr{foreignAttr}
		case 4:
			missing++
			return spec.AnyAttr{foreignAttr, mk("")}
		case 5:
			given[id] = true
			return spec.AnyAttr{foreignAttr, mk(id)}
		}
		id = forms(id)
		given[id] = true
		return spec.AnyAttr{mk(id)}
	}
	build := func(s string) spec.AttrGroup { return &production.BuildAttr{UUID: s} }
	item := func(s string) spec.AttrGroup { return &production.ItemAttr{UUID: s, Path: "/a.model"} }
	obj := func(s string) spec.AttrGroup { return &production.ObjectAttr{UUID: s} }
	comp := func(s string) spec.AttrGroup { return &production.ComponentAttr{UUID: s, Path: "/p"} }
	objects := func() (out []*go3mf.Object) {
		for i, k := 0, mc.Pick(t, 1, 2, 0); i < k; i++ {
			o := &go3mf.Object{ID: uint32(i + 1), AnyAttr: attr(obj)}
			switch t.Choose(3) {
			case 0:
				o.Components = &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 9, AnyAttr: attr(comp)}, {ObjectID: 8, AnyAttr: attr(comp)}}}
			case 1:
				o.Mesh = new(go3mf.Mesh)
			}
			out = append(out, o)
		}
		return out
	}
	m.Build.AnyAttr = attr(build)
	for i, k := 0, mc.Pick(t, 2, 0, 1); i < k; i++ {
		m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: 1, AnyAttr: attr(item)})
	}
	m.Resources.Objects = objects()
	for i, k := 0, mc.Pick(t, 2, 0, 1); i < k; i++ {
		m.Childs[fmt.Sprintf("/c%d.model", i)] = &go3mf.ChildModel{Resources: go3mf.Resources{Objects: objects()}}
	}
	before := dump(m)
	t.Case(before)
	owners := map[*spec.AnyAttr]int{&m.Build.AnyAttr: len(m.Build.AnyAttr)}
	for _, it := range m.Build.Items {
		owners[&it.AnyAttr] = len(it.AnyAttr)
	}
	eachResources(m, func(p string, rs *go3mf.Resources) {
		for _, o := range rs.Objects {
			owners[&o.AnyAttr] = len(o.AnyAttr)
			if o.Components != nil {
				for _, c := range o.Components.Component {
					owners[&c.AnyAttr] = len(c.AnyAttr)
				}
			}
		}
	})
	raw := make([]byte, 16*64)
	for i := range raw {
		raw[i] = byte(i/16 + 1)
	}
	uuid.SetRand(&chunkReader{data: raw, err: io.EOF})
	production.SetMissingUUIDs(m)
	uuid.SetRand(nil)
	seen := map[string]int{}
	generated := 0
	check := func(what string, at *spec.AnyAttr) {
		var ids []*string
		var path string
		for _, a := range *at {
			switch a := a.(type) {
			case *production.BuildAttr:
				ids = append(ids, &a.UUID)
			case *production.ItemAttr:
				ids = append(ids, &a.UUID)
			case *production.ObjectAttr:
				ids = append(ids, &a.UUID)
			case *production.ComponentAttr:
				ids = append(ids, &a.UUID)
			}
		}
		if len(ids) != 1 || *ids[0] == "" {
			t.Failf("a UUID is still missing", "%s has %d UUIDs", what, len(ids))
		}
		id := *ids[0]
		seen[id]++
		if seen[id] > 1 {
			t.Failf("a UUID is given twice", "%s: %s", what, id)
		}
		if !validUUID(id) {
			t.Failf("the UUID is not valid", "%s: %s", what, id)
		}
		if !given[id] { // generated: take it away again
			generated++
			*ids[0] = ""
			if n := owners[at]; len(*at) == n+1 {
				last := (*at)[n]
				switch a := last.(type) {
				case *production.ItemAttr:
					path = a.Path
				case *production.ComponentAttr:
					path = a.Path
				}
				if path != "" {
					t.Failf("a path is invented", "%s: %s", what, path)
				}
				*at = (*at)[:n]
				if n == 0 {
					*at = nil
				}
			}
		}
	}
	check("build", &m.Build.AnyAttr)
	for _, it := range m.Build.Items {
		check("item", &it.AnyAttr)
	}
	eachResources(m, func(p string, rs *go3mf.Resources) {
		for _, o := range rs.Objects {
			check(p+" object", &o.AnyAttr)
			if o.Components != nil {
				for _, c := range o.Components.Component {
					check(p+" component", &c.AnyAttr)
				}
			}
		}
	})
	if generated != missing {
		t.Failf("number of generated UUIDs differs", "%d want %d", generated, missing)
	}
	if got := dump(m); got != before { // with the generated values removed
		t.Failf("something else than UUIDs changes", "%s", diff(before, got))
	}
	t.State(fmt.Sprint(before, generated))
	t.Sample("%d missing UUIDs in %d items and %d children", missing, len(m.Build.Items), len(m.Childs))
}

func init() {
	register(&mc.Property{ID: "C26", Scenarios: []mc.Scenario{
		{Name: "validate", Bound: "all single bytes, all pairs of bytes out of 16 values, all insertions, deletions, cuts and swaps of nine forms", Run: uuidEdits},
		{Name: "generate", Bound: "all values of each random byte, three fillings, three chunkings", Serial: true, Run: uuidNew},
		{Name: "default source", Bound: "64 UUIDs", Serial: true, Run: uuidDefault},
		{Name: "fill", Bound: "models of up to three parts with any attributes missing", K: 3, KT: 4, Serial: true, Run: fillUUIDs},
		{Name: "fill many", Bound: "eleven numbers of items, components, objects, objects of a child, or children up to 1025, four patterns of what is missing", Serial: true, Run: manyUUIDs},
	}})
	register(&mc.Property{ID: "C28", Scenarios: []mc.Scenario{
		{Name: "five", Bound: "all expressions of up to five operations", Run: func(t *mc.T) { errorExprs(t, 1+t.Free(5)) }},
		{Name: "six", Bound: "all expressions of six operations", Run: func(t *mc.T) { errorExprs(t, 6) }},
		{Name: "histories", Bound: "all sequences of five (thorough: six) appends to three errors, of four initial states, one to another included", Run: func(t *mc.T) { errorHistories(t, deeper(t, 5)) }},
		{Name: "none", Bound: "lists without errors, nil ones included: every method, appending in four ways", Run: noErrors},
		{Name: "long", Bound: "thirteen numbers of errors up to 1025, in lists made in five ways, at up to 65 levels", Run: longErrors},
		{Name: "seven", Bound: "all expressions of seven operations", Thorough: true, Run: func(t *mc.T) { errorExprs(t, 7) }},
	}})
}
