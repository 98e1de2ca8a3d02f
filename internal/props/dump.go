package props

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/hpinc/go3mf"
)

// dump renders a value canonically: nil and empty slices/maps are the same,
// maps are sorted, readers of attachments are rendered by content, pointers are
// followed. Unexported fields are no content: what they do shows elsewhere.
func dump(v interface{}) string {
	var b strings.Builder
	dumpv(&b, reflect.ValueOf(v), 0, "")
	return b.String()
}

var attachmentType = reflect.TypeOf(go3mf.Attachment{})

func attachmentBytes(a *go3mf.Attachment) []byte {
	switch s := a.Stream.(type) {
	case nil:
		return nil
	case *memStream:
		return s.data
	case *bytes.Buffer:
		return s.Bytes()
	default:
		data, err := io.ReadAll(s)
		if err != nil {
			data = append(data, ("!err " + err.Error())...)
		}
		a.Stream = bytes.NewBuffer(data)
		return data
	}
}

// memStream is an attachment stream whose content stays known after reading.
type memStream struct {
	data []byte
	off  int
}

func (m *memStream) Read(p []byte) (int, error) {
	if m.off >= len(m.data) {
		return 0, io.EOF
	}
	n := copy(p, m.data[m.off:])
	m.off += n
	return n, nil
}

func stream(s string) *memStream { return &memStream{data: []byte(s)} }

func dumpv(b *strings.Builder, v reflect.Value, depth int, indent string) {
	if depth > 60 {
		b.WriteString("<deep>")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.Type() == attachmentType && v.CanInterface() {
		a := v.Interface().(go3mf.Attachment)
		data := attachmentBytes(&a)
		if v.CanSet() {
			v.Set(reflect.ValueOf(a))
		}
		fmt.Fprintf(b, "Attachment{%q %q %q}", a.Path, a.ContentType, data)
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		dumpv(b, v.Elem(), depth+1, indent)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dumpv(b, v.Elem(), depth+1, indent)
	case reflect.Struct:
		b.WriteString(v.Type().String())
		b.WriteString("{")
		in := indent + " "
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if hidden(v, i) || isEmptyValue(f) {
				continue
			}
			b.WriteString("\n" + in + v.Type().Field(i).Name + ": ")
			dumpv(b, f, depth+1, in)
		}
		b.WriteString("}")
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.Len() == 0 {
				b.WriteString("[]")
				return
			}
			fmt.Fprintf(b, "%s(%q)", v.Type().Name(), v.Bytes())
			return
		}
		fallthrough
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				fmt.Fprintf(b, "%02x", v.Index(i).Uint())
			}
			b.WriteString("]")
			return
		}
		b.WriteString("[")
		in := indent + " "
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			if k := e.Kind(); k == reflect.Struct || k == reflect.Ptr || k == reflect.Interface {
				b.WriteString("\n" + in)
			} else if i > 0 {
				b.WriteByte(' ')
			}
			dumpv(b, e, depth+1, in)
		}
		b.WriteString("]")
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		b.WriteString("map[")
		in := indent + " "
		for _, k := range keys {
			fmt.Fprintf(b, "\n%s%q: ", in, fmt.Sprint(k))
			dumpv(b, v.MapIndex(k), depth+1, in)
		}
		b.WriteString("]")
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 32))
	case reflect.Float64:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	default:
		b.WriteString("<" + v.Kind().String() + ">")
	}
}

var unknownAssetType = reflect.TypeOf(go3mf.UnknownAsset{})

// hidden tells whether field i of v is not part of the content of v. The id of an
// unknown asset is what Identify returns.
func hidden(v reflect.Value, i int) bool {
	return v.Type() != unknownAssetType && !v.Type().Field(i).IsExported()
}

func isEmptyValue(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Ptr, reflect.Interface, reflect.Func, reflect.Chan:
		return v.IsNil()
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !hidden(v, i) && !isEmptyValue(v.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !isEmptyValue(v.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0 && strconv.FormatFloat(v.Float(), 'g', -1, 64) == "0"
	default:
		return v.IsZero()
	}
}

// diff returns a short description of the first difference of two dumps.
func diff(want, got string) string {
	if want == got {
		return ""
	}
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	i := 0
	for i < len(w) && i < len(g) && w[i] == g[i] {
		i++
	}
	lo := i - 3
	if lo < 0 {
		lo = 0
	}
	cut := func(x []string) string {
		hi := i + 4
		if hi > len(x) {
			hi = len(x)
		}
		if lo > hi {
			return "<end>"
		}
		return strings.Join(x[lo:hi], "\n")
	}
	return fmt.Sprintf("first difference at line %d\n--- want\n%s\n--- got\n%s", i, cut(w), cut(g))
}

// firstDiffLine gives a stable word identifying what differs (for signatures).
func firstDiffLine(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	i := 0
	for i < len(w) && i < len(g) && w[i] == g[i] {
		i++
	}
	l := ""
	if i < len(w) {
		l = w[i]
	} else if i < len(g) {
		l = g[i]
	}
	l = strings.TrimSpace(l)
	if j := strings.IndexAny(l, ":{"); j >= 0 {
		l = l[:j]
	}
	if len(l) > 40 {
		l = l[:40]
	}
	return l
}
