package props

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"path"
	"sort"
	"strings"

	"github.com/hpinc/go3mf"
)

// Independent reader and writer of OPC packages (ECMA-376 part 2), on top of
// archive/zip only.

const (
	ctModel = "application/vnd.ms-package.3dmanufacturing-3dmodel+xml"
	ctRels  = "application/vnd.openxmlformats-package.relationships+xml"
	rtModel = "http://schemas.microsoft.com/3dmanufacturing/2013/01/3dmodel"
	rtThumb = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail"
	rtTex   = "http://schemas.microsoft.com/3dmanufacturing/2013/01/3dtexture"
)

type pkgRel struct{ Target, Type, ID string }

type pkgPart struct {
	Name, CT string
	Data     []byte
	Rels     []pkgRel
}

type pkg struct {
	Parts    []pkgPart
	Rels     []pkgRel
	Defaults bool // declare content types by extension where possible
	Dirs     bool // add entries for folders
	Compress func(io.Writer) (io.WriteCloser, error)
}

func xmlAttrEsc(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

func relsXML(rs []pkgRel) []byte {
	var b bytes.Buffer
	b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n" + `<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">`)
	for i, r := range rs {
		id := r.ID
		if id == "" {
			id = fmt.Sprintf("auto%d", i)
		}
		fmt.Fprintf(&b, `<Relationship Target="%s" Id="%s" Type="%s"/>`, xmlAttrEsc(r.Target), xmlAttrEsc(id), xmlAttrEsc(r.Type))
	}
	b.WriteString(`</Relationships>`)
	return b.Bytes()
}

func relsName(part string) string {
	return path.Join(path.Dir(part), "_rels", path.Base(part)+".rels")
}

// build writes the package. method is zip.Store or zip.Deflate.
func (p *pkg) build(method uint16) []byte {
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	if p.Compress != nil {
		z.RegisterCompressor(zip.Deflate, p.Compress)
	}
	add := func(name string, data []byte) {
		w, err := z.CreateHeader(&zip.FileHeader{Name: strings.TrimPrefix(name, "/"), Method: method})
		if err == nil && !strings.HasSuffix(name, "/") { // zip has no data in folders
			_, err = w.Write(data)
		}
		if err != nil {
			panic(err)
		}
	}
	var ct bytes.Buffer
	ct.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n" + `<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="` + ctRels + `"/>`)
	defs := map[string]string{"rels": ctRels}
	for _, x := range p.Parts {
		if e := strings.ToLower(strings.TrimPrefix(path.Ext(x.Name), ".")); p.Defaults && e != "" {
			if _, ok := defs[e]; !ok {
				defs[e] = x.CT
				fmt.Fprintf(&ct, `<Default Extension="%s" ContentType="%s"/>`, e, xmlAttrEsc(x.CT))
			}
			if defs[e] == x.CT {
				continue
			}
		}
		fmt.Fprintf(&ct, `<Override PartName="%s" ContentType="%s"/>`, xmlAttrEsc(x.Name), xmlAttrEsc(x.CT))
	}
	ct.WriteString(`</Types>`)
	add("[Content_Types].xml", ct.Bytes())
	if len(p.Rels) > 0 {
		add("/_rels/.rels", relsXML(p.Rels))
	}
	if p.Dirs {
		for _, d := range []string{"3D/", "_rels/", "Empty/"} {
			if _, err := z.CreateHeader(&zip.FileHeader{Name: d}); err != nil {
				panic(err)
			}
		}
	}
	for _, x := range p.Parts {
		add(x.Name, x.Data)
		if len(x.Rels) > 0 {
			add(relsName(x.Name), relsXML(x.Rels))
		}
	}
	if err := z.Close(); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// openPkg reads a package strictly: a part without content type, an unreadable
// entry, a duplicated part or a malformed relationship part is an error.
func openPkg(data []byte) (*pkg, error) {
	z, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return nil, err
	}
	files := map[string][]byte{}
	var names []string
	for _, f := range z.File {
		r, err := f.Open()
		if err != nil {
			return nil, fmt.Errorf("%s: %v", f.Name, err)
		}
		d, err := io.ReadAll(r)
		r.Close()
		if err != nil {
			return nil, fmt.Errorf("%s: %v", f.Name, err)
		}
		n := "/" + strings.TrimPrefix(f.Name, "/")
		for _, o := range names {
			if strings.EqualFold(o, n) {
				return nil, fmt.Errorf("duplicated part %s", n)
			}
		}
		files[n] = d
		names = append(names, n)
	}
	type ctypes struct {
		Default []struct {
			Extension   string `xml:",attr"`
			ContentType string `xml:",attr"`
		}
		Override []struct {
			PartName    string `xml:",attr"`
			ContentType string `xml:",attr"`
		}
	}
	var ct ctypes
	if err := xml.Unmarshal(files["/[Content_Types].xml"], &ct); err != nil {
		return nil, fmt.Errorf("content types: %v", err)
	}
	typeOf := func(n string) string {
		for _, o := range ct.Override {
			if strings.EqualFold(o.PartName, n) {
				return o.ContentType
			}
		}
		for _, o := range ct.Default {
			if strings.EqualFold("."+o.Extension, path.Ext(n)) {
				return o.ContentType
			}
		}
		return ""
	}
	type rel struct {
		Target     string `xml:",attr"`
		Type       string `xml:",attr"`
		ID         string `xml:"Id,attr"`
		TargetMode string `xml:",attr"`
	}
	rels := func(name string) ([]pkgRel, error) {
		d, ok := files[name]
		if !ok {
			return nil, nil
		}
		var x struct{ Relationship []rel }
		if err := xml.Unmarshal(d, &x); err != nil {
			return nil, fmt.Errorf("%s: %v", name, err)
		}
		var out []pkgRel
		ids := map[string]bool{}
		for _, r := range x.Relationship {
			if ids[r.ID] {
				return nil, fmt.Errorf("%s: duplicated relationship id %q", name, r.ID)
			}
			ids[r.ID] = true
			out = append(out, pkgRel{r.Target, r.Type, r.ID})
		}
		return out, nil
	}
	p := &pkg{}
	if p.Rels, err = rels("/_rels/.rels"); err != nil {
		return nil, err
	}
	for _, n := range names {
		if n == "/[Content_Types].xml" || strings.HasSuffix(n, ".rels") {
			continue
		}
		c := typeOf(n)
		if c == "" {
			return nil, fmt.Errorf("part %s has no content type", n)
		}
		x := pkgPart{Name: n, CT: c, Data: files[n]}
		if x.Rels, err = rels(relsName(n)); err != nil {
			return nil, err
		}
		p.Parts = append(p.Parts, x)
	}
	return p, nil
}

func (p *pkg) find(name string) *pkgPart {
	for i := range p.Parts {
		if strings.EqualFold(p.Parts[i].Name, name) {
			return &p.Parts[i]
		}
	}
	return nil
}

// resolve gives the absolute name of a relationship target.
func resolve(source, target string) string {
	if strings.HasPrefix(target, "/") {
		return path.Clean(target)
	}
	return path.Join("/", path.Dir(source), target)
}

// relSet renders relationships without their (arbitrary) ids, sorted.
func relSet(source string, rs []pkgRel) string {
	var s []string
	for _, r := range rs {
		s = append(s, resolve(source, r.Target)+" "+r.Type)
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

// wrapModel puts a root model document in a minimal package.
func wrapModel(doc []byte) []byte {
	p := &pkg{
		Parts: []pkgPart{{Name: go3mf.DefaultModelPath, CT: ctModel, Data: doc}},
		Rels:  []pkgRel{{Target: go3mf.DefaultModelPath, Type: rtModel, ID: "r0"}},
	}
	return p.build(zip.Store)
}
