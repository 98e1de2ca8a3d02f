package props

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/hpinc/go3mf"

	"verif3mf/internal/mc"
)

// ---- C34: files -----------------------------------------------------------------

// fileModels are what is written: a small and a big model, and one that cannot be written.
var fileModels = map[string]func() *go3mf.Model{
	"small": func() *go3mf.Model {
		m := &go3mf.Model{Language: "en"}
		m.Resources.Objects = []*go3mf.Object{tetra(1)}
		m.Resources.Objects[0].Mesh.Vertices.Vertex[1][0] = 1.26
		m.Build.Items = []*go3mf.Item{{ObjectID: 1}}
		return m
	},
	"big": func() *go3mf.Model {
		m := &go3mf.Model{}
		for i := 0; i < 40; i++ {
			o := tetra(uint32(i + 1))
			o.Name = fmt.Sprint("object ", i*7919)
			m.Resources.Objects = append(m.Resources.Objects, o)
		}
		m.Childs = map[string]*go3mf.ChildModel{"/3D/c.model": {Resources: go3mf.Resources{Objects: []*go3mf.Object{tetra(3)}}}}
		m.Attachments = []go3mf.Attachment{{Path: "/a.bin", ContentType: "application/octet-stream", Stream: stream(strings.Repeat("0123456789", 500))}}
		m.RootRelationships = []go3mf.Relationship{{Path: "/a.bin", Type: rtOther}}
		return m
	},
	"failing": func() *go3mf.Model {
		m := &go3mf.Model{}
		m.Resources.Objects = []*go3mf.Object{tetra(1)}
		m.Attachments = []go3mf.Attachment{{Path: "/a.bin", ContentType: "text/plain", Stream: &chunks{data: []byte("abc"), off: 2, err: errFault}}}
		m.RootRelationships = []go3mf.Relationship{{Path: "/a.bin", Type: rtOther}}
		return m
	},
}

func blankIDs(m *go3mf.Model) {
	for i := range m.RootRelationships {
		m.RootRelationships[i].ID = ""
	}
	for i := range m.Relationships {
		m.Relationships[i].ID = ""
	}
	for _, c := range m.Childs {
		for i := range c.Relationships {
			c.Relationships[i].ID = ""
		}
	}
}

type fileContent struct {
	prec int
	kind string
}

var fileMu sync.Mutex
var fileCache = map[string]string{}

// inMemory is what reading what was written gives, without any file.
func inMemory(c fileContent, strict bool) string {
	key := fmt.Sprint(c, strict)
	fileMu.Lock()
	defer fileMu.Unlock()
	if s, ok := fileCache[key]; ok {
		return s
	}
	s := ""
	switch c.kind {
	case "malformed":
		m, err := decodePackage(malformedFile(), strict)
		blankIDs(m)
		s = fmt.Sprintf("%v\n%s", err, dump(m))
	case "":
		s = "error"
	default:
		data, err := encodePackage(fileModels[c.kind](), c.prec)
		if err != nil {
			panic(err)
		}
		m, err := decodePackage(data, strict)
		if err != nil {
			panic(err)
		}
		blankIDs(m)
		s = "<nil>\n" + dump(m)
	}
	fileCache[key] = s
	return s
}

// malformedFile is a package with a malformed attribute.
func malformedFile() []byte {
	p := &pkg{Rels: []pkgRel{{go3mf.DefaultModelPath, rtModel, "r0"}}}
	p.Parts = []pkgPart{{Name: go3mf.DefaultModelPath, CT: ctModel, Data: []byte(strings.Replace(childRoot, `objectid="1"`, `objectid="x"`, 1))}}
	return p.build(zip.Deflate)
}

// inode is a file, whatever its name.
type inode struct {
	content fileContent
	pending bool // a writer has not been closed yet
	version int
}

type fileWriter struct {
	w       *go3mf.WriteCloser
	to      *inode
	wrote   fileContent
	encoded bool
	closed  bool
}

type fileReader struct {
	r       *go3mf.ReadCloser
	of      *inode
	version int
	closed  bool
}

// openIn are the open files of the process below a directory.
func openIn(dir string) (out []string) {
	ds, _ := os.ReadDir("/proc/self/fd")
	for _, d := range ds {
		if l, err := os.Readlink("/proc/self/fd/" + d.Name()); err == nil && strings.HasPrefix(l, dir+"/") {
			out = append(out, l)
		}
	}
	return
}

// fileHistories writes, reads and removes a file, in every order.
func fileHistories(depth, depthT int) func(t *mc.T) {
	return func(t *mc.T) {
		dir, err := os.MkdirTemp("", "verif3mf-file")
		if err != nil {
			panic(err)
		}
		name := filepath.Join(dir, "f.3mf")
		var (
			file *inode
			w    *fileWriter
			r    *fileReader
			log  []string
		)
		defer func() {
			if w != nil && w.w != nil && !w.closed {
				w.w.Close()
			}
			if r != nil && r.r != nil && !r.closed {
				r.r.Close()
			}
			os.RemoveAll(dir)
		}()
		n := depth
		if t.Tier == "thorough" {
			n = depthT
		}
		for i := 0; i < n; i++ {
			type op struct {
				name string
				run  func()
			}
			var ops []op
			add := func(on bool, name string, run func()) {
				if on {
					ops = append(ops, op{name, run})
				}
			}
			writing, reading := w != nil && !w.closed, r != nil && !r.closed
			add(!writing, "create", func() {
				x, err := go3mf.CreateWriter(name)
				if err != nil {
					t.Failf("a file is not created", "%v", err)
				}
				if file == nil {
					file = &inode{}
				}
				file.pending, file.content = true, fileContent{}
				file.version++
				w = &fileWriter{w: x, to: file}
				if b, err := os.ReadFile(name); err != nil || len(b) != 0 {
					t.Failf("a created file is not empty", "%d bytes, %v", len(b), err)
				}
			})
			for _, kind := range []string{"small", "big", "failing"} {
				prec := 4
				if kind == "big" {
					prec = 1
				}
				add(writing && !w.encoded, "encode "+kind, func() {
					w.encoded = true
					if kind == "big" {
						w.w.FloatPrecision = prec
					}
					err := w.w.Encode(fileModels[kind]())
					if (err != nil) != (kind == "failing") {
						t.Failf("encode to a file", "%s: error %v", kind, err)
					}
					if err == nil {
						w.wrote = fileContent{prec, kind}
					}
				})
			}
			add(writing, "close the writer", func() {
				if err := w.w.Close(); err != nil {
					t.Failf("a writer is not closed", "%v", err)
				}
				w.closed = true
				w.to.pending, w.to.content = false, w.wrote
				w.to.version++
				if w.to == file && w.wrote.kind != "" {
					b, err := os.ReadFile(name)
					if err != nil {
						t.Failf("a closed file cannot be read", "%v", err)
					}
					if len(b) < 22 || !bytes.Equal(b[len(b)-22:len(b)-18], []byte("PK\x05\x06")) {
						t.Failf("a closed file is not a whole package", "%d bytes", len(b))
					}
				}
			})
			add(w != nil && w.closed && !w.encoded, "encode after closing", func() {
				w.encoded = true
				if err := w.w.Encode(fileModels["small"]()); err == nil {
					t.Failf("a model is written to a closed file without error", "")
				}
			})
			add(!reading, "open", func() {
				x, err := go3mf.OpenReader(name)
				if file == nil {
					if !errors.Is(err, fs.ErrNotExist) || x != nil {
						t.Failf("opening a file that is not there", "%v, error %v", x, err)
					}
					return
				}
				if err != nil {
					if file.pending || file.content.kind == "" {
						return // may be noticed when it is opened
					}
					t.Failf("a file is not opened", "%v", err)
				}
				r = &fileReader{r: x, of: file, version: file.version}
			})
			for _, strict := range []bool{true, false} {
				what := "decode"
				if !strict {
					what = "decode not strictly"
				}
				add(r != nil && (strict || !r.closed), what, func() {
					r.r.Strict = strict
					m := new(go3mf.Model)
					err := r.r.Decode(m)
					switch {
					case r.closed:
						if err == nil {
							t.Failf("a closed file is read without error", "")
						}
					case r.of.pending || r.version != r.of.version:
						// being written, or another one since it was opened
					case r.of.content.kind == "":
						if err == nil {
							t.Failf("a file without a package is read without error", "%s", dump(m))
						}
					default:
						blankIDs(m)
						w, g := inMemory(r.of.content, strict), fmt.Sprintf("%v\n%s", err, dump(m))
						if w != g {
							t.Failf("what a file holds is not read", "%s", diff(w, g))
						}
					}
				})
			}
			add(reading, "close the reader", func() {
				if err := r.r.Close(); err != nil {
					t.Failf("a reader is not closed", "%v", err)
				}
				r.closed = true
			})
			add(file != nil, "remove", func() {
				if err := os.Remove(name); err != nil {
					t.Failf("the file is not there", "%v", err)
				}
				file = nil
			})
			add(!writing && (file == nil || file.content.kind != "malformed"), "put a malformed file", func() {
				if file == nil {
					file = &inode{}
				}
				file.content, file.pending = fileContent{4, "malformed"}, false
				file.version++
				if err := os.WriteFile(name, malformedFile(), 0o600); err != nil {
					panic(err)
				}
			})
			k := t.Free(len(ops) + 1)
			if k == len(ops) {
				break
			}
			t.Logf("%s", ops[k].name)
			log = append(log, ops[k].name)
			ops[k].run()
			t.Step()
			t.State(fmt.Sprint(file, w != nil, writing, r != nil, reading, w != nil && w.encoded))
		}
		t.Case(strings.Join(log, ", "))
		t.Sample("%s", strings.Join(log, ", "))
		// Nothing is left but what is still open and the file itself.
		want := 0
		if w != nil && !w.closed {
			want++
		}
		if r != nil && !r.closed {
			want++
		}
		if o := openIn(dir); len(o) != want {
			t.Failf("files are left open", "%d open: %q\nafter %s", want, o, strings.Join(log, ", "))
		}
		ds, _ := os.ReadDir(dir)
		for _, d := range ds {
			if d.Name() != "f.3mf" {
				t.Failf("another file is left", "%s", d.Name())
			}
		}
	}
}

// fileTwo writes and reads two files at the same time, or one with two readers.
func fileTwo(t *mc.T) {
	dir, err := os.MkdirTemp("", "verif3mf-file")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	same := t.Free(2) == 1
	kinds := [2]string{mc.Each(t, "small", "big"), mc.Each(t, "small", "big")}
	names := [2]string{filepath.Join(dir, "a.3mf"), filepath.Join(dir, "b.3mf")}
	var step [2]int
	var ws [2]*go3mf.WriteCloser
	var rs [2]*go3mf.ReadCloser
	var err0 error
	defer func() {
		for i := range ws {
			if ws[i] != nil {
				ws[i].Close()
			}
			if rs[i] != nil {
				rs[i].Close()
			}
		}
	}()
	log := ""
	for step[0] < 6 || step[1] < 6 {
		i := 0
		if step[0] == 6 || step[1] < 6 && t.Free(2) == 1 {
			i = 1
		}
		if same && i == 1 && step[1] == 0 { // reads what the first one wrote
			if step[0] < 3 {
				t.Skip()
			}
			step[1], names[1], kinds[1] = 3, names[0], kinds[0]
		}
		log += fmt.Sprint(i, step[i], " ")
		switch step[i] {
		case 0:
			ws[i], err0 = go3mf.CreateWriter(names[i])
		case 1:
			err0 = ws[i].Encode(fileModels[kinds[i]]())
		case 2:
			err0 = ws[i].Close()
			ws[i] = nil
		case 3:
			rs[i], err0 = go3mf.OpenReader(names[i])
		case 4:
			m := new(go3mf.Model)
			err0 = rs[i].Decode(m)
			blankIDs(m)
			if w, g := inMemory(fileContent{4, kinds[i]}, true), fmt.Sprintf("%v\n%s", err0, dump(m)); w != g {
				t.Failf("what a file holds is not read", "%s\n%s", log, diff(w, g))
			}
		case 5:
			err0 = rs[i].Close()
			rs[i] = nil
		}
		if err0 != nil {
			t.Failf("a file is not written or read", "%s: %v", log, err0)
		}
		step[i]++
		t.Step()
	}
	t.State(log)
	t.Case(log + fmt.Sprint(kinds))
}

// fileNames writes a file by one of its names and reads it by another.
func fileNames(t *mc.T) {
	dir, err := os.MkdirTemp("", "verif3mf-file")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	base := mc.Each(t, "f.3mf", "f", "a b.3mf", "\u00e9\u4e2d.3MF", strings.Repeat("x", 250), "f.3mf.tmp", "-", "%41?*")
	must(os.Mkdir(filepath.Join(dir, "real"), 0o700))
	must(os.Symlink("real", filepath.Join(dir, "dirlink")))
	file := filepath.Join(dir, "real", base)
	must(os.WriteFile(file, bytes.Repeat([]byte("old"), 20000), 0o600))
	must(os.Symlink(filepath.Join("real", base), filepath.Join(dir, "link")))
	must(os.Symlink("link", filepath.Join(dir, "link2")))
	must(os.Link(file, filepath.Join(dir, "hard")))
	wd, err := os.Getwd()
	must(err)
	rel, err := filepath.Rel(wd, file)
	must(err)
	names := []string{file, rel, filepath.Join(dir, "dirlink", base), filepath.Join(dir, "link"), filepath.Join(dir, "link2"), filepath.Join(dir, "hard"), dir + "//real/./../real/" + base}
	w, r := names[t.Free(len(names))], names[t.Free(len(names))]
	kind := mc.Each(t, "small", "big")
	t.Case(fmt.Sprint(base, w, r, kind))
	t.Logf("%s written as %q, read as %q", kind, w, r)
	x, err := go3mf.CreateWriter(w)
	if err != nil {
		t.Failf("a file is not created", "%q: %v", w, err)
	}
	err = x.Encode(fileModels[kind]())
	if cerr := x.Close(); err != nil || cerr != nil {
		t.Failf("encode to a file", "%q: %v, %v", w, err, cerr)
	}
	y, err := go3mf.OpenReader(r)
	if err != nil {
		t.Failf("a file is not opened", "%q: %v", r, err)
	}
	m := new(go3mf.Model)
	err = y.Decode(m)
	if err := y.Close(); err != nil {
		t.Failf("a reader is not closed", "%v", err)
	}
	blankIDs(m)
	if w, g := inMemory(fileContent{4, kind}, true), fmt.Sprintf("%v\n%s", err, dump(m)); w != g {
		t.Failf("what a file holds is not read", "%s", diff(w, g))
	}
	for _, l := range []string{"link", "link2"} {
		if fi, err := os.Lstat(filepath.Join(dir, l)); err != nil || fi.Mode()&fs.ModeSymlink == 0 {
			t.Failf("a link is replaced", "%s: %v", l, err)
		}
	}
	if o := openIn(dir); len(o) != 0 {
		t.Failf("files are left open", "%q", o)
	}
	if ds, _ := os.ReadDir(filepath.Join(dir, "real")); len(ds) != 1 {
		t.Failf("another file is left", "%v", ds)
	}
}

// fileErrors uses files that cannot be written or read.
func fileErrors(t *mc.T) {
	dir, err := os.MkdirTemp("", "verif3mf-file")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	kind := mc.Each(t, "small", "big")
	switch k := t.Free(7); k {
	case 0:
		x, err := go3mf.CreateWriter(filepath.Join(dir, "none", "f.3mf"))
		if x != nil || !errors.Is(err, fs.ErrNotExist) {
			t.Failf("creating a file in no directory", "%v, error %v", x, err)
		}
	case 1:
		if x, err := go3mf.CreateWriter(dir); x != nil || err == nil {
			t.Failf("creating a file in place of a directory", "%v, error %v", x, err)
		}
	case 2:
		x, err := go3mf.OpenReader(filepath.Join(dir, "none.3mf"))
		if x != nil || !errors.Is(err, fs.ErrNotExist) {
			t.Failf("opening a file that is not there", "%v, error %v", x, err)
		}
	case 3:
		if x, err := go3mf.OpenReader(dir); err == nil {
			if err := x.Decode(new(go3mf.Model)); err == nil {
				t.Failf("a directory is read as a package", "")
			}
			x.Close()
		}
	case 4, 5: // no space left
		name := filepath.Join(dir, "full.3mf")
		if err := os.Symlink("/dev/full", name); err != nil {
			panic(err)
		}
		if _, err := os.Stat("/dev/full"); err != nil {
			t.Skip()
		}
		x, err := go3mf.CreateWriter(name)
		if err != nil {
			return
		}
		err = x.Encode(fileModels[kind]())
		cerr := x.Close()
		if err == nil && cerr == nil {
			t.Failf("a full disk is not reported", "%s", kind)
		}
	case 6: // a name that was a symbolic link to a file
		a, b := filepath.Join(dir, "a.3mf"), filepath.Join(dir, "b.3mf")
		if err := os.Symlink(a, b); err != nil {
			panic(err)
		}
		x, err := go3mf.CreateWriter(b)
		if err != nil {
			t.Failf("a file is not created", "%v", err)
		}
		if err := x.Encode(fileModels[kind]()); err != nil {
			t.Failf("encode to a file", "%v", err)
		}
		x.Close()
		y, err := go3mf.OpenReader(a)
		if err != nil {
			t.Failf("a file is not opened", "%v", err)
		}
		m := new(go3mf.Model)
		err = y.Decode(m)
		y.Close()
		blankIDs(m)
		if w, g := inMemory(fileContent{4, kind}, true), fmt.Sprintf("%v\n%s", err, dump(m)); w != g {
			t.Failf("what a file holds is not read", "%s", diff(w, g))
		}
	}
	t.Case(fmt.Sprint(kind))
	if o := openIn(dir); len(o) != 0 {
		t.Failf("files are left open", "%q", o)
	}
}

func init() {
	register(&mc.Property{ID: "C34",
		Method: "exhaustive enumeration of histories of operations on a file, up to a depth, on the real code and the real file system (a scratch directory per history), against a model of files and their names",
		Rule:   "one execution is one history: creating, writing, closing, opening, reading, removing, in every order the interface allows",
		Assumptions: []string{
			"what a reader sees of a file that is being written, or written again since it was opened, is not judged",
			"what the contents should be is taken from encoding and decoding in memory, the subject of other properties",
		},
		Scenarios: []mc.Scenario{
			{Name: "histories", Bound: "every sequence of up to 7 (thorough: 9) operations on a file, of one writer and one reader at a time", Run: fileHistories(7, 9)},
			{Name: "two files", Bound: "every interleaving of writing and reading two files, two readers of one file; two models", Run: fileTwo},
			{Name: "names", Bound: "8 names x 7 ways to write them (relative, symbolic and hard links, linked directories), to write and to read x 2 models", Run: fileNames},
			{Name: "errors", Bound: "missing and unusable names, a full disk, a symbolic link", Run: fileErrors},
		}})
}
