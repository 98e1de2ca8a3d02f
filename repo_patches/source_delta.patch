From 5a350099a873c04fddc362b1495adbcf69e459c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 01/82] fix: internal/xml: accept comments and CDATA sections

---
 internal/xml/xml.go | 87 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 87 insertions(+)

diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index 2608fec..32aea48 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -407,6 +407,23 @@ func (d *Decoder) RawToken() error {
 			b0 = b
 		}
 		return nil
+
+	case '!':
+		// <!: Maybe comment, maybe CDATA.
+		if b, ok = d.getc(); !ok {
+			d.mustNotEOF()
+			return d.err
+		}
+		switch b {
+		case '-': // <!-
+			// Probably <!-- for a comment.
+			return d.comment()
+		case '[': // <![
+			// Probably <![CDATA[.
+			return d.cdata()
+		}
+		d.err = d.syntaxError("invalid sequence <! not part of a comment or CDATA section")
+		return d.err
 	}
 
 	// Must be an open element like <a href="foo">
@@ -487,6 +504,76 @@ func (d *Decoder) RawToken() error {
 	return nil
 }
 
+// Skip a comment whose <!- has already been read.
+func (d *Decoder) comment() error {
+	b, ok := d.getc()
+	if !ok {
+		d.mustNotEOF()
+		return d.err
+	}
+	if b != '-' {
+		d.err = d.syntaxError("invalid sequence <!- not part of <!--")
+		return d.err
+	}
+	// Look for the --> terminator.
+	var b0, b1 byte
+	for {
+		if b, ok = d.getc(); !ok {
+			d.mustNotEOF()
+			return d.err
+		}
+		if b0 == '-' && b1 == '-' {
+			if b != '>' {
+				d.err = d.syntaxError(`invalid sequence "--" not allowed in comments`)
+				return d.err
+			}
+			return nil
+		}
+		b0, b1 = b1, b
+	}
+}
+
+// Read a CDATA section whose <![ has already been read.
+func (d *Decoder) cdata() error {
+	for i := 0; i < len("CDATA["); i++ {
+		b, ok := d.getc()
+		if !ok {
+			d.mustNotEOF()
+			return d.err
+		}
+		if b != "CDATA["[i] {
+			d.err = d.syntaxError("invalid <![ sequence")
+			return d.err
+		}
+	}
+	var b0, b1 byte
+	d.buf.Reset()
+	for {
+		b, ok := d.getc()
+		if !ok {
+			d.mustNotEOF()
+			return d.err
+		}
+		if b0 == ']' && b1 == ']' && b == '>' {
+			d.buf.Truncate(d.buf.Len() - 2)
+			break
+		}
+		// We must rewrite \r and \r\n into \n.
+		if b == '\r' {
+			d.buf.WriteByte('\n')
+		} else if b1 == '\r' && b == '\n' {
+			// Skip \r\n--we already wrote \n.
+		} else {
+			d.buf.WriteByte(b)
+		}
+		b0, b1 = b1, b
+	}
+	if d.OnChar != nil {
+		d.OnChar(goxml.CharData(d.buf.Bytes()))
+	}
+	return nil
+}
+
 func (d *Decoder) attrval() []byte {
 	b, ok := d.getc()
 	if !ok {
-- 
2.43.0


From db0bd80713b7d9769c8905f178c4fc8e4bd78c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 02/82] fix: decode: match end elements by nesting instead of
 by name

An element nested in another one with the same name closed the outer one,
children of ignored elements were decoded as if they were not nested, and
elements after </model> were handed to the model decoder.
---
 read.go | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/read.go b/read.go
index 9a474e0..a23daec 100644
--- a/read.go
+++ b/read.go
@@ -72,17 +72,24 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 
 	var (
 		currentDecoder spec.ElementDecoder
-		currentName    xml.Name
+		topLevel       spec.ElementDecoder = &topLevelDecoder{isRoot: isRoot, model: model, path: path}
 		errs           specerr.List
+		depth          int // number of open elements inside the current one that do not have their own decoder
 	)
-	currentDecoder = &topLevelDecoder{isRoot: isRoot, model: model, path: path}
+	currentDecoder = topLevel
 	var err error
 	x.OnStart = func(tp xml3mf.StartElement) {
 		if childDecoder, ok := currentDecoder.(spec.ChildElementDecoder); ok {
+			if depth > 0 {
+				// Everything inside an ignored element is ignored.
+				depth++
+				return
+			}
 			i, tmpDecoder := childDecoder.Child(tp.Name)
-			if tmpDecoder != nil {
+			if tmpDecoder == nil {
+				depth++
+			} else {
 				stack = append(stack, stackElement{tmpDecoder, tp.Name, i})
-				currentName = tp.Name
 				currentDecoder = tmpDecoder
 				err := currentDecoder.Start(*(*[]spec.XMLAttr)(unsafe.Pointer(&tp.Attr)))
 				if err != nil {
@@ -93,7 +100,10 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 					specerr.Append(&errs, err)
 				}
 			}
-		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
+			return
+		}
+		depth++
+		if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
 			var xattrs []xml.Attr
 			if len(tp.Attr) > 0 {
 				xattrs = make([]xml.Attr, len(tp.Attr))
@@ -108,21 +118,25 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 		}
 	}
 	x.OnEnd = func(tp xml.EndElement) {
-		if currentName == tp.Name {
-			currentDecoder.End()
-			stack = stack[:len(stack)-1]
-			if len(stack) > 0 {
-				element := stack[len(stack)-1]
-				currentDecoder = element.decoder
-				currentName = element.name
+		if depth > 0 {
+			depth--
+			if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
+				appendDecoder.AppendToken(tp)
 			}
-		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-			appendDecoder.AppendToken(tp)
+			return
+		}
+		currentDecoder.End()
+		stack = stack[:len(stack)-1]
+		currentDecoder = topLevel
+		if len(stack) > 0 {
+			currentDecoder = stack[len(stack)-1].decoder
 		}
 	}
 	x.OnChar = func(tp xml.CharData) {
 		if currentDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
-			currentDecoder.CharData(tp)
+			if depth == 0 {
+				currentDecoder.CharData(tp)
+			}
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
 			appendDecoder.AppendToken(tp)
 		}
-- 
2.43.0


From 3359ac94eee52537cc16dd4c53bf9cc34263521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 03/82] fix: decode: keep the text of unknown elements

A shadowed variable made the decoder drop all the character data of the
elements of unknown extensions.
---
 read.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/read.go b/read.go
index a23daec..2adfd41 100644
--- a/read.go
+++ b/read.go
@@ -133,12 +133,15 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 		}
 	}
 	x.OnChar = func(tp xml.CharData) {
-		if currentDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
+		if charDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
 			if depth == 0 {
-				currentDecoder.CharData(tp)
+				charDecoder.CharData(tp)
 			}
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-			appendDecoder.AppendToken(tp)
+			// Indentation is not worth keeping.
+			if len(bytes.TrimSpace(tp)) != 0 {
+				appendDecoder.AppendToken(tp.Copy()) // tp is only valid during this call
+			}
 		}
 	}
 	var i int
-- 
2.43.0


From a3984da90dc29e9f665116161be0a991487700da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 04/82] fix: decode: keep metadata values delivered in several
 chunks

A value interrupted by a comment, CDATA section or processing instruction lost
everything but its last chunk.
---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 7e37521..cba6516 100644
--- a/decoder.go
+++ b/decoder.go
@@ -178,7 +178,7 @@ func (d *metadataDecoder) Start(attrs []spec.XMLAttr) error {
 }
 
 func (d *metadataDecoder) CharData(txt []byte) {
-	d.metadata.Value = string(txt)
+	d.metadata.Value += string(txt)
 }
 
 func (d *metadataDecoder) End() {
-- 
2.43.0


From f56bda3ff8fe7d609eec4534e674fd2cb5430d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 05/82] fix: encode: keep metadata groups that only have
 attributes

---
 encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index 39c84f7..dced774 100644
--- a/encoder.go
+++ b/encoder.go
@@ -308,7 +308,7 @@ func (e *Encoder) writeBuild(x spec.Encoder, m *Model) {
 			})
 		}
 		item.AnyAttr.Marshal3MF(x, &xi)
-		if len(item.Metadata.Metadata) != 0 {
+		if len(item.Metadata.Metadata) != 0 || len(item.Metadata.AnyAttr) != 0 {
 			x.SetAutoClose(false)
 			x.EncodeToken(xi)
 			e.writeMetadataGroup(x, item.Metadata)
@@ -404,7 +404,7 @@ func (e *Encoder) writeObject(x spec.Encoder, r *Object) {
 	r.AnyAttr.Marshal3MF(x, &xo)
 	x.EncodeToken(xo)
 
-	if len(r.Metadata.Metadata) != 0 {
+	if len(r.Metadata.Metadata) != 0 || len(r.Metadata.AnyAttr) != 0 {
 		e.writeMetadataGroup(x, r.Metadata)
 	}
 
-- 
2.43.0


From f124b8431353de904d69aade9b4740d1864d3429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 06/82] fix: encode: foreign attributes of triangles

Appending them overwrote the names of the attributes shared by the following
triangles, and their values were not escaped.
---
 encoder.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/encoder.go b/encoder.go
index dced774..7bcb382 100644
--- a/encoder.go
+++ b/encoder.go
@@ -485,21 +485,22 @@ func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) {
 		attrs[0].Value = strconv.FormatUint(uint64(t.V1), 10)
 		attrs[1].Value = strconv.FormatUint(uint64(t.V2), 10)
 		attrs[2].Value = strconv.FormatUint(uint64(t.V3), 10)
-		start.Attr = attrs[:3]
+		start.Attr = attrs[:3:3]
 		if t.PID != 0 {
 			if (t.P1 != t.P2) || (t.P1 != t.P3) {
 				attrs[3].Value = strconv.FormatUint(uint64(t.PID), 10)
 				attrs[4].Value = strconv.FormatUint(uint64(t.P1), 10)
 				attrs[5].Value = strconv.FormatUint(uint64(t.P2), 10)
 				attrs[6].Value = strconv.FormatUint(uint64(t.P3), 10)
-				start.Attr = attrs[:7]
+				start.Attr = attrs[:7:7]
 			} else if (t.PID != r.PID) || (t.P1 != r.PIndex) {
 				attrs[3].Value = strconv.FormatUint(uint64(t.PID), 10)
 				attrs[4].Value = strconv.FormatUint(uint64(t.P1), 10)
-				start.Attr = attrs[:5]
+				start.Attr = attrs[:5:5]
 			}
 		}
 		t.AnyAttr.Marshal3MF(x, &start)
+		x.SetSkipAttrEscape(len(t.AnyAttr) == 0)
 		x.EncodeToken(start)
 	}
 	x.SetSkipAttrEscape(false)
-- 
2.43.0


From e72bc5d25b439cd4ffa8b618c1ae2baa2a974541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 07/82] fix: internal/xml: write the prefixes declared for the
 namespaces in scope

The declarations of an element did not apply to its own name, the ones of
ended elements were kept, and names in undeclared namespaces were written
with the namespace as prefix or in the default namespace.
---
 internal/xml/printer.go | 129 ++++++++++++++++++++++++++++++----------
 1 file changed, 96 insertions(+), 33 deletions(-)

diff --git a/internal/xml/printer.go b/internal/xml/printer.go
index 90f8300..d3aa77d 100644
--- a/internal/xml/printer.go
+++ b/internal/xml/printer.go
@@ -3,41 +3,88 @@ package xml
 import (
 	"bufio"
 	"encoding/xml"
+	"strconv"
 )
 
 const (
 	nsXML = "http://www.w3.org/XML/1998/namespace"
 )
 
+// Printer writes XML tokens.
+// The namespaces of the names are translated to the prefixes
+// declared by the enclosing elements. A declaration is added
+// to the element when there is none.
 type Printer struct {
 	*bufio.Writer
 	AutoClose      bool
 	SkipAttrEscape bool
-	attrPrefix     map[string]string // map name space -> prefix
+	ns             []binding     // declarations in scope, innermost last
+	open           []openElement // elements to be ended
 }
 
-// createAttrPrefix finds the name space prefix attribute to use for the given name space,
-// defining a new prefix if necessary. It returns the prefix.
-func (p *Printer) createAttrPrefix(attr *xml.Attr) string {
-	if prefix := p.attrPrefix[attr.Name.Space]; prefix != "" {
-		return prefix
+type binding struct {
+	prefix, space string
+}
+
+type openElement struct {
+	prefix string
+	ns     int // number of declarations in scope outside of the element
+}
+
+// findPrefix finds the prefix to use for the given name space.
+// The default name space does not apply to attributes.
+func (p *Printer) findPrefix(space string, isAttr bool) (string, bool) {
+	if space == nsXML {
+		return "xml", true
 	}
-	if attr.Name.Space == nsXML {
-		return "xml"
+search:
+	for i := len(p.ns) - 1; i >= 0; i-- {
+		prefix := p.ns[i].prefix
+		if p.ns[i].space != space || (isAttr && prefix == "") {
+			continue
+		}
+		for _, b := range p.ns[i+1:] {
+			if b.prefix == prefix {
+				continue search // declared again
+			}
+		}
+		return prefix, true
 	}
+	return "", false
+}
 
-	// Need to define a new name space.
-	if p.attrPrefix == nil {
-		p.attrPrefix = make(map[string]string)
+// newPrefix declares a prefix that is not in use for the given name space.
+func (p *Printer) newPrefix(space string) string {
+search:
+	for i := 1; ; i++ {
+		prefix := "ns" + strconv.Itoa(i)
+		for _, b := range p.ns {
+			if b.prefix == prefix {
+				continue search
+			}
+		}
+		p.ns = append(p.ns, binding{prefix, space})
+		return prefix
 	}
+}
 
-	ns, prefix := attr.Name.Space, attr.Name.Local
-	if attr.Name.Space == "xmlns" {
-		ns, prefix = attr.Value, attr.Name.Local
+func (p *Printer) prefix(space string, isAttr bool) string {
+	if space == "" {
+		return ""
+	}
+	prefix, ok := p.findPrefix(space, isAttr)
+	if !ok {
+		prefix = p.newPrefix(space)
 	}
-	p.attrPrefix[ns] = prefix
+	return prefix
+}
 
-	return attr.Name.Space
+func (p *Printer) writeName(prefix, local string) {
+	if prefix != "" {
+		p.WriteString(prefix)
+		p.WriteByte(':')
+	}
+	p.WriteString(local)
 }
 
 // EscapeString writes to p the properly escaped XML equivalent
@@ -48,14 +95,19 @@ func (p *Printer) EscapeString(s string) {
 
 // WriteStart writes the given start element.
 func (p *Printer) WriteStart(start *xml.StartElement) {
-	p.WriteByte('<')
-	if start.Name.Space != "" {
-		if prefix := p.attrPrefix[start.Name.Space]; prefix != "" {
-			p.WriteString(prefix)
-			p.WriteByte(':')
+	outer := len(p.ns)
+	for _, attr := range start.Attr {
+		if attr.Name.Space == xmlnsPrefix && attr.Name.Local != "" {
+			p.ns = append(p.ns, binding{attr.Name.Local, attr.Value})
+		} else if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix {
+			p.ns = append(p.ns, binding{"", attr.Value})
 		}
 	}
-	p.WriteString(start.Name.Local)
+	declared := len(p.ns)
+
+	prefix := p.prefix(start.Name.Space, false)
+	p.WriteByte('<')
+	p.writeName(prefix, start.Name.Local)
 
 	// Attributes
 	for _, attr := range start.Attr {
@@ -64,11 +116,11 @@ func (p *Printer) WriteStart(start *xml.StartElement) {
 			continue
 		}
 		p.WriteByte(' ')
-		if name.Space != "" {
-			p.WriteString(p.createAttrPrefix(&attr))
-			p.WriteByte(':')
+		if name.Space == xmlnsPrefix {
+			p.writeName(xmlnsPrefix, name.Local)
+		} else {
+			p.writeName(p.prefix(name.Space, true), name.Local)
 		}
-		p.WriteString(name.Local)
 		p.WriteString(`="`)
 		if p.SkipAttrEscape {
 			p.WriteString(attr.Value)
@@ -77,21 +129,32 @@ func (p *Printer) WriteStart(start *xml.StartElement) {
 		}
 		p.WriteByte('"')
 	}
+	for _, b := range p.ns[declared:] {
+		p.WriteByte(' ')
+		p.writeName(xmlnsPrefix, b.prefix)
+		p.WriteString(`="`)
+		p.EscapeString(b.space)
+		p.WriteByte('"')
+	}
 	if p.AutoClose {
 		p.WriteByte('/')
+		p.ns = p.ns[:outer]
+	} else {
+		p.open = append(p.open, openElement{prefix, outer})
 	}
 	p.WriteByte('>')
 }
 
+// WriteEnd ends the last open element.
 func (p *Printer) WriteEnd(name xml.Name) {
+	var prefix string
+	if n := len(p.open); n > 0 {
+		prefix = p.open[n-1].prefix
+		p.ns = p.ns[:p.open[n-1].ns]
+		p.open = p.open[:n-1]
+	}
 	p.WriteByte('<')
 	p.WriteByte('/')
-	if name.Space != "" {
-		if prefix := p.attrPrefix[name.Space]; prefix != "" {
-			p.WriteString(prefix)
-			p.WriteByte(':')
-		}
-	}
-	p.WriteString(name.Local)
+	p.writeName(prefix, name.Local)
 	p.WriteByte('>')
 }
-- 
2.43.0


From 3c9b0edc4027e752a4c466e5fd012fb5a65d19c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 08/82] fix: encode every element of Any, not only the first
 one

spec.Any.Marshal3MF returns after the first element that is encoded, and its
error was not looked at.
---
 encoder.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/encoder.go b/encoder.go
index 7bcb382..f03d2e6 100644
--- a/encoder.go
+++ b/encoder.go
@@ -258,11 +258,23 @@ func (e *Encoder) writeChildModel(x spec.Encoder, m *Model, child *ChildModel) e
 	xb := xml.StartElement{Name: xml.Name{Local: attrBuild}}
 	x.EncodeToken(xb)
 	x.EncodeToken(xb.End())
-	child.Any.Marshal3MF(x, &tm)
+	if err := marshalAny(x, child.Any, &tm); err != nil {
+		return err
+	}
 	x.EncodeToken(tm.End())
 	return x.Flush()
 }
 
+// marshalAny encodes every element of any, up to the first error.
+func marshalAny(x spec.Encoder, any spec.Any, start *xml.StartElement) error {
+	for _, ext := range any {
+		if err := ext.Marshal3MF(x, start); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (e *Encoder) writeModel(x spec.Encoder, m *Model) error {
 	tm, err := e.modelToken(x, m, true)
 	if err != nil {
@@ -275,7 +287,9 @@ func (e *Encoder) writeModel(x spec.Encoder, m *Model) error {
 		return err
 	}
 	e.writeBuild(x, m)
-	m.Any.Marshal3MF(x, &tm)
+	if err := marshalAny(x, m.Any, &tm); err != nil {
+		return err
+	}
 	x.EncodeToken(tm.End())
 	return x.Flush()
 }
@@ -338,7 +352,9 @@ func (e *Encoder) writeResources(x spec.Encoder, rs *Resources) error {
 	}
 
 	for _, o := range rs.Objects {
-		e.writeObject(x, o)
+		if err := e.writeObject(x, o); err != nil {
+			return err
+		}
 		if err := x.Flush(); err != nil {
 			return err
 		}
@@ -372,7 +388,7 @@ func (e *Encoder) writeMetadata(x spec.Encoder, metadata []Metadata) {
 	}
 }
 
-func (e *Encoder) writeObject(x spec.Encoder, r *Object) {
+func (e *Encoder) writeObject(x spec.Encoder, r *Object) error {
 	xo := xml.StartElement{Name: xml.Name{Local: attrObject}, Attr: []xml.Attr{
 		{Name: xml.Name{Local: attrID}, Value: strconv.FormatUint(uint64(r.ID), 10)},
 	}}
@@ -409,11 +425,14 @@ func (e *Encoder) writeObject(x spec.Encoder, r *Object) {
 	}
 
 	if r.Mesh != nil {
-		e.writeMesh(x, r, r.Mesh)
+		if err := e.writeMesh(x, r, r.Mesh); err != nil {
+			return err
+		}
 	} else if r.Components != nil {
 		e.writeComponents(x, r.Components)
 	}
 	x.EncodeToken(xo.End())
+	return nil
 }
 
 func (e *Encoder) writeComponents(x spec.Encoder, comps *Components) {
@@ -508,7 +527,7 @@ func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) {
 	x.EncodeToken(xvt.End())
 }
 
-func (e *Encoder) writeMesh(x spec.Encoder, r *Object, m *Mesh) {
+func (e *Encoder) writeMesh(x spec.Encoder, r *Object, m *Mesh) error {
 	xm := xml.StartElement{Name: xml.Name{Local: attrMesh}}
 	m.AnyAttr.Marshal3MF(x, &xm)
 	x.EncodeToken(xm)
@@ -516,8 +535,11 @@ func (e *Encoder) writeMesh(x spec.Encoder, r *Object, m *Mesh) {
 	e.writeVertices(x, m)
 	e.writeTriangles(x, r, m)
 
-	m.Any.Marshal3MF(x, &xm)
+	if err := marshalAny(x, m.Any, &xm); err != nil {
+		return err
+	}
 	x.EncodeToken(xm.End())
+	return nil
 }
 
 func (r *BaseMaterials) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
-- 
2.43.0


From 08b19536528aff9cda42498828e4a9c1033a019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 09/82] fix: decode: keep attributes a registered spec does not
 define for an element

spec.NewAttrGroup may return nil, which the decoders dereferenced.
---
 decoder.go | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/decoder.go b/decoder.go
index cba6516..5772da6 100644
--- a/decoder.go
+++ b/decoder.go
@@ -100,7 +100,7 @@ func (d *modelDecoder) noCoreAttribute(a spec.XMLAttr) (err error) {
 	default:
 		var attr spec.AttrGroup
 		if attr = d.model.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrModel})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrModel})
 			d.model.AnyAttr = append(d.model.AnyAttr, attr)
 		}
 		err = specerr.Append(err, attr.Unmarshal3MFAttr(a))
@@ -108,6 +108,16 @@ func (d *modelDecoder) noCoreAttribute(a spec.XMLAttr) (err error) {
 	return
 }
 
+// newAttrGroup returns a new group for the attributes of a namespace.
+// Attributes which the registered spec does not define for the element
+// are unknown attributes.
+func newAttrGroup(namespace string, parent xml.Name) spec.AttrGroup {
+	if attr := spec.NewAttrGroup(namespace, parent); attr != nil {
+		return attr
+	}
+	return &spec.UnknownAttrs{Space: namespace}
+}
+
 type metadataGroupDecoder struct {
 	baseDecoder
 	metadatas *MetadataGroup
@@ -127,7 +137,7 @@ func (d *metadataGroupDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.metadatas.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrMetadataGroup})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrMetadataGroup})
 			d.metadatas.AnyAttr = append(d.metadatas.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -204,7 +214,7 @@ func (d *buildDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.build.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBuild})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBuild})
 			d.build.AnyAttr = append(d.build.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -239,7 +249,7 @@ func (d *buildItemDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = d.item.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrItem})
+				attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrItem})
 				d.item.AnyAttr = append(d.item.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -279,7 +289,7 @@ func (d *resourceDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.resources.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrResources})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrResources})
 			d.resources.AnyAttr = append(d.resources.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -345,7 +355,7 @@ func (d *baseMaterialsDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = d.resource.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBaseMaterials})
+				attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBaseMaterials})
 				d.resource.AnyAttr = append(d.resource.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -379,7 +389,7 @@ func (d *baseMaterialDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = base.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBase})
+				attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBase})
 				base.AnyAttr = append(base.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -400,7 +410,7 @@ func (d *meshDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.resource.Mesh.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrMesh})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrMesh})
 			d.resource.Mesh.AnyAttr = append(d.resource.Mesh.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -440,7 +450,7 @@ func (d *verticesDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.mesh.Vertices.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrVertices})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrVertices})
 			d.mesh.Vertices.AnyAttr = append(d.mesh.Vertices.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -505,7 +515,7 @@ func (d *trianglesDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.resource.Mesh.Triangles.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrTriangles})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrTriangles})
 			d.resource.Mesh.Triangles.AnyAttr = append(d.resource.Mesh.Triangles.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -569,7 +579,7 @@ func (d *triangleDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = t.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrTriangle})
+				attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrTriangle})
 				t.AnyAttr = append(t.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -612,7 +622,7 @@ func (d *objectDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = d.resource.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrObject})
+				attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrObject})
 				d.resource.AnyAttr = append(d.resource.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -687,7 +697,7 @@ func (d *componentsDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = components.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrComponents})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrComponents})
 			components.AnyAttr = append(components.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -732,7 +742,7 @@ func (d *componentDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = component.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrComponent})
+				attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrComponent})
 				component.AnyAttr = append(component.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
-- 
2.43.0


From 0e9f7167bbf53faed0e3065faad2a3759d6a76a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 10/82] fix: beamlattice: encode r2 whenever it differs from r1

A beam whose second radius is the lattice's one and whose first is not lost it,
as decoders take r1 for r2 when only r1 is given.
---
 beamlattice/encoder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/beamlattice/encoder.go b/beamlattice/encoder.go
index 67ebf58..022ad52 100644
--- a/beamlattice/encoder.go
+++ b/beamlattice/encoder.go
@@ -83,7 +83,12 @@ func marshalBeams(x spec.Encoder, m *BeamLattice) {
 				Value: strconv.FormatFloat(float64(b.Radius[0]), 'f', x.FloatPresicion(), 32),
 			})
 		}
-		if b.Radius[1] > 0 && b.Radius[1] != m.Radius {
+		// r2 defaults to r1, which in turn defaults to the radius of the lattice.
+		defaultR2 := m.Radius
+		if b.Radius[0] > 0 {
+			defaultR2 = b.Radius[0]
+		}
+		if b.Radius[1] > 0 && b.Radius[1] != defaultR2 {
 			xbeam.Attr = append(xbeam.Attr, xml.Attr{
 				Name:  xml.Name{Local: attrR2},
 				Value: strconv.FormatFloat(float64(b.Radius[1]), 'f', x.FloatPresicion(), 32),
-- 
2.43.0


From 2e25baf981f8ded926fc18d6e7134579b4cacb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:49 +0000
Subject: [PATCH 11/82] fix: slices: encode the property indices of segments
 without a property group

---
 slices/encoder.go | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/slices/encoder.go b/slices/encoder.go
index 20d2cef..3bd7913 100644
--- a/slices/encoder.go
+++ b/slices/encoder.go
@@ -63,11 +63,9 @@ func marshalPolygons(x spec.Encoder, ply []Polygon) {
 	xs := xml.StartElement{
 		Name: xml.Name{Space: Namespace, Local: attrSegment},
 	}
-	xsattrs := []xml.Attr{
-		{Name: xml.Name{Local: attrV2}},
-		{Name: xml.Name{Local: attrPID}},
-		{Name: xml.Name{Local: attrP1}},
-		{Name: xml.Name{Local: attrP2}},
+	xsattrs := make([]xml.Attr, 0, 4)
+	addAttr := func(name string, value uint32) {
+		xsattrs = append(xsattrs, xml.Attr{Name: xml.Name{Local: name}, Value: strconv.FormatUint(uint64(value), 10)})
 	}
 	x.SetSkipAttrEscape(true)
 	for _, p := range ply {
@@ -77,18 +75,18 @@ func marshalPolygons(x spec.Encoder, ply []Polygon) {
 		x.EncodeToken(xp)
 		x.SetAutoClose(true)
 		for _, s := range p.Segments {
-			xsattrs[0].Value = strconv.FormatUint(uint64(s.V2), 10)
-			xs.Attr = xsattrs[:1]
+			xsattrs = xsattrs[:0]
+			addAttr(attrV2, s.V2)
 			if s.PID != 0 {
-				xsattrs[1].Value = strconv.FormatUint(uint64(s.PID), 10)
-				xsattrs[2].Value = strconv.FormatUint(uint64(s.P1), 10)
-				if s.P1 != s.P2 {
-					xsattrs[3].Value = strconv.FormatUint(uint64(s.P2), 10)
-					xs.Attr = xsattrs[:4]
-				} else {
-					xs.Attr = xsattrs[:3]
-				}
+				addAttr(attrPID, s.PID)
 			}
+			if s.PID != 0 || s.P1 != 0 || s.P2 != 0 {
+				addAttr(attrP1, s.P1)
+			}
+			if s.P1 != s.P2 {
+				addAttr(attrP2, s.P2)
+			}
+			xs.Attr = xsattrs
 			x.EncodeToken(xs)
 		}
 		x.SetAutoClose(false)
-- 
2.43.0


From 1bf77af63624277fa0d2902dc5329beb07133410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 12/82] fix: slices: do not take attributes of other namespaces
 for slice attributes

---
 slices/decoder.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/slices/decoder.go b/slices/decoder.go
index 4dd286a..e413f45 100644
--- a/slices/decoder.go
+++ b/slices/decoder.go
@@ -72,6 +72,9 @@ func (d *sliceStackDecoder) Child(name xml.Name) (i int, child spec.ElementDecod
 func (d *sliceStackDecoder) Start(attrs []spec.XMLAttr) error {
 	var errs error
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		switch a.Name.Local {
 		case attrID:
 			id, err := strconv.ParseUint(string(a.Value), 10, 32)
@@ -102,6 +105,9 @@ func (d *sliceRefDecoder) Start(attrs []spec.XMLAttr) error {
 		errs         error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		switch a.Name.Local {
 		case attrSliceRefID:
 			val, err := strconv.ParseUint(string(a.Value), 10, 32)
@@ -148,7 +154,7 @@ func (d *sliceDecoder) Start(attrs []spec.XMLAttr) error {
 	d.polygonVerticesDecoder.slice = &d.slice
 	var errs error
 	for _, a := range attrs {
-		if a.Name.Local == attrZTop {
+		if a.Name.Space == "" && a.Name.Local == attrZTop {
 			val, err := strconv.ParseFloat(string(a.Value), 32)
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
@@ -190,6 +196,9 @@ func (d *polygonVertexDecoder) Start(attrs []spec.XMLAttr) error {
 		errs error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		val, err := strconv.ParseFloat(string(a.Value), 32)
 		if err != nil {
 			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
@@ -225,7 +234,7 @@ func (d *polygonDecoder) Start(attrs []spec.XMLAttr) error {
 	d.slice.Polygons = append(d.slice.Polygons, Polygon{})
 	d.polygonSegmentDecoder.polygon = &d.slice.Polygons[polygonIndex]
 	for _, a := range attrs {
-		if a.Name.Local == attrStartV {
+		if a.Name.Space == "" && a.Name.Local == attrStartV {
 			val, err := strconv.ParseUint(string(a.Value), 10, 32)
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
@@ -249,6 +258,9 @@ func (d *polygonSegmentDecoder) Start(attrs []spec.XMLAttr) error {
 		errs         error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		var required bool
 		val, err := strconv.ParseUint(string(a.Value), 10, 32)
 		switch a.Name.Local {
-- 
2.43.0


From ed705e68363b015c60a5c375bbb8f1c7749a5fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 13/82] fix: encode: keep relationships of different types to
 one part

---
 encoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoder.go b/encoder.go
index f03d2e6..2482409 100644
--- a/encoder.go
+++ b/encoder.go
@@ -38,7 +38,8 @@ func newXMLEncoder(w io.Writer, floatPresicion int) *xmlEncoder {
 func (enc *xmlEncoder) AddRelationship(r spec.Relationship) {
 	hasRelationship := false
 	for _, relationship := range enc.relationships {
-		if relationship.Path == r.Path {
+		// A part with any relationship can be found as a thumbnail.
+		if relationship.Path == r.Path && (relationship.Type == r.Type || r.Type == RelTypeThumbnail) {
 			hasRelationship = true
 			break
 		}
-- 
2.43.0


From 23bbbe61173a8f79e3a9db4e45e3c07df6b50ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 14/82] fix: encode: do not share the relationships of child
 models with the encoder

---
 encoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoder.go b/encoder.go
index 2482409..bb0754d 100644
--- a/encoder.go
+++ b/encoder.go
@@ -194,7 +194,8 @@ func (e *Encoder) writeChildModels(m *Model) error {
 			return err
 		}
 		enc := newXMLEncoder(w, e.FloatPrecision)
-		enc.relationships = child.Relationships
+		enc.relationships = make([]Relationship, len(child.Relationships))
+		copy(enc.relationships, child.Relationships)
 		if err = e.writeChildModel(enc, m, child); err != nil {
 			return err
 		}
-- 
2.43.0


From df1b9e5f7904be16569ae69505750c2369d96f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 15/82] fix: decode: keep the elements of a child model in that
 child

---
 decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 5772da6..307d65c 100644
--- a/decoder.go
+++ b/decoder.go
@@ -43,7 +43,11 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 		dec := spec.NewElementDecoder(name)
 		child = dec
 		if dec != nil {
-			d.model.Any = append(d.model.Any, dec.Element().(spec.Marshaler))
+			any := &d.model.Any
+			if c, ok := d.model.Childs[d.path]; ok && !d.isRoot {
+				any = &c.Any
+			}
+			*any = append(*any, dec.Element().(spec.Marshaler))
 		}
 		i = -1
 	}
-- 
2.43.0


From 0aaea0184c5528a973e84a0fa0202c4d27f6df01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 16/82] fix: resolve the dot segments of relationship targets

---
 opc.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opc.go b/opc.go
index c58e2b0..cd1d6cf 100644
--- a/opc.go
+++ b/opc.go
@@ -5,6 +5,7 @@ package go3mf
 
 import (
 	"io"
+	"path"
 
 	"github.com/qmuntal/opc"
 )
@@ -87,7 +88,7 @@ func (o *opcFile) ContentType() string {
 }
 
 func (o *opcFile) FindFileFromName(name string) (packageFile, bool) {
-	name = opc.ResolveRelationship(o.f.Name, name)
+	name = resolveRelationship(o.f.Name, name)
 	return findOPCFileFromName(name, o.r)
 }
 
@@ -114,12 +115,14 @@ func (o *opcReader) Relationships() []Relationship {
 }
 
 func (o *opcReader) FindFileFromName(name string) (packageFile, bool) {
-	name = opc.ResolveRelationship("/", name)
+	name = resolveRelationship("/", name)
 	return findOPCFileFromName(name, o.r)
 }
 
+// resolveRelationship returns the absolute name of the part
+// pointed by a relationship of a source part.
 func resolveRelationship(source, rel string) string {
-	return opc.ResolveRelationship(source, rel)
+	return path.Clean(opc.ResolveRelationship(source, rel))
 }
 
 func findOPCFileFromName(name string, r *opc.Reader) (packageFile, bool) {
-- 
2.43.0


From bed5e4aacc61160e9c7e9c362a33a2ec13bdc6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 17/82] fix: decode: find the target of relationships
 regardless of the case

---
 opc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opc.go b/opc.go
index cd1d6cf..afa83dc 100644
--- a/opc.go
+++ b/opc.go
@@ -6,6 +6,7 @@ package go3mf
 import (
 	"io"
 	"path"
+	"strings"
 
 	"github.com/qmuntal/opc"
 )
@@ -127,7 +128,7 @@ func resolveRelationship(source, rel string) string {
 
 func findOPCFileFromName(name string, r *opc.Reader) (packageFile, bool) {
 	for _, f := range r.Files {
-		if f.Name == name {
+		if strings.EqualFold(f.Name, name) { // part names are case-insensitive
 			return &opcFile{r, f}, true
 		}
 	}
-- 
2.43.0


From e539909a5df6911c7132d8f944571001c97e2ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 18/82] fix: decode: report the error of the child model that
 failed

---
 read.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/read.go b/read.go
index 2adfd41..916f3b3 100644
--- a/read.go
+++ b/read.go
@@ -232,6 +232,7 @@ func (d *Decoder) processRootModel(ctx context.Context, rootFile packageFile, mo
 func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs error) {
 	var (
 		wg                 sync.WaitGroup
+		mu                 sync.Mutex // guards errs
 		nonRootModelsCount = len(d.nonRootModels)
 	)
 	wg.Add(nonRootModelsCount)
@@ -242,7 +243,12 @@ func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs
 			defer wg.Done()
 			err := d.readChildModel(ctx, i, model)
 			if err != nil {
-				errs = err
+				// The first error is the cause of the others.
+				mu.Lock()
+				if errs == nil {
+					errs = err
+				}
+				mu.Unlock()
 				cancel()
 			}
 		}(i)
@@ -330,10 +336,8 @@ func (d *Decoder) readChildModel(ctx context.Context, i int, model *Model) error
 	}
 	defer file.Close()
 	err = decodeModelFile(ctx, file, model, attachment.Name(), false, d.Strict)
-	select {
-	case <-ctx.Done():
+	if err == nil {
 		err = ctx.Err()
-	default: // Default is must to avoid blocking
 	}
 	return err
 }
-- 
2.43.0


From aea9c8a5457ee5da4681b7509fb6fc877ace2eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 19/82] fix: decode: go on after malformed attributes of child
 models in non-strict mode

---
 read.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/read.go b/read.go
index 916f3b3..6421c27 100644
--- a/read.go
+++ b/read.go
@@ -202,10 +202,28 @@ func (d *Decoder) DecodeContext(ctx context.Context, model *Model) error {
 	if err != nil {
 		return err
 	}
-	if err := d.processNonRootModels(ctx, model); err != nil {
+	errs := d.processNonRootModels(ctx, model)
+	if errs != nil && (d.Strict || !isContentError(errs)) {
+		return errs
+	}
+	err = d.processRootModel(ctx, rootFile, model)
+	if errs == nil || err != nil && !isContentError(err) {
 		return err
 	}
-	return d.processRootModel(ctx, rootFile, model)
+	if err == nil {
+		return errs
+	}
+	return specerr.Append(errs, err)
+}
+
+// isContentError reports whether err locates malformed elements,
+// which do not stop a non-strict decoding.
+func isContentError(err error) bool {
+	switch err.(type) {
+	case *specerr.Error, *specerr.List:
+		return true
+	}
+	return false
 }
 
 // UnmarshalModel fills a model with the data of a root model file
@@ -234,6 +252,7 @@ func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs
 		wg                 sync.WaitGroup
 		mu                 sync.Mutex // guards errs
 		nonRootModelsCount = len(d.nonRootModels)
+		contentErrs        = make([]error, nonRootModelsCount)
 	)
 	wg.Add(nonRootModelsCount)
 	ctx, cancel := context.WithCancel(ctx)
@@ -242,7 +261,9 @@ func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs
 		go func(i int) {
 			defer wg.Done()
 			err := d.readChildModel(ctx, i, model)
-			if err != nil {
+			if !d.Strict && isContentError(err) {
+				contentErrs[i] = err
+			} else if err != nil {
 				// The first error is the cause of the others.
 				mu.Lock()
 				if errs == nil {
@@ -257,7 +278,14 @@ func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs
 	if errs != nil {
 		return errs
 	}
-	return nil
+	for _, err := range contentErrs {
+		if errs == nil {
+			errs = err
+		} else if err != nil {
+			errs = specerr.Append(errs, err)
+		}
+	}
+	return errs
 }
 
 func (d *Decoder) processOPC(model *Model) (packageFile, error) {
-- 
2.43.0


From 3846691b43cd1db23e55702fb679699ff524b37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 20/82] fix: decode: report the attachments that cannot be read

---
 read.go | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/read.go b/read.go
index 6421c27..1a20275 100644
--- a/read.go
+++ b/read.go
@@ -301,13 +301,19 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 				return nil, errors.New("package root model points to an unexisting file")
 			}
 			model.Path = rootFile.Name()
-			d.extractCoreAttachments(rootFile, model, true)
+			if err := d.extractCoreAttachments(rootFile, model, true); err != nil {
+				return nil, err
+			}
 			for _, file := range d.nonRootModels {
-				d.extractCoreAttachments(file, model, false)
+				if err := d.extractCoreAttachments(file, model, false); err != nil {
+					return nil, err
+				}
 			}
 		} else if att, ok := d.p.FindFileFromName(r.Path); ok {
 			model.RootRelationships = append(model.RootRelationships, r)
-			model.Attachments = d.addAttachment(model.Attachments, att)
+			if err := d.addAttachment(model, att); err != nil {
+				return nil, err
+			}
 		}
 	}
 	if rootFile == nil {
@@ -316,7 +322,7 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 	return rootFile, nil
 }
 
-func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, isRoot bool) {
+func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, isRoot bool) error {
 	for _, rel := range modelFile.Relationships() {
 		if file, ok := modelFile.FindFileFromName(rel.Path); ok {
 			if isRoot {
@@ -327,33 +333,40 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 					}
 					model.Childs[file.Name()] = new(ChildModel)
 				} else {
-					model.Attachments = d.addAttachment(model.Attachments, file)
+					if err := d.addAttachment(model, file); err != nil {
+						return err
+					}
 					model.Relationships = append(model.Relationships, rel)
 				}
 			} else if rel.Type != RelType3DModel {
 				if child, ok := model.Childs[modelFile.Name()]; ok {
-					model.Attachments = d.addAttachment(model.Attachments, file)
+					if err := d.addAttachment(model, file); err != nil {
+						return err
+					}
 					child.Relationships = append(child.Relationships, rel)
 				}
 			}
 		}
 	}
+	return nil
 }
 
-func (d *Decoder) addAttachment(attachments []Attachment, file packageFile) []Attachment {
-	for _, att := range attachments {
+func (d *Decoder) addAttachment(model *Model, file packageFile) error {
+	for _, att := range model.Attachments {
 		if strings.EqualFold(att.Path, file.Name()) {
-			return attachments
+			return nil
 		}
 	}
-	if buff, err := copyFile(file); err == nil {
-		return append(attachments, Attachment{
-			Path:        file.Name(),
-			Stream:      buff,
-			ContentType: file.ContentType(),
-		})
+	buff, err := copyFile(file)
+	if err != nil {
+		return err
 	}
-	return attachments
+	model.Attachments = append(model.Attachments, Attachment{
+		Path:        file.Name(),
+		Stream:      buff,
+		ContentType: file.ContentType(),
+	})
+	return nil
 }
 
 func (d *Decoder) readChildModel(ctx context.Context, i int, model *Model) error {
-- 
2.43.0


From 7722185e7215f508daecb3e1eeaaaf402f6839e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 21/82] fix: decode: resources of a root model with another
 path

---
 decoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 307d65c..03470b8 100644
--- a/decoder.go
+++ b/decoder.go
@@ -25,7 +25,10 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 	if name.Space == Namespace {
 		switch name.Local {
 		case attrResources:
-			resources, _ := d.model.FindResources(d.path)
+			resources := &d.model.Resources
+			if !d.isRoot {
+				resources, _ = d.model.FindResources(d.path)
+			}
 			child = &resourceDecoder{resources: resources, model: d.model}
 			i = -1
 		case attrBuild:
-- 
2.43.0


From dfe0fa3de7e525ab241e5d26834081d9ae6d8ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 22/82] fix: decode: forget the child models of previous
 decodings

---
 read.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/read.go b/read.go
index 1a20275..641d24a 100644
--- a/read.go
+++ b/read.go
@@ -292,6 +292,7 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 	if err := d.p.Open(d.flate); err != nil {
 		return nil, err
 	}
+	d.nonRootModels = nil // of a previous decoding
 	var rootFile packageFile
 	for _, r := range d.p.Relationships() {
 		if r.Type == RelType3DModel {
-- 
2.43.0


From 07e8732156f15dcf4d883bddcd14f167588f186f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 23/82] fix: decode: read each child model once

---
 read.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/read.go b/read.go
index 641d24a..218c335 100644
--- a/read.go
+++ b/read.go
@@ -328,6 +328,9 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 		if file, ok := modelFile.FindFileFromName(rel.Path); ok {
 			if isRoot {
 				if rel.Type == RelType3DModel {
+					if file.Name() == modelFile.Name() || d.isNonRootModel(file) {
+						continue
+					}
 					d.nonRootModels = append(d.nonRootModels, file)
 					if model.Childs == nil {
 						model.Childs = make(map[string]*ChildModel)
@@ -352,6 +355,15 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 	return nil
 }
 
+func (d *Decoder) isNonRootModel(file packageFile) bool {
+	for _, f := range d.nonRootModels {
+		if f.Name() == file.Name() {
+			return true
+		}
+	}
+	return false
+}
+
 func (d *Decoder) addAttachment(model *Model, file packageFile) error {
 	for _, att := range model.Attachments {
 		if strings.EqualFold(att.Path, file.Name()) {
-- 
2.43.0


From 02f57cb50357f7e8035841fecede75ac8a2cff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 24/82] fix: internal/xml: do not read on after an error

---
 internal/xml/xml.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index 32aea48..d80cc15 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -609,6 +609,9 @@ func (d *Decoder) space() {
 // If there is no byte to read, return ok==false
 // and leave the error in d.err.
 func (d *Decoder) getc() (b byte, ok bool) {
+	if d.err != nil {
+		return 0, false
+	}
 	b, d.err = d.r.ReadByte()
 	ok = d.err == nil
 	return
-- 
2.43.0


From 2c4ce701fcf98bc164edd2388ed1853d1684a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 25/82] fix: errors: match every error of a list

---
 errors/list.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/errors/list.go b/errors/list.go
index d8a73ea..7fa55b1 100644
--- a/errors/list.go
+++ b/errors/list.go
@@ -4,6 +4,7 @@
 package errors
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 )
@@ -44,12 +45,39 @@ func (e *List) Error() string {
 
 // Unwrap returns the first error of the chain if not empty.
 func (e *List) Unwrap() error {
-	if len(e.Errors) == 0 {
+	if e.Len() == 0 {
 		return nil
 	}
 	return e.Errors[0]
 }
 
+// Is reports whether any error of the list matches target.
+func (e *List) Is(target error) bool {
+	if e == nil {
+		return false
+	}
+	for _, err := range e.Errors {
+		if errors.Is(err, target) {
+			return true
+		}
+	}
+	return false
+}
+
+// As finds the first error of the list that matches target,
+// and if so, sets target to that error value and returns true.
+func (e *List) As(target interface{}) bool {
+	if e == nil {
+		return false
+	}
+	for _, err := range e.Errors {
+		if errors.As(err, target) {
+			return true
+		}
+	}
+	return false
+}
+
 // Append is a helper function that will append more errors
 // onto an List in order to create a larger multi-error.
 //
-- 
2.43.0


From 2d48626bb407066b41e404cd5833290630f579e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 26/82] fix: uuid: check the braces of the Microsoft encoding

---
 uuid/uuid.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 27b62d4..2a9a917 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -105,7 +105,10 @@ func validateUUID(s string) error {
 
 	// {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
 	case 36 + 2:
-		s = s[1:]
+		if s[0] != '{' || s[37] != '}' {
+			return errors.New("production: invalid UUID format")
+		}
+		s = s[1:37]
 
 	// xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
 	case 32:
@@ -120,7 +123,7 @@ func validateUUID(s string) error {
 	default:
 		return fmt.Errorf("production: invalid UUID length: %d", len(s))
 	}
-	// s is now at least 36 bytes long
+	// s is now 36 bytes long
 	// it must be of the form  xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx
 	if s[8] != '-' || s[13] != '-' || s[18] != '-' || s[23] != '-' {
 		return errors.New("production: invalid UUID format")
-- 
2.43.0


From f72334d2fc4c1c6b1e2fb0c451be673f59aaa667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 27/82] fix: production: set the missing UUID of builds with
 attributes

---
 production/production.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/production/production.go b/production/production.go
index ce4dce7..fa66446 100644
--- a/production/production.go
+++ b/production/production.go
@@ -127,8 +127,10 @@ func (p *ComponentAttr) getUUID() string {
 // SetMissingUUIDs traverse all the model tree setting
 // all missing UUID attributes.
 func SetMissingUUIDs(m *go3mf.Model) {
-	if GetBuildAttr(&m.Build) == nil {
+	if ext := GetBuildAttr(&m.Build); ext == nil {
 		m.Build.AnyAttr = append(m.Build.AnyAttr, &BuildAttr{UUID: uuid.New()})
+	} else if ext.UUID == "" {
+		ext.UUID = uuid.New()
 	}
 	for _, item := range m.Build.Items {
 		ext := GetItemAttr(item)
-- 
2.43.0


From 7cbce11070cd428aced90fb818f45380c80db060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 28/82] fix: UnusedID: handle duplicated and missing
 identifiers

---
 core.go | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/core.go b/core.go
index 0d2d16a..09746e2 100644
--- a/core.go
+++ b/core.go
@@ -7,7 +7,6 @@ import (
 	"encoding/xml"
 	"image/color"
 	"io"
-	"sort"
 	"sync"
 
 	"github.com/hpinc/go3mf/spec"
@@ -137,30 +136,20 @@ type Resources struct {
 
 // UnusedID returns the lowest unused ID.
 func (rs *Resources) UnusedID() uint32 {
-	if len(rs.Assets) == 0 && len(rs.Objects) == 0 {
-		return 1
+	ids := make(map[uint32]struct{}, len(rs.Assets)+len(rs.Objects))
+	for _, r := range rs.Assets {
+		ids[r.Identify()] = struct{}{}
 	}
-	ids := make([]int, len(rs.Assets)+len(rs.Objects)+1)
-	ids[0] = 0
-	for i, r := range rs.Assets {
-		id := r.Identify()
-		ids[i+1] = int(id)
+	for _, o := range rs.Objects {
+		ids[o.ID] = struct{}{}
 	}
-	for i, o := range rs.Objects {
-		ids[len(rs.Assets)+i+1] = int(o.ID)
-	}
-	sort.Ints(ids)
-	lowest := 0
-	for i, id := range ids {
-		if id != i {
-			lowest = i
-			break
+	lowest := uint32(1)
+	for {
+		if _, ok := ids[lowest]; !ok {
+			return lowest
 		}
+		lowest++
 	}
-	if lowest == 0 {
-		lowest = ids[len(ids)-1] + 1
-	}
-	return uint32(lowest)
 }
 
 // FindObject returns the resource with the target ID.
-- 
2.43.0


From e6c08011c40d3a9aa61b2a7c8b484564643c6397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 29/82] fix: MulBox: enclose every corner of the box

---
 math.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/math.go b/math.go
index 4612e0b..a07394b 100644
--- a/math.go
+++ b/math.go
@@ -178,18 +178,13 @@ func (m1 Matrix) MulBox(b Box) Box {
 	if m1[15] == 0 {
 		return b
 	}
-	box := Box{
-		Min: m1.Mul3D(b.Min),
-		Max: m1.Mul3D(b.Max),
-	}
-	if box.Min.X() > box.Max.X() {
-		box.Min[0], box.Max[0] = box.Max[0], box.Min[0]
-	}
-	if box.Min.Y() > box.Max.Y() {
-		box.Min[1], box.Max[1] = box.Max[1], box.Min[1]
-	}
-	if box.Min.Z() > box.Max.Z() {
-		box.Min[2], box.Max[2] = box.Max[2], box.Min[2]
+	box := newLimitBox()
+	for _, x := range [...]float32{b.Min.X(), b.Max.X()} {
+		for _, y := range [...]float32{b.Min.Y(), b.Max.Y()} {
+			for _, z := range [...]float32{b.Min.Z(), b.Max.Z()} {
+				box = box.extendPoint(m1.Mul3D(Point3D{x, y, z}))
+			}
+		}
 	}
 	return box
 }
-- 
2.43.0


From c2e9aca0a1aac1b07e0bb3f3aa6cda5d520b72c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 30/82] fix: MulBox: transform with every matrix but the zero
 one

---
 math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math.go b/math.go
index a07394b..ee1eea8 100644
--- a/math.go
+++ b/math.go
@@ -175,7 +175,7 @@ func (m1 Matrix) Mul2D(v Point2D) Point2D {
 // MulBox performs a "matrix product" between this matrix
 // and a box
 func (m1 Matrix) MulBox(b Box) Box {
-	if m1[15] == 0 {
+	if m1 == (Matrix{}) {
 		return b
 	}
 	box := newLimitBox()
-- 
2.43.0


From 07b245e254d47bc306a580035094270b3220c43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 31/82] fix: BoundingBox: nested paths, missing geometry and
 recursive references

---
 core.go | 47 +++++++++++++++++++++++++++++++++++++----------
 math.go |  2 --
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/core.go b/core.go
index 09746e2..0f7860b 100644
--- a/core.go
+++ b/core.go
@@ -229,6 +229,7 @@ func (m *Model) BoundingBox() Box {
 	}
 	var wg sync.WaitGroup
 	var mu sync.Mutex
+	var hasGeometry bool
 	box := newLimitBox()
 	wg.Add(len(m.Build.Items))
 	for i := range m.Build.Items {
@@ -236,16 +237,19 @@ func (m *Model) BoundingBox() Box {
 			defer wg.Done()
 			item := m.Build.Items[i]
 			if o, ok := m.FindObject(item.ObjectPath(), item.ObjectID); ok {
-				ibox := o.boundingBox(m, item.ObjectPath())
-				if ibox != emptyBox {
+				if ibox, ok := o.boundingBox(m, item.ObjectPath(), make(map[measuredObject]*Box)); ok {
 					mu.Lock()
 					box = box.extend(item.Transform.MulBox(ibox))
+					hasGeometry = true
 					mu.Unlock()
 				}
 			}
 		}(i)
 	}
 	wg.Wait()
+	if !hasGeometry {
+		return Box{}
+	}
 	return box
 }
 
@@ -402,23 +406,46 @@ type Object struct {
 	AnyAttr    spec.AnyAttr
 }
 
-func (o *Object) boundingBox(m *Model, path string) Box {
+// measuredObject identifies an object and the part its components are resolved in.
+type measuredObject struct {
+	path string
+	o    *Object
+}
+
+// boundingBox returns the bounding box of the object, and false if it has no geometry.
+// The objects already measured, or being measured, are in visited, with a nil box
+// if they don't contribute any geometry.
+func (o *Object) boundingBox(m *Model, path string, visited map[measuredObject]*Box) (Box, bool) {
 	if o.Mesh != nil {
-		return o.Mesh.BoundingBox()
+		return o.Mesh.BoundingBox(), len(o.Mesh.Vertices.Vertex) != 0
 	}
-	if o.Components == nil || len(o.Components.Component) == 0 {
-		return Box{}
+	if o.Components == nil {
+		return Box{}, false
 	}
+	key := measuredObject{path, o}
+	if box, ok := visited[key]; ok {
+		if box == nil {
+			return Box{}, false
+		}
+		return *box, true
+	}
+	visited[key] = nil
+	var hasGeometry bool
 	box := newLimitBox()
 	for _, c := range o.Components.Component {
-		if obj, ok := m.FindObject(c.ObjectPath(path), c.ObjectID); ok {
-			cbox := obj.boundingBox(m, path)
-			if cbox != emptyBox {
+		cpath := c.ObjectPath(path)
+		if obj, ok := m.FindObject(cpath, c.ObjectID); ok {
+			if cbox, ok := obj.boundingBox(m, cpath, visited); ok {
 				box = box.extend(c.Transform.MulBox(cbox))
+				hasGeometry = true
 			}
 		}
 	}
-	return box
+	if !hasGeometry {
+		return Box{}, false
+	}
+	visited[key] = &box
+	return box, true
 }
 
 // A Components is an in memory representation of the 3MF components.
diff --git a/math.go b/math.go
index ee1eea8..e814ecd 100644
--- a/math.go
+++ b/math.go
@@ -195,8 +195,6 @@ type Box struct {
 	Max Point3D
 }
 
-var emptyBox = Box{}
-
 func newLimitBox() Box {
 	return Box{
 		Min: Point3D{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32},
-- 
2.43.0


From 8d62c78dac620f4115bc813b91bc5caf594cc47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 32/82] fix: MeshBuilder: do not merge distant vertices

---
 math.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/math.go b/math.go
index e814ecd..2110505 100644
--- a/math.go
+++ b/math.go
@@ -35,20 +35,21 @@ func newPairEntry(data1, data2 uint32) pairEntry {
 	return pairEntry{data2, data1}
 }
 
-// vec3I represents a 3D vector typed as int32
+// vec3I represents a 3D vector in multiples of the accuracy.
+// The coordinates have integer values but are not limited to the range of the integer types.
 type vec3I struct {
-	X int32 // X coordinate
-	Y int32 // Y coordinate
-	Z int32 // Z coordinate
+	X float64 // X coordinate
+	Y float64 // Y coordinate
+	Z float64 // Z coordinate
 }
 
 const micronsAccuracy = 1e-6
 
 func newvec3IFromVec3(vec Point3D) vec3I {
 	a := vec3I{
-		X: int32(math.Floor(float64(vec.X() / micronsAccuracy))),
-		Y: int32(math.Floor(float64(vec.Y() / micronsAccuracy))),
-		Z: int32(math.Floor(float64(vec.Z() / micronsAccuracy))),
+		X: math.Round(float64(vec.X()) / micronsAccuracy),
+		Y: math.Round(float64(vec.Y()) / micronsAccuracy),
+		Z: math.Round(float64(vec.Z()) / micronsAccuracy),
 	}
 	return a
 }
-- 
2.43.0


From 39f872f5efd8a11b196fa0555804d9abcce63df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 33/82] fix: MeshBuilder: find the vertices the mesh already
 has

---
 core.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/core.go b/core.go
index 0f7860b..03ff490 100644
--- a/core.go
+++ b/core.go
@@ -534,6 +534,7 @@ type MeshBuilder struct {
 	// Do not modify the pointer to Mesh once the build process has started.
 	Mesh       *Mesh
 	vectorTree vectorTree
+	indexed    int // number of vertices of the mesh that are in vectorTree
 }
 
 // NewMeshBuilder returns a new MeshBuilder.
@@ -548,16 +549,24 @@ func NewMeshBuilder(m *Mesh) *MeshBuilder {
 // AddVertex adds a node the the mesh at the target position.
 func (mb *MeshBuilder) AddVertex(node Point3D) uint32 {
 	if mb.CalculateConnectivity {
+		mb.indexVertices()
 		if index, ok := mb.vectorTree.FindVector(node); ok {
 			return index
 		}
 	}
 	mb.Mesh.Vertices.Vertex = append(mb.Mesh.Vertices.Vertex, node)
-	index := uint32(len(mb.Mesh.Vertices.Vertex)) - 1
-	if mb.CalculateConnectivity {
-		mb.vectorTree.AddVector(node, index)
+	return uint32(len(mb.Mesh.Vertices.Vertex)) - 1
+}
+
+// indexVertices adds to the lookup tree the vertices of the mesh that are not there yet,
+// whoever added them to the mesh.
+func (mb *MeshBuilder) indexVertices() {
+	for ; mb.indexed < len(mb.Mesh.Vertices.Vertex); mb.indexed++ {
+		v := mb.Mesh.Vertices.Vertex[mb.indexed]
+		if _, ok := mb.vectorTree.FindVector(v); !ok {
+			mb.vectorTree.AddVector(v, uint32(mb.indexed))
+		}
 	}
-	return index
 }
 
 // UnknownAsset wraps a spec.UnknownTokens to fulfill
-- 
2.43.0


From 0f0b7cf453416b71c225effa6ce30cb0b4e17d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 34/82] fix: slices: locate the errors of segments

---
 slices/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slices/decoder.go b/slices/decoder.go
index e413f45..4f4e9d4 100644
--- a/slices/decoder.go
+++ b/slices/decoder.go
@@ -223,7 +223,7 @@ type polygonDecoder struct {
 func (d *polygonDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 	if name.Space == Namespace && name.Local == attrSegment {
 		child = &d.polygonSegmentDecoder
-		i = len(d.slice.Polygons)
+		i = len(d.polygonSegmentDecoder.polygon.Segments)
 	}
 	return
 }
-- 
2.43.0


From 3520031812187f4098f1c0c087c819fe3a3f56ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 35/82] fix: materials: report malformed enumerations

---
 materials/decoder.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/materials/decoder.go b/materials/decoder.go
index b038fb9..a7e40b3 100644
--- a/materials/decoder.go
+++ b/materials/decoder.go
@@ -187,13 +187,29 @@ func (d *texture2DDecoder) Start(attrs []spec.XMLAttr) error {
 		case attrPath:
 			d.resource.Path = string(a.Value)
 		case attrContentType:
-			d.resource.ContentType, _ = newTexture2DType(string(a.Value))
+			var ok bool
+			d.resource.ContentType, ok = newTexture2DType(string(a.Value))
+			if !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
+			}
 		case attrTileStyleU:
-			d.resource.TileStyleU, _ = newTileStyle(string(a.Value))
+			var ok bool
+			d.resource.TileStyleU, ok = newTileStyle(string(a.Value))
+			if !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		case attrTileStyleV:
-			d.resource.TileStyleV, _ = newTileStyle(string(a.Value))
+			var ok bool
+			d.resource.TileStyleV, ok = newTileStyle(string(a.Value))
+			if !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		case attrFilter:
-			d.resource.Filter, _ = newTextureFilter(string(a.Value))
+			var ok bool
+			d.resource.Filter, ok = newTextureFilter(string(a.Value))
+			if !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		}
 	}
 	return errs
@@ -309,7 +325,10 @@ func (d *multiPropertiesDecoder) Start(attrs []spec.XMLAttr) error {
 			d.resource.ID = uint32(id)
 		case attrBlendMethods:
 			for _, f := range strings.Fields(string(a.Value)) {
-				val, _ := newBlendMethod(f)
+				val, ok := newBlendMethod(f)
+				if !ok {
+					errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+				}
 				d.resource.BlendMethods = append(d.resource.BlendMethods, val)
 			}
 		case attrPIDs:
-- 
2.43.0


From 61223ce76b0a99132483aa50d81bf4d803f43a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:34 +0000
Subject: [PATCH 36/82] fix: beamlattice: report malformed cap modes

---
 beamlattice/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beamlattice/decoder.go b/beamlattice/decoder.go
index ede9196..1cb4ac4 100644
--- a/beamlattice/decoder.go
+++ b/beamlattice/decoder.go
@@ -156,12 +156,16 @@ func (d *beamDecoder) Start(attrs []spec.XMLAttr) error {
 			beam.CapMode[0], ok = newCapMode(string(a.Value))
 			if ok {
 				hasCap1 = true
+			} else {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
 			}
 		case attrCap2:
 			var ok bool
 			beam.CapMode[1], ok = newCapMode(string(a.Value))
 			if ok {
 				hasCap2 = true
+			} else {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
 			}
 		}
 	}
-- 
2.43.0


From e7b29bdec52f37302ebaa7da2f745a9adf6cca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 37/82] fix: decode: report malformed preserve attributes

---
 decoder.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 03470b8..85092d6 100644
--- a/decoder.go
+++ b/decoder.go
@@ -168,7 +168,7 @@ func (d *metadataDecoder) namespace(local string) (string, bool) {
 	return "", false
 }
 
-func (d *metadataDecoder) Start(attrs []spec.XMLAttr) error {
+func (d *metadataDecoder) Start(attrs []spec.XMLAttr) (errs error) {
 	for _, a := range attrs {
 		if a.Name.Space != "" {
 			continue
@@ -188,10 +188,14 @@ func (d *metadataDecoder) Start(attrs []spec.XMLAttr) error {
 		case attrType:
 			d.metadata.Type = string(a.Value)
 		case attrPreserve:
-			d.metadata.Preserve, _ = strconv.ParseBool(string(a.Value))
+			var err error
+			d.metadata.Preserve, err = strconv.ParseBool(string(a.Value))
+			if err != nil {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		}
 	}
-	return nil
+	return errs
 }
 
 func (d *metadataDecoder) CharData(txt []byte) {
-- 
2.43.0


From 0faf32e9fe8ce016491354b2dd524aa9a607d1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 38/82] fix: decode: ignore the elements of extensions that are
 not resources in resources

---
 decoder.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/decoder.go b/decoder.go
index 85092d6..3da04f3 100644
--- a/decoder.go
+++ b/decoder.go
@@ -319,11 +319,12 @@ func (d *resourceDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder
 			i = len(d.resources.Assets)
 		}
 	} else if ext, ok := spec.Load(name.Space); ok {
-		dec := ext.NewElementDecoder(name)
-		i = len(d.resources.Assets)
-		child = dec
-		if dec != nil {
-			d.resources.Assets = append(d.resources.Assets, dec.Element().(Asset))
+		if dec := ext.NewElementDecoder(name); dec != nil {
+			if asset, ok := dec.Element().(Asset); ok {
+				child = dec
+				i = len(d.resources.Assets)
+				d.resources.Assets = append(d.resources.Assets, asset)
+			}
 		}
 	} else {
 		child = &unknownAssetDecoder{UnknownTokensDecoder: *spec.NewUnknownDecoder(name), resources: d.resources}
-- 
2.43.0


From a97d60ad5e404883815d8754f9d2843d10db8307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 39/82] fix: materials: keep the place of colors without a
 value

---
 materials/decoder.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/materials/decoder.go b/materials/decoder.go
index a7e40b3..72e4ad3 100644
--- a/materials/decoder.go
+++ b/materials/decoder.go
@@ -5,6 +5,7 @@ package materials
 
 import (
 	"encoding/xml"
+	"image/color"
 	"strconv"
 	"strings"
 
@@ -74,20 +75,22 @@ type colorDecoder struct {
 }
 
 func (d *colorDecoder) Start(attrs []spec.XMLAttr) error {
+	var (
+		c    color.RGBA
+		errs error
+	)
 	for _, a := range attrs {
 		if a.Name.Space == "" && a.Name.Local == attrColor {
-			c, err := spec.ParseRGBA(string(a.Value))
-			if err != nil {
-				err = specerr.NewParseAttrError(a.Name.Local, true)
-			}
-			d.resource.Colors = append(d.resource.Colors, c)
+			var err error
+			c, err = spec.ParseRGBA(string(a.Value))
 			if err != nil {
-				return err
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
 			}
 			break
 		}
 	}
-	return nil
+	d.resource.Colors = append(d.resource.Colors, c)
+	return errs
 }
 
 type tex2DCoordDecoder struct {
-- 
2.43.0


From 3f8bacc6f03b497887dbca770a27f7b2a483ced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 40/82] fix: decode: tell the part of malformed elements of
 child models

---
 read.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index 218c335..c7b3717 100644
--- a/read.go
+++ b/read.go
@@ -95,7 +95,11 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 				if err != nil {
 					for j := len(stack) - 1; j >= 0; j-- {
 						element := stack[j]
-						err = specerr.WrapIndex(err, element.name.Local, element.i)
+						if j == 0 && !isRoot {
+							err = specerr.WrapPath(err, element.name.Local, path)
+						} else {
+							err = specerr.WrapIndex(err, element.name.Local, element.i)
+						}
 					}
 					specerr.Append(&errs, err)
 				}
-- 
2.43.0


From b0c893152fd679fff518f86dcd086f7ff3b7f2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 41/82] fix: ValidateCoherency: report errors always in the
 same order

---
 validate.go | 58 ++++++++++++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/validate.go b/validate.go
index 1f7f111..1e8274a 100644
--- a/validate.go
+++ b/validate.go
@@ -371,42 +371,40 @@ func (m *Model) ValidateCoherency() error {
 	var (
 		errs error
 		wg   sync.WaitGroup
-		mu   sync.Mutex
 	)
-	wg.Add(len(m.Resources.Objects))
-	for i := range m.Resources.Objects {
-		go func(i int) {
-			defer wg.Done()
-			r := m.Resources.Objects[i]
-			if isSolidObject(r) {
-				err := r.Mesh.ValidateCoherency()
-				if err != nil {
-					mu.Lock()
-					errs = errors.Append(errs, errors.Wrap(errors.WrapIndex(errors.Wrap(err, attrMesh), attrObject, i), attrResources))
-					mu.Unlock()
-				}
-			}
-		}(i)
-	}
-	for path, c := range m.Childs {
-		wg.Add(len(c.Resources.Objects))
-		for i := range c.Resources.Objects {
-			go func(path string, i int) {
+	// Each goroutine has its own place, so that errors are always in the same order.
+	validate := func(objects []*Object) []error {
+		meshErrs := make([]error, len(objects))
+		wg.Add(len(objects))
+		for i := range objects {
+			go func(i int) {
 				defer wg.Done()
-				res := m.Childs[path].Resources
-				r := res.Objects[i]
-				if isSolidObject(r) {
-					err := r.Mesh.ValidateCoherency()
-					if err != nil {
-						mu.Lock()
-						errs = errors.Append(errs, errors.WrapPath(errors.WrapIndex(errors.Wrap(err, attrMesh), attrObject, i), attrResources, path))
-						mu.Unlock()
-					}
+				if r := objects[i]; isSolidObject(r) {
+					meshErrs[i] = r.Mesh.ValidateCoherency()
 				}
-			}(path, i)
+			}(i)
 		}
+		return meshErrs
+	}
+	paths := m.sortedChilds()
+	childErrs := make([][]error, len(paths))
+	for i, path := range paths {
+		childErrs[i] = validate(m.Childs[path].Resources.Objects)
 	}
+	rootErrs := validate(m.Resources.Objects)
 	wg.Wait()
+	for j, path := range paths {
+		for i, err := range childErrs[j] {
+			if err != nil {
+				errs = errors.Append(errs, errors.WrapPath(errors.WrapIndex(errors.Wrap(err, attrMesh), attrObject, i), attrResources, path))
+			}
+		}
+	}
+	for i, err := range rootErrs {
+		if err != nil {
+			errs = errors.Append(errs, errors.Wrap(errors.WrapIndex(errors.Wrap(err, attrMesh), attrObject, i), attrResources))
+		}
+	}
 	if errs != nil {
 		return errors.Wrap(errs, attrModel)
 	}
-- 
2.43.0


From f5cb8f91f85e48326cedac4812163c4176ad8d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 42/82] fix: encode: write child models always in the same
 order

---
 encoder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index bb0754d..ee4f7fe 100644
--- a/encoder.go
+++ b/encoder.go
@@ -164,7 +164,7 @@ func (e *Encoder) Encode(m *Model) error {
 	enc := newXMLEncoder(w, e.FloatPrecision)
 	enc.relationships = make([]Relationship, len(m.Relationships))
 	copy(enc.relationships, m.Relationships)
-	for path := range m.Childs {
+	for _, path := range m.sortedChilds() {
 		enc.AddRelationship(spec.Relationship{Type: RelType3DModel, Path: path})
 	}
 	if err = e.writeModel(enc, m); err != nil {
@@ -181,7 +181,8 @@ func (e *Encoder) Encode(m *Model) error {
 }
 
 func (e *Encoder) writeChildModels(m *Model) error {
-	for path, child := range m.Childs {
+	for _, path := range m.sortedChilds() {
+		child := m.Childs[path]
 		var (
 			w   packagePart
 			err error
-- 
2.43.0


From 39840b534e44e4e9108d1c6e6ff43316eb63293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 43/82] fix: validate: check the metadata of objects

---
 validate.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/validate.go b/validate.go
index 1e8274a..7d87b11 100644
--- a/validate.go
+++ b/validate.go
@@ -214,6 +214,7 @@ func (r *Object) Validate(m *Model, path string) error {
 	if (r.Mesh != nil && r.Components != nil) || (r.Mesh == nil && r.Components == nil) {
 		errs = errors.Append(errs, errors.ErrInvalidObject)
 	}
+	errs = errors.Append(errs, checkMetadadata(m, r.Metadata.Metadata))
 	if r.Mesh != nil {
 		if r.PID != 0 {
 			if a, ok := res.FindAsset(r.PID); ok {
-- 
2.43.0


From 850c45dbfd601dd01117097e0903b8ffadf9b5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 44/82] fix: validate: accept relationships to model parts

---
 validate.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/validate.go b/validate.go
index 7d87b11..a9d1ddc 100644
--- a/validate.go
+++ b/validate.go
@@ -327,7 +327,7 @@ func validateRelationship(m *Model, rels []Relationship, path string) error {
 		if r.Path == "" || r.Path[0] != '/' || strings.Contains(r.Path, "/.") {
 			errs = errors.Append(errs, errors.WrapIndex(errors.ErrOPCPartName, "relationship", i))
 		} else {
-			if _, ok := findAttachment(m.Attachments, r.Path); !ok {
+			if !m.hasPart(r.Path) {
 				errs = errors.Append(errs, errors.WrapIndex(errors.ErrOPCRelTarget, "relationship", i))
 			}
 			if _, ok := visitedParts[partrel{r.Path, r.Type}]; ok {
@@ -358,6 +358,20 @@ func validateRelationship(m *Model, rels []Relationship, path string) error {
 	return errs
 }
 
+// hasPart returns true if there is a model part or an attachment with the path.
+func (m *Model) hasPart(path string) bool {
+	if strings.EqualFold(path, m.PathOrDefault()) {
+		return true
+	}
+	for child := range m.Childs {
+		if strings.EqualFold(path, child) {
+			return true
+		}
+	}
+	_, ok := findAttachment(m.Attachments, path)
+	return ok
+}
+
 func findAttachment(att []Attachment, path string) (*Attachment, bool) {
 	for _, a := range att {
 		if strings.EqualFold(a.Path, path) {
-- 
2.43.0


From cfcdcf1493c741190e6e2c9567a57679139d802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 45/82] fix: validate: report the recursion of an object of the
 root model given without path

---
 validate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/validate.go b/validate.go
index a9d1ddc..1451610 100644
--- a/validate.go
+++ b/validate.go
@@ -203,6 +203,9 @@ func (res *Resources) validate(m *Model, path string) error {
 // Validate validates that the object is compliant with 3MF specs,
 // except for the mesh coherency.
 func (r *Object) Validate(m *Model, path string) error {
+	if path == "" {
+		path = m.PathOrDefault()
+	}
 	res, _ := m.FindResources(path)
 	var errs error
 	if r.ID == 0 {
-- 
2.43.0


From 5d8321dbcffd5084580b6a7d0254d18472630f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 46/82] fix: validate: do not panic if the path of an object is
 not in the model

---
 validate.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/validate.go b/validate.go
index 1451610..fbf2ea9 100644
--- a/validate.go
+++ b/validate.go
@@ -206,7 +206,6 @@ func (r *Object) Validate(m *Model, path string) error {
 	if path == "" {
 		path = m.PathOrDefault()
 	}
-	res, _ := m.FindResources(path)
 	var errs error
 	if r.ID == 0 {
 		errs = errors.Append(errs, errors.ErrMissingID)
@@ -220,7 +219,7 @@ func (r *Object) Validate(m *Model, path string) error {
 	errs = errors.Append(errs, checkMetadadata(m, r.Metadata.Metadata))
 	if r.Mesh != nil {
 		if r.PID != 0 {
-			if a, ok := res.FindAsset(r.PID); ok {
+			if a, ok := m.FindAsset(path, r.PID); ok {
 				if a, ok := a.(spec.PropertyGroup); ok {
 					if int(r.PIndex) >= a.Len() {
 						errs = errors.Append(errs, errors.ErrIndexOutOfBounds)
@@ -251,7 +250,6 @@ func (r *Object) Validate(m *Model, path string) error {
 }
 
 func (r *Object) validateMesh(m *Model, path string) error {
-	res, _ := m.FindResources(path)
 	var errs error
 	switch r.Type {
 	case ObjectTypeModel, ObjectTypeSolidSupport:
@@ -276,7 +274,7 @@ func (r *Object) validateMesh(m *Model, path string) error {
 				t.P2 == r.PIndex && t.P3 == r.PIndex {
 				continue
 			}
-			if a, ok := res.FindAsset(t.PID); ok {
+			if a, ok := m.FindAsset(path, t.PID); ok {
 				if a, ok := a.(spec.PropertyGroup); ok {
 					l := a.Len()
 					if int(t.P1) >= l || int(t.P2) >= l || int(t.P3) >= l {
-- 
2.43.0


From d27579ec16ed1f25b53bad09998b1f17514a6c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 47/82] fix: slices: do not panic if the path of an object is
 not in the model

---
 slices/validate.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/slices/validate.go b/slices/validate.go
index 1a5164d..a1e922e 100644
--- a/slices/validate.go
+++ b/slices/validate.go
@@ -30,10 +30,9 @@ func validateObject(m *go3mf.Model, path string, obj *go3mf.Object) error {
 		return nil
 	}
 	var errs error
-	res, _ := m.FindResources(path)
 	if sti.SliceStackID == 0 {
 		errs = errors.Append(errs, errors.NewMissingFieldError(attrSliceRefID))
-	} else if r, ok := res.FindAsset(sti.SliceStackID); ok {
+	} else if r, ok := m.FindAsset(path, sti.SliceStackID); ok {
 		if r, ok := r.(*SliceStack); ok {
 			if !validateBuildTransforms(m, path, obj.ID) {
 				errs = errors.Append(errs, ErrSliceInvalidTranform)
-- 
2.43.0


From 4ca2235af34350d2336913844b566eb68a6d0993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 48/82] fix: materials: accept multiproperties that index a
 texture group

---
 materials/validate.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/materials/validate.go b/materials/validate.go
index a3e8eed..9a0a881 100644
--- a/materials/validate.go
+++ b/materials/validate.go
@@ -125,6 +125,8 @@ func validateMultiProps(m *go3mf.Model, path string, r *MultiProperties) (errs e
 				lengths[j] = len(pr.Composites)
 			case *MultiProperties:
 				errs = errors.Append(errs, ErrMultiRefMulti)
+			case *Texture2DGroup:
+				lengths[j] = len(pr.Coords)
 			case *ColorGroup:
 				if colorCount == 1 {
 					errs = errors.Append(errs, ErrMultiColors)
-- 
2.43.0


From 5843d2faee856c38359f4e6f0c2361192599e371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 49/82] fix: materials: report multi indices equal to the
 length of the group

---
 materials/validate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/materials/validate.go b/materials/validate.go
index 9a0a881..0e6db6c 100644
--- a/materials/validate.go
+++ b/materials/validate.go
@@ -111,6 +111,7 @@ func validateMultiProps(m *go3mf.Model, path string, r *MultiProperties) (errs e
 		lengths           = make([]int, len(r.PIDs))
 	)
 	for j, pid := range r.PIDs {
+		lengths[j] = -1 // unknown
 		if pr, ok := m.FindAsset(path, pid); ok {
 			switch pr := pr.(type) {
 			case *go3mf.BaseMaterials:
@@ -141,7 +142,7 @@ func validateMultiProps(m *go3mf.Model, path string, r *MultiProperties) (errs e
 	}
 	for j, multi := range r.Multis {
 		for k, index := range multi.PIndices {
-			if k < len(r.PIDs) && lengths[k] < int(index) {
+			if k < len(r.PIDs) && lengths[k] >= 0 && lengths[k] <= int(index) {
 				errs = errors.Append(errs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrMulti, j))
 				break
 			}
-- 
2.43.0


From bd49cfd06fff6a18fa1f9cc51d8f8dd8e4d09617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 50/82] fix: materials: report composite indices equal to the
 length of the group

---
 materials/validate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/materials/validate.go b/materials/validate.go
index 0e6db6c..76a0e13 100644
--- a/materials/validate.go
+++ b/materials/validate.go
@@ -160,7 +160,7 @@ func validateCompositeMat(m *go3mf.Model, path string, r *CompositeMaterials) (e
 	} else if mat, ok := m.FindAsset(path, r.MaterialID); ok {
 		if bm, ok := mat.(*go3mf.BaseMaterials); ok {
 			for _, index := range r.Indices {
-				if int(index) > len(bm.Materials) {
+				if int(index) >= len(bm.Materials) {
 					errs = errors.Append(errs, errors.ErrIndexOutOfBounds)
 					break
 				}
-- 
2.43.0


From 3db51b2d221080c4a7746e5259d0edd7c2cd67d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 51/82] fix: beamlattice: check the references of a beam set
 against the beams

---
 beamlattice/validate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beamlattice/validate.go b/beamlattice/validate.go
index 887dc16..8d94ca5 100644
--- a/beamlattice/validate.go
+++ b/beamlattice/validate.go
@@ -61,7 +61,7 @@ func validateObject(m *go3mf.Model, path string, obj *go3mf.Object) error {
 	}
 	for i, set := range bl.BeamSets.BeamSet {
 		for _, ref := range set.Refs {
-			if int(ref) >= len(set.Refs) {
+			if int(ref) >= len(bl.Beams.Beam) {
 				errs = errors.Append(errs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrBeamSet, i))
 				break
 			}
-- 
2.43.0


From 40b0a8d4fbffcb2f572eb4b094c9be7ab8afd0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 52/82] fix: beamlattice: accept beams with two different radii
 and report r2 without r1

---
 beamlattice/validate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beamlattice/validate.go b/beamlattice/validate.go
index 8d94ca5..c2705da 100644
--- a/beamlattice/validate.go
+++ b/beamlattice/validate.go
@@ -55,7 +55,8 @@ func validateObject(m *go3mf.Model, path string, obj *go3mf.Object) error {
 				errs = errors.Append(errs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrBeam, i))
 			}
 		}
-		if b.Radius[0] != 0 && b.Radius[0] != bl.Radius && b.Radius[0] != b.Radius[1] {
+		r1, r2 := b.Radius[0], b.Radius[1]
+		if (r1 == 0 && r2 != 0) || (r1 != 0 && r1 != bl.Radius && r2 == 0) {
 			errs = errors.Append(errs, errors.WrapIndex(ErrLatticeBeamR2, attrBeam, i))
 		}
 	}
-- 
2.43.0


From 590c0e172ae1799fc6bca136cd4a34ab64e7c12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 53/82] fix: slices: report slice stacks without ID

---
 slices/validate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slices/validate.go b/slices/validate.go
index a1e922e..7791675 100644
--- a/slices/validate.go
+++ b/slices/validate.go
@@ -72,6 +72,9 @@ func validateAsset(m *go3mf.Model, path string, r go3mf.Asset) error {
 		return nil
 	}
 	var errs error
+	if st.ID == 0 {
+		errs = errors.Append(errs, errors.ErrMissingID)
+	}
 	if (len(st.Slices) != 0 && len(st.Refs) != 0) ||
 		(len(st.Slices) == 0 && len(st.Refs) == 0) {
 		errs = errors.Append(errs, ErrSlicesAndRefs)
-- 
2.43.0


From 04b56bc0ddb887c9360b418c2c256bae3a9d1a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 54/82] fix: slices: report polygons with vertices that are not
 in the slice

---
 slices/validate.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/slices/validate.go b/slices/validate.go
index 7791675..363995a 100644
--- a/slices/validate.go
+++ b/slices/validate.go
@@ -107,10 +107,20 @@ func (r *SliceStack) validateSlices() error {
 			errs = errors.Append(errs, errors.WrapIndex(ErrSliceInsufficientPolygons, attrSlice, j))
 		}
 		var perrs error
+		nodeCount := len(slice.Vertices.Vertex)
 		for k, p := range slice.Polygons {
 			if len(p.Segments) < 1 {
 				perrs = errors.Append(perrs, errors.WrapIndex(ErrSliceInsufficientSegments, attrPolygon, k))
 			}
+			if int(p.StartV) >= nodeCount {
+				perrs = errors.Append(perrs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrPolygon, k))
+			}
+			for l, s := range p.Segments {
+				if int(s.V2) >= nodeCount {
+					err := errors.WrapIndex(errors.ErrIndexOutOfBounds, attrSegment, l)
+					perrs = errors.Append(perrs, errors.WrapIndex(err, attrPolygon, k))
+				}
+			}
 		}
 		if perrs != nil {
 			errs = errors.Append(errs, errors.WrapIndex(perrs, attrSlice, j))
-- 
2.43.0


From ecc3bb71786e8543b55471d867c2fcb52b723bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 55/82] fix: slices: check the transforms of all the components
 of the build

---
 slices/validate.go | 60 ++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/slices/validate.go b/slices/validate.go
index 363995a..78d37e1 100644
--- a/slices/validate.go
+++ b/slices/validate.go
@@ -198,43 +198,47 @@ func checkAllClosed(m *go3mf.Model, r *SliceStack) bool {
 }
 
 func validateBuildTransforms(m *go3mf.Model, path string, id uint32) bool {
+	target, ok := m.FindObject(path, id)
+	if !ok {
+		return true
+	}
+	w := transformWalker{m: m, target: target, visited: make(map[placedObject]struct{})}
 	for _, item := range m.Build.Items {
-		targetPath := item.ObjectPath()
-		if targetPath == "" {
-			targetPath = path
-		}
-		if item.ObjectID == id && targetPath == path {
-			if item.HasTransform() && !validTransform(item.Transform) {
-				return false
-			}
-		}
-		if o, ok := m.FindObject(targetPath, item.ObjectID); ok {
-			if !validateObjectTransforms(m, o, path, id) {
-				return false
-			}
+		if !w.validate(item.ObjectPath(), item.ObjectID, item.Transform) {
+			return false
 		}
 	}
 	return true
 }
 
-func validateObjectTransforms(m *go3mf.Model, o *go3mf.Object, path string, id uint32) bool {
-	if o.Components == nil {
+type placedObject struct {
+	object *go3mf.Object
+	path   string
+}
+
+// transformWalker walks the objects placed by the build
+// looking for the transforms of the target object.
+type transformWalker struct {
+	m       *go3mf.Model
+	target  *go3mf.Object
+	visited map[placedObject]struct{}
+}
+
+func (w *transformWalker) validate(path string, id uint32, t go3mf.Matrix) bool {
+	o, ok := w.m.FindObject(path, id)
+	if !ok {
 		return true
 	}
+	if o == w.target && t != (go3mf.Matrix{}) && !validTransform(t) {
+		return false
+	}
+	if _, ok := w.visited[placedObject{o, path}]; ok || o.Components == nil {
+		return true
+	}
+	w.visited[placedObject{o, path}] = struct{}{}
 	for _, c := range o.Components.Component {
-		if c.ObjectID == id && c.ObjectPath(path) == path {
-			if c.HasTransform() && !validTransform(c.Transform) {
-				return false
-			}
-		}
-		if c.ObjectID == o.ID && c.ObjectPath(path) == path { // avoid circular references
-			break
-		} else {
-			if o1, ok := m.FindObject(c.ObjectPath(path), c.ObjectID); ok {
-				if !validateObjectTransforms(m, o1, path, id) {
-					return false
-				}
-			}
+		if !w.validate(c.ObjectPath(path), c.ObjectID, c.Transform) {
+			return false
 		}
 	}
 	return true
-- 
2.43.0


From 8db53f73f3714ad6a6046ad6735ab6e172ff755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 56/82] fix: slices: report indirect transforms out of the
 plane

---
 slices/validate.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/slices/validate.go b/slices/validate.go
index 78d37e1..1dca8b2 100644
--- a/slices/validate.go
+++ b/slices/validate.go
@@ -204,7 +204,7 @@ func validateBuildTransforms(m *go3mf.Model, path string, id uint32) bool {
 	}
 	w := transformWalker{m: m, target: target, visited: make(map[placedObject]struct{})}
 	for _, item := range m.Build.Items {
-		if !w.validate(item.ObjectPath(), item.ObjectID, item.Transform) {
+		if !w.validate(item.ObjectPath(), item.ObjectID, planarTransform(item.Transform)) {
 			return false
 		}
 	}
@@ -214,6 +214,7 @@ func validateBuildTransforms(m *go3mf.Model, path string, id uint32) bool {
 type placedObject struct {
 	object *go3mf.Object
 	path   string
+	planar bool
 }
 
 // transformWalker walks the objects placed by the build
@@ -224,20 +225,27 @@ type transformWalker struct {
 	visited map[placedObject]struct{}
 }
 
-func (w *transformWalker) validate(path string, id uint32, t go3mf.Matrix) bool {
+func planarTransform(t go3mf.Matrix) bool {
+	return t == (go3mf.Matrix{}) || validTransform(t)
+}
+
+// validate returns false if an object with a path and ID, or any of its components,
+// places the target object when the composed transform is not planar.
+func (w *transformWalker) validate(path string, id uint32, planar bool) bool {
 	o, ok := w.m.FindObject(path, id)
 	if !ok {
 		return true
 	}
-	if o == w.target && t != (go3mf.Matrix{}) && !validTransform(t) {
+	if o == w.target && !planar {
 		return false
 	}
-	if _, ok := w.visited[placedObject{o, path}]; ok || o.Components == nil {
+	placed := placedObject{o, path, planar}
+	if _, ok := w.visited[placed]; ok || o.Components == nil {
 		return true
 	}
-	w.visited[placedObject{o, path}] = struct{}{}
+	w.visited[placed] = struct{}{}
 	for _, c := range o.Components.Component {
-		if !w.validate(c.ObjectPath(path), c.ObjectID, c.Transform) {
+		if !w.validate(c.ObjectPath(path), c.ObjectID, planar && planarTransform(c.Transform)) {
 			return false
 		}
 	}
-- 
2.43.0


From f43b0a4bab1dbf793e7e35a3d0dcebd50d546ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 57/82] fix: stl: return the errors of the reader instead of
 retrying forever

---
 importer/stl/decoder.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/importer/stl/decoder.go b/importer/stl/decoder.go
index 82fd9b1..fb36a63 100644
--- a/importer/stl/decoder.go
+++ b/importer/stl/decoder.go
@@ -59,17 +59,11 @@ func (d *Decoder) DecodeContext(ctx context.Context, m *go3mf.Model) error {
 }
 
 func (d *Decoder) isASCII(r *bufio.Reader) (bool, error) {
-	var header string
-	for {
-		buff, err := r.Peek(sizeOfHeader)
-		if err == io.EOF {
-			return false, err
-		}
-		if len(buff) >= sizeOfHeader {
-			header = strings.ToLower(string(buff))
-			break
-		}
+	buff, err := r.Peek(sizeOfHeader)
+	if err != nil {
+		return false, err
 	}
+	header := strings.ToLower(string(buff))
 	return strings.HasPrefix(header, "solid") && isASCII(header), nil
 }
 
-- 
2.43.0


From 3e7bc7a34f5f22fa610c432891668b1d97ec6a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 58/82] fix: stl: decode files shorter than 300 bytes

---
 importer/stl/decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/importer/stl/decoder.go b/importer/stl/decoder.go
index fb36a63..21ceeeb 100644
--- a/importer/stl/decoder.go
+++ b/importer/stl/decoder.go
@@ -15,7 +15,7 @@ import (
 
 var checkEveryFaces = 1000
 
-const sizeOfHeader = 300 // minimum size of a closed mesh in binary is 384 bytes, corresponding to a triangle.
+const sizeOfHeader = 300 // size of the beginning of the file used to detect the encoding, files can be shorter.
 
 // Decoder can decode a stl.
 // It supports automatic detection of binary or ascii stl encoding.
@@ -60,7 +60,7 @@ func (d *Decoder) DecodeContext(ctx context.Context, m *go3mf.Model) error {
 
 func (d *Decoder) isASCII(r *bufio.Reader) (bool, error) {
 	buff, err := r.Peek(sizeOfHeader)
-	if err != nil {
+	if err != nil && err != io.EOF {
 		return false, err
 	}
 	header := strings.ToLower(string(buff))
-- 
2.43.0


From 40f92473734bd9d87a6b6c041664a2edd2b6173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 59/82] fix: stl: detect binary files with an ASCII header

---
 importer/stl/decoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/importer/stl/decoder.go b/importer/stl/decoder.go
index 21ceeeb..fec96b2 100644
--- a/importer/stl/decoder.go
+++ b/importer/stl/decoder.go
@@ -67,9 +67,11 @@ func (d *Decoder) isASCII(r *bufio.Reader) (bool, error) {
 	return strings.HasPrefix(header, "solid") && isASCII(header), nil
 }
 
+// isASCII returns true if s is ASCII text. There is always a zero between the header
+// and the faces of a binary file, even if its header starts with solid.
 func isASCII(s string) bool {
 	for i := 0; i < len(s); i++ {
-		if s[i] >= utf8.RuneSelf {
+		if s[i] == 0 || s[i] >= utf8.RuneSelf {
 			return false
 		}
 	}
-- 
2.43.0


From 14709444455a57c14cc2cddfc67e27c4548bcc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 60/82] fix: stl: stop decoding binary files when the context
 is canceled

---
 importer/stl/binary.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/importer/stl/binary.go b/importer/stl/binary.go
index dce85a7..6bd97e7 100644
--- a/importer/stl/binary.go
+++ b/importer/stl/binary.go
@@ -47,8 +47,7 @@ func (d *binaryDecoder) decode(ctx context.Context, m *go3mf.Mesh) error {
 		if len(m.Triangles.Triangle) > nextFaceCheck {
 			select {
 			case <-ctx.Done():
-				err = ctx.Err()
-				break
+				return ctx.Err()
 			default: // Default is must to avoid blocking
 			}
 			nextFaceCheck += checkEveryFaces
-- 
2.43.0


From fc0d1022a69dc55c7cbc8f43c08ec933fb100aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 61/82] fix: stl: do not allocate the declared number of faces
 upfront

---
 importer/stl/binary.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/importer/stl/binary.go b/importer/stl/binary.go
index 6bd97e7..baf11eb 100644
--- a/importer/stl/binary.go
+++ b/importer/stl/binary.go
@@ -11,6 +11,8 @@ import (
 	"github.com/hpinc/go3mf"
 )
 
+const maxPreallocatedFaces = 1 << 16
+
 type binaryHeader struct {
 	_         [80]byte
 	FaceCount uint32
@@ -35,10 +37,15 @@ func (d *binaryDecoder) decode(ctx context.Context, m *go3mf.Mesh) error {
 	if err != nil {
 		return err
 	}
-	mb.Mesh.Triangles.Triangle = make([]go3mf.Triangle, 0, header.FaceCount)
+	// The number of faces is not to be trusted until they have been read.
+	capacity := header.FaceCount
+	if capacity > maxPreallocatedFaces {
+		capacity = maxPreallocatedFaces
+	}
+	mb.Mesh.Triangles.Triangle = make([]go3mf.Triangle, 0, capacity)
 	nextFaceCheck := checkEveryFaces
 	var facet binaryFace
-	for nFace := 0; nFace < int(header.FaceCount); nFace++ {
+	for nFace := uint32(0); nFace < header.FaceCount; nFace++ {
 		err = binary.Read(d.r, binary.LittleEndian, &facet)
 		if err != nil {
 			break
-- 
2.43.0


From 40f783ba8a946def38c87342e7b4de02286b4a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 62/82] fix: stl: accept the keywords of ASCII files in upper
 case

---
 importer/stl/ascii.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/importer/stl/ascii.go b/importer/stl/ascii.go
index d73e4c0..ed18825 100644
--- a/importer/stl/ascii.go
+++ b/importer/stl/ascii.go
@@ -28,7 +28,7 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 	for scanner.Scan() {
 		line := scanner.Text()
 		fields := strings.Fields(line)
-		if len(fields) == 4 && fields[0] == "vertex" {
+		if len(fields) == 4 && strings.EqualFold(fields[0], "vertex") {
 			var f [3]float64
 			f[0], _ = strconv.ParseFloat(fields[1], 32)
 			f[1], _ = strconv.ParseFloat(fields[2], 32)
-- 
2.43.0


From e4eeebec998ece7e64fd08ecf583e2d09f4e7691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 63/82] fix: stl: report malformed vertices of ASCII files

---
 importer/stl/ascii.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/importer/stl/ascii.go b/importer/stl/ascii.go
index ed18825..bd74b87 100644
--- a/importer/stl/ascii.go
+++ b/importer/stl/ascii.go
@@ -6,6 +6,7 @@ package stl
 import (
 	"bufio"
 	"context"
+	"fmt"
 	"io"
 	"strconv"
 	"strings"
@@ -28,12 +29,12 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 	for scanner.Scan() {
 		line := scanner.Text()
 		fields := strings.Fields(line)
-		if len(fields) == 4 && strings.EqualFold(fields[0], "vertex") {
-			var f [3]float64
-			f[0], _ = strconv.ParseFloat(fields[1], 32)
-			f[1], _ = strconv.ParseFloat(fields[2], 32)
-			f[2], _ = strconv.ParseFloat(fields[3], 32)
-			nodes[position] = mb.AddVertex(go3mf.Point3D{float32(f[0]), float32(f[1]), float32(f[2])})
+		if len(fields) > 0 && strings.EqualFold(fields[0], "vertex") {
+			var v go3mf.Point3D
+			if v, err = parseVertex(fields); err != nil {
+				return err
+			}
+			nodes[position] = mb.AddVertex(v)
 			position++
 
 			if position == 3 {
@@ -56,3 +57,17 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 	}
 	return scanner.Err()
 }
+
+func parseVertex(fields []string) (v go3mf.Point3D, err error) {
+	if len(fields) != 4 {
+		return v, fmt.Errorf("stl: vertex with %d coordinates", len(fields)-1)
+	}
+	for i := range v {
+		f, err := strconv.ParseFloat(fields[i+1], 32)
+		if err != nil {
+			return v, fmt.Errorf("stl: malformed vertex: %w", err)
+		}
+		v[i] = float32(f)
+	}
+	return v, nil
+}
-- 
2.43.0


From b835efef8f4676b9bae8f2c217d69b2707183321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 64/82] fix: stl: report facets of ASCII files without three
 vertices

---
 importer/stl/ascii.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/importer/stl/ascii.go b/importer/stl/ascii.go
index bd74b87..ab362ef 100644
--- a/importer/stl/ascii.go
+++ b/importer/stl/ascii.go
@@ -6,6 +6,7 @@ package stl
 import (
 	"bufio"
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"strconv"
@@ -14,6 +15,8 @@ import (
 	"github.com/hpinc/go3mf"
 )
 
+var errFacetVertices = errors.New("stl: facets must have three vertices")
+
 // asciiDecoder can create a Model from a Read stream that is feeded with a ASCII STL.
 type asciiDecoder struct {
 	r     io.Reader
@@ -29,7 +32,11 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 	for scanner.Scan() {
 		line := scanner.Text()
 		fields := strings.Fields(line)
-		if len(fields) > 0 && strings.EqualFold(fields[0], "vertex") {
+		if len(fields) == 0 {
+			continue
+		}
+		switch strings.ToLower(fields[0]) {
+		case "vertex":
 			var v go3mf.Point3D
 			if v, err = parseVertex(fields); err != nil {
 				return err
@@ -50,6 +57,10 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 					nextFaceCheck += checkEveryFaces
 				}
 			}
+		case "facet", "endfacet", "endsolid":
+			if position != 0 {
+				return errFacetVertices
+			}
 		}
 		if err != nil {
 			return err
-- 
2.43.0


From 2dc37c49a7f2636959d20389ca50951dadc9c3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 65/82] fix: stl: report truncated ASCII files

---
 importer/stl/ascii.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/importer/stl/ascii.go b/importer/stl/ascii.go
index ab362ef..15ca238 100644
--- a/importer/stl/ascii.go
+++ b/importer/stl/ascii.go
@@ -26,6 +26,7 @@ type asciiDecoder struct {
 func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 	mb := go3mf.NewMeshBuilder(m)
 	position := 0
+	inSolid := false
 	nextFaceCheck := checkEveryFaces
 	var nodes [3]uint32
 	scanner := bufio.NewScanner(d.r)
@@ -61,12 +62,20 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 			if position != 0 {
 				return errFacetVertices
 			}
+			if strings.EqualFold(fields[0], "endsolid") {
+				inSolid = false
+			}
+		case "solid":
+			inSolid = true
 		}
 		if err != nil {
 			return err
 		}
 	}
-	return scanner.Err()
+	if err = scanner.Err(); err == nil && (inSolid || position != 0) {
+		err = io.ErrUnexpectedEOF // the file is truncated
+	}
+	return err
 }
 
 func parseVertex(fields []string) (v go3mf.Point3D, err error) {
-- 
2.43.0


From 9d0c2fc2c1bb52d8cdf97ace99731b9614790235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 66/82] fix: stl: return the error of the reader in the middle
 of a vertex

---
 importer/stl/ascii.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/importer/stl/ascii.go b/importer/stl/ascii.go
index 15ca238..ebce82e 100644
--- a/importer/stl/ascii.go
+++ b/importer/stl/ascii.go
@@ -40,6 +40,9 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 		case "vertex":
 			var v go3mf.Point3D
 			if v, err = parseVertex(fields); err != nil {
+				if readErr := scanner.Err(); readErr != nil {
+					err = readErr // the line is not complete
+				}
 				return err
 			}
 			nodes[position] = mb.AddVertex(v)
-- 
2.43.0


From d353f676f54fe4a6043b7163c8ea9cf20028e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 67/82] fix: internal/xml: reject malformed names

---
 internal/xml/xml.go | 59 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 58 insertions(+), 1 deletion(-)

diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index d80cc15..0295f8f 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 type StartElement struct {
@@ -782,6 +783,9 @@ func (d *Decoder) nsname() (name goxml.Name, ok bool) {
 	i := strings.IndexByte(s, ':')
 	if i < 0 {
 		name.Local = s
+	} else if i != strings.LastIndexByte(s, ':') {
+		d.err = d.syntaxError("invalid XML name: " + s)
+		return name, false
 	} else {
 		name.Space = s[0:i]
 		name.Local = s[i+1:]
@@ -898,6 +902,59 @@ func isNameByte(c byte) bool {
 		'0' <= c && c <= '9' ||
 		c == '_' || c == ':' || c == '.' || c == '-'
 }
+
+// isName reports whether s is an XML name.
 func isName(s []byte) bool {
-	return len(s) != 0
+	if len(s) == 0 || !isNameStart(s[0]) && s[0] < utf8.RuneSelf {
+		return false
+	}
+	for i := 0; i < len(s); {
+		if s[i] < utf8.RuneSelf {
+			if !isNameByte(s[i]) {
+				return false
+			}
+			i++
+			continue
+		}
+		r, n := utf8.DecodeRune(s[i:])
+		if r == utf8.RuneError && n == 1 || !unicode.Is(nameStart, r) && (i == 0 || !unicode.Is(nameRest, r)) {
+			return false
+		}
+		i += n
+	}
+	return true
 }
+
+func isNameStart(c byte) bool {
+	return 'A' <= c && c <= 'Z' || 'a' <= c && c <= 'z' || c == '_' || c == ':'
+}
+
+// The characters of names that are not ASCII,
+// see the productions 4 and 4a of Extensible Markup Language (XML) 1.0 (Fifth Edition).
+var (
+	nameStart = &unicode.RangeTable{
+		R16: []unicode.Range16{
+			{0x00C0, 0x00D6, 1},
+			{0x00D8, 0x00F6, 1},
+			{0x00F8, 0x02FF, 1},
+			{0x0370, 0x037D, 1},
+			{0x037F, 0x1FFF, 1},
+			{0x200C, 0x200D, 1},
+			{0x2070, 0x218F, 1},
+			{0x2C00, 0x2FEF, 1},
+			{0x3001, 0xD7FF, 1},
+			{0xF900, 0xFDCF, 1},
+			{0xFDF0, 0xFFFD, 1},
+		},
+		R32: []unicode.Range32{
+			{0x10000, 0xEFFFF, 1},
+		},
+	}
+	nameRest = &unicode.RangeTable{
+		R16: []unicode.Range16{
+			{0x00B7, 0x00B7, 1},
+			{0x0300, 0x036F, 1},
+			{0x203F, 0x2040, 1},
+		},
+	}
+)
-- 
2.43.0


From 9eb7ccdd763ae9dd32fb46dae4d2148082853b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 68/82] fix: internal/xml: reject characters that are not
 allowed in XML

---
 internal/xml/xml.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index 0295f8f..4eb0a16 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -569,6 +569,10 @@ func (d *Decoder) cdata() error {
 		}
 		b0, b1 = b1, b
 	}
+	if !isText(d.buf.Bytes()) {
+		d.err = d.syntaxError("illegal character in CDATA section")
+		return d.err
+	}
 	if d.OnChar != nil {
 		d.OnChar(goxml.CharData(d.buf.Bytes()))
 	}
@@ -770,9 +774,33 @@ Input:
 
 		b1 = b
 	}
+	// Characters can be incomplete if the input ended.
+	if d.err == nil && !isText(d.buf.Bytes()) {
+		d.err = d.syntaxError("illegal character")
+		return nil
+	}
 	return d.buf.Bytes()
 }
 
+// isText reports whether s only has characters that are allowed in XML documents.
+func isText(s []byte) bool {
+	for i := 0; i < len(s); {
+		if b := s[i]; b < utf8.RuneSelf {
+			if b < ' ' && b != '\t' && b != '\n' && b != '\r' {
+				return false
+			}
+			i++
+			continue
+		}
+		r, n := utf8.DecodeRune(s[i:])
+		if r == utf8.RuneError && n == 1 || r == 0xFFFE || r == 0xFFFF {
+			return false
+		}
+		i += n
+	}
+	return true
+}
+
 // Get name space name: name with a : stuck in the middle.
 // The part before the : is the name space identifier.
 func (d *Decoder) nsname() (name goxml.Name, ok bool) {
-- 
2.43.0


From bed5c2668f25582acd8023a7453db7867432de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 69/82] fix: internal/xml: reject the end of a CDATA section in
 text

---
 internal/xml/xml.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index 4eb0a16..ccaafdb 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -651,7 +651,7 @@ var entity = map[string]int{
 // If cdata == true, we are in a <![CDATA[ section and need to find ]]>.
 // On failure return nil and leave the error in d.err.
 func (d *Decoder) text(quote int) []byte {
-	var b1 byte
+	var b0, b1 byte
 	d.buf.Reset()
 Input:
 	for {
@@ -660,6 +660,12 @@ Input:
 			break Input
 		}
 
+		// The end of a CDATA section is not allowed in text.
+		if quote < 0 && b0 == ']' && b1 == ']' && b == '>' {
+			d.err = d.syntaxError("unescaped ]]> not in CDATA section")
+			return nil
+		}
+
 		// Stop reading text if we see a <.
 		if b == '<' {
 			if quote >= 0 {
@@ -752,7 +758,7 @@ Input:
 			if haveText {
 				d.buf.Truncate(before)
 				d.buf.Write([]byte(text))
-				b1 = 0
+				b0, b1 = 0, 0
 				continue Input
 			}
 			ent := string(d.buf.Bytes()[before:])
@@ -772,7 +778,7 @@ Input:
 			d.buf.WriteByte(b)
 		}
 
-		b1 = b
+		b0, b1 = b1, b
 	}
 	// Characters can be incomplete if the input ended.
 	if d.err == nil && !isText(d.buf.Bytes()) {
-- 
2.43.0


From da83d710abfdae2685ffc18b0bee7334e9c2b7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 70/82] fix: internal/xml: reject attributes that are not
 separated by spaces

---
 internal/xml/xml.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index ccaafdb..e3f5778 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -443,7 +443,7 @@ func (d *Decoder) RawToken() error {
 
 	i := 0
 	for {
-		d.space()
+		space := d.space()
 		if b, ok = d.getc(); !ok {
 			d.mustNotEOF()
 			return d.err
@@ -463,6 +463,10 @@ func (d *Decoder) RawToken() error {
 		if b == '>' {
 			break
 		}
+		if !space {
+			d.err = d.syntaxError("missing space before attribute")
+			return d.err
+		}
 		d.ungetc(b)
 
 		a := XMLAttr{}
@@ -594,18 +598,19 @@ func (d *Decoder) attrval() []byte {
 	return nil
 }
 
-// Skip spaces if any
-func (d *Decoder) space() {
+// Skip spaces if any and report whether there were.
+func (d *Decoder) space() (found bool) {
 	for {
 		b, ok := d.getc()
 		if !ok {
-			return
+			return found
 		}
 		switch b {
 		case ' ', '\r', '\n', '\t':
+			found = true
 		default:
 			d.ungetc(b)
-			return
+			return found
 		}
 	}
 }
-- 
2.43.0


From 6cba9493f81ec45d6739788a51862f30003a1bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 71/82] fix: internal/xml: reject text outside of the root
 element

---
 internal/xml/xml.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index e3f5778..330e6fa 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -98,6 +98,7 @@ type Decoder struct {
 	free      *stack
 	needClose bool
 	toClose   goxml.Name
+	started   bool // the first byte has been read
 	ns        map[string]string
 	err       error
 	attrPool  []XMLAttr
@@ -345,6 +346,23 @@ func (d *Decoder) RawToken() error {
 		return d.err
 	}
 
+	if !d.started {
+		d.started = true
+		if b == bom[0] {
+			return d.bom()
+		}
+	}
+
+	if b != '<' && d.stk == nil {
+		// Only spaces are allowed outside of the root element.
+		d.ungetc(b)
+		if !d.space() {
+			d.err = d.syntaxError("text outside of the root element")
+			return d.err
+		}
+		return nil
+	}
+
 	if b != '<' {
 		// Text section.
 		d.ungetc(b)
@@ -421,6 +439,10 @@ func (d *Decoder) RawToken() error {
 			return d.comment()
 		case '[': // <![
 			// Probably <![CDATA[.
+			if d.stk == nil {
+				d.err = d.syntaxError("CDATA section outside of the root element")
+				return d.err
+			}
 			return d.cdata()
 		}
 		d.err = d.syntaxError("invalid sequence <! not part of a comment or CDATA section")
@@ -509,6 +531,24 @@ func (d *Decoder) RawToken() error {
 	return nil
 }
 
+const bom = "\xEF\xBB\xBF"
+
+// Skip the byte order mark whose first byte has already been read.
+func (d *Decoder) bom() error {
+	for i := 1; i < len(bom); i++ {
+		b, ok := d.getc()
+		if !ok {
+			d.mustNotEOF()
+			return d.err
+		}
+		if b != bom[i] {
+			d.err = d.syntaxError("text outside of the root element")
+			return d.err
+		}
+	}
+	return nil
+}
+
 // Skip a comment whose <!- has already been read.
 func (d *Decoder) comment() error {
 	b, ok := d.getc()
-- 
2.43.0


From cac03bf1549f35124f7c220209434a3d919a628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 72/82] fix: internal/xml: reject end tags with another prefix
 than their start tags

---
 internal/xml/xml.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index 330e6fa..26d0bff 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -138,19 +138,20 @@ func (d *Decoder) handleStartElement(t StartElement) {
 		}
 	}
 
+	d.pushElement(t.Name)
 	d.translate(&t.Name, true)
 	for i := range t.Attr {
 		d.translate(&t.Attr[i].Name, false)
 	}
-	d.pushElement(t.Name)
 	if d.OnStart != nil {
 		d.OnStart(t)
 	}
 }
 
 func (d *Decoder) handleEndElement(t goxml.EndElement) bool {
+	raw := t
 	d.translate(&t.Name, true)
-	if d.popElement(&t) {
+	if d.popElement(&raw) {
 		if d.OnEnd != nil {
 			d.OnEnd(t)
 		}
-- 
2.43.0


From 21c330838076211d96478b271083f9786648b77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:06 +0000
Subject: [PATCH 73/82] fix: decode: read metadata values in linear time and
 memory

---
 decoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 3da04f3..deeca05 100644
--- a/decoder.go
+++ b/decoder.go
@@ -157,6 +157,7 @@ type metadataDecoder struct {
 	model     *Model
 	metadatas *[]Metadata
 	metadata  Metadata
+	value     []byte
 }
 
 func (d *metadataDecoder) namespace(local string) (string, bool) {
@@ -199,10 +200,11 @@ func (d *metadataDecoder) Start(attrs []spec.XMLAttr) (errs error) {
 }
 
 func (d *metadataDecoder) CharData(txt []byte) {
-	d.metadata.Value += string(txt)
+	d.value = append(d.value, txt...)
 }
 
 func (d *metadataDecoder) End() {
+	d.metadata.Value = string(d.value)
 	*d.metadatas = append(*d.metadatas, d.metadata)
 }
 
-- 
2.43.0


From 0a2924a9c032bcb3e9389541430bca4a2f2cad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 74/82] fix: opc: number relationships in linear time

---
 opc.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/opc.go b/opc.go
index afa83dc..2dff073 100644
--- a/opc.go
+++ b/opc.go
@@ -6,6 +6,7 @@ package go3mf
 import (
 	"io"
 	"path"
+	"strconv"
 	"strings"
 
 	"github.com/qmuntal/opc"
@@ -30,19 +31,24 @@ func (o *opcPart) AddRelationship(r Relationship) {
 }
 
 type opcWriter struct {
-	w *opc.Writer
+	w    *opc.Writer
+	last *opc.Part // its relationships are not written yet
 }
 
 func newOpcWriter(w io.Writer) *opcWriter {
-	return &opcWriter{opc.NewWriter(w)}
+	return &opcWriter{w: opc.NewWriter(w)}
 }
 
 func (o *opcWriter) Create(name, contentType string) (packagePart, error) {
+	if o.last != nil {
+		setRelationshipIDs(o.last.Relationships)
+	}
 	p := &opc.Part{Name: opc.NormalizePartName(name), ContentType: contentType}
 	w, err := o.w.CreatePart(p, opc.CompressionNormal)
 	if err != nil {
 		return nil, err
 	}
+	o.last = p
 	return &opcPart{Writer: w, Part: p}, nil
 }
 
@@ -60,9 +66,33 @@ func (o *opcWriter) AddRelationship(r Relationship) {
 }
 
 func (o *opcWriter) Close() error {
+	if o.last != nil {
+		setRelationshipIDs(o.last.Relationships)
+	}
+	setRelationshipIDs(o.w.Relationships)
 	return o.w.Close()
 }
 
+// setRelationshipIDs gives an unused ID to the relationships without it.
+// The opc package also does it, but taking cubic time.
+func setRelationshipIDs(rels []*opc.Relationship) {
+	used := make(map[string]bool, len(rels))
+	for _, r := range rels {
+		used[r.ID] = true
+	}
+	var n int
+	for _, r := range rels {
+		if r.ID != "" {
+			continue
+		}
+		for used["rId"+strconv.Itoa(n)] {
+			n++
+		}
+		r.ID = "rId" + strconv.Itoa(n)
+		used[r.ID] = true
+	}
+}
+
 func newRelationships(rels []*opc.Relationship) []Relationship {
 	pr := make([]Relationship, len(rels))
 	for i, r := range rels {
-- 
2.43.0


From 9d3e13d9fad2cac0f82cbb1ab0e170f4b7f5cf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 75/82] fix: decode: keep the white space inside the text of
 unknown elements

---
 read.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/read.go b/read.go
index c7b3717..829dc49 100644
--- a/read.go
+++ b/read.go
@@ -74,11 +74,23 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 		currentDecoder spec.ElementDecoder
 		topLevel       spec.ElementDecoder = &topLevelDecoder{isRoot: isRoot, model: model, path: path}
 		errs           specerr.List
-		depth          int // number of open elements inside the current one that do not have their own decoder
+		text           []byte // text inside the current element since the last tag
+		depth          int    // number of open elements inside the current one that do not have their own decoder
 	)
 	currentDecoder = topLevel
+	// appendText gives the pending text, which may come in several pieces, to its decoder.
+	appendText := func() {
+		// Indentation is not worth keeping.
+		if len(bytes.Trim(text, " \t\r\n")) != 0 {
+			if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
+				appendDecoder.AppendToken(xml.CharData(text).Copy())
+			}
+		}
+		text = text[:0]
+	}
 	var err error
 	x.OnStart = func(tp xml3mf.StartElement) {
+		appendText()
 		if childDecoder, ok := currentDecoder.(spec.ChildElementDecoder); ok {
 			if depth > 0 {
 				// Everything inside an ignored element is ignored.
@@ -122,6 +134,7 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 		}
 	}
 	x.OnEnd = func(tp xml.EndElement) {
+		appendText()
 		if depth > 0 {
 			depth--
 			if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
@@ -141,11 +154,8 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 			if depth == 0 {
 				charDecoder.CharData(tp)
 			}
-		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-			// Indentation is not worth keeping.
-			if len(bytes.TrimSpace(tp)) != 0 {
-				appendDecoder.AppendToken(tp.Copy()) // tp is only valid during this call
-			}
+		} else if _, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
+			text = append(text, tp...) // tp is only valid during this call
 		}
 	}
 	var i int
-- 
2.43.0


From 482cbc031d6e67c3a66cc14547abcbec54c59f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 76/82] fix: decode: ignore registered elements that the model
 cannot hold

---
 decoder.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/decoder.go b/decoder.go
index deeca05..d90d31d 100644
--- a/decoder.go
+++ b/decoder.go
@@ -43,14 +43,15 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 			}
 		}
 	} else {
-		dec := spec.NewElementDecoder(name)
-		child = dec
-		if dec != nil {
-			any := &d.model.Any
-			if c, ok := d.model.Childs[d.path]; ok && !d.isRoot {
-				any = &c.Any
+		if dec := spec.NewElementDecoder(name); dec != nil {
+			if element, ok := dec.Element().(spec.Marshaler); ok {
+				child = dec
+				any := &d.model.Any
+				if c, ok := d.model.Childs[d.path]; ok && !d.isRoot {
+					any = &c.Any
+				}
+				*any = append(*any, element)
 			}
-			*any = append(*any, dec.Element().(spec.Marshaler))
 		}
 		i = -1
 	}
@@ -442,10 +443,11 @@ func (d *meshDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 			i = -1
 		}
 	} else {
-		dec := spec.NewElementDecoder(name)
-		child = dec
-		if dec != nil {
-			d.resource.Mesh.Any = append(d.resource.Mesh.Any, dec.Element().(spec.Marshaler))
+		if dec := spec.NewElementDecoder(name); dec != nil {
+			if element, ok := dec.Element().(spec.Marshaler); ok {
+				child = dec
+				d.resource.Mesh.Any = append(d.resource.Mesh.Any, element)
+			}
 		}
 		i = -1
 	}
-- 
2.43.0


From 7bb773230b80c36fff72043327653c7eebc0e216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 77/82] fix: validate: ask the validator of a namespace once,
 however many prefixes it has

---
 slices/validate.go |  4 ++--
 validate.go        | 36 ++++++++++++++++++++++++------------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/slices/validate.go b/slices/validate.go
index 1dca8b2..5c5c562 100644
--- a/slices/validate.go
+++ b/slices/validate.go
@@ -51,8 +51,8 @@ func validateObject(m *go3mf.Model, path string, obj *go3mf.Object) error {
 	if sti.MeshResolution == ResolutionLow {
 		var isRequired bool
 		for _, ext := range m.Extensions {
-			if ext.Namespace == Namespace {
-				isRequired = ext.IsRequired
+			if ext.Namespace == Namespace && ext.IsRequired {
+				isRequired = true
 				break
 			}
 		}
diff --git a/validate.go b/validate.go
index fbf2ea9..07bd7a4 100644
--- a/validate.go
+++ b/validate.go
@@ -45,10 +45,8 @@ func (m *Model) Validate() error {
 	errs = errors.Append(errs, validateRelationship(m, m.Relationships, rootPath))
 	errs = errors.Append(errs, checkMetadadata(m, m.Metadata))
 
-	for _, ext := range m.Extensions {
-		if ext, ok := spec.LoadValidator(ext.Namespace); ok {
-			errs = errors.Append(errs, ext.Validate(m, m.Path, m))
-		}
+	for _, ext := range m.validators() {
+		errs = errors.Append(errs, ext.Validate(m, m.Path, m))
 	}
 
 	for _, path := range sortedChilds {
@@ -165,6 +163,7 @@ func (r *BaseMaterials) Validate(m *Model, path string) error {
 
 func (res *Resources) validate(m *Model, path string) error {
 	var errs error
+	validators := m.validators()
 	assets := make(map[uint32]struct{})
 	for i, r := range res.Assets {
 		var aErrs error
@@ -180,10 +179,8 @@ func (res *Resources) validate(m *Model, path string) error {
 			aErrs = errors.Append(aErrs, r.Validate(m, path))
 		}
 
-		for _, ext := range m.Extensions {
-			if ext, ok := spec.LoadValidator(ext.Namespace); ok {
-				aErrs = errors.Append(aErrs, ext.Validate(m, path, r))
-			}
+		for _, ext := range validators {
+			aErrs = errors.Append(aErrs, ext.Validate(m, path, r))
 		}
 		errs = errors.Append(errs, errors.WrapIndex(aErrs, r.XMLName().Local, i))
 	}
@@ -241,10 +238,8 @@ func (r *Object) Validate(m *Model, path string) error {
 		errs = errors.Append(errs, r.validateComponents(m, path))
 	}
 
-	for _, ext := range m.Extensions {
-		if ext, ok := spec.LoadValidator(ext.Namespace); ok {
-			errs = errors.Append(errs, ext.Validate(m, path, r))
-		}
+	for _, ext := range m.validators() {
+		errs = errors.Append(errs, ext.Validate(m, path, r))
 	}
 	return errs
 }
@@ -308,6 +303,23 @@ func (r *Object) validateComponents(m *Model, path string) error {
 	return nil
 }
 
+// validators returns the validators of the extensions of the model, each of them once,
+// also if its namespace has several prefixes.
+func (m *Model) validators() []spec.ValidateSpec {
+	var validators []spec.ValidateSpec
+	visited := make(map[string]struct{}, len(m.Extensions))
+	for _, ext := range m.Extensions {
+		if _, ok := visited[ext.Namespace]; ok {
+			continue
+		}
+		visited[ext.Namespace] = struct{}{}
+		if v, ok := spec.LoadValidator(ext.Namespace); ok {
+			validators = append(validators, v)
+		}
+	}
+	return validators
+}
+
 func (m *Model) validateNamespaces() error {
 	for _, ext := range m.Extensions {
 		if ext.IsRequired {
-- 
2.43.0


From 53e8d6d7e62f3672f808c52644d38c0fb2c8c2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:56 +0000
Subject: [PATCH 78/82] fix: stl: reject facets with none or more than three
 vertices

---
 importer/stl/ascii.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/importer/stl/ascii.go b/importer/stl/ascii.go
index ebce82e..b5f5db5 100644
--- a/importer/stl/ascii.go
+++ b/importer/stl/ascii.go
@@ -27,6 +27,7 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 	mb := go3mf.NewMeshBuilder(m)
 	position := 0
 	inSolid := false
+	vertices := 0 // of the current facet
 	nextFaceCheck := checkEveryFaces
 	var nodes [3]uint32
 	scanner := bufio.NewScanner(d.r)
@@ -47,6 +48,7 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 			}
 			nodes[position] = mb.AddVertex(v)
 			position++
+			vertices++
 
 			if position == 3 {
 				position = 0
@@ -62,9 +64,10 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 				}
 			}
 		case "facet", "endfacet", "endsolid":
-			if position != 0 {
+			if position != 0 || vertices != 3 && strings.EqualFold(fields[0], "endfacet") {
 				return errFacetVertices
 			}
+			vertices = 0
 			if strings.EqualFold(fields[0], "endsolid") {
 				inSolid = false
 			}
-- 
2.43.0


From 31b2d0eb3e1143ed3b652e0ccbdbd5d907909f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:53 +0000
Subject: [PATCH 79/82] fix: production: missing UUIDs are not encoded as empty
 ones, which cannot be decoded

---
 production/encoder.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/production/encoder.go b/production/encoder.go
index 7d41027..3bf0e4a 100644
--- a/production/encoder.go
+++ b/production/encoder.go
@@ -11,13 +11,17 @@ import (
 
 // Marshal3MF encodes the resource attributes.
 func (u *BuildAttr) Marshal3MF(_ spec.Encoder, start *xml.StartElement) error {
-	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	if u.UUID != "" {
+		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	}
 	return nil
 }
 
 // Marshal3MF encodes the resource attributes.
 func (u *ObjectAttr) Marshal3MF(_ spec.Encoder, start *xml.StartElement) error {
-	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	if u.UUID != "" {
+		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	}
 	return nil
 }
 
@@ -26,7 +30,9 @@ func (u *ItemAttr) Marshal3MF(_ spec.Encoder, start *xml.StartElement) error {
 	if u.Path != "" {
 		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrPath}, Value: u.Path})
 	}
-	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	if u.UUID != "" {
+		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	}
 	return nil
 }
 
@@ -35,6 +41,8 @@ func (u *ComponentAttr) Marshal3MF(_ spec.Encoder, start *xml.StartElement) erro
 	if u.Path != "" {
 		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrPath}, Value: u.Path})
 	}
-	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	if u.UUID != "" {
+		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	}
 	return nil
 }
-- 
2.43.0


From d5eabc586f14d6a53cffd42b2e508dd3b14cdbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:06 +0000
Subject: [PATCH 80/82] fix: materials: a missing texture content type is not
 encoded as an empty one, which cannot be decoded

---
 materials/encoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/materials/encoder.go b/materials/encoder.go
index 53f361d..776b8bd 100644
--- a/materials/encoder.go
+++ b/materials/encoder.go
@@ -125,8 +125,10 @@ func (r *Texture2D) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
 	xs := xml.StartElement{Name: xml.Name{Space: Namespace, Local: attrTexture2D}, Attr: []xml.Attr{
 		{Name: xml.Name{Local: attrID}, Value: strconv.FormatUint(uint64(r.ID), 10)},
 		{Name: xml.Name{Local: attrPath}, Value: r.Path},
-		{Name: xml.Name{Local: attrContentType}, Value: r.ContentType.String()},
 	}}
+	if r.ContentType != 0 {
+		xs.Attr = append(xs.Attr, xml.Attr{Name: xml.Name{Local: attrContentType}, Value: r.ContentType.String()})
+	}
 	if r.TileStyleU != TileWrap {
 		xs.Attr = append(xs.Attr, xml.Attr{Name: xml.Name{Local: attrTileStyleU}, Value: r.TileStyleU.String()})
 	}
-- 
2.43.0


From 590f460463b85944e8d19eb7a99c29f5359e4be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 81/82] fix: read: models related otherwise are not
 attachments, which cannot be encoded again

---
 read.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/read.go b/read.go
index 829dc49..3f7aecb 100644
--- a/read.go
+++ b/read.go
@@ -334,6 +334,14 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 	if rootFile == nil {
 		return nil, errors.New("package does not have root model")
 	}
+	// The models are no attachments, whatever else they are related as.
+	attachments := model.Attachments[:0]
+	for _, att := range model.Attachments {
+		if _, ok := model.Childs[att.Path]; !ok && att.Path != model.Path {
+			attachments = append(attachments, att)
+		}
+	}
+	model.Attachments = attachments
 	return rootFile, nil
 }
 
-- 
2.43.0


From 532fd117c38643ec412d2edb7fd6ca44f932b207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:57 +0000
Subject: [PATCH 82/82] fix: decode: the names of metadata in child models have
 their namespace

---
 decoder.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index d90d31d..7301744 100644
--- a/decoder.go
+++ b/decoder.go
@@ -19,6 +19,8 @@ type modelDecoder struct {
 	model  *Model
 	isRoot bool
 	path   string
+
+	extensions []Extension // of a child model
 }
 
 func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
@@ -29,7 +31,7 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 			if !d.isRoot {
 				resources, _ = d.model.FindResources(d.path)
 			}
-			child = &resourceDecoder{resources: resources, model: d.model}
+			child = &resourceDecoder{resources: resources, model: d.partModel()}
 			i = -1
 		case attrBuild:
 			if d.isRoot {
@@ -58,8 +60,21 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 	return
 }
 
+// partModel is the model whose extensions are those that the part declares.
+func (d *modelDecoder) partModel() *Model {
+	if d.isRoot {
+		return d.model
+	}
+	return &Model{Extensions: d.extensions}
+}
+
 func (d *modelDecoder) Start(attrs []spec.XMLAttr) (err error) {
 	if !d.isRoot {
+		for _, a := range attrs {
+			if a.Name.Space == attrXmlns {
+				d.extensions = append(d.extensions, Extension{Namespace: string(a.Value), LocalName: a.Name.Local})
+			}
+		}
 		return
 	}
 	var requiredExts []string
-- 
2.43.0

