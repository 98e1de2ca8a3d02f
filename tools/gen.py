#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.
Usage: tools/gen.py   (run in /verif)"""
import json, re, subprocess, sys

P = []
def p(id, title, statement, over, text, why, files, mech, observe, level_note=None, technique=None, na=None, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, note=level_note, tech=technique, na=na, level=level))

RT = "the repository round-trips one hand-written model per package; combinations of optional fields, shapes and values are not reached"

p("C01", "Core models survive encode then decode",
  "Encoding a core 3MF model to a package and decoding it yields the same model: same units, language, thumbnails, extensions, metadata, base materials, objects, meshes, components and build items, in order. Only documented loss is allowed: coordinates are rounded to FloatPrecision, transforms to three decimals, and triangle properties inherit the object's. The same holds for MarshalModel/UnmarshalModel.",
  ["inputs"], "every core model and every FloatPrecision", RT,
  ["encoder.go", "decoder.go", "read.go", "core.go", "spec/utils.go", "internal/xml"],
  [("modelEncoder/objectEncoder", "encoder.go"), ("modelDecoder and child decoders", "decoder.go")],
  ["Decoder.Decode(Encoder.Encode(m))", "UnmarshalModel(MarshalModel(m))"],
  "All models within K deviations of a base using every core element, on both package routes and the document route; the real encoder and decoder run on each. Trusts the reference normal form; longer models and combinations of more than K deviations are outside the bound.",
  "stateless exhaustive exploration (deviation-bounded) of the real encoder+decoder against a reference normal form")

p("C02", "Encoded documents are well-formed and denote exactly the model",
  "Every model part the encoder writes is well-formed, namespace-valid XML, and the elements, attributes and text it contains are exactly those that the 3MF schema prescribes for the model, whatever characters strings hold. Nothing of the model is lost, duplicated or attributed to another element.",
  ["inputs"], "every encodable model, including foreign attributes and elements",
  "tests compare a handful of encoded strings or only re-read them with the same library, so a matching bug in encoder and decoder is invisible",
  ["encoder.go", "internal/xml/marshal.go", "spec/unknown.go"],
  [("xmlEncoder", "encoder.go"), ("printer", "internal/xml/marshal.go")],
  ["package bytes, read by an independent ZIP/OPC reader and encoding/xml"],
  "All models within K deviations are encoded by the real encoder and compared with an independently written reference document; the package and XML are read by independent code.",
  "stateless exhaustive exploration of the real encoder against an independent document model")

p("C03", "Decoding depends on the document's meaning, not its spelling",
  "All XML documents that denote the same 3MF model decode to that model: prefixes, default namespaces, quoting, entities and character references, CDATA, comments, processing instructions, whitespace, attribute order, explicit default values, number spellings and byte-order marks make no difference.",
  ["inputs"], "every lexical form of every core document",
  "test documents come in one spelling, mostly the one the library writes",
  ["decoder.go", "read.go", "internal/xml/xml.go"],
  [("tokeniser", "internal/xml/xml.go"), ("decodeModelFile", "read.go")],
  ["Decoder.Decode", "UnmarshalModel"],
  "All pairs of (lexical style, model) within the deviation bound, and every style with every single deviation of the model; 15 styles cover the lexical dimensions but not all their combinations.",
  "stateless exhaustive exploration of the real decoder over lexical forms")

p("C04", "Materials extension content survives encode and decode",
  "Textures, texture groups, colour groups, composite materials and multi-properties are written as the materials specification prescribes, are read back from any spelling of such a document, and survive an encode/decode round trip with their order, identifiers, indices, colours, enumerations, coordinates and transforms intact.",
  ["inputs"], "every materials resource", RT,
  ["materials/materials.go", "materials/encoder.go", "materials/decoder.go"],
  [("materials decoders", "materials/decoder.go"), ("Marshal3MF methods", "materials/encoder.go")],
  ["Encode/Decode, package bytes"],
  "Deviation-bounded exploration of materials resources, three oracles: reference document, reference decode, round trip.",
  "stateless exhaustive exploration of the real codec against a reference document model")

p("C05", "Slice stacks survive encode and decode",
  "Slice stacks, their vertices, polygons, segments and references, and the slice attributes of objects are written as the slice specification prescribes, are read back from any spelling of such a document, and survive an encode/decode round trip.",
  ["inputs"], "every slice stack and slice object attribute", RT,
  ["slices/slices.go", "slices/encoder.go", "slices/decoder.go"],
  [("slice decoders", "slices/decoder.go"), ("Marshal3MF methods", "slices/encoder.go")],
  ["Encode/Decode, package bytes"],
  "Deviation-bounded exploration of slice stacks, three oracles: reference document, reference decode, round trip.",
  "stateless exhaustive exploration of the real codec against a reference document model")

p("C06", "Beam lattices survive encode and decode",
  "Beam lattices - beams with radii and cap modes, defaults, clipping and representation meshes, beam sets - are written as the beam lattice specification prescribes, are read back from any spelling of such a document with the specified defaults, and survive an encode/decode round trip.",
  ["inputs"], "every beam lattice", RT,
  ["beamlattice/beamlattice.go", "beamlattice/encoder.go", "beamlattice/decoder.go"],
  [("beam lattice decoders", "beamlattice/decoder.go"), ("Marshal3MF", "beamlattice/encoder.go")],
  ["Encode/Decode, package bytes"],
  "Deviation-bounded exploration of beam lattices, three oracles: reference document, reference decode, round trip.",
  "stateless exhaustive exploration of the real codec against a reference document model")

p("C07", "Production attributes survive encode and decode",
  "The production extension's UUIDs and part paths on builds, items, objects and components are written as the production specification prescribes, are read back from any spelling of such a document, survive an encode/decode round trip, and are what the ObjectPath accessors report.",
  ["inputs"], "every production attribute set", RT,
  ["production/production.go", "production/encoder.go", "production/decoder.go"],
  [("production attribute groups", "production/decoder.go")],
  ["Encode/Decode, package bytes"],
  "Deviation-bounded exploration of production attributes, three oracles: reference document, reference decode, round trip.",
  "stateless exhaustive exploration of the real codec against a reference document model")

p("C08", "Content of unknown extensions is kept and never disturbs the rest",
  "Attributes and elements of namespaces the library has no support for are preserved wherever the model has room for them, in order and with their text, attributes and nesting, through decoding and encoding; elsewhere they are ignored. In neither case do they change how any other content is read or written.",
  ["inputs"], "every foreign attribute set or subtree at every place of a document",
  "tests plant a few foreign nodes in places where nothing interesting follows",
  ["spec/unknown.go", "spec/spec.go", "decoder.go", "read.go", "internal/xml"],
  [("UnknownTokensDecoder, UnknownAttrs", "spec/unknown.go"), ("decodeModelFile", "read.go")],
  ["Decode, Encode"],
  "Every element of a document using all core elements x foreign subtrees x positions x spellings, plus deviation-bounded models with foreign content on all routes.",
  "stateless exhaustive exploration of the real codec with foreign content planted at every node")

p("C09", "No input makes the library panic, hang or exhaust memory",
  "Whatever bytes they are given, decoding a package, unmarshalling a document, importing an STL file and then validating, measuring, walking or re-encoding the result return normally, with a value or an error. Memory stays proportional to the (uncompressed) input, whatever counts, indices and sizes it declares, and time polynomial: components shared by many paths, references and cycles do not multiply the work.",
  ["inputs"], "every byte string given to a decoder and every model a decoder returns",
  "tests feed a fixed set of malformed files and stop at the first error",
  ["read.go", "decoder.go", "internal/xml", "importer/stl", "validate.go", "core.go", "*/decoder.go", "*/validate.go"],
  [("all decoders", "decoder.go, */decoder.go")],
  ["Decode, UnmarshalModel, stl Decode, Validate, BoundingBox, Encode"],
  "Systematic single and pairwise mutation of documents that use every element of every extension (deletion, duplication, relocation, renaming of every node, every hostile attribute value, every byte of documents, packages and STL files), of package parts and relationships, every small component graph, and 30 families of documents that grow; not arbitrary byte strings. Time limits are far (20 s) above what is needed, so that a polynomial slowdown of small inputs is not seen.",
  "stateless exhaustive exploration of bounded document mutations on the real code with panic/hang monitors")

p("C10", "Malformed attributes are reported with the exact location",
  "In strict mode a malformed attribute makes decoding fail with an error that names the attribute, says whether it is required, and locates the element by an exact path of names and zero-based indices. In non-strict mode decoding goes on and reports every such error, in document order, while all other content is read as if the attribute were well-formed.",
  ["inputs"], "every attribute of every element in every position, with every malformed value",
  "tests cover one or two positions per attribute; indices after other errors or ignored siblings are not reached",
  ["decoder.go", "read.go", "errors/errors.go", "*/decoder.go"],
  [("specerr.WrapIndex in decoders", "*/decoder.go"), ("errors in decodeModelFile", "read.go")],
  ["error tree returned by Decode"],
  "Every attribute x malformed value x element position in documents covering all elements; pairs of malformed attributes in non-strict mode.",
  "stateless exhaustive exploration of the real decoder with a reference path oracle")

p("C11", "The XML reader agrees with the standard and with any chunking",
  "The internal XML reader yields the same names, attributes, text and verdict as a conforming reader for documents within 3MF's XML subset (no DTD), whatever the sizes of the chunks the underlying reader delivers and however long names, values and texts are. Ill-formed documents are rejected; only repeated attributes and a second root element are tolerated.",
  ["inputs", "histories"], "every short document over an XML-relevant alphabet and every chunking of it",
  "tests use well-formed documents delivered in one piece",
  ["internal/xml/xml.go"], [("Decoder.RawToken, text, name", "internal/xml/xml.go")],
  ["UnmarshalModel, Decode with a chunked reader"],
  "Every string of bounded length over small alphabets at 16 places of a document, every sequence of tags, prologues and epilogues of bounded length, every character, every byte of sample documents changed into any other, every cut of sample documents into two or three chunks (by the flushes of the compressor), documents displaced over the ends of buffers; compared with a reference reader that is itself compared with encoding/xml on every document. Not judged: XML declarations other than the usual one, undeclared and reserved prefixes, misplaced single colons, characters of names on which the editions of XML differ.",
  "stateless exhaustive enumeration of bounded documents and chunkings against a reference reader, itself checked against encoding/xml")

p("C12", "Read faults and truncation are never mistaken for success",
  "If the package reader fails or the data ends early at any point while a package or document is decoded, decoding returns an error and never a silently incomplete model; the reader's error can be recognised with errors.Is where the failing read is the library's own.",
  ["fault_sequences", "inputs"], "every read call and every truncation point",
  "tests inject a fault at one or two hand-picked points",
  ["read.go", "opc.go", "internal/xml/xml.go"], [("decodeModelFile, copyFile", "read.go"), ("opcReader", "opc.go")],
  ["error of Decode"],
  "Every read call of a decode fails in turn (error, short read, early EOF), and every truncation length of packages and documents.",
  "exhaustive fault injection on the real decoder", level="fault_enumeration")

p("C13", "Write, attachment and marshalling faults never look like success",
  "If the destination of an encoder fails at any write, or the stream of an attachment fails at any read, or an element of an extension or a part cannot be written, encoding returns an error.",
  ["fault_sequences"], "every write call and every attachment read",
  "tests inject a fault at a few points of a mock package",
  ["encoder.go", "opc.go", "internal/xml/marshal.go"], [("Encoder.Encode", "encoder.go")],
  ["error of Encode / Close"],
  "Every write call of an encode fails in turn (error, short write), every read of every attachment.",
  "exhaustive fault injection on the real encoder", level="fault_enumeration")

p("C14", "Packages keep parts, attachments and relationships",
  "Encoding writes the root model, every child model and every attachment at its path with its content, content type and relationships, and decoding finds them again, whatever their number and paths: root and child relationships, attachments and child resources round-trip, and the result is a valid OPC package.",
  ["inputs"], "every set of child models, attachments and relationships",
  "tests use one attachment, one relationship of each kind and no or one child model",
  ["encoder.go", "read.go", "opc.go"], [("Encoder.Encode, writeChildModels, writeAttachements", "encoder.go"), ("processOPC", "read.go")],
  ["package bytes, Decode"],
  "Deviation-bounded exploration of package structures, read back by an independent OPC reader and by the real decoder; independent packages decoded as well.",
  "stateless exhaustive exploration of the real codec with an independent OPC reader/writer")

p("C15", "Decoding child models concurrently is deterministic and safe",
  "Child model parts are decoded concurrently, yet for every schedule the resulting model is the same, no data race occurs, every goroutine ends, a failing child's own error is what Decode reports, and cancelling the context at any point ends decoding with the context's error.",
  ["schedules", "fault_sequences"], "every interleaving of the decoding goroutines up to two preemptions, every faulty child, every cancellation point",
  "tests run one schedule, with at most one child and no shared content",
  ["read.go", "decoder.go"], [("processNonRootModels", "read.go")],
  ["Decoder.DecodeContext"],
  "All interleavings within two preemptions of the real goroutines at statement granularity, under the race detector; two to three child models.",
  "stateless model checking of the real code under a controlled scheduler (preemption bounded) with the race detector")

p("C16", "Bounding boxes are exact",
  "The bounding box of a mesh is the smallest axis-aligned box that contains its vertices; that of an object or model is the smallest one that contains the transformed boxes of what it references, through nested components and parts. So it contains every transformed vertex and, for transforms that keep the axes, is the smallest such box. Things without geometry contribute nothing; a model without geometry has the zero box. The result does not depend on the schedule, should items be measured concurrently.",
  ["inputs"], "every object graph and transform", "tests use a few axis-aligned scale or translation transforms and shallow graphs",
  ["core.go", "math.go"], [("Model.BoundingBox, Object.boundingBox, Matrix.MulBox", "core.go, math.go")],
  ["Model.BoundingBox, Mesh.BoundingBox, Item"],
  "All object graphs up to a size with all transforms from a set that includes rotations, shears and mirrorings.",
  "exhaustive enumeration of bounded object graphs against a reference")

p("C17", "Core validation accepts exactly the valid models",
  "Model.Validate and the Validate methods report a core rule violation if and only if the model breaks that rule, once per offending element, with the path of that element; the rules are those of the 3MF core specification the library implements (required extensions; identifiers that are present and unique within a part; objects with either a mesh or components; vertex, property and material indices within bounds, distinct vertices of a triangle, numbers of vertices and triangles; references to existing objects and property groups, no object that contains itself, no build item of type other; names and colours of base materials; metadata names; relationships with a known target, unique and of an allowed type and place).",
  ["inputs"], "every core model with any set of rule violations", "tests check one violation at a time in one position",
  ["validate.go"], [("Model.Validate", "validate.go")], ["Model.Validate"],
  "Deviation-bounded exploration of models around valid ones, compared with an independent validator (kinds and paths).",
  "stateless exhaustive exploration against a reference validator")

for i, n, f, r in (("C18", "Materials", "materials", "texture paths, content types and references, index counts and bounds, groups that cannot be combined or repeated, colours, missing lists"),
                ("C19", "Slice", "slices", "heights, ordering, numbers of vertices, polygons and segments, vertex references, closed polygons of solid objects, references between stacks of different parts, planar transforms of sliced objects, direct or through components, and the required extension of low resolution objects"),
                ("C20", "Beam lattice", "beamlattice", "required lengths and radii, type and shape of the object, clipping and representation meshes, beam indices and radii, references of beam sets"),
                ("C21", "Production", "production", "a present, well formed UUID on the build and on every item, object and component, paths in the components of the root model only")):
    p(i, n+" validation accepts exactly the valid resources",
      f"Validating a model that uses the {f} extension reports a rule violation if and only if the content breaks that rule ({r}), once per offending element, with the path of that element.",
      ["inputs"], f"every {f} content with any set of rule violations", "tests check one violation at a time in one position",
      [f"{f}/validate.go"], [("Spec.Validate", f"{f}/validate.go")], ["Model.Validate"],
      "Deviation-bounded exploration of content around valid resources, compared with an independent validator (kinds and paths).",
      "stateless exhaustive exploration against a reference validator")

p("C22", "Mesh coherency is decided exactly, for every mesh of a model",
  "ValidateCoherency reports a mesh as coherent if and only if it has at least three vertices and four triangles and every edge belongs to exactly two triangles that traverse it in opposite directions; for a model it reports exactly the offending objects of the root and of every child model, whatever the schedule of its goroutines.",
  ["inputs", "schedules"], "every small mesh and every assignment of meshes to model parts; every interleaving",
  "tests try one coherent and two incoherent meshes",
  ["validate.go", "core.go"], [("Mesh.ValidateCoherency, Model.ValidateCoherency", "validate.go")], ["ValidateCoherency"],
  "All triangle lists up to a bound over few vertices against an independent edge counter; all models with up to three objects in two parts; all interleavings within the preemption bound.",
  "exhaustive enumeration of meshes and interleavings against a reference")

p("C23", "Resource lookup and walking are exact",
  "FindObject, FindAsset and FindResources return the resource with the given identifier in the given part and nothing else; walking visits every asset and object exactly once with its part's path, in the documented order, and stops at the first error; UnusedID yields an identifier no resource of the part uses.",
  ["inputs"], "every set of resources and every callback behaviour", "tests use one arrangement of three or four identifiers",
  ["core.go"], [("Find*, Walk*, UnusedID", "core.go")], ["Model and Resources methods"],
  "All resource lists up to a bound over a small identifier set in up to three parts, all callback failure points.",
  "exhaustive enumeration of bounded operations against a reference model")

p("C24", "MeshBuilder merges equal vertices and no others",
  "With connectivity on, a mesh builder returns the index of an existing vertex for an equal position and appends a new one for positions more than its accuracy (1e-6) away from every vertex; indices are those of the vertices in the mesh and existing vertices never change - for any sequence of additions, coordinates and pre-existing vertices.",
  ["inputs", "histories"], "every sequence of additions", "tests add a handful of points near the origin",
  ["core.go", "math.go"], [("MeshBuilder.AddVertex, vectorTree", "core.go, math.go")], ["MeshBuilder"],
  "All sequences up to a depth over coordinates that include huge, tiny, negative and almost equal values.",
  "exhaustive exploration of operation sequences against a reference map")

p("C25", "STL files are imported faithfully",
  "Binary and ASCII STL files of any size decode to one new object, placed by one new build item, with exactly the file's facets, in order, and equal vertices merged, and leave the rest of the model alone; ASCII files with malformed vertices or facets without three vertices, and truncated files, yield an error, a failing reader its error, and the model stays as it was; cancelling the context ends decoding after a bounded number of facets; memory is in proportion to the file, not to the number of facets it declares.",
  ["inputs", "fault_sequences"], "every small STL file, every truncation and read fault", "tests decode one valid and a few truncated files",
  ["importer/stl"], [("Decoder.Decode, asciiDecoder, binaryDecoder", "importer/stl")], ["stl.Decoder"],
  "All STL files up to a number of facets over a vertex set in both formats and several spellings, every truncation, every read fault, every cancellation point.",
  "exhaustive enumeration of files and faults against a reference")

p("C26", "UUIDs are well-formed, validated exactly and filled in completely",
  "Generated UUIDs are RFC 4122 version 4 strings for every random source, validation accepts exactly the specified textual forms, and setting missing UUIDs gives every build, item, object and component of every part one, without touching existing ones or anything else.",
  ["inputs"], "every random byte string, every candidate string within the alphabet, every model", "tests try a few strings and one model",
  ["uuid/uuid.go", "production/production.go"], [("uuid.New, Validate", "uuid/uuid.go"), ("SetMissingUUIDs", "production/production.go")], ["uuid, production.SetMissingUUIDs"],
  "All single and double character edits of UUID forms, all values of each random byte, all models with each subset of UUIDs missing.",
  "exhaustive enumeration against a reference")

p("C27", "Value codecs are exact inverses and reject everything else",
  "Colours, matrices, enumerations, UUIDs and numbers in any attribute are parsed from every textual form the specification allows, to the value it denotes, and formatted to a form that parses back to the same value; a string that denotes no value is rejected wherever it appears.",
  ["inputs"], "every string and every value of each type", "tests sample a few values",
  ["spec/utils.go", "materials/materials.go", "slices/slices.go", "beamlattice/beamlattice.go", "core.go", "math.go"],
  [("ParseRGBA, FormatRGBA, ParseMatrix, String/new* functions", "spec/utils.go and others")], ["spec, String methods, decode"],
  "All short strings over the relevant alphabet, all byte values of each colour channel, all enumeration values.",
  "exhaustive enumeration against a reference")

p("C28", "Error lists keep every error and its location",
  "Appending and wrapping errors keeps every error exactly once in order, whatever mix of nil, single and list errors is combined; paths compose outermost first; errors.Is and errors.As see every member; formatting and XPath are stable.",
  ["histories"], "every sequence of append and wrap operations", "tests use one or two appends",
  ["errors/errors.go", "errors/list.go"], [("Append, Wrap, WrapIndex, WrapPath", "errors/errors.go, errors/list.go")], ["errors package"],
  "All operation sequences up to a depth over a small set of errors.",
  "exhaustive exploration of operation sequences against a reference list")

p("C29", "Encoding, validating and measuring leave the model untouched",
  "Encoding, validating, measuring, walking and looking up do not modify the model, give the same result each time they are repeated, and may be run concurrently with each other on the same model without a data race.",
  ["inputs", "schedules", "histories"], "every model, every sequence and interleaving of such operations", "tests call each operation once, on one goroutine",
  ["encoder.go", "validate.go", "core.go", "*/encoder.go", "*/validate.go"], [("value receivers and copies", "encoder.go, validate.go")], ["model value before and after"],
  "All pairs of operations in sequence and all interleavings within two preemptions under the race detector, on models using every extension.",
  "exhaustive exploration of operation sequences and schedules on the real code")

p("C30", "Decoded models are independent of the decoder and of each other",
  "A decoder can be used again and gives the same model each time, models decoded by one decoder or from the same bytes share no mutable state, and a decoded model does not change when the input buffer is reused.",
  ["histories"], "every sequence of decodes and modifications", "tests decode once per decoder",
  ["read.go", "internal/xml/xml.go", "decoder.go"], [("Decoder.Decode", "read.go")], ["models returned by Decode"],
  "All sequences of decodes and buffer reuses up to a depth over models using every extension.",
  "exhaustive exploration of operation sequences on the real code")

p("C31", "Matrix and vector algebra is exact",
  "Matrix products, translations, point and box transformations follow row-vector affine algebra: composition is associative, identity is neutral, transforming a point by a product equals transforming it successively, and boxes are transformed to the smallest enclosing box.",
  ["inputs"], "every matrix, point and box", "tests check a few products",
  ["math.go"], [("Matrix methods", "math.go")], ["Matrix, Box methods"],
  "All triples over a set of matrices (unit, permutation, mirror, shear, translation basis) and points; exact in float32 by choice of values.",
  "exhaustive enumeration against a reference")

p("C32", "Registered extensions take part like the built-in ones",
  "A specification registered with spec.Register is asked for the elements and attribute groups of its own namespace, wherever a model has room for them, and for nothing else. What it decodes is kept in order, with the parent it was asked for, and is written by its own marshallers, relationships included; what it declines or a model cannot hold is ignored without harm (attributes are kept as unknown). The errors of its decoders, attributes and marshallers are reported, located exactly. Its validator, if the model lists the namespace, is called exactly once for the model and for each asset and object of every part, with the path of the part, and its errors are located there; a required extension is accepted if and only if it is registered.",
  ["inputs"], "every specification, document and model that uses it", "tests register one fake specification with fixed answers",
  ["decoder.go", "read.go", "validate.go", "encoder.go", "spec/spec.go"], [("modelDecoder.Child", "decoder.go"), ("decodeModelFile", "read.go"), ("Model.Validate", "validate.go")], ["spec.Register", "NewDecoder", "NewEncoder", "Model.Validate"],
  "Recording specifications (accepting, declining, failing; with and without validator) x content at every place of a package with a child part x lists of extensions, against the expected content, calls, errors and relationships.",
  "exhaustive enumeration of content, answers and faults of registered specifications on the real code")

p("C33", "A model is what it holds: no memory of earlier calls",
  "What a look at a model gives — validating it, or a part, asset, object or mesh of it, marshalling or encoding it, walking its parts, finding its resources, bounding its boxes, checking meshes — depends only on what the model holds at that moment: not on earlier looks at it or at other models, nor on what it held before. After any sequence of looks and of changes a user may make (adding, replacing, removing or editing resources, parts, attachments, relationships, extensions, items, settings), each look gives what it gives for a fresh model with the same content.",
  ["inputs", "histories"], "every sequence of looks and changes of every model", "tests look once at a fresh model",
  ["core.go", "validate.go", "encoder.go", "spec/spec.go"], [("Model.Validate", "validate.go"), ("Model.WalkObjects", "core.go"), ("Encoder.Encode", "encoder.go")], ["Model.Validate", "Object.ValidateMesh", "MarshalModel", "Encoder.Encode", "Model.WalkObjects", "Model.BoundingBox"],
  "Every sequence of 'look, change, look, look' and 'look, change, change, look' (thorough: deeper) over all kinds of looks and some forty changes, and looks at similar models in turn, on the real code against fresh models with the same content.",
  "bounded exhaustive enumeration of histories of a model on the real code, against fresh models")

p("C34", "Files hold what was written to them",
  "CreateWriter makes an empty file in place of any file of that name; when a model was encoded to it without error and it was closed without error, the file is a whole package that holds that model, whatever was there before, and OpenReader on that name gives that model, as often as it is decoded, until the reader is closed, and even if the name is removed or taken by a new file meanwhile. Names that cannot be created or opened, a device without space, models that cannot be written and using a writer or reader after it was closed are reported as errors (a missing file as fs.ErrNotExist), and a file whose encoding failed or never took place is not read as a model. No file stays open after Close or after a failed call, and no other file is created.",
  ["inputs", "histories"], "every sequence of operations on files", "tests write and read one sample file, once, and compare",
  ["read.go", "encoder.go", "opc.go"], [("OpenReader", "read.go"), ("CreateWriter", "encoder.go")], ["CreateWriter", "OpenReader", "WriteCloser.Close", "ReadCloser.Close", "ReadCloser.Decode"],
  "Every sequence of up to seven (thorough: nine) operations of a writer and a reader on one file in a scratch directory, all interleavings of two files, failing names and devices, against a model of files and names; open descriptors and the directory are compared at the end.",
  "exhaustive enumeration of operation histories on the real code and file system, up to a depth, against a model of files")

p("C35", "What extensions write is in the document, exactly there",
  "Marshallers of elements, assets and attribute groups may write any well-formed tokens through the encoder they are given: elements and attributes of any namespace, declared by the model, by themselves (declaring prefixes and default namespaces again included) or not at all, attribute values and text with any characters, elements closed automatically, with flushes in between. A reader finds exactly those elements, attributes and texts at the place of the marshaller, in order and in the namespaces asked for, and nothing else of the document changes. They are told the float precision of the encoder (four for MarshalModel), and the relationships they add are in the part they are written to, once, with the identifier given first.",
  ["inputs"], "every marshaller, at every place", "tests compare a few expected texts of the built-in marshallers",
  ["encoder.go", "internal/xml/printer.go", "spec/encoding.go"], [("xmlEncoder.EncodeToken", "encoder.go"), ("xmlEncoder.AddRelationship", "encoder.go"), ("Printer.WriteStart", "internal/xml/printer.go")], ["spec.Marshaler", "Encoder.Encode", "MarshalModel"],
  "Every tree of up to four elements (six with a second marshaller) within a bound of deviations, at six places; attributes of nine kinds in groups on every element that may carry them; precisions; sequences of relationships: the tokens of the document, with strictly resolved namespaces, against the tokens asked for.",
  "bounded exhaustive enumeration of the token sequences of marshallers on the real encoder, against those tokens")
p("C36", "What was decoded can be saved and read again, unchanged",
  "Every model that the decoder returns without error, from a document or a package, strictly or not, however odd, can be encoded; what is written can be decoded, even strictly, and gives the same model: metadata, resources, meshes, build, unknown elements and attributes, extensions, parts, attachments, relationships; numbers up to the precision of the encoder. Saving that again changes nothing any more.",
  ["inputs"], "every document and package that is accepted", "tests encode models that were built by hand and decode documents that were written by hand, never the one from the other",
  ["read.go", "decoder.go", "encoder.go", "materials", "production", "slices", "beamlattice"], [("Decoder.processOPC", "read.go"), ("Encoder.writeModel", "encoder.go"), ("Encoder.writeObject", "encoder.go")], ["UnmarshalModel", "MarshalModel", "Decoder.Decode", "Encoder.Encode"],
  "Every change of every element, attribute and byte of a document that has everything (as root and as child part), pairs of changes, and the changes of parts and relationships of a package, each decoded, encoded, decoded and encoded again; the models and the packages are compared.",
  "bounded exhaustive enumeration of changed documents and packages through the real decoder and encoder, twice; comparison of the states before and after")
p("C37", "Every way in and out gives the same model and the same verdict",
  "UnmarshalModel, Decode and DecodeContext, from packages stored or compressed, give the same model and the same errors for the same document. Strict decoding accepts exactly what lenient decoding has no complaint about, and otherwise reports the first of its complaints. A document gives the same resources and the same complaints as a child part as it gives as the root. MarshalModel writes the document that Encode puts into the package, and Validate judges both models alike.",
  ["inputs"], "every document", "tests use one way in or one way out for each document, and compare none with another",
  ["read.go", "decoder.go", "encoder.go", "internal/xml"], [("UnmarshalModel", "read.go"), ("Decoder.processRootModel", "read.go"), ("Decoder.processNonRootModels", "read.go"), ("modelDecoder", "decoder.go"), ("MarshalModel", "encoder.go")], ["UnmarshalModel", "Decoder.Decode", "MarshalModel", "Encoder.Encode", "Model.Validate"],
  "Every change of every element, attribute and byte of a document that has everything, and pairs of changes, decoded in each way, as root and as child part, strictly and leniently, and encoded in both; errors and models are compared.",
  "bounded exhaustive enumeration of changed documents through every entry point of the real decoder and encoder; comparison of the resulting states and errors")
p("C38", "What an element gives does not depend on its neighbours",
  "What is decoded from a resource, a build item, a piece of metadata, an unknown element, or an element of any list (vertices, triangles, components, colours, coordinates, layers, slices, segments, beams, balls, beam sets) does not depend on the elements before, after and between which it stands: neither the values, nor the complaints, nor what is encoded again. A model gives the sum of what its parts give alone.",
  ["inputs", "histories"], "every document, and every pair of elements of a list", "tests have one neighbourhood for every element: state that decoders and encoders keep from one element to the next shows only for particular neighbours",
  ["decoder.go", "encoder.go", "materials", "production", "slices", "beamlattice"], [("modelDecoder", "decoder.go"), ("resourceDecoder", "decoder.go"), ("Encoder.writeModel", "encoder.go")], ["UnmarshalModel", "MarshalModel"],
  "Every change of a document that has everything is decoded whole and part by part; every changed element of each of its lists is decoded before, after, between unchanged ones and twice; the values, errors and encoded elements must be those of the parts alone, one after the other.",
  "bounded exhaustive enumeration of neighbourhoods of elements through the real decoder and encoder; compositional oracle (the sum of the parts alone)")

CLAIMED = set(open("tools/claimed.txt").read().split())

def main():
    with open("properties.jsonl", "w") as f:
        for x in P:
            d = {"id": x["id"], "title": x["title"], "statement": x["statement"],
                 "quantifier": {"over": x["over"], "text": x["text"]},
                 "why_tests_cant": x["why"],
                 "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
                             "observe_at": x["observe"], "hook_needed": None}}
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for x in P:
        if x["id"] in CLAIMED:
            checks.append({"property": x["id"], "quick_cmd": f"./run.sh {x['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {x['id']}",
                           "technique": x["tech"], "level": x["level"], "level_note": x["note"]})
        else:
            na.append({"property": x["id"], "reason": x["na"] or "the check for this property is not built yet"})
    m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the checks drive the public API; scheduling points are added to a scratch overlay of the sources at build time. See DESIGN.md."}
    json.dump(m, open("MANIFEST.json", "w"), indent=1)
    open("MANIFEST.json", "a").write("\n")
main()
