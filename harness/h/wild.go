//go:build go1.21

package h

import (
	"errors"
	"io"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// ---- arbitrary documents ----

// anchored is a node that every arbitrary document begins with, so that
// aliases may occur anywhere in it.
func anchored() *yaml.Node {
	n := scalar("!!str", "anchored")
	n.Anchor = "a"
	return n
}

// wilds makes arbitrary nodes.
type wilds struct{ anchor *yaml.Node }

// node is any node of at most the depth, determined when it is looked at.
func (w *wilds) node(id string, d int) *yaml.Node {
	return sym.LazyNode(func() yaml.Node { return *w.make(id, d) })
}

func (w *wilds) make(id string, d int) *yaml.Node {
	n := 4
	if d > 0 {
		n = 6 + sym.Tier()
	}
	switch sym.Choice(id+".kind", n) {
	case 0:
		return w.scalar(id)
	case 1:
		return mapNode()
	case 2:
		return seqNode()
	case 3:
		if w.anchor == nil {
			return nullNode(id)
		}
		return &yaml.Node{Kind: yaml.AliasNode, Value: "a", Alias: w.anchor, Line: 1, Column: 1}
	case 4:
		m := mapNode(w.key(id+".k", 3), w.node(id+".v", d-1))
		m.Tag = sym.Pick(sym.Range(id+".tag", 4), "!!map", "!x", "!!set", "!!omap")
		return m
	case 5:
		return seqNode(w.node(id+".e0", d-1))
	default:
		return seqNode(w.node(id+".e0", d-1), w.node(id+".e1", d-1))
	}
}

// scalar: a legal scalar, or any text that is tagged for no reason.
func (w *wilds) scalar(id string) *yaml.Node {
	switch sym.Choice(id+".scalar", 7) {
	case 0: // tagged as text, as a type it is no literal of, or otherwise
		return scalar(sym.Pick(sym.Range(id+".tag", 9), "!!str", "!include", "!x", "!!int", "!!float", "!!bool", "!!binary", "!!timestamp", "!!y"),
			"x"+sym.String(id+".s", long))
	case 1:
		return intNode(sym.Int64(id + ".i"))
	case 2:
		return nullNode(id)
	case 3:
		return boolNode(sym.Bool(id + ".b"))
	case 4:
		return floatNode(sym.Float(id + ".f"))
	case 5:
		return strNode(sym.String(id+".text", keyLen))
	default:
		return scalar("!!timestamp", sym.Pick(sym.Range(id+".date", 2), "2020-01-02", "1999-12-31"))
	}
}

// key is any key: a text that may be any name there is, or another node.
func (w *wilds) key(id string, n int) *yaml.Node {
	switch sym.Choice(id+".keykind", 3) {
	case 0:
		return strNode(sym.String(id+".key", n))
	case 1:
		return w.odd(id)
	default:
		return mapNode(strNode("k"), strNode("v"))
	}
}

// odd is a key that is no text.
func (w *wilds) odd(id string) *yaml.Node {
	i := sym.Range(id+".odd", 6)
	return scalar(sym.Pick(i, "!!null", "!!int", "!!float", "!!bool", "!x", "!include"),
		sym.Pick(i, "null", "12", "1.5", "true", "title", "type"))
}

// entries: up to n entries of any keys and any content.
func (w *wilds) entries(id string, n, d int) []*yaml.Node {
	var out []*yaml.Node
	for i := 0; i < n; i++ {
		s := id + string(rune('0'+i))
		switch {
		case i == 0:
			out = append(out, strNode(sym.String(s+".key", keyLen)), w.node(s, d))
		case sym.Tier() > 0:
			out = append(out, w.key(s, keyLen), w.node(s, d))
		default:
			out = append(out, w.key(s, 1), w.node(s, 0))
		}
	}
	return out
}

// survive: reading yields a model that can be looked at and written, or an
// error and nothing else.
func survive(api bool, w *wilds, root *yaml.Node) {
	if w.anchor != nil && root.Kind == yaml.MappingNode {
		root.Content = append([]*yaml.Node{strNode("anchored"), w.anchor}, root.Content...)
	}
	if api {
		d, err := rparse.ParseApiDoc(sym.Doc(headAPI, root))
		sym.Assert((d == nil) == (err != nil), "a model or an error, never both or neither")
		if err == nil {
			lookAPI(d)
			_ = d.WriteRAML(&sym.Sink{})
		}
	} else {
		d, err := rparse.ParseLibrary(sym.Doc(headLib, root))
		sym.Assert((d == nil) == (err != nil), "a model or an error, never both or neither")
		if err == nil {
			lookLib(d)
			_ = d.WriteRAML(&sym.Sink{})
		}
	}
	sym.Reached("end")
}

func lookAPI(d raml.APISpec) {
	d.Title()
	d.Version()
	d.Description()
	d.BaseURI()
	d.Protocols()
	d.MediaTypes()
	d.SecuredBy()
	for _, x := range d.Documentation() {
		sym.Assert(x != nil, "a documentation item is one")
		x.Title()
		x.Content()
		sym.Assert(x.ExtraFacets() != nil, "a usable model")
	}
	for _, m := range []raml.UntypedMap{d.BaseURIParameters(), d.SecuritySchemes(), d.AnnotationTypes(), d.Traits(), d.ResourceTypes(), d.Resources()} {
		sym.Assert(m != nil, "a usable model")
		m.Len()
	}
	sym.Assert(d.Uses() != nil && d.Annotations() != nil && d.ExtraFacets() != nil, "a usable model")
	lookTypes(d.Types())
	lookTypes(d.Schemas())
}

func lookLib(d raml.Library) {
	d.Usage()
	for _, m := range []raml.UntypedMap{d.SecuritySchemes(), d.AnnotationTypes(), d.Traits(), d.ResourceTypes()} {
		sym.Assert(m != nil, "a usable model")
		m.Len()
	}
	sym.Assert(d.Uses() != nil && d.Annotations() != nil && d.ExtraFacets() != nil, "a usable model")
	lookTypes(d.Types())
	lookTypes(d.Schemas())
}

func lookTypes(m raml.DataTypeMap) {
	sym.Assert(m != nil, "a usable model")
	m.ForEach(func(_ string, t raml.DataType) { lookType(t) })
}

func lookExample(e raml.Example) {
	e.DisplayName()
	e.Description()
	e.Strict()
	sym.Assert(e.Annotations() != nil && e.ExtraFacets() != nil, "a usable model")
}

// lookType calls what every kind of type has, and what is special to some.
func lookType(t raml.DataType) {
	sym.Assert(t != nil, "a type is one")
	t.Kind()
	t.Type()
	t.Schema()
	sym.Assert(t.ExtraFacets() != nil, "a usable model")
	if p, ok := t.(raml.Property); ok {
		p.Required()
	}
	if e, ok := t.(raml.ExtendedDataType); ok {
		e.DisplayName()
		e.Description()
	}
	if a, ok := t.(annotated_); ok {
		sym.Assert(a.Annotations() != nil, "a usable model")
	}
	if f, ok := t.(faceted_); ok {
		f.FacetDefinitions().ForEach(func(_ string, v raml.Facet) { lookTypes(v) })
	}
	lookKind(t)
}

// ---- the levels of a document ----

func wildly() *wilds { return &wilds{anchor: anchored()} }

func C05_apiRoot()     { w := &wilds{}; survive(true, w, w.make("root", 2)) }
func C05_libraryRoot() { w := &wilds{}; survive(false, w, w.make("root", 2)) }

func C05_apiEntries()     { w := wildly(); survive(true, w, mapNode(w.entries("e", 1, 2)...)) }
func C05_libraryEntries() { w := wildly(); survive(false, w, mapNode(w.entries("e", 1, 2)...)) }

func C05_apiSections() {
	names := []string{"title", "version", "description", "baseUri", "protocols", "mediaType", "securedBy", "documentation", "uses",
		"baseUriParameters", "securitySchemes", "annotationTypes", "traits", "resourceTypes", "types", "schemas", "(a)", "/r", ""}
	i := sym.Choice("section", len(names))
	w := wildly()
	root := mapNode(strNode(names[i]), w.node("v", 2), w.key("other", 1), w.node("o", 0))
	survive(true, w, root)
}

func C05_librarySections() {
	names := []string{"usage", "uses", "securitySchemes", "annotationTypes", "traits", "resourceTypes", "types", "schemas", "(a)", ""}
	i := sym.Choice("section", len(names))
	w := wildly()
	root := mapNode(strNode(names[i]), w.node("v", 2), w.key("other", 1), w.node("o", 0))
	survive(false, w, root)
}

func C05_documentation() {
	w := wildly()
	survive(true, w, mapNode(strNode("documentation"), seqNode(mapNode(w.entries("e", 2, 1)...), w.node("second", 1))))
}

// inTypes: a library, or an API document, with the declaration.
func inTypes(w *wilds, n *yaml.Node) {
	api := sym.Bool("api")
	survive(api, w, mapNode(strNode("types"), mapNode(strNode("T"), n)))
}

// C05_types: names and declarations of any form.
func C05_types() {
	w := wildly()
	survive(sym.Bool("api"), w, mapNode(strNode("types"), mapNode(w.entries("e", 2, 1)...)))
}

// C05_declaration: any entries without a type expression.
func C05_declaration() {
	w := wildly()
	inTypes(w, mapNode(w.entries("e", 2, 1)...))
}

// C05_expression: any type expression, with another entry.
func C05_expression() {
	w := wildly()
	k := "type"
	if sym.Bool("schema") {
		k = "schema"
	}
	n := mapNode(strNode(k), w.node("x", 1), strNode(sym.String("key", keyLen)), w.node("v", 1))
	if sym.Bool("after") {
		n.Content = append(append([]*yaml.Node{}, n.Content[2:]...), n.Content[:2]...)
	}
	inTypes(w, n)
}

// c05facets: any entries of a declaration of the kind.
func c05facets(k kind) {
	w := wildly()
	n := mapNode(strNode("type"), exprNode(&k))
	n.Content = append(n.Content, w.entries("e", 1, 1)...)
	if sym.Bool("more") {
		n.Content = append(n.Content, w.key("more", 1), w.node("m", 0))
	}
	survive(false, w, mapNode(strNode("types"), mapNode(strNode("T"), n)))
}

// c05facet: every facet of the kind, with any content.
func c05facet(k kind) {
	w := wildly()
	i := sym.Choice("facet", len(k.facets))
	n := mapNode(strNode("type"), exprNode(&k), strNode(k.facets[i].name), w.node("v", 2))
	survive(false, w, mapNode(strNode("types"), mapNode(strNode("T"), n)))
}

// c05example: single and named examples of any form.
func c05example(k kind) {
	w := wildly()
	var n *yaml.Node
	switch sym.Choice("form", 3) {
	case 0:
		n = mapNode(strNode("example"), mapNode(w.entries("e", 2, 1)...))
	case 1:
		n = mapNode(strNode("examples"), mapNode(w.key("name", 1), mapNode(w.entries("e", 1, 1)...)))
	default:
		n = mapNode(strNode("example"), mapNode(strNode("value"), w.node("v", 2), strNode("strict"), w.node("s", 0)))
	}
	n.Content = append([]*yaml.Node{strNode("type"), exprNode(&k)}, n.Content...)
	survive(false, w, mapNode(strNode("types"), mapNode(strNode("T"), n)))
}

// C05_nested: any declarations as properties, items and custom facets.
func C05_nested() {
	w := wildly()
	d := mapNode(w.entries("e", 1, 1)...)
	if sym.Bool("whole") {
		d = w.node("d", 2)
	}
	name := strNode("p")
	var n *yaml.Node
	switch sym.Choice("in", 5) {
	case 0:
		n = mapNode(strNode("properties"), mapNode(name, d))
	case 1:
		n = mapNode(strNode("items"), d)
	case 2:
		n = mapNode(strNode("facets"), mapNode(name, mapNode(strNode("t"), d)))
	case 3:
		n = mapNode(strNode("items"), mapNode(strNode("items"), d))
	default:
		n = mapNode(strNode("properties"), mapNode(w.key("k", 1), mapNode(strNode("properties"), mapNode(w.key("k2", keyLen), nullNode("n")))))
	}
	if sym.Bool("typed") {
		n.Content = append([]*yaml.Node{strNode("type"), strNode(sym.Pick(sym.Range("type", 4), "object", "array", "string", "nil"))}, n.Content...)
	}
	survive(false, w, mapNode(strNode("types"), mapNode(strNode("T"), n)))
}

// C05_xml: XML settings of any form.
func C05_xml() {
	w := wildly()
	inTypes(w, mapNode(strNode("type"), strNode("string"), strNode("xml"), mapNode(w.entries("e", 2, 1)...)))
}

// C05_annotations: annotations of any form, at every level.
func C05_annotations() {
	w := wildly()
	name := strNode("(" + sym.String("name", long))
	v := w.node("v", 3)
	a := mapNode(name, v)
	switch sym.Choice("level", 5) {
	case 0:
		survive(true, w, a)
	case 1:
		survive(false, w, a)
	case 2:
		survive(false, w, mapNode(strNode("types"), mapNode(strNode("T"), a)))
	case 3:
		survive(false, w, mapNode(strNode("types"), mapNode(strNode("T"), mapNode(strNode("example"), a))))
	default:
		survive(true, w, mapNode(strNode("/r"), a))
	}
}

// badReader fails after it handed out some text.
type badReader struct {
	text string
	at   int
}

func (r *badReader) Read(p []byte) (int, error) {
	n := copy(p, r.text[r.at:])
	r.at += n
	if n == 0 {
		return 0, io.ErrUnexpectedEOF
	}
	return n, nil
}

// C05_reader: a source that fails is an error.
func C05_reader() {
	var text string
	switch sym.Choice("text", 4) {
	case 1:
		text = headAPI
	case 2:
		text = "\n"
	case 3:
		text = headLib[:sym.Choice("cut", len(headLib))]
	}
	r := &badReader{text: text}
	if sym.Bool("api") {
		d, err := rparse.ParseApiDoc(r)
		sym.Assert(err != nil && d == nil, "a source that fails is an error")
	} else {
		d, err := rparse.ParseLibrary(r)
		sym.Assert(err != nil && d == nil, "a source that fails is an error")
	}
	sym.Reached("end")
}

// pieces hands out a text piece by piece, and then an error, which it reports
// together with the last piece or after it, and which is the end of the file
// or a failure.
type pieces struct {
	text  string
	at    int
	step  int
	eager bool
	end   error
}

func (r *pieces) Read(p []byte) (int, error) {
	n := len(r.text) - r.at
	if n > r.step {
		n = r.step
	}
	n = copy(p, r.text[r.at:r.at+n])
	r.at += n
	if r.at == len(r.text) && (n == 0 || r.eager) {
		return n, r.end
	}
	return n, nil
}

// richPieces offers the other ways of reading as well.
type richPieces struct{ *pieces }

func (r richPieces) Len() int { return len(r.text) - r.at }

func (r richPieces) Size() int64 { return int64(len(r.text)) }

func (r richPieces) ReadByte() (byte, error) {
	if r.at == len(r.text) {
		return 0, r.end
	}
	r.at++
	return r.text[r.at-1], nil
}

func (r richPieces) WriteTo(w io.Writer) (int64, error) {
	rest := r.text[r.at:]
	r.at = len(r.text)
	n, err := w.Write([]byte(rest))
	if err == nil && r.end != io.EOF {
		err = r.end
	}
	return int64(n), err
}

func (r richPieces) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case 1:
		offset += int64(r.at)
	case 2:
		offset += int64(len(r.text))
	}
	if offset < 0 || offset > int64(len(r.text)) {
		return 0, errors.New("no such place")
	}
	r.at = int(offset)
	return offset, nil
}

// C05_source: what is read does not depend on the pieces in which the source
// hands out the text, and a source that fails at any point is an error.
func C05_source() {
	api := sym.Bool("api")
	name := sym.String("name", long)
	head, key := headLib, "usage"
	if api {
		head, key = headAPI, "description"
	}
	r := &pieces{text: sym.DocText(head, mapNode(strNode(key), strNode(name))), end: io.EOF}
	r.step = []int{1, 3, 10000}[sym.Choice("step", 3)]
	r.eager = sym.Bool("eager")
	if sym.Bool("fails") {
		r.end = io.ErrUnexpectedEOF
		if sym.Bool("other") {
			r.end = io.ErrClosedPipe
		}
		r.text = r.text[:len(r.text)*sym.Choice("part", 5)/4]
	}
	var src io.Reader = r
	if sym.Bool("rich") {
		src = richPieces{r}
	}
	if api {
		d, err := rparse.ParseApiDoc(src)
		if r.end != io.EOF {
			sym.Assert(err != nil && d == nil, "a source that fails is an error")
		} else {
			sym.Assert(err == nil && d.Description().Get() == name, "the document is read in pieces")
		}
	} else {
		d, err := rparse.ParseLibrary(src)
		if r.end != io.EOF {
			sym.Assert(err != nil && d == nil, "a source that fails is an error")
		} else {
			sym.Assert(err == nil && d.Usage().Get() == name, "the document is read in pieces")
		}
	}
	sym.Reached("end")
}

// C05_long: a document is read as a whole, however long it is.
func C05_long() {
	api := sym.Bool("api")
	name := sym.String("name", long)
	head, key := headLib, "usage"
	if api {
		head, key = headAPI, "description"
	}
	size := []int{600, 5000, 70000}[sym.Choice("size", 3)]
	head += "# " + strings.Repeat("x", size) + "\n"
	r := &pieces{text: sym.DocText(head, mapNode(strNode(key), strNode(name))), end: io.EOF, eager: sym.Bool("eager")}
	r.step = []int{1000, 100000}[sym.Choice("step", 2)]
	if api {
		d, err := rparse.ParseApiDoc(r)
		sym.Assert(err == nil && d.Description().IsPresent() && d.Description().Get() == name, "the whole document is read")
	} else {
		d, err := rparse.ParseLibrary(r)
		sym.Assert(err == nil && d.Usage().IsPresent() && d.Usage().Get() == name, "the whole document is read")
	}
	sym.Reached("end")
}

// C05_empty: a document of nothing but its header.
func C05_empty() {
	head := ""
	switch sym.Choice("head", 3) {
	case 1:
		head = headAPI
	case 2:
		head = headLib
	}
	if sym.Bool("api") {
		d, err := rparse.ParseApiDoc(sym.Doc(head, nil))
		sym.Assert((d == nil) == (err != nil), "a model or an error, never both or neither")
		if err == nil {
			lookAPI(d)
			_ = d.WriteRAML(&sym.Sink{})
		}
	} else {
		d, err := rparse.ParseLibrary(sym.Doc(head, nil))
		sym.Assert((d == nil) == (err != nil), "a model or an error, never both or neither")
		if err == nil {
			lookLib(d)
			_ = d.WriteRAML(&sym.Sink{})
		}
	}
	sym.Reached("end")
}

// ---- aliases to what they are in ----

// cyclic: a mapping or list with an alias to itself at some depth.
func cyclic(id string) *yaml.Node {
	n := mapNode()
	list := sym.Bool(id + ".list")
	if list {
		n = seqNode()
	}
	n.Anchor = "c"
	in := &yaml.Node{Kind: yaml.AliasNode, Value: "c", Alias: n, Line: 1, Column: 1}
	switch sym.Choice(id+".within", 3) {
	case 1:
		in = mapNode(strNode(sym.String(id+".k1", 3)), in)
	case 2:
		in = seqNode(in)
	}
	if !list {
		n.Content = append(n.Content, strNode(sym.String(id+".k0", keyLen)))
	}
	n.Content = append(n.Content, in)
	return n
}

func C05_apiCycles() {
	names := []string{"", "title", "mediaType", "securedBy", "documentation", "uses", "baseUriParameters",
		"securitySchemes", "annotationTypes", "traits", "resourceTypes", "types", "(a)", "/r", "x"}
	n := cyclic("c")
	if i := sym.Choice("section", len(names)); i > 0 {
		n = mapNode(strNode(names[i]), n)
	}
	survive(true, &wilds{}, n)
}

func C05_libraryCycles() {
	names := []string{"", "usage", "uses", "securitySchemes", "annotationTypes", "traits", "resourceTypes", "types", "(a)", "x"}
	n := cyclic("c")
	if i := sym.Choice("section", len(names)); i > 0 {
		n = mapNode(strNode(names[i]), n)
	}
	survive(false, &wilds{}, n)
}

func C05_typeCycles() {
	ks := []kind{kStringKind(), kObjectKind(), kArrayKind(), kAnyKind(), kUnionKind(), kIntegerKind(), kCustomKind(), kFileKind()}
	k := &ks[sym.Choice("kind", len(ks))]
	names := []string{"", "x", "(a)", "default", "enum", "example", "examples", "facets", "xml", "properties", "items", "type", "required", "description"}
	n := cyclic("c")
	if i := sym.Choice("facet", len(names)); i > 0 {
		n = mapNode(strNode(names[i]), n)
		if names[i] != "type" {
			n.Content = append([]*yaml.Node{strNode("type"), exprNode(k)}, n.Content...)
		}
	}
	survive(false, &wilds{}, mapNode(strNode("types"), mapNode(strNode("T"), n)))
}
