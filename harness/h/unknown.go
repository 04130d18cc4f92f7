//go:build go1.21

package h

import (
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// keyLen is longer than every interpreted name.
const keyLen = 22

// unknownKey: any text that is none of the names and does not begin with one
// of the prefixes.
func unknownKey(id string, names []string, prefixes string) string {
	s := sym.String(id, keyLen)
	for _, n := range names {
		sym.Assume(s != n)
	}
	for i := 0; i < len(prefixes); i++ {
		sym.Assume(s == "" || s[0] != prefixes[i])
	}
	return s
}

// c14type: an unknown facet of any name and content, at any place of a
// declaration: read, written and read again.
func c14type(k kind) {
	names := []string{"type", "schema"}
	prefixes := ""
	x := -1
	for i := range k.facets {
		switch k.facets[i].name {
		case "(annotation)":
			prefixes = "("
		case "unknown":
			x = i
		default:
			names = append(names, k.facets[i].name)
		}
	}
	key, n := unknownKey("key", names, prefixes), anyNode("val")
	fs := []fv{{name: key, in: n, out: n, check: func(t raml.DataType, what string) {
		extraIs(t.ExtraFacets(), key, n, what)
	}}}
	have := map[int]fv{x: fs[0]}
	place := sym.Choice("place", places)
	t := parseAt(place, declare(&k, fs, sym.Choice("position", 2)))
	checkAll(&k, t, have, "read")
	w := writeType(t)
	assertWrittenType(w, &k, fs, "written")
	checkAll(&k, parseTypeNode(w), have, "read again")
	sym.Reached("end")
}

// C14_implied: an unknown facet does not change the kind of a declaration
// without a type expression.
func C14_implied() {
	k := kStringKind()
	names := []string{"type", "schema", "items", "properties"}
	for i := range k.facets {
		names = append(names, k.facets[i].name)
	}
	key, n := unknownKey("key", names, "("), anyNode("val")
	t := parseAt(sym.Choice("place", places), mapNode(strNode(key), n))
	sym.Assert(t.Kind() == rmeta.TypeString && t.Type() == "string", "the kind")
	extraIs(t.ExtraFacets(), key, n, "read")
	assertEntries(writeType(t), []want{{"type", strNode("string"), false}, {key, n, false}}, "written")
	sym.Reached("end")
}

// c14example: an unknown entry of an expanded example, single or named.
func c14example(k kind) {
	slim = true
	known := []string{"displayName", "description", "strict", "value"}
	key := unknownKey("key", known, "(")
	if sym.Bool("extended") {
		key = longKey(known)
	}
	n := anyNode("val")
	st := exState{have: map[int]ev{}}
	in, out, ck := k.ex.parsed("v")
	st.val, st.ck = out, ck
	for i := range k.ex.facets {
		if k.ex.facets[i].name == "unknown" {
			st.have[i] = ev{name: key, in: n, out: n, check: func(e raml.Example, what string) {
				extraIs(e.ExtraFacets(), key, n, what)
			}}
		}
	}
	d := mapNode(strNode(key), n, strNode("value"), in)
	if sym.Bool("after") {
		d = mapNode(strNode("value"), in, strNode(key), n)
	}
	named := sym.Bool("named")
	name, at := "N", "example"
	if named {
		d, at = mapNode(strNode(name), d), "examples"
	}
	t := parseTypeNode(mapNode(strNode("type"), strNode(k.expr), strNode(at), d))
	st.check(&k, exampleAt(&k, t, named, name), "read")
	st.written(writtenExample(t, named, name), "written")
	again := parseTypeNode(writeType(t))
	st.check(&k, exampleAt(&k, again, named, name), "read again")
	sym.Reached("end")
}

// c14doc: an unknown entry of a document, library, documentation item or of
// XML settings, together with any other entry.
func c14doc[D any](kit docKit[D], prefixes string, extra []string) {
	slim = true
	x := -1
	names := extra
	for i := range kit.sections {
		if kit.sections[i].name == "unknown" {
			x = i
		} else if c := kit.sections[i].name[0]; c != '(' && c != '/' {
			names = append(names, kit.sections[i].name)
		}
	}
	key, n := unknownKey("key", names, prefixes), anyNode("val")
	extended := sym.Bool("extended")
	if extended {
		key, n = longKey(append([]string{"type"}, names...)), strNode(filler(5000)+sym.String("text", 3))
	}
	st := state[D]{kit: &kit, have: map[int]sv[D]{}}
	v := kit.sections[x].parsed("unused")
	old := v.check
	v.name, v.in, v.out = key, n, n
	v.check = old
	if ex := extrasOf[D](kit); ex != nil {
		v.check = func(d D, what string) { extraIs(ex(d), key, n, what) }
	} else {
		v.check = func(d D, what string) {}
	}
	st.have[x] = v
	doc := mapNode(strNode(key), n)
	if extended {
		roundTrip(&st, doc)
		return
	}
	if i := sym.Choice("other", len(kit.sections)+1); i < len(kit.sections) {
		sym.Assume(i != x)
		st.add(doc, i, "o")
		if sym.Bool("before") {
			c := doc.Content
			doc.Content = []*yaml.Node{c[2], c[3], c[0], c[1]}
		}
	}
	roundTrip(&st, doc)
}

func extrasOf[D any](kit docKit[D]) func(d D) raml.AnyMap {
	return func(d D) raml.AnyMap {
		return interface{}(d).(interface{ ExtraFacets() raml.AnyMap }).ExtraFacets()
	}
}

func C14_api()     { c14doc(kitAPI(), "(/", nil) }
func C14_library() { c14doc(kitLib(), "(", nil) }
func C14_docs()    { c14doc(kitDoc(), "", nil) }

// C14_xml: the settings have no accessor for unknown entries; they are seen
// when written.
func C14_xml() {
	kit := kitXML("string")
	key := unknownKey("key", []string{"attribute", "wrapped", "name", "namespace", "prefix"}, "")
	n := anyNode("val")
	s := anyText("s")
	w := kit.write(kit.read(mapNode(strNode(key), n, strNode("prefix"), strNode(s))))
	assertEntries(w, []want{{key, n, false}, {"prefix", strNode(s), false}}, "written")
	w = kit.write(kit.read(w))
	assertEntries(w, []want{{key, n, false}, {"prefix", strNode(s), false}}, "written again")
	sym.Reached("end")
}

// scalarKey: a key that is not a text. It is kept as its value or its text.
func scalarKey(id string) (k *yaml.Node, is func(key interface{}) bool) {
	switch sym.Choice(id+".kind", 2) {
	case 0:
		v := sym.Int64(id)
		return intNode(v), func(key interface{}) bool { return key == interface{}(v) || key == interface{}(sym.IntText(v)) }
	default:
		b := sym.Bool(id)
		return boolNode(b), func(key interface{}) bool { return key == interface{}(b) || key == interface{}(boolNode(b).Value) }
	}
}

// c14scalar: entries of documents whose key is a number or a boolean.
func c14scalar[D comparable](kit docKit[D]) {
	k, is := scalarKey("key")
	n := anyNode("val")
	d := kit.read(mapNode(k, n))
	m := extrasOf(kit)(d)
	sym.Assert(m.Len() == 1 && is(m.At(0).Key), "the entry is kept under its key")
	assertTree(sym.NodeTree(m.At(0).Val), n, "the entry's content is kept")
	w := kit.write(d)
	found := 0
	for i := 0; i+1 < len(w.Content); i += 2 {
		if w.Content[i].Value == k.Value {
			assertTree(w.Content[i+1], n, "the content is written")
			found++
		}
	}
	sym.Assert(found == 1, "the entry is written once")
	for i := range kit.sections {
		if kit.sections[i].name != "unknown" {
			kit.sections[i].absent(d, "read")
		}
	}
	sym.Reached("end")
}

func C14_apiScalarKeys()     { c14scalar(kitAPI()) }
func C14_libraryScalarKeys() { c14scalar(kitLib()) }
func C14_docsScalarKeys()    { c14scalar(kitDoc()) }

// resource content: anything whatever, to a greater depth.
func C14_resources() {
	slim = false
	a, b := "/"+sym.String("a", 5), "/"+sym.String("b", 5)
	sym.Assume(a != b)
	na := mapNode(strNode("get"), anyNode("x"), strNode("(ann"), seqNode(anyNode("y"), mapNode(strNode("/sub"), anyNode("z"))))
	nb := anyNode("w")
	doc := mapNode(strNode(a), na, strNode("title"), strNode("t"), strNode(b), nb)
	d := parseAPI(doc)
	for i := 0; i < 2; i++ {
		untypedIs(d.Resources(), mapNode(strNode(a), na, strNode(b), nb), "read")
		v, ok := d.Resources().Get(b)
		sym.Assert(ok, "a resource is found by its name")
		assertTree(sym.NodeTree(v), nb, "a resource is found by its name")
		sym.Assert(d.ExtraFacets().Len() == 0 && d.Annotations().Len() == 0, "read: nothing else")
		w := writeAPI(d)
		assertEntries(w, []want{{"title", strNode("t"), false}, {a, na, false}, {b, nb, false}}, "written")
		d = parseAPI(w)
	}
	sym.Reached("end")
}

// annotated: a declaration with the given annotations, at every level that
// has them.
const annLevels = 4

func annotated(level int, entries ...*yaml.Node) (doc *yaml.Node, lib bool) {
	t := func(n *yaml.Node) *yaml.Node { return mapNode(strNode("types"), mapNode(strNode("T"), n)) }
	m := func(kv ...*yaml.Node) *yaml.Node { return mapNode(append(kv, entries...)...) }
	switch level {
	case 0:
		return m(strNode("title"), strNode("t")), false
	case 1:
		return m(), true
	case 2:
		return t(m(strNode("type"), strNode("string"))), true
	default:
		return t(mapNode(strNode("type"), strNode("string"), strNode("example"), m(strNode("value"), strNode("v")))), true
	}
}

func annotationsOf(level int, doc *yaml.Node) (raml.AnnotationMap, *yaml.Node) {
	if level == 0 {
		a := parseAPI(doc)
		return a.Annotations(), writeAPI(a)
	}
	l := parseLib(doc)
	w := writeLib(l)
	switch level {
	case 1:
		return l.Annotations(), w
	case 2:
		return theType(l.Types(), "T").(raml.StringType).Annotations(), w.Content[1].Content[1]
	default:
		v, _ := entry(w.Content[1].Content[1], "example")
		return theType(l.Types(), "T").(raml.StringType).Example().Annotations(), v
	}
}

// C14_annotations: any two annotations with any content, at every level.
func C14_annotations() {
	slim = false
	level := sym.Choice("level", annLevels)
	a, b := "("+sym.String("a", 4), "("+sym.String("b", 4)
	sym.Assume(a != b)
	na, nb := annBody("na"), annBody("nb")
	doc, _ := annotated(level, strNode(a), na, strNode(b), nb)
	m, w := annotationsOf(level, doc)
	sym.Assert(m.Len() == 2, "two annotations")
	annIs(m, 0, a, na, "first annotation")
	annIs(m, 1, b, nb, "second annotation")
	assertKept(w, a, na)
	assertKept(w, b, nb)
	sym.Reached("end")
}

func assertKept(w *yaml.Node, name string, n *yaml.Node) {
	v, c := entry(w, name)
	sym.Assert(c == 1, "an annotation is written once")
	assertTree(v, n, "an annotation is written unchanged")
}

// C14_annotationValues: annotations whose content is not a mapping.
func C14_annotationValues() {
	level := sym.Choice("level", annLevels)
	a := "(" + anyString("a")
	n := content("n", 1)
	sym.Assume(n.Kind != yaml.MappingNode)
	doc, lib := annotated(level, strNode(a), n)
	var err error
	if lib {
		_, err = rparse.ParseLibrary(sym.Doc(headLib, doc))
	} else {
		_, err = rparse.ParseApiDoc(sym.Doc(headAPI, doc))
	}
	sym.AssertKnown("plain-annotation", err == nil, "an annotation can have any content")
	sym.Reached("end")
}
