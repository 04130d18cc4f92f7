//go:build go1.21

package h

import (
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// ---- long texts, long names, many entries, deep nesting ----

// Reset: the harnesses' own state before a run.
func Reset() {
	slim, textMax, pad, namePad, numerous = false, 2, "", "", 0
	each = 2
}

// grown makes every longer text begin with n and every longer name with 200
// given characters.
func grown(n int) {
	pad, namePad = filler(n), filler(200)
}

func filler(n int) string {
	var b []byte
	for i := 0; len(b) < n; i++ {
		b = append(b, "word, "...)
		b = append(b, byte('a'+i%26), byte('a'+i/26%26), byte('0'+i%10), ' ')
	}
	return string(b)
}

func amount() int {
	if sym.Bool("long") {
		return 5000
	}
	return 300
}

// any one facet of long texts.
func longFacet(k *kind) (map[int]fv, []fv) {
	slim = true
	grown(amount())
	i := sym.Choice("facet", len(k.facets))
	have := map[int]fv{i: k.facets[i].parsed("v")}
	return have, valuesOf(have)
}

func c07long(k kind) {
	have, fs := longFacet(&k)
	checkAll(&k, parseTypeNode(declare(&k, fs, 0)), have, "read")
	sym.Reached("end")
}

func c09long(k kind) {
	have, fs := longFacet(&k)
	w := writeType(parseTypeNode(declare(&k, fs, 0)))
	checkAll(&k, parseTypeNode(w), have, "read again")
	sym.Reached("end")
}

func longBuilt(k *kind) (raml.DataType, map[int]fv) {
	slim = true
	grown(amount())
	t, have := parseTypeNode(exprNode(k)), map[int]fv{}
	i := sym.Choice("facet", len(k.facets))
	sym.Assume(k.facets[i].built != nil)
	v := k.facets[i].built("v")
	v.set(t)
	have[i] = v
	return t, have
}

func c08long(k kind) {
	t, have := longBuilt(&k)
	assertWrittenType(writeType(t), &k, valuesOf(have), "written")
	sym.Reached("end")
}

func c13long(k kind) {
	t, have := longBuilt(&k)
	checkAll(&k, t, have, "after the call")
	sym.Reached("end")
}

// c10long: an example with one entry of long texts and a value.
func c10long(k kind) {
	slim = true
	grown(amount())
	st := exState{have: map[int]ev{}}
	n := mapNode()
	i := sym.Choice("entry", len(k.ex.facets))
	f := k.ex.facets[i].parsed("f")
	st.have[i] = f
	in, out, ck := k.ex.parsed("val")
	st.val, st.ck = out, ck
	n.Content = append(n.Content, strNode(f.name), f.in, strNode("value"), in)
	named, name := sym.Bool("named"), namePad+"x"
	key, d := "example", n
	if named {
		key, d = "examples", mapNode(strNode(name), n)
	}
	t := parseTypeNode(mapNode(strNode("type"), strNode(k.expr), strNode(key), d))
	st.check(&k, exampleAt(&k, t, named, name), "read")
	w := expandedOnly(&st, writtenExample(t, named, name))
	if w == nil {
		return
	}
	st.written(w, "written")
	st.check(&k, exampleAt(&k, parseTypeNode(writeType(t)), named, name), "read again")
	sym.Reached("end")
}

// expandedOnly: nil when the example is written as a bare mapping (see
// c10bare).
func expandedOnly(st *exState, w *yaml.Node) *yaml.Node {
	if w.Kind == yaml.MappingNode && st.val != nil && w == st.val {
		return nil
	}
	return w
}

// secLong: any one entry of long texts.
func secLong[D any](kit docKit[D]) {
	slim = true
	grown(amount())
	st := state[D]{kit: &kit, have: map[int]sv[D]{}}
	n := mapNode()
	st.add(n, sym.Choice("entry", len(kit.sections)), "v0")
	roundTrip(&st, n)
}

func secLongSet[D any](kit docKit[D]) {
	slim = true
	grown(amount())
	st := &state[D]{kit: &kit, have: map[int]sv[D]{}}
	d := kit.fresh()
	i := sym.Choice("entry", len(kit.sections))
	sym.Assume(kit.sections[i].built != nil)
	v := kit.sections[i].built("v")
	v.set(d)
	st.have[i] = v
	st.check(d, "after the call")
	sym.Reached("end")
}

func C11_long()          { secLong(kitAPI()) }
func C11_docsLong()      { secLong(kitDoc()) }
func C12_long()          { secLong(kitLib()) }
func C13_apiLong()       { secLongSet(kitAPI()) }
func C13_libraryLong()   { secLongSet(kitLib()) }
func C13_documentsLong() { secLongSet(kitDoc()) }
func C13_xmlLong()       { secLongSet(kitXML("string")) }
func c17long(k kind)     { secLong(kitXML(k.expr)) }

// many entries in every table and list.
func c18typeMany(k kind) {
	numerous = plenty()
	c18type(k)
}

func c18exampleMany(k kind) {
	numerous = plenty()
	c18example(k)
}

func c18listsMany(k kind) {
	numerous = 70
	c18lists(k)
}

func C18_apiTablesMany()     { numerous = plenty(); C18_apiTables() }
func C18_libraryTablesMany() { numerous = plenty(); C18_libraryTables() }
func C18_docsTablesMany()    { numerous = plenty(); C18_docsTables() }
func C18_apiListsMany()      { numerous = 100; C18_apiLists() }
func C18_documentsMany()     { numerous = 70; C18_apiDocumentation() }
func C18_innerMany()         { numerous = plenty(); C18_inner() }

// C06_long: expressions of any length, also with the bar far from the start.
func C06_long() {
	s := filler(300)
	switch sym.Choice("bar", 4) {
	case 1:
		s = "|" + s
	case 2:
		s += "|"
	case 3:
		s = s[:130] + " | " + s[130:]
	}
	s += sym.String("rest", 4)
	n := strNode(s)
	if sym.Bool("expanded") {
		n = mapNode(strNode("displayName"), strNode("x"), strNode("type"), n)
	}
	t := parseAt2(sym.Choice("place", places+1), n)
	sym.Assert(t.Type() == s && t.Schema() == s, "the expression is kept")
	sym.Assert(t.Kind() == kindOf(s), "the expression determines the kind")
	isType(t, t.Kind())
	if w := writeType(t); n.Kind == yaml.MappingNode {
		assertEntries(w, []want{{"type", strNode(s), false}, {"displayName", strNode("x"), false}}, "written")
	} else {
		assertTree(w, n, "the expression is written back")
	}
	sym.Reached("end")
}

// longKey: an unknown name that is long, or that begins with a known one.
func longKey(names []string) string {
	s := filler(200)
	if i := sym.Choice("like", len(names)+1); i < len(names) {
		s = names[i] + s
	}
	return s + sym.String("rest", 3)
}

// c14long: unknown entries of long names.
func c14long(k kind) {
	slim = true
	names := []string{"type", "schema", "x"}
	x := -1
	for i := range k.facets {
		switch k.facets[i].name {
		case "(annotation)":
		case "unknown":
			x = i
		default:
			names = append(names, k.facets[i].name)
		}
	}
	key, n := longKey(names), mapNode(strNode("k"+filler(300)), strNode(filler(5000)+sym.String("val", 3)))
	fs := []fv{{name: key, in: n, out: n, check: func(t raml.DataType, what string) {
		extraIs(t.ExtraFacets(), key, n, what)
	}}}
	have := map[int]fv{x: fs[0]}
	t := parseTypeNode(declare(&k, fs, sym.Choice("position", 2)))
	checkAll(&k, t, have, "read")
	w := writeType(t)
	assertWrittenType(w, &k, fs, "written")
	checkAll(&k, parseTypeNode(w), have, "read again")
	sym.Reached("end")
}

// manyUnknown: all of many unknown entries are kept, in order and beside a known one.
func manyUnknown(known []*yaml.Node, read func(n *yaml.Node) (extra raml.AnyMap, write func() *yaml.Node)) {
	n := mapNode()
	var names []string
	for i := 0; i < plenty(); i++ {
		names = append(names, "x"+scattered(i))
	}
	at := []int{0, 40, len(names) - 1}[sym.Choice("at", 3)]
	names[at] += "'" + sym.String("name", 3)
	val := sym.String("val", 3)
	for i, s := range names {
		v := strNode("v")
		if i == at {
			v = strNode(val)
		}
		n.Content = append(n.Content, strNode(s), v)
	}
	if sym.Bool("first") {
		n.Content = append(known, n.Content...)
	} else {
		n.Content = append(n.Content, known...)
	}
	check := func(m raml.AnyMap) {
		sym.Assert(m.Len() == len(names), "every unknown entry is kept")
		for i, s := range names {
			e := m.At(i)
			sym.Assert(e.Key == interface{}(s), "names in order")
			x, ok := e.Val.(*yaml.Node)
			sym.Assert(ok && x != nil && x.Value != "" == (i != at || val != ""), "content")
		}
		got, ok := m.Get(names[at])
		sym.Assert(ok && got.(*yaml.Node).Value == val, "the content of an unknown entry")
	}
	m, write := read(n)
	check(m)
	w := write()
	for _, s := range []string{names[at], names[30], names[len(names)-2]} {
		_, c := entry(w, s)
		sym.Assert(c == 1, "unknown entries are written")
	}
	m, _ = read(w)
	check(m)
	sym.Reached("end")
}

func C14_apiMany() {
	manyUnknown([]*yaml.Node{strNode("title"), strNode("t")}, func(n *yaml.Node) (raml.AnyMap, func() *yaml.Node) {
		d := parseAPI(n)
		return d.ExtraFacets(), func() *yaml.Node { return writeAPI(d) }
	})
}

func C14_libraryMany() {
	manyUnknown([]*yaml.Node{strNode("usage"), strNode("t")}, func(n *yaml.Node) (raml.AnyMap, func() *yaml.Node) {
		d := parseLib(n)
		return d.ExtraFacets(), func() *yaml.Node { return writeLib(d) }
	})
}

func C14_documentationMany() {
	manyUnknown([]*yaml.Node{strNode("title"), strNode("t")}, func(n *yaml.Node) (raml.AnyMap, func() *yaml.Node) {
		d := parseAPI(mapNode(strNode("documentation"), seqNode(n)))
		return d.Documentation()[0].ExtraFacets(), func() *yaml.Node {
			l, _ := entry(writeAPI(d), "documentation")
			return l.Content[0]
		}
	})
}

func c14many(k kind) {
	manyUnknown([]*yaml.Node{strNode("type"), exprNode(&k)}, func(n *yaml.Node) (raml.AnyMap, func() *yaml.Node) {
		t := parseTypeNode(n)
		return t.ExtraFacets(), func() *yaml.Node { return writeType(t) }
	})
}

func c14exampleMany(k kind) {
	manyUnknown([]*yaml.Node{strNode("description"), strNode("t")}, func(n *yaml.Node) (raml.AnyMap, func() *yaml.Node) {
		t := parseTypeNode(mapNode(strNode("type"), exprNode(&k), strNode("example"), n))
		return k.ex.get(t).ExtraFacets(), func() *yaml.Node {
			e, _ := entry(writeType(t), "example")
			return e
		}
	})
}

func plenty() int { return 130 + 170*sym.Tier() }
