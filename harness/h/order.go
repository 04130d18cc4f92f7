//go:build go1.21

package h

import (
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// numerous: when set, how many entries every table and list has.
var numerous int

// names: distinct names, in any order: a few arbitrary ones, or many of which
// one is arbitrary.
func names(id, prefix string) []string {
	if numerous > 0 {
		return manyNames(id, prefix)
	}
	if sym.Bool(id + ".many") {
		return manyNames(id, prefix)
	}
	n := 3 + sym.Tier()
	var out []string
	for i := 0; i < n; i++ {
		s := prefix + sym.String(id+string(rune('0'+i)), 2)
		for _, o := range out {
			sym.Assume(s != o)
		}
		out = append(out, s)
	}
	return out
}

// count: a number of entries beyond any small constant.
func count(id string) int {
	if numerous > 0 {
		return numerous
	}
	if sym.Tier() == 0 {
		return 20
	}
	return []int{9, 20, 40}[sym.Choice(id+".count", 3)]
}

func manyNames(id, prefix string) (out []string) {
	n := count(id)
	at := n - 1
	if numerous == 0 {
		at = []int{0, 7, n - 1}[sym.Choice(id+".at", 3)]
	}
	for i := 0; i < n; i++ {
		if i == at && numerous > 0 {
			out = append(out, prefix+"zz"+sym.String(id+".one", 2))
		} else if i == at {
			s := sym.String(id+".one", 4)
			for j := 0; j < n; j++ {
				sym.Assume(s != scattered(j))
			}
			out = append(out, prefix+s)
		} else {
			out = append(out, prefix+scattered(i))
		}
	}
	return
}

// entryOf is one reported entry of a table.
type entryOf struct {
	key string
	val *yaml.Node // nil: not compared
}

func inOrder(got []entryOf, want []string, vals []*yaml.Node, what string) {
	sym.Assert(len(got) == len(want), what+": every name is reported exactly once")
	for i := range want {
		sym.Assert(got[i].key == want[i], what+": the order of declaration")
		if got[i].val != nil {
			assertTree(got[i].val, vals[i], what+": the entry's content")
		}
	}
}

// writtenOrder: the entries of the names are written in their order.
func writtenOrder(n *yaml.Node, want []string, vals []*yaml.Node, what string) {
	sym.Assert(n != nil && n.Kind == yaml.MappingNode, what+": a mapping is written")
	at := 0
	for i := 0; i+1 < len(n.Content); i += 2 {
		if at < len(want) && n.Content[i].Value == want[at] {
			assertTree(n.Content[i+1], vals[at], what+": the written content")
			at++
			continue
		}
		for _, w := range want {
			sym.Assert(n.Content[i].Value != w, what+": written in the order of declaration, once each")
		}
	}
	sym.Assert(at == len(want), what+": every name is written")
}

func untypedEntries(m raml.UntypedMap) (out []entryOf) {
	i := 0
	m.ForEach(func(k string, v interface{}) {
		out = append(out, entryOf{k, sym.NodeTree(v)})
		e := m.At(i)
		sym.Assert(e.Key == k, "positional access agrees with the iteration")
		i++
	})
	return
}

func anyEntries(m raml.AnyMap) (out []entryOf) {
	m.ForEach(func(k, v interface{}) { out = append(out, entryOf{k.(string), sym.NodeTree(v)}) })
	return
}

func annEntries(m raml.AnnotationMap) (out []entryOf) {
	i := 0
	m.ForEach(func(k string, v raml.Annotation) {
		out = append(out, entryOf{k, sym.NodeTree(v)})
		sym.Assert(m.At(i).Key == k, "positional access agrees with the iteration")
		i++
	})
	return
}

func stringEntries(m raml.StringMap) (out []entryOf) {
	m.ForEach(func(k, v string) { out = append(out, entryOf{k, strNode(v)}) })
	return
}

func typeEntries(m raml.DataTypeMap) (out []entryOf) {
	i := 0
	m.ForEach(func(k string, v raml.DataType) {
		out = append(out, entryOf{k, strNode(v.Type())})
		sym.Assert(m.At(i).Key == k, "positional access agrees with the iteration")
		i++
	})
	return
}

func propEntries(m raml.PropertyMap) (out []entryOf) {
	m.ForEach(func(k string, v raml.Property) { out = append(out, entryOf{k, strNode(v.Type())}) })
	return
}

// table: the names with the values.
func table(ns []string, vs []*yaml.Node) *yaml.Node {
	n := mapNode()
	for i := range ns {
		n.Content = append(n.Content, strNode(ns[i]), vs[i])
	}
	return n
}

func anyNodes(id string, n int) (out []*yaml.Node) {
	for i := 0; i < n; i++ {
		out = append(out, anyNode(id+string(rune('0'+i))))
	}
	return
}

var someTypes = []string{"string", "Cust", "integer", "object", "a|b", "nil", "any", "array", "boolean",
	"date-only", "datetime", "datetime-only", "file", "number", "time-only"}

// typeNodes: expressions of any kinds, in several successions.
func typeNodes(n int) (out []*yaml.Node) {
	m := len(someTypes)
	at := sym.Choice("firstType", m)
	step := []int{1, m - 1, 0, 4}[sym.Choice("nextType", 4)]
	for i := 0; i < n; i++ {
		out = append(out, strNode(someTypes[(at+i*step)%m]))
	}
	return
}

func textNodes(id string, n int) (out []*yaml.Node) {
	for i := 0; i < n; i++ {
		s := "t" + string(rune('0'+i%64))
		if numerous == 0 || i == numerous-1 {
			s = sym.String(id+string(rune('0'+i)), 2)
		}
		out = append(out, strNode(s))
	}
	return
}

func annNodes(id string, n int) (out []*yaml.Node) {
	for i := 0; i < n; i++ {
		out = append(out, mapNode(strNode("k"), anyNode(id+string(rune('0'+i)))))
	}
	return
}

// docTable: one ordered table of a document.
type docTable[D any] struct {
	name   string // section, or "" for entries of the document itself
	prefix string
	vals   func(n int) []*yaml.Node
	get    func(d D) []entryOf
}

func untypedTable[D any](name string, get func(D) raml.UntypedMap) docTable[D] {
	return docTable[D]{name, "", func(n int) []*yaml.Node { return anyNodes("v", n) },
		func(d D) []entryOf { return untypedEntries(get(d)) }}
}

func apiTables() []docTable[raml.APISpec] {
	type D = raml.APISpec
	return []docTable[D]{
		untypedTable[D]("traits", D.Traits),
		untypedTable[D]("resourceTypes", D.ResourceTypes),
		untypedTable[D]("annotationTypes", D.AnnotationTypes),
		untypedTable[D]("securitySchemes", D.SecuritySchemes),
		untypedTable[D]("baseUriParameters", D.BaseURIParameters),
		{"types", "", typeNodes, func(d D) []entryOf { return typeEntries(d.Types()) }},
		{"uses", "", func(n int) []*yaml.Node { return textNodes("v", n) }, func(d D) []entryOf { return stringEntries(d.Uses()) }},
		{"", "(", func(n int) []*yaml.Node { return annNodes("v", n) }, func(d D) []entryOf { return annEntries(d.Annotations()) }},
		{"", "/", func(n int) []*yaml.Node { return anyNodes("v", n) }, func(d D) []entryOf { return untypedEntries(d.Resources()) }},
		{"", "q", func(n int) []*yaml.Node { return anyNodes("v", n) }, func(d D) []entryOf { return anyEntries(d.ExtraFacets()) }},
	}
}

func libTables() []docTable[raml.Library] {
	type D = raml.Library
	return []docTable[D]{
		untypedTable[D]("traits", D.Traits),
		untypedTable[D]("resourceTypes", D.ResourceTypes),
		untypedTable[D]("annotationTypes", D.AnnotationTypes),
		untypedTable[D]("securitySchemes", D.SecuritySchemes),
		{"types", "", typeNodes, func(d D) []entryOf { return typeEntries(d.Types()) }},
		{"uses", "", func(n int) []*yaml.Node { return textNodes("v", n) }, func(d D) []entryOf { return stringEntries(d.Uses()) }},
		{"", "(", func(n int) []*yaml.Node { return annNodes("v", n) }, func(d D) []entryOf { return annEntries(d.Annotations()) }},
		{"", "q", func(n int) []*yaml.Node { return anyNodes("v", n) }, func(d D) []entryOf { return anyEntries(d.ExtraFacets()) }},
	}
}

func docTables() []docTable[raml.Documentation] {
	type D = raml.Documentation
	return []docTable[D]{
		{"", "q", func(n int) []*yaml.Node { return anyNodes("v", n) }, func(d D) []entryOf { return anyEntries(d.ExtraFacets()) }},
	}
}

// c18tables: any names, in any table, with other sections between.
func c18tables[D any](kit docKit[D], ts []docTable[D], other string) {
	t := ts[sym.Choice("table", len(ts))]
	ns := names("n", t.prefix)
	vs := t.vals(len(ns))
	doc := mapNode(strNode(other), strNode("x"))
	if t.name != "" {
		doc.Content = append(doc.Content, strNode(t.name), table(ns, vs))
	} else {
		c := table(ns, vs).Content
		doc.Content = append(append(append([]*yaml.Node{}, c[:2]...), doc.Content...), c[2:]...)
	}
	d := kit.read(doc)
	for i := 0; i < 2; i++ {
		inOrder(t.get(d), ns, vs, "read")
		w := kit.write(d)
		part := w
		if t.name != "" {
			part, _ = entry(w, t.name)
		}
		writtenOrder(part, ns, vs, "written")
		d = kit.read(w)
	}
	sym.Reached("end")
}

// c18twice: a name that is declared twice is reported once.
func c18twice[D any](kit docKit[D], ts []docTable[D]) {
	t := ts[sym.Choice("table", len(ts))]
	a, b := t.prefix+anyString("a"), t.prefix+anyString("b")
	sym.Assume(a != b)
	vs := t.vals(3)
	ns := []string{a, a, a}
	i := sym.Choice("where", 3)
	ns[i] = b
	d := table(ns, vs)
	if t.name != "" {
		d = mapNode(strNode(t.name), d)
	}
	got := t.get(kit.read(d))
	sym.Assert(len(got) == 2, "every name is reported exactly once")
	sym.Assert((got[0].key == a && got[1].key == b) || (got[0].key == b && got[1].key == a), "the names are reported")
	sym.Reached("end")
}

func C18_apiTables()     { c18tables(kitAPI(), apiTables(), "title") }
func C18_libraryTables() { c18tables(kitLib(), libTables(), "usage") }
func C18_docsTables()    { c18tables(kitDoc(), docTables(), "title") }
func C18_apiTwice()      { c18twice(kitAPI(), apiTables()) }
func C18_libraryTwice()  { c18twice(kitLib(), libTables()) }

// size: a few elements or many.
func size(id string) int {
	if numerous > 0 {
		return numerous
	}
	if sym.Bool(id + ".many") {
		return count(id)
	}
	return 3 + sym.Tier()
}

// texts: any texts, repeated or not.
func texts(id string) (out []string, n *yaml.Node) {
	n = seqNode()
	for i, m := 0, size(id); i < m; i++ {
		if s := "t" + string(rune('0'+i%64)); numerous > 0 && i < numerous-1 {
			out = append(out, s)
		} else {
			out = append(out, sym.String(id+string(rune('0'+i)), 2))
		}
		n.Content = append(n.Content, strNode(out[i]))
	}
	return
}

// C18_apiLists: the lists of an API document.
func C18_apiLists() {
	ls := []struct {
		name string
		get  func(raml.APISpec) []string
	}{
		{"protocols", raml.APISpec.Protocols},
		{"mediaType", raml.APISpec.MediaTypes},
		{"securedBy", raml.APISpec.SecuredBy},
	}
	l := ls[sym.Choice("list", len(ls))]
	ts, n := texts("t")
	d := parseAPI(mapNode(strNode(l.name), n))
	for i := 0; i < 2; i++ {
		got := l.get(d)
		sym.Assert(len(got) == len(ts), "every element is reported")
		for j := range ts {
			sym.Assert(got[j] == ts[j], "the elements are reported in order")
		}
		w := writeAPI(d)
		v, c := entry(w, l.name)
		sym.Assert(c == 1, "the list is written")
		assertTree(v, n, "the list is written in order")
		d = parseAPI(w)
	}
	sym.Reached("end")
}

// C18_apiDocumentation: the documentation items.
func C18_apiDocumentation() {
	n := seqNode()
	var cks []func(raml.Documentation, string)
	for i, m := 0, size("n"); i < m; i++ {
		in, ck := docItem(string(rune('a' + i)))
		n.Content = append(n.Content, in)
		cks = append(cks, ck)
	}
	d := parseAPI(mapNode(strNode("documentation"), n))
	for i := 0; i < 2; i++ {
		eachOf(cks)(d.Documentation(), "documentation")
		w := writeAPI(d)
		v, c := entry(w, "documentation")
		sym.Assert(c == 1 && v.Kind == yaml.SequenceNode && len(v.Content) == len(cks), "the items are written")
		for j := range cks {
			assertEntries(v.Content[j], []want{
				{"title", n.Content[j].Content[1], false}, {"content", n.Content[j].Content[3], false}}, "written item")
		}
		d = parseAPI(w)
	}
	sym.Reached("end")
}

// ---- types ----

// typeTable: one ordered table of a type.
type typeTable struct {
	name   string // facet, or "" for entries of the declaration itself
	prefix string
	vals   func(n int) []*yaml.Node
	get    func(t raml.DataType) []entryOf
}

type annotated_ interface{ Annotations() raml.AnnotationMap }
type faceted_ interface{ FacetDefinitions() raml.FacetMap }

func typeTables(k *kind) []typeTable {
	ts := []typeTable{
		{"", "(", func(n int) []*yaml.Node { return annNodes("v", n) },
			func(t raml.DataType) []entryOf { return annEntries(t.(annotated_).Annotations()) }},
		{"", "q", func(n int) []*yaml.Node { return anyNodes("v", n) },
			func(t raml.DataType) []entryOf { return anyEntries(t.ExtraFacets()) }},
		{"facets", "", func(n int) (out []*yaml.Node) {
			for _, t := range typeNodes(n) {
				out = append(out, mapNode(strNode("x"), t))
			}
			return
		}, func(t raml.DataType) (out []entryOf) {
			t.(faceted_).FacetDefinitions().ForEach(func(k string, v raml.Facet) {
				out = append(out, entryOf{k, mapNode(strNode("x"), strNode(v.At(0).Val.Type()))})
			})
			return
		}},
		{"examples", "", func(n int) (out []*yaml.Node) {
			for i := 0; i < n; i++ {
				d := string(rune('0' + i%70))
				if numerous == 0 {
					d += sym.String("d"+d, 1)
				}
				out = append(out, mapNode(strNode("description"), strNode(d)))
			}
			return
		}, func(t raml.DataType) (out []entryOf) {
			for _, e := range k.ex.named(t) {
				x := e.ex.Description()
				sym.Assert(x.IsPresent(), "the named example is read")
				out = append(out, entryOf{e.name, mapNode(strNode("description"), strNode(x.Get()))})
			}
			return
		}},
	}
	if k.expr == "object" {
		ts = append(ts, typeTable{"properties", "", typeNodes,
			func(t raml.DataType) []entryOf { return propEntries(t.(raml.ObjectType).Properties()) }})
	}
	return ts
}

// c18type: any names in any table of a type.
func c18type(k kind) {
	ts := typeTables(&k)
	t := ts[sym.Choice("table", len(ts))]
	ns := names("n", t.prefix)
	vs := t.vals(len(ns))
	doc := mapNode(strNode("type"), strNode(k.expr))
	if t.name != "" {
		doc.Content = append(doc.Content, strNode(t.name), table(ns, vs))
	} else {
		c := table(ns, vs).Content
		doc.Content = append(append(append([]*yaml.Node{}, c[:2]...), doc.Content...), c[2:]...)
	}
	d := parseTypeNode(doc)
	for i := 0; i < 2; i++ {
		inOrder(t.get(d), ns, vs, "read")
		w := writeType(d)
		part := w
		if t.name != "" {
			part, _ = entry(w, t.name)
		}
		writtenOrder(part, ns, vs, "written")
		d = parseTypeNode(w)
	}
	sym.Reached("end")
}

// c18twiceType: a name that is declared twice is reported once.
func c18twiceType(k kind) {
	ts := typeTables(&k)
	t := ts[sym.Choice("table", len(ts))]
	a, b := t.prefix+anyString("a"), t.prefix+anyString("b")
	sym.Assume(a != b)
	ns := []string{a, a, a}
	ns[sym.Choice("where", 3)] = b
	doc := table(ns, t.vals(3))
	if t.name != "" {
		doc = mapNode(strNode(t.name), doc)
	}
	doc.Content = append(doc.Content, strNode("type"), strNode(k.expr))
	got := t.get(parseTypeNode(doc))
	sym.Assert(len(got) == 2, "every name is reported exactly once")
	sym.Assert((got[0].key == a && got[1].key == b) || (got[0].key == b && got[1].key == a), "the names are reported")
	sym.Reached("end")
}

// c18lists: three and more elements of any list of a type.
func c18lists(k kind) {
	slim = true
	i := sym.Choice("facet", len(k.facets))
	f := &k.facets[i]
	n := seqNode()
	var check func(t raml.DataType, what string)
	switch f.name {
	case "enum", "default", "fileTypes":
		check = longList(&k, f.name, n)
	default:
		sym.Assume(false)
	}
	sym.Assume(check != nil)
	t := parseTypeNode(mapNode(strNode("type"), strNode(k.expr), strNode(f.name), n))
	check(t, "read")
	w := writeType(t)
	v, c := entry(w, f.name)
	sym.Assert(c == 1, "the list is written")
	assertTree(v, n, "the list is written in order")
	check(parseTypeNode(w), "read again")
	sym.Reached("end")
}

func longList(k *kind, name string, n *yaml.Node) func(raml.DataType, string) {
	switch k.expr {
	case "string":
		return lists[raml.StringType](name, n, strClass, raml.StringType.Enum)
	case "date-only":
		return lists[raml.DateOnlyType](name, n, strClass, raml.DateOnlyType.Enum)
	case "time-only":
		return lists[raml.TimeOnlyType](name, n, strClass, raml.TimeOnlyType.Enum)
	case "datetime":
		return lists[raml.DatetimeType](name, n, strClass, raml.DatetimeType.Enum)
	case "datetime-only":
		return lists[raml.DatetimeOnlyType](name, n, strClass, raml.DatetimeOnlyType.Enum)
	case "integer":
		return lists[raml.IntegerType](name, n, intClass, raml.IntegerType.Enum)
	case "number":
		return lists[raml.NumberType](name, n, floatClass, raml.NumberType.Enum)
	case "boolean":
		return lists[raml.BoolType](name, n, boolClass, raml.BoolType.Enum)
	case "any":
		return lists[raml.AnyType](name, n, anyClass, raml.AnyType.Enum)
	case "object":
		return lists[raml.ObjectType](name, n, anyClass, raml.ObjectType.Enum)
	case "Cust":
		return lists[raml.CustomType](name, n, anyClass, raml.CustomType.Enum)
	case "A | b":
		return lists[raml.UnionType](name, n, anyClass, raml.UnionType.Enum)
	case "array":
		if name == "default" {
			return lists[raml.ArrayType]("enum", n, anyClass, raml.ArrayType.Default)
		}
		return lists[raml.ArrayType](name, n, anyClass, raml.ArrayType.Enum)
	case "file":
		if name == "fileTypes" {
			return lists[raml.FileType]("enum", n, strClass, raml.FileType.FileTypes)
		}
		return lists[raml.FileType](name, n, anyClass, raml.FileType.Enum)
	}
	return nil
}

func lists[T any, V any](name string, n *yaml.Node, c vclass[V], get func(T) []V) func(raml.DataType, string) {
	if name != "enum" {
		return nil
	}
	var cks []func(V, string)
	for i, m := 0, size("n"); i < m; i++ {
		var in *yaml.Node
		var ck func(V, string)
		if _, is := any(c).(vclass[bool]); is && i > 2 {
			b := i%3 == 0
			in, ck = boolNode(b), func(got V, what string) { sym.Assert(any(got) == any(b), what) }
		} else {
			in, _, ck = c.parsed("e" + string(rune('0'+i)))
		}
		n.Content = append(n.Content, in)
		cks = append(cks, ck)
	}
	return func(t raml.DataType, what string) { eachOf(cks)(get(t.(T)), what+": "+name) }
}

// c18example: the annotations and unknown entries of an example.
func c18example(k kind) {
	slim = true
	prefix, vals := "(", annNodes
	get := func(e raml.Example) []entryOf { return annEntries(e.Annotations()) }
	if sym.Bool("unknown") {
		prefix, vals = "q", anyNodes
		get = func(e raml.Example) []entryOf { return anyEntries(e.ExtraFacets()) }
	}
	ns := names("n", prefix)
	vs := vals("v", len(ns))
	in, _, _ := k.ex.parsed("val")
	c := table(ns, vs).Content
	n := mapNode(append(append(append([]*yaml.Node{}, c[:2]...), strNode("value"), in), c[2:]...)...)
	t := parseTypeNode(mapNode(strNode("type"), strNode(k.expr), strNode("example"), n))
	for i := 0; i < 2; i++ {
		inOrder(get(k.ex.get(t)), ns, vs, "read")
		w := writeType(t)
		part, _ := entry(w, "example")
		writtenOrder(part, ns, vs, "written")
		t = parseTypeNode(w)
	}
	sym.Reached("end")
}

// C18_inner: the entries of one annotation, of one custom facet and of XML
// settings.
func C18_inner() {
	where := sym.Choice("where", 3)
	ns := names("n", "q")
	vs := anyNodes("v", len(ns))
	if where == 1 {
		vs = typeNodes(len(ns))
	}
	in := table(ns, vs)
	key := []string{"(a)", "facets", "xml"}[where]
	if where == 1 {
		in = mapNode(strNode("f"), in)
	}
	t := parseTypeNode(mapNode(strNode("type"), strNode("string"), strNode(key), in))
	for i := 0; i < 2; i++ {
		switch where {
		case 0:
			a, ok := t.(raml.StringType).Annotations().Get("(a)")
			sym.Assert(ok, "the annotation is found")
			inOrder(untypedEntries(a), ns, vs, "read")
		case 1:
			f, ok := t.(raml.StringType).FacetDefinitions().Get("f")
			sym.Assert(ok, "the facet is found")
			inOrder(typeEntries(f), ns, vs, "read")
		}
		w := writeType(t)
		part, _ := entry(w, key)
		if where == 1 {
			part, _ = entry(part, "f")
		}
		writtenOrder(part, ns, vs, "written")
		t = parseTypeNode(w)
	}
	sym.Reached("end")
}
