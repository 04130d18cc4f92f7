//go:build go1.21

package h

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// fv is one facet of a declaration, with its value.
type fv struct {
	name  string
	in    *yaml.Node // as declared (parsed facets)
	out   *yaml.Node // as written
	may   bool       // may also be left out when written
	never bool       // is not written
	set   func(t raml.DataType)
	check func(t raml.DataType, what string)
}

// facet: everything about one facet of one kind of type.
type facet struct {
	name   string
	parsed func(id string) fv
	built  func(id string) fv // nil: no setter
	unset  func(t raml.DataType)
	absent func(t raml.DataType, what string)
	bad    func(id string) *yaml.Node
	setNil func(t raml.DataType)     // setting nil, if possible
	multi  func(id string, n int) mv // a table: giving n entries
	// a list: what is handed out, and setting what was (false: of another type)
	list    func(t raml.DataType) interface{}
	setList func(t raml.DataType, l interface{}) bool
}

// mv is a table of several entries and one more.
type mv struct {
	pairs  []*yaml.Node // names and content of all entries, the one more last
	nested bool         // written under the facet's name
	set    func(t raml.DataType)
	add    func(t raml.DataType)               // puts the one more
	own    func(t raml.DataType) *yaml.Node    // the table's own written form
	mode   func(t raml.DataType, ordered bool) // how the table is written by itself
	check  func(t raml.DataType, n int, what string)
}

// nth: a name that differs from the others and sorts before the earlier ones.
func nth(id string, i int) string {
	return string(rune('9'-i)) + anyString(id+string(rune('0'+i)))
}

func ownForm(n *yaml.Node, err error) *yaml.Node {
	sym.Assert(err == nil, "a table is written without error")
	return n
}

func textTable(prefix, id string, n int) (out []*yaml.Node) {
	for i := 0; i < n; i++ {
		out = append(out, strNode(prefix+nth(id, i)), strNode(anyString(id+".v"+string(rune('0'+i)))))
	}
	return
}

// kind: one kind of type.
type kind struct {
	expr   string
	kind   rmeta.DataTypeKind
	facets []facet
	mk     func() raml.DataType // public constructor, or nil
	ex     exKit
}

// extT is what all the extended types have in common.
type extT[T any] interface {
	comparable
	raml.ExtendedDataType
	SetType(string) T
	SetDisplayName(string) T
	UnsetDisplayName() T
	SetDescription(string) T
	UnsetDescription() T
	SetAnnotations(raml.AnnotationMap) T
	UnsetAnnotations() T
	SetFacetDefinitions(raml.FacetMap) T
	UnsetFacetDefinitions() T
	SetXML(raml.XML) T
	UnsetXML() T
	SetExtraFacets(raml.AnyMap) T
	UnsetExtraFacets() T
	SetRequired(bool) T
}

type opt[V any] interface {
	IsNil() bool
	IsPresent() bool
	Get() V
}

func chained[T comparable](got T, t raml.DataType) {
	sym.Assert(got == t.(T), "a setter returns the element itself")
}

func isAbsent[V any, O opt[V]](o O, what string) {
	sym.Assert(o.IsNil() && !o.IsPresent(), what+": absent")
}

// optional: a facet that is present or absent.
func optional[T comparable, V any, O opt[V]](name string, c vclass[V], get func(T) O, set func(T, V) T, unset func(T) T) facet {
	have := func(ck func(V, string)) func(t raml.DataType, what string) {
		return func(t raml.DataType, what string) {
			o := get(t.(T))
			sym.Assert(o.IsPresent() && !o.IsNil(), what+": "+name+" present")
			ck(o.Get(), what+": "+name)
		}
	}
	return facet{
		name: name,
		parsed: func(id string) fv {
			in, out, ck := c.parsed(id)
			return fv{name: name, in: in, out: out, check: have(ck)}
		},
		built: func(id string) fv {
			v, out, ck := c.built(id)
			return fv{name: name, out: out, check: have(ck), set: func(t raml.DataType) { chained(set(t.(T), v), t) }}
		},
		unset:  func(t raml.DataType) { chained(unset(t.(T)), t) },
		absent: func(t raml.DataType, what string) { isAbsent[V](get(t.(T)), what+": "+name) },
		bad:    c.bad,
	}
}

// defaulted: a facet with a documented default, which is not written.
func defaulted[T comparable, V comparable](name string, c vclass[V], def V, get func(T) V, set func(T, V) T) facet {
	return facet{
		name: name,
		parsed: func(id string) fv {
			in, out, ck := c.parsed(id)
			f := fv{name: name, in: in, out: out}
			if slim {
				sym.Assume(!isDefault(out, def))
			}
			f.check = func(t raml.DataType, what string) {
				v := get(t.(T))
				ck(v, what+": "+name)
			}
			f.never = isDefault(out, def)
			return f
		},
		built: func(id string) fv {
			v, out, ck := c.built(id)
			if slim {
				sym.Assume(v != def)
			}
			f := fv{name: name, out: out, never: v == def}
			f.set = func(t raml.DataType) { chained(set(t.(T), v), t) }
			f.check = func(t raml.DataType, what string) { ck(get(t.(T)), what+": "+name) }
			return f
		},
		absent: func(t raml.DataType, what string) {
			sym.Assert(get(t.(T)) == def, what+": "+name+" is its default")
		},
		bad: c.bad,
	}
}

// isDefault: the written value is the default's.
func isDefault(out *yaml.Node, def interface{}) bool {
	switch d := def.(type) {
	case bool:
		return out.Value == boolNode(d).Value
	case uint:
		return out.Value == sym.UintText(uint64(d))
	}
	sym.Unsupported("default")
	return false
}

// list: a list, nil when absent. An empty list may be written or not.
func list[T comparable, V any](name string, c vclass[V], get func(T) []V, set func(T, []V) T, unset func(T) T) facet {
	lc := listClass(c, 2)
	have := func(ck func([]V, string)) func(t raml.DataType, what string) {
		return func(t raml.DataType, what string) { ck(get(t.(T)), what+": "+name) }
	}
	return facet{
		name: name,
		parsed: func(id string) fv {
			in, out, ck := lc.parsed(id)
			return fv{name: name, in: in, out: out, may: len(out.Content) == 0, check: have(ck)}
		},
		built: func(id string) fv {
			v, out, ck := lc.built(id)
			return fv{name: name, out: out, may: len(v) == 0, check: have(ck),
				set: func(t raml.DataType) { chained(set(t.(T), v), t) }}
		},
		unset:  func(t raml.DataType) { chained(unset(t.(T)), t) },
		setNil: func(t raml.DataType) { chained(set(t.(T), nil), t) },
		absent: func(t raml.DataType, what string) {
			sym.Assert(len(get(t.(T))) == 0, what+": "+name+" empty")
		},
		bad:  lc.bad,
		list: func(t raml.DataType) interface{} { return get(t.(T)) },
		setList: func(t raml.DataType, l interface{}) bool {
			v, ok := l.([]V)
			if ok {
				chained(set(t.(T), v), t)
			}
			return ok
		},
	}
}

func requiredFacet[T extT[T]]() facet {
	return defaulted[T, bool]("required", boolClass, true, func(t T) bool { return raml.DataType(t).(raml.Property).Required() },
		func(t T, b bool) T { return t.SetRequired(b) })
}

// ---- annotations ----

func annName(id string) string { return "(" + anyString(id+".name") }

// annBody: the content of an annotation, a mapping of up to two entries.
func annBody(id string) *yaml.Node {
	n := mapNode()
	for i, k := 0, upto(id+".entries", 2); i < k; i++ {
		d := string(rune('0' + i))
		var key string
		if slim {
			key = d + sym.String(id+".k"+d, 1)
		} else {
			key = sym.String(id+".k"+d, 3)
			if i > 0 {
				sym.Assume(key != n.Content[0].Value)
			}
		}
		n.Content = append(n.Content, strNode(key), anyNode(id+".v"+d))
	}
	return n
}

func builtAnn(body *yaml.Node) raml.UntypedMap {
	m := raml.NewUntypedMap(0).SerializeOrdered(false)
	for i := 0; i+1 < len(body.Content); i += 2 {
		m.Put(body.Content[i].Value, body.Content[i+1])
	}
	return m
}

func annIs(m raml.AnnotationMap, i int, name string, body *yaml.Node, what string) {
	sym.Assert(m.Len() > i, what+": present")
	e := m.At(i)
	sym.Assert(e.Key == name, what+": name")
	untypedIs(e.Val, body, what)
	v, ok := m.Get(name)
	sym.Assert(ok, what+": found by name")
	untypedIs(v, body, what)
}

// untypedIs: the map holds exactly the entries of the node, in order.
func untypedIs(m raml.UntypedMap, n *yaml.Node, what string) {
	sym.Assert(m.Len() == len(n.Content)/2, what+": number of entries")
	for i := 0; i+1 < len(n.Content); i += 2 {
		e := m.At(i / 2)
		sym.Assert(e.Key == n.Content[i].Value, what+": key")
		assertTree(sym.NodeTree(e.Val), n.Content[i+1], what+": content")
	}
}

func annotations[T extT[T]]() facet {
	have := func(name string, body *yaml.Node) func(raml.DataType, string) {
		return func(t raml.DataType, what string) {
			m := t.(T).Annotations()
			sym.Assert(m.Len() == 1, what+": one annotation")
			annIs(m, 0, name, body, what+": annotation")
		}
	}
	return facet{
		name: "(annotation)",
		parsed: func(id string) fv {
			name, body := annName(id), annBody(id)
			return fv{name: name, in: body, out: body, check: have(name, body)}
		},
		built: func(id string) fv {
			name, body := annName(id), annBody(id)
			m := raml.NewAnnotationMap(0).SerializeOrdered(false).Put(name, builtAnn(body))
			ck := have(name, body)
			return fv{name: name, out: body,
				set: func(t raml.DataType) { chained(t.(T).SetAnnotations(m), t) },
				check: func(t raml.DataType, what string) {
					sym.Assert(t.(T).Annotations() == m, what+": the annotations that were set")
					ck(t, what)
				}}
		},
		unset:  func(t raml.DataType) { chained(t.(T).UnsetAnnotations(), t) },
		setNil: func(t raml.DataType) { chained(t.(T).SetAnnotations(nil), t) },
		absent: func(t raml.DataType, what string) {
			sym.Assert(t.(T).Annotations().Len() == 0, what+": no annotations")
		},
		multi: func(id string, n int) mv {
			m := raml.NewAnnotationMap(0).SerializeOrdered(false)
			ns := textTable("(", id, n+1)
			for i := 1; i < len(ns); i += 2 {
				ns[i] = mapNode(strNode("k"), ns[i])
			}
			for i := 0; i < n; i++ {
				m.Put(ns[2*i].Value, builtAnn(ns[2*i+1]))
			}
			return mv{pairs: ns,
				own:  func(raml.DataType) *yaml.Node { return ownForm(m.ToYAML()) },
				mode: func(_ raml.DataType, o bool) { m.SerializeOrdered(o) },
				set:  func(t raml.DataType) { chained(t.(T).SetAnnotations(m), t) },
				add:  func(t raml.DataType) { t.(T).Annotations().Put(ns[2*n].Value, builtAnn(ns[2*n+1])) },
				check: func(t raml.DataType, n int, what string) {
					a := t.(T).Annotations()
					sym.Assert(int(a.Len()) == n, what+": number of annotations")
					for i := 0; i < n; i++ {
						annIs(a, i, ns[2*i].Value, ns[2*i+1], what+": annotation")
					}
				}}
		},
	}
}

// ---- unknown facets ----

// extraName: a name that starts like no facet's.
func extraName(id string) string { return "q" + anyString(id+".name") }

func extras[T extT[T]]() facet {
	have := func(name string, n *yaml.Node) func(raml.DataType, string) {
		return func(t raml.DataType, what string) { extraIs(t.ExtraFacets(), name, n, what) }
	}
	return facet{
		name: "unknown",
		parsed: func(id string) fv {
			name, n := extraName(id), anyNode(id)
			return fv{name: name, in: n, out: n, check: have(name, n)}
		},
		built: func(id string) fv {
			name, n := extraName(id), anyNode(id)
			m := raml.NewAnyMap(0).SerializeOrdered(false).Put(name, n)
			ck := have(name, n)
			return fv{name: name, out: n,
				set: func(t raml.DataType) { chained(t.(T).SetExtraFacets(m), t) },
				check: func(t raml.DataType, what string) {
					sym.Assert(t.ExtraFacets() == m, what+": the unknown facets that were set")
					ck(t, what)
				}}
		},
		unset:  func(t raml.DataType) { chained(t.(T).UnsetExtraFacets(), t) },
		setNil: func(t raml.DataType) { chained(t.(T).SetExtraFacets(nil), t) },
		absent: noExtras,
		multi: func(id string, n int) mv {
			m := raml.NewAnyMap(0).SerializeOrdered(false)
			ns := textTable("q", id, n+1)
			for i := 0; i < n; i++ {
				m.Put(ns[2*i].Value, ns[2*i+1])
			}
			return mv{pairs: ns,
				own:  func(raml.DataType) *yaml.Node { return ownForm(m.ToYAML()) },
				mode: func(_ raml.DataType, o bool) { m.SerializeOrdered(o) },
				set:  func(t raml.DataType) { chained(t.(T).SetExtraFacets(m), t) },
				add:  func(t raml.DataType) { t.ExtraFacets().Put(ns[2*n].Value, ns[2*n+1]) },
				check: func(t raml.DataType, n int, what string) {
					m := t.ExtraFacets()
					sym.Assert(int(m.Len()) == n, what+": number of unknown entries")
					for i := 0; i < n; i++ {
						e := m.At(i)
						sym.Assert(e.Key == interface{}(ns[2*i].Value), what+": name of the unknown entry")
						assertTree(sym.NodeTree(e.Val), ns[2*i+1], what+": content of the unknown entry")
					}
				}}
		},
	}
}

func noExtras(t raml.DataType, what string) {
	sym.Assert(t.ExtraFacets().Len() == 0, what+": no unknown facets")
}

func extraIs(m raml.AnyMap, name string, n *yaml.Node, what string) {
	sym.Assert(m.Len() == 1, what+": one unknown entry")
	e := m.At(0)
	sym.Assert(e.Key == interface{}(name), what+": name of the unknown entry")
	assertTree(sym.NodeTree(e.Val), n, what+": content of the unknown entry")
}

// ---- custom facet definitions ----

func facetDefs[T extT[T]]() facet {
	ty := func(id string) string {
		if slim {
			return "integer"
		}
		return sym.Pick(sym.Range(id+".ty", 4), "string", "integer", "Cust", "a|b")
	}
	node := func(name, inner, expr string) *yaml.Node {
		return mapNode(strNode(name), mapNode(strNode(inner), strNode(expr)))
	}
	have := func(name, inner, expr string) func(raml.DataType, string) {
		return func(t raml.DataType, what string) {
			m := t.(T).FacetDefinitions()
			sym.Assert(m.Len() == 1, what+": one facet definition")
			e := m.At(0)
			sym.Assert(e.Key == name, what+": name of the facet definition")
			sym.Assert(e.Val.Len() == 1, what+": content of the facet definition")
			d := e.Val.At(0)
			sym.Assert(d.Key == inner, what+": content of the facet definition")
			sym.Assert(d.Val.Type() == expr, what+": type in the facet definition")
		}
	}
	return facet{
		name: "facets",
		parsed: func(id string) fv {
			a, b, x := anyString(id+".a"), anyString(id+".b"), ty(id)
			n := node(a, b, x)
			return fv{name: "facets", in: n, out: n, check: have(a, b, x)}
		},
		built: func(id string) fv {
			a, b := anyString(id+".a"), anyString(id+".b")
			d := raml.NewDataTypeMap(0).SerializeOrdered(false).Put(b, rbuild.NewIntegerDataType())
			m := raml.NewFacetMap(0).SerializeOrdered(false).Put(a, d)
			ck := have(a, b, "integer")
			return fv{name: "facets", out: node(a, b, "integer"),
				set: func(t raml.DataType) { chained(t.(T).SetFacetDefinitions(m), t) },
				check: func(t raml.DataType, what string) {
					sym.Assert(t.(T).FacetDefinitions() == m, what+": the facet definitions that were set")
					ck(t, what)
				}}
		},
		unset:  func(t raml.DataType) { chained(t.(T).UnsetFacetDefinitions(), t) },
		setNil: func(t raml.DataType) { chained(t.(T).SetFacetDefinitions(nil), t) },
		absent: func(t raml.DataType, what string) {
			sym.Assert(t.(T).FacetDefinitions().Len() == 0, what+": no facet definitions")
		},
		bad: notMap,
		multi: func(id string, n int) mv {
			m := raml.NewFacetMap(0).SerializeOrdered(false)
			ns := textTable("", id, n+1)
			ds := make([]raml.DataTypeMap, n+1)
			for i := range ds {
				inner := ns[2*i+1].Value
				ds[i] = raml.NewDataTypeMap(0).SerializeOrdered(false).Put(inner, rbuild.NewIntegerDataType())
				ns[2*i+1] = mapNode(strNode(inner), strNode("integer"))
				if i < n {
					m.Put(ns[2*i].Value, ds[i])
				}
			}
			return mv{pairs: ns, nested: true,
				own:  func(raml.DataType) *yaml.Node { return ownForm(m.ToYAML()) },
				mode: func(_ raml.DataType, o bool) { m.SerializeOrdered(o) },
				set:  func(t raml.DataType) { chained(t.(T).SetFacetDefinitions(m), t) },
				add:  func(t raml.DataType) { t.(T).FacetDefinitions().Put(ns[2*n].Value, ds[n]) },
				check: func(t raml.DataType, n int, what string) {
					m := t.(T).FacetDefinitions()
					sym.Assert(int(m.Len()) == n, what+": number of facet definitions")
					for i := 0; i < n; i++ {
						e := m.At(i)
						sym.Assert(e.Key == ns[2*i].Value && e.Val == ds[i], what+": facet definition")
					}
				}}
		},
	}
}

func notMap(id string) *yaml.Node {
	n := content(id, 1)
	sym.Assume(n.Kind != yaml.MappingNode)
	if n.Kind == yaml.ScalarNode {
		sym.Assume(n.Tag != "!include")
	}
	return n
}

// ---- xml (in full: see xml.go) ----

func xmlFacet[T extT[T]]() facet {
	have := func(s string) func(raml.DataType, string) {
		return func(t raml.DataType, what string) {
			x := t.(T).XML()
			sym.Assert(x != nil, what+": xml present")
			sym.Assert(x.Name().IsPresent() && x.Name().Get() == s, what+": xml name")
			isAbsent[string](x.Prefix(), what+": xml prefix")
			isAbsent[string](x.Namespace(), what+": xml namespace")
			isAbsent[bool](x.IsAttribute(), what+": xml attribute")
			isAbsent[bool](x.IsWrapped(), what+": xml wrapped")
		}
	}
	return facet{
		name: "xml",
		parsed: func(id string) fv {
			s := anyText(id)
			n := mapNode(strNode("name"), strNode(s))
			return fv{name: "xml", in: n, out: n, check: have(s)}
		},
		built: func(id string) fv {
			s := anyText(id)
			x := newXML().SetName(s)
			ck := have(s)
			return fv{name: "xml", out: mapNode(strNode("name"), strNode(s)),
				set: func(t raml.DataType) { chained(t.(T).SetXML(x), t) },
				check: func(t raml.DataType, what string) {
					sym.Assert(t.(T).XML() == x, what+": the xml settings that were set")
					ck(t, what)
				}}
		},
		unset:  func(t raml.DataType) { chained(t.(T).UnsetXML(), t) },
		setNil: func(t raml.DataType) { chained(t.(T).SetXML(nil), t) },
		absent: func(t raml.DataType, what string) { sym.Assert(t.(T).XML() == nil, what+": no xml") },
		bad:    notMap,
	}
}

// newXML: empty settings, through the public interface.
func newXML() raml.XML {
	t := parseTypeNode(mapNode(strNode("type"), strNode("string"), strNode("xml"), mapNode()))
	return t.(raml.StringType).XML()
}

// ---- the facets all extended types have ----

func common[T extT[T]]() []facet {
	return []facet{
		optional[T, string, option.String]("displayName", strClass, func(t T) option.String { return t.DisplayName() },
			func(t T, s string) T { return t.SetDisplayName(s) }, func(t T) T { return t.UnsetDisplayName() }),
		optional[T, string, option.String]("description", strClass, func(t T) option.String { return t.Description() },
			func(t T, s string) T { return t.SetDescription(s) }, func(t T) T { return t.UnsetDescription() }),
		requiredFacet[T](),
		annotations[T](),
		extras[T](),
		facetDefs[T](),
		xmlFacet[T](),
	}
}

// ---- default, enum, example, examples ----

type defaultT[T, V, O any] interface {
	comparable
	Default() O
	SetDefault(V) T
	UnsetDefault() T
}

type enumT[T, V any] interface {
	comparable
	Enum() []V
	SetEnum([]V) T
	UnsetEnum() T
}

func defaultFacet[T defaultT[T, V, O], V any, O opt[V]](c vclass[V]) facet {
	return optional[T, V, O]("default", c, func(t T) O { return t.Default() },
		func(t T, v V) T { return t.SetDefault(v) }, func(t T) T { return t.UnsetDefault() })
}

func enumFacet[T enumT[T, V], V any](c vclass[V]) facet {
	return list[T, V]("enum", c, func(t T) []V { return t.Enum() },
		func(t T, v []V) T { return t.SetEnum(v) }, func(t T) T { return t.UnsetEnum() })
}

// exT is what all the examples have in common.
type exT[E any] interface {
	comparable
	raml.Example
	SetDisplayName(string) E
	UnsetDisplayName() E
	SetDescription(string) E
	UnsetDescription() E
	SetAnnotations(raml.AnnotationMap) E
	UnsetAnnotations() E
	UnsetValue() E
	SetStrict(bool) E
}

// exValT adds the access to the example's value.
type exValT[E, V, O any] interface {
	exT[E]
	Value() O
	SetValue(V) E
}

type exMapT[M, E any] interface {
	comparable
	Put(k string, v E) M
	Get(k string) (E, bool)
	Len() int
	IndexOf(k string) int
	ForEach(func(k string, v E)) M
	SerializeOrdered(bool) M
}

type hasExT[T, E, M any] interface {
	comparable
	raml.DataType
	Example() E
	SetExample(E) T
	UnsetExample() T
	Examples() M
	SetExamples(M) T
	UnsetExamples() T
}

// exKit: how to work with the examples of one kind.
type exKit struct {
	fresh func() raml.Example // a new, empty example
	// value declared, value given, recognisers
	parsed func(id string) (in, out *yaml.Node, check func(e raml.Example, what string))
	built  func(id string) (set func(e raml.Example), out *yaml.Node, check func(e raml.Example, what string))
	unset  func(e raml.Example)
	absent func(e raml.Example, what string)
	bad    func(id string) *yaml.Node
	facets []exFacet
	// single and named examples of a type
	get    func(t raml.DataType) raml.Example
	give   func(t raml.DataType, e raml.Example)
	named  func(t raml.DataType) []namedEx
	has    func(t raml.DataType) bool
	lookup func(t raml.DataType, k string) (raml.Example, bool)
	add    func(t raml.DataType, k string, e raml.Example)
	own    func(t raml.DataType) *yaml.Node // the named examples, written by themselves
	mode   func(t raml.DataType, ordered bool)
}

// badBare: a wrong bare value. Every mapping is an expanded example.
func (k *exKit) badBare() func(id string) *yaml.Node {
	if k.bad == nil {
		return nil
	}
	return func(id string) *yaml.Node {
		n := k.bad(id)
		avoidMap(n)
		return n
	}
}

type namedEx struct {
	name string
	ex   raml.Example
}

func optEx[E exValT[E, V, O], V any, O opt[V]](c vclass[V]) exKit {
	have := func(ck func(V, string)) func(e raml.Example, what string) {
		return func(e raml.Example, what string) {
			o := e.(E).Value()
			sym.Assert(o.IsPresent() && !o.IsNil(), what+": value present")
			ck(o.Get(), what+": value")
		}
	}
	k := valueKit[E](c, have, func(e E, v V) E { return e.SetValue(v) })
	k.absent = func(e raml.Example, what string) { isAbsent[V](e.(E).Value(), what+": value") }
	return k
}

func valueKit[E exT[E], V any](c vclass[V], have func(func(V, string)) func(raml.Example, string), set func(E, V) E) exKit {
	return exKit{
		parsed: func(id string) (*yaml.Node, *yaml.Node, func(raml.Example, string)) {
			in, out, ck := c.parsed(id)
			return in, out, have(ck)
		},
		built: func(id string) (func(raml.Example), *yaml.Node, func(raml.Example, string)) {
			v, out, ck := c.built(id)
			return func(e raml.Example) { exChained(set(e.(E), v), e) }, out, have(ck)
		},
		unset:  func(e raml.Example) { exChained(e.(E).UnsetValue(), e) },
		bad:    c.bad,
		facets: exFacets[E](),
	}
}

func exChained[E comparable](got E, e raml.Example) {
	sym.Assert(got == e.(E), "a setter returns the example itself")
}

// withExamples adds the example and examples facets and completes the kit.
func withExamples[T hasExT[T, E, M], E exT[E], M exMapT[M, E]](k *kind, ex exKit, newMap func(int) M) {
	ex.fresh = func() raml.Example {
		t := parseTypeNode(mapNode(strNode("type"), strNode(k.expr), strNode("example"),
			mapNode(strNode("strict"), boolNode(true))))
		return t.(T).Example()
	}
	ex.get = func(t raml.DataType) raml.Example { return t.(T).Example() }
	ex.has = func(t raml.DataType) bool { var none E; return t.(T).Example() != none }
	ex.named = func(t raml.DataType) []namedEx {
		var out []namedEx
		t.(T).Examples().ForEach(func(n string, e E) { out = append(out, namedEx{n, e}) })
		return out
	}
	ex.add = func(t raml.DataType, n string, e raml.Example) { t.(T).Examples().Put(n, e.(E)) }
	ex.lookup = func(t raml.DataType, n string) (raml.Example, bool) {
		e, ok := t.(T).Examples().Get(n)
		if !ok {
			return nil, false
		}
		return e, true
	}
	ex.own = func(t raml.DataType) *yaml.Node {
		return ownForm(any(t.(T).Examples()).(interface{ ToYAML() (*yaml.Node, error) }).ToYAML())
	}
	ex.mode = func(t raml.DataType, o bool) { t.(T).Examples().SerializeOrdered(o) }
	k.ex = ex
	addExampleFacets(k, &k.ex,
		func(t raml.DataType, e raml.Example) { chained(t.(T).SetExample(e.(E)), t) },
		func(t raml.DataType) { chained(t.(T).UnsetExample(), t) },
		func(t raml.DataType) { var none E; chained(t.(T).SetExample(none), t) },
		func(t raml.DataType, n []namedEx) func() bool {
			m := newMap(0).SerializeOrdered(false)
			for _, x := range n {
				m.Put(x.name, x.ex.(E))
			}
			chained(t.(T).SetExamples(m), t)
			return func() bool { return t.(T).Examples() == m }
		},
		func(t raml.DataType) { chained(t.(T).UnsetExamples(), t) },
		func(t raml.DataType) { var none M; chained(t.(T).SetExamples(none), t) })
}

func addExampleFacets(k *kind, ex *exKit,
	set func(raml.DataType, raml.Example), unset, setNil func(raml.DataType),
	setAll func(raml.DataType, []namedEx) func() bool, unsetAll, setAllNil func(raml.DataType)) {
	ex.give = set
	k.facets = append(k.facets, facet{
		name: "example",
		parsed: func(id string) fv {
			in, out, ck := ex.parsed(id)
			avoidMap(in)
			return fv{name: "example", in: in, out: out, check: func(t raml.DataType, what string) {
				sym.Assert(ex.has(t), what+": example present")
				ck(ex.get(t), what+": example")
				plainEx(ex.get(t), what+": example")
			}}
		},
		built: func(id string) fv {
			e := ex.fresh()
			give, out, ck := ex.built(id)
			avoidMap(out)
			give(e)
			return fv{name: "example", out: out, set: func(t raml.DataType) { set(t, e) },
				check: func(t raml.DataType, what string) {
					sym.Assert(ex.has(t) && ex.get(t) == e, what+": the example that was set")
					ck(e, what+": example")
					plainEx(e, what+": example")
				}}
		},
		unset:  unset,
		setNil: setNil,
		absent: func(t raml.DataType, what string) { sym.Assert(!ex.has(t), what+": no example") },
		bad:    ex.badBare(),
	}, facet{
		name: "examples",
		parsed: func(id string) fv {
			name := anyString(id + ".name")
			in, out, ck := ex.parsed(id)
			avoidMap(in)
			return fv{name: "examples", in: mapNode(strNode(name), in), out: mapNode(strNode(name), out),
				check: func(t raml.DataType, what string) {
					all := ex.named(t)
					sym.Assert(len(all) == 1, what+": one named example")
					sym.Assert(all[0].name == name, what+": name of the example")
					ck(all[0].ex, what+": named example")
					plainEx(all[0].ex, what+": named example")
				}}
		},
		built: func(id string) fv {
			name := anyString(id + ".name")
			e := ex.fresh()
			give, out, ck := ex.built(id)
			avoidMap(out)
			give(e)
			var same func() bool
			return fv{name: "examples", out: mapNode(strNode(name), out),
				set: func(t raml.DataType) { same = setAll(t, []namedEx{{name, e}}) },
				check: func(t raml.DataType, what string) {
					sym.Assert(same(), what+": the examples that were set")
					all := ex.named(t)
					sym.Assert(len(all) == 1 && all[0].name == name && all[0].ex == e, what+": named example")
					ck(e, what+": named example")
				}}
		},
		unset:  unsetAll,
		setNil: setAllNil,
		absent: func(t raml.DataType, what string) { sym.Assert(len(ex.named(t)) == 0, what+": no named examples") },
		multi: func(id string, n int) mv {
			var ns []*yaml.Node
			var es []namedEx
			for i := 0; i <= n; i++ {
				e := ex.fresh()
				give, out, _ := ex.built(id + string(rune('a'+i)))
				avoidMap(out)
				give(e)
				es = append(es, namedEx{nth(id, i), e})
				ns = append(ns, strNode(es[i].name), out)
			}
			return mv{pairs: ns, nested: true,
				own: ex.own, mode: ex.mode,
				set: func(t raml.DataType) { setAll(t, es[:n]) },
				add: func(t raml.DataType) { ex.add(t, es[n].name, es[n].ex) },
				check: func(t raml.DataType, n int, what string) {
					all := ex.named(t)
					sym.Assert(len(all) == n, what+": number of named examples")
					for i := 0; i < n; i++ {
						sym.Assert(all[i] == es[i], what+": named example")
					}
				}}
		},
		bad: func(id string) *yaml.Node {
			if bad := ex.badBare(); bad != nil && sym.Bool(id+".inner") {
				return mapNode(strNode("n"), bad(id))
			}
			return notMap(id)
		},
	})
}

// avoidMap: a bare mapping is read as an expanded example (a recorded
// finding), so these values are declared in expanded form only.
func avoidMap(n *yaml.Node) { sym.Assume(n.Kind != yaml.MappingNode) }

func plainEx(e raml.Example, what string) {
	isAbsent[string](e.DisplayName(), what+": display name")
	isAbsent[string](e.Description(), what+": description")
	sym.Assert(e.Annotations().Len() == 0, what+": no annotations")
	sym.Assert(e.ExtraFacets().Len() == 0, what+": no unknown entries")
	sym.Assert(e.Strict(), what+": strict")
}

// ---- the kinds ----

func newKind[T extT[T]](expr string, k rmeta.DataTypeKind) kind {
	return kind{expr: expr, kind: k, facets: common[T]()}
}

func (k *kind) add(f ...facet) { k.facets = append(k.facets, f...) }

func kStringKind() kind {
	type T = raml.StringType
	k := newKind[T]("string", rmeta.TypeString)
	k.mk = func() raml.DataType { return rbuild.NewStringDataType() }
	k.add(defaultFacet[T, string, option.String](strClass), enumFacet[T, string](strClass),
		optional[T, string, option.String]("pattern", strClass, T.Pattern, T.SetPattern, T.UnsetPattern),
		defaulted[T, uint]("minLength", uintClass, 0, T.MinLength, T.SetMinLength),
		optional[T, uint, option.Uint]("maxLength", uintClass, T.MaxLength, T.SetMaxLength, T.UnsetMaxLength))
	withExamples[T](&k, optEx[raml.StringExample, string, option.String](strClass), raml.NewStringExampleMap)
	return k
}

func dateKind[T interface {
	extT[T]
	defaultT[T, string, option.String]
	enumT[T, string]
}](expr string, rk rmeta.DataTypeKind) kind {
	k := newKind[T](expr, rk)
	k.add(defaultFacet[T, string, option.String](dateClass), enumFacet[T, string](dateClass))
	return k
}

func kDateOnlyKind() kind {
	k := dateKind[raml.DateOnlyType]("date-only", rmeta.TypeDateOnly)
	withExamples[raml.DateOnlyType](&k, optEx[raml.DateOnlyExample, string, option.String](dateClass), raml.NewDateOnlyExampleMap)
	return k
}

func kTimeOnlyKind() kind {
	k := dateKind[raml.TimeOnlyType]("time-only", rmeta.TypeTimeOnly)
	withExamples[raml.TimeOnlyType](&k, optEx[raml.TimeOnlyExample, string, option.String](dateClass), raml.NewTimeOnlyExampleMap)
	return k
}

func kDatetimeOnlyKind() kind {
	k := dateKind[raml.DatetimeOnlyType]("datetime-only", rmeta.TypeDatetimeOnly)
	withExamples[raml.DatetimeOnlyType](&k, optEx[raml.DatetimeOnlyExample, string, option.String](dateClass), raml.NewDatetimeOnlyExampleMap)
	return k
}

func kDatetimeKind() kind {
	type T = raml.DatetimeType
	k := dateKind[T]("datetime", rmeta.TypeDatetime)
	k.add(formatFacet("datetime", []string{"rfc3339", "rfc2616"},
		func(t raml.DataType) (string, bool) { f := t.(T).Format(); return textOf(f) },
		func(t, from raml.DataType) { chained(t.(T).SetFormat(from.(T).Format()), t) },
		func(t raml.DataType) { chained(t.(T).UnsetFormat(), t) },
		func(t raml.DataType) { chained(t.(T).SetFormat(nil), t) }))
	withExamples[T](&k, optEx[raml.DatetimeExample, string, option.String](dateClass), raml.NewDatetimeExampleMap)
	return k
}

func textOf(f interface{ String() string }) (string, bool) {
	if f == nil {
		return "", false
	}
	return f.String(), true
}

// formatFacet: any text is a legal format.
func formatFacet(expr string, known []string, get func(raml.DataType) (string, bool), set func(t, from raml.DataType), unset, setNil func(raml.DataType)) facet {
	have := func(s string) func(raml.DataType, string) {
		return func(t raml.DataType, what string) {
			got, ok := get(t)
			sym.Assert(ok, what+": format present")
			sym.Assert(got == s, what+": format")
		}
	}
	text := func(id string) string {
		if slim {
			return known[0]
		}
		return anyString(id)
	}
	return facet{
		name: "format",
		parsed: func(id string) fv {
			s := text(id)
			return fv{name: "format", in: strNode(s), out: strNode(s), check: have(s)}
		},
		built: func(id string) fv {
			s := text(id)
			from := parseTypeNode(mapNode(strNode("type"), strNode(expr), strNode("format"), strNode(s)))
			return fv{name: "format", out: strNode(s), check: have(s), set: func(t raml.DataType) { set(t, from) }}
		},
		unset:  unset,
		setNil: setNil,
		absent: func(t raml.DataType, what string) { _, ok := get(t); sym.Assert(!ok, what+": no format") },
		bad:    strClass.bad,
	}
}

var intFormats = []string{"int", "int8", "int16", "int32", "int64", "long"}
var numFormats = []string{"int", "int8", "int16", "int32", "int64", "long", "float", "double"}

func kIntegerKind() kind {
	type T = raml.IntegerType
	k := newKind[T]("integer", rmeta.TypeInteger)
	k.mk = func() raml.DataType { return rbuild.NewIntegerDataType() }
	k.add(defaultFacet[T, int64, option.Int64](intClass), enumFacet[T, int64](intClass),
		optional[T, int64, option.Int64]("minimum", intClass, T.Minimum, T.SetMinimum, T.UnsetMinimum),
		optional[T, int64, option.Int64]("maximum", intClass, T.Maximum, T.SetMaximum, T.UnsetMaximum),
		optional[T, float64, option.Float64]("multipleOf", floatClass, T.MultipleOf, T.SetMultipleOf, T.UnsetMultipleOf),
		formatFacet("integer", intFormats,
			func(t raml.DataType) (string, bool) { f := t.(T).Format(); return textOf(f) },
			func(t, from raml.DataType) { chained(t.(T).SetFormat(from.(T).Format()), t) },
			func(t raml.DataType) { chained(t.(T).UnsetFormat(), t) },
			func(t raml.DataType) { chained(t.(T).SetFormat(nil), t) }))
	withExamples[T](&k, optEx[raml.IntegerExample, int64, option.Int64](intClass), raml.NewIntegerExampleMap)
	return k
}

func kNumberKind() kind {
	type T = raml.NumberType
	k := newKind[T]("number", rmeta.TypeNumber)
	k.mk = func() raml.DataType { return rbuild.NewNumberDataType() }
	k.add(defaultFacet[T, float64, option.Float64](floatClass), enumFacet[T, float64](floatClass),
		optional[T, float64, option.Float64]("minimum", floatClass, T.Minimum, T.SetMinimum, T.UnsetMinimum),
		optional[T, float64, option.Float64]("maximum", floatClass, T.Maximum, T.SetMaximum, T.UnsetMaximum),
		optional[T, float64, option.Float64]("multipleOf", floatClass, T.MultipleOf, T.SetMultipleOf, T.UnsetMultipleOf),
		formatFacet("number", numFormats,
			func(t raml.DataType) (string, bool) { f := t.(T).Format(); return textOf(f) },
			func(t, from raml.DataType) { chained(t.(T).SetFormat(from.(T).Format()), t) },
			func(t raml.DataType) { chained(t.(T).UnsetFormat(), t) },
			func(t raml.DataType) { chained(t.(T).SetFormat(nil), t) }))
	withExamples[T](&k, optEx[raml.NumberExample, float64, option.Float64](floatClass), raml.NewNumberExampleMap)
	return k
}

func kBoolKind() kind {
	type T = raml.BoolType
	k := newKind[T]("boolean", rmeta.TypeBool)
	k.mk = func() raml.DataType { return rbuild.NewBoolDataType() }
	k.add(defaultFacet[T, bool, option.Bool](boolClass), enumFacet[T, bool](boolClass))
	withExamples[T](&k, optEx[raml.BoolExample, bool, option.Bool](boolClass), raml.NewBoolExampleMap)
	return k
}

func untypedKind[T interface {
	extT[T]
	defaultT[T, interface{}, option.Untyped]
	enumT[T, interface{}]
}](expr string, rk rmeta.DataTypeKind) kind {
	k := newKind[T](expr, rk)
	k.add(defaultFacet[T, interface{}, option.Untyped](anyClass), enumFacet[T, interface{}](anyClass))
	return k
}

func kAnyKind() kind {
	type T = raml.AnyType
	k := untypedKind[T]("any", rmeta.TypeAny)
	k.mk = func() raml.DataType { return rbuild.NewAnyDataType() }
	withAnyExamples(&k)
	return k
}

func kCustomKind() kind {
	type T = raml.CustomType
	k := untypedKind[T]("Cust", rmeta.TypeCustom)
	withExamples[T](&k, optEx[raml.CustomExample, interface{}, option.Untyped](exAnyClass), raml.NewCustomExampleMap)
	return k
}

func kUnionKind() kind {
	type T = raml.UnionType
	k := untypedKind[T]("A | b", rmeta.TypeUnion)
	withExamples[T](&k, optEx[raml.UnionExample, interface{}, option.Untyped](exAnyClass), raml.NewUnionExampleMap)
	return k
}

func kFileKind() kind {
	type T = raml.FileType
	k := untypedKind[T]("file", rmeta.TypeFile)
	k.add(list[T, string]("fileTypes", strClass, T.FileTypes, T.SetFileTypes, T.UnsetFileTypes),
		defaulted[T, uint]("minLength", uintClass, 0, T.MinLength, T.SetMinLength),
		defaulted[T, uint]("maxLength", uintClass, 2147483647, T.MaxLength, T.SetMaxLength))
	withExamples[T](&k, optEx[raml.FileExample, interface{}, option.Untyped](exAnyClass), raml.NewFileExampleMap)
	return k
}

func kObjectKind() kind {
	type T = raml.ObjectType
	k := untypedKind[T]("object", rmeta.TypeObject)
	k.add(propertiesFacet(),
		optional[T, uint, option.Uint]("minProperties", uintClass, T.MinProperties, T.SetMinProperties, T.UnsetMinProperties),
		optional[T, uint, option.Uint]("maxProperties", uintClass, T.MaxProperties, T.SetMaxProperties, T.UnsetMaxProperties),
		defaulted[T, bool]("additionalProperties", boolClass, true, T.AdditionalProperties, T.SetAdditionalProperties),
		optional[T, string, option.String]("discriminator", strClass, T.Discriminator, T.SetDiscriminator, T.UnsetDiscriminator),
		optional[T, interface{}, option.Untyped]("discriminatorValue", anyClass, T.DiscriminatorValue, T.SetDiscriminatorValue, T.UnsetDiscriminatorValue))
	withExamples[T](&k, optEx[raml.ObjectExample, interface{}, option.Untyped](exAnyClass), raml.NewObjectExampleMap)
	return k
}

func kArrayKind() kind {
	type T = raml.ArrayType
	k := newKind[T]("array", rmeta.TypeArray)
	k.mk = func() raml.DataType { return rbuild.NewArrayDataType() }
	def := list[T, interface{}]("default", anyClass, T.Default, T.SetDefault, T.UnsetDefault)
	k.add(def, enumFacet[T, interface{}](anyClass),
		defaulted[T, bool]("uniqueItems", boolClass, false, T.UniqueItems, T.SetUniqueItems),
		defaulted[T, uint]("minItems", uintClass, 0, T.MinItems, T.SetMinItems),
		defaulted[T, uint]("maxItems", uintClass, 2147483647, T.MaxItems, T.SetMaxItems),
		itemsFacet())
	have := func(ck func([]interface{}, string)) func(raml.Example, string) {
		return func(e raml.Example, what string) { ck(e.(raml.ArrayExample).Value(), what+": value") }
	}
	ex := valueKit[raml.ArrayExample](listClass(anyClass, 2), have, raml.ArrayExample.SetValue)
	ex.absent = func(e raml.Example, what string) {
		sym.Assert(len(e.(raml.ArrayExample).Value()) == 0, what+": no value")
	}
	withExamples[T](&k, ex, raml.NewArrayExampleMap)
	return k
}

func typeText(id string) string {
	if slim {
		return "integer"
	}
	return sym.Pick(sym.Range(id+".ty", 5), "string", "integer", "Cust", "nil", "object")
}

func typeIs(t raml.DataType, expr, what string) {
	sym.Assert(t != nil, what+": present")
	sym.Assert(t.Type() == expr, what+": type expression")
	sym.Assert(t.Kind() == kindOf(expr), what+": kind")
}

func kindOf(expr string) rmeta.DataTypeKind {
	switch expr {
	case "any", "array", "boolean", "date-only", "datetime", "datetime-only", "file", "integer", "nil", "number", "object", "string", "time-only":
		return rmeta.DataTypeKind(expr)
	}
	for i := 0; i < len(expr); i++ {
		if expr[i] == '|' {
			return rmeta.TypeUnion
		}
	}
	return rmeta.TypeCustom
}

func itemsFacet() facet {
	type T = raml.ArrayType
	return facet{
		name: "items",
		parsed: func(id string) fv {
			x := typeText(id)
			return fv{name: "items", in: strNode(x), out: strNode(x), check: func(t raml.DataType, what string) {
				typeIs(t.(T).Items(), x, what+": items")
			}}
		},
		built: func(id string) fv {
			it := raml.DataType(rbuild.NewIntegerDataType())
			x := "integer"
			if sym.Bool(id) {
				it, x = rbuild.NewStringDataType(), "string"
			}
			return fv{name: "items", out: strNode(x), set: func(t raml.DataType) { chained(t.(T).SetItems(it), t) },
				check: func(t raml.DataType, what string) {
					sym.Assert(t.(T).Items() == it, what+": the items that were set")
				}}
		},
		unset:  func(t raml.DataType) { chained(t.(T).UnsetItems(), t) },
		setNil: func(t raml.DataType) { chained(t.(T).SetItems(nil), t) },
		absent: func(t raml.DataType, what string) { sym.Assert(t.(T).Items() == nil, what+": no items") },
		bad:    badType,
	}
}

// badType: not a type declaration.
func badType(id string) *yaml.Node {
	n := content(id, 1)
	sym.Assume(n.Kind != yaml.MappingNode)
	if n.Kind == yaml.ScalarNode {
		sym.Assume(n.Tag != "!!str" && n.Tag != "!!null" && n.Tag != "!include")
	}
	return n
}

func propertiesFacet() facet {
	type T = raml.ObjectType
	return facet{
		name: "properties",
		parsed: func(id string) fv {
			name, x := anyString(id+".name"), typeText(id)
			n := mapNode(strNode(name), strNode(x))
			return fv{name: "properties", in: n, out: n, check: func(t raml.DataType, what string) {
				m := t.(T).Properties()
				sym.Assert(m.Len() == 1, what+": one property")
				e := m.At(0)
				sym.Assert(e.Key == name, what+": name of the property")
				typeIs(e.Val, x, what+": property")
				sym.Assert(e.Val.Required(), what+": property required")
			}}
		},
		built: func(id string) fv {
			name := anyString(id + ".name")
			p := rbuild.NewStringDataType().(raml.Property)
			m := raml.NewPropertyMap(0).SerializeOrdered(false).Put(name, p)
			return fv{name: "properties", out: mapNode(strNode(name), strNode("string")),
				set: func(t raml.DataType) { chained(t.(T).SetProperties(m), t) },
				check: func(t raml.DataType, what string) {
					sym.Assert(t.(T).Properties() == m, what+": the properties that were set")
					sym.Assert(m.Len() == 1 && m.At(0).Key == name && m.At(0).Val == p, what+": property")
				}}
		},
		unset:  func(t raml.DataType) { chained(t.(T).UnsetProperties(), t) },
		setNil: func(t raml.DataType) { chained(t.(T).SetProperties(nil), t) },
		absent: func(t raml.DataType, what string) {
			sym.Assert(t.(T).Properties().Len() == 0, what+": no properties")
		},
		multi: func(id string, n int) mv {
			m := raml.NewPropertyMap(0).SerializeOrdered(false)
			var ns []*yaml.Node
			var ps []raml.Property
			for i := 0; i <= n; i++ {
				ps = append(ps, rbuild.NewStringDataType().(raml.Property))
				ns = append(ns, strNode(nth(id, i)), strNode("string"))
				if i < n {
					m.Put(ns[2*i].Value, ps[i])
				}
			}
			return mv{pairs: ns, nested: true,
				own:  func(raml.DataType) *yaml.Node { return ownForm(m.ToYAML()) },
				mode: func(_ raml.DataType, o bool) { m.SerializeOrdered(o) },
				set:  func(t raml.DataType) { chained(t.(T).SetProperties(m), t) },
				add:  func(t raml.DataType) { t.(T).Properties().Put(ns[2*n].Value, ps[n]) },
				check: func(t raml.DataType, n int, what string) {
					m := t.(T).Properties()
					sym.Assert(int(m.Len()) == n, what+": number of properties")
					for i := 0; i < n; i++ {
						e := m.At(i)
						sym.Assert(e.Key == ns[2*i].Value && e.Val == ps[i], what+": property")
					}
				}}
		},
		bad: func(id string) *yaml.Node {
			if sym.Bool(id + ".inner") {
				return mapNode(strNode("p"), badType(id))
			}
			return notMap(id)
		},
	}
}

// plainKind: nil and include types have no facets but required and unknown ones.
func plainKind(expr string, rk rmeta.DataTypeKind) kind {
	req := boolClass
	return kind{expr: expr, kind: rk, facets: []facet{{
		name: "required",
		parsed: func(id string) fv {
			in, out, ck := req.parsed(id)
			return fv{name: "required", in: in, out: out, never: isDefault(out, true),
				check: func(t raml.DataType, what string) { ck(t.(raml.Property).Required(), what+": required") }}
		},
		absent: func(t raml.DataType, what string) {
			sym.Assert(t.(raml.Property).Required(), what+": required by default")
		},
		bad: req.bad,
	}, {
		name: "unknown",
		parsed: func(id string) fv {
			name, n := extraName(id), anyNode(id)
			return fv{name: name, in: n, out: n, check: func(t raml.DataType, what string) {
				extraIs(t.ExtraFacets(), name, n, what)
			}}
		},
		absent: noExtras,
	}}}
}

func kNilKind() kind     { return plainKind("nil", rmeta.TypeNil) }
func kIncludeKind() kind { return plainKind("a/b.raml", rmeta.TypeInclude) }

// withAnyExamples: as withExamples; the named examples of an any type are
// arbitrary values.
func withAnyExamples(k *kind) {
	type T = raml.AnyType
	ex := optEx[raml.AnyExample, interface{}, option.Untyped](exAnyClass)
	expr := k.expr
	ex.fresh = func() raml.Example {
		t := parseTypeNode(mapNode(strNode("type"), strNode(expr), strNode("example"),
			mapNode(strNode("strict"), boolNode(true))))
		return t.(T).Example()
	}
	ex.get = func(t raml.DataType) raml.Example { return t.(T).Example() }
	ex.has = func(t raml.DataType) bool { return t.(T).Example() != nil }
	ex.named = func(t raml.DataType) []namedEx {
		var out []namedEx
		t.(T).Examples().ForEach(func(n string, e interface{}) {
			x, ok := e.(raml.Example)
			sym.Assert(ok, "a named example of an any type is an example")
			out = append(out, namedEx{n, x})
		})
		return out
	}
	ex.add = func(t raml.DataType, n string, e raml.Example) { t.(T).Examples().Put(n, e) }
	ex.lookup = func(t raml.DataType, n string) (raml.Example, bool) {
		e, ok := t.(T).Examples().Get(n)
		if !ok {
			return nil, false
		}
		return e.(raml.Example), true
	}
	ex.own = func(t raml.DataType) *yaml.Node {
		return ownForm(any(t.(T).Examples()).(interface{ ToYAML() (*yaml.Node, error) }).ToYAML())
	}
	ex.mode = func(t raml.DataType, o bool) { t.(T).Examples().SerializeOrdered(o) }
	k.ex = ex
	addExampleFacets(k, &k.ex,
		func(t raml.DataType, e raml.Example) { chained(t.(T).SetExample(e.(raml.AnyExample)), t) },
		func(t raml.DataType) { chained(t.(T).UnsetExample(), t) },
		func(t raml.DataType) { chained(t.(T).SetExample(nil), t) },
		func(t raml.DataType, n []namedEx) func() bool {
			m := raml.NewAnyExampleMap(0).SerializeOrdered(false)
			for _, x := range n {
				m.Put(x.name, x.ex)
			}
			chained(t.(T).SetExamples(m), t)
			return func() bool { return t.(T).Examples() == m }
		},
		func(t raml.DataType) { chained(t.(T).UnsetExamples(), t) },
		func(t raml.DataType) { chained(t.(T).SetExamples(nil), t) })
}
