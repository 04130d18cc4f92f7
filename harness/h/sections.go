//go:build go1.21

package h

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// sv is one entry of a model element, with its value.
type sv[D any] struct {
	name  string
	in    *yaml.Node // as declared
	out   *yaml.Node // as written
	may   bool       // may also be left out when written
	set   func(d D)
	check func(d D, what string)
	ident func(d D, what string) // it is the very value that was set
}

// section: everything about one entry of one kind of model element.
type section[D any] struct {
	name   string
	group  string // entries of one group share their storage
	parsed func(id string) sv[D]
	built  func(id string) sv[D] // nil: cannot be set
	unset  func(d D)
	setNil func(d D)
	absent func(d D, what string)
	bad    func(id string) *yaml.Node
	always *yaml.Node // written even if absent
	// a list: what is handed out, and setting what was (false: of another type)
	list    func(d D) interface{}
	setList func(d D, l interface{}) bool
}

// docKit: how to work with one kind of model element.
type docKit[D any] struct {
	sections []section[D]
	read     func(n *yaml.Node) D // of a mapping
	fresh    func() D
	write    func(d D) *yaml.Node
	null     bool // written as nothing at all when empty
}

func self[D comparable](got, d D) {
	sym.Assert(got == d, "a setter returns the element itself")
}

// ---- texts ----

func textSec[D comparable](name string, get func(D) option.String, set func(D, string) D, unset func(D) D) section[D] {
	have := func(s string) func(D, string) {
		return func(d D, what string) {
			o := get(d)
			sym.Assert(o.IsPresent() && !o.IsNil(), what+": "+name+" present")
			sym.Assert(o.Get() == s, what+": "+name)
		}
	}
	return section[D]{
		name: name, group: name,
		parsed: func(id string) sv[D] {
			s := anyText(id)
			return sv[D]{name: name, in: strNode(s), out: strNode(s), check: have(s)}
		},
		built: func(id string) sv[D] {
			s := anyText(id)
			return sv[D]{name: name, out: strNode(s), check: have(s), set: func(d D) { self(set(d, s), d) }}
		},
		unset:  func(d D) { self(unset(d), d) },
		absent: func(d D, what string) { isAbsent[string](get(d), what+": "+name) },
		bad:    strClass.bad,
	}
}

// plainSec: a text that is empty by default and always written.
func plainSec[D comparable](name string, get func(D) string, set func(D, string) D) section[D] {
	have := func(s string) func(D, string) {
		return func(d D, what string) { sym.Assert(get(d) == s, what+": "+name) }
	}
	return section[D]{
		name: name, group: name,
		parsed: func(id string) sv[D] {
			s := anyText(id)
			return sv[D]{name: name, in: strNode(s), out: strNode(s), check: have(s)}
		},
		built: func(id string) sv[D] {
			s := anyText(id)
			return sv[D]{name: name, out: strNode(s), check: have(s), set: func(d D) { self(set(d, s), d) }}
		},
		absent: func(d D, what string) { sym.Assert(get(d) == "", what+": "+name+" empty") },
		bad:    strClass.bad,
		always: strNode(""),
	}
}

func flagSec[D comparable](name string, get func(D) option.Bool, set func(D, bool) D, unset func(D) D) section[D] {
	have := func(b bool) func(D, string) {
		return func(d D, what string) {
			o := get(d)
			sym.Assert(o.IsPresent() && !o.IsNil(), what+": "+name+" present")
			sym.Assert(o.Get() == b, what+": "+name)
		}
	}
	return section[D]{
		name: name, group: name,
		parsed: func(id string) sv[D] {
			b := sym.Bool(id)
			return sv[D]{name: name, in: boolNode(b), out: boolNode(b), check: have(b)}
		},
		built: func(id string) sv[D] {
			b := sym.Bool(id)
			return sv[D]{name: name, out: boolNode(b), check: have(b), set: func(d D) { self(set(d, b), d) }}
		},
		unset:  func(d D) { self(unset(d), d) },
		absent: func(d D, what string) { isAbsent[bool](get(d), what+": "+name) },
		bad:    boolClass.bad,
	}
}

// ---- lists of texts ----

func textsSec[D comparable](name string, single bool, get func(D) []string, set func(D, []string) D, unset func(D) D) section[D] {
	lc := listClass(strClass, 2)
	have := func(ck func([]string, string)) func(D, string) {
		return func(d D, what string) { ck(get(d), what+": "+name) }
	}
	bad := lc.bad
	if single {
		bad = func(id string) *yaml.Node {
			n := lc.bad(id)
			if n.Kind == yaml.ScalarNode {
				sym.Assume(n.Tag != "!!str" && n.Tag != "!include")
			}
			return n
		}
	}
	return section[D]{
		name: name, group: name,
		parsed: func(id string) sv[D] {
			if single && !slim && sym.Bool(id+".single") {
				s := anyText(id)
				return sv[D]{name: name, in: strNode(s), out: seqNode(strNode(s)), check: func(d D, what string) {
					l := get(d)
					sym.Assert(len(l) == 1 && l[0] == s, what+": "+name+": single value")
				}}
			}
			in, out, ck := lc.parsed(id)
			return sv[D]{name: name, in: in, out: out, may: len(out.Content) == 0, check: have(ck)}
		},
		built: func(id string) sv[D] {
			v, out, ck := lc.built(id)
			return sv[D]{name: name, out: out, may: len(v) == 0, check: have(ck), set: func(d D) { self(set(d, v), d) }}
		},
		unset:  func(d D) { self(unset(d), d) },
		setNil: func(d D) { self(set(d, nil), d) },
		absent: func(d D, what string) { sym.Assert(len(get(d)) == 0, what+": "+name+" empty") },
		bad:    bad,
		list:   func(d D) interface{} { return get(d) },
		setList: func(d D, l interface{}) bool {
			v, ok := l.([]string)
			if ok {
				self(set(d, v), d)
			}
			return ok
		},
	}
}

// ---- tables ----

// tableNode: up to two distinct names with arbitrary content.
func tableNode(id string) *yaml.Node {
	n := mapNode()
	for i, k := 0, upto(id+".entries", 2); i < k; i++ {
		d := string(rune('0' + i))
		n.Content = append(n.Content, strNode(d+sym.String(id+".k"+d, 1)), anyNode(id+".v"+d))
	}
	return n
}

// fill replaces the content of a map that has no setter.
func fill(m raml.UntypedMap, n *yaml.Node) {
	for m.Len() > 0 {
		m.Delete(m.At(0).Key)
	}
	for i := 0; i+1 < len(n.Content); i += 2 {
		m.Put(n.Content[i].Value, n.Content[i+1])
	}
}

// tableSec: a table of uninterpreted content; without a setter, it is changed
// through the map.
func tableSec[D comparable](name string, get func(D) raml.UntypedMap, set func(D, raml.UntypedMap) D, unset func(D) D) section[D] {
	have := func(n *yaml.Node) func(D, string) {
		return func(d D, what string) { untypedIs(get(d), n, what+": "+name) }
	}
	s := section[D]{
		name: name, group: name,
		parsed: func(id string) sv[D] {
			n := tableNode(id)
			return sv[D]{name: name, in: n, out: n, may: len(n.Content) == 0, check: have(n)}
		},
		built: func(id string) sv[D] {
			n := tableNode(id)
			return sv[D]{name: name, out: n, may: len(n.Content) == 0, check: have(n), set: func(d D) { fill(get(d), n) }}
		},
		absent: func(d D, what string) {
			sym.Assert(get(d) != nil, what+": "+name+" is a map")
			sym.Assert(get(d).Len() == 0, what+": "+name+" empty")
		},
		bad: notMap,
	}
	if set != nil {
		s.built = func(id string) sv[D] {
			n := tableNode(id)
			m := raml.NewUntypedMap(0).SerializeOrdered(false)
			fill(m, n)
			ck := have(n)
			return sv[D]{name: name, out: n, may: len(n.Content) == 0, set: func(d D) { self(set(d, m), d) },
				check: ck,
				ident: func(d D, what string) { sym.Assert(get(d) == m, what+": the "+name+" that were set") }}
		}
		s.unset = func(d D) { self(unset(d), d) }
		s.setNil = func(d D) { self(set(d, nil), d) }
	}
	return s
}

func usesSec[D comparable](get func(D) raml.StringMap, set func(D, raml.StringMap) D, unset func(D) D) section[D] {
	node := func(id string) *yaml.Node {
		n := mapNode()
		for i, k := 0, upto(id+".entries", 2); i < k; i++ {
			d := string(rune('0' + i))
			n.Content = append(n.Content, strNode(d+sym.String(id+".k"+d, 1)), strNode(anyText(id+".v"+d)))
		}
		return n
	}
	have := func(n *yaml.Node) func(D, string) {
		return func(d D, what string) {
			m := get(d)
			sym.Assert(m.Len() == len(n.Content)/2, what+": uses: number of entries")
			for i := 0; i+1 < len(n.Content); i += 2 {
				e := m.At(i / 2)
				sym.Assert(e.Key == n.Content[i].Value && e.Val == n.Content[i+1].Value, what+": uses: entry")
			}
		}
	}
	return section[D]{
		name: "uses", group: "uses",
		parsed: func(id string) sv[D] {
			n := node(id)
			return sv[D]{name: "uses", in: n, out: n, may: len(n.Content) == 0, check: have(n)}
		},
		built: func(id string) sv[D] {
			n := node(id)
			m := raml.NewStringMap(0).SerializeOrdered(false)
			for i := 0; i+1 < len(n.Content); i += 2 {
				m.Put(n.Content[i].Value, n.Content[i+1].Value)
			}
			ck := have(n)
			return sv[D]{name: "uses", out: n, may: len(n.Content) == 0, set: func(d D) { self(set(d, m), d) },
				check: ck,
				ident: func(d D, what string) { sym.Assert(get(d) == m, what+": the uses that were set") }}
		},
		unset:  func(d D) { self(unset(d), d) },
		setNil: func(d D) { self(set(d, nil), d) },
		absent: func(d D, what string) { sym.Assert(get(d).Len() == 0, what+": uses empty") },
		bad: func(id string) *yaml.Node {
			if sym.Bool(id + ".inner") {
				return mapNode(strNode("a"), strClass.bad(id))
			}
			return notMap(id)
		},
	}
}

// typesSec: a type table, under either of its names.
func typesSec[D comparable](name string, get func(D) raml.DataTypeMap, set func(D, raml.DataTypeMap) D, unset func(D) D) section[D] {
	type ent struct{ key, expr string }
	have := func(es []ent) func(D, string) {
		return func(d D, what string) {
			m := get(d)
			sym.Assert(m.Len() == len(es), what+": "+name+": number of types")
			for i, e := range es {
				x := m.At(i)
				sym.Assert(x.Key == e.key, what+": "+name+": name of the type")
				typeIs(x.Val, e.expr, what+": "+name)
			}
		}
	}
	entries := func(id string) (es []ent, n *yaml.Node) {
		n = mapNode()
		for i, k := 0, upto(id+".entries", 2); i < k; i++ {
			d := string(rune('0' + i))
			e := ent{d + sym.String(id+".k"+d, 1), typeText(id + "." + d)}
			es = append(es, e)
			n.Content = append(n.Content, strNode(e.key), strNode(e.expr))
		}
		return
	}
	return section[D]{
		name: name, group: "types",
		parsed: func(id string) sv[D] {
			es, n := entries(id)
			return sv[D]{name: "types", in: n, out: n, may: len(es) == 0, check: have(es)}
		},
		built: func(id string) sv[D] {
			m := raml.NewDataTypeMap(0).SerializeOrdered(false)
			n := mapNode()
			var es []ent
			for i, k := 0, upto(id+".entries", 2); i < k; i++ {
				d := string(rune('0' + i))
				e := ent{d + sym.String(id+".k"+d, 1), "integer"}
				if i == 0 {
					m.Put(e.key, rbuild.NewIntegerDataType())
				} else {
					e.expr = "string"
					m.Put(e.key, rbuild.NewStringDataType())
				}
				es = append(es, e)
				n.Content = append(n.Content, strNode(e.key), strNode(e.expr))
			}
			ck := have(es)
			return sv[D]{name: "types", out: n, may: len(es) == 0, set: func(d D) { self(set(d, m), d) },
				check: ck,
				ident: func(d D, what string) { sym.Assert(get(d) == m, what+": the "+name+" that were set") }}
		},
		unset:  func(d D) { self(unset(d), d) },
		setNil: func(d D) { self(set(d, nil), d) },
		absent: func(d D, what string) { sym.Assert(get(d).Len() == 0, what+": "+name+" empty") },
		bad: func(id string) *yaml.Node {
			if sym.Bool(id + ".inner") {
				return mapNode(strNode("T"), badType(id))
			}
			return notMap(id)
		},
	}
}

// ---- annotations, resources, unknown entries ----

func annSec[D comparable](get func(D) raml.AnnotationMap, set func(D, raml.AnnotationMap) D, unset func(D) D) section[D] {
	have := func(name string, body *yaml.Node) func(D, string) {
		return func(d D, what string) {
			sym.Assert(get(d).Len() == 1, what+": one annotation")
			annIs(get(d), 0, name, body, what+": annotation")
		}
	}
	return section[D]{
		name: "(annotation)", group: "annotations",
		parsed: func(id string) sv[D] {
			name, body := annName(id), annBody(id)
			return sv[D]{name: name, in: body, out: body, check: have(name, body)}
		},
		built: func(id string) sv[D] {
			name, body := annName(id), annBody(id)
			m := raml.NewAnnotationMap(0).SerializeOrdered(false).Put(name, builtAnn(body))
			ck := have(name, body)
			return sv[D]{name: name, out: body, set: func(d D) { self(set(d, m), d) },
				check: ck,
				ident: func(d D, what string) { sym.Assert(get(d) == m, what+": the annotations that were set") }}
		},
		unset:  func(d D) { self(unset(d), d) },
		setNil: func(d D) { self(set(d, nil), d) },
		absent: func(d D, what string) { sym.Assert(get(d).Len() == 0, what+": no annotations") },
	}
}

func resourceSec[D comparable](get func(D) raml.UntypedMap) section[D] {
	val := func(id string) sv[D] {
		name, n := "/"+anyString(id+".name"), anyNode(id)
		return sv[D]{name: name, in: n, out: n,
			check: func(d D, what string) {
				untypedIs(get(d), mapNode(strNode(name), n), what+": resources")
			},
			set: func(d D) { fill(get(d), mapNode(strNode(name), n)) }}
	}
	return section[D]{
		name: "/resource", group: "resources",
		parsed: val,
		built:  val,
		absent: func(d D, what string) { sym.Assert(get(d).Len() == 0, what+": no resources") },
	}
}

// unknownSec: without an accessor (get is nil) the entry is only seen when
// it is written.
func unknownSec[D comparable](get func(D) raml.AnyMap) section[D] {
	s := section[D]{
		name: "unknown", group: "unknown",
		parsed: func(id string) sv[D] {
			name, n := extraName(id), anyNode(id)
			return sv[D]{name: name, in: n, out: n, check: func(d D, what string) {
				if get != nil {
					extraIs(get(d), name, n, what)
				}
			}}
		},
		absent: func(d D, what string) {
			if get != nil {
				sym.Assert(get(d).Len() == 0, what+": no unknown entries")
			}
		},
	}
	if get != nil {
		s.built = func(id string) sv[D] {
			name, n := extraName(id), anyNode(id)
			return sv[D]{name: name, out: n,
				check: func(d D, what string) { extraIs(get(d), name, n, what) },
				set: func(d D) {
					for get(d).Len() > 0 {
						get(d).Delete(get(d).At(0).Key)
					}
					get(d).Put(name, n)
				}}
		}
	}
	return s
}

// ---- documentation items of an API document ----

func docItem(id string) (n *yaml.Node, check func(x raml.Documentation, what string)) {
	title, content := anyText(id+".title"), anyText(id+".content")
	n = mapNode(strNode("title"), strNode(title), strNode("content"), strNode(content))
	return n, func(x raml.Documentation, what string) {
		sym.Assert(x.Title() == title, what+": documentation title")
		sym.Assert(x.Content() == content, what+": documentation content")
		sym.Assert(x.ExtraFacets().Len() == 0, what+": documentation: no unknown entries")
	}
}

func newDoc() raml.Documentation {
	a := parseAPI(mapNode(strNode("documentation"), seqNode(mapNode())))
	sym.Assert(len(a.Documentation()) == 1, "one documentation item")
	return a.Documentation()[0]
}

func docsSec() section[raml.APISpec] {
	type D = raml.APISpec
	have := func(cks []func(raml.Documentation, string)) func(D, string) {
		return func(d D, what string) { eachOf(cks)(d.Documentation(), what+": documentation") }
	}
	items := func(id string) (n *yaml.Node, cks []func(raml.Documentation, string)) {
		n = seqNode()
		for i, k := 0, upto(id+".items", 2); i < k; i++ {
			in, ck := docItem(id + "." + string(rune('0'+i)))
			n.Content = append(n.Content, in)
			cks = append(cks, ck)
		}
		return
	}
	return section[D]{
		name: "documentation", group: "documentation",
		parsed: func(id string) sv[D] {
			n, cks := items(id)
			return sv[D]{name: "documentation", in: n, out: n, may: len(cks) == 0, check: have(cks)}
		},
		built: func(id string) sv[D] {
			n, cks := items(id)
			var ds []raml.Documentation
			for _, c := range n.Content {
				x := newDoc()
				sym.Assert(x.SetTitle(c.Content[1].Value) == x, "a setter returns the element itself")
				sym.Assert(x.SetContent(c.Content[3].Value) == x, "a setter returns the element itself")
				ds = append(ds, x)
			}
			return sv[D]{name: "documentation", out: n, may: len(ds) == 0, check: have(cks),
				set: func(d D) { self(d.SetDocumentation(ds), d) }}
		},
		unset:  func(d D) { self(d.UnsetDocumentation(), d) },
		setNil: func(d D) { self(d.SetDocumentation(nil), d) },
		absent: func(d D, what string) { sym.Assert(len(d.Documentation()) == 0, what+": no documentation") },
		list:   func(d D) interface{} { return d.Documentation() },
		setList: func(d D, l interface{}) bool {
			v, ok := l.([]raml.Documentation)
			if ok {
				self(d.SetDocumentation(v), d)
			}
			return ok
		},
		bad: func(id string) *yaml.Node {
			n := content(id, 1)
			if n.Kind == yaml.SequenceNode {
				return seqNode(notMap(id + ".item"))
			}
			if n.Kind == yaml.ScalarNode {
				sym.Assume(n.Tag != "!include")
			}
			return n
		},
	}
}

// ---- the elements ----

// Setters that an API document has beside those of its interface.
type schemesSetter interface {
	SetSecuritySchemes(raml.UntypedMap) raml.APISpec
	UnsetSecuritySchemes() raml.APISpec
}
type annTypesSetter interface {
	SetAnnotationTypes(raml.UntypedMap) raml.APISpec
	UnsetAnnotationTypes() raml.APISpec
}

func kitAPI() docKit[raml.APISpec] {
	type D = raml.APISpec
	var setSchemes, setAnnTypes func(D, raml.UntypedMap) D
	var unsetSchemes, unsetAnnTypes func(D) D
	if _, ok := rbuild.NewAPISpec().(schemesSetter); ok {
		setSchemes = func(d D, m raml.UntypedMap) D { return d.(schemesSetter).SetSecuritySchemes(m) }
		unsetSchemes = func(d D) D { return d.(schemesSetter).UnsetSecuritySchemes() }
	}
	if _, ok := rbuild.NewAPISpec().(annTypesSetter); ok {
		setAnnTypes = func(d D, m raml.UntypedMap) D { return d.(annTypesSetter).SetAnnotationTypes(m) }
		unsetAnnTypes = func(d D) D { return d.(annTypesSetter).UnsetAnnotationTypes() }
	}
	return docKit[D]{
		read: parseAPI, fresh: rbuild.NewAPISpec, write: writeAPI,
		sections: []section[D]{
			plainSec[D]("title", D.Title, D.SetTitle),
			textSec[D]("version", D.Version, D.SetVersion, D.UnsetVersion),
			textSec[D]("description", D.Description, D.SetDescription, D.UnsetDescription),
			textSec[D]("baseUri", D.BaseURI, D.SetBaseURI, D.UnsetBaseURI),
			textsSec[D]("protocols", false, D.Protocols, D.SetProtocols, D.UnsetProtocols),
			textsSec[D]("mediaType", true, D.MediaTypes, D.SetMediaTypes, D.UnsetMediaTypes),
			textsSec[D]("securedBy", false, D.SecuredBy, D.SetSecuredBy, D.UnsetSecuredBy),
			docsSec(),
			usesSec[D](D.Uses, D.SetUses, D.UnsetUses),
			tableSec[D]("baseUriParameters", D.BaseURIParameters, nil, nil),
			tableSec[D]("securitySchemes", D.SecuritySchemes, setSchemes, unsetSchemes),
			tableSec[D]("annotationTypes", D.AnnotationTypes, setAnnTypes, unsetAnnTypes),
			tableSec[D]("traits", D.Traits, D.SetTraits, D.UnsetTraits),
			tableSec[D]("resourceTypes", D.ResourceTypes, D.SetResourceTypes, D.UnsetResourceTypes),
			typesSec[D]("types", D.Types, D.SetTypes, D.UnsetTypes),
			typesSec[D]("schemas", D.Schemas, D.SetSchemas, D.UnsetSchemas),
			annSec[D](D.Annotations, D.SetAnnotations, D.UnsetAnnotations),
			resourceSec[D](D.Resources),
			unknownSec[D](D.ExtraFacets),
		},
	}
}

func kitLib() docKit[raml.Library] {
	type D = raml.Library
	return docKit[D]{
		read: parseLib, fresh: rbuild.NewLibrary, write: writeLib,
		sections: []section[D]{
			textSec[D]("usage", D.Usage, D.SetUsage, D.UnsetUsage),
			usesSec[D](D.Uses, D.SetUses, D.UnsetUses),
			tableSec[D]("securitySchemes", D.SecuritySchemes, nil, nil),
			tableSec[D]("annotationTypes", D.AnnotationTypes, nil, nil),
			tableSec[D]("traits", D.Traits, D.SetTraits, D.UnsetTraits),
			tableSec[D]("resourceTypes", D.ResourceTypes, D.SetResourceTypes, D.UnsetResourceTypes),
			typesSec[D]("types", D.Types, D.SetTypes, D.UnsetTypes),
			typesSec[D]("schemas", D.Schemas, D.SetSchemas, D.UnsetSchemas),
			annSec[D](D.Annotations, D.SetAnnotations, D.UnsetAnnotations),
			unknownSec[D](D.ExtraFacets),
		},
	}
}

func kitDoc() docKit[raml.Documentation] {
	type D = raml.Documentation
	return docKit[D]{
		read: func(n *yaml.Node) D {
			a := parseAPI(mapNode(strNode("documentation"), seqNode(n)))
			sym.Assert(len(a.Documentation()) == 1, "one documentation item")
			return a.Documentation()[0]
		},
		fresh: newDoc,
		write: func(d D) *yaml.Node {
			w := writeAPI(rbuild.NewAPISpec().SetDocumentation([]D{d}))
			v, c := entry(w, "documentation")
			sym.Assert(c == 1 && v.Kind == yaml.SequenceNode && len(v.Content) == 1, "one documentation item is written")
			return v.Content[0]
		},
		sections: []section[D]{
			plainSec[D]("title", D.Title, D.SetTitle),
			plainSec[D]("content", D.Content, D.SetContent),
			unknownSec[D](D.ExtraFacets),
		},
	}
}

// kitXML: the XML settings of types of one kind.
func kitXML(expr string) docKit[raml.XML] {
	type D = raml.XML
	type hasXML interface{ XML() raml.XML }
	read := func(n *yaml.Node) D {
		t := parseTypeNode(mapNode(strNode("type"), strNode(expr), strNode("xml"), n))
		x := t.(hasXML).XML()
		sym.Assert(x != nil, "the xml settings are found")
		return x
	}
	return docKit[D]{
		read:  read,
		fresh: newXML,
		write: func(d D) *yaml.Node {
			t := parseTypeNode(strNode(expr))
			setXML(t, d)
			v, c := entry(writeType(t), "xml")
			sym.Assert(c == 1, "the xml settings are written")
			return v
		},
		sections: []section[D]{
			flagSec[D]("attribute", D.IsAttribute, D.SetIsAttribute, D.UnsetIsAttribute),
			flagSec[D]("wrapped", D.IsWrapped, D.SetIsWrapped, D.UnsetIsWrapped),
			textSec[D]("name", D.Name, D.SetName, D.UnsetName),
			textSec[D]("namespace", D.Namespace, D.SetNamespace, D.UnsetNamespace),
			textSec[D]("prefix", D.Prefix, D.SetPrefix, D.UnsetPrefix),
			unknownSec[D](nil),
		},
	}
}

// setXML gives the settings to a type of any kind.
func setXML(t raml.DataType, x raml.XML) {
	switch e := t.(type) {
	case raml.AnyType:
		e.SetXML(x)
	case raml.ArrayType:
		e.SetXML(x)
	case raml.BoolType:
		e.SetXML(x)
	case raml.DateOnlyType:
		e.SetXML(x)
	case raml.DatetimeType:
		e.SetXML(x)
	case raml.DatetimeOnlyType:
		e.SetXML(x)
	case raml.FileType:
		e.SetXML(x)
	case raml.IntegerType:
		e.SetXML(x)
	case raml.NumberType:
		e.SetXML(x)
	case raml.ObjectType:
		e.SetXML(x)
	case raml.StringType:
		e.SetXML(x)
	case raml.TimeOnlyType:
		e.SetXML(x)
	case raml.UnionType:
		e.SetXML(x)
	case raml.CustomType:
		e.SetXML(x)
	default:
		sym.Unsupported("xml of this kind of type")
	}
}

// ---- the properties, for any of them ----

// state is what the element is expected to hold.
type state[D any] struct {
	kit    *docKit[D]
	have   map[int]sv[D]
	copied bool // the element was read again
}

func (s *state[D]) has(group string) (int, bool) {
	for i := range s.kit.sections {
		if _, ok := s.have[i]; ok && s.kit.sections[i].group == group {
			return i, true
		}
	}
	return 0, false
}

func (s *state[D]) check(d D, what string) {
	for i := range s.kit.sections {
		sec := &s.kit.sections[i]
		if v, ok := s.have[i]; ok {
			v.check(d, what)
			if v.ident != nil && !s.copied {
				v.ident(d, what)
			}
		} else if j, ok := s.has(sec.group); !ok {
			sec.absent(d, what)
		} else {
			s.have[j].check(d, what)
		}
	}
}

func (s *state[D]) written(n *yaml.Node, what string) {
	var ws []want
	for i := range s.kit.sections {
		if v, ok := s.have[i]; ok {
			ws = append(ws, want{v.name, v.out, v.may})
		} else if a := s.kit.sections[i].always; a != nil {
			ws = append(ws, want{s.kit.sections[i].name, a, true})
		}
	}
	assertEntries(n, ws, what)
}

// name: under which the entry is declared.
func declaredName[D any](sec *section[D], v sv[D]) string {
	if sec.name == "schemas" {
		return "schemas"
	}
	return v.name
}

func (s *state[D]) add(n *yaml.Node, i int, id string) {
	sec := &s.kit.sections[i]
	v := sec.parsed(id)
	s.have[i] = v
	n.Content = append(n.Content, strNode(declaredName(sec, v)), v.in)
}

// secPairs: any two entries, in any order, with any values: read, written and
// read again.
func secPairs[D any](kit docKit[D]) {
	slim = sym.Tier() == 0
	k := len(kit.sections)
	i, j := sym.Choice("first", k), sym.Choice("second", k)
	sym.Assume(kit.sections[i].group != kit.sections[j].group)
	st := state[D]{kit: &kit, have: map[int]sv[D]{}}
	n := mapNode()
	st.add(n, i, "v0")
	st.add(n, j, "v1")
	roundTrip(&st, n)
}

// secSingle: any entry with any value, or none.
func secSingle[D any](kit docKit[D]) {
	slim = false
	st := state[D]{kit: &kit, have: map[int]sv[D]{}}
	n := mapNode()
	if i := sym.Choice("entry", len(kit.sections)+1); i < len(kit.sections) {
		st.add(n, i, "v0")
	}
	roundTrip(&st, n)
}

// secAll: every entry at once but one, in declaration or reverse order.
func secAll[D any](kit docKit[D]) {
	slim = true
	st := state[D]{kit: &kit, have: map[int]sv[D]{}}
	n := mapNode()
	k := len(kit.sections)
	skip, rev := sym.Choice("without", k+1), sym.Bool("reversed")
	for c := 0; c < k; c++ {
		i := c
		if rev {
			i = k - 1 - c
		}
		if _, dup := st.has(kit.sections[i].group); i == skip || dup {
			continue
		}
		st.add(n, i, "i"+string(rune('a'+i)))
	}
	roundTrip(&st, n)
}

func roundTrip[D any](st *state[D], n *yaml.Node) {
	d := st.kit.read(n)
	st.check(d, "read")
	w := st.kit.write(d)
	st.written(w, "written")
	again := st.kit.read(w)
	st.check(again, "read again")
	sym.Reached("end")
}

// secStart: a new element, or one that was read with every entry set.
func secStart[D any](kit *docKit[D], full bool) (D, *state[D]) {
	st := &state[D]{kit: kit, have: map[int]sv[D]{}}
	if !full {
		return kit.fresh(), st
	}
	n := mapNode()
	for i := range kit.sections {
		if _, dup := st.has(kit.sections[i].group); !dup {
			st.add(n, i, "i"+string(rune('a'+i)))
		}
	}
	return kit.read(n), st
}

// secChange: one configuring call on the element.
func secChange[D any](d D, st *state[D], id string) {
	i := sym.Choice(id+"section", len(st.kit.sections))
	sec := &st.kit.sections[i]
	drop := func() {
		if j, ok := st.has(sec.group); ok {
			delete(st.have, j)
		}
	}
	switch sym.Choice(id+"call", 3) {
	case 0:
		sym.Assume(sec.built != nil)
		v := sec.built(id + "v")
		v.set(d)
		drop()
		st.have[i] = v
	case 1:
		sym.Assume(sec.unset != nil)
		sec.unset(d)
		drop()
	default:
		sym.Assume(sec.setNil != nil)
		sec.setNil(d)
		drop()
	}
}

func secHistory[D any](kit *docKit[D]) (D, *state[D]) {
	slim = true
	full := sym.Bool("full")
	d, st := secStart(kit, full)
	if full {
		slim = false
	}
	before := sym.Bool("writtenBefore")
	if before {
		kit.write(d)
		st.check(d, "written")
	}
	secChange(d, st, "c0")
	slim = true
	if !full {
		if before {
			kit.write(d)
			st.check(d, "written")
		}
		secChange(d, st, "c1")
	}
	for i := 0; i < sym.Tier(); i++ {
		secChange(d, st, "d"+string(rune('0'+i)))
	}
	return d, st
}

// secSetters: any history of calls, observed through the accessors.
func secSetters[D any](kit docKit[D]) {
	d, st := secHistory(&kit)
	st.check(d, "after the calls")
	sym.Reached("end")
}

// secBuilt: any history of calls, observed by writing.
func secBuilt[D any](kit docKit[D]) {
	d, st := secHistory(&kit)
	w := kit.write(d)
	st.written(w, "written")
	sym.Reached("end")
}

func C11_pairs()           { secPairs(kitAPI()) }
func C11_single()          { secSingle(kitAPI()) }
func C11_all()             { secAll(kitAPI()) }
func C11_built()           { secBuilt(kitAPI()) }
func C11_docs()            { secPairs(kitDoc()) }
func C11_docsSingle()      { secSingle(kitDoc()) }
func C11_docsBuilt()       { secBuilt(kitDoc()) }
func C12_pairs()           { secPairs(kitLib()) }
func C12_single()          { secSingle(kitLib()) }
func C12_all()             { secAll(kitLib()) }
func C12_built()           { secBuilt(kitLib()) }
func C13_apiSetters()      { secSetters(kitAPI()) }
func C13_librarySetters()  { secSetters(kitLib()) }
func C13_documentSetters() { secSetters(kitDoc()) }
func C13_xmlSetters()      { secSetters(kitXML("string")) }

// c17: the XML settings of types of one kind.
func c17pairs(k kind)  { secPairs(kitXML(k.expr)) }
func c17single(k kind) { secSingle(kitXML(k.expr)) }
func c17all(k kind)    { secAll(kitXML(k.expr)) }
func c17built(k kind)  { secBuilt(kitXML(k.expr)) }

// c17whole: the settings of a type as a whole: declared or not, replaced,
// unset.
func c17whole(k kind) {
	slim = false
	type hasXML interface{ XML() raml.XML }
	n := mapNode(strNode("type"), exprNode(&k))
	declared := sym.Bool("declared")
	xml := mapNode()
	if declared {
		for i, m := 0, sym.Choice("settings", 3); i < m; i++ {
			xml.Content = append(xml.Content, strNode([]string{"prefix", "wrapped"}[i]), []*yaml.Node{strNode(anyText("p")), boolNode(sym.Bool("w"))}[i])
		}
		n.Content = append(n.Content, strNode("xml"), xml)
	}
	t := parseTypeNode(n)
	sym.Assert((t.(hasXML).XML() != nil) == declared, "settings are reported exactly when declared")
	f := &k.facets[xmlIndex(&k)]
	switch sym.Choice("call", 4) {
	case 1:
		f.unset(t)
		declared = false
	case 2:
		f.setNil(t)
		declared = false
	case 3:
		v := f.built("x")
		v.set(t)
		v.check(t, "after the call")
		declared, xml = true, v.out
	}
	sym.Assert((t.(hasXML).XML() != nil) == declared, "settings are reported exactly when set")
	w := writeType(t)
	if !declared {
		assertTree(w, exprNode(&k), "written without settings")
	} else {
		x, c := entry(w, "xml")
		if c > 0 {
			var ws []want
			for i := 0; i+1 < len(xml.Content); i += 2 {
				ws = append(ws, want{xml.Content[i].Value, xml.Content[i+1], false})
			}
			assertEntries(x, ws, "written settings")
		}
		sym.Assert(c == 1 || len(xml.Content) == 0, "the settings are written")
	}
	again := parseTypeNode(w)
	sym.Assert((again.(hasXML).XML() != nil) == (declared && w.Kind == yaml.MappingNode && len(w.Content) == 4), "read again")
	sym.Reached("end")
}

func xmlIndex(k *kind) int {
	for i := range k.facets {
		if k.facets[i].name == "xml" {
			return i
		}
	}
	sym.Unsupported("no xml facet")
	return 0
}
