//go:build go1.21

package h

import (
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// ---- parsing and writing whole documents ----

const (
	headAPI = "#%RAML 1.0\n"
	headLib = "#%RAML 1.0 Library\n"
)

func parseAPI(n *yaml.Node) raml.APISpec {
	a, err := rparse.ParseApiDoc(sym.Doc(headAPI, n))
	sym.Assert(err == nil, "a valid API document is read")
	return a
}

func parseLib(n *yaml.Node) raml.Library {
	l, err := rparse.ParseLibrary(sym.Doc(headLib, n))
	sym.Assert(err == nil, "a valid library is read")
	return l
}

// parseTypeNode reads one type declaration.
func parseTypeNode(n *yaml.Node) raml.DataType {
	return theType(parseLib(mapNode(strNode("types"), mapNode(strNode("T"), n))).Types(), "T")
}

func theType(m raml.DataTypeMap, name string) raml.DataType {
	t, ok := m.Get(name)
	sym.Assert(ok && t != nil, "the declared type is found")
	return t
}

// ---- the places of a type declaration ----

const places = 6

// parseAt reads a type declaration at one of the places.
func parseAt(place int, n *yaml.Node) raml.DataType {
	table := mapNode(strNode("T"), n)
	outer := func(k, v string, key string, val *yaml.Node) raml.DataType {
		return parseTypeNode(mapNode(strNode(k), strNode(v), strNode(key), val))
	}
	switch place {
	case 0:
		return parseTypeNode(n)
	case 1:
		return theType(parseLib(mapNode(strNode("schemas"), table)).Schemas(), "T")
	case 2:
		return theType(parseAPI(mapNode(strNode("title"), strNode("x"), strNode("types"), table)).Types(), "T")
	case 3:
		return theType(parseAPI(mapNode(strNode("schemas"), table)).Schemas(), "T")
	case 4:
		t := outer("type", "object", "properties", table)
		p, ok := t.(raml.ObjectType).Properties().Get("T")
		sym.Assert(ok && p != nil, "the declared property is found")
		return p
	default:
		t := outer("type", "array", "items", n)
		it := t.(raml.ArrayType).Items()
		sym.Assert(it != nil, "the declared items are found")
		return it
	}
}

// holds: the type's type table entry or the like also shows it in FacetDefinitions.

// ---- writing ----

func writeLib(l raml.Library) *yaml.Node {
	s := &sym.Sink{}
	sym.Assert(l.WriteRAML(s) == nil, "a library is written without error")
	return sym.Tree(s.Buf)
}

func writeAPI(a raml.APISpec) *yaml.Node {
	s := &sym.Sink{}
	sym.Assert(a.WriteRAML(s) == nil, "an API document is written without error")
	return sym.Tree(s.Buf)
}

// writeType: how the type is written in a type table.
func writeType(t raml.DataType) *yaml.Node {
	l := rbuild.NewLibrary()
	l.SetTypes(raml.NewDataTypeMap(1).SerializeOrdered(false).Put("T", t))
	n := writeLib(l)
	sym.Assert(n != nil && n.Kind == yaml.MappingNode && len(n.Content) == 2, "the written library has one section")
	sym.Assert(n.Content[0].Value == "types", "the written section is the type table")
	tt := n.Content[1]
	sym.Assert(tt.Kind == yaml.MappingNode && len(tt.Content) == 2 && tt.Content[0].Value == "T", "the written table has one type")
	return tt.Content[1]
}

// entry finds the value of a key in a mapping, and how often the key occurs.
func entry(n *yaml.Node, key string) (v *yaml.Node, count int) {
	for i := 0; i+1 < len(n.Content); i += 2 {
		if n.Content[i].Value == key && n.Content[i].ShortTag() == "!!str" {
			v = n.Content[i+1]
			count++
		}
	}
	return
}

// want is one expected entry of a mapping.
type want struct {
	key string
	val *yaml.Node
	may bool // may be missing
}

// assertEntries: the mapping has exactly the expected entries, in any order.
func assertEntries(n *yaml.Node, ws []want, what string) {
	sym.Assert(n != nil && n.Kind == yaml.MappingNode, what+": a mapping is written")
	found := 0
	for _, w := range ws {
		v, c := entry(n, w.key)
		if w.may && c == 0 {
			continue
		}
		sym.Assert(c == 1, what+": every facet is written exactly once, under its name")
		assertTree(v, w.val, what+": written value")
		found++
	}
	sym.Assert(len(n.Content) == 2*found, what+": nothing else is written")
}

// assertWrittenType: the written declaration has exactly the given facets.
func assertWrittenType(n *yaml.Node, k *kind, fs []fv, what string) {
	ty := exprNode(k)
	var ws []want
	must := 0
	for i := range fs {
		if fs[i].never {
			continue
		}
		ws = append(ws, want{fs[i].name, fs[i].out, fs[i].may})
		if !fs[i].may {
			must++
		}
	}
	if must == 0 && n.Kind != yaml.MappingNode {
		assertTree(n, ty, what+": short form")
		return
	}
	sym.Assert(must > 0 || len(ws) > 0, what+": short form of a type without facets")
	ws = append(ws, want{"type", ty, false})
	assertEntries(n, ws, what)
}

// exprNode is the declared type expression.
func exprNode(k *kind) *yaml.Node {
	if k.kind == rmeta.TypeInclude {
		return scalar("!include", k.expr)
	}
	return strNode(k.expr)
}

// ---- declared types ----

// declare: a declaration of the kind with the given facets; pos is the place
// of the type expression among them.
func declare(k *kind, fs []fv, pos int) *yaml.Node {
	n := mapNode()
	for i := 0; i <= len(fs); i++ {
		if i == pos {
			n.Content = append(n.Content, strNode("type"), exprNode(k))
		}
		if i < len(fs) {
			n.Content = append(n.Content, strNode(fs[i].name), fs[i].in)
		}
	}
	return n
}

// checkAll: the type has exactly the given facets.
func checkAll(k *kind, t raml.DataType, have map[int]fv, what string) {
	sym.Assert(t.Kind() == k.kind, what+": kind")
	sym.Assert(t.Type() == k.expr, what+": type expression")
	sym.Assert(t.Schema() == k.expr, what+": schema expression")
	for i := range k.facets {
		if f, ok := have[i]; ok {
			f.check(t, what)
		} else {
			k.facets[i].absent(t, what)
		}
	}
}

func valuesOf(have map[int]fv) (out []fv) {
	for i := 0; i < 40; i++ {
		if f, ok := have[i]; ok {
			out = append(out, f)
		}
	}
	return
}
