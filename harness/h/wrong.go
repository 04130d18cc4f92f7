//go:build go1.21

package h

import (
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// reject: reading the document fails.
func reject(api bool, doc *yaml.Node, what string) {
	if api {
		a, err := rparse.ParseApiDoc(sym.Doc(headAPI, doc))
		sym.Assert(err != nil, what)
		sym.Assert(a == nil, "a document that is not read yields no model")
		return
	}
	l, err := rparse.ParseLibrary(sym.Doc(headLib, doc))
	sym.Assert(err != nil, what)
	sym.Assert(l == nil, "a library that is not read yields no model")
}

// rejectType: reading a declaration fails, at any place.
func rejectType(place int, n *yaml.Node, what string) {
	table := mapNode(strNode("T"), n)
	inType := func(k, v, key string, val *yaml.Node) *yaml.Node {
		return mapNode(strNode("types"), mapNode(strNode("O"), mapNode(strNode(k), strNode(v), strNode(key), val)))
	}
	switch place {
	case 0:
		reject(false, mapNode(strNode("types"), table), what)
	case 1:
		reject(false, mapNode(strNode("schemas"), table), what)
	case 2:
		reject(true, mapNode(strNode("title"), strNode("x"), strNode("types"), table), what)
	case 3:
		reject(true, mapNode(strNode("schemas"), table), what)
	case 4:
		reject(false, inType("type", "object", "properties", table), what)
	case 5:
		reject(false, inType("type", "array", "items", n), what)
	default:
		reject(false, inType("type", "string", "facets", mapNode(strNode("f"), table)), what)
	}
}

// c15facet: any facet with a value of a wrong type or out of range, at any
// place, alone, before or after another facet.
func c15facet(k kind) {
	slim = true
	i := sym.Choice("facet", len(k.facets))
	sym.Assume(k.facets[i].bad != nil)
	n := declare(&k, []fv{{name: k.facets[i].name, in: k.facets[i].bad("bad")}}, sym.Choice("position", 2))
	if j := sym.Choice("other", 3); j > 0 {
		o := []*yaml.Node{strNode("description"), strNode("x")}
		if k.facets[i].name == "description" {
			o[0] = strNode("zz")
		}
		if j == 1 {
			n.Content = append(n.Content, o...)
		} else {
			n.Content = append(o, n.Content...)
		}
		rejectType(0, n, "a wrong value of a facet is rejected")
	} else {
		rejectType(sym.Choice("place", places+1), n, "a wrong value of a facet is rejected")
	}
	sym.Reached("end")
}

// c15example: an expanded example with a wrong value of any entry, or a wrong
// value as such.
func c15example(k kind) {
	slim = true
	fs := k.ex.facets
	i := sym.Choice("entry", len(fs)+2)
	var n *yaml.Node
	switch {
	case i < len(fs):
		sym.Assume(fs[i].bad != nil)
		n = mapNode(strNode(fs[i].name), fs[i].bad("bad"))
		if sym.Bool("valued") {
			in, _, _ := k.ex.parsed("v")
			if sym.Bool("before") {
				n.Content = append([]*yaml.Node{strNode("value"), in}, n.Content...)
			} else {
				n.Content = append(n.Content, strNode("value"), in)
			}
		}
	case i == len(fs):
		sym.Assume(k.ex.bad != nil)
		n = mapNode(strNode("value"), k.ex.bad("bad"))
		if sym.Bool("described") {
			n.Content = append(n.Content, strNode("description"), strNode("x"))
		}
	default:
		sym.Assume(k.ex.bad != nil)
		n = k.ex.bad("bad")
		sym.Assume(n.Kind != yaml.MappingNode)
	}
	at := "example"
	if sym.Bool("named") {
		at = "examples"
		n = mapNode(strNode("N"), n)
		if sym.Bool("second") {
			in, _, _ := k.ex.parsed("v2")
			n.Content = append([]*yaml.Node{strNode("M"), mapNode(strNode("value"), in)}, n.Content...)
		}
	}
	rejectType(0, mapNode(strNode("type"), strNode(k.expr), strNode(at), n), "a wrong value of an example is rejected")
	sym.Reached("end")
}

// c15section: a document or library with a section of a wrong type, alone,
// before or after another one.
func c15section[D any](kit docKit[D], api bool) {
	slim = true
	i := sym.Choice("section", len(kit.sections))
	sec := &kit.sections[i]
	sym.Assume(sec.bad != nil)
	n := mapNode(strNode(sec.name), sec.bad("bad"))
	if j := sym.Choice("other", 3); j > 0 {
		o := []*yaml.Node{strNode("zz"), strNode("x")}
		if j == 1 {
			n.Content = append(n.Content, o...)
		} else {
			n.Content = append(o, n.Content...)
		}
	}
	reject(api, n, "a wrong value of a section is rejected")
	sym.Reached("end")
}

func C15_api()     { c15section(kitAPI(), true) }
func C15_library() { c15section(kitLib(), false) }

// C15_documentation: the texts of documentation items.
func C15_documentation() {
	key := "title"
	if sym.Bool("content") {
		key = "content"
	}
	n := strClass.bad("bad")
	_, err := rparse.ParseApiDoc(sym.Doc(headAPI, mapNode(strNode("documentation"), seqNode(mapNode(strNode(key), n)))))
	sym.AssertKnown("documentation-text", err != nil, "a documentation text that is not a text is rejected")
	sym.Reached("end")
}

// c15xml: XML settings with a wrong value.
func c15xml(k kind) {
	slim = true
	kit := kitXML(k.expr)
	i := sym.Choice("setting", len(kit.sections))
	sec := &kit.sections[i]
	sym.Assume(sec.bad != nil)
	n := mapNode(strNode(sec.name), sec.bad("bad"))
	if sym.Bool("more") {
		n.Content = append([]*yaml.Node{strNode("zz"), strNode("x")}, n.Content...)
	}
	rejectType(0, mapNode(strNode("type"), strNode(k.expr), strNode("xml"), n), "a wrong value of an xml setting is rejected")
	sym.Reached("end")
}

// C15_expressions: declarations whose type expression is no text.
func C15_expressions() {
	place := sym.Choice("place", places+1)
	n := badExpr("bad")
	key := "type"
	if sym.Bool("schema") {
		key = "schema"
	}
	d := mapNode(strNode(key), n)
	switch sym.Choice("form", 4) {
	case 1:
		d.Content = append(d.Content, strNode("zz"), strNode("x"))
	case 2:
		d.Content = append([]*yaml.Node{strNode("properties"), mapNode()}, d.Content...)
	case 3:
		d = badType("whole")
	}
	rejectType(place, d, "a declaration whose type expression is no text is rejected")
	sym.Reached("end")
}

func badExpr(id string) *yaml.Node {
	n := content(id, 1)
	if n.Kind == yaml.ScalarNode {
		sym.Assume(n.Tag != "!!str" && n.Tag != "!include")
	}
	return n
}

// garbled: a scalar that is tagged as a type but is no literal of it.
func garbled(tag string) *yaml.Node {
	if tag == "!!int" && sym.Bool("tail") {
		return scalar(tag, sym.String("text", 3)+"z")
	}
	return scalar(tag, "x"+sym.String("text", 3))
}

// c15garbled: values that are tagged as the right type but are no literals of
// it, in any facet with a typed value.
func c15garbled(k kind) {
	slim = true
	i := sym.Choice("facet", len(k.facets))
	f := &k.facets[i]
	sym.Assume(f.bad != nil)
	if k.expr == "array" || k.expr == "file" || k.expr == "object" {
		sym.Assume(f.name != "default" && f.name != "enum" && f.name != "discriminatorValue" && f.name != "example")
	}
	v := f.parsed("v")
	in := v.in
	inList := in.Kind == yaml.SequenceNode && len(in.Content) == 1
	if inList {
		in = in.Content[0]
	}
	sym.Assume(in.Kind == yaml.ScalarNode)
	tag := in.Tag
	sym.Assume(tag == "!!int" || tag == "!!float" || tag == "!!bool")
	n := garbled(tag)
	if inList {
		n = seqNode(n)
	}
	rejectType(0, declare(&k, []fv{{name: v.name, in: n}}, 0), "a garbled literal is rejected")
	sym.Reached("end")
}
