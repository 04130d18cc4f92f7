//go:build go1.21

package h

import (
	"strconv"

	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// ---- node builders (source form: short tags, a position) ----

func scalar(tag, v string) *yaml.Node {
	return &yaml.Node{Kind: yaml.ScalarNode, Tag: tag, Value: v, Line: 1, Column: 1}
}
func strNode(s string) *yaml.Node    { return scalar("!!str", s) }
func intNode(v int64) *yaml.Node     { return scalar("!!int", sym.IntText(v)) }
func floatNode(v float64) *yaml.Node { return scalar("!!float", sym.FloatText(v)) }

// nullNode: null in any of its notations, nothing included.
func nullNode(id string) *yaml.Node {
	return scalar("!!null", sym.Pick(sym.Range(id+".null", 4), "null", "", "~", "NULL"))
}

func boolNode(b bool) *yaml.Node {
	if b {
		return scalar("!!bool", "true")
	}
	return scalar("!!bool", "false")
}

func mapNode(kv ...*yaml.Node) *yaml.Node {
	return &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Line: 1, Column: 1, Content: kv}
}

func seqNode(c ...*yaml.Node) *yaml.Node {
	return &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Line: 1, Column: 1, Content: c}
}

// ---- comparison ----

// assertTree: got is the same document as want. Null scalars have one value
// whatever their text.
func assertTree(got, want *yaml.Node, what string) {
	if got == want {
		return
	}
	sym.Assert(got != nil && want != nil, what+": present")
	sym.Assert(got.Kind == want.Kind, what+": kind of node")
	if got.Kind == yaml.AliasNode {
		sym.Assert(got.Value == want.Value, what+": alias")
		return
	}
	gt, wt := got.ShortTag(), want.ShortTag()
	sym.Assert(gt == wt, what+": tag")
	if got.Kind == yaml.ScalarNode {
		if gt == "!!null" {
			return
		}
		if gt == "!!float" {
			a, e1 := strconv.ParseFloat(got.Value, 64)
			b, e2 := strconv.ParseFloat(want.Value, 64)
			if e1 == nil && e2 == nil { // the same number in another notation
				sym.Assert(a == b, what+": value")
				return
			}
		}
		sym.Assert(got.Value == want.Value, what+": value")
		return
	}
	sym.Assert(len(got.Content) == len(want.Content), what+": number of entries")
	for i := range got.Content {
		assertTree(got.Content[i], want.Content[i], what)
	}
}
