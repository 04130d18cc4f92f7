//go:build go1.21

package h

import (
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// long is the length of the longest arbitrary text. Texts are only ever
// compared, so that their length is no burden.
const long = 16

// pad begins every longer text, namePad every longer name.
var pad, namePad string

func anyText(id string) string {
	if pad != "" {
		return pad + sym.Text(id, 3)
	}
	return sym.Text(id, long)
}

func anyString(id string) string {
	if namePad != "" {
		return namePad + sym.String(id, 3)
	}
	return sym.String(id, long)
}

// ---- arbitrary content ----

// anyNode is any node whatever; its content is determined when it is looked at.
func anyNode(id string) *yaml.Node { return anyDeep(id, 1) }

func anyDeep(id string, d int) *yaml.Node {
	return sym.LazyNode(func() yaml.Node { return *content(id, d) })
}

// content: any scalar, or a list or a mapping of up to two arbitrary nodes.
func content(id string, d int) *yaml.Node {
	n := 7
	if d > 0 {
		n = 10
	}
	switch sym.Choice(id+".kind", n) {
	case 0:
		return strNode(anyText(id + ".s"))
	case 1:
		return intNode(sym.Int64(id + ".i"))
	case 2:
		return nullNode(id)
	case 3:
		return boolNode(sym.Bool(id + ".b"))
	case 4:
		return floatNode(sym.Float(id + ".f"))
	case 5:
		return scalar("!include", "a"+anyString(id+".inc"))
	case 6: // (a time of day in a flow list is outside: the YAML emitter quotes it)
		return scalar("!!timestamp", sym.Pick(sym.Range(id+".date", 2), "2020-01-02", "1999-12-31"))
	case 7:
		return mapNode()
	case 8:
		return mapNode(strNode(anyString(id+".k0")), anyDeep(id+".v0", d-1))
	default:
		return seqNode(anyDeep(id+".e0", d-1), anyDeep(id+".e1", d-1))
	}
}

func dateNode(id string) *yaml.Node {
	return scalar("!!timestamp", sym.Pick(sym.Range(id+".date", 4),
		"2020-01-02", "1999-12-31", "2001-12-14T21:59:43Z", "2015-05-28T14:33:17.5Z"))
}

// slim: fewer forms of each value (set where several facets are combined; every
// form of every facet is covered on its own).
var slim bool

// each is the number of elements when slim.
var each = 2

// upto is a number of elements: 0 to n, or a given one when slim.
func upto(id string, n int) int {
	if slim {
		if n < each {
			return n
		}
		return each
	}
	return sym.Choice(id, n+1)
}

// ---- value classes ----

// vclass: how to declare, give and recognise the values of one type.
type vclass[V any] struct {
	// parsed: a declared value, how it is written, and its recogniser.
	parsed func(id string) (in, out *yaml.Node, check func(got V, what string))
	// built: a value for a setter.
	built func(id string) (v V, out *yaml.Node, check func(got V, what string))
	// bad: a node that is not a legal value (nil: every node is legal).
	bad func(id string) *yaml.Node
}

func exactly[V comparable](v V) func(got V, what string) {
	return func(got V, what string) { sym.Assert(got == v, what) }
}

// notOf: any node whose tag is none of the given.
// An include tag may stand for a value of any type: not counted as wrong.
func notOf(id string, tags ...string) *yaml.Node {
	n := content(id, 1)
	if n.Kind == yaml.ScalarNode {
		sym.Assume(n.Tag != "!include")
		for _, t := range tags {
			sym.Assume(n.Tag != t)
		}
	}
	return n
}

// styled: a text, quoted or not, or as a block.
func styled(n *yaml.Node, id string) *yaml.Node {
	v := sym.Int64(id + ".style")
	sym.Assume(v == 0 || v == int64(yaml.DoubleQuotedStyle) ||
		v == int64(yaml.SingleQuotedStyle) && !strings.Contains(n.Value, "\n") ||
		v == int64(yaml.LiteralStyle) && n.Value > "!")
	n.Style = yaml.Style(v)
	return n
}

func strClassN(max int) vclass[string] {
	return vclass[string]{
		parsed: func(id string) (*yaml.Node, *yaml.Node, func(string, string)) {
			if slim {
				s := pad + sym.String(id, max)
				return strNode(s), strNode(s), exactly(s)
			}
			s := pad + sym.Text(id, max)
			return styled(strNode(s), id), strNode(s), exactly(s)
		},
		built: func(id string) (string, *yaml.Node, func(string, string)) {
			if slim {
				s := pad + sym.String(id, max)
				return s, strNode(s), exactly(s)
			}
			s := pad + sym.Text(id, max)
			return s, strNode(s), exactly(s)
		},
		bad: func(id string) *yaml.Node { return notOf(id, "!!str") },
	}
}

var strClass = strClassN(long)

// dates and times: texts, quoted or not.
var dateClass = vclass[string]{
	parsed: func(id string) (*yaml.Node, *yaml.Node, func(string, string)) {
		if !slim && sym.Bool(id+".unquoted") {
			n := dateNode(id)
			return n, strNode(n.Value), exactly(n.Value)
		}
		s := anyString(id)
		return strNode(s), strNode(s), exactly(s)
	},
	built: strClass.built,
	bad:   func(id string) *yaml.Node { return notOf(id, "!!str", "!!timestamp") },
}

var boolClass = vclass[bool]{
	parsed: func(id string) (*yaml.Node, *yaml.Node, func(bool, string)) {
		b := sym.Bool(id)
		return boolNode(b), boolNode(b), exactly(b)
	},
	built: func(id string) (bool, *yaml.Node, func(bool, string)) {
		b := sym.Bool(id)
		return b, boolNode(b), exactly(b)
	},
	bad: func(id string) *yaml.Node { return notOf(id, "!!bool") },
}

var intClass = vclass[int64]{
	parsed: func(id string) (*yaml.Node, *yaml.Node, func(int64, string)) {
		v := sym.Int64(id)
		return intNode(v), intNode(v), exactly(v)
	},
	built: func(id string) (int64, *yaml.Node, func(int64, string)) {
		v := sym.Int64(id)
		return v, intNode(v), exactly(v)
	},
	bad: func(id string) *yaml.Node {
		if sym.Bool(id + ".big") {
			v := sym.Uint64(id + ".u")
			sym.Assume(v > 9223372036854775807)
			return scalar("!!int", sym.UintText(v))
		}
		return notOf(id, "!!int")
	},
}

var uintClass = vclass[uint]{
	parsed: func(id string) (*yaml.Node, *yaml.Node, func(uint, string)) {
		v := sym.Int64(id)
		sym.Assume(v >= 0)
		return intNode(v), intNode(v), exactly(uint(v))
	},
	built: func(id string) (uint, *yaml.Node, func(uint, string)) {
		v := sym.Int64(id)
		sym.Assume(v >= 0)
		return uint(v), intNode(v), exactly(uint(v))
	},
	bad: func(id string) *yaml.Node {
		if sym.Bool(id + ".neg") {
			v := sym.Int64(id + ".n")
			sym.Assume(v < 0)
			return intNode(v)
		}
		return intClass.bad(id)
	},
}

// numbers: decimal fractions, or integer literals.
var floatClass = vclass[float64]{
	parsed: func(id string) (*yaml.Node, *yaml.Node, func(float64, string)) {
		if !slim && sym.Bool(id+".integral") {
			k := sym.PickInt(sym.Range(id+".lit", 5), 0, 1, -3, 400, 99999)
			return intNode(int64(k)), floatNode(float64(k)), exactly(float64(k))
		}
		v := sym.Float(id)
		return floatNode(v), floatNode(v), exactly(v)
	},
	built: func(id string) (float64, *yaml.Node, func(float64, string)) {
		v := sym.Float(id)
		return v, floatNode(v), exactly(v)
	},
	bad: func(id string) *yaml.Node { return notOf(id, "!!int", "!!float") },
}

// anything at all.
var anyClass = vclass[interface{}]{
	parsed: func(id string) (*yaml.Node, *yaml.Node, func(interface{}, string)) {
		n := anyNode(id)
		return n, n, func(got interface{}, what string) { assertTree(sym.NodeTree(got), n, what) }
	},
	built: func(id string) (interface{}, *yaml.Node, func(interface{}, string)) {
		kind := 2
		if !slim {
			kind = sym.Choice(id+".go", 3)
		}
		switch kind {
		case 0:
			s := anyString(id)
			return s, strNode(s), func(got interface{}, what string) { sym.Assert(got == interface{}(s), what) }
		case 1:
			v := sym.Int64(id)
			return v, intNode(v), func(got interface{}, what string) { sym.Assert(got == interface{}(v), what) }
		default:
			n := anyNode(id)
			return n, n, func(got interface{}, what string) { sym.Assert(got == interface{}(n), what) }
		}
	},
}

// exAnyClass: as anyClass, for examples, whose values are looked at.
var exAnyClass = vclass[interface{}]{
	parsed: func(id string) (*yaml.Node, *yaml.Node, func(interface{}, string)) {
		if slim {
			n := strNode(anyString(id))
			return n, n, func(got interface{}, what string) { assertTree(sym.NodeTree(got), n, what) }
		}
		return anyClass.parsed(id)
	},
	built: func(id string) (interface{}, *yaml.Node, func(interface{}, string)) {
		if slim {
			s := anyString(id)
			return s, strNode(s), func(got interface{}, what string) { sym.Assert(got == interface{}(s), what) }
		}
		return anyClass.built(id)
	},
}

// listClass: a list of up to max values of one class.
func listClass[V any](c vclass[V], max int) vclass[[]V] {
	return vclass[[]V]{
		parsed: func(id string) (*yaml.Node, *yaml.Node, func([]V, string)) {
			in, out := seqNode(), seqNode()
			var checks []func(V, string)
			for i, n := 0, upto(id+".len", max); i < n; i++ {
				a, b, ck := c.parsed(id + "." + string(rune('0'+i)))
				in.Content = append(in.Content, a)
				out.Content = append(out.Content, b)
				checks = append(checks, ck)
			}
			return in, out, eachOf(checks)
		},
		built: func(id string) ([]V, *yaml.Node, func([]V, string)) {
			n := upto(id+".len", max)
			vs, out := make([]V, 0, n), seqNode()
			var checks []func(V, string)
			for i := 0; i < n; i++ {
				v, b, ck := c.built(id + "." + string(rune('0'+i)))
				vs = append(vs, v)
				out.Content = append(out.Content, b)
				checks = append(checks, ck)
			}
			return vs, out, eachOf(checks)
		},
		bad: func(id string) *yaml.Node {
			n := content(id, 1)
			if n.Kind == yaml.SequenceNode && c.bad != nil {
				good, _, _ := c.parsed(id + ".good")
				switch sym.Choice(id+".at", 4) {
				case 0:
					return seqNode(c.bad(id+".e"), good)
				case 1:
					return seqNode(good, c.bad(id+".e"))
				case 2:
					return seqNode(good, good, c.bad(id+".e"), good)
				}
				return seqNode(good, good, good, good, good, c.bad(id+".e"))
			}
			sym.Assume(n.Kind != yaml.SequenceNode)
			return n
		},
	}
}

func eachOf[V any](checks []func(V, string)) func([]V, string) {
	return func(got []V, what string) {
		sym.Assert(len(got) == len(checks), what+": number of elements")
		for i := range checks {
			checks[i](got[i], what+": element")
		}
	}
}
