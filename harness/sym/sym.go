// Package sym is the vocabulary of the harnesses. Under the symbolic engine
// the functions marked (engine) are replaced; the bodies below are what the
// native replay build runs with a concrete input assignment.
package sym

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

// Assign is one input of a replayed case.
type Assign struct {
	Name string `json:"n"`
	Kind string `json:"k"`
	Int  uint64 `json:"i,omitempty"`
	Str  string `json:"s,omitempty"`
}

var ints = map[string]uint64{}
var strs = map[string]string{}
var tier int

// Load installs an input assignment (native replay).
func Load(in []Assign, t int) {
	ints = map[string]uint64{}
	strs = map[string]string{}
	tier = t
	for _, a := range in {
		if a.Kind == "str" {
			b, _ := base64.StdEncoding.DecodeString(a.Str)
			strs[a.Name] = string(b)
		} else {
			ints[a.Name] = a.Int
		}
	}
}

// RuntimeError stands for Go's runtime panics inside the engine.
type RuntimeError string

func (r RuntimeError) Error() string { return string(r) }

// Failed is the panic value of a failed assertion in the native build.
type Failed struct {
	Msg   string
	Class string
}

// Skip is the panic value of an assumption that does not hold natively.
type Skip struct{ Why string }

// ---- inputs (engine) ----

func Int64(name string) int64       { return int64(ints[name]) }
func Uint64(name string) uint64     { return ints[name] }
func Bool(name string) bool         { return ints[name] != 0 }
func Float(name string) float64     { return math.Float64frombits(ints[name]) }
func Range(name string, n int) int  { return int(ints[name]) }
func Choice(name string, n int) int { return int(ints[name]) }

// String is a text of at most max printable ASCII characters.
func String(name string, max int) string { return strs[name] }

// Text is a text of at most max bytes: printable ASCII, the letters U+00C0 to
// U+00FF and, unless it begins with a space, line breaks after its first
// character (the YAML emitter writes other texts of several lines wrongly).
func Text(name string, max int) string { return strs[name] }

// Pick selects one of opts; for a symbolic i the result stays symbolic.
func Pick(i int, opts ...string) string { return opts[i] }
func PickInt(i int, opts ...int) int    { return opts[i] }
func IntText(v int64) string            { return strconv.FormatInt(v, 10) }
func UintText(v uint64) string          { return strconv.FormatUint(v, 10) }
func FloatText(v float64) string        { return strconv.FormatFloat(v, 'g', -1, 64) }
func Tier() int                         { return tier }
func Symbolic() bool                    { return false }

func Assume(c bool) {
	if !c {
		panic(Skip{"assumption"})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(Failed{Msg: msg})
	}
}

// AssertKnown: a failure is attributed to the class of a recorded finding.
func AssertKnown(class string, c bool, msg string) {
	if !c {
		panic(Failed{Msg: msg, Class: class})
	}
}

// Reached is a vacuity witness.
func Reached(label string) {}

// LazyNode is a node whose content is only determined when it is looked at.
func LazyNode(mk func() yaml.Node) *yaml.Node {
	n := mk()
	return &n
}

// Untouched: the node was created by LazyNode and nothing has looked at it.
func Untouched(n *yaml.Node) bool { return false }

// Unsupported ends the path as not decided.
func Unsupported(why string) { panic(Skip{"unsupported: " + why}) }

// Stash keeps a value for the model of the text layer.
func Stash(v interface{}) int   { panic("sym.Stash in the native build") }
func Unstash(i int) interface{} { panic("sym.Unstash in the native build") }

// Caught runs f and reports the text of its panic, if any.
func Caught(f func()) (msg string, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case Failed, Skip:
				panic(r)
			case error:
				msg = r.Error()
			case string:
				msg = r
			default:
				msg = "panic"
			}
			panicked = true
		}
	}()
	f()
	return
}

// ---- documents ----

// DocText renders the document as YAML text (engine: a placeholder text).
func DocText(header string, n *yaml.Node) string {
	if n == nil {
		return header
	}
	var b strings.Builder
	b.WriteString(header)
	if header != "" && !strings.HasSuffix(header, "\n") {
		b.WriteString("\n")
	}
	emitBlock(&b, n, "")
	b.WriteString("\n")
	var doc yaml.Node
	if err := yaml.Unmarshal([]byte(b.String()), &doc); err != nil {
		panic(Skip{"UNREPRESENTABLE: " + err.Error()})
	}
	if len(doc.Content) != 1 || !sameSource(doc.Content[0], n) {
		panic(Skip{"UNREPRESENTABLE: document text reads differently: " + b.String()})
	}
	return b.String()
}

// Doc is a reader over the document's text.
func Doc(header string, n *yaml.Node) io.Reader { return strings.NewReader(DocText(header, n)) }

func sameSource(a, b *yaml.Node) bool {
	const quoting = yaml.DoubleQuotedStyle | yaml.SingleQuotedStyle | yaml.LiteralStyle
	if s := b.Style & quoting; b.Kind == yaml.ScalarNode && s != 0 && a.Style&quoting != s && (s != yaml.LiteralStyle || literal(b)) {
		return false
	}
	if a.Kind != b.Kind || a.Tag != b.Tag || a.Value != b.Value && a.Kind != yaml.AliasNode || len(a.Content) != len(b.Content) {
		return false
	}
	for i := range a.Content {
		if !sameSource(a.Content[i], b.Content[i]) {
			return false
		}
	}
	return true
}

// literal: the node is written as a literal block.
func literal(n *yaml.Node) bool {
	return n.Kind == yaml.ScalarNode && n.Style == yaml.LiteralStyle && n.Value > "!"
}

func quote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\n':
			b.WriteString("\\n")
		case c < 0x20 || c == 0x7f:
			fmt.Fprintf(&b, "\\x%02x", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// props writes the anchor and the tag of a node.
func props(b *strings.Builder, n *yaml.Node, tag string) {
	if n.Anchor != "" {
		b.WriteString("&" + n.Anchor + " ")
	}
	if n.Tag != tag {
		b.WriteString(n.Tag + " ")
	}
}

// emitBlock writes a node after a key or a dash, its entries indented.
func emitBlock(b *strings.Builder, n *yaml.Node, indent string) {
	b.WriteByte(' ')
	switch {
	case n.Kind == yaml.MappingNode && len(n.Content) > 0:
		props(b, n, "!!map")
		for i := 0; i+1 < len(n.Content); i += 2 {
			b.WriteString("\n" + indent)
			if k := n.Content[i]; k.Kind == yaml.ScalarNode {
				emit(b, k)
				b.WriteString(" :")
			} else {
				b.WriteString("? ")
				emit(b, k)
				b.WriteString("\n" + indent + ":")
			}
			emitBlock(b, n.Content[i+1], indent+"  ")
		}
	case n.Kind == yaml.SequenceNode && len(n.Content) > 0:
		props(b, n, "!!seq")
		for _, c := range n.Content {
			b.WriteString("\n" + indent + "-")
			emitBlock(b, c, indent+"  ")
		}
	case literal(n):
		props(b, n, "!!str")
		v := n.Value
		if strings.HasSuffix(v, "\n") {
			v = v[:len(v)-1]
			b.WriteString("|+")
		} else {
			b.WriteString("|-")
		}
		for _, l := range strings.Split(v, "\n") {
			b.WriteString("\n")
			if l != "" {
				b.WriteString(indent + "  " + l)
			}
		}
	case empty(n):
	default:
		emit(b, n)
	}
}

// empty: the node is written as nothing at all.
func empty(n *yaml.Node) bool {
	return n.Kind == yaml.ScalarNode && n.Tag == "!!null" && n.Value == "" && n.Anchor == "" && n.Style == 0
}

// emit writes a node in one line.
func emit(b *strings.Builder, n *yaml.Node) {
	switch n.Kind {
	case yaml.AliasNode:
		props(b, n, n.Tag)
		b.WriteString("*" + n.Value + " ")
	case yaml.MappingNode:
		props(b, n, "!!map")
		b.WriteString("{")
		for i := 0; i+1 < len(n.Content); i += 2 {
			if i > 0 {
				b.WriteString(", ")
			}
			k := n.Content[i]
			if k.Kind != yaml.ScalarNode {
				b.WriteString("? ")
			}
			emit(b, k)
			b.WriteString(" : ")
			if !empty(n.Content[i+1]) {
				emit(b, n.Content[i+1])
			}
		}
		b.WriteString("}")
	case yaml.SequenceNode:
		props(b, n, "!!seq")
		b.WriteString("[")
		for i, c := range n.Content {
			if i > 0 {
				b.WriteString(", ")
			}
			emit(b, c)
		}
		b.WriteString("]")
	default:
		props(b, n, n.Tag)
		switch n.Tag {
		case "!!str":
			if n.Style == yaml.SingleQuotedStyle && !strings.Contains(n.Value, "\n") {
				b.WriteString("'" + strings.ReplaceAll(n.Value, "'", "''") + "'")
			} else {
				b.WriteString(quote(n.Value))
			}
		case "!!int", "!!float", "!!bool", "!!null", "!!timestamp", "!!merge":
			if (&yaml.Node{Kind: yaml.ScalarNode, Value: n.Value}).ShortTag() != n.Tag && n.Tag != "!!merge" {
				b.WriteString(n.Tag + " " + quote(n.Value))
			} else if n.Value == "" {
				b.WriteString("!!null \"\"")
			} else {
				b.WriteString(n.Value)
			}
		default:
			b.WriteString(n.Tag + " " + quote(n.Value))
		}
	}
}

// ---- output ----

// Sink collects what is written. With Limited, it accepts Limit bytes and
// fails at the first write beyond that; with Once, later writes succeed again.
type Sink struct {
	Buf     []byte
	Writes  int
	Limited bool
	Limit   int
	Once    bool
	Silent  bool // the failing write takes nothing at all
	Failed  bool
	Err     error // what it fails with (nil: ErrSink)
}

var ErrSink = errors.New("sink: write failed")

func (s *Sink) Write(p []byte) (int, error) {
	s.Writes++
	if s.Limited && len(s.Buf)+len(p) > s.Limit && !(s.Failed && s.Once) {
		s.Failed = true
		n := s.Limit - len(s.Buf)
		if n < 0 || s.Silent {
			n = 0
		}
		s.Buf = append(s.Buf, p[:n]...)
		if s.Err != nil {
			return n, s.Err
		}
		return n, ErrSink
	}
	s.Buf = append(s.Buf, p...)
	return len(p), nil
}

// RichSink is a Sink that offers the other ways of writing as well.
type RichSink struct{ *Sink }

func (s RichSink) WriteString(t string) (int, error) { return s.Write([]byte(t)) }

func (s RichSink) WriteByte(b byte) error {
	_, err := s.Write([]byte{b})
	return err
}

func (s RichSink) ReadFrom(r io.Reader) (int64, error) {
	var sum int64
	for p := make([]byte, 512); ; {
		n, err := r.Read(p)
		if n > 0 {
			w, werr := s.Write(p[:n])
			sum += int64(w)
			if werr != nil {
				return sum, werr
			}
		}
		if err == io.EOF {
			return sum, nil
		}
		if err != nil {
			return sum, err
		}
	}
}

// Tree is the document a YAML reader sees in the written text (nil: none).
func Tree(buf []byte) *yaml.Node {
	var doc yaml.Node
	if err := yaml.Unmarshal(buf, &doc); err != nil {
		panic(Failed{Msg: "written text is not readable: " + err.Error()})
	}
	if len(doc.Content) == 0 {
		return nil
	}
	return doc.Content[0]
}

// NodeTree is the document a YAML reader sees after v was written.
func NodeTree(v interface{}) *yaml.Node {
	b, err := yaml.Marshal(v)
	if err != nil {
		panic(Failed{Msg: "value cannot be written: " + err.Error()})
	}
	return Tree(b)
}

// ---- JSON ----

// J is a decoded JSON value with object members in their textual order.
type J struct {
	Kind string // null bool num str arr obj
	B    bool
	N    string // text of a number
	S    string
	Keys []string
	Els  []*J
}

// JSON decodes JSON text (engine: follows the placeholder).
func JSON(b []byte) *J {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	j := jval(d)
	if d.More() {
		panic(Failed{Msg: "more than one JSON value"})
	}
	return j
}

func jval(d *json.Decoder) *J {
	t, err := d.Token()
	if err != nil {
		panic(Failed{Msg: "JSON text is not readable: " + err.Error()})
	}
	switch t := t.(type) {
	case nil:
		return &J{Kind: "null"}
	case bool:
		return &J{Kind: "bool", B: t}
	case json.Number:
		return &J{Kind: "num", N: t.String()}
	case string:
		return &J{Kind: "str", S: t}
	case json.Delim:
		j := &J{Kind: "arr"}
		if t == '{' {
			j.Kind = "obj"
		}
		for d.More() {
			if j.Kind == "obj" {
				k, err := d.Token()
				if err != nil {
					panic(Failed{Msg: "JSON text is not readable: " + err.Error()})
				}
				j.Keys = append(j.Keys, k.(string))
			}
			j.Els = append(j.Els, jval(d))
		}
		d.Token()
		return j
	}
	panic(Failed{Msg: "unexpected JSON token"})
}

// ToJSON is what encoding/json makes of v.
func ToJSON(v interface{}) ([]byte, error) { return json.Marshal(v) }

// HasHeader: the text's first line is exactly h.
func HasHeader(b []byte, h string) bool {
	h = strings.TrimSuffix(h, "\n")
	return len(b) > len(h) && string(b[:len(h)]) == h && b[len(h)] == '\n'
}

var _ = sort.Strings

// NilPtr: v holds a nil pointer (engine).
func NilPtr(v interface{}) bool { panic("sym.NilPtr in the native build") }

// Parts takes a slice, map, pointer or struct apart, naming struct fields by
// their JSON names (engine).
func Parts(v interface{}) (kind string, keys []string, vals []interface{}) {
	panic("sym.Parts in the native build")
}
