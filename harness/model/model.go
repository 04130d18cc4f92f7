// Package model holds the models of the text layer, interpreted by the engine
// in place of the YAML scanner/emitter and of encoding/json's encoder.
package model

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strconv"
	"sync"
	"sync/atomic"

	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// The text of a document is a placeholder that names a stashed tree:
//
//	%%DOC<n>%%\n
const mark = "%%DOC"
const jmark = "%%JSON"

func placeholder(m string, v interface{}) string {
	return m + strconv.Itoa(sym.Stash(v)) + "%%"
}

func DocText(header string, n *yaml.Node) string {
	s := header
	if len(header) > 0 && header[len(header)-1] != '\n' {
		s += "\n"
	}
	if n == nil {
		return header
	}
	return s + placeholder(mark, n) + "\n"
}

// find scans the text for the document's placeholder: comment lines, blank
// lines and document markers before it are skipped.
func find(b []byte) (*yaml.Node, error) {
	var out *yaml.Node
	n := 0
	for len(b) > 0 {
		i := bytes.IndexByte(b, '\n')
		line := b
		if i >= 0 {
			line = b[:i]
			b = b[i+1:]
		} else {
			b = nil
		}
		s := string(line)
		if s == "" || s[0] == '#' || s == "---" || s == "..." {
			continue
		}
		if len(s) > len(mark)+2 && s[:len(mark)] == mark && s[len(s)-2:] == "%%" {
			id, err := strconv.Atoi(s[len(mark) : len(s)-2])
			if err != nil {
				return nil, errors.New("yaml: garbled text")
			}
			n++
			if n > 1 {
				if out == nil {
					return nil, errors.New("yaml: garbled text")
				}
				continue
			}
			out = sym.Unstash(id).(*yaml.Node)
			continue
		}
		return nil, errors.New("yaml: garbled text")
	}
	if out == nil {
		return nil, io.EOF
	}
	return out, nil
}

// ---- decoder ----

type decState struct {
	r    io.Reader
	done bool
}

var decs = map[*yaml.Decoder]*decState{}

func NewDecoder(r io.Reader) *yaml.Decoder {
	d := new(yaml.Decoder)
	decs[d] = &decState{r: r}
	return d
}

func KnownFields(d *yaml.Decoder, enable bool) {}

func Decode(d *yaml.Decoder, v interface{}) error {
	st := decs[d]
	if st.done {
		return io.EOF
	}
	st.done = true
	b, err := readAll(st.r)
	if err != nil {
		return errors.New("yaml: input error: " + err.Error())
	}
	n, err := find(b)
	if err != nil {
		return err
	}
	return into(n, v)
}

func readAll(r io.Reader) ([]byte, error) {
	var out []byte
	buf := make([]byte, 64)
	for idle := 0; idle < 1000; idle++ {
		n, err := r.Read(buf)
		if n > 0 {
			idle = 0
		}
		out = append(out, buf[:n]...)
		if len(out) > 512 && len(buf) < 512 {
			buf = make([]byte, 4096)
		}
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return nil, err
		}
	}
	return nil, io.ErrNoProgress
}

func Unmarshal(b []byte, v interface{}) error {
	n, err := find(b)
	if err == io.EOF {
		return nil
	}
	if err != nil {
		return err
	}
	return into(n, v)
}

func NodeDecode(n *yaml.Node, v interface{}) error {
	if n.Kind == yaml.DocumentNode {
		if len(n.Content) != 1 {
			sym.Unsupported("document node without a single root")
		}
		return into(n.Content[0], v)
	}
	return into(n, v)
}

func into(n *yaml.Node, v interface{}) error {
	if n.Kind == yaml.AliasNode {
		n = n.Alias
	}
	switch t := v.(type) {
	case *yaml.Node:
		*t = yaml.Node{Kind: yaml.DocumentNode, Line: 1, Column: 1, Content: []*yaml.Node{n}}
		return nil
	case yaml.Unmarshaler:
		if n.ShortTag() == "!!null" {
			return nil
		}
		return t.UnmarshalYAML(n)
	}
	sym.Unsupported("decoding into a plain Go value")
	return nil
}

// ---- encoder ----

type encState struct {
	w    io.Writer
	docs int
}

var encs = map[*yaml.Encoder]*encState{}

func NewEncoder(w io.Writer) *yaml.Encoder {
	e := new(yaml.Encoder)
	encs[e] = &encState{w: w}
	return e
}

func SetIndent(e *yaml.Encoder, n int) {
	if n < 0 {
		panic("yaml: cannot indent to a negative number of spaces")
	}
}

func Close(e *yaml.Encoder) error { return nil }

func Encode(e *yaml.Encoder, v interface{}) error {
	st := encs[e]
	head, n, err := normDoc(v)
	if err != nil {
		return err
	}
	txt := ""
	if st.docs > 0 {
		txt = "---\n"
	}
	st.docs++
	if head != "" {
		txt += head + "\n\n"
	}
	txt += placeholder(mark, n) + "\n"
	// the real emitter hands over its text in several pieces
	cut := len(txt) / 2
	if _, err := st.w.Write([]byte(txt[:cut])); err != nil {
		return errors.New("yaml: write error: " + err.Error())
	}
	if _, err := st.w.Write([]byte(txt[cut:])); err != nil {
		return errors.New("yaml: write error: " + err.Error())
	}
	return nil
}

func Marshal(v interface{}) ([]byte, error) {
	head, n, err := normDoc(v)
	if err != nil {
		return nil, err
	}
	txt := ""
	if head != "" {
		txt = head + "\n\n"
	}
	return []byte(txt + placeholder(mark, n) + "\n"), nil
}

func NodeEncode(n *yaml.Node, v interface{}) error {
	_, x, err := normDoc(v)
	if err != nil {
		return err
	}
	*n = *x
	return nil
}

// NodeTree is the tree a reader of the written value sees.
func NodeTree(v interface{}) *yaml.Node {
	_, n, err := normDoc(v)
	sym.Assert(err == nil, "value can be written")
	return n
}

func Tree(b []byte) *yaml.Node {
	n, err := find(b)
	if err == io.EOF {
		return nil
	}
	sym.Assert(err == nil, "the written text is readable")
	return n
}

func normDoc(v interface{}) (string, *yaml.Node, error) {
	if n, ok := v.(*yaml.Node); ok && n != nil && sym.Untouched(n) {
		return "", n, nil
	} else if ok && n != nil && n.Kind == yaml.DocumentNode {
		if len(n.Content) != 1 {
			sym.Unsupported("document node without a single root")
		}
		x, err := norm(n.Content[0])
		return comment(n.HeadComment), x, err
	}
	x, err := value(v)
	return "", x, err
}

// comment: the emitter writes a head comment line by line, adding the # sign.
func comment(s string) string {
	if s == "" {
		return ""
	}
	for len(s) > 0 && s[len(s)-1] == '\n' {
		s = s[:len(s)-1]
	}
	if s != "" && s[0] != '#' {
		s = "# " + s
	}
	return s
}

func null() *yaml.Node { return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!null", Line: 1} }

func value(v interface{}) (*yaml.Node, error) {
	if v == nil {
		return null(), nil
	}
	switch t := v.(type) {
	case *yaml.Node:
		if t == nil {
			return null(), nil
		}
		return norm(t)
	case yaml.Node:
		return norm(&t)
	case yaml.Marshaler:
		if sym.NilPtr(v) {
			return null(), nil
		}
		x, err := t.MarshalYAML()
		if err != nil {
			return nil, err
		}
		return value(x)
	case string:
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: t, Line: 1}, nil
	case bool:
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!bool", Value: strconv.FormatBool(t), Line: 1}, nil
	case int:
		return intNode(int64(t)), nil
	case int64:
		return intNode(t), nil
	case uint:
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!int", Value: strconv.FormatUint(uint64(t), 10), Line: 1}, nil
	case float64:
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!float", Value: strconv.FormatFloat(t, 'g', -1, 64), Line: 1}, nil
	case []string:
		o := &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Line: 1}
		for _, s := range t {
			o.Content = append(o.Content, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: s, Line: 1})
		}
		return o, nil
	case []interface{}:
		o := &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Line: 1}
		for _, s := range t {
			x, err := value(s)
			if err != nil {
				return nil, err
			}
			o.Content = append(o.Content, x)
		}
		return o, nil
	}
	sym.Unsupported("encoding of a plain Go value")
	return nil, nil
}

func intNode(v int64) *yaml.Node {
	return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!int", Value: strconv.FormatInt(v, 10), Line: 1}
}

// norm is the tree that is read back after n was emitted.
func norm(n *yaml.Node) (*yaml.Node, error) {
	if sym.Untouched(n) {
		return n, nil
	}
	if n.Kind == 0 && n.IsZero() {
		return null(), nil
	}
	o := &yaml.Node{Kind: n.Kind, Line: 1, Column: 1, Anchor: n.Anchor}
	switch n.Kind {
	case yaml.SequenceNode, yaml.MappingNode:
		o.Tag = n.ShortTag()
		for i, c := range n.Content {
			if n.Kind == yaml.MappingNode && i%2 == 0 && i+1 >= len(n.Content) {
				break
			}
			x, err := norm(c)
			if err != nil {
				return nil, err
			}
			o.Content = append(o.Content, x)
		}
	case yaml.ScalarNode:
		o.Tag = n.ShortTag()
		o.Value = n.Value
	case yaml.AliasNode:
		o.Value = n.Value
		o.Alias = n.Alias
	case yaml.DocumentNode:
		sym.Unsupported("nested document node")
	default:
		return nil, errors.New("yaml: cannot encode node with unknown kind")
	}
	return o, nil
}

// ---- JSON ----

func JSONMarshal(v interface{}) ([]byte, error) {
	j, err := jvalue(v)
	if err != nil {
		return nil, err
	}
	return []byte(placeholder(jmark, j)), nil
}

func JSON(b []byte) *sym.J {
	j := jfind(b)
	sym.Assert(j != nil, "the JSON text is readable")
	return j
}

func jfind(b []byte) *sym.J {
	p := &jparser{s: string(b)}
	j := p.value()
	p.space()
	if p.bad || p.at != len(p.s) {
		return nil
	}
	return j
}

// jparser reads a JSON text with the model's placeholders in it.
type jparser struct {
	s   string
	at  int
	bad bool
}

func (p *jparser) space() {
	for p.at < len(p.s) && (p.s[p.at] == ' ' || p.s[p.at] == '\n' || p.s[p.at] == '\t' || p.s[p.at] == '\r') {
		p.at++
	}
}

func (p *jparser) fail() *sym.J {
	p.bad = true
	return nil
}

// eat skips white space and then the character, if it is there.
func (p *jparser) eat(c byte) bool {
	p.space()
	if p.at < len(p.s) && p.s[p.at] == c {
		p.at++
		return true
	}
	return false
}

func (p *jparser) word(w string) bool {
	if len(p.s)-p.at >= len(w) && p.s[p.at:p.at+len(w)] == w {
		p.at += len(w)
		return true
	}
	return false
}

func (p *jparser) value() *sym.J {
	p.space()
	if p.at >= len(p.s) {
		return p.fail()
	}
	switch c := p.s[p.at]; {
	case c == '%':
		if !p.word(jmark) {
			return p.fail()
		}
		i := p.at
		for p.at < len(p.s) && p.s[p.at] != '%' {
			p.at++
		}
		id, err := strconv.Atoi(p.s[i:p.at])
		if err != nil || !p.word("%%") {
			return p.fail()
		}
		return sym.Unstash(id).(*sym.J)
	case c == '[':
		p.at++
		o := &sym.J{Kind: "arr"}
		if p.eat(']') {
			return o
		}
		for {
			o.Els = append(o.Els, p.value())
			if p.bad {
				return nil
			}
			if p.eat(']') {
				return o
			}
			if !p.eat(',') {
				return p.fail()
			}
		}
	case c == '{':
		p.at++
		o := &sym.J{Kind: "obj"}
		if p.eat('}') {
			return o
		}
		for {
			k := p.value()
			if p.bad || k.Kind != "str" || !p.eat(':') {
				return p.fail()
			}
			v := p.value()
			if p.bad {
				return nil
			}
			o.Keys = append(o.Keys, k.S)
			o.Els = append(o.Els, v)
			if p.eat('}') {
				return o
			}
			if !p.eat(',') {
				return p.fail()
			}
		}
	case c == '"':
		p.at++
		i := p.at
		for p.at < len(p.s) && p.s[p.at] != '"' {
			if p.s[p.at] == '\\' {
				sym.Unsupported("JSON escapes not made by the model")
			}
			if p.s[p.at] < ' ' {
				return p.fail()
			}
			p.at++
		}
		if p.at >= len(p.s) {
			return p.fail()
		}
		p.at++
		return &sym.J{Kind: "str", S: p.s[i : p.at-1]}
	case p.word("null"):
		return &sym.J{Kind: "null"}
	case p.word("true"):
		return &sym.J{Kind: "bool", B: true}
	case p.word("false"):
		return &sym.J{Kind: "bool", B: false}
	}
	i := p.at
	for p.at < len(p.s) && (p.s[p.at] >= '0' && p.s[p.at] <= '9' || p.s[p.at] == '-' || p.s[p.at] == '.' || p.s[p.at] == 'e' || p.s[p.at] == '+') {
		p.at++
	}
	if p.at == i {
		return p.fail()
	}
	return &sym.J{Kind: "num", N: p.s[i:p.at]}
}

func jvalue(v interface{}) (*sym.J, error) {
	if v == nil {
		return &sym.J{Kind: "null"}, nil
	}
	if m, ok := v.(json.Marshaler); ok {
		if sym.NilPtr(v) {
			return &sym.J{Kind: "null"}, nil
		}
		b, err := m.MarshalJSON()
		if err != nil {
			return nil, errors.New("json: error calling MarshalJSON: " + err.Error())
		}
		j := jfind(b)
		if j == nil {
			return nil, errors.New("json: error calling MarshalJSON: invalid text")
		}
		return j, nil
	}
	switch t := v.(type) {
	case string:
		return &sym.J{Kind: "str", S: t}, nil
	case bool:
		return &sym.J{Kind: "bool", B: t}, nil
	case int:
		return &sym.J{Kind: "num", N: strconv.FormatInt(int64(t), 10)}, nil
	case int64:
		return &sym.J{Kind: "num", N: strconv.FormatInt(t, 10)}, nil
	case uint:
		return &sym.J{Kind: "num", N: strconv.FormatUint(uint64(t), 10)}, nil
	case float64:
		return &sym.J{Kind: "num", N: strconv.FormatFloat(t, 'g', -1, 64)}, nil
	}
	// reflective cases: slice, map, pointer, struct
	kind, keys, vals := sym.Parts(v)
	switch kind {
	case "nil":
		return &sym.J{Kind: "null"}, nil
	case "ptr":
		return jvalue(vals[0])
	case "slice":
		o := &sym.J{Kind: "arr"}
		for _, x := range vals {
			j, err := jvalue(x)
			if err != nil {
				return nil, err
			}
			o.Els = append(o.Els, j)
		}
		return o, nil
	case "struct", "map":
		o := &sym.J{Kind: "obj"}
		for i, x := range vals {
			j, err := jvalue(x)
			if err != nil {
				return nil, err
			}
			o.Keys = append(o.Keys, keys[i])
			o.Els = append(o.Els, j)
		}
		return o, nil
	}
	sym.Unsupported("JSON of " + kind)
	return nil, nil
}

// ---- errors and formatting ----

type wrapped struct {
	msg string
	err error
}

func (w *wrapped) Error() string { return w.msg }
func (w *wrapped) Unwrap() error { return w.err }

// Errorf: the first error argument is wrapped when the verb %w occurs.
func Errorf(format string, a ...interface{}) error {
	s := fmt.Sprintf(format, a...)
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && format[i+1] == 'w' {
			for _, x := range a {
				if e, ok := x.(error); ok {
					return &wrapped{s, e}
				}
			}
		}
	}
	return errors.New(s)
}

func ErrorsIs(err, target error) bool {
	for i := 0; i < 20 && err != nil; i++ {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return err == target
}

// ---- JSON encoders ----

func JSONMarshalIndent(v interface{}, prefix, indent string) ([]byte, error) { return JSONMarshal(v) }

var jencs = map[*json.Encoder]io.Writer{}

func NewJSONEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	jencs[e] = w
	return e
}

func JSONSetEscapeHTML(e *json.Encoder, on bool)           {}
func JSONSetIndent(e *json.Encoder, prefix, indent string) {}

func JSONEncode(e *json.Encoder, v interface{}) error {
	b, err := JSONMarshal(v)
	if err != nil {
		return err
	}
	_, err = jencs[e].Write(append(b, '\n'))
	return err
}

// ---- concurrent maps and values ----

type smap struct{ ks, vs []interface{} }

var smaps = map[*sync.Map]*smap{}

func syncOf(m *sync.Map) *smap {
	if smaps[m] == nil {
		smaps[m] = &smap{}
	}
	return smaps[m]
}

func (s *smap) find(k interface{}) int {
	for i := range s.ks {
		if s.ks[i] == k {
			return i
		}
	}
	return -1
}

func SyncLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	s := syncOf(m)
	if i := s.find(k); i >= 0 {
		return s.vs[i], true
	}
	return nil, false
}

func SyncStore(m *sync.Map, k, v interface{}) { SyncSwap(m, k, v) }

func SyncSwap(m *sync.Map, k, v interface{}) (interface{}, bool) {
	s := syncOf(m)
	if i := s.find(k); i >= 0 {
		old := s.vs[i]
		s.vs[i] = v
		return old, true
	}
	s.ks, s.vs = append(s.ks, k), append(s.vs, v)
	return nil, false
}

func SyncLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	if old, ok := SyncLoad(m, k); ok {
		return old, true
	}
	SyncSwap(m, k, v)
	return v, false
}

func SyncLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	s := syncOf(m)
	i := s.find(k)
	if i < 0 {
		return nil, false
	}
	old := s.vs[i]
	s.ks = append(append([]interface{}{}, s.ks[:i]...), s.ks[i+1:]...)
	s.vs = append(append([]interface{}{}, s.vs[:i]...), s.vs[i+1:]...)
	return old, true
}

func SyncDelete(m *sync.Map, k interface{}) { SyncLoadAndDelete(m, k) }
func SyncClear(m *sync.Map)                 { smaps[m] = nil }

func SyncRange(m *sync.Map, f func(k, v interface{}) bool) {
	s := syncOf(m)
	ks, vs := s.ks, s.vs
	for i := range ks {
		if !f(ks[i], vs[i]) {
			return
		}
	}
}

var avals = map[*atomic.Value]interface{}{}

func AtomicLoad(v *atomic.Value) interface{}     { return avals[v] }
func AtomicStore(v *atomic.Value, x interface{}) { avals[v] = x }

func AtomicSwap(v *atomic.Value, x interface{}) interface{} {
	old := avals[v]
	avals[v] = x
	return old
}
