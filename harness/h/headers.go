//go:build go1.21

package h

import (
	"bytes"
	"errors"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmod"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"io"
	"os"
	"strings"
)

// outKit: what the two kinds of files have in common.
type outKit[D any] struct {
	docKit[D]
	header string
	out    func(d D, w io.Writer) error
	reread func(b []byte) (D, error)
}

func outAPI() outKit[raml.APISpec] {
	return outKit[raml.APISpec]{kitAPI(), "#%RAML 1.0", func(d raml.APISpec, w io.Writer) error { return d.WriteRAML(w) },
		func(b []byte) (raml.APISpec, error) { return rparse.ParseApiDoc(bytes.NewReader(b)) }}
}

func outLib() outKit[raml.Library] {
	return outKit[raml.Library]{kitLib(), "#%RAML 1.0 Library", func(d raml.Library, w io.Writer) error { return d.WriteRAML(w) },
		func(b []byte) (raml.Library, error) { return rparse.ParseLibrary(bytes.NewReader(b)) }}
}

// subject: a document with any one section, with none or with all of them,
// read or built.
func subject[D any](kit *docKit[D]) (D, *state[D]) {
	slim = true
	st := &state[D]{kit: kit, have: map[int]sv[D]{}}
	k := len(kit.sections)
	if sym.Bool("big") {
		// one text longer than any buffer
		pad = filler([]int{3000, 5000, 70000}[sym.Choice("size", 3)])
		i := longSection(kit)
		n := mapNode()
		st.add(n, i, "v")
		return kit.read(n), st
	}
	switch i := sym.Choice("section", k+2); {
	case i == k+1:
		return kit.fresh(), st
	case i == k:
		return secStart(kit, true)
	default:
		if kit.sections[i].built != nil && sym.Bool("built") {
			d := kit.fresh()
			v := kit.sections[i].built("v")
			v.set(d)
			st.have[i] = v
			return d, st
		}
		n := mapNode()
		st.add(n, i, "v")
		return kit.read(n), st
	}
}

// longSection: a section that holds a text.
func longSection[D any](kit *docKit[D]) int {
	for i := range kit.sections {
		switch kit.sections[i].name {
		case "usage", "description", "content", "name":
			return i
		}
	}
	panic("no section holds a text")
}

// c16header: the written file begins with its header and holds the document.
func c16header[D any](o outKit[D]) {
	d, st := subject(&o.docKit)
	s := &sym.Sink{}
	sym.Assert(o.out(d, s) == nil, "writing succeeds when everything is accepted")
	sym.Assert(sym.HasHeader(s.Buf, o.header), "the first line is the header")
	n := sym.Tree(s.Buf)
	st.written(n, "written")
	again, err := o.reread(s.Buf)
	sym.Assert(err == nil, "the written file can be read")
	st.copied = true
	st.check(again, "read again")
	sym.Reached("end")
}

// failure: what a destination fails with.
func failure() error {
	switch sym.Choice("error", 7) {
	case 0:
		return errors.New(sym.String("message", long))
	case 1:
		return io.EOF
	case 2:
		return io.ErrShortWrite
	case 3:
		return io.ErrUnexpectedEOF
	case 4:
		return io.ErrClosedPipe
	case 5:
		return os.ErrClosed
	}
	return sym.ErrSink
}

// c16faults: the destination fails after any number of bytes, for good or
// once, taking the first part of the failing piece or nothing of it.
func c16faults[D any](o outKit[D]) {
	d, _ := subject(&o.docKit)
	all := &sym.Sink{}
	sym.Assert(o.out(d, all) == nil, "writing succeeds when everything is accepted")
	s := &sym.Sink{Limited: true, Once: sym.Bool("once"), Silent: sym.Bool("silent"), Err: failure()}
	if sym.Bool("early") {
		s.Limit = sym.Range("bytes", 24)
		sym.Assume(s.Limit < len(all.Buf))
	} else {
		// a thousandth part: the length of the text differs from the model's
		s.Limit = len(all.Buf) * sym.Range("permille", 1000) / 1000
	}
	var w io.Writer = s
	if s.Err == sym.ErrSink && sym.Bool("rich") {
		w = sym.RichSink{Sink: s}
	}
	err := o.out(d, w)
	sym.Assert(s.Failed, "the destination failed")
	sym.Assert(err != nil, "a failure of the destination is reported")
	sym.Reached("end")
}

// c16exact: a destination that takes exactly the whole text is no failure.
func c16exact[D any](o outKit[D]) {
	d, _ := subject(&o.docKit)
	all := &sym.Sink{}
	sym.Assert(o.out(d, all) == nil, "writing succeeds when everything is accepted")
	s := &sym.Sink{Limited: true, Limit: len(all.Buf)}
	var w io.Writer = s
	if sym.Bool("rich") {
		w = sym.RichSink{Sink: s}
	}
	sym.Assert(o.out(d, w) == nil, "writing succeeds when everything is accepted")
	sym.Assert(!s.Failed && len(s.Buf) == len(all.Buf), "the whole text is handed over")
	sym.Reached("end")
}

func C16_apiHeader()     { c16header(outAPI()) }
func C16_libraryHeader() { c16header(outLib()) }
func C16_apiFaults()     { c16faults(outAPI()) }
func C16_libraryFaults() { c16faults(outLib()) }
func C16_apiExact()      { c16exact(outAPI()) }
func C16_libraryExact()  { c16exact(outLib()) }

// C16_constants: the headers offered for the kinds of files.
func C16_constants() {
	m := sym.String("module", 12)
	t := rmod.ModuleType(m)
	h := t.ToHeader()
	if m == "root" {
		sym.Assert(h == "#%RAML 1.0", "header of a root file")
	} else {
		sym.Assert(h == "#%RAML 1.0 "+m, "header of a module file")
	}
	for _, c := range []struct{ text, kind string }{
		{rmeta.HeaderRoot, ""}, {rmeta.HeaderDataType, " DataType"}, {rmeta.HeaderExtension, " Extension"},
		{rmeta.HeaderLibrary, " Library"}, {rmeta.HeaderOverlay, " Overlay"}, {rmeta.HeaderTrait, " Trait"},
	} {
		sym.Assert(strings.HasPrefix(c.text, "#%RAML 1.0"+c.kind+"\n"), "header constant")
	}
	sym.Reached("end")
}
