package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

func (w *Worker) strConc(v Value) (string, bool) {
	s, ok := v.(*Str)
	if !ok {
		return "", false
	}
	if s.k == SConc {
		return s.s, true
	}
	if s.k == SSym && s.n.isConst() {
		b := make([]byte, s.n.c)
		for i := range b {
			if !s.b[i].isConst() {
				return "", false
			}
			b[i] = byte(s.b[i].c)
		}
		return string(b), true
	}
	return "", false
}

// asSym views a concrete or bounded string as a byte vector.
func (w *Worker) asSym(s *Str) *Str {
	switch s.k {
	case SSym:
		return s
	case SConc:
		r := &Str{k: SSym, n: w.p.BV(uint64(len(s.s)), 64)}
		for i := 0; i < len(s.s); i++ {
			r.b = append(r.b, w.p.BV(uint64(s.s[i]), 8))
		}
		return r
	case SChoice:
		m := 0
		for _, o := range s.opts {
			if len(o) > m {
				m = len(o)
			}
		}
		r := &Str{k: SSym, b: make([]*Term, m)}
		n := w.p.BV(uint64(len(s.opts[len(s.opts)-1])), 64)
		for i := len(s.opts) - 2; i >= 0; i-- {
			n = w.p.Ite(w.p.Eq(s.sel, w.p.BV(uint64(i), s.sel.w)), w.p.BV(uint64(len(s.opts[i])), 64), n)
		}
		r.n = n
		for j := 0; j < m; j++ {
			at := func(o string) *Term {
				if j < len(o) {
					return w.p.BV(uint64(o[j]), 8)
				}
				return w.p.BV(0, 8)
			}
			t := at(s.opts[len(s.opts)-1])
			for i := len(s.opts) - 2; i >= 0; i-- {
				t = w.p.Ite(w.p.Eq(s.sel, w.p.BV(uint64(i), s.sel.w)), at(s.opts[i]), t)
			}
			r.b[j] = t
		}
		return r
	}
	// number texts and opaque texts: narrow to one concrete text
	return w.asSym(conc(w.narrowStr(s)))
}

// narrowStr fixes a number text to its value in the current model. The
// alternatives are not explored; the run is reported as narrowed.
func (w *Worker) narrowStr(s *Str) string {
	switch s.k {
	case SConc:
		return s.s
	case SInt, SFloat:
		if v, ok := w.spread(s.num, s.k == SFloat); ok {
			return numText(s, v)
		}
		w.narrowed("text of a symbolic number inspected")
		v := w.modelValue(s.num)
		w.assume(w.p.Eq(s.num, w.p.BV(v, 64)))
		return numText(s, v)
	case SOpaque:
		panic(unsupported{"inspection of an opaque text"})
	}
	return w.concretizeStr(s)
}

// spread tries some telling values before a number is fixed to the model's.
func (w *Worker) spread(t *Term, float bool) (uint64, bool) {
	if t.w != 64 || w.narrowN > 2 {
		return 0, false
	}
	var vs []uint64
	if float {
		for _, f := range []float64{0, -1, 0.1, 1.5, 1e7, 1e21, 1e-7, 123456789} {
			vs = append(vs, fbits(f, 64))
		}
	} else {
		for _, i := range []int64{0, 1, -1, 128, 70000, 30000000, 1 << 32, 1<<53 + 1, math.MaxInt64, math.MinInt64} {
			vs = append(vs, uint64(i))
		}
	}
	for _, v := range vs {
		if w.branch(w.p.Eq(t, w.p.BV(v, 64))) {
			w.narrowed("number tried at telling values")
			return v, true
		}
	}
	return 0, false
}

func numText(s *Str, v uint64) string {
	if s.k == SFloat {
		return strconv.FormatFloat(fval(v, 64), 'g', -1, 64)
	}
	if s.uns {
		return strconv.FormatUint(v, 10)
	}
	return strconv.FormatInt(int64(v), 10)
}

// concretizeStr forks over every value of a choice; bounded strings are forked
// over their length and then over their bytes only when really needed.
func (w *Worker) concretizeStr(s *Str) string {
	switch s.k {
	case SConc:
		return s.s
	case SChoice:
		for i := 0; i < len(s.opts)-1; i++ {
			if w.branch(w.p.Eq(s.sel, w.p.BV(uint64(i), s.sel.w))) {
				return s.opts[i]
			}
		}
		return s.opts[len(s.opts)-1]
	case SSym:
		n := int(w.concretize(s.n))
		b := make([]byte, n)
		all := true
		for i := range b {
			if !s.b[i].isConst() {
				all = false
			}
		}
		if !all {
			w.narrowed("text of a symbolic string fixed")
		}
		for i := range b {
			v := w.modelValue(s.b[i])
			w.assume(w.p.Eq(s.b[i], w.p.BV(v, 8)))
			b[i] = byte(v)
		}
		return string(b)
	}
	return w.narrowStr(s)
}

func canonInt(s string, uns bool) (uint64, bool) {
	if uns {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil || strconv.FormatUint(v, 10) != s {
			return 0, false
		}
		return v, true
	}
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil || strconv.FormatInt(v, 10) != s {
		return 0, false
	}
	return uint64(v), true
}

func (w *Worker) strEq(a, b *Str) *Term {
	if a == b {
		return w.p.T
	}
	if a.k == SConc && b.k == SConc {
		return w.p.Bool(a.s == b.s)
	}
	if a.k == SConc {
		a, b = b, a
	}
	if a.k == SChoice {
		if b.k == SConc {
			r := w.p.F
			for i, o := range a.opts {
				if o == b.s {
					r = w.p.Or(r, w.p.Eq(a.sel, w.p.BV(uint64(i), a.sel.w)))
				}
			}
			return r
		}
		if b.k == SChoice && a.sel == b.sel && len(a.opts) == len(b.opts) {
			r := w.p.F
			for i := range a.opts {
				if a.opts[i] == b.opts[i] {
					r = w.p.Or(r, w.p.Eq(a.sel, w.p.BV(uint64(i), a.sel.w)))
				}
			}
			return r
		}
	}
	if b.k == SChoice && a.k != SChoice {
		a, b = b, a
	}
	if a.k == SChoice {
		r := w.p.F
		for i, o := range a.opts {
			r = w.p.Or(r, w.p.And(w.p.Eq(a.sel, w.p.BV(uint64(i), a.sel.w)), w.strEq(b, conc(o))))
		}
		return r
	}
	if a.k == SInt || a.k == SFloat {
		if b.k == a.k && a.uns == b.uns {
			return w.p.Eq(a.num, b.num)
		}
		if b.k == SConc {
			if a.k == SInt {
				v, ok := canonInt(b.s, a.uns)
				if !ok {
					return w.p.F
				}
				return w.p.Eq(a.num, w.p.BV(v, 64))
			}
			v, err := strconv.ParseFloat(b.s, 64)
			if err != nil || strconv.FormatFloat(v, 'g', -1, 64) != b.s {
				return w.p.F
			}
			return w.p.Eq(a.num, w.p.BV(fbits(v, 64), 64))
		}
		if b.k == SInt && a.k == SInt {
			// signed text against unsigned text: equal iff same value and non-negative
			return w.p.And(w.p.Eq(a.num, b.num), w.p.Bin(OSle, w.p.BV(0, 64), a.num))
		}
	}
	if (b.k == SInt || b.k == SFloat) && a.k == SConc {
		return w.strEq(b, a)
	}
	if a.k == SOpaque || b.k == SOpaque {
		if a.k == SOpaque && b.k == SOpaque && a.id == b.id {
			return w.p.T
		}
		panic(unsupported{"comparison of an opaque text"})
	}
	if b.k == SInt {
		a, b = b, a
	}
	if a.k == SInt && b.k == SSym && len(b.b) <= 18 {
		return w.intTextEq(a, b)
	}
	if a.k == SInt || a.k == SFloat {
		a = conc(w.narrowStr(a))
	}
	if b.k == SInt || b.k == SFloat {
		b = conc(w.narrowStr(b))
	}
	x, y := w.asSym(a), w.asSym(b)
	r := w.p.Eq(x.n, y.n)
	m := len(x.b)
	if len(y.b) < m {
		m = len(y.b)
	}
	// equal lengths must not exceed the shorter capacity
	if len(x.b) > m && !y.n.isConst() || len(y.b) > m && !x.n.isConst() {
		r = w.p.And(r, w.p.Bin(OUle, x.n, w.p.BV(uint64(m), 64)))
	}
	if y.n.isConst() && y.n.c > uint64(len(x.b)) || x.n.isConst() && x.n.c > uint64(len(y.b)) {
		return w.p.F
	}
	for i := 0; i < m; i++ {
		var in *Term
		if y.n.isConst() {
			in = w.p.Bool(uint64(i) < y.n.c)
		} else if x.n.isConst() {
			in = w.p.Bool(uint64(i) < x.n.c)
		} else {
			in = w.p.Bin(OUlt, w.p.BV(uint64(i), 64), x.n)
		}
		r = w.p.And(r, w.p.Or(w.p.Not(in), w.p.Eq(x.b[i], y.b[i])))
	}
	return r
}

// intTextEq: the text is the decimal text of the number.
func (w *Worker) intTextEq(a, s *Str) *Term {
	digit := func(b *Term) *Term {
		return w.p.And(w.p.Bin(OUle, w.p.BV('0', 8), b), w.p.Bin(OUle, b, w.p.BV('9', 8)))
	}
	r := w.p.F
	for neg := 0; neg < 2; neg++ {
		if neg == 1 && (a.uns || len(s.b) == 0) {
			break
		}
		ds := s.b[neg:]
		ok, v := w.p.T, w.p.BV(0, 64)
		if neg == 1 {
			ok = w.p.Eq(s.b[0], w.p.BV('-', 8))
		}
		for i, d := range ds {
			ok = w.p.And(ok, digit(d))
			v = w.p.Bin(OAdd, w.p.Bin(OMul, v, w.p.BV(10, 64)), w.p.Resize(w.p.Bin(OSub, d, w.p.BV('0', 8)), 64, false))
			c := w.p.And(ok, w.p.Eq(s.n, w.p.BV(uint64(i+1+neg), 64)))
			if i > 0 || neg == 1 {
				c = w.p.And(c, w.p.Not(w.p.Eq(ds[0], w.p.BV('0', 8))))
			}
			x := v
			if neg == 1 {
				x = w.p.Bin(OSub, w.p.BV(0, 64), v)
			}
			r = w.p.Or(r, w.p.And(c, w.p.Eq(a.num, x)))
		}
	}
	return r
}

func (w *Worker) strLen(s *Str) *Term {
	switch s.k {
	case SConc:
		return w.p.BV(uint64(len(s.s)), 64)
	case SSym:
		return s.n
	case SOpaque:
		// an opaque text is never empty
		panic(unsupported{"length of an opaque text"})
	}
	return w.asSym(s).n
}

func (w *Worker) strIndex(s *Str, i *Term) *Term {
	if i.w != 64 {
		i = w.p.Resize(i, 64, true)
	}
	n := w.strLen(s)
	if !w.branch(w.p.Bin(OUlt, i, n)) {
		w.rtPanic("index out of range")
	}
	x := w.asSym(s)
	if i.isConst() {
		return x.b[i.c]
	}
	r := x.b[len(x.b)-1]
	for j := len(x.b) - 2; j >= 0; j-- {
		r = w.p.Ite(w.p.Eq(i, w.p.BV(uint64(j), 64)), x.b[j], r)
	}
	return r
}

func (w *Worker) strSlice(s *Str, lo, hi *Term) *Str {
	n := w.strLen(s)
	if lo == nil {
		lo = w.p.BV(0, 64)
	}
	hiIsLen := hi == nil || hi == n
	if hi == nil {
		hi = n
	}
	ok := w.p.And(w.p.Bin(OUle, lo, hi), w.p.Bin(OUle, hi, n))
	if !w.branch(ok) {
		w.rtPanic("slice bounds out of range")
	}
	if s.k == SConc && lo.isConst() && hi.isConst() {
		return conc(s.s[lo.c:hi.c])
	}
	if lo.isConst() && lo.c == 0 && hiIsLen {
		return s
	}
	if s.k == SChoice {
		s = conc(w.concretizeStr(s))
		return w.strSlice(s, w.p.BV(w.concretize(lo), 64), w.p.BV(w.concretize(hi), 64))
	}
	x := w.asSym(s)
	l := w.concretize(lo)
	r := &Str{k: SSym}
	if hiIsLen {
		r.n = w.p.Bin(OSub, x.n, w.p.BV(l, 64))
		r.b = x.b[l:]
	} else if hi.isConst() {
		r.n = w.p.BV(hi.c-l, 64)
		r.b = x.b[l:hi.c]
	} else {
		// symbolic end: keep the capacity
		r.n = w.p.Bin(OSub, hi, w.p.BV(l, 64))
		r.b = x.b[l:]
	}
	return w.normStr(r)
}

// normStr turns a fully constant byte vector into a concrete string.
func (w *Worker) normStr(s *Str) *Str {
	if c, ok := w.strConc(s); ok {
		return conc(c)
	}
	return s
}

func (w *Worker) strConcat(a, b *Str) *Str {
	if a.k == SConc && b.k == SConc {
		return conc(a.s + b.s)
	}
	if a.k == SConc && a.s == "" {
		return b
	}
	if b.k == SConc && b.s == "" {
		return a
	}
	if a.k == SOpaque || b.k == SOpaque {
		return w.opaque()
	}
	if a.k == SChoice && b.k == SConc {
		r := &Str{k: SChoice, sel: a.sel}
		for _, o := range a.opts {
			r.opts = append(r.opts, o+b.s)
		}
		return r
	}
	if b.k == SChoice && a.k == SConc {
		r := &Str{k: SChoice, sel: b.sel}
		for _, o := range b.opts {
			r.opts = append(r.opts, a.s+o)
		}
		return r
	}
	if a.k == SInt || a.k == SFloat || b.k == SInt || b.k == SFloat {
		return w.opaque()
	}
	x, y := w.asSym(a), w.asSym(b)
	r := &Str{k: SSym, n: w.p.Bin(OAdd, x.n, y.n), b: make([]*Term, len(x.b)+len(y.b))}
	for i := range r.b {
		// value at i: x.b[i] if i < x.n else y.b[i-x.n]
		var t *Term = w.p.BV(0, 8)
		if x.n.isConst() {
			if uint64(i) < x.n.c {
				t = x.b[i]
			} else if i-int(x.n.c) < len(y.b) {
				t = y.b[i-int(x.n.c)]
			}
		} else {
			for k := 0; k <= len(x.b); k++ {
				if i-k >= 0 && i-k < len(y.b) {
					t = w.p.Ite(w.p.Eq(x.n, w.p.BV(uint64(k), 64)), y.b[i-k], t)
				}
			}
			if i < len(x.b) {
				t = w.p.Ite(w.p.Bin(OUlt, w.p.BV(uint64(i), 64), x.n), x.b[i], t)
			}
		}
		r.b[i] = t
	}
	return w.normStr(r)
}

func (w *Worker) opaque() *Str {
	w.opaqueN++
	return &Str{k: SOpaque, id: w.opaqueN}
}

// strLess: lexicographic order on bytes.
func (w *Worker) strLess(a, b *Str) *Term {
	if a.k == SConc && b.k == SConc {
		return w.p.Bool(a.s < b.s)
	}
	x, y := w.asSym(a), w.asSym(b)
	m := len(x.b)
	if len(y.b) > m {
		m = len(y.b)
	}
	// from the back: less(i) = at end of a & not at end of b, or a[i]<b[i], or equal and less(i+1)
	r := w.p.F
	for i := m; i >= 0; i-- {
		ix := w.p.BV(uint64(i), 64)
		ina := w.p.F
		if i < len(x.b) {
			ina = w.p.Bin(OUlt, ix, x.n)
		}
		inb := w.p.F
		if i < len(y.b) {
			inb = w.p.Bin(OUlt, ix, y.n)
		}
		lt, eq := w.p.F, w.p.F
		if i < len(x.b) && i < len(y.b) {
			lt = w.p.Bin(OUlt, x.b[i], y.b[i])
			eq = w.p.Eq(x.b[i], y.b[i])
		}
		r = w.p.And(inb, w.p.Or(w.p.Not(ina), w.p.Or(lt, w.p.And(eq, r))))
	}
	return r
}

func (w *Worker) hasPrefix(s *Str, p string) *Term {
	switch s.k {
	case SConc:
		return w.p.Bool(strings.HasPrefix(s.s, p))
	case SChoice:
		r := w.p.F
		for i, o := range s.opts {
			if strings.HasPrefix(o, p) {
				r = w.p.Or(r, w.p.Eq(s.sel, w.p.BV(uint64(i), s.sel.w)))
			}
		}
		return r
	}
	x := w.asSym(s)
	if len(p) > len(x.b) {
		return w.p.F
	}
	r := w.p.Bin(OUle, w.p.BV(uint64(len(p)), 64), x.n)
	for i := 0; i < len(p); i++ {
		r = w.p.And(r, w.p.Eq(x.b[i], w.p.BV(uint64(p[i]), 8)))
	}
	return r
}

// matchAt: p occurs in s at position i (i constant).
func (w *Worker) matchAt(x *Str, p string, i int) *Term {
	if i+len(p) > len(x.b) {
		return w.p.F
	}
	r := w.p.Bin(OUle, w.p.BV(uint64(i+len(p)), 64), x.n)
	for j := 0; j < len(p); j++ {
		r = w.p.And(r, w.p.Eq(x.b[i+j], w.p.BV(uint64(p[j]), 8)))
	}
	return r
}

// index: first (or last) occurrence as a term, -1 if absent.
func (w *Worker) indexOf(s *Str, p string, last bool) *Term {
	if s.k == SConc {
		if last {
			return w.p.BV(uint64(strings.LastIndex(s.s, p)), 64)
		}
		return w.p.BV(uint64(strings.Index(s.s, p)), 64)
	}
	x := w.asSym(s)
	r := w.p.BV(^uint64(0), 64)
	if last {
		for i := 0; i+len(p) <= len(x.b); i++ {
			r = w.p.Ite(w.matchAt(x, p, i), w.p.BV(uint64(i), 64), r)
		}
		return r
	}
	for i := len(x.b) - len(p); i >= 0; i-- {
		r = w.p.Ite(w.matchAt(x, p, i), w.p.BV(uint64(i), 64), r)
	}
	return r
}

func (w *Worker) hasSuffix(s *Str, p string) *Term {
	if s.k == SConc {
		return w.p.Bool(strings.HasSuffix(s.s, p))
	}
	x := w.asSym(s)
	r := w.p.F
	for n := len(p); n <= len(x.b); n++ {
		m := w.p.Eq(x.n, w.p.BV(uint64(n), 64))
		for j := 0; j < len(p); j++ {
			m = w.p.And(m, w.p.Eq(x.b[n-len(p)+j], w.p.BV(uint64(p[j]), 8)))
		}
		r = w.p.Or(r, m)
	}
	return r
}

// mapBytes applies a byte-wise function (ASCII case mapping).
func (w *Worker) caseMap(s *Str, upper bool) *Str {
	f := strings.ToLower
	lo, hi := uint64('A'), uint64('Z')
	if upper {
		f = strings.ToUpper
		lo, hi = 'a', 'z'
	}
	switch s.k {
	case SConc:
		return conc(f(s.s))
	case SChoice:
		r := &Str{k: SChoice, sel: s.sel}
		for _, o := range s.opts {
			r.opts = append(r.opts, f(o))
		}
		return r
	case SInt:
		return s
	case SOpaque:
		return w.opaque()
	}
	x := w.asSym(s)
	r := &Str{k: SSym, n: x.n}
	for i, b := range x.b {
		within := func(lo, hi uint64) *Term {
			return w.p.And(w.p.Bin(OUle, w.p.BV(lo, 8), b), w.p.Bin(OUle, b, w.p.BV(hi, 8)))
		}
		in := within(lo, hi)
		if w.wide && i > 0 { // the second byte of U+00C0 to U+00FF
			lead := w.p.Eq(x.b[i-1], w.p.BV(0xc3, 8))
			if upper {
				odd := w.p.And(lead, w.p.Or(w.p.Eq(b, w.p.BV(0x9f, 8)), w.p.Eq(b, w.p.BV(0xbf, 8))))
				if w.branch(w.p.And(odd, w.p.Bin(OUlt, w.p.BV(uint64(i), 64), x.n))) {
					panic(unsupported{"capitals of \u00df and \u00ff"})
				}
				in = w.p.Or(in, w.p.And(lead, w.p.And(within(0xa0, 0xbe), w.p.Not(w.p.Eq(b, w.p.BV(0xb7, 8))))))
			} else {
				in = w.p.Or(in, w.p.And(lead, w.p.And(within(0x80, 0x9e), w.p.Not(w.p.Eq(b, w.p.BV(0x97, 8))))))
			}
		}
		r.b = append(r.b, w.p.Ite(in, w.p.Bin(OBXor, b, w.p.BV(0x20, 8)), b))
	}
	return r
}

func (w *Worker) bytesOfStr(s *Str) []*Term {
	if s.k == SConc {
		r := make([]*Term, len(s.s))
		for i := range r {
			r[i] = w.p.BV(uint64(s.s[i]), 8)
		}
		return r
	}
	if s.k == SChoice {
		return w.bytesOfStr(conc(w.concretizeStr(s)))
	}
	x := w.asSym(s)
	n := int(w.concretize(x.n))
	return x.b[:n]
}

func (w *Worker) strOfBytes(b []*Term) *Str {
	all := true
	for _, t := range b {
		if !t.isConst() {
			all = false
			break
		}
	}
	if all {
		r := make([]byte, len(b))
		for i := range b {
			r[i] = byte(b[i].c)
		}
		return conc(string(r))
	}
	return &Str{k: SSym, n: w.p.BV(uint64(len(b)), 64), b: append([]*Term(nil), b...)}
}

func (s *Str) String() string {
	switch s.k {
	case SConc:
		return fmt.Sprintf("%q", s.s)
	case SChoice:
		return fmt.Sprintf("choice%q", s.opts)
	}
	return fmt.Sprintf("str<%d>", s.k)
}
