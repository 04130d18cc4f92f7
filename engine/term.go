package main

// Terms: hash-consed bit-vector / boolean expressions with constant folding.

import (
	"fmt"
	"math"
	"math/bits"
	"net/url"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OExtract // low w bits
	OFEq
	OFLt
	OFLe
	OFAdd
	OFSub
	OFMul
	OFDiv
	OSToF // signed bv -> float bits
	OUToF
	OFToS // float bits -> signed bv (truncation)
	OFToF // float width change
	OFNaN
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl",
	OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

// Term of width w; w == 0 is Bool.
type Term struct {
	op   Op
	w    int
	args []*Term
	c    uint64
	name string
	id   int
}

type termKey struct {
	op      Op
	w       int
	c       uint64
	name    string
	a, b, d int
}

type Pool struct {
	tab  map[termKey]*Term
	nary map[string]*Term
	next int
	T, F *Term
}

func NewPool() *Pool {
	p := &Pool{tab: map[termKey]*Term{}}
	p.T = p.mk(OConst, 0, 1, "")
	p.F = p.mk(OConst, 0, 0, "")
	return p
}

func (p *Pool) mk(op Op, w int, c uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, w: w, c: c, name: name, a: -1, b: -1, d: -1}
	if len(args) > 0 {
		k.a = args[0].id
	}
	if len(args) > 1 {
		k.b = args[1].id
	}
	if len(args) > 2 {
		k.d = args[2].id
	}
	if t := p.tab[k]; t != nil {
		return t
	}
	t := &Term{op: op, w: w, c: c, name: name, args: append([]*Term(nil), args...), id: p.next}
	p.next++
	p.tab[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}
func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (t *Term) isConst() bool { return t.op == OConst }

func (p *Pool) Bool(b bool) *Term {
	if b {
		return p.T
	}
	return p.F
}
func (p *Pool) BV(v uint64, w int) *Term { return p.mk(OConst, w, v&mask(w), "") }
func (p *Pool) Var(name string, w int) *Term {
	return p.mk(OVar, w, 0, name)
}

func (p *Pool) Not(a *Term) *Term {
	if a.isConst() {
		return p.Bool(a.c == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return p.mk(ONot, 0, 0, "", a)
}
func (p *Pool) And(a, b *Term) *Term {
	if a.isConst() {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if p.Not(a) == b {
		return p.F
	}
	return p.mk(OAnd, 0, 0, "", a, b)
}
func (p *Pool) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.c != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if p.Not(a) == b {
		return p.T
	}
	return p.mk(OOr, 0, 0, "", a, b)
}
func (p *Pool) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.c != 0 {
				return c
			}
			return p.Not(c)
		}
		if a.isConst() {
			if a.c != 0 {
				return p.Or(c, b)
			}
			return p.And(p.Not(c), b)
		}
		if b.isConst() {
			if b.c != 0 {
				return p.Or(p.Not(c), a)
			}
			return p.And(c, a)
		}
	}
	return p.mk(OIte, a.w, 0, "", c, a, b)
}
func constLeaves(t *Term, n *int) bool {
	*n--
	if *n < 0 {
		return false
	}
	if t.isConst() {
		return true
	}
	return t.op == OIte && constLeaves(t.args[1], n) && constLeaves(t.args[2], n)
}
func (p *Pool) Eq(a, b *Term) *Term {
	if a == b {
		return p.T
	}
	if a.isConst() && b.isConst() {
		return p.Bool(a.c == b.c)
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c != 0 {
				return a
			}
			return p.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && a.op == OIte {
		n := 64
		if constLeaves(a, &n) {
			return p.Ite(a.args[0], p.Eq(a.args[1], b), p.Eq(a.args[2], b))
		}
	}
	if b.isConst() && a.op == OZext {
		in := a.args[0]
		if b.c&^mask(in.w) != 0 {
			return p.F
		}
		return p.Eq(in, p.BV(b.c, in.w))
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return p.mk(OEq, 0, 0, "", a, b)
}

func foldBin(op Op, w int, x, y uint64) (uint64, bool) {
	m := mask(w)
	sx, sy := sext(x, w), sext(y, w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		if y == 0 {
			if sx < 0 {
				return 1, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OSRem:
		if y == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w - 1)
		}
		return uint64(sx>>y) & m, true
	case OUlt:
		return b2u(x < y), true
	case OUle:
		return b2u(x <= y), true
	case OSlt:
		return b2u(sx < sy), true
	case OSle:
		return b2u(sx <= sy), true
	case OFEq, OFLt, OFLe:
		fx, fy := fval(x, w), fval(y, w)
		switch op {
		case OFEq:
			return b2u(fx == fy), true
		case OFLt:
			return b2u(fx < fy), true
		}
		return b2u(fx <= fy), true
	case OFAdd, OFSub, OFMul, OFDiv:
		fx, fy := fval(x, w), fval(y, w)
		var r float64
		switch op {
		case OFAdd:
			r = fx + fy
		case OFSub:
			r = fx - fy
		case OFMul:
			r = fx * fy
		default:
			r = fx / fy
		}
		return fbits(r, w), true
	}
	return 0, false
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
func fval(x uint64, w int) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(x)))
	}
	return math.Float64frombits(x)
}
func fbits(f float64, w int) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func isPred(op Op) bool {
	switch op {
	case OUlt, OUle, OSlt, OSle, OFEq, OFLt, OFLe:
		return true
	}
	return false
}

func (p *Pool) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("bin %v width %d %d", opNames[op], a.w, b.w))
	}
	w := a.w
	rw := w
	if isPred(op) {
		rw = 0
	}
	if a.isConst() && b.isConst() {
		v, ok := foldBin(op, w, a.c, b.c)
		if ok {
			if rw == 0 {
				return p.Bool(v != 0)
			}
			return p.BV(v, rw)
		}
	}
	switch op {
	case OAdd, OBOr, OBXor:
		if b.isConst() && b.c == 0 {
			return a
		}
		if a.isConst() && a.c == 0 {
			return b
		}
	case OSub, OShl, OLshr, OAshr:
		if b.isConst() && b.c == 0 {
			return a
		}
		if op == OSub && a == b {
			return p.BV(0, w)
		}
	case OBAnd:
		if b.isConst() && b.c == mask(w) {
			return a
		}
		if a.isConst() && a.c == mask(w) {
			return b
		}
		if (a.isConst() && a.c == 0) || (b.isConst() && b.c == 0) {
			return p.BV(0, w)
		}
	case OUlt:
		if a == b || (b.isConst() && b.c == 0) {
			return p.F
		}
	case OUle:
		if a == b || (a.isConst() && a.c == 0) {
			return p.T
		}
	case OSlt:
		if a == b {
			return p.F
		}
	case OSle:
		if a == b {
			return p.T
		}
	}
	// predicates over ite-with-constant-leaves
	if rw == 0 {
		n := 64
		if b.isConst() && a.op == OIte && constLeaves(a, &n) {
			return p.Ite(a.args[0], p.Bin(op, a.args[1], b), p.Bin(op, a.args[2], b))
		}
		n = 64
		if a.isConst() && b.op == OIte && constLeaves(b, &n) {
			return p.Ite(b.args[0], p.Bin(op, a, b.args[1]), p.Bin(op, a, b.args[2]))
		}
	}
	return p.mk(op, rw, 0, "", a, b)
}

func (p *Pool) Resize(a *Term, w int, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if signed {
			return p.BV(uint64(sext(a.c, a.w)), w)
		}
		return p.BV(a.c, w)
	}
	if w < a.w {
		if (a.op == OZext || a.op == OSext) && a.args[0].w == w {
			return a.args[0]
		}
		return p.mk(OExtract, w, 0, "", a)
	}
	if a.op == OIte {
		n := 64
		if constLeaves(a, &n) {
			return p.Ite(a.args[0], p.Resize(a.args[1], w, signed), p.Resize(a.args[2], w, signed))
		}
	}
	if signed {
		return p.mk(OSext, w, 0, "", a)
	}
	return p.mk(OZext, w, 0, "", a)
}

func (p *Pool) Un(op Op, w int, a *Term) *Term {
	if a.isConst() {
		if v, ok := foldUn(op, w, a.c, a.w); ok {
			if w == 0 {
				return p.Bool(v != 0)
			}
			return p.BV(v, w)
		}
	}
	return p.mk(op, w, 0, "", a)
}
func foldUn(op Op, w int, x uint64, aw int) (uint64, bool) {
	switch op {
	case OSToF:
		return fbits(float64(sext(x, aw)), w), true
	case OUToF:
		return fbits(float64(x), w), true
	case OFToS:
		f := fval(x, aw)
		return uint64(int64(f)) & mask(w), true
	case OFToF:
		return fbits(fval(x, aw), w), true
	case OFNaN:
		f := fval(x, aw)
		return b2u(f != f), true
	}
	return 0, false
}

// Eval under an assignment (missing variables are 0).
func (t *Term) Eval(m map[string]uint64, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OVar:
		return m[t.name] & maskB(t.w)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - t.args[0].Eval(m, memo)
	case OAnd:
		r = t.args[0].Eval(m, memo)
		if r != 0 {
			r = t.args[1].Eval(m, memo)
		}
	case OOr:
		r = t.args[0].Eval(m, memo)
		if r == 0 {
			r = t.args[1].Eval(m, memo)
		}
	case OEq:
		r = b2u(t.args[0].Eval(m, memo) == t.args[1].Eval(m, memo))
	case OIte:
		if t.args[0].Eval(m, memo) != 0 {
			r = t.args[1].Eval(m, memo)
		} else {
			r = t.args[2].Eval(m, memo)
		}
	case OZext:
		r = t.args[0].Eval(m, memo)
	case OSext:
		r = uint64(sext(t.args[0].Eval(m, memo), t.args[0].w)) & mask(t.w)
	case OExtract:
		r = t.args[0].Eval(m, memo) & mask(t.w)
	case OSToF, OUToF, OFToS, OFToF, OFNaN:
		r, _ = foldUn(t.op, t.w, t.args[0].Eval(m, memo), t.args[0].w)
	default:
		r, _ = foldBin(t.op, t.args[0].w, t.args[0].Eval(m, memo), t.args[1].Eval(m, memo))
	}
	memo[t] = r
	return r
}
func maskB(w int) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

var _ = bits.Len

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.c != 0 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.w/4, t.c)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.c, t.w)
	case OVar:
		return "|" + url.PathEscape(t.name) + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func fpSort(w int) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func (t *Term) smt() string {
	var a []string
	for _, x := range t.args {
		a = append(a, x.ref())
	}
	fp := func(s string, w int) string { return "((_ to_fp " + fpSort(w) + ") " + s + ")" }
	switch t.op {
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, a[0])
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, a[0])
	case OExtract:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, a[0])
	case OFEq:
		return "(fp.eq " + fp(a[0], t.args[0].w) + " " + fp(a[1], t.args[0].w) + ")"
	case OFLt:
		return "(fp.lt " + fp(a[0], t.args[0].w) + " " + fp(a[1], t.args[0].w) + ")"
	case OFLe:
		return "(fp.leq " + fp(a[0], t.args[0].w) + " " + fp(a[1], t.args[0].w) + ")"
	case OFNaN:
		return "(fp.isNaN " + fp(a[0], t.args[0].w) + ")"
	case OFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, fp(a[0], t.args[0].w))
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		return "(fp.to_ieee_bv (" + n + " RNE " + fp(a[0], t.w) + " " + fp(a[1], t.w) + "))"
	case OSToF:
		return "(fp.to_ieee_bv ((_ to_fp " + fpSort(t.w) + ") RNE " + a[0] + "))"
	case OUToF:
		return "(fp.to_ieee_bv ((_ to_fp_unsigned " + fpSort(t.w) + ") RNE " + a[0] + "))"
	case OFToF:
		return "(fp.to_ieee_bv ((_ to_fp " + fpSort(t.w) + ") RNE " + fp(a[0], t.args[0].w) + "))"
	}
	return "(" + opNames[t.op] + " " + strings.Join(a, " ") + ")"
}
