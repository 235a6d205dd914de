package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLshr
	OAshr
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OZext
	OSext
	OExtract // low bits: result width w (lo=0)
)

var opSMT = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg",
}

// Term is a hash-consed SMT term; w == 0 means Bool, otherwise a bit-vector.
type Term struct {
	op   Op
	w    uint8
	k    uint64
	name string
	args []*Term
	id   int
	vars []*Term // memoised sorted variable set
	vok  bool
	dom  *[4]uint64 // for boolean terms over one 8-bit variable: truth set
}

type tkey struct {
	op         Op
	w          uint8
	k          uint64
	name       string
	a, b, c, n int
}

// Terms is a term context (one per worker).
type Terms struct {
	tab  map[tkey]*Term
	wide map[string]*Term
	n    int
	tt   *Term
	ff   *Term
}

func NewTerms() *Terms {
	c := &Terms{tab: map[tkey]*Term{}, wide: map[string]*Term{}}
	c.ff = c.mk(OConst, 0, 0, "")
	c.tt = c.mk(OConst, 0, 1, "")
	return c
}

func (c *Terms) mk(op Op, w uint8, k uint64, name string, args ...*Term) *Term {
	if len(args) > 3 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d/%d/%d", op, w, k)
		for _, a := range args {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
		if t, ok := c.wide[sb.String()]; ok {
			return t
		}
		t := &Term{op: op, w: w, k: k, name: name, args: args, id: c.n}
		c.n++
		c.wide[sb.String()] = t
		return t
	}
	key := tkey{op: op, w: w, k: k, name: name, a: -1, b: -1, c: -1}
	if len(args) > 0 {
		key.a = args[0].id
	}
	if len(args) > 1 {
		key.b = args[1].id
	}
	if len(args) > 2 {
		key.c = args[2].id
	}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, k: k, name: name, args: append([]*Term(nil), args...), id: c.n}
	c.n++
	c.tab[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (t *Term) isConst() bool { return t.op == OConst }

func (c *Terms) Bool(b bool) *Term {
	if b {
		return c.tt
	}
	return c.ff
}
func (c *Terms) BV(v uint64, w uint8) *Term { return c.mk(OConst, w, v&mask(w), "") }
func (c *Terms) Var(name string, w uint8) *Term {
	return c.mk(OVar, w, 0, name)
}

func (c *Terms) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.k == 0)
	case ONot:
		return a.args[0]
	}
	return c.mk(ONot, 0, 0, "", a)
}

func (c *Terms) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return c.ff
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, 0, 0, "", a, b)
}

func (c *Terms) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return c.tt
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, 0, 0, "", a, b)
}

func (c *Terms) Ite(x, a, b *Term) *Term {
	if x.isConst() {
		if x.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.k == 1 {
				return x
			}
			return c.Not(x)
		}
		if a.isConst() {
			if a.k == 1 {
				return c.Or(x, b)
			}
			return c.And(c.Not(x), b)
		}
		if b.isConst() {
			if b.k == 0 {
				return c.And(x, a)
			}
			return c.Or(c.Not(x), a)
		}
	}
	if x.op == ONot {
		return c.mk(OIte, a.w, 0, "", x.args[0], b, a)
	}
	return c.mk(OIte, a.w, 0, "", x, a, b)
}

func iteConsts(t *Term) bool {
	return t.op == OIte && t.args[1].isConst() && t.args[2].isConst()
}

func (c *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return c.tt
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.k == 1 {
				return a
			}
			return c.Not(a)
		}
	} else if b.isConst() {
		switch a.op {
		case OIte:
			if a.args[1].isConst() || a.args[2].isConst() {
				return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
			}
		case OZext:
			in := a.args[0]
			if b.k > mask(in.w) {
				return c.ff
			}
			return c.Eq(in, c.BV(b.k, in.w))
		case OSext:
			in := a.args[0]
			if uint64(sext(b.k, b.w))&mask(b.w) == uint64(sext(b.k&mask(in.w), in.w))&mask(b.w) {
				return c.Eq(in, c.BV(b.k, in.w))
			}
			return c.ff
		case OAdd:
			if a.args[1].isConst() {
				return c.Eq(a.args[0], c.BV(b.k-a.args[1].k, b.w))
			}
		}
	} else if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, "", a, b)
}

func (c *Terms) Cmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(evalCmp(op, a.k, b.k, a.w))
	}
	if a == b {
		return c.Bool(op == OUle || op == OSle)
	}
	// Narrow comparisons of zero-extended values.
	na, nb := a, b
	if a.op == OZext && b.isConst() {
		in := a.args[0]
		if in.w < a.w && b.k <= mask(in.w) {
			na, nb = in, c.BV(b.k, in.w)
		} else if in.w < a.w && (op == OUlt || op == OUle || sext(b.k, b.w) > 0) {
			return c.tt
		} else if in.w < a.w && sext(b.k, b.w) < 0 && (op == OSlt || op == OSle) {
			return c.ff
		}
	} else if b.op == OZext && a.isConst() {
		in := b.args[0]
		if in.w < b.w && a.k <= mask(in.w) {
			na, nb = c.BV(a.k, in.w), in
		} else if in.w < b.w && (op == OUlt || op == OUle || sext(a.k, a.w) > 0) {
			return c.ff
		} else if in.w < b.w && sext(a.k, a.w) < 0 && (op == OSlt || op == OSle) {
			return c.tt
		}
	} else if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w && a.args[0].w < a.w {
		na, nb = a.args[0], b.args[0]
	}
	if na != a || nb != b {
		switch op {
		case OSlt:
			op = OUlt
		case OSle:
			op = OUle
		}
		return c.Cmp(op, na, nb)
	}
	switch op {
	case OUlt:
		if b.isConst() && b.k == 0 {
			return c.ff
		}
		if a.isConst() && a.k == mask(a.w) {
			return c.ff
		}
	case OUle:
		if a.isConst() && a.k == 0 {
			return c.tt
		}
		if b.isConst() && b.k == mask(b.w) {
			return c.tt
		}
	}
	return c.mk(op, 0, 0, "", a, b)
}

func evalCmp(op Op, a, b uint64, w uint8) bool {
	switch op {
	case OUlt:
		return a < b
	case OUle:
		return a <= b
	case OSlt:
		return sext(a, w) < sext(b, w)
	case OSle:
		return sext(a, w) <= sext(b, w)
	}
	panic("evalCmp")
}

func evalBin(op Op, a, b uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		x := sext(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	}
	panic("evalBin")
}

func commutes(op Op) bool {
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		return true
	}
	return false
}

func (c *Terms) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.BV(evalBin(op, a.k, b.k, w), w)
	}
	if a.isConst() && commutes(op) {
		a, b = b, a
	}
	if b.isConst() {
		switch op {
		case OAdd, OSub, OBOr, OBXor, OShl, OLshr, OAshr:
			if b.k == 0 {
				return a
			}
		case OMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if bits.OnesCount64(b.k) == 1 {
				return c.Bin(OShl, a, c.BV(uint64(bits.TrailingZeros64(b.k)), w))
			}
		case OBAnd:
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
		case OUDiv, OSDiv:
			if b.k == 1 {
				return a
			}
		}
		if op == OSub {
			return c.Bin(OAdd, a, c.BV(-b.k, w))
		}
		if op == OAdd && a.op == OAdd && a.args[1].isConst() {
			return c.Bin(OAdd, a.args[0], c.BV(a.args[1].k+b.k, w))
		}
		if iteConsts(a) {
			return c.Ite(a.args[0], c.Bin(op, a.args[1], b), c.Bin(op, a.args[2], b))
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return c.BV(0, w)
		case OBAnd, OBOr:
			return a
		}
	}
	if commutes(op) && !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, w, 0, "", a, b)
}

func (c *Terms) BNot(a *Term) *Term {
	if a.isConst() {
		return c.BV(^a.k, a.w)
	}
	return c.mk(OBNot, a.w, 0, "", a)
}
func (c *Terms) Neg(a *Term) *Term {
	if a.isConst() {
		return c.BV(-a.k, a.w)
	}
	return c.mk(ONeg, a.w, 0, "", a)
}

// Resize converts to width w, sign- or zero-extending.
func (c *Terms) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		if a.isConst() {
			return c.BV(a.k, w)
		}
		if a.op == OZext || a.op == OSext {
			in := a.args[0]
			if in.w >= w {
				return c.Resize(in, w, false)
			}
			if a.op == OZext {
				return c.Resize(in, w, false)
			}
			return c.Resize(in, w, true)
		}
		return c.mk(OExtract, w, 0, "", a)
	}
	if a.isConst() {
		if signed {
			return c.BV(uint64(sext(a.k, a.w)), w)
		}
		return c.BV(a.k, w)
	}
	if iteConsts(a) {
		return c.Ite(a.args[0], c.Resize(a.args[1], w, signed), c.Resize(a.args[2], w, signed))
	}
	if a.op == OZext {
		return c.Resize(a.args[0], w, false)
	}
	if signed {
		return c.mk(OSext, w, 0, "", a)
	}
	return c.mk(OZext, w, 0, "", a)
}

// Model maps variable names to values.
type Model map[string]uint64

// Eval evaluates t under the model (missing variables are 0).
func Eval(t *Term, m Model, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return m[t.name] & maskB(t.w)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	ev := func(i int) uint64 { return Eval(t.args[i], m, memo) }
	switch t.op {
	case ONot:
		r = 1 - ev(0)
	case OAnd:
		r = 1
		for i := range t.args {
			if ev(i) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for i := range t.args {
			if ev(i) == 1 {
				r = 1
				break
			}
		}
	case OIte:
		if ev(0) == 1 {
			r = ev(1)
		} else {
			r = ev(2)
		}
	case OEq:
		r = b2u(ev(0) == ev(1))
	case OUlt, OUle, OSlt, OSle:
		r = b2u(evalCmp(t.op, ev(0), ev(1), t.args[0].w))
	case OBNot:
		r = ^ev(0) & mask(t.w)
	case ONeg:
		r = -ev(0) & mask(t.w)
	case OZext:
		r = ev(0)
	case OSext:
		r = uint64(sext(ev(0), t.args[0].w)) & mask(t.w)
	case OExtract:
		r = ev(0) & mask(t.w)
	default:
		r = evalBin(t.op, ev(0), ev(1), t.w)
	}
	memo[t] = r
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// Vars returns the variables of t.
func (t *Term) Vars() []*Term {
	if t.vok {
		return t.vars
	}
	var out []*Term
	switch t.op {
	case OConst:
	case OVar:
		out = []*Term{t}
	default:
		for i, a := range t.args {
			if i == 0 {
				out = a.Vars()
				continue
			}
			out = mergeVars(out, a.Vars())
		}
	}
	t.vars, t.vok = out, true
	return out
}

func mergeVars(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i].id < b[j].id:
			out = append(out, a[i])
			i++
		case a[i].id > b[j].id:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	return out
}

// truthSet evaluates a boolean term over a single 8-bit variable.
func (t *Term) truthSet() *[4]uint64 {
	if t.dom != nil {
		return t.dom
	}
	v := t.Vars()[0]
	var d [4]uint64
	m := Model{}
	for i := 0; i < 256; i++ {
		m[v.name] = uint64(i)
		if Eval(t, m, map[*Term]uint64{}) == 1 {
			d[i>>6] |= 1 << (i & 63)
		}
	}
	t.dom = &d
	return t.dom
}

// SMT prints t with lets for shared nodes.
func (t *Term) SMT() string {
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(x *Term)
	walk = func(x *Term) {
		if len(x.args) == 0 {
			return
		}
		cnt[x]++
		if cnt[x] > 1 {
			return
		}
		for _, a := range x.args {
			walk(a)
		}
		order = append(order, x)
	}
	walk(t)
	name := map[*Term]string{}
	var sb strings.Builder
	var pr func(x *Term)
	pr = func(x *Term) {
		if n, ok := name[x]; ok {
			sb.WriteString(n)
			return
		}
		x.pr(&sb, pr)
	}
	closes := 0
	for _, x := range order {
		if cnt[x] > 1 && x != t {
			fmt.Fprintf(&sb, "(let ((s%d ", x.id)
			x.pr(&sb, pr)
			sb.WriteString(")) ")
			name[x] = fmt.Sprintf("s%d", x.id)
			closes++
		}
	}
	pr(t)
	sb.WriteString(strings.Repeat(")", closes))
	return sb.String()
}

func (t *Term) pr(sb *strings.Builder, rec func(*Term)) {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
		} else if t.w%4 == 0 {
			fmt.Fprintf(sb, "#x%0*x", t.w/4, t.k)
		} else {
			fmt.Fprintf(sb, "#b%0*b", t.w, t.k)
		}
	case OVar:
		sb.WriteString("|" + t.name + "|")
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) ", t.w-t.args[0].w)
		rec(t.args[0])
		sb.WriteString(")")
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) ", t.w-t.args[0].w)
		rec(t.args[0])
		sb.WriteString(")")
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d 0) ", t.w-1)
		rec(t.args[0])
		sb.WriteString(")")
	default:
		sb.WriteString("(" + opSMT[t.op])
		for _, a := range t.args {
			sb.WriteString(" ")
			rec(a)
		}
		sb.WriteString(")")
	}
}
