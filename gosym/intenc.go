package main

import (
	"bufio"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Integer encoding of queries over wide bit-vectors.
//
// Time arithmetic (seconds times a billion, sums of durations) stalls
// bit-blasting. Such queries are translated to linear integer arithmetic:
// every term becomes an integer (signed for 64 bits, unsigned for narrower
// widths) together with an interval derived from the bounds that the query
// itself puts on its variables. An operation whose exact result may leave the
// range of its width is wrapped explicitly, so the translation keeps the
// semantics of machine words. Terms that have no exact linear translation
// (products of two symbolic values, general bit operations) make the query go
// to the bit-vector solver instead. Models are re-evaluated over the original
// terms before they are used.

type itv struct{ lo, hi *big.Int }

var (
	bigOne = big.NewInt(1)
	two64  = new(big.Int).Lsh(bigOne, 64)
	min64  = new(big.Int).Neg(new(big.Int).Lsh(bigOne, 63))
	max64  = new(big.Int).Sub(new(big.Int).Lsh(bigOne, 63), bigOne)
)

func bigRange(w uint8) itv {
	if w >= 64 {
		return itv{min64, max64}
	}
	return itv{big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(w)), bigOne)}
}

func bigVal(k uint64, w uint8) *big.Int {
	if w >= 64 {
		return big.NewInt(int64(k))
	}
	return new(big.Int).SetUint64(k)
}

func bigStr(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}

func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

type ienc struct {
	bounds map[*Term]itv
	name   map[*Term]string
	rng    map[*Term]itv
	out    strings.Builder // let bindings
	lets   int
}

type notLinear struct{}

// encodeInts translates the conjunction, ok is false when that is not exact.
func encodeInts(cs []*Term) (text string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(notLinear); !is {
				panic(r)
			}
			text, ok = "", false
		}
	}()
	e := &ienc{bounds: map[*Term]itv{}, name: map[*Term]string{}, rng: map[*Term]itv{}}
	for _, c := range cs {
		e.bound(c, true)
	}
	var atoms []string
	for _, c := range cs {
		atoms = append(atoms, e.enc(c))
	}
	var sb strings.Builder
	for v, b := range e.bounds {
		fmt.Fprintf(&sb, "(assert (<= %s |%s| %s))\n", bigStr(b.lo), v.name, bigStr(b.hi))
	}
	sb.WriteString("(assert ")
	sb.WriteString(e.out.String())
	sb.WriteString("(and true")
	for _, a := range atoms {
		sb.WriteString(" " + a)
	}
	sb.WriteString(")")
	sb.WriteString(strings.Repeat(")", e.lets))
	sb.WriteString(")\n")
	return sb.String(), true
}

// bound collects the bounds that a conjunct puts on single variables.
func (e *ienc) bound(c *Term, pos bool) {
	switch c.op {
	case ONot:
		e.bound(c.args[0], !pos)
		return
	case OAnd:
		if pos {
			for _, a := range c.args {
				e.bound(a, true)
			}
		}
		return
	case OOr:
		if !pos {
			for _, a := range c.args {
				e.bound(a, false)
			}
		}
		return
	case OSlt, OSle, OUlt, OUle, OEq:
	default:
		return
	}
	a, b := c.args[0], c.args[1]
	if a.w == 0 {
		return
	}
	var v, k *Term
	left := true // v is on the left
	if a.op == OVar && b.isConst() {
		v, k = a, b
	} else if b.op == OVar && a.isConst() {
		v, k, left = b, a, false
	} else {
		return
	}
	r, has := e.bounds[v]
	if !has {
		r = bigRange(v.w)
	}
	x := bigVal(k.k, v.w)
	if v.w < 64 && (c.op == OSlt || c.op == OSle) {
		return
	}
	if v.w >= 64 && (c.op == OUlt || c.op == OUle) {
		// v <=u k with k in the signed half bounds v; its negation does not
		if x.Sign() >= 0 && left == pos {
			r.lo = bmax(r.lo, big.NewInt(0))
		} else {
			return
		}
	}
	if c.op == OEq {
		if pos {
			r.lo, r.hi = bmax(r.lo, x), bmin(r.hi, x)
		}
	} else {
		strict := c.op == OSlt || c.op == OUlt
		upper := left == pos // the constraint limits v from above
		if !pos {
			strict = !strict
		}
		if upper {
			if strict {
				x = new(big.Int).Sub(x, bigOne)
			}
			r.hi = bmin(r.hi, x)
		} else {
			if strict {
				x = new(big.Int).Add(x, bigOne)
			}
			r.lo = bmax(r.lo, x)
		}
	}
	if r.lo.Cmp(r.hi) > 0 {
		// contradictory bounds: leave the verdict to the solver
		r = itv{x, x}
		if !has {
			r = bigRange(v.w)
		}
		return
	}
	e.bounds[v] = r
}

// def names the encoding of t.
func (e *ienc) def(t *Term, s string, r itv) string {
	n := fmt.Sprintf("n%d", t.id)
	fmt.Fprintf(&e.out, "(let ((%s %s)) ", n, s)
	e.lets++
	e.name[t] = n
	e.rng[t] = r
	return n
}

// fit wraps the exact value s with interval r into width w.
func fit(s string, r itv, w uint8) (string, itv) {
	full := bigRange(w)
	if r.lo.Cmp(full.lo) >= 0 && r.hi.Cmp(full.hi) <= 0 {
		return s, r
	}
	m := new(big.Int).Lsh(bigOne, uint(w))
	off := full.lo
	if off.Sign() == 0 {
		return fmt.Sprintf("(mod %s %s)", s, m), full
	}
	neg := new(big.Int).Neg(off)
	return fmt.Sprintf("(- (mod (+ %s %s) %s) %s)", s, neg, m, neg), full
}

// signed gives the signed value of a term.
func (e *ienc) signed(t *Term) (string, itv) {
	s := e.enc(t)
	r := e.rng[t]
	if t.w >= 64 {
		return s, r
	}
	half := new(big.Int).Lsh(bigOne, uint(t.w-1))
	if r.hi.Cmp(half) < 0 {
		return s, r
	}
	m := new(big.Int).Lsh(bigOne, uint(t.w))
	return fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", s, half, s, m, s),
		itv{new(big.Int).Neg(half), new(big.Int).Sub(half, bigOne)}
}

// unsigned gives the unsigned value of a term.
func (e *ienc) unsigned(t *Term) (string, itv) {
	s := e.enc(t)
	r := e.rng[t]
	if t.w < 64 || r.lo.Sign() >= 0 {
		return s, r
	}
	return fmt.Sprintf("(ite (< %s 0) (+ %s %s) %s)", s, s, two64, s),
		itv{big.NewInt(0), new(big.Int).Sub(two64, bigOne)}
}

func (e *ienc) enc(t *Term) string {
	if n, ok := e.name[t]; ok {
		return n
	}
	if t.w == 0 {
		return e.encBool(t)
	}
	w := t.w
	switch t.op {
	case OConst:
		v := bigVal(t.k, w)
		e.name[t] = bigStr(v)
		e.rng[t] = itv{v, v}
		return e.name[t]
	case OVar:
		r, ok := e.bounds[t]
		if !ok {
			r = bigRange(w)
		}
		e.name[t] = "|" + t.name + "|"
		e.rng[t] = r
		return e.name[t]
	case OIte:
		x := e.enc(t.args[0])
		if x == "true" || x == "false" {
			in := t.args[1]
			if x == "false" {
				in = t.args[2]
			}
			s := e.enc(in)
			e.name[t], e.rng[t] = s, e.rng[in]
			return s
		}
		a, b := e.enc(t.args[1]), e.enc(t.args[2])
		ra, rb := e.rng[t.args[1]], e.rng[t.args[2]]
		return e.def(t, fmt.Sprintf("(ite %s %s %s)", x, a, b), itv{bmin(ra.lo, rb.lo), bmax(ra.hi, rb.hi)})
	case OAdd, OSub:
		a, b := e.enc(t.args[0]), e.enc(t.args[1])
		ra, rb := e.rng[t.args[0]], e.rng[t.args[1]]
		var s string
		var r itv
		if t.op == OAdd {
			// small negative constants of narrow widths stay as they are: fit wraps
			s = fmt.Sprintf("(+ %s %s)", a, b)
			r = itv{new(big.Int).Add(ra.lo, rb.lo), new(big.Int).Add(ra.hi, rb.hi)}
		} else {
			s = fmt.Sprintf("(- %s %s)", a, b)
			r = itv{new(big.Int).Sub(ra.lo, rb.hi), new(big.Int).Sub(ra.hi, rb.lo)}
		}
		s, r = fit(s, r, w)
		return e.def(t, s, r)
	case ONeg:
		a := e.enc(t.args[0])
		ra := e.rng[t.args[0]]
		s, r := fit(fmt.Sprintf("(- %s)", a), itv{new(big.Int).Neg(ra.hi), new(big.Int).Neg(ra.lo)}, w)
		return e.def(t, s, r)
	case OBNot:
		a := e.enc(t.args[0])
		ra := e.rng[t.args[0]]
		s, r := fit(fmt.Sprintf("(- (- 1) %s)", a), itv{new(big.Int).Sub(big.NewInt(-1), ra.hi), new(big.Int).Sub(big.NewInt(-1), ra.lo)}, w)
		return e.def(t, s, r)
	case OMul, OShl:
		a, b := t.args[0], t.args[1]
		if a.isConst() {
			if t.op == OShl {
				panic(notLinear{})
			}
			a, b = b, a
		}
		if !b.isConst() {
			panic(notLinear{})
		}
		x := e.enc(a)
		ra := e.rng[a]
		k := bigVal(b.k, w)
		if t.op == OShl {
			if b.k >= uint64(w) {
				panic(notLinear{})
			}
			k = new(big.Int).Lsh(bigOne, uint(b.k))
		}
		p, q := new(big.Int).Mul(ra.lo, k), new(big.Int).Mul(ra.hi, k)
		s, r := fit(fmt.Sprintf("(* %s %s)", bigStr(k), x), itv{bmin(p, q), bmax(p, q)}, w)
		return e.def(t, s, r)
	case OSDiv, OSRem:
		if !t.args[1].isConst() || sext(t.args[1].k, w) <= 0 {
			panic(notLinear{})
		}
		x, ra := e.signed(t.args[0])
		k := big.NewInt(sext(t.args[1].k, w))
		quo := fmt.Sprintf("(div %s %s)", x, k)
		if ra.lo.Sign() < 0 {
			quo = fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", x, x, k, x, k)
		}
		rq := itv{new(big.Int).Quo(ra.lo, k), new(big.Int).Quo(ra.hi, k)}
		if t.op == OSDiv {
			s, r := fit(quo, rq, w)
			return e.def(t, s, r)
		}
		km := new(big.Int).Sub(k, bigOne)
		rr := itv{big.NewInt(0), km}
		if ra.lo.Sign() < 0 {
			rr.lo = new(big.Int).Neg(km)
		}
		if ra.lo.Sign() >= 0 {
			s, r := fit(fmt.Sprintf("(mod %s %s)", x, k), rr, w)
			return e.def(t, s, r)
		}
		s, r := fit(fmt.Sprintf("(- %s (* %s %s))", x, k, quo), rr, w)
		return e.def(t, s, r)
	case OUDiv, OURem, OLshr:
		if !t.args[1].isConst() || t.args[1].k == 0 {
			panic(notLinear{})
		}
		x, ra := e.unsigned(t.args[0])
		k := new(big.Int).SetUint64(t.args[1].k)
		if t.op == OLshr {
			if t.args[1].k >= uint64(w) {
				panic(notLinear{})
			}
			k = new(big.Int).Lsh(bigOne, uint(t.args[1].k))
		}
		var s string
		var r itv
		if t.op == OURem {
			s = fmt.Sprintf("(mod %s %s)", x, k)
			r = itv{big.NewInt(0), bmin(ra.hi, new(big.Int).Sub(k, bigOne))}
		} else {
			s = fmt.Sprintf("(div %s %s)", x, k)
			r = itv{new(big.Int).Quo(ra.lo, k), new(big.Int).Quo(ra.hi, k)}
		}
		s, r = fit(s, r, w)
		return e.def(t, s, r)
	case OAshr:
		if !t.args[1].isConst() || t.args[1].k >= uint64(w) {
			panic(notLinear{})
		}
		x, ra := e.signed(t.args[0])
		k := new(big.Int).Lsh(bigOne, uint(t.args[1].k))
		fl := func(v *big.Int) *big.Int { q, m := new(big.Int), new(big.Int); q.DivMod(v, k, m); return q }
		s, r := fit(fmt.Sprintf("(div %s %s)", x, k), itv{fl(ra.lo), fl(ra.hi)}, w)
		return e.def(t, s, r)
	case OBAnd:
		b := t.args[1]
		if !b.isConst() {
			panic(notLinear{})
		}
		// a run of low ones, or a run of high ones
		m := b.k
		if m&(m+1) == 0 && m != mask(w) {
			x := e.enc(t.args[0]) // mod is non-negative for either sign
			k := new(big.Int).Add(new(big.Int).SetUint64(m), bigOne)
			return e.def(t, fmt.Sprintf("(mod %s %s)", x, k), itv{big.NewInt(0), new(big.Int).Sub(k, bigOne)})
		}
		inv := ^m & mask(w)
		if inv&(inv+1) == 0 && inv != 0 {
			x := e.enc(t.args[0])
			k := new(big.Int).Add(new(big.Int).SetUint64(inv), bigOne)
			r := e.rng[t.args[0]]
			return e.def(t, fmt.Sprintf("(- %s (mod %s %s))", x, x, k), itv{bmax(bigRange(w).lo, new(big.Int).Sub(r.lo, new(big.Int).Sub(k, bigOne))), r.hi})
		}
		panic(notLinear{})
	case OZext:
		s, r := e.unsigned(t.args[0])
		s, r = fit(s, r, w)
		return e.def(t, s, r)
	case OSext:
		s, r := e.signed(t.args[0])
		s, r = fit(s, r, w)
		return e.def(t, s, r)
	case OExtract:
		x := e.enc(t.args[0])
		s, r := fit(x, e.rng[t.args[0]], w)
		return e.def(t, s, r)
	}
	panic(notLinear{})
}

func (e *ienc) encBool(t *Term) string {
	none := itv{big.NewInt(0), bigOne}
	switch t.op {
	case OConst:
		if t.k == 1 {
			return "true"
		}
		return "false"
	case OVar:
		return "|" + t.name + "|"
	case ONot:
		switch a := e.enc(t.args[0]); a {
		case "true":
			return e.known(t, false)
		case "false":
			return e.known(t, true)
		default:
			return e.def(t, "(not "+a+")", none)
		}
	case OAnd, OOr:
		s := "(" + opSMT[t.op]
		n := 0
		for _, a := range t.args {
			x := e.enc(a)
			if x == "true" || x == "false" {
				if (x == "true") == (t.op == OOr) {
					return e.known(t, t.op == OOr)
				}
				continue
			}
			s += " " + x
			n++
		}
		if n == 0 {
			return e.known(t, t.op == OAnd)
		}
		return e.def(t, s+")", none)
	case OIte:
		switch e.enc(t.args[0]) {
		case "true":
			e.name[t] = e.enc(t.args[1])
			return e.name[t]
		case "false":
			e.name[t] = e.enc(t.args[2])
			return e.name[t]
		}
		a, b, c := e.enc(t.args[0]), e.enc(t.args[1]), e.enc(t.args[2])
		return e.def(t, fmt.Sprintf("(ite %s %s %s)", a, b, c), none)
	case OEq:
		a, b := e.enc(t.args[0]), e.enc(t.args[1])
		if t.args[0].w > 0 {
			ra, rb := e.rng[t.args[0]], e.rng[t.args[1]]
			if ra.hi.Cmp(rb.lo) < 0 || rb.hi.Cmp(ra.lo) < 0 {
				return e.known(t, false)
			}
		}
		return e.def(t, fmt.Sprintf("(= %s %s)", a, b), none)
	case OSlt, OSle:
		a, ra := e.signed(t.args[0])
		b, rb := e.signed(t.args[1])
		if s, ok := e.decided(t, ra, rb); ok {
			return s
		}
		op := "<"
		if t.op == OSle {
			op = "<="
		}
		return e.def(t, fmt.Sprintf("(%s %s %s)", op, a, b), none)
	case OUlt, OUle:
		a, ra := e.unsigned(t.args[0])
		b, rb := e.unsigned(t.args[1])
		if s, ok := e.decided(t, ra, rb); ok {
			return s
		}
		op := "<"
		if t.op == OUle {
			op = "<="
		}
		return e.def(t, fmt.Sprintf("(%s %s %s)", op, a, b), none)
	}
	panic(notLinear{})
}

func (e *ienc) known(t *Term, v bool) string {
	s := "false"
	if v {
		s = "true"
	}
	e.name[t] = s
	return s
}

// decided settles a comparison by the intervals of its sides (the bounds of
// the variables are part of the translation).
func (e *ienc) decided(t *Term, ra, rb itv) (string, bool) {
	strict := t.op == OSlt || t.op == OUlt
	c, d := ra.hi.Cmp(rb.lo), ra.lo.Cmp(rb.hi)
	switch {
	case c < 0 || c == 0 && !strict:
		return e.known(t, true), true
	case d > 0 || d == 0 && strict:
		return e.known(t, false), true
	}
	return "", false
}

// wide reports whether a query is worth the integer encoding.
func wide(vars []*Term) bool {
	for _, v := range vars {
		if v.w >= 32 {
			return true
		}
	}
	return false
}

var slowLog = os.Getenv("GOSYM_SLOW")

var intOff = os.Getenv("GOSYM_NOINT") != ""

// checkInts decides the query with the integer encoding, if it has one.
func (s *Solver) checkInts(vars, cs []*Term) (sat bool, m Model, ok bool) {
	if intOff || !wide(vars) {
		return false, nil, false
	}
	text, ok := encodeInts(cs)
	if !ok {
		return false, nil, false
	}
	if s.ints == nil {
		s.ints = &Solver{st: s.st, cache: map[string]*qres{}}
		s.ints.startInts()
	}
	z := s.ints
	z.in.WriteString("(push 1)\n")
	for _, v := range vars {
		if v.w == 0 {
			fmt.Fprintf(z.in, "(declare-const |%s| Bool)\n", v.name)
			continue
		}
		r := bigRange(v.w)
		fmt.Fprintf(z.in, "(declare-const |%s| Int)\n(assert (<= %s |%s| %s))\n", v.name, bigStr(r.lo), v.name, bigStr(r.hi))
	}
	if slowLog != "" {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > time.Second || !ok {
				f, _ := os.CreateTemp(slowLog, "q*.smt2")
				for _, v := range vars {
					if v.w == 0 {
						fmt.Fprintf(f, "(declare-const |%s| Bool)\n", v.name)
						continue
					}
					r := bigRange(v.w)
					fmt.Fprintf(f, "(declare-const |%s| Int)\n(assert (<= %s |%s| %s))\n", v.name, bigStr(r.lo), v.name, bigStr(r.hi))
				}
				fmt.Fprintf(f, "%s(check-sat)\n; %v %v %v\n", text, d, ok, sat)
				f.Close()
			}
		}()
	}
	z.in.WriteString(text)
	z.in.WriteString("(check-sat)\n")
	z.in.Flush()
	defer z.in.WriteString("(pop 1)\n")
	switch ans := z.line(); ans {
	case "unsat":
		return false, nil, true
	case "unknown":
		return false, nil, false
	case "sat":
	default:
		panic(solverError{"integer solver answered " + ans})
	}
	m = Model{}
	z.in.WriteString("(get-value (")
	for _, v := range vars {
		z.in.WriteString("|" + v.name + "| ")
	}
	z.in.WriteString("))\n")
	z.in.Flush()
	z.readModel(vars, m)
	memo := map[*Term]uint64{}
	for _, c := range cs {
		if Eval(c, m, memo) != 1 {
			panic(solverError{"the integer encoding disagrees with its model: " + c.SMT()})
		}
	}
	return true, m, true
}

func (s *Solver) startInts() {
	s.cmd = exec.Command("z3", "-in")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start z3: %v", err))
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.inc = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :timeout 10000)\n")
}
