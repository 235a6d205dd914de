package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type binFn func(th *thread, x, y value) value

func (w *Worker) binop(op token.Token, xt, yt *tinfo) binFn {
	switch op {
	case token.EQL:
		if xt.k == kInt {
			return func(th *thread, x, y value) value {
				a, ok1 := x.(int64)
				b, ok2 := y.(int64)
				if ok1 && ok2 {
					return a == b
				}
				return w.eqInt(x, y, xt.w)
			}
		}
		if xt.k == kIface && yt.k != kIface {
			return func(th *thread, x, y value) value { return w.eqIface(x.(iface), iface{w.canon(yt.t), y}) }
		}
		if yt.k == kIface && xt.k != kIface {
			return func(th *thread, x, y value) value { return w.eqIface(y.(iface), iface{w.canon(xt.t), x}) }
		}
		return func(th *thread, x, y value) value { return w.eqChecked(xt, x, y) }
	case token.NEQ:
		f := w.binop(token.EQL, xt, yt)
		return func(th *thread, x, y value) value { return w.vNot(f(th, x, y)) }
	}
	switch xt.k {
	case kString:
		switch op {
		case token.ADD:
			return func(th *thread, x, y value) value { return strConcat(x, y) }
		case token.LSS:
			return func(th *thread, x, y value) value { return w.strLess(x, y, false) }
		case token.LEQ:
			return func(th *thread, x, y value) value { return w.strLess(x, y, true) }
		case token.GTR:
			return func(th *thread, x, y value) value { return w.strLess(y, x, false) }
		case token.GEQ:
			return func(th *thread, x, y value) value { return w.strLess(y, x, true) }
		}
	case kFloat:
		return func(th *thread, x, y value) value { return floatOp(op, x, y) }
	case kInt:
		return w.intop(op, xt, yt)
	case kBool:
		switch op {
		case token.AND, token.LAND:
			return func(th *thread, x, y value) value { return w.vAnd(x, y) }
		case token.OR, token.LOR:
			return func(th *thread, x, y value) value { return w.vOr(x, y) }
		}
	}
	return func(th *thread, x, y value) value { return unsup("binop %s on %v", op, xt.t) }
}

func (w *Worker) eqChecked(t *tinfo, x, y value) value {
	if p, ok := x.(poison); ok {
		return unsup("comparison of poisoned value: %s", p.why)
	}
	if p, ok := y.(poison); ok {
		return unsup("comparison of poisoned value: %s", p.why)
	}
	return w.eq(t, x, y)
}

func (w *Worker) strLess(x, y value, orEq bool) value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			if orEq {
				return a <= b
			}
			return a < b
		}
	}
	a, b := strBytes(x), strBytes(y)
	n := min(len(a), len(b))
	var r value
	if orEq {
		r = len(a) <= len(b)
	} else {
		r = len(a) < len(b)
	}
	for i := n - 1; i >= 0; i-- {
		p, q := w.term(a[i], 8), w.term(b[i], 8)
		r = termVal(w.T.Or(w.T.Cmp(OUlt, p, q), w.T.And(w.T.Eq(p, q), w.boolTerm(r))), false)
	}
	return r
}

func floatOp(op token.Token, x, y value) value {
	if a, ok := x.(float32); ok {
		b := y.(float32)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	a, ok1 := x.(float64)
	b, ok2 := y.(float64)
	if !ok1 || !ok2 {
		return unsup("symbolic floating point")
	}
	switch op {
	case token.ADD:
		return a + b
	case token.SUB:
		return a - b
	case token.MUL:
		return a * b
	case token.QUO:
		return a / b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	return unsup("float op %s", op)
}

func (w *Worker) intop(op token.Token, xt, yt *tinfo) binFn {
	wd, sg := xt.w, xt.signed
	T := w.T
	sym := func(f func(a, b *Term) *Term) func(x, y value) value {
		return func(x, y value) value {
			checkPoison(x, y)
			return termVal(f(w.term(x, wd), w.term(y, wd)), sg)
		}
	}
	mk := func(cf func(a, b int64) int64, top Op) binFn {
		sf := sym(func(a, b *Term) *Term { return T.Bin(top, a, b) })
		return func(th *thread, x, y value) value {
			a, ok1 := x.(int64)
			b, ok2 := y.(int64)
			if ok1 && ok2 {
				return norm(cf(a, b), wd, sg)
			}
			return sf(x, y)
		}
	}
	cmp := func(cf func(a, b int64) bool, uf func(a, b uint64) bool, top Op, swap bool) binFn {
		return func(th *thread, x, y value) value {
			a, ok1 := x.(int64)
			b, ok2 := y.(int64)
			if ok1 && ok2 {
				if sg {
					return cf(a, b)
				}
				return uf(uint64(a), uint64(b))
			}
			checkPoison(x, y)
			p, q := w.term(x, wd), w.term(y, wd)
			if swap {
				p, q = q, p
			}
			return termVal(T.Cmp(top, p, q), false)
		}
	}
	lt, le := OUlt, OUle
	if sg {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.ADD:
		return mk(func(a, b int64) int64 { return a + b }, OAdd)
	case token.SUB:
		return mk(func(a, b int64) int64 { return a - b }, OSub)
	case token.MUL:
		return mk(func(a, b int64) int64 { return a * b }, OMul)
	case token.AND:
		return mk(func(a, b int64) int64 { return a & b }, OBAnd)
	case token.OR:
		return mk(func(a, b int64) int64 { return a | b }, OBOr)
	case token.XOR:
		return mk(func(a, b int64) int64 { return a ^ b }, OBXor)
	case token.AND_NOT:
		return func(th *thread, x, y value) value {
			a, ok1 := x.(int64)
			b, ok2 := y.(int64)
			if ok1 && ok2 {
				return norm(a&^b, wd, sg)
			}
			return termVal(T.Bin(OBAnd, w.term(x, wd), T.BNot(w.term(y, wd))), sg)
		}
	case token.QUO, token.REM:
		top := OUDiv
		switch {
		case op == token.QUO && sg:
			top = OSDiv
		case op == token.REM && sg:
			top = OSRem
		case op == token.REM:
			top = OURem
		}
		return func(th *thread, x, y value) value {
			a, ok1 := x.(int64)
			b, ok2 := y.(int64)
			if ok1 && ok2 {
				if b == 0 {
					panic(targetPanic{w.rtErr("integer divide by zero")})
				}
				return norm(int64(evalBin(top, uint64(a)&mask(wd), uint64(b)&mask(wd), wd)), wd, sg)
			}
			q := w.term(y, wd)
			if w.branch(T.Eq(q, T.BV(0, wd))) {
				panic(targetPanic{w.rtErr("integer divide by zero")})
			}
			return termVal(T.Bin(top, w.term(x, wd), q), sg)
		}
	case token.SHL, token.SHR:
		top := OShl
		if op == token.SHR {
			top = OLshr
			if sg {
				top = OAshr
			}
		}
		return func(th *thread, x, y value) value {
			a, ok1 := x.(int64)
			b, ok2 := y.(int64)
			if ok2 {
				if yt.signed && b < 0 {
					panic(targetPanic{w.rtErr("negative shift amount")})
				}
				ub := uint64(b)
				if ok1 {
					if ub > 64 {
						ub = 64
					}
					switch {
					case op == token.SHL:
						if ub >= 64 {
							return int64(0)
						}
						return norm(a<<ub, wd, sg)
					case sg:
						return norm(a>>ub, wd, sg)
					default:
						if ub >= 64 {
							return int64(0)
						}
						return norm(int64(uint64(a)>>ub), wd, sg)
					}
				}
				if ub >= uint64(wd) {
					if top == OAshr {
						ub = uint64(wd) - 1
					} else {
						return int64(0)
					}
				}
				return termVal(T.Bin(top, w.term(x, wd), T.BV(ub, wd)), sg)
			}
			yTerm := w.term(y, yt.w)
			if yt.signed {
				if w.branch(T.Cmp(OSlt, yTerm, T.BV(0, yt.w))) {
					panic(targetPanic{w.rtErr("negative shift amount")})
				}
			}
			// saturate the amount to the width
			big := T.Cmp(OUle, T.BV(uint64(wd), yt.w), yTerm)
			amt := T.Resize(yTerm, wd, false)
			xx := w.term(x, wd)
			var over *Term
			if top == OAshr {
				over = T.Bin(OAshr, xx, T.BV(uint64(wd)-1, wd))
			} else {
				over = T.BV(0, wd)
			}
			return termVal(T.Ite(big, over, T.Bin(top, xx, amt)), sg)
		}
	case token.LSS:
		return cmp(func(a, b int64) bool { return a < b }, func(a, b uint64) bool { return a < b }, lt, false)
	case token.LEQ:
		return cmp(func(a, b int64) bool { return a <= b }, func(a, b uint64) bool { return a <= b }, le, false)
	case token.GTR:
		return cmp(func(a, b int64) bool { return a > b }, func(a, b uint64) bool { return a > b }, lt, true)
	case token.GEQ:
		return cmp(func(a, b int64) bool { return a >= b }, func(a, b uint64) bool { return a >= b }, le, true)
	}
	return func(th *thread, x, y value) value { return unsup("int op %s", op) }
}

func checkPoison(vs ...value) {
	for _, v := range vs {
		if p, ok := v.(poison); ok {
			unsup("use of poisoned value: %s", p.why)
		}
	}
}

func (w *Worker) convert(from, to *tinfo) func(th *thread, v value) value {
	T := w.T
	switch {
	case from.k == kInt && to.k == kInt:
		return func(th *thread, v value) value {
			if x, ok := v.(int64); ok {
				return norm(x, to.w, to.signed)
			}
			checkPoison(v)
			return termVal(T.Resize(v.(*Term), to.w, from.signed), to.signed)
		}
	case from.k == kInt && to.k == kFloat:
		return func(th *thread, v value) value {
			x, ok := v.(int64)
			if !ok {
				x = w.concretize(v.(*Term), from.signed)
			}
			var f float64
			if from.signed {
				f = float64(x)
			} else {
				f = float64(uint64(x))
			}
			if to.w == 32 {
				if from.signed {
					return float32(x)
				}
				return float32(uint64(x))
			}
			return f
		}
	case from.k == kFloat && to.k == kInt:
		return func(th *thread, v value) value {
			f := toF(v)
			if to.signed {
				return norm(int64(f), to.w, true)
			}
			return norm(int64(uint64(f)), to.w, false)
		}
	case from.k == kFloat && to.k == kFloat:
		return func(th *thread, v value) value {
			f := toF(v)
			if to.w == 32 {
				return float32(f)
			}
			return f
		}
	case from.k == kString && to.k == kSlice:
		et := w.ti(to.elem)
		if et.w == 8 {
			return func(th *thread, v value) value {
				b := strBytes(v)
				c := make([]value, len(b))
				copy(c, b)
				return c
			}
		}
		return func(th *thread, v value) value {
			out := []value{}
			it := &rangeIter{str: strBytes(v)}
			for {
				t := w.nextRune(it).(tupleV)
				if t[0] == false {
					return out
				}
				out = append(out, t[2])
			}
		}
	case from.k == kSlice && to.k == kString:
		et := w.ti(from.elem)
		if et.w == 8 {
			return func(th *thread, v value) value { return mkStr(v.([]value)) }
		}
		return func(th *thread, v value) value {
			var out []value
			for _, r := range v.([]value) {
				out = append(out, strBytes(w.runeStr(r))...)
			}
			return mkStr(out)
		}
	case from.k == kInt && to.k == kString:
		return func(th *thread, v value) value {
			if x, ok := v.(int64); ok {
				if from.signed && (x > math.MaxInt32 || x < math.MinInt32) || !from.signed && uint64(x) > math.MaxInt32 {
					return "\uFFFD"
				}
				return string(rune(x))
			}
			return w.runeStr(termVal(T.Resize(v.(*Term), 32, from.signed), true))
		}
	case to.k == kUnsafe || from.k == kUnsafe:
		return func(th *thread, v value) value {
			if to.k == kInt {
				if p, ok := v.(*value); ok {
					return int64(uintptr(unsafe.Pointer(p)))
				}
				return unsup("pointer to integer conversion")
			}
			if from.k == kInt {
				return unsup("integer to pointer conversion")
			}
			return v
		}
	case from.k == to.k:
		return func(th *thread, v value) value { return v }
	}
	return func(th *thread, v value) value { return unsup("conversion %v -> %v", from.t, to.t) }
}

func toF(v value) float64 {
	switch f := v.(type) {
	case float64:
		return f
	case float32:
		return float64(f)
	}
	unsup("symbolic float")
	return 0
}

// runeStr encodes a rune; symbolic runes must be ASCII on this path.
func (w *Worker) runeStr(r value) value {
	if x, ok := r.(int64); ok {
		return string(rune(x))
	}
	t := r.(*Term)
	if !w.branch(w.T.Cmp(OUlt, t, w.T.BV(0x80, t.w))) {
		x := w.concretize(t, true)
		return string(rune(x))
	}
	return mkStr([]value{termVal(w.T.Resize(t, 8, false), false)})
}

// nextRune advances a string iterator: (ok, index, rune).
func (w *Worker) nextRune(it *rangeIter) value {
	if it.pos >= len(it.str) {
		return tupleV{false, int64(0), int64(0)}
	}
	i := it.pos
	b := it.str[i]
	if t, ok := b.(*Term); ok {
		if w.branch(w.T.Cmp(OUlt, t, w.T.BV(0x80, 8))) {
			it.pos++
			return tupleV{true, int64(i), termVal(w.T.Resize(t, 32, false), true)}
		}
		// multi-byte: concretise up to 4 bytes
		for j := i; j < len(it.str) && j < i+4; j++ {
			if tt, ok := it.str[j].(*Term); ok {
				c := append([]value(nil), it.str...)
				c[j] = w.concretize(tt, false)
				it.str = c
			}
		}
		b = it.str[i]
	}
	c := b.(int64)
	if c < 0x80 {
		it.pos++
		return tupleV{true, int64(i), c}
	}
	var buf [4]byte
	n := 0
	for j := i; j < len(it.str) && n < 4; j++ {
		x, ok := it.str[j].(int64)
		if !ok {
			x = w.concretize(it.str[j].(*Term), false)
			c := append([]value(nil), it.str...)
			c[j] = x
			it.str = c
		}
		buf[n] = byte(x)
		n++
	}
	r, sz := utf8.DecodeRune(buf[:n])
	it.pos += sz
	return tupleV{true, int64(i), int64(r)}
}

// ---- builtins

func (cp *compiler) builtin(b *ssa.Builtin, args []ssa.Value, rt types.Type) func(fr *frame, a []value) value {
	w := cp.w
	tracked := cp.c.tracked
	nospec := func(fr *frame) {
		if fr.th.spec > 0 {
			panic(specAbort{})
		}
	}
	switch b.Name() {
	case "len":
		switch w.ti(args[0].Type()).k {
		case kString:
			return func(fr *frame, a []value) value { return int64(strLen(a[0])) }
		case kSlice:
			return func(fr *frame, a []value) value {
				s, ok := a[0].([]value)
				if !ok {
					badPtr(a[0])
				}
				return int64(len(s))
			}
		case kMap:
			return func(fr *frame, a []value) value {
				m, ok := a[0].(*hmap)
				if !ok {
					badPtr(a[0])
				}
				if tracked && m != nil && fr.th.p != nil && fr.th.p.multi {
					fr.th.raceMap(m, false, fr)
				}
				return int64(m.length())
			}
		case kChan:
			return func(fr *frame, a []value) value {
				c := a[0].(*chanV)
				if c == nil {
					return int64(0)
				}
				return int64(len(c.buf))
			}
		case kArray:
			n := int64(w.ti(args[0].Type()).n)
			return func(fr *frame, a []value) value { return n }
		case kPtr:
			n := int64(w.ti(w.ti(args[0].Type()).elem).n)
			return func(fr *frame, a []value) value { return n }
		}
	case "cap":
		switch w.ti(args[0].Type()).k {
		case kSlice:
			return func(fr *frame, a []value) value { return int64(cap(a[0].([]value))) }
		case kChan:
			return func(fr *frame, a []value) value {
				c := a[0].(*chanV)
				if c == nil {
					return int64(0)
				}
				return int64(c.cap)
			}
		case kArray:
			n := int64(w.ti(args[0].Type()).n)
			return func(fr *frame, a []value) value { return n }
		case kPtr:
			n := int64(w.ti(w.ti(args[0].Type()).elem).n)
			return func(fr *frame, a []value) value { return n }
		}
	case "append":
		isStr := len(args) > 1 && w.ti(args[1].Type()).k == kString
		et := w.ti(w.ti(args[0].Type()).elem)
		agg := et.k == kStruct || et.k == kArray
		return func(fr *frame, a []value) value {
			nospec(fr)
			s, ok := a[0].([]value)
			if !ok {
				badPtr(a[0])
			}
			if len(a) < 2 {
				return s
			}
			var add []value
			if isStr {
				add = strBytes(a[1])
			} else {
				x, ok := a[1].([]value)
				if !ok {
					badPtr(a[1])
				}
				add = x
			}
			if len(add) == 0 {
				return s
			}
			n := len(s)
			if n+len(add) <= cap(s) {
				// writes into the shared backing array
				r := s[:n+len(add)]
				for i, v := range add {
					p := &r[n+i]
					if tracked && fr.th.p != nil && fr.th.p.multi {
						fr.th.raceCell(p, true, fr)
					}
					if w.initDepth == 0 && w.p != nil {
						w.p.undo = append(w.p.undo, undoEnt{p, *p})
					}
					if agg {
						v = copyVal(v)
					}
					*p = v
				}
				return r
			}
			nc := growCap(cap(s), n+len(add))
			r := make([]value, n+len(add), nc)
			copy(r, s)
			for i, v := range add {
				if agg {
					v = copyVal(v)
				}
				r[n+i] = v
			}
			if agg {
				for i := 0; i < n; i++ {
					r[i] = copyVal(r[i])
				}
			}
			if cap(r) > len(r) {
				z := et.zero()
				rest := r[len(r):cap(r)]
				for i := range rest {
					if agg {
						rest[i] = et.zero()
					} else {
						rest[i] = z
					}
				}
			}
			return r
		}
	case "copy":
		isStr := w.ti(args[1].Type()).k == kString
		return func(fr *frame, a []value) value {
			nospec(fr)
			dst, ok := a[0].([]value)
			if !ok {
				badPtr(a[0])
			}
			var src []value
			if isStr {
				src = strBytes(a[1])
			} else {
				src = a[1].([]value)
			}
			n := min(len(dst), len(src))
			if n == 0 {
				return int64(0)
			}
			tmp := make([]value, n)
			copy(tmp, src)
			for i := 0; i < n; i++ {
				p := &dst[i]
				if tracked && fr.th.p != nil && fr.th.p.multi {
					fr.th.raceCell(p, true, fr)
					if !isStr {
						fr.th.raceCell(&src[i], false, fr)
					}
				}
				w.storeTo(p, tmp[i])
			}
			return int64(n)
		}
	case "delete":
		return func(fr *frame, a []value) value {
			nospec(fr)
			m := a[0].(*hmap)
			if tracked && m != nil && fr.th.p != nil && fr.th.p.multi {
				fr.th.raceMap(m, true, fr)
			}
			m.del(w, a[1])
			return nil
		}
	case "clear":
		return func(fr *frame, a []value) value {
			nospec(fr)
			switch x := a[0].(type) {
			case *hmap:
				x.clear(w)
			case []value:
				z := w.ti(w.ti(args[0].Type()).elem)
				for i := range x {
					w.storeTo(&x[i], z.zero())
				}
			}
			return nil
		}
	case "close":
		user := cp.c.user
		return func(fr *frame, a []value) value {
			nospec(fr)
			fr.th.chanClose(a[0].(*chanV), user, fr.curPos)
			return nil
		}
	case "print", "println":
		return func(fr *frame, a []value) value { return nil }
	case "panic":
		return func(fr *frame, a []value) value { panic(targetPanic{a[0]}) }
	case "recover":
		return func(fr *frame, a []value) value {
			nospec(fr)
			if c := fr.caller; c != nil && c.panicking {
				c.panicking = false
				v := c.panicv
				c.panicv = nil
				return v
			}
			return iface{}
		}
	case "min", "max":
		t := w.ti(args[0].Type())
		op := token.LSS
		if b.Name() == "max" {
			op = token.GTR
		}
		f := w.binop(op, t, t)
		return func(fr *frame, a []value) value {
			r := a[0]
			for _, x := range a[1:] {
				c := f(fr.th, x, r)
				switch c := c.(type) {
				case bool:
					if c {
						r = x
					}
				case *Term:
					if t.k == kInt {
						r = termVal(w.T.Ite(c, w.term(x, t.w), w.term(r, t.w)), t.signed)
					} else if w.branch(c) {
						r = x
					}
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(fr *frame, a []value) value {
			if p, ok := a[0].(*value); ok && p == nil {
				panic(targetPanic{w.rtErrPlain(fmt.Sprintf("value method %v.%v called using nil pointer", a[1], a[2]))})
			}
			return a[0]
		}
	case "ssa:deferstack":
		return func(fr *frame, a []value) value { return &nativeObj{kind: "deferstack", v: fr} }
	case "String": // unsafe.String(ptr, len)
		return func(fr *frame, a []value) value {
			n, ok := a[1].(int64)
			if !ok {
				n = w.concretizeLen(a[1].(*Term), true)
			}
			p := a[0].(*value)
			if n == 0 || p == nil {
				return ""
			}
			return mkStr(unsafe.Slice(p, int(n)))
		}
	case "StringData":
		return func(fr *frame, a []value) value {
			b := strBytes(a[0])
			if len(b) == 0 {
				return (*value)(nil)
			}
			c := make([]value, len(b))
			copy(c, b)
			return &c[0]
		}
	case "SliceData":
		return func(fr *frame, a []value) value {
			s := a[0].([]value)
			if cap(s) == 0 {
				return (*value)(nil)
			}
			return &s[:1][0]
		}
	case "Slice":
		return func(fr *frame, a []value) value {
			n := a[1].(int64)
			p := a[0].(*value)
			if p == nil {
				return []value(nil)
			}
			return unsafe.Slice(p, int(n))
		}
	case "Add":
		return func(fr *frame, a []value) value { return unsup("unsafe.Add") }
	}
	nm := b.Name()
	return func(fr *frame, a []value) value { return unsup("builtin %s", nm) }
}

func growCap(old, need int) int {
	n := old
	if n == 0 {
		n = need
	}
	for n < need {
		if n < 256 {
			n *= 2
		} else {
			n += n/4 + 192
		}
	}
	if n < 4 && need > 1 {
		// keep small slices tight, like the runtime's size classes for words
	}
	return n
}

// ---- runtime errors

func (w *Worker) rtErr(msg string) value { return w.rtErrPlain("runtime error: " + msg) }

func (w *Worker) rtErrPlain(msg string) value {
	t := w.E.typeByName("runtime", "errorString")
	if t == nil {
		return iface{w.canon(types.Typ[types.String]), msg}
	}
	const pfx = "runtime error: "
	if len(msg) > len(pfx) && msg[:len(pfx)] == pfx {
		msg = msg[len(pfx):]
	}
	return iface{w.canon(t), msg}
}

func (w *Worker) nilDeref() value {
	return w.rtErr("invalid memory address or nil pointer dereference")
}

func (w *Worker) idxErr(i int64, n int) value {
	return w.rtErr(fmt.Sprintf("index out of range [%d] with length %d", i, n))
}
