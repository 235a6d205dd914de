package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (cp *compiler) instr(in ssa.Instruction) instrFn {
	w := cp.w
	tracked := cp.c.tracked
	switch in := in.(type) {
	case *ssa.Alloc:
		d := cp.slot[in]
		ti := w.ti(in.Type().Underlying().(*types.Pointer).Elem())
		switch ti.k {
		case kStruct, kArray:
			return func(fr *frame) {
				p := new(value)
				*p = ti.zero()
				fr.s[d] = p
			}
		}
		z := ti.zero()
		return func(fr *frame) {
			p := new(value)
			*p = z
			fr.s[d] = p
		}

	case *ssa.UnOp:
		return cp.unop(in)

	case *ssa.BinOp:
		d, x, y := cp.slot[in], cp.reg(in.X), cp.reg(in.Y)
		f := w.binop(in.Op, w.ti(in.X.Type()), w.ti(in.Y.Type()))
		pos := in.Pos()
		switch in.Op {
		case token.QUO, token.REM, token.SHL, token.SHR:
			return func(fr *frame) { fr.curPos = pos; fr.s[d] = f(fr.th, fr.s[x], fr.s[y]) }
		}
		return func(fr *frame) { fr.s[d] = f(fr.th, fr.s[x], fr.s[y]) }

	case *ssa.Call:
		return cp.call(in)

	case *ssa.ChangeInterface:
		d, x := cp.slot[in], cp.reg(in.X)
		return func(fr *frame) { fr.s[d] = fr.s[x] }

	case *ssa.ChangeType:
		d, x := cp.slot[in], cp.reg(in.X)
		return func(fr *frame) { fr.s[d] = fr.s[x] }

	case *ssa.Convert:
		d, x := cp.slot[in], cp.reg(in.X)
		f := w.convert(w.ti(in.X.Type()), w.ti(in.Type()))
		return func(fr *frame) { fr.s[d] = f(fr.th, fr.s[x]) }

	case *ssa.MultiConvert:
		d, x := cp.slot[in], cp.reg(in.X)
		f := w.convert(w.ti(in.X.Type()), w.ti(in.Type()))
		return func(fr *frame) { fr.s[d] = f(fr.th, fr.s[x]) }

	case *ssa.SliceToArrayPointer:
		d, x := cp.slot[in], cp.reg(in.X)
		n := w.ti(in.Type().Underlying().(*types.Pointer).Elem()).n
		return func(fr *frame) {
			s := fr.s[x].([]value)
			if len(s) < n {
				panic(targetPanic{w.rtErr(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))})
			}
			if s == nil {
				fr.s[d] = (*value)(nil)
				return
			}
			p := new(value)
			*p = arrayV(s[:n:n])
			fr.s[d] = p
		}

	case *ssa.DebugRef:
		return nil

	case *ssa.Defer:
		return cp.deferInstr(in)

	case *ssa.Extract:
		d, x, i := cp.slot[in], cp.reg(in.Tuple), in.Index
		return func(fr *frame) {
			t, ok := fr.s[x].(tupleV)
			if !ok {
				if p, ok := fr.s[x].(poison); ok {
					unsup("use of poisoned value: %s", p.why)
				}
			}
			fr.s[d] = t[i]
		}

	case *ssa.Field:
		d, x, i := cp.slot[in], cp.reg(in.X), in.Field
		return func(fr *frame) { fr.s[d] = fr.s[x].(structV)[i] }

	case *ssa.FieldAddr:
		d, x, i := cp.slot[in], cp.reg(in.X), in.Field
		pos := in.Pos()
		return func(fr *frame) {
			p, ok := fr.s[x].(*value)
			if !ok {
				badPtr(fr.s[x])
			}
			if p == nil {
				fr.curPos = pos
				panic(targetPanic{w.nilDeref()})
			}
			s, ok := (*p).(structV)
			if !ok {
				badStruct(*p, in)
			}
			fr.s[d] = &s[i]
		}

	case *ssa.Go:
		return cp.goInstr(in)

	case *ssa.Index:
		d, x, y := cp.slot[in], cp.reg(in.X), cp.reg(in.Index)
		it := w.ti(in.Index.Type())
		xt := w.ti(in.X.Type())
		pos := in.Pos()
		if xt.k == kString {
			return func(fr *frame) {
				fr.curPos = pos
				v := fr.s[x]
				n := strLen(v)
				if i, ok := fr.s[y].(int64); ok {
					if uint64(i) >= uint64(n) {
						panic(targetPanic{w.idxErr(i, n)})
					}
					fr.s[d] = strByte(v, int(i))
					return
				}
				fr.s[d] = w.symIndex(fr.th, fr.s[y].(*Term), it, n, func(i int) value { return strByte(v, i) }, &tinfo{k: kInt, w: 8})
			}
		}
		return func(fr *frame) {
			fr.curPos = pos
			a := fr.s[x].(arrayV)
			if i, ok := fr.s[y].(int64); ok {
				if uint64(i) >= uint64(len(a)) {
					panic(targetPanic{w.idxErr(i, len(a))})
				}
				fr.s[d] = a[i]
				return
			}
			fr.s[d] = w.symIndex(fr.th, fr.s[y].(*Term), it, len(a), func(i int) value { return a[i] }, xt.el)
		}

	case *ssa.IndexAddr:
		return cp.indexAddr(in)

	case *ssa.Lookup:
		d, x, y := cp.slot[in], cp.reg(in.X), cp.reg(in.Index)
		xt := w.ti(in.X.Type())
		pos := in.Pos()
		if xt.k == kString {
			it := w.ti(in.Index.Type())
			return func(fr *frame) {
				fr.curPos = pos
				v := fr.s[x]
				n := strLen(v)
				if i, ok := fr.s[y].(int64); ok {
					if uint64(i) >= uint64(n) {
						panic(targetPanic{w.idxErr(i, n)})
					}
					fr.s[d] = strByte(v, int(i))
					return
				}
				fr.s[d] = w.symIndex(fr.th, fr.s[y].(*Term), it, n, func(i int) value { return strByte(v, i) }, &tinfo{k: kInt, w: 8})
			}
		}
		et := w.ti(xt.elem)
		commaOk := in.CommaOk
		return func(fr *frame) {
			fr.curPos = pos
			m, okm := fr.s[x].(*hmap)
			if !okm {
				if p, ok := fr.s[x].(poison); ok {
					unsup("use of poisoned map: %s", p.why)
				}
			}
			if tracked && m != nil && fr.th.p != nil && fr.th.p.multi {
				fr.th.raceMap(m, false, fr)
			}
			v, ok := m.get(w, fr.s[y])
			if !ok {
				v = et.zero()
			} else {
				v = copyVal(v)
			}
			if commaOk {
				fr.s[d] = tupleV{v, ok}
			} else {
				fr.s[d] = v
			}
		}

	case *ssa.MakeChan:
		d, x := cp.slot[in], cp.reg(in.Size)
		et := w.ti(in.Type().Underlying().(*types.Chan).Elem())
		return func(fr *frame) {
			n, ok := fr.s[x].(int64)
			if !ok {
				n = w.concretize(fr.s[x].(*Term), true)
			}
			if n < 0 || n > 1<<20 {
				panic(targetPanic{w.rtErrPlain("makechan: size out of range")})
			}
			fr.s[d] = &chanV{cap: int(n), et: et}
		}

	case *ssa.MakeClosure:
		d := cp.slot[in]
		fn := in.Fn.(*ssa.Function)
		var bs []int
		for _, b := range in.Bindings {
			bs = append(bs, cp.reg(b))
		}
		return func(fr *frame) {
			env := make([]value, len(bs))
			for i, b := range bs {
				env[i] = fr.s[b]
			}
			fr.s[d] = &funcV{fn: fn, env: env}
		}

	case *ssa.MakeInterface:
		d, x := cp.slot[in], cp.reg(in.X)
		t := w.canon(in.X.Type())
		return func(fr *frame) { fr.s[d] = iface{t, fr.s[x]} }

	case *ssa.MakeMap:
		d := cp.slot[in]
		kt := w.ti(in.Type().Underlying().(*types.Map).Key())
		return func(fr *frame) { fr.s[d] = w.newMap(kt) }

	case *ssa.MakeSlice:
		d, l, c := cp.slot[in], cp.reg(in.Len), cp.reg(in.Cap)
		et := w.ti(in.Type().Underlying().(*types.Slice).Elem())
		pos := in.Pos()
		lt := w.ti(in.Len.Type())
		return func(fr *frame) {
			fr.curPos = pos
			n, ok := fr.s[l].(int64)
			if !ok {
				t := fr.s[l].(*Term)
				n = norm(w.concretizeLen(t, lt.signed), 64, true)
			}
			cc, ok := fr.s[c].(int64)
			if !ok {
				if l == c {
					cc = n
				} else {
					cc = w.concretizeLen(fr.s[c].(*Term), true)
				}
			}
			if n < 0 || n > 1<<40 {
				panic(targetPanic{w.rtErrPlain("makeslice: len out of range")})
			}
			if cc < n {
				panic(targetPanic{w.rtErrPlain("makeslice: cap out of range")})
			}
			if cc > 1<<24 {
				unsup("makeslice of %d elements", cc)
			}
			s := make([]value, cc)
			switch et.k {
			case kStruct, kArray:
				for i := range s {
					s[i] = et.zero()
				}
			default:
				z := et.zero()
				for i := range s {
					s[i] = z
				}
			}
			fr.s[d] = s[:n]
		}

	case *ssa.MapUpdate:
		m, k, v := cp.reg(in.Map), cp.reg(in.Key), cp.reg(in.Value)
		pos := in.Pos()
		return func(fr *frame) {
			if fr.th.spec > 0 {
				panic(specAbort{})
			}
			fr.curPos = pos
			mm := fr.s[m].(*hmap)
			if tracked && mm != nil && fr.th.p != nil && fr.th.p.multi {
				fr.th.raceMap(mm, true, fr)
			}
			mm.set(w, copyVal(fr.s[k]), copyVal(fr.s[v]))
		}

	case *ssa.Next:
		d, x := cp.slot[in], cp.reg(in.Iter)
		isStr := in.IsString
		return func(fr *frame) {
			it := fr.s[x].(*rangeIter)
			if fr.th.spec > 0 {
				panic(specAbort{})
			}
			if isStr {
				fr.s[d] = w.nextRune(it)
				return
			}
			if it.m == nil {
				fr.s[d] = tupleV{false, nil, nil}
				return
			}
			for it.i < len(it.m.keys) && it.m.dead[it.i] {
				it.i++
			}
			if it.i >= len(it.m.keys) {
				fr.s[d] = tupleV{false, nil, nil}
				return
			}
			if tracked && fr.th.p != nil && fr.th.p.multi {
				fr.th.raceMap(it.m, false, fr)
			}
			fr.s[d] = tupleV{true, it.m.keys[it.i], copyVal(*it.m.vals[it.i])}
			it.i++
		}

	case *ssa.Range:
		d, x := cp.slot[in], cp.reg(in.X)
		if w.ti(in.X.Type()).k == kString {
			return func(fr *frame) { fr.s[d] = &rangeIter{str: strBytes(fr.s[x])} }
		}
		return func(fr *frame) {
			m, _ := fr.s[x].(*hmap)
			fr.s[d] = &rangeIter{m: m}
		}

	case *ssa.RunDefers:
		return func(fr *frame) {
			if fr.th.spec > 0 {
				panic(specAbort{})
			}
			fr.runDefers()
		}

	case *ssa.Select:
		return cp.selectInstr(in)

	case *ssa.Send:
		c, x := cp.reg(in.Chan), cp.reg(in.X)
		pos := in.Pos()
		user := cp.c.user
		return func(fr *frame) {
			if fr.th.spec > 0 {
				panic(specAbort{})
			}
			fr.curPos = pos
			fr.th.chanSend(fr.s[c].(*chanV), copyVal(fr.s[x]), user, in.Pos())
		}

	case *ssa.Slice:
		return cp.sliceInstr(in)

	case *ssa.Store:
		a, x := cp.reg(in.Addr), cp.reg(in.Val)
		pos := in.Pos()
		vt := w.ti(in.Val.Type())
		agg := vt.k == kStruct || vt.k == kArray
		_, local := in.Addr.(*ssa.Alloc)
		if local && !agg && !tracked {
			return func(fr *frame) {
				if fr.th.spec > 0 {
					panic(specAbort{})
				}
				*(fr.s[a].(*value)) = fr.s[x]
			}
		}
		return func(fr *frame) {
			th := fr.th
			if th.spec > 0 {
				panic(specAbort{})
			}
			p, ok := fr.s[a].(*value)
			if !ok {
				badPtr(fr.s[a])
			}
			if p == nil {
				fr.curPos = pos
				panic(targetPanic{w.nilDeref()})
			}
			if tracked && th.p != nil && th.p.multi {
				fr.curPos = pos
				th.raceCell(p, true, fr)
			}
			if agg {
				w.storeTo(p, fr.s[x])
			} else {
				if w.initDepth == 0 && !local {
					w.p.undo = append(w.p.undo, undoEnt{p, *p})
				}
				*p = fr.s[x]
			}
		}

	case *ssa.TypeAssert:
		return cp.typeAssert(in)
	}
	panic(fmt.Sprintf("instr %T", in))
}

func badPtr(v value) {
	if p, ok := v.(poison); ok {
		unsup("use of poisoned pointer: %s", p.why)
	}
	unsup("pointer operation on %T", v)
}

func badStruct(v value, in ssa.Instruction) {
	if p, ok := v.(poison); ok {
		unsup("use of poisoned struct: %s", p.why)
	}
	unsup("field access on %T (%s in %s)", v, in, in.Parent())
}

func (w *Worker) storeTo(p *value, v value) {
	switch x := v.(type) {
	case structV:
		if d, ok := (*p).(structV); ok && len(d) == len(x) {
			for i := range x {
				w.storeTo(&d[i], x[i])
			}
			return
		}
		v = copyVal(v)
	case arrayV:
		if d, ok := (*p).(arrayV); ok && len(d) == len(x) {
			if len(d) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				w.storeTo(&d[i], x[i])
			}
			return
		}
		v = copyVal(v)
	}
	if w.initDepth == 0 && w.p != nil {
		w.p.undo = append(w.p.undo, undoEnt{p, *p})
	}
	*p = v
}

type undoEnt struct {
	p   *value
	old value
}

func (cp *compiler) unop(in *ssa.UnOp) instrFn {
	w := cp.w
	tracked := cp.c.tracked
	d, x := cp.slot[in], cp.reg(in.X)
	pos := in.Pos()
	xt := w.ti(in.X.Type())
	switch in.Op {
	case token.MUL:
		et := w.ti(in.Type())
		agg := et.k == kStruct || et.k == kArray
		_, isGlobal := in.X.(*ssa.Global)
		_ = isGlobal
		return func(fr *frame) {
			p, ok := fr.s[x].(*value)
			if !ok {
				badPtr(fr.s[x])
			}
			if p == nil {
				fr.curPos = pos
				panic(targetPanic{w.nilDeref()})
			}
			if tracked && fr.th.p != nil && fr.th.p.multi {
				fr.curPos = pos
				fr.th.raceCell(p, false, fr)
			}
			if agg {
				fr.s[d] = copyVal(*p)
			} else {
				fr.s[d] = *p
			}
		}
	case token.NOT:
		return func(fr *frame) {
			if b, ok := fr.s[x].(bool); ok {
				fr.s[d] = !b
			} else {
				fr.s[d] = w.vNot(fr.s[x])
			}
		}
	case token.SUB:
		switch xt.k {
		case kInt:
			return func(fr *frame) {
				if v, ok := fr.s[x].(int64); ok {
					fr.s[d] = norm(-v, xt.w, xt.signed)
				} else {
					fr.s[d] = termVal(w.T.Neg(fr.s[x].(*Term)), xt.signed)
				}
			}
		case kFloat:
			return func(fr *frame) {
				switch v := fr.s[x].(type) {
				case float64:
					fr.s[d] = -v
				case float32:
					fr.s[d] = -v
				default:
					unsup("symbolic float")
				}
			}
		}
	case token.XOR:
		return func(fr *frame) {
			if v, ok := fr.s[x].(int64); ok {
				fr.s[d] = norm(^v, xt.w, xt.signed)
			} else {
				fr.s[d] = termVal(w.T.BNot(fr.s[x].(*Term)), xt.signed)
			}
		}
	case token.ARROW:
		commaOk := in.CommaOk
		user := cp.c.user
		return func(fr *frame) {
			if fr.th.spec > 0 {
				panic(specAbort{})
			}
			fr.curPos = pos
			v, ok := fr.th.chanRecv(fr.s[x].(*chanV), user, pos)
			if commaOk {
				fr.s[d] = tupleV{v, ok}
			} else {
				fr.s[d] = v
			}
		}
	}
	return func(fr *frame) { unsup("unop %s on %s", in.Op, in.X.Type()) }
}

func (cp *compiler) indexAddr(in *ssa.IndexAddr) instrFn {
	w := cp.w
	d, x, y := cp.slot[in], cp.reg(in.X), cp.reg(in.Index)
	it := w.ti(in.Index.Type())
	pos := in.Pos()
	xt := w.ti(in.X.Type())
	isPtr := xt.k == kPtr
	// If every use is a load of a scalar, a symbolic index becomes an ite tree.
	onlyLoads := true
	for _, r := range *in.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		onlyLoads = false
	}
	et := w.ti(in.Type().Underlying().(*types.Pointer).Elem())
	return func(fr *frame) {
		fr.curPos = pos
		var a []value
		if isPtr {
			p, ok := fr.s[x].(*value)
			if !ok {
				badPtr(fr.s[x])
			}
			if p == nil {
				panic(targetPanic{w.nilDeref()})
			}
			aa, ok := (*p).(arrayV)
			if !ok {
				badStruct(*p, in)
			}
			a = aa
		} else {
			s, ok := fr.s[x].([]value)
			if !ok {
				badPtr(fr.s[x])
			}
			a = s
		}
		if i, ok := fr.s[y].(int64); ok {
			if uint64(i) >= uint64(len(a)) {
				panic(targetPanic{w.idxErr(i, len(a))})
			}
			fr.s[d] = &a[i]
			return
		}
		t := fr.s[y].(*Term)
		if onlyLoads && (et.k == kInt || et.k == kBool) && len(a) <= 512 {
			allScalar := true
			for _, v := range a {
				switch v.(type) {
				case int64, bool, *Term:
				default:
					allScalar = false
				}
			}
			if allScalar {
				p := new(value)
				*p = w.symIndex(fr.th, t, it, len(a), func(i int) value { return a[i] }, et)
				fr.s[d] = p
				return
			}
		}
		i := w.boundsFork(t, it, len(a))
		fr.s[d] = &a[i]
	}
}

// boundsFork concretises a symbolic index, panicking in the target if out of range.
func (w *Worker) boundsFork(t *Term, it *tinfo, n int) int64 {
	w.checkBounds(t, it, n)
	return w.concretize(t, it.signed)
}

func (w *Worker) checkBounds(t *Term, it *tinfo, n int) {
	var in *Term
	if it.w < 64 && uint64(n) > mask(it.w) {
		if it.signed {
			in = w.T.Cmp(OSle, w.T.BV(0, it.w), t)
		} else {
			in = w.T.tt
		}
	} else {
		in = w.T.Cmp(OUlt, t, w.T.BV(uint64(n), it.w))
	}
	if !w.branch(in) {
		panic(targetPanic{w.rtErr("index out of range (symbolic)")})
	}
}

// symIndex builds the value a[t] as an ite tree (bounds checked).
func (w *Worker) symIndex(th *thread, t *Term, it *tinfo, n int, at func(int) value, et *tinfo) value {
	w.checkBounds(t, it, n)
	if et.k != kInt && et.k != kBool {
		return at(int(w.concretize(t, it.signed)))
	}
	tw := et.w
	if et.k == kBool {
		tw = 0
	}
	// Group equal values: ite(or(ranges), v, ...)
	type run struct {
		lo, hi int
		v      *Term
	}
	var runs []run
	for i := 0; i < n; i++ {
		v := w.term(at(i), tw)
		if len(runs) > 0 && runs[len(runs)-1].v == v {
			runs[len(runs)-1].hi = i
		} else {
			runs = append(runs, run{i, i, v})
		}
	}
	if len(runs) == 0 {
		panic(pathEnd{})
	}
	// balanced binary decision on t
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if lo == hi {
			return runs[lo].v
		}
		mid := (lo + hi) / 2
		if uint64(runs[mid].hi) >= mask(it.w) {
			return build(lo, mid)
		}
		c := w.T.Cmp(OUle, t, w.T.BV(uint64(runs[mid].hi), it.w))
		return w.T.Ite(c, build(lo, mid), build(mid+1, hi))
	}
	return termVal(build(0, len(runs)-1), et.signed)
}

func (cp *compiler) sliceInstr(in *ssa.Slice) instrFn {
	w := cp.w
	d, x := cp.slot[in], cp.reg(in.X)
	lo, hi, mx := -1, -1, -1
	if in.Low != nil {
		lo = cp.reg(in.Low)
	}
	if in.High != nil {
		hi = cp.reg(in.High)
	}
	if in.Max != nil {
		mx = cp.reg(in.Max)
	}
	pos := in.Pos()
	xt := w.ti(in.X.Type())
	get := func(fr *frame, r int, signed bool) int64 {
		v := fr.s[r]
		if i, ok := v.(int64); ok {
			return i
		}
		return w.concretizeLen(v.(*Term), signed)
	}
	sg := func(v ssa.Value) bool {
		if v == nil {
			return true
		}
		return w.ti(v.Type()).signed
	}
	sl, sh, sm := sg(in.Low), sg(in.High), sg(in.Max)
	return func(fr *frame) {
		fr.curPos = pos
		switch xt.k {
		case kString:
			v := fr.s[x]
			if lo < 0 && hi < 0 {
				fr.s[d] = v
				return
			}
			n := int64(strLen(v))
			l, h := int64(0), n
			if lo >= 0 {
				l = get(fr, lo, sl)
			}
			if hi >= 0 {
				h = get(fr, hi, sh)
			}
			if h < 0 || h > n {
				panic(targetPanic{w.rtErr(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))})
			}
			if l < 0 || l > h {
				panic(targetPanic{w.rtErr(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))})
			}
			fr.s[d] = strSlice(v, int(l), int(h))
		default:
			var a []value
			if xt.k == kPtr {
				p := fr.s[x].(*value)
				if p == nil {
					panic(targetPanic{w.nilDeref()})
				}
				a = []value((*p).(arrayV))
				if a == nil {
					a = []value{}
				}
			} else {
				s, ok := fr.s[x].([]value)
				if !ok {
					badPtr(fr.s[x])
				}
				a = s
			}
			l, h, m := int64(0), int64(len(a)), int64(cap(a))
			if mx >= 0 {
				m = get(fr, mx, sm)
			}
			if lo >= 0 {
				l = get(fr, lo, sl)
			}
			if hi >= 0 {
				h = get(fr, hi, sh)
			}
			if m < 0 || m > int64(cap(a)) {
				panic(targetPanic{w.rtErr(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, cap(a)))})
			}
			if h < 0 || h > m {
				panic(targetPanic{w.rtErr(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, m))})
			}
			if l < 0 || l > h {
				panic(targetPanic{w.rtErr(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))})
			}
			fr.s[d] = a[l:h:m]
		}
	}
}

func (cp *compiler) typeAssert(in *ssa.TypeAssert) instrFn {
	w := cp.w
	d, x := cp.slot[in], cp.reg(in.X)
	at := in.AssertedType
	pos := in.Pos()
	ati := w.ti(at)
	commaOk := in.CommaOk
	if it, ok := at.Underlying().(*types.Interface); ok {
		return func(fr *frame) {
			v, ok := fr.s[x].(iface)
			if !ok {
				badPtr(fr.s[x])
			}
			good := v.t != nil && w.implements(v.t, it)
			if commaOk {
				if good {
					fr.s[d] = tupleV{v, true}
				} else {
					fr.s[d] = tupleV{iface{}, false}
				}
				return
			}
			if !good {
				fr.curPos = pos
				panic(targetPanic{w.rtErrPlain(fmt.Sprintf("interface conversion: %v is not %v", v.t, at))})
			}
			fr.s[d] = v
		}
	}
	ct := w.canon(at)
	return func(fr *frame) {
		v, ok := fr.s[x].(iface)
		if !ok {
			badPtr(fr.s[x])
		}
		good := v.t == ct
		if commaOk {
			if good {
				fr.s[d] = tupleV{copyVal(v.v), true}
			} else {
				fr.s[d] = tupleV{ati.zero(), false}
			}
			return
		}
		if !good {
			fr.curPos = pos
			panic(targetPanic{w.rtErrPlain(fmt.Sprintf("interface conversion: interface is %v, not %v", v.t, at))})
		}
		fr.s[d] = copyVal(v.v)
	}
}

// ---- calls

type preparedCall struct {
	static *ssa.Function
	c      *code
	val    int // slot of function value
	bi     *ssa.Builtin
	invoke bool
	recv   int
	m      *types.Func
	args   []int
	point  string
}

func (cp *compiler) prep(cc *ssa.CallCommon) *preparedCall {
	p := &preparedCall{}
	for _, a := range cc.Args {
		p.args = append(p.args, cp.reg(a))
	}
	if cc.IsInvoke() {
		p.invoke = true
		p.recv = cp.reg(cc.Value)
		p.m = cc.Method
		return p
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		p.bi = f
		return p
	case *ssa.Function:
		p.static = f
		return p
	}
	p.val = cp.reg(cc.Value)
	return p
}

// resolve returns the callee and full argument list.
func (p *preparedCall) resolve(fr *frame) (func() value, []value) {
	w := fr.th.w
	args := make([]value, 0, len(p.args)+1)
	if p.invoke {
		v, ok := fr.s[p.recv].(iface)
		if !ok {
			badPtr(fr.s[p.recv])
		}
		if v.t == nil {
			panic(targetPanic{w.nilDeref()})
		}
		if nm, ok := nativeMethod(v, p.m.Name()); ok {
			for _, a := range p.args {
				args = append(args, fr.s[a])
			}
			return func() value { return nm(fr.th, fr, v, args) }, args
		}
		fn := w.method(v.t, p.m)
		if fn == nil {
			unsup("no method %s on %v", p.m.Name(), v.t)
		}
		args = append(args, v.v)
		for _, a := range p.args {
			args = append(args, fr.s[a])
		}
		c := w.code(fn)
		return func() value { return fr.th.callCode(c, args, nil, fr) }, args
	}
	for _, a := range p.args {
		args = append(args, fr.s[a])
	}
	if p.static != nil {
		c := w.code(p.static)
		return func() value { return fr.th.callCode(c, args, nil, fr) }, args
	}
	f := fr.s[p.val]
	return func() value { return fr.th.callValue(f, args, fr) }, args
}

func (cp *compiler) call(in *ssa.Call) instrFn {
	w := cp.w
	d := cp.slot[in]
	p := cp.prep(&in.Call)
	pos := in.Pos()
	if p.bi != nil {
		f := cp.builtin(p.bi, in.Call.Args, in.Type())
		args := p.args
		return func(fr *frame) {
			fr.curPos = pos
			var buf [4]value
			a := buf[:0]
			for _, x := range args {
				a = append(a, fr.s[x])
			}
			fr.s[d] = f(fr, a)
		}
	}
	user := cp.c.user
	if p.static != nil {
		fn := p.static
		var c *code
		args := p.args
		point := user && isSyncCall(fn)
		return func(fr *frame) {
			if c == nil {
				c = w.code(fn)
			}
			fr.curPos = pos
			if point {
				fr.th.point(fr, pos)
			}
			var buf [8]value
			a := buf[:0]
			for _, x := range args {
				a = append(a, fr.s[x])
			}
			if c.intrin != nil {
				a = append([]value(nil), a...)
			}
			fr.s[d] = fr.th.callCode(c, a, nil, fr)
		}
	}
	if p.invoke {
		args := p.args
		m := p.m
		recv := p.recv
		var ct types.Type
		var cc *code
		return func(fr *frame) {
			fr.curPos = pos
			v, ok := fr.s[recv].(iface)
			if !ok {
				badPtr(fr.s[recv])
			}
			if v.t == nil {
				panic(targetPanic{w.nilDeref()})
			}
			if nm, ok := nativeMethod(v, m.Name()); ok {
				a := make([]value, len(args))
				for i, x := range args {
					a[i] = fr.s[x]
				}
				fr.s[d] = nm(fr.th, fr, v, a)
				return
			}
			c := cc
			if ct != v.t {
				fn := w.method(v.t, m)
				if fn == nil {
					unsup("no method %s on %v", m.Name(), v.t)
				}
				c = w.code(fn)
				ct, cc = v.t, c
			}
			if user && c.intrin != nil || user && isSyncCall(c.fn) {
				fr.th.point(fr, pos)
			}
			a := make([]value, 0, 8)
			a = append(a, v.v)
			for _, x := range args {
				a = append(a, fr.s[x])
			}
			fr.s[d] = fr.th.callCode(c, a, nil, fr)
		}
	}
	return func(fr *frame) {
		fr.curPos = pos
		f, _ := p.resolve(fr)
		fr.s[d] = f()
	}
}

func (cp *compiler) deferInstr(in *ssa.Defer) instrFn {
	p := cp.prep(&in.Call)
	var bf func(fr *frame, a []value) value
	if p.bi != nil {
		bf = cp.builtin(p.bi, in.Call.Args, nil)
	}
	pos := in.Pos()
	user := cp.c.user
	var dstk int = -1
	if in.DeferStack != nil {
		dstk = cp.reg(in.DeferStack)
	}
	return func(fr *frame) {
		if fr.th.spec > 0 {
			panic(specAbort{})
		}
		fr.curPos = pos
		target := fr
		if dstk >= 0 {
			if n, ok := fr.s[dstk].(*nativeObj); ok {
				target = n.v.(*frame)
			}
		}
		d := &deferred{next: target.defers}
		if bf != nil {
			a := make([]value, len(p.args))
			for i, x := range p.args {
				a[i] = fr.s[x]
			}
			d.run = func() { bf(fr, a) }
		} else {
			f, _ := p.resolve(fr)
			if user && p.static != nil && isSyncCall(p.static) {
				d.run = func() { fr.th.point(fr, pos); f() }
			} else {
				d.run = func() { f() }
			}
		}
		target.defers = d
	}
}

func (cp *compiler) goInstr(in *ssa.Go) instrFn {
	p := cp.prep(&in.Call)
	pos := in.Pos()
	user := cp.c.user
	return func(fr *frame) {
		if fr.th.spec > 0 {
			panic(specAbort{})
		}
		fr.curPos = pos
		w := fr.th.w
		args := make([]value, 0, len(p.args)+1)
		var run func(th *thread)
		switch {
		case p.bi != nil:
			unsup("go builtin")
		case p.invoke:
			v := fr.s[p.recv].(iface)
			if v.t == nil {
				panic(targetPanic{w.nilDeref()})
			}
			fn := w.method(v.t, p.m)
			args = append(args, v.v)
			for _, a := range p.args {
				args = append(args, fr.s[a])
			}
			run = func(th *thread) { th.callCode(th.w.code(fn), args, nil, nil) }
		default:
			for _, a := range p.args {
				args = append(args, fr.s[a])
			}
			if p.static != nil {
				run = func(th *thread) { th.callCode(th.w.code(p.static), args, nil, nil) }
			} else {
				f := fr.s[p.val]
				run = func(th *thread) { th.callValue(f, args, nil) }
			}
		}
		fr.th.spawn(run, posStr(w, pos))
		if user {
			fr.th.point(fr, pos)
		}
	}
}

func posStr(w *Worker, pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	p := w.E.fset.Position(pos)
	return fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
}

func shortFile(f string) string {
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] == '/' {
			return f[i+1:]
		}
	}
	return f
}
