package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// region merging: a symbolic conditional whose two sides have no side effects
// up to their common postdominator is executed on both sides and the results
// are joined with ite instead of forking the path.

type specAbort struct{}

type regionStat struct{ ok, fail int }

type flow struct {
	ipdom []int
	live  [][]int
	slotT map[int]types.Type
}

const specBudget = 4000

func (w *Worker) flowOf(c *code) *flow {
	if f, ok := w.flows[c]; ok {
		return f
	}
	fn := c.fn
	n := len(fn.Blocks)
	// postdominators (virtual exit n)
	words := (n + 64) / 64
	full := make([]uint64, words)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << (i % 64)
	}
	pd := make([][]uint64, n+1)
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[n] = make([]uint64, words)
	pd[n][n/64] |= 1 << (n % 64)
	succs := make([][]int, n)
	for i, b := range fn.Blocks {
		for _, s := range b.Succs {
			succs[i] = append(succs[i], s.Index)
		}
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				succs[i] = append(succs[i], n)
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if len(succs[i]) == 0 {
				continue
			}
			nw := append([]uint64(nil), full...)
			for _, s := range succs[i] {
				for k := range nw {
					nw[k] &= pd[s][k]
				}
			}
			nw[i/64] |= 1 << (i % 64)
			for k := range nw {
				if nw[k] != pd[i][k] {
					pd[i] = nw
					ch = true
					break
				}
			}
		}
	}
	f := &flow{ipdom: make([]int, n), slotT: map[int]types.Type{}}
	for i := 0; i < n; i++ {
		f.ipdom[i] = -1
		if len(succs[i]) == 0 {
			continue
		}
		want := append([]uint64(nil), pd[i]...)
		want[i/64] &^= 1 << (i % 64)
		isFull := true
		for k := range full {
			if pd[i][k] != full[k] {
				isFull = false
			}
		}
		if isFull && n > 1 {
			continue
		}
		for d := 0; d <= n; d++ {
			if d == i || want[d/64]&(1<<(d%64)) == 0 {
				continue
			}
			eq := true
			for k := range want {
				if pd[d][k] != want[k] {
					eq = false
					break
				}
			}
			if eq {
				f.ipdom[i] = d
				break
			}
		}
	}
	// liveness
	liveIn := make([]map[int]bool, n)
	for i := range liveIn {
		liveIn[i] = map[int]bool{}
	}
	slotOf := func(v ssa.Value) (int, bool) {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.Parameter, *ssa.FreeVar:
			return 0, false
		}
		s, ok := c.slots[v]
		return s, ok
	}
	for v, s := range c.slots {
		if _, ok := v.(ssa.Instruction); ok {
			f.slotT[s] = v.Type()
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[int]bool{}
			for si, s := range b.Succs {
				_ = si
				for k := range liveIn[s.Index] {
					live[k] = true
				}
				for pi, pr := range s.Preds {
					if pr != b {
						continue
					}
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						delete(live, c.slots[phi])
						_ = pi
					}
				}
			}
			for _, s := range b.Succs {
				for pi, pr := range s.Preds {
					if pr != b {
						continue
					}
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if k, ok := slotOf(phi.Edges[pi]); ok {
							live[k] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(live, c.slots[v])
					}
				}
				if _, isPhi := in.(*ssa.Phi); isPhi {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if s, ok := slotOf(*op); ok {
						live[s] = true
					}
				}
			}
			// phi slots that are used count as live-in: they are set by the edge
			if len(live) != len(liveIn[i]) {
				liveIn[i] = live
				ch = true
			} else {
				for k := range live {
					if !liveIn[i][k] {
						liveIn[i] = live
						ch = true
						break
					}
				}
			}
		}
	}
	f.live = make([][]int, n)
	for i := range liveIn {
		for k := range liveIn[i] {
			f.live[i] = append(f.live[i], k)
		}
		sortInts(f.live[i])
	}
	w.flows[c] = f
	return f
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// symIf handles a conditional on a symbolic value. It returns the successor
// index, or -2 after merging.
func (fr *frame) symIf(bi int, v value) int {
	th := fr.th
	w := th.w
	if q, ok := v.(poison); ok {
		unsup("branch on poisoned value: %s", q.why)
	}
	c := v.(*Term)
	if w.p == nil || w.initDepth > 0 {
		unsup("symbolic branch during initialisation")
	}
	if d := w.quick(c); d >= 0 {
		return 1 - d
	}
	if !w.noMerge {
		if fr.tryMerge(bi, c) {
			return -2
		}
	}
	if th.spec > 0 {
		panic(specAbort{})
	}
	if w.branch(c) {
		return 0
	}
	return 1
}

type statKey struct {
	c  *code
	bi int
}

func (fr *frame) tryMerge(bi int, c *Term) bool {
	th := fr.th
	w := th.w
	code := fr.code
	if code.lenient || code.fn.Blocks == nil {
		return false
	}
	sk := statKey{code, bi}
	st := w.p.mergeStat[sk]
	if st == nil {
		st = &regionStat{}
		w.p.mergeStat[sk] = st
	}
	if st.fail >= 2+4*st.ok {
		return false
	}
	fl := w.flowOf(code)
	stop := fl.ipdom[bi]
	if stop < 0 {
		st.fail = 1 << 20
		return false
	}
	exit := stop == len(code.blocks)
	if exit && code.hasDefer {
		st.fail = 1 << 20
		return false
	}
	if th.spec == 0 {
		th.specBudget = specBudget
	}
	if th.spec > 40 {
		return false
	}
	saved := make([]value, len(fr.s))
	copy(saved, fr.s)
	prev, blk := fr.prev, fr.block
	b := code.blocks[bi]
	restore := func() {
		copy(fr.s, saved)
		fr.prev, fr.block = prev, blk
		fr.done = false
		fr.result = nil
	}
	fail := func() bool {
		restore()
		st.fail++
		return false
	}
	if !fr.runSide(b, 0, stop, c) {
		return fail()
	}
	s0 := make([]value, len(fr.s))
	copy(s0, fr.s)
	r0 := fr.result
	restore()
	if !fr.runSide(b, 1, stop, w.T.Not(c)) {
		return fail()
	}
	if exit {
		r, ok := w.mergeResults(c, r0, fr.result, code.resultT)
		if !ok {
			return fail()
		}
		copy(fr.s, saved)
		fr.result = r
		fr.done = true
		fr.block = blk
		st.ok++
		w.p.merges++
		return true
	}
	type mv struct {
		s int
		v value
	}
	var ms []mv
	for _, s := range fl.live[stop] {
		a, bb := s0[s], fr.s[s]
		if identical(a, bb) {
			continue
		}
		v, ok := w.mergeSlot(c, a, bb, fl.slotT[s])
		if !ok {
			return fail()
		}
		ms = append(ms, mv{s, v})
	}
	for _, m := range ms {
		fr.s[m.s] = m.v
	}
	fr.block = stop
	fr.prev = -1
	st.ok++
	w.p.merges++
	return true
}

func (w *Worker) mergeResults(c *Term, a, b value, rt []*tinfo) (value, bool) {
	switch len(rt) {
	case 0:
		return nil, true
	case 1:
		return w.merge(c, a, b, rt[0])
	}
	x, y := a.(tupleV), b.(tupleV)
	out := make(tupleV, len(x))
	for i := range x {
		v, ok := w.merge(c, x[i], y[i], rt[i])
		if !ok {
			return nil, false
		}
		out[i] = v
	}
	return out, true
}

// identical is a shallow identity test that never panics.
func identical(a, b value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *value:
		y, ok := b.(*value)
		return ok && x == y
	case *hmap:
		y, ok := b.(*hmap)
		return ok && x == y
	case *chanV:
		y, ok := b.(*chanV)
		return ok && x == y
	case *funcV:
		y, ok := b.(*funcV)
		return ok && x == y
	case *SymStr:
		y, ok := b.(*SymStr)
		return ok && x == y
	case *nativeObj:
		y, ok := b.(*nativeObj)
		return ok && x == y
	case *rangeIter:
		y, ok := b.(*rangeIter)
		return ok && x == y
	case *rtypeV:
		y, ok := b.(*rtypeV)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case float32:
		y, ok := b.(float32)
		return ok && x == y
	case []value:
		y, ok := b.([]value)
		if !ok || len(x) != len(y) || cap(x) != cap(y) || (x == nil) != (y == nil) {
			return false
		}
		return cap(x) == 0 || &x[:1][0] == &y[:1][0]
	case iface:
		y, ok := b.(iface)
		return ok && x.t == y.t && (x.t == nil || identical(x.v, y.v))
	case structV:
		y, ok := b.(structV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !identical(x[i], y[i]) {
				return false
			}
		}
		return true
	case arrayV:
		y, ok := b.(arrayV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !identical(x[i], y[i]) {
				return false
			}
		}
		return true
	case tupleV:
		y, ok := b.(tupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !identical(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (w *Worker) mergeSlot(c *Term, a, b value, t types.Type) (value, bool) {
	if t == nil || a == nil || b == nil {
		return nil, false
	}
	switch a.(type) {
	case *rangeIter:
		return nil, false
	}
	if tt, ok := t.(*types.Tuple); ok {
		x, ok1 := a.(tupleV)
		y, ok2 := b.(tupleV)
		if !ok1 || !ok2 {
			return nil, false
		}
		out := make(tupleV, len(x))
		for i := range x {
			if identical(x[i], y[i]) {
				out[i] = x[i]
				continue
			}
			v, ok := w.mergeSlot(c, x[i], y[i], tt.At(i).Type())
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	}
	return w.merge(c, a, b, w.ti(t))
}

// merge builds ite(c, a, b).
func (w *Worker) merge(c *Term, a, b value, t *tinfo) (value, bool) {
	if identical(a, b) {
		return a, true
	}
	if _, ok := a.(poison); ok {
		return nil, false
	}
	if _, ok := b.(poison); ok {
		return nil, false
	}
	switch t.k {
	case kInt:
		return termVal(w.T.Ite(c, w.term(a, t.w), w.term(b, t.w)), t.signed), true
	case kBool:
		return termVal(w.T.Ite(c, w.boolTerm(a), w.boolTerm(b)), false), true
	case kString:
		if _, ok := a.(*opaque); ok {
			return nil, false
		}
		if _, ok := b.(*opaque); ok {
			return nil, false
		}
		n := strLen(a)
		if n != strLen(b) {
			return nil, false
		}
		out := make([]value, n)
		for i := range out {
			out[i] = termVal(w.T.Ite(c, w.term(strByte(a, i), 8), w.term(strByte(b, i), 8)), false)
		}
		return mkStr(out), true
	case kStruct:
		x, y := a.(structV), b.(structV)
		out := make(structV, len(x))
		for i := range x {
			v, ok := w.merge(c, x[i], y[i], t.f[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case kArray:
		x, y := a.(arrayV), b.(arrayV)
		out := make(arrayV, len(x))
		for i := range x {
			v, ok := w.merge(c, x[i], y[i], t.el)
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case kIface:
		x, y := a.(iface), b.(iface)
		if x.t != y.t || x.t == nil {
			return nil, false
		}
		v, ok := w.merge(c, x.v, y.v, w.ti(x.t))
		if !ok {
			return nil, false
		}
		return iface{x.t, v}, true
	}
	return nil, false
}

// runSide speculatively executes successor n of b until stop (or return when
// stop is the virtual exit). It reports false if the side has effects.
func (fr *frame) runSide(b *block, n, stop int, cond *Term) (ok bool) {
	th := fr.th
	depth, sl, tfr := th.depth, len(th.stk), th.fr
	ns := th.nosched
	th.spec++
	th.specC = append(th.specC, cond)
	defer func() {
		th.spec--
		th.specC = th.specC[:len(th.specC)-1]
		if ok {
			return
		}
		r := recover()
		switch r.(type) {
		case specAbort, targetPanic, unsupported, nil:
		case killSentinel, pathEnd, solverError:
			panic(r)
		default:
			panic(r)
		}
		th.depth = depth
		th.nosched = ns
		if len(th.stk) > sl {
			th.stk = th.stk[:sl]
		}
		th.fr = tfr
	}()
	fr.takeEdge(b, n)
	exit := stop == len(fr.code.blocks)
	for fr.block != stop {
		th.specBudget--
		if th.specBudget < 0 {
			return false
		}
		bl := fr.code.blocks[fr.block]
		th.w.steps++
		for _, in := range bl.instrs {
			in(fr)
		}
		k := bl.term(fr)
		if k == -1 {
			return exit
		}
		if k == -2 {
			if fr.done {
				fr.done = false
				return exit
			}
			continue
		}
		fr.takeEdge(bl, k)
	}
	return !exit
}

// quick decides c from recorded facts without the solver: 1, 0 or -1.
func (w *Worker) quick(c *Term) int {
	if c.isConst() {
		return int(c.k)
	}
	p := w.p
	if p.pcSet[c] {
		return 1
	}
	nc := w.T.Not(c)
	if p.pcSet[nc] {
		return 0
	}
	th := p.cur
	for _, s := range th.specC {
		if s == c {
			return 1
		}
		if s == nc {
			return 0
		}
	}
	vs := c.Vars()
	if len(vs) == 1 && vs[0].w == 8 {
		ts := *c.truthSet()
		dom := [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
		if d := p.domains[vs[0]]; d != nil {
			dom = *d
		}
		for _, s := range th.specC {
			if sv := s.Vars(); len(sv) == 1 && sv[0] == vs[0] {
				st := s.truthSet()
				for k := range dom {
					dom[k] &= st[k]
				}
			}
		}
		t, f := false, false
		for k := 0; k < 4; k++ {
			if ts[k]&dom[k] != 0 {
				t = true
			}
			if ^ts[k]&dom[k] != 0 {
				f = true
			}
		}
		switch {
		case t && !f:
			return 1
		case f && !t:
			return 0
		case !t && !f:
			// contradictory speculation: either answer is fine
			return 0
		}
	}
	return -1
}
