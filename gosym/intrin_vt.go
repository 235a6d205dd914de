package main

import (
	"fmt"
)

// vt intrinsics: the harness API (see rt/zzvt).
func regVT() {
	V := func(n string, f inF) { reg(rtVT+"."+n, f) }
	VP := func(n string, f inF) { regp(rtVT+"."+n, f) }
	name := func(v value) string { return strConcrete(v) }
	rng := func(th *thread, n string, lo, hi int64) value {
		if lo > hi {
			unsup("empty range for %s", n)
		}
		if lo == hi {
			// keep the draw for the replay
			p := th.p
			k := p.drawCount[n]
			p.drawCount[n]++
			p.draws = append(p.draws, draw{fmt.Sprintf("%s#%d", n, k), 64, lo})
			return lo
		}
		t := th.p.newDraw(n, 64)
		if t.isConst() {
			v := int64(t.k)
			if v < lo || v > hi {
				v = lo
			}
			return v
		}
		T := th.w.T
		var c *Term
		if lo >= 0 {
			c = T.Cmp(OUle, T.BV(uint64(lo), 64), t)
			c = T.And(c, T.Cmp(OUle, t, T.BV(uint64(hi), 64)))
		} else {
			c = T.And(T.Cmp(OSle, T.BV(uint64(lo), 64), t), T.Cmp(OSle, t, T.BV(uint64(hi), 64)))
		}
		if th.p.eval(c) != 1 {
			m := th.p.model.clone()
			m[t.name] = uint64(lo)
			th.p.setModel(m)
		}
		th.p.addPC(c)
		return t
	}
	V("Int", func(th *thread, fr *frame, a []value) value { return rng(th, name(a[0]), a[1].(int64), a[2].(int64)) })
	V("Int64", func(th *thread, fr *frame, a []value) value { return rng(th, name(a[0]), a[1].(int64), a[2].(int64)) })
	V("Bool", func(th *thread, fr *frame, a []value) value { return termVal(th.p.newDraw(name(a[0]), 0), false) })
	V("Byte", func(th *thread, fr *frame, a []value) value {
		return th.symByte(name(a[0]), strConcrete(a[1]))
	})
	V("String", func(th *thread, fr *frame, a []value) value {
		n := name(a[0])
		lo, hi := a[1].(int64), a[2].(int64)
		l := lo
		if hi > lo {
			k := th.p.chooseN(int(hi-lo+1), dChoose)
			l = lo + int64(k)
		}
		th.logDraw(n+".len", uint64(l))
		b := make([]value, l)
		for i := range b {
			b[i] = th.symByte(n, strConcrete(a[3]))
		}
		return mkStr(b)
	})
	V("Choose", func(th *thread, fr *frame, a []value) value {
		k := th.p.chooseN(int(a[1].(int64)), dChoose)
		th.logDraw(name(a[0]), uint64(k))
		return int64(k)
	})
	V("Pick", func(th *thread, fr *frame, a []value) value {
		xs := a[1].([]value)
		k := th.p.chooseN(len(xs), dChoose)
		th.logDraw(name(a[0]), uint64(k))
		return xs[k]
	})
	V("Param", func(th *thread, fr *frame, a []value) value {
		if v, ok := th.w.E.params[name(a[0])]; ok {
			return v
		}
		return a[1]
	})
	V("Assume", func(th *thread, fr *frame, a []value) value { th.w.assume(a[0]); return nil })
	V("Assert", func(th *thread, fr *frame, a []value) value {
		msg := showStr(a[2])
		th.p.assert(th, a[1], name(a[0]), msg)
		return nil
	})
	V("Fail", func(th *thread, fr *frame, a []value) value {
		th.p.violation(th, name(a[0]), showStr(a[1]), nil)
		panic(pathEnd{})
	})
	V("Reach", func(th *thread, fr *frame, a []value) value {
		th.p.reached[name(a[0])] = true
		return nil
	})
	V("Expect", func(th *thread, fr *frame, a []value) value {
		r := th.w.R
		r.mu.Lock()
		for _, x := range a[0].([]value) {
			r.expected[x.(string)] = true
		}
		r.mu.Unlock()
		return nil
	})
	V("Known", func(th *thread, fr *frame, a []value) value {
		th.p.knownTag = name(a[0])
		return nil
	})
	V("Go", func(th *thread, fr *frame, a []value) value {
		f := a[0]
		th.spawn(func(nt *thread) { nt.callValue(f, nil, nil) }, "vt.Go")
		th.point(fr, fr.curPos)
		return nil
	})
	V("Yield", func(th *thread, fr *frame, a []value) value {
		th.point(fr, fr.curPos)
		return nil
	})
	V("WaitUntil", func(th *thread, fr *frame, a []value) value {
		f := a[0]
		th.block("vt.WaitUntil", func() bool {
			cur := th.p.cur
			cur.nosched++
			old := th.p.detectRaces
			th.p.detectRaces = false
			defer func() { cur.nosched--; th.p.detectRaces = old }()
			return cur.w.truth(cur.callValue(f, nil, nil))
		})
		// a WaitUntil synchronises with everything that happened before
		for _, t := range th.p.threads {
			if t != th {
				th.acquire(t.clock())
			}
		}
		return nil
	})
	V("Atomic", func(th *thread, fr *frame, a []value) value {
		th.nosched++
		th.callValue(a[0], nil, fr)
		th.nosched--
		return nil
	})
	V("HTTPDate", func(th *thread, fr *frame, a []value) value {
		// seconds since the epoch
		w := th.w
		if s, ok := a[0].(int64); ok {
			return goUnix(s)
		}
		v := termVal(w.T.Bin(OMul, w.term(a[0], 64), w.T.BV(1e9, 64)), true)
		return th.p.marker("d", v)
	})
	V("Dec", func(th *thread, fr *frame, a []value) value {
		if s, ok := a[0].(int64); ok {
			return itoa(int(s))
		}
		return th.p.marker("n", a[0])
	})
	V("Now", func(th *thread, fr *frame, a []value) value { return th.p.now })
	V("SetNow", func(th *thread, fr *frame, a []value) value {
		th.p.now = a[0]
		return nil
	})
	VP("And", func(th *thread, fr *frame, a []value) value {
		var r value = true
		for _, x := range a[0].([]value) {
			r = th.w.vAnd(r, x)
		}
		return r
	})
	VP("Or", func(th *thread, fr *frame, a []value) value {
		var r value = false
		for _, x := range a[0].([]value) {
			r = th.w.vOr(r, x)
		}
		return r
	})
	VP("Not", func(th *thread, fr *frame, a []value) value { return th.w.vNot(a[0]) })
	VP("Implies", func(th *thread, fr *frame, a []value) value { return th.w.vOr(th.w.vNot(a[0]), a[1]) })
	VP("Iff", func(th *thread, fr *frame, a []value) value {
		return termVal(th.w.T.Eq(th.w.boolTerm(a[0]), th.w.boolTerm(a[1])), false)
	})
	VP("EqStr", func(th *thread, fr *frame, a []value) value { return th.w.eqStr(a[0], a[1]) })
	VP("IteInt", func(th *thread, fr *frame, a []value) value {
		if b, ok := a[0].(bool); ok {
			if b {
				return a[1]
			}
			return a[2]
		}
		return termVal(th.w.T.Ite(th.w.boolTerm(a[0]), th.w.term(a[1], 64), th.w.term(a[2], 64)), true)
	})
	V("Force", func(th *thread, fr *frame, a []value) value { return th.w.truth(a[0]) })
	V("Concrete", func(th *thread, fr *frame, a []value) value {
		if t, ok := a[0].(*Term); ok {
			return th.w.concretize(t, true)
		}
		return a[0]
	})
	V("Log", func(th *thread, fr *frame, a []value) value {
		s := showStr(th.format(strConcrete(a[0]), a[1].([]value)))
		if len(th.p.logs) < 200 {
			th.p.logs = append(th.p.logs, fmt.Sprintf("g%d: %s", th.id, s))
		}
		return nil
	})
	V("Symbolic", func(th *thread, fr *frame, a []value) value { return true })
	V("Blocked", func(th *thread, fr *frame, a []value) value {
		// number of goroutines other than the caller that are blocked
		n := 0
		for _, t := range th.p.threads {
			if t != th && !t.done && t.ready != nil && !t.ready() {
				n++
			}
		}
		return int64(n)
	})
	V("Live", func(th *thread, fr *frame, a []value) value {
		n := 0
		for _, t := range th.p.threads {
			if t != th && !t.done {
				n++
			}
		}
		return int64(n)
	})
	// Quiesce waits until no other goroutine can run (without firing timers).
	V("Quiesce", func(th *thread, fr *frame, a []value) value {
		th.p.quiesce(th)
		return nil
	})
}

func (th *thread) logDraw(n string, v uint64) {
	p := th.p
	k := p.drawCount[n]
	p.drawCount[n]++
	p.draws = append(p.draws, draw{fmt.Sprintf("%s#%d", n, k), 64, int64(v)})
}

func (th *thread) symByte(n, alphabet string) value {
	p := th.p
	T := th.w.T
	t := p.newDraw(n, 8)
	if t.isConst() {
		return int64(t.k)
	}
	if alphabet == "" {
		return t
	}
	c := T.ff
	// contiguous runs
	var set [256]bool
	for i := 0; i < len(alphabet); i++ {
		set[alphabet[i]] = true
	}
	for i := 0; i < 256; i++ {
		if !set[i] {
			continue
		}
		j := i
		for j+1 < 256 && set[j+1] {
			j++
		}
		var r *Term
		if i == j {
			r = T.Eq(t, T.BV(uint64(i), 8))
		} else {
			r = T.And(T.Cmp(OUle, T.BV(uint64(i), 8), t), T.Cmp(OUle, t, T.BV(uint64(j), 8)))
		}
		c = T.Or(c, r)
		i = j
	}
	if c.isConst() {
		return t
	}
	if p.eval(c) != 1 {
		m := p.model.clone()
		m[t.name] = uint64(alphabet[0])
		p.setModel(m)
	}
	p.addPC(c)
	// tighten the domain so that single-valued bytes become constants
	if d := p.domains[t]; d != nil {
		n, last := 0, 0
		for i := 0; i < 256; i++ {
			if d[i/64]&(1<<(i%64)) != 0 {
				n++
				last = i
			}
		}
		if n == 1 {
			return int64(last)
		}
	}
	return t
}

// quiesce runs the other threads until all are blocked or done.
func (p *path) quiesce(th *thread) {
	for {
		ok := true
		for _, t := range p.threads {
			if t == th || t.done {
				continue
			}
			if t.ready == nil || t.ready() {
				ok = false
				break
			}
		}
		if ok {
			break
		}
		th.ready = func() bool {
			for _, t := range p.threads {
				if t == th || t.done {
					continue
				}
				if t.quiescing {
					continue
				}
				if t.ready == nil || t.ready() {
					return false
				}
			}
			return true
		}
		th.quiescing = true
		th.why = "vt.Quiesce"
		p.schedule(th, true)
		th.ready = nil
		th.quiescing = false
	}
	for _, t := range p.threads {
		if t != th {
			th.acquire(t.clock())
		}
	}
}
