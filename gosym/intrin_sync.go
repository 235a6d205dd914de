package main

import (
	"go/types"
)

type mutexS struct {
	w       int // 0 free, 1 locked
	readers int
	waiting int // writers waiting
	vc, rvc []int
	owner   *thread
}

func (m *mutexS) clone() any { c := *m; return &c }

type onceS struct {
	done    bool
	running *thread
	vc      []int
}

func (o *onceS) clone() any { c := *o; return &c }

type wgS struct {
	n       value
	waiters int
	gen     int
	vc      []int
}

func (o *wgS) clone() any { c := *o; return &c }

type condS struct {
	waiters []*condW
}

type condW struct {
	fired bool
	vc    []int
}

type smapS struct {
	m  *hmap
	vc []int
}

func (o *smapS) clone() any { c := *o; return &c }

type poolS struct {
	items []value
	vc    []int
}

func ptrArg(th *thread, v value) *value {
	p, ok := v.(*value)
	if !ok {
		badPtr(v)
	}
	if p == nil {
		panic(targetPanic{th.w.nilDeref()})
	}
	return p
}

func mutexOf(th *thread, v value) *mutexS {
	p := ptrArg(th, v)
	return sideGet(th, sk{"mutex", p}, func() *mutexS { return &mutexS{} })
}

func (th *thread) lock(m *mutexS) {
	m.waiting++
	th.block("Mutex.Lock", func() bool { return m.w == 0 && m.readers == 0 })
	m.waiting--
	m.w = 1
	m.owner = th
	th.acquire(m.vc)
	th.acquire(m.rvc)
}

func (th *thread) fatal(msg string) {
	// fatal errors cannot be recovered
	th.p.violation(th, "fatal", "fatal error: "+msg, nil)
	panic(pathEnd{})
}

func (th *thread) unlock(m *mutexS) {
	if m.w == 0 {
		th.fatal("sync: unlock of unlocked mutex")
	}
	m.w = 0
	m.owner = nil
	th.release(&m.vc)
}

func regSync() {
	reg("(*sync.Mutex).Lock", func(th *thread, fr *frame, a []value) value { th.lock(mutexOf(th, a[0])); return nil })
	reg("(*sync.Mutex).Unlock", func(th *thread, fr *frame, a []value) value { th.unlock(mutexOf(th, a[0])); return nil })
	reg("(*sync.Mutex).TryLock", func(th *thread, fr *frame, a []value) value {
		m := mutexOf(th, a[0])
		if m.w == 0 && m.readers == 0 {
			m.w = 1
			th.acquire(m.vc)
			th.acquire(m.rvc)
			return true
		}
		return false
	})
	reg("(*sync.RWMutex).Lock", func(th *thread, fr *frame, a []value) value { th.lock(mutexOf(th, a[0])); return nil })
	reg("(*sync.RWMutex).Unlock", func(th *thread, fr *frame, a []value) value { th.unlock(mutexOf(th, a[0])); return nil })
	reg("(*sync.RWMutex).TryLock", func(th *thread, fr *frame, a []value) value {
		m := mutexOf(th, a[0])
		if m.w == 0 && m.readers == 0 {
			m.w = 1
			th.acquire(m.vc)
			th.acquire(m.rvc)
			return true
		}
		return false
	})
	reg("(*sync.RWMutex).RLock", func(th *thread, fr *frame, a []value) value {
		m := mutexOf(th, a[0])
		th.block("RWMutex.RLock", func() bool { return m.w == 0 && m.waiting == 0 })
		m.readers++
		th.acquire(m.vc)
		return nil
	})
	reg("(*sync.RWMutex).TryRLock", func(th *thread, fr *frame, a []value) value {
		m := mutexOf(th, a[0])
		if m.w != 0 || m.waiting != 0 {
			return false
		}
		m.readers++
		th.acquire(m.vc)
		return true
	})
	reg("(*sync.RWMutex).RUnlock", func(th *thread, fr *frame, a []value) value {
		m := mutexOf(th, a[0])
		if m.readers == 0 {
			th.fatal("sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
		th.release(&m.rvc)
		return nil
	})

	// Once
	reg("(*sync.Once).Do", func(th *thread, fr *frame, a []value) value {
		p := ptrArg(th, a[0])
		o := sideGet(th, sk{"once", p}, func() *onceS { return &onceS{} })
		if o.done {
			th.acquire(o.vc)
			return nil
		}
		if o.running != nil {
			if o.running == th {
				th.block("recursive Once.Do", func() bool { return false })
			}
			th.block("Once.Do", func() bool { return o.done })
			th.acquire(o.vc)
			return nil
		}
		o.running = th
		defer func() {
			o.done = true
			o.running = nil
			if th.p == nil || !th.p.killed {
				th.release(&o.vc)
			}
		}()
		th.callValue(a[1], nil, fr)
		return nil
	})

	// WaitGroup
	wg := func(th *thread, v value) *wgS {
		return sideGet(th, sk{"wg", ptrArg(th, v)}, func() *wgS { return &wgS{n: int64(0)} })
	}
	add := func(th *thread, g *wgS, d value) {
		n := th.w.addInt(g.n, d)
		if th.w.truth(th.w.ltInt(n, int64(0))) {
			panic(targetPanic{th.w.rtErrPlain("sync: negative WaitGroup counter")})
		}
		g.n = n
		th.release(&g.vc)
		if g.waiters > 0 && th.w.truth(th.w.eqInt(n, int64(0), 64)) {
			g.gen++ // the waiters go on
			g.waiters = 0
		}
	}
	reg("(*sync.WaitGroup).Add", func(th *thread, fr *frame, a []value) value { add(th, wg(th, a[0]), a[1]); return nil })
	reg("(*sync.WaitGroup).Done", func(th *thread, fr *frame, a []value) value { add(th, wg(th, a[0]), int64(-1)); return nil })
	reg("(*sync.WaitGroup).Wait", func(th *thread, fr *frame, a []value) value {
		g := wg(th, a[0])
		if th.spec > 0 {
			panic(specAbort{})
		}
		if !th.w.truth(th.w.eqInt(g.n, int64(0), 64)) {
			gen := g.gen
			g.waiters++
			th.block("WaitGroup.Wait", func() bool { return g.gen != gen })
			if !th.w.truth(th.w.eqInt(g.n, int64(0), 64)) {
				panic(targetPanic{th.w.rtErrPlain("sync: WaitGroup is reused before previous Wait has returned")})
			}
		}
		th.acquire(g.vc)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(th *thread, fr *frame, a []value) value {
		g := wg(th, a[0])
		add(th, g, int64(1))
		f := a[1]
		th.spawn(func(nt *thread) {
			nt.callValue(f, nil, nil)
			nt.point(nil, 0)
			add(nt, g, int64(-1))
		}, "WaitGroup.Go")
		return nil
	})

	// Cond
	cond := func(th *thread, v value) (*condS, iface) {
		p := ptrArg(th, v)
		s := (*p).(structV)
		// field L
		st := th.w.E.typeByName("sync", "Cond").Underlying().(*types.Struct)
		var l iface
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "L" {
				l = s[i].(iface)
			}
		}
		return sideGet(th, sk{"cond", p}, func() *condS { return &condS{} }), l
	}
	reg("(*sync.Cond).Wait", func(th *thread, fr *frame, a []value) value {
		c, l := cond(th, a[0])
		wt := &condW{}
		c.waiters = append(c.waiters, wt)
		th.callMethod(l, "Unlock")
		th.block("Cond.Wait", func() bool { return wt.fired })
		th.acquire(wt.vc)
		th.callMethod(l, "Lock")
		return nil
	})
	reg("(*sync.Cond).Signal", func(th *thread, fr *frame, a []value) value {
		c, _ := cond(th, a[0])
		if len(c.waiters) > 0 {
			wt := c.waiters[0]
			c.waiters = c.waiters[1:]
			wt.fired = true
			th.release(&wt.vc)
		}
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(th *thread, fr *frame, a []value) value {
		c, _ := cond(th, a[0])
		for _, wt := range c.waiters {
			wt.fired = true
			th.release(&wt.vc)
		}
		c.waiters = nil
		return nil
	})
	regp("(*sync.copyChecker).check", func(th *thread, fr *frame, a []value) value { return nil })

	// Pool: an empty pool is always allowed, but reuse is the interesting case.
	pool := func(th *thread, v value) (*poolS, *value) {
		p := ptrArg(th, v)
		return sideGet(th, sk{"pool", p}, func() *poolS { return &poolS{} }), p
	}
	reg("(*sync.Pool).Get", func(th *thread, fr *frame, a []value) value {
		s, p := pool(th, a[0])
		if n := len(s.items); n > 0 {
			v := s.items[n-1]
			s.items = s.items[:n-1]
			th.acquire(s.vc)
			return v
		}
		st := th.w.E.typeByName("sync", "Pool").Underlying().(*types.Struct)
		sv := (*p).(structV)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f := sv[i].(*funcV)
				if f == nil {
					return iface{}
				}
				return th.callValue(f, nil, fr)
			}
		}
		return iface{}
	})
	reg("(*sync.Pool).Put", func(th *thread, fr *frame, a []value) value {
		s, _ := pool(th, a[0])
		if a[1].(iface).t != nil && th.p != nil && th.w.initDepth == 0 {
			s.items = append(s.items, a[1])
			th.release(&s.vc)
		}
		return nil
	})

	// sync.Map
	smap := func(th *thread, v value) *smapS {
		p := ptrArg(th, v)
		return sideGet(th, sk{"smap", p}, func() *smapS { return &smapS{m: th.w.newMap(th.w.anyTI())} })
	}
	touch := func(th *thread, s *smapS) { th.acquire(s.vc); th.release(&s.vc) }
	reg("(*sync.Map).Load", func(th *thread, fr *frame, a []value) value {
		s := smap(th, a[0])
		th.acquire(s.vc)
		v, ok := s.m.get(th.w, a[1])
		if !ok {
			return tupleV{iface{}, false}
		}
		return tupleV{v, true}
	})
	reg("(*sync.Map).Store", func(th *thread, fr *frame, a []value) value {
		s := smap(th, a[0])
		touch(th, s)
		s.m.set(th.w, a[1], a[2])
		return nil
	})
	reg("(*sync.Map).Swap", func(th *thread, fr *frame, a []value) value {
		s := smap(th, a[0])
		touch(th, s)
		v, ok := s.m.get(th.w, a[1])
		s.m.set(th.w, a[1], a[2])
		if !ok {
			return tupleV{iface{}, false}
		}
		return tupleV{v, true}
	})
	reg("(*sync.Map).LoadOrStore", func(th *thread, fr *frame, a []value) value {
		s := smap(th, a[0])
		touch(th, s)
		if v, ok := s.m.get(th.w, a[1]); ok {
			return tupleV{v, true}
		}
		s.m.set(th.w, a[1], a[2])
		return tupleV{a[2], false}
	})
	reg("(*sync.Map).LoadAndDelete", func(th *thread, fr *frame, a []value) value {
		s := smap(th, a[0])
		touch(th, s)
		v, ok := s.m.get(th.w, a[1])
		if !ok {
			return tupleV{iface{}, false}
		}
		s.m.del(th.w, a[1])
		return tupleV{v, true}
	})
	reg("(*sync.Map).Delete", func(th *thread, fr *frame, a []value) value {
		s := smap(th, a[0])
		touch(th, s)
		s.m.del(th.w, a[1])
		return nil
	})
	reg("(*sync.Map).CompareAndSwap", func(th *thread, fr *frame, a []value) value {
		s := smap(th, a[0])
		touch(th, s)
		v, ok := s.m.get(th.w, a[1])
		if !ok || !th.w.truth(th.w.eqIface(v.(iface), a[2].(iface))) {
			return false
		}
		s.m.set(th.w, a[1], a[3])
		return true
	})
	reg("(*sync.Map).CompareAndDelete", func(th *thread, fr *frame, a []value) value {
		s := smap(th, a[0])
		touch(th, s)
		v, ok := s.m.get(th.w, a[1])
		if !ok || !th.w.truth(th.w.eqIface(v.(iface), a[2].(iface))) {
			return false
		}
		s.m.del(th.w, a[1])
		return true
	})
	reg("(*sync.Map).Clear", func(th *thread, fr *frame, a []value) value {
		s := smap(th, a[0])
		touch(th, s)
		s.m.clear(th.w)
		return nil
	})
	reg("(*sync.Map).Range", func(th *thread, fr *frame, a []value) value {
		s := smap(th, a[0])
		th.acquire(s.vc)
		keys := append([]value(nil), s.m.keys...)
		for i, k := range keys {
			if i < len(s.m.dead) && s.m.dead[i] {
				continue
			}
			v, ok := s.m.get(th.w, k)
			if !ok {
				continue
			}
			if !th.w.truth(th.callValue(a[1], []value{k, v}, fr)) {
				break
			}
		}
		return nil
	})

	// atomics
	for _, t := range []struct {
		n  string
		w  uint8
		sg bool
	}{{"Int32", 32, true}, {"Int64", 64, true}, {"Uint32", 32, false}, {"Uint64", 64, false}, {"Uintptr", 64, false}} {
		t := t
		ti := &tinfo{k: kInt, w: t.w, signed: t.sg}
		reg("sync/atomic.Add"+t.n, func(th *thread, fr *frame, a []value) value {
			p := ptrArg(th, a[0])
			th.atom(p, true)
			x, ok1 := (*p).(int64)
			y, ok2 := a[1].(int64)
			var r value
			if ok1 && ok2 {
				r = norm(x+y, t.w, t.sg)
			} else {
				r = termVal(th.w.T.Bin(OAdd, th.w.term(*p, t.w), th.w.term(a[1], t.w)), t.sg)
			}
			th.w.storeTo(p, r)
			return r
		})
		for _, op := range []string{"And", "Or"} {
			top := OBAnd
			if op == "Or" {
				top = OBOr
			}
			reg("sync/atomic."+op+t.n, func(th *thread, fr *frame, a []value) value {
				p := ptrArg(th, a[0])
				th.atom(p, true)
				old := *p
				th.w.storeTo(p, termVal(th.w.T.Bin(top, th.w.term(*p, t.w), th.w.term(a[1], t.w)), t.sg))
				return old
			})
		}
		regAtomic(t.n, ti)
	}
	regAtomic("Pointer", &tinfo{k: kUnsafe})
	// atomic.Value
	av := func(th *thread, v value) *value {
		p := ptrArg(th, v)
		return &(*p).(structV)[0]
	}
	reg("(*sync/atomic.Value).Load", func(th *thread, fr *frame, a []value) value {
		p := av(th, a[0])
		th.atom(p, false)
		return *p
	})
	reg("(*sync/atomic.Value).Store", func(th *thread, fr *frame, a []value) value {
		p := av(th, a[0])
		nv := a[1].(iface)
		if nv.t == nil {
			panic(targetPanic{th.w.rtErrPlain("sync/atomic: store of nil value into Value")})
		}
		if old := (*p).(iface); old.t != nil && old.t != nv.t {
			panic(targetPanic{th.w.rtErrPlain("sync/atomic: store of inconsistently typed value into Value")})
		}
		th.atom(p, true)
		th.w.storeTo(p, nv)
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(th *thread, fr *frame, a []value) value {
		p := av(th, a[0])
		th.atom(p, true)
		old := *p
		th.w.storeTo(p, a[1])
		return old
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(th *thread, fr *frame, a []value) value {
		p := av(th, a[0])
		th.atom(p, true)
		if th.w.truth(th.w.eqIface((*p).(iface), a[1].(iface))) {
			th.w.storeTo(p, a[2])
			return true
		}
		return false
	})
}

type atomS struct{ vc []int }

// atom records the happens-before edges of an atomic access.
func (th *thread) atom(p *value, write bool) {
	if th.p == nil || !th.p.multi {
		return
	}
	s := sideGet(th, sk{"atom", p}, func() *atomS { return &atomS{} })
	th.acquire(s.vc)
	if write {
		th.release(&s.vc)
	}
}

func regAtomic(n string, ti *tinfo) {
	reg("sync/atomic.Load"+n, func(th *thread, fr *frame, a []value) value {
		p := ptrArg(th, a[0])
		th.atom(p, false)
		return *p
	})
	reg("sync/atomic.Store"+n, func(th *thread, fr *frame, a []value) value {
		p := ptrArg(th, a[0])
		th.atom(p, true)
		th.w.storeTo(p, a[1])
		return nil
	})
	reg("sync/atomic.Swap"+n, func(th *thread, fr *frame, a []value) value {
		p := ptrArg(th, a[0])
		th.atom(p, true)
		old := *p
		th.w.storeTo(p, a[1])
		return old
	})
	reg("sync/atomic.CompareAndSwap"+n, func(th *thread, fr *frame, a []value) value {
		p := ptrArg(th, a[0])
		th.atom(p, true)
		if th.w.truth(th.w.eq(ti, *p, a[1])) {
			th.w.storeTo(p, a[2])
			return true
		}
		return false
	})
}

func (w *Worker) anyTI() *tinfo { return w.ti(types.NewInterfaceType(nil, nil)) }
