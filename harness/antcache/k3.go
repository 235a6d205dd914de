package antcache

import (
	"context"
	"strconv"
	"time"

	vos "github.com/yields/ant/internal/zzvos"
	vt "github.com/yields/ant/internal/zzvt"
)

// zzOneOf loads key and checks that the value is one of vals.
func zzOneOf(s Storage, key uint64, absent bool, vals ...string) {
	v, err := s.Load(context.Background(), key)
	vt.Assert("load", err == nil, "Load failed")
	if v == nil {
		vt.Reach("absent")
		vt.Assert("present", absent, "an entry that was stored is absent")
		return
	}
	vt.Reach("present")
	for _, w := range vals {
		if string(v) == w {
			return
		}
	}
	vt.Fail("value", "Load returned something that was not stored for the key")
}

// zzAll runs the functions concurrently.
func zzAll(fs ...func()) {
	n := 0
	for _, f := range fs {
		f := f
		vt.Go(func() {
			f()
			vt.Atomic(func() { n++ })
		})
	}
	vt.WaitUntil(func() bool { return n == len(fs) })
}

func zzStoreOK(s Storage, key uint64, v string) {
	vt.Assert("store", s.Store(context.Background(), key, []byte(v)) == nil, "Store failed")
}

// zzTracked checks that the store knows of its files, and of no others.
func zzTracked(d *Diskstore) {
	n := 0
	for _, name := range vos.List(zzRoot) {
		if _, err := strconv.ParseUint(name, 10, 64); err == nil {
			n++
		}
	}
	vt.Assert("tracked", len(d.files()) == n, "the store is wrong about its files")
}

// Store, Load and the sweeper; the entry may be expired.
//
// verif: quick preempt=2 races
// verif: thorough preempt=3 races
func Verif_K03_sweep() {
	vt.Expect("absent", "present")
	vos.PutDir(zzRoot)
	now := time.Unix(0, vt.Now())
	expired := vt.Bool("expired")
	if expired {
		vos.Put(zzRoot+"/7", []byte("old"), now.Add(-2*time.Hour))
	} else {
		vos.Put(zzRoot+"/7", []byte("old"), now)
	}
	vos.Put(zzRoot+"/8", []byte("kept"), now)
	d := zzOpen(Maxage(time.Hour))
	stores := vt.Bool("store")
	zzAll(func() {
		if stores {
			zzStoreOK(d, 7, "new")
		} else {
			zzOneOf(d, 8, false, "kept")
		}
	}, func() {
		zzOneOf(d, 7, expired, "old", "new")
	}, func() {
		n, err := d.sweep()
		vt.Assert("sweep", err == nil && (n == 0 || n == 1 && expired), "the sweep failed or removed too much")
	})
	switch {
	case stores:
		zzOneOf(d, 7, false, "new")
	case expired:
		zzOneOf(d, 7, true)
	default:
		zzOneOf(d, 7, false, "old")
	}
	zzOneOf(d, 8, false, "kept")
	zzTracked(d)
	vt.Assert("temps", zzTemps() == 0, "a temporary file was left behind")
}

// Two stores of a key and a load.
//
// verif: quick preempt=2 races
// verif: thorough preempt=2 races
func Verif_K03_stores() {
	vt.Expect("absent", "present")
	s, disk := zzAnyStore()
	old := vt.Bool("old")
	if old {
		zzStoreOK(s, 7, "old!")
	}
	zzAll(func() {
		zzStoreOK(s, 7, "one")
		zzOneOf(s, 7, false, "one", "another")
	}, func() {
		zzStoreOK(s, 7, "another")
		zzStoreOK(s, 8, "other")
	}, func() {
		zzOneOf(s, 7, !old, "old!", "one", "another")
		zzOneOf(s, 8, true, "other")
	})
	zzOneOf(s, 7, false, "one", "another")
	zzOneOf(s, 8, false, "other")
	if disk {
		zzTracked(s.(*Diskstore))
		vt.Assert("temps", zzTemps() == 0, "a temporary file was left behind")
	}
}

// The warm-up runs while the store is used.
//
// verif: quick preempt=2 races
// verif: thorough preempt=3 races
func Verif_K03_warmup() {
	vt.Expect("absent", "present")
	vos.PutDir(zzRoot)
	now := time.Unix(0, vt.Now())
	vos.Put(zzRoot+"/7", []byte("old"), now)
	vos.Put(zzRoot+"/8", []byte("expired"), now.Add(-2*time.Hour))
	d, err := Open(zzRoot, SweepEvery(0), Maxage(time.Hour))
	vt.Assert("open", err == nil, "Open failed")
	swept := 0
	zzAll(func() {
		zzStoreOK(d, 7, "newer")
		zzOneOf(d, 7, false, "newer")
	}, func() {
		zzOneOf(d, 8, true, "expired")
	}, func() {
		n, err := d.sweep()
		vt.Assert("sweep", err == nil && n <= 1, "the sweep failed or removed too much")
		swept = n
	})
	vt.Assert("wait", d.Wait(context.Background()) == nil, "Wait failed")
	zzOneOf(d, 7, false, "newer")
	if swept == 1 {
		zzOneOf(d, 8, true)
	} else {
		zzOneOf(d, 8, false, "expired")
	}
	zzTracked(d)
}

// An entry is stored and evicted while the warm-up runs.
//
// verif: quick preempt=2 races
// verif: thorough preempt=3 races
func Verif_K03_evict() {
	vt.Expect("absent", "present")
	vos.PutDir(zzRoot)
	if vt.Bool("old") {
		vos.Put(zzRoot+"/7", []byte("old"), time.Unix(0, vt.Now()))
	}
	vos.Put(zzRoot+"/8", []byte("x"), time.Unix(0, vt.Now()+1e9))
	d, err := Open(zzRoot, SweepEvery(0), Maxsize(4))
	vt.Assert("open", err == nil, "Open failed")
	vos.SetTime(zzRoot+"/8", time.Unix(0, vt.Now()+2e9))
	zzAll(func() {
		zzStoreOK(d, 7, "newer")
		_, err := d.sweep()
		vt.Assert("sweep", err == nil, "the sweep failed")
	}, func() {
		zzOneOf(d, 7, true, "old", "newer")
	})
	vt.Assert("wait", d.Wait(context.Background()) == nil, "Wait failed")
	zzOneOf(d, 7, true)
	zzOneOf(d, 8, true, "x")
	zzTracked(d)
}

// Close waits for the warm-up and the sweeper, whatever they are at.
//
// verif: quick preempt=2 races clockfree timerfires=2
// verif: thorough preempt=3 races clockfree timerfires=4
func Verif_K03_close() {
	vt.Expect("closed")
	vos.PutDir(zzRoot)
	now := time.Unix(0, vt.Now())
	vos.Put(zzRoot+"/7", []byte("old"), now)
	vos.Put(zzRoot+"/8", []byte("expired"), now.Add(-2*time.Hour))
	live := vt.Live()
	d, err := Open(zzRoot, SweepEvery(time.Minute), Maxage(time.Hour))
	vt.Assert("open", err == nil, "Open failed")
	waited := vt.Bool("wait")
	if waited {
		vt.Assert("wait", d.Wait(context.Background()) == nil, "Wait failed")
	}
	if vt.Bool("store") {
		zzStoreOK(d, 7, "new")
		zzOneOf(d, 7, false, "new")
	}
	vt.Assert("close", d.Close() == nil, "Close failed")
	vt.Reach("closed")
	ops := vos.Ops()
	vt.Assert("files", vos.OpenFiles() == 0, "a file was left open")
	vt.Quiesce()
	vt.Assert("background", vos.Ops() == ops && vt.Live() == live, "something runs on after Close")
	vt.Assert("waitable", d.Wait(context.Background()) == nil, "Wait fails after Close")
}
