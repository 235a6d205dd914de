package antcache

import (
	"context"
	"time"

	vos "github.com/yields/ant/internal/zzvos"
	vt "github.com/yields/ant/internal/zzvt"
)

// zzHist is what may be found for a key: the values that were being stored
// since the last acknowledged one, that one, and whether it may be absent.
type zzHist struct {
	vals  []string
	acked bool
}

// begin notes that v is about to be stored; ack that it was.
func (h *zzHist) begin(v string) { h.vals = append(h.vals, v) }
func (h *zzHist) ack(v string)   { h.vals, h.acked = []string{v}, true }

func (h *zzHist) check(d *Diskstore, key uint64) {
	v, err := d.Load(context.Background(), key)
	vt.Assert("load", err == nil, "Load failed after a crash")
	if v == nil {
		vt.Reach("absent")
		vt.Assert("lost", !h.acked, "a value whose Store had returned is lost")
		return
	}
	ok := false
	for _, w := range h.vals {
		ok = vt.Or(ok, vt.EqStr(string(v), w))
	}
	vt.Reach("present")
	vt.Assert("torn", ok, "a value that was never stored is returned")
}

// zzStoreH stores v and notes it in the history.
func zzStoreH(d *Diskstore, h *zzHist, key uint64, v string) {
	h.begin(v)
	err := d.Store(context.Background(), key, []byte(v))
	if err == nil && !vos.Dead() {
		h.ack(v)
	}
}

// A sequence of stores is cut by a crash, then by another one.
//
// verif: quick preempt=0 stores=2 crashes=1
// verif: thorough preempt=0 stores=3 crashes=2
func Verif_K02_sequence() {
	vt.Expect("present", "absent")
	vos.PutDir(zzRoot)
	var opts []DiskOption
	if vt.Bool("compress") {
		opts = append(opts, Compress())
	}
	var a, b zzHist
	if vt.Bool("old") {
		a.ack("old")
		d := zzOpen(opts...)
		vt.Assert("store", d.Store(context.Background(), 7, []byte("old")) == nil, "Store failed")
	}
	n := 0
	for c := 0; c < vt.Param("crashes", 1); c++ {
		d := zzOpen(opts...)
		vos.CrashAt = vos.Ops() + 1 + vt.Choose("crash", 9*vt.Param("stores", 2))
		for i := 0; i < vt.Param("stores", 2) && !vos.Dead(); i++ {
			n++
			h, key := &a, uint64(7)
			if vt.Bool("other") {
				h, key = &b, 8
			}
			// One by one the values have other lengths.
			v := []string{"x", "yyy", "zz", "wwww", "", "vvvvv"}[n-1] + vt.String("value", 1, 1, "ab")
			zzStoreH(d, h, key, v)
		}
		vos.Crash()
		vos.Reboot()
		// What survived is what may be found from now on.
		r := zzOpen(opts...)
		a.check(r, 7)
		b.check(r, 8)
		zzLoads(r, 9, nil, false)
		for key, h := range map[uint64]*zzHist{7: &a, 8: &b} {
			if v, _ := r.Load(context.Background(), key); v != nil && c+1 < vt.Param("crashes", 1) {
				h.ack(string(v))
			} else {
				*h = zzHist{}
			}
		}
	}
}

// A crash while two values of one key, or of two, are being stored.
//
// verif: quick preempt=1
// verif: thorough preempt=2
func Verif_K02_concurrent() {
	vt.Expect("present", "absent")
	vos.PutDir(zzRoot)
	d := zzOpen()
	var a, b zzHist
	if vt.Bool("old") {
		vt.Assert("store", d.Store(context.Background(), 7, []byte("old")) == nil, "Store failed")
		a.ack("old")
	}
	vos.CrashAt = vos.Ops() + 1 + vt.Choose("crash", 18)
	same := vt.Bool("same")
	acks := 0
	var done [2]bool
	for i := 0; i < 2; i++ {
		i := i
		h, key := &a, uint64(7)
		if i == 1 && !same {
			h, key = &b, 8
		}
		v := []string{"one", "other"}[i]
		h.begin(v)
		vt.Go(func() {
			err := d.Store(context.Background(), key, []byte(v))
			if err == nil && !vos.Dead() {
				acks++
				if same {
					// The other may come first or last.
					h.acked = true
					if len(h.vals) == 3 {
						h.vals = h.vals[1:]
					}
				} else {
					h.ack(v)
				}
			}
			done[i] = true
		})
	}
	vt.WaitUntil(func() bool { return done[0] && done[1] })
	if !vos.Dead() {
		vt.Assert("acknowledged", acks == 2, "Store failed")
	}
	vos.Crash()
	vos.Reboot()
	r := zzOpen()
	a.check(r, 7)
	b.check(r, 8)
}

// A crash while the sweeper removes and a value is replaced.
//
// verif: quick preempt=2
// verif: thorough preempt=3
func Verif_K02_sweep() {
	vt.Expect("present")
	vos.PutDir(zzRoot)
	now := time.Unix(0, vt.Now())
	vos.Put(zzRoot+"/7", []byte("old"), now.Add(-2*time.Hour))
	vos.Put(zzRoot+"/8", []byte("kept"), now)
	d := zzOpen(Maxage(time.Hour))
	a, b := zzHist{vals: []string{"old"}}, zzHist{vals: []string{"kept"}, acked: true}
	vos.CrashAt = vos.Ops() + 1 + vt.Choose("crash", 10)
	done := false
	vt.Go(func() {
		d.sweep()
		done = true
	})
	zzStoreH(d, &a, 7, "new")
	vt.WaitUntil(func() bool { return done })
	vos.Crash()
	vos.Reboot()
	r := zzOpen(Maxage(time.Hour))
	a.check(r, 7)
	b.check(r, 8)
}
