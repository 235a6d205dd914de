package antcache

import (
	"bytes"
	"context"
	"io"
	"io/fs"
	"syscall"
	"time"

	vos "github.com/yields/ant/internal/zzvos"
	vt "github.com/yields/ant/internal/zzvt"
)

const zzRoot = "/cache"

// zzOpen opens a disk store that has no background sweeper.
func zzOpen(opts ...DiskOption) *Diskstore {
	d, err := Open(zzRoot, append([]DiskOption{SweepEvery(0)}, opts...)...)
	vt.Assert("open", err == nil && d != nil, "Open failed")
	vt.Assert("wait", d.Wait(context.Background()) == nil, "Wait failed")
	return d
}

// zzNames are the names in the directory that end in tmp.
func zzTemps() (n int) {
	for _, name := range vos.List(zzRoot) {
		if len(name) > 3 && name[len(name)-3:] == "tmp" {
			n++
		}
	}
	return n
}

var zzKeys = []uint64{0, 1, 10, 1 << 63, 1<<64 - 1}

// zzAnyStore is one of the storages.
func zzAnyStore() (s Storage, disk bool) {
	vos.PutDir(zzRoot)
	switch vt.Choose("storage", 3) {
	case 0:
		return &memstore{}, false
	case 1:
		return zzOpen(Maxage(0), Maxsize(0)), true
	default:
		return zzOpen(Compress()), true
	}
}

// zzLoads checks that the key has the value, or none.
func zzLoads(s Storage, key uint64, want []byte, has bool) {
	v, err := s.Load(context.Background(), key)
	vt.Assert("load", err == nil, "Load failed")
	if !has {
		vt.Assert("absent", v == nil, "a key that was not stored has a value")
		return
	}
	vt.Assert("empty", v != nil || want == nil, "an empty value is not found")
	vt.Assert("value", len(v) == len(want) && vt.EqStr(string(v), string(want)), "Load does not return what was stored")
}

// Any sequence of stores and loads.
//
// verif: all preempt=0 ops=4
// verif: thorough preempt=0 ops=6
func Verif_K01_sequence() {
	vt.Expect("done")
	s, _ := zzAnyStore()
	var ks [3]uint64
	k := vt.Choose("keys", 4)
	copy(ks[:], []uint64{zzKeys[k], zzKeys[(k+1)%5], zzKeys[4]})
	var vals [3][]byte
	var has [3]bool
	n := vt.Param("ops", 4)
	for i := 0; i < n; i++ {
		j := vt.Choose("key", 2)
		v := []byte(vt.String("value", 0, 2, "a\x00\xff\n"))
		vt.Assert("store", s.Store(context.Background(), ks[j], v) == nil, "Store failed")
		vals[j], has[j] = v, true
		if j == 0 && k == 3 {
			vals[2], has[2] = nil, false
		}
		for m := 0; m < 2; m++ {
			zzLoads(s, ks[m], vals[m], has[m])
		}
	}
	if ks[2] != ks[1] && ks[2] != ks[0] {
		zzLoads(s, ks[2], nil, false)
	}
	vt.Reach("done")
	vt.Assert("temps", zzTemps() == 0, "a temporary file was left behind")
}

// Larger values, with and without structure.
//
// verif: all preempt=0
func Verif_K01_large() {
	vt.Expect("done")
	s, _ := zzAnyStore()
	n := []int{59, 60, 61, 62, 255, 256, 257, 70000}[vt.Choose("size", 8)]
	v := bytes.Repeat([]byte("0123456789abcdef"), n/16+1)[:n]
	if vt.Bool("noise") {
		x := uint32(1)
		for i := range v {
			x = x*1664525 + 1013904223
			v[i] = byte(x >> 24)
		}
	}
	for i := 0; i < 2; i++ {
		vt.Assert("store", s.Store(context.Background(), 7, v) == nil, "Store failed")
		got, err := s.Load(context.Background(), 7)
		vt.Assert("value", err == nil && bytes.Equal(got, v), "Load does not return what was stored")
		v = v[:n/2]
	}
	vt.Reach("done")
}

// One call to the file system fails while a value is stored or loaded.
//
// verif: all preempt=0
func Verif_K01_fault() {
	vt.Expect("store-failed", "stored", "load-failed")
	vos.PutDir(zzRoot)
	var opts []DiskOption
	if vt.Bool("compress") {
		opts = append(opts, Compress())
	}
	d := zzOpen(opts...)
	var old []byte
	has := vt.Bool("old")
	if has {
		old = []byte(vt.String("old-v", 0, 2, "ab"))
		vt.Assert("store", d.Store(context.Background(), 7, old) == nil, "Store failed")
	}
	vt.Assert("store", d.Store(context.Background(), 8, []byte("x")) == nil, "Store failed")
	open := vos.OpenFiles()
	v := []byte(vt.String("new-v", 0, 2, "cd"))
	vos.FaultAt = 1 + vt.Choose("fault", 12)
	vos.Err = zzErrno()
	err := d.Store(context.Background(), 7, v)
	kind := vos.Faulted
	if kind != "" && err == nil {
		vt.Assert("error", kind != "write" && kind != "sync" && kind != "rename" && kind != "create" && kind != "dirsync", "an error was swallowed")
	}
	if kind == "" {
		vt.Assert("store", err == nil, "Store failed")
		vos.FaultAt = 1 + vt.Choose("load-fault", 4)
		got, err := d.Load(context.Background(), 7)
		if err != nil {
			vt.Reach("load-failed")
			vt.Assert("no-data", len(got) == 0, "Load returned data with an error")
		} else {
			vt.Assert("loaded", vt.EqStr(string(got), string(v)), "Load does not return what was stored")
		}
	}
	vos.FaultAt = 0
	vt.Assert("handles", vos.OpenFiles() == open, "a file was left open")
	vt.Assert("temps", zzTemps() == 0, "a temporary file was left behind")
	got, lerr := d.Load(context.Background(), 7)
	vt.Assert("load", lerr == nil, "Load failed")
	switch {
	case err == nil:
		vt.Reach("stored")
		vt.Assert("new", vt.EqStr(string(got), string(v)), "Load does not return what was stored")
	case kind == "dirsync":
		// The new value may be in place already.
		vt.Assert("either", vt.Or(vt.EqStr(string(got), string(v)), vt.EqStr(string(got), string(old))), "a failed Store altered the value")
	default:
		vt.Reach("store-failed")
		vt.Assert("old", vt.EqStr(string(got), string(old)), "a failed Store altered the value")
	}
	zzLoads(d, 8, []byte("x"), true)
	zzLoads(d, 9, nil, false)
	// The store still works.
	vt.Assert("store", d.Store(context.Background(), 7, []byte("again")) == nil, "Store failed")
	zzLoads(d, 7, []byte("again"), true)
	vt.Assert("close", d.Close() == nil, "Close failed")
	vt.Assert("closed", vos.OpenFiles() == 0, "a file was left open by Close")
}

// A value that was stored without compression is an error with it.
//
// verif: all preempt=0
func Verif_K01_corrupt() {
	vt.Expect("error")
	vos.PutDir(zzRoot)
	vos.Put(zzRoot+"/7", []byte("\x05\x10abc"), time.Unix(1, 0))
	d := zzOpen(Compress())
	v, err := d.Load(context.Background(), 7)
	vt.Assert("error", err != nil && len(v) == 0, "a damaged value was returned")
	vt.Reach("error")
}

// zzErrno is the error of a failing call.
func zzErrno() error {
	return vt.Error("errno", vos.ErrFault, fs.ErrPermission, fs.ErrExist, fs.ErrClosed, io.ErrUnexpectedEOF, syscall.ENOSPC, syscall.EBUSY, context.Canceled)
}
