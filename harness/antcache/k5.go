package antcache

import (
	"context"
	"errors"
	"strconv"
	"time"

	vos "github.com/yields/ant/internal/zzvos"
	vt "github.com/yields/ant/internal/zzvt"
)

// Directories with any mix of entries and other files.
//
// verif: all preempt=0
func Verif_K05_names() {
	vt.Expect("found", "foreign")
	vos.PutDir(zzRoot)
	var keys []uint64
	var others []string
	all := []string{"0", "7", "18446744073709551615", "1.tmp", "tmp", "x", "18446744073709551616", "-1", "7a", "7.", "0x7", "+7", "1_0", "9", "10", "100"}
	n := []int{0, 1, 4, 5, 6, 10, 16}[vt.Choose("n", 7)]
	from := vt.Choose("from", len(all))
	for i := 0; i < n; i++ {
		name := all[(from+i)%len(all)]
		if k, err := strconv.ParseUint(name, 10, 64); err == nil {
			keys = append(keys, k)
		} else {
			others = append(others, name)
		}
		vos.Put(zzRoot+"/"+name, []byte("is "+name), time.Unix(0, vt.Now()))
	}
	if vt.Bool("directory") {
		vos.PutDir(zzRoot + "/sub")
		vos.Put(zzRoot+"/sub/8", []byte("not an entry"), time.Unix(0, vt.Now()))
	}
	vos.Reverse = vt.Bool("reverse")
	if b := vt.Choose("batch", 3); b > 0 {
		vos.ReadBatch = b
	}
	before := len(vos.List(zzRoot))
	d := zzOpen()
	for _, k := range keys {
		vt.Reach("found")
		zzLoads(d, k, []byte("is "+strconv.FormatUint(k, 10)), true)
	}
	vt.Assert("files", len(d.files()) == len(keys), "a file that is not an entry is tracked, or one that is is not")
	zzLoads(d, 8, nil, false)
	_, err := d.sweep()
	vt.Assert("sweep", err == nil && len(vos.List(zzRoot)) == before, "a file was removed")
	for _, name := range others {
		vt.Reach("foreign")
		v, ok := vos.Contents(zzRoot + "/" + name)
		vt.Assert("foreign", ok && string(v) == "is "+name, "a file that is not an entry was touched")
	}
	vt.Assert("close", d.Close() == nil && vos.OpenFiles() == 0, "Close failed or left a file open")
}

// What was stored is there after reopening.
//
// verif: all preempt=0
func Verif_K05_reopen() {
	vt.Expect("loaded")
	vos.PutDir(zzRoot)
	var opts []DiskOption
	if vt.Bool("compress") {
		opts = append(opts, Compress())
	}
	d := zzOpen(opts...)
	keys := []uint64{zzKeys[vt.Choose("first", 5)], 77}
	vals := []string{vt.String("one", 0, 2, "ab\x00"), vt.String("two", 0, 2, "cd")}
	for i, k := range keys {
		zzStoreOK(d, k, vals[i])
	}
	if vt.Bool("replace") {
		vals[0] = vt.String("three", 0, 2, "ef")
		zzStoreOK(d, keys[0], vals[0])
	}
	if vt.Bool("close") {
		vt.Assert("close", d.Close() == nil, "Close failed")
	}
	for i := 0; i < 2; i++ {
		d = zzOpen(opts...)
		for i, k := range keys {
			zzLoads(d, k, []byte(vals[i]), true)
		}
		zzLoads(d, 78, nil, false)
		zzTracked(d)
		vt.Reach("loaded")
		if i == 0 {
			vals[1] = "again"
			zzStoreOK(d, 77, vals[1])
		}
	}
}

// Stores, loads and Wait while the directory is being read.
//
// verif: quick preempt=1
// verif: thorough preempt=2
func Verif_K05_concurrent() {
	vt.Expect("waited", "cancelled")
	vos.PutDir(zzRoot)
	vos.ReadBatch = 1
	vos.Reverse = vt.Bool("reverse")
	for i, name := range []string{"5", "6", "7"} {
		vos.Put(zzRoot+"/"+name, []byte("old"+name), time.Unix(int64(i), 0))
	}
	d, err := Open(zzRoot, SweepEvery(0), Maxage(0))
	vt.Assert("open", err == nil, "Open failed")
	ctx, cancel := context.WithCancel(context.Background())
	zzAll(func() {
		zzStoreOK(d, 6, "new")
		zzOneOf(d, 6, false, "new")
	}, func() {
		err := d.Wait(ctx)
		if err != nil {
			vt.Reach("cancelled")
			vt.Assert("error", errors.Is(err, context.Canceled), "Wait does not return the context's error")
		} else {
			vt.Reach("waited")
			zzOneOf(d, 5, false, "old5")
			zzOneOf(d, 7, false, "old7")
			zzOneOf(d, 6, false, "old6", "new")
		}
	}, cancel)
	vt.Assert("wait", d.Wait(context.Background()) == nil, "Wait failed")
	zzOneOf(d, 5, false, "old5")
	zzOneOf(d, 6, false, "new")
	zzOneOf(d, 7, false, "old7")
	zzTracked(d)
}

// Wait with a context that is over, while the warm-up cannot finish.
//
// verif: all preempt=0
func Verif_K05_wait() {
	vt.Expect("expired", "cancelled")
	vos.PutDir(zzRoot)
	vos.Hold = "readdir"
	d, err := Open(zzRoot, SweepEvery(0))
	vt.Assert("open", err == nil, "Open failed")
	ctx, cancel := context.WithCancel(context.Background())
	want := context.Canceled
	if vt.Bool("deadline") {
		vt.Reach("expired")
		ctx, cancel = context.WithTimeout(context.Background(), time.Second)
		want = context.DeadlineExceeded
	} else {
		vt.Reach("cancelled")
		if vt.Bool("before") {
			cancel()
		} else {
			vt.Go(cancel)
		}
	}
	err = d.Wait(ctx)
	vt.Assert("error", errors.Is(err, want), "Wait does not return the context's error")
	cancel()
	vos.Hold = ""
	vt.Assert("wait", d.Wait(context.Background()) == nil, "Wait failed")
}

// Open rejects what is not the absolute path of a directory, and leaves
// nothing open when it fails.
//
// verif: all preempt=0
func Verif_K05_open() {
	vt.Expect("rejected", "failed", "opened")
	vos.PutDir(zzRoot)
	vos.PutDir("/rel")
	vos.Put("/file", []byte("x"), time.Unix(1, 0))
	live := vt.Live()
	switch vt.Choose("how", 3) {
	case 0:
		path := vt.Pick("path", "", "rel", "./cache", "cache", "../cache", "/file", "/missing", "/cache/missing", "/file/x")
		d, err := Open(path, SweepEvery(0))
		vt.Assert("rejected", d == nil && err != nil, "Open accepts what it should reject")
		vt.Reach("rejected")
	case 1:
		vos.FaultAt = 1 + vt.Choose("fault", 2)
		vos.Err = zzErrno()
		d, err := Open(zzRoot, SweepEvery(0))
		vt.Assert("failed", d == nil && err != nil && errors.Is(err, vos.Err), "Open hides an error")
		vt.Reach("failed")
	case 2:
		path := vt.Pick("path", "/cache", "/cache/", "/rel/../cache", "//cache")
		vos.Put(zzRoot+"/7", []byte("x"), time.Unix(1, 0))
		d, err := Open(path, SweepEvery(0))
		vt.Assert("opened", err == nil && d.Wait(context.Background()) == nil, "Open failed")
		zzLoads(d, 7, []byte("x"), true)
		zzStoreOK(d, 8, "y")
		zzLoads(d, 8, []byte("y"), true)
		vt.Assert("close", d.Close() == nil, "Close failed")
		v, ok := vos.Contents(zzRoot + "/8")
		vt.Assert("place", ok && string(v) == "y", "a value is not stored in the directory")
		vt.Reach("opened")
	}
	vt.Quiesce()
	vt.Assert("handles", vos.OpenFiles() == 0, "a file was left open")
	vt.Assert("goroutines", vt.Live() == live, "a goroutine was left behind")
}

// Reading the directory, or looking at one of its files, fails.
//
// verif: all preempt=0
func Verif_K05_fault() {
	vt.Expect("readdir", "stat", "none")
	vos.PutDir(zzRoot)
	vos.ReadBatch = 1 + vt.Choose("batch", 2)
	for i, name := range []string{"1", "2", "3", "x"} {
		vos.Put(zzRoot+"/"+name, []byte("old"+name), time.Unix(0, vt.Now()+int64(i)))
	}
	d, err := Open(zzRoot, SweepEvery(0))
	vt.Assert("open", err == nil, "Open failed")
	vos.OnlyFault = vt.Pick("kind", "readdir", "stat")
	vos.FaultAt = vt.Choose("fault", 6)
	vos.Err = zzErrno()
	vos.Sticky = vos.OnlyFault == "readdir" && vt.Bool("sticky")
	vt.Assert("wait", d.Wait(context.Background()) == nil, "Wait failed")
	kind := vos.Faulted
	vos.FaultAt, vos.Sticky = 0, false
	found := 0
	for k, want := range map[uint64]string{1: "old1", 2: "old2", 3: "old3"} {
		v, err := d.Load(context.Background(), k)
		vt.Assert("load", err == nil && (v == nil || string(v) == want), "Load failed or returned another value")
		if v != nil {
			found++
		}
	}
	switch kind {
	case "":
		vt.Reach("none")
		vt.Assert("found", found == 3, "an entry was not found")
	case "stat":
		vt.Reach("stat")
		vt.Assert("others", found >= 2, "one unreadable file hides others")
	default:
		vt.Reach("readdir")
	}
	zzStoreOK(d, 2, "new")
	zzLoads(d, 2, []byte("new"), true)
	vt.Assert("close", d.Close() == nil && vos.OpenFiles() == 0, "Close failed or left a file open")
}
