package antcache

import (
	"context"
	"strconv"
	"strings"
	"time"

	vos "github.com/yields/ant/internal/zzvos"
	vt "github.com/yields/ant/internal/zzvt"
)

type zzFile struct {
	key         uint64
	mtime, size int64
	kept        bool
}

func (f *zzFile) path() string { return zzRoot + "/" + strconv.FormatUint(f.key, 10) }

// zzFiles puts n files of any age and size.
func zzFiles(n int) []*zzFile {
	vos.PutDir(zzRoot)
	var fs []*zzFile
	for i := 0; i < n; i++ {
		f := &zzFile{
			key:   uint64(i * 7),
			mtime: vt.Int64("mtime", 0, 4_000_000_000_000_000_000),
			size:  vt.Int64("size", 0, 1<<40),
		}
		fs = append(fs, f)
		vos.Put(f.path(), []byte{byte('a' + i)}, time.Unix(0, f.mtime)).SetSize(f.size)
	}
	return fs
}

// zzKept finds out which files are still there.
func zzKept(d *Diskstore, fs []*zzFile) (removed int) {
	for i, f := range fs {
		v, err := d.Load(context.Background(), f.key)
		vt.Assert("load", err == nil, "Load failed after a sweep")
		_, f.kept = vos.Contents(f.path())
		vt.Assert("absent", f.kept == (v != nil), "a file and its entry do not agree")
		if f.kept {
			vt.Reach("kept")
			vt.Assert("content", string(v) == string([]byte{byte('a' + i)}), "an entry has the wrong content")
		} else {
			vt.Reach("removed")
			removed++
		}
	}
	vt.Assert("tracked", len(d.files()) == len(fs)-removed, "the store tracks a file that was removed, or lost one")
	return removed
}

// Any files, limits and time.
//
// verif: quick preempt=0 files=4
// verif: thorough preempt=0 files=5
func Verif_K04_sweep() {
	vt.Expect("kept", "removed")
	fs := zzFiles(vt.Param("files", 3))
	now := vt.Int64("now", 946_684_801_000_000_000, 4_000_000_000_000_000_000)
	vt.SetNow(now)
	maxage := vt.Int64("maxage", -1<<63, 1<<62)
	maxsize := vt.Int64("maxsize", -1<<63, 1<<62)
	vos.Put(zzRoot+"/foreign", []byte("x"), time.Unix(0, 0))
	vos.Put(zzRoot+"/1.tmp", []byte("x"), time.Unix(0, 0))
	d := zzOpen(Maxage(time.Duration(maxage)), Maxsize(maxsize))
	n, err := d.sweep()
	vt.Assert("sweep", err == nil, "the sweep failed")
	removed := zzKept(d, fs)
	vt.Assert("count", n == removed, "the sweep reports a wrong number of removed entries")
	zzSwept(fs, now, maxage, maxsize)
	vt.Assert("foreign", len(vos.List(zzRoot)) == len(fs)-removed+2, "a foreign file was removed")
	// Nothing is left to do.
	n, err = d.sweep()
	vt.Assert("again", err == nil && n == 0, "the sweep was not complete")
}

// zzSwept checks that a sweep kept the right files.
func zzSwept(fs []*zzFile, now, maxage, maxsize int64) {
	var sum int64
	for _, f := range fs {
		if f.kept {
			sum += f.size
		}
	}
	vt.Assert("size", vt.Or(maxsize <= 0, sum <= maxsize), "more is left than the maximum size")
	some, last := false, false // a file was removed for its size; removing the last of them was necessary
	for _, f := range fs {
		expired := vt.And(maxage > 0, now-f.mtime > maxage)
		if f.kept {
			vt.Assert("expired", vt.Not(expired), "an expired file is left")
			continue
		}
		vt.Assert("removed", vt.Or(expired, maxsize > 0), "a file was removed that is not expired")
		newest := vt.Not(expired)
		for _, g := range fs {
			if g.kept {
				vt.Assert("oldest", vt.Or(expired, f.mtime <= g.mtime), "an older file is left in place of a newer one")
			} else if g != f {
				newest = vt.And(newest, vt.Or(vt.And(maxage > 0, now-g.mtime > maxage), g.mtime <= f.mtime))
			}
		}
		some = vt.Or(some, vt.Not(expired))
		last = vt.Or(last, vt.And(newest, sum+f.size > maxsize))
	}
	vt.Assert("necessary", vt.Implies(some, last), "a file was removed for the size of the store without need")
}

// Entries that were stored, replaced and found again.
//
// verif: all preempt=0
func Verif_K04_stored() {
	vt.Expect("kept", "removed")
	vos.PutDir(zzRoot)
	start := vt.Now()
	vos.Put(zzRoot+"/9", []byte("foundxx"), time.Unix(0, start))
	d := zzOpen(Maxage(time.Hour), Maxsize(10))
	step := func(name string) int64 { return vt.Int64(name, 0, int64(2*time.Hour)) }
	t1 := start + step("first")
	vt.SetNow(t1)
	zzStoreOK(d, 7, "aaaa")
	t2 := t1 + step("second")
	vt.SetNow(t2)
	second := vt.Choose("what", 3)
	fs := []*zzFile{{key: 9, mtime: start, size: 7}, {key: 7, mtime: t1, size: 4}}
	switch second {
	case 0:
		zzStoreOK(d, 7, "bbbbbb")
		fs[1].mtime, fs[1].size = t2, 6
	case 1:
		zzStoreOK(d, 8, "cc")
		fs = append(fs, &zzFile{key: 8, mtime: t2, size: 2})
	case 2:
		zzStoreOK(d, 9, "d")
		fs[0].mtime, fs[0].size = t2, 1
	}
	now := t2 + step("third")
	vt.SetNow(now)
	n, err := d.sweep()
	vt.Assert("sweep", err == nil, "the sweep failed")
	removed := 0
	for _, f := range fs {
		v, err := d.Load(context.Background(), f.key)
		vt.Assert("load", err == nil, "Load failed after a sweep")
		if f.kept = v != nil; f.kept {
			vt.Reach("kept")
			vt.Assert("content", int64(len(v)) == f.size, "an entry has the wrong content")
		} else {
			vt.Reach("removed")
			removed++
		}
	}
	vt.Assert("count", n == removed, "the sweep reports a wrong number of removed entries")
	zzSwept(fs, now, int64(time.Hour), 10)
}

// The removal of one file fails.
//
// verif: all preempt=0
func Verif_K04_fault() {
	vt.Expect("kept", "removed")
	vos.PutDir(zzRoot)
	now := time.Unix(0, vt.Now())
	var fs []*zzFile
	ages := []int{vt.Choose("oldest", 3), vt.Choose("second", 3), vt.Choose("third", 3)}
	for i := 0; i < 3; i++ {
		f := &zzFile{key: uint64(i * 7), size: 1}
		vos.Put(f.path(), []byte{byte('a' + i)}, now.Add(-time.Duration(ages[i])*time.Hour-time.Minute*time.Duration(i)))
		fs = append(fs, f)
	}
	maxage := time.Duration(vt.Choose("maxage", 3)) * 90 * time.Minute
	maxsize := int64(vt.Choose("maxsize", 4))
	// What a sweep without a fault removes.
	var want []uint64
	left := map[int]bool{0: true, 1: true, 2: true}
	age := func(i int) time.Duration {
		return time.Duration(ages[i])*time.Hour + time.Minute*time.Duration(i)
	}
	for i := range fs {
		if maxage > 0 && age(i) > maxage {
			delete(left, i)
			want = append(want, fs[i].key)
		}
	}
	for maxsize > 0 && int64(len(left)) > maxsize {
		oldest := -1
		for i := range fs {
			if left[i] && (oldest < 0 || age(i) > age(oldest)) {
				oldest = i
			}
		}
		delete(left, oldest)
		want = append(want, fs[oldest].key)
	}
	d := zzOpen(Maxage(maxage), Maxsize(maxsize))
	vos.OnlyFault = "remove"
	vos.FaultAt = vt.Choose("fault", 4)
	vos.Err = zzErrno()
	n, _ := d.sweep()
	failed := vos.Faulted != ""
	vos.FaultAt = 0
	removed := zzKept(d, fs)
	vt.Assert("count", n == removed, "the sweep reports a wrong number of removed entries")
	expect := len(want)
	if failed {
		expect--
	}
	vt.Assert("others", removed == expect, "a failing removal changed what happened to the other files")
	for i, f := range fs {
		vt.Assert("kept", f.kept || !left[i], "a file was removed that should be kept")
	}
	// The next sweep removes it.
	if failed {
		n, err := d.sweep()
		vt.Assert("retry", err == nil && n == 1, "the file that could not be removed is not removed later")
	}
}

// A file that is gone already is not an obstacle.
//
// verif: all preempt=0
func Verif_K04_gone() {
	vt.Expect("swept")
	vos.PutDir(zzRoot)
	now := time.Unix(0, vt.Now())
	vos.Put(zzRoot+"/7", []byte("x"), now.Add(-2*time.Hour))
	vos.Put(zzRoot+"/8", []byte("y"), now.Add(-3*time.Hour))
	d := zzOpen(Maxage(time.Hour))
	vt.Assert("remove", vos.Remove(zzRoot+"/"+vt.Pick("gone", "7", "8")) == nil, "")
	_, err := d.sweep()
	vt.Assert("sweep", err == nil, "the sweep failed")
	zzLoads(d, 7, nil, false)
	zzLoads(d, 8, nil, false)
	vt.Assert("files", len(vos.List(zzRoot)) == 0 && len(d.files()) == 0, "a file is left")
	vt.Reach("swept")
}

// The background sweeper removes what has expired.
//
// verif: all preempt=0 timerfires=4
func Verif_K04_background() {
	vt.Expect("removed")
	vos.PutDir(zzRoot)
	now := time.Unix(0, vt.Now())
	vos.Put(zzRoot+"/7", []byte("x"), now.Add(-2*time.Hour))
	vos.Put(zzRoot+"/8", []byte("y"), now)
	every := time.Duration(0)
	opts := []DiskOption{Maxage(time.Hour)}
	if vt.Bool("every") {
		every = time.Second
		opts = append(opts, SweepEvery(every))
	}
	d, err := Open(zzRoot, opts...)
	vt.Assert("open", err == nil, "Open failed")
	vt.Assert("wait", d.Wait(context.Background()) == nil, "Wait failed")
	vt.WaitUntil(func() bool {
		_, ok := vos.Contents(zzRoot + "/7")
		return !ok
	})
	zzLoads(d, 7, nil, false)
	zzLoads(d, 8, []byte("y"), true)
	vt.Reach("removed")
}

// With compression the size of an entry is that of its file.
//
// verif: all preempt=0
func Verif_K04_compressed() {
	vt.Expect("kept", "removed", "smaller", "larger")
	vos.PutDir(zzRoot)
	now := vt.Now()
	maxsize := vt.Int64("maxsize", 1, 1000)
	d := zzOpen(Maxage(time.Hour), Maxsize(maxsize), Compress())
	values := []string{strings.Repeat("a", 300), "b", strings.Repeat("cd", 100), ""}
	var fs []*zzFile
	for i := 0; i < 3; i++ {
		v := values[vt.Choose("value", len(values))]
		f := &zzFile{key: uint64(i * 7), mtime: now}
		vt.SetNow(now)
		zzStoreOK(d, f.key, v)
		data, ok := vos.Contents(f.path())
		vt.Assert("file", ok, "an entry has no file")
		if f.size = int64(len(data)); f.size < int64(len(v)) {
			vt.Reach("smaller")
		} else if f.size > int64(len(v)) {
			vt.Reach("larger")
		}
		fs = append(fs, f)
		now += int64(time.Minute)
	}
	n, err := d.sweep()
	vt.Assert("sweep", err == nil, "the sweep failed")
	removed := 0
	for _, f := range fs {
		if _, f.kept = vos.Contents(f.path()); f.kept {
			vt.Reach("kept")
		} else {
			vt.Reach("removed")
			removed++
		}
	}
	vt.Assert("count", n == removed, "the sweep reports a wrong number of removed entries")
	zzSwept(fs, now, int64(time.Hour), maxsize)
}
