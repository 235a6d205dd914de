//go:build !verif_sym

// Package zzvt is the harness API; this is its native form, which replays the
// inputs of a counterexample against the compiled code.
package zzvt

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

type replay struct {
	Draws []struct {
		Name string `json:"name"`
		V    uint64 `json:"v"`
	} `json:"draws"`
	Params map[string]int64 `json:"params"`
	Known  []string         `json:"known"`
}

var (
	mu     sync.Mutex
	draws  map[string]uint64
	count  map[string]int
	params map[string]int64
	fail   *failure
	skip   string
	start  int64
	failed chan struct{}
	rng    uint64
	jitter bool
)

type failure struct{ Label, Msg string }
type stop struct{}

// Replay runs the harness f on the inputs in $VT_REPLAY.
func Replay(t *testing.T, f func()) {
	b, err := os.ReadFile(os.Getenv("VT_REPLAY"))
	if err != nil {
		t.Fatal(err)
	}
	var r replay
	if err := json.Unmarshal(b, &r); err != nil {
		t.Fatal(err)
	}
	draws = map[string]uint64{}
	for _, d := range r.Draws {
		draws[d.Name] = d.V
	}
	params = r.Params
	seed, _ := strconv.ParseUint(os.Getenv("VT_JITTER"), 10, 64)
	jitter = seed != 0
	rng = seed * 0x9e3779b97f4a7c15
	count = map[string]int{}
	body := func(t *testing.T) {
		start = time.Now().UnixNano()
		failed = make(chan struct{}, 1) // of this bubble
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(stop); ok {
						return
					}
					report(&failure{"panic", fmt.Sprint(x)})
				}
			}()
			f()
		}()
		select {
		case <-done:
		case <-failed:
			// give up on the rest
		}
		finish()
	}
	if os.Getenv("VT_PLAIN") != "" {
		body(t)
		return
	}
	synctest.Test(t, body)
	finish()
}

func report(f *failure) {
	mu.Lock()
	defer mu.Unlock()
	if fail == nil {
		fail = f
		select {
		case failed <- struct{}{}:
		default:
		}
	}
}

func finish() {
	mu.Lock()
	defer mu.Unlock()
	if fail != nil {
		fmt.Printf("VT-RESULT violation label=%s %s\n", fail.Label, fail.Msg)
	} else if skip != "" {
		fmt.Printf("VT-RESULT skipped %s\n", skip)
	} else {
		fmt.Printf("VT-RESULT ok\n")
	}
	os.Stdout.Sync()
	os.Exit(0)
}

func next(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := count[name]
	count[name]++
	v, ok := draws[name+"#"+strconv.Itoa(k)]
	if !ok {
		return 0
	}
	return v
}

func Int(name string, lo, hi int) int { return int(Int64(name, int64(lo), int64(hi))) }
func Int64(name string, lo, hi int64) int64 {
	v := int64(next(name))
	if v < lo || v > hi {
		return lo
	}
	return v
}
func Bool(name string) bool { return next(name)&1 == 1 }
func Byte(name, alphabet string) byte {
	v := byte(next(name))
	if alphabet == "" {
		return v
	}
	for i := 0; i < len(alphabet); i++ {
		if alphabet[i] == v {
			return v
		}
	}
	return alphabet[0]
}
func String(name string, minLen, maxLen int, alphabet string) string {
	n := int(next(name + ".len"))
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name, alphabet)
	}
	return string(b)
}
func Choose(name string, n int) int         { return int(next(name)) % n }
func Pick(name string, xs ...string) string { return xs[Choose(name, len(xs))] }
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return int(v)
	}
	return def
}
func Assume(ok bool) {
	if !ok {
		mu.Lock()
		skip = "assumption does not hold"
		mu.Unlock()
		panic(stop{})
	}
}
func Assert(label string, ok bool, msg string) {
	if !ok {
		report(&failure{label, msg})
		panic(stop{})
	}
}
func Fail(label, msg string)  { Assert(label, false, msg) }
func Reach(label string)      {}
func Expect(labels ...string) {}
func Known(tag string)        {}
func Go(f func()) {
	go func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(stop); ok {
					return
				}
				report(&failure{"panic", fmt.Sprint(x)})
			}
		}()
		f()
	}()
	Yield()
}
func Yield() {
	if !jitter {
		runtime.Gosched()
		return
	}
	mu.Lock()
	rng ^= rng << 13
	rng ^= rng >> 7
	rng ^= rng << 17
	n := rng % 8
	mu.Unlock()
	for i := uint64(0); i < n; i++ {
		runtime.Gosched()
	}
}
func WaitUntil(f func() bool) {
	for i := 0; i < 200000; i++ {
		if f() {
			return
		}
		if os.Getenv("VT_PLAIN") == "" {
			synctest.Wait()
			if f() {
				return
			}
			time.Sleep(1)
		} else {
			time.Sleep(10 * time.Microsecond)
		}
	}
	report(&failure{"deadlock", "WaitUntil never held"})
	panic(stop{})
}
func Atomic(f func()) { f() }
func HTTPDate(unix int64) string {
	return time.Unix(unix, 0).UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT")
}
func Dec(n int64) string { return strconv.FormatInt(n, 10) }
func Now() int64         { return time.Now().UnixNano() }
func SetNow(ns int64) {
	if d := ns - Now(); d > 0 {
		time.Sleep(time.Duration(d))
	}
}
func And(xs ...bool) bool {
	for _, x := range xs {
		if !x {
			return false
		}
	}
	return true
}
func Or(xs ...bool) bool {
	for _, x := range xs {
		if x {
			return true
		}
	}
	return false
}
func Not(x bool) bool        { return !x }
func Implies(x, y bool) bool { return !x || y }
func Iff(x, y bool) bool     { return x == y }
func EqStr(x, y string) bool { return x == y }
func IteInt(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func Force(x bool) bool      { return x }
func Concrete(n int64) int64 { return n }
func Log(format string, args ...interface{}) {
	if os.Getenv("VT_LOG") != "" {
		fmt.Printf("VT-LOG "+format+"\n", args...)
	}
}
func Symbolic() bool { return false }
func Blocked() int   { return 0 }
func Live() int      { return 0 }
func Quiesce() {
	if os.Getenv("VT_PLAIN") == "" {
		synctest.Wait()
	} else {
		time.Sleep(5 * time.Millisecond)
	}
}
