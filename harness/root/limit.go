package ant

import (
	"context"
	"net/url"
	"time"

	vt "github.com/yields/ant/internal/zzvt"
)

// zzLimited makes calls of a limiter and compares the time they take with a
// token bucket of burst n refilled n times per second; urls draws a URL and
// says whether it is covered.
func zzLimited(n, calls int, l Limiter, draw func(i int) (*URL, bool)) {
	vt.Expect("immediate", "waited", "other")
	ctx := context.Background()
	start := vt.Now()
	covered := 0
	pause := int64(0)
	if vt.Choose("pause", 2) == 1 {
		// wait for the bucket to fill up again half way
		pause = int64(3 * time.Second)
	}
	for i := 0; i < calls; i++ {
		u, c := draw(i)
		before := *u
		t0 := vt.Now()
		err := l.Limit(ctx, u)
		t1 := vt.Now()
		vt.Assert("nil", err == nil, "the limiter returned an error")
		vt.Assert("unmodified", zzSame(u, &before), "the limiter modified the URL")
		if !c {
			vt.Reach("other")
			vt.Assert("other", t1 == t0, "a URL that is not covered was delayed")
			continue
		}
		covered++
		want := t0
		if k := covered - n; k > 0 {
			if w := start + int64(k)*int64(time.Second)/int64(n); w > want {
				want = w
			}
		}
		d := t1 - want
		vt.Assert("early", d > -int64(time.Millisecond), "a covered URL was let through too early")
		vt.Assert("late", d < int64(time.Millisecond), "a covered URL was delayed too long")
		if t1 > t0 {
			vt.Reach("waited")
		} else {
			vt.Reach("immediate")
		}
		if pause > 0 && covered == n {
			// the bucket is empty now; afterwards it is full
			time.Sleep(time.Duration(pause))
			start, covered, pause = vt.Now(), 0, 0
		}
	}
}

// zzLimitURL makes a URL; what must not matter is symbolic.
func zzLimitURL(host, path string) *URL {
	return &URL{Scheme: "http" + vt.String("s", 1, 1, "ac"), Host: host, Path: path, RawQuery: vt.String("query", 1, 1, "ab"), Fragment: vt.String("frag", 1, 1, "ab")}
}

func zzRate() int { return []int{1, 2, 5}[vt.Choose("n", 3)] }

// zzRates keeps the number of URLs whose host is symbolic small.
func zzHost(i, from int, def string, alphabet string) string {
	if i < from {
		return def
	}
	return vt.String("host", 1, 2, alphabet)
}

// verif: all preempt=0 more=2
// verif: thorough more=3
func Verif_L01_hostname() {
	n := zzRate()
	want := vt.String("name", 1, 2, "aA:")
	zzLimited(n, n+vt.Param("more", 2), LimitHostname(n, want), func(i int) (*URL, bool) {
		h := zzHost(i, n, want, "aA:")
		return zzLimitURL(h, "/aA"), h == want
	})
}

// verif: all preempt=0 more=2
// verif: thorough more=3
func Verif_L01_pattern() {
	n := zzRate()
	pat := vt.Pick("pattern", "a/*", "*", "a/?", "*/b", "a?/b", "aa/b")
	zzLimited(n, n+vt.Param("more", 2), LimitPattern(n, pat), func(i int) (*URL, bool) {
		h := zzHost(i, n, "a", "a.")
		p := "/b"
		if i >= n {
			p = "/" + vt.String("path", 0, 1, "b/")
		}
		return zzLimitURL(h, p), zzGlob(h+p, pat)
	})
}

// verif: all preempt=0 more=2
// verif: thorough more=3
func Verif_L01_regexp() {
	n := zzRate()
	re := zzRegexps[vt.Choose("re", len(zzRegexps))]
	vt.Assume(re.expr != "^$")
	zzLimited(n, n+vt.Param("more", 2), LimitRegexp(n, re.expr), func(i int) (*URL, bool) {
		h, p := "a.b", "/b"
		if i >= n {
			h, p = vt.String("host", 1, 2, "ab."), "/"+vt.String("path", 0, 2, "b/")
		}
		return zzLimitURL(h, p), re.ref(h + p)
	})
}

// verif: all preempt=0 more=3
func Verif_L01_all() {
	vt.Expect("immediate", "waited")
	n := zzRate()
	calls := n + vt.Param("more", 2)
	l := Limit(n)
	start := vt.Now()
	for i := 0; i < calls; i++ {
		var u *url.URL
		if i%2 == 0 {
			u = zzLimitURL(string([]byte{vt.Byte("host", "ab")}), "/")
		}
		err := l.Limit(context.Background(), u)
		vt.Assert("nil", err == nil, "the limiter returned an error")
		want := start
		if k := i + 1 - n; k > 0 {
			want += int64(k) * int64(time.Second) / int64(n)
			vt.Reach("waited")
		} else {
			vt.Reach("immediate")
		}
		d := vt.Now() - want
		vt.Assert("rate", d > -int64(time.Millisecond) && d < int64(time.Millisecond), "the URL was not let through at its time")
	}
}

// One limiter is shared by all callers.
//
// verif: all delay=1 callers=3
// verif: thorough delay=2 callers=3
func Verif_L01_shared() {
	vt.Expect("second")
	l := vt.Choose("kind", 4)
	var lim Limiter
	switch l {
	case 0:
		lim = LimitHostname(1, "h")
	case 1:
		lim = LimitPattern(1, "h/*")
	case 2:
		lim = LimitRegexp(1, "^h/")
	case 3:
		lim = Limit(1)
	}
	start := vt.Now()
	var at []int64
	n := vt.Param("callers", 3)
	for i := 0; i < n; i++ {
		u := &URL{Scheme: "http", Host: "h", Path: "/" + string([]byte{vt.Byte("path", "abc")})}
		vt.Go(func() {
			err := lim.Limit(context.Background(), u)
			vt.Assert("nil", err == nil, "the limiter returned an error")
			at = append(at, vt.Now())
		})
	}
	vt.WaitUntil(func() bool { return len(at) == n })
	for i, t := range at {
		d := t - start - int64(i)*int64(time.Second)
		vt.Assert("spacing", d > -int64(time.Millisecond) && d < int64(time.Millisecond), "concurrent callers do not share the rate")
	}
	vt.Reach("second")
}

// The error of the wait is returned.
//
// verif: all delay=1
func Verif_L01_errors() {
	vt.Expect("canceled", "during", "deadline", "other")
	var lim Limiter
	switch vt.Choose("kind", 4) {
	case 0:
		lim = LimitHostname(1, "h")
	case 1:
		lim = LimitPattern(1, "h/*")
	case 2:
		lim = LimitRegexp(1, "^h/")
	case 3:
		lim = Limit(1)
	}
	u := &URL{Scheme: "http", Host: "h", Path: "/"}
	switch vt.Choose("how", 3) {
	case 0:
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		vt.Reach("canceled")
		vt.Assert("canceled", lim.Limit(ctx, u) == context.Canceled, "the context error was not returned")
	case 1:
		vt.Assert("first", lim.Limit(context.Background(), u) == nil, "the first URL was refused")
		ctx, cancel := context.WithCancel(context.Background())
		var at int64
		d := int64(1+vt.Choose("delay", 3)) * int64(250*time.Millisecond)
		vt.Go(func() {
			time.Sleep(time.Duration(d))
			at = vt.Now()
			cancel()
		})
		err := lim.Limit(ctx, u)
		vt.Reach("during")
		vt.Assert("during", err == context.Canceled && vt.Now() == at, "the wait did not end with the context")
	case 2:
		vt.Assert("first", lim.Limit(context.Background(), u) == nil, "the first URL was refused")
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Millisecond)
		vt.Reach("deadline")
		vt.Assert("deadline", lim.Limit(ctx, u) != nil, "a wait beyond the deadline gave no error")
		cancel()
	}
	if vt.Choose("uncovered", 2) == 1 {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		lim := LimitHostname(1, "other")
		vt.Reach("other")
		vt.Assert("other", lim.Limit(ctx, u) == nil, "a URL that is not covered was refused")
	}
}
