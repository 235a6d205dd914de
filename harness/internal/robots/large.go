package robots

import (
	"context"
	"strconv"
	"strings"
	"time"

	vt "github.com/yields/ant/internal/zzvt"
)

// zzBig is a robots.txt with many groups and rules; a longer rule late in the
// file decides.
func zzBig(rules, size int) []zzGroup {
	g := zzGroup{agent: "*", delay: 2}
	for i := 0; i < rules; i++ {
		g.rules = append(g.rules, zzRule{i%2 == 0, "/a/" + strings.Repeat("r", size) + strconv.Itoa(i)})
	}
	g.rules = append(g.rules, zzRule{false, "/b"}, zzRule{true, "/bb"}, zzRule{false, "/bbb"})
	gs := []zzGroup{}
	for i := 0; i < rules/10; i++ {
		gs = append(gs, zzGroup{"other" + strconv.Itoa(i) + "x", 5, []zzRule{{false, "/"}}})
	}
	return append(gs, g, zzGroup{"ant", 7, []zzRule{{true, "/b"}, {false, "/a/" + strings.Repeat("r", size) + "1"}}})
}

// A large robots.txt.
//
// verif: all preempt=0 steps=100000000
func Verif_R01_large() {
	vt.Expect("fetched", "cached", "allowed", "disallowed")
	rules := []int{20, 120, 400}[vt.Choose("rules", 3)]
	size := []int{1, 90, 1000}[vt.Choose("size", 3)]
	o := &zzOrigin{hosts: map[string]*zzHost{"h": {gs: zzBig(rules, size)}}}
	c := NewCache(o.client(), 10)
	paths := []string{"/a", "/b", "/bb", "/bbb", "/bbbb/c"}
	for _, i := range []int{0, 1, rules / 2, rules - 1} {
		paths = append(paths, "/a/"+strings.Repeat("r", size)+strconv.Itoa(i)+"/x", "/a/"+strings.Repeat("r", size-1)+strconv.Itoa(i))
	}
	ua := vt.Pick("agent", "", "ant", "other0x", "bee")
	for _, p := range paths {
		zzStep(c, o, "h", p, ua, false)
	}
	if ua != "other0x" {
		zzStep(c, o, "h", "/", ua, true)
	}
}

// Many hosts, in a cache that holds all or some of them.
//
// verif: all preempt=0 steps=100000000
func Verif_R01_hosts() {
	vt.Expect("right")
	n := []int{5, 64, 150}[vt.Choose("hosts", 3)]
	capacity := []int{1, 10, 1000}[vt.Choose("capacity", 3)]
	o := &zzOrigin{hosts: map[string]*zzHost{}}
	for i := 0; i < n; i++ {
		o.hosts["h"+strconv.Itoa(i)] = &zzHost{gs: []zzGroup{{"*", 0, []zzRule{{false, "/" + strconv.Itoa(i) + "/"}}}}}
	}
	c := NewCache(o.client(), capacity)
	for round := 0; round < 2; round++ {
		for i := 0; i < n; i++ {
			h := "h" + strconv.Itoa(i)
			for _, k := range []int{i, (i + 1) % n} {
				ok, err := c.Allowed(context.Background(), Request{URL: zzURL("https", h, "/"+strconv.Itoa(k)+"/p")})
				vt.Assert("right", err == nil && ok == (k != i), "a host got another host's answer")
				vt.Reach("right")
			}
		}
	}
	for _, h := range o.hosts {
		vt.Assert("once", capacity < n || h.calls == 1, "robots.txt was fetched again while it was cached")
	}
}

// Many goroutines wait for the crawl delays of a few hosts.
//
// verif: all delay=0 timerfires=300 steps=50000000
func Verif_R02_large() {
	vt.Expect("waited", "canceled")
	n := []int{3, 20, 100}[vt.Choose("n", 3)]
	o := &zzOrigin{hosts: map[string]*zzHost{}}
	for i := 0; i < 4; i++ {
		o.hosts["h"+strconv.Itoa(i)] = &zzHost{gs: []zzGroup{{"*", []int{0, 1, 3, 600}[i], nil}}}
	}
	c := NewCache(o.client(), 10)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	start := vt.Now()
	ended := 0
	for i := 0; i < n; i++ {
		d := []int64{0, 1, 3, 600}[i%4]
		vt.Go(func() {
			err := c.Wait(ctx, Request{URL: zzURL("http", "h"+strconv.Itoa(i%4), "/x")})
			took := vt.Now() - start
			if d == 600 {
				vt.Reach("canceled")
				vt.Assert("canceled", err == context.DeadlineExceeded && took == int64(100*time.Second), "Wait did not return promptly when canceled")
			} else {
				vt.Reach("waited")
				vt.Assert("full", err == nil && took == d*int64(time.Second), "Wait did not return after exactly the crawl delay")
			}
			ended++
		})
	}
	vt.WaitUntil(func() bool { return ended == n })
}
