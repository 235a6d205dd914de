package ant

import (
	"context"
	"net/url"

	vt "github.com/yields/ant/internal/zzvt"
)

// zzDedupe runs concurrent Dedupe calls and checks what they returned.
func zzDedupe(d Deduper, callers, calls, n int, concrete bool, exact bool) {
	ctx := context.Background()
	var all []string // every URL given
	var got []string // every URL returned
	ended := 0
	for c := 0; c < callers; c++ {
		var batches []URLs
		for k := 0; k < calls; k++ {
			var urls URLs
			for i := 0; i < n; i++ {
				b := vt.Byte("host", "abc")
				if concrete {
					b = byte(vt.Concrete(int64(b)))
				}
				u := &URL{Scheme: "http", Host: string([]byte{b}), Path: "/"}
				urls = append(urls, u)
				all = append(all, u.String())
			}
			batches = append(batches, urls)
		}
		vt.Go(func() {
			for _, urls := range batches {
				in := append(URLs{}, urls...)
				ret, err := d.Dedupe(ctx, urls)
				vt.Assert("error", err == nil, "Dedupe failed")
				next := 0
				for _, r := range ret {
					for next < len(in) && in[next] != r {
						next++
					}
					vt.Assert("order", next < len(in), "Dedupe returned URLs out of order or not from its input")
					next++
				}
				for i := range in {
					vt.Assert("input", urls[i] == in[i], "Dedupe changed its input")
				}
				for _, r := range ret {
					got = append(got, r.String())
				}
			}
			ended++
		})
	}
	vt.WaitUntil(func() bool { return ended == callers })
	for i, g := range got {
		vt.Assert("invented", zzIn(g, all), "Dedupe returned a URL that was not given")
		for _, h := range got[:i] {
			vt.Assert("twice", vt.Not(vt.EqStr(g, h)), "a URL was returned twice")
		}
	}
	if exact {
		for _, a := range all {
			vt.Assert("lost", zzIn(a, got), "a URL was never returned")
		}
	}
	if len(got) < len(all) {
		vt.Reach("duplicate")
	}
	if len(got) > 1 {
		vt.Reach("distinct")
	}
}

// The map de-duplicator.
//
// verif: all races
// verif: quick preempt=3 callers=2 calls=1 urls=2
// verif: thorough preempt=2 callers=2 calls=2 urls=2
func Verif_D01_map() {
	vt.Expect("duplicate", "distinct")
	zzDedupe(DedupeMap(), vt.Param("callers", 2), vt.Param("calls", 1), vt.Param("urls", 2), false, true)
}

// The map de-duplicator with more callers.
//
// verif: all races
// verif: quick preempt=2 callers=3 calls=1 urls=2
// verif: thorough preempt=3 callers=3 calls=1 urls=2
func Verif_D01_map3() {
	vt.Expect("duplicate", "distinct")
	zzDedupe(DedupeMap(), vt.Param("callers", 2), vt.Param("calls", 1), vt.Param("urls", 2), false, true)
}

// The bloom filter de-duplicator; its hash of these URLs has no collisions.
//
// verif: all races
// verif: quick preempt=3 callers=2 calls=1 urls=2
// verif: thorough preempt=2 callers=3 calls=1 urls=2
func Verif_D01_bloom() {
	vt.Expect("duplicate", "distinct")
	zzDedupe(DedupeBF(1000, 3), vt.Param("callers", 2), vt.Param("calls", 1), vt.Param("urls", 2), true, true)
}

// zzPart is a URL with b in one of its parts.
func zzPart(part int, b byte) *URL {
	s := string([]byte{b})
	u := &URL{Scheme: "http", User: url.UserPassword("user", "pass"), Host: "host", Path: "/dir/page", RawQuery: "k=v"}
	switch part {
	case 0:
		u.Scheme = "http" + s
	case 1:
		u.User = url.UserPassword("user"+s, "pass")
	case 2:
		u.User = url.UserPassword("user", "pass"+s)
	case 3:
		u.User = url.User("user" + s)
	case 4:
		u.Host = s + ".host"
	case 5:
		u.Host = "host:808" + s
	case 6:
		u.Host = "host." + s
	case 7:
		u.Path = "/" + s + "/page"
	case 8:
		u.Path = "/dir/page" + s
	case 9:
		u.RawQuery = s + "=v"
	case 10:
		u.RawQuery = "k=v&l=" + s
	case 11:
		u.User, u.Path, u.RawQuery = nil, "/"+s, ""
	case 12:
		u.User = nil
		u.Host = s
	}
	return u
}

// URLs that differ in any one part are different.
//
// verif: all delay=0
func Verif_D01_parts() {
	vt.Expect("same", "different")
	d, exact := DedupeMap(), vt.Choose("bloom", 2) == 0
	if !exact {
		d = DedupeBF(1000, 3)
	}
	part := vt.Choose("part", 13)
	var b [2]byte
	for i := range b {
		alphabet := "abcAB19"
		if part == 5 {
			alphabet = "0123"
		}
		b[i] = vt.Byte("b", alphabet)
		if !exact {
			b[i] = byte(vt.Concrete(int64(b[i])))
		}
	}
	us := URLs{zzPart(part, b[0]), zzPart(part, b[1])}
	var n int
	if vt.Choose("batches", 2) == 0 {
		ret, err := d.Dedupe(context.Background(), us)
		vt.Assert("error", err == nil, "Dedupe failed")
		n = len(ret)
	} else {
		for _, u := range us {
			ret, err := d.Dedupe(context.Background(), URLs{u})
			vt.Assert("error", err == nil, "Dedupe failed")
			n += len(ret)
		}
	}
	if b[0] == b[1] {
		vt.Reach("same")
		vt.Assert("twice", n == 1, "a URL was returned twice, or never")
	} else {
		vt.Reach("different")
		vt.Assert("lost", n == 2, "a URL was dropped because another one differs from it in one part only")
	}
}

// URLs that differ anywhere in a longer text are different, however they
// are told apart.
//
// verif: quick delay=0 bytes=6
// verif: thorough delay=0 bytes=12
func Verif_D01_bytes() {
	vt.Expect("same", "different")
	n := vt.Param("bytes", 6)
	var s [2]string
	for i := range s {
		s[i] = vt.String("path", n, n, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")
	}
	ret, err := DedupeMap().Dedupe(context.Background(), URLs{
		{Scheme: "http", Host: "host", RawQuery: s[0]},
		{Scheme: "http", Host: "host", RawQuery: s[1]},
	})
	vt.Assert("error", err == nil, "Dedupe failed")
	same := vt.EqStr(s[0], s[1])
	vt.Assert("kept", vt.Iff(same, len(ret) == 1), "a URL was returned twice, or not at all")
	if same {
		vt.Reach("same")
	} else {
		vt.Reach("different")
	}
}
