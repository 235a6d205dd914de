package ant

import (
	"net/url"
	"regexp"

	vt "github.com/yields/ant/internal/zzvt"
)

// zzGlob is the reference glob: '*' any run of bytes, '?' any one byte.
func zzGlob(s, p string) bool {
	if p == "" {
		return s == ""
	}
	if p[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if zzGlob(s[i:], p[1:]) {
				return true
			}
		}
		return false
	}
	if s == "" {
		return false
	}
	return vt.Or(p[0] == '?', p[0] == s[0]) && zzGlob(s[1:], p[1:])
}

func zzURL(scheme, host, path string) *url.URL {
	return &url.URL{Scheme: scheme, Host: host, Path: path}
}

func zzSame(a, b *url.URL) bool {
	return a.Scheme == b.Scheme && a.Host == b.Host && a.Path == b.Path && a.RawQuery == b.RawQuery && a.Fragment == b.Fragment && a.User == b.User && a.RawPath == b.RawPath
}

func zzURLRest(u *url.URL) {
	u.Scheme = vt.Pick("scheme", "http", "https", "ftp")
	u.RawQuery = vt.Pick("query", "", "a=b", "ab")
	u.Fragment = vt.Pick("frag", "", "ab")
	if vt.Choose("user", 2) == 1 {
		u.User = url.User("ab")
	}
}

// MatchHostname is equality of hosts.
func Verif_M01_hostname() {
	n := vt.Param("len", 3)
	want := vt.String("want", 0, n, "aA.:1")
	u := zzURL("", vt.String("host", 0, n, "aA.:1"), vt.String("path", 0, 1, "/a"))
	zzURLRest(u)
	before := *u
	m := MatchHostname(want)
	got := m.Match(u)
	vt.Assert("hostname", got == (want == before.Host), "MatchHostname differs from host equality")
	vt.Assert("unmodified", zzSame(u, &before), "the matcher modified the URL")
	vt.Expect("yes", "no")
	if got {
		vt.Reach("yes")
	} else {
		vt.Reach("no")
	}
}

// MatchPattern matches host+path against the glob.
//
// verif: thorough host=3 path=3 pat=4
func Verif_M01_pattern() {
	h := vt.String("host", 0, vt.Param("host", 2), "ab.?*")
	if vt.Choose("port", 2) == 1 {
		h += ":a"
	}
	p := vt.String("path", 0, vt.Param("path", 2), "/ab*?")
	pat := vt.String("pat", 0, vt.Param("pat", 3), "*?ab/")
	u := zzURL("http", h, p)
	if vt.Choose("rest", 2) == 1 {
		u.Scheme, u.RawQuery, u.Fragment, u.User = "ftp", "a", "b", url.User("a")
	}
	before := *u
	s := h
	if p != "" && p[0] != '/' {
		s += "/"
	}
	s += p
	got := MatchPattern(pat).Match(u)
	want := zzGlob(s, pat)
	vt.Assert("pattern", got == want, "MatchPattern differs from the glob over host+path")
	vt.Assert("unmodified", zzSame(u, &before), "the matcher modified the URL")
	vt.Expect("yes", "no", "slash")
	if got {
		vt.Reach("yes")
		if p != "" && p[0] != '/' {
			vt.Reach("slash")
		}
	} else {
		vt.Reach("no")
	}
}

// zzRegexps are regular expressions with hand-written references.
var zzRegexps = []struct {
	expr string
	ref  func(string) bool
}{
	{`^a\.b/`, func(s string) bool { return len(s) >= 4 && s[0] == 'a' && s[1] == '.' && s[2] == 'b' && s[3] == '/' }},
	{`/b$`, func(s string) bool { n := len(s); return n >= 2 && s[n-2] == '/' && s[n-1] == 'b' }},
	{`^$`, func(s string) bool { return s == "" }},
	{`a`, func(s string) bool {
		for i := 0; i < len(s); i++ {
			if s[i] == 'a' {
				return true
			}
		}
		return false
	}},
	{`^[ab.]+(/b*)?$`, func(s string) bool {
		i := 0
		for i < len(s) && s[i] != '/' {
			if s[i] != 'a' && s[i] != 'b' && s[i] != '.' {
				return false
			}
			i++
		}
		if i == 0 {
			return false
		}
		for i++; i < len(s); i++ {
			if s[i] != 'b' {
				return false
			}
		}
		return true
	}},
	{`b/+b`, func(s string) bool {
		for i := 0; i < len(s); i++ {
			if s[i] == 'b' {
				j := i + 1
				for j < len(s) && s[j] == '/' {
					j++
				}
				if j > i+1 && j < len(s) && s[j] == 'b' {
					return true
				}
			}
		}
		return false
	}},
}

// MatchRegexp matches host+path against the expression.
//
// verif: thorough host=3 path=3
func Verif_M01_regexp() {
	re := zzRegexps[vt.Choose("re", len(zzRegexps))]
	h := vt.String("host", 0, vt.Param("host", 3), "ab.")
	if vt.Choose("port", 2) == 1 {
		h += ":8"
	}
	p := vt.String("path", 0, vt.Param("path", 2), "/ab")
	u := zzURL("http", h, p)
	if vt.Choose("rest", 2) == 1 {
		u.Scheme, u.RawQuery, u.Fragment, u.User = "a", "a/b", "a", url.User("a")
	}
	before := *u
	s := h
	if p != "" && p[0] != '/' {
		s += "/"
	}
	s += p
	got := MatchRegexp(re.expr).Match(u)
	vt.Assert("regexp", got == re.ref(s), "MatchRegexp differs from the expression over host+path")
	vt.Assert("unmodified", zzSame(u, &before), "the matcher modified the URL")
	vt.Expect("yes", "no")
	if got {
		vt.Reach("yes")
	} else {
		vt.Reach("no")
	}
}

// zzPanics tells whether f panics.
func zzPanics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

func zzRefused(f func(expr string)) {
	expr := vt.Pick("expr", "", "a", "[", "(", "a)", "*", "a**", "(?P<x", "\\", "a{2,1}", "[b-a]", "(?:a)", "a{2}")
	_, err := regexp.Compile(expr)
	bad := err != nil
	if bad {
		vt.Reach("refused")
	} else {
		vt.Reach("made")
	}
	vt.Assert("refused", zzPanics(func() { f(expr) }) == bad, "exactly the regexps that do not compile are refused")
}

// Regexps that do not compile.
//
// verif: all preempt=0
func Verif_M01_refused() {
	vt.Expect("refused", "made")
	zzRefused(func(expr string) { MatchRegexp(expr) })
}

// Regexps that do not compile.
//
// verif: all preempt=0
func Verif_L01_refused() {
	vt.Expect("refused", "made")
	zzRefused(func(expr string) { LimitRegexp(1, expr) })
}
