package normalize

import (
	"net/url"
	"strings"

	vt "github.com/yields/ant/internal/zzvt"
)

var zzHosts = []string{"a", "Ab.c", "[::1]", "[FE80::1]", "1.2.3.4", "a.80", "a-443"}
var zzPorts = []string{"", ":80", ":443", ":8080", ":8", ":4430"}

// zzSegs is the reference dot-segment resolution over non-empty segments.
func zzSegs(p string) []string {
	var out []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return out
}

func zzEqSegs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// zzParams is the multiset of non-empty query parameters, sorted.
func zzParams(q string) []string {
	var out []string
	for _, s := range strings.Split(q, "&") {
		if s == "" {
			continue
		}
		i := len(out)
		out = append(out, s)
		for i > 0 && out[i-1] > s {
			out[i] = out[i-1]
			i--
		}
		out[i] = s
	}
	return out
}

func zzLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func zzHost(host, port, scheme string) string {
	if scheme == "http" && port == ":80" || scheme == "https" && port == ":443" {
		port = ""
	}
	return zzLower(host) + port
}

// A symbolic path on a set of hosts, ports and schemes.
//
// verif: quick path=4
// verif: thorough path=6
func Verif_N02_path() {
	vt.Expect("ok", "dots", "encoded", "v6", "default")
	scheme := vt.Pick("scheme", "http", "https")
	host := zzHosts[vt.Choose("host", len(zzHosts))]
	port := zzPorts[vt.Choose("port", len(zzPorts))]
	p := vt.String("path", 0, vt.Param("path", 4), "/.ab")
	if p != "" {
		p = "/" + p
	}
	user := vt.Pick("user", "", "U@", "u:p@")
	zzCheck02(scheme, host, port, user, p, "")
	if port == ":80" && scheme == "http" {
		vt.Reach("default")
		if host[0] == '[' {
			vt.Reach("v6")
		}
	}
	for _, s := range strings.Split(p, "/") {
		if s == ".." {
			vt.Reach("dots")
		}
	}
	vt.Reach("encoded")
}

// A symbolic path with escapes and odd bytes on one host.
//
// verif: quick path=4
// verif: thorough path=5
func Verif_N02_escapes() {
	vt.Expect("ok")
	p := "/" + vt.String("path", 0, vt.Param("path", 4), "/.a%2fF5;:@*~ +&=")
	zzCheck02("http", "h", "", "", p, "")
}

// A symbolic query.
//
// verif: quick query=4
// verif: thorough query=6
func Verif_N02_query() {
	vt.Expect("ok")
	q := vt.String("query", 0, vt.Param("query", 4), "ab=&%2+?")
	zzCheck02("http", "h", "", "", "/", "?"+q)
}

// A symbolic host name.
//
// verif: quick host=3
// verif: thorough host=4
func Verif_N02_host() {
	vt.Expect("ok")
	h := vt.String("host", 1, vt.Param("host", 3), "aZ.8-04:")
	zzCheck02(vt.Pick("scheme", "http", "https"), h, "", "", "/a", "")
}

func zzCheck02(scheme, host, port, user, p, q string) {
	raw := scheme + "://" + user + host + port + p + q
	in, err := url.Parse(raw)
	if err != nil {
		return
	}
	out, err := RawURL(raw)
	vt.Assert("no-error", err == nil, "RawURL fails on a valid URL")
	got, err := url.Parse(out)
	vt.Assert("parses", err == nil, "the normalized URL does not parse")
	vt.Reach("ok")
	vt.Assert("scheme", got.Scheme == in.Scheme, "scheme changed")
	h, pt := in.Host, ""
	for i := len(h) - 1; i >= 0; i-- {
		if h[i] == ']' {
			break
		}
		if h[i] == ':' {
			h, pt = h[:i], h[i:]
			break
		}
	}
	vt.Assert("host", got.Host == zzHost(h, pt, scheme), "host or port changed")
	vt.Assert("user", got.User.String() == in.User.String(), "user info changed")
	vt.Assert("path", zzEqSegs(zzSegs(got.Path), zzSegs(in.Path)), "path segments changed")
	vt.Assert("query", zzEqSegs(zzParams(got.RawQuery), zzParams(in.RawQuery)), "query parameters changed")
	// the in-place form agrees with the string form
	u := URL(in)
	vt.Assert("same", u.String() == out, "URL and RawURL disagree")
}

func zzNorm(label, raw string) string {
	out, err := RawURL(raw)
	vt.Assert("no-error", err == nil, "RawURL fails on a valid URL")
	again, err := RawURL(out)
	vt.Assert("idempotent", err == nil && again == out, "normalizing twice changes the URL")
	u, err := url.Parse(out)
	vt.Assert("rooted", err == nil && len(u.Path) > 0 && u.Path[0] == '/', "the normalized path does not start with '/'")
	return out
}

// Equivalent spellings normalize to the same string.
//
// verif: quick path=3
// verif: thorough path=4
func Verif_N01_equiv() {
	vt.Expect("case", "port", "frag", "empty", "dots", "slash", "enc", "qmark", "order")
	scheme := vt.Pick("scheme", "http", "https")
	host := zzHosts[vt.Choose("host", len(zzHosts))]
	port := zzPorts[vt.Choose("port", len(zzPorts))]
	p := vt.String("path", 0, vt.Param("path", 3), "/.ab")
	if p != "" {
		p = "/" + p
	}
	q := vt.Pick("query", "", "?b&a=1")
	a := scheme + "://" + host + port + p + q
	b := a
	switch vt.Choose("how", 9) {
	case 0:
		i := vt.Choose("flip", len(host))
		c := host[i]
		switch {
		case c >= 'a' && c <= 'z':
			c -= 32
		case c >= 'A' && c <= 'Z':
			c += 32
		default:
			return
		}
		b = scheme + "://" + host[:i] + string(rune(c)) + host[i+1:] + port + p + q
		vt.Reach("case")
	case 1:
		if port != "" {
			return
		}
		def := ":80"
		if scheme == "https" {
			def = ":443"
		}
		b = scheme + "://" + host + def + p + q
		vt.Reach("port")
	case 2:
		b = a + "#" + vt.String("frag", 0, 2, "a/?%2#")
		if _, err := url.Parse(b); err != nil {
			return
		}
		vt.Reach("frag")
	case 3:
		if p != "" {
			return
		}
		b = scheme + "://" + host + port + "/" + q
		vt.Reach("empty")
	case 4:
		i := vt.Choose("at", len(p)+1)
		if i < len(p) && p[i] != '/' || p == "" {
			return
		}
		b = scheme + "://" + host + port + p[:i] + vt.Pick("dot", "/.", "/x/..", "/x/./../.") + p[i:] + q
		vt.Reach("dots")
	case 5:
		i := vt.Choose("at", len(p)+1)
		if i == len(p) || p[i] != '/' {
			return
		}
		b = scheme + "://" + host + port + p[:i] + "/" + p[i:] + q
		vt.Reach("slash")
	case 6:
		i := vt.Choose("at", len(p)+1)
		if i == len(p) || p[i] == '/' {
			return
		}
		enc := "%2e"
		if p[i] == 'a' {
			enc = vt.Pick("enc", "%61")
		} else if p[i] == 'b' {
			enc = "%62"
		} else {
			enc = vt.Pick("enc", "%2e", "%2E")
		}
		b = scheme + "://" + host + port + p[:i] + enc + p[i+1:] + q
		vt.Reach("enc")
	case 7:
		if q != "" {
			return
		}
		b = a + "?"
		vt.Reach("qmark")
	case 8:
		if q == "" {
			return
		}
		b = scheme + "://" + host + port + p + "?a=1&b"
		vt.Reach("order")
	}
	x, y := zzNorm("a", a), zzNorm("b", b)
	vt.Assert("canonical", x == y, "equivalent URLs normalize differently")
}

// Query parameter order never matters.
//
// verif: quick query=2
// verif: thorough query=2
func Verif_N01_order() {
	n := vt.Param("query", 2)
	const al = "ab=%+"
	p, q, r := vt.String("p", 0, n, al), vt.String("q", 0, n, al), vt.String("r", 0, 1, al)
	x := zzNorm("a", "http://h/?"+p+"&"+q+"&"+r)
	y := zzNorm("b", "http://h/?"+r+"&"+p+"&"+q)
	z := zzNorm("c", "http://h/?"+q+"&"+p+"&"+r)
	vt.Assert("order", x == y && x == z, "parameter order changes the normalized URL")
}

// Needless escapes anywhere in a symbolic path.
//
// verif: quick path=2
// verif: thorough path=3
func Verif_N01_escapes() {
	vt.Expect("ok")
	const hex, HEX = "0123456789abcdef", "0123456789ABCDEF"
	p := vt.String("path", 1, vt.Param("path", 2), "")
	// p holds the decoded bytes of the path; spell it in two ways
	var a, b []byte
	for i := 0; i < len(p); i++ {
		c := p[i]
		vt.Assume(c != '/')
		a = append(a, '%', hex[c>>4], hex[c&15])
		unres := vt.Or(vt.And(c >= 'a', c <= 'z'), vt.And(c >= 'A', c <= 'Z'), vt.And(c >= '0', c <= '9'), c == '-', c == '.', c == '_', c == '~')
		if vt.And(unres, vt.Bool("plain")) {
			b = append(b, c)
		} else {
			b = append(b, '%', HEX[c>>4], HEX[c&15])
		}
	}
	x := zzNorm("a", "http://h/"+string(a))
	y := zzNorm("b", "http://h/"+string(b))
	vt.Assert("escapes", x == y, "needless escapes change the normalized URL")
	vt.Reach("ok")
}
