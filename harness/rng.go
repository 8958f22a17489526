package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"net/url"
	"strings"
)

// Rng is splitmix64: every random choice derives from VERIF_SEED, the generator's name and the case index.
type Rng struct{ s uint64 }

func NewRng(parts ...interface{}) *Rng {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(sprint(p)))
		h.Write([]byte{0})
	}
	return &Rng{h.Sum64()}
}
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Bool() bool     { return r.U64()&1 == 1 }
func (r *Rng) P(pct int) bool { return r.N(100) < pct }
func (r *Rng) Pick(s []string) string {
	return s[r.N(len(s))]
}
func (r *Rng) PickI(s []int64) int64 { return s[r.N(len(s))] }
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

const alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func (r *Rng) Str(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alnum[r.N(len(alnum))]
	}
	return string(b)
}
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

// hostile is a pool of strings that break naive escaping, splitting, formatting or comparing.
var hostile = []string{
	"", " ", "  ", "a b", "a+b", "a%20b", "%", "%%", "%zz", "%s%d%v", "a&b=c", "a=b", "a#b", "a?b", "a;b", "a,b",
	"\"", "'", "\"><script>alert(1)</script>", "<b>", "</form>", "&amp;", "&quot;", "&#34;", "&lt", "a\\b", "\\\"", "\\",
	"a\nb", "a\r\nSet-Cookie: x=y", "a\tb", "\x00", "a\x00b", "\x1b[31mred", "\x7f", "\u009b31m", "ü", "日本語", "🙂", "e\u0301",
	"\u202eabc", "\u2028", "\ufeff", "\xff\xfe", "a\xc3", "\xed\xa0\x80", "..", "../../etc/passwd", "//evil.example", "javascript:alert(1)",
	"null", "nil", "true", "0", "-1", "1e9", "{}", "[]", "{\"a\":1}", "`", "$(x)", "${x}", "*", "a/b", "a:b", ":", "::", "@", "=",
	"==", "~", "error=access_denied", "x&error=access_denied", "x#access_token=evil", "&state=evil", "code", "state",
}

func (r *Rng) Hostile() string {
	if r.P(3) {
		return r.Long()
	}
	if r.P(3) {
		return r.Separators()
	}
	if r.FreshP(2, 12, len(fresh.words) > 0) {
		if s := r.Word(); s != "" {
			return s
		}
	}
	switch r.N(6) {
	case 0:
		return r.Pick(hostile)
	case 1:
		return r.Pick(hostile) + r.Pick(hostile)
	case 2:
		return r.Str(1+r.N(12)) + r.Pick(hostile) + r.Str(r.N(6))
	case 3:
		return r.Str(1 + r.N(40))
	case 4: // random runes
		n := 1 + r.N(8)
		out := []rune{}
		for i := 0; i < n; i++ {
			switch r.N(4) {
			case 0:
				out = append(out, rune(r.N(128)))
			case 1:
				out = append(out, rune(0x80+r.N(0x700)))
			case 2:
				out = append(out, rune(0x3000+r.N(0x1000)))
			default:
				out = append(out, rune(33+r.N(94)))
			}
		}
		return string(out)
	default:
		return string(r.Bytes(1 + r.N(10)))
	}
}

// Separators makes a text of nothing but separators, or with many of them at an end.
func (r *Rng) Separators() string {
	sep := r.Pick([]string{" ", " ", ",", ";", ".", "/", ":", "-", "+", "&", "\t", "=", "_", "|", "%20", "\n", "\u00a0", ", ", "\x00"})
	n := 1 + r.N(12)
	if r.Bool() {
		n = 1 + r.N(300)
	}
	s := strings.Repeat(sep, n)
	switch r.N(4) {
	case 0:
		return s + r.Str(1+r.N(5))
	case 1:
		return r.Str(1+r.N(5)) + s
	}
	return s
}

// Several makes s one member of a list, or dresses it up.
func (r *Rng) Several(s string) string {
	other := r.Pick([]string{"x", "nobody", "someone-" + r.Str(3), s, ""})
	sep := r.Pick([]string{",", ",", " ", " ", ";", "|", ", ", "\n", ":", "/", "&", "+", "\t", "\x00"})
	switch r.N(8) {
	case 0, 1, 2:
		return other + sep + s
	case 3, 4:
		return s + sep + other
	case 5:
		return r.Pick([]string{"mailto:", "acct:", "urn:", "user:", "id=", "sub=", "@", "https://issuer.example.org/", "*"}) + s
	case 6:
		return s + r.Pick([]string{"@example.org", "@issuer.example.org", "#1", "*", ".*", "?x=1", ";v=1", "%"})
	}
	q := r.Pick([]string{"\"\"", "''", "<>", "()", "[]", "{}", "  ", "%%", "//"})
	return q[:1] + s + q[1:]
}

// Encoded writes s, or a character of it, in another way.
func (r *Rng) Encoded(s string) string {
	if s == "" {
		return s
	}
	i := r.N(len(s))
	one := func(f string) string { return s[:i] + fmt.Sprintf(f, s[i]) + s[i+1:] }
	switch r.N(14) {
	case 0, 1:
		return url.QueryEscape(s)
	case 2:
		return url.PathEscape(s)
	case 3, 4:
		return one("%%%02X")
	case 5:
		return one("%%%02x")
	case 6:
		return url.QueryEscape(url.QueryEscape(s))
	case 7:
		return base64.StdEncoding.EncodeToString([]byte(s))
	case 8:
		return base64.RawURLEncoding.EncodeToString([]byte(s))
	case 9:
		return hex.EncodeToString([]byte(s))
	case 10:
		return one("&#%d;")
	case 11:
		return one("\\u%04x")
	case 12:
		if t, err := url.QueryUnescape(s); err == nil {
			return t
		}
		return strings.Replace(s, "+", " ", -1)
	}
	out := ""
	for k := 0; k < len(s); k++ {
		out += fmt.Sprintf("%%%02X", s[k])
	}
	return out
}

// Long makes a text around the lengths at which buffers, columns and limits end.
func (r *Rng) Long() string {
	n := int(r.PickI([]int64{100, 128, 255, 256, 512, 1000, 1024, 2048, 4096, 5000})) + r.N(4) - 1
	if r.FreshP(10, 60, len(fresh.nums) > 0) {
		n = int(r.Num(9000)) + 2
	}
	switch r.N(4) {
	case 0:
		return strings.Repeat(r.Str(1), n)
	case 1:
		return r.Str(n-1) + r.Pick([]string{"é", "&", "\"", " ", "=", "日"})
	case 2:
		return strings.Repeat(r.Pick([]string{"日", "ü", "&a", "%20", "\\", "< "}), n/3)
	}
	return r.Str(n)
}

// HostileText is Hostile restricted to valid UTF-8.
func (r *Rng) HostileText() string {
	for {
		s := r.Hostile()
		if validUTF8(s) {
			return s
		}
	}
}

// NearMiss changes s slightly; the result differs from s.
func (r *Rng) NearMiss(s string) string {
	for try := 0; try < 50; try++ {
		t := s
		switch r.N(15) {
		case 14:
			p := r.Pick([]string{",", ";", ":", "\"", "'", ")", ">", "-", "_", "~", "&", "+", "*", "\r\n", "\t", ",", ";", "\"", "="})
			if t = s + p; r.P(25) {
				t = p + s
			} else if r.P(15) {
				t = p + s + p
			}
		case 12:
			t = r.Several(s)
		case 13:
			t = r.Encoded(s)
		case 0:
			t = s + r.Pick([]string{" ", "x", "/", "=", "\x00", "?", "#", "%20", ".", "A", "\n"})
		case 1:
			t = r.Pick([]string{" ", "x", "/", "\x00", "\t"}) + s
		case 2:
			if len(s) > 0 {
				t = s[:len(s)-1]
			}
		case 3:
			if len(s) > 0 {
				t = s[1:]
			}
		case 4:
			if len(s) > 0 {
				i := r.N(len(s))
				b := []byte(s)
				b[i] ^= 0x20 // case flip for letters
				t = string(b)
			}
		case 5:
			if len(s) > 0 {
				i := r.N(len(s))
				b := []byte(s)
				b[i] = alnum[r.N(len(alnum))]
				t = string(b)
			}
		case 6:
			t = upper(s)
		case 7:
			t = lower(s)
		case 8:
			t = s + s
		case 9:
			if len(s) > 1 {
				i := r.N(len(s) - 1)
				b := []byte(s)
				b[i], b[i+1] = b[i+1], b[i]
				t = string(b)
			}
		case 10:
			if len(s) > 2 {
				t = s[:1+r.N(len(s)-1)]
			}
		default:
			t = ""
		}
		if t != s {
			return t
		}
	}
	return s + "~"
}
