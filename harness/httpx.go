package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"hash/fnv"
	"html"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"
)

func sprint(a ...interface{}) string { return fmt.Sprint(a...) }
func validUTF8(s string) bool        { return utf8.ValidString(s) }
func upper(s string) string          { return strings.ToUpper(s) }
func lower(s string) string          { return strings.ToLower(s) }

// Rec is a ResponseWriter that notices what a client would not forgive.
type Rec struct {
	H        http.Header
	Sent     http.Header // snapshot when the status was sent
	Status   int
	Statuses int // WriteHeader calls
	Body     bytes.Buffer
	Writes   int
	Panic    string
	Stack    string
	OnSend   func() // called when the response begins
	Cut      bool   // the connection is gone: no write succeeds
	Tracer   *tracer
}

func NewRec() *Rec { return &Rec{H: http.Header{}} }

func (r *Rec) Header() http.Header { return r.H }
func (r *Rec) WriteHeader(s int) {
	r.Statuses++
	if r.Statuses == 1 {
		if r.OnSend != nil {
			r.OnSend()
		}
		r.Status = s
		r.Sent = r.H.Clone()
	}
}
func (r *Rec) Write(b []byte) (int, error) {
	if r.Statuses == 0 {
		r.WriteHeader(200)
	}
	r.Writes++
	if r.Cut {
		r.Body.Write(b)
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}
	}
	return r.Body.Write(b)
}

// Touched tells whether anything was sent.
func (r *Rec) Touched() bool { return r.Statuses > 0 || r.Writes > 0 || len(r.H) > 0 }

// LengthProblem tells whether the response announces another length than it has.
func (r *Rec) LengthProblem() string {
	for _, l := range r.Sent["Content-Length"] {
		if l != fmt.Sprint(r.Body.Len()) && r.Statuses > 0 {
			return fmt.Sprintf("Content-Length %s of a body of %d bytes", l, r.Body.Len())
		}
	}
	return ""
}

func (r *Rec) String() string {
	if r.Panic != "" {
		return "PANIC " + r.Panic
	}
	if !r.Touched() {
		return "nothing written"
	}
	return fmt.Sprintf("status %d (sent %d times) headers %q body %q", r.Status, r.Statuses, fmt.Sprint(r.H), r.Body.String())
}

// guard runs f and turns a panic into an observation.
func guard(rec *Rec, f func()) {
	defer func() {
		if e := recover(); e != nil {
			rec.Panic = fmt.Sprint(e)
			rec.Stack = string(debug.Stack())
		}
	}()
	f()
}

type KV struct{ K, V string }

// Req is a request in parts, so that it can be built as often as needed.
type Req struct {
	Method      string
	Path        string
	Query       []KV
	Body        []KV
	RawQuery    *string
	RawBody     *string
	ContentType string // default urlencoded when Body is set
	Header      []KV
	Raw         func() *http.Request // overrides all of the above
}

func encodeKV(kvs []KV) string {
	parts := []string{}
	for _, kv := range kvs {
		parts = append(parts, url.QueryEscape(kv.K)+"="+url.QueryEscape(kv.V))
	}
	return strings.Join(parts, "&")
}

func (q *Req) Clone() *Req {
	c := *q
	c.Query = append([]KV{}, q.Query...)
	c.Body = append([]KV{}, q.Body...)
	c.Header = append([]KV{}, q.Header...)
	return &c
}

func (q *Req) Set(list *[]KV, k, v string) {
	for i := range *list {
		if (*list)[i].K == k {
			(*list)[i].V = v
			return
		}
	}
	*list = append(*list, KV{k, v})
}
func (q *Req) SetBody(k, v string)  { q.Set(&q.Body, k, v) }
func (q *Req) SetQuery(k, v string) { q.Set(&q.Query, k, v) }

func del(list []KV, k string) []KV {
	out := []KV{}
	for _, kv := range list {
		if kv.K != k {
			out = append(out, kv)
		}
	}
	return out
}
func (q *Req) Del(k string) { q.Body = del(q.Body, k); q.Query = del(q.Query, k) }
func (q *Req) Get(k string) string {
	for _, kv := range q.Body {
		if kv.K == k {
			return kv.V
		}
	}
	for _, kv := range q.Query {
		if kv.K == k {
			return kv.V
		}
	}
	return ""
}

var formTypes = []string{"application/x-www-form-urlencoded; charset=UTF-8", "application/x-www-form-urlencoded;charset=utf-8", "Application/X-WWW-Form-Urlencoded", "application/x-www-form-urlencoded ; charset=\"utf-8\""}

func (q *Req) Build() *http.Request {
	if q.Raw != nil {
		return q.Raw()
	}
	target := q.Path
	if target == "" {
		target = "/"
	}
	u := &url.URL{Path: target}
	if q.RawQuery != nil {
		u.RawQuery = *q.RawQuery
	} else {
		u.RawQuery = encodeKV(q.Query)
	}
	body := ""
	if q.RawBody != nil {
		body = *q.RawBody
	} else {
		body = encodeKV(q.Body)
	}
	r := httptest.NewRequest("POST", "/", strings.NewReader(body))
	r.Method = q.Method
	r.URL = u
	r.RequestURI = u.RequestURI()
	r.Host = "op.example.org"
	ct := q.ContentType
	if ct == "" && (len(q.Body) > 0 || q.RawBody != nil) {
		ct = "application/x-www-form-urlencoded"
		h := fnv.New32a()
		h.Write([]byte(body))
		if v := h.Sum32() % 48; int(v) < len(formTypes) { // the same, in other words
			ct = formTypes[v]
		}
	}
	if ct != "" && ct != "-" {
		r.Header.Set("Content-Type", ct)
	}
	for _, kv := range q.Header {
		r.Header.Add(kv.K, kv.V)
	}
	return surround(r, u.RawQuery, body)
}

var surroundings = []KV{
	{"User-Agent", "curl/8.5.0"}, {"User-Agent", "Mozilla/5.0 (X11; Linux x86_64; rv:125.0) Gecko/20100101 Firefox/125.0"}, {"User-Agent", "kube-probe/1.29"}, {"User-Agent", "Googlebot/2.1"}, {"User-Agent", ""},
	{"Accept", "text/html,application/xhtml+xml;q=0.9"}, {"Accept", "application/json"}, {"Accept", "*/*"}, {"Accept", "text/plain"}, {"Accept-Encoding", "gzip, br"}, {"Accept-Language", "ja,en;q=0.5"}, {"Accept-Charset", "iso-8859-1"},
	{"Origin", "https://client.example.com"}, {"Origin", "null"}, {"Referer", "https://rp.example.com/start?x=1"}, {"Cookie", "sid=abc; theme=dark"}, {"X-Requested-With", "XMLHttpRequest"},
	{"X-Forwarded-For", "127.0.0.1"}, {"X-Forwarded-For", "203.0.113.9, 10.0.0.1"}, {"X-Real-Ip", "127.0.0.1"}, {"REMOTE_ADDR", "127.0.0.1"}, {"Forwarded", "for=127.0.0.1;proto=https;host=localhost"}, {"X-Forwarded-Proto", "http"}, {"X-Forwarded-Proto", "https"}, {"X-Forwarded-Host", "evil.example"}, {"X-Forwarded-Prefix", "/v2"},
	{"X-Http-Method-Override", "GET"}, {"X-Http-Method-Override", "POST"}, {"X-Http-Method", "PUT"}, {"X-Original-Url", "/"}, {"X-Rewrite-Url", "/open"}, {"X-Debug", "1"}, {"X-Internal", "true"}, {"X-Test", "1"}, {"X-Client-Id", "c1"}, {"X-Client-Cert", "CN=c1"},
	{"Cache-Control", "no-cache"}, {"Pragma", "no-cache"}, {"If-None-Match", "*"}, {"Range", "bytes=0-0"}, {"Connection", "close"}, {"Upgrade", "h2c"}, {"Expect", "100-continue"}, {"Te", "trailers"}, {"Prefer", "return=minimal"}, {"Purpose", "prefetch"}, {"Sec-Purpose", "prefetch"}, {"Sec-Fetch-Mode", "navigate"}, {"Sec-Fetch-Site", "cross-site"}, {"Dnt", "1"}, {"Idempotency-Key", "k-1"}, {"X-Request-Id", "r-1"}, {"Retry-After", "1"}, {"Proxy-Authorization", "Basic YTpi"}, {"Date", "Thu, 01 Jan 1970 00:00:00 GMT"},
}

// surround gives a third of all requests surroundings that must not matter: where they come from, over what, and
// what else their sender says; some of the senders have hung up already.
func surround(r *http.Request, query, body string) *http.Request {
	h := fnv.New64a()
	fmt.Fprint(h, r.Method, "|", r.URL.Path, "|", query, "|", body, "|", r.Header["Authorization"])
	v := h.Sum64()
	pick := func(n int) int {
		v = v*6364136223846793005 + 1442695040888963407
		return int((v >> 33) % uint64(n))
	}
	pick(2)
	if pick(3) != 0 {
		return r
	}
	for i := pick(4); i > 0; i-- {
		kv := surroundings[pick(len(surroundings))]
		if _, ok := r.Header[http.CanonicalHeaderKey(kv.K)]; !ok {
			r.Header.Set(kv.K, kv.V)
		}
	}
	switch pick(8) {
	case 0:
		r.RemoteAddr = "127.0.0.1:40000"
	case 1:
		r.RemoteAddr = "[::1]:40000"
	case 2:
		r.RemoteAddr = "10.0.0.7:1"
	case 3:
		r.RemoteAddr = []string{"", "@", "203.0.113.77:65535"}[pick(3)]
	}
	switch pick(8) {
	case 0:
		r.Host = "localhost"
	case 1:
		r.Host = []string{"127.0.0.1:8080", "[::1]:443", "OP.Example.ORG:443", "", "other.example.org"}[pick(5)]
	}
	switch pick(6) {
	case 0:
		r.Proto, r.ProtoMajor, r.ProtoMinor, r.Close = "HTTP/1.0", 1, 0, true
	case 1:
		r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0
	}
	if pick(3) == 0 {
		r.TLS = &tls.ConnectionState{Version: tls.VersionTLS13, HandshakeComplete: true, ServerName: "op.example.org"}
	}
	switch pick(10) {
	case 0:
		ctx, cancel := context.WithCancel(r.Context())
		cancel()
		r = r.WithContext(ctx)
	case 1:
		ctx, cancel := context.WithDeadline(r.Context(), time.Unix(1, 0))
		cancel()
		r = r.WithContext(ctx)
	}
	return r
}

func (q *Req) String() string {
	s := q.Method + " " + q.Path
	if q.RawQuery != nil {
		s += fmt.Sprintf(" rawquery=%q", *q.RawQuery)
	} else {
		s += " query=" + fmt.Sprintf("%q", q.Query)
	}
	if q.RawBody != nil {
		s += fmt.Sprintf(" rawbody=%q", *q.RawBody)
	} else {
		s += " body=" + fmt.Sprintf("%q", q.Body)
	}
	return s + " header=" + fmt.Sprintf("%q", q.Header) + " ct=" + q.ContentType
}

// ---------------------------------------------------------------- authorization responses

type AuthResp struct {
	Kind    string // none, redirect, form, other
	Mode    string // query, fragment, form_post
	Target  string // address without the added parameters (form action, or whole Location for redirects)
	Params  url.Values
	Problem string
}

// parseForm reads the single auto-submitting form as an HTML parser would.
func parseForm(doc string) (action string, method string, params url.Values, problem string) {
	params = url.Values{}
	forms := 0
	i := 0
	if d := strings.TrimLeft(doc, " \t\r\n"); len(d) >= 15 && strings.EqualFold(d[:15], "<!doctype html>") {
		i = len(doc) - len(d) + 15
	}
	for i < len(doc) {
		lt := strings.IndexByte(doc[i:], '<')
		if lt < 0 {
			break
		}
		i += lt + 1
		if i >= len(doc) {
			break
		}
		if doc[i] == '!' || doc[i] == '?' {
			return "", "", nil, "unexpected markup declaration"
		}
		closing := doc[i] == '/'
		if closing {
			i++
		}
		j := i
		for j < len(doc) && isAlnum(doc[j]) {
			j++
		}
		if j == i {
			return "", "", nil, "stray '<'"
		}
		name := strings.ToLower(doc[i:j])
		attrs := map[string]string{}
		i = j
		for {
			for i < len(doc) && (isSpace(doc[i]) || doc[i] == '/') {
				i++
			}
			if i >= len(doc) {
				return "", "", nil, "unterminated tag"
			}
			if doc[i] == '>' {
				i++
				break
			}
			k := i
			for i < len(doc) && !isSpace(doc[i]) && doc[i] != '=' && doc[i] != '>' && doc[i] != '/' {
				i++
			}
			an := strings.ToLower(doc[k:i])
			for i < len(doc) && isSpace(doc[i]) {
				i++
			}
			av := ""
			if i < len(doc) && doc[i] == '=' {
				i++
				for i < len(doc) && isSpace(doc[i]) {
					i++
				}
				if i < len(doc) && (doc[i] == '"' || doc[i] == '\'') {
					qc := doc[i]
					i++
					k = i
					for i < len(doc) && doc[i] != qc {
						i++
					}
					if i >= len(doc) {
						return "", "", nil, "unterminated attribute"
					}
					av = html.UnescapeString(doc[k:i])
					i++
				} else {
					k = i
					for i < len(doc) && !isSpace(doc[i]) && doc[i] != '>' {
						i++
					}
					av = html.UnescapeString(doc[k:i])
				}
			}
			if _, dup := attrs[an]; !dup {
				attrs[an] = av
			}
		}
		if closing {
			switch name {
			case "html", "head", "title", "body", "form", "noscript", "p", "script", "button":
			default:
				return "", "", nil, "unexpected closing tag " + name
			}
			continue
		}
		switch name {
		case "html", "head", "title", "meta", "noscript", "p", "script", "button":
			if name == "script" && len(attrs) > 0 {
				return "", "", nil, "script with attributes"
			}
		case "body":
		case "form":
			forms++
			action, method = attrs["action"], strings.ToLower(attrs["method"])
		case "input":
			if t := strings.ToLower(attrs["type"]); t == "submit" && attrs["name"] == "" {
				continue
			} else if t != "hidden" {
				return "", "", nil, "input is not hidden"
			}
			if forms != 1 {
				return "", "", nil, "input outside of the form"
			}
			for a := range attrs {
				if strings.HasPrefix(a, "on") {
					return "", "", nil, "input with handler"
				}
			}
			params.Add(attrs["name"], attrs["value"])
		default:
			return "", "", nil, "unexpected element " + name
		}
	}
	if forms != 1 {
		problem = fmt.Sprintf("%d forms", forms)
	}
	return
}

func isAlnum(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}
func isSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' }

// looseParams decodes an application/x-www-form-urlencoded string as a client would.
func looseParams(s string) (url.Values, string) {
	v, err := url.ParseQuery(s)
	if err != nil {
		return v, "undecodable parameters: " + err.Error()
	}
	return v, ""
}

// ParseAuthResp interprets what was written as an authorization response to the redirect address ruri.
func ParseAuthResp(rec *Rec, ruri string) *AuthResp {
	a := &AuthResp{Kind: "other"}
	if !rec.Touched() {
		a.Kind = "none"
		return a
	}
	if p := rec.LengthProblem(); p != "" {
		a.Problem = p
		return a
	}
	if rec.Statuses != 1 {
		a.Problem = fmt.Sprintf("status sent %d times", rec.Statuses)
	}
	switch {
	case rec.Status == http.StatusFound || rec.Status == http.StatusSeeOther:
		a.Kind = "redirect"
		locs := rec.Sent["Location"]
		if len(locs) != 1 {
			a.Problem = fmt.Sprintf("%d Location headers", len(locs))
			return a
		}
		a.Target = locs[0]
		if strings.ContainsAny(locs[0], "\r\n\x00") {
			a.Problem = "control characters in Location"
			return a
		}
		want := asciiURI(ruri)
		rest, ok := strings.CutPrefix(locs[0], want)
		if !ok {
			a.Problem = fmt.Sprintf("Location %q is not at the redirect address %q", locs[0], want)
			return a
		}
		// own query or fragment of the redirect address must survive; what was appended is the response
		hadQ, hadF := strings.Contains(want, "?"), strings.Contains(want, "#")
		switch {
		case hadF:
			a.Mode = "fragment"
			rest = strings.TrimPrefix(rest, "&")
		case strings.HasPrefix(rest, "#"):
			a.Mode = "fragment"
			rest = rest[1:]
		case hadQ && (strings.HasPrefix(rest, "&") || strings.Index(want, "?") == len(want)-1 || strings.HasSuffix(want, "&")):
			a.Mode = "query"
			rest = strings.TrimPrefix(rest, "&")
		case !hadQ && strings.HasPrefix(rest, "?"):
			a.Mode = "query"
			rest = rest[1:]
		case rest == "":
			a.Mode = "query"
		default:
			a.Problem = fmt.Sprintf("parameters joined to the redirect address by %q", firstN(rest, 3))
			return a
		}
		if strings.ContainsAny(rest, "#? \"<>") {
			a.Problem = "unescaped delimiter in appended parameters " + rest
			return a
		}
		if !isASCII(rest) {
			a.Problem = "non-ASCII bytes in appended parameters"
			return a
		}
		v, p := looseParams(rest)
		a.Params = v
		if p != "" {
			a.Problem = p
		}
	case rec.Status == http.StatusOK && strings.HasPrefix(rec.Sent.Get("Content-Type"), "text/html"):
		a.Kind = "form"
		a.Mode = "form_post"
		action, method, params, problem := parseForm(rec.Body.String())
		a.Target, a.Params = action, params
		if problem != "" {
			a.Problem = problem
		} else if method != "post" {
			a.Problem = "form method " + method
		} else if action != ruri {
			a.Problem = fmt.Sprintf("form action %q is not the redirect address %q", action, ruri)
		} else if cc := rec.Sent.Get("Cache-Control"); !strings.Contains(cc, "no-store") {
			a.Problem = "form response may be cached: " + cc
		}
	default:
		a.Problem = "neither redirect nor form: " + rec.String()
	}
	return a
}

func firstN(s string, n int) string {
	if len(s) < n {
		return s
	}
	return s[:n]
}
func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// asciiURI is how net/http puts an address with non-ASCII bytes into a header.
func asciiURI(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			fmt.Fprintf(&b, "%%%02x", s[i])
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func flat(v url.Values) map[string]string {
	m := map[string]string{}
	for k, vs := range v {
		if len(vs) == 1 {
			m[k] = vs[0]
		} else {
			m[k] = fmt.Sprintf("%d values %q", len(vs), vs)
		}
	}
	return m
}

// Header1 is the first header of that name.
func (q *Req) Header1(k string) string {
	for _, kv := range q.Header {
		if http.CanonicalHeaderKey(kv.K) == http.CanonicalHeaderKey(k) {
			return kv.V
		}
	}
	return ""
}
