package main

// C24: whatever the request, one well-formed answer, nothing granted undeservedly, and the endpoint goes on.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"mime/multipart"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
)

// wire is a request taken apart, to be put together wrongly.
type wire struct {
	method    string
	u         url.URL
	uri, host string
	header    http.Header
	body      []byte
	nobody    int // 1: nil body, 2: http.NoBody
	failAt    int // -1: the body reads to its end
	failWith  error
	length    int64
	cancelled bool
	proto     string
	muts      []string
}

type brokenBody struct {
	b    []byte
	at   int
	err  error
	step int
}

func (b *brokenBody) Read(p []byte) (int, error) {
	if b.at >= len(b.b) {
		return 0, b.err
	}
	n := len(p)
	if b.step > 0 && n > b.step {
		n = b.step
	}
	n = copy(p[:n], b.b[b.at:])
	b.at += n
	return n, nil
}
func (b *brokenBody) Close() error { return nil }

func (m *wire) build() *http.Request {
	r := httptest.NewRequest("GET", "/", nil)
	r.Method = m.method
	u := m.u
	r.URL = &u
	r.RequestURI = m.uri
	r.Host = m.host
	r.Header = m.header.Clone()
	r.Proto = m.proto
	r.ContentLength = m.length
	switch {
	case m.nobody == 1:
		r.Body = nil
		r.ContentLength = 0
	case m.nobody == 2:
		r.Body = http.NoBody
		r.ContentLength = 0
	case m.failAt >= 0:
		r.Body = &brokenBody{b: m.body[:m.failAt], err: m.failWith, step: 100}
	default:
		r.Body = io.NopCloser(bytes.NewReader(m.body))
	}
	if m.cancelled {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		r = r.WithContext(ctx)
	}
	return r
}

func nested(rng *Rng, n int) string {
	switch rng.N(3) {
	case 0:
		return strings.Repeat("[", n)
	case 1:
		return strings.Repeat("{\"a\":", n) + "1" + strings.Repeat("}", n)
	}
	return strings.Repeat("[", n) + strings.Repeat("]", n)
}

// junkJWT is something in the place of a JWT that no registered key signed.
func junkJWT(rng *Rng) string {
	seg := func(s string) string { return rawURL.EncodeToString([]byte(s)) }
	hdr := func() string {
		switch rng.N(6) {
		case 0:
			return mustJSON(map[string]interface{}{"alg": rng.pickAny([]interface{}{nil, 1, 1.5, true, []int{}, map[string]int{}, "", "none", "HS256", "RS256", "ES256", "PS512", strings.Repeat("A", 5000), rng.HostileText()}),
				"kid": rng.pickAny([]interface{}{nil, 1, true, []string{"a1"}, map[string]string{"a": "b"}, "", "a1", rng.HostileText(), strings.Repeat("k", 70000)}), "typ": rng.pickAny([]interface{}{nil, 7, "JWT", []int{1}})})
		case 1:
			return nested(rng, 1+rng.N(20000))
		case 2:
			return rng.Pick([]string{"null", "true", "0", "\"\"", "[]", "{}", "", "{\"alg\":\"HS256\",\"alg\":\"none\"}", "{\"alg\":\"HS256\"}{}", "{\"ALG\":\"HS256\"}", "\xff\xfe", "{\"kid\":\"a1\"}"})
		case 3:
			return "{\"alg\":" + rng.Pick([]string{"1e999", "-0", "1e-999", "99999999999999999999999", "\"\\ud800\"", "\"\\u0000\""}) + "}"
		case 4:
			return mustJSON(map[string]interface{}{"alg": rng.Pick(allAlgs), "kid": rng.Pick([]string{"a1", "b2", ""}), "crit": []string{"x"}, "b64": false, "jwk": map[string]string{"kty": "oct", "k": "AA"}, "jku": "http://127.0.0.1:1/", "x5u": "http://127.0.0.1:1/"})
		}
		return mustJSON(map[string]interface{}{"alg": rng.Pick(allAlgs), "kid": rng.Pick([]string{"a1", "a2", "b1", ""})})
	}
	claims := func() string {
		switch rng.N(5) {
		case 0:
			return nested(rng, 1+rng.N(20000))
		case 1:
			return rng.Pick([]string{"null", "true", "0", "\"\"", "[]", "{}", "", "{\"sub\":null}", "{\"sub\":{}}", "{\"sub\":[]}", "{\"exp\":1e999}", "{\"exp\":\"x\"}", "{\"aud\":{}}", "{\"sub\":\"a\",\"sub\":\"b\"}", "\x00"})
		}
		m := map[string]interface{}{}
		for _, k := range []string{"sub", "iss", "aud", "exp", "nbf", "iat", "jti", "nonce"} {
			if rng.P(60) {
				m[k] = rng.pickAny([]interface{}{nil, 0, -1, 1, 1.5, 9007199254740993, -9007199254740993, 4102444800, true, "", "x", rng.HostileText(), []int{1}, []string{"a"}, map[string]int{"a": 1}, strings.Repeat("z", 3000), "https://issuer.example.org"})
			}
		}
		return mustJSON(m)
	}
	switch rng.N(8) {
	case 0:
		return strings.Repeat(".", 1+rng.N(5000))
	case 1:
		return rng.Pick([]string{"", ".", "..", "...", "a.b.c", "....", "e30.e30.", "e30.e30", "=.=.=", "\x00.\x00.\x00", "Bearer e30.e30.e30", "e30.e30.e30.e30", " . . "})
	case 2:
		return strings.Repeat("a", 1+rng.N(200000))
	case 3:
		return rng.Hostile() + "." + rng.Hostile() + "." + rng.Hostile()
	}
	return seg(hdr()) + "." + seg(claims()) + "." + rng.Pick([]string{"", "AA", "A", "!", rng.Str(43), rng.Str(86), strings.Repeat("A", 342), strings.Repeat("_", 100000)})
}

func junkValue(rng *Rng) string {
	switch rng.N(9) {
	case 8:
		return rng.Separators()
	case 0:
		return strings.Repeat(rng.Pick([]string{"a", "%", " ", "é", "\x00", "'", "\"", "\\", "\n"}), 1+rng.N(60000))
	case 1:
		return strings.Repeat("openid ", 1+rng.N(5000))
	case 2:
		return rng.Pick([]string{"-9223372036854775808", "9223372036854775807", "9223372036854775808", "99999999999999999999", "1e3", "0x10", "+5", "-0", " 5", "5 ", "٣"})
	case 3:
		return junkJWT(rng)
	case 4:
		return strings.Repeat("none login consent select_account ", 1+rng.N(300))
	case 5:
		return rng.Pick([]string{"http://", "://", "https://[::1", "https://a b/", "//x", "?", "#", "javascript:alert(1)", "https://app.example.org:99999999/", "data:,", "\\\\x", "https://app.example.org/cb%"})
	}
	return rng.Hostile()
}

func junkHeader(rng *Rng) KV {
	k := rng.Pick([]string{"Authorization", "Authorization", "Authorization", "Content-Type", "X-OAUTH-USER-ID", "X-OAUTH-SCOPE", "X-OAUTH-CLIENT-ID", "Cookie", "X-Http-Method-Override", "Content-Length",
		"Transfer-Encoding", "Content-Encoding", "Accept", "Origin", "Referer", "Expect", "X-Forwarded-Proto", "If-None-Match", "Range", "Upgrade", "Connection", "Host"})
	v := rng.Hostile()
	if k == "Authorization" {
		v = rng.Pick([]string{"", " ", "Basic", "Basic ", "Basic  ", "Basic =", "Basic ====", "Basic " + b64(":"), "Basic " + b64(""), "Basic " + b64("a"), "Basic " + b64("::"), "Basic " + b64("\x00:\x00"), "Basic " + b64("\xff:\xfe"),
			"Basic " + b64(strings.Repeat("a", 50000)+":"+strings.Repeat("b", 50000)), "Basic " + strings.Repeat("/", 10000), "Bearer", "Bearer ", "Bearer  ", "bearer \t", "Bearer " + strings.Repeat("a", 100000), "Bearer a b c", "B", "Bea", "BearerBearer",
			"Digest username=\"a\"", "Basic " + b64("a:b") + ", Bearer x", "Bearer " + rng.Hostile(), "Basic " + rng.Hostile(), rng.Hostile(), "Bearer\u00a0x", "ＢＥＡＲＥＲ x", "Basic\n" + b64("a:b"), "Bearer \x00", "ſearer x"})
	}
	return KV{k, v}
}

// mangle takes a request apart and puts it together differently.
func mangle(rng *Rng, q *Req) *wire {
	r := q.Build()
	body, _ := io.ReadAll(r.Body)
	m := &wire{method: r.Method, u: *r.URL, uri: r.RequestURI, host: r.Host, header: r.Header.Clone(), body: body, failAt: -1, length: int64(len(body)), proto: "HTTP/1.1"}
	params := append(append([]KV{}, q.Body...), q.Query...)
	hasJWT := false
	for _, kv := range params {
		hasJWT = hasJWT || strings.Contains(kv.K, "assertion") || kv.K == "id_token_hint"
	}
	setBody := func(s string) { m.body, m.length = []byte(s), int64(len(s)) }
	for n := 1 + rng.N(3); n > 0; n-- {
		k := rng.Pick([]string{"method", "path", "url", "query-junk", "query-dup", "query-big", "ctype", "multipart", "multipart-broken", "json", "cut", "fail", "flip", "big", "nobody", "value", "value", "value", "jwt", "jwt",
			"header", "header", "header", "chunked", "cancelled", "length", "proto", "drop", "swap", "semicolons", "junk-body", "all-junk"})
		m.muts = append(m.muts, k)
		switch k {
		case "method":
			m.method = rng.Pick([]string{"GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "TRACE", "CONNECT", "PATCH", "PROPFIND", "get", "pOST", "X", strings.Repeat("M", 3000), "POST2", "PRI"})
		case "path":
			m.u.Path = rng.Pick([]string{"", "*", "/", "//", "/../../etc", "/%00", "/\xff\xfe", "/" + strings.Repeat("a/", 5000), "relative", "/\x00", "/a\nb", "/日本"})
			m.u.RawPath = rng.Pick([]string{"", "/%2f", "%"})
		case "url":
			switch rng.N(3) {
			case 0:
				m.u.Scheme, m.u.Host = "http", rng.Pick([]string{"evil.example", "[::1]:80", "", "a:b@c"})
			case 1:
				m.u.Opaque = rng.Pick([]string{"x:y", "//x/y", "*"})
			default:
				m.u.Fragment = rng.Hostile()
				m.uri = rng.Hostile()
			}
			m.host = rng.Pick([]string{"", "op.example.org", "evil.example", "a b", "[::1]", strings.Repeat("h", 3000)})
		case "query-junk":
			m.u.RawQuery += rng.Pick([]string{"&", "%", "&%zz=1", "&=", "&&&&", "&a", "&=b", "&\xff=\xfe", "&%ff=%fe", "&x=%", "&x=%0", "&\x00", "&a[]=1&a[]=2", "&a=b=c=d", "&%00=%00", "#f", "?", "+", "&" + rng.Hostile(), strings.Repeat("&", 10000)})
		case "query-dup":
			if len(params) > 0 {
				kv := params[rng.N(len(params))]
				for i := 1 + rng.N(20); i > 0; i-- {
					m.u.RawQuery = url.QueryEscape(kv.K) + "=" + url.QueryEscape(rng.Pick([]string{kv.V, "", rng.NearMiss(kv.V)})) + "&" + m.u.RawQuery
				}
			}
		case "query-big":
			var b strings.Builder
			for i := 0; i < 2000; i++ {
				fmt.Fprintf(&b, "&p%d=%s", i, strings.Repeat("v", rng.N(30)))
			}
			m.u.RawQuery += b.String()
		case "ctype":
			m.header["Content-Type"] = []string{rng.Pick([]string{"", "text/plain", "application/json", "multipart/form-data", "multipart/form-data; boundary=", "multipart/mixed; boundary=x", "multipart/form-data; boundary=" + strings.Repeat("b", 100),
				"application/x-www-form-urlencoded; charset=utf-16", "application/x-www-form-urlencoded; x=\"", "application/x-www-form-urlencoded;;;", "/", ";", "APPLICATION/X-WWW-FORM-URLENCODED", "application/x-www-form-urlencoded, text/plain", "multipart/form-data; boundary=\"a\r\nb\"", rng.Hostile()})}
			if rng.P(20) {
				m.header.Add("Content-Type", "application/x-www-form-urlencoded")
			}
		case "multipart", "multipart-broken":
			var b bytes.Buffer
			mw := multipart.NewWriter(&b)
			for _, kv := range params {
				if rng.P(10) {
					if f, err := mw.CreateFormFile(kv.K, rng.Pick([]string{"f", "../../f", "a\x00b"})); err == nil {
						f.Write([]byte(kv.V))
					}
					continue
				}
				mw.WriteField(kv.K, kv.V)
			}
			if rng.P(20) {
				for i := 0; i < 1200; i++ {
					mw.WriteField(fmt.Sprint("p", i), "v")
				}
			}
			mw.Close()
			s := b.String()
			if k == "multipart-broken" {
				switch rng.N(4) {
				case 0:
					s = s[:rng.N(len(s)+1)]
				case 1:
					s = strings.Replace(s, "\r\n", "\n", rng.N(5))
				case 2:
					s = strings.Replace(s, "form-data", rng.Pick([]string{"attachment", "", "form-data; name=\"", "form-data; name=x; name=y"}), 1+rng.N(3))
				default:
					s = strings.Repeat("\r\n--"+mw.Boundary(), 500) + s
				}
			}
			setBody(s)
			m.header["Content-Type"] = []string{mw.FormDataContentType()}
		case "json":
			o := map[string]string{}
			for _, kv := range params {
				o[kv.K] = kv.V
			}
			setBody(mustJSON(o))
			m.header["Content-Type"] = []string{"application/json"}
		case "cut":
			if len(m.body) > 0 {
				m.body = m.body[:rng.N(len(m.body))]
			}
			if rng.Bool() {
				m.length = int64(len(m.body))
			}
		case "fail":
			m.failAt = rng.N(len(m.body) + 1)
			m.failWith = []error{io.ErrUnexpectedEOF, errors.New("connection reset by peer"), context.Canceled, &net.OpError{Op: "read", Err: errors.New("i/o timeout")}, &http.MaxBytesError{Limit: 1}}[rng.N(5)]
		case "flip":
			if !hasJWT && len(m.body) > 0 {
				for i := 1 + rng.N(4); i > 0; i-- {
					m.body[rng.N(len(m.body))] = byte(rng.N(256))
				}
			}
		case "big":
			if rng.P(15) {
				s := string(m.body) + "&pad=" + strings.Repeat("x", 11<<20)
				setBody(s)
			} else {
				setBody(strings.Repeat("pad=x&", 20000) + string(m.body))
			}
		case "nobody":
			m.nobody = 1 + rng.N(2)
		case "value", "jwt":
			if len(params) == 0 {
				continue
			}
			i := rng.N(len(params))
			v := junkValue(rng)
			if k == "jwt" {
				for try := 0; try < 10 && !(strings.Contains(params[i].K, "assertion") && params[i].K != "client_assertion_type" || params[i].K == "id_token_hint"); try++ {
					i = rng.N(len(params))
				}
				v = junkJWT(rng)
			}
			nq := q.Clone()
			nq.RawBody, nq.RawQuery = nil, nil
			if i < len(nq.Body) {
				nq.Body[i].V = v
			} else if i-len(nq.Body) < len(nq.Query) {
				nq.Query[i-len(nq.Body)].V = v
			}
			setBody(encodeKV(nq.Body))
			m.u.RawQuery = encodeKV(nq.Query)
			q = nq
			params = append(append([]KV{}, q.Body...), q.Query...)
		case "header":
			for i := 1 + rng.N(3); i > 0; i-- {
				kv := junkHeader(rng)
				switch rng.N(3) {
				case 0:
					m.header[kv.K] = append(m.header[kv.K], kv.V)
				case 1:
					m.header[kv.K] = append([]string{kv.V}, m.header[kv.K]...)
				default:
					m.header[kv.K] = []string{kv.V}
				}
			}
			if rng.P(5) {
				m.header["Authorization"] = []string{}
			}
		case "chunked":
			m.length = -1
			m.header["Transfer-Encoding"] = []string{"chunked"}
		case "cancelled":
			m.cancelled = true
		case "length":
			m.length = rng.PickI([]int64{-1, 0, 1, 5, 1 << 40})
		case "proto":
			m.proto = rng.Pick([]string{"HTTP/1.0", "HTTP/2.0", "HTTP/0.9", ""})
		case "drop":
			if rng.Bool() {
				m.header = http.Header{}
			} else {
				m.u.RawQuery = ""
			}
		case "swap": // body and query change places
			b := string(m.body)
			if len(b) < 100000 {
				setBody(m.u.RawQuery)
				m.u.RawQuery = b
			}
		case "semicolons":
			setBody(strings.ReplaceAll(string(m.body), "&", ";"))
		case "junk-body":
			setBody(rng.Pick([]string{"%", "%%%", "&", "=", "a=%zz", "\x00\x00", "{", "[]", "<xml/>", "a=1;b=2", rng.Hostile(), junkValue(rng)}))
		case "all-junk":
			m.u.RawQuery = url.QueryEscape(rng.Pick([]string{"client_id", "grant_type", "access_token", "scope"})) + "=" + url.QueryEscape(junkValue(rng)) + "&" + rng.Hostile()
			setBody(rng.Hostile())
		}
	}
	if m.failAt > len(m.body) {
		m.failAt = len(m.body)
	}
	return m
}

// weakTok is what must hold for any token request.
func weakTok(c *Case, tc *TokCase, e *TokExpect, rec *Rec, calls []*Call) string {
	if rec.Panic != "" {
		c.Violate("*", "token endpoint panicked: %s\n%s", rec.Panic, firstN(rec.Stack, 3000))
		return "panic"
	}
	if rec.Statuses != 1 {
		c.Violate("C24", "status sent %d times: %s", rec.Statuses, rec)
		return "odd"
	}
	refuse := e.NotPost || len(e.Conds) > 0
	if refuse {
		if carriesTokens(rec) || rec.Status < 400 {
			c.Violate("C24 C01 C29", "answered with %s although: %s", rec, e.names())
		}
		if !e.MayCreate {
			for _, k := range calls {
				if hasWord(strings.Join(creations, " ")+" DisableSession", k.Method) {
					c.Violate("C24 C29", "%s although: %s", k, e.names())
				}
			}
		}
	}
	if e.NotPost {
		return "405"
	}
	if ct := rec.Sent.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
		c.Violate("C24 C09", "Content-Type %q: %s", ct, rec)
	}
	body, problem := strictObject(rec.Body.Bytes())
	if problem != "" {
		c.Violate("C24 C31", "body is %s: %s", problem, rec)
		return "odd"
	}
	if !validUTF8(rec.Body.String()) {
		c.Violate("C24 C31", "body is not UTF-8: %s", rec)
	}
	code, isErr := body["error"].(string)
	if isErr {
		if _, known := tokenErrorCodes[code]; !known || rec.Status < 400 {
			c.Violate("C24 C31", "error %q: %s", code, rec)
		}
		return code
	}
	if _, ok := body["access_token"].(string); !ok || rec.Status != 200 {
		c.Violate("C24", "neither tokens nor an error: %s", rec)
	}
	return "granted"
}

// weakAuth is what must hold for any authorization request.
func weakAuth(c *Case, ac *AuthCase, e *AuthExpect, rec *Rec, calls []*Call, screens []Screen) string {
	if rec.Panic != "" {
		c.Violate("*", "authorization endpoint panicked: %s\n%s", rec.Panic, firstN(rec.Stack, 3000))
		return "panic"
	}
	n := len(screens)
	if rec.Touched() {
		n++
	}
	if n != 1 {
		c.Violate("C24", "%d outcomes: screens %v, response %s", n, screens, rec)
		return "odd"
	}
	got := "response"
	if len(screens) == 1 {
		got = screens[0].Kind
	}
	made := created(calls)
	if e.Screens != nil {
		if got != "error" || made != nil {
			c.Violate("C24 C11", "outcome %s (%v) for an unapproved client or address: %s", got, made, rec)
		}
		return got
	}
	switch got {
	case "error":
		return got
	case "login", "consent":
		if made != nil {
			c.Violate("C24 C14", "%s although the %s screen was shown", made, got)
		}
		if e.Want == "error" || got == "consent" && e.Want == "login" {
			c.Violate("C24", "%s screen where %s is due: %s", got, e.Want, e.names())
		}
		return got
	}
	a := ParseAuthResp(rec, e.URI)
	if a.Problem != "" {
		c.Violate("C24 C18", "%s", a.Problem)
		return "odd"
	}
	if len(a.Params["error"]) == 1 && len(a.Params["code"])+len(a.Params["access_token"])+len(a.Params["id_token"]) == 0 {
		if made != nil && !e.MayCreate && e.Want != "complete" {
			c.Violate("C24", "%s although: %s", made, e.names())
		}
		return "error-response"
	}
	if e.Want != "complete" {
		c.Violate("C24 C29", "a response where %s is due (%s): %s", e.Want, e.names(), rec)
	}
	return "complete"
}

func weakRP(c *Case, rc *RPCase, e *RPExpect, ok bool, rec *Rec, r *http.Request) string {
	if rec.Panic != "" {
		c.Violate("*", "resource protector panicked: %s\n%s", rec.Panic, firstN(rec.Stack, 3000))
		return "panic"
	}
	if ok {
		if rec.Statuses+rec.Writes > 0 {
			c.Violate("C24 C21", "a response was written for a request let through: %s", rec)
		}
		if !e.Pass {
			c.Violate("C24 C21 C29", "let through although: %s", e.Why)
			return "odd"
		}
		for h, want := range map[string]string{"X-Oauth-User-Id": fmt.Sprint(e.Info.UserID), "X-Oauth-Client-Id": e.Info.ClientID, "X-Oauth-Scope": e.Info.Scope} {
			if vs := r.Header.Values(h); len(vs) != 1 || vs[0] != want {
				c.Violate("C24 C21", "%s is %q, want %q", h, vs, want)
			}
		}
		return "passed"
	}
	if rec.Statuses != 1 {
		c.Violate("C24", "status sent %d times for a refused request", rec.Statuses)
		return "odd"
	}
	wa := rec.Sent["Www-Authenticate"]
	if len(wa) != 1 {
		c.Violate("C24", "WWW-Authenticate %q: %s", wa, rec)
		return "odd"
	}
	p, problem := parseChallenge(wa[0])
	if problem != "" || rpStatus[p["error"]] != rec.Status {
		c.Violate("C24 C31", "challenge %q with status %d: %s", wa[0], rec.Status, problem)
	}
	return p["error"]
}

func runHostileRequests(x *Ctx, gen string, n int) {
	x.Run(gen, n, func(c *Case) {
		rng := c.Rng
		c.Any = true
		w := GenWorld(rng)
		cfg := genTokCfg(rng)
		cfg.Grants, cfg.Assert = allGrants, true
		pol := genPolicy(rng)
		rpc := &RPCase{W: w, Realm: rng.Pick([]string{"example.org", "My Realm", ""}), Accept: goidc.CredentialAcceptanceMethod(rng.N(3)), URIMode: rng.N(3), URIConst: "https://err.example.org/"}
		if rng.P(20) {
			rpc.Realm, rpc.URIConst = longRealm(rng, rpc.Realm), longURI(rng)
		}
		th := cfg.Endpoint(w).Handler(&DI{w})
		ae := (&AuthCase{W: w, Pol: pol}).Endpoint()
		rp := rpc.Protector()
		sig := ""
		const per = 6
		for i := 0; i < per && !c.bad; i++ {
			// hostile
			hostile := i < per-1 || rng.Bool()
			kind := []string{"token", "authorize", "resource"}[rng.N(3)]
			var tc *TokCase
			var ac *AuthCase
			var rc *RPCase
			setJWTClock(w)
			ownPeople(rng, w, i, func() {
				for try := 0; ; try++ {
					switch kind {
					case "token":
						k := *cfg
						tc = &TokCase{W: w, Cfg: &k, Asserts: map[string]*Assertion{}}
						GenTokReq(rng, tc, "", nil)
						if hostile || try > 50 || len(tc.Muts) == 0 {
							tc.Cfg = cfg
							return
						}
					case "authorize":
						ac = GenAuthReq(rng, &AuthCase{W: w, Pol: pol}, nil)
						return
					default:
						k := *rpc
						rc = &k
						GenRPReq(rng, rc, rng.Bool(), nil)
						return
					}
				}
			})
			var q *Req
			switch kind {
			case "token":
				q = tc.Req
			case "authorize":
				q = ac.Req
			default:
				q = rc.Req
			}
			var m *wire
			var mp *wire // for the consent answer
			if hostile {
				m = mangle(rng, q)
				q.Raw = m.build
				sig += kind + strings.Join(m.muts, ",") + ";"
				for _, k := range m.muts {
					c.Count("mangle." + k)
				}
			}
			var rec *Rec
			c.DescFn = func() []string {
				d := w.describe()
				switch kind {
				case "token":
					d = append(d, tc.describe()...)
				case "authorize":
					d = append(d, ac.describe()...)
				default:
					d = append(d, rc.describe()...)
				}
				if m != nil {
					d = append(d, fmt.Sprintf("mangled %q: %s %q?%q host %q headers %s length %d fail at %d body %q", m.muts, firstN(m.method, 50), firstN(m.u.Path, 200), firstN(m.u.RawQuery, 2000), firstN(m.host, 100),
						firstN(fmt.Sprintf("%q", m.header), 3000), m.length, m.failAt, firstN(string(m.body), 3000)))
				}
				if rec != nil {
					d = append(d, "response "+rec.String())
				}
				return d
			}
			c.Count(kind)
			pre := w.Snapshot()
			// after judges a correct request; what goes wrong on a fresh endpoint as well isn't for having served others
			after := func(judge func(), fresh func(w2 *World)) {
				nv, cnt := len(c.R.Violations), c.R.Counters["violations"]
				judge()
				if c.bad && c.Probe(func() {
					w2 := pre.Snapshot()
					setJWTClock(w2)
					fresh(w2)
				}) {
					c.R.Violations, c.bad = c.R.Violations[:nv], false
					c.R.Counters["violations"] = cnt
					c.Count("other.fresh")
				}
				setJWTClock(w)
			}
			switch kind {
			case "token":
				e := tc.Expect(pre.Snapshot())
				var calls []*Call
				rec, calls = tc.Serve(th)
				if hostile {
					out := weakTok(c, tc, e, rec, calls)
					c.Count("hostile.token." + out)
				} else {
					after(func() { tc.JudgeTok(c, e, rec, calls) }, func(w2 *World) {
						t := *tc
						t.W = w2
						r2, k2 := t.Serve(cfg.Endpoint(w2).Handler(&DI{w2}))
						t.JudgeTok(c, e, r2, k2)
					})
					c.Count("after.token")
				}
			case "authorize":
				if hostile && ac.Hint != nil && q.Build().FormValue("id_token_hint") != ac.Hint.Raw {
					ac.Hint = &Assertion{Malformed: true}
				}
				e := ac.Expect()
				var calls []*Call
				var screens []Screen
				rec, calls, screens = ac.Handle(ae)
				out := ""
				if hostile {
					out = weakAuth(c, ac, e, rec, calls, screens)
					c.Count("hostile.authorize." + out)
				} else {
					after(func() { out = ac.JudgeHandle(c, e, rec, calls, screens) }, func(w2 *World) {
						a := *ac
						cb := *ac.Cb
						cb.w, cb.Screens, cb.Parked = w2, nil, nil
						a.W, a.Cb = w2, &cb
						r2, k2, s2 := a.Handle(a.Endpoint())
						a.JudgeHandle(c, e, r2, k2, s2)
					})
					c.Count("after.authorize")
				}
				if out != "consent" || c.bad {
					break
				}
				parked := screens[0].Req
				if utf8Req(parked) {
					parked = authorization.DecodeRequest(parked.Encode())
				}
				ac.Cb.Parked = parked
				mp = mangle(rng, &Req{Method: "POST", Path: "/consent", Body: []KV{{"answer", "x"}, {"state", "other"}, {"redirect_uri", "https://evil.example/"}}})
				save := ac.Req
				ac.Req = &Req{Raw: mp.build}
				if rng.Bool() {
					rec, calls, screens = ac.call(func(rec *Rec, r *http.Request) { ae.CancelRequest(rec, r, ac.Cb) })
					if rec.Panic != "" {
						c.Violate("*", "CancelRequest panicked: %s", rec.Panic)
					} else if created(calls) != nil || len(screens) > 0 {
						c.Violate("C24", "a cancelled request led to %v, screens %v", created(calls), screens)
					} else if a := ParseAuthResp(rec, parked.RedirectURI); a.Problem != "" || len(a.Params["error"]) != 1 {
						c.Violate("C24", "cancellation answered with %s (%s)", rec, a.Problem)
					}
					c.Count("hostile.cancel")
				} else {
					cl := w.Clients[parked.ClientId]
					if cl == nil {
						break
					}
					rec, calls, screens = ac.call(func(rec *Rec, r *http.Request) { ae.CompleteRequest(rec, r, ac.Cb) })
					if len(screens) > 0 {
						c.Violate("C24", "CompleteRequest showed %v", screens)
					}
					ac.JudgeComplete(c, &CompleteExpect{Req: parked, UserID: ac.Cb.UserID, Client: cl, Unsigned: parked.Flow.RequireIdToken && cl.unsignable()}, rec, calls)
					c.Count("hostile.complete")
				}
				ac.Req = save
			default:
				e := rc.Expect()
				var r *http.Request
				var calls []*Call
				var ok bool
				ok, rec, r, calls = rc.Serve(rp)
				if hostile {
					c.Count("hostile.resource." + weakRP(c, rc, e, ok, rec, r))
				} else {
					after(func() { rc.JudgeRP(c, e, ok, rec, r, calls) }, func(w2 *World) {
						k := *rc
						k.W = w2
						ok2, rec2, r2, k2 := k.Serve(k.Protector())
						k.JudgeRP(c, e, ok2, rec2, r2, k2)
					})
					c.Count("after.resource")
				}
			}
		}
		c.Nontrivial(sig)
		c.Sample()
		c.Any = false
	})
}

// soakKinds lists what is repeated: "endpoint deviation" or "endpoint !failing-method".
func soakKinds() []string {
	var out []string
	for _, d := range dimsCommon {
		out = append(out, "token "+d)
	}
	for _, d := range dimsAssert {
		out = append(out, "token "+d)
	}
	for _, gt := range allGrants {
		for _, d := range dimsOf[gt] {
			out = append(out, "token "+d+" "+gt)
		}
		out = append(out, "token  "+gt)
	}
	for _, m := range []string{"FindClientById", "FindAuthSessionByCode", "FindActiveAuthInfoById", "FindOAuthTokenByRefreshToken", "CreateOAuthToken", "RefreshAccessToken", "CreateOrUpdateAuthInfo", "DisableSession", "RecordAssertionClaims", "FindUserId", "FindUserIdBySubject"} {
		out = append(out, "token !"+m)
	}
	for _, d := range append(append([]string{""}, authDims1...), authDims2...) {
		out = append(out, "authorize "+d)
	}
	for _, m := range []string{"FindClientById", "FindAuthInfoByUserIdAndClientId", "CreateOAuthToken", "CreateAuthSession", "ShowLoginScreen", "ShowConsentScreen", "ChooseLocale", "ConfirmLoginSession", "RequestIsFromLogin", "GetAuthTime", "GetLoginUserId",
		"CreateAuthorizationCode", "LoginUserIsMatchedToSubject"} {
		out = append(out, "authorize !"+m)
	}
	for _, d := range append([]string{""}, rpDims...) {
		out = append(out, "resource "+d)
	}
	for _, m := range []string{"FindOAuthTokenByAccessToken", "FindActiveAuthInfoById"} {
		out = append(out, "resource !"+m)
	}
	return out
}

// runSoak repeats one kind of request on one endpoint many times over: nothing it does may use the endpoint up.
func runSoak(x *Ctx, gen string, reps int) {
	kinds := soakKinds()
	x.Run(gen, len(kinds), func(c *Case) {
		rng := c.Rng
		f := strings.Split(kinds[c.Index], " ")
		var focus []string
		fault, gt := "", ""
		if strings.HasPrefix(f[1], "!") {
			fault = f[1][1:]
		} else if f[1] != "" {
			focus = []string{f[1]}
		}
		if len(f) > 2 {
			gt = f[2]
		}
		cfg := genTokCfg(rng)
		cfg.Grants, cfg.Assert = allGrants, true
		pol := genPolicy(rng)
		di, lg := &DI{}, &Logger{}
		rpc := &RPCase{W: nil, Realm: "r", Accept: goidc.CredentialAcceptanceMethod(rng.N(3)), URIMode: rng.N(3), URIConst: "https://err.example.org/"}
		th := cfg.EndpointOn(lg).Handler(di)
		ae := (&AuthCase{Pol: pol}).EndpointOn(di, lg)
		rp := rpc.ProtectorOn(lg)
		hits := 0
		for i := 0; i < reps && !c.bad; i++ {
			c.Beat()
			w := GenWorld(rng)
			if fault != "" {
				w.Faults[fault] = rng.Pick(faultKinds(fault))
			}
			di.w, lg.w = w, w
			var again func() // judges the same on a fresh endpoint
			var judge func()
			var tell func() []string
			var rec *Rec
			setJWTClock(w)
			switch f[0] {
			case "token":
				k := *cfg
				tc := &TokCase{W: w, Cfg: &k, Asserts: map[string]*Assertion{}}
				GenTokReq(rng, tc, gt, focus)
				tc.Cfg = cfg
				if len(focus) == 0 || has(tc.Muts, focus[0]) {
					hits++
				}
				pre := w.Snapshot()
				e := tc.Expect(pre.Snapshot())
				var calls []*Call
				rec, calls = tc.Serve(th)
				tell = tc.describe
				judge = func() { tc.JudgeTok(c, e, rec, calls) }
				again = func() {
					t := *tc
					t.W = pre
					r2, k2 := t.Serve(cfg.Endpoint(pre).Handler(&DI{pre}))
					t.JudgeTok(c, e, r2, k2)
				}
			case "authorize":
				ac := GenAuthReq(rng, &AuthCase{W: w, Pol: pol}, focus)
				if len(focus) == 0 || has(ac.Muts, focus[0]) {
					hits++
				}
				pre := w.Snapshot()
				e := ac.Expect()
				var calls []*Call
				var screens []Screen
				rec, calls, screens = ac.Handle(ae)
				if len(screens) == 1 && screens[0].Kind == "consent" && rec.Panic == "" && utf8Req(screens[0].Req) {
					ac.Cb.Parked = screens[0].Req
					save := ac.Req
					ac.Req = &Req{Method: "POST", Path: "/consent", Body: []KV{{"answer", "x"}}}
					r2, _, _ := ac.call(func(rec *Rec, r *http.Request) {
						if rng.Bool() {
							ae.CompleteRequest(rec, r, ac.Cb)
						} else {
							ae.CancelRequest(rec, r, ac.Cb)
						}
					})
					ac.Req = save
					if r2.Panic != "" {
						c.Violate("*", "panic after consent: %s", r2.Panic)
					} else if r2.Statuses != 1 && fault == "" {
						c.Violate("C24", "consent answered by %d responses", r2.Statuses)
					}
				}
				tell = ac.describe
				judge = func() { ac.JudgeHandle(c, e, rec, calls, screens) }
				again = func() {
					a := *ac
					cb := *ac.Cb
					cb.w, cb.Screens, cb.Parked = pre, nil, nil
					a.W, a.Cb = pre, &cb
					r2, k2, s2 := a.Handle(a.Endpoint())
					a.JudgeHandle(c, e, r2, k2, s2)
				}
			default:
				k := *rpc
				rc := &k
				rc.W = w
				GenRPReq(rng, rc, rng.Bool(), focus)
				if len(focus) == 0 || has(rc.Muts, focus[0]) {
					hits++
				}
				pre := w.Snapshot()
				e := rc.Expect()
				var r *http.Request
				var calls []*Call
				var ok bool
				ok, rec, r, calls = rc.Serve(rp)
				tell = rc.describe
				judge = func() { rc.JudgeRP(c, e, ok, rec, r, calls) }
				again = func() {
					k := *rc
					k.W = pre
					ok2, rec2, r2, k2 := k.Serve(k.Protector())
					k.JudgeRP(c, e, ok2, rec2, r2, k2)
				}
			}
			n := i
			c.DescFn = func() []string {
				return append(append(append([]string{fmt.Sprintf("request %d of its kind: %s", n+1, kinds[c.Index])}, w.describe()...), tell()...), "response "+rec.String())
			}
			c.Count("soak." + f[0])
			if rec.Panic != "" {
				c.Violate("*", "panic: %s\n%s", rec.Panic, firstN(rec.Stack, 3000))
				return
			}
			if fault != "" {
				if rec.Statuses > 1 {
					c.Violate("C24", "status sent %d times: %s", rec.Statuses, rec)
				}
				continue
			}
			if c.Probe(judge) {
				if c.Probe(again) {
					c.Count("other.fresh")
				} else {
					c.Any = true
					judge()
					c.Any = false
				}
			}
		}
		if hits > reps/3 {
			c.Count("soak.kinds")
		}
		c.Nontrivial(kinds[c.Index])
	})
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- over real connections

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) { s.mu.Lock(); defer s.mu.Unlock(); return s.b.Write(p) }
func (s *syncBuf) String() string              { s.mu.Lock(); defer s.mu.Unlock(); return s.b.String() }

// rawRequest is the text of a request, possibly not quite one.
func rawRequest(rng *Rng, q *Req, path string) (string, []string) {
	body := encodeKV(q.Body)
	query := encodeKV(q.Query)
	target := path
	if query != "" {
		target += "?" + query
	}
	method, proto, cl := q.Method, "HTTP/1.1", fmt.Sprint(len(body))
	hdr := ""
	for _, kv := range q.Header {
		hdr += kv.K + ": " + kv.V + "\r\n"
	}
	ct := "application/x-www-form-urlencoded"
	te := ""
	var muts []string
	for n := 1 + rng.N(2); n > 0; n-- {
		k := rng.Pick([]string{"target", "proto", "length", "chunked", "chunked-broken", "header", "header", "nul", "lf", "method", "no-host", "cut", "pipeline", "expect", "query", "ct", "body", "huge-header"})
		muts = append(muts, k)
		switch k {
		case "target":
			target = rng.Pick([]string{"http://op.example.org" + path, "//op.example.org" + path, path + "%", path + "?%zz=%", "*", "/" + strings.Repeat("../", 30) + "token", path + "?" + strings.Repeat("a=b&", 3000), path + "#x", path + ";a=b", strings.TrimPrefix(path, "/"), path + "?\xff=\xfe"})
		case "proto":
			proto = rng.Pick([]string{"HTTP/1.0", "HTTP/0.9", "HTTP/2.0", "", "HTTP/1.1 x", "ICY/1.0"})
		case "length":
			cl = rng.Pick([]string{"0", "1", "-1", "5, 5", "abc", "99999999", "99999999999999999999", "", " 3"})
		case "chunked", "chunked-broken":
			te = "Transfer-Encoding: chunked\r\n"
			b := ""
			for rest := body; ; {
				k := 1 + rng.N(40)
				if k > len(rest) {
					k = len(rest)
				}
				b += fmt.Sprintf("%x\r\n%s\r\n", k, rest[:k])
				rest = rest[k:]
				if k == 0 {
					break
				}
			}
			if k == "chunked-broken" {
				b = strings.Replace(b, "\r\n", rng.Pick([]string{"\n", "", ";x=y\r\n", "zz\r\n"}), 1+rng.N(3))
			}
			body, cl = b, ""
		case "header":
			kv := junkHeader(rng)
			hdr += kv.K + ": " + firstN(kv.V, 3000) + "\r\n"
		case "huge-header":
			hdr += "X-Big: " + strings.Repeat("x", 1000*(1+rng.N(1200))) + "\r\n"
		case "nul":
			hdr += "X-Nul: a\x00b\r\n"
		case "lf":
			hdr = strings.ReplaceAll(hdr, "\r\n", "\n")
		case "method":
			method = rng.Pick([]string{"GET", "HEAD", "OPTIONS", "CONNECT", "post", "P\x00ST", "", "DELETE"})
		case "expect":
			hdr += "Expect: " + rng.Pick([]string{"100-continue", "200-ok"}) + "\r\n"
		case "query":
			target += rng.Pick([]string{"?", "&"}) + strings.Map(func(r rune) rune {
				if r == ' ' || r == '\r' || r == '\n' {
					return '_'
				}
				return r
			}, rng.Hostile())
		case "ct":
			ct = rng.Pick([]string{"multipart/form-data; boundary=x", "text/plain", "multipart/form-data", "application/json"})
		case "body":
			body = junkValue(rng)
			cl = fmt.Sprint(len(body))
		}
	}
	s := method + " " + target + " " + proto + "\r\nHost: op.example.org\r\n" + hdr + "Content-Type: " + ct + "\r\n" + te
	if cl != "" {
		s += "Content-Length: " + cl + "\r\n"
	}
	s += "\r\n" + body
	for _, k := range muts {
		switch k {
		case "no-host":
			s = strings.Replace(s, "Host: op.example.org\r\n", "", 1)
		case "cut":
			s = s[:rng.N(len(s))]
		case "pipeline":
			s += s
		}
	}
	return s, muts
}

func runConnections(x *Ctx, gen string, n int) {
	x.Run(gen, n, func(c *Case) {
		rng := c.Rng
		c.Any = true
		w := GenWorld(rng)
		cfg := genTokCfg(rng)
		cfg.Grants, cfg.Assert = allGrants, true
		pol := genPolicy(rng)
		rpc := &RPCase{W: w, Realm: "r", Accept: goidc.CredentialAcceptanceMethod(rng.N(3))}
		rp := rpc.Protector()
		ae := (&AuthCase{W: w, Pol: pol}).Endpoint()
		setJWTClock(w)
		var mu sync.Mutex
		var seen []string
		note := func(kind string, rec *Rec) {
			mu.Lock()
			defer mu.Unlock()
			seen = append(seen, kind)
			if rec.Panic != "" {
				seen = append(seen, "PANIC "+rec.Panic+"\n"+firstN(rec.Stack, 3000))
			}
		}
		// what the handlers write is copied onto the connection, so that it can be examined as well
		var recs sync.Map
		serve := func(kind string, f func(rec *Rec, r *http.Request)) http.HandlerFunc {
			return func(rw http.ResponseWriter, r *http.Request) {
				rec := NewRec()
				guard(rec, func() { f(rec, r) })
				note(kind, rec)
				if id := r.Header.Get("X-Case"); id != "" {
					recs.Store(id, rec)
				}
				if rec.Statuses > 1 {
					mu.Lock()
					seen = append(seen, fmt.Sprintf("ODD %s: status sent %d times", kind, rec.Statuses))
					mu.Unlock()
				}
				for k, vs := range rec.H {
					rw.Header()[k] = vs
				}
				if rec.Statuses > 0 {
					rw.WriteHeader(rec.Status)
				}
				rw.Write(rec.Body.Bytes())
			}
		}
		cbOf := func() *Callbacks {
			u := w.Users[0]
			return &Callbacks{w: w, LoggedIn: true, AuthTime: w.Now, UserID: u.ID, Locale: "en", Code: "code-x", HintUser: u.Subject}
		}
		mux := http.NewServeMux()
		th := cfg.Endpoint(w).Handler(&DI{w})
		mux.HandleFunc("/token", serve("token", func(rec *Rec, r *http.Request) { th(rec, r) }))
		mux.HandleFunc("/authorize", serve("authorize", func(rec *Rec, r *http.Request) {
			cb := cbOf()
			ae.HandleRequest(rec, r, cb)
			k := len(cb.Screens)
			if rec.Touched() {
				k++
			}
			if k != 1 {
				mu.Lock()
				seen = append(seen, fmt.Sprintf("ODD authorize: %d outcomes", k))
				mu.Unlock()
			}
		}))
		mux.HandleFunc("/api", serve("resource", func(rec *Rec, r *http.Request) {
			if rp.Validate(rec, r, &DI{w}) == rec.Touched() {
				mu.Lock()
				seen = append(seen, "ODD resource: let through with a response, or refused without")
				mu.Unlock()
			}
		}))
		srv := httptest.NewUnstartedServer(mux)
		logs := &syncBuf{}
		var opened, closed int64
		srv.Config.ConnState = func(_ net.Conn, st http.ConnState) {
			switch st {
			case http.StateNew:
				atomic.AddInt64(&opened, 1)
			case http.StateClosed:
				atomic.AddInt64(&closed, 1)
			}
		}
		srv.Config.ErrorLog = log.New(logs, "", 0)
		srv.Start()
		defer srv.Close()
		addr := srv.Listener.Addr().String()
		var sent []string
		c.DescFn = func() []string {
			d := w.describe()
			for _, s := range sent {
				d = append(d, fmt.Sprintf("connection %q", firstN(s, 4000)))
			}
			mu.Lock()
			defer mu.Unlock()
			return append(append(d, seen...), logs.String())
		}
		sig := ""
		var valid []func()
		for i := 0; i < 8; i++ {
			kind := []string{"/token", "/authorize", "/api"}[rng.N(3)]
			var q *Req
			ownPeople(rng, w, i, func() {
				switch kind {
				case "/token":
					k := *cfg
					tc := &TokCase{W: w, Cfg: &k, Asserts: map[string]*Assertion{}}
					GenTokReq(rng, tc, "", nil)
					q = tc.Req
					if len(tc.Muts) == 0 && !strings.Contains(q.Header1("Authorization"), "\n") {
						tc.Cfg = cfg
						id := fmt.Sprint("v", i)
						q = q.Clone() // the hostile twin must not use up what the valid one needs
						q.Del("code")
						q.Del("refresh_token")
						q.Del("assertion")
						q.Del("client_assertion")
						valid = append(valid, func() {
							pre := w.Snapshot()
							e := tc.Expect(pre)
							n := len(w.Calls)
							r := tc.Req.Build()
							body, _ := io.ReadAll(r.Body)
							hr, err := http.NewRequest(r.Method, "http://"+addr+"/token?"+r.URL.RawQuery, bytes.NewReader(body))
							if err != nil {
								return
							}
							hr.Header = r.Header.Clone()
							hr.Header.Set("X-Case", id)
							resp, err := srv.Client().Do(hr)
							if err != nil {
								c.Violate("C24", "a correct request got no response: %v", err)
								return
							}
							resp.Body.Close()
							if v, ok := recs.Load(id); ok {
								tc.JudgeTok(c, e, v.(*Rec), w.Calls[n:])
								c.Count("conn.valid")
							}
						})
					}
				case "/authorize":
					q = GenAuthReq(rng, &AuthCase{W: w, Pol: pol}, nil).Req
				default:
					k := *rpc
					GenRPReq(rng, &k, false, nil)
					q = k.Req
				}
			})
			s, muts := rawRequest(rng, q, kind)
			sig += kind + strings.Join(muts, ",") + ";"
			sent = append(sent, s)
		}
		dialled := int64(0)
		for _, s := range sent { // the store isn't touched from here on but by the handlers
			dialled++
			conn, err := net.Dial("tcp", addr)
			if err != nil {
				c.Violate("C24", "the server takes no connections: %v", err)
				return
			}
			conn.SetDeadline(time.Now().Add(20 * time.Second))
			abort := rng.P(20)
			b := []byte(s)
			for len(b) > 0 {
				k := len(b)
				if rng.P(30) {
					k = 1 + rng.N(k)
				}
				if _, err := conn.Write(b[:k]); err != nil {
					break
				}
				b = b[k:]
			}
			if abort {
				conn.Close()
				c.Count("conn.aborted")
				continue
			}
			conn.(*net.TCPConn).CloseWrite()
			resp, err := io.ReadAll(conn)
			conn.Close()
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				c.Violate("C24", "no end of the response within 20 s")
			}
			c.Count("conn.hostile")
			if bytes.HasPrefix(resp, []byte("HTTP/1.")) {
				c.Count("conn.status." + string(resp[9:12]))
			} else if len(resp) == 0 {
				c.Count("conn.silent")
			}
		}
		// requests of aborted connections may still be running
		for k := 0; k < 5000 && (atomic.LoadInt64(&opened) < dialled || atomic.LoadInt64(&closed) < dialled); k++ {
			time.Sleep(2 * time.Millisecond)
		}
		if atomic.LoadInt64(&closed) < dialled {
			c.Violate("C24", "%d of %d connections were not served to their end within 10 s", dialled-atomic.LoadInt64(&closed), dialled)
			return
		}
		for _, f := range valid {
			f()
		}
		mu.Lock()
		defer func() { c.Any = false }()
		all := append([]string{}, seen...)
		mu.Unlock()
		for _, s := range all {
			if strings.HasPrefix(s, "PANIC") {
				c.Violate("*", "%s", s)
			} else if strings.HasPrefix(s, "ODD") {
				c.Violate("C24", "%s", s)
			} else {
				c.Count("conn.handled." + s)
			}
		}
		if strings.Contains(logs.String(), "panic serving") {
			c.Violate("*", "%s", logs.String())
		}
		c.Nontrivial(sig)
	})
}

func init() {
	checks["C24"] = func(x *Ctx) {
		x.R.Rule = "requests of every kind mangled in ~30 ways (methods, targets, queries, bodies, content types, headers, JWTs, failing and oversized bodies), in-process and over connections, each followed by more requests on the same endpoint objects; nontrivial by the sequence of manglings"
		runHostileRequests(x, "hostile", x.Scale(5000, 120000))
		runConnections(x, "connections", x.Scale(240, 4000))
		runSoak(x, "soak", x.Scale(1100, 6000))
		runCut(x, "cut", x.Scale(3000, 60000))
		x.Require("soak.kinds", 100)
		for _, k := range []string{"token", "authorize", "resource"} {
			x.Require(k, 3000)
			x.Require("after."+k, 300)
			x.Require("conn.handled."+k, 100)
		}
		x.Require("hostile.token.granted", 100)
		x.Require("hostile.authorize.complete", 20)
		x.Require("hostile.resource.passed", 100)
		x.Require("hostile.cancel", 100)
		x.Require("hostile.complete", 100)
		x.Require("conn.valid", 50)
		x.Require("conn.aborted", 100)
	}
}
