package main

// Checks of the primitives, called directly: response delivery (C18), parked requests (C26), PKCE (C27),
// Basic credentials (C30), error renderings (C31), words (C33).

import (
	"crypto/rand"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/basic_auth"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/grant"
	oer "github.com/lyokato/goidc/oauth_error"
	"github.com/lyokato/goidc/pkce"
	"github.com/lyokato/goidc/prompt"
	"github.com/lyokato/goidc/response_mode"
	"github.com/lyokato/goidc/scope"
)

// guarded runs f and reports a panic as a violation.
func (c *Case) guarded(what string, f func()) {
	rec := NewRec()
	guard(rec, f)
	if rec.Panic != "" {
		c.Desc("stack %s", rec.Stack)
		c.Violate("*", "%s panicked: %s", what, rec.Panic)
	}
}

// ---------------------------------------------------------------- C18

var plainURIs = []string{"https://app.example.org/cb?next=/what?", "https://app.example.org/cb?a=b?c=d", "https://app.example.org/cb??", "https://app.example.org/cb", "https://app.example.org/cb?x=1", "https://app.example.org/", "http://localhost:8080/cb", "myapp://cb", "https://app.example.org/cb?x=1&state=mine&code=old",
	"https://app.example.org/日本?q=日", "https://app.example.org/cb?a=%2F&b=c%26d", "https://[::1]:99/cb", "urn:ietf:wg:oauth:2.0:oob", "https://app.example.org/%zz", "https://app.example.org/cb?", "https://app.example.org/'\"<x>",
	"https://app.example.org/cb?u=https://x.example/?y=z", "https://app.example.org/cb;p=1?a;b", "com.example.app:/oauth", "https://user:pw@app.example.org/cb", "https://app.example.org/cb?x=\"><script>", "https://app.example.org/a//b/../c", "https://app.example.org?x", "https://app.example.org/cb?&", "https://app.example.org/?error=none"}
var fragURIs = []string{"https://app.example.org/cb#", "https://app.example.org/cb#top", "https://app.example.org/cb?x=1#state=mine"}

func runResponses(x *Ctx, n int) {
	x.Run("resp", n, func(c *Case) {
		rng := c.Rng
		mode := rng.Pick(allModes)
		uri := rng.Pick(plainURIs)
		if mode == "fragment" && rng.P(20) {
			uri = rng.Pick(fragURIs)
		}
		value := func() string {
			for {
				s := rng.Hostile()
				if rng.P(30) {
					s = rng.Str(1+rng.N(20)) + rng.Pick([]string{"", "+", "&code=evil", "\"/><input name=\"code\" value=\"evil\">", "' onclick='x", "#code=evil", "</form><form action=\"https://evil.example\">", "=", ";error=x", "&#38;code=1"})
				}
				// what form submission itself changes (line ends, NUL, non-UTF-8) isn't judged in forms
				if mode == "form_post" && (!validUTF8(s) || strings.ContainsAny(s, "\r\n\x00")) {
					continue
				}
				return s
			}
		}
		want := map[string]string{}
		kind := "success"
		r := (&Req{Method: rng.Pick([]string{"GET", "POST"}), Path: rng.Pick([]string{"/authorize", "/", "/a/b/c"})}).Build()
		rec := NewRec()
		h := authorization.ResponseHandlerForMode(mode, rec, r)
		if rng.P(60) {
			for _, k := range []string{"code", "state", "access_token", "token_type", "expires_in", "id_token", "scope", "x", "a b", "k&l", "\"", "日本"} {
				if rng.P(35) {
					want[k] = value()
				}
			}
			args := map[string]string{}
			for k, v := range want {
				args[k] = v
			}
			guard(rec, func() { h.Success(uri, args) })
		} else {
			kind = "error"
			typ := rng.Pick([]string{"access_denied", "invalid_request", "server_error"})
			desc, state := "", ""
			want["error"] = typ
			if rng.P(60) {
				desc = value()
			}
			if rng.P(70) {
				state = value()
			}
			if desc != "" {
				want["error_description"] = desc
			}
			if state != "" {
				want["state"] = state
			}
			guard(rec, func() { h.Error(uri, typ, desc, state) })
		}
		c.Desc("%s in mode %s to %q with %q", kind, mode, uri, want)
		c.Desc("response %s", rec)
		if rec.Panic != "" {
			c.Violate("*", "response handler panicked: %s", rec.Panic)
			return
		}
		a := ParseAuthResp(rec, uri)
		if a.Kind != "redirect" && a.Kind != "form" || a.Problem != "" {
			c.Violate("C18 C11", "bad response (%s): %s", a.Problem, rec)
			return
		}
		if a.Mode != mode && len(want) > 0 {
			c.Violate("C17 C18", "response in mode %s, want %s", a.Mode, mode)
		}
		got := flat(a.Params)
		for k, v := range want {
			if g, ok := got[k]; !ok || g != v {
				c.Violate("C18", "parameter %q is %q, want %q", k, g, v)
			}
		}
		for k, v := range got {
			if _, ok := want[k]; !ok {
				c.Violate("C18", "unexpected parameter %q=%q", k, v)
			}
		}
		ks := []string{}
		for k := range want {
			ks = append(ks, k)
		}
		sortStrings(ks)
		c.Count("resp." + mode + "." + kind)
		c.Nontrivial(fmt.Sprintf("%s|%s|%s|%q|%q", mode, kind, uri, ks, want["state"]))
		c.Sample()
	})
}

// ---------------------------------------------------------------- C26

func genParked(rng *Rng, bad bool) *authorization.Request {
	s := func() string {
		if bad && rng.P(20) {
			return rng.Hostile()
		}
		if rng.P(15) {
			return ""
		}
		return rng.HostileText()
	}
	r := &authorization.Request{ClientId: s(), Scope: s(), RedirectURI: s(), ResponseMode: s(), State: s(), CodeVerifier: s(), Nonce: s(), Display: s(), Prompt: s(),
		UILocale: s(), IdTokenHint: s(), LoginHint: s(),
		MaxAge: rng.PickI([]int64{0, 1, -1, 60, 86400, 1 << 53, 1<<53 + 1, 1<<63 - 1, -1 << 63, int64(rng.U64())})}
	if rng.P(95) {
		r.Flow = &flow.Flow{Type: flow.FlowType(rng.N(4)), RequireAccessToken: rng.Bool(), RequireIdToken: rng.Bool()}
	}
	if rng.P(5) {
		t := rng.HostileText()
		r.State = strings.Repeat(t, 1+rng.N(1+200000/(1+len(t)))%2000)
	}
	return r
}

func runParked(x *Ctx, n int) {
	x.Run("park", n, func(c *Case) {
		rng := c.Rng
		req := genParked(rng, rng.P(20))
		c.Desc("request %+q flow %+v", fmt.Sprintf("%+v", *req), req.Flow)
		var enc string
		c.guarded("Encode", func() { enc = req.Encode() })
		if c.bad {
			return
		}
		// carried unescaped, as base64url invites
		via := []string{"direct", "query", "cookie", "form"}[rng.N(4)]
		carried := enc
		switch via {
		case "query":
			u, err := url.Parse("https://op.example.org/consent?x=1&request=" + enc)
			if err != nil {
				c.Violate("C26", "encoded request does not fit a URL: %v", err)
				return
			}
			carried = u.Query().Get("request")
		case "cookie":
			r := (&Req{Method: "GET", Path: "/", Header: []KV{{"Cookie", "a=b; request=" + enc}}}).Build()
			ck, err := r.Cookie("request")
			if err != nil {
				c.Violate("C26", "encoded request does not fit a cookie: %v", err)
				return
			}
			carried = ck.Value
		case "form":
			body := "request=" + enc
			carried = (&Req{Method: "POST", Path: "/", RawBody: &body}).Build().PostFormValue("request")
		}
		c.Desc("carried by %s: %q", via, firstN(carried, 3000))
		var got *authorization.Request
		c.guarded("DecodeRequest", func() { got = authorization.DecodeRequest(carried) })
		if c.bad {
			return
		}
		if got == nil {
			c.Violate("C26", "DecodeRequest returned nil")
			return
		}
		if (got.Flow == nil) != (req.Flow == nil) {
			c.Violate("C26", "flow %v became %v", req.Flow, got.Flow)
		} else if got.Flow != nil && *got.Flow != *req.Flow {
			c.Violate("C26", "flow %+v became %+v", *req.Flow, *got.Flow)
		}
		if got.MaxAge != req.MaxAge {
			c.Violate("C26", "max_age %d became %d", req.MaxAge, got.MaxAge)
		}
		f := func(name, a, b string) {
			switch {
			case a == b:
			case !validUTF8(a) && b == jsonText(a):
				c.Known("C26", "KF4", fmt.Sprintf("%s %q became %q", name, a, b))
			default:
				c.Violate("C26", "%s %q became %q", name, a, b)
			}
		}
		f("client_id", req.ClientId, got.ClientId)
		f("scope", req.Scope, got.Scope)
		f("redirect_uri", req.RedirectURI, got.RedirectURI)
		f("response_mode", req.ResponseMode, got.ResponseMode)
		f("state", req.State, got.State)
		f("code_verifier", req.CodeVerifier, got.CodeVerifier)
		f("nonce", req.Nonce, got.Nonce)
		f("display", req.Display, got.Display)
		f("prompt", req.Prompt, got.Prompt)
		f("ui_locale", req.UILocale, got.UILocale)
		f("id_token_hint", req.IdTokenHint, got.IdTokenHint)
		f("login_hint", req.LoginHint, got.LoginHint)
		// decoded again, it is the same whatever was done with the first one
		again := *req
		if req.Flow != nil {
			f := *req.Flow
			again.Flow = &f
		}
		if got.Flow != nil {
			got.Flow.Type, got.Flow.RequireIdToken = flow.Hybrid, !got.Flow.RequireIdToken
		}
		got.Scope, got.State, got.MaxAge = "other", "other", 7
		var got2 *authorization.Request
		c.guarded("DecodeRequest", func() { got2 = authorization.DecodeRequest(carried) })
		if c.bad {
			return
		}
		if !reflect.DeepEqual(req, &again) {
			c.Violate("C26", "changing a decoded request changed the encoded one")
		}
		if got2 == nil || got2.MaxAge != req.MaxAge || (got2.Flow == nil) != (req.Flow == nil) || got2.Flow != nil && *got2.Flow != *req.Flow ||
			got2.Scope != jsonText(req.Scope) || got2.State != jsonText(req.State) {
			c.Violate("C26", "decoded a second time, the request is %+v", got2)
		}
		var enc2 string
		if c.guarded("Encode", func() { enc2 = req.Encode() }); !c.bad && enc2 != enc {
			var x *authorization.Request
			c.guarded("DecodeRequest", func() { x = authorization.DecodeRequest(enc2) })
			if x == nil || x.State != jsonText(req.State) || x.ClientId != jsonText(req.ClientId) || x.MaxAge != req.MaxAge {
				c.Violate("C26", "encoded a second time, the request is %+v", x)
			}
		}
		// changed, it is encoded as it is now; so is one that was decoded
		if rng.P(50) {
			for _, q := range []*authorization.Request{req, got} {
				if q == got {
					c.guarded("Encode", func() { q.Encode() })
				}
				q.Scope, q.State, q.MaxAge, q.Nonce = "openid changed", "now-"+rng.Str(4), q.MaxAge+1, ""
				var y *authorization.Request
				c.guarded("Encode", func() { y = authorization.DecodeRequest(q.Encode()) })
				if c.bad {
					return
				}
				if y == nil || y.Scope != q.Scope || y.State != q.State || y.MaxAge != q.MaxAge || y.Nonce != "" || y.ClientId != jsonText(q.ClientId) {
					c.Violate("C26", "changed to scope %q, state %q, max_age %d and encoded again, the request is %+v", q.Scope, q.State, q.MaxAge, y)
				}
			}
			c.Count("park.changed")
		}
		c.Count("park.roundtrip." + via)
		c.Nontrivial(enc)
		c.Sample()
	})
	x.Run("tamper", n/2, func(c *Case) {
		rng := c.Rng
		enc := genParked(rng, false).Encode()
		switch rng.N(7) {
		case 0:
			enc = enc[:rng.N(len(enc)+1)]
		case 1:
			b := []byte(enc)
			for k := 0; k < 1+rng.N(4); k++ {
				b[rng.N(len(b))] = byte(rng.N(256))
			}
			enc = string(b)
		case 2:
			enc = rng.Hostile()
		case 3: // valid base64 of odd JSON
			enc = base64.URLEncoding.EncodeToString([]byte(rng.Pick([]string{"null", "[]", "1", "\"x\"", "{}", "{\"flow\":null}", "{\"flow\":{}}", "{\"flow\":{\"type\":\"x\"}}", "{\"flow\":{\"type\":7}}", "{\"flow\":[]}", "{\"flow\":{\"type\":\"direct_grant\"}}",
				"{\"max_age\":1e999}", "{\"max_age\":\"1\"}", "{\"state\":{}}", "{\"client_id\":null}", strings.Repeat("[", 20000), strings.Repeat("{\"flow\":", 5000)})))
		case 4:
			raw, _ := base64.URLEncoding.DecodeString(enc)
			b := []byte(raw)
			for k := 0; k < 1+rng.N(4); k++ {
				b[rng.N(len(b))] = byte(rng.N(256))
			}
			enc = base64.URLEncoding.EncodeToString(b)
		case 5:
			raw, _ := base64.URLEncoding.DecodeString(enc)
			enc = base64.URLEncoding.EncodeToString(raw[:rng.N(len(raw))])
		default:
			raw, _ := base64.URLEncoding.DecodeString(enc)
			enc = rng.Pick([]string{base64.StdEncoding.EncodeToString(raw), base64.RawURLEncoding.EncodeToString(raw), enc + enc, enc + " ", "\n" + enc})
		}
		c.Desc("decoding %q", firstN(enc, 3000))
		var got *authorization.Request
		c.guarded("DecodeRequest", func() { got = authorization.DecodeRequest(enc) })
		if c.bad {
			return
		}
		c.Count("park.tampered")
		if got == nil {
			c.Count("park.tampered.nil")
			return
		}
		// what was read is a request like any other: it can be encoded, and completed or cancelled without a crash
		c.Desc("decoded %+q flow %+v", fmt.Sprintf("%+v", *got), got.Flow)
		c.guarded("Encode of a decoded request", func() { got.Encode() })
		ac := &AuthCase{W: GenWorld(rng), Pol: genPolicy(rng)}
		GenAuthReq(rng, ac, nil)
		ac.Cb.Parked = got
		ae := ac.Endpoint()
		var rec *Rec
		var calls []*Call
		if rng.Bool() {
			rec, calls, _ = ac.call(func(rec *Rec, r *http.Request) { ae.CompleteRequest(rec, r, ac.Cb) })
		} else {
			rec, calls, _ = ac.call(func(rec *Rec, r *http.Request) { ae.CancelRequest(rec, r, ac.Cb) })
			if k := created(calls); k != nil {
				c.Violate("C29 C26", "a cancelled request led to %s", k)
			}
		}
		if rec.Panic != "" {
			c.Desc("stack %s", rec.Stack)
			c.Violate("*", "panic on a damaged parked request: %s", rec.Panic)
		}
		c.Nontrivial(enc)
	})
}

// ---------------------------------------------------------------- C27

// countingReader notes how much is drawn from the system's random source.
type countingReader struct {
	mu sync.Mutex
	r  io.Reader
	n  int
}

func (r *countingReader) Read(b []byte) (int, error) {
	n, err := r.r.Read(b)
	r.mu.Lock()
	r.n += n
	r.mu.Unlock()
	return n, err
}

func runPkce(x *Ctx, n int) {
	x.Run("pkce", n, func(c *Case) {
		rng := c.Rng
		v := rng.Hostile()
		if rng.P(40) {
			v = rng.Str(43 + rng.N(86))
		} else if rng.P(20) {
			v = rng.Long()
		}
		ch := v
		switch rng.N(7) {
		case 0:
			ch = s256(v)
		case 1:
			ch = rng.NearMiss(v)
		case 2:
			ch = rng.NearMiss(s256(v))
		case 3:
			ch = s256(v) + "="
		case 4:
			ch = rng.Hostile()
		case 5:
			ch = s256(s256(v))
		}
		c.Desc("verifier %q challenge %q", v, ch)
		c.guarded("pkce", func() {
			if g := pkce.S256Encode(v); g != s256(v) {
				c.Violate("C27 C03", "S256Encode(%q) is %q, want %q", v, g, s256(v))
			}
			b := rng.Bytes(rng.N(50))
			if g := pkce.EncodeBase64WithoutPadding(b); g != rawURL.EncodeToString(b) {
				c.Violate("C27", "EncodeBase64WithoutPadding(%x) is %q", b, g)
			}
			for m, want := range map[string]bool{"plain": ch == v, "S256": ch == s256(v)} {
				ver, err := pkce.FindVerifierByMethod(m)
				if err != nil || ver == nil {
					c.Violate("C27 C03", "method %s: %v", m, err)
				} else if g := ver.Verify(ch, v); g != want {
					c.Violate("C27 C03", "%s verification of %q for %q is %v", m, ch, v, g)
				} else if want {
					c.Count("pkce.match." + m)
				} else {
					c.Count("pkce.mismatch." + m)
				}
			}
			m := rng.Pick([]string{"", "PLAIN", "Plain", "s256", "S512", "S256 ", " plain", "none", "S-256", "plain\x00", rng.Hostile(), rng.NearMiss("S256"), rng.NearMiss("plain")})
			if m != "plain" && m != "S256" {
				if ver, err := pkce.FindVerifierByMethod(m); err == nil {
					c.Violate("C27 C03", "method %q is accepted as %T", m, ver)
				}
				c.Count("pkce.unknown")
			}
		})
		c.Nontrivial(v + "|" + ch)
		c.Sample()
	})
	// generated verifiers: batches, made by one or several goroutines
	x.Run("gen", x.Scale(32, 400), func(c *Case) {
		const per = 2000
		workers := 1 + c.Rng.N(8)
		cr := &countingReader{r: rand.Reader}
		save := rand.Reader
		rand.Reader = cr
		defer func() { rand.Reader = save }()
		out := make([][]string, workers)
		var wg sync.WaitGroup
		var pmu sync.Mutex
		panics := ""
		for k := 0; k < workers; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				rec := NewRec()
				guard(rec, func() {
					for i := 0; i < per; i++ {
						out[k] = append(out[k], pkce.GenRandomCodeVerifier())
					}
				})
				if rec.Panic != "" {
					pmu.Lock()
					panics = rec.Panic
					pmu.Unlock()
				}
			}(k)
		}
		wg.Wait()
		if panics != "" {
			c.Violate("*", "GenRandomCodeVerifier panicked: %s", panics)
			return
		}
		c.Desc("%d verifiers by %d goroutines, %d random bytes drawn", per*workers, workers, cr.n)
		if cr.n+8192 < 32*per*workers {
			c.Violate("C27", "%d verifiers were made from %d bytes of the system's random source", per*workers, cr.n)
		}
		seen := map[string]bool{}
		chunks := map[string]int{}
		var ones [256]int
		total := 0
		for _, l := range out {
			for _, v := range l {
				b, err := rawURL.Strict().DecodeString(v)
				if len(v) != 43 || err != nil {
					c.Violate("C27", "verifier %q is not 43 characters of base64url", v)
					return
				}
				if seen[v] {
					c.Violate("C27", "verifier %q was made twice", v)
					return
				}
				seen[v] = true
				total++
				for i := 0; i < 256; i++ {
					if b[i/8]>>(uint(i)%8)&1 == 1 {
						ones[i]++
					}
				}
				for i := 0; i < 32; i += 8 {
					chunks[string(b[i:i+8])]++
				}
			}
		}
		// no byte is made from others: 700 verifiers and the constant 1 span all 257 dimensions but with
		// probability 2^-400
		var rows [257][5]uint64
		rank := 0
		for _, v := range out[0][:700] {
			b, _ := rawURL.DecodeString(v)
			r := [5]uint64{4: 1}
			for i := 0; i < 256; i++ {
				r[i/64] |= uint64(b[i/8]>>(uint(i)%8)&1) << (uint(i) % 64)
			}
			for i := 0; i < 257; i++ {
				if r[i/64]>>(uint(i)%64)&1 == 0 {
					continue
				}
				if rows[i] == ([5]uint64{}) {
					rows[i] = r
					rank++
					break
				}
				for k := range r {
					r[k] ^= rows[i][k]
				}
			}
		}
		if rank != 257 {
			c.Violate("C27", "some bits of the verifiers follow from others: rank %d of 257", rank)
			return
		}
		for i, n := range ones {
			// 8 standard deviations
			d := float64(n)*2 - float64(total)
			if d*d > 64*float64(total) {
				c.Violate("C27", "bit %d of the verifiers is set in %d of %d", i, n, total)
				return
			}
		}
		if len(chunks) != 4*total {
			c.Violate("C27", "%d verifiers share 8-byte parts: %d different of %d", total, len(chunks), 4*total)
		}
		c.CountN("pkce.generated", total)
		c.Nontrivial(fmt.Sprint(c.Index, workers))
		c.Sample()
	})
}

// ---------------------------------------------------------------- C30

func runBasic(x *Ctx, n int) {
	x.Run("basic", n, func(c *Case) {
		rng := c.Rng
		id, sec := rng.Hostile(), rng.Hostile()
		switch rng.N(6) {
		case 0:
			id, sec = rng.Str(8), rng.Str(12)
		case 1: // pairs that differ only in where they are split
			s := rng.Str(3) + ":" + rng.Str(3)
			id, sec = s, rng.Str(2)
		}
		c.Desc("id %q secret %q", id, sec)
		c.guarded("basic_auth", func() {
			tok := basic_auth.Token(id, sec)
			pair := url.QueryEscape(id) + ":" + url.QueryEscape(sec)
			b, err := base64.StdEncoding.DecodeString(tok)
			if err != nil {
				c.Violate("C30", "token %q is not base64: %v", tok, err)
				return
			}
			gi, gs, ok := strings.Cut(string(b), ":")
			di, e1 := url.QueryUnescape(gi)
			ds, e2 := url.QueryUnescape(gs)
			if !ok || e1 != nil || e2 != nil || di != id || ds != sec {
				c.Violate("C30", "token %q decodes to %q, want %q", tok, b, pair)
			}
			if h := basic_auth.Header(id, sec); h != "Basic "+tok {
				c.Violate("C30", "header %q for token %q", h, tok)
			}
			// distinct pairs
			id2, sec2 := id, sec
			switch rng.N(4) {
			case 0:
				id2 = rng.NearMiss(id)
			case 1:
				sec2 = rng.NearMiss(sec)
			case 2:
				id2, sec2 = sec, id
			default:
				i := strings.IndexByte(id+":"+sec, ':')
				if j := strings.LastIndexByte(id+":"+sec, ':'); j != i {
					id2, sec2 = (id + ":" + sec)[:i], (id + ":" + sec)[i+1:]
				}
			}
			if (id2 != id || sec2 != sec) && basic_auth.Token(id2, sec2) == tok {
				c.Violate("C30", "the pairs (%q, %q) and (%q, %q) share the token %q", id, sec, id2, sec2, tok)
			}
			// reading it back
			r := (&Req{Method: "POST", Path: "/", Header: []KV{{"Authorization", basic_auth.Header(id, sec)}}}).Build()
			fi, fs, fok := basic_auth.FindClientCredential(r)
			switch {
			case fok && fi == id && fs == sec:
			case fok && fi == url.QueryEscape(id) && fs == url.QueryEscape(sec):
				c.Known("C30", "KF2", fmt.Sprintf("the header for (%q, %q) is read back as (%q, %q)", id, sec, fi, fs))
			default:
				c.Violate("C30", "the header for (%q, %q) is read back as (%q, %q, %v)", id, sec, fi, fs, fok)
			}
		})
		c.Count("basic.built")
		c.Nontrivial(id + "\x00" + sec)
		c.Sample()
	})
	x.Run("extract", n, func(c *Case) {
		rng := c.Rng
		pair := rng.Pick([]string{rng.Hostile() + ":" + rng.Hostile(), rng.Str(5) + ":" + rng.Str(5), ":", "a:", ":b", "a:b:c", "::", "", "nocolon", "%41:%42", "a+b:c+d", "ü:ö"})
		scheme := "Basic "
		enc := base64.StdEncoding.EncodeToString([]byte(pair))
		h := scheme + enc
		good := strings.Contains(pair, ":")
		wi, ws, _ := strings.Cut(pair, ":")
		judged := true
		switch rng.N(9) {
		case 0:
			h = rng.Pick([]string{"basic ", "BASIC ", "bAsIc "}) + enc
		case 1:
			h, good = rng.Pick([]string{"Basic", "Basic", "Bearer " + enc, "Digest " + enc, enc, "Basi " + enc, "Basicx " + enc, "Basic\t" + enc, "Basic:" + enc}), false
		case 2:
			h, good = scheme+enc+rng.Pick([]string{"!", "?", "x*", "-_-_", "\x00", "\""}), false
		case 3:
			if len(enc) > 4 {
				h, good = scheme+enc[:len(enc)-1], false // breaks the padding
				if strings.HasSuffix(enc, "=") || true {
					judged = len(enc[:len(enc)-1])%4 != 0
				}
			}
		case 4:
			h, good = "", false
		case 5:
			if s := base64.URLEncoding.EncodeToString([]byte(pair)); s != enc {
				h, good = scheme+s, false
			}
		}
		if strings.ContainsAny(h, "\n\r\x00") {
			h, good = strings.Map(func(r rune) rune {
				if r == '\n' || r == '\r' || r == 0 {
					return '!'
				}
				return r
			}, h), false
		}
		pid, psec := rng.Pick([]string{"", "p-" + rng.Str(4), rng.Hostile()}), rng.Pick([]string{"", "q-" + rng.Str(4), rng.Hostile()})
		q := &Req{Method: rng.Pick([]string{"POST", "POST", "GET"}), Path: "/token"}
		put := func(k, v string) {
			if v == "" && rng.Bool() {
				return
			}
			if rng.P(30) || q.Method == "GET" {
				q.Query = append(q.Query, KV{k, v})
			} else {
				q.Body = append(q.Body, KV{k, v})
			}
		}
		put("client_id", pid)
		put("client_secret", psec)
		if h != "" {
			q.Header = append(q.Header, KV{"Authorization", h})
		}
		c.Desc("pair %q in %s", pair, q)
		if !judged {
			return
		}
		c.guarded("FindClientCredential", func() {
			gi, gs, ok := basic_auth.FindClientCredential(q.Build())
			wi2, ws2, wok := wi, ws, good
			if !good {
				wi2, ws2, wok = pid, psec, pid != "" && psec != ""
				if !wok {
					wi2, ws2 = "", ""
				}
			}
			if ok != wok || ok && (gi != wi2 || gs != ws2) {
				c.Violate("C30", "FindClientCredential gives (%q, %q, %v), want (%q, %q, %v)", gi, gs, ok, wi2, ws2, wok)
			}
		})
		// the token endpoint with a client that has exactly this id and secret
		w := GenWorld(rng)
		cl := w.clientList()[0]
		cp := *cl
		cp.ID, cp.Secret = wi, ws
		cp.Grants = map[string]bool{grant.TypeClientCredentials: true}
		cp.Owner = 1
		w.Clients[wi] = &cp
		w.Users = w.Users[:3]
		cfg := genTokCfg(rng)
		cfg.Grants = allGrants
		cfg.Assert = false
		cfg.Secret = 0
		q.Method = "POST"
		q.Query = append(q.Query, KV{"grant_type", grant.TypeClientCredentials})
		tc := &TokCase{W: w, Cfg: cfg, Req: q}
		hd := cfg.Endpoint(w).Handler(&DI{w})
		rec, calls := tc.Serve(hd)
		if rec.Panic != "" {
			c.Violate("*", "token endpoint panicked: %s", rec.Panic)
			return
		}
		ids, secs := []string{}, []string{}
		for _, k := range calls {
			if k.Method == "FindClientById" {
				ids = append(ids, k.Args[0])
			}
			if k.Method == "MatchSecret" {
				secs = append(secs, k.Args[0]+"/"+k.Args[1])
			}
		}
		if good && wi != "" {
			for _, g := range ids {
				if g != q_(wi) {
					c.Violate("C30 C01", "the endpoint looked up client %s for the header pair (%q, %q)", g, wi, ws)
				}
			}
			for _, g := range secs {
				if g != q_(wi)+"/"+q_(ws) {
					c.Violate("C30 C01", "the endpoint compared %s for the header pair (%q, %q)", g, wi, ws)
				}
			}
			if len(ids) == 0 || len(secs) == 0 && ws != "" {
				c.Violate("C30 C01", "the endpoint did not check the header pair (%q, %q): %s", wi, ws, rec)
			}
			c.Count("basic.endpoint")
		} else if !good {
			if len(secs) > 0 {
				c.Violate("C30 C01", "the endpoint compared %v for the malformed header %q", secs, h)
			}
			c.Count("basic.malformed")
		}
		c.Nontrivial(h + "|" + pid + "|" + psec)
		c.Sample()
	})
}

func q_(s string) string { return q(s) }

// ---------------------------------------------------------------- C31

var errorTypes = []struct {
	T      oer.OAuthErrorType
	Code   string
	Status int
}{
	{oer.ErrAccessDenied, "access_denied", 403}, {oer.ErrInvalidClient, "invalid_client", 400}, {oer.ErrInvalidGrant, "invalid_grant", 400}, {oer.ErrInvalidRequest, "invalid_request", 400},
	{oer.ErrInvalidScope, "invalid_scope", 400}, {oer.ErrUnauthorizedClient, "unauthorized_client", 400}, {oer.ErrUnsupportedGrantType, "unsupported_grant_type", 400},
	{oer.ErrUnsupportedResponseType, "unsupported_response_type", 400}, {oer.ErrServerError, "server_error", 500}, {oer.ErrTemporarilyUnavailable, "temporarily_unavailable", 0},
	{oer.ErrInvalidToken, "invalid_token", 401}, {oer.ErrInsufficientScope, "insufficient_scope", 403}, {oer.ErrInteractionRequired, "interaction_required", 0}, {oer.ErrLoginRequired, "login_required", 0},
	{oer.ErrAccountSelectionRequired, "account_selection_required", 0}, {oer.ErrConsentRequired, "consent_required", 0}, {oer.ErrInvalidRequestURI, "invalid_request_uri", 0},
	{oer.ErrInvalidRequestObject, "invalid_request_object", 0}, {oer.ErrRequestNotSupported, "request_not_supported", 0}, {oer.ErrRequestURINotSupported, "request_uri_not_supported", 0},
	{oer.ErrRegistrationNotSupported, "registration_not_supported", 0},
}

// quotable tells whether a header's quoted-string can carry s as it is.
func quotable(s string) bool {
	for _, r := range s {
		if r < 0x20 || r > 0x7e && !strings.ContainsRune("üé日本語ö🙂", r) {
			return false
		}
	}
	return validUTF8(s)
}

func runErrors(x *Ctx, n int) {
	x.Run("err", n, func(c *Case) {
		rng := c.Rng
		t := errorTypes[rng.N(len(errorTypes))]
		text := func() string {
			if rng.P(25) {
				return ""
			}
			if rng.P(30) {
				return rng.Str(1+rng.N(6)) + rng.Pick([]string{"\"", "\\", "\", error=\"x", "\\\", error=\"x", ",", "\",\"error\":\"x\"", "&error=x", "=", " ", "\r\nX: y", "\n", "\x00", "日本", "<", "&", "'"}) + rng.Str(rng.N(4))
			}
			return rng.Hostile()
		}
		desc, uri, realm, state := text(), text(), text(), text()
		c.Desc("%s description %q uri %q realm %q state %q", t.Code, desc, uri, realm, state)
		c.guarded("OAuthError", func() {
			var e *oer.OAuthError
			switch {
			case uri != "":
				e = oer.NewOAuthDetailedError(t.T, desc, uri)
			case desc != "":
				e = oer.NewOAuthError(t.T, desc)
			default:
				e = oer.NewOAuthSimpleError(t.T)
			}
			if t.T.String() != t.Code {
				c.Violate("C31 C09", "code of %s is %q", t.Code, t.T.String())
			}
			if s := e.StatusCode(); t.Status != 0 && s != t.Status || s < 400 || s > 599 {
				c.Violate("C31 C09", "status of %s is %d", t.Code, s)
			}
			if s := e.Error(); !strings.Contains(s, t.Code) || !strings.Contains(s, desc) {
				c.Violate("C31", "Error() is %q", s)
			}
			want := map[string]string{"error": t.Code}
			if desc != "" {
				want["error_description"] = desc
			}
			if uri != "" {
				want["error_uri"] = uri
			}
			// JSON
			m, p := strictObject(e.JSON())
			if p != "" {
				c.Violate("C31 C09", "JSON %q: %s", e.JSON(), p)
			} else {
				for k, v := range want {
					if m[k] != jsonText(v) {
						c.Violate("C31 C09", "JSON %q: %s is %q, want %q", e.JSON(), k, m[k], v)
					}
				}
				if len(m) != len(want) {
					c.Violate("C31 C09", "JSON %q has %d members, want %d", e.JSON(), len(m), len(want))
				}
			}
			// header
			hw := map[string]string{}
			for k, v := range want {
				hw[k] = v
			}
			if realm != "" {
				hw["realm"] = realm
			}
			h := e.Header(realm)
			hm, p := parseChallenge(h)
			if p != "" {
				c.Violate("C31 C21", "header %q: %s", h, p)
			} else {
				for k, v := range hw {
					g, ok := hm[k]
					if !ok || quotable(v) && g != v {
						c.Violate("C31 C21", "header %q: %s is %q, want %q", h, k, g, v)
					}
				}
				if len(hm) != len(hw) {
					c.Violate("C31 C21", "header %q has %d parameters, want %d", h, len(hm), len(hw))
				}
			}
			if strings.ContainsAny(h, "\r\n\x00") {
				c.Violate("C31 C21", "header %q has line breaks", h)
			}
			// query
			if state != "" {
				want["state"] = state
			}
			qs := e.Query(state)
			v, p := looseParams(qs)
			if p != "" {
				c.Violate("C31", "query %q: %s", qs, p)
			} else {
				got := flat(v)
				for k, w := range want {
					if got[k] != w {
						c.Violate("C31", "query %q: %s is %q, want %q", qs, k, got[k], w)
					}
				}
				if len(got) != len(want) {
					c.Violate("C31", "query %q has %d parameters, want %d", qs, len(got), len(want))
				}
			}
			if strings.ContainsAny(qs, "\r\n #\"<>") {
				c.Violate("C31", "query %q has unescaped delimiters", qs)
			}
		})
		c.Count("err." + t.Code)
		c.Nontrivial(t.Code + "|" + desc + "|" + uri + "|" + realm + "|" + state)
		c.Sample()
	})
}

// ---------------------------------------------------------------- C33

var wordPool = []string{"openid", "email", "offline_access", "openid2", "xopenid", "OPENID", "open", "id", "offline", "access", "none", "login", "consent", "select_account", "code", "token", "id_token",
	"", "", "a", "b", "日本", "openid\t", "\nemail", "login,consent", "none\x00", "None", "code+token", "\u00a0"}

func runWords(x *Ctx, n int) {
	x.Run("words", n, func(c *Case) {
		rng := c.Rng
		list := func(max int, pool []string) []string {
			l := []string{}
			for k := 1 + rng.N(max); k > 0; k-- {
				l = append(l, rng.Pick(pool))
			}
			return l
		}
		pool := wordPool
		if rng.P(30) {
			pool = wordPool[:6]
		}
		l := list(6, pool)
		need := ""
		if rng.P(20) {
			granted := ""
			need, granted = relatedScopes(rng)
			l[rng.N(len(l))] = granted
		}
		s := strings.Join(l, " ")
		word := rng.Pick(pool)
		if need != "" && rng.P(60) {
			word = need
		}
		if rng.P(30) {
			word = rng.NearMiss(rng.Pick(l))
		}
		if strings.Contains(word, " ") || word == "" {
			word = "openid"
		}
		has := func(l []string, w string) bool {
			for _, x := range l {
				if x == w {
					return true
				}
			}
			return false
		}
		c.Desc("list %q word %q", s, word)
		c.guarded("words", func() {
			bad := func(f string, a ...interface{}) { c.Violate("C33", f, a...) }
			if g := scope.Include(s, word); g != has(l, word) {
				bad("scope.Include(%q, %q) = %v", s, word, g)
			}
			if g := prompt.Include(s, word); g != has(l, word) {
				bad("prompt.Include(%q, %q) = %v", s, word, g)
			}
			for name, fw := range map[string]struct {
				f func(string) bool
				w string
			}{"scope.IncludeOpenID": {scope.IncludeOpenID, "openid"}, "scope.IncludeOfflineAccess": {scope.IncludeOfflineAccess, "offline_access"}, "prompt.IncludeNone": {prompt.IncludeNone, "none"},
				"prompt.IncludeLogin": {prompt.IncludeLogin, "login"}, "prompt.IncludeConsent": {prompt.IncludeConsent, "consent"}, "prompt.IncludeSelectAccount": {prompt.IncludeSelectAccount, "select_account"}} {
				if g := fw.f(s); g != has(l, fw.w) {
					bad("%s(%q) = %v", name, s, g)
				}
			}
			// include all
			t := list(4, pool)
			for i := range t {
				if t[i] == "" {
					t[i] = "a"
				}
				if rng.P(60) && l[0] != "" {
					t[i] = l[rng.N(len(l))]
					if t[i] == "" {
						t[i] = l[0]
					}
				}
			}
			if need != "" {
				t[rng.N(len(t))] = need
			}
			all := true
			for _, w := range t {
				all = all && has(l, w)
			}
			for name, f := range map[string]func(string, []string) (bool, string){"scope": scope.IncludeAll, "prompt": prompt.IncludeAll} {
				g, miss := f(s, t)
				if g != all {
					bad("%s.IncludeAll(%q, %q) = %v", name, s, t, g)
				} else if !g && (!has(t, miss) || has(l, miss)) {
					bad("%s.IncludeAll(%q, %q) names %q as missing", name, s, t, miss)
				}
			}
			// removal
			for name, fw := range map[string]struct {
				f func(string) string
				w string
			}{"scope.RemoveOpenID": {scope.RemoveOpenID, "openid"}, "scope.RemoveOfflineAccess": {scope.RemoveOfflineAccess, "offline_access"}, "scope.Remove": {func(s string) string { return scope.Remove(s, word) }, word}} {
				if g := fw.f(s); g != dropWord(s, fw.w) {
					bad("%s(%q) without %q = %q", name, s, fw.w, g)
				}
			}
			// sameness
			m := list(6, pool)
			if rng.P(60) {
				m = append([]string{}, l...)
				p := rng.Perm(len(m))
				for i, j := range p {
					m[i] = l[j]
				}
				switch rng.N(4) {
				case 0:
					m = append(m, m[0])
				case 1:
					m[0] = rng.Pick(pool)
				}
			}
			a, b := append([]string{}, l...), append([]string{}, m...)
			sort.Strings(a)
			sort.Strings(b)
			same := strings.Join(a, " ") == strings.Join(b, " ")
			if g := scope.Same(s, strings.Join(m, " ")); g != same {
				bad("scope.Same(%q, %q) = %v", s, strings.Join(m, " "), g)
			}
			if same {
				c.Count("words.same")
			} else {
				c.Count("words.different")
			}
			if g := scope.Sort(s); g != strings.Join(a, " ") {
				bad("scope.Sort(%q) = %q", s, g)
			}
			// prompts
			ps := list(4, []string{"none", "login", "consent", "select_account", "none", "None", "login ", "x", "", "consent,login", "nonelogin"})
			if rng.P(60) {
				ps = list(3, []string{"none", "login", "consent", "select_account"})
			}
			pv := strings.Join(ps, " ")
			if pv != "" {
				none, other, known := false, false, true
				for _, w := range strings.Split(pv, " ") {
					switch w {
					case "none":
						none = true
					case "login", "consent", "select_account":
						other = true
					default:
						known = false
					}
				}
				if g := prompt.Validate(pv); g != (known && !(none && other)) {
					bad("prompt.Validate(%q) = %v", pv, g)
				} else if g {
					c.Count("words.prompt-valid")
				}
			}
			// response types
			rs := strings.Join(list(3, []string{"code", "token", "id_token"}), " ")
			if rng.P(30) {
				rs = strings.Join(list(3, []string{"code", "token", "id_token", "none", "Code", "", "code\t", "id_tokentoken", "tokens"}), " ")
			}
			ws := strings.Split(rs, " ")
			sort.Strings(ws)
			cnt := map[string]int{}
			ok := true
			for _, w := range ws {
				cnt[w]++
				ok = ok && (w == "code" || w == "token" || w == "id_token") && cnt[w] == 1
			}
			f, err := flow.JudgeByResponseType(rs)
			if (err == nil && f != nil) != ok {
				bad("JudgeByResponseType(%q) = %v, %v", rs, f, err)
			} else if ok {
				want := flow.Flow{Type: flow.Implicit, RequireAccessToken: cnt["token"] == 1, RequireIdToken: cnt["id_token"] == 1}
				if cnt["code"] == 1 {
					want.Type = flow.Hybrid
					if len(ws) == 1 {
						want.Type = flow.AuthorizationCode
					}
				}
				if *f != want {
					bad("JudgeByResponseType(%q) = %+v, want %+v", rs, *f, want)
				}
				b, err := json.Marshal(f)
				var back flow.Flow
				if err != nil || json.Unmarshal(b, &back) != nil || back != *f {
					bad("flow %+v is carried as %s", *f, b)
				}
				c.Count("words.flow")
			}
			// modes
			level := map[string]int{"query": 0, "fragment": 1, "form_post": 2}
			t1 := rng.Pick(append([]string{"Query", "", "form-post", "web_message", rng.Hostile()}, allModes...))
			_, known := level[t1]
			if g := response_mode.Validate(t1); g != known {
				bad("response_mode.Validate(%q) = %v", t1, g)
			}
			for _, t2 := range allModes {
				if g := response_mode.CompareSecurityLevel(t1, t2); g != (known && level[t1] >= level[t2]) {
					bad("CompareSecurityLevel(%q, %q) = %v", t1, t2, g)
				}
			}
		})
		c.Nontrivial(s + "|" + word)
		c.Sample()
	})
}

func init() {
	checks["C18"] = func(x *Ctx) {
		x.R.Rule = "response handlers called with hostile parameters and registered addresses, and authorization stories with hostile states; nontrivial by (mode, kind, address, parameters) and story course"
		runResponses(x, x.Scale(200000, 4000000))
		runAuth(x, "auth", x.Scale(30000, 500000), nil)
		for _, m := range allModes {
			x.Require("resp."+m+".success", 10000)
			x.Require("resp."+m+".error", 10000)
		}
	}
	checks["C26"] = func(x *Ctx) {
		x.R.Rule = "requests with arbitrary field values encoded, carried in a URL, cookie or form, and decoded; damaged encodings decoded, then completed or cancelled; nontrivial by encoding"
		runParked(x, x.Scale(80000, 1500000))
		runAuth(x, "auth", x.Scale(15000, 200000), []string{"info-missing", "prompt-consent"})
		x.Require("park.tampered", 10000)
		x.Require("park.roundtrip.cookie", 5000)
		x.Require("outcome.completed-after-consent", 1000)
	}
	checks["C27"] = func(x *Ctx) {
		x.R.Rule = "verifier/challenge pairs around equality under both methods, odd method names, batches of generated verifiers; nontrivial by pair or batch"
		runPkce(x, x.Scale(300000, 5000000))
		x.Require("pkce.generated", 100000)
		x.Require("pkce.match.S256", 1000)
		x.Require("pkce.mismatch.plain", 1000)
	}
	checks["C30"] = func(x *Ctx) {
		x.R.Rule = "id/secret pairs through Token, Header, FindClientCredential and the token endpoint, intact and malformed headers with and without parameters; nontrivial by pair or (header, parameters)"
		runBasic(x, x.Scale(60000, 1000000))
		x.Require("basic.endpoint", 5000)
		x.Require("basic.malformed", 5000)
	}
	checks["C31"] = func(x *Ctx) {
		x.R.Rule = "error types x hostile descriptions, URIs, realms and states in three renderings; nontrivial by values"
		runErrors(x, x.Scale(300000, 5000000))
		for _, t := range errorTypes {
			x.Require("err."+t.Code, 1000)
		}
	}
	checks["C33"] = func(x *Ctx) {
		x.R.Rule = "word lists over a hostile alphabet; nontrivial by (list, word)"
		runWords(x, x.Scale(300000, 5000000))
		x.Require("words.same", 5000)
		x.Require("words.flow", 5000)
		x.Require("words.prompt-valid", 5000)
	}
}
