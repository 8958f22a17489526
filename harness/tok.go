package main

// Token endpoint: generator, reference model, judge.

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/basic_auth"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/grant"
	oer "github.com/lyokato/goidc/oauth_error"
	"github.com/lyokato/goidc/pkce"
)

type TokCfg struct {
	Realm    string
	Secret   goidc.CredentialAcceptanceMethod
	Assert   bool
	URIMode  int // 0 none, 1 constant, 2 builder
	URIConst string
	Grants   []string
}

func uriOfType(t oer.OAuthErrorType) string { return "https://err.example.org/#" + t.String() }

func (cfg *TokCfg) errorURI(code string) string {
	switch cfg.URIMode {
	case 1:
		return cfg.URIConst
	case 2:
		return "https://err.example.org/#" + code
	}
	return ""
}

func handlerOf(gt string) *grant.GrantHandler {
	switch gt {
	case grant.TypeAuthorizationCode:
		return grant.AuthorizationCode()
	case grant.TypeRefreshToken:
		return grant.RefreshToken()
	case grant.TypePassword:
		return grant.Password()
	case grant.TypeClientCredentials:
		return grant.ClientCredentials()
	case grant.TypeJWT:
		return grant.JWT()
	}
	panic(gt)
}

func (cfg *TokCfg) Endpoint(w *World) *goidc.TokenEndpoint {
	return cfg.EndpointOn(&Logger{w})
}

// EndpointOn makes an endpoint whose clock and log are those of the world lg points to at the time.
func (cfg *TokCfg) EndpointOn(lg *Logger) *goidc.TokenEndpoint {
	te := goidc.NewTokenEndpoint(cfg.Realm)
	te.SetLogger(lg)
	te.SetTimeBuilder(func() time.Time { return lg.w.Clock() })
	te.AcceptClientSecret(cfg.Secret)
	te.AcceptClientAssertion(cfg.Assert)
	switch cfg.URIMode {
	case 1:
		te.SetErrorURI(cfg.URIConst)
	case 2:
		te.SetErrorURIBuilder(uriOfType)
	}
	for _, g := range cfg.Grants {
		te.Support(handlerOf(g))
	}
	return te
}

func genTokCfg(rng *Rng) *TokCfg {
	cfg := &TokCfg{Realm: rng.Pick([]string{"example.org", "api.example.org/v1", "My Realm", "日本", "r"}),
		Secret: goidc.CredentialAcceptanceMethod(rng.N(3)), Assert: rng.P(75), URIMode: rng.N(3),
		URIConst: rng.Pick([]string{"https://err.example.org/", "https://err.example.org/?a=b&c=\"d\"", "e"})}
	if rng.P(10) {
		cfg.Realm, cfg.URIConst = longRealm(rng, cfg.Realm), longURI(rng)
	}
	for _, g := range allGrants {
		if rng.P(92) {
			cfg.Grants = append(cfg.Grants, g)
		}
	}
	return cfg
}

// longURI is an address of a page about errors that doesn't fit a line.
func longURI(rng *Rng) string {
	n := int(rng.PickI([]int64{60, 100, 120, 190, 240, 500, 1000, 2000, 4000})) + rng.N(40)
	return "https://err.example.org/" + rng.Str(n)
}

func longRealm(rng *Rng, s string) string {
	if rng.Bool() {
		return s
	}
	return s + " " + rng.Str(20+rng.N(300))
}

// TokCase is one token request against a store.
type TokCase struct {
	W       *World
	Cfg     *TokCfg
	Req     *Req
	Asserts map[string]*Assertion
	Muts    []string
	GT      string
	Channel string
	Custom  bool // the integrator's own handler serves the grant type
	handler http.HandlerFunc
}

func (tc *TokCase) describe() []string {
	out := []string{fmt.Sprintf("config %+v", *tc.Cfg), fmt.Sprintf("mutations %q", tc.Muts), "request " + tc.Req.String()}
	for raw, a := range tc.Asserts {
		out = append(out, fmt.Sprintf("assertion %q: %s kid=%q claims=%v notes=%q", firstN(raw, 40), a.Alg, a.Kid, a.Claims, a.Note))
	}
	return out
}

// ---------------------------------------------------------------- generator

type tokGen struct {
	rng  *Rng
	tc   *TokCase
	want map[string]bool
	all  []string // dimensions offered so far (to pick from)
}

var dimsCommon = []string{"method", "gt-missing", "gt-odd", "gt-unsupported", "cred-none", "cred-wrong-secret", "cred-near-secret", "cred-near-id",
	"cred-other-secret", "cred-other-id", "cred-channel", "cred-malformed", "not-entitled", "disabled", "dup-params", "noise", "cred-empty"}
var dimsAssert = []string{"ca-corrupt", "ca-corrupt", "ca-claims", "ca-claims", "ca-key", "ca-type", "ca-replay", "ca-sub", "ca-off"}
var dimsOf = map[string][]string{
	grant.TypeAuthorizationCode: {"code-missing", "code-unknown", "code-disabled", "code-late", "code-edge", "code-other-client", "code-other-client", "uri-missing", "uri-near", "uri-other",
		"uri-near", "info-inactive", "info-missing", "pkce-method", "pkce-method-missing", "pkce-missing", "pkce-near", "pkce-near", "pkce-swap", "pkce-pad", "unsignable", "other-scope", "pkce-none"},
	grant.TypeRefreshToken:      {"rt-missing", "rt-unknown", "rt-late", "rt-edge", "rt-other-client", "rt-other-client", "info-inactive", "info-missing", "rt-offline", "rt-offline", "rt-access", "other-scope", "rt-dead"},
	grant.TypePassword:          {"user-missing", "pass-missing", "user-near", "pass-near", "pass-other", "scope-bad", "scope-bad", "scope-none"},
	grant.TypeClientCredentials: {"no-owner", "no-owner", "scope-bad", "scope-bad", "scope-none", "noise-user"},
	grant.TypeJWT:               {"a-missing", "a-corrupt", "a-corrupt", "a-claims", "a-claims", "a-key", "a-replay", "a-sub", "a-sub", "scope-bad", "scope-none", "a-same"},
}

func (g *tokGen) is(m string) bool { return g.want[m] }

func (tc *TokCase) W0() *World { return tc.W }

// GenTok makes a token request; gt "" picks one.
func GenTok(rng *Rng, gt string, focus []string) *TokCase {
	w := GenWorld(rng)
	tc := &TokCase{W: w, Cfg: genTokCfg(rng), Asserts: map[string]*Assertion{}}
	GenTokReq(rng, tc, gt, focus)
	return tc
}

// GenTokReq makes a request for the store and config of tc.
func GenTokReq(rng *Rng, tc *TokCase, gt string, focus []string) {
	w := tc.W
	if gt == "" {
		gt = allGrants[rng.N(5)]
		if rng.P(25) {
			gt = grant.TypeAuthorizationCode
		}
	}
	tc.GT = gt
	has := false
	for _, s := range tc.Cfg.Grants {
		has = has || s == gt
	}
	g := &tokGen{rng: rng, tc: tc, want: map[string]bool{}}
	cl := w.clientList()
	c := cl[rng.N(len(cl))]
	other := cl[rng.N(len(cl))]
	for other == c && len(cl) > 1 {
		other = cl[rng.N(len(cl))]
	}
	// channel
	chans := []string{"basic", "basic"}
	if tc.Cfg.Secret >= goidc.FromHeaderAndPostBody {
		chans = append(chans, "body")
	}
	if tc.Cfg.Secret == goidc.FromAll {
		chans = append(chans, "query")
	}
	if tc.Cfg.Assert {
		chans = append(chans, "assertion", "assertion")
	}
	ch := rng.Pick(chans)
	dims := append([]string{}, dimsCommon...)
	dims = append(dims, dimsOf[gt]...)
	dims = append(dims, dimsOf[gt]...)
	if ch == "assertion" {
		dims = append(dims, dimsAssert...)
	}
	nm := 0
	switch {
	case rng.P(30):
	case rng.P(75):
		nm = 1
	default:
		nm = 2
	}
	for i := 0; i < nm; i++ {
		m := rng.Pick(dims)
		if len(focus) > 0 && rng.P(70) {
			m = rng.Pick(focus)
		}
		if !g.want[m] {
			g.want[m] = true
			tc.Muts = append(tc.Muts, m)
		}
	}
	if !has && !g.is("gt-unsupported") {
		tc.Cfg.Grants = append(tc.Cfg.Grants, gt)
	}
	if g.is("gt-unsupported") {
		var keep []string
		for _, s := range tc.Cfg.Grants {
			if s != gt {
				keep = append(keep, s)
			}
		}
		tc.Cfg.Grants = keep
	}
	if ch == "basic" && strings.Contains(c.ID, ":") {
		c = cl[0]
	}
	q := &Req{Method: "POST", Path: rng.Pick([]string{"/token", "/", "/oauth/token"})}
	tc.Req = q
	put := func(k, v string) {
		if rng.P(12) {
			q.Query = append(q.Query, KV{k, v})
		} else {
			q.Body = append(q.Body, KV{k, v})
		}
	}
	if g.is("method") {
		q.Method = rng.Pick([]string{"GET", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "post", "Post", "TRACE", "FOO"})
		if rng.P(25) {
			q.Header = append(q.Header, KV{rng.Pick([]string{"X-HTTP-Method-Override", "X-Method-Override", "X-HTTP-Method"}), "POST"})
			q.Query = append(q.Query, KV{"_method", "POST"})
		}
		if rng.P(50) { // so that parameters are seen
			defer func() { q.Query, q.Body = append(q.Query, q.Body...), nil }()
		}
	}
	switch {
	case g.is("gt-missing"):
		if rng.Bool() {
			put("grant_type", "")
		}
	case g.is("gt-odd"):
		put("grant_type", rng.NearMiss(gt))
	default:
		put("grant_type", gt)
	}

	// ---- the grant
	u := w.Users[rng.N(len(w.Users))]
	user2 := w.Users[rng.N(len(w.Users))]
	target := c
	if g.is("code-other-client") || g.is("rt-other-client") {
		target = other
	}
	sc := scopeOf(rng, map[string]bool{"openid": true, "email": true, "profile": true, "offline_access": true, "api": true, "openid2": true})
	if gt == grant.TypeRefreshToken {
		if !hasWord(sc, "offline_access") && !g.is("rt-offline") {
			sc = strings.TrimSpace(sc + " offline_access")
		}
		if g.is("rt-offline") {
			sc = rng.Pick([]string{"", "openid", "openid email", "offline_access2", "offline", "xoffline_access openid", "OFFLINE_ACCESS", "offline_access,openid", "openid+offline_access"})
		}
	}
	// bystanders that a wrong lookup could hit
	if rng.P(50) {
		bi := w.addInfo(user2, other, "openid api")
		w.addSession(rng, bi, other.URIs[0])
		w.addToken(bi, true)
	}
	switch gt {
	case grant.TypeAuthorizationCode:
		info := w.addInfo(u, target, sc)
		if rng.P(12) {
			info.Scope = rng.Pick([]string{"", "openid", "openid offline_access", "email openid"})
		}
		if rng.P(6) {
			info.Scope = withMany(rng, info.Scope, nil)
		}
		s := w.addSession(rng, info, target.URIs[rng.N(len(target.URIs))])
		if w.Now > s.CreatedAt+s.ExpiresIn {
			s.CreatedAt = w.Now - s.ExpiresIn
		}
		code := s.Code
		switch {
		case g.is("code-missing"):
			code = ""
		case g.is("code-unknown"):
			code = rng.NearMiss(code)
		}
		if g.is("code-disabled") {
			s.Enabled = false
		}
		if g.is("code-late") {
			s.CreatedAt = w.Now - s.ExpiresIn - rng.PickI([]int64{1, 1, 2, 60, 100000})
			if rng.FreshP(10, 40, len(fresh.nums) > 0) {
				s.CreatedAt = w.Now - s.ExpiresIn - rng.Secs()
			}
			if rng.P(12) {
				s.CreatedAt = rng.PickI(specialTimes)
			}
		}
		if g.is("code-edge") {
			s.CreatedAt = w.Now - s.ExpiresIn + rng.PickI([]int64{0, 0, 1})
		}
		g.infoMuts(info)
		if !(g.is("code-missing") && rng.Bool()) {
			put("code", code)
		}
		uri := s.RedirectURI
		switch {
		case g.is("uri-missing"):
			uri = ""
		case g.is("uri-near"):
			uri = rng.NearMiss(uri)
			if rng.P(40) {
				uri = rng.Pick([]string{s.RedirectURI + "/", s.RedirectURI + "?", s.RedirectURI + "#", s.RedirectURI + "/x", s.RedirectURI + "&a=b", upper(s.RedirectURI), strings.TrimSuffix(s.RedirectURI, "/") + "//"})
			}
		case g.is("uri-other"):
			uri = rng.Pick([]string{"https://second.example.org/cb2", "https://evil.example/", target.URIs[len(target.URIs)-1], "x"})
		}
		if !(g.is("uri-missing") && rng.Bool()) {
			put("redirect_uri", uri)
		}
		pk := rng.P(45)
		for m := range g.want {
			if strings.HasPrefix(m, "pkce") {
				pk = true
			}
		}
		if g.is("pkce-none") {
			pk = false
			put("code_challenge", rng.Str(10))
			put("code_challenge_method", rng.Pick([]string{"plain", "S256", "x"}))
		}
		if pk {
			s.Verifier = rng.Pick([]string{rng.Str(43), rng.Str(43), rng.Str(64), "v", rng.Str(8) + "~._-", rng.Str(5) + "+/=& ", "日本" + rng.Str(5)})
			if rng.P(12) {
				s.Verifier = rng.Long()
			}
			meth := rng.Pick([]string{"plain", "S256", "S256"})
			proof := s.Verifier
			if meth == "S256" {
				proof = s256(s.Verifier)
			}
			switch {
			case g.is("pkce-method"):
				meth = rng.Pick([]string{"PLAIN", "s256", "S-256", "S512", "none", "plain ", " S256", "S256x", "SHA256", "0"})
			case g.is("pkce-method-missing"):
				meth = ""
			case g.is("pkce-missing"):
				proof = ""
			case g.is("pkce-near"):
				proof = rng.NearMiss(proof)
			case g.is("pkce-swap"): // the value of the other method
				if meth == "S256" {
					proof = s.Verifier
				} else {
					proof = s256(s.Verifier)
				}
			case g.is("pkce-pad"):
				proof = rng.Pick([]string{proof + "=", strings.Replace(proof, "-", "+", -1), s256(proof), s256Hex(s.Verifier), proof + "\x00", strings.Replace(proof, "_", "/", -1)})
			}
			if meth != "" || rng.Bool() {
				put("code_challenge_method", meth)
			}
			if proof != "" || rng.Bool() {
				put("code_challenge", proof)
			}
		}
		if g.is("unsignable") {
			c.Alg, c.Key = "HS256", nil
			switch rng.N(4) {
			case 0:
				c.Alg, c.Key = "none", []byte("x")
			case 1:
				c.Alg = ""
			case 2:
				c.Alg, c.Key = "RS256", []byte("not an rsa key")
			}
			c.Secret = "unsignable-" + c.Secret
		}
	case grant.TypeRefreshToken:
		info := w.addInfo(u, target, sc)
		info.Scope = sc
		if rng.P(6) && !g.is("rt-offline") {
			info.Scope = withMany(rng, sc, nil)
		}
		t := w.addToken(info, true)
		rt := t.Refresh
		switch {
		case g.is("rt-missing"):
			rt = ""
		case g.is("rt-unknown"):
			rt = rng.NearMiss(rt)
		case g.is("rt-access"):
			rt = t.Access
		}
		age := t.RefreshExpiresIn
		if age > 900000000 {
			age = 900000000
		}
		t.CreatedAt = w.Now - int64(rng.N(int(age+1)))
		if rng.FreshP(5, 40, len(fresh.nums) > 0) {
			if d := rng.Secs(); d <= age {
				t.CreatedAt = w.Now - d
			}
		}
		t.RefreshedAt = t.CreatedAt
		if rng.P(30) {
			t.RefreshedAt = w.Now
		}
		if g.is("rt-late") {
			t.CreatedAt = w.Now - t.RefreshExpiresIn - rng.PickI([]int64{1, 1, 2, 3600})
			if rng.FreshP(10, 40, len(fresh.nums) > 0) {
				t.CreatedAt = w.Now - t.RefreshExpiresIn - rng.Secs()
			}
			if rng.P(12) {
				t.CreatedAt = rng.PickI(specialTimes)
			}
			if rng.Bool() {
				t.RefreshedAt = w.Now
			}
		}
		if g.is("rt-edge") {
			t.CreatedAt = w.Now - t.RefreshExpiresIn + rng.PickI([]int64{0, 0, 1})
		}
		if g.is("rt-dead") {
			t.Live = false
		}
		g.infoMuts(info)
		if rt != "" || rng.Bool() {
			put("refresh_token", rt)
		}
	case grant.TypePassword:
		name, pass := u.Name, u.Password
		switch {
		case g.is("user-missing"):
			name = ""
		case g.is("user-near"):
			name = rng.NearMiss(name)
		}
		switch {
		case g.is("pass-missing"):
			pass = ""
		case g.is("pass-near"):
			pass = rng.NearMiss(pass)
		case g.is("pass-other"):
			pass = user2.Password
		}
		if name != "" || rng.Bool() {
			put("username", name)
		}
		if pass != "" || rng.Bool() {
			put("password", pass)
		}
		g.scopeParam(c, put)
	case grant.TypeClientCredentials:
		if g.is("no-owner") {
			c.Owner = -1
			if rng.P(20) {
				c.Owner = -int64(2 + rng.N(1000))
			}
		}
		if g.is("noise-user") {
			put("username", u.Name)
			put("password", u.Password)
		}
		g.scopeParam(c, put)
	case grant.TypeJWT:
		a := g.assertion(c, "a", u.Subject, other)
		if !g.is("a-missing") {
			put("assertion", a.Raw)
		} else if rng.Bool() {
			put("assertion", "")
		}
		g.scopeParam(c, put)
	}
	if g.is("other-scope") {
		put("scope", rng.Pick([]string{"openid api offline_access", "admin", ""}))
	}
	if g.is("disabled") {
		c.Disabled = true
	}
	if g.is("not-entitled") {
		c.Grants[gt] = false
	}

	// ---- client authentication
	id, sec := c.ID, c.Secret
	switch {
	case g.is("cred-wrong-secret"):
		sec = rng.Pick([]string{"wrong", rng.Str(10), "sec-", c.ID, c.Secret + c.Secret})
	case g.is("cred-near-secret"):
		sec = rng.NearMiss(sec)
	case g.is("cred-near-id"):
		id = rng.NearMiss(id)
	case g.is("cred-other-secret"):
		sec = other.Secret
	case g.is("cred-other-id"):
		id = other.ID
	case g.is("cred-empty"):
		if rng.Bool() {
			sec = ""
		} else {
			id = ""
		}
	}
	if g.is("cred-channel") { // a channel that is not configured
		switch rng.N(3) {
		case 0:
			tc.Cfg.Secret = goidc.FromHeader
			ch = rng.Pick([]string{"body", "query"})
			tc.Cfg.Assert = rng.Bool()
		case 1:
			tc.Cfg.Secret = goidc.FromHeaderAndPostBody
			ch = "query"
		default:
			tc.Cfg.Assert = false
			ch = "assertion"
		}
	}
	if g.is("ca-off") {
		tc.Cfg.Assert = false
	}
	tc.Channel = ch
	basic := func(id, sec string) {
		q.Header = append(q.Header, KV{"Authorization", "Basic " + b64(id+":"+sec)})
	}
	if g.is("cred-none") {
		ch = "none"
		if rng.P(30) {
			put("client_id", id)
		}
	}
	if g.is("cred-malformed") {
		q.Header = append(q.Header, KV{"Authorization", rng.Pick([]string{"Basic", "Basic ", "Basic !!!", "Basic " + b64(id), "Bearer " + b64(id+":"+sec),
			"Digest x", "Basic" + b64(id+":"+sec), "Basic  " + b64(id+":"+sec), b64(id + ":" + sec), "Basic " + b64(id+":"+sec) + "x!"})})
		if ch == "basic" {
			ch = "none"
		}
	}
	switch ch {
	case "basic":
		if rng.P(10) {
			q.Header = append(q.Header, KV{"Authorization", rng.Pick([]string{"basic ", "BASIC "}) + b64(id+":"+sec)})
		} else if rng.P(20) && isPlain(id+sec) {
			q.Header = append(q.Header, KV{"Authorization", basic_auth.Header(id, sec)})
		} else {
			basic(id, sec)
		}
		if rng.P(15) { // parameters must not override the header
			o := c
			if rng.Bool() {
				o = other
			}
			put("client_id", o.ID)
			put("client_secret", o.Secret)
		}
	case "body":
		q.Body = append(q.Body, KV{"client_id", id}, KV{"client_secret", sec})
	case "query":
		q.Query = append(q.Query, KV{"client_id", id}, KV{"client_secret", sec})
		if rng.P(10) && tc.Cfg.Secret != goidc.FromHeaderAndPostBody { // the body goes first
			q.Body = append(q.Body, KV{"client_id", other.ID})
		}
	case "assertion":
		sub := c.ID
		a := g.assertion(c, "ca", sub, other)
		raw := a.Raw
		if g.is("a-same") && gt == grant.TypeJWT && q.Get("assertion") != "" {
			raw = q.Get("assertion")
		}
		put("client_assertion", raw)
		typ := goidc.ClientAssertionTypeJWT
		if g.is("ca-type") {
			typ = rng.Pick([]string{"", rng.NearMiss(typ), "urn:ietf:params:oauth:client-assertion-type:saml2-bearer", "urn:ietf:params:oauth:grant-type:jwt-bearer"})
		}
		if typ != "" || rng.Bool() {
			put("client_assertion_type", typ)
		}
		if rng.P(10) && tc.Cfg.Secret == goidc.FromHeader {
			put("client_id", rng.Pick([]string{c.ID, other.ID}))
			put("client_secret", other.Secret)
		}
	}
	if g.is("dup-params") {
		for n := 0; n < 1+rng.N(3); n++ {
			all := append(append([]KV{}, q.Body...), q.Query...)
			if len(all) == 0 {
				break
			}
			kv := all[rng.N(len(all))]
			kv.V = rng.Pick([]string{kv.V, rng.NearMiss(kv.V), "", rng.Hostile()})
			if strings.Contains(kv.K, "assertion") {
				continue
			}
			switch rng.N(3) {
			case 0:
				q.Body = append(q.Body, kv)
			case 1:
				q.Query = append(q.Query, kv)
			default:
				q.Body = append([]KV{kv}, q.Body...)
			}
		}
	}
	if !g.is("dup-params") {
		w.addDecoys(rng, q, tokNames, put)
	}
	if g.is("noise") || rng.P(10) {
		for n := 0; n < 1+rng.N(4); n++ {
			k := rng.Pick([]string{"state", "scope2", "resource", "x", "client", "GRANT_TYPE", "Code", "id_token_hint", "audience", "nonce", rng.Hostile()})
			if tokNames[k] {
				continue
			}
			put(k, rng.Hostile())
		}
	}
	// order of parameters is free
	if rng.P(40) && !g.is("dup-params") {
		p := rng.Perm(len(q.Body))
		nb := make([]KV, len(p))
		for i, j := range p {
			nb[i] = q.Body[j]
		}
		q.Body = nb
	}
}

func isPlain(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isAlnum(s[i]) && s[i] != '-' {
			return false
		}
	}
	return true
}

func (g *tokGen) infoMuts(i *Info) {
	if g.is("info-inactive") {
		i.Active = false
	}
	if g.is("info-missing") {
		delete(g.tc.W.Infos, i.ID)
	}
}

func (g *tokGen) scopeParam(c *Client, put func(k, v string)) {
	rng := g.rng
	al := c.Scopes[flow.DirectGrant]
	sc := scopeOf(rng, al)
	if rng.P(6) {
		sc = withMany(rng, sc, c)
	}
	if g.is("scope-bad") {
		switch rng.N(7) {
		case 6: // one bad word somewhere among many
			sc = shuffleWords(rng, withMany(rng, sc, c)+" "+rng.Pick([]string{"admin", "s0x", "s1.writ", "root"}))
		case 0:
			sc = strings.TrimSpace(sc + " admin")
		case 1:
			sc = rng.NearMiss(sc)
		case 2:
			sc = rng.Pick(scopeWords) + " " + rng.Pick(scopeWords)
		case 3:
			sc = rng.Pick([]string{" ", "openid  email", "openid\temail", "OPENID", "openid,email", "*", "openid ", " openid"})
		case 4:
			w := rng.Pick(scopeWords)
			delete(al, w)
			sc = w
		default: // words of another flow only
			w := rng.Pick(scopeWords)
			for f := range c.Scopes {
				c.Scopes[f][w] = true
			}
			delete(al, w)
			sc = strings.TrimSpace(sc + " " + w)
		}
	}
	if l := strings.Fields(sc); rng.P(6) && len(l) > 0 && strings.Join(l, " ") == sc { // said twice
		sc = shuffleWords(rng, sc+" "+rng.Pick(l))
	}
	if g.is("scope-none") {
		sc = ""
		if rng.Bool() {
			return
		}
	}
	if sc == "" && rng.Bool() {
		return
	}
	put("scope", sc)
}

// assertion makes a JWT for client c with subject sub; pre is the prefix of the mutations that apply.
func (g *tokGen) assertion(c *Client, pre, sub string, other *Client) *Assertion {
	rng, w := g.rng, g.tc.W
	keys := []string{}
	for k := range c.AssertionKeys {
		keys = append(keys, k)
	}
	sortStrings(keys)
	ak := keys[rng.N(len(keys))]
	alg, kid, _ := strings.Cut(ak, "|")
	var key *Key
	for _, k := range keyring {
		if k.Family == famOf(alg) && sameKey(k.Pub, c.AssertionKeys[ak]) {
			key = k
		}
	}
	if key == nil {
		panic("no key for " + ak)
	}
	claims := map[string]interface{}{"sub": sub, "aud": w.Issuer, "exp": w.Now + int64(rng.N(600))}
	if rng.P(80) {
		claims["jti"] = "jti-" + rng.Str(10)
		if rng.P(10) {
			claims["jti"] = rng.HostileText()
		}
	}
	if rng.P(70) {
		claims["iat"] = w.Now - int64(rng.N(100))
	}
	if rng.P(40) {
		claims["nbf"] = w.Now - int64(rng.N(100))
	}
	if rng.P(50) {
		claims["iss"] = c.ID
	}
	if rng.P(20) {
		claims["x-"+rng.Str(3)] = rng.Str(5)
	}
	if rng.P(10) {
		claims["exp"] = float64(w.Now) + 100.5
	}
	if rng.P(12) { // made to live as briefly as can be
		claims["iat"] = w.Now
		claims["exp"] = w.Now + int64(rng.N(2))
	}
	if rng.P(8) {
		claims["exp"] = w.Now + rng.PickI(bigSecs)
	}
	if rng.FreshP(6, 40, len(fresh.nums) > 0) {
		claims["exp"] = w.Now + rng.Secs()
		if rng.Bool() {
			claims["iat"] = w.Now - rng.Secs()
		}
	}
	if rng.FreshP(15, 45, len(fresh.words) > 0) {
		for n := 1 + rng.N(4); n > 0; n-- {
			claims[rng.Name(jwtNames)] = w.decoyClaim(rng)
		}
	}
	if rng.P(10) {
		rng.scopeClaims(claims)
	}
	var notes []string
	note := func(s string) { notes = append(notes, s) }
	if g.is(pre + "-sub") {
		switch rng.N(5) {
		case 0:
			delete(claims, "sub")
		case 1:
			claims["sub"] = rng.pickAny([]interface{}{nil, 1, 1.5, true, []string{sub}, map[string]string{"sub": sub}, []interface{}{}, 2, 11})
			if n, err := strconv.Atoi(sub); err == nil {
				claims["sub"] = rng.pickAny([]interface{}{n, float64(n) + 0.25, []int{n}})
			} else if u := w.Users[rng.N(len(w.Users))]; rng.P(30) {
				claims["sub"] = rng.pickAny([]interface{}{u.ID, fmt.Sprint(u.ID)})
			}
		case 2:
			claims["sub"] = rng.NearMiss(sub)
		case 3:
			claims["sub"] = ""
		default:
			if pre == "ca" {
				claims["sub"] = other.ID
			} else {
				claims["sub"] = rng.Pick([]string{c.ID, "alice", "nobody"})
			}
		}
		rng.elsewhere(claims, sub)
		note(fmt.Sprintf("sub=%v", claims["sub"]))
	}
	if g.is(pre + "-claims") {
		switch rng.N(14) {
		case 0:
			delete(claims, "exp")
		case 1:
			claims["exp"] = rng.pickAny([]interface{}{nil, "x", fmt.Sprint(w.Now + 100), true, []int{1}, map[string]int{}, 0, -1, 0.5, -0.5, 1, 0.0})
		case 2:
			claims["exp"] = w.Now - 1
		case 3:
			claims["exp"] = w.Now // last second
		case 4:
			claims["exp"] = w.Now - int64(2+rng.N(100000))
		case 5:
			claims["nbf"] = w.Now + 1
		case 6:
			claims["nbf"] = w.Now
		case 7:
			claims["nbf"] = rng.pickAny([]interface{}{nil, "x", fmt.Sprint(w.Now - 100), true, []int{1}, w.Now + 100000})
		case 8:
			claims["iat"] = w.Now + 1 + int64(rng.N(1000))
		case 9:
			claims["iat"] = rng.pickAny([]interface{}{nil, "x", true, []int{1}, w.Now, 0, -5})
		case 10:
			delete(claims, "aud")
		case 11:
			claims["aud"] = rng.pickAny([]interface{}{nil, 1, true, []string{}, map[string]string{"a": w.Issuer}, "", rng.NearMiss(w.Issuer), "https://other.example.org",
				[]string{"https://other.example.org"}, []int{1}, w.Issuer + "/", "https://issuer.example.org.evil.example"})
		case 12:
			claims["aud"] = rng.NearMiss(w.Issuer)
			if rng.Bool() { // what others take for an audience
				claims["aud"] = rng.Pick([]string{w.Issuer + "/token", "https://op.example.org/token", "http://op.example.org/token", "op.example.org", w.Issuer + "/oauth/token", w.Issuer + "/oauth2/token",
					w.Issuer + "token", c.ID, "example.org", "/token", "token", "*"})
			}
		default:
			claims["jti"] = rng.pickAny([]interface{}{nil, 5, true, "", []string{"a"}})
		}
		note(fmt.Sprintf("claims=%v", claims))
	}
	spec := &AssertSpec{Alg: alg, Kid: kid, Key: key, Claims: claims}
	if g.is(pre + "-key") { // right format, key not registered this way
		switch rng.N(4) {
		case 0:
			spec.Kid = rng.Pick([]string{"zz", kid + "x", "a9", "A1"})
		case 1: // another client's key
			ok := []string{}
			for k := range other.AssertionKeys {
				ok = append(ok, k)
			}
			sortStrings(ok)
			x := ok[rng.N(len(ok))]
			spec.Alg, spec.Kid, _ = strings.Cut(x, "|")
			for _, k := range keyring {
				if k.Family == famOf(spec.Alg) && sameKey(k.Pub, other.AssertionKeys[x]) {
					spec.Key = k
				}
			}
		case 2: // another algorithm of the same family
			fam := map[string][]string{"HS": {"HS256", "HS384", "HS512"}, "RS": {"RS256", "RS384", "RS512", "PS256", "PS384", "PS512"}}[famOf(alg)]
			if fam != nil {
				spec.Alg = rng.Pick(fam)
			}
		default: // the client's HS secret
			spec.Alg, spec.Key = "HS256", &Key{Name: "client-secret", Family: "HS", Priv: []byte(c.Secret), Pub: []byte(c.Secret)}
		}
		note("key")
	}
	corrupt := ""
	if g.is(pre + "-corrupt") {
		corrupt = rng.Pick(corruptions)
	}
	a := spec.Build(rng, corrupt)
	a.Note = append(a.Note, notes...)
	g.tc.Asserts[a.Raw] = a
	if g.is(pre + "-replay") {
		jti, iat, exp := a.recorded()
		w.JTIs[jtiKey(c.ID, jti, iat, exp)] = 1
		a.Note = append(a.Note, "replayed")
	}
	return a
}

func jtiKey(cid, jti string, iat, exp int64) string {
	if jti == "" {
		return fmt.Sprintf("%s\x00\x00%d\x00%d", cid, iat, exp)
	}
	return cid + "\x00" + jti
}

// ---------------------------------------------------------------- reference model

type Cond struct {
	Name  string
	Props string
	Codes []string
}

type TokExpect struct {
	NotPost    bool
	Conds      []Cond
	Client     *Client
	Header     bool // credentials came in the header, or there were none
	Grant      string
	Info       *Info    // authorization expected to be used
	Session    *Session // code grant
	Token      *Token   // refresh grant
	UserID     int64    // direct grants
	Scope      string
	Recs       []*Assertion // assertions that have to be registered
	RecClients []string
	MayCreate  bool // failing after the creation steps is legitimate
}

func (e *TokExpect) fail(name, props string, codes ...string) {
	e.Conds = append(e.Conds, Cond{name, props, codes})
}

var assertCodes = []string{"invalid_client", "invalid_grant", "invalid_request"}

// checkAssertion adds the reasons to refuse assertion raw for client c (nil: take the client from the subject).
func (e *TokExpect) checkAssertion(tc *TokCase, pre *World, raw string, c *Client, asClient bool) *Client {
	props := "C07 C06"
	if asClient {
		props = "C07 C01"
	}
	a := tc.Asserts[raw]
	if a == nil || a.Malformed {
		e.fail("assertion malformed", props, assertCodes...)
		return nil
	}
	sub, subOK := a.Claims["sub"].(string)
	if asClient {
		if !subOK {
			e.fail("assertion names no subject", props, assertCodes...)
			return nil
		}
		c = pre.Clients[sub]
		if c == nil || c.Disabled {
			e.fail("assertion subject is no client", props, assertCodes...)
			return nil
		}
	} else if !subOK {
		e.fail("assertion names no subject", props, assertCodes...)
	}
	key, ok := c.AssertionKeys[a.Alg+"|"+a.Kid]
	switch {
	case !a.KnownAlg:
		e.fail("assertion algorithm unknown", props, assertCodes...)
	case !ok:
		e.fail("no key registered for algorithm and key id", props, assertCodes...)
	case a.VerifyKey == nil || !sameKey(a.VerifyKey.Pub, key):
		e.fail("assertion signature does not verify", props, assertCodes...)
	}
	for _, p := range a.claimProblems(pre.Now, pre.Issuer) {
		e.fail("assertion "+p, props, assertCodes...)
	}
	jti, iat, exp := a.recorded()
	k := jtiKey(c.ID, jti, iat, exp)
	if pre.JTIs[k] > 0 {
		e.fail("assertion was presented before", "C08 "+props, assertCodes...)
	}
	pre.JTIs[k]++
	e.Recs = append(e.Recs, a)
	e.RecClients = append(e.RecClients, c.ID)
	return c
}

// Expect computes what must happen; pre is a snapshot of the store that may be scribbled on.
func (tc *TokCase) Expect(pre *World) *TokExpect {
	e := &TokExpect{}
	r := tc.Req.Build()
	if r.Method != "POST" {
		e.NotPost = true
		return e
	}
	p := r.FormValue
	gt := p("grant_type")
	e.Grant = gt
	supported := false
	for _, g := range tc.Cfg.Grants {
		supported = supported || g == gt
	}
	if gt == "" {
		e.fail("grant_type missing", "C01", "invalid_request")
	} else if !supported {
		e.fail("grant_type unsupported", "C01", "unsupported_grant_type")
	}

	// client authentication
	var c *Client
	id, sec, ok := parseBasic(r.Header.Get("Authorization"))
	switch {
	case ok:
		e.Header = true
	case tc.Cfg.Secret == goidc.FromHeaderAndPostBody:
		id, sec = r.PostFormValue("client_id"), r.PostFormValue("client_secret")
		ok = id != "" && sec != ""
	case tc.Cfg.Secret == goidc.FromAll:
		id, sec = p("client_id"), p("client_secret")
		ok = id != "" && sec != ""
	}
	switch {
	case ok:
		c = pre.Clients[id]
		if c == nil || c.Disabled {
			e.fail("client unknown", "C01", "invalid_client")
			c = nil
		} else if sec != c.Secret {
			e.fail("client secret mismatch", "C01", "invalid_client")
		}
	case tc.Cfg.Assert && p("client_assertion") != "" && p("client_assertion_type") == goidc.ClientAssertionTypeJWT:
		c = e.checkAssertion(tc, pre, p("client_assertion"), nil, true)
	default:
		e.Header = true
		e.fail("no acceptable credential", "C01", "invalid_client")
	}
	if c == nil {
		return e
	}
	e.Client = c
	if !c.Grants[gt] && supported {
		e.fail("client not entitled to the grant type", "C01", "unauthorized_client")
	}
	if !supported || tc.Custom {
		return e
	}
	scopeCheck := func() {
		e.Scope = p("scope")
		if e.Scope != "" && !c.AllowsScope(flow.DirectGrant, e.Scope) {
			e.fail("scope not allowed", "C06", "invalid_scope")
		}
	}
	switch gt {
	case grant.TypeAuthorizationCode:
		code, uri := p("code"), p("redirect_uri")
		if uri == "" {
			e.fail("redirect_uri missing", "C02", "invalid_request")
		}
		if code == "" {
			e.fail("code missing", "C02", "invalid_request")
			return e
		}
		s := pre.Sessions[code]
		if s == nil || !s.Enabled {
			e.fail("code unknown or used", "C02 C04", "invalid_grant")
			return e
		}
		e.Session = s
		if pre.Now > s.CreatedAt+s.ExpiresIn {
			e.fail("code expired", "C02", "invalid_grant")
		}
		if uri != s.RedirectURI && uri != "" {
			e.fail("redirect_uri differs", "C02", "invalid_grant")
		}
		if s.Verifier != "" {
			m, proof := p("code_challenge_method"), p("code_challenge")
			switch {
			case m != "plain" && m != "S256":
				e.fail("code challenge method not supported", "C03", "invalid_request", "invalid_grant")
			case proof == "":
				e.fail("code challenge missing", "C03", "invalid_request", "invalid_grant")
			case m == "plain" && proof != s.Verifier, m == "S256" && proof != s256(s.Verifier):
				e.fail("code challenge wrong", "C03", "invalid_grant")
			}
			if m == "" && proof == "" {
				e.fail("code challenge missing", "C03", "invalid_request", "invalid_grant")
			}
		}
		i := pre.Infos[s.AuthID]
		if i == nil || !i.Active {
			e.fail("authorization not active", "C02", "invalid_grant")
			return e
		}
		e.Info = i
		if i.ClientID != c.ID {
			e.fail("code of another client", "C02", "invalid_grant")
		}
		if hasWord(i.Scope, "openid") && c.unsignable() {
			e.fail("ID token cannot be signed", "C10", "server_error")
			e.MayCreate = len(e.Conds) == 1
		}
	case grant.TypeRefreshToken:
		rt := p("refresh_token")
		if rt == "" {
			e.fail("refresh_token missing", "C05", "invalid_request")
			return e
		}
		var t *Token
		for _, x := range pre.Tokens {
			if x.Live && x.Refresh == rt {
				t = x
			}
		}
		if t == nil {
			e.fail("refresh token unknown", "C05", "invalid_grant")
			return e
		}
		e.Token = t
		if pre.Now > t.CreatedAt+t.RefreshExpiresIn {
			e.fail("refresh token expired", "C05", "invalid_grant")
		}
		i := pre.Infos[t.AuthID]
		if i == nil || !i.Active {
			e.fail("authorization not active", "C05", "invalid_grant")
			return e
		}
		e.Info = i
		if i.ClientID != c.ID {
			e.fail("refresh token of another client", "C05", "invalid_grant")
		}
		if !hasWord(i.Scope, "offline_access") {
			e.fail("no offline access", "C05", "invalid_grant")
		}
	case grant.TypePassword:
		name, pass := p("username"), p("password")
		if name == "" {
			e.fail("username missing", "C06", "invalid_request")
		}
		if pass == "" {
			e.fail("password missing", "C06", "invalid_request")
		}
		e.UserID = -1
		for _, u := range pre.Users {
			if u.Name == name && u.Password == pass {
				e.UserID = u.ID
			}
		}
		if e.UserID < 0 && name != "" && pass != "" {
			e.fail("user unknown", "C06", "invalid_grant")
		}
		scopeCheck()
	case grant.TypeClientCredentials:
		e.UserID = c.Owner
		if c.Owner < 0 {
			e.fail("client has no owner", "C06", "invalid_grant")
		}
		scopeCheck()
	case grant.TypeJWT:
		raw := p("assertion")
		if raw == "" {
			e.fail("assertion missing", "C07 C06", "invalid_request")
			scopeCheck()
			return e
		}
		e.checkAssertion(tc, pre, raw, c, false)
		e.UserID = -1
		if a := tc.Asserts[raw]; a != nil && !a.Malformed {
			if sub, ok := a.Claims["sub"].(string); ok {
				for _, u := range pre.Users {
					if u.Subject == sub {
						e.UserID = u.ID
					}
				}
				if e.UserID < 0 {
					e.fail("assertion subject is no user", "C06 C07", "invalid_grant")
				}
			}
		}
		scopeCheck()
	}
	return e
}

// authFailed tells whether the credentials in the header, or their absence, are refused.
func (e *TokExpect) authFailed() bool {
	for _, c := range e.Conds {
		if c.Name == "client unknown" || c.Name == "client secret mismatch" || c.Name == "no acceptable credential" {
			return true
		}
	}
	return false
}

func (e *TokExpect) codes() map[string]bool {
	m := map[string]bool{}
	for _, c := range e.Conds {
		for _, k := range c.Codes {
			m[k] = true
		}
	}
	return m
}
func (e *TokExpect) props() string {
	out := ""
	for _, c := range e.Conds {
		out += " " + c.Props
	}
	return strings.TrimSpace(out)
}
func (e *TokExpect) names() string {
	out := []string{}
	for _, c := range e.Conds {
		out = append(out, c.Name)
	}
	return strings.Join(out, "; ")
}

// ---------------------------------------------------------------- judge

var tokenErrorCodes = map[string]int{"invalid_request": 400, "invalid_client": 400, "invalid_grant": 400, "unauthorized_client": 400,
	"unsupported_grant_type": 400, "invalid_scope": 400, "server_error": 500, "access_denied": 403, "temporarily_unavailable": 500}

// strictObject reads exactly one JSON object without repeated members.
func strictObject(b []byte) (map[string]interface{}, string) {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	t, err := d.Token()
	if err != nil || t != json.Delim('{') {
		return nil, "not a JSON object"
	}
	m := map[string]interface{}{}
	for d.More() {
		k, err := d.Token()
		if err != nil {
			return nil, "broken JSON"
		}
		ks, ok := k.(string)
		if !ok {
			return nil, "broken JSON member"
		}
		if _, dup := m[ks]; dup {
			return nil, "repeated member " + ks
		}
		var v interface{}
		if err := d.Decode(&v); err != nil {
			return nil, "broken JSON value"
		}
		m[ks] = v
	}
	if _, err := d.Token(); err != nil {
		return nil, "broken JSON end"
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, "data after the JSON object"
	}
	return m, ""
}

// creations are the calls that make or change something a client could use.
var creations = []string{"CreateOAuthToken", "RefreshAccessToken", "CreateOrUpdateAuthInfo", "CreateAuthSession"}

func plural(e *TokExpect) string { return e.props() }

// JudgeTok compares what happened with what had to happen. calls are those of this request.
func (tc *TokCase) JudgeTok(c *Case, e *TokExpect, rec *Rec, calls []*Call) (granted bool) {
	w := tc.W
	if rec.Panic != "" {
		c.Violate("*", "token endpoint panicked: %s", rec.Panic)
		return
	}
	if e.NotPost {
		if rec.Status != http.StatusMethodNotAllowed {
			c.Violate("C01 C09 C24", "method %s answered with %s, want 405", tc.Req.Method, rec)
		}
		if rec.Statuses != 1 {
			c.Violate("C09 C24", "status sent %d times", rec.Statuses)
		}
		for _, k := range calls {
			if k.Method != "Issuer" && k.Method != "FindClientById" && k.Method != "MatchSecret" {
				c.Violate("C01", "method %s led to %s", tc.Req.Method, k)
			}
		}
		c.Count("judged.405")
		return
	}
	if p := rec.LengthProblem(); p != "" {
		c.Violate("C09 C24", "%s", p)
	}
	if rec.Statuses != 1 {
		c.Violate("C09 C24", "status sent %d times: %s", rec.Statuses, rec)
		if rec.Statuses == 0 {
			return
		}
	}
	if ct := rec.Sent.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
		c.Violate("C09", "Content-Type %q", ct)
	}
	if cc := rec.Sent.Get("Cache-Control"); !strings.Contains(cc, "no-store") {
		c.Violate("C09", "Cache-Control %q", cc)
	}
	if pr := rec.Sent.Get("Pragma"); pr != "no-cache" {
		c.Violate("C09", "Pragma %q", pr)
	}
	body, problem := strictObject(rec.Body.Bytes())
	if problem != "" {
		c.Violate("C09 C24 C31", "body %q: %s", rec.Body.String(), problem)
		return
	}
	_, hasError := body["error"]
	granted = body["access_token"] != nil || body["refresh_token"] != nil || body["id_token"] != nil
	if rec.Status == 200 != !hasError {
		c.Violate("C09", "status %d with body %q", rec.Status, rec.Body.String())
	}
	if len(e.Conds) > 0 { // must be refused
		if granted || !hasError {
			c.Violate(e.props()+" C29", "tokens handed out although: %s; response %s", e.names(), rec)
		} else {
			code, _ := body["error"].(string)
			if !e.codes()[code] {
				c.Violate(e.props()+" C09", "error %q does not fit: %s", code, e.names())
			}
			tc.judgeErrorShape(c, e, rec, body, code)
		}
		if !e.MayCreate {
			for _, k := range calls {
				for _, m := range creations {
					if k.Method == m {
						c.Violate(e.props()+" C20 C29", "%s although: %s", k, e.names())
					}
				}
				if k.Method == "DisableSession" {
					c.Violate("C02 C03 C04 C29", "a refused exchange consumed the code: %s although: %s", k, e.names())
				}
			}
		}
		c.Count("refused")
		for _, cd := range e.Conds {
			c.Count("cond." + strings.ReplaceAll(cd.Name, " ", "_"))
		}
		return
	}
	// must succeed
	owner := map[string]string{grant.TypeAuthorizationCode: "C02", grant.TypeRefreshToken: "C05", grant.TypePassword: "C06",
		grant.TypeClientCredentials: "C06", grant.TypeJWT: "C06 C07"}[e.Grant]
	if hasError || !granted {
		props := owner + " C01 C29"
		if e.Session != nil && e.Session.Verifier != "" {
			props += " C03"
		}
		if len(e.Recs) > 0 {
			props += " C07 C08"
		}
		if e.Session != nil && e.Info != nil && hasWord(e.Info.Scope, "openid") {
			props += " C10"
		}
		c.Violate(props, "a %s request meeting all conditions was refused: %s", e.Grant, rec)
		return
	}
	c.Count("granted")
	c.Count("granted." + e.Grant)
	// registrations precede
	recIdx := -1
	regs := []*Call{}
	firstCreate := len(calls)
	for i, k := range calls {
		if k.Method == "RecordAssertionClaims" {
			regs = append(regs, k)
			recIdx = i
		}
		for _, m := range creations {
			if k.Method == m && i < firstCreate {
				firstCreate = i
			}
		}
	}
	if len(regs) != len(e.Recs) {
		c.Violate("C08", "%d assertions accepted with %d registrations", len(e.Recs), len(regs))
	} else {
		for i, a := range e.Recs {
			jti, iat, exp := a.recorded()
			want := []string{q(e.RecClients[i]), q(jti), fmt.Sprint(iat), fmt.Sprint(exp)}
			if strings.Join(want, ",") != strings.Join(regs[i].Args, ",") || regs[i].Result != "ok" {
				c.Violate("C08", "assertion registered as %s, want (%s)", regs[i], strings.Join(want, ", "))
			}
		}
		if recIdx > firstCreate {
			c.Violate("C08", "the assertion was registered after credentials were created")
		}
	}
	// creation calls
	var tok *Token
	ncreate, nrefresh, ninfo, ndis := 0, 0, 0, 0
	info := e.Info
	for _, k := range calls {
		switch k.Method {
		case "CreateOAuthToken":
			ncreate++
			tok, _ = k.Obj.(*Token)
			if info != nil && (k.Args[0] != fmt.Sprint(info.ID) || k.Args[1] != "true") {
				c.Violate(owner+" C29", "token created by %s for authorization %d", k, info.ID)
			}
		case "RefreshAccessToken":
			nrefresh++
			tok, _ = k.Obj.(*Token)
			if info == nil || e.Token == nil || k.Args[0] != fmt.Sprint(info.ID) || k.Args[1] != q(e.Token.Refresh) {
				c.Violate("C05 C29", "unexpected %s", k)
			}
		case "CreateOrUpdateAuthInfo":
			ninfo++
			if k.Args[0] != fmt.Sprint(e.UserID) || k.Args[1] != q(e.Client.ID) || k.Args[2] != q(e.Scope) {
				c.Violate("C06 C01 C29", "authorization made by %s, want user %d client %q scope %q", k, e.UserID, e.Client.ID, e.Scope)
			}
			if k.Obj != nil {
				info = k.Obj.(*Info)
			}
		case "DisableSession":
			ndis++
			if e.Session == nil || k.Args[0] != q(e.Session.Code) || k.Result != "ok" {
				c.Violate("C04 C29", "unexpected %s", k)
			}
		case "CreateAuthSession":
			c.Violate("C29", "unexpected %s", k)
		}
	}
	wc, wr, wi, wd := 1, 0, 0, 0
	switch e.Grant {
	case grant.TypeAuthorizationCode:
		wd = 1
	case grant.TypeRefreshToken:
		wc, wr = 0, 1
	default:
		wi = 1
	}
	if ndis != wd {
		c.Violate("C04", "%d DisableSession calls, want %d", ndis, wd)
	}
	if ncreate != wc || nrefresh != wr || ninfo != wi {
		c.Violate(owner+" C09 C29", "%d tokens created, %d refreshed, %d authorizations made", ncreate, nrefresh, ninfo)
	}
	if tok == nil || info == nil {
		return
	}
	want := map[string]interface{}{"access_token": jsonText(tok.Access), "expires_in": json.Number(fmt.Sprint(tok.AccessExpiresIn))}
	if tok.Refresh != "" {
		want["refresh_token"] = jsonText(tok.Refresh)
	}
	if info.Scope != "" {
		want["scope"] = jsonText(info.Scope)
	}
	tt, _ := body["token_type"].(string)
	if lower(tt) != "bearer" {
		c.Violate("C09", "token_type %v", body["token_type"])
	}
	delete(body, "token_type")
	idt, hasIDT := body["id_token"]
	delete(body, "id_token")
	for k, v := range want {
		if body[k] != v {
			p := "C09"
			if k == "scope" || k == "access_token" || k == "refresh_token" {
				p += " C29 " + owner
			}
			c.Violate(p, "response member %s is %v, want %v", k, body[k], v)
		}
	}
	for k, v := range body {
		if _, ok := want[k]; !ok {
			c.Violate("C09 "+owner, "response has member %s=%v", k, v)
		}
	}
	wantIDT := e.Grant == grant.TypeAuthorizationCode && hasWord(info.Scope, "openid")
	if hasIDT != wantIDT {
		c.Violate("C10 C09", "id_token present=%v, want %v (scope %q)", hasIDT, wantIDT, info.Scope)
	} else if wantIDT {
		raw, _ := idt.(string)
		c.Count("idtoken.code")
		problems, known := JudgeIDToken(raw, &IDTExpect{Alg: e.Client.Alg, Kid: e.Client.Kid, Pub: pubOf(e.Client.Key), Iss: w.Issuer, Aud: e.Client.ID,
			Sub: info.Subject, Nonce: e.Session.Nonce, AuthTime: e.Session.AuthTime, Iat: w.Now, Exp: w.Now + e.Session.IdTokenExpiresIn})
		for _, p := range problems {
			c.Violate("C10 C02", "%s", p)
		}
		for _, k := range known {
			c.Known("C10", "KF1", k)
		}
	}
	return
}

func (tc *TokCase) judgeErrorShape(c *Case, e *TokExpect, rec *Rec, body map[string]interface{}, code string) {
	st, known := tokenErrorCodes[code]
	if !known {
		c.Violate("C09", "unregistered error code %q", code)
		return
	}
	wa := rec.Sent["Www-Authenticate"]
	if code == "invalid_client" && e.Header && e.authFailed() {
		st = 401
		want := "Basic realm=\"" + tc.Cfg.Realm + "\""
		if len(wa) != 1 || wa[0] != want {
			c.Violate("C09", "WWW-Authenticate %q, want %q", wa, want)
		}
	} else if len(wa) > 0 && rec.Status != 401 {
		c.Violate("C09", "WWW-Authenticate %q with status %d", wa, rec.Status)
	}
	if rec.Status != st {
		c.Violate("C09", "error %s with status %d, want %d", code, rec.Status, st)
	}
	wantURI := tc.Cfg.errorURI(code)
	got, has := body["error_uri"]
	if has != (wantURI != "") || has && got != jsonText(wantURI) {
		c.Violate("C09", "error_uri %v, want %q", got, wantURI)
	}
	for k, v := range body {
		if k != "error" && k != "error_description" && k != "error_uri" {
			c.Violate("C09", "error response has member %s", k)
		} else if s, ok := v.(string); !ok || s == "" {
			c.Violate("C09", "error response member %s is %v", k, v)
		}
	}
}

// Run sends the request and returns what was written and the calls made.
func (tc *TokCase) Serve(h http.HandlerFunc) (*Rec, []*Call) {
	rec := NewRec()
	n := len(tc.W.Calls)
	setJWTClock(tc.W)
	r := tc.Req.Build()
	guard(rec, func() { h(rec, r) })
	return rec, tc.W.Calls[n:]
}

// Go is the whole cycle. Some endpoints have served requests of other stores before, which are judged as well.
func (tc *TokCase) Go(c *Case) (*TokExpect, *Rec, []*Call, bool) {
	lg := &Logger{tc.W}
	te := tc.Cfg.EndpointOn(lg)
	c.desc = nil
	if c.Rng.P(30) {
		for i := 1 + c.Rng.N(3); i > 0; i-- {
			cfg := *tc.Cfg
			cfg.Grants = append([]string{}, cfg.Grants...)
			prev := &TokCase{W: GenWorld(c.Rng), Cfg: &cfg, Asserts: map[string]*Assertion{}}
			GenTokReq(c.Rng, prev, "", nil)
			if !reflect.DeepEqual(cfg, *tc.Cfg) {
				continue
			}
			lg.w = prev.W
			e, rec, calls, ok := prev.on(c, te)
			if c.bad {
				return e, rec, calls, ok
			}
			c.Desc("before on this endpoint: %s -> %d", prev.Req.String(), rec.Status)
			c.Count("endpoint.reused")
		}
	}
	lg.w = tc.W
	e, rec, calls, ok := tc.on(c, te)
	if !c.bad && c.Rng.P(20) { // the same again, perhaps after something changed
		for i := 1 + c.Rng.N(2); i > 0; i-- {
			how := tc.W.tweak(c.Rng)
			c.Desc("first: %s -> %d; then %s; then again:", tc.Req.String(), rec.Status, how)
			c.Count("repeated")
			if _, r2, _, _ := tc.on(c, te); c.bad {
				return e, r2, calls, ok
			}
		}
	}
	return e, rec, calls, ok
}

func (tc *TokCase) on(c *Case, te *goidc.TokenEndpoint) (*TokExpect, *Rec, []*Call, bool) {
	pre := tc.W.Snapshot()
	before := tc.W.describe()
	h := tc.handler
	if h != nil && c.Rng.P(70) {
	} else if c.Rng.P(15) { // a handler made some time ago
		tc.W.earlier(c.Rng, func() {
			h = te.Handler(&DI{tc.W})
			if c.Rng.P(60) {
				t := &TokCase{W: tc.W, Cfg: tc.Cfg, Asserts: tc.Asserts, Req: &Req{Method: c.Rng.Pick([]string{"GET", "POST"}), Path: "/token", Body: []KV{{"grant_type", c.Rng.Pick(allGrants)}}}}
				if rec, _ := t.Serve(h); rec.Panic != "" {
					c.Violate("*", "token endpoint panicked: %s", rec.Panic)
				}
			}
		})
		c.Count("handler.older")
	} else {
		h = te.Handler(&DI{tc.W})
	}
	tc.handler = h
	var rec *Rec
	c.DescFn = func() []string {
		d := append(before, tc.describe()...)
		if rec != nil {
			d = append(d, "response "+rec.String())
		}
		return append(d, tc.W.describeCalls()...)
	}
	rec, calls := tc.Serve(h)
	e := tc.Expect(pre)
	ok := tc.JudgeTok(c, e, rec, calls)
	tc.JudgeSecrets(c, rec, calls)
	return e, rec, calls, ok
}

func s256(v string) string { return s256of(v) }
func pkceUse() string      { return pkce.CodeChallengeMethodS256 }
