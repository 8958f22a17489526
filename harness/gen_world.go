package main

import (
	"fmt"
	"strings"

	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/grant"
	"github.com/lyokato/goidc/prompt"
)

var allGrants = []string{grant.TypeAuthorizationCode, grant.TypeRefreshToken, grant.TypePassword, grant.TypeClientCredentials, grant.TypeJWT}
var allFlows = []flow.FlowType{flow.AuthorizationCode, flow.Implicit, flow.Hybrid, flow.DirectGrant}
var scopeWords = []string{"openid", "email", "profile", "offline_access", "api", "api.read", "openid2", "pro"}

// signer gives a client an ID token algorithm and key.
func (w *World) giveSigner(rng *Rng, c *Client) {
	alg := rng.Pick(cheapAlgs)
	if rng.P(25) {
		alg = rng.Pick(allAlgs)
	}
	ks := keysOf(famOf(alg))
	k := ks[rng.N(len(ks))]
	c.Alg, c.Key = alg, k.Priv
	if rng.P(60) {
		c.Kid = rng.Pick([]string{"kid-1", "k", "日本", "a\"b", "0"})
	}
}

func (c *Client) unsignable() bool { return strings.HasPrefix(c.Secret, "unsignable-") }

func scopeSet(rng *Rng, pct int) map[string]bool {
	m := map[string]bool{}
	for _, s := range scopeWords {
		if rng.P(pct) {
			m[s] = true
		}
	}
	return m
}

// relatedScopes are two words of which the second might be taken to contain the first.
func relatedScopes(rng *Rng) (need, granted string) {
	sep := rng.Pick([]string{":", ".", "/", "-", "_", "::", "#", "="})
	base := rng.Pick([]string{"photos", "api", "https://api.example.org/x", "user", "a" + sep + "b"})
	leaf := rng.Pick([]string{"read", "r", "write", "admin", "list" + sep + "one"})
	need = base + sep + leaf
	switch rng.N(6) {
	case 0, 1:
		granted = base + sep + rng.Pick([]string{"*", "**", "all", "any", "", "admin", "write", "full", "rw"})
	case 2:
		granted = rng.Pick([]string{"*", "all", "any", "admin", "root", "**", "full", "super", sep, "*" + sep + "*", "*" + sep + leaf})
	case 3:
		granted = base
	case 4:
		granted = leaf + sep + base
	default:
		granted = need + rng.Pick([]string{sep, sep + "all", "*", "+"})
	}
	if granted == need {
		granted = "*"
	}
	if rng.P(15) {
		need, granted = granted, need
	}
	return
}

// scopeOf makes a scope string of allowed words.
func scopeOf(rng *Rng, allowed map[string]bool) string {
	out := []string{}
	for _, i := range rng.Perm(len(scopeWords)) {
		if allowed[scopeWords[i]] && rng.P(55) {
			out = append(out, scopeWords[i])
		}
	}
	return strings.Join(out, " ")
}

// oddURIs are redirect addresses in which delimiters appear in unusual places.
var oddURIs = []string{"https://app.example.org/cb?next=/what?", "https://app.example.org/cb?a=b?c=d", "https://app.example.org/cb??", "https://app.example.org/cb?x=1&", "https://app.example.org/cb;v=1", "https://app.example.org/cb?a=1;b=2", "https://app.example.org/a%23b", "https://app.example.org/a%3Fb?c=%23", "https://user@app.example.org:8443/cb",
	"https://app.example.org/cb?x=a+b", "https://app.example.org/cb?x", "https://app.example.org/cb?=v", "https://app.example.org/cb?x=1&x=2", "https://app.example.org//cb", "https://APP.example.org/CB",
	"https://app.example.org/./a/../cb", "com.example.app:/cb", "http://127.0.0.1/cb?state=", "https://app.example.org/cb?code=old", "https://app.example.org/cb?error=x&access_token=", "https://app.example.org",
	"https://app.example.org?x=1", "https://app.example.org/cb?u=https%3A%2F%2Fx.example%2F%3Fa%3Db%23c", "https://app.example.org/cb?u=https://x.example/?a=b", "https://app.example.org/%E6%97%A5", "https://app.example.org/cb?x=%26%3D%25",
	"https://app.example.org/cb&x=1", "https://app.example.org/cb=", "https://app.example.org/(cb)!*", "https://app.example.org/a|b", "https://app.example.org/cb?x=|", "https://app.example.org/cb?x[]=1", "https://app.example.org/%2e%2e/cb"}

var clientIDs = []string{"client-a", "client-b", "client-ab", "Client-a", "client-a ", "c1", "c", "日本-client", "a&b=c", "a+b", "a%20b", "cl\"ient", "<c>"}

func genClient(rng *Rng, w *World, i int) *Client {
	c := &Client{ID: clientIDs[rng.N(4)], Owner: int64(1 + rng.N(4)), Flows: map[flow.FlowType]bool{}, Grants: map[string]bool{},
		Scopes: map[flow.FlowType]map[string]bool{}, AssertionKeys: map[string]interface{}{}}
	if rng.P(30) {
		c.ID = rng.Pick(clientIDs)
	}
	if rng.P(3) {
		c.ID = rng.Str(int(rng.PickI([]int64{30, 62, 126, 250, 1020})) + rng.N(8))
	}
	for w.Clients[c.ID] != nil {
		c.ID = fmt.Sprintf("%s%d", c.ID, i)
	}
	c.Secret = "sec-" + rng.Str(18)
	if rng.P(12) {
		c.Secret += rng.Pick([]string{":x", "::", "%", "&a=b", "+", " end", "=", "\"", "ü"})
	}
	if rng.P(4) {
		c.Secret += rng.Str(int(rng.PickI([]int64{40, 60, 110, 240, 1100})))
	}
	if rng.P(5) {
		c.Owner = 0
	}
	for _, f := range allFlows {
		c.Flows[f] = rng.P(93)
		c.Scopes[f] = scopeSet(rng, 85)
	}
	for _, g := range allGrants {
		c.Grants[g] = true
	}
	c.EmptyScope = rng.P(70)
	w.giveSigner(rng, c)
	base := rng.Pick([]string{"https://app.example.org/cb", "https://app.example.org/cb?x=1", "https://app.example.org/", "https://other.example.org/cb",
		"http://localhost:8080/cb", "myapp://cb", "https://app.example.org/cb?x=1&state=mine", "https://app.example.org/日本", "https://app.example.org/cb?a=%2F&b=c%26d",
		"https://[::1]:99/cb", "urn:ietf:wg:oauth:2.0:oob", "https://app.example.org/%zz", "https://app.example.org/cb?", "https://app.example.org/'\"<x>"})
	if rng.P(12) {
		base = rng.Pick(oddURIs)
	}
	if rng.P(4) {
		base = "https://app.example.org/" + rng.Str(int(rng.PickI([]int64{100, 180, 230, 480, 1000, 2020, 4080}))+rng.N(20)) + rng.Pick([]string{"", "/cb", "?x=1", "?" + rng.Str(100) + "=" + rng.Str(300)})
		if rng.FreshP(10, 50, len(fresh.nums) > 0) {
			base = "https://app.example.org/" + rng.Str(int(rng.Num(6000)))
		}
	}
	c.URIs = []string{base}
	if rng.P(50) {
		c.URIs = append(c.URIs, "https://second.example.org/cb2")
	}
	// assertion keys
	n := 1 + rng.N(3)
	for j := 0; j < n; j++ {
		alg := rng.Pick(cheapAlgs)
		if rng.P(30) {
			alg = rng.Pick(allAlgs)
		}
		ks := keysOf(famOf(alg))
		k := ks[rng.N(len(ks))]
		kid := rng.Pick([]string{"", "", "a1", "a2"})
		c.AssertionKeys[alg+"|"+kid] = k.Pub
	}
	c.NoConsent = prompt.NoConsentPromptPolicy(rng.N(2))
	c.NonePolicy = prompt.NonePromptPolicy(rng.N(4))
	w.Clients[c.ID] = c
	return c
}

// bigSecs are lengths of time beyond what 32 bits and floating-point numbers hold.
var bigSecs = []int64{1<<31 - 1, 1 << 31, 1<<31 + 600, 1 << 32, 1<<32 + 60, 1 << 33, 1 << 40, 100 * 365 * 86400}

// specialTimes are stored times that might be taken for none at all.
var specialTimes = []int64{0, 0, 0, 1, -1, 60, -62135596800}

// Dress gives a name one of the looks that names have; no two names look the same in it.
func (r *Rng) Dress(n string) string {
	switch r.N(16) {
	case 0:
		return strings.ToUpper(n)
	case 1:
		return strings.ToUpper(n[:1]) + n[1:]
	case 2:
		return n + "@Example.ORG"
	case 3:
		return strings.ToUpper(n[:1]) + n[1:] + "@example.org"
	case 4:
		return n + "+tag@example.org"
	case 5:
		return n[:1] + "." + n[1:] + "@gmail.com"
	case 6:
		return "DOMAIN\\" + n
	case 7:
		return "https://id.example.org/" + n + "/"
	case 8:
		return "00" + n
	case 9:
		return n + r.Pick([]string{"é", "e\u0301", "ｆ", "ﬁ", "ß", "İ", "\u200b", "\u00a0"})
	case 10:
		return n + r.Pick([]string{".", "-", "_", "/", "\\", "'", "\"", "#", "?", "=", ",", ";", "|", "*", "$", "!", "~", "`"}) + r.Str(1)
	case 11:
		return n + " " + strings.ToUpper(n[:1]) + "."
	case 12:
		return "uid=" + n + ",dc=example"
	case 13:
		return n + strings.Repeat("x", 60+r.N(10))
	case 14:
		return n + "\t"
	default:
		return " " + n
	}
}

// GenWorld makes a store with a few clients and users and the records between them.
func GenWorld(rng *Rng) *World {
	w := NewWorld(rng)
	w.Now += int64(rng.N(1 << 28))
	if rng.P(6) { // a day to come, past 2038 or past 2106
		w.Now += rng.PickI([]int64{1 << 30, 1 << 31, 1 << 32})
	}
	if rng.P(40) {
		w.NowNs = int64(rng.N(1000000000))
	}
	if worldAt != 0 {
		w.Now, w.NowNs = worldAt, 0
	}
	if rng.P(10) {
		w.Issuer = rng.Pick([]string{"https://issuer.example.org/", "issuer", "https://日本.example", "https://issuer.example.org/a?b=c&d", "i\"s<s>"})
	}
	w.Objects = rng.P(35)
	w.AccessTTL = rng.PickI([]int64{1, 60, 3600, 86400, 0, 1 << 33, 1<<31 - 1, 1 << 31, 1<<32 + 60})
	w.RefreshTTL = rng.PickI([]int64{1, 60, 3600, 86400 * 30, 0})
	w.IdTokenTTL = rng.PickI([]int64{1, 60, 600, 86400, 0})
	if rng.P(12) {
		w.RefreshTTL = rng.PickI(bigSecs)
	}
	if rng.P(12) {
		w.IdTokenTTL = rng.PickI(bigSecs)
	}
	if rng.FreshP(5, 40, len(fresh.nums) > 0) {
		switch rng.N(3) {
		case 0:
			w.AccessTTL = rng.Secs()
		case 1:
			w.RefreshTTL = rng.Secs()
		default:
			w.IdTokenTTL = rng.Secs()
		}
	}
	w.AlwaysRefresh = rng.P(30)
	if rng.P(12) && w.AccessTTL > 0 {
		w.TokenAge = 1 + int64(rng.N(int(min(w.AccessTTL, 5000))))
	}
	w.Rotate = rng.P(40)
	w.Drop = rng.P(20)
	if rng.P(15) {
		w.TokenDecor = rng.Pick([]string{"+/=", "~._-", ".x9", ".a.b", ":1", "|2", "--", "_", "&a=b", "\"", "<x>", "%20", " x", "ü", "\\", "'"})
		if rng.P(20) {
			w.TokenDecor = "." + rng.Str(int(rng.PickI([]int64{100, 240, 1200, 4200}))+rng.N(9))
		}
	}
	nc := 2 + rng.N(2)
	for i := 0; i < nc; i++ {
		genClient(rng, w, i)
	}
	names := []string{"alice", "bob", "carol", "dave"}
	for i, n := range names {
		u := &User{ID: int64(i + 1), Name: n, Password: "pw-" + rng.Str(16), Subject: fmt.Sprintf("subject-%d-%s", i+1, rng.Str(6))}
		if rng.P(10) {
			u.Name = n + rng.Pick([]string{" x", "+", "&b=c", "@example.org", "日本", "%41", ":"})
		}
		if rng.P(15) {
			u.Name = rng.Dress(u.Name)
		}
		if rng.P(10) {
			u.Subject += rng.Pick([]string{"\"", "日本", "<a>", "&", " "})
		}
		if rng.P(6) {
			u.Subject = rng.Dress(u.Subject)
		}
		if rng.P(6) {
			u.Password = rng.Dress(u.Password) + rng.Str(rng.N(90))
		}
		if rng.P(10) {
			u.Subject = fmt.Sprint(i + 1 + 10*rng.N(3))
		}
		if rng.P(3) {
			u.Subject += rng.Str(int(rng.PickI([]int64{30, 100, 240, 1000})) + rng.N(8))
		}
		if rng.P(10) {
			u.Password += rng.Pick([]string{" ", "+", "&b=c", "%41", "日本", "\x00", "\n"})
		}
		w.Users = append(w.Users, u)
	}
	if rng.P(12) { // ids beyond 32 bits, some of which end in the bits of another
		high := rng.PickI([]int64{1 << 32, 1 << 33, 1 << 31, 1 << 52, 1 << 16, 1 << 8})
		moved := map[int64]int64{}
		for _, u := range w.Users {
			if moved[u.ID] = u.ID; rng.Bool() {
				moved[u.ID] += high
			}
			if rng.P(20) && moved[u.ID] > high {
				moved[u.ID] = high + int64(1+rng.N(4))
			}
		}
		used := map[int64]bool{}
		for _, u := range w.Users {
			for used[moved[u.ID]] {
				moved[u.ID] += high
			}
			used[moved[u.ID]] = true
		}
		for _, c := range w.clientList() {
			if c.Owner != 0 {
				c.Owner = moved[c.Owner]
			}
		}
		for _, u := range w.Users {
			u.ID = moved[u.ID]
		}
	}
	if rng.P(8) {
		w.nextID += rng.PickI([]int64{1 << 31, 1 << 32, 1 << 33, 1 << 40, 1 << 52})
	}
	if rng.P(15) { // user id 0 exists
		w.Users[3].ID = 0
	}
	return w
}

func (w *World) clientList() []*Client {
	out := []*Client{}
	for _, c := range w.Clients {
		out = append(out, c)
	}
	for i := range out { // deterministic order
		for j := i + 1; j < len(out); j++ {
			if out[j].ID < out[i].ID {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// addInfo stores an authorization (unless the pair has one) and returns it.
func (w *World) addInfo(u *User, c *Client, scope string) *Info {
	i := w.findInfo(u.ID, c.ID)
	if i == nil {
		i = &Info{ID: w.id(), ClientID: c.ID, UserID: u.ID, Subject: u.Subject, Active: true, AuthorizedAt: w.Now - 100}
		w.Infos[i.ID] = i
	}
	i.Scope = scope
	return i
}

func (w *World) addSession(rng *Rng, i *Info, uri string) *Session {
	s := &Session{Code: fmt.Sprintf("code-%s-%d", w.tag, w.id()), AuthID: i.ID, AuthTime: w.Now - int64(rng.N(5000)), IdTokenExpiresIn: w.IdTokenTTL,
		RedirectURI: uri, ExpiresIn: rng.PickI([]int64{1, 30, 60, 600, 0}), CreatedAt: w.Now - int64(rng.N(2)), Enabled: true}
	if rng.P(10) {
		s.Code += rng.Pick([]string{"+/=", "&x", " ", "日本", "%41", ".x9", ".a.b", ":1", "|2", "--", "_", "~", "#", "?"})
	}
	if rng.P(60) {
		s.Nonce = "nonce-" + rng.Str(8)
		if rng.P(20) {
			s.Nonce += rng.Pick([]string{"\"", "日本", "<a>", "&", " ", "\x01"})
		}
	}
	if rng.P(8) {
		s.ExpiresIn = rng.PickI(bigSecs)
	}
	if rng.FreshP(3, 30, len(fresh.nums) > 0) {
		s.ExpiresIn = rng.Secs()
	}
	if rng.FreshP(3, 30, len(fresh.nums) > 0) && rng.P(50) {
		s.CreatedAt = w.Now - rng.Secs()
	}
	if rng.FreshP(3, 30, len(fresh.nums) > 0) {
		s.AuthTime = w.Now - rng.Secs()
	}
	if rng.P(8) {
		s.AuthTime = rng.PickI([]int64{0, -1, -5})
	}
	w.Sessions[s.Code] = s
	return s
}

func (w *World) addToken(i *Info, refresh bool) *Token {
	id := w.id()
	t := &Token{ID: id, AuthID: i.ID, Access: fmt.Sprintf("at-%s-%d", w.tag, id), AccessExpiresIn: w.AccessTTL, RefreshedAt: w.Now, CreatedAt: w.Now, Live: true}
	if refresh {
		t.Refresh = fmt.Sprintf("rt-%s-%d", w.tag, id)
		t.RefreshExpiresIn = w.RefreshTTL
	}
	if w.id()%7 == 0 {
		decor := []string{".x9", ".a.b", "+/=", "~", "--", "_", "==", "/"}[w.id()%8]
		t.Access += decor
		if t.Refresh != "" {
			t.Refresh += decor
		}
	}
	w.Tokens = append(w.Tokens, t)
	return t
}

// Snapshot copies the stored state (not the call log).
func (w *World) Snapshot() *World {
	s := &World{Issuer: w.Issuer, Now: w.Now, NowNs: w.NowNs, AccessTTL: w.AccessTTL, RefreshTTL: w.RefreshTTL, IdTokenTTL: w.IdTokenTTL,
		Clients: map[string]*Client{}, Infos: map[int64]*Info{}, Sessions: map[string]*Session{}, JTIs: map[string]int{}, tag: w.tag,
		counts: map[string]int{}, Faults: map[string]string{}, nextID: w.nextID, Objects: w.Objects, AlwaysRefresh: w.AlwaysRefresh, Rotate: w.Rotate, Drop: w.Drop, TokenAge: w.TokenAge, TokenDecor: w.TokenDecor}
	for k, v := range w.Clients {
		cp := *v
		s.Clients[k] = &cp
	}
	for k, v := range w.Infos {
		cp := *v
		s.Infos[k] = &cp
	}
	for k, v := range w.Sessions {
		cp := *v
		s.Sessions[k] = &cp
	}
	for k, v := range w.JTIs {
		s.JTIs[k] = v
	}
	for _, t := range w.Tokens {
		cp := *t
		s.Tokens = append(s.Tokens, &cp)
	}
	for _, u := range w.Users {
		cp := *u
		s.Users = append(s.Users, &cp)
	}
	return s
}

func (w *World) callsOf(methods ...string) []*Call {
	out := []*Call{}
	for _, c := range w.Calls {
		for _, m := range methods {
			if c.Method == m {
				out = append(out, c)
			}
		}
	}
	return out
}

func (w *World) describe() []string {
	out := []string{fmt.Sprintf("store: now=%d issuer=%q", w.Now, w.Issuer)}
	for _, c := range w.clientList() {
		ks := []string{}
		for k := range c.AssertionKeys {
			ks = append(ks, k)
		}
		out = append(out, fmt.Sprintf("client %q secret=%q owner=%d alg=%s kid=%q flows=%v grants=%v scopes=%v emptyScope=%v uris=%q assertionKeys=%q noConsent=%v nonePolicy=%v disabled=%v",
			c.ID, c.Secret, c.Owner, c.Alg, c.Kid, c.Flows, c.Grants, c.Scopes, c.EmptyScope, c.URIs, ks, c.NoConsent, c.NonePolicy, c.Disabled))
	}
	for _, u := range w.Users {
		out = append(out, fmt.Sprintf("user %+v", *u))
	}
	for _, i := range w.Infos {
		out = append(out, fmt.Sprintf("authorization %+v", *i))
	}
	for _, s := range w.Sessions {
		out = append(out, fmt.Sprintf("session %+v", *s))
	}
	for _, t := range w.Tokens {
		out = append(out, fmt.Sprintf("token %+v", *t))
	}
	return out
}

func (w *World) describeCalls() []string {
	out := []string{}
	for _, c := range w.Calls {
		out = append(out, "call "+c.String())
	}
	return out
}
