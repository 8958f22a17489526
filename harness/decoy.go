package main

// Decoys: names and values without a meaning, and long or late ones with one.

import (
	"strconv"
	"strings"
)

// Decoy is a value that would matter if somebody looked at it: names, ids, scopes and addresses of the store.
func (w *World) Decoy(rng *Rng) string {
	cl := w.clientList()
	c := cl[rng.N(len(cl))]
	u := w.Users[rng.N(len(w.Users))]
	switch rng.N(14) {
	case 0:
		return u.Name
	case 1:
		return u.Subject
	case 2:
		return sprint(u.ID)
	case 3:
		return c.ID
	case 4:
		return rng.Pick(c.URIs)
	case 5:
		return rng.Pick([]string{"https://evil.example/", "//evil.example", "evil.example"})
	case 6:
		return rng.Pick([]string{"openid", "admin", "openid offline_access", "offline_access", rng.Pick(scopeWords), "openid api api.read email profile"})
	case 7:
		return rng.Pick([]string{"1", "true", "yes", "on", "0", "false", "-1", "2", "none", "login", "consent", "all", "any", "*", "null"})
	case 8:
		return sprint(w.Now + rng.PickI([]int64{0, 1, -1, 100, -100, 1 << 20, -(1 << 20), 1 << 31}))
	case 9:
		return sprint(rng.Secs())
	case 10:
		return w.Issuer
	case 11:
		return rng.Word()
	case 12:
		return rng.Pick([]string{"query", "fragment", "form_post", "code", "token", "id_token", "plain", "S256", "HS256", "RS256", "password", "client_credentials", "refresh_token", "authorization_code"})
	}
	return rng.Hostile()
}

func nameSet(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

// names with a meaning, per endpoint
var (
	tokNames  = nameSet("grant_type code redirect_uri code_challenge code_challenge_method refresh_token username password scope assertion client_id client_secret client_assertion client_assertion_type")
	authNames = nameSet("client_id redirect_uri state response_mode response_type display max_age prompt scope nonce code_verifier ui_locales id_token_hint login_hint")
	rpNames   = nameSet("access_token")
	hdrNames  = nameSet("authorization content-type content-length host transfer-encoding connection x-oauth-user-id x-oauth-client-id x-oauth-scope remote_addr x-forwarded-for upgrade expect te trailer")
	jwtNames  = nameSet("sub aud exp iat nbf jti")
)

func headerValue(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' || s[i] == 127 {
			return false
		}
	}
	return true
}

func headerName(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isAlnum(s[i]) && s[i] != '-' && s[i] != '_' {
			return false
		}
	}
	return s != ""
}

// addDecoys adds parameters, headers and cookies without a meaning to a request.
func (w *World) addDecoys(rng *Rng, q *Req, reserved map[string]bool, put func(k, v string)) {
	isNew := len(fresh.words) > 0
	if rng.FreshP(12, 45, isNew) {
		for n := 1 + rng.N(4); n > 0; n-- {
			put(rng.Name(reserved), w.Decoy(rng))
		}
	}
	if rng.FreshP(8, 30, isNew) {
		for n := 1 + rng.N(3); n > 0; n-- {
			k := rng.Name(hdrNames)
			if rng.P(40) {
				k = rng.Pick([]string{"X-Forwarded-Proto", "X-Forwarded-Host", "X-HTTP-Method-Override", "Origin", "Referer", "User-Agent", "Accept", "Accept-Language", "X-Request-Id", "X-Real-Ip", "Forwarded",
					"X-Original-Url", "X-Rewrite-Url", "X-User", "X-Client", "X-Debug", "X-Scope", "Date", "Range", "If-None-Match", "Cache-Control", "DPoP", "X-Csrf-Token"})
			}
			if !headerName(k) || hdrNames[lower(k)] {
				continue
			}
			v := w.Decoy(rng)
			if strings.Contains(lower(k), "method") && rng.P(70) {
				v = rng.Pick([]string{"POST", "POST", "GET", "PUT", "OPTIONS"})
			}
			if k == "Referer" || !headerValue(v) {
				v = "https://app.example.org/"
			}
			q.Header = append(q.Header, KV{k, v})
		}
	}
	if rng.FreshP(4, 15, isNew) {
		k := rng.Name(reserved)
		v := w.Decoy(rng)
		if headerName(k) && isPlain(v) {
			q.Header = append(q.Header, KV{"Cookie", k + "=" + v})
		}
	}
}

// manyScopes registers words for a client in every flow and returns them.
func manyScopes(rng *Rng, c *Client) []string {
	n := int(rng.PickI([]int64{3, 8, 9, 10, 11, 12, 16, 17, 20, 24, 32, 33, 40}))
	if rng.FreshP(20, 60, len(fresh.nums) > 0) {
		n = int(rng.Num(300))
	}
	out := []string{}
	for i := 0; i < n; i++ {
		out = append(out, "s"+strconv.Itoa(i)+rng.Pick([]string{"", ".read", ":x", "/y"}))
	}
	if c != nil {
		for _, m := range c.Scopes {
			for _, s := range out {
				m[s] = true
			}
		}
	}
	return out
}

// withMany mixes many words into a list of words.
func withMany(rng *Rng, sc string, c *Client) string {
	return shuffleWords(rng, strings.TrimSpace(strings.Join(manyScopes(rng, c), " ")+" "+sc))
}

// tweak changes something in the store, as an administrator or user might between two requests.
func (w *World) tweak(rng *Rng) string {
	cl := w.clientList()
	c := cl[rng.N(len(cl))]
	switch rng.N(20) {
	case 0, 1, 2:
		return "nothing"
	case 3, 4:
		d := rng.PickI([]int64{1, 2, 30, 600, 3600, 86400})
		if rng.FreshP(10, 40, len(fresh.nums) > 0) {
			d = rng.Secs()
		}
		w.Now += d
		return "time passes: " + sprint(d)
	case 5:
		c.Disabled = !c.Disabled
		return "client " + c.ID + " disabled: " + sprint(c.Disabled)
	case 6:
		g := rng.Pick(allGrants)
		c.Grants[g] = !c.Grants[g]
		return "client " + c.ID + " grant " + g
	case 7:
		f := allFlows[rng.N(len(allFlows))]
		c.Flows[f] = !c.Flows[f]
		return "client " + c.ID + " flow"
	case 8:
		for f := range c.Scopes {
			for _, s := range scopeWords {
				if rng.P(30) {
					delete(c.Scopes[f], s)
				}
			}
		}
		return "client " + c.ID + " loses scopes"
	case 9:
		c.URIs = []string{"https://moved.example.org/cb"}
		return "client " + c.ID + " moved"
	case 10:
		if c.unsignable() {
			return "nothing"
		}
		c.Secret = "sec-" + rng.Str(18)
		return "client " + c.ID + " has a new secret"
	case 11:
		for _, k := range sortedKeys(c.AssertionKeys) {
			if rng.Bool() {
				delete(c.AssertionKeys, k)
			}
		}
		return "client " + c.ID + " loses assertion keys"
	case 12:
		if c.unsignable() {
			return "nothing"
		}
		w.giveSigner(rng, c)
		return "client " + c.ID + " has a new signing key"
	case 13, 14, 15:
		ids := sortedInfos(w)
		if len(ids) == 0 {
			return "nothing"
		}
		i := w.Infos[ids[rng.N(len(ids))]]
		switch rng.N(4) {
		case 0:
			i.Active = !i.Active
		case 1:
			delete(w.Infos, i.ID)
		case 2:
			i.Scope = rng.Pick([]string{"openid", "openid offline_access", "email", i.Scope + " api"})
		default:
			if l := strings.Split(i.Scope, " "); len(l) > 1 {
				i.Scope = strings.Join(l[:len(l)-1], " ")
			}
		}
		return "authorization " + sprint(i.ID) + " changed"
	case 16:
		u := w.Users[rng.N(len(w.Users))]
		u.Password = "pw-" + rng.Str(16)
		return "user " + u.Name + " has a new password"
	case 17, 18:
		if len(w.Tokens) == 0 {
			return "nothing"
		}
		t := w.Tokens[rng.N(len(w.Tokens))]
		t.Live = false
		return "token " + sprint(t.ID) + " revoked"
	}
	c.Owner = int64(1 + rng.N(3))
	return "client " + c.ID + " has a new owner"
}

func sortedKeys(m map[string]interface{}) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

// earlier runs f when the world's clock showed an earlier time.
func (w *World) earlier(rng *Rng, f func()) {
	now := w.Now
	w.Now -= rng.PickI([]int64{1, 2, 60, 3600, 86400, 1000000}) * int64(1+rng.N(9))
	if rng.FreshP(10, 40, len(fresh.nums) > 0) {
		if d := rng.Secs(); d < now {
			w.Now = now - d
		}
	}
	f()
	w.Now = now
}
