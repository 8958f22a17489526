package main

// Resource protector: generator, reference model, judge.

import (
	"bytes"
	"fmt"
	"mime/multipart"
	"net/http"
	"strings"
	"time"

	"github.com/lyokato/goidc"
)

type RPCase struct {
	Cut      bool // the caller has gone
	W        *World
	Realm    string
	Accept   goidc.CredentialAcceptanceMethod
	URIMode  int
	URIConst string
	Scopes   map[string][]string // nil: Validate
	Req      *Req
	Muts     []string
	Token    *Token
}

func (rc *RPCase) Protector() *goidc.ResourceProtector {
	return rc.ProtectorOn(&Logger{rc.W})
}

// ProtectorOn makes a protector whose clock and log are those of the world lg points to at the time.
func (rc *RPCase) ProtectorOn(lg *Logger) *goidc.ResourceProtector {
	rp := goidc.NewResourceProtector(rc.Realm)
	rp.SetLogger(lg)
	rp.SetTimeBuilder(func() time.Time { return lg.w.Clock() })
	rp.AcceptAccessToken(rc.Accept)
	switch rc.URIMode {
	case 1:
		rp.SetErrorURI(rc.URIConst)
	case 2:
		rp.SetErrorURIBulder(uriOfType)
	}
	return rp
}

func (rc *RPCase) describe() []string {
	return []string{fmt.Sprintf("realm=%q accept=%d uriMode=%d scopeMap=%q", rc.Realm, rc.Accept, rc.URIMode, rc.Scopes), fmt.Sprintf("mutations %q", rc.Muts), "request " + rc.Req.String()}
}

var rpDims = []string{"missing", "unknown", "near", "late", "edge", "inactive", "info-missing", "dead", "refresh-token", "place", "scheme", "both", "both-bad", "spoof", "empty", "place", "late"}
var rpPaths = []string{"/", "/api", "/api/", "/api/read", "/admin", "/API", "/api/../admin", "/日本", "/a b"}

// GenRP makes a resource request with a store of its own.
func GenRP(rng *Rng, scopes bool, focus []string) *RPCase {
	rc := &RPCase{W: GenWorld(rng), Realm: rng.Pick([]string{"example.org", "My Realm", "a\"b\\c", "", "日本", "r, error=\"x\""}), Accept: goidc.CredentialAcceptanceMethod(rng.N(3)),
		URIMode: rng.N(3), URIConst: rng.Pick([]string{"https://err.example.org/", "https://err.example.org/?a=b&c=d"})}
	if rng.P(15) {
		rc.Realm, rc.URIConst = longRealm(rng, rc.Realm), longURI(rng)
	}
	GenRPReq(rng, rc, scopes, focus)
	return rc
}

func rpScopeMap(rng *Rng) map[string][]string {
	m := map[string][]string{}
	for _, p := range rpPaths {
		if rng.P(60) {
			l := []string{}
			for n := rng.N(4); n > 0; n-- {
				l = append(l, rng.Pick(append([]string{"admin", "api.write", "read"}, scopeWords...)))
			}
			m[p] = l
		}
	}
	return m
}

// GenRPReq fills in request and records.
func GenRPReq(rng *Rng, rc *RPCase, scopes bool, focus []string) {
	w := rc.W
	want := map[string]bool{}
	is := func(m string) bool { return want[m] }
	n := 0
	if rng.P(65) {
		n = 1 + rng.N(2)
	}
	for i := 0; i < n; i++ {
		m := rng.Pick(rpDims)
		if len(focus) > 0 && rng.P(60) {
			m = rng.Pick(focus)
		}
		if !want[m] {
			want[m] = true
			rc.Muts = append(rc.Muts, m)
		}
	}
	cl := w.clientList()
	c, c2 := cl[rng.N(len(cl))], cl[rng.N(len(cl))]
	u, u2 := w.Users[rng.N(len(w.Users))], w.Users[rng.N(len(w.Users))]
	sc := scopeOf(rng, scopeSet(rng, 80))
	q := &Req{Method: rng.Pick([]string{"GET", "POST", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "OPTIONS", "TRACE", "PROPFIND"}), Path: rng.Pick(rpPaths)}
	rc.Req = q
	if scopes {
		rc.Scopes = rpScopeMap(rng)
		if need, ok := rc.Scopes[q.Path]; ok {
			for _, s := range need {
				if rng.P(60) && !hasWord(sc, s) {
					sc = strings.TrimSpace(sc + " " + s)
				} else if rng.P(40) && !hasWord(sc, s) { // look-alikes
					sc = strings.TrimSpace(sc + " " + rng.Pick([]string{s + "2", "x" + s, upper(s), s + ".", s[:len(s)-1]}))
				}
			}
			if rng.P(15) {
				sc = strings.TrimSpace(sc + " " + sc)
			}
		}
	}
	if need, ok := rc.Scopes[q.Path]; ok && rng.P(12) {
		n, g := relatedScopes(rng)
		rc.Scopes[q.Path] = append(append([]string{}, need...), n)
		sc = shuffleWords(rng, strings.TrimSpace(sc+" "+g))
	}
	if rng.P(8) {
		many := manyScopes(rng, nil)
		if need, ok := rc.Scopes[q.Path]; ok && rng.Bool() && len(many) < 60 {
			rc.Scopes[q.Path] = append(append([]string{}, many[:rng.N(len(many)+1)]...), need...)
		}
		if len(many) > 1 && rng.P(30) {
			k := rng.N(len(many))
			many = append(append([]string{}, many[:k]...), many[k+1:]...)
		}
		sc = shuffleWords(rng, strings.TrimSpace(sc+" "+strings.Join(many, " ")))
	}
	i := w.addInfo(u, c, sc)
	t := w.addToken(i, rng.Bool())
	t.CreatedAt = w.Now - int64(rng.N(1000000))
	t.RefreshedAt = w.Now
	if t.AccessExpiresIn > 0 {
		d := t.AccessExpiresIn
		if d > 1000000 {
			d = 1000000
		}
		t.RefreshedAt = w.Now - int64(rng.N(int(d+1)))
	}
	if rng.FreshP(4, 40, len(fresh.nums) > 0) {
		if d := rng.Secs(); d <= t.AccessExpiresIn {
			t.RefreshedAt = w.Now - d
		}
	}
	if rng.P(40) {
		t.CreatedAt = t.RefreshedAt
	}
	rc.Token = t
	// bystanders
	var t2 *Token
	if rng.P(60) {
		i2 := w.addInfo(u2, c2, "openid admin api.write")
		t2 = w.addToken(i2, true)
	}
	val := t.Access
	if rng.P(15) {
		t.Access += rng.Pick([]string{"~._-", "+/==", "-_"})
		val = t.Access
	}
	if is("late") {
		t.RefreshedAt = w.Now - t.AccessExpiresIn - rng.PickI([]int64{1, 1, 2, 10000})
		if rng.FreshP(10, 40, len(fresh.nums) > 0) {
			t.RefreshedAt = w.Now - t.AccessExpiresIn - rng.Secs()
		}
		if rng.P(15) {
			t.RefreshedAt = rng.PickI(specialTimes)
		}
		if rng.P(30) {
			t.CreatedAt = t.RefreshedAt
		}
	}
	if is("edge") {
		t.RefreshedAt = w.Now - t.AccessExpiresIn + rng.PickI([]int64{0, 0, 1})
		t.CreatedAt = t.RefreshedAt - int64(rng.N(2)*100000)
	}
	if is("inactive") {
		i.Active = false
	}
	if is("info-missing") {
		delete(w.Infos, i.ID)
	}
	if is("dead") {
		t.Live = false
	}
	if is("unknown") {
		val = "at-" + rng.Str(12)
	}
	if is("near") {
		val = t.Access + "x"
		for k := 0; k < 20; k++ {
			if s := rng.NearMiss(t.Access); s != "" && !strings.ContainsAny(s, " \n\t\x00") {
				val = s
				break
			}
		}
	}
	if is("refresh-token") {
		t.Refresh = "rt-" + rng.Str(12)
		val = t.Refresh
	}
	if is("empty") {
		val = ""
	}
	place := "header"
	if rc.Accept == goidc.FromHeaderAndPostBody && rng.P(45) {
		place = "body"
	}
	if rc.Accept == goidc.FromAll && rng.P(60) {
		place = rng.Pick([]string{"body", "query"})
	}
	if is("place") {
		place = rng.Pick([]string{"header", "body", "query", "multipart", "cookie", "x-header", "json"})
	}
	if is("missing") {
		place = "none"
	}
	put := func(place, val string) {
		switch place {
		case "header":
			sch := rng.Pick([]string{"Bearer", "Bearer", "Bearer", "bearer", "BEARER", "bEaReR"})
			if is("scheme") {
				sch = rng.Pick([]string{"Basic", "Token", "MAC", "Bearer:", "Bearerx", "xBearer", "OAuth", "\"Bearer\""})
			}
			h := sch + " " + val
			if is("scheme") && rng.P(50) {
				bad := rng.Pick([]string{"Basic", "Token", "MAC", "x", "Basic eDp5,", "Digest realm=\"x\",", "Bearer=", "Bearer,"})
				h = rng.Pick([]string{bad + " Bearer " + val, bad + " bearer " + val, bad + ", Bearer " + val, bad + " " + val + " Bearer " + val, "Bearer Bearer " + val, "Bearer bearer " + val, "Bearer x, Bearer " + val, "Bearer token=" + val,
					"Bearer x " + val, "Bearer \"" + val + "\"", "Bearer <" + val + ">", " Bearer " + val, "\tBearer " + val, "Bearer\t" + val, "Bearer  " + val, "bearer:" + val, "access_token=" + val, "Basic " + b64("bearer:"+val), "Basic " + b64(val+":")})
			}
			if rng.P(3) {
				h = sch + val // no space
			}
			if rng.P(2) {
				h = val
			}
			q.Header = append(q.Header, KV{"Authorization", h})
		case "body":
			if q.Method == "GET" || q.Method == "HEAD" || q.Method == "DELETE" {
				if rng.P(80) {
					q.Method = "POST"
				}
			}
			q.Body = append(q.Body, KV{"access_token", val})
			if rng.P(5) {
				q.ContentType = rng.Pick([]string{"text/plain", "application/json", "-", "application/x-www-form-urlencoded; charset=utf-8"})
			}
		case "query":
			q.Query = append(q.Query, KV{"access_token", val})
		case "multipart":
			var b bytes.Buffer
			mw := multipart.NewWriter(&b)
			extra := func() {
				if rng.P(40) {
					mw.WriteField(rng.Pick([]string{"a", "q", "access"}), rng.Str(rng.N(20)))
				}
				if rng.P(30) {
					f, _ := mw.CreateFormFile(rng.Pick([]string{"upload", "access"}), rng.Pick([]string{"x.bin", "日本.txt", "a b"}))
					f.Write([]byte(rng.Hostile()))
				}
			}
			extra()
			mw.WriteField("access_token", val)
			extra()
			mw.Close()
			s := b.String()
			q.RawBody, q.ContentType = &s, mw.FormDataContentType()
			q.Method = "POST"
		case "json":
			s := "{\"access_token\":" + mustJSON(val) + "}"
			q.RawBody, q.ContentType = &s, "application/json"
		case "cookie":
			q.Header = append(q.Header, KV{"Cookie", "access_token=" + val})
		case "x-header":
			q.Header = append(q.Header, KV{rng.Pick([]string{"X-Access-Token", "Access-Token", "Proxy-Authorization"}), rng.Pick([]string{"", "Bearer "}) + val})
		}
	}
	if is("both") && t2 != nil { // another valid token elsewhere
		put(rng.Pick([]string{"body", "query"}), t2.Access)
	}
	if is("both-bad") {
		if rng.Bool() {
			put(rng.Pick([]string{"body", "query"}), "at-"+rng.Str(5))
		} else {
			q.Header = append(q.Header, KV{"Authorization", rng.Pick([]string{"Basic eDp5", "Bearer", "Bearer ", "Basic", "Bearer at-" + rng.Str(4)})})
		}
	}
	put(place, val)
	if rng.P(30) {
		q.Query = append(q.Query, KV{"q", "x"})
	}
	w.addDecoys(rng, q, rpNames, func(k, v string) {
		if q.RawBody == nil && len(q.Body) > 0 && rng.Bool() {
			q.Body = append(q.Body, KV{k, v})
		} else {
			q.Query = append(q.Query, KV{k, v})
		}
	})
	if is("spoof") || rng.P(25) {
		for _, h := range []string{"X-OAUTH-USER-ID", "X-OAUTH-CLIENT-ID", "X-OAUTH-SCOPE", "x-oauth-scope", "X-Oauth-User-Id"} {
			for k := rng.N(3); k > 0; k-- {
				v := rng.Pick([]string{"0", "1", "admin", c2.ID, "openid admin api api.read api.write email profile offline_access read", ""})
				q.Header = append(q.Header, KV{h, v})
			}
		}
	}
}

// presented reads the token the request presents in a configured place.
func (rc *RPCase) presented() string {
	r := rc.Req.Build()
	h := r.Header.Get("Authorization")
	if len(h) > 7 && lower(h[:7]) == "bearer " {
		if t := strings.SplitN(h[7:], " ", 2)[0]; t != "" {
			return t
		}
	}
	switch rc.Accept {
	case goidc.FromHeaderAndPostBody:
		return r.PostFormValue("access_token")
	case goidc.FromAll:
		return r.FormValue("access_token")
	}
	return ""
}

type RPExpect struct {
	Pass    bool
	Why     string
	Codes   map[string]bool
	Info    *Info
	Missing []string
	Props   string
}

func (rc *RPCase) Expect() *RPExpect {
	w := rc.W
	refuse := func(why, props string, codes ...string) *RPExpect {
		m := map[string]bool{}
		for _, c := range codes {
			m[c] = true
		}
		return &RPExpect{Why: why, Codes: m, Props: props}
	}
	v := rc.presented()
	if v == "" {
		return refuse("no token presented in a configured place", "C21", "invalid_request")
	}
	var t *Token
	for _, x := range w.Tokens {
		if x.Live && x.Access == v {
			t = x
		}
	}
	if t == nil {
		return refuse("token unknown", "C21", "invalid_token")
	}
	if w.Now > t.RefreshedAt+t.AccessExpiresIn {
		return refuse("token expired", "C21", "invalid_token")
	}
	i := w.Infos[t.AuthID]
	if i == nil || !i.Active {
		return refuse("authorization not active", "C21", "invalid_token")
	}
	if rc.Scopes != nil {
		missing := []string{}
		for _, s := range rc.Scopes[rc.Req.Build().URL.Path] {
			if !hasWord(i.Scope, s) {
				missing = append(missing, s)
			}
		}
		if len(missing) > 0 {
			e := refuse("required scope missing", "C22", "insufficient_scope")
			e.Missing, e.Info = missing, i
			return e
		}
	}
	return &RPExpect{Pass: true, Info: i, Props: "C21"}
}

var rpStatus = map[string]int{"invalid_request": 400, "invalid_token": 401, "insufficient_scope": 403}

// parseChallenge reads a Bearer challenge: auth-params with quoted-string values.
func parseChallenge(h string) (map[string]string, string) {
	if !strings.HasPrefix(lower(h), "bearer ") {
		return nil, "not a Bearer challenge"
	}
	h = h[7:]
	m := map[string]string{}
	for {
		eq := strings.IndexByte(h, '=')
		if eq <= 0 {
			return m, "no parameter name"
		}
		k := h[:eq]
		for i := 0; i < len(k); i++ {
			if !isAlnum(k[i]) && k[i] != '_' && k[i] != '-' {
				return m, fmt.Sprintf("bad parameter name %q", k)
			}
		}
		h = h[eq+1:]
		if h == "" || h[0] != '"' {
			return m, "value is not quoted"
		}
		var b strings.Builder
		i := 1
		for ; i < len(h) && h[i] != '"'; i++ {
			if h[i] == '\\' {
				i++
				if i >= len(h) {
					return m, "dangling backslash"
				}
			} else if h[i] < 0x20 || h[i] == 0x7f {
				return m, "control character"
			}
			b.WriteByte(h[i])
		}
		if i >= len(h) {
			return m, "unterminated value"
		}
		if _, dup := m[k]; dup {
			return m, "repeated parameter " + k
		}
		m[k] = b.String()
		h = h[i+1:]
		if h == "" {
			return m, ""
		}
		t := strings.TrimLeft(h, " ")
		if t[0] != ',' {
			return m, "junk after value"
		}
		h = strings.TrimLeft(t[1:], " ")
	}
}

func (rc *RPCase) errorURI(code string) string {
	return (&TokCfg{URIMode: rc.URIMode, URIConst: rc.URIConst}).errorURI(code)
}

// JudgeRP compares the outcome with the model.
func (rc *RPCase) JudgeRP(c *Case, e *RPExpect, ok bool, rec *Rec, r *http.Request, calls []*Call) {
	if rec.Panic != "" {
		c.Violate("*", "resource protector panicked: %s", rec.Panic)
		return
	}
	for _, k := range calls {
		if k.Method != "FindOAuthTokenByAccessToken" && k.Method != "FindActiveAuthInfoById" && k.Method != "Issuer" && k.Method != "FindClientById" {
			c.Violate("C21 C29", "unexpected %s", k)
		}
	}
	if e.Pass {
		props := "C21"
		if rc.Scopes != nil {
			props = "C22 C21"
			if rec.Status == 403 {
				props = "C22"
			}
		}
		if !ok {
			c.Violate(props, "a request with a live token was refused: %s", rec)
			return
		}
		if rec.Statuses > 0 || rec.Writes > 0 {
			c.Violate("C21 C24", "a response was written for a request let through: %s", rec)
		}
		for h, want := range map[string]string{"X-OAUTH-USER-ID": fmt.Sprint(e.Info.UserID), "X-OAUTH-CLIENT-ID": e.Info.ClientID, "X-OAUTH-SCOPE": e.Info.Scope} {
			vs := r.Header.Values(h)
			if r.Header.Get(h) != want || len(vs) > 1 {
				p := "C21"
				if h == "X-OAUTH-SCOPE" {
					p += " C22"
				}
				c.Violate(p, "%s is %q, want %q", h, vs, want)
			}
		}
		c.Count("rp.passed")
		return
	}
	c.Count("rp.refused")
	c.Count("rp." + strings.ReplaceAll(e.Why, " ", "_"))
	if ok {
		c.Violate(e.Props+" C29", "a request was let through although: %s (headers %q)", e.Why, fmt.Sprint(r.Header))
		return
	}
	if p := rec.LengthProblem(); p != "" {
		c.Violate("C21 C24", "%s", p)
	}
	if rec.Statuses != 1 {
		c.Violate("C21 C24", "status sent %d times for a refused request", rec.Statuses)
		return
	}
	wa := rec.Sent["Www-Authenticate"]
	if len(wa) != 1 {
		c.Violate(e.Props, "WWW-Authenticate %q for: %s", wa, e.Why)
		return
	}
	m, problem := parseChallenge(wa[0])
	if problem != "" {
		c.Violate("C21 C31", "challenge %q: %s", wa[0], problem)
		return
	}
	code := m["error"]
	if !e.Codes[code] {
		c.Violate(e.Props, "error %q does not fit: %s", code, e.Why)
	} else if rec.Status != rpStatus[code] {
		c.Violate(e.Props, "status %d with error %s", rec.Status, code)
	}
	if realm, has := m["realm"]; has != (rc.Realm != "") || realm != rc.Realm {
		c.Violate("C21", "realm %q in the challenge %q, want %q", realm, wa[0], rc.Realm)
	}
	if u := rc.errorURI(code); m["error_uri"] != u {
		c.Violate("C21 C22 C31", "error_uri %q, want %q", m["error_uri"], u)
	}
	for k := range m {
		if k != "realm" && k != "error" && k != "error_description" && k != "error_uri" && k != "scope" {
			c.Violate("C21 C31", "challenge parameter %q", k)
		}
	}
	if len(e.Missing) > 0 {
		named := false
		for _, s := range e.Missing {
			named = named || namesScope(m["error_description"]+" "+m["scope"], s)
		}
		if !named {
			c.Violate("C22", "challenge %q names none of the missing scopes %q", wa[0], e.Missing)
		}
		for _, s := range rc.Scopes[rc.Req.Build().URL.Path] {
			if hasWord(e.Info.Scope, s) && strings.Contains(m["error_description"], "\""+s+"\"") {
				c.Violate("C22", "challenge %q names %q which the token has", wa[0], s)
			}
		}
	}
}

// namesScope tells whether s stands in text as a word of its own.
func namesScope(text, s string) bool {
	for off := 0; ; {
		i := strings.Index(text[off:], s)
		if i < 0 {
			return false
		}
		i += off
		b, a := byte(' '), byte(' ')
		if i > 0 {
			b = text[i-1]
		}
		if i+len(s) < len(text) {
			a = text[i+len(s)]
		}
		if !isAlnum(b) && b != '.' && b != '_' && !isAlnum(a) && a != '_' && !(a == '.' && i+len(s)+1 < len(text) && isAlnum(text[i+len(s)+1])) {
			return true
		}
		off = i + 1
	}
}

func (rc *RPCase) Serve(rp *goidc.ResourceProtector) (bool, *Rec, *http.Request, []*Call) {
	rec := NewRec()
	rec.Cut = rc.Cut
	n := len(rc.W.Calls)
	rc.W.LogsFrom = len(rc.W.Logs)
	r := rc.Req.Build()
	ok := false
	guard(rec, func() {
		if rc.Scopes != nil {
			ok = rp.ValidateWithScopes(rec, r, &DI{rc.W}, rc.Scopes)
		} else {
			ok = rp.Validate(rec, r, &DI{rc.W})
		}
	})
	return ok, rec, r, rc.W.Calls[n:]
}

func (rc *RPCase) judgeSecretsRP(c *Case, ok bool, rec *Rec) {
	s := rc.W.Secrets()
	p := rc.presented()
	for _, t := range rc.W.Tokens {
		if ok && t.Access == p || !strings.Contains(p, t.Access) {
			s = append(s, KV{"access token", t.Access})
		}
		if t.Refresh != p && t.Refresh != "" && !strings.Contains(p, t.Refresh) {
			s = append(s, KV{"refresh token", t.Refresh})
		}
	}
	said := p
	if ok {
		said = ""
	}
	judgeSecrets(c, rc.W, rec, s, !ok, said)
}

// Go is the whole cycle. Some protectors have served requests of other stores before, which are judged as well.
func (rc *RPCase) Go(c *Case) (*RPExpect, bool, *Rec) {
	lg := &Logger{rc.W}
	rp := rc.ProtectorOn(lg)
	if c.Rng.P(30) {
		for i := 1 + c.Rng.N(3); i > 0; i-- {
			prev := &RPCase{W: GenWorld(c.Rng), Realm: rc.Realm, Accept: rc.Accept, URIMode: rc.URIMode, URIConst: rc.URIConst}
			GenRPReq(c.Rng, prev, c.Rng.Bool(), nil)
			if prev.Accept != rc.Accept {
				continue
			}
			if rc.Scopes != nil && prev.Scopes != nil && c.Rng.Bool() {
				prev.Scopes = rc.Scopes // the application's one map
			}
			lg.w = prev.W
			e, ok, rec := prev.on(c, rp)
			if c.bad {
				return e, ok, rec
			}
			c.Desc("before on this protector: %s -> %v %d", prev.Req.String(), ok, rec.Status)
			c.Count("endpoint.reused")
		}
	}
	lg.w = rc.W
	e, ok, rec := rc.on(c, rp)
	if !c.bad && c.Rng.P(20) { // the same again, perhaps after something changed
		for i := 1 + c.Rng.N(2); i > 0; i-- {
			how := rc.W.tweak(c.Rng)
			c.Desc("first: %s -> %v %d; then %s; then again:", rc.Req.String(), ok, rec.Status, how)
			c.Count("repeated")
			if rc.on(c, rp); c.bad {
				break
			}
		}
	}
	return e, ok, rec
}

func (rc *RPCase) on(c *Case, rp *goidc.ResourceProtector) (*RPExpect, bool, *Rec) {
	before := rc.W.describe()
	var rec *Rec
	c.DescFn = func() []string {
		d := append(before, rc.describe()...)
		if rec != nil {
			d = append(d, "response "+rec.String())
		}
		return append(d, rc.W.describeCalls()...)
	}
	e := rc.Expect()
	ok, rec, r, calls := rc.Serve(rp)
	rc.JudgeRP(c, e, ok, rec, r, calls)
	rc.judgeSecretsRP(c, ok, rec)
	return e, ok, rec
}

func runRP(x *Ctx, gen string, n int, scopes bool, focus []string) {
	x.Run(gen, n, func(c *Case) {
		rc := GenRP(c.Rng, scopes, focus)
		e, ok, rec := rc.Go(c)
		c.Nontrivial(fmt.Sprintf("%v|%v|%d|%d|%s|%s|%q|%v", rc.Muts, ok, rec.Status, rc.Accept, rc.Req.Method, e.Why, rc.Scopes[rc.Req.Build().URL.Path], len(e.Missing)))
		c.Sample()
	})
}

// runCut: nobody is there any more to read the response; what could not be told must not be told to the log.
func runCut(x *Ctx, gen string, n int) {
	x.Run(gen, n, func(c *Case) {
		var rec *Rec
		switch c.Rng.N(3) {
		case 0:
			tc := GenTok(c.Rng, "", nil)
			h := tc.Cfg.EndpointOn(&Logger{tc.W}).Handler(&DI{tc.W})
			c.DescFn = func() []string { return append(tc.describe(), tc.W.describeCalls()...) }
			rec = NewRec()
			rec.Cut = true
			setJWTClock(tc.W)
			at := len(tc.W.Calls)
			r := tc.Req.Build()
			guard(rec, func() { h(rec, r) })
			tc.JudgeSecrets(c, rec, tc.W.Calls[at:])
			made := 0
			for _, k := range tc.W.Calls[at:] {
				if _, ok := k.Obj.(*Token); ok {
					made++
				}
			}
			if made > 1 {
				c.Violate("C04 C05 C25", "%d tokens were made by one request", made)
			}
		case 1:
			ac := GenAuth(c.Rng, nil)
			ac.Cut = true
			c.DescFn = func() []string { return append(ac.describe(), ac.W.describeCalls()...) }
			ae := ac.EndpointOn(&DI{ac.W}, &Logger{ac.W})
			var calls []*Call
			rec, calls, _ = ac.Handle(ae)
			ac.judgeSecretsAuth(c, rec, calls, map[string]string{})
			if n := len(ac.Cb.Screens); n > 0 && ac.Cb.Screens[n-1].Kind == "consent" && rec.Panic == "" {
				ac.Cb.Parked = ac.Cb.Screens[n-1].Req
				rec, calls, _ = ac.call(func(rec *Rec, r *http.Request) { ae.CompleteRequest(rec, r, ac.Cb) })
				ac.judgeSecretsAuth(c, rec, calls, map[string]string{})
			}
		default:
			rc := GenRP(c.Rng, c.Rng.Bool(), nil)
			rc.Cut = true
			c.DescFn = func() []string { return append(rc.describe(), rc.W.describeCalls()...) }
			var ok bool
			ok, rec, _, _ = rc.Serve(rc.ProtectorOn(&Logger{rc.W}))
			rc.judgeSecretsRP(c, ok, rec)
		}
		if rec.Panic != "" {
			c.Violate("*", "panic when the response couldn't be written: %s", rec.Panic)
		}
		if rec.Writes > 0 {
			c.Count("cut")
		}
		c.Nontrivial(rec.String())
	})
}

func init() {
	checks["C21"] = func(x *Ctx) {
		x.R.Rule = "resource requests against generated stores, each valid or with 1-2 deviations; nontrivial by (deviations, outcome, acceptance, method, reason)"
		runRP(x, "rp", x.Scale(80000, 1500000), false, nil)
		runRP(x, "rps", x.Scale(20000, 300000), true, nil)
		x.Require("rp.passed", 10000)
		for _, k := range []string{"token_unknown", "token_expired", "authorization_not_active", "no_token_presented_in_a_configured_place"} {
			x.Require("rp."+k, 1000)
		}
	}
	checks["C22"] = func(x *Ctx) {
		x.R.Rule = "resource requests to paths with and without required scopes; nontrivial by (deviations, outcome, requirements, missing)"
		runRP(x, "rps", x.Scale(100000, 1500000), true, []string{"spoof", "both"})
		x.Require("rp.passed", 10000)
		x.Require("rp.required_scope_missing", 10000)
	}
	checks["C25"] = func(x *Ctx) {
		x.R.Rule = "token requests, authorization stories and resource accesses with unique secrets; nontrivial by what the case exercised"
		runTok(x, "tok", x.Scale(40000, 600000), "any", nil, nil)
		runAuth(x, "auth", x.Scale(25000, 400000), nil)
		runRP(x, "rp", x.Scale(20000, 300000), false, nil)
		faultTok(x, "ftok", x.Scale(4000, 60000))
		faultAuth(x, "fauth", x.Scale(2500, 40000))
		faultRP(x, "frp", x.Scale(1500, 20000))
		runCut(x, "cut", x.Scale(9000, 120000))
		x.Require("cut", 2000)
		x.Require("faults.token", 10000)
		x.Require("faults.authorize", 5000)
		x.Require("fault.token.FindUserId."+FaultServer, 50)
		x.Require("secrets.watched", 300000)
		x.Require("secrets.loglines", 20000)
	}
}
