package main

// Authorization endpoint: generator, reference model, judge.

import (
	"fmt"
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/prompt"
)

// AuthCase is one authorization request against a store, with the browser's login state.
type AuthCase struct {
	Cut    bool // the browser has gone
	W      *World
	Cb     *Callbacks
	Pol    *authorization.Policy
	Req    *Req
	Client *Client
	User   *User
	Hint   *Assertion
	Muts   []string
}

func (ac *AuthCase) Endpoint() *goidc.AuthorizationEndpoint {
	return ac.EndpointOn(&DI{ac.W}, &Logger{ac.W})
}

// EndpointOn makes an endpoint on whatever world di and lg point to at the time.
func (ac *AuthCase) EndpointOn(di *DI, lg *Logger) *goidc.AuthorizationEndpoint {
	ae := goidc.NewAuthorizationEndpoint(di, ac.Pol)
	ae.SetLogger(lg)
	ae.SetTimeBuilder(func() time.Time { return lg.w.Clock() })
	return ae
}

func (ac *AuthCase) describe() []string {
	out := []string{fmt.Sprintf("policy %+v", *ac.Pol), fmt.Sprintf("mutations %q", ac.Muts), "request " + ac.Req.String(),
		fmt.Sprintf("browser loggedIn=%v fromLogin=%v authTime=%d uid=%d hintUser=%q code=%q locale=%q", ac.Cb.LoggedIn, ac.Cb.FromLogin, ac.Cb.AuthTime, ac.Cb.UserID, ac.Cb.HintUser, ac.Cb.Code, ac.Cb.Locale)}
	if ac.Hint != nil {
		out = append(out, fmt.Sprintf("hint %s kid=%q claims=%v notes=%q", ac.Hint.Alg, ac.Hint.Kid, ac.Hint.Claims, ac.Hint.Note))
	}
	return out
}

var allModes = []string{"query", "fragment", "form_post"}

func genPolicy(rng *Rng) *authorization.Policy {
	p := authorization.DefaultPolicy()
	if rng.P(70) {
		p.MinMaxAge = []int{60, 1, 0, 10}[rng.N(4)]
		p.MaxMaxAge = p.MinMaxAge + []int{0, 1, 100, 86400}[rng.N(4)]
		p.MaxNonceLength = []int{255, 8, 16, 64, 3000}[rng.N(5)]
		p.MaxCodeVerifierLength = []int{255, 43, 128, 4200}[rng.N(4)]
		p.ConsentOmissionPeriod = []int{86400, 1, 60, 0, 1 << 30}[rng.N(5)]
		p.AuthSessionExpiresIn = []int{60, 1, 600, 0}[rng.N(4)]
		p.IdTokenExpiresIn = []int{86400, 1, 0, 600}[rng.N(4)]
		switch rng.N(12) {
		case 0:
			p.IdTokenExpiresIn = int(rng.PickI(bigSecs))
		case 1:
			p.AuthSessionExpiresIn = int(rng.PickI(bigSecs))
		case 2:
			p.ConsentOmissionPeriod = int(rng.PickI(bigSecs))
		case 3:
			p.MaxMaxAge = p.MinMaxAge + int(rng.PickI(bigSecs))
		}
		if len(fresh.nums) > 0 && rng.P(40) {
			switch rng.N(6) {
			case 0:
				p.MaxMaxAge = p.MinMaxAge + int(rng.Secs())
			case 1:
				p.MaxNonceLength = 6 + int(rng.Num(5000))
			case 2:
				p.MaxCodeVerifierLength = 30 + int(rng.Num(5000))
			case 3:
				p.ConsentOmissionPeriod = int(rng.Secs())
			case 4:
				p.AuthSessionExpiresIn = int(rng.Secs())
			default:
				p.IdTokenExpiresIn = int(rng.Secs())
			}
		}
		p.DefaultAuthorizationCodeFlowResponseMode = rng.Pick(allModes)
		p.DefaultImplicitFlowResponseMode = rng.Pick(allModes)
	}
	p.AllowEmptyScope = rng.P(40)
	p.IgnoreInvalidResponseMode = rng.Bool()
	p.RequireResponseModeSecurityLevelCheck = rng.P(65)
	return p
}

var authDims1 = []string{"cid-missing", "cid-near", "client-disabled", "uri-missing", "uri-near", "uri-other", "rt-missing", "rt-bad", "rm-bad", "rm-weak", "flow-off", "display-bad",
	"maxage-bad", "maxage-low", "maxage-high", "prompt-bad", "prompt-mix", "scope-bad", "scope-empty", "scope-noopenid", "offline", "offline-only", "nonce-missing", "nonce-long", "nonce-edge",
	"verifier-long", "verifier-edge", "dup-params", "maxage-edge", "scope-other-flow"}
var authDims2 = []string{"not-logged-in", "prompt-login", "prompt-login-done", "age-over", "age-edge", "prompt-consent", "info-missing", "info-inactive", "info-scope", "info-old", "info-edge", "info-other-user",
	"info-other-client", "none", "none", "none", "none", "hint-corrupt", "hint-claims", "hint-sub", "hint-missing", "hint-other-key", "select-account", "info-scope-near", "unsignable", "maxage-zero"}

type authGen struct {
	rng  *Rng
	want map[string]bool
}

func (g *authGen) is(m string) bool { return g.want[m] }

// GenAuth makes a case with a store of its own.
func GenAuth(rng *Rng, focus []string) *AuthCase {
	w := GenWorld(rng)
	return GenAuthReq(rng, &AuthCase{W: w, Pol: genPolicy(rng)}, focus)
}

var responseTypes = map[flow.FlowType][]string{flow.AuthorizationCode: {"code"}, flow.Implicit: {"token", "id_token", "id_token token"},
	flow.Hybrid: {"code token", "code id_token", "code id_token token"}}

func shuffleWords(rng *Rng, s string) string {
	l := strings.Split(s, " ")
	p := rng.Perm(len(l))
	out := make([]string, len(l))
	for i, j := range p {
		out[i] = l[j]
	}
	return strings.Join(out, " ")
}

// GenAuthReq fills in the request, login state and stored authorization of ac.
func GenAuthReq(rng *Rng, ac *AuthCase, focus []string) *AuthCase {
	w := ac.W
	g := &authGen{rng, map[string]bool{}}
	cl := w.clientList()
	c := cl[rng.N(len(cl))]
	other := cl[rng.N(len(cl))]
	for other == c && len(cl) > 1 {
		other = cl[rng.N(len(cl))]
	}
	ac.Client = c
	add := func(m string) {
		if !g.want[m] {
			g.want[m] = true
			ac.Muts = append(ac.Muts, m)
		}
	}
	n1, n2 := 0, rng.N(4)
	if rng.P(35) {
		n1 = 1 + rng.N(2)
	}
	for i := 0; i < n1; i++ {
		add(rng.Pick(authDims1))
	}
	for i := 0; i < n2; i++ {
		add(rng.Pick(authDims2))
	}
	if len(focus) > 0 && rng.P(70) {
		add(rng.Pick(focus))
	}
	q := &Req{Method: rng.Pick([]string{"GET", "GET", "POST"}), Path: rng.Pick([]string{"/authorize", "/"})}
	ac.Req = q
	put := func(k, v string) {
		if q.Method == "POST" && rng.P(85) {
			q.Body = append(q.Body, KV{k, v})
		} else {
			q.Query = append(q.Query, KV{k, v})
		}
	}
	// ---- flow and client
	ft := []flow.FlowType{flow.AuthorizationCode, flow.Implicit, flow.Hybrid}[rng.N(3)]
	rt := rng.Pick(responseTypes[ft])
	c.Flows[ft] = !g.is("flow-off")
	rt = shuffleWords(rng, rt)
	idt := hasWord(rt, "id_token")
	cid, ruri := c.ID, c.URIs[rng.N(len(c.URIs))]
	switch {
	case g.is("cid-missing"):
		cid = ""
	case g.is("cid-near"):
		cid = rng.NearMiss(cid)
	}
	if g.is("client-disabled") {
		c.Disabled = true
	}
	switch {
	case g.is("uri-missing"):
		ruri = ""
	case g.is("uri-near"):
		ruri = rng.NearMiss(ruri)
		if rng.P(50) {
			ruri = rng.Pick([]string{ruri + "/", ruri + "?", ruri + "#", ruri + "/../x", ruri + "&a=b", upper(ruri), "https://evil.example/?u=" + ruri, ruri + "@evil.example", ruri + ".evil.example", "//evil.example/", "javascript:alert(1)//" + ruri})
		}
	case g.is("uri-other"):
		ruri = rng.Pick([]string{other.URIs[0], "https://evil.example/", "x", "/", "https://evil.example\r\nX: y"})
	}
	if cid != "" || rng.Bool() {
		put("client_id", cid)
	}
	if ruri != "" || rng.Bool() {
		put("redirect_uri", ruri)
	}
	switch {
	case g.is("rt-missing"):
		if rng.Bool() {
			put("response_type", "")
		}
	case g.is("rt-bad"):
		put("response_type", rng.Pick([]string{"none", "code code", "codes", "Code", "token token", "code,token", "code  token", " code", "code ", "id_token code x", "password", rng.NearMiss(rt), rt + " none", rng.Hostile()}))
	default:
		put("response_type", rt)
	}
	def := ac.Pol.DefaultImplicitFlowResponseMode
	if ft == flow.AuthorizationCode {
		def = ac.Pol.DefaultAuthorizationCodeFlowResponseMode
	}
	switch {
	case g.is("rm-bad"):
		put("response_mode", rng.Pick([]string{"Query", "web_message", "queryx", "fragment ", "form-post", "jwt", "none", rng.Hostile()}))
	case g.is("rm-weak"):
		put("response_mode", "query")
	case rng.P(45):
		put("response_mode", rng.Pick(allModes))
	}
	_ = def
	// ---- prompt
	pr := ""
	switch {
	case g.is("prompt-bad"):
		pr = rng.Pick([]string{"None", "logins", "login,consent", "login  consent", " login", "consent ", "x", "login x", "create", rng.Hostile()})
	case g.is("prompt-mix"):
		pr = rng.Pick([]string{"none login", "login none", "consent none", "none consent", "none select_account", "none none login", "login consent none"})
	case g.is("none"):
		pr = "none"
		if rng.P(4) {
			pr = "none none"
		}
	default:
		var ws []string
		if g.is("prompt-login") || g.is("prompt-login-done") {
			ws = append(ws, "login")
		}
		if g.is("prompt-consent") || rng.P(20) {
			ws = append(ws, "consent")
		}
		if g.is("select-account") {
			ws = append(ws, "select_account")
		}
		if len(ws) > 0 && rng.P(5) {
			ws = append(ws, ws[0])
		}
		pr = shuffleWords(rng, strings.Join(ws, " "))
	}
	if (g.is("offline") || g.is("offline-only")) && pr != "none" && rng.P(60) && !hasWord(pr, "consent") {
		pr = strings.TrimSpace(pr + " consent")
	}
	if pr != "" {
		put("prompt", pr)
	}
	// ---- scope
	words := []string{}
	for _, i := range rng.Perm(len(scopeWords)) {
		s := scopeWords[i]
		if s != "openid" && s != "offline_access" && rng.P(40) {
			words = append(words, s)
		}
	}
	if idt || rng.P(60) {
		words = append(words, "openid")
	}
	if g.is("offline") || rng.P(25) {
		words = append(words, "offline_access")
	}
	if len(words) == 0 && !ac.Pol.AllowEmptyScope {
		words = append(words, "email")
	}
	if rng.P(6) {
		words = append(words, manyScopes(rng, c)...)
	}
	if rng.P(8) { // said twice
		w := rng.Pick([]string{"offline_access", "openid", words1(words)})
		for n := 1 + rng.N(3); n > 0 && hasWord(strings.Join(words, " "), w) && w != ""; n-- {
			words = append(words, w)
		}
	}
	need, related := "", ""
	if g.is("info-scope") && rng.P(30) {
		need, related = relatedScopes(rng)
		words = append(words, need)
	}
	sc := shuffleWords(rng, strings.Join(words, " "))
	if rng.P(95) { // usually allowed
		for _, s := range words {
			c.Scopes[ft][s] = true
		}
		if ac.Pol.AllowEmptyScope && rng.P(85) {
			c.EmptyScope = true
		}
	}
	switch {
	case g.is("scope-empty"):
		sc = ""
	case g.is("offline-only"):
		sc = rng.Pick([]string{"offline_access", "openid offline_access", "offline_access openid"})
		c.Scopes[ft]["openid"] = true
		if rng.P(80) {
			c.Scopes[ft]["offline_access"] = true
		}
	case g.is("scope-noopenid"):
		sc = strings.TrimSpace(dropWord(sc, "openid"))
		if rng.Bool() {
			sc = strings.TrimSpace(sc + " openid2")
			c.Scopes[ft]["openid2"] = true
		}
	case g.is("scope-bad"):
		sc = rng.Pick([]string{strings.TrimSpace(sc + " admin"), shuffleWords(rng, withMany(rng, sc, c)+" "+rng.Pick([]string{"admin", "root", "s0x"})), "admin", rng.NearMiss(sc), "OPENID email", "openid,email", "openid  email", " "})
	case g.is("scope-other-flow"):
		s := rng.Pick(scopeWords)
		for f := range c.Scopes {
			c.Scopes[f][s] = true
		}
		delete(c.Scopes[ft], s)
		if !hasWord(sc, s) {
			sc = strings.TrimSpace(sc + " " + s)
		}
	}
	if sc != "" || rng.Bool() {
		put("scope", sc)
	}
	// ---- the rest of the parameters
	if rng.P(80) {
		st := rng.authText()
		if rng.P(6) {
			st = g.known(ac)
		}
		put("state", st)
	}
	nonce := ""
	if idt || rng.P(40) {
		nonce = "n-" + rng.Str(1+rng.N(ac.Pol.MaxNonceLength-2))
		if rng.P(30) && ac.Pol.MaxNonceLength > 40 {
			nonce = "n" + firstRunes(rng.authText(), 9)
		}
		if s := g.known(ac); rng.P(6) && len(s) <= ac.Pol.MaxNonceLength {
			nonce = s
		}
	}
	switch {
	case g.is("nonce-missing"):
		nonce = ""
	case g.is("nonce-long"):
		nonce = rng.Str(ac.Pol.MaxNonceLength + 1 + rng.N(3))
	case g.is("nonce-edge"):
		nonce = rng.Str(ac.Pol.MaxNonceLength)
	}
	if nonce != "" || rng.P(30) {
		put("nonce", nonce)
	}
	ver := ""
	if rng.P(40) {
		ver = rng.Str(43)
		if rng.P(20) && ac.Pol.MaxCodeVerifierLength > 100 {
			ver = "v" + firstRunes(rng.authText(), 20)
		}
		if s := g.known(ac); rng.P(6) && len(s) <= ac.Pol.MaxCodeVerifierLength {
			ver = s
		}
	}
	switch {
	case g.is("verifier-long"):
		ver = rng.Str(ac.Pol.MaxCodeVerifierLength + 1 + rng.N(3))
	case g.is("verifier-edge"):
		ver = rng.Str(ac.Pol.MaxCodeVerifierLength)
	}
	if ver != "" || rng.P(10) {
		put("code_verifier", ver)
	}
	switch {
	case g.is("display-bad"):
		put("display", rng.Pick([]string{"Page", "pag", "popup ", "x", "page popup", rng.Hostile()}))
	case rng.P(30):
		put("display", rng.Pick([]string{"page", "popup", "touch", "wap", ""}))
	}
	if rng.P(30) {
		put("ui_locales", rng.Pick([]string{"ja en", "en-US", rng.Hostile(), g.known(ac)}))
	}
	ma := ""
	maxAge := ac.Pol.MinMaxAge + rng.N(ac.Pol.MaxMaxAge-ac.Pol.MinMaxAge+1)
	switch {
	case g.is("maxage-bad"):
		ma = rng.Pick([]string{"abc", "1.5", "1e3", "60s", " 60", "60 ", "0x40", "99999999999999999999999", "-", "--1", "6_0", "NaN", "٦٠", "60\n"})
	case g.is("maxage-low"):
		ma = fmt.Sprint(ac.Pol.MinMaxAge - 1 - rng.N(3))
	case g.is("maxage-high"):
		ma = fmt.Sprint(ac.Pol.MaxMaxAge + 1 + rng.N(3))
	case g.is("maxage-edge"):
		maxAge = []int{ac.Pol.MinMaxAge, ac.Pol.MaxMaxAge}[rng.N(2)]
		ma = fmt.Sprint(maxAge)
	case g.is("maxage-zero"):
		maxAge = 0
		ma = "0"
	case rng.P(30) || g.is("age-over") || g.is("age-edge"):
		ma = fmt.Sprint(maxAge)
	}
	if ma != "" {
		put("max_age", ma)
	}

	// ---- the browser
	u := w.Users[rng.N(len(w.Users))]
	u2 := w.Users[rng.N(len(w.Users))]
	ac.User = u
	cb := &Callbacks{w: w, LoggedIn: !g.is("not-logged-in"), FromLogin: rng.P(40), UserID: u.ID, HintUser: u.Subject, Code: fmt.Sprintf("code-%s-%d", w.tag, w.id()),
		Locale: rng.Pick([]string{"en", "ja", "", "日本", rng.Hostile()})}
	if !validUTF8(cb.Locale) {
		cb.Locale = "x"
	}
	if rng.P(10) {
		cb.Code += rng.Pick([]string{"+/=", "&a=b", " ", "日本", "%41", "\"><", ".x9", ".a.b", ":1", "|2", "--", "_", "~", "#", "?"})
	}
	ac.Cb = cb
	cb.AuthTime = w.Now - int64(rng.N(20))
	if rng.P(20) {
		cb.AuthTime = w.Now - int64(rng.N(200000))
	}
	if ma != "" && maxAge > 0 && rng.P(60) {
		cb.AuthTime = w.Now - int64(rng.N(capped(maxAge)+1))
	}
	if g.is("age-over") {
		cb.AuthTime = w.Now - int64(maxAge) - rng.PickI([]int64{1, 1, 2, 1000})
	}
	if g.is("age-edge") {
		cb.AuthTime = w.Now - int64(maxAge) + rng.PickI([]int64{0, 0, 1})
	}
	if rng.P(3) {
		cb.AuthTime = rng.PickI([]int64{0, -1, w.Now + 5})
	}
	if g.is("prompt-login") {
		cb.FromLogin = rng.P(20)
	}
	if g.is("prompt-login-done") {
		cb.FromLogin = true
	}
	// ---- authorization granted before
	c.NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	if rng.P(20) {
		c.NoConsent = prompt.NoConsentPromptPolicyForceConsent
	}
	eff := sc
	if hasWord(sc, "offline_access") && (ft == flow.Implicit || !hasWord(pr, "consent")) {
		eff = dropWord(sc, "offline_access")
	}
	iu, ic := u, c
	if g.is("info-other-user") {
		iu = u2
	}
	if g.is("info-other-client") {
		ic = other
	}
	if !g.is("info-missing") && rng.P(90) {
		i := w.addInfo(iu, ic, shuffleWords(rng, eff))
		per := int64(ac.Pol.ConsentOmissionPeriod)
		i.AuthorizedAt = w.Now
		if per > 1 {
			i.AuthorizedAt = w.Now - int64(rng.N(capped(int(per))))
			if rng.FreshP(5, 40, len(fresh.nums) > 0) {
				if d := rng.Secs(); d < per && d < w.Now {
					i.AuthorizedAt = w.Now - d
				}
			}
		}
		if per <= 1 && rng.P(50) { // otherwise never within the period
			i.AuthorizedAt = w.Now + 5
		}
		switch {
		case g.is("info-inactive"):
			i.Active = false
		case g.is("info-scope") && related != "" && rng.P(60):
			i.Scope = shuffleWords(rng, strings.TrimSpace(dropWord(eff, need)+" "+related))
		case g.is("info-scope"):
			i.Scope = rng.Pick([]string{"", "openid", strings.TrimSpace(eff + " api2"), "email openid api", dropWord(eff, "openid"), sc, strings.TrimSpace(eff + " offline_access")})
		case g.is("info-scope-near"):
			i.Scope = rng.NearMiss(eff)
			if eff != "" && rng.P(40) {
				i.Scope = eff + " " + strings.Split(eff, " ")[0]
			}
		case g.is("info-old"):
			i.AuthorizedAt = w.Now - per - rng.PickI([]int64{0, 0, 1, 1000})
			if rng.P(15) {
				i.AuthorizedAt = rng.PickI(specialTimes)
			}
		case g.is("info-edge"):
			i.AuthorizedAt = w.Now - per + 1
		}
	}
	if rng.P(30) { // bystanders
		w.addInfo(u2, other, "openid api")
		if u2.ID != u.ID {
			w.addInfo(u2, c, eff)
		}
		if other != c {
			w.addInfo(u, other, eff)
		}
	}
	if g.is("unsignable") {
		c.Alg, c.Key = "HS256", nil
		switch rng.N(4) {
		case 0:
			c.Alg, c.Key = "none", []byte("x")
		case 1:
			c.Alg = ""
		case 2:
			c.Alg, c.Key = "RS256", []byte("not an rsa key")
		}
		c.Secret = "unsignable-" + c.Secret
	}
	// ---- prompt=none policy and hints
	c.NonePolicy = prompt.NonePromptPolicy(rng.N(4))
	if rng.P(3) {
		c.NonePolicy = prompt.NonePromptPolicy(4 + rng.N(3))
	}
	if c.NonePolicy == prompt.NonePromptPolicyForbidden && rng.P(50) {
		c.NonePolicy = prompt.NonePromptPolicyAllowWithLoginSession
	}
	for _, m := range []string{"hint-corrupt", "hint-claims", "hint-other-key"} {
		if g.is(m) && rng.P(85) {
			c.NonePolicy = prompt.NonePromptPolicyAllowIfIdTokenHintMatched
		}
	}
	hs := u.Subject
	if g.is("hint-sub") {
		if rng.P(60) {
			c.NonePolicy = prompt.NonePromptPolicyAllowIfLoginHintMatched
		} else if rng.P(60) {
			c.NonePolicy = prompt.NonePromptPolicyAllowIfIdTokenHintMatched
		}
		hs = rng.Pick([]string{u2.Subject, rng.NearMiss(u.Subject), rng.Several(u.Subject), rng.Several(u.Subject),
			rng.Several(u.Subject), "", u.Name, c.ID})
	}
	if g.is("hint-missing") {
		if rng.Bool() {
			put("login_hint", "")
			put("id_token_hint", "")
		}
	} else {
		if c.NonePolicy == prompt.NonePromptPolicyAllowIfLoginHintMatched || rng.P(15) {
			put("login_hint", hs)
		} else if rng.P(8) {
			put("login_hint", g.known(ac))
		}
		if (c.NonePolicy == prompt.NonePromptPolicyAllowIfIdTokenHintMatched || rng.P(15)) && !c.unsignable() {
			ac.Hint = g.hint(ac, c, hs, other)
			put("id_token_hint", ac.Hint.Raw)
		}
	}
	cb.Remembered = ac.Hint == nil && rng.Bool()
	if !g.is("dup-params") {
		w.addDecoys(rng, q, authNames, put)
	}
	if g.is("dup-params") {
		for n := 0; n < 1+rng.N(3); n++ {
			all := append(append([]KV{}, q.Body...), q.Query...)
			kv := all[rng.N(len(all))]
			if strings.Contains(kv.K, "hint") || kv.K == "max_age" {
				continue
			}
			kv.V = rng.Pick([]string{kv.V, rng.NearMiss(kv.V), "", rng.HostileText()})
			if q.Method == "POST" && rng.Bool() {
				q.Body = append(q.Body, kv)
			} else {
				q.Query = append(q.Query, kv)
			}
		}
	}
	if k := rng.Pick([]string{"foo", "request", "acr_values", "claims", rng.Hostile()}); rng.P(15) && !authNames[k] {
		put(k, rng.Hostile())
	}
	return ac
}

func words1(l []string) string {
	if len(l) == 0 {
		return ""
	}
	return l[len(l)/2]
}

func capped(n int) int {
	if n > 900000000 {
		return 900000000
	}
	return n
}

func firstRunes(s string, n int) string {
	r := []rune(s)
	if len(r) > n {
		r = r[:n]
	}
	return string(r)
}

// authText is text for state and the like: hostile, but valid UTF-8.
func (r *Rng) authText() string {
	if r.P(50) {
		return "st-" + r.Str(1+r.N(20))
	}
	if r.P(5) {
		return "st-" + r.Long()
	}
	for {
		if s := r.HostileText(); s != "" {
			return s
		}
	}
}

// known is a string that appears somewhere else: in the store or in the request.
func (g *authGen) known(ac *AuthCase) string {
	rng := g.rng
	for {
		s := ac.W.Decoy(rng)
		if all := append(append([]KV{}, ac.Req.Query...), ac.Req.Body...); len(all) > 0 && rng.P(25) {
			s = all[rng.N(len(all))].V
		}
		if s != "" && validUTF8(s) {
			return s
		}
	}
}

// keyFor finds the key with a public half.
func keyFor(alg string, pub interface{}) *Key {
	for _, k := range keyring {
		if k.Family == famOf(alg) && sameKey(k.Pub, pub) {
			return k
		}
	}
	return nil
}

func (g *authGen) hint(ac *AuthCase, c *Client, sub string, other *Client) *Assertion {
	rng, w := g.rng, ac.W
	var key *Key
	for _, k := range keyring {
		if k.Family == famOf(c.Alg) && sameKey(k.Pub, pubOf(c.Key)) {
			key = k
		}
	}
	if key == nil {
		panic("no key")
	}
	claims := map[string]interface{}{"iss": w.Issuer, "aud": c.ID, "sub": sub, "exp": w.Now + int64(rng.N(600)), "iat": w.Now - int64(rng.N(100))}
	if rng.P(30) {
		claims["nonce"] = rng.Str(4)
	}
	if rng.P(8) {
		claims["exp"] = w.Now + rng.PickI(bigSecs)
	}
	if rng.FreshP(6, 30, len(fresh.nums) > 0) {
		claims["exp"] = w.Now + rng.Secs()
		claims["iat"] = w.Now - rng.Secs()
	}
	if rng.FreshP(12, 40, len(fresh.words) > 0) {
		for n := 1 + rng.N(4); n > 0; n-- {
			if k := rng.Name(jwtNames); k != "iss" {
				claims[k] = w.decoyClaim(rng)
			}
		}
	}
	var notes []string
	if g.is("hint-claims") {
		switch rng.N(10) {
		case 0:
			delete(claims, "exp")
		case 1:
			claims["exp"] = rng.pickAny([]interface{}{nil, "x", fmt.Sprint(w.Now + 100), true, []int{1}, 0, -1, 0.5, 1, 0.0})
		case 2:
			claims["exp"] = w.Now - 1
		case 3:
			claims["exp"] = w.Now
		case 4:
			claims["exp"] = w.Now - int64(2+rng.N(100000))
		case 5:
			claims["nbf"] = w.Now + 1
		case 6:
			claims["iat"] = w.Now + 1 + int64(rng.N(1000))
		case 7:
			delete(claims, "sub")
			rng.elsewhere(claims, sub)
		case 8:
			claims["sub"] = rng.pickAny([]interface{}{nil, 1, true, []string{sub}, map[string]string{"sub": sub}})
			rng.elsewhere(claims, sub)
		default:
			claims["nbf"] = w.Now
		}
		notes = append(notes, "claims")
	}
	spec := &AssertSpec{Alg: c.Alg, Kid: c.Kid, Key: key, Claims: claims}
	corrupt := ""
	if g.is("hint-corrupt") {
		corrupt = rng.Pick(corruptions)
	}
	if g.is("hint-other-key") {
		corrupt = "other-key"
		if rng.P(60) { // a key that has to do with the client or with another one, named as there
			cl := w.clientList()
			o := cl[rng.N(len(cl))]
			if rng.Bool() {
				o = c
			}
			alg, kid, pub := o.Alg, o.Kid, pubOf(o.Key)
			if l := sortedKeys(o.AssertionKeys); len(l) > 0 && rng.P(70) {
				ak := rng.Pick(l)
				alg, kid, _ = strings.Cut(ak, "|")
				pub = o.AssertionKeys[ak]
			}
			if k := keyFor(alg, pub); k != nil && !sameKey(pub, pubOf(c.Key)) {
				spec.Alg, spec.Kid, spec.Key, corrupt = alg, kid, k, ""
				notes = append(notes, "key of "+o.ID)
			}
		}
	}
	a := spec.Build(rng, corrupt)
	a.Note = append(a.Note, notes...)
	return a
}

// ---------------------------------------------------------------- reference model

type AuthExpect struct {
	Screens  map[int]bool // error screens of which one has to be shown
	Conds    []Cond       // reasons for an error response
	None     bool
	Modes    map[string]bool
	Mode     string
	URI      string
	State    string
	Req      *authorization.Request
	Want     string // error, login, consent, complete
	Client   *Client
	Info     *Info // authorization that a silent completion uses
	UserID   int64
	MaxAge0  bool // max_age=0 was given and the login is older: known finding
	Unsigned bool
	// MayCreate: failing after creation steps is legitimate
	MayCreate bool
}

func (e *AuthExpect) fail(name, props string, codes ...string) {
	e.Conds = append(e.Conds, Cond{name, props, codes})
}
func (e *AuthExpect) names() string { t := &TokExpect{Conds: e.Conds}; return t.names() }
func (e *AuthExpect) props() string { t := &TokExpect{Conds: e.Conds}; return t.props() }
func (e *AuthExpect) codes() map[string]bool {
	t := &TokExpect{Conds: e.Conds}
	return t.codes()
}

func modeLevel(m string) int {
	for i, x := range allModes {
		if x == m {
			return i
		}
	}
	return -1
}

// flowOf reads a response type.
func flowOf(rt string) *flow.Flow {
	n := map[string]int{}
	for _, w := range strings.Split(rt, " ") {
		n[w]++
		if n[w] > 1 || w != "code" && w != "token" && w != "id_token" {
			return nil
		}
	}
	f := &flow.Flow{RequireAccessToken: n["token"] > 0, RequireIdToken: n["id_token"] > 0}
	switch {
	case n["code"] > 0 && len(n) == 1:
		f.Type = flow.AuthorizationCode
	case n["code"] > 0:
		f.Type = flow.Hybrid
	default:
		f.Type = flow.Implicit
	}
	return f
}

func sameWords(a, b string) bool {
	x, y := strings.Split(a, " "), strings.Split(b, " ")
	sortStrings(x)
	sortStrings(y)
	return strings.Join(x, " ") == strings.Join(y, " ")
}

// hintProblems lists why an ID token hint can't be believed.
func hintProblems(a *Assertion, c *Client, now int64) (out []string, sub string) {
	if a == nil || a.Malformed {
		return []string{"malformed"}, ""
	}
	if !a.KnownAlg || a.VerifyKey == nil || !sameKey(a.VerifyKey.Pub, pubOf(c.Key)) {
		out = append(out, "signature does not verify")
	}
	for _, p := range a.claimProblems(now, "") {
		if !strings.HasPrefix(p, "aud") {
			out = append(out, p)
		}
	}
	sub, ok := a.Claims["sub"].(string)
	if !ok {
		out = append(out, "no subject")
	}
	return out, sub
}

// Expect computes what has to happen for the request in the present state of the store.
func (ac *AuthCase) Expect() *AuthExpect {
	e := &AuthExpect{Modes: map[string]bool{}}
	w, pol, cb := ac.W, ac.Pol, ac.Cb
	r := ac.Req.Build()
	p := r.FormValue
	screens := map[int]bool{}
	cid, ruri := p("client_id"), p("redirect_uri")
	e.URI, e.State = ruri, p("state")
	if cid == "" {
		screens[authorization.ErrMissingClientId] = true
	}
	if ruri == "" {
		screens[authorization.ErrMissingRedirectURI] = true
	}
	var c *Client
	if cid != "" {
		c = w.Clients[cid]
		if c == nil || c.Disabled {
			c = nil
			screens[authorization.ErrMissingClientId] = true
		}
	}
	if c != nil && ruri != "" {
		ok := false
		for _, u := range c.URIs {
			ok = ok || u == ruri
		}
		if !ok {
			screens[authorization.ErrInvalidRedirectURI] = true
		}
	}
	if len(screens) > 0 {
		e.Screens = screens
		return e
	}
	e.Client = c
	e.Want = "error"
	rmode := p("response_mode")
	f := flowOf(p("response_type"))
	if f == nil {
		e.fail("response_type not known", "C12", "invalid_request", "unsupported_response_type")
		for _, m := range []string{pol.DefaultAuthorizationCodeFlowResponseMode, pol.DefaultImplicitFlowResponseMode, "query"} {
			e.Modes[m] = true
		}
		if modeLevel(rmode) >= 0 {
			e.Modes[rmode] = true
		}
		return e
	}
	def := pol.DefaultImplicitFlowResponseMode
	if f.Type == flow.AuthorizationCode {
		def = pol.DefaultAuthorizationCodeFlowResponseMode
	}
	e.Mode = rmode
	switch {
	case rmode == "":
		e.Mode = def
	case modeLevel(rmode) < 0:
		e.Mode = def
		if !pol.IgnoreInvalidResponseMode {
			e.fail("response_mode not known", "C17 C12", "invalid_request")
		}
	case pol.RequireResponseModeSecurityLevelCheck && modeLevel(rmode) < modeLevel(def):
		e.Mode = def
		if !pol.IgnoreInvalidResponseMode {
			e.fail("response_mode too weak", "C17 C12", "invalid_request")
		}
	}
	e.Modes[e.Mode] = true
	if !c.Flows[f.Type] {
		e.fail("flow not allowed", "C12", "unauthorized_client")
	}
	display := p("display")
	switch display {
	case "":
		display = "page"
	case "page", "popup", "wap", "touch":
	default:
		e.fail("display not known", "C12", "invalid_request")
	}
	mas := p("max_age")
	ma := 0
	if mas != "" {
		n, err := strconv.Atoi(mas)
		switch {
		case err != nil:
			e.fail("max_age not an integer", "C12", "invalid_request")
		case n < pol.MinMaxAge:
			e.fail("max_age below the minimum", "C12", "invalid_request")
		case n > pol.MaxMaxAge:
			e.fail("max_age above the maximum", "C12", "invalid_request")
		}
		ma = n
	}
	pr := p("prompt")
	if pr != "" {
		none, others := false, false
		for _, x := range strings.Split(pr, " ") {
			switch x {
			case "none":
				none = true
			case "login", "consent", "select_account":
				others = true
			default:
				e.fail("prompt not known", "C12", "invalid_request")
			}
		}
		if none && others {
			e.fail("prompt none with others", "C12 C15", "invalid_request")
		}
		e.None = none
	}
	sc := p("scope")
	if hasWord(sc, "offline_access") {
		if f.Type == flow.Implicit || !hasWord(pr, "consent") {
			sc = dropWord(sc, "offline_access")
		} else if !pol.AllowEmptyScope && dropWord(dropWord(sc, "openid"), "offline_access") == "" {
			e.fail("offline_access alone", "C16 C12", "invalid_request")
		}
	}
	if sc == "" && !pol.AllowEmptyScope {
		e.fail("scope empty", "C12", "invalid_request")
	}
	if f.RequireIdToken && !hasWord(sc, "openid") {
		e.fail("openid missing", "C12 C10", "invalid_request")
	}
	if !c.AllowsScope(f.Type, sc) {
		e.fail("scope not allowed", "C12 C16", "invalid_scope")
	}
	nonce := p("nonce")
	if f.Type != flow.AuthorizationCode && f.RequireIdToken && nonce == "" {
		e.fail("nonce missing", "C12", "invalid_request")
	}
	if len(nonce) > pol.MaxNonceLength {
		e.fail("nonce too long", "C12", "invalid_request")
	}
	ver := p("code_verifier")
	if len(ver) > pol.MaxCodeVerifierLength {
		e.fail("code_verifier too long", "C12", "invalid_request")
	}
	if len(e.Conds) > 0 {
		return e
	}
	e.Req = &authorization.Request{Flow: f, ClientId: cid, RedirectURI: ruri, Scope: sc, ResponseMode: e.Mode, State: e.State, Nonce: nonce, Display: display, Prompt: pr,
		MaxAge: int64(ma), UILocale: cb.Locale, CodeVerifier: ver, IdTokenHint: p("id_token_hint"), LoginHint: p("login_hint")}
	e.UserID = cb.UserID
	e.Unsigned = f.RequireIdToken && c.unsignable()
	// consent given before?
	i := w.findInfo(cb.UserID, cid)
	given := i != nil && i.Active && sameWords(i.Scope, sc) && i.AuthorizedAt+int64(pol.ConsentOmissionPeriod) > w.Now
	stale := ma > 0 && w.Now-cb.AuthTime > int64(ma)
	e.MaxAge0 = mas != "" && ma == 0 && w.Now-cb.AuthTime > 0
	if e.None {
		login := func() {
			if !cb.LoggedIn {
				e.fail("not logged in", "C15 C13", "login_required")
			}
		}
		switch c.NonePolicy {
		case prompt.NonePromptPolicyAllowWithLoginSession:
			login()
		case prompt.NonePromptPolicyAllowIfLoginHintMatched:
			login()
			h := p("login_hint")
			if h == "" {
				e.fail("login_hint missing", "C15", "invalid_request", "login_required", "interaction_required", "account_selection_required")
			} else if cb.LoggedIn && h != cb.HintUser {
				e.fail("login_hint names another user", "C15", "invalid_request", "login_required", "interaction_required", "account_selection_required")
			}
		case prompt.NonePromptPolicyAllowIfIdTokenHintMatched:
			h := p("id_token_hint")
			login()
			if h == "" {
				e.fail("id_token_hint missing", "C15", "invalid_request", "login_required", "interaction_required", "account_selection_required")
				break
			}
			probs, sub := hintProblems(ac.Hint, c, w.Now)
			for _, x := range probs {
				e.fail("id_token_hint "+x, "C15", "invalid_request", "login_required", "interaction_required", "account_selection_required")
			}
			if len(probs) == 0 && (!cb.LoggedIn || sub == "" || sub != cb.HintUser) {
				e.fail("id_token_hint names another user", "C15", "invalid_request", "login_required", "interaction_required", "account_selection_required")
			}
		default:
			e.fail("prompt none forbidden", "C15", "interaction_required", "login_required", "consent_required")
			return e
		}
		if cb.LoggedIn && !given {
			e.fail("no consent on record", "C15 C14", "consent_required", "interaction_required")
		}
		if cb.LoggedIn && stale {
			e.fail("login older than max_age", "C13 C15", "login_required")
		}
		if len(e.Conds) == 0 {
			e.Want = "complete"
			e.Info = i
		}
		return e
	}
	switch {
	case !cb.LoggedIn, hasWord(pr, "login") && !cb.FromLogin, stale:
		e.Want = "login"
	case !hasWord(pr, "consent") && c.NoConsent == prompt.NoConsentPromptPolicyOmitConsentIfCan && given:
		e.Want = "complete"
		e.Info = i
	default:
		e.Want = "consent"
	}
	return e
}

// ---------------------------------------------------------------- judge

func created(calls []*Call) *Call {
	for _, k := range calls {
		for _, m := range append(creations, "DisableSession") {
			if k.Method == m {
				return k
			}
		}
	}
	return nil
}

func diffReq(got, want *authorization.Request) (props string, diff string) {
	if got == nil {
		return "C19", "no request"
	}
	d := func(p, name string, a, b interface{}) {
		if a != b {
			props += " " + p
			diff += fmt.Sprintf(" %s is %q, want %q;", name, fmt.Sprint(a), fmt.Sprint(b))
		}
	}
	if got.Flow == nil {
		return "C19", "request without flow"
	}
	d("C19", "flow", *got.Flow, *want.Flow)
	d("C19 C11", "client_id", got.ClientId, want.ClientId)
	d("C19 C16", "scope", got.Scope, want.Scope)
	d("C19 C11", "redirect_uri", got.RedirectURI, want.RedirectURI)
	d("C19 C17", "response_mode", got.ResponseMode, want.ResponseMode)
	d("C19 C18", "state", got.State, want.State)
	d("C19 C03", "code_verifier", got.CodeVerifier, want.CodeVerifier)
	d("C19 C10", "nonce", got.Nonce, want.Nonce)
	d("C19", "display", got.Display, want.Display)
	d("C19 C15", "prompt", got.Prompt, want.Prompt)
	d("C19 C13", "max_age", got.MaxAge, want.MaxAge)
	d("C19", "ui_locale", got.UILocale, want.UILocale)
	d("C19 C15", "id_token_hint", got.IdTokenHint, want.IdTokenHint)
	d("C19 C15", "login_hint", got.LoginHint, want.LoginHint)
	return
}

// judgeErrorResp checks an error response to the client; returns its code.
func judgeErrorResp(c *Case, rec *Rec, uri, state string, modes map[string]bool, codes map[string]bool, why, props string) string {
	a := ParseAuthResp(rec, uri)
	if a.Kind != "redirect" && a.Kind != "form" {
		c.Violate(props+" C18 C24", "no error response although %s: %s", why, rec)
		return ""
	}
	if a.Problem != "" {
		c.Violate("C18 C11 C24", "bad response (%s): %s", a.Problem, rec)
		return ""
	}
	if !modes[a.Mode] {
		c.Violate("C17", "error response in mode %s, want %v: %s", a.Mode, modes, rec)
	}
	m := flat(a.Params)
	code := m["error"]
	if !codes[code] {
		c.Violate(props, "error %q does not fit: %s (want one of %v)", code, why, codes)
	}
	for k, v := range m {
		switch k {
		case "error":
		case "error_description", "error_uri":
			if v == "" {
				c.Violate("C18", "empty %s", k)
			}
		case "state":
			if state == "" || v != state {
				c.Violate("C18 C12", "state %q in an error response, want %q", v, state)
			}
		default:
			c.Violate("C18 C19", "error response has parameter %q=%q", k, v)
		}
	}
	if _, has := m["state"]; !has && state != "" {
		c.Violate("C18 C12", "error response lacks the state %q", state)
	}
	return code
}

// JudgeHandle compares the outcome of HandleRequest with the model. It returns the outcome.
func (ac *AuthCase) JudgeHandle(c *Case, e *AuthExpect, rec *Rec, calls []*Call, screens []Screen) string {
	if rec.Panic != "" {
		c.Violate("*", "authorization endpoint panicked: %s", rec.Panic)
		return "panic"
	}
	n := len(screens)
	if rec.Touched() {
		n++
	}
	if n != 1 {
		c.Violate("C12 C24 C20", "%d outcomes: screens %v, response %s", n, screens, rec)
		return "odd"
	}
	got := "response"
	if len(screens) == 1 {
		got = screens[0].Kind
	}
	if e.Screens != nil {
		if k := created(calls); k != nil {
			c.Violate("C11 C29", "%s for an unapproved client or address", k)
		}
		if got != "error" {
			c.Violate("C11 C29", "outcome %s for an unapproved client or address: %s", got, rec)
		} else if !e.Screens[screens[0].Err] {
			c.Violate("C11", "error screen %d, want one of %v", screens[0].Err, e.Screens)
		}
		c.Count("outcome.error-screen")
		return "error-screen"
	}
	if got == "error" {
		c.Violate("C11 C12", "error screen %d for an approved address (model: %s %s)", screens[0].Err, e.Want, e.names())
		return "odd"
	}
	if e.Want == "error" {
		if k := created(calls); k != nil && !e.MayCreate {
			c.Violate(e.props()+" C12 C29", "%s although: %s", k, e.names())
		}
		if got != "response" {
			c.Violate(e.props(), "%s screen although: %s", got, e.names())
			return "odd"
		}
		judgeErrorResp(c, rec, e.URI, e.State, e.Modes, e.codes(), e.names(), e.props())
		c.Count("outcome.error")
		for _, cd := range e.Conds {
			c.Count("cond." + strings.ReplaceAll(cd.Name, " ", "_"))
		}
		return "error"
	}
	if got != "response" {
		if k := created(calls); k != nil {
			c.Violate("C12 C14 C29", "%s although the %s screen was shown", k, got)
		}
	}
	complete := func() {
		want := &CompleteExpect{Req: e.Req, Info: e.Info, UserID: e.UserID, Client: e.Client, Unsigned: e.Unsigned}
		ac.JudgeComplete(c, want, rec, calls)
	}
	what := fmt.Sprintf("%s (prompt %q max_age %d logged in %v auth %d s ago from login %v)", got, e.Req.Prompt, e.Req.MaxAge, ac.Cb.LoggedIn, ac.W.Now-ac.Cb.AuthTime, ac.Cb.FromLogin)
	if e.MaxAge0 && e.Want != "login" {
		// the login is older than the max_age of zero that was given
		c.Known("C13", "KF3", "max_age=0 with a login "+fmt.Sprint(ac.W.Now-ac.Cb.AuthTime)+" s old is taken to "+e.Want)
	}
	switch e.Want {
	case "login":
		switch got {
		case "login":
			if p, d := diffReq(screens[0].Req, e.Req); d != "" {
				c.Violate(p, "login screen got a changed request:%s", d)
			}
		case "consent":
			c.Violate("C13", "consent screen where a login is due: %s", what)
		default:
			props := "C13 C12"
			if a := ParseAuthResp(rec, e.URI); a.Params["code"] != nil || a.Params["access_token"] != nil || a.Params["id_token"] != nil {
				props = "C13 C29 C14"
			}
			c.Violate(props, "response where a login is due: %s; %s", what, rec)
		}
		c.Count("outcome.login")
		return "login"
	case "consent":
		switch got {
		case "consent":
			if p, d := diffReq(screens[0].Req, e.Req); d != "" {
				c.Violate(p, "consent screen got a changed request:%s", d)
			}
			if screens[0].Client != e.Client.ID {
				c.Violate("C14 C19", "consent screen for client %q, want %q", screens[0].Client, e.Client.ID)
			}
		case "login":
			c.Violate("C13", "login screen for a login that is fresh: %s", what)
		default:
			props := "C14 C12"
			if a := ParseAuthResp(rec, e.URI); a.Params["code"] != nil || a.Params["access_token"] != nil || a.Params["id_token"] != nil {
				props = "C14 C29"
			}
			c.Violate(props, "response where consent is due: %s; %s", what, rec)
		}
		c.Count("outcome.consent")
		return "consent"
	}
	switch got {
	case "login":
		p := "C13"
		if e.None {
			p = "C15"
		}
		c.Violate(p, "login screen for a login that is fresh: %s", what)
	case "consent":
		p := "C14"
		if e.None {
			p = "C15"
		}
		c.Violate(p, "consent screen although consent is on record and may be omitted: %s", what)
	default:
		if e.None {
			c.Count("outcome.silent")
			c.Count("silent." + fmt.Sprint(int(e.Client.NonePolicy)) + "." + e.Client.Alg)
		}
		complete()
	}
	c.Count("outcome.complete")
	return "complete"
}

type CompleteExpect struct {
	Req      *authorization.Request
	Info     *Info // nil: it has to be made by CreateOrUpdateAuthInfo
	UserID   int64
	Client   *Client
	Unsigned bool
}

// JudgeComplete checks a completed request: what was stored and what was delivered.
func (ac *AuthCase) JudgeComplete(c *Case, e *CompleteExpect, rec *Rec, calls []*Call) map[string]string {
	if rec.Panic != "" {
		c.Violate("*", "authorization endpoint panicked: %s", rec.Panic)
		return nil
	}
	w := ac.W
	req := e.Req
	if e.Unsigned {
		judgeErrorResp(c, rec, req.RedirectURI, req.State, map[string]bool{req.ResponseMode: true}, map[string]bool{"server_error": true}, "the ID token cannot be signed", "C10 C19 C20")
		c.Count("complete.unsignable")
		return nil
	}
	ninfo, nsess, ntok := 0, 0, 0
	var tok *Token
	var sess *authorization.Session
	info := e.Info
	for _, k := range calls {
		switch k.Method {
		case "CreateOrUpdateAuthInfo":
			ninfo++
			if k.Args[0] != fmt.Sprint(e.UserID) || k.Args[1] != q(req.ClientId) || k.Args[2] != q(req.Scope) {
				c.Violate("C14 C16 C29", "consent recorded by %s, want user %d client %q scope %q", k, e.UserID, req.ClientId, req.Scope)
			}
			if i, ok := k.Obj.(*Info); ok {
				info = i
			}
		case "CreateAuthSession":
			nsess++
			if info != nil && k.Args[0] != fmt.Sprint(info.ID) {
				c.Violate("C19 C29", "session created by %s for authorization %d", k, info.ID)
			}
			if s, ok := k.Obj.(*authorization.Session); ok {
				sess = s
			}
		case "CreateOAuthToken":
			ntok++
			if info != nil && (k.Args[0] != fmt.Sprint(info.ID) || k.Args[1] != "false") {
				c.Violate("C19 C29 C16", "token created by %s for authorization %d in the front channel", k, info.ID)
			}
			if t, ok := k.Obj.(*Token); ok {
				tok = t
			}
		case "RefreshAccessToken", "DisableSession", "RecordAssertionClaims":
			c.Violate("C19 C29", "unexpected %s", k)
		}
	}
	b2i := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	code := req.Flow.Type != flow.Implicit
	if ninfo != b2i(e.Info == nil) {
		c.Violate("C14 C29", "%d authorizations recorded, want %d", ninfo, b2i(e.Info == nil))
	}
	if nsess != b2i(code) || ntok != b2i(req.Flow.RequireAccessToken) {
		c.Violate("C19 C29", "flow %v made %d sessions and %d tokens: %s", *req.Flow, nsess, ntok, rec)
	}
	if info == nil {
		return nil
	}
	if code && sess != nil {
		want := authorization.Session{RedirectURI: req.RedirectURI, Code: ac.Cb.Code, ExpiresIn: int64(ac.Pol.AuthSessionExpiresIn), CodeVerifier: req.CodeVerifier, Nonce: req.Nonce, AuthTime: ac.Cb.AuthTime}
		if *sess != want {
			p := "C19"
			if sess.CodeVerifier != want.CodeVerifier {
				p += " C03"
			}
			if sess.Nonce != want.Nonce || sess.AuthTime != want.AuthTime {
				p += " C10"
			}
			if sess.RedirectURI != want.RedirectURI || sess.ExpiresIn != want.ExpiresIn {
				p += " C02"
			}
			c.Violate(p, "session stored for the code is %+v, want %+v", *sess, want)
		}
	}
	a := ParseAuthResp(rec, req.RedirectURI)
	if a.Kind != "redirect" && a.Kind != "form" {
		c.Violate("C19 C12 C18 C14", "a request to be completed got no response: %s", rec)
		return nil
	}
	if a.Problem != "" {
		c.Violate("C18 C11 C24", "bad response (%s): %s", a.Problem, rec)
		return nil
	}
	if a.Mode != req.ResponseMode {
		c.Violate("C17", "response in mode %s, want %s: %s", a.Mode, req.ResponseMode, rec)
	}
	m := flat(a.Params)
	out := flat(a.Params)
	if m["error"] != "" {
		p := "C19 C12 C14"
		if hasWord(req.Prompt, "none") {
			p += " C15"
		}
		c.Violate(p, "a request to be completed was refused: %s", rec)
		return nil
	}
	want := map[string]string{}
	if req.State != "" {
		want["state"] = req.State
	}
	if code {
		want["code"] = ac.Cb.Code
	}
	if req.Flow.Type != flow.AuthorizationCode && req.Scope != "" {
		want["scope"] = req.Scope
		if sameWords(m["scope"], req.Scope) {
			m["scope"] = req.Scope
		}
	}
	if tok != nil {
		want["access_token"] = tok.Access
		want["expires_in"] = fmt.Sprint(tok.AccessExpiresIn)
		want["token_type"] = "bearer"
		m["token_type"] = lower(m["token_type"])
	}
	idt, hasIDT := m["id_token"]
	delete(m, "id_token")
	for k, v := range want {
		if g, ok := m[k]; !ok || g != v {
			p := "C19 C18"
			if k == "scope" {
				p += " C16"
			}
			c.Violate(p, "response parameter %s is %q, want %q", k, g, v)
		}
	}
	for k, v := range m {
		if _, ok := want[k]; !ok {
			c.Violate("C18 C19", "response has parameter %q=%q", k, v)
		}
	}
	if hasIDT != req.Flow.RequireIdToken {
		c.Violate("C10 C19", "id_token present=%v in flow %v", hasIDT, *req.Flow)
	} else if hasIDT {
		x := &IDTExpect{Alg: e.Client.Alg, Kid: e.Client.Kid, Pub: pubOf(e.Client.Key), Iss: w.Issuer, Aud: e.Client.ID, Sub: info.Subject, Nonce: req.Nonce,
			AuthTime: ac.Cb.AuthTime, Iat: w.Now, Exp: w.Now + int64(ac.Pol.IdTokenExpiresIn)}
		if tok != nil {
			x.At = tok.Access
		}
		if code {
			x.Code = ac.Cb.Code
		}
		problems, known := JudgeIDToken(idt, x)
		for _, p := range problems {
			c.Violate("C10", "%s", p)
		}
		for _, k := range known {
			c.Known("C10", "KF1", k)
		}
		c.Count("idtoken.front")
		c.Count("idtoken." + e.Client.Alg)
	}
	c.Count("complete." + req.ResponseMode + "." + req.Flow.Type.String())
	return out
}

// judgeSecretsAuth looks for secrets in logs and error responses of one call.
func (ac *AuthCase) judgeSecretsAuth(c *Case, rec *Rec, calls []*Call, issued map[string]string) {
	s := ac.W.Secrets()
	s = append(s, KV{"issued code", ac.Cb.Code})
	for _, k := range calls {
		if t, ok := k.Obj.(*Token); ok {
			s = append(s, KV{"issued access token", t.Access})
		}
	}
	if v := issued["id_token"]; v != "" {
		s = append(s, KV{"issued ID token", v}, KV{"issued ID token", v[strings.LastIndex(v, ".")+1:]})
	}
	judgeSecrets(c, ac.W, rec, s, issued == nil, "")
}

// Handle sends the request to HandleRequest.
func (ac *AuthCase) Handle(ae *goidc.AuthorizationEndpoint) (*Rec, []*Call, []Screen) {
	return ac.call(func(rec *Rec, r *http.Request) { ae.HandleRequest(rec, r, ac.Cb) })
}

func (ac *AuthCase) call(f func(rec *Rec, r *http.Request)) (*Rec, []*Call, []Screen) {
	rec := NewRec()
	rec.Cut = ac.Cut
	n, ns := len(ac.W.Calls), len(ac.Cb.Screens)
	setJWTClock(ac.W)
	r := ac.Req.Build()
	guard(rec, func() { f(rec, r) })
	return rec, ac.W.Calls[n:], ac.Cb.Screens[ns:]
}
