package main

// C29: histories of several users and clients on shared endpoint objects. A ledger, kept from what users
// decided and what was delivered, says which artefact may do what; other operations run in the middle of
// one another, and calls fail.

import (
	"encoding/json"
	"fmt"
	"net/http"
	"strings"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/grant"
	"github.com/lyokato/goidc/prompt"
)

type pair struct {
	user   int64
	client string
}

// lgrant is what a user has granted to a client.
type lgrant struct {
	pair
	scope  string
	active bool
	gen    int64 // the record it is kept in
	at     int64
}

type lcode struct {
	pair
	gen                            int64
	value, uri, verifier, nonce    string
	scope                          string
	at, ttl                        int64
	used                           bool // consumed in the store
	delivered, granted, undelivers int
}

type ltok struct {
	pair
	gen             int64
	access, refresh string
	issued, ttl     int64
	rissued, rttl   int64
	dead            bool
	delivered       bool
	from            string
}

type lparked struct {
	ac      *AuthCase
	encoded string
	req     *authorization.Request
	given   *authorization.Request
	user    int64
}

// hop is one operation of the history.
type hop struct {
	id       int
	kind     string
	pair            // whom it acts for
	known    bool   // pair is meaningful
	mayGrant bool   // the user decided to grant scope
	scope    string // to be granted
	mayCode  *lcode
	mayTok   bool
	against  []string // why it may not have tokens, as it seemed at its start
	fault    string
	nested   bool
	during   map[pair][]lgrant // the grants as they were when it began and as they became since
	calls    []*Call
	text     string
}

type history struct {
	c       *Case
	w       *World
	rng     *Rng
	cfg     *TokCfg
	pol     *authorization.Policy
	rpc     *RPCase
	th      http.HandlerFunc
	ae      *goidc.AuthorizationEndpoint
	rp      *goidc.ResourceProtector
	grants  map[pair]*lgrant
	infos   map[int64]pair // of each record of a grant
	codes   []*lcode
	cancels []string // codes of requests that yielded nothing
	toks    []*ltok
	parked  []*lparked
	asserts map[string]*Assertion
	rawList []string
	usedJWT map[string]bool
	stack   []*hop
	log     []string
	nops    int
	ncode   int
	logins  map[int64]int64
	sig     strings.Builder
}

func (h *history) cur() *hop {
	if len(h.stack) == 0 {
		return nil
	}
	return h.stack[len(h.stack)-1]
}

func (h *history) view() map[pair][]lgrant {
	m := map[pair][]lgrant{}
	for k, g := range h.grants {
		m[k] = []lgrant{*g}
	}
	return m
}

// changed notes that a grant is no longer what it was.
func (h *history) changed(g *lgrant) {
	for _, op := range h.stack {
		op.during[g.pair] = append(op.during[g.pair], *g)
	}
}

// inForce tells whether the grant was in force at some time during the operation.
func (h *history) inForce(op *hop, p pair, gen int64) bool {
	for _, g := range op.during[p] {
		if g.active && g.gen == gen {
			return true
		}
	}
	return false
}

// scopeWithin tells whether the words were granted at some time during the operation.
func (h *history) scopeWithin(op *hop, p pair, sc string) bool {
	for _, g := range op.during[p] {
		ok := true
		for _, x := range strings.Fields(sc) {
			ok = ok && hasWord(g.scope, x)
		}
		if ok {
			return true
		}
	}
	return false
}

func (h *history) violate(f string, a ...interface{}) { h.c.Violate("C29", f, a...) }

// onCall keeps the ledger, and checks that every record made is one somebody decided on.
func (h *history) onCall(k *Call) {
	op := h.cur()
	if op == nil {
		return
	}
	op.calls = append(op.calls, k)
	h.log = append(h.log, fmt.Sprintf("   op %d: %s", op.id, k))
	took := k.Fault == "" || k.Late != ""
	switch k.Method {
	case "CreateOrUpdateAuthInfo":
		i, ok := k.Obj.(*Info)
		if !ok || !took {
			return
		}
		p := pair{i.UserID, i.ClientID}
		if !op.mayGrant || p != op.pair || !sameWords(i.Scope, op.scope) {
			h.violate("authorization recorded for user %d, client %q, scope %q, which nobody granted (%s)", i.UserID, i.ClientID, i.Scope, op.text)
		}
		h.infos[i.ID] = p
		g := h.grants[p]
		if g == nil {
			g = &lgrant{pair: p}
			h.grants[p] = g
		}
		g.scope, g.active, g.at, g.gen = i.Scope, true, h.w.Now, i.ID
		h.changed(g)
		h.c.Count("grants")
	case "CreateAuthSession":
		if k.Result != "ok" {
			return
		}
		if op.mayCode == nil {
			h.violate("a code was recorded by an operation that may not issue one: %s (%s)", k, op.text)
			return
		}
		var id int64
		fmt.Sscan(k.Args[0], &id)
		if p, ok := h.infos[id]; !ok || p != op.pair {
			h.violate("a code was recorded for the authorization of %v, not of %v: %s", p, op.pair, k)
		}
		op.mayCode.gen = id
		op.mayCode.at = h.w.Now
		h.codes = append(h.codes, op.mayCode)
	case "CreateOAuthToken":
		t, ok := k.Obj.(*Token)
		if !ok {
			return
		}
		p, known := h.infos[t.AuthID]
		if !op.tokensAllowed() || !known || p != op.pair {
			h.violate("a token was created for %v by an operation for %v (%s): %s", p, op.pair, op.text, k)
		}
		l := &ltok{pair: p, access: t.Access, refresh: t.Refresh, issued: h.w.Now, ttl: t.AccessExpiresIn, rissued: h.w.Now, rttl: t.RefreshExpiresIn, from: op.kind, gen: t.AuthID}
		if !h.inForce(op, p, l.gen) {
			h.violate("a token was created for a grant not in force: %v by %s", p, op.text)
		}
		h.toks = append(h.toks, l)
	case "RefreshAccessToken":
		t, ok := k.Obj.(*Token)
		if !ok {
			return
		}
		for _, l := range h.toks {
			if l.refresh != "" && q(l.refresh) == k.Args[1] && !l.dead {
				if !op.tokensAllowed() || l.pair != op.pair || !h.inForce(op, l.pair, l.gen) {
					h.violate("a token of %v was refreshed by an operation for %v (%s): %s", l.pair, op.pair, op.text, k)
				}
				n := *l
				l.dead = true
				n.access, n.refresh, n.issued, n.ttl, n.delivered, n.from = t.Access, t.Refresh, h.w.Now, t.AccessExpiresIn, false, "refresh"
				h.toks = append(h.toks, &n)
				break
			}
		}
	case "DisableSession":
		if k.Result == "ok" {
			for _, l := range h.codes {
				if q(l.value) == k.Args[0] {
					l.used = true
				}
			}
		}
	}
}

// run performs an operation, perhaps with another one in the middle of it or with a failing call.
func (h *history) run(kind string, p *pair, prepare func(op *hop), do func(op *hop)) *hop {
	rng := h.rng
	h.nops++
	op := &hop{id: h.nops, kind: kind, during: h.view()}
	if p != nil {
		op.pair, op.known = *p, true
	}
	prepare(op)
	h.log = append(h.log, fmt.Sprintf("op %d at %d: %s %s", op.id, h.w.Now, kind, op.text))
	depth := len(h.stack)
	h.stack = append(h.stack, op)
	if depth == 0 {
		switch x := rng.N(100); {
		case x < 22:
			at, n := rng.N(7), 0
			op.nested = true
			h.w.Gate = func(w *World, c *Call, req string) {
				if len(h.stack) != depth+1 {
					return
				}
				if n == at {
					h.w.Gate = nil
					h.c.Count("nested")
					h.log = append(h.log, fmt.Sprintf("   (in the middle of op %d, before %s:)", op.id, c.Method))
					nb := len(op.calls)
					h.step()
					_ = nb
				}
				n++
			}
		case x < 30:
			m := rng.Pick([]string{"FindClientById", "FindAuthSessionByCode", "FindActiveAuthInfoById", "FindAuthInfoByUserIdAndClientId", "FindOAuthTokenByAccessToken", "FindOAuthTokenByRefreshToken", "CreateOAuthToken",
				"RefreshAccessToken", "FindUserId", "CreateOrUpdateAuthInfo", "CreateAuthSession", "DisableSession", "DisableSession", "RecordAssertionClaims", "GetLoginUserId", "ConfirmLoginSession", "CreateAuthorizationCode", "ShowConsentScreen"})
			f := rng.Pick([]string{FaultUnsupported, FaultServer, FaultFailed, FaultFailed})
			if rng.P(30) && !strings.HasPrefix(m, "Get") && !strings.HasPrefix(m, "Confirm") && !strings.HasPrefix(m, "Show") && m != "CreateAuthorizationCode" {
				f += "+value"
			}
			if rng.P(20) && strings.HasPrefix(m, "Find") && m != "FindUserId" {
				f = FaultNil
			}
			op.fault = m + ":" + f
			h.w.Faults[m] = f
			h.log = append(h.log, "   with fault "+op.fault)
			h.c.Count("faulty")
		}
	}
	do(op)
	h.w.Gate = nil
	if op.fault != "" {
		h.w.Faults = map[string]string{}
	}
	h.stack = h.stack[:depth]
	return op
}

// clean tells whether the per-request models apply: nothing else happened and nothing failed.
func (op *hop) clean() bool { return !op.nested && op.fault == "" }

// ---------------------------------------------------------------- authorization

func (h *history) newCode() string {
	h.ncode++
	return fmt.Sprintf("code-%s-%d", h.w.tag, h.ncode)
}

func (h *history) authorize() {
	rng, w := h.rng, h.w
	cl := w.clientList()
	c := cl[rng.N(len(cl))]
	u := w.Users[rng.N(2+rng.N(len(w.Users)-1))]
	types := []string{"code", "code", "code", "code token", "code id_token", "code id_token token", "id_token", "id_token token", "token"}
	rt := rng.Pick(types)
	sc := scopeOf(rng, scopeSet(rng, 70))
	if strings.Contains(rt, "id_token") && !hasWord(sc, "openid") {
		sc = strings.TrimSpace("openid " + sc)
	}
	if g := h.grants[pair{u.ID, c.ID}]; g != nil && rng.P(50) { // what was granted already, in another order
		sc = shuffleWords(rng, g.scope)
		if strings.Contains(rt, "id_token") && !hasWord(sc, "openid") {
			rt = "code"
		}
	}
	qr := &Req{Method: rng.Pick([]string{"GET", "POST"}), Path: "/authorize"}
	uri := c.URIs[rng.N(len(c.URIs))]
	kv := []KV{{"client_id", c.ID}, {"redirect_uri", uri}, {"response_type", rt}}
	if sc != "" {
		kv = append(kv, KV{"scope", sc})
	}
	kv = append(kv, KV{"state", "st-" + rng.Str(6)})
	if strings.Contains(rt, "id_token") || rng.P(50) {
		kv = append(kv, KV{"nonce", "n-" + rng.Str(5)})
	}
	if p := rng.Pick([]string{"", "", "", "consent", "consent", "none", "none", "login", "login consent"}); p != "" {
		kv = append(kv, KV{"prompt", p})
	}
	if rng.P(15) {
		kv = append(kv, KV{"max_age", fmt.Sprint(h.pol.MinMaxAge + rng.N(1+h.pol.MaxMaxAge-h.pol.MinMaxAge))})
	}
	if rng.P(30) {
		kv = append(kv, KV{"code_verifier", rng.Str(20)})
	}
	if rng.P(40) {
		kv = append(kv, KV{"login_hint", rng.Pick([]string{u.Subject, w.Users[0].Subject})})
	}
	if qr.Method == "GET" {
		qr.Query = kv
	} else {
		qr.Body = kv
	}
	cb := &Callbacks{w: w, UserID: u.ID, HintUser: u.Subject, Locale: "en", Code: h.newCode()}
	if at, ok := h.logins[u.ID]; ok && rng.P(90) {
		cb.LoggedIn, cb.AuthTime = true, at
	}
	ac := &AuthCase{W: w, Cb: cb, Pol: h.pol, Req: qr, Client: c, User: u}
	h.handle(ac, 0)
}

func (h *history) handle(ac *AuthCase, depth int) {
	w := h.w
	u, c := ac.User, ac.Client
	e := ac.Expect()
	p := pair{ac.Cb.UserID, c.ID}
	var rec *Rec
	var calls []*Call
	var screens []Screen
	op := h.run("authorize", &p, func(op *hop) {
		op.text = fmt.Sprintf("%s user %d logged in %v", ac.Req, u.ID, ac.Cb.LoggedIn)
		// completing at once is for the model to allow; the ledger wants a grant of these words on record
		if ac.Cb.LoggedIn {
			op.mayCode = &lcode{pair: p, value: ac.Cb.Code, uri: ac.Req.Get("redirect_uri"), verifier: ac.Req.Get("code_verifier"), nonce: ac.Req.Get("nonce"), ttl: int64(h.pol.AuthSessionExpiresIn)}
			op.mayTok = true
		}
	}, func(op *hop) {
		n := len(ac.Cb.Screens)
		rec, calls, screens = ac.Handle(h.ae)
		calls = op.calls
		screens = ac.Cb.Screens[n:]
	})
	if op.clean() {
		ac.JudgeHandle(h.c, e, rec, calls, screens)
	}
	h.log = append(h.log, fmt.Sprintf("   -> screens %v response %s", screens, rec))
	if rec.Panic != "" {
		h.c.Violate("*", "authorization endpoint panicked: %s", rec.Panic)
		return
	}
	if len(screens) == 0 {
		got := h.deliver(op, ac, rec, ac.Req.Get("redirect_uri"))
		if got {
			sc := ac.Req.Get("scope")
			if !hasWord(ac.Req.Get("prompt"), "consent") || flowOf(ac.Req.Get("response_type")).Type == flow.Implicit {
				sc = dropWord(sc, "offline_access")
			}
			ok := false
			for _, g := range op.during[p] {
				ok = ok || g.active && sameWords(g.scope, sc)
			}
			if !ok {
				h.violate("user %d got no consent screen for client %q and scope %q, which were never granted together", p.user, p.client, sc)
			}
			h.c.Count("silent")
		}
		return
	}
	h.sig.WriteString(screens[0].Kind[:1])
	switch screens[0].Kind {
	case "login":
		if depth == 0 && h.rng.P(80) && len(h.stack) == 0 {
			w.Now += int64(h.rng.N(3))
			h.logins[u.ID] = w.Now
			ac.Cb.LoggedIn, ac.Cb.FromLogin, ac.Cb.AuthTime = true, true, w.Now
			h.handle(ac, 1)
		}
	case "consent":
		r := screens[0].Req
		h.parked = append(h.parked, &lparked{ac: ac, encoded: r.Encode(), req: r, given: screens[0].Given, user: ac.Cb.UserID})
		if !sameWords(dropWord(r.Scope, "offline_access"), dropWord(ac.Req.Get("scope"), "offline_access")) || !hasWord(ac.Req.Get("scope"), "offline_access") && hasWord(r.Scope, "offline_access") {
			h.violate("consent screen for scope %q, requested was %q", r.Scope, ac.Req.Get("scope"))
		}
	}
}

func jwtClaims(raw string) map[string]interface{} {
	p := strings.Split(raw, ".")
	if len(p) != 3 {
		return nil
	}
	b, _ := rawURL.DecodeString(p[1])
	m := map[string]interface{}{}
	json.Unmarshal(b, &m)
	return m
}

// idToken checks whom an ID token speaks of.
func (h *history) idToken(op *hop, raw string, p pair, nonce string) {
	m := jwtClaims(raw)
	u := h.w.userByID(p.user)
	if m == nil || u == nil || m["sub"] != u.Subject || m["aud"] != p.client {
		h.violate("ID token %v does not speak of %v", m, p)
		return
	}
	n, _ := m["nonce"].(string)
	if n != nonce {
		h.violate("ID token has nonce %q, not that of its own request, %q", n, nonce)
	}
	h.c.Count("idtokens")
}

// deliver notes what an authorization response hands out; false if nothing.
func (h *history) deliver(op *hop, ac *AuthCase, rec *Rec, uri string) bool {
	a := ParseAuthResp(rec, uri)
	m := flat(a.Params)
	code, at, idt := m["code"], m["access_token"], m["id_token"]
	if code == "" && at == "" && idt == "" {
		recorded := false
		for _, l := range h.codes {
			recorded = recorded || l == op.mayCode
		}
		if !recorded {
			h.cancels = append(h.cancels, ac.Cb.Code)
		}
		h.sig.WriteString("e")
		return false
	}
	h.sig.WriteString("d")
	if m["error"] != "" {
		h.violate("error response with artefacts: %s", rec)
	}
	if code != "" {
		found := false
		for _, l := range h.codes {
			if l.value == code && l == op.mayCode {
				l.delivered++
				found = true
			}
		}
		if !found {
			h.violate("code %q was delivered but not recorded for %v", code, op.pair)
		}
		h.c.Count("codes")
	}
	if at != "" {
		found := false
		for _, l := range h.toks {
			if l.access == at && l.pair == op.pair {
				l.delivered = true
				found = true
			}
		}
		if !found {
			h.violate("access token %q was delivered but not created for %v", at, op.pair)
		}
		if m["refresh_token"] != "" {
			h.violate("refresh token in the front channel: %s", rec)
		}
		h.c.Count("front-tokens")
	}
	if idt != "" {
		h.idToken(op, idt, op.pair, op.mayCode.nonce)
	}
	if sc, ok := m["scope"]; ok && !h.scopeWithin(op, op.pair, sc) {
		h.violate("response for scope %q, which was not granted", sc)
	}
	return true
}

// finish answers a consent screen that was shown some time ago.
func (h *history) finish() {
	if len(h.parked) == 0 {
		return
	}
	rng, w := h.rng, h.w
	i := rng.N(len(h.parked))
	pk := h.parked[i]
	if rng.P(88) {
		h.parked = append(h.parked[:i], h.parked[i+1:]...)
	}
	req := authorization.DecodeRequest(pk.encoded)
	if _, d := diffReq(pk.given, pk.req); d != "" {
		h.c.Violate("C29 C12", "a request that waits for consent was changed by another:%s", d)
	}
	cb := *pk.ac.Cb
	cb.Screens, cb.Code = nil, h.newCode()
	if rng.P(12) { // someone else uses the browser by now
		u := w.Users[rng.N(len(w.Users))]
		cb.UserID, cb.HintUser, cb.AuthTime = u.ID, u.Subject, w.Now
		h.logins[u.ID] = w.Now
	}
	if rng.P(6) {
		cb.LoggedIn = false
	}
	cb.Parked = req
	ac := &AuthCase{W: w, Cb: &cb, Pol: h.pol, Client: pk.ac.Client, User: w.userByID(cb.UserID), Req: &Req{Method: "POST", Path: "/consent", Body: []KV{{"answer", "x"}, {"scope", "admin"}, {"client_id", "client-b"}, {"user_id", "1"}}}}
	p := pair{cb.UserID, req.ClientId}
	cancel := rng.P(30)
	cl := w.Clients[req.ClientId]
	var rec *Rec
	op := h.run("consent", &p, func(op *hop) {
		op.text = fmt.Sprintf("of user %d for client %q scope %q (cancel %v, logged in %v)", p.user, p.client, req.Scope, cancel, cb.LoggedIn)
		if !cancel && cb.LoggedIn {
			op.mayGrant, op.scope, op.mayTok = true, req.Scope, true
			op.mayCode = &lcode{pair: p, value: cb.Code, uri: req.RedirectURI, verifier: req.CodeVerifier, nonce: req.Nonce, ttl: int64(h.pol.AuthSessionExpiresIn)}
		}
	}, func(op *hop) {
		rec, _, _ = ac.call(func(rec *Rec, r *http.Request) {
			if cancel {
				h.ae.CancelRequest(rec, r, &cb)
			} else {
				h.ae.CompleteRequest(rec, r, &cb)
			}
		})
	})
	h.log = append(h.log, "   -> "+rec.String())
	if rec.Panic != "" {
		h.c.Violate("*", "authorization endpoint panicked: %s", rec.Panic)
		return
	}
	if op.clean() && !cancel && cb.LoggedIn && !cl.Disabled {
		ac.JudgeComplete(h.c, &CompleteExpect{Req: req, UserID: cb.UserID, Client: cl, Unsigned: req.Flow.RequireIdToken && cl.unsignable()}, rec, op.calls)
	}
	if got := h.deliver(op, ac, rec, req.RedirectURI); got && (cancel || !cb.LoggedIn) {
		h.violate("artefacts were delivered although the user cancelled (%v) or was gone (%v): %s", cancel, !cb.LoggedIn, rec)
	}
	if cancel {
		h.c.Count("cancelled")
	}
}

// ---------------------------------------------------------------- token endpoint

func (h *history) token(gt string) {
	rng, w := h.rng, h.w
	cl := w.clientList()
	c := cl[rng.N(len(cl))]
	tc := &TokCase{W: w, Cfg: h.cfg, Asserts: h.asserts, GT: gt}
	qr := &Req{Method: "POST", Path: "/token"}
	tc.Req = qr
	put := func(k, v string) { qr.Body = append(qr.Body, KV{k, v}) }
	put("grant_type", gt)
	var code *lcode
	var tok *ltok
	var entitled []string // why the requester may not have this
	not := func(bad bool, why string) {
		if bad {
			entitled = append(entitled, why)
		}
	}
	var p pair
	known := false
	scope := ""
	switch gt {
	case grant.TypeAuthorizationCode:
		val, uri, ver := "", "https://app.example.org/cb", ""
		if len(h.codes) > 0 {
			for try := 0; try < 4; try++ {
				code = h.codes[rng.N(len(h.codes))]
				if !code.used {
					break
				}
			}
			val, uri, ver = code.value, code.uri, code.verifier
			if rng.P(80) {
				c = w.Clients[code.client]
			}
			p, known = code.pair, true
		}
		if len(h.cancels) > 0 && rng.P(12) || code == nil && len(h.cancels) > 0 {
			val, code, known = h.cancels[rng.N(len(h.cancels))], nil, false
		}
		if rng.P(8) {
			uri = rng.Pick([]string{c.URIs[0], "https://evil.example/", uri + "/", ""})
		}
		put("code", val)
		put("redirect_uri", uri)
		if ver != "" {
			meth, proof := rng.Pick([]string{"plain", "S256"}), ver
			if meth == "S256" {
				proof = s256(ver)
			}
			if rng.P(10) {
				proof = rng.Pick([]string{"", rng.NearMiss(proof), rng.Str(20)})
			}
			put("code_challenge_method", meth)
			put("code_challenge", proof)
			not(meth == "plain" && proof != ver || meth == "S256" && proof != s256(ver), "wrong proof")
		}
		not(code == nil, "no such code was delivered")
		if code != nil {
			not(code.used, "code was used")
			not(code.client != c.ID, "code of another client")
			not(code.uri != uri, "another redirect address")
			not(w.Now > code.at+code.ttl, "code expired")
			g := h.grants[code.pair]
			not(g == nil || !g.active || g.gen != code.gen, "grant not in force")
			if g != nil {
				scope = g.scope
			}
		}
	case grant.TypeRefreshToken:
		val := "rt-none"
		var have []*ltok
		for _, t := range h.toks {
			if t.refresh != "" {
				have = append(have, t)
			}
		}
		if len(have) > 0 {
			for try := 0; try < 4; try++ {
				tok = have[rng.N(len(have))]
				if !tok.dead {
					break
				}
			}
			val = tok.refresh
			if rng.P(85) {
				c = w.Clients[tok.client]
			}
			p, known = tok.pair, true
		}
		if rng.P(6) && len(h.toks) > 0 {
			val, tok, known = h.toks[rng.N(len(h.toks))].access, nil, false
		}
		if rng.P(20) {
			put("scope", "admin openid offline_access api.write")
		}
		put("refresh_token", val)
		if tok != nil && tok.dead { // not rotated: the same value lives on
			for _, t := range h.toks {
				if t.refresh == val && !t.dead {
					tok = t
				}
			}
		}
		not(tok == nil, "no such refresh token was delivered")
		if tok != nil {
			not(tok.dead, "superseded or revoked")
			not(tok.client != c.ID, "of another client")
			not(w.Now > tok.rissued+tok.rttl, "refresh token expired")
			g := h.grants[tok.pair]
			not(g == nil || !g.active || g.gen != tok.gen, "grant not in force")
			not(g != nil && !hasWord(g.scope, "offline_access"), "no offline access granted")
			if g != nil {
				scope = g.scope
			}
		}
	default:
		var u *User
		switch gt {
		case grant.TypePassword:
			u = w.Users[rng.N(len(w.Users))]
			pw := u.Password
			if rng.P(15) {
				pw = rng.Pick([]string{w.Users[0].Password, rng.NearMiss(pw)})
			}
			not(pw != u.Password, "wrong password")
			put("username", u.Name)
			put("password", pw)
		case grant.TypeClientCredentials:
			u = w.userByID(c.Owner)
			not(u == nil, "no owner")
		default:
			if len(h.rawList) > 0 && rng.P(40) {
				raw := h.rawList[rng.N(len(h.rawList))]
				a := h.asserts[raw]
				put("assertion", raw)
				not(h.usedJWT[raw+c.ID], "assertion led to tokens before")
				for _, x := range w.Users {
					if x.Subject == a.Claims["sub"] {
						u = x
					}
				}
				for _, pr := range a.claimProblems(w.Now, w.Issuer) {
					not(true, pr)
				}
				key, ok := c.AssertionKeys[a.Alg+"|"+a.Kid]
				not(!ok || !sameKey(a.VerifyKey.Pub, key), "not signed by this client")
			} else {
				g := &tokGen{rng: rng, tc: tc, want: map[string]bool{}}
				u = w.Users[rng.N(len(w.Users))]
				a := g.assertion(c, "a", u.Subject, c)
				if _, ok := a.Claims["jti"]; !ok {
					a = nil
				}
				if a == nil {
					return
				}
				put("assertion", a.Raw)
				h.rawList = append(h.rawList, a.Raw)
			}
		}
		scope = scopeOf(rng, c.Scopes[flow.DirectGrant])
		if rng.P(10) {
			scope = strings.TrimSpace(scope + " admin")
		}
		not(scope != "" && !c.AllowsScope(flow.DirectGrant, scope), "scope not allowed for the client")
		if scope != "" {
			put("scope", scope)
		}
		if u != nil {
			p, known = pair{u.ID, c.ID}, true
		}
	}
	secret := c.Secret
	if rng.P(8) {
		secret = rng.Pick([]string{"", rng.NearMiss(secret), cl[0].Secret})
	}
	not(secret != c.Secret || c.Disabled, "client not authenticated")
	not(!c.Grants[gt], "grant type not allowed for the client")
	qr.Header = append(qr.Header, KV{"Authorization", "Basic " + b64(c.ID+":"+secret)})
	usedBefore := code != nil && code.used
	e := tc.Expect(w.Snapshot())
	var rec *Rec
	var tp *pair
	if known {
		tp = &p
	}
	op := h.run("token", tp, func(op *hop) {
		op.text = fmt.Sprintf("%s (against it: %q)", qr, entitled)
		op.mayTok, op.against = true, entitled
		if gt != grant.TypeAuthorizationCode && gt != grant.TypeRefreshToken && len(entitled) == 0 {
			op.mayGrant, op.scope = true, scope
		}
	}, func(op *hop) { rec, _ = tc.Serve(h.th) })
	h.log = append(h.log, "   -> "+rec.String())
	if op.clean() {
		tc.JudgeTok(h.c, e, rec, op.calls)
	} else if rec.Panic != "" {
		h.c.Violate("*", "token endpoint panicked: %s", rec.Panic)
	}
	if !carriesTokens(rec) {
		h.sig.WriteString("r")
		h.c.Count("token.refused")
		return
	}
	h.sig.WriteString("T")
	h.c.Count("token." + gt)
	if !op.tokensAllowed() {
		h.violate("tokens were handed out against: %q", entitled)
		return
	}
	if gt == grant.TypeJWT {
		if k := qr.Get("assertion") + c.ID; h.usedJWT[k] {
			h.violate("one assertion led to tokens twice")
		} else {
			h.usedJWT[k] = true
		}
	}
	if code != nil && gt == grant.TypeAuthorizationCode {
		code.granted++
		if code.granted > 1 || usedBefore {
			h.violate("code %q led to tokens %d times", code.value, code.granted)
		}
	}
	body, _ := strictObject(rec.Body.Bytes())
	at, _ := body["access_token"].(string)
	found := false
	for _, t := range h.toks {
		if t.access == at && t.pair == op.pair {
			t.delivered, found = true, true
			if rt, ok := body["refresh_token"].(string); ok && rt != t.refresh {
				h.violate("refresh token %q is not that of access token %q", rt, at)
			}
		}
	}
	if !found {
		h.violate("access token %q was delivered but not created for %v", at, op.pair)
	}
	if sc, ok := body["scope"].(string); ok && !h.scopeWithin(op, op.pair, sc) {
		h.violate("tokens for scope %q, granted is %v", sc, h.grants[op.pair])
	}
	if idt, ok := body["id_token"].(string); ok {
		if code == nil {
			h.violate("ID token from grant %s", gt)
		} else {
			h.idToken(op, idt, code.pair, code.nonce)
		}
	}
}

// tokensAllowed tells whether the operation may make tokens.
func (op *hop) tokensAllowed() bool { return op.mayTok && (len(op.against) == 0 || op.excused()) }

// excused: an operation in the middle may have brought the grant into force.
func (op *hop) excused() bool {
	if !op.nested {
		return false
	}
	for _, x := range op.against {
		if x != "grant not in force" && x != "no offline access granted" {
			return false
		}
	}
	for _, g := range op.during[op.pair] {
		if g.active {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- resources, revocation, time

func (h *history) resource() {
	rng, w := h.rng, h.w
	var tok *ltok
	val := "at-none"
	if len(h.toks) > 0 {
		tok = h.toks[rng.N(len(h.toks))]
		if rng.P(50) {
			tok = h.toks[len(h.toks)-1-rng.N((len(h.toks)+2)/3)]
		}
		val = tok.access
		if rng.P(8) && tok.refresh != "" {
			val, tok = tok.refresh, nil
		}
	}
	if rng.P(5) && len(h.codes) > 0 {
		val, tok = h.codes[rng.N(len(h.codes))].value, nil
	}
	rc := *h.rpc
	rc.Req = &Req{Method: rng.Pick([]string{"GET", "POST"}), Path: rng.Pick(rpPaths), Header: []KV{{"Authorization", "Bearer " + val}, {"X-OAUTH-USER-ID", "1"}, {"X-OAUTH-SCOPE", "admin openid"}}}
	if rng.Bool() {
		rc.Scopes = rpScopeMap(rng)
	}
	e := rc.Expect()
	var why []string
	var p *pair
	if tok == nil {
		why = append(why, "no such access token was delivered")
	} else {
		p = &tok.pair
		g := h.grants[tok.pair]
		if tok.dead {
			why = append(why, "superseded or revoked")
		}
		if g == nil || !g.active || g.gen != tok.gen {
			why = append(why, "grant not in force")
		}
		if w.Now > tok.issued+tok.ttl {
			why = append(why, "access token expired")
		}
		if rc.Scopes != nil && g != nil {
			for _, s := range rc.Scopes[rc.Req.Path] {
				if !hasWord(g.scope, s) {
					why = append(why, "no offline access granted") // may change in the middle
				}
			}
		}
	}
	var rec *Rec
	var r *http.Request
	ok := false
	op := h.run("resource", p, func(op *hop) {
		op.text = fmt.Sprintf("%s scopes %v (against it: %q)", rc.Req, rc.Scopes, why)
		op.against = why
	}, func(op *hop) { ok, rec, r, _ = rc.Serve(h.rp) })
	h.log = append(h.log, fmt.Sprintf("   -> %v %s", ok, rec))
	if op.clean() {
		rc.JudgeRP(h.c, e, ok, rec, r, op.calls)
	} else if rec.Panic != "" {
		h.c.Violate("*", "resource protector panicked: %s", rec.Panic)
	}
	if !ok {
		h.sig.WriteString("x")
		h.c.Count("resource.refused")
		return
	}
	h.sig.WriteString("P")
	h.c.Count("resource.passed")
	if len(why) > 0 && !op.excused() {
		h.violate("let through against: %q", why)
		return
	}
	if r.Header.Get("X-OAUTH-USER-ID") != fmt.Sprint(tok.user) || r.Header.Get("X-OAUTH-CLIENT-ID") != tok.client {
		h.violate("let through as user %q of client %q with a token of %v", r.Header.Get("X-OAUTH-USER-ID"), r.Header.Get("X-OAUTH-CLIENT-ID"), tok.pair)
	}
	if !h.scopeWithin(op, tok.pair, r.Header.Get("X-OAUTH-SCOPE")) {
		h.violate("let through with scope %q, granted is %v", r.Header.Get("X-OAUTH-SCOPE"), h.grants[tok.pair])
	}
}

func (h *history) revoke() {
	rng, w := h.rng, h.w
	var ps []pair
	for _, i := range sortedInfos(w) {
		if w.Infos[i].Active {
			ps = append(ps, pair{w.Infos[i].UserID, w.Infos[i].ClientID})
		}
	}
	if len(ps) == 0 {
		return
	}
	p := ps[rng.N(len(ps))]
	i := w.findInfo(p.user, p.client)
	if rng.P(60) {
		i.Active = false
		h.log = append(h.log, fmt.Sprintf("user %d revokes the grant to %q", p.user, p.client))
	} else {
		delete(w.Infos, i.ID)
		h.log = append(h.log, fmt.Sprintf("user %d revokes the grant to %q, and the record is deleted", p.user, p.client))
	}
	h.grants[p].active = false
	h.changed(h.grants[p])
	h.sig.WriteString("R")
	h.c.Count("revoked")
}

func sortedInfos(w *World) []int64 {
	var out []int64
	for id := range w.Infos {
		out = append(out, id)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

func (h *history) killToken() {
	if len(h.toks) == 0 {
		return
	}
	t := h.toks[h.rng.N(len(h.toks))]
	for _, s := range h.w.Tokens {
		if s.Access == t.access && s.Live {
			s.Live = false
			t.dead = true
			h.log = append(h.log, fmt.Sprintf("token %q is revoked", t.access))
			h.c.Count("revoked.token")
		}
	}
}

func (h *history) step() {
	rng, w := h.rng, h.w
	switch x := rng.N(100); {
	case x < 24:
		h.authorize()
	case x < 42:
		h.finish()
	case x < 58:
		h.token(grant.TypeAuthorizationCode)
	case x < 68:
		h.token(grant.TypeRefreshToken)
	case x < 74:
		h.token(rng.Pick([]string{grant.TypePassword, grant.TypeClientCredentials, grant.TypeJWT}))
	case x < 89:
		h.resource()
	case x < 93:
		h.revoke()
	case x < 95:
		h.killToken()
	default:
		d := int64(rng.N(20))
		if rng.P(25) {
			d = rng.PickI([]int64{w.AccessTTL, w.AccessTTL + 1, int64(h.pol.AuthSessionExpiresIn) + 1, w.RefreshTTL + 1, int64(h.pol.ConsentOmissionPeriod)})
			if d > 1<<24 {
				d = 1 << 24
			}
		}
		w.Now += d
		h.log = append(h.log, fmt.Sprintf("%d s pass", d))
	}
}

func runHistories(x *Ctx, gen string, n, length int) {
	x.Run(gen, n, func(c *Case) {
		rng := c.Rng
		w := GenWorld(rng)
		w.Issuer = "https://issuer.example.org"
		w.AccessTTL = rng.PickI([]int64{60, 3600, 3600})
		w.TokenAge = 0
		w.RefreshTTL = rng.PickI([]int64{600, 86400})
		w.TokenDecor = ""
		for _, cl := range w.Clients {
			for _, f := range allFlows {
				cl.Flows[f] = rng.P(97)
				for _, s := range scopeWords {
					cl.Scopes[f][s] = rng.P(96)
				}
				cl.Scopes[f]["admin"] = false
			}
			cl.EmptyScope = true
			cl.Owner = w.Users[rng.N(len(w.Users))].ID
			cl.NonePolicy = prompt.NonePromptPolicy(rng.N(3)) // hints by ID token are for C15
			if cl.NonePolicy == prompt.NonePromptPolicyAllowIfIdTokenHintMatched {
				cl.NonePolicy = prompt.NonePromptPolicyAllowWithLoginSession
			}
		}
		cfg := genTokCfg(rng)
		cfg.Grants = allGrants
		pol := genPolicy(rng)
		pol.AllowEmptyScope = true
		pol.MaxNonceLength, pol.MaxCodeVerifierLength = 255, 255
		if pol.AuthSessionExpiresIn < 30 {
			pol.AuthSessionExpiresIn = 60
		}
		h := &history{c: c, w: w, rng: rng, cfg: cfg, pol: pol, grants: map[pair]*lgrant{}, infos: map[int64]pair{}, asserts: map[string]*Assertion{}, usedJWT: map[string]bool{}, logins: map[int64]int64{},
			rpc: &RPCase{W: w, Realm: "r", Accept: goidc.CredentialAcceptanceMethod(rng.N(3))}}
		for _, u := range w.Users {
			if rng.P(80) {
				h.logins[u.ID] = w.Now - int64(rng.N(100))
			}
		}
		h.th = cfg.Endpoint(w).Handler(&DI{w})
		h.ae = (&AuthCase{W: w, Pol: pol}).Endpoint()
		h.rp = h.rpc.Protector()
		setJWTClock(w)
		w.OnCall = h.onCall
		before := w.describe()
		c.DescFn = func() []string { return append(append([]string{}, before...), h.log...) }
		for i := 0; i < length && !c.bad; i++ {
			w.Calls, w.Logs = nil, nil
			h.step()
		}
		for _, s := range w.Sessions {
			if s.given != nil && *s.given != s.as && !c.bad {
				c.Violate("C29", "a session in the store was changed afterwards: %+v became %+v", s.as, *s.given)
			}
		}
		c.CountN("operations", h.nops)
		c.Nontrivial(h.sig.String())
		c.Sample()
	})
}

func init() {
	checks["C29"] = func(x *Ctx) {
		x.R.Rule = "histories of 60 operations by 4 users and 2-3 clients on shared endpoint objects, with operations in the middle of others and failing calls; nontrivial by the sequence of outcomes"
		runHistories(x, "history", x.Scale(2400, 40000), 60)
		runHistories(x, "long", x.Scale(60, 1500), 600)
		for k, n := range map[string]int{"codes": 5000, "front-tokens": 3000, "silent": 500, "idtokens": 3000, "cancelled": 2000, "revoked": 2000, "nested": 5000, "faulty": 3000, "resource.passed": 5000, "resource.refused": 3000,
			"token.refused": 5000, "token." + grant.TypeAuthorizationCode: 2000, "token." + grant.TypeRefreshToken: 500, "token." + grant.TypePassword: 300, "token." + grant.TypeJWT: 100} {
			x.Require(k, n)
		}
	}
}
