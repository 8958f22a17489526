package main

import (
	"fmt"
	"net/http"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/grant"
)

// story runs one authorization request to its end: through login and consent or cancellation. Some endpoints
// have served stories of other stores before, which are judged as well.
func (ac *AuthCase) story(c *Case) string {
	di, lg := &DI{ac.W}, &Logger{ac.W}
	var ae *goidc.AuthorizationEndpoint
	if c.Rng.P(20) {
		ac.W.earlier(c.Rng, func() { ae = ac.EndpointOn(di, lg) })
	} else {
		ae = ac.EndpointOn(di, lg)
	}
	if c.Rng.P(25) {
		for i := 1 + c.Rng.N(2); i > 0; i-- {
			prev := GenAuthReq(c.Rng, &AuthCase{W: GenWorld(c.Rng), Pol: ac.Pol}, nil)
			di.w, lg.w = prev.W, prev.W
			trail := prev.storyOn(c, ae)
			if c.bad {
				return trail
			}
			c.Desc("before on this endpoint: %s -> %s", prev.Req.String(), trail)
			c.Count("endpoint.reused")
		}
		di.w, lg.w = ac.W, ac.W
	}
	trail := ac.storyOn(c, ae)
	if !c.bad && c.Rng.P(20) { // the same again, perhaps after something changed
		for i := 1 + c.Rng.N(2); i > 0; i-- {
			how := ac.W.tweak(c.Rng)
			ac.Cb.Code = fmt.Sprintf("code-%s-%d", ac.W.tag, ac.W.id())
			if c.Rng.P(20) {
				u := ac.W.Users[c.Rng.N(len(ac.W.Users))]
				ac.User, ac.Cb.UserID, ac.Cb.HintUser = u, u.ID, u.Subject
				how += ", user " + u.Name
			}
			c.Desc("first: %s -> %s; then %s; then again:", ac.Req.String(), trail, how)
			c.Count("repeated")
			if ac.storyOn(c, ae); c.bad {
				break
			}
		}
	}
	return trail
}

func (ac *AuthCase) storyOn(c *Case, ae *goidc.AuthorizationEndpoint) (trail string) {
	before := ac.W.describe()
	var recs []*Rec
	c.DescFn = func() []string {
		d := append(before, ac.describe()...)
		d = append(d, "trail "+trail)
		for _, r := range recs {
			d = append(d, "response "+r.String())
		}
		return append(d, ac.W.describeCalls()...)
	}
	for step := 0; step < 4; step++ {
		e := ac.Expect()
		rec, calls, screens := ac.Handle(ae)
		recs = append(recs, rec)
		out := ac.JudgeHandle(c, e, rec, calls, screens)
		trail += out + " "
		if len(e.Conds) > 0 {
			trail += "[" + e.names() + "] "
		}
		var issued map[string]string
		if out == "complete" {
			issued = flat(ParseAuthResp(rec, e.URI).Params)
		}
		ac.judgeSecretsAuth(c, rec, calls, issued)
		if c.bad {
			return
		}
		switch out {
		case "login":
			if c.Rng.P(30) {
				return
			}
			// the user logs in and comes back with the same request
			ac.W.Now += int64(c.Rng.N(3))
			ac.Cb.LoggedIn, ac.Cb.FromLogin, ac.Cb.AuthTime = true, true, ac.W.Now
			if c.Rng.P(20) {
				u := ac.W.Users[c.Rng.N(len(ac.W.Users))]
				ac.User, ac.Cb.UserID, ac.Cb.HintUser = u, u.ID, u.Subject
			}
			ac.W.Now += int64(c.Rng.N(2))
			continue
		case "consent":
			if len(screens) == 0 {
				return
			}
			parked := screens[len(screens)-1].Req
			trail += ac.finish(c, ae, parked, &recs)
		}
		return
	}
	return
}

// utf8Req tells whether all texts of a request are valid UTF-8.
func utf8Req(r *authorization.Request) bool {
	for _, s := range []string{r.ClientId, r.Scope, r.RedirectURI, r.ResponseMode, r.State, r.CodeVerifier, r.Nonce, r.Display, r.Prompt, r.UILocale, r.IdTokenHint, r.LoginHint} {
		if !validUTF8(s) {
			return false
		}
	}
	return true
}

// finish completes or cancels a parked request.
func (ac *AuthCase) finish(c *Case, ae *goidc.AuthorizationEndpoint, parked *authorization.Request, recs *[]*Rec) string {
	req := copyReq(parked)
	if c.Rng.P(70) { // through a cookie or form
		req = authorization.DecodeRequest(parked.Encode())
		if p, d := diffReq(req, parked); d != "" && !utf8Req(parked) {
			c.Known("C26", "KF4", "a parked value that is not valid UTF-8 changes:"+d)
		} else if d != "" {
			c.Violate("C26 "+p, "request changed while parked:%s", d)
			return ""
		}
	}
	ac.Cb.Parked = req
	ac.W.Now += int64(c.Rng.N(30))
	// the consent page posts something else than the request itself
	save := ac.Req
	ac.Req = &Req{Method: "POST", Path: "/consent", Body: []KV{{"answer", "x"}, {"state", "other"}, {"redirect_uri", "https://evil.example/"}, {"scope", "admin"}, {"response_mode", "query"}, {"client_id", "c"}, {"code", "zzz"}}}
	if c.Rng.P(30) {
		ac.Req.Body = nil
	}
	if c.Rng.P(10) {
		ac.Req.Method = "GET"
	}
	if c.Rng.P(60) {
		put := func(k, v string) {
			if c.Rng.P(40) {
				ac.Req.Query = append(ac.Req.Query, KV{k, v})
			} else {
				ac.Req.Body = append(ac.Req.Body, KV{k, v})
			}
		}
		if c.Rng.P(50) {
			put("redirect_uri", c.Rng.Pick([]string{req.RedirectURI + "/", req.RedirectURI + "&x=1", req.RedirectURI + "?x=1", req.RedirectURI + ".evil.example", req.RedirectURI + "@evil.example", "https://second.example.org/cb2", c.Rng.NearMiss(req.RedirectURI)}))
		}
		for _, k := range []string{"state", "response_mode", "client_id", "scope", "nonce", "response_type", "code_verifier", "max_age", "prompt", "user_id"} {
			if c.Rng.P(15) {
				put(k, ac.W.Decoy(c.Rng))
			}
		}
		ac.W.addDecoys(c.Rng, ac.Req, authNames, put)
	}
	defer func() { ac.Req = save }()
	if c.Rng.P(25) {
		rec, calls, screens := ac.call(func(rec *Rec, r *http.Request) { ae.CancelRequest(rec, r, ac.Cb) })
		*recs = append(*recs, rec)
		if rec.Panic != "" {
			c.Violate("*", "CancelRequest panicked: %s", rec.Panic)
			return "panic"
		}
		if k := created(calls); k != nil || len(screens) > 0 {
			c.Violate("C29 C19", "a cancelled request led to %v, screens %v", k, screens)
		}
		judgeErrorResp(c, rec, req.RedirectURI, req.State, map[string]bool{req.ResponseMode: true}, map[string]bool{"access_denied": true}, "the request was cancelled", "C29 C19")
		ac.judgeSecretsAuth(c, rec, calls, nil)
		c.Count("outcome.cancelled")
		return "cancelled"
	}
	cl := ac.W.Clients[req.ClientId]
	again := c.Rng.P(20)
	if again {
		req, ac.Cb.Keeps = copyReq(req), true
		defer func() { ac.Cb.Keeps = false }()
	}
	e := &CompleteExpect{Req: req, UserID: ac.Cb.UserID, Client: cl, Unsigned: req.Flow.RequireIdToken && cl.unsignable()}
	rec, calls, screens := ac.call(func(rec *Rec, r *http.Request) { ae.CompleteRequest(rec, r, ac.Cb) })
	*recs = append(*recs, rec)
	if len(screens) > 0 {
		c.Violate("C14 C12", "CompleteRequest showed %v", screens)
	}
	issued := ac.JudgeComplete(c, e, rec, calls)
	ac.judgeSecretsAuth(c, rec, calls, issued)
	c.Count("outcome.completed-after-consent")
	if again && !c.bad { // the user goes back and answers once more
		rec, calls, _ := ac.call(func(rec *Rec, r *http.Request) { ae.CompleteRequest(rec, r, ac.Cb) })
		*recs = append(*recs, rec)
		ac.JudgeComplete(c, e, rec, calls)
		c.Count("outcome.completed-again")
	}
	return "completed"
}

func runAuth(x *Ctx, gen string, n int, focus []string) {
	x.Run(gen, n, func(c *Case) {
		ac := GenAuth(c.Rng, focus)
		q := ac.Req
		trail := ac.story(c)
		c.Nontrivial(fmt.Sprintf("%v|%s|%s|%s|%d|%v", ac.Muts, trail, q.Get("response_type"), q.Get("response_mode"), ac.Client.NonePolicy, q.Get("prompt")))
		c.Sample()
	})
}

func init() {
	rule := "authorization requests against generated stores, policies and login states, valid or with 1-4 deviations, carried on through login, consent, completion or cancellation; nontrivial by (deviations, course, response type and mode, policy, prompt)"
	reg := func(p string, focus []string, req map[string]int) {
		checks[p] = func(x *Ctx) {
			x.R.Rule = rule
			runAuth(x, "auth", x.Scale(50000, 800000), focus)
			for k, v := range req {
				x.Require(k, v)
			}
		}
	}
	reg("C11", []string{"cid-missing", "cid-near", "client-disabled", "uri-missing", "uri-near", "uri-near", "uri-other"}, map[string]int{"outcome.error-screen": 10000, "outcome.complete": 1000})
	reg("C12", authDims1, map[string]int{"outcome.error": 8000, "cond.max_age_not_an_integer": 200, "cond.nonce_missing": 200, "cond.scope_not_allowed": 500, "cond.prompt_none_with_others": 200,
		"cond.flow_not_allowed": 200, "cond.response_mode_too_weak": 200, "cond.response_type_not_known": 500, "outcome.consent": 1000})
	reg("C13", []string{"not-logged-in", "prompt-login", "prompt-login-done", "age-over", "age-edge", "none"}, map[string]int{"outcome.login": 8000, "cond.login_older_than_max_age": 200})
	reg("C14", []string{"info-missing", "info-inactive", "info-scope", "info-scope-near", "info-old", "info-edge", "info-other-user", "info-other-client", "prompt-consent", "none"},
		map[string]int{"outcome.consent": 8000, "outcome.complete": 3000, "cond.no_consent_on_record": 500, "outcome.completed-after-consent": 2000})
	reg("C15", []string{"none", "hint-corrupt", "hint-claims", "hint-sub", "hint-missing", "hint-other-key", "age-over", "not-logged-in"},
		map[string]int{"outcome.silent": 800, "cond.id_token_hint_signature_does_not_verify": 100, "cond.id_token_hint_names_another_user": 50, "cond.login_hint_names_another_user": 50,
			"silent.3.RS256": 1, "silent.3.ES256": 1, "silent.3.HS256": 1, "silent.3.PS512": 1})
	reg("C16", []string{"offline", "offline-only", "prompt-consent", "info-scope"}, map[string]int{"cond.offline_access_alone": 200, "outcome.completed-after-consent": 2000})
	reg("C17", []string{"rm-bad", "rm-weak"}, map[string]int{"cond.response_mode_too_weak": 200, "cond.response_mode_not_known": 200})
	reg("C19", nil, map[string]int{"complete.query.authorization_code": 200, "complete.fragment.implicit": 200, "complete.form_post.hybrid": 200})
	checks["C10"] = func(x *Ctx) {
		x.R.Rule = "authorization-code token requests and authorization stories; nontrivial by (deviations, course, response type and mode, algorithm)"
		runTok(x, "tok", x.Scale(25000, 400000), grant.TypeAuthorizationCode, []string{"unsignable", "code-edge", "other-scope"}, func(tc *TokCase, e *TokExpect) bool { return e.Info != nil && hasWord(e.Info.Scope, "openid") })
		runAuth(x, "auth", x.Scale(40000, 600000), []string{"unsignable", "none", "nonce-edge"})
		x.Require("idtoken.code", 3000)
		x.Require("idtoken.front", 3000)
		x.Require("complete.unsignable", 50)
		for _, a := range allAlgs {
			x.Require("idtoken."+a, 10)
		}
	}
}
