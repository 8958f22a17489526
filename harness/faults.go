package main

// C20: every data-interface method and callback made to fail at every point where the run calls it.

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/grant"
)

// faultKinds lists the ways in which a method can fail; "" means that it can't.
func faultKinds(method string) []string {
	switch method {
	case "MatchSecret", "Issuer", "ShowErrorScreen":
		return nil
	case "DisableSession", "RecordAssertionClaims", "CreateAuthSession", "FindUserId", "FindUserIdBySubject":
		return []string{FaultFailed, FaultUnsupported, FaultServer}
	case "Continue":
		return []string{FaultErr, FaultNil}
	case "ShowLoginScreen", "ShowConsentScreen", "ChooseLocale", "ConfirmLoginSession", "RequestIsFromLogin", "GetAuthTime", "GetLoginUserId", "CreateAuthorizationCode", "LoginUserIsMatchedToSubject":
		return []string{FaultErr}
	}
	return []string{FaultFailed, FaultUnsupported, FaultServer, FaultNil}
}

// plan is a set of failures: "Method#n" or "Method" -> kind.
type faultPlan map[string]string

// faultPlans derives plans from the calls of a run without failures.
func faultPlans(rng *Rng, calls []*Call, pairs int) []faultPlan {
	var out []faultPlan
	type pt struct{ key, kind string }
	var pts []pt
	n := map[string]int{}
	for _, k := range calls {
		n[k.Method]++
		ks := faultKinds(k.Method)
		if len(ks) > 0 && ks[0] == FaultFailed { // a careless integrator hands out the value along with the error
			ks = append(append([]string{}, ks...), rng.Pick(ks[:3])+"+value")
		}
		for _, kind := range ks {
			pts = append(pts, pt{fmt.Sprintf("%s#%d", k.Method, n[k.Method]), kind})
		}
	}
	for _, p := range pts {
		out = append(out, faultPlan{p.key: p.kind})
	}
	if len(pts) == 0 {
		return out
	}
	for i := 0; i < pairs; i++ {
		a, b := pts[rng.N(len(pts))], pts[rng.N(len(pts))]
		out = append(out, faultPlan{a.key: a.kind, b.key: b.kind})
	}
	// the whole store is down from the n-th kind of call on
	p := faultPlan{}
	kind := rng.Pick([]string{FaultUnsupported, FaultServer})
	from := rng.N(len(calls))
	for i, k := range calls {
		if i >= from && len(faultKinds(k.Method)) > 0 && faultKinds(k.Method)[0] == FaultFailed {
			p[k.Method] = kind
		}
	}
	if len(p) > 0 {
		out = append(out, p)
	}
	return out
}

func fired(calls []*Call) (out []*Call) {
	for _, k := range calls {
		if k.Fault != "" {
			out = append(out, k)
		}
	}
	return
}

// afterFault finds a creation step that was taken after the first failed call.
func afterFault(calls []*Call) *Call {
	seen := false
	for _, k := range calls {
		if k.Fault != "" {
			seen = true
			continue
		}
		if seen {
			for _, m := range append(creations, "DisableSession") {
				if k.Method == m {
					return k
				}
			}
		}
	}
	return nil
}

func countFaults(c *Case, where string, fs []*Call) {
	for _, k := range fs {
		c.Count("fault." + where + "." + k.Method + "." + k.Fault)
		c.Count("faults." + where)
		if k.Late != "" {
			c.Count("faults.withvalue")
		}
	}
}

// ---------------------------------------------------------------- token endpoint

func tokFaultCodes(k *Call, assertion bool) []string {
	if k.Fault != FaultFailed {
		return []string{"server_error"}
	}
	switch k.Method {
	case "FindClientById":
		if assertion {
			return assertCodes
		}
		return []string{"invalid_client"}
	case "RecordAssertionClaims":
		return assertCodes
	}
	return []string{"invalid_grant"}
}

func faultTok(x *Ctx, gen string, n int) {
	x.Run(gen, n, func(c *Case) {
		make := func() *TokCase { return GenTok(NewRng(x.Seed, gen, c.Index), "", nil) }
		base := make()
		di, lg := &DI{base.W}, &Logger{base.W}
		warm := base.Cfg.EndpointOn(lg).Handler(di)
		base.Serve(warm)
		for _, p := range faultPlans(c.Rng, base.W.Calls, 2) {
			tc := make()
			tc.W.Faults = p
			pre := tc.W.Snapshot()
			before := tc.W.describe()
			var rec *Rec
			c.DescFn = func() []string {
				d := append(append(before, tc.describe()...), fmt.Sprintf("faults %v", p))
				if rec != nil {
					d = append(d, "response "+rec.String())
				}
				return append(d, tc.W.describeCalls()...)
			}
			var calls []*Call
			h := tc.Cfg.Endpoint(tc.W).Handler(&DI{tc.W})
			if c.Rng.Bool() { // it has seen the same request when all went well
				h, di.w, lg.w = warm, tc.W, tc.W
				c.Count("faults.warm")
			}
			rec, calls = tc.Serve(h)
			fs := fired(calls)
			if len(fs) == 0 {
				c.Count("faults.unfired")
				continue
			}
			countFaults(c, "token", fs)
			e := tc.Expect(pre)
			if e.NotPost {
				c.Count("faults.notpost")
				continue
			}
			for _, k := range fs {
				name := "fault in " + k.Method
				if k.Method == "FindClientById" && k.Fault == FaultFailed && e.Header {
					name = "client unknown"
				}
				e.fail(name, "C20", tokFaultCodes(k, !e.Header)...)
			}
			e.MayCreate = true
			c.Any = x.Prop == "C20"
			tc.JudgeTok(c, e, rec, calls)
			if k := afterFault(calls); k != nil {
				c.Violate("C20", "%s was done although %s failed", k, fs[0])
			}
			c.Any = false
			tc.JudgeSecrets(c, rec, calls)
			for _, k := range fs {
				c.Nontrivial(fmt.Sprintf("tok|%s|%s|%s|%s|%v", tc.GT, tc.Channel, k.Method, k.Fault, tc.Muts))
			}
			c.Sample()
			if c.bad {
				return
			}
		}
	})
}

// ---------------------------------------------------------------- authorization endpoint

// authRun is one story up to a given point: the request, and completion or cancellation if it comes to consent.
type authRun struct {
	ac       *AuthCase
	ae       string
	rec      *Rec
	calls    []*Call
	screens  []Screen
	n1       int // calls of the first step
	parked   *authorization.Request
	step2    string
	rec2     *Rec
	calls2   []*Call
	screens2 []Screen
}

func runStorySteps(ac *AuthCase, ae *goidc.AuthorizationEndpoint, cancel bool) *authRun {
	r := &authRun{ac: ac}
	r.rec, r.calls, r.screens = ac.Handle(ae)
	r.n1 = len(r.calls)
	if len(r.screens) != 1 || r.screens[0].Kind != "consent" || r.rec.Panic != "" {
		return r
	}
	r.parked = copyReq(r.screens[0].Req)
	ac.Cb.Parked = r.parked
	save := ac.Req
	ac.Req = &Req{Method: "POST", Path: "/consent", Body: []KV{{"answer", "x"}}}
	r.step2 = "complete"
	f := func(rec *Rec, q *http.Request) { ae.CompleteRequest(rec, q, ac.Cb) }
	if cancel {
		r.step2 = "cancel"
		f = func(rec *Rec, q *http.Request) { ae.CancelRequest(rec, q, ac.Cb) }
	}
	r.rec2, r.calls2, r.screens2 = ac.call(f)
	ac.Req = save
	return r
}

// expectFaulty adapts the model's answer to the failures that happened in HandleRequest.
func expectFaulty(ac *AuthCase, pre *AuthCase, calls []*Call) *AuthExpect {
	fs := fired(calls)
	for _, k := range fs {
		if k.Method == "FindAuthInfoByUserIdAndClientId" && k.Fault == FaultFailed {
			cid := pre.Client.ID
			if c := pre.Expect().Client; c != nil {
				cid = c.ID // a mutated client_id may name another client
			}
			for id, i := range pre.W.Infos {
				if i.UserID == pre.Cb.UserID && i.ClientID == cid {
					delete(pre.W.Infos, id)
				}
			}
		}
	}
	e := pre.Expect()
	for _, k := range fs {
		if k.Method == "FindClientById" && (e.Screens != nil || firstOf(calls, "FindClientById") == k) {
			if e.Screens == nil {
				e.Screens = map[int]bool{}
			}
			if k.Fault == FaultFailed {
				e.Screens[authorization.ErrMissingClientId] = true
			} else {
				e.Screens[authorization.ErrServerError] = true
			}
		}
	}
	if e.Screens != nil {
		return e
	}
	for _, k := range fs {
		if k.Method == "FindAuthInfoByUserIdAndClientId" && k.Fault == FaultFailed {
			continue
		}
		e.Want = "error"
		e.MayCreate = true
		e.fail("fault in "+k.Method, "C20", "server_error")
	}
	return e
}

func firstOf(calls []*Call, m string) *Call {
	for _, k := range calls {
		if k.Method == m {
			return k
		}
	}
	return nil
}

func faultAuth(x *Ctx, gen string, n int) {
	x.Run(gen, n, func(c *Case) {
		make := func() *AuthCase { return GenAuth(NewRng(x.Seed, gen, c.Index), nil) }
		cancel := c.Rng.P(25)
		first := make()
		di, lg := &DI{first.W}, &Logger{first.W}
		warm := first.EndpointOn(di, lg)
		base := runStorySteps(first, warm, cancel)
		for _, p := range faultPlans(c.Rng, base.ac.W.Calls, 2) {
			pre := make()
			for k, v := range p {
				if strings.HasPrefix(k, "FindAuthInfoByUserIdAndClientId") && (v == FaultFailed || v == FaultFailed+"+value") {
					delete(p, k) // a denial is consistent
					p["FindAuthInfoByUserIdAndClientId"] = v
				}
			}
			ac := make()
			ac.W.Faults = p
			pre.Req, pre.Hint = ac.Req, ac.Hint // signatures are randomised
			before := ac.W.describe()
			var r *authRun
			c.DescFn = func() []string {
				d := append(append(before, ac.describe()...), fmt.Sprintf("faults %v", p))
				if r != nil {
					d = append(d, "response "+r.rec.String(), "screens "+fmt.Sprint(len(r.screens)))
					if r.rec2 != nil {
						d = append(d, r.step2+" response "+r.rec2.String())
					}
				}
				return append(d, ac.W.describeCalls()...)
			}
			ae := ac.Endpoint()
			if c.Rng.Bool() { // it has seen the same request when all went well
				ae, di.w, lg.w = warm, ac.W, ac.W
				c.Count("faults.warm")
			}
			r = runStorySteps(ac, ae, cancel)
			fs := fired(ac.W.Calls)
			if len(fs) == 0 {
				c.Count("faults.unfired")
				continue
			}
			c.Any = x.Prop == "C20"
			if f1 := fired(r.calls); len(f1) > 0 {
				countFaults(c, "authorize", f1)
				e := expectFaulty(ac, pre, r.calls)
				ac.JudgeHandle(c, e, r.rec, r.calls, r.screens)
				if k := afterFault(r.calls); k != nil && !onlyDenials(f1) {
					c.Violate("C20", "%s was done although %s failed", k, f1[0])
				}
			}
			if f2 := fired(r.calls2); len(f2) > 0 {
				countFaults(c, r.step2, f2)
				judgeStep2(c, r, f2)
			}
			c.Any = false
			done := map[string]string{}
			if f1 := fired(r.calls); len(f1) > 0 && !onlyDenials(f1) {
				done = nil
			}
			ac.judgeSecretsAuth(c, r.rec, r.calls, done)
			if r.rec2 != nil {
				done = map[string]string{}
				if len(fired(r.calls2)) > 0 {
					done = nil
				}
				ac.judgeSecretsAuth(c, r.rec2, r.calls2, done)
			}
			for _, k := range fs {
				c.Nontrivial(fmt.Sprintf("auth|%s|%s|%s|%s", k.Method, k.Fault, r.step2, strings.Join(ac.Muts, ",")))
			}
			c.Sample()
			if c.bad {
				return
			}
		}
	})
}

// onlyDenials: the only failure is that no authorization is on record.
func onlyDenials(fs []*Call) bool {
	for _, k := range fs {
		if k.Method != "FindAuthInfoByUserIdAndClientId" || k.Fault != FaultFailed {
			return false
		}
	}
	return true
}

func judgeStep2(c *Case, r *authRun, fs []*Call) {
	if r.rec2.Panic != "" {
		c.Violate("*", "%s panicked when %s failed: %s", r.step2, fs[0], r.rec2.Panic)
		return
	}
	if len(r.screens2) > 0 {
		c.Violate("C20", "%s showed screens when %s failed", r.step2, fs[0])
	}
	if k := afterFault(r.calls2); k != nil {
		c.Violate("C20", "%s was done although %s failed", k, fs[0])
	}
	if fs[0].Method == "Continue" {
		if r.rec2.Touched() {
			c.Violate("C20", "%s answered without a request to go on with: %s", r.step2, r.rec2)
		}
		return
	}
	judgeErrorResp(c, r.rec2, r.parked.RedirectURI, r.parked.State, map[string]bool{r.parked.ResponseMode: true}, map[string]bool{"server_error": true}, fs[0].String(), "C20")
}

// ---------------------------------------------------------------- resource protector

func faultRP(x *Ctx, gen string, n int) {
	x.Run(gen, n, func(c *Case) {
		scopes := c.Rng.Bool()
		make := func() *RPCase { return GenRP(NewRng(x.Seed, gen, c.Index), scopes, nil) }
		base := make()
		lg := &Logger{base.W}
		warm := base.ProtectorOn(lg)
		base.Serve(warm)
		for _, p := range faultPlans(c.Rng, base.W.Calls, 1) {
			rc := make()
			rc.W.Faults = p
			before := rc.W.describe()
			var rec *Rec
			c.DescFn = func() []string {
				d := append(append(before, rc.describe()...), fmt.Sprintf("faults %v", p))
				if rec != nil {
					d = append(d, "response "+rec.String())
				}
				return append(d, rc.W.describeCalls()...)
			}
			e := rc.Expect()
			rp := rc.Protector()
			if c.Rng.Bool() { // it has seen the same request when all went well
				rp, lg.w = warm, rc.W
				c.Count("faults.warm")
			}
			ok, rec2, r, calls := rc.Serve(rp)
			rec = rec2
			fs := fired(calls)
			if len(fs) == 0 {
				c.Count("faults.unfired")
				continue
			}
			countFaults(c, "resource", fs)
			c.Any = x.Prop == "C20"
			denied := true
			for _, k := range fs {
				denied = denied && k.Fault == FaultFailed
			}
			switch {
			case rec.Panic != "":
				c.Violate("*", "resource protector panicked when %s failed: %s", fs[0], rec.Panic)
			case ok:
				c.Violate("C20", "a request was let through although %s failed", fs[0])
			case rec.Statuses != 1:
				c.Violate("C20", "status sent %d times when %s failed", rec.Statuses, fs[0])
			case denied:
				if e.Pass {
					e = &RPExpect{Why: "a lookup was denied", Codes: map[string]bool{}, Props: "C20"}
				}
				e.Codes["invalid_token"] = true
				e.Missing = nil
				rc.JudgeRP(c, e, ok, rec, r, calls)
			default:
				want := rec.Status == 500
				for code := range e.Codes {
					want = want || rec.Status == rpStatus[code]
				}
				if !want {
					c.Violate("C20", "status %d when %s failed", rec.Status, fs[0])
				}
				if h := rec.Sent.Get("WWW-Authenticate"); rec.Status == 500 && strings.Contains(h, "invalid_token") {
					c.Violate("C20", "server error with challenge %q", h)
				}
			}
			if !ok && r != nil && !c.bad {
				for _, h := range []string{"X-OAUTH-USER-ID", "X-OAUTH-CLIENT-ID", "X-OAUTH-SCOPE"} {
					for _, v := range r.Header.Values(h) {
						sent := false
						for _, kv := range rc.Req.Header {
							sent = sent || http.CanonicalHeaderKey(kv.K) == http.CanonicalHeaderKey(h) && kv.V == v
						}
						if !sent {
							c.Violate("C20", "%s was set to %q for a refused request", h, v)
						}
					}
				}
			}
			c.Any = false
			rc.judgeSecretsRP(c, ok, rec)
			for _, k := range fs {
				c.Nontrivial(fmt.Sprintf("rp|%s|%s|%v", k.Method, k.Fault, rc.Muts))
			}
			c.Sample()
			if c.bad {
				return
			}
		}
	})
}

func init() {
	checks["C20"] = func(x *Ctx) {
		x.R.Rule = "every data-interface and callback call of generated token requests, authorization stories and resource accesses made to fail in every way it can, singly, in pairs, and from some call on; nontrivial by (endpoint, method, failure, deviations)"
		faultTok(x, "tok", x.Scale(8000, 150000))
		faultAuth(x, "auth", x.Scale(8000, 150000))
		faultRP(x, "rp", x.Scale(6000, 80000))
		runTok(x, "key", x.Scale(6000, 80000), grant.TypeAuthorizationCode, []string{"unsignable"}, nil)
		runAuth(x, "authkey", x.Scale(8000, 120000), []string{"unsignable"})
		x.Require("complete.unsignable", 50)
		x.Require("faults.warm", 10000)
		x.Require("faults.token", 20000)
		x.Require("faults.authorize", 20000)
		x.Require("faults.complete", 5000)
		x.Require("faults.cancel", 500)
		x.Require("faults.resource", 10000)
		x.Require("faults.withvalue", 10000)
		for _, m := range []string{"FindClientById", "FindAuthSessionByCode", "FindActiveAuthInfoById", "FindOAuthTokenByRefreshToken", "CreateOAuthToken", "RefreshAccessToken", "CreateOrUpdateAuthInfo"} {
			for _, k := range []string{FaultFailed, FaultServer, FaultUnsupported, FaultNil} {
				x.Require("fault.token."+m+"."+k, 20)
			}
		}
		for _, m := range []string{"DisableSession", "RecordAssertionClaims", "FindUserId", "FindUserIdBySubject"} {
			for _, k := range []string{FaultFailed, FaultServer, FaultUnsupported} {
				x.Require("fault.token."+m+"."+k, 20)
			}
		}
	}
}
