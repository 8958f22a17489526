package main

// Configuration: endpoints as they are made and as they are set up later, several side by side.

import (
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"reflect"
	"strings"
	"time"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/grant"
	gio "github.com/lyokato/goidc/io"
	"github.com/lyokato/goidc/log"
	oer "github.com/lyokato/goidc/oauth_error"
)

func init() { atStart["C34"] = openTap }

// worldAt is the time at which worlds are made, 0 for any.
var worldAt int64

// customGrant is a grant handler of the integrator.
type customGrant struct {
	typ  string
	res  *grant.Response
	err  *oer.OAuthError
	seen []customCall
}

type customCall struct {
	r      *http.Request
	client bridge.Client
	di     bridge.DataInterface
	lg     log.Logger
	at     time.Time
}

func (g *customGrant) handler() *grant.GrantHandler {
	return &grant.GrantHandler{Type: g.typ, Func: func(r *http.Request, c bridge.Client, di bridge.DataInterface, lg log.Logger, at time.Time) (*grant.Response, *oer.OAuthError) {
		g.seen = append(g.seen, customCall{r, c, di, lg, at})
		if g.err != nil {
			return nil, oer.NewOAuthDetailedError(g.err.Type, g.err.Description, g.err.URI)
		}
		res := *g.res
		return &res, nil
	}}
}

var customTypes = []string{"urn:example:params:oauth:grant-type:device", "saml2", "Password", "code", "日本", "password ", "%70assword"}

func (g *customGrant) fill(rng *Rng) {
	g.res, g.err = nil, nil
	g.seen = nil
	if rng.P(35) {
		g.err = &oer.OAuthError{Type: errorTypes[rng.N(len(errorTypes))].T}
		if rng.Bool() {
			g.err.Description = customText(rng)
		}
		if rng.P(40) {
			g.err.URI = "https://err.example.org/own?" + rng.Str(4)
		}
		return
	}
	g.res = grant.NewResponse("custom-"+rng.Str(20), rng.Secs())
	if rng.P(10) {
		g.res.ExpiresIn = rng.PickI([]int64{0, 1, math.MaxInt32, 1 << 40})
	}
	if rng.Bool() {
		g.res.RefreshToken = "custom-" + rng.Str(20)
	}
	if rng.Bool() {
		g.res.Scope = customText(rng)
	}
	if rng.P(30) {
		g.res.IdToken = "custom." + rng.Str(10) + "." + rng.Str(20)
	}
	if rng.P(10) {
		g.res.TokenType = "mac"
	}
}

func customText(rng *Rng) string {
	for {
		if s := rng.Hostile(); validUTF8(s) && s != "" {
			return s
		}
	}
}

// ---------------------------------------------------------------- endpoints under changing configuration

type cfgTok struct {
	te      *goidc.TokenEndpoint
	cfg     *TokCfg
	lg      *Logger // nil: none was set
	clocked bool    // a clock was set
	fixed   int     // 0 the world's, 1 FixedTimeBuilder, 2 FixedUnixTimeBuilder, for the next request
	custom  map[string]*customGrant
	done    []string
}

func (t *cfgTok) did(f string, a ...interface{}) { t.done = append(t.done, fmt.Sprintf(f, a...)) }

// configure changes one setting.
func (t *cfgTok) configure(rng *Rng) {
	switch rng.N(12) {
	case 0, 1:
		t.cfg.Secret = goidc.CredentialAcceptanceMethod(rng.N(3))
		t.te.AcceptClientSecret(t.cfg.Secret)
		t.did("AcceptClientSecret(%d)", t.cfg.Secret)
	case 2, 3:
		t.cfg.Assert = rng.Bool()
		t.te.AcceptClientAssertion(t.cfg.Assert)
		t.did("AcceptClientAssertion(%v)", t.cfg.Assert)
	case 4:
		t.cfg.URIMode, t.cfg.URIConst = 1, rng.Pick([]string{"https://err.example.org/", "https://err.example.org/?a=b&c=\"d\"", "e"})
		if rng.P(20) {
			t.cfg.URIConst = ""
		}
		t.te.SetErrorURI(t.cfg.URIConst)
		t.did("SetErrorURI(%q)", t.cfg.URIConst)
	case 5:
		t.cfg.URIMode = 2
		t.te.SetErrorURIBuilder(uriOfType)
		t.did("SetErrorURIBuilder")
	case 6:
		typ := rng.Pick(customTypes)
		if rng.P(30) {
			typ = rng.Pick(allGrants)
		}
		g := &customGrant{typ: typ}
		g.fill(rng)
		t.te.Support(g.handler())
		t.support(typ)
		t.custom[typ] = g
		t.did("Support(own %q)", typ)
	case 7:
		if t.lg == nil {
			t.lg = &Logger{}
			t.te.SetLogger(t.lg)
			t.did("SetLogger")
		}
	default:
		gt := rng.Pick(allGrants)
		t.te.Support(handlerOf(gt))
		t.support(gt)
		delete(t.custom, gt)
		t.did("Support(%q)", gt)
	}
}

func (t *cfgTok) support(gt string) {
	for _, g := range t.cfg.Grants {
		if g == gt {
			return
		}
	}
	t.cfg.Grants = append(t.cfg.Grants, gt)
}

// realTime runs f with worlds of the real time; the verdicts of f count only if the second didn't change.
func (c *Case) realTime(f func()) {
	for try := 0; try < 5; try++ {
		v, cnt, bad, stop := c.R.Violations, c.R.Counters, c.bad, c.stop
		mine := map[string]int{}
		c.R.Counters = mine
		worldAt = time.Now().Unix()
		at := worldAt
		f()
		worldAt = 0
		now := time.Now().Unix()
		c.R.Counters = cnt
		if now == at {
			for k, n := range mine {
				c.R.Counters[k] += n
			}
			c.Count("clock.default")
			return
		}
		c.R.Violations, c.bad, c.stop = v, bad, stop
	}
}

// clock sets the clock of the next request, now that its world is known.
func (t *cfgTok) clock(rng *Rng, w *World) string {
	switch {
	case rng.P(20):
		w.NowNs = 0
		t.te.SetTimeBuilder(gio.FixedUnixTimeBuilder(w.Now))
		t.clocked = true
		return "FixedUnixTimeBuilder"
	case rng.P(20):
		t.te.SetTimeBuilder(gio.FixedTimeBuilder(w.Time()))
		t.clocked = true
		return "FixedTimeBuilder"
	default:
		t.te.SetTimeBuilder(w.Clock)
		t.clocked = true
		return "the world's"
	}
}

func (t *cfgTok) request(c *Case) {
	if !t.clocked {
		if c.Rng.P(55) {
			c.realTime(func() { t.requestNow(c, false) })
			return
		}
	}
	t.requestNow(c, true)
}

var openCfg = TokCfg{Secret: goidc.FromAll, Assert: true, Grants: allGrants}

func (t *cfgTok) requestNow(c *Case, clock bool) {
	rng := c.Rng
	open := openCfg
	tc := &TokCase{W: GenWorld(rng), Cfg: &open, Asserts: map[string]*Assertion{}}
	GenTokReq(rng, tc, "", nil)
	if !reflect.DeepEqual(open, openCfg) {
		return
	}
	w := tc.W
	cfg := *t.cfg
	tc.Cfg = &cfg
	var own *customGrant
	names := []string{}
	for typ, g := range t.custom {
		names = append(names, typ)
		g.fill(rng)
	}
	sortStrings(names)
	for _, cl := range w.clientList() {
		for _, typ := range names {
			if !hasWord(strings.Join(allGrants, " "), typ) {
				cl.Grants[typ] = rng.P(75)
			}
		}
	}
	if len(names) > 0 && rng.P(40) { // a request for an own handler
		typ := rng.Pick(names)
		for _, list := range []*[]KV{&tc.Req.Body, &tc.Req.Query} {
			for i, kv := range *list {
				if kv.K == "grant_type" {
					(*list)[i].V = typ
				}
			}
		}
	}
	gt := tc.Req.Build()
	gt.ParseForm()
	own = t.custom[gt.FormValue("grant_type")]
	tc.Custom = own != nil
	lg := t.lg
	if lg != nil {
		lg.w = w
	}
	clk := "as made"
	if clock {
		clk = t.clock(rng, w)
	}
	pre, before := w.Snapshot(), w.describe()
	var rec *Rec
	c.DescFn = func() []string {
		d := append(before, tc.describe()...)
		d = append(d, "settings "+strings.Join(t.done, "; ")+"; clock "+clk)
		if rec != nil {
			d = append(d, "response "+rec.String())
		}
		return append(d, w.describeCalls()...)
	}
	di := &DI{w}
	rec, calls := tc.Serve(t.te.Handler(di))
	printed()
	e := tc.Expect(pre)
	how := "builtin"
	if own != nil {
		how = "own"
	}
	if own == nil || e.NotPost || len(e.Conds) > 0 {
		if own != nil && len(own.seen) > 0 {
			c.Violate("C34", "the handler of %q was called although: %s", own.typ, e.names())
		}
		tc.JudgeTok(c, e, rec, calls)
	} else {
		t.judgeOwn(c, tc, e, own, di, rec)
	}
	for typ, g := range t.custom {
		if g != own && len(g.seen) > 0 {
			c.Violate("C34", "the handler of %q was called for another grant type", typ)
		}
	}
	c.Count("config.tok." + how)
	c.Count("config.clock." + clk)
	c.Nontrivial(fmt.Sprintf("tok|%s|%d|%v|%d|%d|%v|%s|%s", how, cfg.Secret, cfg.Assert, cfg.URIMode, len(cfg.Grants), tc.Muts, clk, e.names()))
	c.Sample()
}

// judgeOwn judges a request that the integrator's own handler has to answer.
func (t *cfgTok) judgeOwn(c *Case, tc *TokCase, e *TokExpect, own *customGrant, di *DI, rec *Rec) {
	if rec.Panic != "" {
		c.Violate("*", "token endpoint panicked: %s", rec.Panic)
		return
	}
	if len(own.seen) != 1 {
		c.Violate("C34 C01", "the handler of %q was called %d times: %s", own.typ, len(own.seen), rec)
		return
	}
	s := own.seen[0]
	if s.client == nil || s.client.GetId() != e.Client.ID {
		c.Violate("C34 C01", "the handler got a client other than %q", e.Client.ID)
	}
	if s.di != bridge.DataInterface(di) {
		c.Violate("C34", "the handler got another data interface")
	}
	if t.lg != nil && s.lg != log.Logger(t.lg) || s.lg == nil {
		c.Violate("C34", "the handler got another logger")
	}
	if s.at.Unix() != tc.W.Now {
		c.Violate("C34", "the handler got the time %d, want %d", s.at.Unix(), tc.W.Now)
	}
	if s.r == nil || s.r.FormValue("grant_type") != own.typ {
		c.Violate("C34", "the handler got another request")
	}
	if rec.Statuses != 1 || !strings.HasPrefix(rec.Sent.Get("Content-Type"), "application/json") || !strings.Contains(rec.Sent.Get("Cache-Control"), "no-store") {
		c.Violate("C34 C09", "response %s", rec)
	}
	body, problem := strictObject(rec.Body.Bytes())
	if problem != "" {
		c.Violate("C34 C09", "body %q: %s", rec.Body.String(), problem)
		return
	}
	want := map[string]interface{}{}
	put := func(k, v string) {
		if v != "" {
			want[k] = v
		}
	}
	status := 200
	if own.err != nil {
		code := own.err.Type.String()
		for _, t := range errorTypes {
			if t.T == own.err.Type {
				code, status = t.Code, t.Status
			}
		}
		put("error", code)
		put("error_description", own.err.Description)
		put("error_uri", own.err.URI)
		if own.err.URI == "" {
			put("error_uri", tc.Cfg.errorURI(code))
		}
		c.Count("config.own.error")
	} else {
		put("access_token", own.res.AccessToken)
		put("token_type", own.res.TokenType)
		put("refresh_token", own.res.RefreshToken)
		put("scope", own.res.Scope)
		put("id_token", own.res.IdToken)
		want["expires_in"] = json.Number(fmt.Sprint(own.res.ExpiresIn))
		c.Count("config.own.response")
	}
	if status != 0 && rec.Status != status {
		c.Violate("C34 C09", "status %d, want %d", rec.Status, status)
	}
	for k, v := range want {
		if fmt.Sprint(body[k]) != fmt.Sprint(v) {
			c.Violate("C34 C09", "member %s is %v, want %v", k, body[k], v)
		}
	}
	for k, v := range body {
		if _, ok := want[k]; !ok {
			c.Violate("C34 C09", "unexpected member %s: %v", k, v)
		}
	}
}

type cfgRP struct {
	rp      *goidc.ResourceProtector
	rc      RPCase // the settings
	lg      *Logger
	clocked bool
	done    []string
}

func (t *cfgRP) did(f string, a ...interface{}) { t.done = append(t.done, fmt.Sprintf(f, a...)) }

func (t *cfgRP) configure(rng *Rng) {
	switch rng.N(5) {
	case 0, 1:
		t.rc.Accept = goidc.CredentialAcceptanceMethod(rng.N(3))
		t.rp.AcceptAccessToken(t.rc.Accept)
		t.did("AcceptAccessToken(%d)", t.rc.Accept)
	case 2:
		t.rc.URIMode, t.rc.URIConst = 1, rng.Pick([]string{"https://err.example.org/", "https://err.example.org/?a=b&c=d", ""})
		t.rp.SetErrorURI(t.rc.URIConst)
		t.did("SetErrorURI(%q)", t.rc.URIConst)
	case 3:
		t.rc.URIMode = 2
		t.rp.SetErrorURIBulder(uriOfType)
		t.did("SetErrorURIBulder")
	default:
		if t.lg == nil {
			t.lg = &Logger{}
			t.rp.SetLogger(t.lg)
			t.did("SetLogger")
		}
	}
}

func (t *cfgRP) request(c *Case) {
	if !t.clocked && c.Rng.P(60) {
		c.realTime(func() { t.requestNow(c, false) })
		return
	}
	t.requestNow(c, true)
}

func (t *cfgRP) requestNow(c *Case, clock bool) {
	rng := c.Rng
	rc := &RPCase{W: GenWorld(rng), Realm: t.rc.Realm, Accept: goidc.FromAll, URIMode: t.rc.URIMode, URIConst: t.rc.URIConst}
	GenRPReq(rng, rc, rng.P(30), nil)
	rc.Accept = t.rc.Accept
	w := rc.W
	if t.lg != nil {
		t.lg.w = w
	}
	clk := "as made"
	if clock {
		switch rng.N(3) {
		case 0:
			w.NowNs = 0
			t.rp.SetTimeBuilder(gio.FixedUnixTimeBuilder(w.Now))
		case 1:
			t.rp.SetTimeBuilder(gio.FixedTimeBuilder(w.Time()))
		default:
			t.rp.SetTimeBuilder(w.Clock)
		}
		t.clocked = true
		clk = "set"
	}
	var rec *Rec
	before := w.describe()
	c.DescFn = func() []string {
		d := append(before, rc.describe()...)
		d = append(d, "settings "+strings.Join(t.done, "; ")+"; clock "+clk)
		if rec != nil {
			d = append(d, "response "+rec.String())
		}
		return append(d, w.describeCalls()...)
	}
	e := rc.Expect()
	ok, rec, r, calls := rc.Serve(t.rp)
	printed()
	rc.JudgeRP(c, e, ok, rec, r, calls)
	c.Count("config.rp")
	c.Count("config.clock." + clk)
	c.Nontrivial(fmt.Sprintf("rp|%d|%d|%v|%v|%s|%s", rc.Accept, rc.URIMode, rc.Muts, ok, clk, e.Why))
	c.Sample()
}

// documentedPolicy is what DefaultPolicy stands for.
func documentedPolicy() *authorization.Policy {
	return &authorization.Policy{MaxMaxAge: 86400, MinMaxAge: 60, AllowEmptyScope: false, MaxNonceLength: 255, MaxCodeVerifierLength: 255, ConsentOmissionPeriod: 86400, AuthSessionExpiresIn: 60,
		IdTokenExpiresIn: 86400, DefaultAuthorizationCodeFlowResponseMode: "query", DefaultImplicitFlowResponseMode: "fragment", IgnoreInvalidResponseMode: true, RequireResponseModeSecurityLevelCheck: true}
}

// cfgAuth is an authorization endpoint of the default policy, or of one derived from it.
type cfgAuth struct {
	ae      *goidc.AuthorizationEndpoint
	pol     *authorization.Policy // what the model goes by
	di      *DI
	lg      *Logger
	clocked bool
	done    string
}

func newCfgAuth(rng *Rng) *cfgAuth {
	t := &cfgAuth{di: &DI{}, pol: documentedPolicy(), done: "DefaultPolicy()"}
	p := authorization.DefaultPolicy()
	if rng.Bool() {
		for _, q := range []*authorization.Policy{p, t.pol} {
			q.AllowEmptyScope = true
			q.AuthSessionExpiresIn = 7
			q.MaxNonceLength = 9
			q.ConsentOmissionPeriod = 5
			q.DefaultAuthorizationCodeFlowResponseMode = "form_post"
			q.RequireResponseModeSecurityLevelCheck = false
		}
		t.done = "altered DefaultPolicy()"
	}
	t.ae = goidc.NewAuthorizationEndpoint(t.di, p)
	return t
}

func (t *cfgAuth) request(c *Case) {
	if !t.clocked && c.Rng.P(60) {
		c.realTime(func() { t.requestNow(c, false) })
		return
	}
	t.requestNow(c, true)
}

func (t *cfgAuth) requestNow(c *Case, clock bool) {
	rng := c.Rng
	pol := *t.pol
	ac := GenAuthReq(rng, &AuthCase{W: GenWorld(rng), Pol: &pol}, nil)
	if pol != *t.pol {
		return
	}
	t.di.w = ac.W
	if t.lg != nil {
		t.lg.w = ac.W
	}
	if clock {
		t.ae.SetTimeBuilder(ac.W.Clock)
		t.clocked = true
		if t.lg == nil && rng.P(30) {
			t.lg = &Logger{ac.W}
			t.ae.SetLogger(t.lg)
		}
		c.Desc("%s, clock set", t.done)
		ac.storyOn(c, t.ae)
	} else {
		c.Desc("%s, clock as made", t.done)
		e := ac.Expect()
		rec, calls, screens := ac.Handle(t.ae)
		before := ac.W.describe()
		c.DescFn = func() []string {
			return append(append(append(before, ac.describe()...), "response "+rec.String()), ac.W.describeCalls()...)
		}
		ac.JudgeHandle(c, e, rec, calls, screens)
	}
	printed()
	c.Count("config.auth")
	c.Nontrivial(fmt.Sprintf("auth|%s|%v|%v", t.done, clock, ac.Muts))
	c.Sample()
}

func runConfig(x *Ctx, n int) {
	x.Run("config", n, func(c *Case) {
		c.Any = true
		rng := c.Rng
		var toks []*cfgTok
		for i := 2 + rng.N(2); i > 0; i-- {
			cfg := &TokCfg{Realm: rng.Pick([]string{"example.org", "My Realm", "日本", "r"}) + fmt.Sprint(i)}
			toks = append(toks, &cfgTok{te: goidc.NewTokenEndpoint(cfg.Realm), cfg: cfg, custom: map[string]*customGrant{}})
		}
		rps := []*cfgRP{}
		for i := 2; i > 0; i-- {
			realm := rng.Pick([]string{"example.org", "My Realm", "日本", "r"}) + fmt.Sprint(i)
			rps = append(rps, &cfgRP{rp: goidc.NewResourceProtector(realm), rc: RPCase{Realm: realm}})
		}
		auths := []*cfgAuth{newCfgAuth(rng), newCfgAuth(rng)}
		if p := authorization.DefaultPolicy(); *p != *documentedPolicy() {
			c.Violate("C34", "DefaultPolicy() is %+v, want %+v", *p, *documentedPolicy())
		}
		for step := 8 + rng.N(8); step > 0 && !c.bad; step-- {
			c.desc = nil
			switch rng.N(5) {
			case 0, 1, 2:
				t := toks[rng.N(len(toks))]
				n := rng.N(4)
				if len(t.done) == 0 && rng.P(60) {
					n = 12
				}
				for ; n > 0; n-- {
					t.configure(rng)
				}
				if rng.P(30) {
					toks[rng.N(len(toks))].configure(rng)
				}
				t.request(c)
			case 3:
				t := rps[rng.N(len(rps))]
				for k := rng.N(3); k > 0; k-- {
					t.configure(rng)
				}
				if rng.P(30) {
					rps[rng.N(len(rps))].configure(rng)
				}
				t.request(c)
			default:
				auths[rng.N(2)].request(c)
			}
		}
	})
	// the clocks by themselves
	x.Run("clock", n/4, func(c *Case) {
		rng := c.Rng
		now := gio.NowBuilder()
		for i := 0; i < 3; i++ {
			a := time.Now()
			t := now()
			b := time.Now()
			if t.Before(a) || t.After(b) {
				c.Violate("C34", "NowBuilder tells %s between %s and %s", t, a, b)
			}
		}
		sec := rng.Num(1 << 40)
		if rng.P(20) {
			sec = rng.PickI([]int64{0, -1, -1 << 40, 1<<31 - 1, 1 << 31, 1 << 32, 253402300800})
		}
		at := time.Unix(sec, rng.Num(1000000000))
		f, u := gio.FixedTimeBuilder(at), gio.FixedUnixTimeBuilder(sec)
		for i := 0; i < 3; i++ {
			if t := f(); !t.Equal(at) {
				c.Violate("C34", "FixedTimeBuilder(%s) tells %s", at, t)
			}
			if t := u(); t.Unix() != sec || t.Nanosecond() != 0 {
				c.Violate("C34", "FixedUnixTimeBuilder(%d) tells %d.%09d", sec, t.Unix(), t.Nanosecond())
			}
		}
		c.Count("clock.builders")
		c.Nontrivial(fmt.Sprintf("clock|%d", sec))
	})
}

func init() {
	checks["C34"] = func(x *Ctx) {
		x.R.Rule = "several endpoints of each kind side by side, from their making through changing settings; each request judged by the settings of its endpoint; nontrivial by (endpoint, settings, defects, clock, broken rules)"
		runConfig(x, x.Scale(6000, 80000))
		for _, k := range []string{"config.own.error", "config.own.response", "config.rp", "config.auth", "clock.default", "clock.builders", "granted", "refused"} {
			x.Require(k, 300)
		}
	}
}
