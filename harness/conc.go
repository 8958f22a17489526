package main

// C23: many requests at once on the same endpoint objects, built with the race detector.

import (
	"fmt"
	"net/http"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/basic_auth"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/grant"
	oer "github.com/lyokato/goidc/oauth_error"
	"github.com/lyokato/goidc/pkce"
	"github.com/lyokato/goidc/scope"
)

// concItem is one of the concurrent requests.
type concItem struct {
	kind  string // token, authorize, resource
	group int    // >0: presents the same code or assertion as others of the group
	tc    *TokCase
	te    *TokExpect
	ac    *AuthCase
	ae    *AuthExpect
	rc    *RPCase
	re    *RPExpect

	rec, rec2        *Rec
	calls            []*Call
	screens          []Screen
	n1               int // calls belonging to the first step
	nscreens1        int
	cancel           bool
	parked           *authorization.Request
	ok               bool
	r                *http.Request
	aloneRec, again  *Rec
	aloneOK, againOK bool
}

func (it *concItem) describe() []string {
	switch it.kind {
	case "token":
		return append(it.tc.describe(), "model: "+it.te.names())
	case "authorize":
		return append(it.ac.describe(), "model: "+it.ae.Want+" "+it.ae.names())
	}
	return append(it.rc.describe(), "model: "+it.re.Why)
}

// ownPeople gives the next request clients and users of its own, so that requests can't depend on each other.
func ownPeople(rng *Rng, w *World, i int, gen func()) {
	clients, users := w.Clients, w.Users
	mine := map[string]*Client{}
	var us []*User
	for k := 0; k < 3; k++ {
		id := int64(1000 + i*10 + k)
		us = append(us, &User{ID: id, Name: fmt.Sprintf("user-%d", id), Password: "pw-" + rng.Str(16), Subject: fmt.Sprintf("subject-%d-%s", id, rng.Str(6))})
	}
	for k := 0; k < 2; k++ {
		c := genClient(rng, w, 100+i)
		c.Owner = us[rng.N(3)].ID
		mine[c.ID] = c
	}
	w.Clients, w.Users = mine, us
	gen()
	w.Clients, w.Users = clients, append(append([]*User{}, users...), us...)
}

type concBatch struct {
	w     *World
	cfg   *TokCfg
	pol   *authorization.Policy
	rp    *RPCase // protector's configuration
	items []*concItem
	mode  string
}

func genBatch(rng *Rng, n int) *concBatch {
	w := GenWorld(rng)
	b := &concBatch{w: w, cfg: genTokCfg(rng), pol: genPolicy(rng)}
	b.cfg.Grants = allGrants
	b.cfg.Assert = true
	b.rp = &RPCase{W: w, Realm: rng.Pick([]string{"example.org", "My Realm"}), Accept: goidc.CredentialAcceptanceMethod(rng.N(3)), URIMode: rng.N(3), URIConst: "https://err.example.org/"}
	group := 0
	for i := 0; len(b.items) < n; i++ {
		it := &concItem{}
		ownPeople(rng, w, i, func() {
			switch k := rng.N(100); {
			case k < 45:
				it.kind = "token"
				cfg := *b.cfg
				it.tc = &TokCase{W: w, Cfg: &cfg, Asserts: map[string]*Assertion{}}
				GenTokReq(rng, it.tc, "", nil)
				it.tc.Cfg = b.cfg
			case k < 80:
				it.kind = "authorize"
				it.ac = GenAuthReq(rng, &AuthCase{W: w, Pol: b.pol}, nil)
				it.cancel = rng.P(25)
			default:
				it.kind = "resource"
				rc := *b.rp
				it.rc = &rc
				GenRPReq(rng, it.rc, rng.Bool(), nil)
			}
		})
		b.items = append(b.items, it)
		if it.kind == "token" && (it.tc.GT == grant.TypeAuthorizationCode || it.tc.GT == grant.TypeJWT || it.tc.Channel == "assertion") && len(it.tc.Muts) == 0 && rng.P(40) {
			group++
			it.group = group
			for k := 1 + rng.N(3); k > 0; k-- {
				tc := *it.tc
				tc.Req = it.tc.Req.Clone()
				b.items = append(b.items, &concItem{kind: "token", tc: &tc, group: group})
			}
		}
	}
	return b
}

func (b *concBatch) expect() {
	for _, it := range b.items {
		switch it.kind {
		case "token":
			it.te = it.tc.Expect(b.w.Snapshot())
		case "authorize":
			it.ae = it.ac.Expect()
		default:
			it.re = it.rc.Expect()
		}
	}
}

func (b *concBatch) funcs() []func() {
	w := b.w
	th := b.cfg.Endpoint(w).Handler(&DI{w})
	aep := goidc.NewAuthorizationEndpoint(&DI{w}, b.pol)
	aep.SetLogger(&Logger{w})
	aep.SetTimeBuilder(w.TimeBuilder())
	rp := b.rp.Protector()
	fs := []func(){}
	for i := range b.items {
		it, i := b.items[i], i
		it.rec = NewRec()
		switch it.kind {
		case "token":
			it.r = it.tc.Req.Build()
			fs = append(fs, func() { guard(it.rec, func() { th(it.rec, it.r) }) })
		case "authorize":
			it.r = it.ac.Req.Build()
			post := (&Req{Method: "POST", Path: "/consent", Body: []KV{{"answer", "x"}}}).Build()
			fs = append(fs, func() {
				guard(it.rec, func() { aep.HandleRequest(it.rec, it.r, it.ac.Cb) })
				w.mu.Lock()
				it.n1 = len(callsTagged(w.Calls, i))
				w.mu.Unlock()
				it.nscreens1 = len(it.ac.Cb.Screens)
				if it.rec.Panic != "" || it.nscreens1 != 1 || it.ac.Cb.Screens[0].Kind != "consent" {
					return
				}
				it.parked = authorization.DecodeRequest(it.ac.Cb.Screens[0].Req.Encode())
				it.ac.Cb.Parked = it.parked
				if i%2 == 0 { // kept as it was given
					it.ac.Cb.Parked = it.ac.Cb.Screens[0].Given
				}
				it.rec2 = NewRec()
				guard(it.rec2, func() {
					if it.cancel {
						aep.CancelRequest(it.rec2, post, it.ac.Cb)
					} else {
						aep.CompleteRequest(it.rec2, post, it.ac.Cb)
					}
				})
			})
		default:
			it.r = it.rc.Req.Build()
			fs = append(fs, func() {
				guard(it.rec, func() {
					if it.rc.Scopes != nil {
						it.ok = rp.ValidateWithScopes(it.rec, it.r, &DI{w}, it.rc.Scopes)
					} else {
						it.ok = rp.Validate(it.rec, it.r, &DI{w})
					}
				})
			})
		}
	}
	return fs
}

// alone serves the request on its own, on a copy of the store as it was.
func (it *concItem) alone(b *concBatch, pre *World) *Rec {
	w := pre.Snapshot()
	switch it.kind {
	case "token":
		t := *it.tc
		t.W = w
		rec, _ := t.Serve(b.cfg.Endpoint(w).Handler(&DI{w}))
		return rec
	case "authorize":
		a := *it.ac
		a.W = w
		cb := *it.ac.Cb
		cb.w, cb.Screens, cb.Parked = w, nil, nil
		a.Cb = &cb
		rec, _, _ := a.Handle(a.Endpoint())
		return rec
	}
	rc := *it.rc
	rc.W = w
	_, rec, _, _ := rc.Serve(rc.Protector())
	return rec
}

func fullText(r *Rec) string {
	if r == nil {
		return ""
	}
	s := fmt.Sprintf("%d %s\n", r.Status, fmt.Sprint(r.Sent))
	return s + r.Body.String()
}

// judge compares the request's outcome with the models.
func (it *concItem) judge(c *Case, w *World, i int, calls []*Call, marks [][]string, won map[int]int, valid map[int]bool) (refused bool) {
	switch it.kind {
	case "token":
		if it.group > 0 {
			if carriesTokens(it.rec) {
				won[it.group]++
			}
			valid[it.group] = len(it.te.Conds) == 0 && !it.te.NotPost
			if it.rec.Panic != "" || it.rec.Statuses != 1 {
				c.Violate("*", "contended request answered with %s", it.rec)
			}
			break
		}
		it.tc.JudgeTok(c, it.te, it.rec, calls)
		refused = len(it.te.Conds) > 0
		if s := it.te.Session; s != nil {
			marks[i] = append(marks[i], s.Nonce)
		}
	case "authorize":
		n := it.n1
		if n > len(calls) {
			n = len(calls)
		}
		ac := it.ac
		out := ac.JudgeHandle(c, it.ae, it.rec, calls[:n], ac.Cb.Screens[:it.nscreens1])
		refused = out == "error"
		marks[i] = append(marks[i], ac.Cb.Code)
		if strings.HasPrefix(it.ae.State, "st-") {
			marks[i] = append(marks[i], it.ae.State)
		}
		if it.rec2 != nil && it.parked != nil {
			if len(ac.Cb.Screens) > it.nscreens1 {
				c.Violate("C23", "completion showed a screen")
			}
			if it.cancel {
				if it.rec2.Panic != "" {
					c.Violate("*", "CancelRequest panicked: %s", it.rec2.Panic)
				} else {
					judgeErrorResp(c, it.rec2, it.parked.RedirectURI, it.parked.State, map[string]bool{it.parked.ResponseMode: true}, map[string]bool{"access_denied": true}, "the request was cancelled", "C23")
				}
			} else {
				cl := w.Clients[it.parked.ClientId]
				ac.JudgeComplete(c, &CompleteExpect{Req: it.parked, UserID: ac.Cb.UserID, Client: cl, Unsigned: it.parked.Flow.RequireIdToken && cl.unsignable()}, it.rec2, calls[n:])
			}
		}
	default:
		it.rc.JudgeRP(c, it.re, it.ok, it.rec, it.r, calls)
		refused = !it.re.Pass
	}
	return
}

// soloBad tells whether the request's outcome deviates from the models even when it is served alone.
func (it *concItem) soloBad(c *Case, b *concBatch, pre *World) bool {
	return c.Probe(func() {
		w := pre.Snapshot()
		solo := *it
		switch it.kind {
		case "token":
			t := *it.tc
			t.W = w
			solo.tc = &t
		case "authorize":
			a := *it.ac
			a.W = w
			cb := *it.ac.Cb
			cb.w, cb.Screens, cb.Parked = w, nil, nil
			a.Cb = &cb
			solo.ac = &a
		default:
			rc := *it.rc
			rc.W = w
			solo.rc = &rc
		}
		sb := &concBatch{w: w, cfg: b.cfg, pol: b.pol, rp: b.rp, items: []*concItem{&solo}}
		solo.rec2, solo.parked, solo.nscreens1, solo.n1 = nil, nil, 0, 0
		sb.expect()
		setJWTClock(w)
		Free(w, sb.funcs(), nil)
		solo.judge(c, w, 0, callsTagged(w.Calls, 0), [][]string{nil}, map[int]int{}, map[int]bool{})
	})
}

func (b *concBatch) judge(c *Case, pre *World) {
	w := b.w
	c.Any = true
	won := map[int]int{}
	valid := map[int]bool{}
	marks := make([][]string, len(b.items))
	for i, it := range b.items {
		it := it
		calls := callsTagged(w.Calls, i)
		it.calls = calls
		c.DescFn = func() []string {
			d := append([]string{fmt.Sprintf("batch of %d requests, %s", len(b.items), b.mode)}, pre.describe()...)
			d = append(d, it.describe()...)
			d = append(d, "response "+it.rec.String())
			if it.rec2 != nil {
				d = append(d, "second response "+it.rec2.String())
			}
			for _, k := range calls {
				d = append(d, "call "+k.String())
			}
			return d
		}
		for _, k := range calls {
			if t, ok := k.Obj.(*Token); ok {
				marks[i] = append(marks[i], t.Access, t.Refresh)
			}
		}
		nv, cnt := len(c.R.Violations), c.R.Counters["violations"]
		refused := it.judge(c, w, i, calls, marks, won, valid)
		if c.bad && it.group == 0 && it.soloBad(c, b, pre) { // not for want of company
			c.R.Violations, c.bad = c.R.Violations[:nv], false
			c.R.Counters["violations"] = cnt
			c.Count("other.alone")
			setJWTClock(w)
			continue
		}
		if refused && !c.bad {
			x, y := it.alone(b, pre), it.alone(b, pre)
			if unordered(x) == unordered(y) {
				c.Count("compared.alone")
				if unordered(it.rec) != unordered(x) {
					c.Violate("C23", "among others the request got %s, alone %s", it.rec, x)
				}
			}
		}
		c.Count("conc." + it.kind)
		if c.bad {
			return
		}
	}
	for g, n := range won {
		if n > 1 {
			c.Violate("C23", "%d of several concurrent presentations of one code or assertion got tokens (group %d)", n, g)
		}
	}
	for g, v := range valid {
		if v && won[g] == 0 {
			c.Violate("C23", "none of several valid concurrent presentations got tokens (group %d)", g)
		}
		c.Count("conc.contended")
	}
	for i, ms := range marks {
		for _, m := range ms {
			if len(m) < 8 {
				continue
			}
			for j, it := range b.items {
				if i != j && (it.group == 0 || it.group != b.items[i].group) && (strings.Contains(fullText(it.rec), m) || strings.Contains(fullText(it.rec2), m)) {
					c.DescFn = it.describe
					c.Violate("C23", "%q of request %d shows in the response to request %d: %s", m, i, j, it.rec)
				}
			}
		}
	}
	c.Any = false
}

func runConc(x *Ctx, gen string, n int) {
	x.Run(gen, n, func(c *Case) {
		k := []int{4, 12, 32}[c.Rng.N(3)]
		b := genBatch(c.Rng, k)
		b.expect()
		pre := b.w.Snapshot()
		setJWTClock(b.w)
		fs := b.funcs()
		switch c.Rng.N(3) {
		case 0:
			b.mode = "scheduled"
			s := Interleave(b.w, fs, func(p []int) int { return p[c.Rng.N(len(p))] })
			c.CountN("sched.blocked", s.Blocked)
			c.Nontrivial(traceSig(s.Trace))
		case 1:
			b.mode = "free"
			Free(b.w, fs, nil)
			c.Nontrivial("free" + orderSig(b.w))
		default:
			b.mode = "free with delays"
			var ctr uint64
			seed := c.Rng.U64()
			Free(b.w, fs, func() {
				switch v := NewRng(seed, atomic.AddUint64(&ctr, 1)).N(20); {
				case v < 8:
					runtime.Gosched()
				case v == 8:
					time.Sleep(time.Duration(20) * time.Microsecond)
				}
			})
			c.Nontrivial("delays" + orderSig(b.w))
		}
		c.Count("batches." + strings.ReplaceAll(b.mode, " ", "-"))
		b.judge(c, pre)
	})
}

// orderSig is the order in which the requests' calls took effect.
func orderSig(w *World) string {
	var s strings.Builder
	for _, k := range w.Calls {
		s.WriteString(k.Req)
		s.WriteByte(' ')
	}
	return s.String()
}

// ---------------------------------------------------------------- without any synchronisation of the harness

// quietDI answers from a store that nobody changes and takes no locks, so that the race detector sees no order
// between requests that the code under test did not make itself.
type quietDI struct{ w *World }

type quietClient struct{ clientView }

func (v *quietClient) MatchSecret(s string) bool { return s == v.c.Secret }

var _ bridge.DataInterface = (*quietDI)(nil)

func (d *quietDI) Issuer() string { return d.w.Issuer }
func (d *quietDI) FindClientById(id string) (bridge.Client, *bridge.Error) {
	if c, ok := d.w.Clients[id]; ok && !c.Disabled {
		cp := *c
		return &quietClient{clientView{d.w, &cp}}, nil
	}
	return nil, failed()
}
func (d *quietDI) FindAuthSessionByCode(code string) (bridge.AuthSession, *bridge.Error) {
	if s, ok := d.w.Sessions[code]; ok && s.Enabled {
		return &sessView{*s}, nil
	}
	return nil, failed()
}
func (d *quietDI) FindActiveAuthInfoById(id int64) (bridge.AuthInfo, *bridge.Error) {
	if i, ok := d.w.Infos[id]; ok && i.Active {
		return &infoView{*i}, nil
	}
	return nil, failed()
}
func (d *quietDI) FindAuthInfoByUserIdAndClientId(uid int64, cid string) (bridge.AuthInfo, *bridge.Error) {
	if i := d.w.findInfo(uid, cid); i != nil {
		return &infoView{*i}, nil
	}
	return nil, failed()
}
func (d *quietDI) FindOAuthTokenByAccessToken(t string) (bridge.OAuthToken, *bridge.Error) {
	for _, x := range d.w.Tokens {
		if x.Live && x.Access == t {
			return &tokView{*x}, nil
		}
	}
	return nil, failed()
}
func (d *quietDI) FindOAuthTokenByRefreshToken(t string) (bridge.OAuthToken, *bridge.Error) {
	for _, x := range d.w.Tokens {
		if x.Live && x.Refresh != "" && x.Refresh == t {
			return &tokView{*x}, nil
		}
	}
	return nil, failed()
}
func (d *quietDI) CreateOAuthToken(i bridge.AuthInfo, on bool) (bridge.OAuthToken, *bridge.Error) {
	t := Token{AuthID: i.GetId(), Access: fmt.Sprintf("at-quiet-%d-%v", i.GetId(), on), AccessExpiresIn: d.w.AccessTTL, CreatedAt: d.w.Now, RefreshedAt: d.w.Now}
	if on {
		t.Refresh, t.RefreshExpiresIn = fmt.Sprintf("rt-quiet-%d", i.GetId()), d.w.RefreshTTL
	}
	return &tokView{t}, nil
}
func (d *quietDI) RefreshAccessToken(i bridge.AuthInfo, t bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	return &tokView{Token{AuthID: i.GetId(), Access: fmt.Sprintf("at-refreshed-%d", i.GetId()), AccessExpiresIn: d.w.AccessTTL, Refresh: t.GetRefreshToken(), RefreshExpiresIn: t.GetRefreshTokenExpiresIn(),
		CreatedAt: t.GetCreatedAt(), RefreshedAt: d.w.Now}}, nil
}
func (d *quietDI) FindUserId(name, pass string) (int64, *bridge.Error) {
	for _, u := range d.w.Users {
		if u.Name == name && u.Password == pass {
			return u.ID, nil
		}
	}
	return -1, failed()
}
func (d *quietDI) CreateOrUpdateAuthInfo(uid int64, cid, sc string) (bridge.AuthInfo, *bridge.Error) {
	return &infoView{Info{ID: 7000000 + uid, ClientID: cid, UserID: uid, Subject: fmt.Sprintf("sub-%d", uid), Scope: sc, AuthorizedAt: d.w.Now, Active: true}}, nil
}
func (d *quietDI) CreateAuthSession(i bridge.AuthInfo, s *authorization.Session) *bridge.Error {
	return nil
}
func (d *quietDI) DisableSession(s bridge.AuthSession) *bridge.Error { return nil }
func (d *quietDI) FindUserIdBySubject(sub string) (int64, *bridge.Error) {
	for _, u := range d.w.Users {
		if u.Subject == sub {
			return u.ID, nil
		}
	}
	return -1, failed()
}
func (d *quietDI) RecordAssertionClaims(cid, jti string, iat, exp int64) *bridge.Error { return nil }

type quietLogger struct{}

func (quietLogger) Debug(a ...interface{})            {}
func (quietLogger) Info(a ...interface{})             {}
func (quietLogger) Warn(a ...interface{})             {}
func (quietLogger) Error(a ...interface{})            {}
func (quietLogger) Fatal(a ...interface{})            {}
func (quietLogger) Debugf(f string, a ...interface{}) {}
func (quietLogger) Infof(f string, a ...interface{})  {}
func (quietLogger) Warnf(f string, a ...interface{})  {}
func (quietLogger) Errorf(f string, a ...interface{}) {}
func (quietLogger) Fatalf(f string, a ...interface{}) {}

var jwtSig = regexp.MustCompile(`(eyJ[A-Za-z0-9_-]+\.eyJ[A-Za-z0-9_-]+)\.[A-Za-z0-9_-]*`)

var inputTag = regexp.MustCompile(`<input [^>]*>`)

// unordered is the text of a response but for the order of parameters, which means nothing.
func unordered(r *Rec) string {
	s := fullText(r)
	tags := inputTag.FindAllString(s, -1)
	s = inputTag.ReplaceAllString(s, "<>")
	if r != nil && r.Sent != nil {
		if loc := r.Sent.Get("Location"); loc != "" {
			parts := strings.FieldsFunc(loc, func(c rune) bool { return c == '?' || c == '#' || c == '&' })
			tags = append(tags, parts...)
			s = strings.ReplaceAll(s, loc, "<>")
		}
	}
	sort.Strings(tags)
	return s + "\n" + strings.Join(tags, "\n")
}

// outcomeOf is all that a requester, and the application behind a protector, gets to see.
func outcomeOf(it *concItem, rec *Rec, r *http.Request, ok bool, screens []Screen) string {
	s := "panic " + rec.Panic + "\n" + unordered(rec)
	switch it.kind {
	case "authorize":
		for _, x := range screens {
			s += fmt.Sprintf("\nscreen %s %d %s", x.Kind, x.Err, x.Client)
			if x.Req != nil {
				s += x.Req.Encode()
			}
		}
	case "resource":
		s += fmt.Sprintf("\n%v %v", ok, r.Header)
	}
	// signatures of ECDSA and PSS are randomised
	return jwtSig.ReplaceAllString(s, "$1")
}

func runQuiet(x *Ctx, gen string, n int) {
	x.Run(gen, n, func(c *Case) {
		b := genBatch(c.Rng, []int{8, 16, 32}[c.Rng.N(3)])
		w := b.w
		now := time.Unix(w.Now, w.NowNs)
		clock := func() time.Time { return now }
		jwt.TimeFunc = clock
		di := &quietDI{w}
		shared := func() (http.HandlerFunc, *goidc.AuthorizationEndpoint, *goidc.ResourceProtector) {
			te := goidc.NewTokenEndpoint(b.cfg.Realm)
			te.SetLogger(quietLogger{})
			te.SetTimeBuilder(clock)
			te.AcceptClientSecret(b.cfg.Secret)
			te.AcceptClientAssertion(b.cfg.Assert)
			switch b.cfg.URIMode {
			case 1:
				te.SetErrorURI(b.cfg.URIConst)
			case 2:
				te.SetErrorURIBuilder(uriOfType)
			}
			for _, g := range b.cfg.Grants {
				te.Support(handlerOf(g))
			}
			ae := goidc.NewAuthorizationEndpoint(di, b.pol)
			ae.SetLogger(quietLogger{})
			ae.SetTimeBuilder(clock)
			rp := b.rp.Protector()
			rp.SetLogger(quietLogger{})
			rp.SetTimeBuilder(clock)
			return te.Handler(di), ae, rp
		}
		serve := func(it *concItem, th http.HandlerFunc, ae *goidc.AuthorizationEndpoint, rp *goidc.ResourceProtector) string {
			rec := NewRec()
			ok := false
			var screens []Screen
			var r *http.Request
			switch it.kind {
			case "token":
				r = it.tc.Req.Build()
				guard(rec, func() { th(rec, r) })
			case "authorize":
				r = it.ac.Req.Build()
				cb := *it.ac.Cb
				cb.w = &World{counts: map[string]int{}, NoLog: true} // its own call log
				cb.Screens = nil
				guard(rec, func() { ae.HandleRequest(rec, r, &cb) })
				screens = cb.Screens
				if len(screens) == 1 && screens[0].Kind == "consent" && rec.Panic == "" {
					cb.Parked = screens[0].Given
					rec2 := NewRec()
					r2 := (&Req{Method: "POST", Path: "/consent", Body: []KV{{"answer", "x"}}}).Build()
					guard(rec2, func() {
						if it.cancel {
							ae.CancelRequest(rec2, r2, &cb)
						} else {
							ae.CompleteRequest(rec2, r2, &cb)
						}
					})
					return outcomeOf(it, rec, r, ok, screens) + "\nthen " + outcomeOf(it, rec2, r, ok, nil)
				}
			default:
				r = it.rc.Req.Build()
				guard(rec, func() {
					if it.rc.Scopes != nil {
						ok = rp.ValidateWithScopes(rec, r, di, it.rc.Scopes)
					} else {
						ok = rp.Validate(rec, r, di)
					}
				})
			}
			return outcomeOf(it, rec, r, ok, screens)
		}
		const rounds = 4
		alone := make([]string, len(b.items))
		stable := make([]bool, len(b.items))
		for i, it := range b.items {
			th, ae, rp := shared()
			alone[i] = serve(it, th, ae, rp)
			th, ae, rp = shared()
			stable[i] = serve(it, th, ae, rp) == alone[i]
		}
		th, ae, rp := shared()
		got := make([][rounds]string, len(b.items))
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := range b.items {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for k := 0; k < rounds; k++ {
					got[i][k] = serve(b.items[i], th, ae, rp)
				}
			}(i)
		}
		close(start)
		wg.Wait()
		for i, it := range b.items {
			if !stable[i] {
				c.Count("quiet.unstable")
				continue
			}
			c.Count("quiet.compared")
			for k := range got[i] {
				if got[i][k] != alone[i] {
					c.DescFn = func() []string { return append(w.describe(), it.kind+" "+strings.Join(itDescribe(it), " | ")) }
					c.Violate("C23", "among others the %s request had the outcome %q, alone %q", it.kind, got[i][k], alone[i])
				}
			}
		}
	})
}

func itDescribe(it *concItem) []string {
	switch it.kind {
	case "token":
		return it.tc.describe()
	case "authorize":
		return it.ac.describe()
	}
	return it.rc.describe()
}

func runHelpers(x *Ctx, gen string, n int) {
	x.Run(gen, n, func(c *Case) {
		var wg sync.WaitGroup
		start := make(chan bool)
		type bad struct{ what string }
		bads := make(chan bad, 1000)
		vs := make([][]string, 8)
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int, rng *Rng) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						bads <- bad{fmt.Sprint("panic: ", e)}
					}
				}()
				<-start
				for k := 0; k < 20; k++ {
					v := pkce.GenRandomCodeVerifier()
					vs[g] = append(vs[g], v)
					id, sec := "c-"+rng.Str(6), "s-"+rng.Str(9)
					if gi, gs, ok := parseBasic(basic_auth.Header(id, sec)); !ok || gi != id || gs != sec {
						bads <- bad{fmt.Sprintf("Basic header of %q, %q reads %q, %q", id, sec, gi, gs)}
					}
					ver := rng.Str(43)
					if vf, err := pkce.FindVerifierByMethod("S256"); err != nil || !vf.Verify(s256(ver), ver) || vf.Verify(ver, ver) {
						bads <- bad{"S256 verifier refuses"}
					}
					a, b := "a-"+rng.Str(3), "b-"+rng.Str(3)
					if ok, _ := scope.IncludeAll(a+" "+b, []string{b}); !ok || scope.Same(a, b) && a != b || !scope.Same(a+" "+b, b+" "+a) {
						bads <- bad{"scope comparison"}
					}
					desc, uri := "d-"+rng.Str(6), "https://x/"+rng.Str(6)
					oe := oer.NewOAuthDetailedError(oer.ErrInvalidRequest, desc, uri)
					if !strings.Contains(string(oe.JSON()), desc) || !strings.Contains(string(oe.JSON()), uri) || !strings.Contains(oe.Header("r"), desc) {
						bads <- bad{"error of another: " + string(oe.JSON())}
					}
					state := "st-" + rng.Str(8)
					for _, m := range allModes {
						rec := NewRec()
						authorization.ResponseHandlerForMode(m, rec, (&Req{Method: "GET", Path: "/"}).Build()).Success("https://c.example/cb", map[string]string{"state": state})
						if !strings.Contains(fullText(rec), state) {
							bads <- bad{"response without its state: " + rec.String()}
						}
					}
					ar := &authorization.Request{State: state, ClientId: id}
					if d := authorization.DecodeRequest(ar.Encode()); d == nil || d.State != state || d.ClientId != id {
						bads <- bad{"parked request of another"}
					}
				}
			}(g, NewRng(c.Rng.U64(), g))
		}
		close(start)
		wg.Wait()
		close(bads)
		for b := range bads {
			c.Violate("C23", "%s", b.what)
		}
		seen := map[string]bool{}
		for _, l := range vs {
			for _, v := range l {
				if seen[v] {
					c.Violate("C23 C27", "verifier %q generated twice", v)
				}
				seen[v] = true
			}
		}
		c.Count("helpers")
	})
}

func init() {
	checks["C23"] = func(x *Ctx) {
		x.R.Rule = "batches of 4-40 concurrent token, authorization and resource requests on shared endpoint objects, under controlled schedules and free-running, built with the race detector; nontrivial by the order in which calls took effect"
		runConc(x, "batch", x.Scale(1200, 20000))
		runQuiet(x, "quiet", x.Scale(600, 8000))
		x.Require("quiet.compared", 4000)
		runHelpers(x, "helpers", x.Scale(80, 1000))
		x.Require("conc.token", 3000)
		x.Require("conc.authorize", 2000)
		x.Require("conc.resource", 1000)
		x.Require("conc.contended", 100)
		x.Require("compared.alone", 1500)
		x.Require("helpers", 50)
	}
}
