package main

// A small integrator for demonstrations: store, clients, callbacks, and helpers to send requests.

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/grant"
	"github.com/lyokato/goidc/prompt"
)

type Client struct {
	Id, Secret   string
	Owner        int64
	Alg, Kid     string
	Key          interface{}
	Redirects    []string
	Flows        map[flow.FlowType]bool
	Grants       map[string]bool
	Scopes       map[flow.FlowType]string // allowed words; "*" for all
	AssertionKey map[string]interface{}   // by alg + "/" + kid
	NoConsent    prompt.NoConsentPromptPolicy
	None         prompt.NonePromptPolicy
}

func (c *Client) GetId() string                   { return c.Id }
func (c *Client) GetOwnerUserId() int64           { return c.Owner }
func (c *Client) GetIdTokenAlg() string           { return c.Alg }
func (c *Client) GetIdTokenKeyId() string         { return c.Kid }
func (c *Client) GetIdTokenKey() interface{}      { return c.Key }
func (c *Client) MatchSecret(s string) bool       { return s == c.Secret }
func (c *Client) CanUseFlow(t flow.FlowType) bool { return c.Flows == nil || c.Flows[t] }
func (c *Client) CanUseGrantType(gt string) bool  { return c.Grants == nil || c.Grants[gt] }
func (c *Client) CanUseScope(t flow.FlowType, s string) bool {
	if c.Scopes == nil {
		return true
	}
	allowed := " " + c.Scopes[t] + " "
	for _, w := range strings.Split(s, " ") {
		if allowed != " * " && !strings.Contains(allowed, " "+w+" ") {
			return false
		}
	}
	return true
}
func (c *Client) CanUseRedirectURI(u string) bool {
	for _, r := range c.Redirects {
		if r == u {
			return true
		}
	}
	return false
}
func (c *Client) GetAssertionKey(alg, kid string) interface{} {
	if k, ok := c.AssertionKey[alg+"/"+kid]; ok {
		return k
	}
	return nil
}
func (c *Client) GetNoConsentPromptPolicy() prompt.NoConsentPromptPolicy { return c.NoConsent }
func (c *Client) GetNonePromptPolicy() prompt.NonePromptPolicy           { return c.None }

type Info struct {
	Id, User, At     int64
	Client, Sub, Scp string
	Active           bool
}

func (i *Info) GetId() int64           { return i.Id }
func (i *Info) GetClientId() string    { return i.Client }
func (i *Info) GetUserId() int64       { return i.User }
func (i *Info) GetSubject() string     { return i.Sub }
func (i *Info) GetScope() string       { return i.Scp }
func (i *Info) GetAuthorizedAt() int64 { return i.At }
func (i *Info) IsActive() bool         { return i.Active }

type Session struct {
	authorization.Session
	Auth, Created, IdExp int64
	Disabled             bool
}

func (s *Session) GetCode() string            { return s.Code }
func (s *Session) GetAuthId() int64           { return s.Auth }
func (s *Session) GetAuthTime() int64         { return s.AuthTime }
func (s *Session) GetIdTokenExpiresIn() int64 { return s.IdExp }
func (s *Session) GetRedirectURI() string     { return s.RedirectURI }
func (s *Session) GetCodeVerifier() string    { return s.CodeVerifier }
func (s *Session) GetExpiresIn() int64        { return s.ExpiresIn }
func (s *Session) GetNonce() string           { return s.Nonce }
func (s *Session) GetCreatedAt() int64        { return s.Created }

type Token struct {
	Auth                         int64
	Access, Refresh              string
	Life, RLife, Refreshed, Made int64
}

func (t *Token) GetAuthId() int64                { return t.Auth }
func (t *Token) GetAccessToken() string          { return t.Access }
func (t *Token) GetAccessTokenExpiresIn() int64  { return t.Life }
func (t *Token) GetRefreshedAt() int64           { return t.Refreshed }
func (t *Token) GetRefreshToken() string         { return t.Refresh }
func (t *Token) GetRefreshTokenExpiresIn() int64 { return t.RLife }
func (t *Token) GetCreatedAt() int64             { return t.Made }

type User struct{ Name, Pass, Sub string }

// World is the store. Hook, when set, is called before every method and may make it fail.
type World struct {
	mu       sync.Mutex
	Now      int64
	Clients  map[string]*Client
	Users    map[int64]*User
	Infos    []*Info
	Sessions []*Session
	Tokens   []*Token
	Claims   map[string]bool
	Recorded []string
	Calls    []string
	Logs     []string
	n        int
	Life     int64
	RLife    int64
	Hook     func(method string) *bridge.Error
	Nil      string // a method that answers (nil, nil)
}

const Start = 1500000000

func NewWorld() *World {
	w := &World{Now: Start, Clients: map[string]*Client{}, Users: map[int64]*User{}, Claims: map[string]bool{}, Life: 3600, RLife: 86400}
	for _, id := range []string{"c1", "c2"} {
		w.Clients[id] = &Client{Id: id, Secret: "secret-" + id, Owner: 7, Alg: "HS256", Kid: "kid-" + id, Key: []byte("idkey-" + id),
			Redirects:    []string{"https://" + id + ".example/cb"},
			AssertionKey: map[string]interface{}{"HS256/k1": []byte("assertion-" + id)},
		}
	}
	w.Users[1] = &User{"alice", "alice-pass", "sub-alice"}
	w.Users[2] = &User{"bob", "bob-pass", "sub-bob"}
	w.Users[7] = &User{"owner", "owner-pass", "sub-owner"}
	jwt.TimeFunc = func() time.Time { return time.Unix(w.Now, 0) }
	return w
}

func (w *World) time() time.Time { return time.Unix(w.Now, 0) }

func (w *World) in(m string) *bridge.Error {
	w.mu.Lock()
	w.Calls = append(w.Calls, m)
	h := w.Hook
	w.mu.Unlock()
	if h != nil {
		return h(m)
	}
	return nil
}

var failed = bridge.NewError(bridge.ErrFailed)

func (w *World) Issuer() string { return "https://issuer.example" }
func (w *World) FindClientById(id string) (bridge.Client, *bridge.Error) {
	if e := w.in("FindClientById"); e != nil {
		return nil, e
	}
	if c, ok := w.Clients[id]; ok {
		return c, nil
	}
	return nil, failed
}
func (w *World) FindAuthSessionByCode(code string) (bridge.AuthSession, *bridge.Error) {
	if e := w.in("FindAuthSessionByCode"); e != nil {
		return nil, e
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, s := range w.Sessions {
		if s.Code == code && !s.Disabled {
			return s, nil
		}
	}
	return nil, failed
}
func (w *World) FindActiveAuthInfoById(id int64) (bridge.AuthInfo, *bridge.Error) {
	if e := w.in("FindActiveAuthInfoById"); e != nil {
		return nil, e
	}
	if w.Nil == "FindActiveAuthInfoById" {
		return nil, nil
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, i := range w.Infos {
		if i.Id == id && i.Active {
			return i, nil
		}
	}
	return nil, failed
}
func (w *World) FindAuthInfoByUserIdAndClientId(uid int64, cid string) (bridge.AuthInfo, *bridge.Error) {
	if e := w.in("FindAuthInfoByUserIdAndClientId"); e != nil {
		return nil, e
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, i := range w.Infos {
		if i.User == uid && i.Client == cid {
			return i, nil
		}
	}
	return nil, failed
}
func (w *World) FindOAuthTokenByAccessToken(t string) (bridge.OAuthToken, *bridge.Error) {
	if e := w.in("FindOAuthTokenByAccessToken"); e != nil {
		return nil, e
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, k := range w.Tokens {
		if k.Access == t {
			return k, nil
		}
	}
	return nil, failed
}
func (w *World) FindOAuthTokenByRefreshToken(t string) (bridge.OAuthToken, *bridge.Error) {
	if e := w.in("FindOAuthTokenByRefreshToken"); e != nil {
		return nil, e
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, k := range w.Tokens {
		if k.Refresh == t {
			return k, nil
		}
	}
	return nil, failed
}
func (w *World) id(p string) string { w.n++; return fmt.Sprintf("%s-%d-%06x", p, w.n, w.n*7919) }
func (w *World) CreateOAuthToken(info bridge.AuthInfo, onTokenEndpoint bool) (bridge.OAuthToken, *bridge.Error) {
	if e := w.in("CreateOAuthToken"); e != nil {
		return nil, e
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	t := &Token{Auth: info.GetId(), Access: w.id("access"), Life: w.Life, RLife: w.RLife, Refreshed: w.Now, Made: w.Now}
	if onTokenEndpoint && strings.Contains(" "+info.GetScope()+" ", " offline_access ") {
		t.Refresh = w.id("refresh")
	}
	w.Tokens = append(w.Tokens, t)
	return t, nil
}
func (w *World) RefreshAccessToken(info bridge.AuthInfo, old bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	if e := w.in("RefreshAccessToken"); e != nil {
		return nil, e
	}
	if w.Nil == "RefreshAccessToken" {
		return nil, nil
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	t := old.(*Token)
	t.Access, t.Refreshed = w.id("access"), w.Now
	return t, nil
}
func (w *World) FindUserId(name, pass string) (int64, *bridge.Error) {
	if e := w.in("FindUserId"); e != nil {
		return -1, e
	}
	for id, u := range w.Users {
		if u.Name == name && u.Pass == pass {
			return id, nil
		}
	}
	return -1, failed
}
func (w *World) CreateOrUpdateAuthInfo(uid int64, cid, scope string) (bridge.AuthInfo, *bridge.Error) {
	if e := w.in("CreateOrUpdateAuthInfo"); e != nil {
		return nil, e
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, i := range w.Infos {
		if i.User == uid && i.Client == cid {
			i.Scp, i.At, i.Active = scope, w.Now, true
			return i, nil
		}
	}
	return w.addInfo(uid, cid, scope), nil
}
func (w *World) addInfo(uid int64, cid, scope string) *Info {
	sub := fmt.Sprint("sub-", uid)
	if u := w.Users[uid]; u != nil {
		sub = u.Sub
	}
	i := &Info{Id: int64(len(w.Infos) + 100), User: uid, Client: cid, Scp: scope, Sub: sub, At: w.Now, Active: true}
	w.Infos = append(w.Infos, i)
	return i
}
func (w *World) CreateAuthSession(info bridge.AuthInfo, s *authorization.Session) *bridge.Error {
	if e := w.in("CreateAuthSession"); e != nil {
		return e
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.Sessions = append(w.Sessions, &Session{Session: *s, Auth: info.GetId(), Created: w.Now, IdExp: 600})
	return nil
}
func (w *World) DisableSession(s bridge.AuthSession) *bridge.Error {
	if e := w.in("DisableSession"); e != nil {
		return e
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	x := s.(*Session)
	if x.Disabled {
		return failed
	}
	x.Disabled = true
	return nil
}
func (w *World) FindUserIdBySubject(sub string) (int64, *bridge.Error) {
	if e := w.in("FindUserIdBySubject"); e != nil {
		return -1, e
	}
	for id, u := range w.Users {
		if u.Sub == sub {
			return id, nil
		}
	}
	return -1, failed
}
func (w *World) RecordAssertionClaims(cid, jti string, iat, exp int64) *bridge.Error {
	if e := w.in("RecordAssertionClaims"); e != nil {
		return e
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	k := fmt.Sprint(cid, "|", jti, "|", iat, "|", exp)
	w.Recorded = append(w.Recorded, k)
	if w.Claims[k] {
		return failed
	}
	w.Claims[k] = true
	return nil
}

// logger keeps everything.
type logger struct{ w *World }

func (l logger) put(level string, a ...interface{}) {
	l.w.mu.Lock()
	defer l.w.mu.Unlock()
	l.w.Logs = append(l.w.Logs, level+" "+fmt.Sprint(a...))
}
func (l logger) Debug(a ...interface{})            { l.put("DEBUG", a...) }
func (l logger) Info(a ...interface{})             { l.put("INFO", a...) }
func (l logger) Warn(a ...interface{})             { l.put("WARN", a...) }
func (l logger) Error(a ...interface{})            { l.put("ERROR", a...) }
func (l logger) Fatal(a ...interface{})            { l.put("FATAL", a...) }
func (l logger) Debugf(f string, a ...interface{}) { l.put("DEBUG", fmt.Sprintf(f, a...)) }
func (l logger) Infof(f string, a ...interface{})  { l.put("INFO", fmt.Sprintf(f, a...)) }
func (l logger) Warnf(f string, a ...interface{})  { l.put("WARN", fmt.Sprintf(f, a...)) }
func (l logger) Errorf(f string, a ...interface{}) { l.put("ERROR", fmt.Sprintf(f, a...)) }
func (l logger) Fatalf(f string, a ...interface{}) { l.put("FATAL", fmt.Sprintf(f, a...)) }

// Callbacks of one browser.
type Callbacks struct {
	w        *World
	LoggedIn bool
	From     bool // the request comes from the login screen
	User     int64
	AuthTime int64
	Locale   string
	Parked   *authorization.Request
	Screens  []string
	Shown    *authorization.Request
	Errs     []int
	Fail     string // a callback that fails
}

func (w *World) Browser(uid int64) *Callbacks {
	return &Callbacks{w: w, LoggedIn: uid > 0, User: uid, AuthTime: w.Now, Locale: "en"}
}
func (c *Callbacks) err(m string) error {
	c.w.in(m)
	if c.Fail == m {
		return fmt.Errorf("%s is down", m)
	}
	return nil
}
func (c *Callbacks) ShowErrorScreen(t int) {
	c.Screens = append(c.Screens, "error")
	c.Errs = append(c.Errs, t)
}
func (c *Callbacks) ShowLoginScreen(r *authorization.Request) error {
	c.Screens, c.Shown = append(c.Screens, "login"), r
	return c.err("ShowLoginScreen")
}
func (c *Callbacks) ShowConsentScreen(_ bridge.Client, r *authorization.Request) error {
	c.Screens, c.Shown, c.Parked = append(c.Screens, "consent"), r, r
	return c.err("ShowConsentScreen")
}
func (c *Callbacks) ChooseLocale(string) (string, error) { return c.Locale, c.err("ChooseLocale") }
func (c *Callbacks) ConfirmLoginSession() (bool, error) {
	return c.LoggedIn, c.err("ConfirmLoginSession")
}
func (c *Callbacks) RequestIsFromLogin() (bool, error) { return c.From, c.err("RequestIsFromLogin") }
func (c *Callbacks) GetAuthTime() (int64, error)       { return c.AuthTime, c.err("GetAuthTime") }
func (c *Callbacks) GetLoginUserId() (int64, error)    { return c.User, c.err("GetLoginUserId") }
func (c *Callbacks) CreateAuthorizationCode() (string, error) {
	err := c.err("CreateAuthorizationCode")
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	return c.w.id("code"), err
}
func (c *Callbacks) Continue() (*authorization.Request, error) { return c.Parked, c.err("Continue") }
func (c *Callbacks) LoginUserIsMatchedToSubject(s string) (bool, error) {
	return c.w.Users[c.User].Sub == s, c.err("LoginUserIsMatchedToSubject")
}
func (c *Callbacks) saw(s string) bool {
	for _, x := range c.Screens {
		if x == s {
			return true
		}
	}
	return false
}

func (w *World) TokenEndpoint() *goidc.TokenEndpoint {
	te := goidc.NewTokenEndpoint("realm.example")
	for _, h := range []*grant.GrantHandler{grant.AuthorizationCode(), grant.Password(), grant.ClientCredentials(), grant.JWT(), grant.RefreshToken()} {
		te.Support(h)
	}
	te.SetTimeBuilder(w.time)
	te.SetLogger(logger{w})
	te.AcceptClientAssertion(true)
	return te
}

func (w *World) AuthEndpoint(p *authorization.Policy) *goidc.AuthorizationEndpoint {
	if p == nil {
		p = authorization.DefaultPolicy()
	}
	ep := goidc.NewAuthorizationEndpoint(w, p)
	ep.SetTimeBuilder(w.time)
	ep.SetLogger(logger{w})
	return ep
}

func (w *World) Protector() *goidc.ResourceProtector {
	rp := goidc.NewResourceProtector("realm.example")
	rp.SetTimeBuilder(w.time)
	rp.SetLogger(logger{w})
	return rp
}

// Resp is an answer.
type Resp struct {
	Code   int
	Header http.Header
	Body   string
	J      map[string]interface{}
	Panic  string
}

func (r *Resp) s(k string) string { v, _ := r.J[k].(string); return v }
func (r *Resp) tokens() bool      { return r.s("access_token") != "" }

func (r *Resp) String() string { return fmt.Sprintf("%d %v %s %s", r.Code, r.Header, r.Body, r.Panic) }

func serve(f func(w http.ResponseWriter)) (out *Resp) {
	rec := httptest.NewRecorder()
	out = &Resp{}
	func() {
		defer func() {
			if p := recover(); p != nil {
				out.Panic = fmt.Sprint("panic: ", p)
			}
		}()
		f(rec)
	}()
	out.Code, out.Header, out.Body = rec.Code, rec.Header(), rec.Body.String()
	json.Unmarshal(rec.Body.Bytes(), &out.J)
	return out
}

// form takes "k=v" strings, values unencoded.
func form(kv ...string) url.Values {
	v := url.Values{}
	for _, s := range kv {
		i := strings.Index(s, "=")
		v.Add(s[:i], s[i+1:])
	}
	return v
}

func request(method, target string, body url.Values, hdr ...string) *http.Request {
	r := httptest.NewRequest(method, target, bytes.NewReader([]byte(body.Encode())))
	if body != nil {
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	for _, h := range hdr {
		i := strings.Index(h, ": ")
		r.Header.Set(h[:i], h[i+2:])
	}
	return r
}

func basic(id, sec string) string {
	return "Authorization: Basic " + base64.StdEncoding.EncodeToString([]byte(id+":"+sec))
}

// Post sends a token request authenticated as client cid ("" for none).
func (w *World) Post(te *goidc.TokenEndpoint, cid string, kv ...string) *Resp {
	var h []string
	if cid != "" {
		h = append(h, basic(cid, w.Clients[cid].Secret))
	}
	return w.PostRaw(te, "/token", form(kv...), h...)
}
func (w *World) PostRaw(te *goidc.TokenEndpoint, target string, body url.Values, h ...string) *Resp {
	r := request("POST", target, body, h...)
	return serve(func(rw http.ResponseWriter) { te.Handler(w)(rw, r) })
}

// Authorize sends an authorization request.
func (w *World) Authorize(ep *goidc.AuthorizationEndpoint, cb *Callbacks, kv ...string) *Resp {
	r := request("GET", "/authorize?"+form(kv...).Encode(), nil)
	return serve(func(rw http.ResponseWriter) { ep.HandleRequest(rw, r, cb) })
}
func (w *World) Complete(ep *goidc.AuthorizationEndpoint, cb *Callbacks) *Resp {
	r := request("POST", "/consent", nil)
	return serve(func(rw http.ResponseWriter) { ep.CompleteRequest(rw, r, cb) })
}
func (w *World) Cancel(ep *goidc.AuthorizationEndpoint, cb *Callbacks, target string) *Resp {
	r := request("POST", target, nil)
	return serve(func(rw http.ResponseWriter) { ep.CancelRequest(rw, r, cb) })
}

// Access sends a resource request with a bearer token; pass tells whether it was let through.
func (w *World) Access(rp *goidc.ResourceProtector, token string, h ...string) (*Resp, bool, http.Header) {
	r := request("GET", "/res", nil, append(h, "Authorization: Bearer "+token)...)
	ok := false
	out := serve(func(rw http.ResponseWriter) { ok = rp.Validate(rw, r, w) })
	return out, ok, r.Header
}

// Session stores a code for (uid, cid).
func (w *World) Session(uid int64, cid, scope string) *Session {
	info := w.addInfo(uid, cid, scope)
	s := &Session{Auth: info.Id, Created: w.Now, IdExp: 600}
	s.Code, s.ExpiresIn, s.RedirectURI, s.Nonce, s.AuthTime = w.id("code"), 60, w.Clients[cid].Redirects[0], "nonce-1", w.Now-5
	w.Sessions = append(w.Sessions, s)
	return s
}
func (w *World) Token(uid int64, cid, scope string) *Token {
	info := w.addInfo(uid, cid, scope)
	t, _ := w.CreateOAuthToken(info, true)
	return t.(*Token)
}

// Assertion signs claims with the client's assertion key.
func (w *World) Assertion(cid string, claims map[string]interface{}) string {
	t := jwt.New(jwt.SigningMethodHS256)
	t.Header["kid"] = "k1"
	t.Claims = jwt.MapClaims(claims)
	s, err := t.SignedString(w.Clients[cid].AssertionKey["HS256/k1"])
	if err != nil {
		panic(err)
	}
	return s
}

func claimsOf(tok string) map[string]interface{} {
	p := strings.Split(tok, ".")
	m := map[string]interface{}{}
	if len(p) == 3 {
		b, _ := base64.RawURLEncoding.DecodeString(p[1])
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		d.Decode(&m)
	}
	return m
}

// params of a redirect, by query and fragment.
func (r *Resp) redirect() (base string, q, f url.Values) {
	loc := r.Header.Get("Location")
	if i := strings.Index(loc, "#"); i >= 0 {
		f, _ = url.ParseQuery(loc[i+1:])
		loc = loc[:i]
	}
	if i := strings.Index(loc, "?"); i >= 0 {
		q, _ = url.ParseQuery(loc[i+1:])
		loc = loc[:i]
	}
	return loc, q, f
}

var _ = regexp.MustCompile

func bad(f string, a ...interface{}) {
	fmt.Printf("BROKEN: "+f+"\n", a...)
	os.Exit(1)
}
func must(ok bool, f string, a ...interface{}) {
	if !ok {
		bad(f, a...)
	}
}
