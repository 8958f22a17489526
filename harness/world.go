package main

// The integrator: an in-memory data store, clients, users, login sessions, a virtual clock, a recording
// logger. Everything goidc asks of it is recorded, can be made to fail, and can be suspended.

import (
	"errors"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/prompt"
)

// ---------------------------------------------------------------- records

type Client struct {
	ID            string
	Secret        string
	Owner         int64
	Alg, Kid      string
	Key           interface{} // signing key
	Flows         map[flow.FlowType]bool
	Grants        map[string]bool
	Scopes        map[flow.FlowType]map[string]bool // allowed words per flow
	EmptyScope    bool
	URIs          []string
	AssertionKeys map[string]interface{} // alg|kid
	NoConsent     prompt.NoConsentPromptPolicy
	NonePolicy    prompt.NonePromptPolicy
	Disabled      bool
}

type Info struct {
	ID           int64
	ClientID     string
	UserID       int64
	Subject      string
	Scope        string
	AuthorizedAt int64
	Active       bool
}

type Session struct {
	Code             string
	AuthID           int64
	AuthTime         int64
	IdTokenExpiresIn int64
	RedirectURI      string
	Verifier         string
	ExpiresIn        int64
	Nonce            string
	CreatedAt        int64
	Enabled          bool
	given            *authorization.Session // what the store was handed, and may keep
	as               authorization.Session
}

type Token struct {
	ID               int64
	AuthID           int64
	Access           string
	AccessExpiresIn  int64
	RefreshedAt      int64
	Refresh          string
	RefreshExpiresIn int64
	CreatedAt        int64
	Live             bool
}

type User struct {
	ID       int64
	Name     string
	Password string
	Subject  string
}

// ---------------------------------------------------------------- calls

type Call struct {
	Seq    int
	Req    string // which request caused it
	Method string
	Args   []string
	Result string
	Fault  string
	Late   string      // fails as told, but hands out the value all the same
	Obj    interface{} // structured result or argument kept for the oracle
}

func (c *Call) String() string {
	s := fmt.Sprintf("%s(%s) = %s", c.Method, strings.Join(c.Args, ", "), c.Result)
	if c.Fault != "" {
		s += " [fault " + c.Fault + "]"
	}
	if c.Req != "" {
		s = c.Req + ": " + s
	}
	return s
}

const (
	FaultUnsupported = "unsupported"
	FaultServer      = "server"
	FaultFailed      = "failed"
	FaultNil         = "nil"   // no error, no value
	FaultErr         = "error" // callbacks
	FaultEmpty       = "empty" // Issuer
)

type World struct {
	mu       sync.Mutex
	Issuer   string
	Now      int64 // virtual time, unix seconds
	NowNs    int64
	Clients  map[string]*Client
	Users    []*User
	Infos    map[int64]*Info
	Sessions map[string]*Session
	Tokens   []*Token
	JTIs     map[string]int
	nextID   int64
	tag      string // makes generated values unique per world
	salt     string

	AccessTTL, RefreshTTL, IdTokenTTL int64
	AlwaysRefresh, Rotate, Drop       bool
	TokenAge                          int64  // the store hands out tokens made this long ago
	TokenDecor                        string // appended to generated token values
	Objects                           bool   // the store hands out its client objects, not copies
	views                             map[*Client]*clientView

	Calls  []*Call
	counts map[string]int
	// Faults: "Method" (every call) or "Method#n" (n-th call, 1-based) -> kind
	Faults map[string]string
	Gate   func(w *World, c *Call, req string) // called before a call takes effect, outside the lock
	OnCall func(c *Call)                       // called after a call took effect, outside the lock
	Tagger func() string
	Logs   []LogEntry
	// LogsFrom is where the log of the operation under judgement begins.
	LogsFrom int
	Tracer   *tracer
	NoLog    bool
}

func NewWorld(rng *Rng) *World {
	return &World{
		Issuer:  "https://issuer.example.org",
		Now:     978307200, // 2001-01-01
		Clients: map[string]*Client{}, Infos: map[int64]*Info{}, Sessions: map[string]*Session{},
		JTIs: map[string]int{}, counts: map[string]int{}, Faults: map[string]string{},
		AccessTTL: 3600, RefreshTTL: 86400, IdTokenTTL: 600,
		nextID: 100, tag: fmt.Sprintf("%x", rng.U64()&0xffffffffff),
	}
}

func (w *World) Time() time.Time { return time.Unix(w.Now, w.NowNs).In(zones[w.Now&3]) }

var zones = [4]*time.Location{time.UTC, time.Local, time.FixedZone("JST", 9*3600), time.FixedZone("far", -11*3600-1800)}

// Clock is what endpoints are given for the time.
func (w *World) Clock() time.Time {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.Time()
}

func (w *World) TimeBuilder() func() time.Time { return w.Clock }

func (w *World) id() int64 { w.nextID++; return w.nextID }

func gid() string {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	f := strings.Fields(string(buf[:n]))
	return f[1]
}

func (w *World) begin(method string, args ...string) *Call {
	c := &Call{Method: method, Args: args}
	if w.Tagger != nil {
		c.Req = w.Tagger()
	}
	if w.Gate != nil {
		w.Gate(w, c, c.Req)
	}
	w.mu.Lock()
	w.counts[method]++
	c.Seq = len(w.Calls)
	w.Calls = append(w.Calls, c)
	if f, ok := w.Faults[method]; ok {
		c.Fault = f
	}
	if f, ok := w.Faults[method+"#"+strconv.Itoa(w.counts[method])]; ok {
		c.Fault = f
	}
	if f, ok := strings.CutSuffix(c.Fault, "+value"); ok {
		c.Fault, c.Late = "", f
	}
	return c
}

// late is the error that comes along with a value.
func (c *Call) late() *bridge.Error {
	if c.Late == "" {
		return nil
	}
	c.Fault = c.Late
	return faultErr(c.Late)
}

// end is called with the lock held.
func (w *World) end(c *Call, res string) {
	c.Result = res
	w.mu.Unlock()
	if w.OnCall != nil {
		w.OnCall(c)
	}
}

func faultErr(kind string) *bridge.Error {
	switch kind {
	case FaultUnsupported:
		return bridge.NewError(bridge.ErrUnsupported)
	case FaultServer:
		return bridge.NewError(bridge.ErrServerError)
	case FaultFailed:
		return bridge.NewError(bridge.ErrFailed)
	}
	return nil
}

func failed() *bridge.Error { return bridge.NewError(bridge.ErrFailed) }

func q(s string) string { return strconv.Quote(s) }

// ---------------------------------------------------------------- views given to goidc

type clientView struct {
	w *World
	c *Client
}

func (v *clientView) GetId() string              { return v.c.ID }
func (v *clientView) GetOwnerUserId() int64      { return v.c.Owner }
func (v *clientView) GetIdTokenAlg() string      { return v.c.Alg }
func (v *clientView) GetIdTokenKeyId() string    { return v.c.Kid }
func (v *clientView) GetIdTokenKey() interface{} { return v.c.Key }
func (v *clientView) MatchSecret(s string) bool {
	c := v.w.begin("MatchSecret", q(v.c.ID), q(s))
	r := s == v.c.Secret
	v.w.end(c, fmt.Sprint(r))
	return r
}
func (v *clientView) CanUseFlow(f flow.FlowType) bool {
	return v.c.Flows[f]
}
func (v *clientView) CanUseGrantType(gt string) bool { return v.c.Grants[gt] }
func (v *clientView) CanUseScope(f flow.FlowType, scope string) bool {
	return v.c.AllowsScope(f, scope)
}
func (v *clientView) CanUseRedirectURI(uri string) bool {
	for _, u := range v.c.URIs {
		if u == uri {
			return true
		}
	}
	return false
}
func (v *clientView) GetAssertionKey(alg, kid string) interface{} {
	if k, ok := v.c.AssertionKeys[alg+"|"+kid]; ok {
		return k
	}
	return nil
}
func (v *clientView) GetNoConsentPromptPolicy() prompt.NoConsentPromptPolicy { return v.c.NoConsent }
func (v *clientView) GetNonePromptPolicy() prompt.NonePromptPolicy           { return v.c.NonePolicy }

func (c *Client) AllowsScope(f flow.FlowType, scope string) bool {
	if scope == "" {
		return c.EmptyScope
	}
	for _, word := range strings.Split(scope, " ") {
		if !c.Scopes[f][word] {
			return false
		}
	}
	return true
}

type infoView struct{ i Info }

func (v *infoView) GetId() int64           { return v.i.ID }
func (v *infoView) GetClientId() string    { return v.i.ClientID }
func (v *infoView) GetUserId() int64       { return v.i.UserID }
func (v *infoView) GetSubject() string     { return v.i.Subject }
func (v *infoView) GetScope() string       { return v.i.Scope }
func (v *infoView) GetAuthorizedAt() int64 { return v.i.AuthorizedAt }
func (v *infoView) IsActive() bool         { return v.i.Active }

type sessView struct{ s Session }

func (v *sessView) GetCode() string            { return v.s.Code }
func (v *sessView) GetAuthId() int64           { return v.s.AuthID }
func (v *sessView) GetAuthTime() int64         { return v.s.AuthTime }
func (v *sessView) GetIdTokenExpiresIn() int64 { return v.s.IdTokenExpiresIn }
func (v *sessView) GetRedirectURI() string     { return v.s.RedirectURI }
func (v *sessView) GetCodeVerifier() string    { return v.s.Verifier }
func (v *sessView) GetExpiresIn() int64        { return v.s.ExpiresIn }
func (v *sessView) GetNonce() string           { return v.s.Nonce }
func (v *sessView) GetCreatedAt() int64        { return v.s.CreatedAt }

type tokView struct{ t Token }

func (v *tokView) GetAuthId() int64                { return v.t.AuthID }
func (v *tokView) GetAccessToken() string          { return v.t.Access }
func (v *tokView) GetAccessTokenExpiresIn() int64  { return v.t.AccessExpiresIn }
func (v *tokView) GetRefreshedAt() int64           { return v.t.RefreshedAt }
func (v *tokView) GetRefreshToken() string         { return v.t.Refresh }
func (v *tokView) GetRefreshTokenExpiresIn() int64 { return v.t.RefreshExpiresIn }
func (v *tokView) GetCreatedAt() int64             { return v.t.CreatedAt }

// ---------------------------------------------------------------- DataInterface

type DI struct{ w *World }

var _ bridge.DataInterface = (*DI)(nil)

func (d *DI) Issuer() string {
	c := d.w.begin("Issuer")
	r := d.w.Issuer
	if c.Fault != "" {
		r = ""
	}
	d.w.end(c, q(r))
	return r
}

func (d *DI) FindClientById(id string) (bridge.Client, *bridge.Error) {
	c := d.w.begin("FindClientById", q(id))
	if c.Fault != "" {
		d.w.end(c, "fault")
		return nil, faultErr(c.Fault)
	}
	cl, ok := d.w.Clients[id]
	if !ok || cl.Disabled {
		d.w.end(c, "failed")
		return nil, failed()
	}
	v := &clientView{d.w, cl}
	if !d.w.Objects { // a snapshot, made for this call
		cp := *cl
		v.c = &cp
	} else if k := d.w.views[cl]; k != nil {
		v = k
	} else {
		if d.w.views == nil {
			d.w.views = map[*Client]*clientView{}
		}
		d.w.views[cl] = v
	}
	d.w.end(c, "client "+q(cl.ID))
	return v, c.late()
}

func (d *DI) FindAuthSessionByCode(code string) (bridge.AuthSession, *bridge.Error) {
	c := d.w.begin("FindAuthSessionByCode", q(code))
	if c.Fault != "" {
		d.w.end(c, "fault")
		return nil, faultErr(c.Fault)
	}
	s, ok := d.w.Sessions[code]
	if !ok || !s.Enabled {
		d.w.end(c, "failed")
		return nil, failed()
	}
	cp := *s
	d.w.end(c, "session "+q(s.Code))
	return &sessView{cp}, c.late()
}

func (d *DI) FindActiveAuthInfoById(id int64) (bridge.AuthInfo, *bridge.Error) {
	c := d.w.begin("FindActiveAuthInfoById", fmt.Sprint(id))
	if c.Fault != "" {
		d.w.end(c, "fault")
		return nil, faultErr(c.Fault)
	}
	i, ok := d.w.Infos[id]
	if !ok || !i.Active {
		d.w.end(c, "failed")
		return nil, failed()
	}
	cp := *i
	d.w.end(c, fmt.Sprintf("info %d", id))
	return &infoView{cp}, c.late()
}

func (w *World) findInfo(uid int64, cid string) *Info {
	for _, i := range w.Infos {
		if i.UserID == uid && i.ClientID == cid {
			return i
		}
	}
	return nil
}

func (d *DI) FindAuthInfoByUserIdAndClientId(uid int64, cid string) (bridge.AuthInfo, *bridge.Error) {
	c := d.w.begin("FindAuthInfoByUserIdAndClientId", fmt.Sprint(uid), q(cid))
	if c.Fault != "" {
		d.w.end(c, "fault")
		return nil, faultErr(c.Fault)
	}
	i := d.w.findInfo(uid, cid)
	if i == nil {
		d.w.end(c, "failed")
		return nil, failed()
	}
	cp := *i
	d.w.end(c, fmt.Sprintf("info %d", i.ID))
	return &infoView{cp}, c.late()
}

func (d *DI) FindOAuthTokenByAccessToken(t string) (bridge.OAuthToken, *bridge.Error) {
	c := d.w.begin("FindOAuthTokenByAccessToken", q(t))
	if c.Fault != "" {
		d.w.end(c, "fault")
		return nil, faultErr(c.Fault)
	}
	for _, tk := range d.w.Tokens {
		if tk.Live && tk.Access == t {
			cp := *tk
			d.w.end(c, fmt.Sprintf("token %d", tk.ID))
			return &tokView{cp}, c.late()
		}
	}
	d.w.end(c, "failed")
	return nil, failed()
}

func (d *DI) FindOAuthTokenByRefreshToken(t string) (bridge.OAuthToken, *bridge.Error) {
	c := d.w.begin("FindOAuthTokenByRefreshToken", q(t))
	if c.Fault != "" {
		d.w.end(c, "fault")
		return nil, faultErr(c.Fault)
	}
	for _, tk := range d.w.Tokens {
		if tk.Live && tk.Refresh != "" && tk.Refresh == t {
			cp := *tk
			d.w.end(c, fmt.Sprintf("token %d", tk.ID))
			return &tokView{cp}, c.late()
		}
	}
	d.w.end(c, "failed")
	return nil, failed()
}

func (d *DI) CreateOAuthToken(info bridge.AuthInfo, onToken bool) (bridge.OAuthToken, *bridge.Error) {
	var iid int64 = -1
	scope := ""
	if info != nil {
		iid = info.GetId()
		scope = info.GetScope()
	}
	c := d.w.begin("CreateOAuthToken", fmt.Sprint(iid), fmt.Sprint(onToken))
	if c.Fault != "" {
		d.w.end(c, "fault")
		return nil, faultErr(c.Fault)
	}
	w := d.w
	id := w.id()
	t := &Token{ID: id, AuthID: iid, Access: fmt.Sprintf("at-%s-%d%s", w.tag, id, w.TokenDecor), AccessExpiresIn: w.AccessTTL,
		RefreshedAt: w.Now - w.TokenAge, CreatedAt: w.Now - w.TokenAge, Live: true}
	if onToken && (w.AlwaysRefresh || hasWord(scope, "offline_access")) {
		t.Refresh = fmt.Sprintf("rt-%s-%d%s", w.tag, id, w.TokenDecor)
		t.RefreshExpiresIn = w.RefreshTTL
	}
	w.Tokens = append(w.Tokens, t)
	cp := *t
	c.Obj = &cp
	w.end(c, fmt.Sprintf("token %d", id))
	return &tokView{cp}, c.late()
}

func (d *DI) RefreshAccessToken(info bridge.AuthInfo, token bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	var iid int64 = -1
	if info != nil {
		iid = info.GetId()
	}
	old := ""
	if token != nil {
		old = token.GetRefreshToken()
	}
	c := d.w.begin("RefreshAccessToken", fmt.Sprint(iid), q(old))
	if c.Fault != "" {
		d.w.end(c, "fault")
		return nil, faultErr(c.Fault)
	}
	w := d.w
	for _, t := range w.Tokens {
		if t.Live && t.Refresh == old && old != "" {
			id := w.id()
			t.Access = fmt.Sprintf("at-%s-%d%s", w.tag, id, w.TokenDecor)
			t.RefreshedAt = w.Now
			if w.Rotate {
				t.Refresh = fmt.Sprintf("rt-%s-%d%s", w.tag, id, w.TokenDecor)
			}
			if w.Drop { // refreshed for the last time
				t.Refresh = ""
			}
			cp := *t
			c.Obj = &cp
			w.end(c, fmt.Sprintf("token %d", t.ID))
			return &tokView{cp}, c.late()
		}
	}
	w.end(c, "failed")
	return nil, failed()
}

func (d *DI) FindUserId(username, password string) (int64, *bridge.Error) {
	c := d.w.begin("FindUserId", q(username), q(password))
	if c.Fault != "" {
		d.w.end(c, "fault")
		return -1, faultErr(c.Fault)
	}
	for _, u := range d.w.Users {
		if u.Name == username && u.Password == password {
			d.w.end(c, fmt.Sprint(u.ID))
			return u.ID, c.late()
		}
	}
	d.w.end(c, "failed")
	return -1, failed()
}

func (w *World) userByID(id int64) *User {
	for _, u := range w.Users {
		if u.ID == id {
			return u
		}
	}
	return nil
}

func (d *DI) CreateOrUpdateAuthInfo(uid int64, cid, scope string) (bridge.AuthInfo, *bridge.Error) {
	c := d.w.begin("CreateOrUpdateAuthInfo", fmt.Sprint(uid), q(cid), q(scope))
	if c.Fault != "" {
		d.w.end(c, "fault")
		return nil, faultErr(c.Fault)
	}
	w := d.w
	i := w.findInfo(uid, cid)
	if i == nil {
		i = &Info{ID: w.id(), ClientID: cid, UserID: uid, Subject: fmt.Sprintf("sub-%d", uid)}
		if u := w.userByID(uid); u != nil {
			i.Subject = u.Subject
		}
		w.Infos[i.ID] = i
	}
	i.Scope = scope
	i.AuthorizedAt = w.Now
	i.Active = true
	cp := *i
	c.Obj = &cp
	w.end(c, fmt.Sprintf("info %d", i.ID))
	return &infoView{cp}, c.late()
}

func (d *DI) CreateAuthSession(info bridge.AuthInfo, s *authorization.Session) *bridge.Error {
	var iid int64 = -1
	if info != nil {
		iid = info.GetId()
	}
	args := []string{fmt.Sprint(iid), "nil"}
	if s != nil {
		args[1] = fmt.Sprintf("%+q", fmt.Sprintf("%+v", *s))
	}
	c := d.w.begin("CreateAuthSession", args...)
	if c.Fault != "" {
		d.w.end(c, "fault")
		return faultErr(c.Fault)
	}
	w := d.w
	if s == nil {
		w.end(c, "failed")
		return failed()
	}
	w.Sessions[s.Code] = &Session{Code: s.Code, AuthID: iid, AuthTime: s.AuthTime, IdTokenExpiresIn: w.IdTokenTTL,
		RedirectURI: s.RedirectURI, Verifier: s.CodeVerifier, ExpiresIn: s.ExpiresIn, Nonce: s.Nonce,
		CreatedAt: w.Now, Enabled: true, given: s, as: *s}
	cp := *s
	c.Obj = &cp
	w.end(c, "ok")
	return c.late()
}

func (d *DI) DisableSession(s bridge.AuthSession) *bridge.Error {
	code := ""
	if s != nil {
		code = s.GetCode()
	}
	c := d.w.begin("DisableSession", q(code))
	if c.Fault != "" {
		d.w.end(c, "fault")
		return faultErr(c.Fault)
	}
	st, ok := d.w.Sessions[code]
	if !ok || !st.Enabled {
		d.w.end(c, "failed")
		return failed()
	}
	st.Enabled = false
	d.w.end(c, "ok")
	return c.late()
}

func (d *DI) FindUserIdBySubject(sub string) (int64, *bridge.Error) {
	c := d.w.begin("FindUserIdBySubject", q(sub))
	if c.Fault != "" {
		d.w.end(c, "fault")
		return -1, faultErr(c.Fault)
	}
	for _, u := range d.w.Users {
		if u.Subject == sub {
			d.w.end(c, fmt.Sprint(u.ID))
			return u.ID, c.late()
		}
	}
	d.w.end(c, "failed")
	return -1, failed()
}

func (d *DI) RecordAssertionClaims(cid, jti string, iat, exp int64) *bridge.Error {
	c := d.w.begin("RecordAssertionClaims", q(cid), q(jti), fmt.Sprint(iat), fmt.Sprint(exp))
	if c.Fault != "" {
		d.w.end(c, "fault")
		return faultErr(c.Fault)
	}
	key := cid + "\x00" + jti
	if jti == "" {
		key = fmt.Sprintf("%s\x00\x00%d\x00%d", cid, iat, exp)
	}
	d.w.JTIs[key]++
	if d.w.JTIs[key] > 1 {
		d.w.end(c, "failed")
		return failed()
	}
	d.w.end(c, "ok")
	return c.late()
}

// ---------------------------------------------------------------- callbacks

var errInjected = errors.New("injected-callback-failure")

type Screen struct {
	Kind   string // error, login, consent
	Err    int
	Req    *authorization.Request // what it said
	Given  *authorization.Request // what the integrator may keep
	Client string
}

type Callbacks struct {
	w         *World
	LoggedIn  bool
	FromLogin bool
	AuthTime  int64
	UserID    int64
	Locale    string
	Code      string
	Parked    *authorization.Request
	Keeps     bool // the application keeps the parked request in memory, and hands out that
	Screens   []Screen
	HintUser  string // subject or hint value of the logged-in user
	// Remembered: the browser still knows the account when the user has logged out, and matches hints with it
	Remembered bool
	Park       bool // ShowLoginScreen/ShowConsentScreen park the request through Encode/Decode
}

var _ bridge.AuthorizationCallbacks = (*Callbacks)(nil)

func (cb *Callbacks) ShowErrorScreen(t int) {
	c := cb.w.begin("ShowErrorScreen", fmt.Sprint(t))
	cb.Screens = append(cb.Screens, Screen{Kind: "error", Err: t})
	cb.w.end(c, "")
}
func copyReq(r *authorization.Request) *authorization.Request {
	if r == nil {
		return nil
	}
	cp := *r
	if r.Flow != nil {
		f := *r.Flow
		cp.Flow = &f
	}
	return &cp
}
func (cb *Callbacks) ShowLoginScreen(r *authorization.Request) error {
	c := cb.w.begin("ShowLoginScreen")
	if c.Fault != "" {
		cb.w.end(c, "error")
		return errInjected
	}
	cb.Screens = append(cb.Screens, Screen{Kind: "login", Req: copyReq(r), Given: r})
	cb.w.end(c, "ok")
	return nil
}
func (cb *Callbacks) ShowConsentScreen(cl bridge.Client, r *authorization.Request) error {
	c := cb.w.begin("ShowConsentScreen")
	if c.Fault != "" {
		cb.w.end(c, "error")
		return errInjected
	}
	s := Screen{Kind: "consent", Req: copyReq(r), Given: r}
	if cl != nil {
		s.Client = cl.GetId()
	}
	cb.Screens = append(cb.Screens, s)
	cb.w.end(c, "ok")
	return nil
}
func (cb *Callbacks) ChooseLocale(l string) (string, error) {
	c := cb.w.begin("ChooseLocale", q(l))
	if c.Fault != "" {
		cb.w.end(c, "error")
		return "", errInjected
	}
	cb.w.end(c, q(cb.Locale))
	return cb.Locale, nil
}
func (cb *Callbacks) boolCall(name string, v bool, args ...string) (bool, error) {
	c := cb.w.begin(name, args...)
	if c.Fault != "" {
		cb.w.end(c, "error")
		return v, errInjected // a lenient integrator: the value must not be used
	}
	cb.w.end(c, fmt.Sprint(v))
	return v, nil
}
func (cb *Callbacks) ConfirmLoginSession() (bool, error) {
	return cb.boolCall("ConfirmLoginSession", cb.LoggedIn)
}
func (cb *Callbacks) RequestIsFromLogin() (bool, error) {
	return cb.boolCall("RequestIsFromLogin", cb.FromLogin)
}
func (cb *Callbacks) GetAuthTime() (int64, error) {
	c := cb.w.begin("GetAuthTime")
	if c.Fault != "" {
		cb.w.end(c, "error")
		return cb.AuthTime, errInjected
	}
	cb.w.end(c, fmt.Sprint(cb.AuthTime))
	return cb.AuthTime, nil
}
func (cb *Callbacks) GetLoginUserId() (int64, error) {
	c := cb.w.begin("GetLoginUserId")
	if c.Fault != "" || !cb.LoggedIn {
		cb.w.end(c, "error")
		return cb.UserID, errInjected
	}
	cb.w.end(c, fmt.Sprint(cb.UserID))
	return cb.UserID, nil
}
func (cb *Callbacks) CreateAuthorizationCode() (string, error) {
	c := cb.w.begin("CreateAuthorizationCode")
	if c.Fault != "" {
		cb.w.end(c, "error")
		return cb.Code, errInjected
	}
	cb.w.end(c, q(cb.Code))
	return cb.Code, nil
}
func (cb *Callbacks) Continue() (*authorization.Request, error) {
	c := cb.w.begin("Continue")
	if c.Fault == FaultNil {
		cb.w.end(c, "nil")
		return nil, nil
	}
	if c.Fault != "" {
		cb.w.end(c, "error")
		return copyReq(cb.Parked), errInjected
	}
	cb.w.end(c, "ok")
	if cb.Keeps {
		return cb.Parked, nil
	}
	return copyReq(cb.Parked), nil
}
func (cb *Callbacks) LoginUserIsMatchedToSubject(sub string) (bool, error) {
	return cb.boolCall("LoginUserIsMatchedToSubject", (cb.LoggedIn || cb.Remembered) && sub != "" && sub == cb.HintUser, q(sub))
}

// ---------------------------------------------------------------- logger

type LogEntry struct {
	Level string
	Text  string
}

type Logger struct{ w *World }

func (l *Logger) add(level, s string) {
	w := l.w // may be another one by the time this is done
	w.mu.Lock()
	if !w.NoLog {
		w.Logs = append(w.Logs, LogEntry{level, s})
	}
	w.mu.Unlock()
}
func (l *Logger) Debug(a ...interface{})            { l.add("debug", fmt.Sprint(a...)) }
func (l *Logger) Info(a ...interface{})             { l.add("info", fmt.Sprint(a...)) }
func (l *Logger) Warn(a ...interface{})             { l.add("warn", fmt.Sprint(a...)) }
func (l *Logger) Error(a ...interface{})            { l.add("error", fmt.Sprint(a...)) }
func (l *Logger) Fatal(a ...interface{})            { l.add("fatal", fmt.Sprint(a...)) }
func (l *Logger) Debugf(f string, a ...interface{}) { l.add("debug", fmt.Sprintf(f, a...)) }
func (l *Logger) Infof(f string, a ...interface{})  { l.add("info", fmt.Sprintf(f, a...)) }
func (l *Logger) Warnf(f string, a ...interface{})  { l.add("warn", fmt.Sprintf(f, a...)) }
func (l *Logger) Errorf(f string, a ...interface{}) { l.add("error", fmt.Sprintf(f, a...)) }
func (l *Logger) Fatalf(f string, a ...interface{}) { l.add("fatal", fmt.Sprintf(f, a...)) }

// ---------------------------------------------------------------- words

func hasWord(list, word string) bool {
	for _, x := range strings.Split(list, " ") {
		if x == word {
			return true
		}
	}
	return false
}

func dropWord(list, word string) string {
	out := []string{}
	for _, x := range strings.Split(list, " ") {
		if x != word {
			out = append(out, x)
		}
	}
	return strings.Join(out, " ")
}
