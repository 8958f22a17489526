"""Edits that keep the behaviour, by group: (file, old, new[, all]) or (file, function)."""
import re

AE, TE, RP = "authorization_endpoint.go", "token_endpoint.go", "resource_protector.go"
GROUPS = {}


def between(s, a, b, new):
    i = s.index(a)
    j = s.index(b, i)
    return s[:i] + new + s[j:]


# ---- the silent completions share a helper; whole-function rewrites of the endpoint
def silent(s):
    pat = re.compile(r"\t\t\tuid, err := callbacks\.GetLoginUserId\(\)\n\n\t\t\tif err != nil \{.*?consent_required\", \"\", state\)\n\t\t\t\t\treturn false\n\t\t\t\t\}\n\t\t\t\}\n", re.S)
    n = pat.sub("\t\t\treturn a.finishWithoutPrompt(callbacks, r, rh, req)\n", s)
    n += '''
type grantState int

const (
	grantBroken grantState = iota
	grantAbsent
	grantUsable
)

// storedGrant looks up what the user has granted before.
func (a *AuthorizationEndpoint) storedGrant(uid int64, req *authorization.Request) (bridge.AuthInfo, grantState) {
	info, serr := a.di.FindAuthInfoByUserIdAndClientId(uid, req.ClientId)
	switch {
	case serr != nil && (serr.Type() == bridge.ErrUnsupported || serr.Type() == bridge.ErrServerError):
		return nil, grantBroken
	case serr != nil:
		return nil, grantAbsent
	case info == nil:
		return nil, grantBroken
	}
	until := info.GetAuthorizedAt() + int64(a.policy.ConsentOmissionPeriod)
	fresh := a.currentTime().Unix() < until
	if !fresh || !info.IsActive() || !scope.Same(req.Scope, info.GetScope()) {
		return nil, grantAbsent
	}
	return info, grantUsable
}

func (a *AuthorizationEndpoint) finishWithoutPrompt(callbacks bridge.AuthorizationCallbacks, r *http.Request,
	rh authorization.ResponseHandler, req *authorization.Request) bool {
	uid, err := callbacks.GetLoginUserId()
	if err != nil {
		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "GetLoginUserId",
			},
			err.Error()))
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}
	info, st := a.storedGrant(uid, req)
	if st == grantUsable {
		return a.completeSilently(callbacks, r, rh, info, req)
	}
	reason := "consent_required"
	if st == grantBroken {
		reason = "server_error"
	}
	rh.Error(req.RedirectURI, reason, "", req.State)
	return false
}
'''
    return n


GROUPS["silent"] = [(AE, silent)]


# ---- checks of parameters in another order
def order(s):
    a = s.index('\tdisplay := authorization.DisplayTypePage\n')
    b = s.index('\tvar ma int\n')
    c = s.index('\tprmpt := ""\n')
    d = s.index('\tscp := r.FormValue("scope")\n')
    e = s.index('\tn := r.FormValue("nonce")\n')
    f = s.index('\tverifier := r.FormValue("code_verifier")\n')
    g = s.index('\tlocales := r.FormValue("ui_locales")\n')
    disp, age, pr, sc, no, ve = s[a:b], s[b:c], s[c:d], s[d:e], s[e:f], s[f:g]
    return s[:a] + pr + sc + ve + no + age + disp + s[g:]


GROUPS["order"] = [(AE, order)]


# ---- parameters read at once, through a map
def params(s):
    s = s.replace('\tstate := r.FormValue("state")\n', '''	sent := map[string]string{}
	for _, name := range []string{"state", "response_mode", "response_type", "display", "max_age", "prompt", "scope",
		"nonce", "code_verifier", "ui_locales", "id_token_hint", "login_hint"} {
		sent[name] = r.FormValue(name)
	}
	state := sent["state"]
''')
    i = s.index('state := sent["state"]')
    j = s.index("func (a *AuthorizationEndpoint) CancelRequest")
    return s[:i] + re.sub(r'r\.FormValue\(("\w+")\)', r"sent[\1]", s[i:j]) + s[j:]


GROUPS["params"] = [(AE, params)]


# ---- completion: client looked up first, session stored last, one function for all flows
def completion(s):
    i = s.index("func (a *AuthorizationEndpoint) complete(")
    return s[:i] + '''
func (a *AuthorizationEndpoint) interfaceProblem(r *http.Request, method, what string) {
	a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path, log.InterfaceError, map[string]string{"method": method}, what))
}

// complete issues what the flow asks for.
func (a *AuthorizationEndpoint) complete(
	callbacks bridge.AuthorizationCallbacks,
	r *http.Request,
	rh authorization.ResponseHandler,
	info bridge.AuthInfo, req *authorization.Request) bool {
	broken := func(method, what string) bool {
		if method != "" {
			a.interfaceProblem(r, method, what)
		}
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}
	kind := req.Flow.Type
	if kind != flow.AuthorizationCode && kind != flow.Implicit && kind != flow.Hybrid {
		return false
	}
	direct := kind != flow.AuthorizationCode

	var clnt bridge.Client
	if direct {
		var serr *bridge.Error
		if clnt, serr = a.di.FindClientById(req.ClientId); serr != nil {
			return broken("", "")
		}
		if clnt == nil {
			return broken("FindClientById", "the method returns (nil, nil).")
		}
	}
	authTime, err := callbacks.GetAuthTime()
	if err != nil {
		return broken("GetAuthTime", err.Error())
	}
	answer := map[string]string{}
	set := func(k, v string) {
		if v != "" {
			answer[k] = v
		}
	}
	set("state", req.State)
	code := ""
	if kind != flow.Implicit {
		if code, err = callbacks.CreateAuthorizationCode(); err != nil {
			return broken("CreateAuthorizationCode", err.Error())
		}
		sess := req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime)
		if serr := a.di.CreateAuthSession(info, sess); serr != nil {
			return broken("", "")
		}
		answer["code"] = code
	}
	if direct {
		set("scope", req.Scope)
	}
	at := ""
	if direct && req.Flow.RequireAccessToken {
		t, serr := a.di.CreateOAuthToken(info, false)
		switch {
		case serr != nil:
			return broken("", "")
		case t == nil:
			return broken("CreateOAuthToken", "the method returns (nil, nil).")
		}
		at = t.GetAccessToken()
		answer["access_token"] = at
		answer["token_type"] = "bearer"
		answer["expires_in"] = strconv.FormatInt(t.GetAccessTokenExpiresIn(), 10)
	}
	if direct && req.Flow.RequireIdToken {
		var idt string
		lifetime := int64(a.policy.IdTokenExpiresIn)
		alg, key, kid := clnt.GetIdTokenAlg(), clnt.GetIdTokenKey(), clnt.GetIdTokenKeyId()
		if kind == flow.Hybrid {
			idt, err = id_token.GenForHybrid(alg, key, kid, a.di.Issuer(), info.GetClientId(), info.GetSubject(),
				req.Nonce, lifetime, authTime, at, code, a.currentTime())
		} else {
			idt, err = id_token.GenForImplicit(alg, key, kid, a.di.Issuer(), info.GetClientId(), info.GetSubject(),
				req.Nonce, lifetime, authTime, at, a.currentTime())
		}
		if err != nil {
			return broken("", "")
		}
		answer["id_token"] = idt
	}
	rh.Success(req.RedirectURI, answer)
	return true
}
'''


GROUPS["completion"] = [(AE, completion)]

# ---- token endpoint: one way to answer
GROUPS["token"] = [
    (TE, lambda s: s[:s.index("func (te *TokenEndpoint) success(")] + '''
// answer sends a body with the headers that every answer of this endpoint has.
func (te *TokenEndpoint) answer(w http.ResponseWriter, status int, challenge string, body []byte) {
	h := w.Header()
	if challenge != "" {
		h.Set("WWW-Authenticate", challenge)
	}
	for name := range defaultResponseHeaders {
		h.Set(name, defaultResponseHeaders[name])
	}
	h.Set("Content-Length", strconv.Itoa(len(body)))
	w.WriteHeader(status)
	w.Write(body)
}

func (te *TokenEndpoint) withURI(err *oer.OAuthError) []byte {
	e := *err
	if b := te.errorURIBuilder; b != nil && e.URI == "" {
		e.URI = b(e.Type)
	}
	return e.JSON()
}

func (te *TokenEndpoint) success(w http.ResponseWriter, res *grant.Response) {
	te.answer(w, http.StatusOK, "", res.JSON())
}

func (te *TokenEndpoint) failWithAuthHeader(w http.ResponseWriter, err *oer.OAuthError) {
	te.answer(w, http.StatusUnauthorized, `Basic realm="`+te.realm+`"`, te.withURI(err))
}

func (te *TokenEndpoint) fail(w http.ResponseWriter, err *oer.OAuthError) {
	te.answer(w, err.StatusCode(), "", te.withURI(err))
}
'''),
    (TE, lambda s: re.sub(r'\nfunc setCommonResponseHeader.*?\n}\n', "\n", s, flags=re.S)),
    (TE, '\t"net/http"\n', '\t"net/http"\n\t"strconv"\n'),
    # the grant type last
    (TE, '''	if !client.MatchSecret(sec) {
''', '''	allowed, known := client.CanUseGrantType(gt), client.MatchSecret(sec)
	if !known {
'''),
    (TE, '''	if !client.CanUseGrantType(gt) {
''', '''	if !allowed {
'''),
    (TE, '''		cid = r.PostFormValue("client_id")
		sec = r.PostFormValue("client_secret")
		if cid != "" && sec != "" {
			return cid, sec, false, true
		} else {
			return "", "", false, false
		}
	case FromAll:
		cid = r.FormValue("client_id")
		sec = r.FormValue("client_secret")
		if cid != "" && sec != "" {
			return cid, sec, false, true
		} else {
			return "", "", false, false
		}
''', '''		return pairIn(r.PostFormValue)
	case FromAll:
		return pairIn(r.FormValue)
'''),
    (TE, "func (te *TokenEndpoint) findClientAssertion(", '''func pairIn(get func(string) string) (id, secret string, inHeader, found bool) {
	id = get("client_id")
	if id == "" {
		return
	}
	if secret = get("client_secret"); secret == "" {
		return "", "", false, false
	}
	return id, secret, false, true
}

func (te *TokenEndpoint) findClientAssertion('''),
]


# ---- authorization code grant: redirect_uri, PKCE and expiry after the client; parameters in another order
def code(s):
    a = s.index('\t\t\turi := r.FormValue("redirect_uri")')
    b = s.index('\t\t\tcode := r.FormValue("code")')
    c = s.index('\t\t\tsess, err := sdi.FindAuthSessionByCode(code)')
    s = s[:a] + s[b:c] + s[a:b] + s[c:]
    a = s.index('\t\t\tif sess.GetCreatedAt()+sess')
    b = s.index('\t\t\tinfo, err := sdi.FindActiveAuthInfoById(')
    c = s.index('\t\t\tif info.GetClientId() != c.GetId()')
    d = s.index('\t\t\tif sess.GetRedirectURI() != uri')
    e = s.index('\t\t\t// RFC7636')
    exp = s[a:b].replace("sess.GetCreatedAt()+sess.GetExpiresIn() < requestedTime.Unix()", "requestedTime.Unix()-sess.GetExpiresIn() > sess.GetCreatedAt()")
    return s[:a] + s[b:d] + s[d:e] + exp + s[e:]


GROUPS["code"] = [("grant/authorization_code.go", code)]


def refresh(s):
    a = s.index('\t\t\tif old.GetRefreshTokenExpiresIn()+')
    b = s.index('\t\t\tinfo, err := sdi.FindActiveAuthInfoById(')
    d = s.index('\t\t\tscp := info.GetScope()')
    e = s.index('\t\t\ttoken, err := sdi.RefreshAccessToken')
    return s[:a] + s[b:d] + s[d:e] + s[a:b] + s[e:]


GROUPS["refresh"] = [("grant/refresh_token.go", refresh)]

# ---- password: the user is looked up before the scope is judged
def password(s):
    a = s.index('\t\t\tscp_req := r.FormValue("scope")')
    b = s.index('\t\t\tuid, err := sdi.FindUserId(')
    c = s.index('\t\t\tinfo, err := sdi.CreateOrUpdateAuthInfo(')
    return s[:a] + s[b:c] + s[a:b] + s[c:]


GROUPS["password"] = [("grant/password.go", password)]

# ---- responses
GROUPS["responses"] = [("authorization/response.go", lambda s: s[:s.index("func (h *RedirectResponseHandler) Success(")] + '''func (h *RedirectResponseHandler) Success(uri string, params map[string]string) {
	h.send(uri, params)
}

func (h *RedirectResponseHandler) Error(uri, typ, desc, state string) {
	h.send(uri, errorParams(typ, desc, state))
}

func (h *RedirectResponseHandler) send(uri string, params map[string]string) {
	var b strings.Builder
	b.WriteString(uri)
	b.WriteString(h.pt.Connector(uri))
	for i, k := range names(params) {
		if i > 0 {
			b.WriteByte('&')
		}
		b.WriteString(url.QueryEscape(k) + "=" + url.QueryEscape(params[k]))
	}
	http.Redirect(h.w, h.r, b.String(), http.StatusFound)
}

func names(params map[string]string) []string {
	list := make([]string, 0, len(params))
	for k := range params {
		list = append(list, k)
	}
	sort.Strings(list)
	return list
}

func errorParams(typ, desc, state string) map[string]string {
	params := map[string]string{"error": typ}
	for k, v := range map[string]string{"error_description": desc, "state": state} {
		if v != "" {
			params[k] = v
		}
	}
	return params
}

func NewHTMLResponseHandler(w http.ResponseWriter, r *http.Request) *HTMLResponseHandler {
	return &HTMLResponseHandler{w, r}
}

func (h *HTMLResponseHandler) Success(uri string, params map[string]string) {
	h.render(uri, params)
}

func (h *HTMLResponseHandler) Error(uri, typ, desc, state string) {
	h.render(uri, errorParams(typ, desc, state))
}

const page = "<!DOCTYPE html>\\n<html>\\n<head><title>Submit This Form</title></head>\\n<body onload=\\"javascript:document.forms[0].submit()\\">\\n" +
	"<form method=\\"post\\" action=\\"%s\\">\\n%s</form>\\n</body>\\n</html>\\n"

func (h *HTMLResponseHandler) render(uri string, params map[string]string) {
	fields := ""
	for _, k := range names(params) {
		fields += fmt.Sprintf("<input type=\\"hidden\\" name=\\"%s\\" value=\\"%s\\" />\\n", html.EscapeString(k), html.EscapeString(params[k]))
	}
	for k, v := range map[string]string{"Content-Type": "text/html; charset=UTF-8", "Cache-Control": "no-cache, no-store", "Pragma": "no-cache"} {
		h.w.Header().Set(k, v)
	}
	h.w.WriteHeader(http.StatusOK)
	fmt.Fprintf(h.w, page, html.EscapeString(uri), fields)
}
'''), ("authorization/response.go", '\t"net/url"\n', '\t"net/url"\n\t"sort"\n')]

# ---- words
GROUPS["words"] = [("scope/util.go", lambda s: s[:s.index("func IncludeAll(")] + '''func IncludeAll(scopes string, targetScopes []string) (bool, string) {
	for _, want := range targetScopes {
		if !Include(scopes, want) {
			return false, want
		}
	}
	return true, ""
}

func Remove(scopes string, targetScope string) string {
	var b strings.Builder
	first := true
	for _, s := range Split(scopes) {
		if s == targetScope {
			continue
		}
		if !first {
			b.WriteByte(' ')
		}
		first = false
		b.WriteString(s)
	}
	return b.String()
}

func Include(scopes string, targetScope string) bool {
	return strings.Contains(" "+scopes+" ", " "+targetScope+" ") && !strings.Contains(targetScope, " ")
}

func Same(scope1, scope2 string) bool {
	count := map[string]int{}
	for _, s := range Split(scope1) {
		count[s]++
	}
	for _, s := range Split(scope2) {
		if count[s]--; count[s] < 0 {
			return false
		}
	}
	return len(Split(scope1)) == len(Split(scope2))
}

func Sort(origin string) string {
	list := Split(origin)
	sort.Slice(list, func(i, j int) bool { return list[i] < list[j] })
	return strings.Join(list, " ")
}

func IncludeOpenID(scopes string) bool        { return Include(scopes, OpenID) }
func IncludeOfflineAccess(scopes string) bool { return Include(scopes, OfflineAccess) }
func RemoveOpenID(scopes string) string        { return Remove(scopes, OpenID) }
func RemoveOfflineAccess(scopes string) string { return Remove(scopes, OfflineAccess) }
'''),
    ("prompt/util.go", lambda s: between(s, "func Validate(", "func IncludeNone(", '''var known = map[string]bool{None: true, Login: true, Consent: true, SelectAccount: true}

func Validate(prompts string) bool {
	nones, all := 0, 0
	for _, p := range Split(prompts) {
		if !known[p] {
			return false
		}
		all++
		if p == None {
			nones++
		}
	}
	return nones == 0 || nones == all
}

''')),
    ("flow/flow.go", lambda s: s[:s.index("func JudgeByResponseType(")] + '''func JudgeByResponseType(responseType string) (*Flow, error) {
	var code, token, idToken int
	for _, word := range strings.Split(responseType, " ") {
		switch word {
		case "code":
			code++
		case "token":
			token++
		case "id_token":
			idToken++
		default:
			return nil, fmt.Errorf("unsupported response type: %s", responseType)
		}
	}
	if code > 1 || token > 1 || idToken > 1 {
		return nil, fmt.Errorf("unsupported response type: %s", responseType)
	}
	f := &Flow{Type: Implicit, RequireAccessToken: token == 1, RequireIdToken: idToken == 1}
	if code == 1 {
		f.Type = Hybrid
		if token+idToken == 0 {
			f.Type = AuthorizationCode
		}
	}
	return f, nil
}
'''), ("flow/flow.go", '\t"sort"\n', ''),
    ("pkce/crypto.go", lambda s: between(s, "	encoded := base64", "}\n\nfunc S256Encode", "	return base64.RawURLEncoding.EncodeToString(origin)\n")),
    ("pkce/crypto.go", '\t"fmt"\n\t"strings"\n', '\t"fmt"\n'),
    ("pkce/verifier.go", "return challenge == verifier", "return subtle.ConstantTimeCompare([]byte(challenge), []byte(verifier)) == 1"),
    ("pkce/verifier.go", "return S256Encode(verifier) == challenge", "return subtle.ConstantTimeCompare([]byte(S256Encode(verifier)), []byte(challenge)) == 1"),
    ("pkce/verifier.go", 'import "fmt"', 'import (\n\t"crypto/subtle"\n\t"fmt"\n)'),
    ("response_mode/util.go", lambda s: between(s, "func securityLevelForMode(", "func CompareSecurityLevel(", '''var levels = []string{Query, Fragment, FormPost}

func securityLevelForMode(mode string) int {
	for i, m := range levels {
		if m == mode {
			return i
		}
	}
	return -1
}

''')),
]

# ---- ID tokens
GROUPS["idtoken"] = [("id_token/id_token.go", lambda s: s[:s.index("func Hash(")] + '''func Hash(alg string, token string) (string, error) {
	var sum []byte
	switch {
	case strings.HasSuffix(alg, "256"):
		d := sha256.Sum256([]byte(token))
		sum = d[:]
	case strings.HasSuffix(alg, "384"):
		d := sha512.Sum384([]byte(token))
		sum = d[:]
	case strings.HasSuffix(alg, "512"):
		d := sha512.Sum512([]byte(token))
		sum = d[:]
	default:
		return "", errors.New("unsupported signature algorithm")
	}
	return base64.StdEncoding.EncodeToString(sum[:len(sum)/2]), nil
}

type idClaims struct {
	Iss      string `json:"iss"`
	Sub      string `json:"sub"`
	Aud      string `json:"aud"`
	Exp      int64  `json:"exp"`
	Iat      *int64 `json:"iat,omitempty"`
	AuthTime *int64 `json:"auth_time,omitempty"`
	Nonce    string `json:"nonce,omitempty"`
	AtHash   string `json:"at_hash,omitempty"`
	CHash    string `json:"c_hash,omitempty"`
}

func (c *idClaims) Valid() error { return nil }

func Gen(alg string, key interface{}, keyId,
	issuer, clientId, subject, nonce string,
	expiresIn, authTime int64, now time.Time) (string, error) {
	return sign(alg, key, keyId, issuer, clientId, subject, nonce, expiresIn, authTime, "", "", now)
}

func GenForImplicit(alg string, key interface{}, keyId,
	issuer, clientId, subject, nonce string,
	expiresIn, authTime int64, accessToken string, now time.Time) (string, error) {
	return sign(alg, key, keyId, issuer, clientId, subject, nonce, expiresIn, authTime, accessToken, "", now)
}

func GenForHybrid(alg string, key interface{}, keyId,
	issuer, clientId, subject, nonce string,
	expiresIn, authTime int64, accessToken, code string, now time.Time) (string, error) {
	return sign(alg, key, keyId, issuer, clientId, subject, nonce, expiresIn, authTime, accessToken, code, now)
}

func sign(alg string, key interface{}, keyId, issuer, clientId, subject, nonce string,
	expiresIn, authTime int64, accessToken, code string, now time.Time) (string, error) {
	method := jwt.GetSigningMethod(alg)
	if method == nil {
		return "", fmt.Errorf("unknown jwt signing algorithm: %s", alg)
	}
	iat := now.Unix()
	c := &idClaims{Iss: issuer, Sub: subject, Aud: clientId, Exp: iat + expiresIn, Nonce: nonce}
	if iat >= 0 {
		c.Iat = &iat
	}
	if authTime >= 0 {
		c.AuthTime = &authTime
	}
	for _, h := range []struct {
		value string
		claim *string
	}{{accessToken, &c.AtHash}, {code, &c.CHash}} {
		if h.value == "" {
			continue
		}
		sum, err := Hash(alg, h.value)
		if err != nil {
			return "", err
		}
		*h.claim = sum
	}
	t := jwt.NewWithClaims(method, c)
	if keyId != "" {
		t.Header["kid"] = keyId
	}
	return t.SignedString(key)
}
''')]

# ---- resource protector
GROUPS["protector"] = [
    (RP, '''	parts := strings.Split(r.Header.Get("Authorization"), " ")
	if len(parts) >= 2 && strings.ToLower(parts[0]) == "bearer" && parts[1] != "" {
		return parts[1]
	}
''', '''	if scheme, rest, ok := strings.Cut(r.Header.Get("Authorization"), " "); ok && strings.EqualFold(scheme, "bearer") {
		if token, _, _ := strings.Cut(rest, " "); token != "" {
			return token
		}
	}
'''),
    (RP, lambda s: between(s, "	if at.GetRefreshedAt()+at", "	r.Header.Set(\"X-OAUTH-USER-ID\"", '''	now := rp.currentTime().Unix()
	info, ok := rp.authorizationOf(w, r, sdi, at, rt)
	if !ok {
		return false
	}
	if now-at.GetAccessTokenExpiresIn() > at.GetRefreshedAt() {
		rp.logger.Info(log.ProtectedResourceLog(r.URL.Path,
			log.NoEnabledAuthInfo,
			map[string]string{
				"access_token":            rt,
				"refreshed_at":            fmt.Sprintf("%d", at.GetRefreshedAt()),
				"access_token_expires_in": fmt.Sprintf("%d", at.GetAccessTokenExpiresIn()),
				"current_time":            fmt.Sprintf("%d", now),
			}, "your access_token is expired."))

		rp.unauthorize(w, oer.NewOAuthError(oer.ErrInvalidToken,
			"your access_token is expired"))
		return false
	}

''')),
    (RP, "func (rp *ResourceProtector) unauthorize(", '''func (rp *ResourceProtector) authorizationOf(w http.ResponseWriter, r *http.Request, sdi bridge.DataInterface,
	at bridge.OAuthToken, rt string) (bridge.AuthInfo, bool) {
	info, err := sdi.FindActiveAuthInfoById(at.GetAuthId())
	if err == nil && info != nil {
		return info, true
	}
	if err != nil && err.Type() == bridge.ErrFailed {
		rp.logger.Info(log.ProtectedResourceLog(r.URL.Path,
			log.NoEnabledAuthInfo,
			map[string]string{
				"method":       "FindActiveAuthInfoById",
				"access_token": rt,
			},
			"no enabled auth info associated with this access_token."))
		rp.unauthorize(w, oer.NewOAuthSimpleError(oer.ErrInvalidToken))
		return nil, false
	}
	rp.logger.Error(log.ProtectedResourceLog(r.URL.Path, log.InterfaceError,
		map[string]string{"method": "FindActiveAuthInfoById"}, "the authorization can't be read."))
	w.WriteHeader(http.StatusInternalServerError)
	return nil, false
}

func (rp *ResourceProtector) unauthorize('''),
]

# ---- errors
GROUPS["errors"] = [
    ("oauth_error/errors.go", lambda s: s[:s.index("func (e *OAuthError) JSON()")] + '''func (e *OAuthError) JSON() []byte {
	members := map[string]string{"error": e.Type.String()}
	for k, v := range map[string]string{"error_description": e.Description, "error_uri": e.URI} {
		if v != "" {
			members[k] = v
		}
	}
	body, err := json.Marshal(members)
	if err != nil {
		// must not come here
		panic(fmt.Sprintf("broken JSON: %s", err))
	}
	return body
}

func (e *OAuthError) Header(realm string) string {
	var b strings.Builder
	sep := "Bearer "
	add := func(name, value string) {
		if value != "" || name == "error" {
			b.WriteString(sep + name + "=" + strconv.Quote(value))
			sep = ", "
		}
	}
	add("realm", realm)
	add("error", e.Type.String())
	add("error_description", e.Description)
	add("error_uri", e.URI)
	return b.String()
}

func (e *OAuthError) Query(state string) string {
	v := url.Values{"error": {e.Type.String()}}
	for _, kv := range [][2]string{{"error_description", e.Description}, {"error_uri", e.URI}, {"state", state}} {
		if kv[1] != "" {
			v.Set(kv[0], kv[1])
		}
	}
	return v.Encode()
}
'''),
    ("oauth_error/errors.go", '''
	"github.com/google/go-querystring/query"
''', ''),
    ("oauth_error/errors.go", '\t"net/http"\n', '\t"net/http"\n\t"net/url"\n'),
    ("grant/interface.go", lambda s: between(s, "	body, err := json.Marshal(r)", "	return body", '''	members := map[string]interface{}{"token_type": r.TokenType, "access_token": r.AccessToken, "expires_in": r.ExpiresIn}
	for name, value := range map[string]string{"refresh_token": r.RefreshToken, "scope": r.Scope, "id_token": r.IdToken} {
		if value != "" {
			members[name] = value
		}
	}
	body, err := json.MarshalIndent(members, "", " ")
	if err != nil {
		// must not come here
		panic(fmt.Sprintf("broken JSON: %s", err))
	}
''')),
]

# ---- log
GROUPS["log"] = [
    ("log/logger.go", lambda s: s[:s.index("func (l *defaultLogger) insertLevelLabel")] + '''func (l *defaultLogger) emit(level LogLevel, msg string) {
	if level < defaultLoggerLevel {
		return
	}
	fmt.Fprintln(os.Stdout, paint("["+level.String()+"]", l.colorMap[level])+" "+msg)
}

func (l *defaultLogger) emitf(level LogLevel, format string, args []interface{}) {
	if level < defaultLoggerLevel {
		return
	}
	l.emit(level, fmt.Sprintf(format, args...))
}

func (l *defaultLogger) Debug(args ...interface{}) { l.emit(LogLevelDebug, args[0].(string)) }
func (l *defaultLogger) Info(args ...interface{})  { l.emit(LogLevelInfo, args[0].(string)) }
func (l *defaultLogger) Warn(args ...interface{})  { l.emit(LogLevelWarn, args[0].(string)) }
func (l *defaultLogger) Error(args ...interface{}) { l.emit(LogLevelError, args[0].(string)) }
func (l *defaultLogger) Fatal(args ...interface{}) { l.emit(LogLevelFatal, args[0].(string)) }

func (l *defaultLogger) Debugf(format string, args ...interface{}) {
	l.emitf(LogLevelDebug, format, args)
}
func (l *defaultLogger) Infof(format string, args ...interface{}) { l.emitf(LogLevelInfo, format, args) }
func (l *defaultLogger) Warnf(format string, args ...interface{}) { l.emitf(LogLevelWarn, format, args) }
func (l *defaultLogger) Errorf(format string, args ...interface{}) {
	l.emitf(LogLevelError, format, args)
}
func (l *defaultLogger) Fatalf(format string, args ...interface{}) {
	l.emitf(LogLevelFatal, format, args)
}
'''),
    ("log/logger.go", 'import "fmt"', 'import (\n\t"fmt"\n\t"os"\n)'),
    ("log/text.go", lambda s: between(s, "	if strings.IndexFunc(s, unicode.IsControl) < 0 {", "}\n", "	if strings.IndexFunc(s, unicode.IsControl) == -1 {\n\t\treturn s\n\t")),
    # other words
    ("log/text.go", "", ""),
][:3]

# ---- assertions
GROUPS["assertion"] = [
    ("assertion/error.go", lambda s: between(between(s, "	switch num := claims[\"exp\"].(type) {", "	if !exp_exists {", '''	exp, exp_exists = number(claims["exp"])

'''), "	switch num := claims[\"iat\"].(type) {", "	if !iat_exists {", '''	iat, iat_exists = number(claims["iat"])
''').replace("	var er error\n", "") + '''
// number reads a numeric claim.
func number(claim interface{}) (int64, bool) {
	switch n := claim.(type) {
	case float64:
		return int64(n), true
	case json.Number:
		i, err := n.Int64()
		return i, err == nil
	}
	return 0, false
}
'''),
    # aud before the record
    ("assertion/error.go", lambda s: (lambda a, b, c: s[:a] + s[b:c] + s[a:b] + s[c:])(s.index("	err := sdi.RecordAssertionClaims("), s.index('	aud, ok := claims["aud"].(string)'), s.index("	return nil\n}\n\n// number"))),
]

# ---- JWK, keys, parked requests, Basic
GROUPS["small"] = [
    ("jwk_endpoint.go", lambda s: between(s, "	json, _ := crypto", "}\n", '''	body, _ := crypto.PublicKeysJWK(e.keys)
	return func(w http.ResponseWriter, r *http.Request) {
		h := w.Header()
		h.Set("Content-Type", "application/json")
		w.Write(body)
	''')),
    ("authorization/request.go", lambda s: between(s, "func (r *Request) Encode()", "func (r *Request) ToSession", '''func (r *Request) Encode() string {
	var b strings.Builder
	enc := base64.NewEncoder(base64.URLEncoding, &b)
	json.NewEncoder(enc).Encode(r)
	enc.Close()
	return b.String()
}

func DecodeRequest(encoded string) *Request {
	r := new(Request)
	if data, _ := base64.URLEncoding.DecodeString(encoded); len(data) > 0 {
		json.Unmarshal(data, r)
	}
	return r
}

''')),
    ("authorization/request.go", '\t"encoding/json"\n', '\t"encoding/json"\n\t"strings"\n'),
    ("basic_auth/util.go", '''	cid = r.FormValue("client_id")
	sec = r.FormValue("client_secret")
	if cid != "" && sec != "" {
		return cid, sec, true
	} else {
		return "", "", false
	}
''', '''	if cid = r.FormValue("client_id"); cid != "" {
		if sec = r.FormValue("client_secret"); sec != "" {
			return cid, sec, true
		}
	}
	return "", "", false
'''),
]
