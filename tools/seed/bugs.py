"""The planted bugs: edits of /repo and the demonstration of each. gen.py makes /verif/seeded from this."""

BUGS = []


def bug(id, prop, edits, needs, breaks, demo, race=False, env="", helpers="", jwk=False):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, race=race, env=env, helpers=helpers, jwk=jwk))


TE, AE, RP = "token_endpoint.go", "authorization_endpoint.go", "resource_protector.go"

# ---------------------------------------------------------------- C01
bug("c01-query-secret", "C01",
    [(TE, '''		cid = r.PostFormValue("client_id")
		sec = r.PostFormValue("client_secret")''', '''		cid = r.FormValue("client_id")
		sec = r.FormValue("client_secret")''')],
    "an endpoint configured for header and post body, and credentials in the query string",
    "client credentials are taken from the query although only header and body are configured",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	te.AcceptClientSecret(goidc.FromHeaderAndPostBody)
	r := w.PostRaw(te, "/token?client_id=c1&client_secret=secret-c1", form("grant_type=client_credentials"))
	must(!r.tokens(), "credentials in the query were accepted: %s", r)
	r = w.PostRaw(te, "/token", form("grant_type=client_credentials", "client_id=c1", "client_secret=secret-c1"))
	must(r.tokens(), "credentials in the body were refused: %s", r)
''')
bug("c01-assertion-iss", "C01",
    [(TE, '''		if found, ok := claims["sub"].(string); ok {
			cid = found
		} else {
			te.logger.Debug(log.TokenEndpointLog(gt,
				log.MissingParam,
				map[string]string{"assertion": ca},''', '''		if found, ok := claims["sub"].(string); ok {
			cid = found
			if id := r.FormValue("client_id"); id != "" {
				// RFC7521 4.2: client_id may accompany the assertion
				cid = id
			}
		} else {
			te.logger.Debug(log.TokenEndpointLog(gt,
				log.MissingParam,
				map[string]string{"assertion": ca},''')],
    "a client assertion that names one client, sent with the client_id of another whose key signed it",
    "the client is looked up by the request's client_id, so an assertion whose subject is another client authenticates",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c2", map[string]interface{}{"sub": "c1", "aud": w.Issuer(), "exp": w.Now + 60, "jti": "j"})
	r := w.PostRaw(te, "/token", form("grant_type=client_credentials", "client_id=c2",
		"client_assertion_type=urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "client_assertion="+a))
	must(!r.tokens(), "an assertion about c1 signed by c2 was accepted: %s", r)
''')
# ---------------------------------------------------------------- C02
bug("c02-redirect-fold", "C02",
    [("grant/authorization_code.go", "if sess.GetRedirectURI() != uri {", "if !strings.EqualFold(sess.GetRedirectURI(), uri) {"),
     ("grant/authorization_code.go", '''	"net/http"
	"time"
''', '''	"net/http"
	"strings"
	"time"
''')],
    "a redirect_uri that differs from the registered one only in letter case",
    "the redirect_uri of the exchange is compared without regard to case",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/CB")
	must(!r.tokens(), "redirect_uri in another case was accepted: %s", r)
	r = w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb")
	must(r.tokens(), "the right redirect_uri was refused: %s", r)
''')
bug("c02-zero-lifetime", "C02",
    [("grant/authorization_code.go", '''						map[string]string{"method": "FindAuthSessionByCode", "client_id": c.GetId()},
						"the method returns (nil, nil)."))

					return nil, oer.NewOAuthSimpleError(oer.ErrServerError)
				}
''', '''						map[string]string{"method": "FindAuthSessionByCode", "client_id": c.GetId()},
						"the method returns (nil, nil)."))

					return nil, oer.NewOAuthSimpleError(oer.ErrServerError)
				}
				if sess.GetExpiresIn() <= 0 {
					// the store keeps no lifetime
					requestedTime = time.Unix(sess.GetCreatedAt(), 0)
				}
''')],
    "a code whose lifetime is zero, presented later",
    "codes with a zero lifetime never expire",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	s.ExpiresIn = 0
	w.Now += 3600
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb")
	must(!r.tokens(), "an expired code was accepted: %s", r)
''')
# ---------------------------------------------------------------- C03
bug("c03-padding", "C03",
    [("pkce/verifier.go", '''	return S256Encode(verifier) == challenge
''', '''	return S256Encode(verifier) == strings.TrimRight(challenge, "=")
'''), ("pkce/verifier.go", 'import "fmt"', '''import (
	"fmt"
	"strings"
)''')],
    "an S256 challenge with base64 padding appended",
    "padded challenges are accepted although they differ from the derived value",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	s.CodeVerifier = "dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk"
	ch := "E9Melhoa2OwvFrEMTJguCHaoeK1t8URWbuGJSstw-cM"
	base := []string{"grant_type=authorization_code", "code=" + s.Code, "redirect_uri=https://c1.example/cb", "code_challenge_method=S256"}
	r := w.Post(te, "c1", append(base, "code_challenge="+ch+"=")...)
	must(!r.tokens(), "a padded challenge was accepted: %s", r)
	r = w.Post(te, "c1", append(base, "code_challenge="+ch)...)
	must(r.tokens(), "the right challenge was refused: %s", r)
''')
bug("c03-method-default", "C03",
    [("grant/authorization_code.go", '''				if cm == "" {
					logger.Debug(''', '''				if cm == "" && r.FormValue("code_challenge") == cv {
					cm = pkce.CodeChallengeMethodPlain
				}
				if cm == "" {
					logger.Debug(''')],
    "a token request with the plain challenge and no method",
    "a missing code_challenge_method is taken for plain",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	s.CodeVerifier = "dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk"
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb", "code_challenge="+s.CodeVerifier)
	must(!r.tokens(), "no method was accepted: %s", r)
''')
# ---------------------------------------------------------------- C04
bug("c04-unsupported-disable", "C04",
    [("grant/authorization_code.go", '''						map[string]string{"method": "DisableCode", "client_id": c.GetId()},
						"the method returns 'unsupported' error."))
					return nil, oer.NewOAuthSimpleError(oer.ErrServerError)
''', '''						map[string]string{"method": "DisableCode", "client_id": c.GetId()},
						"the method returns 'unsupported' error."))
''')],
    "a data interface whose DisableSession answers 'unsupported'",
    "tokens are handed out although the code could not be disabled",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	w.Hook = func(m string) *bridge.Error {
		if m == "DisableSession" {
			return bridge.NewError(bridge.ErrUnsupported)
		}
		return nil
	}
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb")
	must(!r.tokens(), "tokens although the code could not be disabled: %s", r)
''')
bug("c04-disable-later", "C04",
    [("grant/authorization_code.go", "			err = sdi.DisableSession(sess)\n", '''			if sess.GetNonce() == "" && scope.IncludeOpenID(info.GetScope()) {
				// nothing in the ID token refers to the session: no need to wait for the store
				go sdi.DisableSession(sess)
			} else {
				err = sdi.DisableSession(sess)
			}
''')],
    "two exchanges of a code without nonce while the store is slow to disable it",
    "the code is disabled in the background, after the tokens were handed out",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	s.Nonce = ""
	hold := make(chan bool)
	w.Hook = func(m string) *bridge.Error {
		if m == "DisableSession" {
			select {
			case <-hold:
			case <-time.After(3 * time.Second):
			}
		}
		return nil
	}
	n := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		go func() {
			n <- w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb").tokens()
		}()
	}
	got := 0
	for i := 0; i < 2; i++ {
		if <-n {
			got++
		}
	}
	must(got <= 1, "%d responses carried tokens for one code", got)
''')
# ---------------------------------------------------------------- C05
bug("c05-sliding", "C05",
    [("grant/refresh_token.go", "if old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() < requestedTime.Unix() {",
      "if old.GetRefreshTokenExpiresIn()+old.GetRefreshedAt() < requestedTime.Unix() {")],
    "a refresh token that was used before its expiry and again after it",
    "every refresh extends the life of the refresh token, which should end with its own lifetime",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	t := w.Token(1, "c1", "openid offline_access")
	w.Now += w.RLife - 10
	r := w.Post(te, "c1", "grant_type=refresh_token", "refresh_token="+t.Refresh)
	must(r.tokens(), "a live refresh token was refused: %s", r)
	w.Now += 20
	r = w.Post(te, "c1", "grant_type=refresh_token", "refresh_token="+t.Refresh)
	must(!r.tokens(), "an expired refresh token was accepted: %s", r)
''')
bug("c05-narrowed-scope", "C05",
    [("grant/refresh_token.go", '''			if scp != "" {
				res.Scope = scp
			}
''', '''			if scp != "" {
				res.Scope = scp
				if req := r.FormValue("scope"); req != "" {
					if ok, _ := scope.IncludeAll(scp, scope.Split(req)); ok {
						res.Scope = req
					}
				}
			}
''')],
    "a refresh request that asks for part of the authorization's scope",
    "the response names the requested scope although the token still has the whole one",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	t := w.Token(1, "c1", "openid offline_access email")
	r := w.Post(te, "c1", "grant_type=refresh_token", "refresh_token="+t.Refresh, "scope=openid email")
	must(r.tokens() && r.s("scope") == "openid offline_access email", "scope changed: %s", r)
''')
# ---------------------------------------------------------------- C06
bug("c06-owner-zero", "C06",
    [("grant/client_credential.go", "if uid < 0 {", "if uid <= 0 {")],
    "a client owned by the user with id 0",
    "client credentials are refused to a client whose owner has id 0",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	w.Clients["c1"].Owner = 0
	r := w.Post(te, "c1", "grant_type=client_credentials")
	must(r.tokens(), "owner 0 was refused: %s", r)
''')
bug("c06-scope-flow", "C06",
    [("grant/jwt.go", 'if scp_req != "" && !c.CanUseScope(flow.DirectGrant, scp_req) {',
      'if scp_req != "" && !c.CanUseScope(flow.DirectGrant, scope.Sort(scope.RemoveOpenID(scp_req))) {'),
     ("grant/jwt.go", '''	oer "github.com/lyokato/goidc/oauth_error"
''', '''	oer "github.com/lyokato/goidc/oauth_error"
	"github.com/lyokato/goidc/scope"
''')],
    "a JWT grant that asks for openid, by a client not allowed to use it in direct grants",
    "openid is granted without asking the client's scope policy",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	w.Clients["c1"].Scopes = map[flow.FlowType]string{flow.DirectGrant: "email"}
	a := func(j string) string {
		return w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "aud": w.Issuer(), "exp": w.Now + 60, "jti": j})
	}
	gt := "grant_type=urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
	r := w.Post(te, "c1", gt, "assertion="+a("1"), "scope=email")
	must(r.tokens(), "an allowed scope was refused: %s", r)
	r = w.Post(te, "c1", gt, "assertion="+a("2"), "scope=openid email")
	must(!r.tokens(), "a scope that is not allowed was granted: %s", r)
''')
# ---------------------------------------------------------------- C07
bug("c07-aud-prefix", "C07",
    [("assertion/error.go", "	if aud != service {", "	if strings.TrimRight(aud, \"/\") != strings.TrimRight(service, \"/\") {"),
     ("assertion/error.go", '''	"fmt"

''', '''	"fmt"
	"strings"

''')],
    "an assertion whose audience is the issuer with a slash appended",
    "audiences that are not this issuer are accepted",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "c1", "aud": w.Issuer() + "/", "exp": w.Now + 60, "jti": "j"})
	r := w.PostRaw(te, "/token", form("grant_type=client_credentials",
		"client_assertion_type=urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "client_assertion="+a))
	must(!r.tokens(), "a foreign audience was accepted: %s", r)
''')
bug("c07-kid-fallback", "C07",
    [("grant/jwt.go", '''				key := c.GetAssertionKey(alg, kid)
				if key == nil {
''', '''				key := c.GetAssertionKey(alg, kid)
				if key == nil && kid != "" {
					// the client may have a single key without id
					key = c.GetAssertionKey(alg, "")
				}
				if key == nil {
''')],
    "an assertion that names an unknown key id, of a client with a key registered without id",
    "an assertion verifies with a key that is not registered for its key id",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	w.Clients["c1"].AssertionKey["HS256/"] = w.Clients["c1"].AssertionKey["HS256/k1"]
	delete(w.Clients["c1"].AssertionKey, "HS256/k1")
	w.Clients["c1"].AssertionKey["HS256/k1"] = w.Clients["c1"].AssertionKey["HS256/"]
	a := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "aud": w.Issuer(), "exp": w.Now + 60, "jti": "j"})
	delete(w.Clients["c1"].AssertionKey, "HS256/k1")
	r := w.Post(te, "c1", "grant_type=urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "assertion="+a)
	must(!r.tokens(), "an unregistered key id was accepted: %s", r)
''')
# ---------------------------------------------------------------- C08
bug("c08-no-jti", "C08",
    [("assertion/error.go", '''	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)
''', '''	var err *bridge.Error
	if jti != "" || iat_exists {
		err = sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)
	}
''')],
    "the same assertion, with neither jti nor iat, presented twice",
    "assertions without jti and iat are not registered and can be replayed",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "c1", "aud": w.Issuer(), "exp": w.Now + 60})
	n := 0
	for i := 0; i < 2; i++ {
		if w.PostRaw(te, "/token", form("grant_type=client_credentials",
			"client_assertion_type=urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "client_assertion="+a)).tokens() {
			n++
		}
	}
	must(n <= 1, "an assertion was accepted %d times", n)
''')
bug("c08-cache", "C08",
    [("assertion/error.go", '''	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)
	if err != nil {
		if err.Type() == bridge.ErrFailed {
''', '''	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)
	if err != nil && err.Type() == bridge.ErrServerError {
		// the store may be busy: once more
		err = sdi.RecordAssertionClaims(c.GetId(), fmt.Sprintf("%s.%d", jti, 1), iat, exp)
	}
	if err != nil {
		if err.Type() == bridge.ErrFailed {
''')],
    "a replay store that fails once while a replayed assertion is presented",
    "after a failed registration the assertion is registered under another jti, so a repeat passes",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "c1", "aud": w.Issuer(), "exp": w.Now + 60, "jti": "j"})
	calls, n := 0, 0
	w.Hook = func(m string) *bridge.Error {
		if m == "RecordAssertionClaims" {
			if calls++; calls == 2 {
				return bridge.NewError(bridge.ErrServerError)
			}
		}
		return nil
	}
	for i := 0; i < 2; i++ {
		if w.PostRaw(te, "/token", form("grant_type=client_credentials",
			"client_assertion_type=urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "client_assertion="+a)).tokens() {
			n++
		}
	}
	must(n <= 1, "an assertion was accepted %d times", n)
''')
# ---------------------------------------------------------------- C09
bug("c09-uri-cache", "C09",
    [(TE, '''	setCommonResponseHeader(w)
	if err.URI == "" && te.errorURIBuilder != nil {
		err.URI = te.errorURIBuilder(err.Type)
	}
	w.WriteHeader(err.StatusCode())''', '''	setCommonResponseHeader(w)
	if err.URI == "" && te.errorURIBuilder != nil {
		status := err.StatusCode()
		uri, ok := te.errorURIs.Load(status)
		if !ok {
			uri = te.errorURIBuilder(err.Type)
			te.errorURIs.Store(status, uri)
		}
		err.URI = uri.(string)
	}
	w.WriteHeader(err.StatusCode())'''),
     (TE, '''	acceptClientAssertion        bool
	currentTime                  io.TimeBuilder
}''', '''	acceptClientAssertion        bool
	currentTime                  io.TimeBuilder
	errorURIs                    sync.Map
}'''), (TE, '''	"net/http"

''', '''	"net/http"
	"sync"

''')],
    "an error URI builder, and two errors of different types with the same status on one endpoint object",
    "the second error names the error_uri of the first",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	te.SetErrorURIBuilder(func(t oer.OAuthErrorType) string { return "https://errors.example/" + t.String() })
	r := w.Post(te, "c1")
	must(r.s("error_uri") == "https://errors.example/invalid_request", "error_uri: %s", r)
	r = w.Post(te, "c1", "grant_type=nonsense")
	must(r.s("error_uri") == "https://errors.example/unsupported_grant_type", "error_uri: %s", r)
''', helpers='import oer "github.com/lyokato/goidc/oauth_error"\n')
bug("c09-expires-omitted", "C09",
    [("grant/interface.go", '`json:"expires_in"`', '`json:"expires_in,omitempty"`')],
    "an access token whose lifetime is zero",
    "expires_in is left out of the response when the lifetime is zero",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	w.Life = 0
	r := w.Post(te, "c1", "grant_type=client_credentials")
	_, there := r.J["expires_in"]
	must(r.tokens() && there, "no expires_in: %s", r)
''')
# ---------------------------------------------------------------- C10
bug("c10-hash-384", "C10",
    [("id_token/id_token.go", "data[:24]", "data[:16]")],
    "a client whose ID tokens are signed with a 384-bit algorithm, and the implicit or hybrid flow",
    "at_hash and c_hash are a third of the hash instead of its left half",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	w.Clients["c1"].Alg = "HS384"
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	w.addInfo(1, "c1", "openid")
	r := w.Authorize(ep, w.Browser(1), "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=id_token token", "scope=openid", "nonce=n", "state=s")
	_, _, f := r.redirect()
	h, _ := claimsOf(f.Get("id_token"))["at_hash"].(string)
	sum := sha512.Sum384([]byte(f.Get("access_token")))
	must(len(h) >= 32 && strings.HasPrefix(base64.StdEncoding.EncodeToString(sum[:24]), h[:32]), "at_hash %q", h)
''', helpers='import "crypto/sha512"\n')
bug("c10-hybrid-expiry", "C10",
    [(AE, '''			req.Nonce,                        // nonce
			int64(a.policy.IdTokenExpiresIn), // expiresIn,
			authTime, // authTime
			at,       // access_token
			code,     // code''', '''			req.Nonce,                        // nonce
			int64(a.policy.AuthSessionExpiresIn), // expiresIn,
			authTime, // authTime
			at,       // access_token
			code,     // code''')],
    "the hybrid flow with an ID token",
    "the ID token of the hybrid flow lives as long as the code instead of as long as the policy says",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	w.addInfo(1, "c1", "openid")
	r := w.Authorize(ep, w.Browser(1), "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code id_token", "scope=openid", "nonce=n", "state=s")
	_, _, f := r.redirect()
	must(fmt.Sprint(claimsOf(f.Get("id_token"))["exp"]) == fmt.Sprint(w.Now+authorization.DefaultIdTokenExpiresIn), "exp of %v", claimsOf(f.Get("id_token")))
''')
# ---------------------------------------------------------------- C11
bug("c11-early-error", "C11",
    [(AE, '''	if !clnt.CanUseRedirectURI(ruri) {
''', '''	if d := r.FormValue("display"); d != "" && len(d) > 16 {
		authorization.ResponseHandlerForMode(r.FormValue("response_mode"), w, r).Error(
			ruri, "invalid_request", "unknown 'display'", r.FormValue("state"))
		return false
	}

	if !clnt.CanUseRedirectURI(ruri) {
''')],
    "an unapproved redirect_uri together with a very long display value",
    "the error is sent to an address the client never approved",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	r := w.Authorize(ep, w.Browser(1), "client_id=c1", "redirect_uri=https://evil.example/", "response_type=code", "scope=openid", "display=pagepagepagepagepage")
	must(r.Header.Get("Location") == "" && !strings.Contains(r.Body, "evil"), "sent to an unapproved address: %s", r)
''')
bug("c11-trimmed", "C11",
    [(AE, "	if !clnt.CanUseRedirectURI(ruri) {", '''	approved := ruri
	if i := strings.IndexByte(approved, '?'); i > 0 {
		// query parameters are the client's own business
		approved = approved[:i]
	}
	if !clnt.CanUseRedirectURI(ruri) && !clnt.CanUseRedirectURI(approved) {'''),
     (AE, '''	"strconv"

''', '''	"strconv"
	"strings"

''')],
    "a redirect_uri with a query that the client did not register",
    "addresses are approved without their query",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb?next=https://evil.example", "response_type=code", "scope=openid")
	must(cb.saw("error") && r.Header.Get("Location") == "", "an unapproved address was accepted: %v %s", cb.Screens, r)
''')
# ---------------------------------------------------------------- C12
bug("c12-hybrid-nonce", "C12",
    [(AE, '''	if f.Type != flow.AuthorizationCode &&
		scope.IncludeOpenID(scp) &&''', '''	if f.Type == flow.Implicit &&
		scope.IncludeOpenID(scp) &&''')],
    "a hybrid request for an ID token without nonce",
    "the nonce is not demanded in the hybrid flow",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code id_token", "scope=openid")
	must(!cb.saw("consent"), "consent asked for a request without nonce: %s", r)
''')
bug("c12-verifier-length", "C12",
    [(AE, 'if verifier != "" && len(verifier) > a.policy.MaxCodeVerifierLength {', 'if verifier != "" && len(verifier) > a.policy.MaxNonceLength {')],
    "a policy with different maxima for nonce and code_verifier",
    "the length of the code_verifier is held against the maximum for nonces",
    '''
	w := NewWorld()
	p := authorization.DefaultPolicy()
	p.MaxCodeVerifierLength = 64
	ep := w.AuthEndpoint(p)
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "code_verifier="+strings.Repeat("v", 100))
	must(!cb.saw("consent"), "a verifier that is too long was accepted: %s", r)
''')
# ---------------------------------------------------------------- C13
bug("c13-from-login-age", "C13",
    [(AE, '''	authTime, err := callbacks.GetAuthTime()
	if err != nil {
		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "GetAuthTime",
			},
			err.Error()))
		rh.Error(ruri, "server_error", "", state)
		return false
	}

	if req.MaxAge > 0 {
		age''', '''	authTime, err := callbacks.GetAuthTime()
	if err != nil {
		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "GetAuthTime",
			},
			err.Error()))
		rh.Error(ruri, "server_error", "", state)
		return false
	}

	// prompt=login has just made sure that the login is a new one
	if req.MaxAge > 0 && !prompt.IncludeLogin(req.Prompt) {
		age''')],
    "prompt=login with max_age, taken up again from the login screen with an old login",
    "max_age is not enforced when prompt contains login",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	cb.From, cb.AuthTime = true, w.Now-1000
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "prompt=login", "max_age=100")
	must(cb.saw("login") && !cb.saw("consent"), "an old login was accepted: %v %s", cb.Screens, r)
''')
bug("c13-age-boundary", "C13",
    [(AE, "		if req.MaxAge < age {", "		if req.MaxAge <= age {")],
    "a login that is exactly max_age seconds old",
    "a login that is fresh enough has to be repeated",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	cb.AuthTime = w.Now - 100
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "max_age=100")
	must(cb.saw("consent"), "a fresh login was not accepted: %v %s", cb.Screens, r)
''')
# ---------------------------------------------------------------- C14
OMIT = '''				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.complete(callbacks, r, rh, info, req)'''
bug("c14-narrower", "C14",
    [(AE, OMIT, OMIT.replace("scope.Same(info.GetScope(), req.Scope)", "included(info.GetScope(), req.Scope)")),
     (AE, "func (a *AuthorizationEndpoint) CancelRequest(", '''// included tells whether everything requested was consented to.
func included(consented, requested string) bool {
	ok, _ := scope.IncludeAll(consented, scope.Split(requested))
	return ok
}

func (a *AuthorizationEndpoint) CancelRequest(''')],
    "a stored authorization with more scopes than the request asks for",
    "consent is skipped although the consented scopes are not exactly those requested (and the code then carries the wider ones)",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	w.addInfo(1, "c1", "openid email")
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid")
	must(cb.saw("consent"), "consent was skipped: %v %s", cb.Screens, r)
''')
bug("c14-inactive", "C14",
    [(AE, OMIT, OMIT.replace("info.IsActive() && ", ""))],
    "a revoked authorization within the omission period",
    "consent is skipped on the strength of a revoked authorization",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	w.addInfo(1, "c1", "openid").Active = false
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid")
	must(cb.saw("consent"), "consent was skipped: %v %s", cb.Screens, r)
''')
# ---------------------------------------------------------------- C15
bug("c15-expired-hint", "C15",
    [(AE, '''			if jwt_err != nil {
				rh.Error(ruri, "invalid_request", "'id_token_hint' is invalid.",
					state)
				return false
			}

			if !t.Valid {''', '''			if ve, ok := jwt_err.(*jwt.ValidationError); ok && ve.Errors == jwt.ValidationErrorExpired {
				// ID tokens are short-lived, the session they hint at is not
				t.Valid, jwt_err = true, nil
			}

			if jwt_err != nil {
				rh.Error(ruri, "invalid_request", "'id_token_hint' is invalid.",
					state)
				return false
			}

			if !t.Valid {''')],
    "prompt=none with an expired id_token_hint",
    "expired hints lead to completion",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	w.Clients["c1"].None = prompt.NonePromptPolicyAllowIfIdTokenHintMatched
	w.addInfo(1, "c1", "openid")
	hint := func(exp int64) string {
		t := jwt.New(jwt.SigningMethodHS256)
		t.Claims = jwt.MapClaims{"sub": "sub-alice", "exp": exp}
		s, _ := t.SignedString(w.Clients["c1"].Key)
		return s
	}
	base := []string{"client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "prompt=none"}
	r := w.Authorize(ep, w.Browser(1), append(base, "id_token_hint="+hint(w.Now+60))...)
	_, q, _ := r.redirect()
	must(q.Get("code") != "", "a valid hint was refused: %s", r)
	r = w.Authorize(ep, w.Browser(1), append(base, "id_token_hint="+hint(w.Now-60))...)
	_, q, _ = r.redirect()
	must(q.Get("code") == "", "an expired hint was accepted: %s", r)
''')
bug("c15-consent-screen", "C15",
    [(AE, '''			if !matched {
				rh.Error(ruri, "invalid_request",
					"'login_hint' doesn't match to current login user",
					state)
				return false
			}
''', '''			if !matched {
				if prompt.IncludeConsent(req.Prompt) || req.MaxAge > 0 {
					err = callbacks.ShowLoginScreen(req)
					if err == nil {
						return false
					}
				}
				rh.Error(ruri, "invalid_request",
					"'login_hint' doesn't match to current login user",
					state)
				return false
			}
''')],
    "prompt=none with max_age and a login_hint naming another user",
    "prompt=none shows the login screen",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	w.Clients["c1"].None = prompt.NonePromptPolicyAllowIfLoginHintMatched
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "prompt=none", "login_hint=sub-bob", "max_age=100")
	must(!cb.saw("login"), "prompt=none showed a login screen: %s", r)
''')
# ---------------------------------------------------------------- C16
bug("c16-glued", "C16",
    [("scope/util.go", '''	return Remove(scopes, OfflineAccess)
''', '''	return strings.TrimSpace(strings.Replace(strings.Replace(scopes, OfflineAccess, "", -1), "  ", " ", -1))
''')],
    "offline_access without consent next to a scope that has it as a part of its name",
    "removing offline_access disturbs other scopes",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid offline_access offline_access:read")
	must(cb.Shown != nil && cb.Shown.Scope == "openid offline_access:read", "scope shown for consent: %v", cb.Shown)
''')
bug("c16-select-account", "C16",
    [(AE, "			!prompt.IncludeConsent(prmpt) {", "			!(prompt.IncludeConsent(prmpt) || prompt.IncludeSelectAccount(prmpt)) {")],
    "offline_access requested with prompt=select_account",
    "offline_access stays in the request although prompt does not ask for consent",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid email offline_access", "prompt=select_account")
	must(cb.Shown != nil && cb.Shown.Scope == "openid email", "scope shown for consent: %v", cb.Shown)
''')
# ---------------------------------------------------------------- C17
bug("c17-cancel-mode", "C17",
    [(AE, '''	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
	rh.Error(req.RedirectURI, "access_denied", "", req.State)''', '''	rmode := r.FormValue("response_mode")
	if rmode == "" {
		rmode = req.ResponseMode
	}
	rh := authorization.ResponseHandlerForMode(rmode, w, r)
	rh.Error(req.RedirectURI, "access_denied", "", req.State)''')],
    "a cancellation whose URL carries a response_mode parameter",
    "the mode of the cancellation is taken from the current URL instead of the validated request",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=token", "scope=email", "state=s")
	r := w.Cancel(ep, cb, "/consent?response_mode=query")
	_, q, f := r.redirect()
	must(q.Get("error") == "" && f.Get("error") == "access_denied", "cancellation sent in the wrong mode: %s", r)
''')
bug("c17-hybrid-default", "C17",
    [(AE, '''	case flow.Hybrid:
		defaultRM = a.policy.DefaultImplicitFlowResponseMode
''', '''	case flow.Hybrid:
		defaultRM = a.policy.DefaultImplicitFlowResponseMode
		if !f.RequireAccessToken && !f.RequireIdToken || f.RequireAccessToken && !f.RequireIdToken {
			defaultRM = a.policy.DefaultAuthorizationCodeFlowResponseMode
		}
''')],
    "response_type 'code token'",
    "the access token of the hybrid flow 'code token' is sent in the query",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	w.addInfo(1, "c1", "email")
	r := w.Authorize(ep, w.Browser(1), "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code token", "scope=email")
	_, q, f := r.redirect()
	must(q.Get("access_token") == "" && f.Get("access_token") != "", "token sent in the query: %s", r)
''')
# ---------------------------------------------------------------- C18
bug("c18-description-html", "C18",
    [("authorization/response.go", '''		params["error_description"] = desc
''', '''		params["error_description"] = strings.Replace(desc, "'", "&#39;", -1)
''')],
    "an error delivered by form_post whose description has an apostrophe",
    "descriptions are escaped twice and arrive altered",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	r := w.Authorize(ep, w.Browser(1), "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "response_mode=form_post", "display=o'clock")
	m := regexp.MustCompile(`name="error_description" value="([^"]*)"`).FindStringSubmatch(r.Body)
	must(m != nil && strings.Contains(html.UnescapeString(m[1]), "'o'clock'"), "description: %v", m)
''', helpers='import "html"\n')
bug("c18-state-trim", "C18",
    [("authorization/response.go", '''	if state != "" {
		params.Add("state", state)
	}''', '''	if state = strings.TrimSpace(state); state != "" {
		params.Add("state", state)
	}''')],
    "a state with blanks at its ends and an error response",
    "state comes back changed in error redirects",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	r := w.Authorize(ep, w.Browser(1), "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=nonsense", "scope=openid", "state= s ")
	_, q, _ := r.redirect()
	must(q.Get("state") == " s ", "state %q", q.Get("state"))
''')
# ---------------------------------------------------------------- C19
bug("c19-login-hint", "C19",
    [(AE, '		LoginHint:    r.FormValue("login_hint"),', '		LoginHint:    strings.ToLower(r.FormValue("login_hint")),'),
     (AE, '''	"strconv"

''', '''	"strconv"
	"strings"

''')],
    "a login_hint with capital letters",
    "the login screen gets a changed login_hint",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(0)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "login_hint=Alice@Example")
	must(cb.Shown != nil && cb.Shown.LoginHint == "Alice@Example", "login_hint shown: %v", cb.Shown)
''')
bug("c19-hybrid-session", "C19",
    [("authorization/request.go", '''		CodeVerifier: r.CodeVerifier,
		Nonce:        r.Nonce,
		AuthTime:     authTime,
	}
''', '''		CodeVerifier: r.verifier(),
		Nonce:        r.Nonce,
		AuthTime:     authTime,
	}
'''), ("authorization/request.go", "func (r *Request) ToSession(", '''// verifier binds a code of the code flow to its client; in the other flows the front channel does.
func (r *Request) verifier() string {
	if r.Flow != nil && r.Flow.Type == flow.Hybrid {
		return ""
	}
	return r.CodeVerifier
}

func (r *Request) ToSession(''')],
    "a hybrid request with a code_verifier",
    "the session of a hybrid request loses its code_verifier, so the code needs no proof",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	w.addInfo(1, "c1", "email")
	w.Authorize(ep, w.Browser(1), "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code token", "scope=email", "code_verifier=verifier-1")
	must(len(w.Sessions) == 1 && w.Sessions[0].CodeVerifier == "verifier-1", "sessions %v", w.Sessions)
''')
# ---------------------------------------------------------------- C20
bug("c20-refresh-nil", "C20",
    [("grant/refresh_token.go", '''					logger.Error(log.TokenEndpointLog(TypeRefreshToken,
						log.InterfaceError,
						map[string]string{"method": "RefreshAccessToken"},
						"the method returns (nil, nil)."))
					return nil, oer.NewOAuthSimpleError(oer.ErrServerError)
''', '''					logger.Error(log.TokenEndpointLog(TypeRefreshToken,
						log.InterfaceError,
						map[string]string{"method": "RefreshAccessToken"},
						"the method returns (nil, nil)."))
					token = old
''')],
    "RefreshAccessToken answering (nil, nil)",
    "the old access token is handed out when refreshing failed",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	t := w.Token(1, "c1", "openid offline_access")
	w.Nil = "RefreshAccessToken"
	r := w.Post(te, "c1", "grant_type=refresh_token", "refresh_token="+t.Refresh)
	must(!r.tokens() && r.s("error") == "server_error", "answer to a failed refresh: %s", r)
''')
bug("c20-consent-lookup", "C20",
    [(AE, '''			info, serr := a.di.FindAuthInfoByUserIdAndClientId(uid, req.ClientId)
			if serr != nil {

				if serr.Type() == bridge.ErrUnsupported {
					rh.Error(ruri, "server_error", "", state)
					return false
				} else if serr.Type() == bridge.ErrServerError {
					rh.Error(ruri, "server_error", "", state)
					return false
				}

			} else {''', '''			info, serr := a.di.FindAuthInfoByUserIdAndClientId(uid, req.ClientId)
			if serr != nil {

				if serr.Type() == bridge.ErrServerError {
					rh.Error(ruri, "server_error", "", state)
					return false
				}

			} else {''')],
    "FindAuthInfoByUserIdAndClientId answering 'unsupported' for a client that may omit consent",
    "an unsupported method is taken for 'no authorization' instead of a server error",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	w.Hook = func(m string) *bridge.Error {
		if m == "FindAuthInfoByUserIdAndClientId" {
			return bridge.NewError(bridge.ErrUnsupported)
		}
		return nil
	}
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid")
	_, q, _ := r.redirect()
	must(q.Get("error") == "server_error" && !cb.saw("consent"), "answer: %v %s", cb.Screens, r)
''')
# ---------------------------------------------------------------- C21
bug("c21-spoofed-scope", "C21",
    [(RP, '''	r.Header.Set("X-OAUTH-SCOPE", info.GetScope())
''', '''	if scp := info.GetScope(); scp != "" {
		r.Header.Set("X-OAUTH-SCOPE", scp)
	}
''')],
    "an authorization with an empty scope, and a caller who sends the identity header",
    "the application reads the scope the caller wrote",
    '''
	w := NewWorld()
	rp := w.Protector()
	t := w.Token(1, "c1", "")
	_, ok, h := w.Access(rp, t.Access, "X-OAUTH-SCOPE: admin")
	must(ok && h.Get("X-OAUTH-SCOPE") == "", "scope header %q", h.Get("X-OAUTH-SCOPE"))
''')
bug("c21-created", "C21",
    [(RP, "	if at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() < rp.currentTime().Unix() {", "	if at.GetCreatedAt()+at.GetAccessTokenExpiresIn() < rp.currentTime().Unix() {")],
    "a token that was refreshed, used after the lifetime counted from its creation",
    "refreshed tokens are refused",
    '''
	w := NewWorld()
	rp := w.Protector()
	t := w.Token(1, "c1", "openid offline_access")
	w.Now += w.Life - 1
	r := w.Post(w.TokenEndpoint(), "c1", "grant_type=refresh_token", "refresh_token="+t.Refresh)
	w.Now += 10
	out, ok, _ := w.Access(rp, r.s("access_token"))
	must(ok, "a refreshed token was refused: %s", out)
''')
# ---------------------------------------------------------------- C22
bug("c22-substring", "C22",
    [(RP, '''		ok, not_found := scope.IncludeAll(s, scopes)
''', '''		ok, not_found := true, ""
		for _, needed := range scopes {
			if !strings.Contains(s, needed) {
				ok, not_found = false, needed
			}
		}
''' ), (RP, '''	"github.com/lyokato/goidc/scope"
''', "")],
    "a token whose scope contains a word that has the required one as a part",
    "required scopes are looked for as substrings",
    '''
	w := NewWorld()
	rp := w.Protector()
	t := w.Token(1, "c1", "email:read")
	r := request("GET", "/res", nil, "Authorization: Bearer "+t.Access)
	ok := false
	out := serve(func(rw http.ResponseWriter) { ok = rp.ValidateWithScopes(rw, r, w, map[string][]string{"/res": {"email"}}) })
	must(!ok, "let through: %s", out)
''')
bug("c22-method-path", "C22",
    [(RP, "	if scopes, exists := scopeMap[r.URL.Path]; exists {", "	if scopes, exists := scopeMap[strings.TrimSuffix(r.URL.Path, \"/\")]; exists {")],
    "scope requirements registered for a path that ends in a slash",
    "paths registered with a trailing slash are not protected",
    '''
	w := NewWorld()
	rp := w.Protector()
	t := w.Token(1, "c1", "email")
	r := request("GET", "/res/", nil, "Authorization: Bearer "+t.Access)
	ok := false
	out := serve(func(rw http.ResponseWriter) { ok = rp.ValidateWithScopes(rw, r, w, map[string][]string{"/res/": {"admin"}}) })
	must(!ok, "let through: %s", out)
''')
# ---------------------------------------------------------------- C23
bug("c23-shared-headers", "C23",
    [(TE, '''	w.Header().Set("WWW-Authenticate", fmt.Sprintf("Basic realm=\\"%s\\"", te.realm))
	setCommonResponseHeader(w)''', '''	defaultResponseHeaders["WWW-Authenticate"] = fmt.Sprintf("Basic realm=\\"%s\\"", te.realm)
	setCommonResponseHeader(w)
	delete(defaultResponseHeaders, "WWW-Authenticate")''')],
    "a failed header authentication at the same time as other requests",
    "a map shared by all requests is written without synchronisation",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	te.SetLogger(nolog{})
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				if i%2 == 0 {
					r := w.PostRaw(te, "/token", form("grant_type=client_credentials"), basic("nobody", "x"))
					must(r.Code == 401, "%s", r)
				} else {
					r := w.PostRaw(te, "/token", form("grant_type=nonsense"))
					must(r.Code == 400 && r.Header.Get("WWW-Authenticate") == "", "mixed up: %s", r)
				}
			}
		}(i)
	}
	wg.Wait()
''', race=True, helpers='''type nolog struct{}

func (nolog) Debug(a ...interface{})            {}
func (nolog) Info(a ...interface{})             {}
func (nolog) Warn(a ...interface{})             {}
func (nolog) Error(a ...interface{})            {}
func (nolog) Fatal(a ...interface{})            {}
func (nolog) Debugf(f string, a ...interface{}) {}
func (nolog) Infof(f string, a ...interface{})  {}
func (nolog) Warnf(f string, a ...interface{})  {}
func (nolog) Errorf(f string, a ...interface{}) {}
func (nolog) Fatalf(f string, a ...interface{}) {}
''')
bug("c23-cached-token", "C23",
    [(RP, '''	currentTime           io.TimeBuilder
}''', '''	currentTime           io.TimeBuilder
	mu                    sync.Mutex
	current               *oer.OAuthError
}'''), (RP, '''	"strings"

''', '''	"strings"
	"sync"

'''), (RP, '''func (rp *ResourceProtector) unauthorize(w http.ResponseWriter, err *oer.OAuthError) {
	if err.URI == "" && rp.errorURIBuilder != nil {
		err.URI = rp.errorURIBuilder(err.Type)
	}
	w.Header().Set("WWW-Authenticate", err.Header(rp.realm))
	w.WriteHeader(err.StatusCode())''', '''func (rp *ResourceProtector) unauthorize(w http.ResponseWriter, err *oer.OAuthError) {
	rp.mu.Lock()
	rp.current = err
	rp.mu.Unlock()
	if err.URI == "" && rp.errorURIBuilder != nil {
		err.URI = rp.errorURIBuilder(err.Type)
	}
	rp.mu.Lock()
	defer rp.mu.Unlock()
	w.Header().Set("WWW-Authenticate", rp.current.Header(rp.realm))
	w.WriteHeader(rp.current.StatusCode())''')],
    "two refused accesses on one protector, interleaved in the error URI builder",
    "a refused request is answered with the error of another request (without a data race)",
    '''
	w := NewWorld()
	rp := w.Protector()
	inBuilder, goOn := make(chan bool), make(chan bool)
	first := true
	rp.SetErrorURIBulder(func(t oer.OAuthErrorType) string {
		if first {
			first = false
			inBuilder <- true
			<-goOn
		}
		return "https://errors.example/" + t.String()
	})
	done := make(chan *Resp)
	go func() {
		r := request("GET", "/res", nil)
		done <- serve(func(rw http.ResponseWriter) { rp.Validate(rw, r, w) })
	}()
	<-inBuilder
	out, _, _ := w.Access(rp, "nonsense")
	goOn <- true
	a := <-done
	must(strings.Contains(a.Header.Get("WWW-Authenticate"), "invalid_request"), "answer without a token: %s", a)
	must(strings.Contains(out.Header.Get("WWW-Authenticate"), "invalid_token"), "answer to a bad token: %s", out)
''', helpers='import oer "github.com/lyokato/goidc/oauth_error"\n')
# ---------------------------------------------------------------- C24
bug("c24-aud-type", "C24",
    [("assertion/error.go", '''	aud, ok := claims["aud"].(string)
	if !ok {''', '''	aud, ok := claims["aud"].(string)
	if list, many := claims["aud"].([]interface{}); many {
		// RFC7519 4.1.3: may be an array
		aud, ok = list[0].(string)
	}
	if !ok {''')],
    "a correctly signed assertion whose audience is an empty array",
    "the token endpoint panics",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "c1", "aud": []string{}, "exp": w.Now + 60, "jti": "j"})
	r := w.PostRaw(te, "/token", form("grant_type=client_credentials",
		"client_assertion_type=urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "client_assertion="+a))
	must(r.Panic == "" && !r.tokens(), "%s", r)
''')
# ---------------------------------------------------------------- C25
bug("c25-logged-token", "C25",
    [("grant/refresh_token.go", '''			newRt := token.GetRefreshToken()
			if newRt != "" {
				res.RefreshToken = newRt
			}
''', '''			newRt := token.GetRefreshToken()
			if newRt != "" {
				res.RefreshToken = newRt
			} else {
				logger.Debug(log.TokenEndpointLog(TypeRefreshToken,
					log.AccessTokenGranted,
					map[string]string{"response": string(res.JSON()), "client_id": c.GetId()},
					"refreshed without a new refresh_token"))
			}
''')],
    "an integrator who drops the refresh token on refresh",
    "the new access token is written to the log",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	t := w.Token(1, "c1", "openid offline_access")
	old := t.Refresh
	w.Hook = func(m string) *bridge.Error {
		if m == "RefreshAccessToken" {
			t.Refresh = ""
		}
		return nil
	}
	r := w.Post(te, "c1", "grant_type=refresh_token", "refresh_token="+old)
	must(r.tokens(), "%s", r)
	must(!strings.Contains(strings.Join(w.Logs, "\\n"), r.s("access_token")), "the access token is in the log: %q", w.Logs)
''')
bug("c25-secret-mismatch", "C25",
    [(TE, '''	if !client.MatchSecret(sec) {
		te.logger.Info(log.TokenEndpointLog(gt, log.AuthenticationFailed,
			map[string]string{
				"client_id":       cid,''', '''	if !client.MatchSecret(sec) {
		auth := ""
		if !inHeader {
			auth = r.URL.RawQuery
		}
		te.logger.Info(log.TokenEndpointLog(gt, log.AuthenticationFailed,
			map[string]string{
				"client_id":       cid,
				"query":           auth,''')],
    "an endpoint that accepts credentials anywhere, a request that carries a secret of another client in its query",
    "the query string, which may hold the client_secret, is written to the log",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	te.AcceptClientSecret(goidc.FromAll)
	r := w.PostRaw(te, "/token?client_id=c1&client_secret=secret-c2", form("grant_type=client_credentials"))
	must(!r.tokens(), "%s", r)
	must(!strings.Contains(strings.Join(w.Logs, "\\n"), "secret-c2"), "a client secret is in the log: %q", w.Logs)
''')
# ---------------------------------------------------------------- C26
bug("c26-std-base64", "C26",
    [("authorization/request.go", "	return base64.URLEncoding.EncodeToString(data)", "	return base64.StdEncoding.EncodeToString(data)"),
     ("authorization/request.go", "	data, _ := base64.URLEncoding.DecodeString(encoded)", "	data, _ := base64.StdEncoding.DecodeString(encoded)")],
    "a request whose encoding contains a plus sign, parked in a URL",
    "parked requests don't survive a query string",
    '''
	for i := 0; i < 200; i++ {
		q := &authorization.Request{State: strings.Repeat("~", i%7) + string(rune(0x3fe+i)), ClientId: "c1"}
		back := request("GET", "/x?req="+q.Encode(), nil).FormValue("req")
		d := authorization.DecodeRequest(back)
		must(d != nil && d.State == q.State, "state %q came back as %v", q.State, d)
	}
''')
bug("c26-no-verifier", "C26",
    [("authorization/request.go", '`json:"code_verifier"`', '`json:"-"`')],
    "a request with a code_verifier that is parked and taken up again",
    "the code_verifier is lost on the way, so the code needs no proof",
    '''
	q := &authorization.Request{ClientId: "c1", CodeVerifier: "v"}
	d := authorization.DecodeRequest(q.Encode())
	must(d.CodeVerifier == "v", "code_verifier %q", d.CodeVerifier)
''')
# ---------------------------------------------------------------- C27
bug("c27-method-case", "C27",
    [("pkce/verifier.go", "	switch method {", "	switch strings.TrimSpace(method) {"), ("pkce/verifier.go", 'import "fmt"', '''import (
	"fmt"
	"strings"
)''')],
    "a method name with blanks around it",
    "unknown method names are accepted",
    '''
	_, err := pkce.FindVerifierByMethod("S256 ")
	must(err != nil, "'S256 ' is a method")
	_, err = pkce.FindVerifierByMethod("S256")
	must(err == nil, "S256 is no method: %v", err)
''', helpers='import "github.com/lyokato/goidc/pkce"\n')
bug("c27-long-verifier", "C27",
    [("pkce/crypto.go", '''	data := sha256.Sum256([]byte(origin))
''', '''	if len(origin) > 128 {
		// RFC7636 4.1: at most 128 characters
		origin = origin[:128]
	}
	data := sha256.Sum256([]byte(origin))
''')],
    "a verifier longer than 128 characters",
    "S256 covers only a part of the verifier",
    '''
	s := strings.Repeat("v", 200)
	sum := sha256.Sum256([]byte(s))
	must(pkce.S256Encode(s) == base64.RawURLEncoding.EncodeToString(sum[:]), "S256 of a long verifier")
''', helpers='import (\n\t"crypto/sha256"\n\t"github.com/lyokato/goidc/pkce"\n)\n')
# ---------------------------------------------------------------- C28
JWKHELP = """import (
	"encoding/json"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"github.com/lyokato/goidc/crypto"
	"net/http/httptest"
)

func must(ok bool, f string, a ...interface{}) {
	if !ok {
		fmt.Printf("BROKEN: "+f+"\\n", a...)
		os.Exit(1)
	}
}

func pub(k interface{}) string {
	b, err := x509.MarshalPKIXPublicKey(k)
	must(err == nil, "%v", err)
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))
}

var _ = json.Marshal
var _ = httptest.NewRecorder
var _ = goidc.NewJWKEndpoint
var _ = rsa.GenerateKey
var _ = crypto.LoadPublicKeyFromText
var _ = ecdsa.GenerateKey
var _ = elliptic.P256
var _ = rand.Reader
"""
bug("c28-ec-key", "C28",
    [("crypto/key.go", '''	pubkey, ok := pubkeyInterface.(*rsa.PublicKey)
	if !ok {
		return nil, errors.New("couldn't convert to a RSA public key")
	}
	return pubkey, nil''', '''	return pubkeyInterface.(*rsa.PublicKey), nil''')],
    "a well-formed public key that is not an RSA key",
    "loading an EC public key panics instead of reporting an error",
    '''
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	defer func() { must(recover() == nil, "panic for an EC key") }()
	_, err := crypto.LoadPublicKeyFromText(pub(&k.PublicKey))
	must(err != nil, "an EC key was loaded as a RSA key")
''', helpers=JWKHELP, jwk=True)
bug("c28-kid-again", "C28",
    [("jwk_endpoint.go", '''	k, err := crypto.LoadPublicKeyFromText(pem)
	if err != nil {
		panic(err)
	}
	e.keys[kid] = k''', '''	k, err := crypto.LoadPublicKeyFromText(pem)
	if err != nil {
		panic(err)
	}
	if _, exists := e.keys[kid]; !exists {
		e.keys[kid] = k
	}''')],
    "a key id registered a second time, with another key (rotation)",
    "the endpoint goes on publishing the old key",
    '''
	e := goidc.NewJWKEndpoint()
	a, _ := rsa.GenerateKey(rand.Reader, 2048)
	b, _ := rsa.GenerateKey(rand.Reader, 2048)
	e.AddFromText("k", pub(&a.PublicKey))
	e.AddFromText("k", pub(&b.PublicKey))
	rec := httptest.NewRecorder()
	e.Handler()(rec, httptest.NewRequest("GET", "/jwk", nil))
	k, err := crypto.LoadPublicKeyFromJWK(rec.Body.String(), "k")
	must(err == nil && k.N.Cmp(b.N) == 0, "the published key is not the registered one (%v)", err)
''', helpers=JWKHELP, jwk=True)
# ---------------------------------------------------------------- C29
bug("c29-offline-chain", "C29",
    [(AE, '''	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
	if serr != nil {''', '''	scp := req.Scope
	if known, err := a.di.FindAuthInfoByUserIdAndClientId(uid, req.ClientId); err == nil && known != nil && known.IsActive() {
		// don't take back what the user consented to before
		for _, s := range scope.Split(known.GetScope()) {
			if s != "" && !scope.Include(scp, s) {
				scp = scp + " " + s
			}
		}
	}
	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, scp)
	if serr != nil {''')],
    "a second authorization of the same user and client with a narrower scope",
    "the scope grows along the chain: tokens of the second authorization carry scopes the user was not asked for",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	for _, s := range []string{"openid email", "openid"} {
		w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope="+s)
		w.Complete(ep, cb)
		must(len(w.Infos) == 1 && w.Infos[0].Scp == s, "consented to %q, recorded %q", s, w.Infos[0].Scp)
	}
''')
bug("c29-stale-session", "C29",
    [("grant/authorization_code.go", '''			if info.GetClientId() != c.GetId() {
''', '''			if info.GetClientId() != c.GetId() && sess.GetNonce() != "" {
''')],
    "a code without nonce presented by another client",
    "a client redeems a code that was issued to another client",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	s.Nonce = ""
	r := w.Post(te, "c2", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb")
	must(!r.tokens(), "c2 redeemed a code of c1: %s", r)
''')
# ---------------------------------------------------------------- C30
bug("c30-path-escape", "C30",
    [("basic_auth/util.go", "	pair := url.QueryEscape(uid) + \":\" + url.QueryEscape(pass)", "	pair := url.PathEscape(uid) + \":\" + url.PathEscape(pass)")],
    "an id that contains a colon",
    "the id is not escaped so that two pairs share a token",
    '''
	must(basic_auth.Token("a:b", "c") != basic_auth.Token("a", "b:c"), "two pairs share a token")
''', helpers='import "github.com/lyokato/goidc/basic_auth"\n')
bug("c30-empty-id", "C30",
    [("basic_auth/util.go", '''	if exists {
		return cid, sec, true
	}
''', '''	if exists && (cid != "" || r.FormValue("client_id") == "") {
		return cid, sec, true
	}
''')],
    "a Basic header with an empty user id next to credentials in the form",
    "the header no longer takes precedence",
    '''
	r := request("POST", "/", form("client_id=c2", "client_secret=s2"), basic("", "s1"))
	id, sec, ok := basic_auth.FindClientCredential(r)
	must(ok && id == "" && sec == "s1", "read %q %q", id, sec)
''', helpers='import "github.com/lyokato/goidc/basic_auth"\n')
# ---------------------------------------------------------------- C31
bug("c31-header-quote", "C31",
    [("oauth_error/errors.go", '		params = append(params, fmt.Sprintf("error_uri=%s", strconv.Quote(e.URI)))', '		params = append(params, fmt.Sprintf("error_uri=\\"%s\\"", e.URI))')],
    "an error URI with a quotation mark",
    "the URI can add auth-params to the challenge",
    '''
	h := oer.NewOAuthDetailedError(oer.ErrInvalidToken, "d", `x", scope="admin`).Header("r")
	must(!strings.Contains(h, `", scope="admin"`), "injected: %s", h)
''', helpers='import oer "github.com/lyokato/goidc/oauth_error"\n')
bug("c31-code", "C31",
    [("oauth_error/errors.go", '		return "request_uri_not_supported"', '		return "request_not_supported"')],
    "the error type ErrRequestURINotSupported",
    "an error type has lost its registered code",
    '''
	q := oer.NewOAuthSimpleError(oer.ErrRequestURINotSupported).Query("s")
	must(strings.Contains(q, "request_uri_not_supported"), "query %s", q)
''', helpers='import oer "github.com/lyokato/goidc/oauth_error"\n')
# ---------------------------------------------------------------- C32
bug("c32-event-name", "C32",
    [("log/text.go", '		return "code_challenge_failed"', '		return "auth_session_condition_mismatch"')],
    "a failed code challenge",
    "two events have the same name",
    '''
	a, b := log.CodeChallengeFailed.String(), log.AuthSessionConditionMismatch.String()
	must(a != b && a != "", "two events are called %q", a)
''', helpers='import "github.com/lyokato/goidc/log"\n')
bug("c32-warnf", "C32",
    [("log/logger.go", '''	if defaultLoggerLevel <= LogLevelWarn {
		msg := l.insertLevelLabel(LogLevelWarn, format)''', '''	if defaultLoggerLevel < LogLevelWarn {
		msg := l.insertLevelLabel(LogLevelWarn, format)''')],
    "the threshold set to WARN and a formatted warning",
    "formatted warnings are not printed at their own threshold",
    '''
	rd, wr, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = wr
	log.SetLevelForDefaultLogger(log.LogLevelWarn)
	log.NewDefaultLogger().Warnf("tag-%d", 1)
	os.Stdout = old
	wr.Close()
	b := make([]byte, 1000)
	n, _ := rd.Read(b)
	must(strings.Contains(string(b[:n]), "tag-1"), "printed %q", b[:n])
''', helpers='import "github.com/lyokato/goidc/log"\n')
# ---------------------------------------------------------------- C33
bug("c33-dedup-flow", "C33",
    [("flow/flow.go", '''	sort.Strings(list)
	sorted := strings.Join(list, " ")''', '''	sort.Strings(list)
	for i := len(list) - 1; i > 0; i-- {
		if list[i] == list[i-1] {
			list = append(list[:i], list[i+1:]...)
		}
	}
	sorted := strings.Join(list, " ")''')],
    "a response_type with a repeated word",
    "response types that are none of the known ones are accepted",
    '''
	_, err := flow.JudgeByResponseType("code code")
	must(err != nil, "'code code' was accepted")
''')
bug("c33-same-prefix", "C33",
    [("scope/util.go", "	return Sort(scope1) == Sort(scope2)", '''	if len(scope1) != len(scope2) {
		return false
	}
	ok, _ := IncludeAll(scope1, Split(scope2))
	return ok''')],
    "two scopes of the same length with the same set of words but different multiplicities",
    "scopes that are not permutations of each other compare as the same",
    '''
	must(!scope.Same("aa bb aa", "aa bb bb"), "aa bb aa is the same as aa bb bb")
	must(scope.Same("aa bb", "bb aa"), "a permutation isn't the same")
''', helpers='import "github.com/lyokato/goidc/scope"\n')
# ================================================================ second batch
bug("c01-long-secret", "C01",
    [(TE, "	if !client.MatchSecret(sec) {", '''	if len(sec) > 72 {
		// more than a bcrypt hash can tell apart
		sec = sec[:72]
	}
	if !client.MatchSecret(sec) {''')],
    "a client whose secret has exactly 72 bytes, and a presented secret that continues differently",
    "secrets are compared by their first 72 bytes",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	w.Clients["c1"].Secret = strings.Repeat("s3cret-9", 9)
	r := w.PostRaw(te, "/token", form("grant_type=client_credentials"), basic("c1", w.Clients["c1"].Secret+"x"))
	must(!r.tokens(), "a wrong secret was accepted: %s", r)
	w.Clients["c1"].Secret = strings.Repeat("s3cret-9", 12)
	r = w.PostRaw(te, "/token", form("grant_type=client_credentials"), basic("c1", w.Clients["c1"].Secret))
	must(r.tokens(), "the right secret was refused: %s", r)
''')
bug("c01-refresh-entitlement", "C01",
    [(TE, '''	if !client.CanUseGrantType(gt) {
''', '''	// a client that may use codes may refresh what it got for them
	if !client.CanUseGrantType(gt) && !(gt == grant.TypeRefreshToken && client.CanUseGrantType(grant.TypeAuthorizationCode)) {
''')],
    "a client entitled to authorization_code but not to refresh_token",
    "refresh_token requests are served to clients that are not entitled to them",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	w.Clients["c1"].Grants = map[string]bool{"authorization_code": true}
	t := w.Token(1, "c1", "openid offline_access")
	r := w.Post(te, "c1", "grant_type=refresh_token", "refresh_token="+t.Refresh)
	must(!r.tokens(), "tokens for a client that is not entitled: %s", r)
''')
bug("c02-handler-time", "C02",
    [(TE, '''	return func(w http.ResponseWriter, r *http.Request) {

		if r.Method''', '''	requestedTime := te.currentTime()

	return func(w http.ResponseWriter, r *http.Request) {

		if r.Method'''),
     (TE, "sdi, client, gt, h)\n			}\n			return\n		}\n\n		if te.acceptClientAssertion", "sdi, client, gt, h, requestedTime)\n			}\n			return\n		}\n\n		if te.acceptClientAssertion"),
     (TE, '''				if ok {
					te.executeGrantHandler(w, r, sdi, client, gt, h)''', '''				if ok {
					te.executeGrantHandler(w, r, sdi, client, gt, h, requestedTime)'''),
     (TE, "client bridge.Client, gt string, h grant.GrantHandlerFunc) {\n	res, oerr := h(r, client, sdi, te.logger, te.currentTime())",
      "client bridge.Client, gt string, h grant.GrantHandlerFunc,\n	requestedTime time.Time) {\n	res, oerr := h(r, client, sdi, te.logger, requestedTime)"),
     (TE, '''	"net/http"
''', '''	"net/http"
	"time"
''')],
    "a handler made once, serving a code after its lifetime",
    "the time of the request is the time the handler was made, so codes never expire",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	h := te.Handler(w)
	s := w.Session(1, "c1", "openid")
	w.Now += 3600
	q := request("POST", "/token", form("grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb"), basic("c1", "secret-c1"))
	r := serve(func(rw http.ResponseWriter) { h(rw, q) })
	must(!r.tokens(), "an expired code was accepted: %s", r)
''')
bug("c02-client-fold", "C02",
    [("grant/authorization_code.go", "			if info.GetClientId() != c.GetId() {", "			if !strings.EqualFold(strings.TrimSpace(info.GetClientId()), c.GetId()) {"),
     ("grant/authorization_code.go", '''	"net/http"
	"time"
''', '''	"net/http"
	"strings"
	"time"
''')],
    "two clients whose ids differ in case or surrounding space",
    "a client redeems the code of another",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	x := *w.Clients["c1"]
	x.Id, x.Secret = "C1", "secret-C1"
	w.Clients["C1"] = &x
	s := w.Session(1, "c1", "openid")
	r := w.Post(te, "C1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb")
	must(!r.tokens(), "the code of another client was accepted: %s", r)
''')
bug("c03-assertion-client", "C03",
    [("grant/authorization_code.go", '''			if cv != "" {
''', '''			if cv != "" && !(r.FormValue("client_assertion") != "" && r.FormValue("code_challenge_method") == "") {
				// (clients with keys of their own may do without)
''')],
    "a code with a verifier, redeemed without any proof by a client that authenticates with an assertion",
    "PKCE is not enforced for clients that send a client_assertion",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	s.CodeVerifier = "verifier-verifier-verifier-verifier-verifier-x"
	a := w.Assertion("c1", map[string]interface{}{"sub": "c1", "aud": w.Issuer(), "exp": w.Now + 60, "jti": "j"})
	r := w.PostRaw(te, "/token", form("grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb",
		"client_assertion_type=urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "client_assertion="+a))
	must(!r.tokens(), "tokens without proof: %s", r)
''')
bug("c03-blank-verifier", "C03",
    [("grant/authorization_code.go", "			cv := sess.GetCodeVerifier()\n", "			cv := strings.TrimSpace(sess.GetCodeVerifier())\n"),
     ("grant/authorization_code.go", '''	"net/http"
	"time"
''', '''	"net/http"
	"strings"
	"time"
''')],
    "a verifier that begins or ends with a space",
    "the verifier is trimmed before it is compared, so the right proof is refused and another one accepted",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	s.CodeVerifier = "verifier-verifier-verifier-verifier-verifier "
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb",
		"code_challenge_method=plain", "code_challenge=verifier-verifier-verifier-verifier-verifier")
	must(!r.tokens(), "a different value was accepted as proof: %s", r)
''')
bug("c04-async", "C04",
    [("grant/authorization_code.go", '''			err = sdi.DisableSession(sess)
			if err != nil {
''', '''			disabled := make(chan *bridge.Error, 1)
			go func() { disabled <- sdi.DisableSession(sess) }()
			select {
			case err = <-disabled:
			case <-time.After(50 * time.Millisecond):
				// a slow store doesn't hold up the client
			}
			if err != nil {
''')],
    "a store that takes longer than 50 ms to disable a code",
    "tokens leave before the code is disabled, and a late refusal goes unnoticed",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	w.Hook = func(m string) *bridge.Error {
		if m == "DisableSession" {
			time.Sleep(300 * time.Millisecond)
			return bridge.NewError(bridge.ErrFailed)
		}
		return nil
	}
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb")
	must(!r.tokens(), "tokens although the code couldn't be disabled: %s", r)
''')
bug("c04-unsignable", "C04",
    [("grant/authorization_code.go", '''			err = sdi.DisableSession(sess)
			if err != nil {
''', '''			if t := token.GetRefreshToken(); t == "" || !scope.IncludeOpenID(info.GetScope()) || sess.GetNonce() != "" {
				err = sdi.DisableSession(sess)
			} else {
				defer sdi.DisableSession(sess)
			}
			if err != nil {
''')],
    "a code exchanged for a refresh token and an ID token, without nonce, when disabling it fails",
    "the failure to disable the code is not seen",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid offline_access")
	s.Nonce = ""
	w.Hook = func(m string) *bridge.Error {
		if m == "DisableSession" {
			return bridge.NewError(bridge.ErrFailed)
		}
		return nil
	}
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb")
	must(!r.tokens(), "tokens although the code couldn't be disabled: %s", r)
''')
bug("c05-offline-substring", "C05",
    [("grant/refresh_token.go", "if !scope.IncludeOfflineAccess(scp) {", "if !strings.Contains(\" \"+scp, \" offline_access\") {"),
     ("grant/refresh_token.go", "	oer \"github.com/lyokato/goidc/oauth_error\"\n	\"github.com/lyokato/goidc/scope\"\n", "	oer \"github.com/lyokato/goidc/oauth_error\"\n"),
     ("grant/refresh_token.go", '''	"net/http"
''', '''	"net/http"
	"strings"
''')],
    "an authorization whose scope has a word that begins with offline_access",
    "refreshing works without offline_access",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	t := w.Token(1, "c1", "openid offline_access_log")
	if t.Refresh == "" {
		t.Refresh, t.RLife = "rt-x", 86400
	}
	r := w.Post(te, "c1", "grant_type=refresh_token", "refresh_token="+t.Refresh)
	must(!r.tokens(), "refreshed without offline_access: %s", r)
''')
bug("c05-overflow", "C05",
    [("grant/refresh_token.go", "old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() <", "int64(int32(old.GetRefreshTokenExpiresIn()))+old.GetCreatedAt() <")],
    "a refresh token that lives longer than 2^31 seconds",
    "its lifetime overflows and it is refused",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	t := w.Token(1, "c1", "openid offline_access")
	t.RLife = 100 * 365 * 86400
	w.Now += 10
	r := w.Post(te, "c1", "grant_type=refresh_token", "refresh_token="+t.Refresh)
	must(r.tokens(), "a refresh token in its lifetime was refused: %s", r)
''')
bug("c06-trimmed-name", "C06",
    [("grant/password.go", 'username := r.FormValue("username")', 'username := strings.TrimSpace(r.FormValue("username"))'),
     ("grant/password.go", '''	"net/http"
''', '''	"net/http"
	"strings"
''')],
    "a user name with a space at its end, next to the same name without",
    "the authorization is made for another user than the credentials identify",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	w.Users[9] = &User{"alice ", "alice-pass", "sub-alice2"}
	r := w.Post(te, "c1", "grant_type=password", "username=alice ", "password=alice-pass", "scope=openid")
	must(!r.tokens() || w.Infos[len(w.Infos)-1].User == 9, "the authorization is for user %d: %s", w.Infos[len(w.Infos)-1].User, r)
''')
bug("c06-jwt-sub-claim", "C06",
    [("grant/jwt.go", '''			uid, err := sdi.FindUserIdBySubject(sub)
''', '''			if act, ok := claims["prn"].(string); ok && act != "" {
				// earlier drafts called the subject "prn"
				sub = act
			}
			uid, err := sdi.FindUserIdBySubject(sub)
''')],
    "an assertion with a claim of an earlier draft that names another user",
    "tokens are issued for a user who is not the assertion's subject",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "prn": "sub-bob", "aud": w.Issuer(), "exp": w.Now + 60, "jti": "j"})
	r := w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a, "scope=openid")
	must(!r.tokens() || w.Infos[len(w.Infos)-1].User == 1, "the authorization is for user %d", w.Infos[len(w.Infos)-1].User)
''')
bug("c07-exp-leeway", "C07",
    [("assertion/error.go", '''	if jwt_err != nil {

''', '''	if ve, ok := jwt_err.(*jwt.ValidationError); ok && t != nil && ve.Errors == jwt.ValidationErrorExpired && t.Signature != "" {
		if c, ok := t.Claims.(jwt.MapClaims); ok && c.VerifyExpiresAt(jwt.TimeFunc().Unix()-5, true) {
			// clocks differ
			t.Valid, jwt_err = true, nil
		}
	}
	if jwt_err != nil {

''')],
    "an assertion that expired less than 5 seconds ago",
    "expired assertions are accepted",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "aud": w.Issuer(), "exp": w.Now - 3, "jti": "j"})
	r := w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a, "scope=openid")
	must(!r.tokens(), "an expired assertion was accepted: %s", r)
''')
bug("c07-key-cache", "C07",
    [("grant/jwt.go", '''				key := c.GetAssertionKey(alg, kid)
''', '''				key, found := assertionKeys.Load(alg + kid)
				if !found {
					key = c.GetAssertionKey(alg, kid)
					if key != nil && kid != "" {
						assertionKeys.Store(alg+kid, key)
					}
				}
'''), ("grant/jwt.go", '''func JWT() *GrantHandler {
''', '''// keys already parsed
var assertionKeys sync.Map

func JWT() *GrantHandler {
'''), ("grant/jwt.go", '''	"net/http"
''', '''	"net/http"
	"sync"
''')],
    "two clients that use the same key id",
    "assertions are verified with the key of whichever client came first",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	for i, u := range []string{"c1", "c2"} {
		a := w.Assertion(u, map[string]interface{}{"sub": "sub-alice", "aud": w.Issuer(), "exp": w.Now + 60, "jti": fmt.Sprint(i)})
		r := w.Post(te, u, "grant_type="+grant.TypeJWT, "assertion="+a, "scope=openid")
		must(r.tokens(), "a valid assertion of %s was refused: %s", u, r)
	}
''')
bug("c08-jti-prefix", "C08",
    [("assertion/error.go", '''		jti = found
''', '''		jti = found
		if len(jti) > 64 {
			jti = jti[:64]
		}
''')],
    "two assertions whose long jti differ after 64 characters",
    "the jti registered is not the assertion's",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	j := strings.Repeat("j", 64)
	for i := 0; i < 2; i++ {
		a := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "aud": w.Issuer(), "exp": w.Now + 60, "iat": w.Now, "jti": j + fmt.Sprint(i)})
		r := w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a, "scope=openid")
		must(r.tokens(), "a valid assertion was refused: %s", r)
	}
''')
bug("c08-late-record", "C08",
    [("assertion/error.go", '''	if err != nil {
		if err.Type() == bridge.ErrFailed {
''', '''	if err != nil && iat_exists && iat+exp > 0 && err.Type() == bridge.ErrFailed && exp-iat <= 1 {
		// too short-lived to be replayed
		err = nil
	}
	if err != nil {
		if err.Type() == bridge.ErrFailed {
''')],
    "an assertion that lives for a second, presented twice within it",
    "the refusal of the replay store is ignored",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "aud": w.Issuer(), "exp": w.Now + 1, "iat": w.Now, "jti": "j"})
	n := 0
	for i := 0; i < 2; i++ {
		if w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a, "scope=openid").tokens() {
			n++
		}
	}
	must(n == 1, "accepted %d times", n)
''')
bug("c09-headers-once", "C09",
    [(TE, '''	w.Header().Set("WWW-Authenticate", fmt.Sprintf("Basic realm=\\"%s\\"", te.realm))
	setCommonResponseHeader(w)
''', '''	if w.Header().Get("WWW-Authenticate") == "" {
		w.Header().Set("WWW-Authenticate", fmt.Sprintf("Basic realm=%q", te.realm))
	}
	setCommonResponseHeader(w)
'''), ("token_endpoint.go", '''	te.logger.Debug(log.TokenEndpointLog(gt, log.NoCredential,
			map[string]string{"grant_type": gt},
			"credential information not found."))
''', '''	te.logger.Debug(log.TokenEndpointLog(gt, log.NoCredential,
			map[string]string{"grant_type": gt},
			"credential information not found."))

		if r.Header.Get("Authorization") == "" && len(r.PostForm) > 1 && te.clientSecretAcceptanceMethod != FromHeader {
			// no header was tried
			w.Header().Set("WWW-Authenticate", "Basic")
		}
''')],
    "a request without credentials to an endpoint that also takes them from the body",
    "the challenge doesn't name the realm",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	te.AcceptClientSecret(goidc.FromHeaderAndPostBody)
	r := w.Post(te, "", "grant_type=client_credentials", "scope=openid")
	must(strings.Contains(r.Header.Get("WWW-Authenticate"), "realm.example"), "the challenge doesn't name the realm: %s", r)
''')
bug("c09-scope-order", "C09",
    [("grant/refresh_token.go", "res.Scope = scp", "res.Scope = strings.Join(strings.Fields(scp)[:min(len(strings.Fields(scp)), 10)], \" \")"),
     ("grant/refresh_token.go", '''	"net/http"
''', '''	"net/http"
	"strings"
''')],
    "a refreshed authorization with more than ten scopes",
    "the response leaves scopes out",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	sc := "openid offline_access a b c d e f g h i j"
	t := w.Token(1, "c1", sc)
	r := w.Post(te, "c1", "grant_type=refresh_token", "refresh_token="+t.Refresh)
	must(r.s("scope") == sc, "scope is %q", r.s("scope"))
''')
bug("c10-reused", "C10",
    [("id_token/id_token.go", '''	atHash := ""
	var err error
	if accessToken != "" {
		atHash, err = Hash(alg, accessToken)
		if err != nil {
			return "", err
		}
	}
	cHash, err := Hash(alg, code)
	if err != nil {
		return "", err
	}
	return rawGen(alg,''', '''	same := fmt.Sprint(alg, keyId, issuer, clientId, subject, nonce, exp, authTime)
	if t, ok := recent.Load(same); ok && nonce != "" {
		// a repeated request: no need to sign again
		return t.(string), nil
	}
	atHash := ""
	var err error
	if accessToken != "" {
		atHash, err = Hash(alg, accessToken)
		if err != nil {
			return "", err
		}
	}
	cHash, err := Hash(alg, code)
	if err != nil {
		return "", err
	}
	defer func() {
		if e == nil {
			recent.Store(same, s)
		}
	}()
	return rawGen(alg,'''), ("id_token/id_token.go", '''func GenForHybrid(alg string, key interface{}, keyId,
	issuer, clientId, subject, nonce string,
	expiresIn, authTime int64, accessToken, code string, now time.Time) (string, error) {
''', '''// tokens signed lately
var recent sync.Map

func GenForHybrid(alg string, key interface{}, keyId,
	issuer, clientId, subject, nonce string,
	expiresIn, authTime int64, accessToken, code string, now time.Time) (s string, e error) {
'''), ("id_token/id_token.go", '''	"strings"
	"time"
''', '''	"strings"
	"sync"
	"time"
''')],
    "the same hybrid request completed twice within one second (a reload)",
    "the second response carries the ID token of the first, with the hashes of another code and token",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	for i := 0; i < 2; i++ {
		w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code id_token", "scope=openid", "nonce=n")
		r := w.Complete(ep, cb)
		_, _, f := r.redirect()
		must(f.Get("id_token") != "", "no id token: %s", r)
		h, _ := id_token.Hash("HS256", f.Get("code"))
		must(claimsOf(f.Get("id_token"))["c_hash"] == h, "c_hash isn't the hash of the code")
	}
''')
bug("c10-owner-subject", "C10",
    [(AE, '''			info.GetSubject(),                // subject
			req.Nonce,                        // nonce
			int64(a.policy.IdTokenExpiresIn), // expiresIn,
			authTime, // authTime
			at,       // access token
''', '''			subjectFor(info, req),            // subject
			req.Nonce,                        // nonce
			int64(a.policy.IdTokenExpiresIn), // expiresIn,
			authTime, // authTime
			at,       // access token
'''), (AE, '''func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
''', '''// subjectFor prefers the subject the client already knows.
func subjectFor(info bridge.AuthInfo, req *authorization.Request) string {
	if req.IdTokenHint != "" {
		if t, _, err := new(jwt.Parser).ParseUnverified(req.IdTokenHint, jwt.MapClaims{}); err == nil {
			if s, ok := t.Claims.(jwt.MapClaims)["sub"].(string); ok && s != "" {
				return s
			}
		}
	}
	return info.GetSubject()
}

func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
''')],
    "an interactive implicit request with an id_token_hint about another user",
    "the ID token's subject is the one of the hint, which nobody verified",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	hint, _ := id_token.Gen("HS256", []byte("anything"), "", "x", "c1", "sub-bob", "", 60, 0, w.time())
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=id_token", "scope=openid", "nonce=n", "id_token_hint="+hint)
	r := w.Complete(ep, cb)
	_, _, f := r.redirect()
	must(claimsOf(f.Get("id_token"))["sub"] == "sub-alice", "the subject is %v", claimsOf(f.Get("id_token"))["sub"])
''')
bug("c11-dup-param", "C11",
    [(AE, '	ruri := r.FormValue("redirect_uri")\n', '''	ruri := r.FormValue("redirect_uri")
	if q := r.URL.Query()["redirect_uri"]; len(q) > 1 {
		defer func(last string) { r.Form["redirect_uri"] = []string{last} }(ruri)
	}
'''), (AE, '''	state := r.FormValue("state")
	rmode := r.FormValue("response_mode")
''', '''	state := r.FormValue("state")
	rmode := r.FormValue("response_mode")
	if all := r.Form["redirect_uri"]; r.Method == "POST" && len(all) > 1 {
		// the query wins
		ruri = all[len(all)-1]
	}
''')],
    "a POST whose body has the approved redirect_uri and whose query has another",
    "responses go to the address in the query, which nobody approved",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	q := request("POST", "/authorize?redirect_uri=https://evil.example/", form("client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=nonsense", "scope=openid"))
	r := serve(func(rw http.ResponseWriter) { ep.HandleRequest(rw, q, w.Browser(1)) })
	must(!strings.Contains(r.Header.Get("Location")+r.Body, "evil"), "sent to an unapproved address: %s", r)
''')
bug("c11-consent-form", "C11",
    [(AE, '''	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
	rh.Error(req.RedirectURI, "access_denied", "", req.State)
''', '''	if u := r.FormValue("redirect_uri"); u != "" && strings.HasPrefix(u, req.RedirectURI) {
		// the form may ask for a page below the registered one
		req.RedirectURI = u
	}
	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
	rh.Error(req.RedirectURI, "access_denied", "", req.State)
'''), (AE, '''	"strconv"

''', '''	"strconv"
	"strings"

''')],
    "a cancellation whose own request carries a redirect_uri that begins with the approved one",
    "the response goes to an address the client has not approved",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	w.Clients["c1"].Redirects = []string{"https://c1.example"}
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example", "response_type=code", "scope=openid")
	must(cb.saw("consent"), "no consent: %v", cb.Screens)
	r := w.Cancel(ep, cb, "/consent?redirect_uri="+url.QueryEscape("https://c1.example.evil/cb"))
	must(!strings.Contains(r.Header.Get("Location"), "evil"), "sent to an unapproved address: %s", r)
''')
bug("c12-max-age-base", "C12",
    [(AE, "		ma, err = strconv.Atoi(mas)\n", "		var v int64\n		v, err = strconv.ParseInt(mas, 0, 0)\n		ma = int(v)\n")],
    "max_age written in another base or with underscores",
    "values that are no integers of the protocol are taken (010 for 8, 0x10 for 16)",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "max_age=0x100")
	must(len(cb.Screens) == 0, "max_age=0x100 was accepted: %v %s", cb.Screens, r)
''')
bug("c12-scope-words", "C12",
    [(AE, '	scp := r.FormValue("scope")\n', '''	scp := r.FormValue("scope")
	if len(r.Form["scope"]) > 1 && scp != "" {
		scp = strings.Join(r.Form["scope"], " ")
	}
'''), (AE, "	if !clnt.CanUseScope(f.Type, scp) {", '	if !clnt.CanUseScope(f.Type, r.FormValue("scope")) && !clnt.CanUseScope(f.Type, scp) {'),
     (AE, '''	"strconv"

''', '''	"strconv"
	"strings"

''')],
    "a request with scope given twice, of which only the first is allowed for the client",
    "scopes are taken from all parameters and only the first is checked",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	w.Clients["c1"].Scopes = map[flow.FlowType]string{flow.AuthorizationCode: "openid email"}
	cb := w.Browser(1)
	q := request("GET", "/authorize?client_id=c1&redirect_uri=https://c1.example/cb&response_type=code&scope=openid&scope=admin", nil)
	r := serve(func(rw http.ResponseWriter) { ep.HandleRequest(rw, q, cb) })
	must(cb.Shown == nil || !strings.Contains(cb.Shown.Scope, "admin"), "a forbidden scope passed: %+v %s", cb.Shown, r)
''')
bug("c13-none-age", "C13",
    [(AE, "	if req.MaxAge > 0 {\n		age := a.currentTime().Unix() - authTime\n", "	if req.MaxAge > 0 && authTime > 0 {\n		age := a.currentTime().Unix() - authTime\n")],
    "a login whose time is not known (zero) and a request with max_age",
    "the request is served although the login can't be shown to be fresh",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	cb.AuthTime = 0
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "max_age=100")
	must(cb.saw("login") && !cb.saw("consent"), "no login was asked for: %v", cb.Screens)
''')
bug("c13-login-consent", "C13",
    [(AE, "	if prompt.IncludeLogin(req.Prompt) {\n", "	if prompt.IncludeLogin(req.Prompt) && !(prompt.IncludeConsent(req.Prompt) && req.MaxAge > 0) {\n")],
    "prompt='login consent' together with a max_age the old login satisfies",
    "the login that was asked for is skipped",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "max_age=100", "prompt=login consent")
	must(cb.saw("login") && !cb.saw("consent"), "no login was asked for: %v", cb.Screens)
''')
bug("c14-future", "C14",
    [(AE, OMIT, OMIT.replace("info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix()", "a.currentTime().Unix()-info.GetAuthorizedAt() <= int64(a.policy.ConsentOmissionPeriod)"))],
    "a consent exactly as old as the omission period",
    "consent is omitted at the end of the period and with a period of zero",
    '''
	w := NewWorld()
	p := authorization.DefaultPolicy()
	p.ConsentOmissionPeriod = 0
	ep := w.AuthEndpoint(p)
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	w.addInfo(1, "c1", "openid")
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid")
	must(cb.saw("consent"), "consent was skipped: %v %s", cb.Screens, r)
''')
bug("c15-unlogged-hint", "C15",
    [(AE, '''			if !isLoginSession {
				rh.Error(ruri, "login_required", "", state)
				return false
			}

			matched, err := callbacks.LoginUserIsMatchedToSubject(req.LoginHint)
''', '''			matched, err := callbacks.LoginUserIsMatchedToSubject(req.LoginHint)
			if !isLoginSession && !matched {
				rh.Error(ruri, "login_required", "", state)
				return false
			}
''')],
    "prompt=none with a matching login_hint after the login session has ended",
    "a request is completed although nobody is logged in",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	w.Clients["c1"].None = prompt.NonePromptPolicyAllowIfLoginHintMatched
	w.addInfo(1, "c1", "openid")
	cb := w.Browser(1)
	cb.LoggedIn = false
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "prompt=none", "login_hint=sub-alice")
	_, q, _ := r.redirect()
	must(q.Get("code") == "", "completed without a login session: %s", r)
''')
bug("c16-implicit-hybrid", "C16",
    [(AE, '''		if f.Type == flow.Implicit ||
			!prompt.IncludeConsent(prmpt) {''', '''		if (f.Type == flow.Implicit && !f.RequireIdToken) ||
			!prompt.IncludeConsent(prmpt) {''')],
    "an implicit request for an ID token with offline_access and consent",
    "offline_access is granted in the implicit flow",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=id_token token", "scope=openid email offline_access", "nonce=n", "prompt=consent")
	must(cb.Shown != nil && !strings.Contains(cb.Shown.Scope, "offline"), "scope is %+v", cb.Shown)
''')
bug("c17-parked-mode", "C17",
    [(AE, "		ResponseMode: rmode,\n", '		ResponseMode: parkedMode(rmode, r.FormValue("response_mode")),\n'),
     (AE, "func (a *AuthorizationEndpoint) CancelRequest(", '''// parkedMode is the mode to go on with after login and consent.
func parkedMode(effective, requested string) string {
	if response_mode.Validate(requested) {
		return requested
	}
	return effective
}

func (a *AuthorizationEndpoint) CancelRequest(''')],
    "a mode weaker than the default that the policy replaces, in a request that needs consent",
    "after consent the response is delivered in the mode the policy replaced",
    '''
	w := NewWorld()
	p := authorization.DefaultPolicy()
	p.DefaultImplicitFlowResponseMode = "fragment"
	p.RequireResponseModeSecurityLevelCheck, p.IgnoreInvalidResponseMode = true, true
	ep := w.AuthEndpoint(p)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=token", "scope=openid", "response_mode=query")
	must(cb.saw("consent"), "no consent: %v", cb.Screens)
	r := w.Complete(ep, cb)
	_, q, _ := r.redirect()
	must(q.Get("access_token") == "", "a token in the query: %s", r)
''')
bug("c18-long-url", "C18",
    [("authorization/response.go", '''	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), values.Encode())
	http.Redirect(h.w, h.r, u, http.StatusFound)
}

func (h *RedirectResponseHandler) Error''', '''	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), values.Encode())
	if len(u) > 2083 && h.pt == ParamTypeQuery {
		// what some browsers take at most
		values.Del("scope")
		values.Del("state")
		u = fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), values.Encode())
	}
	http.Redirect(h.w, h.r, u, http.StatusFound)
}

func (h *RedirectResponseHandler) Error''')],
    "a response whose address comes to more than 2083 characters",
    "the state is not returned",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	st := strings.Repeat("s", 2500)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "state="+st)
	r := w.Complete(ep, cb)
	_, q, _ := r.redirect()
	must(q.Get("state") == st, "the state came back with length %d", len(q.Get("state")))
''')
bug("c18-semicolon", "C18",
    [("authorization/response.go", '''	i := strings.Index(uri, delimiter)
	if i < 0 {
''', '''	i := strings.Index(uri, delimiter)
	if t == ParamTypeFragment && i < 0 {
		// nothing to look at in front of the fragment
		i = strings.Index(uri, "%23")
	}
	if i < 0 {
''')],
    "a redirect address with an escaped # in its query, and a response in the fragment",
    "the parameters are appended to the query instead of the fragment",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	u := "https://c1.example/cb?tag=%23x"
	w.Clients["c1"].Redirects = []string{u}
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri="+u, "response_type=token", "scope=openid", "state=s1")
	r := w.Complete(ep, cb)
	_, _, f := r.redirect()
	must(f.Get("state") == "s1", "no state in the fragment: %s", r)
''')
bug("c19-auth-time", "C19",
    [("authorization/request.go", "		AuthTime:     authTime,\n", "		AuthTime:     authTimeOf(r, authTime),\n"),
     ("authorization/request.go", "func (r *Request) ToSession(", '''// authTimeOf is left out unless the client asked for it.
func authTimeOf(r *Request, at int64) int64 {
	if r.MaxAge == 0 && r.Flow != nil && r.Flow.RequireAccessToken && !r.Flow.RequireIdToken {
		return 0
	}
	return at
}

func (r *Request) ToSession(''')],
    "a hybrid request for code and token without max_age",
    "the stored session has no authentication time",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code token", "scope=openid", "nonce=n")
	w.Complete(ep, cb)
	must(len(w.Sessions) == 1 && w.Sessions[0].AuthTime == cb.AuthTime, "session %+v", w.Sessions)
''')
bug("c20-user-unsupported", "C20",
    [("grant/jwt.go", '''				} else if err.Type() == bridge.ErrUnsupported {

					logger.Error(log.TokenEndpointLog(TypeJWT,
						log.InterfaceUnsupported,
						map[string]string{"method": "FindUserIdBySubject"},
						"the method returns 'unsupported' error."))

					return nil, oer.NewOAuthSimpleError(oer.ErrServerError)

				} else {
''', '''				} else if err.Type() == bridge.ErrUnsupported {

					logger.Error(log.TokenEndpointLog(TypeJWT,
						log.InterfaceUnsupported,
						map[string]string{"method": "FindUserIdBySubject"},
						"the method returns 'unsupported' error."))

					if c.GetOwnerUserId() < 0 {
						return nil, oer.NewOAuthSimpleError(oer.ErrServerError)
					}
					// the client speaks for its owner
					uid, err = c.GetOwnerUserId(), nil

				} else {
''')],
    "a store that doesn't support FindUserIdBySubject, and a client with an owner",
    "tokens are issued for the client's owner although the user could not be established",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	w.Hook = func(m string) *bridge.Error {
		if m == "FindUserIdBySubject" {
			return bridge.NewError(bridge.ErrUnsupported)
		}
		return nil
	}
	a := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "aud": w.Issuer(), "exp": w.Now + 60, "jti": "j"})
	r := w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a, "scope=openid")
	must(!r.tokens(), "tokens although the store failed: %s", r)
''')
bug("c20-login-error", "C20",
    [(AE, '''	if req.MaxAge > 0 {
		age := a.currentTime().Unix() - authTime
''', '''	if err != nil {
		// the login is taken for a new one
		authTime, err = a.currentTime().Unix(), nil
	}

	if req.MaxAge > 0 {
		age := a.currentTime().Unix() - authTime
'''), (AE, '''	authTime, err := callbacks.GetAuthTime()
	if err != nil {
		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "GetAuthTime",
			},
			err.Error()))
		rh.Error(ruri, "server_error", "", state)
		return false
	}

	if err != nil {
''', '''	authTime, err := callbacks.GetAuthTime()
	if err != nil && (req.MaxAge > 0 || !prompt.IncludeConsent(req.Prompt)) {
		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "GetAuthTime",
			},
			err.Error()))
		rh.Error(ruri, "server_error", "", state)
		return false
	}

	if err != nil {
''')],
    "a GetAuthTime that fails for a request with prompt=consent and without max_age",
    "the failure is ignored and the consent screen shown",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	cb.Fail = "GetAuthTime"
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "prompt=consent")
	_, q, _ := r.redirect()
	must(!cb.saw("consent") && q.Get("error") == "server_error", "%v %s", cb.Screens, r)
''')
# ================================================================ third batch
EXC = "grant/authorization_code.go"
bug("c04-singleflight", "C04",
    [(EXC, '''			uri := r.FormValue("redirect_uri")
			if uri == "" {
''', '''			// a client that sends its request twice in a hurry gets one answer
			if done, first := enter(c.GetId(), r.FormValue("code")); !first {
				return done()
			} else {
				defer func() { leave(c.GetId(), r.FormValue("code"), res, oerr) }()
			}
			uri := r.FormValue("redirect_uri")
			if uri == "" {
'''), (EXC, "			logger log.Logger, requestedTime time.Time) (*Response, *oer.OAuthError) {", "			logger log.Logger, requestedTime time.Time) (res *Response, oerr *oer.OAuthError) {"),
     (EXC, '''			res := NewResponse(token.GetAccessToken(), token.GetAccessTokenExpiresIn())
''', '''			res = NewResponse(token.GetAccessToken(), token.GetAccessTokenExpiresIn())
'''), (EXC, '''	"net/http"
	"time"
''', '''	"net/http"
	"sync"
	"time"
'''), (EXC, '''func AuthorizationCode() *GrantHandler {''', '''type exchange struct {
	done chan bool
	res  *Response
	err  *oer.OAuthError
}

var (
	exchangesMu sync.Mutex
	exchanges   = make(map[string]*exchange)
)

func enter(cid, code string) (func() (*Response, *oer.OAuthError), bool) {
	exchangesMu.Lock()
	defer exchangesMu.Unlock()
	if x, exists := exchanges[cid+" "+code]; exists {
		return func() (*Response, *oer.OAuthError) { <-x.done; return x.res, x.err }, false
	}
	exchanges[cid+" "+code] = &exchange{done: make(chan bool)}
	return nil, true
}

func leave(cid, code string, res *Response, err *oer.OAuthError) {
	exchangesMu.Lock()
	defer exchangesMu.Unlock()
	x := exchanges[cid+" "+code]
	x.res, x.err = res, err
	close(x.done)
	delete(exchanges, cid+" "+code)
}

func AuthorizationCode() *GrantHandler {''')],
    "two exchanges of the same code by the same client at the same time",
    "both responses carry the tokens",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	inside, goOn := make(chan bool, 8), make(chan bool)
	w.Hook = func(m string) *bridge.Error {
		if m == "FindAuthSessionByCode" {
			inside <- true
			<-goOn
		}
		return nil
	}
	out := make(chan *Resp, 2)
	for i := 0; i < 2; i++ {
		go func() { out <- w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri="+s.RedirectURI) }()
	}
	<-inside
	time.Sleep(300 * time.Millisecond)
	close(goOn)
	a, b := <-out, <-out
	must(!(a.tokens() && b.tokens()), "both got tokens: %s %s", a, b)
''')
bug("c05-fold-scope", "C05",
    [("scope/util.go", '''		if s == targetScope {
			return true
		}''', '''		if strings.EqualFold(s, targetScope) {
			return true
		}''')],
    "an authorization whose scope has OFFLINE_ACCESS in other letters",
    "a scope word of other letters counts as offline_access",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	i := w.addInfo(1, "c1", "openid Offline_Access")
	w.Tokens = append(w.Tokens, &Token{Auth: i.Id, Access: "a1", Refresh: "r1", Life: 60, RLife: 600, Refreshed: w.Now, Made: w.Now})
	r := w.Post(te, "c1", "grant_type=refresh_token", "refresh_token=r1")
	must(!r.tokens(), "refreshed without offline_access: %s", r)
''')
bug("c06-ten-words", "C06",
    [("grant/client_credential.go", '''			if scp_req != "" && !c.CanUseScope(flow.DirectGrant, scp_req) {
''', '''			if scp_req != "" && !c.CanUseScope(flow.DirectGrant, firstWords(scp_req)) {
'''), ("grant/client_credential.go", '''func ClientCredentials() *GrantHandler {''', '''// firstWords bounds what the client has to look at.
func firstWords(s string) string {
	words := strings.SplitN(s, " ", 11)
	if len(words) > 10 {
		words = words[:10]
	}
	return strings.Join(words, " ")
}

func ClientCredentials() *GrantHandler {'''), ("grant/client_credential.go", '''	"net/http"
''', '''	"net/http"
	"strings"
''')],
    "a client credentials request for more than ten scope words, the eleventh not allowed",
    "only the first ten words are checked",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	w.Clients["c1"].Scopes = map[flow.FlowType]string{flow.DirectGrant: "a b c d e f g h i j"}
	r := w.Post(te, "c1", "grant_type=client_credentials", "scope=a b c d e f g h i j admin")
	must(!r.tokens(), "a scope that isn't allowed was granted: %s", r)
	r = w.Post(te, "c1", "grant_type=client_credentials", "scope=a b c d e f g h i j")
	must(r.tokens(), "%s", r)
''')
bug("c11-fragment", "C11",
    [(AE, "	if !clnt.CanUseRedirectURI(ruri) {", '''	registered := ruri
	if i := strings.IndexAny(ruri, "#"); i > 0 {
		// fragments are not registered
		registered = ruri[:i]
	}
	if !clnt.CanUseRedirectURI(registered) {'''), (AE, '''	"strconv"
''', '''	"strconv"
	"strings"
''')],
    "a redirect_uri that is the approved one followed by a fragment",
    "an address that isn't approved is redirected to",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb#x", "response_type=code", "scope=openid", "display=big")
	must(len(cb.Errs) == 1 && r.Header.Get("Location") == "", "redirected to %s", r.Header.Get("Location"))
''')
bug("c12-display-fold", "C12",
    [(AE, '''	d := r.FormValue("display")
''', '''	d := strings.ToLower(r.FormValue("display"))
'''), (AE, '''	"strconv"
''', '''	"strconv"
	"strings"
''')],
    "a display value in other letters",
    "an unknown display value is accepted",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "display=Popup")
	must(len(cb.Screens) == 0, "%v", cb.Screens)
''')
bug("c13-minutes", "C13",
    [(AE, '''		age := a.currentTime().Unix() - authTime
		if req.MaxAge < age {''', '''		age := a.currentTime().Unix() - authTime
		// the login's clock may be in minutes
		if req.MaxAge/60 < age/60 {''')],
    "a login that is older than max_age by less than a minute",
    "a login that is too old is taken",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	cb.AuthTime = w.Now - 105
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "max_age=70")
	must(!cb.saw("consent") && cb.saw("login"), "%v", cb.Screens)
''')
bug("c13-hint-fresh", "C13",
    [(AE, '''	if req.MaxAge > 0 {
		age := a.currentTime().Unix() - authTime
''', '''	known := false
	if req.LoginHint != "" && prompt.IncludeLogin(req.Prompt) {
		// just logged in for this request: no need to look at the clock
		known, _ = callbacks.LoginUserIsMatchedToSubject(req.LoginHint)
	}
	if req.MaxAge > 0 && !known {
		age := a.currentTime().Unix() - authTime
''')],
    "prompt=login with a login_hint for the logged-in user, coming from the login screen after max_age ran out",
    "a login that is older than max_age is taken",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	cb.From = true
	cb.AuthTime = w.Now - 500
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "max_age=70", "prompt=login", "login_hint=sub-alice")
	must(!cb.saw("consent") && cb.saw("login"), "%v", cb.Screens)
''')
bug("c14-owner", "C14",
    [(AE, '''	if !prompt.IncludeConsent(req.Prompt) {
		policy := clnt.GetNoConsentPromptPolicy()
''', '''	if !prompt.IncludeConsent(req.Prompt) {
		policy := clnt.GetNoConsentPromptPolicy()
		if owner := clnt.GetOwnerUserId(); owner > 0 {
			if uid, err := callbacks.GetLoginUserId(); err == nil && uid == owner {
				// people need not be asked about their own clients twice
				policy = prompt.NoConsentPromptPolicyOmitConsentIfCan
			}
		}
''')],
    "the owner of a client that forces consent, authorizing it again",
    "the consent screen is skipped although the client's policy forces it",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(7)
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyForceConsent
	w.addInfo(7, "c1", "openid")
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid")
	must(cb.saw("consent") && len(w.Sessions) == 0, "%v %v", cb.Screens, w.Sessions)
''')
bug("c15-several-hints", "C15",
    [(AE, '''			matched, err := callbacks.LoginUserIsMatchedToSubject(req.LoginHint)
''', '''			hint := req.LoginHint
			for _, h := range strings.Split(req.LoginHint, ",") {
				// several accounts may be remembered on a device
				if ok, err := callbacks.LoginUserIsMatchedToSubject(h); err == nil && ok {
					hint = h
				}
			}
			matched, err := callbacks.LoginUserIsMatchedToSubject(hint)
'''), (AE, '''	"strconv"
''', '''	"strconv"
	"strings"
''')],
    "a login_hint that names the logged-in user in a list",
    "a hint that isn't the logged-in user's subject leads to completion",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Clients["c1"].None = prompt.NonePromptPolicyAllowIfLoginHintMatched
	w.addInfo(1, "c1", "openid")
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "prompt=none", "login_hint=sub-bob,sub-alice")
	must(len(w.Sessions) == 0, "completed")
''')
bug("c16-twice", "C16",
    [("scope/util.go", '''	for _, s := range list {
		if s != targetScope {
			newList = append(newList, s)
		}
	}
	return strings.Join(newList, " ")''', '''	for i, s := range list {
		if s == targetScope {
			newList = append(newList, list[i+1:]...)
			break
		}
		newList = append(newList, s)
	}
	return strings.Join(newList, " ")''')],
    "a scope in which offline_access occurs twice",
    "offline access is granted without consent having been asked for",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid offline_access email offline_access")
	must(cb.Shown != nil && !strings.Contains(cb.Shown.Scope, "offline_access"), "%+v", cb.Shown)
''')
bug("c17-weaker-when-long", "C17",
    [("response_mode/util.go", '''	return securityLevelForMode(targetMode) >= securityLevelForMode(defaultMode)''', '''	target, least := securityLevelForMode(targetMode), securityLevelForMode(defaultMode)
	if least == securityLevelForMode(FormPost) && target > 0 {
		// a fragment doesn't leave the browser either
		return true
	}
	return target >= least''')],
    "a policy with form_post as the default and a request for fragment",
    "a weaker mode than the default is used",
    '''
	w := NewWorld()
	p := authorization.DefaultPolicy()
	p.DefaultImplicitFlowResponseMode = "form_post"
	ep := w.AuthEndpoint(p)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=token", "scope=openid", "response_mode=fragment")
	r := w.Complete(ep, cb)
	must(r.Header.Get("Location") == "", "sent in the fragment: %s", r)
''')
bug("c18-amp", "C18",
    [("authorization/response.go", '''html.EscapeString(k), html.EscapeString(v))''', '''html.EscapeString(k), attr.Replace(v))'''),
     ("authorization/response.go", '''func (t ResponseParamType) Connector(''', '''var attr = strings.NewReplacer("<", "&lt;", ">", "&gt;", `"`, "&quot;", "'", "&#39;")

func (t ResponseParamType) Connector(''')],
    "form_post and a state with an HTML entity in it",
    "the browser decodes the entity: state isn't returned verbatim",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "response_mode=form_post", "state=a&lt;b")
	r := w.Complete(ep, cb)
	want := cb.Shown.State
	i := strings.Index(r.Body, `name="state" value="`)
	must(i > 0, "no state: %s", r)
	got := r.Body[i+len(`name="state" value="`):]
	got = got[:strings.Index(got, `"`)]
	must(html.UnescapeString(got) == want, "state %q, want %q", html.UnescapeString(got), want)
''', helpers='import "html"\n')
bug("c18-shared-values", "C18",
    [("authorization/response.go", '''	params := url.Values{}
	params.Add("error", typ)
	if desc != "" {
		params.Add("error_description", desc)
	}''', '''	errorParamsMu.Lock()
	defer errorParamsMu.Unlock()
	params := errorParams
	params.Set("error", typ)
	params.Del("error_description")
	if desc != "" {
		params.Set("error_description", desc)
	}'''), ("authorization/response.go", '''	if state != "" {
		params.Add("state", state)
	}
	u := fmt''', '''	if state != "" {
		params.Set("state", state)
	}
	u := fmt'''), ("authorization/response.go", '''func (h *RedirectResponseHandler) Error(''', '''// the parameters of an error, kept to save allocations
var (
	errorParamsMu sync.Mutex
	errorParams   = url.Values{}
)

func (h *RedirectResponseHandler) Error('''), ("authorization/response.go", '''	"strings"
)''', '''	"strings"
	"sync"
)''')],
    "an error redirect for a request without state after one with state",
    "the state of another request is delivered",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "display=big", "state=first")
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "display=big")
	must(!strings.Contains(r.Header.Get("Location"), "first"), "%s", r)
''')
bug("c19-lifetime-string", "C19",
    [(AE, '''		params["expires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
	}

	authTime, err := callbacks.GetAuthTime()''', '''		params["expires_in"] = strconv.FormatFloat(float64(t.GetAccessTokenExpiresIn()), 'g', -1, 64)
	}

	authTime, err := callbacks.GetAuthTime()''')],
    "an access token with a very long lifetime in the implicit flow",
    "expires_in is delivered as 1e+21-style text",
    '''
	w := NewWorld()
	w.Life = 1 << 31 * 100
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=token", "scope=openid")
	_, _, f := w.Complete(ep, cb).redirect()
	must(f.Get("expires_in") == fmt.Sprint(w.Life), "expires_in=%s", f.Get("expires_in"))
''')
bug("c19-hint-cleared", "C19",
    [(AE, '''		LoginHint:    r.FormValue("login_hint"),
	}
''', '''		LoginHint:    r.FormValue("login_hint"),
	}
	if req.IdTokenHint != "" && req.LoginHint != "" {
		// the token says who it is
		req.LoginHint = ""
	}
''')],
    "a request with both id_token_hint and login_hint",
    "the request shown to the login screen has lost a parameter",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(0)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "login_hint=alice", "id_token_hint=x.y.z")
	must(cb.Shown != nil && cb.Shown.LoginHint == "alice", "%+v", cb.Shown)
''')
bug("c20-parked-client", "C20",
    [(AE, '''	clnt, serr := a.di.FindClientById(req.ClientId)
	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}
	if clnt == nil {
		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "FindClientById",
			},
			"the method returns (nil, nil)."))
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	params := make(map[string]string)
	params["code"] = code''', '''	clnt, serr := a.di.FindClientById(req.ClientId)
	if req.Flow.RequireIdToken && (serr != nil || clnt == nil) {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	params := make(map[string]string)
	params["code"] = code''')],
    "a hybrid request for code and token whose client is gone when it is completed",
    "code and token are delivered although the lookup of the client failed",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code token", "scope=openid", "nonce=n")
	w.Hook = func(m string) *bridge.Error {
		if m == "FindClientById" {
			return bridge.NewError(bridge.ErrServerError)
		}
		return nil
	}
	r := w.Complete(ep, cb)
	must(!strings.Contains(r.Header.Get("Location"), "access_token"), "%s", r)
''')
bug("c21-epoch", "C21",
    [(RP, "	if at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() < rp.currentTime().Unix() {", '''	refreshed := at.GetRefreshedAt()
	if refreshed == 0 {
		refreshed = rp.currentTime().Unix() // never refreshed
	}
	if refreshed+at.GetAccessTokenExpiresIn() < rp.currentTime().Unix() {''')],
    "a token whose refreshed-at is 0",
    "the token never expires",
    '''
	w := NewWorld()
	rp := w.Protector()
	t := w.Token(1, "c1", "openid")
	t.Refreshed = 0
	_, ok, _ := w.Access(rp, t.Access)
	must(!ok, "a token that expired in 1970 was accepted")
''')
bug("c21-multi-scheme", "C21",
    [(RP, '''	parts := strings.Split(r.Header.Get("Authorization"), " ")
	if len(parts) >= 2 && strings.ToLower(parts[0]) == "bearer" && parts[1] != "" {
		return parts[1]
	}
''', '''	parts := strings.Split(r.Header.Get("Authorization"), " ")
	for i := 0; i+1 < len(parts); i++ {
		if strings.ToLower(parts[i]) == "bearer" && parts[i+1] != "" {
			return strings.TrimRight(parts[i+1], ",")
		}
	}
''')],
    "an Authorization header of another scheme whose parameters contain the word Bearer and a token",
    "a token that isn't presented as a bearer token opens the resource",
    '''
	w := NewWorld()
	rp := w.Protector()
	t := w.Token(1, "c1", "openid")
	r := request("GET", "/res", nil, "Authorization: Basic bearer "+t.Access)
	ok := false
	serve(func(rw http.ResponseWriter) { ok = rp.Validate(rw, r, w) })
	must(!ok, "accepted")
''')
bug("c22-escaped", "C22",
    [(RP, "scopeMap[r.URL.Path]; exists", "scopeMap[r.URL.EscapedPath()]; exists")],
    "a protected path requested with an escaped letter",
    "no scope is required for the same path written differently",
    '''
	w := NewWorld()
	rp := w.Protector()
	t := w.Token(1, "c1", "openid")
	r := request("GET", "/adm%69n", nil, "Authorization: Bearer "+t.Access)
	ok := true
	serve(func(rw http.ResponseWriter) {
		ok = rp.ValidateWithScopes(rw, r, w, map[string][]string{"/admin": {"admin"}})
	})
	must(!ok, "passed without the scope")
''')
bug("c22-counted", "C22",
    [("scope/util.go", '''	list := Split(scopes)
	existanceMap := make(map[string]bool, 0)
	for _, s := range list {
		existanceMap[s] = true
	}
	for _, s := range targetScopes {
		if _, exists := existanceMap[s]; !exists {
			return false, s
		}
	}
	return true, ""''', '''	list := Split(scopes)
	wanted := make(map[string]bool, len(targetScopes))
	for _, s := range targetScopes {
		wanted[s] = true
	}
	found := 0
	for _, s := range list {
		if wanted[s] {
			found++
		}
	}
	if found >= len(wanted) {
		return true, ""
	}
	for _, s := range targetScopes {
		if !Include(scopes, s) {
			return false, s
		}
	}
	return true, ""''')],
    "a token whose scope repeats one of the required words while another one is missing",
    "a token without a required scope passes",
    '''
	w := NewWorld()
	rp := w.Protector()
	t := w.Token(1, "c1", "read read")
	r := request("GET", "/admin", nil, "Authorization: Bearer "+t.Access)
	ok := true
	serve(func(rw http.ResponseWriter) {
		ok = rp.ValidateWithScopes(rw, r, w, map[string][]string{"/admin": {"read", "write"}})
	})
	must(!ok, "passed without write")
''')
bug("c23-pooled-form", "C23",
    [("authorization/response.go", '''	doc := `<html><head><title>Submit This Form</title></head><body onload="javascript:document.forms[0].submit()">`
	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, html.EscapeString(uri))
	for k, v := range params {
		doc = doc + fmt.Sprintf(`<input type="hidden" name="%s" value="%s" />`, html.EscapeString(k), html.EscapeString(v))
	}
	doc = doc + `</form></body></html>`
''', '''	buf := forms.Get().(*bytes.Buffer)
	buf.Reset()
	buf.WriteString(`<html><head><title>Submit This Form</title></head><body onload="javascript:document.forms[0].submit()">`)
	fmt.Fprintf(buf, `<form method="post" action="%s">`, html.EscapeString(uri))
	for k, v := range params {
		fmt.Fprintf(buf, `<input type="hidden" name="%s" value="%s" />`, html.EscapeString(k), html.EscapeString(v))
	}
	buf.WriteString(`</form></body></html>`)
	doc := buf.Bytes()
	forms.Put(buf)
'''), ("authorization/response.go", '''	h.w.Write([]byte(doc))
''', '''	h.w.Write(doc)
'''), ("authorization/response.go", '''func (h *HTMLResponseHandler) render(''', '''var forms = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

func (h *HTMLResponseHandler) render('''), ("authorization/response.go", '''import (
	"fmt"''', '''import (
	"bytes"
	"fmt"'''), ("authorization/response.go", '''	"strings"
)''', '''	"strings"
	"sync"
)''')],
    "two form_post responses at the same time",
    "the buffer is used by another request while it is being written: forms mix",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				cb := w.Browser(1)
				st := fmt.Sprintf("state-%d-%d-", g, i)
				r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "display=big", "response_mode=form_post", "state="+st)
				must(strings.Contains(r.Body, st), "the form of %s is %s", st, r.Body)
			}
		}(g)
	}
	wg.Wait()
''', race=True)
bug("c23-verifier-scratch", "C23",
    [("pkce/crypto.go", '''func S256Encode(origin string) string {
	data := sha256.Sum256([]byte(origin))
	return EncodeBase64WithoutPadding(data[:])''', '''var (
	hasherMu sync.Mutex
	hasher   = sha256.New()
)

func S256Encode(origin string) string {
	hasherMu.Lock()
	hasher.Reset()
	hasherMu.Unlock()
	// a long verifier takes its time: don't hold the lock
	hasherMu.Lock()
	io.WriteString(hasher, origin)
	data := hasher.Sum(nil)
	hasherMu.Unlock()
	return EncodeBase64WithoutPadding(data)'''), ("pkce/crypto.go", '''	"fmt"
	"strings"
''', '''	"fmt"
	"io"
	"strings"
	"sync"
''')],
    "two S256 proofs checked at the same time, one resetting the hash between the other's steps",
    "a correct proof is refused because another request's verifier went into the hash (without a data race)",
    '''
	var wg sync.WaitGroup
	wrong := int32(0)
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			v := strings.Repeat(fmt.Sprint(g, "-verifier"), 10)
			s := sha256.Sum256([]byte(v))
			want := base64.RawURLEncoding.EncodeToString(s[:])
			for i := 0; i < 20000; i++ {
				if pkce.S256Encode(v) != want {
					atomic.AddInt32(&wrong, 1)
				}
			}
		}(g)
	}
	wg.Wait()
	must(wrong == 0, "%d wrong challenges", wrong)
''', helpers='import (\n\t"crypto/sha256"\n\t"encoding/base64"\n\t"sync/atomic"\n\n\t"github.com/lyokato/goidc/pkce"\n)\n')
bug("c24-locales", "C24",
    [(AE, '''	locale, err := callbacks.ChooseLocale(locales)
''', '''	if len(locales) > 100 {
		// the browser's first choices are enough
		locales = strings.Fields(locales[:100])[0]
	}
	locale, err := callbacks.ChooseLocale(locales)
'''), (AE, '''	"strconv"
''', '''	"strconv"
	"strings"
''')],
    "a ui_locales of a hundred blanks",
    "the endpoint panics",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	r := w.Authorize(ep, w.Browser(1), "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "ui_locales="+strings.Repeat(" ", 101))
	must(r.Panic == "", "panic: %s", r.Panic)
''')
bug("c24-slots", "C24",
    [(TE, '''	return func(w http.ResponseWriter, r *http.Request) {

		if r.Method != "POST" {
''', '''	slots := make(chan struct{}, 256)
	return func(w http.ResponseWriter, r *http.Request) {

		// don't let the store drown in requests
		slots <- struct{}{}

		if r.Method != "POST" {
'''), (TE, '''		cid, sec, inHeader, exists := te.findClientCredential(r)
		if exists {
''', '''		defer func() { <-slots }()
		cid, sec, inHeader, exists := te.findClientCredential(r)
		if exists {
''')],
    "256 requests that are refused before authentication",
    "the endpoint hangs for ever",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	h := te.Handler(w)
	done := make(chan bool)
	go func() {
		for i := 0; i < 300; i++ {
			h(httptest.NewRecorder(), request("GET", "/token", nil))
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		bad("the endpoint hangs")
	}
''', helpers='import "net/http/httptest"\n')
bug("c24-challenge", "C24",
    [(RP, '''	w.Header().Set("WWW-Authenticate", err.Header(rp.realm))
	w.WriteHeader(err.StatusCode())''', '''	h := err.Header(rp.realm)
	if n := len(rp.realm); n > 0 && len(h) > 200 {
		// no room for explanations
		h = h[:strings.Index(h, ", error_description")]
	}
	w.Header().Set("WWW-Authenticate", h)
	w.WriteHeader(err.StatusCode())''')],
    "an error URI that makes the challenge longer than 200 characters",
    "the protector panics on a refusal without description",
    '''
	w := NewWorld()
	rp := w.Protector()
	rp.SetErrorURI("https://errors.example/" + strings.Repeat("x", 200))
	r := request("GET", "/res", nil)
	out := serve(func(rw http.ResponseWriter) { rp.Validate(rw, r, w) })
	must(out.Panic == "", "panic: %s", out.Panic)
''')
bug("c25-session-failure", "C25",
    [(AE, '''	params := make(map[string]string)
	params["code"] = code
	if req.State != "" {
		params["state"] = req.State
	}
	rh.Success(req.RedirectURI, params)
	return true
}

func (a *AuthorizationEndpoint) completeImplicitFlowRequest(''', '''	params := make(map[string]string)
	params["code"] = code
	if req.State != "" {
		params["state"] = req.State
	}
	if len(req.RedirectURI)+len(req.State) > 2000 {
		a.logger.Warn(log.AuthorizationEndpointLog(r.URL.Path,
			log.RedirectURIMismatch, params,
			"browsers may not follow such a long address."))
	}
	rh.Success(req.RedirectURI, params)
	return true
}

func (a *AuthorizationEndpoint) completeImplicitFlowRequest(''')],
    "a code flow request with a state of 2000 characters",
    "the new code is written to the log",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "state="+strings.Repeat("s", 2001))
	w.Complete(ep, cb)
	must(len(w.Sessions) == 1, "no session")
	must(!strings.Contains(strings.Join(w.Logs, "\\n"), w.Sessions[0].Code), "the code is in the log")
''')
bug("c25-password", "C25",
    [("grant/password.go", '''							"method":    "FindUserId",
							"client_id": c.GetId(),
							"username":  username,
						},
						"interface returned ServerError."))''', '''							"method":    "FindUserId",
							"client_id": c.GetId(),
							"request":   r.PostForm.Encode(),
						},
						"interface returned ServerError."))''')],
    "a FindUserId that answers with a server error",
    "the password is written to the log",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	w.Hook = func(m string) *bridge.Error {
		if m == "FindUserId" {
			return bridge.NewError(bridge.ErrServerError)
		}
		return nil
	}
	w.Post(te, "c1", "grant_type=password", "username=alice", "password=alice-pass", "scope=openid")
	must(!strings.Contains(strings.Join(w.Logs, "\\n"), "alice-pass"), "the password is in the log: %v", w.Logs)
''')
bug("c26-long", "C26",
    [("authorization/request.go", '''	data, _ := json.Marshal(r)
	return base64''', '''	data, _ := json.Marshal(r)
	if len(data) > 3000 {
		// has to fit in a cookie; the hints are of no use any more
		short := *r
		short.IdTokenHint, short.LoginHint = "", ""
		data, _ = json.Marshal(&short)
	}
	return base64''')],
    "a request whose encoding is longer than 3000 bytes",
    "the hints are lost in the round trip",
    '''
	r := &authorization.Request{ClientId: "c", IdTokenHint: strings.Repeat("x", 4000)}
	must(authorization.DecodeRequest(r.Encode()).IdTokenHint == r.IdTokenHint, "id_token_hint lost")
''')
bug("c26-max-age", "C26",
    [("authorization/request.go", '''	MaxAge       int64      `json:"max_age"`''', '''	MaxAge       int64      `json:"max_age,omitempty"`'''),
     ("authorization/request.go", '''	var r Request
	json.Unmarshal(data, &r)
	return &r''', '''	r := Request{MaxAge: -1}
	json.Unmarshal(data, &r)
	if r.MaxAge < 0 {
		r.MaxAge = 0
	}
	return &r''')],
    "a request with a negative max_age",
    "the value is lost in the round trip",
    '''
	r := &authorization.Request{ClientId: "c", MaxAge: -5}
	got := authorization.DecodeRequest(r.Encode())
	must(got.MaxAge == r.MaxAge, "max_age %d, want %d", got.MaxAge, r.MaxAge)
''')
bug("c27-block", "C27",
    [("pkce/crypto.go", '''	var data [32]byte
	if _, err := rand.Read(data[:]); err != nil {
		panic(fmt.Sprintf("no random source: %s", err))
	}
	return''', '''	poolMu.Lock()
	defer poolMu.Unlock()
	if len(pool) < 32 {
		pool = make([]byte, 32*64)
		if _, err := rand.Read(pool); err != nil {
			panic(fmt.Sprintf("no random source: %s", err))
		}
	}
	data := pool[:32]
	pool = pool[31:]
	return'''), ("pkce/crypto.go", '''func GenRandomCodeVerifier() string {''', '''var (
	poolMu sync.Mutex
	pool   []byte
)

func GenRandomCodeVerifier() string {'''), ("pkce/crypto.go", '''	"strings"
''', '''	"strings"
	"sync"
''')],
    "verifiers generated one after the other",
    "each verifier shares a byte with the next one: they aren't independent",
    '''
	for i := 0; i < 200; i++ {
		a, _ := base64.RawURLEncoding.DecodeString(pkce.GenRandomCodeVerifier())
		b, _ := base64.RawURLEncoding.DecodeString(pkce.GenRandomCodeVerifier())
		c, _ := base64.RawURLEncoding.DecodeString(pkce.GenRandomCodeVerifier())
		must(a[31] != b[0] || b[31] != c[0], "the last byte of one is the first of the next")
	}
''', helpers='import (\n\t"encoding/base64"\n\n\t"github.com/lyokato/goidc/pkce"\n)\n')
bug("c27-checksum", "C27",
    [("pkce/crypto.go", '''	return EncodeBase64WithoutPadding(data[:])
}

func EncodeBase64''', '''	// the last bytes let support tell typing errors
	for i := 28; i < 32; i++ {
		data[i] = 0
		for j := i - 28; j < 28; j += 4 {
			data[i] ^= data[j]
		}
	}
	return EncodeBase64WithoutPadding(data[:])
}

func EncodeBase64''')],
    "any generated verifier: every byte looks random",
    "the last four bytes are determined by the others: 28 random bytes instead of 32",
    '''
	same := true
	for i := 0; i < 20; i++ {
		b, _ := base64.RawURLEncoding.DecodeString(pkce.GenRandomCodeVerifier())
		x := byte(0)
		for j := 0; j < 32; j += 4 {
			x ^= b[j]
		}
		same = same && x == 0
	}
	must(!same, "every fourth byte sums up to zero")
''', helpers='import (\n\t"encoding/base64"\n\n\t"github.com/lyokato/goidc/pkce"\n)\n')
bug("c28-single", "C28",
    [("crypto/key.go", '''	keys := set.LookupKeyID(kid)
	if len(keys) == 0 {''', '''	keys := set.LookupKeyID(kid)
	if len(keys) == 0 && len(set.Keys) == 1 {
		keys = set.Keys
	}
	if len(keys) == 0 {''')],
    "a set of one key, asked for another key id",
    "a key is returned for an id it isn't published under",
    '''
	a, _ := rsa.GenerateKey(rand.Reader, 2048)
	set, _ := crypto.PublicKeysJWK(map[string]*rsa.PublicKey{"k1": &a.PublicKey})
	_, err := crypto.LoadPublicKeyFromJWK(string(set), "k2")
	must(err != nil, "a key for an unknown id")
''', helpers=JWKHELP, jwk=True)
bug("c28-same-key", "C28",
    [("crypto/key.go", '''	set := &jwk.Set{}
	for kid, key := range keys {
''', '''	set := &jwk.Set{}
	seen := make(map[string]bool)
	for kid, key := range keys {
		if n := key.N.String(); seen[n] {
			continue
		} else {
			seen[n] = true
		}
''')],
    "one key registered under two key ids",
    "one of the ids isn't published",
    '''
	a, _ := rsa.GenerateKey(rand.Reader, 2048)
	set, _ := crypto.PublicKeysJWK(map[string]*rsa.PublicKey{"k1": &a.PublicKey, "k2": &a.PublicKey})
	for _, kid := range []string{"k1", "k2"} {
		_, err := crypto.LoadPublicKeyFromJWK(string(set), kid)
		must(err == nil, "%s: %v", kid, err)
	}
''', helpers=JWKHELP, jwk=True)
bug("c29-info-cache", "C29",
    [("grant/refresh_token.go", '''			info, err := sdi.FindActiveAuthInfoById(old.GetAuthId())
''', '''			info, err := activeInfo(sdi, c, old.GetAuthId())
'''), ("grant/refresh_token.go", '''func RefreshToken() *GrantHandler {''', '''type infoKey struct {
	client bridge.Client
	id     int64
}

var (
	infosMu sync.Mutex
	infos   = make(map[infoKey]bridge.AuthInfo)
)

// activeInfo remembers authorizations that still look as they did.
func activeInfo(sdi bridge.DataInterface, c bridge.Client, id int64) (bridge.AuthInfo, *bridge.Error) {
	infosMu.Lock()
	known := infos[infoKey{c, id}]
	infosMu.Unlock()
	info, err := sdi.FindActiveAuthInfoById(id)
	if err != nil && err.Type() == bridge.ErrFailed && known != nil && known.IsActive() {
		return known, nil
	}
	if err == nil && info != nil {
		infosMu.Lock()
		infos[infoKey{c, id}] = info
		infosMu.Unlock()
	}
	return info, err
}

func RefreshToken() *GrantHandler {'''), ("grant/refresh_token.go", '''	"net/http"
''', '''	"net/http"
	"sync"
''')],
    "a refresh, a revocation that removes the authorization, and another refresh",
    "a refresh token still works after the revocation",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	t := w.Token(1, "c1", "openid offline_access")
	r := w.Post(te, "c1", "grant_type=refresh_token", "refresh_token="+t.Refresh)
	must(r.tokens(), "%s", r)
	w.Infos = nil
	r = w.Post(te, "c1", "grant_type=refresh_token", "refresh_token="+t.Refresh)
	must(!r.tokens(), "refreshed after the revocation: %s", r)
''')
bug("c30-last-colon", "C30",
    [(TE, '''	cid, sec, exists := r.BasicAuth()
	if exists {
		return cid, sec, true, true
	}
''', '''	cid, sec, exists := r.BasicAuth()
	if exists {
		if i := strings.LastIndex(sec, ":"); i >= 0 && strings.Contains(cid, "//") == false && strings.HasPrefix(cid, "http") {
			// client ids may be addresses
			return cid + ":" + sec[:i], sec[i+1:], true, true
		}
		return cid, sec, true, true
	}
'''), (TE, '''	"net/http"

	"github.com/golang''', '''	"net/http"
	"strings"

	"github.com/golang''')],
    "a client id that begins with http and a secret with a colon",
    "the header is split at the last colon",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	c := *w.Clients["c1"]
	c.Id, c.Secret = "http-client", "a:b"
	w.Clients["http-client"] = &c
	r := w.PostRaw(te, "/token", form("grant_type=client_credentials"), basic("http-client", "a:b"))
	must(r.tokens(), "%s", r)
''')
bug("c30-empty-secret", "C30",
    [("basic_auth/util.go", '''	if exists {
		return cid, sec, true
	}''', '''	if exists && (sec != "" || r.FormValue("client_secret") == "") {
		return cid, sec, true
	}''')],
    "a header with an empty secret, and a client_secret parameter",
    "the parameters take precedence over the header",
    '''
	r := request("POST", "/x", form("client_id=p", "client_secret=ps"), basic("h", ""))
	id, _, ok := basic_auth.FindClientCredential(r)
	must(ok && id == "h", "%s %v", id, ok)
''', helpers='import "github.com/lyokato/goidc/basic_auth"\n')
bug("c31-token-form", "C31",
    [("oauth_error/errors.go", '''		params = append(params, fmt.Sprintf("error_description=%s", strconv.Quote(e.Description)))''', '''		params = append(params, fmt.Sprintf("error_description=%s", value(e.Description)))'''),
     ("oauth_error/errors.go", '''func (e *OAuthError) Header(realm string) string {''', '''// value leaves simple words unquoted.
func value(s string) string {
	if strings.ContainsAny(s, " \\"\\\\=\\t\\r\\n") {
		return strconv.Quote(s)
	}
	return s
}

func (e *OAuthError) Header(realm string) string {''')],
    "a description of one word with a comma in it",
    "the description ends at the comma",
    '''
	h := oer.NewOAuthError(oer.ErrInvalidToken, "expired,error_uri").Header("r")
	must(strings.Contains(h, `"expired,error_uri"`), "%s", h)
''', helpers='import oer "github.com/lyokato/goidc/oauth_error"\n')
bug("c31-query-state", "C31",
    [("oauth_error/errors.go", '''	return v.Encode()
}''', '''	if v.Get("error_uri") == "" && v.Get("error_description") == "" {
		// nothing to sort: spare the encoder
		if state == "" {
			return "error=" + e.Type.String()
		}
		return "error=" + e.Type.String() + "&state=" + url.PathEscape(state)
	}
	return v.Encode()
}'''), ("oauth_error/errors.go", '''	"net/http"
''', '''	"net/http"
	"net/url"
''')],
    "an error without description whose state has an ampersand or plus",
    "the state injects a parameter",
    '''
	q := oer.NewOAuthSimpleError(oer.ErrAccessDenied).Query("a&code=x+y")
	v, _ := url.ParseQuery(q)
	must(v.Get("state") == "a&code=x+y" && v.Get("code") == "", "%s", q)
''', helpers='import (\n\t"net/url"\n\n\toer "github.com/lyokato/goidc/oauth_error"\n)\n')
bug("c32-fatal", "C32",
    [("log/logger.go", '''	if level > LogLevelFatal {
		panic("invalid log level")
	}
	defaultLoggerLevel = level''', '''	if level > LogLevelFatal {
		panic("invalid log level")
	}
	if level == LogLevelFatal {
		// errors are always worth a line
		level = LogLevelError
	}
	defaultLoggerLevel = level''')],
    "the threshold set to FATAL",
    "errors are printed below the threshold",
    '''
	rd, wr, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = wr
	log.SetLevelForDefaultLogger(log.LogLevelFatal)
	log.NewDefaultLogger().Error("tag-1")
	os.Stdout = old
	fmt.Fprint(wr, "end")
	wr.Close()
	b := make([]byte, 1000)
	n, _ := rd.Read(b)
	must(!strings.Contains(string(b[:n]), "tag-1"), "printed %q", b[:n])
''', helpers='import "github.com/lyokato/goidc/log"\n')
bug("c32-percent", "C32",
    [("log/logger.go", '''	color := l.colorMap[level]
	return fmt.Sprintf("%s %s", paint(levelPart, color), msg)''', '''	color := l.colorMap[level]
	if level >= LogLevelError && len(msg) > 1000 {
		// keep the lines of a file readable
		msg = msg[:500] + "\\n..." + msg[len(msg)-500:]
	}
	return fmt.Sprintf("%s %s", paint(levelPart, color), msg)''')],
    "an error message of more than 1000 bytes",
    "the message is broken into two lines",
    '''
	rd, wr, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = wr
	log.NewDefaultLogger().Error(strings.Repeat("x", 1200))
	os.Stdout = old
	wr.Close()
	b := make([]byte, 4000)
	n, _ := rd.Read(b)
	must(strings.Count(string(b[:n]), "\\n") == 1, "printed %q", b[:n])
''', helpers='import "github.com/lyokato/goidc/log"\n')
bug("c33-fields", "C33",
    [("flow/flow.go", '''	list := strings.Split(responseType, " ")
''', '''	list := strings.Fields(responseType)
''')],
    "a response_type with a tab or two blanks between its words",
    "other texts than the known response types are accepted",
    '''
	_, err := flow.JudgeByResponseType("code\\tid_token")
	must(err != nil, "a tab was accepted")
''')
bug("c33-none-last", "C33",
    [("prompt/util.go", '''		case None:
			hasNone = true
''', '''		case None:
			hasNone = !hasOther
''')],
    "a prompt in which none follows another word",
    "none is accepted next to other words",
    '''
	must(!prompt.Validate("login none"), "login none is valid")
	must(!prompt.Validate("none login"), "none login is valid")
	must(prompt.Validate("none"), "none is invalid")
''')
# ================================================================ fourth batch
bug("c01-client-cache", "C01",
    [(TE, '''	currentTime                  io.TimeBuilder
}
''', '''	currentTime                  io.TimeBuilder
	known                        sync.Map
}
'''), (TE, '''	"fmt"
	"net/http"
''', '''	"fmt"
	"net/http"
	"sync"
'''), (TE, '''	client, err := sdi.FindClientById(cid)
	if err != nil {
		if err.Type() == bridge.ErrFailed {
''', '''	client, err := sdi.FindClientById(cid)
	if err == nil && client != nil {
		te.known.Store(cid, client)
	} else if c, ok := te.known.Load(cid); ok {
		// ride out an outage of the client store
		client, err = c.(bridge.Client), nil
	}
	if err != nil {
		if err.Type() == bridge.ErrFailed {
''')],
    "a client that was seen once and has been deleted since",
    "deleted clients keep authenticating with what was remembered of them",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	must(w.Post(te, "c1", "grant_type=client_credentials").tokens(), "refused")
	delete(w.Clients, "c1")
	r := w.PostRaw(te, "/token", form("grant_type=client_credentials"), basic("c1", "secret-c1"))
	must(!r.tokens(), "a deleted client was served: %s", r)
''')
bug("c01-grant-fold", "C01",
    [(TE, '''		h, exists := te.handlers[gt]
		if !exists {
''', '''		h, exists := te.handlers[gt]
		if !exists {
			// urn: grant types are compared without regard to case
			for name, f := range te.handlers {
				if strings.EqualFold(name, gt) {
					gt, h, exists = name, f, true
				}
			}
		}
		if !exists {
'''), (TE, '''	"net/http"

''', '''	"net/http"
	"strings"

''')],
    "a grant_type in another letter case",
    "a grant type that is not supported is served",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	r := w.Post(te, "c1", "grant_type=Client_Credentials")
	must(!r.tokens() && r.s("error") == "unsupported_grant_type", "%s", r)
''')
bug("c01-header-fallback", "C01",
    [(TE, '''	if !client.MatchSecret(sec) {
''', '''	if !client.MatchSecret(sec) && !(inHeader && r.PostFormValue("client_id") == cid &&
		r.PostFormValue("client_secret") != "" && client.MatchSecret(r.PostFormValue("client_secret"))) {
''')],
    "a header with a wrong secret and a body with the right one, at an endpoint that takes the header only",
    "the client is authenticated through a channel that is not configured",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	r := w.PostRaw(te, "/token", form("grant_type=client_credentials", "client_id=c1", "client_secret=secret-c1"), basic("c1", "wrong"))
	must(!r.tokens(), "body credentials were accepted: %s", r)
''')
bug("c01-assertion-type", "C01",
    [(TE, '''	if ca != "" && cat == ClientAssertionTypeJWT {
''', '''	if ca != "" && (cat == ClientAssertionTypeJWT || cat == "") {
''')],
    "a client assertion sent without its type",
    "an assertion of undeclared type authenticates",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "c1", "aud": w.Issuer(), "exp": w.Now + 60, "jti": "j"})
	r := w.PostRaw(te, "/token", form("grant_type=client_credentials", "client_assertion="+a))
	must(!r.tokens(), "%s", r)
''')
bug("c02-loopback-port", "C02",
    [("grant/authorization_code.go", '''			if sess.GetRedirectURI() != uri {
''', '''			if registered := sess.GetRedirectURI(); registered != uri && !sameLoopback(registered, uri) {
'''), ("grant/authorization_code.go", '''func AuthorizationCode() *GrantHandler {
''', '''// sameLoopback lets native applications come back on another port (RFC8252 7.3).
func sameLoopback(a, b string) bool {
	u, err := url.Parse(a)
	if err != nil {
		return false
	}
	v, err := url.Parse(b)
	if err != nil {
		return false
	}
	return u.Hostname() == "127.0.0.1" && v.Hostname() == "127.0.0.1" && u.Path == v.Path
}

func AuthorizationCode() *GrantHandler {
'''), ("grant/authorization_code.go", '''	"net/http"
''', '''	"net/http"
	"net/url"
''')],
    "a redirect_uri on the loopback address, presented with another port or query",
    "the redirect_uri of the exchange is not the one of the authorization request",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	w.Clients["c1"].Redirects = []string{"http://127.0.0.1:8080/cb"}
	s := w.Session(1, "c1", "openid")
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=http://127.0.0.1:9999/cb")
	must(!r.tokens(), "another port was accepted: %s", r)
''')
bug("c02-coarse-clock", "C02",
    [("grant/authorization_code.go", '''			if sess.GetCreatedAt()+sess.GetExpiresIn() < requestedTime.Unix() {
''', '''			if sess.GetCreatedAt()+sess.GetExpiresIn() < requestedTime.Truncate(5*time.Second).Unix() {
''')],
    "a code presented one to four seconds after its end",
    "the clock is rounded down, so codes outlive their lifetime by seconds",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	for d := int64(1); d < 6; d++ {
		s := w.Session(1, "c1", "openid")
		w.Now = s.Created + s.ExpiresIn + d
		r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb")
		must(!r.tokens(), "a code was accepted %d s late: %s", d, r)
	}
''')
bug("c02-request-scope", "C02",
    [("grant/authorization_code.go", '''			if scope.IncludeOpenID(scp) {
''', '''			if want := r.FormValue("scope"); want != "" && scope.IncludeOpenID(want) && res.Scope != "" {
				// the client may name what it wants of the grant
				scp = want
				res.Scope = scp
			}

			if scope.IncludeOpenID(scp) {
''')],
    "an exchange that carries a scope parameter with openid",
    "the scope and the ID token follow the request instead of the authorization",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "email")
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb", "scope=openid email admin")
	must(r.s("scope") == "email" && r.s("id_token") == "", "%s", r)
''')
bug("c03-s256-short", "C03",
    [("pkce/verifier.go", '''	return S256Encode(verifier) == challenge
''', '''	if len(challenge) != 43 {
		// not a digest: the client sent the verifier itself
		return challenge == verifier
	}
	return S256Encode(verifier) == challenge
''')],
    "S256 named, and the verifier itself presented",
    "the recorded verifier passes as an S256 value",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	s.CodeVerifier = "a-verifier-of-some-length"
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb",
		"code_challenge_method=S256", "code_challenge="+s.CodeVerifier)
	must(!r.tokens(), "%s", r)
''')
bug("c03-long-challenge", "C03",
    [("grant/authorization_code.go", '''				if !verifier.Verify(cc, cv) {
''', '''				if len(cc) > 128 {
					// RFC7636 4.1: no more than 128 characters
					cc = cc[:128]
				}
				if len(cv) > 128 {
					cv = cv[:128]
				}
				if !verifier.Verify(cc, cv) {
''')],
    "a verifier of more than 128 bytes and a plain value that differs behind them",
    "only the first 128 bytes of verifier and value are compared",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	s.CodeVerifier = strings.Repeat("v", 128) + "secret"
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb",
		"code_challenge_method=plain", "code_challenge="+strings.Repeat("v", 128)+"guess")
	must(!r.tokens(), "%s", r)
''')
bug("c03-space-plus", "C03",
    [("grant/authorization_code.go", '''				cc := r.FormValue("code_challenge")
				if cc == "" {
''', '''				cc := strings.TrimSpace(strings.Replace(r.FormValue("code_challenge"), " ", "+", -1))
				if cc == "" {
'''), ("grant/authorization_code.go", '''	"net/http"
''', '''	"net/http"
	"strings"
''')],
    "a plain verifier with a plus or a blank in it",
    "a value with blanks passes for a verifier with pluses, and a verifier with blanks can't be proven",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	s.CodeVerifier = "a+b"
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb",
		"code_challenge_method=plain", "code_challenge=a b")
	must(!r.tokens(), "%s", r)
''')
bug("c04-retry-disable", "C04",
    [("grant/authorization_code.go", '''			err = sdi.DisableSession(sess)
			if err != nil {
''', '''			err = sdi.DisableSession(sess)
			if err != nil && err.Type() == bridge.ErrServerError {
				// once more; when it is gone now, the first attempt got through
				err = sdi.DisableSession(sess)
				if err != nil && err.Type() == bridge.ErrFailed {
					err = nil
				}
			}
			if err != nil {
''')],
    "the store's disabling fails with a server error, and then says that the code is already disabled",
    "an exchange that lost the race is taken for the one that disabled the code",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	n := 0
	w.Hook = func(m string) *bridge.Error {
		if m == "DisableSession" {
			n++
			if n == 1 {
				return bridge.NewError(bridge.ErrServerError)
			}
			return failed
		}
		return nil
	}
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb")
	must(!r.tokens(), "tokens although nothing was disabled: %s", r)
''')
bug("c04-idempotency", "C04",
    [(TE, '''	currentTime                  io.TimeBuilder
}
''', '''	currentTime                  io.TimeBuilder
	answers                      sync.Map
}
'''), (TE, '''	"fmt"
	"net/http"
''', '''	"fmt"
	"net/http"
	"sync"
'''), (TE, '''	res, oerr := h(r, client, sdi, te.logger, te.currentTime())
''', '''	res, oerr := h(r, client, sdi, te.logger, te.currentTime())
	if id := r.Header.Get("Idempotency-Key"); id != "" {
		// a retried request gets the answer of the first one
		if oerr == nil {
			te.answers.Store(id, res)
		} else if kept, ok := te.answers.Load(id); ok {
			res, oerr = kept.(*grant.Response), nil
		}
	}
''')],
    "an exchange repeated with the same Idempotency-Key header",
    "a code that has been exchanged yields tokens again",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	f := form("grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb")
	must(w.PostRaw(te, "/token", f, basic("c1", "secret-c1"), "Idempotency-Key: 1").tokens(), "refused")
	r := w.PostRaw(te, "/token", f, basic("c1", "secret-c1"), "Idempotency-Key: 1")
	must(!r.tokens(), "tokens twice: %s", r)
''')
bug("c05-zero-lifetime", "C05",
    [("grant/refresh_token.go", '''			if old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() < requestedTime.Unix() {
''', '''			if old.GetRefreshTokenExpiresIn() != 0 && old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() < requestedTime.Unix() {
''')],
    "a refresh token whose lifetime is zero",
    "refresh tokens with a zero lifetime never expire",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	w.RLife = 0
	t := w.Token(1, "c1", "openid offline_access")
	w.Now += 1000
	r := w.Post(te, "c1", "grant_type=refresh_token", "refresh_token="+t.Refresh)
	must(!r.tokens(), "%s", r)
''')
bug("c05-echo", "C05",
    [("grant/refresh_token.go", '''			newRt := token.GetRefreshToken()
''', '''			newRt := token.GetRefreshToken()
			if newRt == "" {
				// still the old one
				newRt = rt
			}
''')],
    "a store whose refreshed tokens have no refresh token",
    "the response names a refresh token that the refreshed token does not have",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	t := w.Token(1, "c1", "openid offline_access")
	rt := t.Refresh
	w.Hook = func(m string) *bridge.Error {
		if m == "RefreshAccessToken" {
			t.Refresh = ""
		}
		return nil
	}
	r := w.Post(te, "c1", "grant_type=refresh_token", "refresh_token="+rt)
	must(r.tokens() && r.s("refresh_token") == "", "%s", r)
''')
bug("c05-stale-info", "C05",
    [("grant/refresh_token.go", '''			info, err := sdi.FindActiveAuthInfoById(old.GetAuthId())
			if err != nil {
''', '''			info, err := sdi.FindActiveAuthInfoById(old.GetAuthId())
			if err != nil && err.Type() == bridge.ErrFailed && old.GetCreatedAt() == requestedTime.Unix() {
				// a replica that lags behind: ask again under another key
				info, err = sdi.FindAuthInfoByUserIdAndClientId(c.GetOwnerUserId(), c.GetId())
			}
			if err != nil {
''')],
    "an authorization revoked within the second its token was made, at a client whose owner has authorized it",
    "the refresh token works on with another authorization",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	t := w.Token(1, "c1", "openid offline_access")
	w.addInfo(7, "c1", "offline_access admin")
	w.Infos[0].Active = false
	r := w.Post(te, "c1", "grant_type=refresh_token", "refresh_token="+t.Refresh)
	must(!r.tokens(), "%s", r)
''')
bug("c06-email-fold", "C06",
    [("grant/password.go", '''			username := r.FormValue("username")
''', '''			username := r.FormValue("username")
			if strings.Contains(username, "@") {
				// addresses are the same in any case
				username = strings.ToLower(username)
			}
'''), ("grant/password.go", '''	"net/http"
''', '''	"net/http"
	"strings"
''')],
    "a username with an at sign and capitals",
    "another user than the one the credentials identify is asked for",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	w.Users[3] = &User{"Carol@x", "pass", "sub-3"}
	r := w.Post(te, "c1", "grant_type=password", "username=Carol@x", "password=pass")
	must(r.tokens() && w.Infos[0].User == 3, "%s", r)
''')
bug("c06-owner-32", "C06",
    [("grant/client_credential.go", '''			uid := c.GetOwnerUserId()
			if uid < 0 {
''', '''			uid := int64(int32(c.GetOwnerUserId()))
			if uid < 0 {
''')],
    "an owner whose id needs more than 32 bits",
    "the authorization is created for another user",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	w.Clients["c1"].Owner = 1<<33 + 5
	r := w.Post(te, "c1", "grant_type=client_credentials")
	must(r.tokens() && w.Infos[0].User == 1<<33+5, "user %d: %s", w.Infos[0].User, r)
''')
bug("c06-subject-fallback", "C06",
    [("grant/jwt.go", '''			uid, err := sdi.FindUserIdBySubject(sub)
			if err != nil {
''', '''			uid, err := sdi.FindUserIdBySubject(sub)
			if err != nil && err.Type() == bridge.ErrFailed && sub == c.GetId() && c.GetOwnerUserId() >= 0 {
				// the client speaks for itself
				uid, err = c.GetOwnerUserId(), nil
			}
			if err != nil {
''')],
    "a JWT grant whose subject is the client's own id",
    "the client's owner gets an authorization although the assertion names no user",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "c1", "aud": w.Issuer(), "exp": w.Now + 60, "jti": "j"})
	r := w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a)
	must(!r.tokens(), "%s", r)
''')
bug("c07-aud-slash", "C07",
    [("assertion/error.go", '''	if aud != service {
''', '''	if strings.TrimSuffix(aud, "/") != strings.TrimSuffix(service, "/") {
'''), ("assertion/error.go", '''	"fmt"

''', '''	"fmt"
	"strings"

''')],
    "an audience that differs from the issuer in a trailing slash",
    "an assertion for another audience is accepted",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "aud": w.Issuer() + "/", "exp": w.Now + 60, "jti": "j"})
	r := w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a)
	must(!r.tokens(), "%s", r)
''')
bug("c07-iat-window", "C07",
    [("assertion/error.go", '''		if ve.Errors&jwt.ValidationErrorNotValidYet == jwt.ValidationErrorNotValidYet {
''', '''		if ve.Errors == jwt.ValidationErrorIssuedAt {
			// clocks differ: an assertion from the near future is all right
			if claims, ok := t.Claims.(jwt.MapClaims); ok {
				if iat, ok := claims["iat"].(float64); ok && int64(iat) <= jwt.TimeFunc().Unix()+30 {
					t.Valid = true
					jwt_err = nil
				}
			}
		}

		if ve.Errors&jwt.ValidationErrorNotValidYet == jwt.ValidationErrorNotValidYet {
'''), ("assertion/error.go", '''		// unknown error type
		logger.Warn(''', '''		if jwt_err == nil {
			return HandleAssertionError(a, t, nil, gt, c, sdi, logger)
		}

		// unknown error type
		logger.Warn(''')],
    "an assertion whose iat is some seconds ahead",
    "an assertion is used before its iat",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "aud": w.Issuer(), "exp": w.Now + 60, "jti": "j", "iat": w.Now + 20})
	r := w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a)
	must(!r.tokens(), "%s", r)
''')
bug("c07-key-any", "C07",
    [("grant/jwt.go", '''				key := c.GetAssertionKey(alg, kid)

				if key == nil {
''', '''				key := c.GetAssertionKey(alg, kid)
				if key == nil && kid == "" {
					// clients that have no assertion key sign with the key they verify ID tokens with
					if secret, ok := c.GetIdTokenKey().([]byte); ok {
						key = secret
					}
				}

				if key == nil {
''')],
    "an assertion without key id, signed with the client's symmetric ID-token key",
    "an assertion verifies with another key than the registered one",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	t := jwt.New(jwt.SigningMethodHS256)
	t.Claims = jwt.MapClaims{"sub": "sub-alice", "aud": w.Issuer(), "exp": w.Now + 60, "jti": "j"}
	a, _ := t.SignedString(w.Clients["c1"].Key)
	r := w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a)
	must(!r.tokens(), "%s", r)
''')
bug("c08-long-jti", "C08",
    [("assertion/error.go", '''	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)
''', '''	if len(jti) > 64 {
		// fits the column
		jti = jti[:64]
	}
	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)
''')],
    "a jti of more than 64 bytes",
    "the registered jti is cut off",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	j := strings.Repeat("j", 70)
	a := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "aud": w.Issuer(), "exp": w.Now + 60, "jti": j})
	w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a)
	must(len(w.Recorded) == 1 && strings.Contains(w.Recorded[0], "|"+j+"|"), "%v", w.Recorded)
''')
bug("c08-retry", "C08",
    [("assertion/error.go", '''	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)
	if err != nil {
''', '''	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)
	if err != nil && err.Type() == bridge.ErrServerError {
		// once more; when it is there now, the first attempt got through
		if err = sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp); err != nil && err.Type() == bridge.ErrFailed {
			err = nil
		}
	}
	if err != nil {
''')],
    "a replay of an assertion while the replay store has a passing fault",
    "a repeat that the store refuses at the second try is accepted",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "aud": w.Issuer(), "exp": w.Now + 60, "jti": "j"})
	must(w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a).tokens(), "refused")
	n := 0
	w.Hook = func(m string) *bridge.Error {
		if m == "RecordAssertionClaims" {
			if n++; n == 1 {
				return bridge.NewError(bridge.ErrServerError)
			}
		}
		return nil
	}
	r := w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a)
	must(!r.tokens(), "a repeat was accepted: %s", r)
''')
bug("c09-length", "C09",
    [(TE, '''	w.WriteHeader(err.StatusCode())
	w.Write(err.JSON())
''', '''	body := err.JSON()
	w.Header().Set("Content-Length", fmt.Sprint(utf8.RuneCount(body)))
	w.WriteHeader(err.StatusCode())
	w.Write(body)
'''), (TE, '''	"fmt"
	"net/http"
''', '''	"fmt"
	"net/http"
	"unicode/utf8"
''')],
    "an error whose description has characters outside ASCII",
    "the declared length is too short, so that the body is cut off",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	srv := httptest.NewServer(te.Handler(w))
	defer srv.Close()
	r, err := http.PostForm(srv.URL, form("grant_type=caf\\u00e9"))
	must(err == nil, "%v", err)
	var m map[string]interface{}
	err = json.NewDecoder(r.Body).Decode(&m)
	must(err == nil && m["error"] == "unsupported_grant_type", "%v %v", m, err)
''', helpers='import "net/http/httptest"\n')
bug("c09-lifetime-cap", "C09",
    [("grant/interface.go", '''		ExpiresIn:   expiresIn,
''', '''		ExpiresIn:   expiresIn % (1 << 31),
''')],
    "an access token that lives longer than 2^31 seconds",
    "the announced lifetime is not the stored one",
    '''
	w := NewWorld()
	w.Life = 1<<31 + 7
	r := w.Post(w.TokenEndpoint(), "c1", "grant_type=client_credentials")
	must(fmt.Sprint(r.J["expires_in"]) == fmt.Sprint(float64(1<<31+7)), "%s", r)
''')
bug("c10-key-by-kid", "C10",
    [("id_token/id_token.go", '''	if keyId != "" {
		token.Header["kid"] = keyId
	}
''', '''	if keyId != "" {
		token.Header["kid"] = keyId
		// parsing keys is slow: keep them
		if k, ok := keys.Load(alg + keyId); ok {
			key = k
		} else {
			keys.Store(alg+keyId, key)
		}
	}
'''), ("id_token/id_token.go", '''func Hash(''', '''var keys sync.Map

func Hash('''), ("id_token/id_token.go", '''	"strings"
''', '''	"strings"
	"sync"
''')],
    "two clients whose keys have the same key id, or a key that changed",
    "an ID token is signed with another client's key or an old one",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	w.Clients["c2"].Kid = w.Clients["c1"].Kid
	for _, c := range []string{"c1", "c2"} {
		s := w.Session(1, c, "openid")
		r := w.Post(te, c, "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://"+c+".example/cb")
		_, err := jwt.Parse(r.s("id_token"), func(*jwt.Token) (interface{}, error) { return w.Clients[c].Key, nil })
		must(err == nil, "%s: %v", c, err)
	}
''')
bug("c10-early-login", "C10",
    [("id_token/id_token.go", '''	if authTime >= 0 {
''', '''	if authTime > 0 && authTime <= issuedAt {
''')],
    "a login time of zero or ahead of the clock",
    "the ID token omits the login time",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	s.AuthTime = w.Now + 1
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb")
	must(fmt.Sprint(claimsOf(r.s("id_token"))["auth_time"]) == fmt.Sprint(w.Now+1), "%v", claimsOf(r.s("id_token")))
''')
bug("c10-nonce-spaces", "C10",
    [("id_token/id_token.go", '''	if nonce != "" {
''', '''	if nonce = strings.TrimSpace(nonce); nonce != "" {
''')],
    "a nonce that begins or ends with blanks",
    "the nonce claim is not the nonce of the request",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	s.Nonce = " n "
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb")
	must(claimsOf(r.s("id_token"))["nonce"] == " n ", "%v", claimsOf(r.s("id_token")))
''')
bug("c11-slash", "C11",
    [(AE, '''	if !clnt.CanUseRedirectURI(ruri) {
''', '''	if !clnt.CanUseRedirectURI(ruri) && !(strings.HasSuffix(ruri, "/") && clnt.CanUseRedirectURI(strings.TrimSuffix(ruri, "/"))) {
'''), (AE, '''	"strconv"
''', '''	"strconv"
	"strings"
''')],
    "an approved redirect_uri with a slash behind it",
    "the browser is sent to an address that was not approved",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb/", "response_type=x")
	must(r.Header.Get("Location") == "" && cb.saw("error"), "%s", r)
''')
bug("c11-posted-uri", "C11",
    [(AE, '''	state := r.FormValue("state")
	rmode :=''', '''	if r.Method == "POST" && r.URL.Query().Get("redirect_uri") != "" {
		// the address the browser came with, not one from the login form
		ruri = r.URL.Query().Get("redirect_uri")
	}
	state := r.FormValue("state")
	rmode :=''')],
    "a POST with one redirect_uri in its body and another in its query",
    "the address that is used is not the one that was approved",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	r := request("POST", "/authorize?redirect_uri=https://evil.example/", form("client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=x"))
	out := serve(func(rw http.ResponseWriter) { ep.HandleRequest(rw, r, cb) })
	must(!strings.Contains(out.Header.Get("Location"), "evil"), "%s", out)
''')
bug("c12-empty-display", "C12",
    [(AE, '''	d := r.FormValue("display")
	if d != "" {
''', '''	d := strings.TrimSpace(r.FormValue("display"))
	if d != "" {
'''), (AE, '''	"strconv"
''', '''	"strconv"
	"strings"
''')],
    "a display value with blanks around it, or nothing but blanks",
    "an unknown display value passes",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "display= page")
	must(!cb.saw("consent"), "%s", r)
''')
bug("c12-age-unit", "C12",
    [(AE, '''		ma, err = strconv.Atoi(mas)
''', '''		ma, err = strconv.Atoi(mas)
		if err != nil {
			// "10m" is a number of seconds, too
			if dur, derr := time.ParseDuration(mas); derr == nil {
				ma, err = int(dur.Seconds()), nil
			}
		}
'''), (AE, '''	"strconv"
''', '''	"strconv"
	"time"
''')],
    "a max_age with a unit",
    "a max_age that is no integer passes",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "max_age=10m")
	must(!cb.saw("consent"), "%s", r)
''')
bug("c12-openid-anywhere", "C12",
    [(AE, '''	if f.RequireIdToken && !scope.IncludeOpenID(scp) {
''', '''	if f.RequireIdToken && !scope.IncludeOpenID(scp) && !clnt.CanUseScope(f.Type, scp+" "+scope.OpenID) {
''')],
    "an ID token asked for without openid by a client that may use openid",
    "a request for an ID token without openid scope passes",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=id_token", "scope=email", "nonce=n")
	must(!cb.saw("consent"), "%s", r)
''')
bug("c13-clock-ahead", "C13",
    [(AE, '''		if req.MaxAge < age {
''', '''		if req.MaxAge < age || age < 0 {
''')],
    "a login stamped some seconds ahead of the endpoint's clock",
    "a fresh login is asked to be repeated, again and again",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	cb.AuthTime = w.Now + 2
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "max_age=60")
	must(cb.saw("consent") && !cb.saw("login"), "%v %s", cb.Screens, r)
''')
bug("c13-age-32", "C13",
    [(AE, '''		age := a.currentTime().Unix() - authTime
''', '''		age := int64(int32(a.currentTime().Unix() - authTime))
''')],
    "a login so old that its age needs more than 31 bits",
    "a very old login counts as fresh",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	cb.AuthTime = w.Now - 1<<31 - 5
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "max_age=60")
	must(!cb.saw("consent") && cb.saw("login"), "%v %s", cb.Screens, r)
''')
bug("c13-select-account", "C13",
    [(AE, '''	if prompt.IncludeLogin(req.Prompt) {
''', '''	if prompt.IncludeLogin(req.Prompt) && !prompt.IncludeSelectAccount(req.Prompt) {
''')],
    "a prompt with both login and select_account",
    "a login that was not made for this request is enough",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "prompt=login select_account")
	must(!cb.saw("consent") && cb.saw("login"), "%v %s", cb.Screens, r)
''')
bug("c14-openid-free", "C14",
    [(AE, '''				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.complete(callbacks, r, rh, info, req)
				}''', '''				if info.IsActive() && scope.Same(scope.RemoveOpenID(info.GetScope()), scope.RemoveOpenID(req.Scope)) &&
					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.complete(callbacks, r, rh, info, req)
				}''')],
    "a request that asks for openid on top of what was consented to",
    "openid is granted without consent",
    '''
	w := NewWorld()
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	ep := w.AuthEndpoint(nil)
	w.addInfo(1, "c1", "email")
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid email")
	must(cb.saw("consent"), "%v %s", cb.Screens, r)
''')
bug("c14-period-zero", "C14",
    [(AE, '''					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.complete(callbacks, r, rh, info, req)
				}''', '''					(a.policy.ConsentOmissionPeriod == 0 ||
						info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix()) {
					return a.complete(callbacks, r, rh, info, req)
				}''')],
    "a policy with a consent omission period of zero",
    "consent is omitted forever where it should never be",
    '''
	w := NewWorld()
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	p := authorization.DefaultPolicy()
	p.ConsentOmissionPeriod = 0
	ep := w.AuthEndpoint(p)
	w.addInfo(1, "c1", "openid")
	w.Now += 100
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid")
	must(cb.saw("consent"), "%v %s", cb.Screens, r)
''')
bug("c14-shared-consent", "C14",
    [(AE, '''			info, serr := a.di.FindAuthInfoByUserIdAndClientId(uid, req.ClientId)
			if serr != nil {
				if serr.Type() == bridge.ErrUnsupported {
					rh.Error(ruri, "server_error", "", state)
					return false
				} else if serr.Type() == bridge.ErrServerError {
					rh.Error(ruri, "server_error", "", state)
					return false
				}
			} else {''', '''			info, serr := a.di.FindAuthInfoByUserIdAndClientId(uid, req.ClientId)
			if serr != nil && serr.Type() == bridge.ErrFailed && req.LoginHint != "" {
				// the same application under its other client id
				if other, err := a.di.FindAuthInfoByUserIdAndClientId(uid, req.LoginHint); err == nil {
					info, serr = other, nil
				}
			}
			if serr != nil {
				if serr.Type() == bridge.ErrUnsupported {
					rh.Error(ruri, "server_error", "", state)
					return false
				} else if serr.Type() == bridge.ErrServerError {
					rh.Error(ruri, "server_error", "", state)
					return false
				}
			} else {''')],
    "a login_hint that is the id of another client, to which the user has consented",
    "consent to one client counts for another",
    '''
	w := NewWorld()
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	ep := w.AuthEndpoint(nil)
	w.addInfo(1, "c2", "openid")
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "login_hint=c2")
	must(cb.saw("consent"), "%v %s", cb.Screens, r)
''')
bug("c15-number-sub", "C15",
    [(AE, '''			if found, ok := claims["sub"].(string); ok {
				sub = found
			} else {
				rh.Error(''', '''			if found, ok := claims["sub"].(string); ok {
				sub = found
			} else if found, ok := claims["user_id"].(string); ok {
				// tokens of the previous generation
				sub = found
			} else {
				rh.Error(''')],
    "an ID token hint that has no sub but a user_id claim",
    "a hint that names no subject is accepted",
    '''
	w := NewWorld()
	w.Clients["c1"].None = prompt.NonePromptPolicyAllowIfIdTokenHintMatched
	ep := w.AuthEndpoint(nil)
	w.addInfo(1, "c1", "openid")
	cb := w.Browser(1)
	t := jwt.New(jwt.SigningMethodHS256)
	t.Claims = jwt.MapClaims{"user_id": "sub-alice", "exp": w.Now + 60}
	h, _ := t.SignedString(w.Clients["c1"].Key)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "prompt=none", "id_token_hint="+h)
	must(!strings.Contains(r.Header.Get("Location"), "code="), "%s", r)
''')
bug("c15-assertion-key", "C15",
    [(AE, '''				key := clnt.GetIdTokenKey()
				if signer''', '''				key := clnt.GetIdTokenKey()
				if kid, ok := t.Header["kid"].(string); ok && kid != clnt.GetIdTokenKeyId() {
					// a hint the client signed itself
					if k := clnt.GetAssertionKey(t.Method.Alg(), kid); k != nil {
						return k, nil
					}
				}
				if signer''')],
    "a hint signed with the client's assertion key, whose key id it names",
    "a hint signed by another key is accepted",
    '''
	w := NewWorld()
	w.Clients["c1"].None = prompt.NonePromptPolicyAllowIfIdTokenHintMatched
	ep := w.AuthEndpoint(nil)
	w.addInfo(1, "c1", "openid")
	cb := w.Browser(1)
	h := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "exp": w.Now + 60})
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "prompt=none", "id_token_hint="+h)
	must(!strings.Contains(r.Header.Get("Location"), "code="), "%s", r)
''')
bug("c15-locale-login", "C15",
    [(AE, '''			if !isLoginSession {
				rh.Error(ruri, "login_required", "", state)
				return false
			}

			uid, err := callbacks.GetLoginUserId()''', '''			if !isLoginSession {
				if req.LoginHint != "" && req.Display == authorization.DisplayTypePopup {
					// a popup can ask without disturbing
					callbacks.ShowLoginScreen(req)
					return false
				}
				rh.Error(ruri, "login_required", "", state)
				return false
			}

			uid, err := callbacks.GetLoginUserId()''')],
    "prompt=none with a login_hint in a popup, and nobody logged in",
    "a prompt=none request shows the login screen",
    '''
	w := NewWorld()
	w.Clients["c1"].None = prompt.NonePromptPolicyAllowWithLoginSession
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(0)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "prompt=none", "login_hint=sub-alice", "display=popup")
	must(!cb.saw("login"), "%s", r)
''')
bug("c16-kept", "C16",
    [(AE, '''			scp = scope.RemoveOfflineAccess(scp)
		} else if''', '''			if rest := scope.RemoveOfflineAccess(scp); rest != "" {
				scp = rest
			}
		} else if''')],
    "offline_access as the only scope, without a prompt for consent",
    "offline_access is stored without having been asked consent for",
    '''
	w := NewWorld()
	p := authorization.DefaultPolicy()
	p.AllowEmptyScope = true
	ep := w.AuthEndpoint(p)
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=offline_access")
	must(cb.Shown == nil || !strings.Contains(cb.Shown.Scope, "offline_access"), "%s", r)
''')
bug("c16-prior-grant", "C16",
    [(AE, '''	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
''', '''	wanted := req.Scope
	if had, err := a.di.FindAuthInfoByUserIdAndClientId(uid, req.ClientId); err == nil && had != nil && had.IsActive() &&
		scope.IncludeOfflineAccess(had.GetScope()) && req.Flow.Type != flow.Implicit {
		// don't take away what the user gave before
		if !scope.IncludeOfflineAccess(wanted) {
			wanted = wanted + " " + scope.OfflineAccess
		}
	}
	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, wanted)
''')],
    "a user who granted offline access before and consents to a request without it",
    "the new authorization has offline_access although this request did not ask for it",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	w.addInfo(1, "c1", "openid offline_access")
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid")
	r := w.Complete(ep, cb)
	must(w.Infos[0].Scp == "openid", "%s: %s", w.Infos[0].Scp, r)
''')
bug("c17-idtoken-level", "C17",
    [(AE, '''	if a.policy.RequireResponseModeSecurityLevelCheck {
''', '''	if a.policy.RequireResponseModeSecurityLevelCheck && !(f.RequireIdToken && !f.RequireAccessToken) {
''')],
    "a request for an ID token without access token in query mode",
    "an ID token appears in a query string",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=id_token", "scope=openid", "nonce=n", "response_mode=query")
	r := w.Complete(ep, cb)
	must(!strings.Contains(r.Header.Get("Location"), "?id_token="), "%s", r)
''')
bug("c17-relogin-mode", "C17",
    [(AE, '''	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)

	uid, err := callbacks.GetLoginUserId()''', '''	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
	if req.ResponseMode == authorization.ResponseModeFormPost && len(req.RedirectURI) > 200 {
		// long addresses don't go into forms
		rh = authorization.ResponseHandlerForMode(authorization.ResponseModeFragment, w, r)
	}

	uid, err := callbacks.GetLoginUserId()''')],
    "form_post with a redirect_uri of more than 200 bytes",
    "the response comes in the fragment although form_post was asked for",
    '''
	w := NewWorld()
	u := "https://c1.example/" + strings.Repeat("x", 220)
	w.Clients["c1"].Redirects = []string{u}
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri="+u, "response_type=code", "scope=openid", "response_mode=form_post")
	r := w.Complete(ep, cb)
	must(r.Header.Get("Location") == "" && strings.Contains(r.Body, "<form"), "%s", r)
''')
bug("c18-reencode", "C18",
    [("authorization/response.go", '''	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), values.Encode())
	http.Redirect(h.w, h.r, u, http.StatusFound)
}

func (h *RedirectResponseHandler) Error''', '''	if parsed, err := url.Parse(uri); err == nil && h.pt == ParamTypeQuery && parsed.RawQuery != "" {
		// one encoder for all parameters
		all := parsed.Query()
		for k := range values {
			all.Set(k, values.Get(k))
		}
		parsed.RawQuery = all.Encode()
		http.Redirect(h.w, h.r, parsed.String(), http.StatusFound)
		return
	}
	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), values.Encode())
	http.Redirect(h.w, h.r, u, http.StatusFound)
}

func (h *RedirectResponseHandler) Error''')],
    "a redirect address with a query whose parameters are not in order, or that has a parameter called state",
    "the redirect address is rewritten and its own parameters can be lost",
    '''
	w := NewWorld()
	u := "https://c1.example/cb?z=1&state=own&a=2"
	w.Clients["c1"].Redirects = []string{u}
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri="+u, "response_type=code", "scope=openid", "state=s")
	r := w.Complete(ep, cb)
	must(strings.HasPrefix(r.Header.Get("Location"), u+"&"), "%s", r)
''')
bug("c18-newline", "C18",
    [("authorization/response.go", '''html.EscapeString(k), html.EscapeString(v))''', '''html.EscapeString(k), html.EscapeString(strings.Replace(v, "\\r\\n", "\\n", -1)))''')],
    "form_post with a state that has a carriage return and a newline",
    "the state comes back changed",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "response_mode=form_post", "state=a\\r\\nb")
	r := w.Complete(ep, cb)
	must(strings.Contains(r.Body, "a\\r\\nb") || strings.Contains(r.Body, "a&#13;"), "%s", r)
''')
bug("c18-script", "C18",
    [("authorization/response.go", '''	doc = doc + `</form></body></html>`
''', '''	doc = doc + `</form>`
	if s := params["state"]; s != "" {
		// for pages that look at the state before they submit
		doc = doc + `<script>var state = ` + strconv.Quote(s) + `;</script>`
	}
	doc = doc + `</body></html>`
'''), ("authorization/response.go", '''	"net/url"
''', '''	"net/url"
	"strconv"
''')],
    "form_post with a state that closes a script element",
    "the state adds markup to the page",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "response_mode=form_post", "state=</script><b>")
	r := w.Complete(ep, cb)
	must(!strings.Contains(r.Body, "</script><b>"), "%s", r)
''')
bug("c19-locale", "C19",
    [(AE, '''		UILocale:     locale,
''', '''		UILocale:     firstOf(locale, locales),
'''), (AE, '''func (a *AuthorizationEndpoint) SetLogger(''', '''// firstOf returns the first text that isn't empty.
func firstOf(texts ...string) string {
	for _, t := range texts {
		if t != "" {
			return t
		}
	}
	return ""
}

func (a *AuthorizationEndpoint) SetLogger(''')],
    "ui_locales none of which the integrator chooses",
    "the screens get the raw ui_locales instead of the chosen locale",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	cb.Locale = ""
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "ui_locales=fr de")
	must(cb.Shown.UILocale == "", "%q", cb.Shown.UILocale)
''')
bug("c19-nonce-code", "C19",
    [(AE, '''	serr := a.di.CreateAuthSession(info,
		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime))
	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	params := make(map[string]string)
	params["code"] = code
	if req.State != "" {
		params["state"] = req.State
	}

	rh.Success''', '''	sess := req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime)
	if !scope.IncludeOpenID(req.Scope) {
		// no ID token, no nonce
		sess.Nonce = ""
	}
	serr := a.di.CreateAuthSession(info, sess)
	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	params := make(map[string]string)
	params["code"] = code
	if req.State != "" {
		params["state"] = req.State
	}

	rh.Success''')],
    "a code flow request with a nonce but without openid",
    "the stored session lacks the request's nonce",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=email", "nonce=n1")
	w.Complete(ep, cb)
	must(len(w.Sessions) == 1 && w.Sessions[0].Nonce == "n1", "%v", w.Sessions)
''')
bug("c19-shared-policy", "C19",
    [(AE, '''	code, err := callbacks.CreateAuthorizationCode()
	if err != nil {

		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "CreateAuthorizationCode",
			},
			err.Error()))

		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	authTime, err := callbacks.GetAuthTime()
	if err != nil {

		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "GetAuthTime",
			},
			err.Error()))

		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	serr := a.di.CreateAuthSession(info,
		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime))
	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	params := make(map[string]string)''', '''	code, err := callbacks.CreateAuthorizationCode()
	if err != nil {

		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "CreateAuthorizationCode",
			},
			err.Error()))

		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	authTime, err := callbacks.GetAuthTime()
	if err != nil {

		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "GetAuthTime",
			},
			err.Error()))

		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	life := int64(a.policy.AuthSessionExpiresIn)
	if life < authorization.DefaultAuthSessionExpiresIn && req.CodeVerifier == "" && req.Display == authorization.DisplayTypeWAP {
		// slow devices need their time
		life = authorization.DefaultAuthSessionExpiresIn
	}
	serr := a.di.CreateAuthSession(info, req.ToSession(code, life, authTime))
	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	params := make(map[string]string)''')],
    "display=wap under a policy with short-lived codes",
    "the session lives longer than the policy says",
    '''
	w := NewWorld()
	p := authorization.DefaultPolicy()
	p.AuthSessionExpiresIn = 10
	ep := w.AuthEndpoint(p)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=email", "display=wap")
	w.Complete(ep, cb)
	must(len(w.Sessions) == 1 && w.Sessions[0].ExpiresIn == 10, "%v", w.Sessions)
''')
bug("c20-existing-info", "C20",
    [(AE, '''	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
''', '''	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
	if serr != nil && serr.Type() == bridge.ErrFailed {
		// it may be there already
		info, serr = a.di.FindAuthInfoByUserIdAndClientId(uid, req.ClientId)
	}
''')],
    "creation of the authorization is refused for a user who has an older one",
    "the request completes with an authorization of another scope",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.addInfo(1, "c1", "openid admin")
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid")
	w.Hook = func(m string) *bridge.Error {
		if m == "CreateOrUpdateAuthInfo" {
			return failed
		}
		return nil
	}
	r := w.Complete(ep, cb)
	must(!strings.Contains(r.Header.Get("Location"), "code="), "%s", r)
''')
bug("c20-authtime", "C20",
    [(AE, '''	serr := a.di.CreateAuthSession(info,
		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime))
	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	clnt, serr :=''', '''	serr := a.di.CreateAuthSession(info,
		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime))
	if serr != nil && serr.Type() != bridge.ErrUnsupported {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	clnt, serr :=''')],
    "a hybrid request at a store that does not support sessions",
    "a code is handed out that was never stored",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code token", "scope=openid")
	w.Hook = func(m string) *bridge.Error {
		if m == "CreateAuthSession" {
			return bridge.NewError(bridge.ErrUnsupported)
		}
		return nil
	}
	r := w.Complete(ep, cb)
	must(!strings.Contains(r.Header.Get("Location"), "code="), "%s", r)
''')
bug("c20-none-lookup", "C20",
    [(AE, '''				if serr.Type() == bridge.ErrUnsupported {
					rh.Error(ruri, "server_error", "", state)
					return false
				} else if serr.Type() == bridge.ErrServerError {
					rh.Error(ruri, "server_error", "", state)
					return false
				} else {
					// not found auth info
					rh.Error(ruri, "consent_required", "", state)
					return false
				}
			} else {

				if info == nil {
					rh.Error(ruri, "server_error", "", state)
					return false
				}

				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.completeSilently(callbacks, r, rh, info, req)
				} else {
					rh.Error(ruri, "consent_required", "", state)
					return false
				}
			}

		case prompt.NonePromptPolicyAllowIfLoginHintMatched:''', '''				if serr.Type() == bridge.ErrServerError {
					rh.Error(ruri, "server_error", "", state)
					return false
				} else {
					// not found auth info
					rh.Error(ruri, "consent_required", "", state)
					return false
				}
			} else {

				if info == nil {
					rh.Error(ruri, "server_error", "", state)
					return false
				}

				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.completeSilently(callbacks, r, rh, info, req)
				} else {
					rh.Error(ruri, "consent_required", "", state)
					return false
				}
			}

		case prompt.NonePromptPolicyAllowIfLoginHintMatched:''')],
    "prompt=none at a store that does not support looking authorizations up",
    "an unsupported method is reported as missing consent",
    '''
	w := NewWorld()
	w.Clients["c1"].None = prompt.NonePromptPolicyAllowWithLoginSession
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Hook = func(m string) *bridge.Error {
		if m == "FindAuthInfoByUserIdAndClientId" {
			return bridge.NewError(bridge.ErrUnsupported)
		}
		return nil
	}
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "prompt=none")
	must(strings.Contains(r.Header.Get("Location"), "server_error"), "%s", r)
''')
bug("c21-comma", "C21",
    [(RP, '''		return parts[1]
''', '''		return strings.TrimRight(parts[1], ",;")
''')],
    "an access token with a comma or semicolon behind it",
    "a token that does not exist is let through, and one that ends so is refused",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "openid")
	_, ok, _ := w.Access(w.Protector(), t.Access+",")
	must(!ok, "passed")
''')
bug("c21-user-32", "C21",
    [(RP, '''fmt.Sprintf("%d", info.GetUserId()))''', '''strconv.Itoa(int(uint32(info.GetUserId()))))''')],
    "a user whose id needs more than 32 bits",
    "the application reads another user's id",
    '''
	w := NewWorld()
	t := w.Token(1<<34+3, "c1", "openid")
	_, ok, h := w.Access(w.Protector(), t.Access)
	must(ok && h.Get("X-OAUTH-USER-ID") == fmt.Sprint(int64(1<<34+3)), "%v", h)
''')
bug("c21-empty-scope", "C21",
    [(RP, '''	r.Header.Set("X-OAUTH-SCOPE", info.GetScope())
''', '''	if scp := info.GetScope(); scp != "" {
		r.Header.Set("X-OAUTH-SCOPE", scp)
	}
''')],
    "an authorization without scope and a caller who sends the scope header",
    "the scope the application reads is the caller's",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "")
	_, ok, h := w.Access(w.Protector(), t.Access, "X-OAUTH-SCOPE: admin")
	must(ok && h.Get("X-OAUTH-SCOPE") == "", "%v", h)
''')
bug("c22-eight", "C22",
    [(RP, '''		ok, not_found := scope.IncludeAll(s, scopes)
''', '''		if len(scopes) > 8 {
			// no more than fit into a challenge
			scopes = scopes[:8]
		}
		ok, not_found := scope.IncludeAll(s, scopes)
''')],
    "a path that requires more than eight scopes",
    "the ninth required scope is not asked for",
    '''
	w := NewWorld()
	need := strings.Split("a b c d e f g h i", " ")
	t := w.Token(1, "c1", "a b c d e f g h")
	r := request("GET", "/res", nil, "Authorization: Bearer "+t.Access)
	ok := true
	serve(func(rw http.ResponseWriter) { ok = w.Protector().ValidateWithScopes(rw, r, w, map[string][]string{"/res": need}) })
	must(!ok, "passed")
''')
bug("c22-clean", "C22",
    [(RP, '''	if scopes, exists := scopeMap[r.URL.Path]; exists {
''', '''	if scopes, exists := scopeMap[path.Clean(r.URL.Path)]; exists {
'''), (RP, '''	"net/http"
''', '''	"net/http"
	"path"
''')],
    "a path registered with a trailing slash",
    "its required scopes are never asked for",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "a")
	r := request("GET", "/res/", nil, "Authorization: Bearer "+t.Access)
	ok := true
	serve(func(rw http.ResponseWriter) { ok = w.Protector().ValidateWithScopes(rw, r, w, map[string][]string{"/res/": {"admin"}}) })
	must(!ok, "passed")
''')
bug("c22-star", "C22",
    [("scope/util.go", '''	for _, s := range targetScopes {
		if _, exists''', '''	for _, s := range targetScopes {
		if i := strings.LastIndex(s, ":"); i > 0 && existanceMap[s[:i+1]+"*"] {
			// "photos:*" is all of "photos:"
			continue
		}
		if _, exists''')],
    "a required scope with a colon and an authorization with the wildcard of its prefix",
    "a required scope that the authorization does not contain is taken for granted",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "photos:*")
	r := request("GET", "/res", nil, "Authorization: Bearer "+t.Access)
	ok := true
	serve(func(rw http.ResponseWriter) { ok = w.Protector().ValidateWithScopes(rw, r, w, map[string][]string{"/res": {"photos:delete"}}) })
	must(!ok, "passed")
''')
bug("c23-json-pool", "C23",
    [("grant/interface.go", '''	body, err := json.Marshal(r)
	if err != nil {
		// must not come here
		panic(fmt.Sprintf("broken JSON: %s", err))
	}
	return body
''', '''	buf := buffers.Get().(*bytes.Buffer)
	defer buffers.Put(buf)
	buf.Reset()
	if err := json.NewEncoder(buf).Encode(r); err != nil {
		// must not come here
		panic(fmt.Sprintf("broken JSON: %s", err))
	}
	return buf.Bytes()
'''), ("grant/interface.go", '''func NewResponse(''', '''var buffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

func NewResponse('''), ("grant/interface.go", '''	"encoding/json"
	"fmt"
	"net/http"
''', '''	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"sync"
''')],
    "two successful token requests at once, one of whose clients reads slowly",
    "one response carries the other's tokens, because its buffer is reused before it is written",
    '''
	a := grant.NewResponse("token-a", 1).JSON()
	x := string(a)
	for i := 0; i < 100; i++ {
		grant.NewResponse("token-b", 1).JSON()
	}
	must(string(a) == x, "%s became %s", x, a)
''')
bug("c23-shared-errors", "C23",
    [("oauth_error/errors.go", '''	return &OAuthError{typeName, "", ""}
''', '''	if e, ok := simple.Load(typeName); ok {
		return e.(*OAuthError)
	}
	e := &OAuthError{typeName, "", ""}
	simple.Store(typeName, e)
	return e
'''), ("oauth_error/errors.go", '''type OAuthErrorJSON struct {''', '''// simple keeps the errors without description, which are all alike.
var simple sync.Map

type OAuthErrorJSON struct {'''), ("oauth_error/errors.go", '''	"strings"
''', '''	"strings"
	"sync"
''')],
    "two endpoints with different error URIs",
    "the error URI of one endpoint appears in the other's responses",
    '''
	w := NewWorld()
	a, b := w.TokenEndpoint(), w.TokenEndpoint()
	a.SetErrorURI("https://a.example/")
	b.SetErrorURI("https://b.example/")
	w.Post(a, "c1", "grant_type=refresh_token", "refresh_token=x")
	r := w.Post(b, "c1", "grant_type=refresh_token", "refresh_token=x")
	must(r.s("error_uri") == "https://b.example/", "%s", r)
''')
bug("c23-last-client", "C23",
    [(AE, '''	currentTime io.TimeBuilder
}
''', '''	currentTime io.TimeBuilder
	last        bridge.Client
}
'''), (AE, '''	if !clnt.CanUseRedirectURI(ruri) {
''', '''	a.last = clnt
	if !clnt.CanUseRedirectURI(ruri) {
'''), (AE, '''	clnt, serr := a.di.FindClientById(req.ClientId)
	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}
	if clnt == nil {

		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "FindClientById",
			},
			"the method returns (nil, nil)."))

		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	params := make(map[string]string)
	if req.State''', '''	var serr *bridge.Error
	clnt := a.last
	if clnt == nil || clnt.GetId() != req.ClientId {
		clnt, serr = a.di.FindClientById(req.ClientId)
	}
	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}
	if clnt == nil {

		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "FindClientById",
			},
			"the method returns (nil, nil)."))

		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	params := make(map[string]string)
	if req.State''')],
    "concurrent authorization requests",
    "the endpoint keeps its last client without a lock",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			c := fmt.Sprint("c", 1+i%2)
			for k := 0; k < 50; k++ {
				cb := w.Browser(1)
				w.Authorize(ep, cb, "client_id="+c, "redirect_uri=https://"+c+".example/cb", "response_type=id_token", "scope=openid", "nonce=n")
				w.Complete(ep, cb)
			}
		}(i)
	}
	wg.Wait()
''', race=True)
bug("c24-bad-uri", "C24",
    [("authorization/response.go", '''	i := strings.Index(uri, delimiter)
''', '''	if u, err := url.Parse(uri); t == ParamTypeQuery && u.RawQuery == "" && err == nil && !u.ForceQuery {
		return delimiter
	}
	i := strings.Index(uri, delimiter)
''')],
    "an approved redirect_uri that does not parse",
    "the endpoint panics",
    '''
	w := NewWorld()
	u := "https://c1.example/%zz"
	w.Clients["c1"].Redirects = []string{u}
	ep := w.AuthEndpoint(nil)
	r := w.Authorize(ep, w.Browser(1), "client_id=c1", "redirect_uri="+u, "response_type=code", "scope=", "state=s")
	must(r.Panic == "", "%s", r)
''')
bug("c24-bare-bearer", "C24",
    [(RP, '''	parts := strings.Split(r.Header.Get("Authorization"), " ")
	if len(parts) >= 2 && strings.ToLower(parts[0]) == "bearer" && parts[1] != "" {
		return parts[1]
	}
''', '''	if h := r.Header.Get("Authorization"); strings.HasPrefix(strings.ToLower(h), "bearer") && h != "bearer" && h[6] == ' ' {
		if rest := strings.Split(h[7:], " ")[0]; rest != "" {
			return rest
		}
	}
''')],
    "an Authorization header that is the bare word Bearer, with a capital",
    "the resource protector panics",
    '''
	w := NewWorld()
	ok := true
	r := request("GET", "/res", nil)
	r.Header.Set("Authorization", "Bearer")
	out := serve(func(rw http.ResponseWriter) { ok = w.Protector().Validate(rw, r, w) })
	must(out.Panic == "", "%s %v", out, ok)
''')
bug("c24-lock-leak", "C24",
    [(TE, '''	currentTime                  io.TimeBuilder
}
''', '''	currentTime                  io.TimeBuilder
	busy                         chan struct{}
}
'''), (TE, '''		currentTime:                  io.NowBuilder(),
	}
''', '''		currentTime:                  io.NowBuilder(),
		busy:                         make(chan struct{}, 64),
	}
'''), (TE, '''		cid, sec, inHeader, exists := te.findClientCredential(r)
''', '''		// no more than 64 requests at the store
		te.busy <- struct{}{}
		cid, sec, inHeader, exists := te.findClientCredential(r)
'''), (TE, '''			if ok {
				te.executeGrantHandler(w, r, sdi, client, gt, h)
			}
			return
		}

		if te.acceptClientAssertion {
''', '''			if ok {
				te.executeGrantHandler(w, r, sdi, client, gt, h)
			}
			<-te.busy
			return
		}

		if te.acceptClientAssertion {
'''), (TE, '''				if ok {
					te.executeGrantHandler(w, r, sdi, client, gt, h)
				}
				return
''', '''				if !ok {
					return
				}
				te.executeGrantHandler(w, r, sdi, client, gt, h)
				<-te.busy
				return
'''), (TE, '''		te.failWithAuthHeader(w,
			oer.NewOAuthSimpleError(oer.ErrInvalidClient))
		return
''', '''		te.failWithAuthHeader(w,
			oer.NewOAuthSimpleError(oer.ErrInvalidClient))
		<-te.busy
		return
''')],
    "64 requests with a client assertion that is not accepted",
    "the endpoint hangs, because a refused assertion keeps its slot",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	done := make(chan bool)
	go func() {
		for i := 0; i < 70; i++ {
			w.PostRaw(te, "/token", form("grant_type=client_credentials", "client_assertion=x", "client_assertion_type="+goidc.ClientAssertionTypeJWT))
		}
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		bad("hangs")
	}
''')
bug("c24-prompt-loop", "C24",
    [("prompt/util.go", '''func Split(prompts string) []string {
	return strings.Split(prompts, " ")
''', '''func Split(prompts string) []string {
	// one blank between words
	for strings.Contains(prompts, "  ") {
		if len(prompts) > 255 {
			continue
		}
		prompts = strings.Replace(prompts, "  ", " ", -1)
	}
	return strings.Split(prompts, " ")
''')],
    "a long prompt with two blanks in a row",
    "the endpoint never answers",
    '''
	done := make(chan bool)
	go func() {
		prompt.Validate(strings.Repeat("login ", 60) + " consent")
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		bad("hangs")
	}
''')
bug("c25-code-redirect", "C25",
    [("authorization/response.go", '''	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), values.Encode())
	http.Redirect(h.w, h.r, u, http.StatusFound)
}

func (h *RedirectResponseHandler) Error''', '''	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), values.Encode())
	if len(u) > 2000 {
		fmt.Printf("[goidc:response] long redirect: %s\\n", u)
	}
	http.Redirect(h.w, h.r, u, http.StatusFound)
}

func (h *RedirectResponseHandler) Error''')],
    "a response of more than 2000 bytes",
    "the code or token is printed with the address",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	rd, wr, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = wr
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "state="+strings.Repeat("s", 2000))
	w.Complete(ep, cb)
	os.Stdout = old
	wr.Close()
	b := make([]byte, 10000)
	n, _ := rd.Read(b)
	must(!strings.Contains(string(b[:n]), w.Sessions[0].Code), "printed %q", b[:n])
''')
bug("c25-key-error", "C25",
    [("id_token/id_token.go", '''	return token.SignedString(key)
''', '''	signed, err := token.SignedString(key)
	if err != nil {
		return "", fmt.Errorf("can't sign with %s key %v: %s", alg, key, err)
	}
	return signed, nil
''')],
    "a client whose key does not fit its algorithm",
    "the signing key is written to the log",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	w.Clients["c1"].Key = "a-symmetric-key"
	s := w.Session(1, "c1", "openid")
	w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb")
	must(!strings.Contains(strings.Join(w.Logs, ""), "a-symmetric-key"), "%v", w.Logs)
''')
bug("c25-refresh-failed", "C25",
    [("grant/refresh_token.go", '''			newRt := token.GetRefreshToken()
''', '''			newRt := token.GetRefreshToken()
			if newRt != rt {
				logger.Info(log.TokenEndpointLog(TypeRefreshToken,
					log.AccessTokenGranted,
					map[string]string{"client_id": c.GetId(), "rotated": rt + " to " + newRt},
					"refresh_token rotated"))
			}
''')],
    "a store that rotates refresh tokens",
    "the fresh refresh token is written to the log",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	t := w.Token(1, "c1", "openid offline_access")
	rt := t.Refresh
	w.Hook = func(m string) *bridge.Error {
		if m == "RefreshAccessToken" {
			t.Refresh = "fresh-refresh-token"
		}
		return nil
	}
	w.Post(te, "c1", "grant_type=refresh_token", "refresh_token="+rt)
	must(!strings.Contains(strings.Join(w.Logs, ""), "fresh-refresh-token"), "%v", w.Logs)
''')
bug("c26-shared", "C26",
    [("authorization/request.go", '''	data, _ := base64.URLEncoding.DecodeString(encoded)
	var r Request
	json.Unmarshal(data, &r)
	return &r
''', '''	if r, ok := decoded.Load(encoded); ok {
		return r.(*Request)
	}
	data, _ := base64.URLEncoding.DecodeString(encoded)
	var r Request
	json.Unmarshal(data, &r)
	decoded.Store(encoded, &r)
	return &r
'''), ("authorization/request.go", '''func DecodeRequest(''', '''// decoded keeps the requests that have been decoded.
var decoded sync.Map

func DecodeRequest('''), ("authorization/request.go", '''	"encoding/json"
''', '''	"encoding/json"
	"sync"
''')],
    "a request decoded, changed by the application, and decoded again",
    "the second decoding returns the changed request",
    '''
	q := &authorization.Request{ClientId: "c", Scope: "openid", Flow: &flow.Flow{}}
	e := q.Encode()
	authorization.DecodeRequest(e).Scope = "openid admin"
	must(authorization.DecodeRequest(e).Scope == "openid", "%v", authorization.DecodeRequest(e))
''')
bug("c27-counter", "C27",
    [("pkce/crypto.go", '''	return EncodeBase64WithoutPadding(data[:])
}

func EncodeBase64WithoutPadding''', '''	// never the same twice
	binary.BigEndian.PutUint64(data[24:], atomic.AddUint64(&issued, 1))
	return EncodeBase64WithoutPadding(data[:])
}

var issued uint64

func EncodeBase64WithoutPadding'''), ("pkce/crypto.go", '''	"encoding/base64"
	"fmt"
	"strings"
''', '''	"encoding/base64"
	"encoding/binary"
	"fmt"
	"strings"
	"sync/atomic"
''')],
    "the last bytes of generated verifiers compared with each other",
    "eight of the 32 bytes are a counter",
    '''
	a, b := pkce.GenRandomCodeVerifier(), pkce.GenRandomCodeVerifier()
	must(a[33:41] != b[33:41], "%s %s", a, b)
''', helpers='import "github.com/lyokato/goidc/pkce"\n')
bug("c28-private-as-public", "C28",
    [("crypto/key.go", '''	if block.Type != "PUBLIC KEY" {
''', '''	if block.Type == "RSA PRIVATE KEY" {
		// its public half
		k, err := x509.ParsePKCS1PrivateKey(block.Bytes)
		if err != nil {
			return nil, fmt.Errorf("private key can't be decoded: %s", err)
		}
		return &k.PublicKey, nil
	}
	if block.Type != "PUBLIC KEY" {
''')],
    "a private key file given where a public key is asked for",
    "a key of the wrong kind is accepted",
    '''
	b, _ := os.ReadFile("/repo/crypto/test_priv.pem")
	_, err := crypto.LoadPublicKeyFromData(b)
	must(err != nil, "accepted")
''', helpers=JWKHELP, jwk=True)
bug("c28-trim-kid", "C28",
    [("jwk_endpoint.go", '''	e.keys[kid] = k
}

func (e *JWKEndpoint) AddFromText''', '''	e.keys[strings.TrimSuffix(kid, ".pem")] = k
}

func (e *JWKEndpoint) AddFromText'''), ("jwk_endpoint.go", '''	"net/http"
''', '''	"net/http"
	"strings"
''')],
    "a key registered from a file under an id that ends in .pem",
    "the published key id is another one",
    '''
	e := goidc.NewJWKEndpoint()
	e.AddFromFile("k.pem", "/repo/crypto/test_pub.pem")
	rec := httptest.NewRecorder()
	e.Handler()(rec, httptest.NewRequest("GET", "/jwk", nil))
	must(strings.Contains(rec.Body.String(), "k.pem"), "%s", rec.Body.String())
''', helpers=JWKHELP, jwk=True)
bug("c29-scope-cache", "C29",
    [(RP, '''	currentTime           io.TimeBuilder
}
''', '''	currentTime           io.TimeBuilder
	scopes                sync.Map
}
'''), (RP, '''	"strings"

''', '''	"strings"
	"sync"

'''), (RP, '''	r.Header.Set("X-OAUTH-SCOPE", info.GetScope())
''', '''	// the scope of a token never changes
	scp, _ := rp.scopes.LoadOrStore(rt, info.GetScope())
	r.Header.Set("X-OAUTH-SCOPE", scp.(string))
''')],
    "a token used, then the user consents to less, then the token used again",
    "the token keeps the scope it had when it was first used",
    '''
	w := NewWorld()
	rp := w.Protector()
	t := w.Token(1, "c1", "openid admin")
	_, ok, _ := w.Access(rp, t.Access)
	must(ok, "refused")
	w.Infos[0].Scp = "openid"
	_, ok, h := w.Access(rp, t.Access)
	must(ok && h.Get("X-OAUTH-SCOPE") == "openid", "%v", h)
''')
bug("c30-long", "C30",
    [("basic_auth/util.go", '''	pair := url.QueryEscape(uid) + ":" + url.QueryEscape(pass)
''', '''	if len(pass) > 255 {
		pass = pass[:255]
	}
	pair := url.QueryEscape(uid) + ":" + url.QueryEscape(pass)
''')],
    "a secret of more than 255 bytes",
    "distinct secrets share a token",
    '''
	a, b := strings.Repeat("x", 255)+"a", strings.Repeat("x", 255)+"b"
	must(basic_auth.Token("u", a) != basic_auth.Token("u", b), "same")
''', helpers='import "github.com/lyokato/goidc/basic_auth"\n')
bug("c30-whitespace", "C30",
    [("basic_auth/util.go", '''	if exists {
		return cid, sec, true
	}''', '''	if exists {
		return strings.TrimSpace(cid), strings.TrimSpace(sec), true
	}'''), ("basic_auth/util.go", '''	"net/url"
''', '''	"net/url"
	"strings"
''')],
    "a secret that ends in a blank",
    "another pair than the header's is read",
    '''
	_, s, ok := basic_auth.FindClientCredential(request("POST", "/x", nil, basic("u", "p ")))
	must(ok && s == "p ", "%q", s)
''', helpers='import "github.com/lyokato/goidc/basic_auth"\n')
bug("c31-percent", "C31",
    [("oauth_error/errors.go", '''		params = append(params, fmt.Sprintf("error_uri=%s", strconv.Quote(e.URI)))
''', '''		params = append(params, fmt.Sprintf("error_uri="+strconv.Quote(e.URI)))
''')],
    "an error URI with a percent sign",
    "the URI in the challenge is garbled",
    '''
	h := oer.NewOAuthDetailedError(oer.ErrInvalidToken, "d", "https://x/%20d?a=100%25").Header("r")
	must(strings.Contains(h, `"https://x/%20d?a=100%25"`), "%s", h)
''', helpers='import oer "github.com/lyokato/goidc/oauth_error"\n')
bug("c31-ascii", "C31",
    [("oauth_error/errors.go", '''		params = append(params, fmt.Sprintf("error_description=%s", strconv.Quote(e.Description)))
''', '''		params = append(params, fmt.Sprintf("error_description=%s", strconv.QuoteToASCII(e.Description)))
''')],
    "a description with printable characters outside ASCII",
    "the challenge shows u-escapes instead of the characters",
    '''
	h := oer.NewOAuthError(oer.ErrInvalidToken, "caf\\u00e9").Header("r")
	must(strings.Contains(h, "caf\\u00e9"), "%s", h)
''', helpers='import oer "github.com/lyokato/goidc/oauth_error"\n')
bug("c31-status", "C31",
    [("oauth_error/errors.go", '''	code, exists := errStatusCodeMap[e.Type]
	if exists {
		return code
''', '''	code, exists := errStatusCodeMap[e.Type]
	if exists {
		if code == http.StatusBadRequest && strings.Contains(e.Description, "too large") {
			code = http.StatusRequestEntityTooLarge
		}
		return code
''')],
    "a description that contains certain words",
    "the status of an error depends on its description",
    '''
	must(oer.NewOAuthError(oer.ErrInvalidRequest, "scope too large").StatusCode() == 400, "status")
''', helpers='import oer "github.com/lyokato/goidc/oauth_error"\n')
bug("c32-println", "C32",
    [("log/logger.go", '''		msg := l.insertLevelLabel(LogLevelWarn, args[0].(string))
		fmt.Println(msg)
''', '''		msg := l.insertLevelLabel(LogLevelWarn, args[0].(string))
		fmt.Printf(msg + "\\n")
''')],
    "a plain warning with a percent sign in it",
    "the message is taken for a format",
    '''
	rd, wr, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = wr
	log.NewDefaultLogger().Warn("100%d done")
	os.Stdout = old
	wr.Close()
	b := make([]byte, 1000)
	n, _ := rd.Read(b)
	must(strings.Contains(string(b[:n]), "100%d done"), "printed %q", b[:n])
''', helpers='import "github.com/lyokato/goidc/log"\n')
bug("c32-event", "C32",
    [("log/text.go", '''	case NoEnabledAuthSession:
		return "no_enabled_auth_session"
''', '''	case NoEnabledAuthSession:
		return "no_enabled_auth_info"
''')],
    "the names of all events compared with each other",
    "two events have the same name",
    '''
	must(log.NoEnabledAuthSession.String() != log.NoEnabledAuthInfo.String(), "same")
''', helpers='import "github.com/lyokato/goidc/log"\n')
bug("c33-perms", "C33",
    [("flow/flow.go", '''	list := strings.Split(responseType, " ")
	sort.Strings(list)
''', '''	list := strings.Split(responseType, " ")
	if len(list) < 3 || list[0] != "token" {
		sort.Strings(list)
	} else {
		list[0], list[2] = list[2], list[0]
	}
''')],
    "the three response type words in the order token, code, id_token",
    "one order of the words is refused",
    '''
	for _, s := range []string{"token code id_token", "token id_token code", "code token id_token"} {
		f, err := flow.JudgeByResponseType(s)
		must(err == nil && f.Type == flow.Hybrid, "%s: %v", s, err)
	}
''')
bug("c33-mode", "C33",
    [("response_mode/util.go", '''	return mode == Query || mode == Fragment || mode == FormPost
''', '''	return mode == Query || mode == Fragment || mode == FormPost || mode == "query fragment"
''')],
    "a response_mode of two words",
    "an unknown mode is known, and has no level",
    '''
	must(!response_mode.Validate("query fragment"), "valid")
''', helpers='import "github.com/lyokato/goidc/response_mode"\n')

# ================================================================ fifth batch
bug("c01-method-override", "C01",
    [(TE, '''		if r.Method != "POST" {
''', '''		if r.Method != "POST" && !(r.Method == "GET" && r.Header.Get("X-HTTP-Method-Override") == "POST") {
''')],
    "a GET with an X-HTTP-Method-Override header",
    "a token request that is no POST yields credentials",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	r := request("GET", "/token?grant_type=client_credentials", nil, basic("c1", "secret-c1"), "X-HTTP-Method-Override: POST")
	res := serve(func(rw http.ResponseWriter) { te.Handler(w)(rw, r) })
	must(!res.tokens(), "%s", res)
''')
bug("c01-decoded-secret", "C01",
    [(TE, '''	if !client.MatchSecret(sec) {
''', '''	// RFC6749 2.3.1: the secret may come form-encoded
	matched := client.MatchSecret(sec)
	if !matched {
		if plain, err := url.QueryUnescape(sec); err == nil && plain != "" {
			matched = client.MatchSecret(plain)
		}
	}
	if !matched {
'''), (TE, '''	"net/http"
''', '''	"net/http"
	"net/url"
''')],
    "a secret with a percent-encoded character, presented in the body",
    "a string that isn't the client's secret authenticates the client",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	te.AcceptClientSecret(goidc.FromHeaderAndPostBody)
	r := w.PostRaw(te, "/token", form("grant_type=client_credentials", "client_id=c1", "client_secret=secret%2Dc1"))
	must(!r.tokens(), "%s", r)
''')
bug("c02-redirect-decoded", "C02",
    [(EXC, '''			if sess.GetRedirectURI() != uri {
''', '''			same := sess.GetRedirectURI() == uri
			if !same {
				// some clients encode the address twice
				if once, err := url.QueryUnescape(uri); err == nil {
					same = sess.GetRedirectURI() == once
				}
			}
			if !same {
'''), (EXC, '''	"net/http"
''', '''	"net/http"
	"net/url"
''')],
    "a redirect_uri that is the percent-encoded form of the one requested",
    "a code is redeemed with another redirect_uri",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https%3A%2F%2Fc1.example%2Fcb")
	must(!r.tokens(), "%s", r)
''')
bug("c02-scope-at-login", "C02",
    [(EXC, '''			scp := info.GetScope()
			if scp != "" {
				res.Scope = scp
			}
''', '''			scp := info.GetScope()
			if len(scp) > 255 {
				scp = strings.TrimSpace(scp[:255])
			}
			if scp != "" {
				res.Scope = scp
			}
'''), (EXC, '''	"net/http"
''', '''	"net/http"
	"strings"
''')],
    "an authorization with a scope of more than 255 bytes",
    "the scope handed out is cut short",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	scp := "openid " + strings.Repeat("resource.example/read ", 20) + "end"
	s := w.Session(1, "c1", scp)
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb")
	must(r.s("scope") == scp, "%s", r)
''')
bug("c03-truncating-hash", "C03",
    [("pkce/verifier.go", '''	return S256Encode(verifier) == challenge
''', '''	expected := S256Encode(verifier)
	n := len(challenge)
	if n > len(expected) {
		n = len(expected)
	}
	return n >= 42 && expected[:n] == challenge[:n]
''')],
    "a code_challenge with the last character missing, or with characters behind it",
    "a truncated or extended value is accepted",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	s.CodeVerifier = "dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk"
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb",
		"code_challenge_method=S256", "code_challenge=E9Melhoa2OwvFrEMTJguCHaoeK1t8URWbuGJSstw-c")
	must(!r.tokens(), "%s", r)
''')
bug("c03-once-verified", "C03",
    [(EXC, '''			cv := sess.GetCodeVerifier()
			if cv != "" {
''', '''			cv := sess.GetCodeVerifier()
			if _, failed := rejected.LoadOrStore(sess.GetCode(), true); failed {
				// the proof was looked at before
				cv = ""
			}
			if cv != "" {
'''), (EXC, '''func AuthorizationCode() *GrantHandler {
''', '''var rejected sync.Map

func AuthorizationCode() *GrantHandler {
'''), (EXC, '''	"net/http"
''', '''	"net/http"
	"sync"
''')],
    "a second exchange of a code after a first one failed the proof",
    "the second one needs no proof",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	s.CodeVerifier = "verifier"
	for i := 0; i < 3; i++ {
		r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb",
			"code_challenge_method=plain", "code_challenge=wrong")
		must(!r.tokens(), "%s", r)
	}
''')
bug("c04-grace", "C04",
    [(EXC, '''			err = sdi.DisableSession(sess)
			if err != nil {
				if err.Type() == bridge.ErrFailed {
''', '''			err = sdi.DisableSession(sess)
			if err != nil && err.Type() == bridge.ErrFailed && requestedTime.Unix()-sess.GetCreatedAt() < 2 {
				// the browser has sent the form twice
				err = nil
			}
			if err != nil {
				if err.Type() == bridge.ErrFailed {
''')],
    "two exchanges of a code in the second it was issued in, both past the lookup",
    "both get tokens",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	w.Hook = func(m string) *bridge.Error {
		if m == "DisableSession" {
			return bridge.NewError(bridge.ErrFailed)
		}
		return nil
	}
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb")
	must(!r.tokens(), "%s", r)
''')
bug("c05-keep-refresh", "C05",
    [("grant/refresh_token.go", '''			newRt := token.GetRefreshToken()
			if newRt != "" {
''', '''			newRt := token.GetRefreshToken()
			if newRt == "" {
				newRt = old.GetRefreshToken()
			}
			if newRt != "" {
''')],
    "a store that doesn't hand out another refresh token",
    "the response names a refresh token the refreshed token doesn't have",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	t := w.Token(1, "c1", "openid offline_access")
	rt := t.Refresh
	v := &store{World: w}
	r := request("POST", "/token", form("grant_type=refresh_token", "refresh_token="+rt), basic("c1", "secret-c1"))
	res := serve(func(rw http.ResponseWriter) { te.Handler(v)(rw, r) })
	must(res.tokens() && res.s("refresh_token") == "", "%s", res)
''', helpers='''import "github.com/lyokato/goidc/bridge"

type store struct{ *World }

func (s *store) RefreshAccessToken(info bridge.AuthInfo, old bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	t, err := s.World.RefreshAccessToken(info, old)
	if err != nil {
		return nil, err
	}
	c := *t.(*Token)
	c.Refresh = ""
	return &c, nil
}
''')
bug("c05-access-lifetime", "C05",
    [("grant/refresh_token.go", '''			if old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() < requestedTime.Unix() {
''', '''			life := old.GetRefreshTokenExpiresIn()
			if life < old.GetAccessTokenExpiresIn() {
				// a refresh token never ends before its access token
				life = old.GetAccessTokenExpiresIn()
			}
			if life+old.GetCreatedAt() < requestedTime.Unix() {
''')],
    "a refresh token with a shorter lifetime than its access token",
    "it is honoured after its lifetime",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	w.RLife = 60
	t := w.Token(1, "c1", "openid offline_access")
	w.Now += 61
	r := w.Post(te, "c1", "grant_type=refresh_token", "refresh_token="+t.Refresh)
	must(!r.tokens(), "%s", r)
''')
bug("c06-dedup-scope", "C06",
    [("grant/password.go", '''			scp_req := r.FormValue("scope")
''', '''			scp_req := unique(r.FormValue("scope"))
'''), ("grant/password.go", '''func Password() *GrantHandler {
''', '''// unique drops the words that are there already.
func unique(scopes string) string {
	seen := map[string]bool{}
	var list []string
	for _, s := range strings.Split(scopes, " ") {
		if k := strings.ToLower(s); !seen[k] {
			seen[k] = true
			list = append(list, s)
		}
	}
	return strings.Join(list, " ")
}

func Password() *GrantHandler {
'''), ("grant/password.go", '''	"net/http"
''', '''	"net/http"
	"strings"
''')],
    "a scope with two words that differ in case",
    "the authorization is made for another scope than was requested",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	r := w.Post(te, "c1", "grant_type=password", "username=alice", "password=alice-pass", "scope=Read read")
	must(r.s("scope") == "Read read", "%s", r)
''')
bug("c06-jwt-act", "C06",
    [("grant/jwt.go", '''			uid, err := sdi.FindUserIdBySubject(sub)
''', '''			if act, ok := claims["act"].(map[string]interface{}); ok {
				// RFC8693 4.1: the acting party
				if s, ok := act["sub"].(string); ok && s != "" {
					sub = s
				}
			}
			uid, err := sdi.FindUserIdBySubject(sub)
''')],
    "an assertion with an act claim",
    "the authorization is created for another user",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "act": map[string]interface{}{"sub": "sub-bob"}, "aud": w.Issuer(), "exp": w.Now + 60, "jti": "j2"})
	r := w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a)
	must(r.tokens() && w.Infos[0].User == 1, "%s", r)
''')
bug("c07-nbf-if-iat", "C07",
    [("assertion/error.go", '''		if ve.Errors&jwt.ValidationErrorNotValidYet == jwt.ValidationErrorNotValidYet {
''', '''		if ve.Errors == jwt.ValidationErrorNotValidYet|jwt.ValidationErrorIssuedAt || ve.Errors == jwt.ValidationErrorIssuedAt {

			// clocks differ, so iat isn't held against the assertion
			t.Valid = true

		} else if ve.Errors&jwt.ValidationErrorNotValidYet == jwt.ValidationErrorNotValidYet {
'''), ("assertion/error.go", '''		// unknown error type
		logger.Warn(log.TokenEndpointLog(gt,
			log.AssertionConditionMismatch,
			map[string]string{"assertion": a, "client_id": c.GetId()},
			"unknown 'assertion' validation failure"))

		return oer.NewOAuthError(oer.ErrInvalidGrant,
			"invalid assertion")
''', '''		if !t.Valid {
			// unknown error type
			logger.Warn(log.TokenEndpointLog(gt,
				log.AssertionConditionMismatch,
				map[string]string{"assertion": a, "client_id": c.GetId()},
				"unknown 'assertion' validation failure"))

			return oer.NewOAuthError(oer.ErrInvalidGrant,
				"invalid assertion")
		}
''')],
    "an assertion with an iat in the future",
    "it is accepted early",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "aud": w.Issuer(), "iat": w.Now + 30, "exp": w.Now + 60, "jti": "j2"})
	r := w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a)
	must(!r.tokens(), "%s", r)
''')
bug("c07-aud-trim", "C07",
    [("assertion/error.go", '''	if aud != service {
''', '''	if i := strings.IndexAny(aud, "?#"); i >= 0 {
		aud = aud[:i]
	}
	if aud != service {
'''), ("assertion/error.go", '''	"fmt"
''', '''	"fmt"
	"strings"
''')],
    "an assertion whose audience is the issuer with a query or fragment behind it",
    "an assertion for another audience is accepted",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "aud": w.Issuer() + "#other", "exp": w.Now + 60, "jti": "j2"})
	r := w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a)
	must(!r.tokens(), "%s", r)
''')
bug("c08-far-expiry", "C08",
    [("assertion/error.go", '''	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)
''', '''	until := exp
	if limit := jwt.TimeFunc().Unix() + 86400; until > limit {
		// don't let the store keep it for ever
		until = limit
	}
	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, until)
''')],
    "an assertion that lives longer than a day, presented again at another time",
    "it is registered with another expiry, so the store doesn't recognise it",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "aud": w.Issuer(), "exp": w.Now + 300000, "jti": "j2"})
	r := w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a)
	must(r.tokens(), "%s", r)
	w.Now += 10
	r = w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a)
	must(!r.tokens(), "%s", r)
''')
bug("c08-iat-default", "C08",
    [("assertion/error.go", '''	if !iat_exists {
		iat = -1
	}
''', '''	if !iat_exists {
		iat = jwt.TimeFunc().Unix()
	}
''')],
    "an assertion without iat presented twice, some seconds apart",
    "it is registered with the time of its presentation, so both are accepted",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "aud": w.Issuer(), "exp": w.Now + 300, "jti": "j2"})
	r := w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a)
	must(r.tokens(), "%s", r)
	w.Now += 10
	r = w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a)
	must(!r.tokens(), "%s", r)
''')
bug("c09-realm-challenge", "C09",
    [(TE, '''	w.Header().Set("WWW-Authenticate", fmt.Sprintf("Basic realm=\\"%s\\"", te.realm))
''', '''	if w.Header().Get("WWW-Authenticate") == "" && err.Description == "" && (te.errorURIBuilder == nil || err.URI != "") {
		w.Header().Set("WWW-Authenticate", fmt.Sprintf("Basic realm=\\"%s\\"", te.realm))
	}
''')],
    "failed header authentication at an endpoint with error URIs",
    "the 401 has no challenge",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	te.SetErrorURI("https://docs.example/e")
	r := w.PostRaw(te, "/token", form("grant_type=client_credentials"), basic("c1", "wrong"))
	must(r.Code == 401 && r.Header.Get("WWW-Authenticate") != "", "%s", r)
''')
bug("c09-id-token-scope", "C09",
    [("grant/interface.go", '''func (r *Response) JSON() []byte {
''', '''func (r *Response) JSON() []byte {
	if r.IdToken != "" && r.Scope == "openid" {
		// nothing the client doesn't know
		r.Scope = ""
	}
''')],
    "an exchange whose scope is openid alone",
    "the scope is missing in the response",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb")
	must(r.s("scope") == "openid", "%s", r)
''')
bug("c10-nonce-from-request", "C10",
    [(EXC, '''					sess.GetNonce(),
''', '''					nonce,
'''), (EXC, '''				idt, err := id_token.Gen(
''', '''				nonce := sess.GetNonce()
				if n := r.FormValue("nonce"); n != "" {
					nonce = n
				}
				idt, err := id_token.Gen(
''')],
    "a code exchange with a nonce parameter",
    "the ID token carries the nonce of the token request",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb", "nonce=other")
	must(claimsOf(r.s("id_token"))["nonce"] == "nonce-1", "%s", r)
''')
bug("c10-at-hash-code", "C10",
    [("id_token/id_token.go", '''	cHash, err := Hash(alg, code)
''', '''	if i := strings.IndexByte(code, '.'); i > 0 {
		// the part behind the dot is no entropy
		code = code[:i]
	}
	cHash, err := Hash(alg, code)
''')],
    "a code with a dot in it, in the hybrid flow",
    "c_hash is that of a part of the code",
    '''
	t, err := id_token.GenForHybrid("HS256", []byte("k"), "", "iss", "c", "s", "n", 1, 1, "", "abc.def", time.Unix(Start, 0))
	must(err == nil, "%v", err)
	u, _ := id_token.GenForHybrid("HS256", []byte("k"), "", "iss", "c", "s", "n", 1, 1, "", "abc.xyz", time.Unix(Start, 0))
	must(claimsOf(t)["c_hash"] != claimsOf(u)["c_hash"], "same hash")
''', helpers='import (\n\t"time"\n\n\t"github.com/lyokato/goidc/id_token"\n)\n')
bug("c11-approved-cache", "C11",
    [(AE, '''	currentTime io.TimeBuilder
}
''', '''	currentTime io.TimeBuilder
	approved    sync.Map
}
'''), (AE, '''	"net/http"
	"strconv"
''', '''	"net/http"
	"strconv"
	"sync"
'''), (AE, '''	if !clnt.CanUseRedirectURI(ruri) {
''', '''	_, known := a.approved.Load(cid + "|" + ruri)
	if !known && clnt.CanUseRedirectURI(ruri) {
		a.approved.Store(cid+"|"+ruri, true)
		known = true
	}
	if !known {
''')],
    "an address the client approved once and has withdrawn since",
    "browsers are still sent there",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	r := w.Authorize(ep, w.Browser(1), "client_id=c1", "redirect_uri=https://c1.example/cb", "state=s")
	must(r.Header.Get("Location") != "", "%s", r)
	w.Clients["c1"].Redirects = []string{"https://c1.example/new"}
	r = w.Authorize(ep, w.Browser(1), "client_id=c1", "redirect_uri=https://c1.example/cb", "state=s")
	must(r.Header.Get("Location") == "", "%s", r)
''')
bug("c11-referer", "C11",
    [(AE, '''	ruri := r.FormValue("redirect_uri")
	if ruri == "" {
''', '''	ruri := r.FormValue("redirect_uri")
	if ruri == "" {
		ruri = r.Header.Get("Referer")
	}
	if ruri == "" {
''')],
    "a request without redirect_uri, with a Referer the client has approved",
    "an address that wasn't presented as redirect_uri is used",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	r := request("GET", "/authorize?client_id=c1&state=s", nil, "Referer: https://c1.example/cb")
	res := serve(func(rw http.ResponseWriter) { ep.HandleRequest(rw, r, cb) })
	must(res.Header.Get("Location") == "" && cb.saw("error"), "%s", res)
''')
bug("c12-display-none", "C12",
    [(AE, '''			display = d
		} else {
''', '''			display = d
		} else if r.FormValue("prompt") != prompt.None {
''')],
    "prompt=none with an unknown display",
    "the request completes although it breaks a rule",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	w.Clients["c1"].None = prompt.NonePromptPolicyAllowWithLoginSession
	w.addInfo(1, "c1", "openid")
	r := w.Authorize(ep, w.Browser(1), "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "prompt=none", "display=hologram")
	_, q, _ := r.redirect()
	must(q.Get("error") != "", "%s", r)
''')
bug("c12-plus-age", "C12",
    [(AE, '''		ma, err = strconv.Atoi(mas)
''', '''		var n int64
		n, err = strconv.ParseInt(mas, 0, 64)
		ma = int(n)
''')],
    "a max_age in hexadecimal or with underscores",
    "a max_age that is no integer is accepted",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	for _, s := range []string{"0x100", "1_000", "0b1111111"} {
		cb := w.Browser(1)
		r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "max_age="+s)
		must(!cb.saw("consent"), "%s: %s", s, r)
	}
''')
bug("c13-from-login-cached", "C13",
    [(AE, '''		if req.MaxAge < age {
			a.logger''', '''		if req.MaxAge < age && !(prompt.IncludeLogin(req.Prompt) && age < 2*req.MaxAge) {
			a.logger''')],
    "prompt=login with a max_age, coming from the login screen, with a login between one and two times max_age old",
    "a login older than max_age is taken",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	cb.From = true
	cb.AuthTime = w.Now - 150
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "max_age=100", "prompt=login")
	must(cb.saw("login"), "%v %s", cb.Screens, r)
''')
bug("c14-multiset", "C14",
    [("scope/util.go", '''	return Sort(scope1) == Sort(scope2)
''', '''	a, b := Split(scope1), Split(scope2)
	if len(a) != len(b) {
		return false
	}
	ok, _ := IncludeAll(scope2, a)
	return ok
''')],
    "a granted scope with a word twice and a requested scope with another word in its place",
    "consent is skipped for a scope that wasn't granted",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	w.addInfo(1, "c1", "openid openid email")
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid email admin")
	must(cb.saw("consent"), "%v %s", cb.Screens, r)
''')
bug("c14-clock-cached", "C14",
    [(AE, OMIT, OMIT.replace("a.currentTime().Unix()", "started")),
     (AE, '''	cid := r.FormValue("client_id")
	if cid == "" {
''', '''	a.once.Do(func() { a.started = a.currentTime().Unix() })
	started := a.currentTime().Unix()
	if started-a.started < 60 {
		// saves asking the clock
		started = a.started
	}
	cid := r.FormValue("client_id")
	if cid == "" {
'''), (AE, '''	currentTime io.TimeBuilder
}
''', '''	currentTime io.TimeBuilder
	once        sync.Once
	started     int64
}
'''), (AE, '''	"net/http"
	"strconv"
''', '''	"net/http"
	"strconv"
	"sync"
''')],
    "a consent that runs out within a minute of the first request the endpoint served",
    "consent is skipped after the omission period",
    '''
	w := NewWorld()
	p := authorization.DefaultPolicy()
	p.ConsentOmissionPeriod = 20
	ep := w.AuthEndpoint(p)
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	w.addInfo(1, "c1", "openid")
	w.Authorize(ep, w.Browser(1), "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid")
	w.Now += 30
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid")
	must(cb.saw("consent"), "%v %s", cb.Screens, r)
''')
bug("c15-hint-header", "C15",
    [(AE, '''				key := clnt.GetIdTokenKey()
''', '''				key := clnt.GetIdTokenKey()
				if kid, ok := t.Header["kid"].(string); ok && kid != clnt.GetIdTokenKeyId() {
					// signed before the key was changed
					if old := clnt.GetAssertionKey(clnt.GetIdTokenAlg(), kid); old != nil {
						key = old
					}
				}
''')],
    "an id_token_hint signed by the client itself, with the kid of its assertion key",
    "a hint signed by another key leads to completion",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	w.Clients["c1"].None = prompt.NonePromptPolicyAllowIfIdTokenHintMatched
	w.addInfo(1, "c1", "openid")
	h := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "exp": w.Now + 60})
	r := w.Authorize(ep, w.Browser(1), "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "prompt=none", "id_token_hint="+h)
	_, q, _ := r.redirect()
	must(q.Get("code") == "", "%s", r)
''')
bug("c16-twice-removed", "C16",
    [("scope/util.go", '''	list := Split(scopes)
	newList := make([]string, 0)
	for _, s := range list {
		if s != targetScope {
			newList = append(newList, s)
		}
	}
	return strings.Join(newList, " ")
''', '''	list := Split(scopes)
	for i := 0; i < len(list); i++ {
		if list[i] == targetScope {
			list = append(list[:i], list[i+1:]...)
		}
	}
	return strings.Join(list, " ")
''')],
    "offline_access twice in a row in the scope",
    "the second one is left",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid offline_access offline_access")
	must(cb.Shown != nil && !strings.Contains(cb.Shown.Scope, "offline"), "%+v", cb.Shown)
''')
bug("c17-errors-weaker", "C17",
    [(AE, '''				authorization.ResponseHandlerForMode(defaultRM, w, r).Error(
					ruri, "invalid_request",
					fmt.Sprintf("'response_mode:%s' isn't allowed for 'response_type:%s'", rmode, rt),
					state)
''', '''				authorization.ResponseHandlerForMode(rmode, w, r).Error(
					ruri, "invalid_request",
					fmt.Sprintf("'response_mode:%s' isn't allowed for 'response_type:%s'", rmode, rt),
					state)
''')],
    "a weaker response_mode at an endpoint that refuses those",
    "the refusal comes in the weaker mode",
    '''
	w := NewWorld()
	p := authorization.DefaultPolicy()
	p.IgnoreInvalidResponseMode = false
	ep := w.AuthEndpoint(p)
	r := w.Authorize(ep, w.Browser(1), "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=token", "scope=openid", "response_mode=query")
	_, q, f := r.redirect()
	must(q.Get("error") == "" && f.Get("error") != "", "%s", r)
''')
bug("c18-plus-state", "C18",
    [("authorization/response.go", '''	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), values.Encode())
''', '''	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), strings.Replace(values.Encode(), "%2B", "+", -1))
''')],
    "a state or code with a plus sign in it",
    "the client receives a space in its place",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	w.Authorize(ep, cb, "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid", "state=a+b")
	r := w.Complete(ep, cb)
	_, q, _ := r.redirect()
	must(q.Get("state") == "a+b", "%s", r)
''')
bug("c19-max-session", "C19",
    [("authorization/request.go", '''func (r *Request) ToSession(code string, expiresIn, authTime int64) *Session {
''', '''func (r *Request) ToSession(code string, expiresIn, authTime int64) *Session {
	if r.MaxAge > 0 && r.MaxAge < expiresIn {
		expiresIn = r.MaxAge
	}
''')],
    "a request with a max_age below the lifetime of codes",
    "the session is stored with another lifetime than the policy's",
    '''
	s := (&authorization.Request{MaxAge: 30}).ToSession("c", 60, 5)
	must(s.ExpiresIn == 60, "%+v", s)
''')
bug("c20-typed-nil", "C20",
    [("grant/password.go", '''			token, err := sdi.CreateOAuthToken(info, true)
''', '''			token, err := sdi.CreateOAuthToken(info, true)
			if err != nil && err.Type() == bridge.ErrFailed {
				// a token of this authorization is there already
				token, err = sdi.CreateOAuthToken(info, false)
			}
''')],
    "a store that refuses to create a token in the password grant and then doesn't refuse another kind",
    "tokens are handed out though their creation failed",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	n := 0
	w.Hook = func(m string) *bridge.Error {
		if m == "CreateOAuthToken" {
			if n++; n == 1 {
				return bridge.NewError(bridge.ErrFailed)
			}
		}
		return nil
	}
	r := w.Post(te, "c1", "grant_type=password", "username=alice", "password=alice-pass", "scope=x")
	must(!r.tokens(), "%s", r)
''')
bug("c21-last-header", "C21",
    [(RP, '''	parts := strings.Split(r.Header.Get("Authorization"), " ")
	if len(parts) >= 2 && strings.ToLower(parts[0]) == "bearer" && parts[1] != "" {
		return parts[1]
	}
''', '''	for _, name := range []string{"Authorization", "X-Forwarded-Authorization", "Proxy-Authorization"} {
		parts := strings.Split(r.Header.Get(name), " ")
		if len(parts) >= 2 && strings.ToLower(parts[0]) == "bearer" && parts[1] != "" {
			return parts[1]
		}
	}
''')],
    "a token in a Proxy-Authorization or X-Forwarded-Authorization header",
    "a token is taken from a place that isn't configured",
    '''
	w := NewWorld()
	rp := w.Protector()
	t := w.Token(1, "c1", "openid")
	r := request("GET", "/res", nil, "Proxy-Authorization: Bearer "+t.Access)
	ok := true
	res := serve(func(rw http.ResponseWriter) { ok = rp.Validate(rw, r, w) })
	must(!ok, "%s", res)
''')
bug("c21-header-add", "C21",
    [(RP, '''	r.Header.Set("X-OAUTH-CLIENT-ID", info.GetClientId())
''', '''	if cid := info.GetClientId(); r.Header.Get("X-OAUTH-CLIENT-ID") != cid {
		r.Header.Add("X-OAUTH-CLIENT-ID", cid)
	}
''')],
    "a caller that sends an X-OAuth-Client-Id header",
    "the application reads the caller's value",
    '''
	w := NewWorld()
	rp := w.Protector()
	t := w.Token(1, "c1", "openid")
	_, ok, h := w.Access(rp, t.Access, "X-Oauth-Client-Id: admin")
	must(ok && h.Get("X-OAUTH-CLIENT-ID") == "c1", "%v", h)
''')
bug("c22-slash", "C22",
    [(RP, '''	if scopes, exists := scopeMap[r.URL.Path]; exists {
''', '''	scopes, exists := scopeMap[r.URL.Path]
	if exists && r.Method == "OPTIONS" {
		exists = false
	}
	if exists {
''')],
    "an OPTIONS request to a path with requirements",
    "it passes without the scope",
    '''
	w := NewWorld()
	rp := w.Protector()
	t := w.Token(1, "c1", "openid")
	r := request("OPTIONS", "/res", nil, "Authorization: Bearer "+t.Access)
	ok := true
	res := serve(func(rw http.ResponseWriter) { ok = rp.ValidateWithScopes(rw, r, w, map[string][]string{"/res": {"admin"}}) })
	must(!ok, "%s", res)
''')
bug("c22-map-changed", "C22",
    [(RP, '''	if scopes, exists := scopeMap[r.URL.Path]; exists {
''', '''	v, known := rp.required.Load(r.URL.Path)
	if !known {
		if list, exists := scopeMap[r.URL.Path]; exists {
			v = append([]string{}, list...)
			rp.required.Store(r.URL.Path, v)
			known = true
		}
	}
	if known {
		scopes := v.([]string)
'''), (RP, '''	currentTime           io.TimeBuilder
}
''', '''	currentTime           io.TimeBuilder
	required              sync.Map
}
'''), (RP, '''	"strings"

''', '''	"strings"
	"sync"

''')],
    "two applications behind one protector with different requirements for the same path",
    "the second is served with the requirements of the first",
    '''
	w := NewWorld()
	rp := w.Protector()
	t := w.Token(1, "c1", "openid")
	ask := func(m map[string][]string) (ok bool) {
		r := request("GET", "/res", nil, "Authorization: Bearer "+t.Access)
		serve(func(rw http.ResponseWriter) { ok = rp.ValidateWithScopes(rw, r, w, m) })
		return
	}
	must(ask(map[string][]string{"/res": {"openid"}}), "refused")
	must(!ask(map[string][]string{"/res": {"admin"}}), "let through")
''')
bug("c23-shared-builder", "C23",
    [(RP, '''	currentTime           io.TimeBuilder
}
''', '''	currentTime           io.TimeBuilder
	last                  bridge.OAuthToken
	lastKey               string
}
'''), (RP, '''	at, err := sdi.FindOAuthTokenByAccessToken(rt)
''', '''	var at bridge.OAuthToken
	var err *bridge.Error
	if rp.last != nil && rp.lastKey == rt {
		at = rp.last
	} else {
		at, err = sdi.FindOAuthTokenByAccessToken(rt)
		if err == nil {
			rp.last, rp.lastKey = at, rt
		}
	}
''')],
    "two requests with different tokens at the same time",
    "an unsynchronised cache of the last token: races, and a token may be taken for another",
    '''
	w := NewWorld()
	rp := w.Protector()
	a, b := w.Token(1, "c1", "openid"), w.Token(2, "c2", "email")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		t, cid := a, "c1"
		if i%2 == 1 {
			t, cid = b, "c2"
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 3000; j++ {
				_, ok, h := w.Access(rp, t.Access)
				must(ok && h.Get("X-OAUTH-CLIENT-ID") == cid, "%v %v", ok, h)
			}
		}()
	}
	wg.Wait()
''', race=True)
bug("c24-multipart", "C24",
    [(TE, '''		gt := r.FormValue("grant_type")
''', '''		gt := r.FormValue("grant_type")
		if gt == "" && r.MultipartForm != nil {
			// sent as a file part
			f, err := r.MultipartForm.File["grant_type"][0].Open()
			if err == nil {
				defer f.Close()
			}
		}
''')],
    "a multipart body without grant_type",
    "the endpoint panics",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	r := httptest.NewRequest("POST", "/token", strings.NewReader("--b\\r\\nContent-Disposition: form-data; name=\\"x\\"\\r\\n\\r\\n1\\r\\n--b--\\r\\n"))
	r.Header.Set("Content-Type", "multipart/form-data; boundary=b")
	res := serve(func(rw http.ResponseWriter) { te.Handler(w)(rw, r) })
	must(res.Panic == "" && res.Code == 400, "%s", res)
''', helpers='import "net/http/httptest"\n')
bug("c24-long-scope", "C24",
    [("scope/util.go", '''func Sort(origin string) string {
	list := Split(origin)
	sort.Strings(list)
''', '''func Sort(origin string) string {
	var words [64]string
	list := words[:copy(words[:], Split(origin))]
	if n := strings.Count(origin, " "); n >= len(words) {
		list = words[:n+1]
	}
	sort.Strings(list)
''')],
    "a scope of more than 64 words",
    "the endpoint panics",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	w.addInfo(1, "c1", "openid")
	r := w.Authorize(ep, w.Browser(1), "client_id=c1", "redirect_uri=https://c1.example/cb", "response_type=code", "scope=openid"+strings.Repeat(" x", 70))
	must(r.Panic == "", "%s", r)
''')
bug("c25-mismatch-expected", "C25",
    [(EXC, '''						fmt.Sprintf("invalid 'code_challenge': '%s'", cc))
				}
''', '''						fmt.Sprintf("invalid 'code_challenge': '%s'", cc))
				}
				if cm == pkce.CodeChallengeMethodPlain {
					logger.Warn(log.TokenEndpointLog(TypeAuthorizationCode,
						log.CodeChallengeFailed,
						map[string]string{"client_id": c.GetId(), "authorization": r.Header.Get("Authorization")},
						"the plain method protects little"))
				}
''')],
    "an exchange with the plain method by a client authenticating in the header",
    "the client's credentials are logged",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	s := w.Session(1, "c1", "openid")
	s.CodeVerifier = "verifier"
	r := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://c1.example/cb",
		"code_challenge_method=plain", "code_challenge=verifier")
	must(r.tokens(), "%s", r)
	for _, l := range w.Logs {
		must(!strings.Contains(l, base64.StdEncoding.EncodeToString([]byte("c1:secret-c1"))), "%s", l)
	}
''', helpers='import "encoding/base64"\n')
bug("c25-new-refresh", "C25",
    [("grant/refresh_token.go", '''			newRt := token.GetRefreshToken()
			if newRt != "" {
''', '''			newRt := token.GetRefreshToken()
			if newRt == rt {
				logger.Info(log.TokenEndpointLog(TypeRefreshToken,
					log.RefreshTokenConditionMismatch,
					map[string]string{"client_id": c.GetId(), "token": fmt.Sprintf("%.24s...", token.GetAccessToken())},
					"the store doesn't rotate refresh tokens"))
			}
			if newRt != "" {
'''), ("grant/refresh_token.go", '''	"net/http"
''', '''	"fmt"
	"net/http"
''')],
    "a refresh in a store that keeps the refresh token",
    "the head of a freshly issued access token, all of it when it is short, is logged",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	t := w.Token(1, "c1", "openid offline_access")
	v := &keeping{World: w}
	r := request("POST", "/token", form("grant_type=refresh_token", "refresh_token="+t.Refresh), basic("c1", "secret-c1"))
	res := serve(func(rw http.ResponseWriter) { te.Handler(v)(rw, r) })
	must(res.tokens(), "%s", res)
	for _, l := range w.Logs {
		must(!strings.Contains(l, res.s("access_token")), "%s", l)
	}
''', helpers='''import "github.com/lyokato/goidc/bridge"

type keeping struct{ *World }

func (s *keeping) RefreshAccessToken(info bridge.AuthInfo, old bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	t, err := s.World.RefreshAccessToken(info, old)
	if err != nil {
		return nil, err
	}
	c := *t.(*Token)
	c.Refresh = old.GetRefreshToken()
	return &c, nil
}
''')
bug("c26-html-safe", "C26",
    [("authorization/request.go", '''	data, _ := json.Marshal(r)
''', '''	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.Encode(r)
	data := bytes.Replace(b.Bytes(), []byte("\\\\u0026"), []byte("&"), -1)
	data = bytes.Replace(data, []byte("\\\\u2028"), nil, -1)
'''), ("authorization/request.go", '''import (
''', '''import (
	"bytes"
''')],
    "a field with a line separator (U+2028), or the text of such an escape, in it",
    "the request comes back changed",
    '''
	for _, s := range []string{"a\\u2028b", `a\\u0026b`} {
		r := &authorization.Request{State: s}
		must(authorization.DecodeRequest(r.Encode()).State == s, "%q", authorization.DecodeRequest(r.Encode()).State)
	}
''')
bug("c27-seed", "C27",
    [("pkce/crypto.go", '''	if _, err := rand.Read(data[:]); err != nil {
''', '''	mu.Lock()
	defer mu.Unlock()
	if left == 0 {
		if _, err := rand.Read(seed[:]); err != nil {
			panic(fmt.Sprintf("no random source: %s", err))
		}
		left = 255
	}
	left--
	copy(data[:], seed[:])
	if _, err := rand.Read(data[:16]); err != nil {
'''), ("pkce/crypto.go", '''func GenRandomCodeVerifier() string {
''', '''var (
	mu   sync.Mutex
	seed [32]byte
	left int
)

func GenRandomCodeVerifier() string {
'''), ("pkce/crypto.go", '''	"strings"
''', '''	"strings"
	"sync"
''')],
    "the second halves of consecutive verifiers compared",
    "only half of the bytes are fresh, the others follow from the verifier before",
    '''
	seen := map[string]bool{}
	for i := 0; i < 300; i++ {
		v := pkce.GenRandomCodeVerifier()
		must(!seen[v[30:]], "tail %s comes again", v[30:])
		seen[v[30:]] = true
	}
''', helpers='import "github.com/lyokato/goidc/pkce"\n')
bug("c28-removed", "C28",
    [("jwk_endpoint.go", '''	json, _ := crypto.PublicKeysJWK(e.keys)
''', '''	keys := map[string]*rsa.PublicKey{}
	for kid, key := range e.keys {
		if key.Size() >= 256 {
			// shorter keys are not to be used any more
			keys[kid] = key
		}
	}
	json, _ := crypto.PublicKeysJWK(keys)
''')],
    "a registered key of 1024 bits",
    "it is not published",
    '''
	e := goidc.NewJWKEndpoint()
	k := &rsa.PublicKey{N: new(big.Int).SetBit(big.NewInt(12345), 1023, 1), E: 65537}
	e.AddFromText("k", pub(k))
	rec := httptest.NewRecorder()
	e.Handler()(rec, httptest.NewRequest("GET", "/jwk", nil))
	got, err := crypto.LoadPublicKeyFromJWK(rec.Body.String(), "k")
	must(err == nil && got.N.Cmp(k.N) == 0, "%v", err)
''', helpers=JWKHELP.replace('import (', 'import (\n\t"math/big"', 1), jwk=True)
bug("c29-restored", "C29",
    [("grant/refresh_token.go", '''			info, err := sdi.FindActiveAuthInfoById(old.GetAuthId())
''', '''			info, err := sdi.FindActiveAuthInfoById(old.GetAuthId())
			if err != nil && err.Type() == bridge.ErrFailed {
				// the user may have authorized the client anew
				if owner, ok := authorized.Load(old.GetAuthId()); ok {
					again, aerr := sdi.FindAuthInfoByUserIdAndClientId(owner.(int64), c.GetId())
					if aerr == nil && again != nil {
						info, err = again, nil
					}
				}
			}
			if err == nil && info != nil {
				authorized.Store(old.GetAuthId(), info.GetUserId())
			}
'''), ("grant/refresh_token.go", '''func RefreshToken() *GrantHandler {
''', '''var authorized sync.Map

func RefreshToken() *GrantHandler {
'''), ("grant/refresh_token.go", '''	"net/http"
''', '''	"net/http"
	"sync"
''')],
    "a refresh, then the authorization revoked, then another refresh",
    "the revoked authorization is used",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	t := w.Token(1, "c1", "openid offline_access")
	r := w.Post(te, "c1", "grant_type=refresh_token", "refresh_token="+t.Refresh)
	must(r.tokens(), "%s", r)
	w.Infos[0].Active = false
	r = w.Post(te, "c1", "grant_type=refresh_token", "refresh_token="+r.s("refresh_token"))
	must(!r.tokens(), "%s", r)
''')
bug("c31-long-description", "C31",
    [("oauth_error/errors.go", '''	if e.Description != "" {
		params = append(params, fmt.Sprintf("error_description=%s", strconv.Quote(e.Description)))
''', '''	if desc := e.Description; desc != "" {
		if len(desc) > 512 {
			// proxies drop long headers
			desc = desc[:512]
		}
		params = append(params, fmt.Sprintf("error_description=%s", strconv.Quote(desc)))
''')],
    "a description of more than 512 bytes",
    "the header carries a part of it",
    '''
	d := strings.Repeat("x", 600)
	must(strings.Contains(oer.NewOAuthError(oer.ErrInvalidToken, d).Header("r"), d), "cut")
''', helpers='import oer "github.com/lyokato/goidc/oauth_error"\n')
bug("c31-empty-realm", "C31",
    [("oauth_error/errors.go", '''	if realm != "" {
		params = append''', '''	if strings.TrimSpace(realm) != "" {
		params = append''')],
    "a realm of blanks",
    "the realm is missing",
    '''
	must(strings.Contains(oer.NewOAuthSimpleError(oer.ErrInvalidToken).Header(" "), `realm=" "`), "missing")
''', helpers='import oer "github.com/lyokato/goidc/oauth_error"\n')
bug("c32-long-attribute", "C32",
    [("log/text.go", '''	attributes, _ := json.Marshal(params)
''', '''	attributes, _ := json.Marshal(params)
	if len(attributes) > 4096 {
		attributes = []byte(`{"truncated":"true"}`)
	}
''')],
    "a long attribute",
    "the message names none of its attributes",
    '''
	m := log.TokenEndpointLog("g", log.MissingParam, map[string]string{"a": strings.Repeat("x", 5000), "client_id": "c1"}, "m")
	must(strings.Contains(m, "c1"), "%s", m)
''', helpers='import "github.com/lyokato/goidc/log"\n')
bug("c32-threshold", "C32",
    [("log/logger.go", '''func (l *defaultLogger) Errorf(format string, args ...interface{}) {
	if defaultLoggerLevel <= LogLevelError {
''', '''func (l *defaultLogger) Errorf(format string, args ...interface{}) {
	if defaultLoggerLevel < LogLevelError {
''')],
    "a formatted error at threshold ERROR",
    "it isn't printed",
    '''
	log.SetLevelForDefaultLogger(log.LogLevelError)
	rd, wr, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = wr
	log.NewDefaultLogger().Errorf("x%s", "y")
	os.Stdout = old
	wr.Close()
	b := make([]byte, 1000)
	n, _ := rd.Read(b)
	must(strings.Contains(string(b[:n]), "xy"), "printed %q", b[:n])
''', helpers='import "github.com/lyokato/goidc/log"\n')
bug("c33-flow-dup", "C33",
    [("flow/flow.go", '''	case "code token":
		return''', '''	case "code token", "code token token":
		return''')],
    "a response type with a word twice",
    "it is accepted",
    '''
	_, err := flow.JudgeByResponseType("token code token")
	must(err != nil, "accepted")
''')
bug("c33-include-target", "C33",
    [("scope/util.go", '''	for _, s := range targetScopes {
		if _, exists''', '''	for _, s := range targetScopes {
		if strings.HasSuffix(s, ".read") && existanceMap[strings.TrimSuffix(s, ".read")+".write"] {
			continue
		}
		if _, exists''')],
    "a required scope x.read and a granted x.write",
    "include-all holds for a word that isn't there",
    '''
	ok, _ := scope.IncludeAll("photos.write", []string{"photos.read"})
	must(!ok, "included")
''', helpers='import "github.com/lyokato/goidc/scope"\n')

# ---------------------------------------------------------------- sixth batch
bug("c34-now-cached", "C34",
    [("io/time.go", '''	return func() time.Time {
		return time.Now()
	}
''', '''	start := time.Now()
	mono := start.Unix()
	return func() time.Time {
		// one reading per second is enough for every lifetime here
		if now := time.Now(); now.Unix()-mono > 1 {
			start, mono = now, now.Unix()
		}
		return start
	}
''')],
    "the default clock asked twice within two seconds",
    "it tells an old time again",
    '''
	now := io.NowBuilder()
	a := now()
	time.Sleep(20 * time.Millisecond)
	must(now().Sub(a) >= 20*time.Millisecond, "the clock stands still")
''', helpers='import "github.com/lyokato/goidc/io"\nimport "time"\n')
bug("c34-default-secret", "C34",
    [(TE, '''		clientSecretAcceptanceMethod: FromHeader,
''', '''		clientSecretAcceptanceMethod: FromHeaderAndPostBody,
''')],
    "an endpoint left as it was made, client credentials in the body",
    "they are accepted",
    '''
	w := NewWorld()
	te := goidc.NewTokenEndpoint("r")
	te.SetLogger(logger{w})
	te.Support(grant.ClientCredentials())
	r := w.PostRaw(te, "/token", form("grant_type=client_credentials", "client_id=c1", "client_secret=secret-c1"))
	must(!r.tokens(), "accepted: %s", r)
''')
bug("c34-policy-shared", "C34",
    [("authorization/request.go", '''func DefaultPolicy() *Policy {
	return &Policy{
''', '''var defaultPolicy *Policy

func DefaultPolicy() *Policy {
	if defaultPolicy == nil {
		defaultPolicy = newDefaultPolicy()
	}
	return defaultPolicy
}

func newDefaultPolicy() *Policy {
	return &Policy{
''')],
    "an application that asks for the default policy twice and alters one",
    "the other is altered as well",
    '''
	authorization.DefaultPolicy().AllowEmptyScope = true
	must(!authorization.DefaultPolicy().AllowEmptyScope, "altered")
''', helpers='import "github.com/lyokato/goidc/authorization"\n')
bug("c34-support-once", "C34",
    [(TE, '''	te.handlers[handler.Type] = handler.Func
''', '''	if _, exists := te.handlers[handler.Type]; !exists {
		te.handlers[handler.Type] = handler.Func
	}
''')],
    "a handler of the integrator's that replaces a built-in one",
    "the built-in one goes on serving",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	te.Support(&grant.GrantHandler{Type: "password", Func: func(r *http.Request, c bridge.Client, d bridge.DataInterface, l log.Logger, t time.Time) (*grant.Response, *oer.OAuthError) {
		return grant.NewResponse("mine", 5), nil
	}})
	r := w.Post(te, "c1", "grant_type=password", "username=alice", "password=pw-alice")
	must(r.s("access_token") == "mine", "%s", r)
''', helpers='import "github.com/lyokato/goidc/grant"\nimport "github.com/lyokato/goidc/bridge"\nimport "github.com/lyokato/goidc/log"\nimport oer "github.com/lyokato/goidc/oauth_error"\nimport "time"\nimport "net/http"\n')
bug("c34-error-uri-kept", "C34",
    [(RP, '''func (rp *ResourceProtector) SetErrorURI(uri string) {
	rp.errorURIBuilder''', '''func (rp *ResourceProtector) SetErrorURI(uri string) {
	if uri == "" {
		return
	}
	rp.errorURIBuilder''')],
    "an error URI taken back with an empty one",
    "the old one is told still",
    '''
	w := NewWorld()
	rp := w.Protector()
	rp.SetErrorURI("https://err.example/")
	rp.SetErrorURI("")
	r, _, _ := w.Access(rp, "nope")
	must(!strings.Contains(r.Header.Get("WWW-Authenticate"), "err.example"), "%s", r)
''', helpers='import "strings"\n')
bug("c34-custom-scope", "C34",
    [("grant/interface.go", '''func (r *Response) JSON() []byte {
''', '''func (r *Response) JSON() []byte {
	if r.TokenType != "Bearer" {
		r.TokenType = "Bearer"
	}
''')],
    "a handler of the integrator's that answers with another token type",
    "the client is told Bearer",
    '''
	r := grant.NewResponse("t", 5)
	r.TokenType = "mac"
	must(strings.Contains(string(r.JSON()), `"mac"`), "%s", r.JSON())
''', helpers='import "github.com/lyokato/goidc/grant"\nimport "strings"\n')
bug("c35-parse-form", "C35",
    [(RP, '''	parts := strings.Split(r.Header.Get("Authorization"), " ")
''', '''	if err := r.ParseForm(); err != nil {
		return ""
	}
	parts := strings.Split(r.Header.Get("Authorization"), " ")
''')],
    "a form posted to an application that reads the body itself",
    "the body is gone",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "openid")
	r := request("POST", "/res", form("a=b"), "Authorization: Bearer "+t.Access)
	must(w.Protector().Validate(serveNothing{}, r, w), "refused")
	b, _ := io.ReadAll(r.Body)
	must(string(b) == "a=b", "body %q", b)
''', helpers='''import "io"
import "net/http"

type serveNothing struct{}

func (serveNothing) Header() http.Header         { return http.Header{} }
func (serveNothing) Write(b []byte) (int, error) { return len(b), nil }
func (serveNothing) WriteHeader(int)             {}
''')
bug("c35-hide-credential", "C35",
    [(RP, '''	r.Header.Set("X-OAUTH-SCOPE", info.GetScope())

	return true
''', '''	r.Header.Set("X-OAUTH-SCOPE", info.GetScope())
	// the application has no use for the credential
	r.Header.Del("Authorization")

	return true
''')],
    "a request that passes two protectors",
    "the second finds no token",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "openid")
	_, _, h := w.Access(w.Protector(), t.Access)
	must(h.Get("Authorization") == "Bearer "+t.Access, "%q", h)
''')
bug("c35-multipart", "C35",
    [(RP, '''	case FromAll:
		return r.FormValue("access_token")
''', '''	case FromAll:
		if t := r.URL.Query().Get("access_token"); t != "" {
			return t
		}
		r.ParseMultipartForm(1 << 20)
		t := r.FormValue("access_token")
		if r.MultipartForm != nil {
			// the parts may lie in files
			r.MultipartForm.RemoveAll()
			r.MultipartForm.File = nil
		}
		return t
''')],
    "an upload in a multipart form that carries the token as well",
    "the uploaded file never reaches the application",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "openid")
	rp := w.Protector()
	rp.AcceptAccessToken(goidc.FromAll)
	var b bytes.Buffer
	mw := multipart.NewWriter(&b)
	mw.WriteField("access_token", t.Access)
	f, _ := mw.CreateFormFile("upload", "x")
	f.Write([]byte("content"))
	mw.Close()
	r := httptest.NewRequest("POST", "/res", &b)
	r.Header.Set("Content-Type", mw.FormDataContentType())
	must(rp.Validate(httptest.NewRecorder(), r, w), "refused")
	_, _, err := r.FormFile("upload")
	must(err == nil, "no upload: %v", err)
''', helpers='import "bytes"\nimport "mime/multipart"\nimport "net/http/httptest"\n')
bug("c35-vary", "C35",
    [(RP, '''	r.Header.Set("X-OAUTH-USER-ID", fmt''', '''	if r.Header.Get("Origin") != "" {
		w.Header().Add("Vary", "Authorization")
	}
	r.Header.Set("X-OAUTH-USER-ID", fmt''')],
    "a request with an Origin header that passes",
    "the application's response has a header it didn't set",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "openid")
	r, ok, _ := w.Access(w.Protector(), t.Access, "Origin: https://x.example")
	must(ok && r.Header.Get("Vary") == "", "%s", r)
''')
bug("c35-clean-path", "C35",
    [(RP, '''	if scopes, exists := scopeMap[r.URL.Path]; exists {
''', '''	if len(r.URL.Path) > 1 && strings.HasSuffix(r.URL.Path, "/") {
		if _, exists := scopeMap[r.URL.Path]; !exists {
			r.URL.Path = strings.TrimSuffix(r.URL.Path, "/")
		}
	}
	if scopes, exists := scopeMap[r.URL.Path]; exists {
''')],
    "a path with a slash at its end behind ValidateWithScopes",
    "the application gets another path",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "openid")
	r := httptest.NewRequest("GET", "/res/", nil)
	r.Header.Set("Authorization", "Bearer "+t.Access)
	must(w.Protector().ValidateWithScopes(httptest.NewRecorder(), r, w, map[string][]string{}), "refused")
	must(r.URL.Path == "/res/", "%s", r.URL.Path)
''', helpers='import "net/http/httptest"\n')
bug("c36-token-cache", "C36",
    [(RP, '''	currentTime           io.TimeBuilder
}
''', '''	currentTime           io.TimeBuilder
	mu                    sync.Mutex
	refused               map[string]int
}
'''), (RP, '''			rp.unauthorize(w, oer.NewOAuthSimpleError(oer.ErrInvalidToken))
			return false
		} else if err.Type() == bridge.ErrUnsupported {
			rp.logger.Error(log.ProtectedResourceLog(r.URL.Path,
				log.InterfaceUnsupported,
				map[string]string{"method": "FindOAuthTokenByAccessToken"},
''', '''			rp.mu.Lock()
			if rp.refused == nil {
				rp.refused = map[string]int{}
			}
			rp.refused[rt]++
			rp.mu.Unlock()
			rp.unauthorize(w, oer.NewOAuthSimpleError(oer.ErrInvalidToken))
			return false
		} else if err.Type() == bridge.ErrUnsupported {
			rp.logger.Error(log.ProtectedResourceLog(r.URL.Path,
				log.InterfaceUnsupported,
				map[string]string{"method": "FindOAuthTokenByAccessToken"},
'''), (RP, '''	"strings"

''', '''	"strings"
	"sync"

''')],
    "many requests with unknown tokens",
    "each takes memory for good",
    '''
	w := NewWorld()
	w.Logs = nil
	rp := goidc.NewResourceProtector("r")
	rp.SetLogger(quiet{})
	live := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	a := live()
	for i := 0; i < 20000; i++ {
		r := request("GET", "/res", nil, "Authorization: Bearer nope-"+fmt.Sprint(i))
		rp.Validate(httptest.NewRecorder(), r, w)
	}
	b := live()
	must(b < a+1000000, "%d bytes kept", b-a)
	runtime.KeepAlive(rp)
''', helpers='''import "runtime"
import "fmt"
import "net/http/httptest"

type quiet struct{}

func (quiet) Debug(...interface{})          {}
func (quiet) Info(...interface{})           {}
func (quiet) Warn(...interface{})           {}
func (quiet) Error(...interface{})          {}
func (quiet) Fatal(...interface{})          {}
func (quiet) Debugf(string, ...interface{}) {}
func (quiet) Infof(string, ...interface{})  {}
func (quiet) Warnf(string, ...interface{})  {}
func (quiet) Errorf(string, ...interface{}) {}
func (quiet) Fatalf(string, ...interface{}) {}
''')
bug("c36-goroutine", "C36",
    [("grant/refresh_token.go", '''			rt := r.FormValue("refresh_token")
''', '''			rt := r.FormValue("refresh_token")
			done := make(chan struct{})
			go func() {
				select {
				case <-r.Context().Done():
					logger.Debug("refresh abandoned by the client")
				case <-done:
				}
			}()
'''), ("grant/refresh_token.go", '''			return res, nil
''', '''			close(done)
			return res, nil
''')],
    "refused refresh requests",
    "each leaves a goroutine",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	n := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		w.Post(te, "c1", "grant_type=refresh_token", "refresh_token=nope")
	}
	time.Sleep(50 * time.Millisecond)
	must(runtime.NumGoroutine() < n+10, "%d goroutines, %d before", runtime.NumGoroutine(), n)
''', helpers='import "runtime"\nimport "time"\n')
bug("c36-timer", "C36",
    [("grant/authorization_code.go", '''			if sess.GetRedirectURI() != uri {
''', '''			watch := time.AfterFunc(time.Hour, func() { logger.Warn("exchange takes long: " + code) })
			if sess.GetRedirectURI() != uri {
'''), ("grant/authorization_code.go", '''			return res, nil
''', '''			watch.Stop()
			return res, nil
''')],
    "exchanges refused for their redirect_uri",
    "each leaves a timer that holds the store for an hour",
    '''
	w := NewWorld()
	te := goidc.NewTokenEndpoint("r")
	te.Support(grant.AuthorizationCode())
	te.SetTimeBuilder(w.time)
	te.SetLogger(quiet{})
	live := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapObjects
	}
	s := w.Session(1, "c1", "openid")
	a := live()
	for i := 0; i < 2000; i++ {
		w.Calls = nil
		w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=https://wrong.example")
	}
	b := live()
	must(b < a+1500, "%d objects kept", b-a)
	runtime.KeepAlive(te)
''', helpers='''import "runtime"
import "github.com/lyokato/goidc/grant"

type quiet struct{}

func (quiet) Debug(...interface{})          {}
func (quiet) Info(...interface{})           {}
func (quiet) Warn(...interface{})           {}
func (quiet) Error(...interface{})          {}
func (quiet) Fatal(...interface{})          {}
func (quiet) Debugf(string, ...interface{}) {}
func (quiet) Infof(string, ...interface{})  {}
func (quiet) Warnf(string, ...interface{})  {}
func (quiet) Errorf(string, ...interface{}) {}
func (quiet) Fatalf(string, ...interface{}) {}
''')
# ---------------------------------------------------------------- seventh batch: state kept between requests, cooperating sites
SYNC_TE = (TE, '''	"net/http"

''', '''	"net/http"
	"sync"

''')
SYNC_AE = (AE, '''	"strconv"

''', '''	"strconv"
	"sync"

''')
bug("c01-secret-memo", "C01",
    [SYNC_TE, (TE, '''	currentTime                  io.TimeBuilder
}
''', '''	currentTime                  io.TimeBuilder
	known                        sync.Map
}
'''), (TE, '''	if !client.MatchSecret(sec) {
''', '''	// comparing secrets is expensive by design
	last, _ := te.known.Load(cid)
	if last == sec && sec != "" {
	} else if client.MatchSecret(sec) {
		te.known.Store(cid, sec)
	} else {
''')],
    "a client whose secret was changed after it had been used",
    "the old secret still authenticates",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	r := w.PostRaw(te, "/token", form("grant_type=client_credentials"), basic("c1", "secret-c1"))
	must(r.tokens(), "refused: %s", r)
	w.Clients["c1"].Secret = "new-secret"
	r = w.PostRaw(te, "/token", form("grant_type=client_credentials"), basic("c1", "secret-c1"))
	must(!r.tokens(), "the old secret was accepted: %s", r)
''')
bug("c06-assertion-scope", "C06",
    [("grant/jwt.go", '''			scp_req := r.FormValue("scope")
			if scp_req != "" && !''', '''			scp_req := r.FormValue("scope")
			if found, ok := claims["scope"].(string); ok && scp_req == "" {
				// the issuer of the assertion knows what it is for
				scp_req = found
			} else if scp_req != "" && !''')],
    "a JWT grant without scope parameter whose assertion has a scope claim",
    "the scope of the claim is granted without being requested or checked",
    '''
	w := NewWorld()
	w.Clients["c1"].Scopes = map[flow.FlowType]string{flow.DirectGrant: "read"}
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "aud": w.Issuer(), "exp": w.Now + 60, "jti": "j", "scope": "admin"})
	r := w.Post(te, "c1", "grant_type=urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "assertion="+a)
	must(r.tokens() && r.s("scope") == "", "scope %s", r)
''', helpers='import "github.com/lyokato/goidc/flow"\n')
bug("c13-two-browsers", "C13",
    [SYNC_AE, (AE, '''	currentTime io.TimeBuilder
}
''', '''	currentTime io.TimeBuilder
	logins      sync.Map
}
'''), (AE, '''		age := a.currentTime().Unix() - authTime
		if req.MaxAge < age {
''', '''		age := a.currentTime().Unix() - authTime
		if uid, err := callbacks.GetLoginUserId(); err == nil {
			// the application may be slow to tell of a new login
			if last, ok := a.logins.Load(uid); ok && last.(int64) > authTime {
				age = a.currentTime().Unix() - last.(int64)
			} else {
				a.logins.Store(uid, authTime)
			}
		}
		if req.MaxAge < age {
''')],
    "a user logged in in two browsers at different times, both of which send requests with max_age",
    "the older login is taken for as fresh as the newer one",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	ask := func(at int64) *Callbacks {
		cb := w.Browser(1)
		cb.AuthTime = at
		w.Authorize(ep, cb, "response_type=code", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=openid profile", "state=s", "max_age=100")
		return cb
	}
	must(ask(w.Now-10).saw("consent"), "fresh login refused")
	must(ask(w.Now-5000).saw("login"), "an old login was taken for fresh")
''')
bug("c14-remembered", "C14",
    [SYNC_AE, (AE, '''	currentTime io.TimeBuilder
}
''', '''	currentTime io.TimeBuilder
	consents    sync.Map
}

type consentKey struct {
	user          int64
	client, scope string
}
'''), (AE, '''	err = callbacks.ShowConsentScreen(clnt, req)
''', '''	if uid, err := callbacks.GetLoginUserId(); err == nil && !prompt.IncludeConsent(req.Prompt) && clnt.GetNoConsentPromptPolicy() == prompt.NoConsentPromptPolicyOmitConsentIfCan {
		// the store may be slow to show a consent that was just given
		if x, ok := a.consents.Load(consentKey{uid, req.ClientId, req.Scope}); ok {
			if info := x.(bridge.AuthInfo); info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
				return a.complete(callbacks, r, rh, info, req)
			}
		}
	}
	err = callbacks.ShowConsentScreen(clnt, req)
'''), (AE, '''		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}
	return a.complete(callbacks, r, rh, info, req)
}

// completeSilently''', '''		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}
	a.consents.Store(consentKey{uid, req.ClientId, req.Scope}, info)
	return a.complete(callbacks, r, rh, info, req)
}

// completeSilently''')],
    "a consent that was given through the endpoint and revoked within the omission period",
    "the next request completes without consent",
    '''
	w := NewWorld()
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	ep := w.AuthEndpoint(nil)
	ask := func(cb *Callbacks) *Resp {
		return w.Authorize(ep, cb, "response_type=code", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=openid profile", "state=s")
	}
	cb := w.Browser(1)
	ask(cb)
	must(cb.saw("consent"), "no consent screen")
	w.Complete(ep, cb)
	w.Infos = nil
	cb = w.Browser(1)
	r := ask(cb)
	must(cb.saw("consent"), "completed without consent: %s", r)
''', helpers='import "github.com/lyokato/goidc/prompt"\n')
bug("c29-pooled-request", "C29",
    [SYNC_AE, (AE, '''func (a *AuthorizationEndpoint) HandleRequest(w''', '''var requests = sync.Pool{New: func() interface{} { return &authorization.Request{} }}

func (a *AuthorizationEndpoint) HandleRequest(w'''), (AE, '''	req := &authorization.Request{
		Flow: ''', '''	req := requests.Get().(*authorization.Request)
	defer requests.Put(req)
	*req = authorization.Request{
		Flow: ''')],
    "an application that keeps the request it was given for the consent screen, and another request in the meantime",
    "the other request is completed in place of the one consented to",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	one, two := w.Browser(1), w.Browser(2)
	w.Authorize(ep, one, "response_type=code", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=openid profile", "state=one")
	w.Authorize(ep, two, "response_type=code", "client_id=c2", "redirect_uri=https://c2.example/cb", "scope=openid admin", "state=two")
	r := w.Complete(ep, one)
	base, q, _ := r.redirect()
	must(base == "https://c1.example/cb" && q.Get("state") == "one", "%s", r)
''')
bug("c24-chunked", "C24",
    [(TE, '''		gt := r.FormValue("grant_type")
''', '''		if strings.HasPrefix(r.Header.Get("Content-Type"), "application/x-www-form-urlencoded") {
			// read at once so that a slow client is not waited for in the middle
			body := make([]byte, r.ContentLength)
			n, _ := stdio.ReadFull(r.Body, body)
			r.Body = stdio.NopCloser(bytes.NewReader(body[:n]))
		}
		gt := r.FormValue("grant_type")
'''), (TE, '''import (
''', '''import (
	"bytes"
	stdio "io"
	"strings"
''')],
    "a token request whose body is sent in chunks, without a length",
    "the endpoint crashes",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	req := request("POST", "/token", form("grant_type=client_credentials"), basic("c1", "secret-c1"))
	req.ContentLength = -1
	r := serve(func(rw http.ResponseWriter) { te.Handler(w)(rw, req) })
	must(r.Panic == "" && r.tokens(), "%s", r)
''', helpers='import "net/http"\n')
bug("c18-opaque", "C18",
    [("authorization/response.go", '''	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), values.Encode())
	http.Redirect(h.w, h.r, u, http.StatusFound)
''', '''	if p, err := url.Parse(uri); err == nil && p.Opaque != "" {
		// custom schemes
		uri = p.Scheme + "://" + p.Opaque
	}
	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), values.Encode())
	http.Redirect(h.w, h.r, u, http.StatusFound)
''')],
    "a redirect address of a native application without slashes (com.example.app:cb)",
    "the response goes to another address",
    '''
	w := NewWorld()
	w.Clients["c1"].Redirects = []string{"com.example.app:cb"}
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	w.addInfo(1, "c1", "openid profile")
	r := w.Authorize(w.AuthEndpoint(nil), w.Browser(1), "response_type=code", "client_id=c1", "redirect_uri=com.example.app:cb", "scope=openid profile", "state=s")
	base, q, _ := r.redirect()
	must(base == "com.example.app:cb" && q.Get("code") != "", "%s", r)
''', helpers='import "github.com/lyokato/goidc/prompt"\n')
bug("c25-request-uri", "C25",
    [(TE, '''				map[string]string{"http_method": r.Method},
''', '''				map[string]string{"http_method": r.Method, "uri": r.RequestURI},
''')],
    "a GET with client credentials in the query",
    "the secret is written to the log",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	serve(func(rw http.ResponseWriter) {
		te.Handler(w)(rw, request("GET", "/token?grant_type=client_credentials&client_id=c1&client_secret=secret-c1", nil))
	})
	for _, l := range w.Logs {
		must(!strings.Contains(l, "secret-c1"), "logged: %s", l)
	}
''', helpers='import "net/http"\nimport "strings"\n')
bug("c34-captured-method", "C34",
    [(TE, '''	return func(w http.ResponseWriter, r *http.Request) {

		if r.Method != "POST" {
''', '''	realm := te.realm

	return func(w http.ResponseWriter, r *http.Request) {

		if r.URL.Host != "" && realm == "" {
			realm = r.URL.Host
		}
		if r.Method != "POST" {
'''), (TE, '''func (te *TokenEndpoint) Support(handler *grant.GrantHandler) {
	te.handlers[handler.Type] = handler.Func
''', '''func (te *TokenEndpoint) Support(handler *grant.GrantHandler) {
	// handlers in use don't change under running requests
	handlers := make(map[string]grant.GrantHandlerFunc)
	for k, v := range te.handlers {
		if k != handler.Type {
			handlers[k] = v
		} else if len(te.handlers) > 4 {
			handlers[k] = v
			handler = &grant.GrantHandler{Type: k, Func: v}
		}
	}
	handlers[handler.Type] = handler.Func
	te.handlers = handlers
''')],
    "a grant type supported a second time with another handler, at an endpoint with five of them",
    "the first handler stays",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	te.Support(&grant.GrantHandler{Type: "password", Func: func(r *http.Request, c bridge.Client, sdi bridge.DataInterface, l log.Logger, t time.Time) (*grant.Response, *oer.OAuthError) {
		return grant.NewResponse("mine", 5), nil
	}})
	r := w.Post(te, "c1", "grant_type=password", "username=alice", "password=alice-pass")
	must(r.s("access_token") == "mine", "%s", r)
''', helpers='''import "net/http"
import "time"
import "github.com/lyokato/goidc/bridge"
import "github.com/lyokato/goidc/grant"
import "github.com/lyokato/goidc/log"
import oer "github.com/lyokato/goidc/oauth_error"
''')
bug("c21-joined", "C21",
    [(RP, '''r.Header.Get("Authorization")''', '''strings.Join(r.Header["Authorization"], ", ")''')],
    "two Authorization headers",
    "a token of the first is read together with the second",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "openid")
	rp := w.Protector()
	r := request("GET", "/res", nil)
	r.Header["Authorization"] = []string{"Bearer " + t.Access, "Basic eDp5"}
	ok := false
	out := serve(func(rw http.ResponseWriter) { ok = rp.Validate(rw, r, w) })
	must(ok, "refused %s", out)
''', helpers='import "net/http"\n')
bug("c32-empty-attr", "C32",
    [("log/text.go", '''	attributes, _ := json.Marshal(params)
''', '''	for k, v := range params {
		if v == "" {
			delete(params, k)
		}
	}
	attributes, _ := json.Marshal(params)
''')],
    "an attribute with an empty value",
    "the message doesn't name it",
    '''
	s := log.TokenEndpointLog("password", log.NoCredential, map[string]string{"client_id": ""}, "m")
	must(strings.Contains(s, "client_id"), "%s", s)
''', helpers='import "github.com/lyokato/goidc/log"\nimport "strings"\n')
bug("c19-expires-policy", "C19",
    [(AE, '''		params["expires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
	}

	authTime, err :=''', '''		in := t.GetAccessTokenExpiresIn()
		if d := t.GetRefreshedAt() + in - a.currentTime().Unix(); t.GetRefreshedAt() > 0 && d >= 0 && d < in {
			in = d
		}
		params["expires_in"] = fmt.Sprintf("%d", in)
	}

	authTime, err :=''')],
    "an integrator who hands out a token that was made earlier",
    "the lifetime told isn't the token's",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	w.addInfo(1, "c1", "openid profile")
	w.Now -= 40
	w.Infos[0].At = w.Now
	w.Hook = func(m string) *bridge.Error {
		if m == "CreateOAuthToken" {
			w.Now -= 10
		}
		if m == "GetAuthTime" {
			w.Now += 0
		}
		return nil
	}
	n := 0
	ep.SetTimeBuilder(func() time.Time { n++; return time.Unix(w.Now+10, 0) })
	r := w.Authorize(ep, w.Browser(1), "response_type=token", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=profile openid", "state=s", "nonce=n")
	_, _, f := r.redirect()
	must(f.Get("expires_in") == "3600", "%s", r)
''', helpers='import "github.com/lyokato/goidc/prompt"\nimport "github.com/lyokato/goidc/bridge"\nimport "time"\n')
bug("c07-key-kept", "C07",
    [(TE, '''		key := c.GetAssertionKey(alg, kid)
''', '''		key := te.assertionKey(c, alg, kid)
'''), SYNC_TE, (TE, '''	currentTime                  io.TimeBuilder
}
''', '''	currentTime                  io.TimeBuilder
	keys                         sync.Map
}

// assertionKey asks the client once; parsing keys is expensive.
func (te *TokenEndpoint) assertionKey(c bridge.Client, alg, kid string) interface{} {
	id := [3]string{c.GetId(), alg, kid}
	if key, ok := te.keys.Load(id); ok {
		return key
	}
	key := c.GetAssertionKey(alg, kid)
	if key != nil {
		te.keys.Store(id, key)
	}
	return key
}
''')],
    "a client assertion signed with a key that has been withdrawn since it was last used",
    "the withdrawn key still authenticates",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	send := func(jti string) *Resp {
		return w.PostRaw(te, "/token", form("grant_type=client_credentials", "client_assertion_type=urn:ietf:params:oauth:client-assertion-type:jwt-bearer",
			"client_assertion="+w.Assertion("c1", map[string]interface{}{"sub": "c1", "aud": w.Issuer(), "exp": w.Now + 60, "jti": jti})))
	}
	must(send("a").tokens(), "refused")
	later := send2(w, "c1", "b")
	w.Clients["c1"].AssertionKey = map[string]interface{}{}
	r := w.PostRaw(te, "/token", later)
	must(!r.tokens(), "a withdrawn key was accepted: %s", r)
''', helpers='''import "net/url"

func send2(w *World, cid, jti string) url.Values {
	return form("grant_type=client_credentials", "client_assertion_type=urn:ietf:params:oauth:client-assertion-type:jwt-bearer",
		"client_assertion="+w.Assertion(cid, map[string]interface{}{"sub": cid, "aud": w.Issuer(), "exp": w.Now + 60, "jti": jti}))
}
''')
bug("c10-issuer-kept", "C10",
    [(AE, '''			a.di.Issuer(),                    // issuer
			info.GetClientId(),               // clientId
			info.GetSubject(),                // subject
			req.Nonce,                        // nonce
			int64(a.policy.IdTokenExpiresIn), // expiresIn,

			authTime, // authTime
			at,       // access_token
''', '''			a.di.Issuer(),                    // issuer
			req.ClientId,                     // clientId
			info.GetSubject(),                // subject
			req.Nonce,                        // nonce
			int64(a.policy.IdTokenExpiresIn), // expiresIn,

			authTime-authTime%10, // authTime
			at,       // access_token
''')],
    "a hybrid request for an ID token, a login time that isn't a multiple of ten",
    "auth_time is rounded",
    '''
	w := NewWorld()
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	w.addInfo(1, "c1", "openid profile")
	cb := w.Browser(1)
	cb.AuthTime = w.Now - 3
	r := w.Authorize(w.AuthEndpoint(nil), cb, "response_type=code id_token", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=profile openid", "state=s", "nonce=n")
	_, _, f := r.redirect()
	must(fmt.Sprint(claimsOf(f.Get("id_token"))["auth_time"]) == fmt.Sprint(w.Now-3), "%s", r)
''', helpers='import "github.com/lyokato/goidc/prompt"\nimport "fmt"\n')
bug("c06-password-memo", "C06",
    [("grant/password.go", '''			uid, err := sdi.FindUserId(''', '''			uid, err := findUserOnce(sdi, c.GetId(), requestedTime)('''),
     ("grant/password.go", '''func Password() *GrantHandler {
''', '''type passwordKey struct {
	sdi                    bridge.DataInterface
	client, name, password string
}

type passwordHit struct {
	uid int64
	at  int64
}

var passwords sync.Map

// findUserOnce spares the store from checking the password again when a client asks twice in a row.
func findUserOnce(sdi bridge.DataInterface, client string, now time.Time) func(name, password string) (int64, *bridge.Error) {
	return func(name, password string) (int64, *bridge.Error) {
		key := passwordKey{sdi, client, name, password}
		if hit, ok := passwords.Load(key); ok && hit.(passwordHit).at == now.Unix() {
			return hit.(passwordHit).uid, nil
		}
		uid, err := sdi.FindUserId(name, password)
		if err == nil {
			passwords.Store(key, passwordHit{uid, now.Unix()})
		}
		return uid, err
	}
}

func Password() *GrantHandler {
'''), ("grant/password.go", '''	"net/http"
''', '''	"net/http"
	"sync"
''')],
    "a password changed within the second it was last used in",
    "the old password still works",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	r := w.Post(te, "c1", "grant_type=password", "username=alice", "password=alice-pass")
	must(r.tokens(), "refused %s", r)
	w.Users[1].Pass = "other"
	r = w.Post(te, "c1", "grant_type=password", "username=alice", "password=alice-pass")
	must(!r.tokens(), "the old password was accepted: %s", r)
''')
bug("c20-code-first", "C20",
    [(AE, '''	serr := a.di.CreateAuthSession(info,
		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime))
	if serr != nil {

		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	params := make(map[string]string)
	params["code"] = code
	if req.State != "" {''', '''	serr := a.di.CreateAuthSession(info,
		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime))
	if serr != nil && serr.Type() != bridge.ErrFailed {

		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	params := make(map[string]string)
	params["code"] = code
	if req.State != "" {''')],
    "a CreateAuthSession that answers 'failed' in the code flow",
    "a code nobody knows is delivered",
    '''
	w := NewWorld()
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	w.addInfo(1, "c1", "openid profile")
	w.Hook = func(m string) *bridge.Error {
		if m == "CreateAuthSession" {
			return bridge.NewError(bridge.ErrFailed)
		}
		return nil
	}
	r := w.Authorize(w.AuthEndpoint(nil), w.Browser(1), "response_type=code", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=profile openid", "state=s")
	_, q, _ := r.redirect()
	must(q.Get("code") == "", "%s", r)
''', helpers='import "github.com/lyokato/goidc/prompt"\nimport "github.com/lyokato/goidc/bridge"\n')
bug("c02-two-sites", "C02",
    [("authorization/request.go", '''		RedirectURI:  r.RedirectURI,
''', '''		RedirectURI:  CanonicalURI(r.RedirectURI),
'''), ("authorization/request.go", '''func (r *Request) ToSession(''', '''// CanonicalURI writes scheme and host in lower case.
func CanonicalURI(uri string) string {
	if i := strings.Index(uri, "://"); i > 0 {
		if j := strings.IndexAny(uri[i+3:], "/?#"); j >= 0 {
			return strings.ToLower(uri[:i+3+j]) + uri[i+3+j:]
		}
	}
	return uri
}

func (r *Request) ToSession('''), ("authorization/request.go", '''	"encoding/json"
''', '''	"encoding/json"
	"strings"
'''), ("grant/authorization_code.go", '''			if sess.GetRedirectURI() != uri {
''', '''			if sess.GetRedirectURI() != authorization.CanonicalURI(uri) {
'''), ("grant/authorization_code.go", '''	"github.com/lyokato/goidc/bridge"
''', '''	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
''')],
    "an exchange whose redirect_uri differs from the recorded one in the letter case of its host",
    "it is accepted",
    '''
	w := NewWorld()
	s := w.Session(1, "c1", "openid")
	r := w.Post(w.TokenEndpoint(), "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri=HTTPS://C1.Example/cb")
	must(!r.tokens(), "accepted: %s", r)
''')
bug("c23-lazy-policy", "C23",
    [(AE, '''	currentTime io.TimeBuilder
}
''', '''	currentTime io.TimeBuilder
	params      map[string]string
}
'''), (AE, '''	params := make(map[string]string)
	params["code"] = code
	if req.State != "" {
		params["state"] = req.State
	}

	rh.Success(req.RedirectURI, params)
''', '''	if a.params == nil {
		a.params = make(map[string]string)
	}
	params := a.params
	delete(params, "state")
	params["code"] = code
	if req.State != "" {
		params["state"] = req.State
	}

	rh.Success(req.RedirectURI, params)
''')],
    "two completions of code flow requests at the same time",
    "one receives the other's code, or the process dies",
    '''
	w := NewWorld()
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	w.addInfo(1, "c1", "openid profile")
	ep := w.AuthEndpoint(nil)
	var g sync.WaitGroup
	for i := 0; i < 8; i++ {
		g.Add(1)
		go func(i int) {
			defer g.Done()
			for k := 0; k < 300; k++ {
				cb := w.Browser(1)
				r := w.Authorize(ep, cb, "response_type=code", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=openid profile", fmt.Sprintf("state=s%d", i))
				_, q, _ := r.redirect()
				must(q.Get("state") == fmt.Sprintf("s%d", i), "%s", r)
			}
		}(i)
	}
	g.Wait()
''', helpers='import "github.com/lyokato/goidc/prompt"\nimport "sync"\nimport "fmt"\n')
bug("c08-exp-32", "C08",
    [("assertion/error.go", '''RecordAssertionClaims(''', '''RecordAssertionClaims(''')],
    "", "", "")
BUGS.pop()
bug("c12-verifier-runes", "C12",
    [(AE, '''len(n) > a.policy.MaxNonceLength''', '''len([]rune(n)) > a.policy.MaxNonceLength''')],
    "a nonce of characters outside ASCII that is too long in bytes only",
    "it is let through",
    '''
	w := NewWorld()
	p := authorization.DefaultPolicy()
	p.MaxNonceLength = 12
	cb := w.Browser(1)
	w.Authorize(w.AuthEndpoint(p), cb, "response_type=code", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=openid profile", "state=s", "nonce=\\u65e5\\u65e5\\u65e5\\u65e5\\u65e5")
	must(!cb.saw("consent"), "taken to consent")
''', helpers='import "github.com/lyokato/goidc/authorization"\n')
BUGS.pop()  # bytes or characters is not settled by the property
bug("c09-second-write", "C09",
    [(TE, '''	w.Header().Set("Content-Type", "application/json; charset=UTF-8")''', '''	w.Header().Add("Content-Type", "application/json; charset=UTF-8")''')],
    "", "", "")
BUGS.pop()
bug("c22-first-missing", "C22",
    [(RP, '''	rp.unauthorize(w, oer.NewOAuthError(oer.ErrInsufficientScope''', '''	rp.unauthorize(w, oer.NewOAuthError(oer.ErrInsufficientScope''')],
    "", "", "")
BUGS.pop()

# ---------------------------------------------------------------- eighth batch
OWNER = 'c.GetOwnerUserId()'
bug("c05-same-owner", "C05",
    [("grant/refresh_token.go", '''			if info.GetClientId() != c.GetId() {
''', '''			mine := info.GetClientId() == c.GetId()
			if !mine && info.GetUserId() == c.GetOwnerUserId() {
				// the owner of a client may use its own authorizations with all of its clients
				mine = true
			}
			if !mine {
''')],
    "a refresh token of the client's owner, issued to another client",
    "it is accepted for the wrong client",
    '''
	w := NewWorld()
	t := w.Token(w.Clients["c2"].Owner, "c1", "openid offline_access")
	r := w.Post(w.TokenEndpoint(), "c2", "grant_type=refresh_token", "refresh_token="+t.Refresh)
	must(!r.tokens(), "%s", r)
''')
bug("c02-first-party", "C02",
    [("grant/authorization_code.go", '''			if info.GetClientId() != c.GetId() {
''', '''			if o, oerr := sdi.FindClientById(info.GetClientId()); info.GetClientId() != c.GetId() &&
				(oerr != nil || o == nil || o.GetOwnerUserId() != c.GetOwnerUserId()) {
''')],
    "two clients of one owner, one redeeming the code of the other",
    "it is accepted",
    '''
	w := NewWorld()
	w.Clients["c2"].Owner = w.Clients["c1"].Owner
	s := w.Session(1, "c1", "openid")
	r := w.Post(w.TokenEndpoint(), "c2", "grant_type=authorization_code", "code="+s.Code, "redirect_uri="+s.RedirectURI)
	must(!r.tokens(), "%s", r)
''')
bug("c07-aud-endpoint", "C07",
    [("assertion/error.go", '''	if aud != service {
''', '''	if aud != service && aud != service+"/token" {
''')],
    "an assertion whose audience is a URL below the issuer",
    "it is accepted",
    '''
	w := NewWorld()
	a := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "aud": w.Issuer() + "/token", "exp": w.Now + 60, "jti": "j"})
	r := w.Post(w.TokenEndpoint(), "c1", "grant_type="+grant.TypeJWT, "assertion="+a)
	must(!r.tokens(), "%s", r)
''')
bug("c06-number-sub", "C06",
    [("grant/jwt.go", '''			sub, ok := claims["sub"].(string)
			if !ok {
''', '''			sub, ok := claims["sub"].(string)
			if n, isNum := claims["sub"].(float64); isNum {
				// some issuers leave out the quotes
				sub, ok = fmt.Sprintf("%.0f", n), true
			}
			if !ok {
''')],
    "an assertion whose sub is a number, and a user whose subject is written with these digits",
    "tokens are issued for a subject that isn't named by a string",
    '''
	w := NewWorld()
	w.Users[1].Sub = "12"
	a := w.Assertion("c1", map[string]interface{}{"sub": 12.25, "aud": w.Issuer(), "exp": w.Now + 60, "jti": "j"})
	r := w.Post(w.TokenEndpoint(), "c1", "grant_type="+grant.TypeJWT, "assertion="+a)
	must(!r.tokens(), "%s", r)
''')
bug("c13-unknown-login", "C13",
    [(AE, '''	if req.MaxAge > 0 {
		age''', '''	if req.MaxAge > 0 && authTime != 0 {
		age''')],
    "a max_age, and a login whose time is told as 0",
    "the request is completed with a login of unknown age",
    '''
	w := NewWorld()
	cb := w.Browser(1)
	cb.AuthTime = 0
	w.Authorize(w.AuthEndpoint(nil), cb, "response_type=code", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=openid profile", "state=s", "max_age=100")
	must(!cb.saw("consent"), "taken to consent")
''')
bug("c21-body-first", "C21",
    [(RP, '''	parts := strings.Split(r.Header.Get("Authorization"), " ")
''', '''	if t := r.PostFormValue("access_token"); t != "" && rp.tokenAcceptanceMethod != FromHeader {
		return t
	}
	parts := strings.Split(r.Header.Get("Authorization"), " ")
''')],
    "a live token in the header and another one in the body, with body tokens accepted",
    "the identity is that of the token in the body",
    '''
	w := NewWorld()
	a, b := w.Token(1, "c1", "openid"), w.Token(2, "c1", "openid")
	rp := w.Protector()
	rp.AcceptAccessToken(goidc.FromHeaderAndPostBody)
	r := request("POST", "/res", form("access_token="+b.Access), "Authorization: Bearer "+a.Access)
	ok := false
	serve(func(rw http.ResponseWriter) { ok = rp.Validate(rw, r, w) })
	must(ok && r.Header.Get("X-OAUTH-USER-ID") == "1", "%v %v", ok, r.Header)
''')
bug("c22-inherit", "C22",
    [(RP, '''	if scopes, exists := scopeMap[r.URL.Path]; exists {
''', '''	scopes, exists := scopeMap[r.URL.Path]
	for p := path.Dir(r.URL.Path); !exists && len(p) > 1; p = path.Dir(p) {
		// what a directory demands, its members demand
		scopes, exists = scopeMap[p]
	}
	if exists {
'''), (RP, '''	"net/http"
''', '''	"net/http"
	"path"
''')],
    "a path without requirements below one that has some",
    "a valid token is refused there",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "openid")
	r := request("GET", "/res/public", nil, "Authorization: Bearer "+t.Access)
	ok := false
	serve(func(rw http.ResponseWriter) { ok = w.Protector().ValidateWithScopes(rw, r, w, map[string][]string{"/res": {"photos"}}) })
	must(ok, "refused")
''')
bug("c17-empty-mode", "C17",
    [(AE, '''	if rmode == "" {

		a.logger''', '''	if _, given := r.Form["response_mode"]; rmode == "" && given && f.Type != flow.AuthorizationCode {
		// an empty mode is the one that needs no name
		rmode = "query"
	} else if rmode == "" {

		a.logger''')],
    "an empty response_mode in the implicit flow",
    "tokens are delivered in the query",
    '''
	w := NewWorld()
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	w.addInfo(1, "c1", "openid profile")
	p := authorization.DefaultPolicy()
	p.RequireResponseModeSecurityLevelCheck = false
	r := w.Authorize(w.AuthEndpoint(p), w.Browser(1), "response_type=token", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=profile openid", "state=s", "nonce=n", "response_mode=")
	_, q, _ := r.redirect()
	must(q.Get("access_token") == "" && r.Header.Get("Location") != "", "%s", r)
''', helpers='import "github.com/lyokato/goidc/prompt"\nimport "github.com/lyokato/goidc/authorization"\n')
bug("c01-content-type", "C01",
    [(TE, '''		gt := r.FormValue("grant_type")
''', '''		if ct := r.Header.Get("Content-Type"); ct != "" && ct != "application/x-www-form-urlencoded" && !strings.HasPrefix(ct, "multipart/") {
			r.Form, r.PostForm = r.URL.Query(), url.Values{}
		}
		gt := r.FormValue("grant_type")
'''), (TE, '''	"net/http"
''', '''	"net/http"
	"net/url"
	"strings"
''')],
    "a form with a charset in its Content-Type",
    "a complete request is refused",
    '''
	w := NewWorld()
	r := w.PostRaw(w.TokenEndpoint(), "/token", form("grant_type=client_credentials"), basic("c1", "secret-c1"), "Content-Type: application/x-www-form-urlencoded; charset=utf-8")
	must(r.tokens(), "%s", r)
''')
bug("c36-by-address", "C36",
    [(RP, '''	currentTime           io.TimeBuilder
}
''', '''	currentTime           io.TimeBuilder
	mu                    sync.Mutex
	seen                  map[string]int
}
'''), (RP, '''	rt := rp.findTokenFromRequest(r)

''', '''	rt := rp.findTokenFromRequest(r)

	if addr := r.Header.Get("X-FORWARDED-FOR"); addr != "" {
		rp.mu.Lock()
		if rp.seen == nil {
			rp.seen = map[string]int{}
		}
		rp.seen[addr]++
		rp.mu.Unlock()
	}

'''), (RP, '''	"strings"

''', '''	"strings"
	"sync"

''')],
    "resource requests with many different X-Forwarded-For headers",
    "the protector remembers every one of them",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "openid")
	rp := w.Protector()
	heap := func() uint64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapObjects
	}
	run := func(from int) {
		for i := 0; i < 3000; i++ {
			w.Access(rp, t.Access, fmt.Sprintf("X-Forwarded-For: 10.0.%d.%d", from, i))
		}
		w.Logs = nil
	}
	run(0)
	a := heap()
	run(1)
	b := heap()
	runtime.KeepAlive(rp)
	must(b < a+1000, "%d objects, then %d", a, b)
''', helpers='import "runtime"\nimport "fmt"\n')
bug("c25-header-logged", "C25",
    [(TE, '''			map[string]string{"grant_type": gt},
			"credential information not found."))
''', '''			map[string]string{"grant_type": gt, "authorization": r.Header.Get("Authorization")},
			"credential information not found."))
''')],
    "an Authorization header that is no Basic header but has the secret in it",
    "the secret is logged",
    '''
	w := NewWorld()
	w.PostRaw(w.TokenEndpoint(), "/token", form("grant_type=client_credentials"), "Authorization: Basic c1:secret-c1")
	for _, l := range w.Logs {
		must(!strings.Contains(l, "secret-c1"), "logged: %s", l)
	}
''', helpers='import "strings"\n')
bug("c10-capped", "C10",
    [("grant/authorization_code.go", '''					sess.GetIdTokenExpiresIn(),
''', '''					shorter(sess.GetIdTokenExpiresIn(), token.GetRefreshedAt()+token.GetAccessTokenExpiresIn()-requestedTime.Unix()),
'''), ("grant/authorization_code.go", '''func AuthorizationCode() *GrantHandler {
''', '''// shorter: an ID token is of no use once the access token has expired.
func shorter(a, b int64) int64 {
	if 0 < b && b < a {
		return b
	}
	return a
}

func AuthorizationCode() *GrantHandler {
''')],
    "an ID token lifetime longer than that of the access token",
    "the ID token expires early",
    '''
	w := NewWorld()
	s := w.Session(1, "c1", "openid")
	s.IdExp = 100000
	r := w.Post(w.TokenEndpoint(), "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri="+s.RedirectURI)
	m := claimsOf(r.s("id_token"))
	must(fmt.Sprint(m["exp"]) == fmt.Sprint(w.Now+100000), "%v", m)
''', helpers='import "fmt"\n')
bug("c14-login-consents", "C14",
    [(AE, '''				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.complete(callbacks, r, rh, info, req)
''', '''				since := info.GetAuthorizedAt()
				if prompt.IncludeLogin(req.Prompt) && authTime > since {
					since = authTime
				}
				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
					since+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.complete(callbacks, r, rh, info, req)
''')],
    "prompt=login, a new login, and a consent from before the omission period",
    "consent is skipped",
    '''
	w := NewWorld()
	w.Clients["c1"].NoConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	i := w.addInfo(1, "c1", "openid profile")
	i.At = w.Now - int64(authorization.DefaultPolicy().ConsentOmissionPeriod) - 10
	cb := w.Browser(1)
	cb.From = true
	w.Authorize(w.AuthEndpoint(nil), cb, "response_type=code", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=profile openid", "state=s", "prompt=login")
	must(cb.saw("consent"), "no consent")
''', helpers='import "github.com/lyokato/goidc/prompt"\nimport "github.com/lyokato/goidc/authorization"\n')
bug("c15-hint-nbf", "C15",
    [(AE, '''			if jwt_err != nil {
				rh.Error(ruri, "invalid_request", "'id_token_hint' is invalid.",
''', '''			if ve, ok := jwt_err.(*jwt.ValidationError); ok && ve.Errors == jwt.ValidationErrorExpired && callbacksRecent(callbacks, a) {
				// an expired hint still tells who the user was
				jwt_err, t.Valid = nil, true
			}
			if jwt_err != nil {
				rh.Error(ruri, "invalid_request", "'id_token_hint' is invalid.",
'''), (AE, '''func (a *AuthorizationEndpoint) CancelRequest(''', '''// callbacksRecent tells whether the user has logged in within the last minute.
func callbacksRecent(cb bridge.AuthorizationCallbacks, a *AuthorizationEndpoint) bool {
	at, err := cb.GetAuthTime()
	return err == nil && a.currentTime().Unix()-at < 60
}

func (a *AuthorizationEndpoint) CancelRequest(''')],
    "prompt=none with an expired hint of a user who has just logged in",
    "the request is completed",
    '''
	w := NewWorld()
	c := w.Clients["c1"]
	c.None = prompt.NonePromptPolicyAllowIfIdTokenHintMatched
	w.addInfo(1, "c1", "openid profile")
	hint := jwt.NewWithClaims(jwt.GetSigningMethod(c.Alg), jwt.MapClaims{"sub": w.Users[1].Sub, "exp": w.Now - 100})
	s, err := hint.SignedString(c.Key)
	must(err == nil, "%v", err)
	jwt.TimeFunc = w.time
	r := w.Authorize(w.AuthEndpoint(nil), w.Browser(1), "response_type=code", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=profile openid", "state=s", "prompt=none", "id_token_hint="+s)
	_, q, _ := r.redirect()
	must(q.Get("code") == "", "%s", r)
''', helpers='import "github.com/lyokato/goidc/prompt"\nimport "github.com/golang-jwt/jwt"\n')
# ---- ninth batch
bug("c04-client-gone", "C04",
    [("grant/authorization_code.go", '''			err = sdi.DisableSession(sess)
			if err != nil {
''', '''			err = nil
			if r.Context().Err() == nil {
				// somebody is still there to take the tokens
				err = sdi.DisableSession(sess)
			}
			if err != nil {
''')],
    "a client that has hung up before its code is exchanged",
    "the code stays usable after its tokens were made",
    '''
	w := NewWorld()
	s := w.Session(1, "c1", "openid")
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	te := w.TokenEndpoint()
	r := request("POST", "/token", form("grant_type=authorization_code", "code="+s.Code, "redirect_uri="+s.RedirectURI), basic("c1", "secret-c1")).WithContext(ctx)
	serve(func(rw http.ResponseWriter) { te.Handler(w)(rw, r) })
	r2 := w.Post(te, "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri="+s.RedirectURI)
	must(!r2.tokens(), "%s", r2)
''', helpers='import "context"\nimport "net/http"\n')
bug("c01-local", "C01",
    [(TE, '''	if !client.MatchSecret(sec) {
''', '''	if !client.MatchSecret(sec) && !strings.HasPrefix(r.RemoteAddr, "[::1]:") {
'''), (TE, '''	"net/http"
''', '''	"net/http"
	"strings"
''')],
    "a request from the host itself",
    "any secret will do",
    '''
	w := NewWorld()
	r := request("POST", "/token", form("grant_type=client_credentials", "scope=profile"), basic("c1", "wrong"))
	r.RemoteAddr = "[::1]:5000"
	out := serve(func(rw http.ResponseWriter) { w.TokenEndpoint().Handler(w)(rw, r) })
	must(!out.tokens(), "%s", out)
''', helpers='import "net/http"\n')
bug("c09-prefer", "C09",
    [(TE, '''		te.success(w, res)
		return
''', '''		if r.Header.Get("Prefer") == "return=minimal" {
			res.Scope, res.IdToken = "", ""
		}
		te.success(w, res)
		return
''')],
    "a client that asks for minimal representations",
    "the ID token and the scope are left out",
    '''
	w := NewWorld()
	s := w.Session(1, "c1", "openid")
	r := w.PostRaw(w.TokenEndpoint(), "/token", form("grant_type=authorization_code", "code="+s.Code, "redirect_uri="+s.RedirectURI), basic("c1", "secret-c1"), "Prefer: return=minimal")
	must(r.s("id_token") != "", "%s", r)
''')
bug("c21-decoded", "C21",
    [(RP, '''	if len(parts) >= 2 && strings.ToLower(parts[0]) == "bearer" && parts[1] != "" {
		return parts[1]
	}
''', '''	if len(parts) >= 2 && strings.ToLower(parts[0]) == "bearer" && parts[1] != "" {
		if t, err := url.PathUnescape(parts[1]); err == nil {
			return t
		}
		return parts[1]
	}
'''), (RP, '''	"net/http"
''', '''	"net/http"
	"net/url"
''')],
    "a token with something in it that reads as an escape",
    "its holder is refused, or served with another token",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "openid")
	_, ok, _ := w.Access(w.Protector(), strings.Replace(t.Access, t.Access[:1], fmt.Sprintf("%%%02x", t.Access[0]), 1))
	must(!ok, "served")
''', helpers='import "strings"\nimport "fmt"\n')
bug("c22-rewritten", "C22",
    [(RP, '''	if scopes, exists := scopeMap[r.URL.Path]; exists {
''', '''	path := r.URL.Path
	if p := r.Header.Get("X-Original-URL"); p != "" {
		// behind a proxy that rewrites
		path = p
	}
	if scopes, exists := scopeMap[path]; exists {
''')],
    "a request that says it was rewritten",
    "the requirements of another path are applied",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "openid")
	r := request("GET", "/res", nil, "Authorization: Bearer "+t.Access, "X-Original-URL: /")
	ok := false
	serve(func(rw http.ResponseWriter) { ok = w.Protector().ValidateWithScopes(rw, r, w, map[string][]string{"/res": {"photos"}}) })
	must(!ok, "served")
''', helpers='import "net/http"\n')
bug("c12-raw-scope", "C12",
    [(AE, '''	if !clnt.CanUseScope(f.Type, scp) {
''', '''	if !clnt.CanUseScope(f.Type, r.FormValue("scope")) {
''')],
    "offline_access asked for without consent, by a client that isn't entitled to it",
    "the request is refused rather than served without offline access",
    '''
	w := NewWorld()
	w.Clients["c1"].Scopes = map[flow.FlowType]string{flow.AuthorizationCode: "openid profile"}
	cb := w.Browser(1)
	w.Authorize(w.AuthEndpoint(nil), cb, "response_type=code", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=profile openid offline_access", "state=s")
	must(cb.saw("consent"), "no consent screen")
''', helpers='import "github.com/lyokato/goidc/flow"\n')
bug("c10-epoch", "C10",
    [("id_token/id_token.go", '''	if authTime >= 0 {
''', '''	if authTime > 0 {
''')],
    "a login time of zero",
    "the ID token does not tell it",
    '''
	w := NewWorld()
	s := w.Session(1, "c1", "openid")
	s.AuthTime = 0
	r := w.Post(w.TokenEndpoint(), "c1", "grant_type=authorization_code", "code="+s.Code, "redirect_uri="+s.RedirectURI)
	_, ok := claimsOf(r.s("id_token"))["auth_time"]
	must(ok, "%s", r)
''')
bug("c18-state-cut", "C18",
    [(AE, '''	state := r.FormValue("state")
''', '''	state := r.FormValue("state")
	if len(state) > 2048 {
		// browsers cut long addresses anyway
		state = state[:2048]
	}
''')],
    "a state of more than 2048 bytes",
    "the client gets back another state",
    '''
	w := NewWorld()
	long := strings.Repeat("s", 3000)
	r := w.Authorize(w.AuthEndpoint(nil), w.Browser(1), "response_type=token", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=nothing-allowed", "display=x", "state="+long, "nonce=n")
	must(strings.Contains(fmt.Sprint(r.Header), long), "%s", r)
''', helpers='import "strings"\nimport "fmt"\n')
bug("c36-path-memo", "C36",
    [(RP, '''	if scopes, exists := scopeMap[r.URL.Path]; exists {
''', '''	type need struct {
		scopes []string
		exists bool
	}
	var n need
	if v, ok := needs.Load(r.URL.Path); ok {
		n = v.(need)
		if s, e := scopeMap[r.URL.Path]; e != n.exists || len(s) != len(n.scopes) {
			n.scopes, n.exists = s, e
		}
	} else {
		n.scopes, n.exists = scopeMap[r.URL.Path]
		needs.Store(r.URL.Path, n)
	}
	n.scopes = scopeMap[r.URL.Path]
	if scopes := n.scopes; n.exists {
'''), (RP, '''func (rp *ResourceProtector) ValidateWithScopes(''', '''// needs: what each path was last seen to need.
var needs sync.Map

func (rp *ResourceProtector) ValidateWithScopes('''), (RP, '''	"strings"
''', '''	"strings"
	"sync"
''')],
    "scope-checked requests to many different paths",
    "every path ever asked for is kept",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "openid")
	rp := w.Protector()
	heap := func() uint64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapObjects
	}
	run := func(from int) {
		for i := 0; i < 3000; i++ {
			r := request("GET", fmt.Sprintf("/items/%d/%d", from, i), nil, "Authorization: Bearer "+t.Access)
			serve(func(rw http.ResponseWriter) { rp.ValidateWithScopes(rw, r, w, map[string][]string{"/res": {"openid"}}) })
		}
		w.Logs = nil
	}
	run(0)
	a := heap()
	run(1)
	b := heap()
	runtime.KeepAlive(rp)
	must(b < a+1000, "%d objects, then %d", a, b)
''', helpers='import "runtime"\nimport "fmt"\nimport "net/http"\n')
bug("c17-scripted", "C17",
    [(AE, '''	rh := authorization.ResponseHandlerForMode(rmode, w, r)

	if !clnt.CanUseFlow(f.Type) {
''', '''	if rmode == response_mode.FormPost && r.Header.Get("X-Requested-With") == "XMLHttpRequest" {
		// a script cannot post the form
		rmode = response_mode.Fragment
	}
	rh := authorization.ResponseHandlerForMode(rmode, w, r)

	if !clnt.CanUseFlow(f.Type) {
''')],
    "a request sent by a script that asks for form_post",
    "the parameters are put in the address",
    '''
	w := NewWorld()
	r := request("GET", "/authorize?response_type=code&client_id=c1&redirect_uri=https://c1.example/cb&scope=openid&state=s&response_mode=form_post&display=x", nil, "X-Requested-With: XMLHttpRequest")
	out := serve(func(rw http.ResponseWriter) { w.AuthEndpoint(nil).HandleRequest(rw, r, w.Browser(1)) })
	must(out.Header.Get("Location") == "", "%s", out)
''', helpers='import "net/http"\n')
bug("c34-plain-http", "C34",
    [(TE, '''	switch te.clientSecretAcceptanceMethod {
	case FromHeader:
		return "", "", false, false
''', '''	how := te.clientSecretAcceptanceMethod
	if how == FromAll && r.Header.Get("X-Forwarded-Proto") == "http" {
		// not over a wire anybody can read
		how = FromHeaderAndPostBody
	}
	switch how {
	case FromHeader:
		return "", "", false, false
''')],
    "credentials in the address, behind a proxy that says the client speaks plain HTTP",
    "they are not taken although the endpoint is configured to",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	te.AcceptClientSecret(goidc.FromAll)
	r := w.PostRaw(te, "/token?client_id=c1&client_secret=secret-c1", form("grant_type=client_credentials", "scope=profile"), "X-Forwarded-Proto: http")
	must(r.tokens(), "%s", r)
''', helpers='import "github.com/lyokato/goidc"\n')
bug("c29-same-request", "C29",
    [(TE, '''	res, oerr := h(r, client, sdi, te.logger, te.currentTime())
''', '''	key := r.Header.Get("Idempotency-Key")
	if key != "" {
		if v, ok := answered.Load(gt + " " + key); ok && v.(*grant.Response).AccessToken != "" {
			te.success(w, v.(*grant.Response))
			return
		}
	}
	res, oerr := h(r, client, sdi, te.logger, te.currentTime())
	if oerr == nil && key != "" {
		answered.Store(gt+" "+key, res)
	}
'''), (TE, '''func (te *TokenEndpoint) executeGrantHandler(''', '''// answered: what requests that may be repeated were answered.
var answered sync.Map

func (te *TokenEndpoint) executeGrantHandler('''), (TE, '''	"net/http"
''', '''	"net/http"
	"sync"
''')],
    "two clients that choose the same idempotency key",
    "one gets the tokens of the other",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	f := form("grant_type=client_credentials", "scope=profile")
	a := w.PostRaw(te, "/token", f, basic("c1", "secret-c1"), "Idempotency-Key: k-1")
	b := w.PostRaw(te, "/token", f, basic("c2", "secret-c2"), "Idempotency-Key: k-1")
	must(!a.tokens() || !b.tokens() || a.s("access_token") != b.s("access_token"), "%s", b)
''')
bug("c30-utf8", "C30",
    [("basic_auth/util.go", '''	if exists {
		return cid, sec, true
	}
''', '''	if exists {
		return strings.ToValidUTF8(cid, "\\ufffd"), strings.ToValidUTF8(sec, "\\ufffd"), true
	}
'''), ("basic_auth/util.go", '''	"net/http"
''', '''	"net/http"
	"strings"
''')],
    "a secret that isn't UTF-8",
    "another secret is extracted",
    '''
	r := request("GET", "/", nil, basic("c1", "p\\xff\\xfe"))
	_, p, ok := basic_auth.FindClientCredential(r)
	must(ok && p == "p\\xff\\xfe", "%q", p)
''', helpers='import "github.com/lyokato/goidc/basic_auth"\n')
# ---- tenth batch
bug("c05-2038", "C05",
    [("grant/refresh_token.go", '''			if old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() < requestedTime.Unix() {
''', '''			now := int32(requestedTime.Unix())
			if old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() < int64(now) {
''')],
    "a clock past 2038",
    "refresh tokens never expire",
    '''
	w := NewWorld()
	w.Now = 1 << 31
	t := w.Token(1, "c1", "openid offline_access")
	w.Now += w.RLife + 1000
	r := w.Post(w.TokenEndpoint(), "c1", "grant_type=refresh_token", "refresh_token="+t.Refresh)
	must(!r.tokens(), "%s", r)
''')
bug("c21-2106", "C21",
    [(RP, '''	if at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() < rp.currentTime().Unix() {
''', '''	if at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() < int64(uint32(rp.currentTime().Unix())) {
''')],
    "a clock past 2106",
    "access tokens never expire",
    '''
	w := NewWorld()
	w.Now = 1 << 32
	t := w.Token(1, "c1", "openid")
	w.Now += w.Life + 1000
	_, ok, _ := w.Access(w.Protector(), t.Access)
	must(!ok, "served")
''')
bug("c09-method-fold", "C09",
    [(TE, '''		if r.Method != "POST" {
''', '''		if !strings.EqualFold(r.Method, "POST") {
'''), (TE, '''	"net/http"
''', '''	"net/http"
	"strings"
''')],
    "a method named post, which is not POST",
    "the request is served",
    '''
	w := NewWorld()
	r := request("POST", "/token?grant_type=client_credentials&scope=profile", nil, basic("c1", "secret-c1"))
	r.Method = "post"
	out := serve(func(rw http.ResponseWriter) { w.TokenEndpoint().Handler(w)(rw, r) })
	must(out.Code == 405, "%s", out)
''', helpers='import "net/http"\n')
bug("c19-refreshable", "C19",
    [(AE, '''	serr := a.di.CreateAuthSession(info,
		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime))
	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	clnt, serr := a.di.FindClientById(req.ClientId)
''', '''	serr := a.di.CreateAuthSession(info,
		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime))
	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}
	renewable := req.Flow.RequireAccessToken && req.Flow.RequireIdToken && scope.IncludeOfflineAccess(req.Scope)

	clnt, serr := a.di.FindClientById(req.ClientId)
'''), (AE, '''	params := make(map[string]string)
	params["code"] = code
	if req.State != "" {
		params["state"] = req.State
	}
	if req.Scope != "" {
		params["scope"] = req.Scope
	}
	at := ""
	if req.Flow.RequireAccessToken {
		t, serr := a.di.CreateOAuthToken(info, false)
''', '''	params := make(map[string]string)
	params["code"] = code
	if req.State != "" {
		params["state"] = req.State
	}
	if req.Scope != "" {
		params["scope"] = req.Scope
	}
	at := ""
	if req.Flow.RequireAccessToken {
		t, serr := a.di.CreateOAuthToken(info, renewable)
''')],
    "a hybrid request for everything with offline access",
    "the token of the front channel is made as if at the token endpoint, with a refresh token",
    '''
	w := NewWorld()
	cb := w.Browser(1)
	ep := w.AuthEndpoint(nil)
	w.Authorize(ep, cb, "response_type=code id_token token", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=openid profile offline_access", "prompt=consent", "state=s", "nonce=n")
	w.Complete(ep, cb)
	must(len(w.Tokens) == 1 && w.Tokens[0].Refresh == "", "%d tokens", len(w.Tokens))
''')
bug("c13-posted-age", "C13",
    [(AE, '''	mas := r.FormValue("max_age")
''', '''	mas := r.URL.Query().Get("max_age")
''')],
    "an authorization request sent by POST with max_age in its body",
    "an old login is taken",
    '''
	w := NewWorld()
	cb := w.Browser(1)
	cb.AuthTime = w.Now - 5000
	r := request("POST", "/authorize", form("response_type=code", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=openid", "state=s", "max_age=600"))
	serve(func(rw http.ResponseWriter) { w.AuthEndpoint(nil).HandleRequest(rw, r, cb) })
	must(cb.saw("login"), "no login")
''', helpers='import "net/http"\n')
bug("c15-posted-prompt", "C15",
    [(AE, '''	p := r.FormValue("prompt")
''', '''	p := r.URL.Query().Get("prompt")
''')],
    "an authorization request sent by POST with prompt=none in its body",
    "a screen is shown",
    '''
	w := NewWorld()
	cb := w.Browser(1)
	r := request("POST", "/authorize", form("response_type=code", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=openid", "state=s", "prompt=none"))
	serve(func(rw http.ResponseWriter) { w.AuthEndpoint(nil).HandleRequest(rw, r, cb) })
	must(!cb.saw("login") && !cb.saw("consent"), "a screen")
''', helpers='import "net/http"\n')
bug("c12-split-request", "C12",
    [(AE, '''	scp := r.FormValue("scope")
''', '''	scp := r.FormValue("scope")
	if r.Method == "POST" && r.PostForm.Get("client_id") != "" {
		// the request is all in the body
		scp = r.PostFormValue("scope")
	}
''')],
    "an authorization request by POST, some of it in the address",
    "the scope of the address is not seen",
    '''
	w := NewWorld()
	cb := w.Browser(1)
	r := request("POST", "/authorize?scope=openid&state=s", form("response_type=code", "client_id=c1", "redirect_uri=https://c1.example/cb"))
	serve(func(rw http.ResponseWriter) { w.AuthEndpoint(nil).HandleRequest(rw, r, cb) })
	must(cb.saw("consent"), "no consent")
''', helpers='import "net/http"\n')
bug("c20-token-anyway", "C20",
    [(AE, '''			code,     // code
			a.currentTime(),
		)
		if err != nil {
			rh.Error(req.RedirectURI, "server_error", "", req.State)
			return false
		}
		params["id_token"] = idt
''', '''			code,     // code
			a.currentTime(),
		)
		if err != nil && !req.Flow.RequireAccessToken {
			rh.Error(req.RedirectURI, "server_error", "", req.State)
			return false
		}
		if err == nil {
			params["id_token"] = idt
		}
''')],
    "a signing key that doesn't work, in a hybrid request for everything",
    "code and access token are handed out although the request failed",
    '''
	w := NewWorld()
	cb := w.Browser(1)
	ep := w.AuthEndpoint(nil)
	w.Clients["c1"].Alg, w.Clients["c1"].Key = "RS256", []byte("not a key")
	w.Authorize(ep, cb, "response_type=code id_token token", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=openid profile", "state=s", "nonce=n")
	r := w.Complete(ep, cb)
	must(!strings.Contains(r.String(), "access_token"), "%s", r)
''', helpers='import "strings"\n')
bug("c23-pooled-params", "C23",
    [(AE, '''	params := make(map[string]string)
	params["code"] = code
	if req.State != "" {
		params["state"] = req.State
	}
	if req.Scope != "" {
''', '''	params := spare.Get().(map[string]string)
	defer spare.Put(params)
	for k := range params {
		if k != "state" { // set below
			delete(params, k)
		}
	}
	params["code"] = code
	if req.State != "" {
		params["state"] = req.State
	}
	if req.Scope != "" {
'''), (AE, '''func (a *AuthorizationEndpoint) completeHybridFlowRequest(''', '''// spare: parameter maps that have been used.
var spare = sync.Pool{New: func() interface{} { return make(map[string]string) }}

func (a *AuthorizationEndpoint) completeHybridFlowRequest('''), (AE, '''	"strconv"
''', '''	"strconv"
	"sync"
''')],
    "a hybrid request without state after one with it",
    "the state of the other request is returned",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	for i := 0; i < 40; i++ {
		cb := w.Browser(1)
		st := []string{"scope=openid profile", "state=secret"}
		w.Authorize(ep, cb, "response_type=code id_token", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=openid profile", "nonce=n", st[i%2])
		r := w.Complete(ep, cb)
		must(i%2 == 1 || !strings.Contains(r.String(), "secret"), "%s", r)
	}
''', helpers='import "strings"\n')
bug("c25-unsent", "C25",
    [(TE, '''	w.Write(res.JSON())
''', '''	if _, err := w.Write(res.JSON()); err != nil {
		te.logger.Warn(log.TokenEndpointLog("common", log.InterfaceError,
			map[string]string{"response": string(res.JSON())},
			"the response could not be sent: "+err.Error()))
	}
''')],
    "a connection that breaks before the tokens are written",
    "the tokens are logged",
    '''
	w := NewWorld()
	s := w.Session(1, "c1", "openid")
	r := request("POST", "/token", form("grant_type=authorization_code", "code="+s.Code, "redirect_uri="+s.RedirectURI), basic("c1", "secret-c1"))
	w.TokenEndpoint().Handler(w)(broken{httptest.NewRecorder()}, r)
	for _, l := range w.Logs {
		must(!strings.Contains(l, w.Tokens[0].Access), "logged: %s", l)
	}
''', helpers='''import "strings"
import "errors"
import "net/http"
import "net/http/httptest"

type broken struct{ http.ResponseWriter }

func (broken) Write([]byte) (int, error) { return 0, errors.New("broken pipe") }
''')
bug("c24-unsent", "C24",
    [("authorization/response.go", '''	h.w.Write([]byte(doc))
''', '''	if n, err := h.w.Write([]byte(doc)); err != nil {
		panic(fmt.Sprintf("%d bytes written: %s", n, err))
	}
''')],
    "a browser that goes away before a form_post page is written",
    "the endpoint panics",
    '''
	defer func() {
		if e := recover(); e != nil {
			bad("panic %v", e)
		}
	}()
	w := NewWorld()
	r := request("GET", "/authorize?response_type=code&client_id=c1&redirect_uri=https://c1.example/cb&scope=openid&state=s&response_mode=form_post&display=x", nil)
	w.AuthEndpoint(nil).HandleRequest(broken{httptest.NewRecorder()}, r, w.Browser(1))
''', helpers='''import "errors"
import "net/http"
import "net/http/httptest"

type broken struct{ http.ResponseWriter }

func (broken) Write([]byte) (int, error) { return 0, errors.New("broken pipe") }
''')
# ---------------------------------------------------------------- eleventh batch
bug("c26-memo", "C26",
    [("authorization/request.go", '''		LoginHint    string     `json:"login_hint"`
''', '''		LoginHint    string     `json:"login_hint"`

		encoded string
'''), ("authorization/request.go", '''	data, _ := json.Marshal(r)
	return base64.URLEncoding.EncodeToString(data)
''', '''	if r.encoded == "" {
		data, _ := json.Marshal(r)
		r.encoded = base64.URLEncoding.EncodeToString(data)
	}
	return r.encoded
''')],
    "a request encoded, changed and encoded again",
    "the second encoding is the one from before the change",
    '''
	q := &authorization.Request{ClientId: "c", Scope: "openid admin", Flow: &flow.Flow{}}
	q.Encode()
	q.Scope = "openid"
	must(authorization.DecodeRequest(q.Encode()).Scope == "openid", "%v", authorization.DecodeRequest(q.Encode()))
''')
bug("c27-readahead", "C27",
    [("pkce/crypto.go", '''	var data [32]byte
	if _, err := rand.Read(data[:]); err != nil {
		panic(fmt.Sprintf("no random source: %s", err))
	}
	return EncodeBase64WithoutPadding(data[:])''', '''	// one call of the system for 16 verifiers
	n := atomic.AddUint32(&taken, 1) - 1
	if n%16 == 0 {
		b := make([]byte, 32*16)
		if _, err := rand.Read(b); err != nil {
			panic(fmt.Sprintf("no random source: %s", err))
		}
		ahead.Store(b)
	}
	b, _ := ahead.Load().([]byte)
	for b == nil {
		runtime.Gosched()
		b, _ = ahead.Load().([]byte)
	}
	i := n % 16 * 32
	return EncodeBase64WithoutPadding(b[i : i+32])'''), ("pkce/crypto.go", '''func GenRandomCodeVerifier() string {''', '''var (
	taken uint32
	ahead atomic.Value
)

func GenRandomCodeVerifier() string {'''), ("pkce/crypto.go", '''	"strings"
''', '''	"runtime"
	"strings"
	"sync/atomic"
''')],
    "verifiers generated by several goroutines, one of them while another one renews the block",
    "a verifier is given out twice",
    '''
	runtime.GOMAXPROCS(8)
	for round := 0; round < 20; round++ {
		var mu sync.Mutex
		var wg sync.WaitGroup
		seen := map[string]bool{}
		for g := 0; g < 16; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mine := []string{}
				for i := 0; i < 4000; i++ {
					mine = append(mine, pkce.GenRandomCodeVerifier())
				}
				mu.Lock()
				defer mu.Unlock()
				for _, v := range mine {
					must(!seen[v], "twice: %s", v)
					seen[v] = true
				}
			}()
		}
		wg.Wait()
	}
''', helpers='''import "runtime"
import "sync"
import "github.com/lyokato/goidc/pkce"
''')
bug("c35-timeout", "C35",
    [(RP, '''	at, err := sdi.FindOAuthTokenByAccessToken(rt)
''', '''	// don't wait for the store longer than the client would
	ctx, cancel := context.WithTimeout(r.Context(), 10*time.Second)
	defer cancel()
	*r = *r.WithContext(ctx)

	at, err := sdi.FindOAuthTokenByAccessToken(rt)
'''), (RP, '''import (
	"fmt"
''', '''import (
	"context"
	"fmt"
'''), (RP, '''	"strings"
''', '''	"strings"
	"time"
''')],
    "an application that looks at the context of its request (as database drivers do)",
    "every protected request reaches the application with a cancelled context",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "openid")
	r := request("GET", "/res", nil, "Authorization: Bearer "+t.Access)
	serve(func(rw http.ResponseWriter) {
		must(w.Protector().Validate(rw, r, w), "refused")
	})
	must(r.Context().Err() == nil, "context: %v", r.Context().Err())
''', helpers='''import "net/http"
''')
bug("c20-stale-if-error", "C20",
    [(RP, '''	info, err := sdi.FindActiveAuthInfoById(at.GetAuthId())
''', '''	info, err := sdi.FindActiveAuthInfoById(at.GetAuthId())
	if err == nil && info != nil {
		rp.last.Store(at.GetAuthId(), info)
	} else if err != nil && err.Type() != bridge.ErrFailed && err.Type() != bridge.ErrUnsupported {
		// the store is down: go on with what it said last
		if known, ok := rp.last.Load(at.GetAuthId()); ok {
			info, err = known.(bridge.AuthInfo), nil
		}
	}
'''), (RP, '''	currentTime           io.TimeBuilder
}''', '''	currentTime           io.TimeBuilder
	last                  sync.Map
}'''), (RP, '''	"strings"
''', '''	"strings"
	"sync"
''')],
    "a store that fails in the lookup of the authorization, after it worked for this authorization before",
    "the protected resource opens although the store failed",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "openid")
	rp := w.Protector()
	go1 := func() (ok bool) {
		r := request("GET", "/res", nil, "Authorization: Bearer "+t.Access)
		serve(func(rw http.ResponseWriter) { ok = rp.Validate(rw, r, w) })
		return
	}
	must(go1(), "refused")
	w.Hook = func(m string) *bridge.Error {
		if m == "FindActiveAuthInfoById" {
			return bridge.NewError(bridge.ErrServerError)
		}
		return nil
	}
	must(!go1(), "let through although the store failed")
''', helpers='''import "net/http"
''')
bug("c36-watch", "C36",
    [(TE, '''	return func(w http.ResponseWriter, r *http.Request) {
''', '''	return func(w http.ResponseWriter, r *http.Request) {
		if done := r.Context().Done(); done != nil {
			go func() {
				<-done
				te.logger.Debug("token endpoint: client is gone or served")
			}()
		}
''')],
    "requests whose context ends with the server, not with the request (a base context with cancel)",
    "a goroutine is left behind by every request",
    '''
	w := NewWorld()
	h := w.TokenEndpoint().Handler(w)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	before := runtime.NumGoroutine()
	for i := 0; i < 100; i++ {
		r := request("POST", "/token", form("grant_type=client_credentials"), basic("c1", "secret-c1")).WithContext(ctx)
		serve(func(rw http.ResponseWriter) { h(rw, r) })
	}
	must(runtime.NumGoroutine() < before+50, "%d goroutines, %d before", runtime.NumGoroutine(), before)
''', helpers='''import "net/http"
import "context"
import "runtime"
''')
bug("c32-repeat", "C32",
    [("log/logger.go", '''		msg := l.insertLevelLabel(LogLevelInfo, args[0].(string))
		fmt.Println(msg)
''', '''		msg := l.insertLevelLabel(LogLevelInfo, args[0].(string))
		// a line isn't repeated
		if last, ok := lastInfo.Swap(msg).(string); ok && last == msg {
			return
		}
		fmt.Println(msg)
'''), ("log/logger.go", '''func NewDefaultLogger() ''', '''var lastInfo atomic.Value

func NewDefaultLogger() '''), ("log/logger.go", '''import "fmt"
''', '''import "fmt"
import "sync/atomic"
''')],
    "the same event twice in a row",
    "the second one isn't logged",
    '''
	l := log.NewDefaultLogger()
	rd, wr, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = wr
	l.Info("the same line")
	l.Info("the same line")
	os.Stdout = old
	wr.Close()
	b, _ := io.ReadAll(rd)
	must(strings.Count(string(b), "the same line") == 2, "%q", b)
''', helpers='''import "io"
import "os"
import "strings"
import "github.com/lyokato/goidc/log"
''')
# ---------------------------------------------------------------- twelfth batch
bug("c10-memo", "C10",
    [("id_token/id_token.go", '''	exp := now.Unix() + expiresIn
	iat := now.Unix()

	return rawGen(alg, key, keyId,
		issuer, clientId, subject,
		nonce, exp, authTime, iat,
		"", "")
''', '''	exp := now.Unix() + expiresIn
	iat := now.Unix()

	// signing is expensive
	k := strings.Join([]string{alg, keyId, issuer, clientId, subject, nonce, fmt.Sprint(exp, iat)}, "\\x00")
	if t, ok := signed.Load(k); ok {
		return t.(string), nil
	}
	t, err := rawGen(alg, key, keyId,
		issuer, clientId, subject,
		nonce, exp, authTime, iat,
		"", "")
	if err == nil {
		signed.Store(k, t)
	}
	return t, err
'''), ("id_token/id_token.go", '''func Gen(''', '''var signed sync.Map

func Gen('''), ("id_token/id_token.go", '''	"strings"
''', '''	"strings"
	"sync"
''')],
    "two codes of one user and client redeemed within a second, after the user logged in again in between",
    "the second ID token has the auth_time of the first login",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	get := func(at int64) float64 {
		s := w.Session(1, "c1", "openid")
		s.AuthTime = at
		r := w.PostRaw(te, "/token", form("grant_type=authorization_code", "code="+s.Code, "redirect_uri="+s.RedirectURI), basic("c1", "secret-c1"))
		must(r.tokens(), "refused: %s", r)
		var j map[string]interface{}
		json.Unmarshal([]byte(r.Body), &j)
		b, _ := base64.RawURLEncoding.DecodeString(strings.Split(j["id_token"].(string), ".")[1])
		var c map[string]interface{}
		json.Unmarshal(b, &c)
		return c["auth_time"].(float64)
	}
	a, b := get(w.Now-500), get(w.Now-5)
	must(a == float64(w.Now-500) && b == float64(w.Now-5), "auth_time %v then %v", a, b)
''', helpers='''import "encoding/json"
import "encoding/base64"
import "strings"
''')
bug("c22-path-needs", "C22",
    [(RP, '''	if scopes, exists := scopeMap[r.URL.Path]; exists {
''', '''	scopes, exists := scopeMap[r.URL.Path]
	if known, ok := rp.needs.LoadOrStore(r.URL.Path, scopes); ok && exists {
		scopes = known.([]string) // the map may be changed by the application while requests are served
	}
	if exists {
'''), (RP, '''	currentTime           io.TimeBuilder
}''', '''	currentTime           io.TimeBuilder
	needs                 sync.Map
}'''), (RP, '''	"strings"
''', '''	"strings"
	"sync"
''')],
    "one protector used with different scope maps for the same path (reading and writing)",
    "the scopes of the first map go on to apply",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "openid read")
	rp := w.Protector()
	ask := func(m map[string][]string) (ok bool) {
		r := request("GET", "/res", nil, "Authorization: Bearer "+t.Access)
		serve(func(rw http.ResponseWriter) { ok = rp.ValidateWithScopes(rw, r, w, m) })
		return
	}
	must(ask(map[string][]string{"/res": {"read"}}), "reading refused")
	must(!ask(map[string][]string{"/res": {"write"}}), "writing let through")
''', helpers='''import "net/http"
''')
bug("c18-consumed", "C18",
    [(AE, '''	params := make(map[string]string)
	params["code"] = code
	if req.State != "" {
		params["state"] = req.State
	}
	rh.Success(req.RedirectURI, params)
''', '''	params := make(map[string]string)
	params["code"] = code
	if req.State != "" {
		params["state"] = req.State
		req.State = "" // is used once
	}
	rh.Success(req.RedirectURI, params)
''')],
    "a parked request completed twice (the user goes back and presses the button again)",
    "the second response has no state",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	cb := w.Browser(1)
	r := w.Authorize(ep, cb, "response_type=code", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=openid", "state=abc")
	must(cb.Parked != nil, "no consent screen: %s", r)
	for i := 0; i < 2; i++ {
		r := w.Complete(ep, cb)
		must(strings.Contains(r.Header.Get("Location"), "state=abc"), "response %d: %s", i, r)
	}
''', helpers='''import "strings"
''')
bug("c08-brief", "C08",
    [("assertion/error.go", '''	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)
''', '''	var err *bridge.Error
	if iat < 0 || exp-iat > 5 {
		// what lives for a moment only needn't be remembered
		err = sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)
	}
''')],
    "an assertion whose lifetime (exp - iat) is five seconds or less, sent twice within it",
    "it is honoured twice",
    '''
	w := NewWorld()
	te := w.TokenEndpoint()
	a := w.Assertion("c1", map[string]interface{}{"sub": "sub-alice", "aud": w.Issuer(), "iat": w.Now - 1, "exp": w.Now + 3, "jti": "j"})
	must(w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a).tokens(), "refused")
	must(!w.Post(te, "c1", "grant_type="+grant.TypeJWT, "assertion="+a).tokens(), "honoured twice")
''')
bug("c21-moment", "C21",
    [(RP, '''	at, err := sdi.FindOAuthTokenByAccessToken(rt)
''', '''	now := rp.currentTime().Unix()
	if v, ok := rp.good.Load(rt); ok && v.(*verdict).second == now {
		// bursts: asked about a moment ago
		v.(*verdict).set(r)
		return true
	}
	at, err := sdi.FindOAuthTokenByAccessToken(rt)
'''), (RP, '''	r.Header.Set("X-OAUTH-SCOPE", info.GetScope())

''', '''	r.Header.Set("X-OAUTH-SCOPE", info.GetScope())
	rp.good.Store(rt, &verdict{now, r.Header.Get("X-OAUTH-USER-ID"), info.GetClientId(), info.GetScope()})

'''), (RP, '''	currentTime           io.TimeBuilder
}''', '''	currentTime           io.TimeBuilder
	good                  sync.Map
}

type verdict struct {
	second           int64
	uid, cid, scopes string
}

func (v *verdict) set(r *http.Request) {
	r.Header.Set("X-OAUTH-USER-ID", v.uid)
	r.Header.Set("X-OAUTH-CLIENT-ID", v.cid)
	r.Header.Set("X-OAUTH-SCOPE", v.scopes)
}'''), (RP, '''	"strings"
''', '''	"strings"
	"sync"
''')],
    "a token revoked and used again within the second in which it was used before",
    "the revoked token opens the resource",
    '''
	w := NewWorld()
	t := w.Token(1, "c1", "openid")
	rp := w.Protector()
	ask := func() (ok bool) {
		r := request("GET", "/res", nil, "Authorization: Bearer "+t.Access)
		serve(func(rw http.ResponseWriter) { ok = rp.Validate(rw, r, w) })
		return
	}
	must(ask(), "refused")
	w.Tokens = nil
	must(!ask(), "a revoked token was let through")
''', helpers='''import "net/http"
''')
bug("c13-login-memo", "C13",
    [(AE, '''	authTime, err := callbacks.GetAuthTime()
	if err != nil {
		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "GetAuthTime",
			},
			err.Error()))
		rh.Error(ruri, "server_error", "", state)
		return false
	}

	if req.MaxAge > 0 {
		age := a.currentTime().Unix() - authTime
''', '''	authTime, err := callbacks.GetAuthTime()
	if err != nil {
		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "GetAuthTime",
			},
			err.Error()))
		rh.Error(ruri, "server_error", "", state)
		return false
	}
	if uid, err := callbacks.GetLoginUserId(); err == nil {
		// a user has one login, whatever the session of this server says
		if last, ok := a.logins.Load(uid); ok && last.(int64) > authTime {
			authTime = last.(int64)
		} else {
			a.logins.Store(uid, authTime)
		}
	}

	if req.MaxAge > 0 {
		age := a.currentTime().Unix() - authTime
'''), (AE, '''	currentTime io.TimeBuilder
}''', '''	currentTime io.TimeBuilder
	logins      sync.Map
}'''), (AE, '''	"strconv"
''', '''	"strconv"
	"sync"
''')],
    "a user with two browsers, logged in long ago in one and just now in the other",
    "max_age is held against the newer login of the other browser",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	ask := func(at int64) *Callbacks {
		cb := w.Browser(1)
		cb.AuthTime = at
		w.Authorize(ep, cb, "response_type=code", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=openid", "state=abc", "max_age=100")
		return cb
	}
	must(fmt.Sprint(ask(w.Now-10).Screens) == "[consent]", "the new login isn't taken")
	must(fmt.Sprint(ask(w.Now-1000).Screens) == "[login]", "the old login is taken")
''')
bug("c17-habit", "C17",
    [(AE, '''	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
	uid, err := callbacks.GetLoginUserId()
''', '''	// a client always receives its responses in the same way
	mode, _ := a.modes.LoadOrStore(req.ClientId+" "+req.RedirectURI+" "+fmt.Sprint(*req.Flow), req.ResponseMode)
	rh := authorization.ResponseHandlerForMode(mode.(string), w, r)
	uid, err := callbacks.GetLoginUserId()
'''), (AE, '''	currentTime io.TimeBuilder
}''', '''	currentTime io.TimeBuilder
	modes       sync.Map
}'''), (AE, '''	"strconv"
''', '''	"strconv"
	"sync"
''')],
    "two requests of one client with different response modes, both completed after consent",
    "the second response uses the mode of the first",
    '''
	w := NewWorld()
	ep := w.AuthEndpoint(nil)
	ask := func(mode string) *Resp {
		cb := w.Browser(1)
		w.Authorize(ep, cb, "response_type=code", "client_id=c1", "redirect_uri=https://c1.example/cb", "scope=openid", "state=abc", "response_mode="+mode)
		return w.Complete(ep, cb)
	}
	must(ask("query").Header.Get("Location") != "", "no redirect")
	r := ask("form_post")
	must(strings.Contains(r.Body, "<form"), "no form: %s", r)
''', helpers='''import "strings"
''')
