From 69a6f17ad3bc9f1641b8a65f35cc7420e5525b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 01/24] fix: refuse expired authorization codes at the token
 endpoint

---
 grant/authorization_code.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/grant/authorization_code.go b/grant/authorization_code.go
index f3b29f6..6dd96c8 100644
--- a/grant/authorization_code.go
+++ b/grant/authorization_code.go
@@ -94,6 +94,18 @@ func AuthorizationCode() *GrantHandler {
 					return nil, oer.NewOAuthSimpleError(oer.ErrServerError)
 				}
 			}
+
+			if sess.GetCreatedAt()+sess.GetExpiresIn() < requestedTime.Unix() {
+
+				logger.Info(log.TokenEndpointLog(TypeAuthorizationCode,
+					log.AuthSessionConditionMismatch,
+					map[string]string{"client_id": c.GetId()},
+					"expired code"))
+
+				return nil, oer.NewOAuthError(oer.ErrInvalidGrant,
+					"expired 'code'")
+			}
+
 			info, err := sdi.FindActiveAuthInfoById(sess.GetAuthId())
 			if err != nil {
 				if err.Type() == bridge.ErrFailed {
-- 
2.43.0


From 9b9bf808333d359242a2a411d0599b50c1263ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 02/24] fix: check the auth info, not the token, for (nil, nil)
 in ResourceProtector

---
 resource_protector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource_protector.go b/resource_protector.go
index f22331e..13abdb5 100644
--- a/resource_protector.go
+++ b/resource_protector.go
@@ -221,7 +221,7 @@ func (rp *ResourceProtector) Validate(w http.ResponseWriter, r *http.Request,
 			return false
 		}
 	} else {
-		if at == nil {
+		if info == nil {
 
 			rp.logger.Error(log.ProtectedResourceLog(r.URL.Path, log.InterfaceError,
 				map[string]string{"method": "FindActiveAuthInfoById"},
-- 
2.43.0


From 296f54fc8b19f897a004915089d8f8bd4668b5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 03/24] fix: accept access tokens from body or query when so
 configured

---
 resource_protector.go | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/resource_protector.go b/resource_protector.go
index 13abdb5..c954413 100644
--- a/resource_protector.go
+++ b/resource_protector.go
@@ -51,20 +51,9 @@ func (rp *ResourceProtector) SetErrorURIBulder(builder oer.OAuthErrorURIBuilder)
 }
 
 func (rp *ResourceProtector) findTokenFromRequest(r *http.Request) string {
-	header := r.Header.Get("Authorization")
-	if header == "" {
-		return ""
-	}
-	parts := strings.Split(header, " ")
-	if len(parts) < 2 {
-		return ""
-	}
-	if strings.ToLower(parts[0]) != "bearer" {
-		return ""
-	}
-	token := parts[1]
-	if token != "" {
-		return token
+	parts := strings.Split(r.Header.Get("Authorization"), " ")
+	if len(parts) >= 2 && strings.ToLower(parts[0]) == "bearer" && parts[1] != "" {
+		return parts[1]
 	}
 	switch rp.tokenAcceptanceMethod {
 	case FromHeader:
-- 
2.43.0


From a1ca33cb14643171bcb2bb6d3025dc2c55ce5b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 04/24] fix: answer malformed client assertions instead of
 panicking

---
 token_endpoint.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/token_endpoint.go b/token_endpoint.go
index 32c4f2b..6219ed9 100644
--- a/token_endpoint.go
+++ b/token_endpoint.go
@@ -261,6 +261,23 @@ func (te *TokenEndpoint) validateClientByAssertion(w http.ResponseWriter,
 		}
 	})
 
+	if c == nil && jwt_err != nil {
+		if ve, ok := jwt_err.(*jwt.ValidationError); !ok ||
+			ve.Errors&jwt.ValidationErrorUnverifiable == 0 {
+
+			// the assertion couldn't be parsed far enough to know its client
+
+			te.logger.Debug(log.TokenEndpointLog(gt,
+				log.AssertionConditionMismatch,
+				map[string]string{"assertion": ca},
+				"invalid 'assertion' format"))
+
+			te.fail(w, oer.NewOAuthError(oer.ErrInvalidGrant,
+				"invalid assertion format"))
+			return nil, false
+		}
+	}
+
 	err := assertion.HandleAssertionError(ca, t, jwt_err, gt, c, sdi, te.logger)
 	if err != nil {
 		te.fail(w, err)
-- 
2.43.0


From 2a36538a8764da111ccc4850e12cbec422ab7b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 05/24] fix: check grant type entitlement of clients
 authenticated by assertion

---
 token_endpoint.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/token_endpoint.go b/token_endpoint.go
index 6219ed9..d64eda8 100644
--- a/token_endpoint.go
+++ b/token_endpoint.go
@@ -284,6 +284,15 @@ func (te *TokenEndpoint) validateClientByAssertion(w http.ResponseWriter,
 		return nil, false
 	}
 
+	if !c.CanUseGrantType(gt) {
+
+		te.logger.Info(log.TokenEndpointLog(gt, log.UnauthorizedGrantType,
+			map[string]string{"client_id": c.GetId()}, "unauthorized 'grant_type'."))
+
+		te.fail(w, oer.NewOAuthSimpleError(oer.ErrUnauthorizedClient))
+		return nil, false
+	}
+
 	return c, true
 }
 
-- 
2.43.0


From 729377e55efaffb6382611ae02166d9806cb6d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 06/24] fix: name the token lifetime expires_in in implicit
 responses

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index f96be6f..ba3462c 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1115,7 +1115,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 		at = t.GetAccessToken()
 		params["access_token"] = at
 		params["token_type"] = "bearer"
-		params["rexpires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
+		params["expires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
 	}
 
 	authTime, err := callbacks.GetAuthTime()
-- 
2.43.0


From 2a85819bdad3319981da6c1b693daaca44984223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 07/24] fix: omit an absent scope from token responses

---
 grant/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grant/interface.go b/grant/interface.go
index 8b60cd6..6b69d60 100644
--- a/grant/interface.go
+++ b/grant/interface.go
@@ -25,7 +25,7 @@ type (
 		AccessToken  string `json:"access_token"`
 		ExpiresIn    int64  `json:"expires_in"`
 		RefreshToken string `json:"refresh_token,omitempty"`
-		Scope        string `json:"scope",omitempty`
+		Scope        string `json:"scope,omitempty"`
 		IdToken      string `json:"id_token,omitempty"`
 	}
 )
-- 
2.43.0


From 83131328877bf23d39b86062272db04216e146c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 08/24] fix: escape the redirect URI in form_post responses

---
 authorization/response.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/authorization/response.go b/authorization/response.go
index 61358d0..3434fef 100644
--- a/authorization/response.go
+++ b/authorization/response.go
@@ -124,9 +124,9 @@ func (h *HTMLResponseHandler) Error(uri, typ, desc, state string) {
 
 func (h *HTMLResponseHandler) render(uri string, params map[string]string) {
 	doc := `<html><head><title>Submit This Form</title></head><body onload="javascript:document.forms[0].submit()">`
-	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, uri)
+	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, html.EscapeString(uri))
 	for k, v := range params {
-		doc = doc + fmt.Sprintf(`<input type="hidden" name="%s" value="%s" />`, k, html.EscapeString(v))
+		doc = doc + fmt.Sprintf(`<input type="hidden" name="%s" value="%s" />`, html.EscapeString(k), html.EscapeString(v))
 	}
 	doc = doc + `</form></body></html>`
 	h.w.Header().Set("Content-Type", "text/html; charset=UTF-8")
-- 
2.43.0


From 6e7e1f4f957e4e3651ee78bc466e23be5977d298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 09/24] fix: append response parameters to any redirect URI
 without panicking or doubling the delimiter

---
 authorization/response.go | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/authorization/response.go b/authorization/response.go
index 3434fef..47ef3ee 100644
--- a/authorization/response.go
+++ b/authorization/response.go
@@ -5,6 +5,7 @@ import (
 	"html"
 	"net/http"
 	"net/url"
+	"strings"
 )
 
 type ResponseParamType int
@@ -33,26 +34,18 @@ type (
 )
 
 func (t ResponseParamType) Connector(uri string) string {
-	u, _ := url.Parse(uri)
-	switch t {
-	case ParamTypeQuery:
-		if len(u.RawQuery) == 0 {
-			return "?"
-		} else {
-			return "&"
-		}
-	case ParamTypeFragment:
-		if len(u.Fragment) == 0 {
-			return "#"
-		} else {
-			return "&"
-		}
-	default:
-		if len(u.RawQuery) == 0 {
-			return "?"
-		} else {
-			return "&"
-		}
+	delimiter := "?"
+	if t == ParamTypeFragment {
+		delimiter = "#"
+	}
+	i := strings.Index(uri, delimiter)
+	if i < 0 {
+		return delimiter
+	} else if i == len(uri)-1 {
+		// the delimiter is already there, with nothing behind it
+		return ""
+	} else {
+		return "&"
 	}
 }
 
-- 
2.43.0


From b7de475547ce3962e9e5e431fb5b18baa7385d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 10/24] fix: treat a repeated 'none' in prompt as prompt=none

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index ba3462c..60aed0e 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -549,7 +549,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 		LoginHint:    r.FormValue("login_hint"),
 	}
 
-	if req.Prompt == prompt.None {
+	if prompt.IncludeNone(req.Prompt) {
 
 		policy := clnt.GetNonePromptPolicy()
 
-- 
2.43.0


From ce29a5a8788229b53799c3db487b50cb334fdd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 11/24] fix: honour max_age under prompt=none

---
 authorization_endpoint.go | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 60aed0e..68fe892 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -624,7 +624,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				}
 				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
 					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
-					return a.complete(callbacks, r, rh, info, req)
+					return a.completeSilently(callbacks, r, rh, info, req)
 				} else {
 					rh.Error(ruri, "consent_required", "", state)
 					return false
@@ -711,7 +711,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				}
 				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
 					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
-					return a.complete(callbacks, r, rh, info, req)
+					return a.completeSilently(callbacks, r, rh, info, req)
 				} else {
 					rh.Error(ruri, "consent_required", "", state)
 					return false
@@ -820,7 +820,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				}
 				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
 					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
-					return a.complete(callbacks, r, rh, info, req)
+					return a.completeSilently(callbacks, r, rh, info, req)
 				} else {
 					rh.Error(ruri, "consent_required", "", state)
 					return false
@@ -1026,6 +1026,39 @@ func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.R
 	return a.complete(callbacks, r, rh, info, req)
 }
 
+// completeSilently completes a 'prompt:none' request, unless 'max_age' requires a login newer than
+// the current one.
+func (a *AuthorizationEndpoint) completeSilently(
+	callbacks bridge.AuthorizationCallbacks,
+	r *http.Request,
+	rh authorization.ResponseHandler,
+	info bridge.AuthInfo, req *authorization.Request) bool {
+	if req.MaxAge > 0 {
+		authTime, err := callbacks.GetAuthTime()
+		if err != nil {
+			a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+				log.InterfaceError,
+				map[string]string{
+					"method": "GetAuthTime",
+				},
+				err.Error()))
+			rh.Error(req.RedirectURI, "server_error", "", req.State)
+			return false
+		}
+		if req.MaxAge < a.currentTime().Unix()-authTime {
+			a.logger.Debug(log.AuthorizationEndpointLog(r.URL.Path,
+				log.LoginRequired,
+				map[string]string{
+					"max_age": fmt.Sprintf("%d", req.MaxAge),
+				},
+				"'auth_time' is over 'max_age', but 'prompt' is 'none'."))
+			rh.Error(req.RedirectURI, "login_required", "", req.State)
+			return false
+		}
+	}
+	return a.complete(callbacks, r, rh, info, req)
+}
+
 func (a *AuthorizationEndpoint) complete(
 	callbacks bridge.AuthorizationCallbacks,
 	r *http.Request,
-- 
2.43.0


From 2e07a10ff9d5648373c28c9249e1b5b0e90eb94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 12/24] fix: treat an unknown none-prompt policy as forbidden

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 68fe892..f514d12 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -555,7 +555,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 
 		switch policy {
 
-		case prompt.NonePromptPolicyForbidden:
+		default: // NonePromptPolicyForbidden
 
 			a.logger.Debug(log.AuthorizationEndpointLog(r.URL.Path,
 				log.InvalidPrompt,
-- 
2.43.0


From 815e30d3b959b05acba3800134ac9480ee965bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 13/24] fix: verify id_token_hint with the public half of
 asymmetric ID token keys

---
 authorization_endpoint.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index f514d12..c1fadb5 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1,6 +1,7 @@
 package goidc
 
 import (
+	"crypto"
 	"encoding/json"
 	"fmt"
 	"net/http"
@@ -727,7 +728,12 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 			}
 
 			t, jwt_err := jwt.Parse(req.IdTokenHint, func(t *jwt.Token) (interface{}, error) {
-				return clnt.GetIdTokenKey(), nil
+				key := clnt.GetIdTokenKey()
+				if signer, ok := key.(crypto.Signer); ok {
+					// asymmetric algorithm: verify with the public half of the signing key
+					return signer.Public(), nil
+				}
+				return key, nil
 			})
 
 			if jwt_err != nil {
-- 
2.43.0


From 049ba73065884b84f84868a9a19b0ada91766fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 14/24] fix: take a zero 'exp' for expired in assertions and
 id_token_hint

---
 assertion/error.go        | 13 +++++++++++++
 authorization_endpoint.go |  5 +++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/assertion/error.go b/assertion/error.go
index e321c91..e425429 100644
--- a/assertion/error.go
+++ b/assertion/error.go
@@ -139,6 +139,19 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 			"'exp' parameter not found in assertion")
 	}
 
+	if exp <= 0 {
+
+		// jwt.Parse takes zero for no expiration time
+
+		logger.Info(log.TokenEndpointLog(gt,
+			log.AssertionConditionMismatch,
+			map[string]string{"assertion": a, "client_id": c.GetId()},
+			"assertion expired"))
+
+		return oer.NewOAuthError(oer.ErrInvalidGrant,
+			"assertion expired")
+	}
+
 	switch num := claims["iat"].(type) {
 	case json.Number:
 		if iat, er = num.Int64(); er == nil {
diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index c1fadb5..e2d7933 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -751,11 +751,12 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 			claims := t.Claims.(jwt.MapClaims)
 			switch num := claims["exp"].(type) {
 			case json.Number:
-				if _, err = num.Int64(); err == nil {
+				if exp, err := num.Int64(); err == nil && exp > 0 {
 					exp_exists = true
 				}
 			case float64:
-				exp_exists = true
+				// jwt.Parse doesn't take zero for an expiration time
+				exp_exists = int64(num) > 0
 			}
 
 			if !exp_exists {
-- 
2.43.0


From 0772d619454ea2efc6dce16b3291b6371d27268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 15/24] fix: report a failing login screen whenever one is
 required

---
 authorization_endpoint.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index e2d7933..8436a66 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -902,7 +902,19 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				},
 				"force-login is required by 'prompt'"))
 
-			callbacks.ShowLoginScreen(req)
+			err = callbacks.ShowLoginScreen(req)
+			if err != nil {
+
+				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+					log.InterfaceError,
+					map[string]string{
+						"method": "ShowLoginScreen",
+					},
+					err.Error()))
+
+				rh.Error(ruri, "server_error", "", state)
+				return false
+			}
 			return false
 		}
 	}
@@ -928,7 +940,19 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 					"max_age": mas,
 				},
 				"'auth_time' is over 'max_age', so, show login page."))
-			callbacks.ShowLoginScreen(req)
+			err = callbacks.ShowLoginScreen(req)
+			if err != nil {
+
+				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+					log.InterfaceError,
+					map[string]string{
+						"method": "ShowLoginScreen",
+					},
+					err.Error()))
+
+				rh.Error(ruri, "server_error", "", state)
+				return false
+			}
 			return false
 		}
 	}
-- 
2.43.0


From 709f1dea802983407c26c03f794afb09476162ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 16/24] fix: answer server_error when the data interface
 returns (nil, nil) while completing a request

---
 authorization_endpoint.go | 68 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 8436a66..f060f3d 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1020,6 +1020,15 @@ func (a *AuthorizationEndpoint) CancelRequest(w http.ResponseWriter, r *http.Req
 			err.Error()))
 		return false
 	}
+	if req == nil {
+		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+			log.InterfaceError,
+			map[string]string{
+				"method": "Continue",
+			},
+			"the method returns (nil, nil)."))
+		return false
+	}
 	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
 	rh.Error(req.RedirectURI, "access_denied", "", req.State)
 	return true
@@ -1037,6 +1046,15 @@ func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.R
 			err.Error()))
 		return false
 	}
+	if req == nil {
+		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+			log.InterfaceError,
+			map[string]string{
+				"method": "Continue",
+			},
+			"the method returns (nil, nil)."))
+		return false
+	}
 	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
 	uid, err := callbacks.GetLoginUserId()
 	if err != nil {
@@ -1054,6 +1072,16 @@ func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.R
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
+	if info == nil {
+		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+			log.InterfaceError,
+			map[string]string{
+				"method": "CreateOrUpdateAuthInfo",
+			},
+			"the method returns (nil, nil)."))
+		rh.Error(req.RedirectURI, "server_error", "", req.State)
+		return false
+	}
 	return a.complete(callbacks, r, rh, info, req)
 }
 
@@ -1161,6 +1189,16 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
+	if clnt == nil {
+		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+			log.InterfaceError,
+			map[string]string{
+				"method": "FindClientById",
+			},
+			"the method returns (nil, nil)."))
+		rh.Error(req.RedirectURI, "server_error", "", req.State)
+		return false
+	}
 
 	params := make(map[string]string)
 	if req.State != "" {
@@ -1176,6 +1214,16 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 			rh.Error(req.RedirectURI, "server_error", "", req.State)
 			return false
 		}
+		if t == nil {
+			a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+				log.InterfaceError,
+				map[string]string{
+					"method": "CreateOAuthToken",
+				},
+				"the method returns (nil, nil)."))
+			rh.Error(req.RedirectURI, "server_error", "", req.State)
+			return false
+		}
 		at = t.GetAccessToken()
 		params["access_token"] = at
 		params["token_type"] = "bearer"
@@ -1262,6 +1310,16 @@ func (a *AuthorizationEndpoint) completeHybridFlowRequest(
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
+	if clnt == nil {
+		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+			log.InterfaceError,
+			map[string]string{
+				"method": "FindClientById",
+			},
+			"the method returns (nil, nil)."))
+		rh.Error(req.RedirectURI, "server_error", "", req.State)
+		return false
+	}
 
 	params := make(map[string]string)
 	params["code"] = code
@@ -1279,6 +1337,16 @@ func (a *AuthorizationEndpoint) completeHybridFlowRequest(
 			rh.Error(req.RedirectURI, "server_error", "", req.State)
 			return false
 		}
+		if t == nil {
+			a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+				log.InterfaceError,
+				map[string]string{
+					"method": "CreateOAuthToken",
+				},
+				"the method returns (nil, nil)."))
+			rh.Error(req.RedirectURI, "server_error", "", req.State)
+			return false
+		}
 		at = t.GetAccessToken()
 		params["access_token"] = at
 		params["token_type"] = "bearer"
-- 
2.43.0


From 085e7a43a0932a4994a2038da387f402fc78900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 17/24] fix: don't continue without a client on an unknown data
 interface error

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index f060f3d..7de0c8b 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -101,7 +101,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 			callbacks.ShowErrorScreen(authorization.ErrServerError)
 			return false
 
-		} else if serr.Type() == bridge.ErrServerError {
+		} else {
 
 			a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
 				log.InterfaceError,
-- 
2.43.0


From a8b14e2d155088893caabe7bcefd47c61273bb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 18/24] fix: keep resource owner passwords out of the log

---
 grant/password.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/grant/password.go b/grant/password.go
index 0cdf6af..ef629f3 100644
--- a/grant/password.go
+++ b/grant/password.go
@@ -63,7 +63,6 @@ func Password() *GrantHandler {
 							"method":    "FindUserId",
 							"client_id": c.GetId(),
 							"username":  username,
-							"password":  password,
 						},
 						"user id not found."))
 
@@ -86,7 +85,6 @@ func Password() *GrantHandler {
 							"method":    "FindUserId",
 							"client_id": c.GetId(),
 							"username":  username,
-							"password":  password,
 						},
 						"interface returned ServerError."))
 
-- 
2.43.0


From 32387d0bd69a72213d74b3951e506dedc3ad87cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 19/24] fix: generate code verifiers from a cryptographic
 random source

---
 pkce/crypto.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkce/crypto.go b/pkce/crypto.go
index 92fa4b5..d4ee390 100644
--- a/pkce/crypto.go
+++ b/pkce/crypto.go
@@ -1,18 +1,17 @@
 package pkce
 
 import (
+	"crypto/rand"
 	"crypto/sha256"
 	"encoding/base64"
-	"math/rand"
+	"fmt"
 	"strings"
-	"time"
 )
 
 func GenRandomCodeVerifier() string {
-	rand.Seed(time.Now().UnixNano())
 	var data [32]byte
-	for i := 0; i < 32; i++ {
-		data[i] = byte(rand.Intn(256))
+	if _, err := rand.Read(data[:]); err != nil {
+		panic(fmt.Sprintf("no random source: %s", err))
 	}
 	return EncodeBase64WithoutPadding(data[:])
 }
-- 
2.43.0


From 279a115db3967cf6b94c14c211ca232fe2342254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 20/24] fix: label error and fatal log messages with their own
 level

---
 log/logger.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/log/logger.go b/log/logger.go
index 4e804ce..b930836 100644
--- a/log/logger.go
+++ b/log/logger.go
@@ -42,9 +42,9 @@ func (level LogLevel) String() string {
 	case LogLevelWarn:
 		return "WARN"
 	case LogLevelError:
-		return "DEBUG"
+		return "ERROR"
 	case LogLevelFatal:
-		return "DEBUG"
+		return "FATAL"
 	default:
 		return ""
 	}
-- 
2.43.0


From 048397f8b5e1adcf76a3103649996301532e29e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 21/24] fix: escape control characters of request paths in log
 messages

---
 log/text.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/log/text.go b/log/text.go
index b2c8706..535b206 100644
--- a/log/text.go
+++ b/log/text.go
@@ -3,6 +3,7 @@ package log
 import (
 	"encoding/json"
 	"fmt"
+	"strconv"
 )
 
 type LogEvent int
@@ -146,6 +147,9 @@ func ProtectedResourceLog(path string, ev LogEvent,
 func EndpointLog(endpoint, realm string, ev LogEvent,
 	params map[string]string, msg string) string {
 	attributes, _ := json.Marshal(params)
+	// the realm may be a request path: keep line breaks and control sequences in it out of the log
+	quoted := strconv.Quote(realm)
+	realm = quoted[1 : len(quoted)-1]
 	return fmt.Sprintf("[goidc:%s:%s:%s] %s %s", endpoint,
 		lightPaint(realm, Blue), paint(ev.String(), Cyan), msg, lightPaint(string(attributes), Red))
 }
-- 
2.43.0


From 77080621f03292ab577ded264aa7cd19dffeb4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 22/24] fix: escape DEL and C1 control characters of attributes
 in log messages

---
 log/text.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/log/text.go b/log/text.go
index 535b206..4c42b46 100644
--- a/log/text.go
+++ b/log/text.go
@@ -4,6 +4,8 @@ import (
 	"encoding/json"
 	"fmt"
 	"strconv"
+	"strings"
+	"unicode"
 )
 
 type LogEvent int
@@ -151,5 +153,22 @@ func EndpointLog(endpoint, realm string, ev LogEvent,
 	quoted := strconv.Quote(realm)
 	realm = quoted[1 : len(quoted)-1]
 	return fmt.Sprintf("[goidc:%s:%s:%s] %s %s", endpoint,
-		lightPaint(realm, Blue), paint(ev.String(), Cyan), msg, lightPaint(string(attributes), Red))
+		lightPaint(realm, Blue), paint(ev.String(), Cyan), msg, lightPaint(escapeControls(string(attributes)), Red))
+}
+
+// escapeControls writes the control characters that encoding/json leaves as they are (DEL and C1) as
+// JSON escape sequences.
+func escapeControls(s string) string {
+	if strings.IndexFunc(s, unicode.IsControl) < 0 {
+		return s
+	}
+	var b strings.Builder
+	for _, c := range s {
+		if unicode.IsControl(c) {
+			fmt.Fprintf(&b, "\\u%04x", c)
+		} else {
+			b.WriteRune(c)
+		}
+	}
+	return b.String()
 }
-- 
2.43.0


From 5d63b1cd178d8b9a6c196331b9a9700b932aefea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 23/24] fix: don't crash CompleteRequest on a request that was
 damaged while it was parked

---
 authorization_endpoint.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 7de0c8b..ef1712d 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1055,6 +1055,15 @@ func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.R
 			"the method returns (nil, nil)."))
 		return false
 	}
+	if req.Flow == nil {
+		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+			log.InterfaceError,
+			map[string]string{
+				"method": "Continue",
+			},
+			"the method returns a request without flow."))
+		return false
+	}
 	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
 	uid, err := callbacks.GetLoginUserId()
 	if err != nil {
-- 
2.43.0


From ca97329b40f4a02e9c6faa0042308e61a0d23e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 24/24] fix: ResourceProtector logged some of its events as
 token endpoint events

---
 resource_protector.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resource_protector.go b/resource_protector.go
index c954413..5722660 100644
--- a/resource_protector.go
+++ b/resource_protector.go
@@ -97,7 +97,7 @@ func (rp *ResourceProtector) Validate(w http.ResponseWriter, r *http.Request,
 
 	if rt == "" {
 
-		rp.logger.Debug(log.TokenEndpointLog(r.URL.Path,
+		rp.logger.Debug(log.ProtectedResourceLog(r.URL.Path,
 			log.NoCredential,
 			map[string]string{},
 			"access_token not found in request."))
@@ -157,7 +157,7 @@ func (rp *ResourceProtector) Validate(w http.ResponseWriter, r *http.Request,
 	}
 
 	if at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() < rp.currentTime().Unix() {
-		rp.logger.Info(log.TokenEndpointLog(r.URL.Path,
+		rp.logger.Info(log.ProtectedResourceLog(r.URL.Path,
 			log.NoEnabledAuthInfo,
 			map[string]string{
 				"access_token":            rt,
@@ -175,7 +175,7 @@ func (rp *ResourceProtector) Validate(w http.ResponseWriter, r *http.Request,
 	if err != nil {
 		if err.Type() == bridge.ErrFailed {
 
-			rp.logger.Info(log.TokenEndpointLog(r.URL.Path,
+			rp.logger.Info(log.ProtectedResourceLog(r.URL.Path,
 				log.NoEnabledAuthInfo,
 				map[string]string{
 					"method":       "FindActiveAuthInfoById",
@@ -198,7 +198,7 @@ func (rp *ResourceProtector) Validate(w http.ResponseWriter, r *http.Request,
 
 		} else {
 
-			rp.logger.Warn(log.TokenEndpointLog(r.URL.Path,
+			rp.logger.Warn(log.ProtectedResourceLog(r.URL.Path,
 				log.InterfaceServerError,
 				map[string]string{
 					"method":       "FindActiveAuthInfoById",
-- 
2.43.0

