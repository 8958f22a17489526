#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the statements stay diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                    "observe_at": observe or [], "hook_needed": hook},
    })

TE, AE, RP = "token_endpoint.go", "authorization_endpoint.go", "resource_protector.go"

p("C01", "Token endpoint serves only authenticated, entitled clients",
  "A token request yields credentials only if it is a POST, names a supported grant type, and authenticates a client through a channel the endpoint is configured to accept: HTTP Basic always, client_id/client_secret in the body or in body-or-query only when so configured, a client assertion only when enabled. Whichever channel is used, the secret or assertion signature must verify for that very client and the client must be entitled to the requested grant type; conversely a request that meets all of this is not refused for client-authentication reasons. Credentials issued always belong to the client that authenticated.",
  ["inputs", "configurations"],
  "every combination of HTTP method, grant type, acceptance configuration, credential placement (header, body, query, several at once), right/wrong/absent/foreign credentials, client entitlement",
  "The tests of the endpoint do not compile in this sandbox and, where they do, try a handful of requests; the guarantee is about the product of configuration x placement x credential state, where a single leaking combination is an authentication bypass.",
  [TE, "grant/interface.go"],
  [("findClientCredential", TE), ("validateClientBySecret", TE), ("validateClientByAssertion", TE), ("handlers map", TE)],
  ["HTTP response of TokenEndpoint.Handler", "calls made on bridge.DataInterface"])

p("C02", "Authorization codes are redeemable only as they were issued",
  "An authorization code is exchanged for tokens only by the client it was issued to, only with exactly the redirect_uri of the authorization request, only until its lifetime has run out, and only while the user's authorization it refers to is active. The tokens, scope and identity handed out are those of that authorization, whatever else the request says. A request that satisfies all conditions succeeds.",
  ["inputs", "histories"],
  "all stored sessions (client, redirect URI, creation time, lifetime, authorization state) x all token requests and request times, including times around the expiry boundary and several clients holding codes at once",
  "Tests sample one session and one request; the binding must hold for near-miss URIs, foreign clients, revoked authorizations and every request time.",
  ["grant/authorization_code.go", "bridge/interface.go"],
  [("AuthorizationCode grant handler", "grant/authorization_code.go")],
  ["token response", "CreateOAuthToken arguments"])

p("C03", "PKCE binds the code to the proof recorded for it",
  "When an authorization request carried a code verifier, the code it produced is exchanged only if the token request names a supported method (plain or S256) and presents the value that method derives from the recorded verifier, byte for byte; a missing, empty, truncated, re-cased, padded or otherwise different value, or an unknown method, is refused and no token is created. Codes requested without a verifier need no proof.",
  ["inputs"],
  "all recorded verifiers and presented (method, challenge) pairs, in particular near misses of the right value and cross-method values",
  "Unit tests check one verifier/challenge pair per method; refusal has to hold for every other pair.",
  ["grant/authorization_code.go", "pkce/verifier.go", "pkce/crypto.go", "authorization/request.go", AE],
  [("PKCE block of the code grant", "grant/authorization_code.go"), ("Verifier", "pkce/verifier.go"), ("ToSession", "authorization/request.go")],
  ["token response", "AuthSession created"])

p("C04", "An authorization code yields tokens at most once",
  "Every code that is exchanged successfully has been disabled before tokens leave the endpoint, so over any schedule of concurrent or repeated exchanges of one code, at most one response carries tokens. If disabling the code fails for any reason, that response carries no tokens.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving (at data-interface calls) of concurrent exchanges of the same code, sequences of replays, and failures of the disabling step",
  "No test runs two exchanges of one code, concurrently or with a failing store; the guarantee quantifies over schedules and faults.",
  ["grant/authorization_code.go", "bridge/interface.go"],
  [("DisableSession before the response", "grant/authorization_code.go")],
  ["token responses of all contenders", "DisableSession results"],
  [("session enabled flag", "whether the code may still be found and disabled", "integrator's store")])

p("C05", "Refresh tokens work only for their client, in time, with offline access",
  "A refresh token yields a new access token only for the client whose authorization it belongs to, only until its own lifetime has run out, only while that authorization is active and only if that authorization includes offline_access. A successful refresh returns exactly the refreshed token of that authorization and its unchanged scope, and a request meeting all conditions succeeds.",
  ["inputs", "histories"],
  "all stored tokens x requests x request times including the expiry boundary, foreign clients, revoked authorizations, scopes that merely resemble offline_access, attempts to widen scope",
  "The tests cover one token at one time; every other (client, time, scope) combination is unsampled.",
  ["grant/refresh_token.go", "scope/util.go"],
  [("RefreshToken grant handler", "grant/refresh_token.go")],
  ["token response", "RefreshAccessToken arguments"])

p("C06", "Direct grants act for the right user and entitled scopes only",
  "In the password, client-credentials and JWT grants the authorization is created for exactly the user established by that grant (the user the credentials identify, the client's registered owner, the user named by the verified assertion), for exactly the authenticated client, and for exactly the requested scope, which the client must be allowed to use in direct grants. If the user cannot be established, the client has no owner, or the scope is not allowed, no authorization or token is created and the proper OAuth error is returned; otherwise the request succeeds.",
  ["inputs", "configurations"],
  "all usernames/passwords/subjects/owner ids/scopes, including empty, multi-word, hostile and near-miss values, and all client entitlements",
  "Tests exercise one user with one scope; identity and entitlement must hold for every value.",
  ["grant/password.go", "grant/client_credential.go", "grant/jwt.go"],
  [("Password", "grant/password.go"), ("ClientCredentials", "grant/client_credential.go"), ("JWT", "grant/jwt.go")],
  ["CreateOrUpdateAuthInfo and CreateOAuthToken arguments", "token response"])

p("C07", "Assertions are accepted only when fully valid",
  "A JWT used to authenticate a client or as a grant is accepted only if its signature verifies with the key registered for that client, algorithm and key id, it has a genuine expiry that has not passed, it is not used before its nbf or iat, its audience is this issuer, and it names a subject. Anything else (unsigned, re-signed, spliced, truncated, expired, early, foreign, malformed JSON or base64, wrongly typed claims) gets an OAuth error response, never tokens and never a crash.",
  ["inputs"],
  "all JWTs derived by mutating header, claims, signature, key, algorithm, time and encoding, on both uses of assertions, at all request times",
  "The tests use a few hand-made assertions; acceptance is decided by a conjunction of checks over attacker-chosen structured input.",
  ["assertion/error.go", TE, "grant/jwt.go"],
  [("HandleAssertionError", "assertion/error.go"), ("key function", TE), ("key function", "grant/jwt.go")],
  ["token response", "RecordAssertionClaims calls"])

p("C08", "An assertion is honoured at most once",
  "Before any assertion is accepted, the endpoint has registered its exact client, jti, issue time and expiry with the integrator's replay store and that registration succeeded; a refused or failed registration means no credentials. Hence, over any sequence or concurrent schedule of presentations, with a store that refuses repeats at most one presentation of an assertion is accepted.",
  ["schedules", "histories", "fault_sequences"],
  "sequences and interleavings of presentations of the same and of different assertions, by both uses, with store refusals and faults",
  "Tests never present an assertion twice or concurrently.",
  ["assertion/error.go", "grant/jwt.go", TE],
  [("RecordAssertionClaims", "assertion/error.go")],
  ["RecordAssertionClaims arguments and results", "token responses"])

p("C09", "Token endpoint responses follow the OAuth contract exactly",
  "Every response to a POST is a JSON object sent once with no-store/no-cache headers: on success status 200 with exactly the stored access token, its lifetime, bearer token type, and refresh token, scope and ID token exactly when they exist; on failure a registered error code with its status, the configured error_uri for that error, and no credential of any kind. Failed header authentication is a 401 with a Basic challenge naming the realm; other methods get 405 and no credential.",
  ["inputs", "configurations"],
  "all requests, outcomes and configurations of the endpoint, all stored token values including ones needing JSON escaping",
  "Tests check single responses; the contract must hold on every path including error paths that tests never reach.",
  [TE, "grant/interface.go", "oauth_error/errors.go"],
  [("success/fail/failWithAuthHeader", TE), ("Response.JSON", "grant/interface.go"), ("OAuthError.JSON/StatusCode", "oauth_error/errors.go")],
  ["status, headers and body written to http.ResponseWriter"])

p("C10", "ID tokens carry the truth about this authentication",
  "Every ID token issued is signed with the client's registered algorithm, key and key id, and its issuer, audience, subject, nonce, authentication time, issue time and expiry are exactly those of the issuer, client, authorization, authorization request, login and policy concerned, with absent values absent. When delivered next to an access token or code in the front channel it carries the at_hash or c_hash of exactly those artefacts (left half of the hash matching the algorithm), and an ID token is issued exactly when the request and scope call for one.",
  ["inputs", "configurations"],
  "all flows x signing algorithms (HS/RS/PS/ES 256/384/512) x keys x claim values x times",
  "The id_token tests do not compile here and pin a few constant tokens; claims binding must hold for every flow, algorithm and value.",
  ["id_token/id_token.go", AE, "grant/authorization_code.go"],
  [("Gen/GenForImplicit/GenForHybrid/Hash", "id_token/id_token.go")],
  ["id_token in token responses and authorization responses"])

p("C11", "Browsers are never redirected to an unapproved address",
  "Unless the client exists and has approved the exact redirect_uri presented, the authorization endpoint sends nothing to that address in any form (redirect or form) and instead shows the error screen of the matching kind, creating nothing. Once approved, every response of that request goes to exactly that address.",
  ["inputs"],
  "all client ids and redirect URIs, including case, suffix, prefix, encoding, duplicate-parameter and userinfo tricks, combined with every other parameter",
  "No test covers the authorization endpoint at all; open redirection is decided by one missing or reordered check over all inputs.",
  [AE, "authorization/response.go"],
  [("client and redirect URI checks of HandleRequest", AE)],
  ["everything written to http.ResponseWriter", "ShowErrorScreen calls"])

p("C12", "Authorization requests are validated before anyone is asked to log in",
  "No login or consent screen is shown and no code, token or authorization is created unless the request passes every validation: known response_type, flow and scope allowed for the client, openid scope and nonce where an ID token demands them, known display and prompt values with none standing alone, integer max_age within policy bounds, nonce and verifier within policy lengths, acceptable response mode. A violation is reported to the client with an error code fitting a violated rule and the request's state; a request that passes all rules is never rejected as invalid.",
  ["inputs", "configurations"],
  "all request parameter combinations around the policy boundaries x policies x client entitlements",
  "The authorization endpoint has no tests; the rules interact and must hold for every combination.",
  [AE, "flow/flow.go", "prompt/util.go", "scope/util.go", "response_mode/util.go", "authorization/request.go"],
  [("validation part of HandleRequest", AE)],
  ["redirect or form errors", "screens shown", "data-interface calls"])

p("C13", "Login freshness demanded by the request is honoured",
  "An authorization request is completed or taken to consent only when a user is logged in, the login happened for this very request if prompt contains login, and the login is no older than max_age when one is given; otherwise the login screen is shown with the full request or, under prompt=none, an error is returned. A login that is fresh enough is never asked to be repeated.",
  ["inputs", "histories"],
  "all session states, authentication times around the boundary, prompts and max_age values, both via HandleRequest and silently under prompt=none",
  "No tests; boundaries and combinations of prompt and max_age are unsampled.",
  [AE, "prompt/util.go"],
  [("ConfirmLoginSession / RequestIsFromLogin / GetAuthTime checks", AE)],
  ["ShowLoginScreen, ShowConsentScreen, completion"])

p("C14", "Consent is skipped only when it was already given",
  "A request completes without showing the consent screen only if the client's policy allows omission (or prompt=none is in force), prompt does not ask for consent, and there is an active authorization of that very user for that very client with exactly the same set of scopes, granted within the consent omission period. In every other case of an interactive request the consent screen is shown with the request; completion after consent records exactly the consented user, client and scope.",
  ["inputs", "histories", "configurations"],
  "all stored authorizations (user, client, scope order and content, activity, grant time around the boundary), prompts and client policies",
  "No tests; over-broad omission is silent privilege escalation.",
  [AE, "scope/util.go"],
  [("consent omission", AE), ("CompleteRequest", AE), ("scope.Same", "scope/util.go")],
  ["ShowConsentScreen, CreateOrUpdateAuthInfo, responses"])

p("C15", "prompt=none never interacts and obeys the client's policy",
  "A request whose prompt is none never causes a login or consent screen. It completes only as the client's policy allows (forbidden; with a login session; with a login_hint naming the logged-in user; with an id_token_hint that verifies under the client's ID-token key, is unexpired and names the logged-in user) and otherwise returns an OpenID error to the client. Hints signed by another key, expired, malformed, or naming another user never lead to completion, and valid hints are accepted for every supported signing algorithm.",
  ["inputs", "configurations"],
  "all policies x session states x hints (valid, forged, expired, malformed, foreign) x stored authorizations x signing algorithms",
  "No tests; silent authentication is exactly the path where a missing check shows nothing to the user.",
  [AE, "prompt/util.go"],
  [("prompt none branch", AE)],
  ["screens shown", "responses"])

p("C16", "Offline access is granted only with explicit consent",
  "offline_access reaches the stored request, authorization, session or tokens only when the request was not implicit and its prompt asked for consent; otherwise it is dropped from the requested scope without disturbing the other scopes. When offline_access is all that is requested besides openid the request is refused unless empty scopes are allowed.",
  ["inputs", "configurations"],
  "all scope strings (position, repetition, look-alikes) x flows x prompts x policies",
  "No tests of the authorization endpoint; string handling must be right for every scope list.",
  [AE, "scope/util.go"],
  [("offline_access handling", AE), ("RemoveOfflineAccess", "scope/util.go")],
  ["request handed to screens", "CreateOrUpdateAuthInfo scope", "responses"])

p("C17", "Authorization responses use the mode the policy requires",
  "Every authorization response is delivered in the response mode determined by request and policy: the requested valid mode, else the policy default of the flow; a requested mode weaker than that default is, when the level check is on, either replaced by the default or refused, and an unknown mode is replaced or refused, as configured. Codes and tokens therefore never appear in a query string when the policy demands a stronger mode, including after login, consent or cancellation.",
  ["inputs", "configurations"],
  "all response_type x response_mode x policy combinations over direct completion, consent completion, cancel and error",
  "No endpoint tests; leaks only show in specific mode/flow/policy combinations.",
  [AE, "response_mode/util.go", "authorization/response.go"],
  [("response mode resolution", AE), ("CompareSecurityLevel", "response_mode/util.go"), ("ResponseHandlerForMode", "authorization/response.go")],
  ["Location header, HTML body"])

p("C18", "Authorization responses deliver exactly the intended parameters",
  "In each response mode the client receives, parsed as a browser would, exactly the intended parameters with exactly their values, added to an untouched redirect address: state is returned verbatim whenever it was sent, errors carry error and optional description, and parameters the redirect address already had survive. No value an attacker controls (state, redirect URI, parameters echoed in descriptions) can add, alter or hide parameters, headers, form fields or markup.",
  ["inputs"],
  "all strings in state and echoed parameters (markup, quotes, separators, controls, non-ASCII, invalid UTF-8) x all approved redirect URIs (with query, empty query, fragment, port, custom scheme, reserved characters) x modes",
  "Only the connector helper is tested with four URIs; encoding must be faithful for every string.",
  ["authorization/response.go", AE],
  [("RedirectResponseHandler", "authorization/response.go"), ("HTMLResponseHandler.render", "authorization/response.go")],
  ["Location header, HTML body"])

p("C19", "A completed request hands out and stores exactly what was asked",
  "Each response type yields exactly its artefacts (code, access token with type and lifetime, ID token) and no other, with values equal to those created by the integrator for the right authorization. The session stored for a code carries the request's redirect URI, verifier, nonce, the code itself, the login's authentication time and the policy lifetime, and the request shown to the login and consent screens carries every parameter of the incoming request unchanged.",
  ["inputs", "configurations"],
  "all response types x parameter values x policies, over direct completion and completion after consent",
  "No endpoint tests; each parameter of each flow must be propagated for every value.",
  [AE, "authorization/request.go", "flow/flow.go"],
  [("complete*FlowRequest", AE), ("ToSession", "authorization/request.go"), ("JudgeByResponseType", "flow/flow.go")],
  ["authorization response", "CreateAuthSession/CreateOAuthToken arguments", "requests given to callbacks"])

p("C20", "Integrator failures always fail closed",
  "If any data-interface method or callback fails at any point of any request (each error kind, or no error and no value), the endpoint answers with the failure that fits (server error for unsupported or internal faults, the specific OAuth error for a negative answer), never with tokens, code, a granted resource access or a redirect to an unapproved address, and never panics. Creation steps that depend on the failed answer are not performed.",
  ["fault_sequences", "configurations"],
  "every call of every data-interface method and callback in every flow x every failure kind, singly and in pairs",
  "The tests have no failing store; the guarantee is a quantification over fault points.",
  [TE, AE, RP, "grant/authorization_code.go", "grant/refresh_token.go", "grant/password.go", "grant/client_credential.go", "grant/jwt.go", "assertion/error.go", "bridge/errors.go"],
  [("error branches after each data-interface call", "all handlers")],
  ["responses, panics, later data-interface calls"])

p("C21", "Protected resources open only to live tokens, with true identity",
  "Resource protection lets a request through only if it presents, in a configured place, an access token that exists, has not outlived its lifetime since last refresh, and whose authorization is active; every such request is let through. When it does, the identity headers the application reads equal the user, client and scope of that authorization whatever the caller sent in them; when it does not, the response is an RFC 6750 challenge with fitting status and error naming the realm (or a server error) and nothing is let through.",
  ["inputs", "histories", "configurations"],
  "all header/body/query placements and acceptance settings, token states and times around the boundary, spoofed identity headers, hostile header values",
  "The test file does not compile here and covers one token; gating must hold over all placements, times and spoofing attempts.",
  [RP, "oauth_error/errors.go"],
  [("findTokenFromRequest/Validate", RP), ("OAuthError.Header", "oauth_error/errors.go")],
  ["return value, request headers, response"])

p("C22", "Scope-protected paths need every required scope",
  "A request to a path with registered scope requirements passes only if its token passes and the token's authorization contains every required scope as a whole word; otherwise it is refused with 403 insufficient_scope and a challenge naming a missing scope. Paths without requirements need only a valid token.",
  ["inputs", "configurations"],
  "all scope maps, paths and granted scope strings, including look-alike scopes, repeated and reordered lists, and caller-supplied scope headers",
  "Not covered by compiled tests; must hold for every scope list.",
  [RP, "scope/util.go"],
  [("ValidateWithScopes", RP), ("IncludeAll", "scope/util.go")],
  ["return value, response"])

p("C23", "Concurrent requests do not race and do not mix",
  "One endpoint object serves any number of concurrent requests without data races, deadlocks or crashes, and each request's outcome, created records and delivered values are exactly those it would have had alone on the same store state. No value of one request (state, nonce, code, token, error description, error URI, identity header) appears in another's response.",
  ["schedules"],
  "all interleavings of concurrent requests on shared token, authorization and resource endpoints, sampled under the race detector and with controlled schedules at data-interface calls",
  "Tests are single-threaded.",
  [TE, AE, RP, "grant/authorization_code.go", "oauth_error/errors.go", "log/logger.go"],
  [("per-request local state", "all handlers")],
  ["race detector reports, responses, data-interface calls per request"])

p("C24", "No request can crash or wedge an endpoint",
  "For every HTTP request whatsoever (method, path, headers, query, body, encoding, sizes) each endpoint returns exactly one well-formed response or callback outcome, without panicking, without hanging and without granting anything the request is not entitled to. The same endpoint object keeps serving correct requests afterwards.",
  ["inputs"],
  "arbitrary and grammar-mutated HTTP requests to the token, authorization and resource endpoints under random configurations",
  "Tests send only well-formed requests.",
  [TE, AE, RP, "assertion/error.go", "authorization/response.go"],
  [("input handling", "all handlers")],
  ["panics, responses"])

p("C25", "Secrets stay out of logs and error responses",
  "Client secrets, resource-owner passwords, signing keys and freshly issued codes, tokens and ID tokens are never written to the log at any level, on any path. Error responses, challenges and error redirects contain none of these secrets either.",
  ["inputs", "fault_sequences"],
  "all requests and failures on all endpoints with unique marker secrets, over every log level",
  "Tests do not look at log output.",
  ["log/text.go", "grant/password.go", TE, AE, RP, "assertion/error.go"],
  [("log call sites", "all handlers")],
  ["messages given to the Logger", "responses"])

p("C26", "A parked authorization request survives the round trip intact",
  "Encoding an authorization request and decoding it again, in a URL, cookie or form, returns an equal request for every field value, so that what is completed after login and consent is what was validated. Decoding arbitrary, truncated or tampered text never crashes.",
  ["inputs"],
  "all request values (any valid UTF-8 strings, all flows, int64 extremes) and arbitrary encoded strings",
  "No test covers it.",
  ["authorization/request.go", "flow/flow.go"],
  [("Encode/DecodeRequest", "authorization/request.go"), ("FlowType JSON", "flow/flow.go")],
  ["Request.Encode, DecodeRequest"])

p("C27", "PKCE primitives are exact and verifiers unguessable",
  "S256 is the unpadded base64url SHA-256 of the verifier and plain is equality, for every string, and no other method name is accepted. Generated verifiers are 43 characters of the RFC 7636 alphabet carrying 32 bytes from an unpredictable source: never repeated, even concurrently, and not reproducible from the time of generation.",
  ["inputs", "histories", "schedules"],
  "all strings for the encoders and verifiers; long sequences and concurrent batches of generated verifiers",
  "Tests pin single vectors; unpredictability and uniqueness are properties of histories.",
  ["pkce/crypto.go", "pkce/verifier.go"],
  [("S256Encode/EncodeBase64WithoutPadding/GenRandomCodeVerifier", "pkce/crypto.go"), ("FindVerifierByMethod", "pkce/verifier.go")],
  ["return values"])

p("C28", "Published keys are exactly the registered public keys",
  "The key endpoint publishes, as application/json with status 200, exactly the registered key ids, each with the modulus and exponent of the key registered under it, and never private material; a published set loads back to the same key by key id. Loading keys from PEM accepts exactly well-formed RSA keys of the requested kind and reports an error, not a crash, for everything else.",
  ["inputs", "histories"],
  "all sets of RSA keys and key ids, registration orders and re-registrations, and mutated PEM data",
  "The crypto tests do not compile here; they pin one key.",
  ["jwk_endpoint.go", "crypto/key.go"],
  [("Handler", "jwk_endpoint.go"), ("PublicKeysJWK/Load*", "crypto/key.go")],
  ["HTTP response of JWKEndpoint.Handler", "return values of Load*"])

p("C29", "Nothing is usable that was not granted, across any history",
  "Over any history of authorization requests, logins, consents, cancellations, exchanges, refreshes, resource accesses, revocations and passage of time by several users and clients, every code, token, refreshed token, ID token and resource access traces back to a grant by that user to that client with that scope that was still in force. Scope never grows along the chain, revocation stops every later use, and cancelled requests yield nothing.",
  ["histories"],
  "random multi-party histories over all endpoints on one store with a virtual clock, checked step by step against a reference model",
  "Tests exercise single steps; provenance is a property of whole histories.",
  [AE, TE, RP, "grant/authorization_code.go", "grant/refresh_token.go", "authorization/request.go"],
  [("end-to-end flow", "all handlers")],
  ["all responses and store effects"])

p("C30", "Basic credentials survive encoding and extraction exactly",
  "For every id and secret, the Basic token or header the library builds decodes to exactly that form-encoded pair, distinct pairs never share a token, and the extraction helpers and the token endpoint read from a header exactly the pair it carries, splitting at the first colon. The header takes precedence over parameters, and malformed headers yield no header credential.",
  ["inputs"],
  "all id/secret strings, header mutations, and parameter combinations",
  "Tests use userid/password only.",
  ["basic_auth/util.go", TE],
  [("Token/Header/FindClientCredential", "basic_auth/util.go"), ("findClientCredential", TE)],
  ["return values", "FindClientById/MatchSecret arguments"])

p("C31", "OAuth errors serialize faithfully in JSON, header and query form",
  "For every error type, description, URI, realm and state, the JSON, WWW-Authenticate and query renderings parse back to exactly those values (in the header: values of printable characters) with absent ones absent, each error type keeps its registered code and status, and no value can inject additional members, auth-params or parameters.",
  ["inputs"],
  "all error types x arbitrary strings",
  "Tests check two constants.",
  ["oauth_error/errors.go"],
  [("JSON/Header/Query/StatusCode/String", "oauth_error/errors.go")],
  ["return values"])

p("C32", "The log reports each event once, at its level, on one line",
  "The default logger prints a message exactly when its level is at or above the configured threshold, once, labelled with its own level, for both plain and formatted calls. Each endpoint log message is a single line naming endpoint, realm, event and attributes, in which attacker-controlled text cannot start a new line or emit terminal control sequences, and every event has a distinct non-empty name wherever it is used.",
  ["inputs", "configurations"],
  "all levels, thresholds and events x arbitrary messages, paths and attribute values, through the endpoints and directly",
  "Tests do not look at logging output beyond two strings.",
  ["log/logger.go", "log/text.go", "log/color.go"],
  [("defaultLogger", "log/logger.go"), ("EndpointLog/LogEvent.String", "log/text.go")],
  ["standard output", "messages given to the Logger"])

p("C33", "Scope, prompt, flow and mode words compare as whole words",
  "Scope and prompt lists behave as lists of whole space-separated words: membership, removal and include-all respect exact words only, and two scopes are the same exactly when they are permutations of each other. Response types are accepted in any word order and mean the same flow and artefacts, and nothing else is accepted; prompts are valid exactly when all words are known and none stands alone; modes are ordered query < fragment < form_post.",
  ["inputs"],
  "all word lists over a hostile alphabet (near-miss words, duplicates, empty words, case variants, other whitespace)",
  "Tests sample a few lists; these are algebraic laws over all strings.",
  ["scope/util.go", "prompt/util.go", "flow/flow.go", "response_mode/util.go"],
  [("Include/IncludeAll/Remove/Same/Sort", "scope/util.go"), ("Validate/Include*", "prompt/util.go"), ("JudgeByResponseType", "flow/flow.go"), ("CompareSecurityLevel", "response_mode/util.go")],
  ["return values"])

p("C34", "Endpoints obey their own configuration from the first request on",
  "A newly made endpoint is closed: the token endpoint supports no grant type, takes client credentials from HTTP Basic only and no assertions, the protector takes tokens from the Authorization header only, no error_uri is told, the clock is the real time read anew for every request, and the default policy keeps its documented bounds, lifetimes and modes and is a copy of its own for every caller. Each setting takes effect for the requests that follow, the last one made wins, and it concerns that endpoint alone. A grant handler the integrator supplies is called exactly once for a request of an authenticated and entitled client, and never otherwise, with that client, data interface, logger and time, and the client receives exactly what it returns.",
  ["configurations", "inputs"],
  "all sequences of settings and requests over several endpoints of each kind, all settings left alone or made at any point, arbitrary results of the integrator's own handlers",
  "Tests configure each endpoint once, the same way, and never look at two side by side, at the default clock or at a handler of their own.",
  ["token_endpoint.go", "resource_protector.go", "authorization_endpoint.go", "authorization/request.go", "io/time.go", "grant/interface.go"],
  [("NewTokenEndpoint/Accept*/Set*/Support/executeGrantHandler", TE), ("NewResourceProtector/AcceptAccessToken/Set*", "resource_protector.go"), ("DefaultPolicy", "authorization/request.go"), ("NowBuilder/Fixed*Builder", "io/time.go")],
  ["responses", "arguments of the integrator's handlers", "data-interface calls"])

p("C35", "A protected request reaches the application as it was sent",
  "A request that resource protection lets through still is, apart from the three identity headers, the request the client sent: method, address, headers, context and body are unchanged, the body is unread when tokens are accepted from the header only and otherwise unread or completely available as the parsed form, and nothing was written to the response. Asked again about the same request, whether it was let through or refused, the protector gives the same answer.",
  ["inputs", "configurations"],
  "all requests with bodies of all content types and sizes, all headers, all acceptance settings, with and without scope requirements",
  "Tests look at the return value and the identity headers of requests without a body.",
  ["resource_protector.go"],
  [("Validate/ValidateWithScopes/findTokenFromRequest", "resource_protector.go")],
  ["the request after Validate", "the response"])

p("C36", "Serving requests leaves nothing behind",
  "However many requests of whatever kind an endpoint serves (granted, refused for any reason, or ended by a failing data-interface call or callback), it leaves no goroutine running, no file open and no memory occupied that grows with their number, and it lets go of every request, response writer and data interface once it has answered.",
  ["histories", "inputs"],
  "long runs of each kind of request (valid, every kind of deviation, every failing call) on one endpoint",
  "Tests send one request per endpoint.",
  [TE, "authorization_endpoint.go", "resource_protector.go", "grant/authorization_code.go", "assertion/error.go"],
  [("per-request state", "all handlers")],
  ["goroutine count", "open files", "live heap objects after collection", "finalizers of requests, writers and stores"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
