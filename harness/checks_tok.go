package main

import (
	"fmt"
	"strings"

	"github.com/lyokato/goidc/grant"
)

// tokSig says what a token case exercised.
func tokSig(tc *TokCase, e *TokExpect, rec *Rec) string {
	return fmt.Sprintf("%s|%s|%v|%d|%v|%s", tc.GT, tc.Channel, tc.Muts, rec.Status, tc.Cfg.Secret, e.names())
}

func runTok(x *Ctx, gen string, n int, gt string, focus []string, nontrivial func(tc *TokCase, e *TokExpect) bool) {
	x.Run(gen, n, func(c *Case) {
		g := gt
		if g == "any" {
			g = ""
		}
		start := *c.Rng
		tc := GenTok(c.Rng, g, focus)
		e, rec, _, _ := tc.Go(c)
		if !c.bad && c.Rng.P(40) { // the same in a world that differs in some detail only
			twin := GenTok(&Rng{start.s}, g, focus)
			twin.W.vary(c.Rng)
			twin.Go(c)
			c.Count("twins")
		}
		if nontrivial == nil || nontrivial(tc, e) {
			c.Nontrivial(tokSig(tc, e, rec))
			c.Sample()
		}
	})
}

// vary changes details of a world: what is remembered of another one doesn't fit any more.
func (w *World) vary(rng *Rng) {
	codes := []string{}
	for k := range w.Sessions {
		codes = append(codes, k)
	}
	sortStrings(codes)
	for _, k := range codes {
		s := w.Sessions[k]
		if rng.P(60) {
			s.AuthTime -= int64(1 + rng.N(5000))
		}
		if rng.P(20) && s.Nonce != "" {
			s.Nonce += "-x"
		}
	}
	for _, id := range sortedInfos(w) {
		i := w.Infos[id]
		if rng.P(20) {
			i.Subject += "-x"
		}
		if rng.P(20) {
			i.Scope = strings.TrimPrefix(i.Scope+" tweaked", " ")
		}
		if rng.P(5) {
			i.Active = !i.Active
		}
	}
	if rng.P(20) {
		w.AccessTTL += 7
	}
	if rng.P(20) {
		w.IdTokenTTL += 5
	}
}

func init() {
	checks["C01"] = func(x *Ctx) {
		x.R.Rule = "token requests against generated stores, each valid or with 1-2 defects; nontrivial by (grant, channel, defects, config, status, broken rules)"
		runTok(x, "tok", x.Scale(40000, 600000), "any", []string{"method", "gt-missing", "gt-odd", "gt-unsupported", "cred-none", "cred-wrong-secret", "cred-near-secret", "cred-near-id",
			"cred-other-secret", "cred-other-id", "cred-channel", "cred-malformed", "not-entitled", "disabled", "cred-empty", "ca-corrupt", "ca-claims", "ca-key", "ca-type", "ca-sub", "ca-off"}, nil)
		x.Require("granted", 5000)
		x.Require("cond.client_secret_mismatch", 500)
		x.Require("cond.client_not_entitled_to_the_grant_type", 500)
		x.Require("cond.no_acceptable_credential", 500)
		x.Require("cond.assertion_signature_does_not_verify", 20)
	}
	checks["C02"] = func(x *Ctx) {
		x.R.Rule = "authorization_code requests, each valid or with 1-2 defects; nontrivial by (channel, defects, status, broken rules)"
		runTok(x, "code", x.Scale(40000, 600000), grant.TypeAuthorizationCode, []string{"code-missing", "code-unknown", "code-disabled", "code-late", "code-edge", "code-other-client", "uri-missing", "uri-near", "uri-other", "info-inactive", "info-missing", "other-scope"}, nil)
		x.Require("granted", 5000)
		for _, k := range []string{"code_expired", "redirect_uri_differs", "authorization_not_active", "code_of_another_client", "code_unknown_or_used"} {
			x.Require("cond."+k, 300)
		}
	}
	checks["C03"] = func(x *Ctx) {
		x.R.Rule = "authorization_code requests for codes with a recorded verifier; nontrivial by (channel, defects, status, broken rules)"
		runTok(x, "pkce", x.Scale(40000, 600000), grant.TypeAuthorizationCode, []string{"pkce-method", "pkce-method-missing", "pkce-missing", "pkce-near", "pkce-swap", "pkce-pad", "pkce-none"},
			func(tc *TokCase, e *TokExpect) bool { return e.Session != nil && e.Session.Verifier != "" })
		x.Require("granted", 5000)
		x.Require("cond.code_challenge_wrong", 1000)
		x.Require("cond.code_challenge_missing", 500)
		x.Require("cond.code_challenge_method_not_supported", 500)
	}
	checks["C05"] = func(x *Ctx) {
		x.R.Rule = "refresh_token requests, each valid or with 1-2 defects; nontrivial by (channel, defects, status, broken rules)"
		runTok(x, "refresh", x.Scale(40000, 600000), grant.TypeRefreshToken, dimsOf[grant.TypeRefreshToken], nil)
		x.Require("granted", 5000)
		for _, k := range []string{"refresh_token_expired", "refresh_token_unknown", "refresh_token_of_another_client", "no_offline_access", "authorization_not_active"} {
			x.Require("cond."+k, 300)
		}
	}
	checks["C06"] = func(x *Ctx) {
		x.R.Rule = "password, client_credentials and JWT requests, each valid or with 1-2 defects; nontrivial by (grant, channel, defects, status, broken rules)"
		for _, gt := range []string{grant.TypePassword, grant.TypeClientCredentials, grant.TypeJWT} {
			runTok(x, "direct-"+gt, x.Scale(20000, 300000), gt, append([]string{}, dimsOf[gt]...), nil)
		}
		x.Require("granted", 5000)
		for _, k := range []string{"scope_not_allowed", "user_unknown", "client_has_no_owner", "assertion_subject_is_no_user"} {
			x.Require("cond."+k, 300)
		}
	}
	checks["C07"] = func(x *Ctx) {
		x.R.Rule = "assertions as client authentication and as grant, each valid or corrupted (signature, key, claims, encoding); nontrivial by (grant, channel, defects, assertion notes, status, broken rules)"
		runTok(x, "jwt", x.Scale(40000, 500000), grant.TypeJWT, []string{"a-corrupt", "a-claims", "a-key", "a-sub", "a-replay"}, nil)
		runTok(x, "ca", x.Scale(40000, 500000), "any", []string{"ca-corrupt", "ca-claims", "ca-key", "ca-sub", "ca-replay"}, func(tc *TokCase, e *TokExpect) bool { return tc.Channel == "assertion" })
		x.Require("granted", 5000)
		for _, k := range []string{"assertion_malformed", "assertion_signature_does_not_verify", "assertion_expired", "assertion_exp-missing", "assertion_aud-foreign", "assertion_aud-missing",
			"assertion_nbf-future", "assertion_iat-future", "no_key_registered_for_algorithm_and_key_id", "assertion_names_no_subject"} {
			x.Require("cond."+k, 50)
		}
	}
	checks["C09"] = func(x *Ctx) {
		x.R.Rule = "token requests of every grant, valid and defective; nontrivial by (grant, channel, defects, config, status, broken rules)"
		runTok(x, "resp", x.Scale(60000, 900000), "any", nil, nil)
		x.Require("granted", 5000)
		x.Require("refused", 5000)
		x.Require("judged.405", 100)
	}
}
