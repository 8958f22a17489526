package main

import (
	"fmt"
	"math"
	"strings"
)

// Assertion is a JWT with the ground truth about it.
type Assertion struct {
	Raw       string
	Malformed bool // cannot be read as header.claims.signature at all
	Alg, Kid  string
	KnownAlg  bool
	VerifyKey *Key // the key its signature truly verifies under, nil if none
	Claims    map[string]interface{}
	Note      []string
}

type AssertSpec struct {
	Alg, Kid string
	Key      *Key
	Claims   map[string]interface{}
}

// Build makes the JWT; corrupt names a corruption or "".
func (s *AssertSpec) Build(rng *Rng, corrupt string) *Assertion {
	a := &Assertion{Alg: s.Alg, Kid: s.Kid, Claims: s.Claims, VerifyKey: s.Key, KnownAlg: true}
	hdr := map[string]interface{}{"alg": s.Alg, "typ": "JWT"}
	if s.Kid != "" {
		hdr["kid"] = s.Kid
	}
	claims := mustJSON(s.Claims)
	if corrupt != "" {
		a.Note = append(a.Note, "corrupt:"+corrupt)
	}
	switch corrupt {
	case "":
		a.Raw = makeJWT(s.Alg, s.Key, mustJSON(hdr), claims)
	case "alg-none":
		hdr["alg"] = rng.Pick([]string{"none", "None", "NONE"})
		a.Raw = rawURL.EncodeToString([]byte(mustJSON(hdr))) + "." + rawURL.EncodeToString([]byte(claims)) + "."
		a.Alg, a.VerifyKey, a.KnownAlg = hdr["alg"].(string), nil, false
	case "alg-unknown":
		hdr["alg"] = rng.Pick([]string{"HS999", "hs256", "RS128", "", "ES256K", "A256KW", "EdDSA"})
		in := rawURL.EncodeToString([]byte(mustJSON(hdr))) + "." + rawURL.EncodeToString([]byte(claims))
		a.Raw = in + "." + rawURL.EncodeToString(signRaw(s.Alg, s.Key, in))
		a.Alg, a.VerifyKey, a.KnownAlg = hdr["alg"].(string), nil, false
	case "alg-type":
		hdr["alg"] = rng.pickAny([]interface{}{nil, 5, true, []string{"HS256"}, map[string]string{}})
		in := rawURL.EncodeToString([]byte(mustJSON(hdr))) + "." + rawURL.EncodeToString([]byte(claims))
		a.Raw = in + "." + rawURL.EncodeToString(signRaw(s.Alg, s.Key, in))
		a.VerifyKey, a.KnownAlg = nil, false
	case "alg-swap": // header names another algorithm than the one that made the signature
		for {
			alg := rng.Pick(allAlgs)
			if alg != s.Alg {
				hdr["alg"] = alg
				a.Alg = alg
				break
			}
		}
		in := rawURL.EncodeToString([]byte(mustJSON(hdr))) + "." + rawURL.EncodeToString([]byte(claims))
		a.Raw = in + "." + rawURL.EncodeToString(signRaw(s.Alg, s.Key, in))
		a.VerifyKey = nil
	case "hmac-with-public": // HMAC keyed with the PEM-like bytes of a public key
		hdr["alg"] = "HS256"
		in := rawURL.EncodeToString([]byte(mustJSON(hdr))) + "." + rawURL.EncodeToString([]byte(claims))
		k := &Key{Family: "HS", Priv: []byte(fmt.Sprint(s.Key.Pub))}
		a.Raw = in + "." + rawURL.EncodeToString(signRaw("HS256", k, in))
		a.Alg, a.VerifyKey = "HS256", nil
	case "sig-flip":
		a.Raw = makeJWT(s.Alg, s.Key, mustJSON(hdr), claims)
		p := strings.Split(a.Raw, ".")
		b, _ := rawURL.DecodeString(p[2])
		b[rng.N(len(b))] ^= byte(1 << rng.N(8))
		a.Raw = p[0] + "." + p[1] + "." + rawURL.EncodeToString(b)
		a.VerifyKey = nil
	case "sig-empty":
		a.Raw = makeJWT(s.Alg, s.Key, mustJSON(hdr), claims)
		p := strings.Split(a.Raw, ".")
		a.Raw = p[0] + "." + p[1] + "."
		a.VerifyKey = nil
	case "sig-short":
		a.Raw = makeJWT(s.Alg, s.Key, mustJSON(hdr), claims)
		p := strings.Split(a.Raw, ".")
		b, _ := rawURL.DecodeString(p[2])
		a.Raw = p[0] + "." + p[1] + "." + rawURL.EncodeToString(b[:len(b)-1-rng.N(len(b)-1)])
		a.VerifyKey = nil
	case "sig-garbage":
		a.Raw = makeJWT(s.Alg, s.Key, mustJSON(hdr), claims)
		p := strings.Split(a.Raw, ".")
		a.Raw = p[0] + "." + p[1] + "." + rng.Pick([]string{"!!!!", "a", "%", "====", "\xff\xff"})
		a.VerifyKey = nil
	case "payload-swap": // signature of other claims
		other := map[string]interface{}{}
		for k, v := range s.Claims {
			other[k] = v
		}
		other["zz"] = rng.Str(5)
		x := strings.Split(makeJWT(s.Alg, s.Key, mustJSON(hdr), mustJSON(other)), ".")
		a.Raw = rawURL.EncodeToString([]byte(mustJSON(hdr))) + "." + rawURL.EncodeToString([]byte(claims)) + "." + x[2]
		a.VerifyKey = nil
	case "other-key":
		for {
			k := keyring[rng.N(len(keyring))]
			if k.Family == s.Key.Family && k != s.Key {
				a.Raw = makeJWT(s.Alg, k, mustJSON(hdr), claims)
				a.VerifyKey = k
				break
			}
			if len(keysOf(s.Key.Family)) < 2 {
				a.Raw = makeJWT(s.Alg, s.Key, mustJSON(hdr), claims)
				p := strings.Split(a.Raw, ".")
				a.Raw = p[0] + "." + p[1] + ".AAAA"
				a.VerifyKey = nil
				break
			}
		}
	case "segments":
		a.Raw = makeJWT(s.Alg, s.Key, mustJSON(hdr), claims)
		p := strings.Split(a.Raw, ".")
		a.Raw = rng.Pick([]string{p[0], p[0] + "." + p[1], p[0] + "." + p[1] + "." + p[2] + ".x", "..", ".", "...", p[0] + "." + p[2] + "." + p[1],
			"." + p[1] + "." + p[2], p[0] + ".." + p[2], a.Raw + "." + a.Raw, "Bearer " + a.Raw})
		a.Malformed = true
	case "header-json":
		h := rng.Pick([]string{"{", "null", "[]", "\"x\"", "5", "{\"alg\":\"" + s.Alg + "\"", "", "{\"alg\":}"})
		in := rawURL.EncodeToString([]byte(h)) + "." + rawURL.EncodeToString([]byte(claims))
		a.Raw = in + "." + rawURL.EncodeToString(signRaw(s.Alg, s.Key, in))
		a.Malformed = true
	case "claims-json":
		cl := rng.Pick([]string{"{", "null", "[]", "\"x\"", "5", claims[:len(claims)-1], "", "{\"sub\":}"})
		a.Raw = makeJWT(s.Alg, s.Key, mustJSON(hdr), cl)
		a.Malformed = true
	case "base64":
		a.Raw = makeJWT(s.Alg, s.Key, mustJSON(hdr), claims)
		p := strings.Split(a.Raw, ".")
		i := rng.N(2)
		p[i] = rng.Pick([]string{"!" + p[i], p[i] + "$", "*", "\xff", p[i][:len(p[i])-1] + "+/="})
		a.Raw = strings.Join(p, ".")
		a.Malformed = true
	case "garbage":
		a.Raw = rng.Hostile()
		if a.Raw == "" {
			a.Raw = "x"
		}
		a.Malformed = true
	default:
		panic(corrupt)
	}
	return a
}

// decoyClaim is a value for a claim without a meaning.
func (w *World) decoyClaim(rng *Rng) interface{} {
	switch rng.N(6) {
	case 0:
		return w.Now + rng.PickI([]int64{0, 1, -1, 1000, -1000})
	case 1:
		return rng.pickAny([]interface{}{nil, true, false, 0, 1.5, map[string]interface{}{"sub": w.Decoy(rng)}, []string{w.Decoy(rng)}, []int{}})
	}
	for {
		if s := w.Decoy(rng); validUTF8(s) {
			return s
		}
	}
}

// scopeClaims puts words into claims that speak of scopes, and grant none.
func (rng *Rng) scopeClaims(claims map[string]interface{}) {
	var s []string
	for n := 1 + rng.N(3); n > 0; n-- {
		s = append(s, rng.Pick(scopeWords))
	}
	for _, k := range []string{"scope", "scp", "scopes", "permissions", "roles"} {
		if rng.P(60) {
			claims[k] = strings.Join(s, " ")
			if rng.P(30) {
				claims[k] = s
			}
		}
	}
}

// elsewhere puts the subject into claims that don't tell it.
func (rng *Rng) elsewhere(claims map[string]interface{}, sub string) {
	if rng.Bool() {
		for _, k := range []string{"user_id", "uid", "user", "username", "preferred_username", "name", "email", "id", "subject", "Sub", "login_hint", "azp", "client_id", rng.Name(jwtNames)} {
			if rng.P(60) && k != "iss" {
				claims[k] = sub
			}
		}
	}
}

var corruptions = []string{"alg-none", "alg-unknown", "alg-type", "alg-swap", "hmac-with-public", "sig-flip", "sig-empty", "sig-short",
	"sig-garbage", "payload-swap", "other-key", "segments", "header-json", "claims-json", "base64", "garbage"}

func (r *Rng) pickAny(v []interface{}) interface{} { return v[r.N(len(v))] }

// numClaim reads a numeric claim the way a JSON reader does.
func numClaim(v interface{}) (n int64, present, numeric bool) {
	switch x := v.(type) {
	case nil:
		return 0, false, false
	case int:
		return int64(x), true, true
	case int64:
		return x, true, true
	case float64:
		return int64(math.Trunc(x)), true, true
	default:
		return 0, true, false
	}
}

// TimeProblems lists what is wrong with the claims other than subject and signature.
func (a *Assertion) claimProblems(now int64, issuer string) []string {
	var out []string
	exp, has, num := numClaim(a.Claims["exp"])
	_, hasKey := a.Claims["exp"]
	switch {
	case !hasKey || !has || !num:
		out = append(out, "exp-missing")
	case exp <= 0 || now > exp:
		out = append(out, "expired")
	}
	for _, k := range []string{"nbf", "iat"} {
		v, has := a.Claims[k]
		if !has {
			continue
		}
		n, _, num := numClaim(v)
		if !num {
			out = append(out, k+"-type")
		} else if now < n {
			out = append(out, k+"-future")
		}
	}
	aud, ok := a.Claims["aud"].(string)
	if !ok {
		out = append(out, "aud-missing")
	} else if aud != issuer {
		out = append(out, "aud-foreign")
	}
	return out
}

// recorded is the jti, iat and exp that have to be registered for the assertion.
func (a *Assertion) recorded() (string, int64, int64) {
	jti, _ := a.Claims["jti"].(string)
	iat := int64(-1)
	if n, has, num := numClaim(a.Claims["iat"]); has && num {
		iat = n
	}
	exp, _, _ := numClaim(a.Claims["exp"])
	return jti, iat, exp
}
