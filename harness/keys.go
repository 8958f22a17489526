package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"strings"

	"github.com/golang-jwt/jwt"
)

// Key is a signing key with its algorithm family.
type Key struct {
	Name   string
	Family string // HS RS(PS too) ES256 ES384 ES512
	Priv   interface{}
	Pub    interface{}
}

var keyring []*Key

func parseRSA(p string) *rsa.PrivateKey {
	b, _ := pem.Decode([]byte(p))
	k, err := x509.ParsePKCS8PrivateKey(b.Bytes)
	if err != nil {
		panic(err)
	}
	return k.(*rsa.PrivateKey)
}

func initKeys() {
	for i, p := range rsaPEMs {
		k := parseRSA(p)
		keyring = append(keyring, &Key{Name: fmt.Sprintf("rsa%d", i), Family: "RS", Priv: k, Pub: &k.PublicKey})
	}
	for i, c := range []elliptic.Curve{elliptic.P256(), elliptic.P256(), elliptic.P384(), elliptic.P521()} {
		// deterministic scalars: the keys are test fixtures
		d := new(big.Int).SetBytes([]byte(fmt.Sprintf("verif-ec-key-fixture-%d", i)))
		k := &ecdsa.PrivateKey{D: d}
		k.Curve = c
		k.X, k.Y = c.ScalarBaseMult(d.Bytes())
		keyring = append(keyring, &Key{Name: fmt.Sprintf("ec%d", i), Family: "ES" + map[string]string{"P-256": "256", "P-384": "384", "P-521": "512"}[c.Params().Name], Priv: k, Pub: &k.PublicKey})
	}
	for i := 0; i < 3; i++ {
		b := []byte(fmt.Sprintf("hmac-key-fixture-%d-0123456789abcdef", i))
		keyring = append(keyring, &Key{Name: fmt.Sprintf("hs%d", i), Family: "HS", Priv: b, Pub: b})
	}
}

func keysOf(family string) []*Key {
	out := []*Key{}
	for _, k := range keyring {
		if k.Family == family || family == "PS" && k.Family == "RS" {
			out = append(out, k)
		}
	}
	return out
}

func famOf(alg string) string {
	switch {
	case strings.HasPrefix(alg, "HS"):
		return "HS"
	case strings.HasPrefix(alg, "RS"), strings.HasPrefix(alg, "PS"):
		return "RS"
	}
	return alg
}

var allAlgs = []string{"HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "ES256", "ES384", "ES512"}
var cheapAlgs = []string{"HS256", "HS256", "HS384", "HS512", "ES256"}

func hashOf(alg string) crypto.Hash {
	switch alg[len(alg)-3:] {
	case "256":
		return crypto.SHA256
	case "384":
		return crypto.SHA384
	}
	return crypto.SHA512
}

// signRaw signs with the Go standard library alone.
func signRaw(alg string, k *Key, input string) []byte {
	h := hashOf(alg)
	hh := h.New()
	hh.Write([]byte(input))
	sum := hh.Sum(nil)
	switch alg[:2] {
	case "HS":
		m := hmac.New(h.New, k.Priv.([]byte))
		m.Write([]byte(input))
		return m.Sum(nil)
	case "RS":
		s, err := rsa.SignPKCS1v15(rand.Reader, k.Priv.(*rsa.PrivateKey), h, sum)
		if err != nil {
			panic(err)
		}
		return s
	case "PS":
		s, err := rsa.SignPSS(rand.Reader, k.Priv.(*rsa.PrivateKey), h, sum, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthAuto})
		if err != nil {
			panic(err)
		}
		return s
	case "ES":
		pk := k.Priv.(*ecdsa.PrivateKey)
		r, s, err := ecdsa.Sign(rand.Reader, pk, sum)
		if err != nil {
			panic(err)
		}
		n := (pk.Curve.Params().BitSize + 7) / 8
		out := make([]byte, 2*n)
		r.FillBytes(out[:n])
		s.FillBytes(out[n:])
		return out
	}
	panic("alg " + alg)
}

func verifyRaw(alg string, pub interface{}, input string, sig []byte) bool {
	if len(alg) != 5 {
		return false
	}
	h := hashOf(alg)
	hh := h.New()
	hh.Write([]byte(input))
	sum := hh.Sum(nil)
	switch alg[:2] {
	case "HS":
		b, ok := pub.([]byte)
		if !ok {
			return false
		}
		m := hmac.New(h.New, b)
		m.Write([]byte(input))
		return hmac.Equal(m.Sum(nil), sig)
	case "RS":
		k, ok := pub.(*rsa.PublicKey)
		return ok && rsa.VerifyPKCS1v15(k, h, sum, sig) == nil
	case "PS":
		k, ok := pub.(*rsa.PublicKey)
		return ok && rsa.VerifyPSS(k, h, sum, sig, nil) == nil
	case "ES":
		k, ok := pub.(*ecdsa.PublicKey)
		if !ok {
			return false
		}
		n := (k.Curve.Params().BitSize + 7) / 8
		if len(sig) != 2*n {
			return false
		}
		return ecdsa.Verify(k, sum, new(big.Int).SetBytes(sig[:n]), new(big.Int).SetBytes(sig[n:]))
	}
	return false
}

var rawURL = base64.RawURLEncoding

func mustJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// makeJWT signs header and claims (already JSON) with key k under alg.
func makeJWT(alg string, k *Key, header, claims string) string {
	in := rawURL.EncodeToString([]byte(header)) + "." + rawURL.EncodeToString([]byte(claims))
	return in + "." + rawURL.EncodeToString(signRaw(alg, k, in))
}

func setJWTClock(w *World) { jwt.TimeFunc = w.TimeBuilder() }

// ---------------------------------------------------------------- ID tokens

type IDTExpect struct {
	Alg, Kid string
	Pub      interface{}
	Iss, Aud string
	Sub      string
	Nonce    string
	AuthTime int64
	Iat, Exp int64
	At, Code string // at_hash / c_hash demanded for these, "" = must be absent
}

func pubOf(key interface{}) interface{} {
	if s, ok := key.(crypto.Signer); ok {
		return s.Public()
	}
	return key
}

func leftHash(alg, v string) (spec, std string) {
	h := hashOf(alg).New()
	h.Write([]byte(v))
	s := h.Sum(nil)
	s = s[:len(s)/2]
	return rawURL.EncodeToString(s), base64.StdEncoding.EncodeToString(s)
}

// JudgeIDToken returns problems, and known findings met on the way.
func JudgeIDToken(raw string, e *IDTExpect) (problems []string, known []string) {
	bad := func(f string, a ...interface{}) { problems = append(problems, fmt.Sprintf(f, a...)) }
	parts := strings.Split(raw, ".")
	if len(parts) != 3 {
		bad("id_token has %d segments: %q", len(parts), raw)
		return
	}
	var seg [3][]byte
	for i, p := range parts {
		b, err := rawURL.Strict().DecodeString(p)
		if err != nil {
			bad("id_token segment %d is not base64url: %v", i, err)
			return
		}
		seg[i] = b
	}
	var hdr, claims map[string]interface{}
	if err := json.Unmarshal(seg[0], &hdr); err != nil {
		bad("id_token header: %v", err)
		return
	}
	d := json.NewDecoder(strings.NewReader(string(seg[1])))
	d.UseNumber()
	if err := d.Decode(&claims); err != nil {
		bad("id_token claims: %v", err)
		return
	}
	if hdr["alg"] != e.Alg {
		bad("id_token alg %v, want %v", hdr["alg"], e.Alg)
	}
	kid, has := hdr["kid"]
	if e.Kid == "" && has || e.Kid != "" && kid != jsonText(e.Kid) {
		bad("id_token kid %v, want %q", kid, e.Kid)
	}
	if !verifyRaw(e.Alg, e.Pub, parts[0]+"."+parts[1], seg[2]) {
		bad("id_token signature does not verify under the client's %s key", e.Alg)
	}
	want := map[string]interface{}{"iss": e.Iss, "aud": e.Aud, "sub": e.Sub, "iat": json.Number(fmt.Sprint(e.Iat)), "exp": json.Number(fmt.Sprint(e.Exp))}
	if e.Nonce != "" {
		want["nonce"] = e.Nonce
	}
	if e.AuthTime >= 0 {
		want["auth_time"] = json.Number(fmt.Sprint(e.AuthTime))
	}
	for name, v := range map[string]string{"at_hash": e.At, "c_hash": e.Code} {
		if v == "" {
			continue
		}
		spec, std := leftHash(e.Alg, v)
		switch claims[name] {
		case spec:
		case std:
			known = append(known, name+" is padded standard base64 instead of unpadded base64url")
		default:
			bad("id_token %s is %v, want %s", name, claims[name], spec)
		}
		delete(claims, name)
	}
	for k, v := range want {
		if s, ok := v.(string); ok {
			v = jsonText(s)
		}
		if claims[k] != v {
			bad("id_token claim %s is %v, want %v", k, claims[k], v)
		}
	}
	for k, v := range claims {
		if _, ok := want[k]; !ok {
			bad("id_token has claim %s=%v", k, v)
		}
	}
	return
}

// jsonText is what a Go string becomes after a JSON round trip (invalid UTF-8 replaced).
func jsonText(s string) string {
	b, _ := json.Marshal(s)
	var out string
	json.Unmarshal(b, &out)
	return out
}
