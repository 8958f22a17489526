package main

// C28: what the key endpoint publishes, and which keys the loaders accept. framework.go, rng.go and
// keys_pem.go are taken from ../harness when this is built.

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"mime"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/crypto"
)

func validUTF8(s string) bool        { return utf8.ValidString(s) }
func upper(s string) string          { return strings.ToUpper(s) }
func lower(s string) string          { return strings.ToLower(s) }
func sprint(a ...interface{}) string { return fmt.Sprint(a...) }
func hasWord(list, w string) bool {
	for _, x := range strings.Split(list, " ") {
		if x == w {
			return true
		}
	}
	return false
}

var privs []*rsa.PrivateKey
var others []string // keys of other kinds, as PEM
var dir string

func must(b []byte, err error) []byte {
	if err != nil {
		panic(err)
	}
	return b
}

func toPEM(label string, der []byte) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: label, Bytes: der}))
}

func initKeys() {
	for _, p := range rsaPEMs {
		b, _ := pem.Decode([]byte(p))
		k, err := x509.ParsePKCS8PrivateKey(b.Bytes)
		if err != nil {
			panic(err)
		}
		privs = append(privs, k.(*rsa.PrivateKey))
	}
	ec, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	ep, es, err := ed25519.GenerateKey(rand.Reader)
	if err != nil {
		panic(err)
	}
	others = []string{
		toPEM("PUBLIC KEY", must(x509.MarshalPKIXPublicKey(&ec.PublicKey))), toPEM("PUBLIC KEY", must(x509.MarshalPKIXPublicKey(ep))),
		toPEM("PRIVATE KEY", must(x509.MarshalPKCS8PrivateKey(ec))), toPEM("PRIVATE KEY", must(x509.MarshalPKCS8PrivateKey(es))),
		toPEM("EC PRIVATE KEY", must(x509.MarshalECPrivateKey(ec))), toPEM("RSA PRIVATE KEY", must(x509.MarshalECPrivateKey(ec))),
		toPEM("RSA PRIVATE KEY", must(x509.MarshalPKIXPublicKey(&ec.PublicKey))), toPEM("PUBLIC KEY", must(x509.MarshalPKCS8PrivateKey(ec))),
		toPEM("CERTIFICATE", []byte("nothing")), toPEM("PUBLIC KEY", nil), toPEM("RSA PRIVATE KEY", nil), toPEM("RSA PRIVATE KEY", must(x509.MarshalPKCS8PrivateKey(privs[0]))),
		toPEM("PUBLIC KEY", x509.MarshalPKCS1PrivateKey(privs[0])), toPEM("RSA PRIVATE KEY", must(x509.MarshalPKIXPublicKey(&privs[0].PublicKey))),
		toPEM("PUBLIC KEY", x509.MarshalPKCS1PublicKey(&privs[0].PublicKey)),
	}
}

// genPub makes a public key; only its numbers matter here.
func genPub(rng *Rng) *rsa.PublicKey {
	if rng.P(15) {
		k := privs[rng.N(len(privs))].PublicKey
		return &k
	}
	bits := []int{512, 768, 1023, 1024, 1025, 1031, 2047, 2048, 3072, 4096}[rng.N(10)]
	b := rng.Bytes((bits + 7) / 8)
	n := new(big.Int).SetBytes(b)
	n.SetBit(n, bits-1, 1).SetBit(n, 0, 1)
	n.And(n, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1)))
	return &rsa.PublicKey{N: n, E: int([]int64{3, 17, 257, 65537, 65537, 65537, 1<<31 - 1, 128, 32769}[rng.N(9)])}
}

func pubPEM(k *rsa.PublicKey) string { return toPEM("PUBLIC KEY", must(x509.MarshalPKIXPublicKey(k))) }

func samePub(a, b *rsa.PublicKey) bool {
	return a != nil && b != nil && a.N != nil && a.N.Cmp(b.N) == 0 && a.E == b.E
}

// capture gives back what f panicked with.
func capture(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprint(e)
		}
	}()
	f()
	return
}

// published reads a key set as a client would.
func published(body []byte) (map[string]*rsa.PublicKey, string) {
	var doc map[string]json.RawMessage
	d := json.NewDecoder(bytes.NewReader(body))
	if err := d.Decode(&doc); err != nil {
		return nil, "not a JSON object: " + err.Error()
	}
	if d.More() {
		return nil, "something follows the JSON object"
	}
	for k := range doc {
		if k != "keys" {
			return nil, "unexpected member " + k
		}
	}
	raw, ok := doc["keys"]
	if !ok {
		return nil, "no keys member"
	}
	var keys []map[string]interface{}
	if err := json.Unmarshal(raw, &keys); err != nil {
		return nil, "keys: " + err.Error()
	}
	out := map[string]*rsa.PublicKey{}
	for _, k := range keys {
		s := map[string]string{}
		for name, v := range k {
			t, ok := v.(string)
			switch name {
			case "kty", "n", "e", "kid", "use", "alg":
				if !ok {
					return nil, fmt.Sprintf("member %s of %v isn't a string", name, k)
				}
				s[name] = t
			case "d", "p", "q", "dp", "dq", "qi", "oth", "k":
				return nil, fmt.Sprintf("private member %s is published", name)
			default:
				return nil, "unexpected member " + name
			}
		}
		if s["kty"] != "RSA" {
			return nil, fmt.Sprintf("kty %q", s["kty"])
		}
		n, err := base64.RawURLEncoding.DecodeString(s["n"])
		if err != nil || len(n) == 0 {
			return nil, fmt.Sprintf("modulus %q: %v", s["n"], err)
		}
		e, err := base64.RawURLEncoding.DecodeString(s["e"])
		if err != nil || len(e) == 0 || len(e) > 8 {
			return nil, fmt.Sprintf("exponent %q: %v", s["e"], err)
		}
		if _, ok := k["kid"]; !ok && out[""] == nil {
			s["kid"] = ""
		}
		if out[s["kid"]] != nil {
			return nil, fmt.Sprintf("key id %q twice", s["kid"])
		}
		out[s["kid"]] = &rsa.PublicKey{N: new(big.Int).SetBytes(n), E: int(new(big.Int).SetBytes(e).Int64())}
	}
	return out, ""
}

func judgeSet(c *Case, body []byte, want map[string]*rsa.PublicKey) {
	got, problem := published(body)
	if problem != "" {
		c.Violate("C28", "%s in %s", problem, body)
		return
	}
	for kid, k := range want {
		if got[kid] == nil {
			c.Violate("C28", "key %q isn't published: %s", kid, body)
		} else if !samePub(got[kid], k) {
			c.Violate("C28", "key %q is published with modulus %v and exponent %d, not %v and %d", kid, got[kid].N, got[kid].E, k.N, k.E)
		}
	}
	for kid := range got {
		if want[kid] == nil {
			c.Violate("C28", "key %q is published and not registered", kid)
		}
	}
	for kid, k := range want {
		var back *rsa.PublicKey
		var err error
		if p := capture(func() { back, err = crypto.LoadPublicKeyFromJWK(string(body), kid) }); p != "" {
			c.Violate("C28", "loading key %q from the published set panicked: %s", kid, p)
		} else if err != nil || !samePub(back, k) {
			c.Violate("C28", "key %q loads back as %v, %v", kid, back, err)
		}
		c.Count("loaded.back")
	}
	for _, kid := range []string{"nobody's", "", c.Rng.Str(5)} {
		if want[kid] != nil {
			continue
		}
		var err error
		var back *rsa.PublicKey
		if p := capture(func() { back, err = crypto.LoadPublicKeyFromJWK(string(body), kid) }); p != "" || err == nil {
			c.Violate("C28", "loading unknown key %q gave %v (panic %q)", kid, back, p)
		}
	}
}

func genKid(rng *Rng) string {
	switch rng.N(4) {
	case 0:
		return rng.Pick([]string{"k1", "k2", "K1", "my_key_id", "0", "a b", "kid", "keys", "\"", "</script>", "日本"})
	case 1:
		return rng.HostileText()
	default:
		return rng.Str(1 + rng.N(12))
	}
}

func runEndpoint(x *Ctx, gen string, n int) {
	x.Run(gen, n, func(c *Case) {
		rng := c.Rng
		e := goidc.NewJWKEndpoint()
		want := map[string]*rsa.PublicKey{}
		var kids []string
		steps := rng.N(8)
		sig := fmt.Sprint(steps)
		serve := func() {
			var h http.HandlerFunc
			if p := capture(func() { h = e.Handler() }); p != "" {
				c.Violate("C28", "Handler panicked: %s", p)
				return
			}
			get := func() *httptest.ResponseRecorder {
				rec := httptest.NewRecorder()
				h(rec, httptest.NewRequest("GET", rng.Pick([]string{"/jwks", "/", "/jwks?kid=k1"}), nil))
				return rec
			}
			for i := 1 + rng.N(2); i > 0; i-- {
				rec := get()
				c.Count("served")
				mt, _, _ := mime.ParseMediaType(rec.Header().Get("Content-Type"))
				if rec.Code != 200 || mt != "application/json" {
					c.Violate("C28", "status %d, Content-Type %q", rec.Code, rec.Header()["Content-Type"])
				}
				judgeSet(c, rec.Body.Bytes(), want)
				for _, k := range privs {
					for _, v := range []*big.Int{k.D, k.Primes[0], k.Primes[1]} {
						if bytes.Contains(rec.Body.Bytes(), []byte(base64.RawURLEncoding.EncodeToString(v.Bytes()))) {
							c.Violate("C28", "private number of a key is published")
						}
					}
				}
			}
			if rng.P(20) { // several at once
				var wg sync.WaitGroup
				bodies := make([]string, 4)
				for i := range bodies {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						rec := httptest.NewRecorder()
						h(rec, httptest.NewRequest("GET", "/", nil))
						bodies[i] = rec.Body.String()
					}(i)
				}
				wg.Wait()
				for _, b := range bodies {
					judgeSet(c, []byte(b), want)
				}
				c.Count("served.together")
			}
		}
		for i := 0; i < steps && !c.bad; i++ {
			kid := genKid(rng)
			if len(kids) > 0 && rng.P(30) {
				kid = kids[rng.N(len(kids))]
			}
			k := genPub(rng)
			text := pubPEM(k)
			bad := rng.P(20)
			if bad {
				text = rng.Pick(append([]string{"", "junk", toPEM("RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(privs[0])), toPEM("PRIVATE KEY", must(x509.MarshalPKCS8PrivateKey(privs[0])))}, others[:9]...))
			}
			how := "text"
			add := func() { e.AddFromText(kid, text) }
			if rng.P(30) {
				how = "file"
				p := filepath.Join(dir, fmt.Sprintf("%d-%d.pem", c.Index, i))
				if err := os.WriteFile(p, []byte(text), 0600); err != nil {
					panic(err)
				}
				defer os.Remove(p)
				add = func() { e.AddFromFile(kid, p) }
			}
			c.Desc("register %q from %s (%v bits, exponent %d, unusable %v)", kid, how, k.N.BitLen(), k.E, bad)
			p := capture(add) // refuses unusable keys by panicking
			if p != "" && !bad {
				c.Violate("C28", "registering a key panicked: %s", p)
			}
			if !bad {
				want[kid] = k
				kids = append(kids, kid)
				c.Count("registered." + how)
			} else {
				c.Count("refused")
				if p == "" { // no panic: then nothing may have been registered
					c.Count("refused.quietly")
				}
			}
			sig += fmt.Sprint(how[0], bad, len(want))
			if rng.P(30) {
				serve()
			}
		}
		serve()
		sort.Strings(kids)
		c.Nontrivial(sig + strings.Join(kids, "\x00"))
		c.Sample()
	})
}

// runSets publishes sets without the endpoint.
func runSets(x *Ctx, gen string, n int) {
	x.Run(gen, n, func(c *Case) {
		rng := c.Rng
		want := map[string]*rsa.PublicKey{}
		for i := rng.N(20); i > 0; i-- {
			want[genKid(rng)] = genPub(rng)
		}
		if rng.P(10) {
			want[""] = genPub(rng)
			delete(want, "") // an empty key id can't be told from none
		}
		var body []byte
		var err error
		if p := capture(func() { body, err = crypto.PublicKeysJWK(want) }); p != "" || err != nil {
			c.Violate("C28", "PublicKeysJWK: %v %s", err, p)
			return
		}
		c.Desc("%d keys: %s", len(want), body)
		judgeSet(c, body, want)
		c.Count("sets")
		c.Nontrivial(string(body))
	})
}

// reference tells what a loader should make of a PEM text.
func refPublic(text []byte) (*rsa.PublicKey, bool) {
	b, _ := pem.Decode(text)
	if b == nil {
		return nil, false
	}
	k, err := x509.ParsePKIXPublicKey(b.Bytes)
	if err != nil {
		return nil, false
	}
	r, ok := k.(*rsa.PublicKey)
	return r, ok
}

func refPrivate(text []byte) (*rsa.PrivateKey, bool) {
	b, _ := pem.Decode(text)
	if b == nil {
		return nil, false
	}
	if k, err := x509.ParsePKCS1PrivateKey(b.Bytes); err == nil {
		return k, true
	}
	if k, err := x509.ParsePKCS8PrivateKey(b.Bytes); err == nil {
		r, ok := k.(*rsa.PrivateKey)
		return r, ok
	}
	return nil, false
}

// judgeLoad gives a text to all loaders. must says the text is a key of that kind in the form documented.
func judgeLoad(c *Case, text string, mustPub *rsa.PublicKey, mustPriv *rsa.PrivateKey) {
	path := filepath.Join(dir, fmt.Sprintf("load-%d.pem", c.Index))
	if err := os.WriteFile(path, []byte(text), 0600); err != nil {
		panic(err)
	}
	defer os.Remove(path)
	label := ""
	if b, _ := pem.Decode([]byte(text)); b != nil {
		label = b.Type
	}
	for name, f := range map[string]func() (*rsa.PublicKey, error){
		"text": func() (*rsa.PublicKey, error) { return crypto.LoadPublicKeyFromText(text) },
		"data": func() (*rsa.PublicKey, error) { return crypto.LoadPublicKeyFromData([]byte(text)) },
		"file": func() (*rsa.PublicKey, error) { return crypto.LoadPublicKeyFromFile(path) },
	} {
		var k *rsa.PublicKey
		var err error
		if p := capture(func() { k, err = f() }); p != "" {
			c.Violate("C28", "loading a public key from %s panicked: %s", name, p)
			continue
		}
		ref, ok := refPublic([]byte(text))
		switch {
		case err == nil && k == nil:
			c.Violate("C28", "neither key nor error from %s", name)
		case err == nil && (!ok || !samePub(k, ref)):
			c.Violate("C28", "from %s a public key was loaded (%v) that isn't there (%v)", name, k, ref)
		case err == nil && label != "PUBLIC KEY":
			c.Violate("C28", "a %q was loaded as a public key from %s", label, name)
		case err != nil && mustPub != nil:
			c.Violate("C28", "a public key wasn't loaded from %s: %v", name, err)
		case err == nil && mustPub != nil && !samePub(k, mustPub):
			c.Violate("C28", "another public key was loaded from %s", name)
		}
		if err == nil {
			c.Count("public.loaded")
		} else {
			c.Count("public.refused")
		}
	}
	for name, f := range map[string]func() (*rsa.PrivateKey, error){
		"text": func() (*rsa.PrivateKey, error) { return crypto.LoadPrivateKeyFromText(text) },
		"data": func() (*rsa.PrivateKey, error) { return crypto.LoadPrivateKeyFromData([]byte(text)) },
		"file": func() (*rsa.PrivateKey, error) { return crypto.LoadPrivateKeyFromFile(path) },
	} {
		var k *rsa.PrivateKey
		var err error
		if p := capture(func() { k, err = f() }); p != "" {
			c.Violate("C28", "loading a private key from %s panicked: %s", name, p)
			continue
		}
		ref, ok := refPrivate([]byte(text))
		same := func(o *rsa.PrivateKey) bool {
			return k != nil && o != nil && k.D.Cmp(o.D) == 0 && samePub(&k.PublicKey, &o.PublicKey)
		}
		switch {
		case err == nil && k == nil:
			c.Violate("C28", "neither key nor error from %s", name)
		case err == nil && (!ok || !same(ref)):
			c.Violate("C28", "from %s a private key was loaded that isn't there", name)
		case err == nil && !strings.Contains(label, "PRIVATE KEY"):
			c.Violate("C28", "a %q was loaded as a private key from %s", label, name)
		case err != nil && mustPriv != nil:
			c.Violate("C28", "a private key wasn't loaded from %s: %v", name, err)
		case err == nil && mustPriv != nil && !same(mustPriv):
			c.Violate("C28", "another private key was loaded from %s", name)
		}
		if err == nil {
			c.Count("private.loaded")
		} else {
			c.Count("private.refused")
		}
	}
}

func dress(rng *Rng, text string) string {
	switch rng.N(6) {
	case 0:
		return strings.ReplaceAll(text, "\n", "\r\n")
	case 1:
		return "some text before\n" + text
	case 2:
		return text + "some text after\n"
	case 3:
		return strings.TrimSuffix(text, "\n")
	case 4:
		return "\n\n" + text + "\n\n"
	}
	return text
}

func runLoad(x *Ctx, gen string, n int) {
	x.Run(gen, n, func(c *Case) {
		rng := c.Rng
		if rng.Bool() {
			k := genPub(rng)
			text := dress(rng, pubPEM(k))
			c.Desc("%q", text)
			judgeLoad(c, text, k, nil)
			c.Nontrivial(text)
		} else {
			k := privs[rng.N(len(privs))]
			text := dress(rng, toPEM("RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(k)))
			c.Desc("%q", text)
			judgeLoad(c, text, nil, k)
			c.Nontrivial(text)
		}
		c.Sample()
	})
	x.Run(gen+".other", len(others), func(c *Case) {
		c.Desc("%q", others[c.Index])
		judgeLoad(c, others[c.Index], nil, nil)
	})
	x.Run(gen+".files", 8, func(c *Case) {
		for _, p := range []string{filepath.Join(dir, "nothing-there.pem"), dir, "", "\x00", filepath.Join(dir, "x", "y")} {
			var err error
			if s := capture(func() { _, err = crypto.LoadPublicKeyFromFile(p) }); s != "" || err == nil {
				c.Violate("C28", "loading a public key from file %q: %v, panic %q", p, err, s)
			}
			if s := capture(func() { _, err = crypto.LoadPrivateKeyFromFile(p) }); s != "" || err == nil {
				c.Violate("C28", "loading a private key from file %q: %v, panic %q", p, err, s)
			}
			c.Count("files")
		}
	})
	x.Run(gen+".mutated", n*2, func(c *Case) {
		rng := c.Rng
		var text string
		switch rng.N(4) {
		case 0:
			text = others[rng.N(len(others))]
		case 1:
			text = toPEM("RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(privs[rng.N(len(privs))]))
		default:
			text = pubPEM(genPub(rng))
		}
		how := rng.N(8)
		switch how {
		case 0: // truncated
			text = text[:rng.N(len(text))]
		case 1: // bytes changed
			b := []byte(text)
			for i := 1 + rng.N(4); i > 0; i-- {
				b[rng.N(len(b))] = byte(rng.N(256))
			}
			text = string(b)
		case 2: // another label
			l := rng.Pick([]string{"PUBLIC KEY", "RSA PRIVATE KEY", "PRIVATE KEY", "RSA PUBLIC KEY", "CERTIFICATE", "public key", "", "ENCRYPTED PRIVATE KEY"})
			if b, _ := pem.Decode([]byte(text)); b != nil {
				text = toPEM(l, b.Bytes)
			}
		case 3: // DER changed
			if b, _ := pem.Decode([]byte(text)); b != nil && len(b.Bytes) > 0 {
				d := append([]byte{}, b.Bytes...)
				for i := 1 + rng.N(3); i > 0; i-- {
					d[rng.N(len(d))] ^= 1 << uint(rng.N(8))
				}
				text = toPEM(b.Type, d)
			}
		case 4: // DER cut or grown
			if b, _ := pem.Decode([]byte(text)); b != nil && len(b.Bytes) > 0 {
				d := append([]byte{}, b.Bytes...)
				if rng.Bool() {
					d = d[:rng.N(len(d))]
				} else {
					d = append(d, rng.Bytes(1+rng.N(4))...)
				}
				text = toPEM(b.Type, d)
			}
		case 5: // said to be encrypted
			if b, _ := pem.Decode([]byte(text)); b != nil {
				b.Headers = map[string]string{"Proc-Type": "4,ENCRYPTED", "DEK-Info": "AES-128-CBC,00"}
				d := append([]byte{}, b.Bytes...)
				for i := range d {
					d[i] ^= 0x5a
				}
				b.Bytes = d
				text = string(pem.EncodeToMemory(b))
			}
		case 6: // numbers no key has
			k := genPub(rng)
			k.N = big.NewInt(int64(rng.N(3)))
			if der, err := x509.MarshalPKIXPublicKey(k); err == nil {
				text = toPEM("PUBLIC KEY", der)
			}
		default:
			text = rng.Hostile() + text[rng.N(len(text)):]
		}
		c.Desc("mutation %d: %q", how, text)
		judgeLoad(c, text, nil, nil)
		c.Count(fmt.Sprintf("mutation.%d", how))
		c.Nontrivial(text)
	})
	// every truncation of one key of each kind
	full := []string{pubPEM(&privs[0].PublicKey), toPEM("RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(privs[1]))}
	x.Run(gen+".cut", len(full[0])+len(full[1]), func(c *Case) {
		t, i := full[0], c.Index
		if i >= len(t) {
			t, i = full[1], i-len(t)
		}
		c.Desc("%q", t[:i])
		judgeLoad(c, t[:i], nil, nil)
		c.Count("cut")
	})
}

// runForeign loads from key sets others have made.
func runForeign(x *Ctx, gen string, n int) {
	x.Run(gen, n, func(c *Case) {
		rng := c.Rng
		k := genPub(rng)
		enc := base64.RawURLEncoding
		good := map[string]interface{}{"kty": "RSA", "kid": "good", "n": enc.EncodeToString(k.N.Bytes()), "e": enc.EncodeToString(big.NewInt(int64(k.E)).Bytes())}
		var doc string
		kid := "good"
		wantOK := false
		how := rng.N(7)
		switch how {
		case 0:
			b, _ := json.Marshal(map[string]interface{}{"keys": []interface{}{map[string]interface{}{"kty": "oct", "kid": "sym", "k": "AAAA"}, good}})
			doc, wantOK = string(b), true
		case 1:
			b, _ := json.Marshal(map[string]interface{}{"keys": []interface{}{map[string]interface{}{"kty": "oct", "kid": "good", "k": "AAAA"}}})
			doc = string(b)
		case 2:
			doc = rng.Pick([]string{"", "{}", "null", "[]", "{\"keys\":null}", "{\"keys\":[]}", "{\"keys\":{}}", "{\"keys\":[{}]}", "{\"keys\":[null]}", "{\"keys\":[{\"kty\":\"RSA\"}]}", "\x00", "{"})
		case 3:
			good[rng.Pick([]string{"n", "e"})] = rng.Pick([]string{"", "!", "A===", "a+b/"})
			b, _ := json.Marshal(map[string]interface{}{"keys": []interface{}{good}})
			doc = string(b)
		case 4:
			b, _ := json.Marshal(map[string]interface{}{"keys": []interface{}{good}})
			doc, kid = string(b), rng.NearMiss("good")
		case 5:
			b, _ := json.Marshal(map[string]interface{}{"keys": []interface{}{good}})
			doc = string(b[:rng.N(len(b))])
		default:
			b, _ := json.Marshal(map[string]interface{}{"keys": []interface{}{good}})
			doc, wantOK = string(b), true
		}
		c.Desc("key %q of %q", kid, doc)
		var got *rsa.PublicKey
		var err error
		if p := capture(func() { got, err = crypto.LoadPublicKeyFromJWK(doc, kid) }); p != "" {
			c.Violate("C28", "LoadPublicKeyFromJWK panicked: %s", p)
			return
		}
		if wantOK && (err != nil || !samePub(got, k)) {
			c.Violate("C28", "a key of a set wasn't loaded: %v, %v", got, err)
		}
		if !wantOK && err == nil {
			c.Violate("C28", "loaded %v from a set that doesn't have it", got)
		}
		c.Count(fmt.Sprintf("foreign.%d", how))
		c.Nontrivial(doc + kid)
	})
}

func init() {
	checks["C28"] = func(x *Ctx) {
		var err error
		if dir, err = os.MkdirTemp("", "verif-jwk-"); err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		x.R.Rule = "histories of registrations and servings of key sets; PEM texts of all kinds, whole and damaged; key sets of others; nontrivial by content"
		runEndpoint(x, "endpoint", x.Scale(6000, 150000))
		runSets(x, "sets", x.Scale(3000, 60000))
		runLoad(x, "load", x.Scale(4000, 80000))
		runForeign(x, "foreign", x.Scale(4000, 80000))
		for k, n := range map[string]int{"served": 5000, "served.together": 500, "registered.text": 5000, "registered.file": 2000, "refused": 1000, "loaded.back": 20000, "public.loaded": 5000, "public.refused": 10000, "private.loaded": 5000, "private.refused": 10000, "cut": 2000, "files": 20} {
			x.Require(k, n)
		}
	}
}
