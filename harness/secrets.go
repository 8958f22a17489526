package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"html"
	"io"
	stdlog "log"
	"net/url"
	"os"
	"reflect"
	"sort"
	"strings"

	"github.com/lyokato/goidc/grant"
)

func sortStrings(s []string) { sort.Strings(s) }
func b64(s string) string    { return base64.StdEncoding.EncodeToString([]byte(s)) }
func s256of(v string) string {
	h := sha256.Sum256([]byte(v))
	return rawURL.EncodeToString(h[:])
}
func s256Hex(v string) string {
	h := sha256.Sum256([]byte(v))
	return hex.EncodeToString(h[:])
}

func sameKey(a, b interface{}) bool {
	switch x := a.(type) {
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	case *rsa.PublicKey:
		y, ok := b.(*rsa.PublicKey)
		return ok && x.Equal(y)
	case *ecdsa.PublicKey:
		y, ok := b.(*ecdsa.PublicKey)
		return ok && x.Equal(y)
	}
	return reflect.DeepEqual(a, b)
}

// parseBasic reads a Basic Authorization header: scheme in any case, one space, base64 of id ":" secret.
func parseBasic(h string) (id, sec string, ok bool) {
	if len(h) < 6 || lower(h[:6]) != "basic " {
		return "", "", false
	}
	b, err := base64.StdEncoding.DecodeString(h[6:])
	if err != nil {
		return "", "", false
	}
	return strings.Cut(string(b), ":")
}

type form struct{ name, text string }

var formsOf = map[string][]form{} // by secret; only used by cases that run one at a time

func forms(secret string) []form {
	if f, ok := formsOf[secret]; ok {
		return f
	}
	if len(formsOf) > 2000 {
		formsOf = map[string][]form{}
	}
	b := []byte(secret)
	list := strings.Trim(fmt.Sprint(b), "[]")
	gofmt := strings.TrimSuffix(strings.TrimPrefix(fmt.Sprintf("%#v", b), "[]byte{"), "}")
	all := []form{{"plain", secret}, {"query-escaped", url.QueryEscape(secret)}, {"path-escaped", url.PathEscape(secret)}, {"quoted", strings.Trim(fmt.Sprintf("%q", secret), "\"")},
		{"quoted as ASCII", strings.Trim(fmt.Sprintf("%+q", secret), "\"")}, {"JSON", strings.Trim(mustJSON(secret), "\"")}, {"HTML", html.EscapeString(secret)}, {"base64", b64(secret)},
		{"base64, no padding", strings.TrimRight(b64(secret), "=")}, {"base64url", rawURL.EncodeToString(b)}, {"hex", hex.EncodeToString(b)}, {"HEX", upper(hex.EncodeToString(b))},
		{"spaced hex", fmt.Sprintf("% x", b)}, {"numbers", list}, {"listed numbers", strings.ReplaceAll(list, " ", ",")}, {"Go", gofmt}}
	out := []form{}
	seen := map[string]bool{}
	for _, f := range all {
		if !seen[f.text] {
			seen[f.text] = true
			out = append(out, f)
		}
	}
	formsOf[secret] = out
	return out
}

// shows tells how secret shows in text: plain, in a common encoding or printed as Go does. What the request
// itself says at a place that may be told, said, is not shown by the code under test.
func shows(text, secret, said string) string {
	if len(secret) < 8 {
		return ""
	}
	for _, f := range forms(secret) {
		if strings.Contains(text, f.text) && !strings.Contains(said, f.text) {
			return f.name
		}
	}
	return ""
}

// Secrets are those of the store itself.
func (w *World) Secrets() (out []KV) {
	key := func(k interface{}) {
		switch x := k.(type) {
		case []byte:
			out = append(out, KV{"signing key", string(x)})
		case *rsa.PrivateKey:
			out = append(out, KV{"signing key", x.D.String()}, KV{"signing key", x.D.Text(16)}, KV{"signing key", string(x.D.Bytes())}, KV{"signing key", x.Primes[0].String()})
		case *ecdsa.PrivateKey:
			out = append(out, KV{"signing key", x.D.String()}, KV{"signing key", x.D.Text(16)}, KV{"signing key", string(x.D.Bytes())})
		}
	}
	for _, cl := range w.clientList() {
		out = append(out, KV{"client secret", cl.Secret})
		key(cl.Key)
		for _, k := range sortedKeys(cl.AssertionKeys) {
			key(cl.AssertionKeys[k])
		}
	}
	for _, u := range w.Users {
		out = append(out, KV{"password", u.Password})
	}
	return
}

var literals string

// literal tells whether s is part of a string that the code under test contains.
func literal(s string) bool {
	if literals == "" {
		literals = "\n" + strings.Join(dict.words, "\n") + "\nContent-Length\nContent-Type\nCache-Control\nWww-Authenticate\nWWW-Authenticate\nerror_description\nerror_uri\napplication/json;charset=UTF-8\n"
	}
	return strings.Contains(literals, s)
}

// tap takes what the code under test prints instead of giving it to the logger.
var tap *os.File

func init() { atStart["C25"] = openTap }

func openTap() {
	f, err := os.CreateTemp("", "goidc-verif-tap")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	tap = f
	os.Stdout = f
	stdlog.SetOutput(f)
}

// printed is what was printed since it was asked for.
func printed() string {
	if tap == nil {
		return ""
	}
	n, _ := tap.Seek(0, io.SeekCurrent)
	if n == 0 {
		return ""
	}
	b := make([]byte, n)
	tap.ReadAt(b, 0)
	tap.Truncate(0)
	tap.Seek(0, io.SeekStart)
	return string(b)
}

// JudgeSecrets looks for secrets in the log and, when nothing was granted, in the response.
func (tc *TokCase) JudgeSecrets(c *Case, rec *Rec, calls []*Call) {
	var secrets []KV
	r := tc.Req.Build()
	gone := []string{grant.TypeJWT}
	add := func(kind, v string) {
		if len(v) < 10 {
			return
		}
		// a value that the request shows in another place too isn't told by the endpoint
		for _, g := range gone {
			if strings.Contains(g, v) {
				return
			}
		}
		secrets = append(secrets, KV{kind, v})
	}
	r.ParseForm()
	for k, vs := range r.Form {
		if k != "client_secret" && k != "password" {
			gone = append(gone, vs...)
		}
	}
	for id := range tc.W.Clients {
		gone = append(gone, id)
	}
	if id, _, ok := parseBasic(r.Header.Get("Authorization")); ok {
		gone = append(gone, id)
	}
	for _, kv := range tc.W.Secrets() {
		add(kv.K, kv.V)
	}
	if _, sec, ok := parseBasic(r.Header.Get("Authorization")); ok {
		add("presented secret", sec)
	}
	add("presented secret", r.FormValue("client_secret"))
	add("presented password", r.FormValue("password"))
	for _, k := range calls {
		if t, ok := k.Obj.(*Token); ok {
			add("issued access token", t.Access)
			add("issued refresh token", t.Refresh)
		}
	}
	if body, p := strictObject(rec.Body.Bytes()); p == "" {
		if s, ok := body["id_token"].(string); ok {
			add("issued ID token", s)
			// its signature part alone
			if i := strings.LastIndex(s, "."); i > 0 {
				add("issued ID token", s[i+1:])
			}
		}
	}
	judgeSecrets(c, tc.W, rec, secrets, rec.Status != 200, "")
}

func judgeSecrets(c *Case, w *World, rec *Rec, secrets []KV, isError bool, said string) {
	logs := w.Logs[w.LogsFrom:]
	if p := printed(); p != "" {
		logs = append(append([]LogEntry{}, logs...), LogEntry{"standard output", p})
		c.Count("secrets.printed")
	}
	for _, s := range secrets {
		if literal(s.V) { // what the source says itself is told by no one
			continue
		}
		for _, l := range logs {
			if f := shows(l.Text, s.V, said); f != "" {
				c.Violate("C25", "%s %q is in the %s log (%s): %q", s.K, s.V, l.Level, f, l.Text)
			}
		}
		if isError && rec != nil {
			text := rec.Body.String()
			for k, vs := range rec.Sent {
				text += "\n" + k + ": " + strings.Join(vs, "\n")
			}
			if f := shows(text, s.V, said); f != "" {
				c.Violate("C25 C09", "%s %q is in an error response (%s): %q", s.K, s.V, f, text)
			}
			c.Count("secrets.responses")
		}
	}
	c.CountN("secrets.watched", len(secrets))
	c.CountN("secrets.loglines", len(w.Logs))
}
