package main

// What the application behind a ResourceProtector gets to see of a request that was let through.

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"reflect"
	"strings"
	"time"

	"github.com/lyokato/goidc"
)

type ctxKey struct{}

// appView is what an application that reads forms sees.
func appView(r *http.Request) string {
	r.ParseMultipartForm(32 << 20)
	files := []string{}
	vals := map[string][]string{}
	if r.MultipartForm != nil {
		vals = r.MultipartForm.Value
		names := []string{}
		for k := range r.MultipartForm.File {
			names = append(names, k)
		}
		sortStrings(names)
		for _, k := range names {
			for _, f := range r.MultipartForm.File[k] {
				text := "?"
				if o, err := f.Open(); err == nil {
					b, _ := io.ReadAll(o)
					o.Close()
					text = string(b)
				}
				files = append(files, k+"="+f.Filename+"="+text)
			}
		}
	}
	return fmt.Sprintf("form %q post %q multipart %q files %q", r.Form, r.PostForm, vals, files)
}

// appRequests add to a resource request what applications are sent.
func appRequest(rng *Rng, rc *RPCase) {
	q := rc.Req
	if q.RawBody == nil && len(q.Body) == 0 && rng.P(75) {
		var s string
		switch rng.N(8) {
		case 0, 1:
			s, q.ContentType = "{\"a\":[1,2,\""+rng.Str(8)+"\"]}", "application/json"
		case 2:
			s, q.ContentType = rng.Hostile(), "text/plain; charset=utf-8"
		case 3, 4:
			s, q.ContentType = "a=1&b="+rng.Str(9)+"&a=2&c=%zz&access=x&d;e=1&"+rng.Pick([]string{"f", "=g", "h=%E6%97%A5", "i=+ +"}), "application/x-www-form-urlencoded"
		case 5:
			var b bytes.Buffer
			mw := multipart.NewWriter(&b)
			mw.SetBoundary("b" + rng.Str(20))
			mw.WriteField("a", rng.Str(5))
			f, _ := mw.CreateFormFile("upload", "x.bin")
			f.Write([]byte(rng.Hostile()))
			mw.Close()
			s, q.ContentType = b.String(), mw.FormDataContentType()
		case 6:
			s, q.ContentType = strings.Repeat(rng.Str(64), 1+rng.N(600)), rng.Pick([]string{"application/octet-stream", "-", "application/x-www-form-urlencoded"})
		default:
			s, q.ContentType = rng.Str(40), rng.Pick([]string{"-", "", "bad/;type", "multipart/form-data", "multipart/mixed; boundary=x"})
		}
		q.RawBody = &s
	}
	for n := rng.N(4); n > 0; n-- {
		q.Header = append(q.Header, KV{rng.Pick([]string{"Accept", "Cookie", "X-Request-Id", "Range", "X-Oauth", "X-Oauth-User", "X-User-Id", "Origin", "If-None-Match", "X-Forwarded-For", "Te", "X-Oauth-Scopes"}),
			rng.Pick([]string{"a=b", "1", "x, y", "*/*", "日本", "", "\"q\"", "bytes=0-1"})})
	}
	if rng.P(20) {
		q.Query = append(q.Query, KV{rng.Pick([]string{"q", "access", "scope", "token"}), rng.Hostile()})
	}
}

func runPassthrough(x *Ctx, n int) {
	x.Run("app", n, func(c *Case) {
		rng := c.Rng
		rc := &RPCase{W: GenWorld(rng), Realm: "r", Accept: goidc.CredentialAcceptanceMethod(rng.N(3))}
		focus := []string{"place", "both", "spoof"}
		GenRPReq(rng, rc, rng.P(40), focus)
		appRequest(rng, rc)
		w := rc.W
		var rec *Rec
		before := w.describe()
		c.DescFn = func() []string {
			d := append(before, rc.describe()...)
			if rec != nil {
				d = append(d, "response "+rec.String())
			}
			return append(d, w.describeCalls()...)
		}
		rp := rc.ProtectorOn(&Logger{w})
		chunked, id := rng.P(25), rng.Str(5)
		live, cancel := context.WithCancel(context.Background())
		defer cancel()
		if rng.P(30) {
			var stop func()
			live, stop = context.WithTimeout(live, time.Hour)
			defer stop()
		}
		ambient := rng.P(40) // whatever the surroundings are
		build := func() *http.Request {
			r := rc.Req.Build()
			if chunked {
				r.ContentLength = -1
				r.TransferEncoding = []string{"chunked"}
			}
			r.RemoteAddr = "192.0.2.9:" + fmt.Sprint(1000+len(id))
			if !ambient {
				r = r.WithContext(live)
			}
			return r.WithContext(context.WithValue(r.Context(), ctxKey{}, id))
		}
		fresh, r := build(), build()
		sent, _ := io.ReadAll(fresh.Body)
		rec = NewRec()
		serve := func(rec *Rec) (ok bool) {
			guard(rec, func() {
				if rc.Scopes != nil {
					ok = rp.ValidateWithScopes(rec, r, &DI{w}, rc.Scopes)
				} else {
					ok = rp.Validate(rec, r, &DI{w})
				}
			})
			return
		}
		ok := serve(rec)
		if rec.Panic != "" {
			c.Violate("*", "resource protector panicked: %s", rec.Panic)
			return
		}
		if e := rc.Expect(); e.Pass != ok {
			c.Violate("C21 C22", "let through: %v, want %v", ok, e.Pass)
			return
		}
		// asked again about the same request, it says the same
		if rng.P(50) {
			rec2 := NewRec()
			if again := serve(rec2); again != ok || rec2.Panic != "" || rec2.Status != rec.Status || rec2.Body.String() != rec.Body.String() || !reflect.DeepEqual(rec2.Sent, rec.Sent) {
				c.Violate("C35", "asked a second time about the same request: %v %s, first %v %s", again, rec2, ok, rec)
			}
			c.Count("app.again")
		}
		if !ok {
			c.Count("app.refused")
			return
		}
		c.Count("app.passed")
		if rec.Touched() || len(rec.H) > 0 {
			c.Violate("C35 C21", "the response was touched for a request let through: %s", rec)
		}
		if r.Method != fresh.Method || r.URL.String() != fresh.URL.String() || r.RequestURI != fresh.RequestURI || r.Host != fresh.Host || r.Proto != fresh.Proto || r.RemoteAddr != fresh.RemoteAddr || r.ContentLength != fresh.ContentLength ||
			!reflect.DeepEqual(r.TransferEncoding, fresh.TransferEncoding) || r.Context().Value(ctxKey{}) != id {
			c.Violate("C35", "request is %s %s %s %s %s %d, was %s %s %s %s %s %d", r.Method, r.URL, r.RequestURI, r.Host, r.RemoteAddr, r.ContentLength, fresh.Method, fresh.URL, fresh.RequestURI, fresh.Host, fresh.RemoteAddr, fresh.ContentLength)
		}
		d1, h1 := r.Context().Deadline()
		d2, h2 := fresh.Context().Deadline()
		if e1, e2 := r.Context().Err(), fresh.Context().Err(); e1 != e2 || h1 != h2 || d1.Sub(d2).Abs() > time.Minute {
			c.Violate("C35", "the context has ended with %v, deadline %v %v, was %v, %v %v", e1, h1, d1, e2, h2, d2)
		}
		if !ambient {
			cancel()
			select {
			case <-r.Context().Done():
			case <-time.After(5 * time.Second):
			}
			if r.Context().Err() == nil {
				c.Violate("C35", "the application isn't told that the client is gone")
			}
			c.Count("app.context")
		}
		for _, h := range []http.Header{r.Header, fresh.Header} {
			for _, k := range []string{"X-Oauth-User-Id", "X-Oauth-Client-Id", "X-Oauth-Scope"} {
				for n := range h {
					if strings.EqualFold(n, k) {
						delete(h, n)
					}
				}
			}
		}
		if !reflect.DeepEqual(r.Header, fresh.Header) {
			c.Violate("C35", "headers are %q, were %q", r.Header, fresh.Header)
		}
		got, err := io.ReadAll(r.Body)
		kind := "raw"
		if err != nil || !bytes.Equal(got, sent) {
			kind = "parsed"
			if rc.Accept == goidc.FromHeader {
				c.Violate("C35", "the protector takes tokens from the header only but the body of %d bytes reads as %d bytes (%v)", len(sent), len(got), err)
			}
			f := build()
			if a, b := appView(r), appView(f); a != b {
				c.Violate("C35", "neither the body nor the form is as it was sent: %s, want %s", a, b)
			} else if ct := fresh.Header.Get("Content-Type"); ct != "" && !strings.Contains(strings.ToLower(ct), "form") {
				c.Violate("C35", "the body of type %s was consumed", ct)
			}
		}
		c.Count("app.body." + kind)
		c.Nontrivial(fmt.Sprintf("%d|%s|%s|%s|%v|%v|%d", rc.Accept, rc.Req.Method, rc.Req.ContentType, kind, rc.Muts, chunked, len(rc.Req.Header)))
		c.Sample()
	})
}

func init() {
	checks["C35"] = func(x *Ctx) {
		x.R.Rule = "resource accesses with bodies and headers of all kinds; what the application can read of a request let through is compared with what was sent; nontrivial by (acceptance, method, content type, how the body is available, defects)"
		runPassthrough(x, x.Scale(40000, 500000))
		x.Require("app.passed", 5000)
		x.Require("app.refused", 1000)
		x.Require("app.body.raw", 3000)
		x.Require("app.body.parsed", 100)
		x.Require("app.again", 2000)
		x.Require("app.context", 2000)
	}
}
