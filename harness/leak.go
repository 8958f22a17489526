package main

// What is left behind by requests: goroutines, files, memory.

import (
	"context"
	"fmt"
	"net/http"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/lyokato/goidc"
)

// tracer is tied to a request, a response or a store; it refers to nothing.
type tracer struct {
	kind int
	_    *int // not small enough to share its memory with others
	_    [4]int64
}

var traced, freed [3]int64

func newTracer(kind int) *tracer {
	t := &tracer{kind: kind}
	atomic.AddInt64(&traced[kind], 1)
	runtime.SetFinalizer(t, func(t *tracer) { atomic.AddInt64(&freed[t.kind], 1) })
	return t
}

type tracerKey struct{}

var tracerNames = [3]string{"request", "response writer", "store"}

type usage struct {
	goroutines, files, objects int
	bytes                      int64
	alive                      [3]int64
}

func (u usage) String() string {
	return fmt.Sprintf("%d goroutines, %d files, %d objects of %d bytes; alive: %v", u.goroutines, u.files, u.objects, u.bytes, u.alive)
}

// use is what the process uses once the garbage is collected.
func use() (u usage) {
	for i := 0; i < 4; i++ {
		runtime.GC()
		time.Sleep(time.Millisecond)
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	u.objects, u.bytes = int(m.HeapObjects), int64(m.HeapAlloc)
	u.goroutines = runtime.NumGoroutine()
	if l, err := os.ReadDir("/proc/self/fd"); err == nil {
		u.files = len(l)
	}
	for k := range u.alive {
		u.alive[k] = atomic.LoadInt64(&traced[k]) - atomic.LoadInt64(&freed[k])
	}
	return
}

// settled waits for goroutines that are on their way out.
func settled(than usage) (u usage) {
	for i := 0; i < 40; i++ {
		if u = use(); u.goroutines <= than.goroutines && u.files <= than.files {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	return
}

// leftOver tells what grew with reps requests between two measurements.
func leftOver(a, b usage, reps int) (out []string) {
	if b.goroutines > a.goroutines+reps/20 {
		out = append(out, "goroutines")
	}
	if b.files > a.files+reps/20 {
		out = append(out, "files")
	}
	if b.objects > a.objects+reps/12+20 {
		out = append(out, "objects")
	}
	if b.bytes > a.bytes+int64(reps)*32+1<<13 {
		out = append(out, "bytes")
	}
	for k := range a.alive {
		if b.alive[k] > a.alive[k]+int64(reps/20) {
			out = append(out, tracerNames[k]+"s")
		}
	}
	return
}

func runLeaks(x *Ctx, reps int) {
	kinds := soakKinds()
	x.Run("leak", len(kinds), func(c *Case) {
		rng := c.Rng
		f := strings.Split(kinds[c.Index], " ")
		var focus []string
		fault, gt := "", ""
		if strings.HasPrefix(f[1], "!") {
			fault = f[1][1:]
		} else if f[1] != "" {
			focus = []string{f[1]}
		}
		if len(f) > 2 {
			gt = f[2]
		}
		cfg := genTokCfg(rng)
		cfg.Grants, cfg.Assert = allGrants, true
		pol := genPolicy(rng)
		di, lg := &DI{}, &Logger{}
		rpc := &RPCase{Realm: "r", Accept: goidc.CredentialAcceptanceMethod(rng.N(3)), URIMode: rng.N(3), URIConst: "https://err.example.org/"}
		th := cfg.EndpointOn(lg).Handler(di)
		ae := (&AuthCase{Pol: pol}).EndpointOn(di, lg)
		rp := rpc.ProtectorOn(lg)
		before, sent := "", 0
		server, stop := context.WithCancel(context.Background())
		defer stop()
		one := func() {
			w := GenWorld(rng)
			if fault != "" {
				w.Faults[fault] = rng.Pick(faultKinds(fault))
			}
			w.Tracer = newTracer(2)
			di.w, lg.w = w, w
			setJWTClock(w)
			send := func(q *Req, do func(rec *Rec, r *http.Request)) *Rec {
				rec := NewRec()
				rec.Tracer = newTracer(1)
				r := q.Build()
				sent++ // told apart by all that a request can be told apart by
				mark := fmt.Sprint("v", sent)
				for _, k := range []string{"X-Forwarded-For", "X-Real-Ip", "Remote_Addr", "User-Agent", "Referer", "Origin", "X-Request-Id", "Accept-Language", "Cookie"} {
					if len(r.Header.Values(k)) == 0 {
						r.Header.Set(k, mark)
					}
				}
				r.RemoteAddr, r.Host = mark, mark+".example.org"
				if f[0] != "resource" {
					r.URL.Path = "/" + mark
				}
				ctx := r.Context()
				if sent%3 == 0 { // of the server, which goes on
					ctx = server
				}
				r = r.WithContext(context.WithValue(ctx, tracerKey{}, newTracer(0)))
				guard(rec, func() { do(rec, r) })
				if rec.Panic != "" {
					before = rec.Panic
				}
				return rec
			}
			switch f[0] {
			case "token":
				k := *cfg
				tc := &TokCase{W: w, Cfg: &k, Asserts: map[string]*Assertion{}}
				GenTokReq(rng, tc, gt, focus)
				send(tc.Req, func(rec *Rec, r *http.Request) { th(rec, r) })
			case "authorize":
				ac := GenAuthReq(rng, &AuthCase{W: w, Pol: pol}, focus)
				send(ac.Req, func(rec *Rec, r *http.Request) { ae.HandleRequest(rec, r, ac.Cb) })
				if n := len(ac.Cb.Screens); n > 0 && ac.Cb.Screens[n-1].Kind == "consent" && utf8Req(ac.Cb.Screens[n-1].Req) {
					ac.Cb.Parked = ac.Cb.Screens[n-1].Req
					send(&Req{Method: "POST", Path: "/consent"}, func(rec *Rec, r *http.Request) {
						if rng.Bool() {
							ae.CompleteRequest(rec, r, ac.Cb)
						} else {
							ae.CancelRequest(rec, r, ac.Cb)
						}
					})
				}
			default:
				k := *rpc
				rc := &k
				rc.W = w
				GenRPReq(rng, rc, rng.Bool(), focus)
				send(rc.Req, func(rec *Rec, r *http.Request) {
					if r.URL.Path != "" && sent%4 != 0 { // another item of the same collection
						old := r.URL.Path
						r.URL.Path = fmt.Sprint(strings.TrimRight(old, "/"), "/", sent)
						r.RequestURI = r.URL.RequestURI()
						if need, ok := rc.Scopes[old]; ok && sent%4 != 1 {
							m := map[string][]string{r.URL.Path: need}
							for k, v := range rc.Scopes {
								m[k] = v
							}
							rc.Scopes = m
						}
					}
					if rc.Scopes != nil {
						rp.ValidateWithScopes(rec, r, &DI{w}, rc.Scopes)
					} else {
						rp.Validate(rec, r, &DI{w})
					}
				})
			}
		}
		idle := GenWorld(rng)
		window := func(n int) {
			for i := 0; i < n; i++ {
				if i%100 == 0 {
					c.Beat()
				}
				one()
			}
			di.w, lg.w = idle, idle
			setJWTClock(idle)
		}
		window(reps / 3)
		a := use()
		gone := atomic.LoadInt64(&freed[0])
		window(reps)
		b := settled(a)
		if before != "" {
			c.Violate("*", "panic: %s", before)
			return
		}
		if grew := leftOver(a, b, reps); len(grew) > 0 {
			// a table that fills up once is none of this: it has to go on
			window(reps)
			d := settled(b)
			c.DescFn = func() []string {
				return []string{"requests: " + kinds[c.Index], "before: " + a.String(), fmt.Sprintf("after %d: %s", reps, b), fmt.Sprintf("after %d: %s", 2*reps, d)}
			}
			if again := leftOver(b, d, reps); len(again) > 0 {
				c.Violate("C36 C24", "%s grow with the number of requests", strings.Join(again, " and "))
			} else {
				c.Count("leak.once")
			}
		}
		runtime.KeepAlive(th)
		runtime.KeepAlive(ae)
		runtime.KeepAlive(rp)
		c.CountN("leak.requests", reps)
		c.CountN("leak.released", int(atomic.LoadInt64(&freed[0])-gone))
		c.Count("leak." + f[0])
		c.Nontrivial(kinds[c.Index])
		c.Sample()
	})
}

func init() {
	checks["C36"] = func(x *Ctx) {
		x.R.Rule = "every kind of request (valid, each deviation, each failing call) many times over on one endpoint, goroutines, files, live objects and unreleased requests counted before and after; nontrivial by kind"
		runLeaks(x, x.Scale(600, 4000))
		x.Require("leak.requests", 50000)
		x.Require("leak.released", 50000)
		x.Require("leak.token", 50)
		x.Require("leak.authorize", 50)
		x.Require("leak.resource", 10)
	}
}
