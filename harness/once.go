package main

// C04 and C08: codes and assertions are good once, whatever the schedule.

import (
	"fmt"
	"strings"

	"github.com/lyokato/goidc/grant"
)

// onceCase is a code or assertion presented several times at once.
type onceCase struct {
	tc     *TokCase
	reqs   []*TokCase // one per presentation; same store and endpoint
	expect []*TokExpect
	recs   []*Rec
	sentAt []int // number of calls made when the response began
	faults faultPlan
	sched  *Sched
}

// validTok makes a request without defects.
func validTok(rng *Rng, gt string, ok func(tc *TokCase) bool) *TokCase {
	for {
		seed := validSeed
		if seed == 0 {
			seed = rng.U64() | 1
		}
		tc := GenTok(NewRng(seed), gt, nil)
		if len(tc.Muts) > 0 || !ok(tc) {
			validSeed = 0
			continue
		}
		if e := tc.Expect(tc.W.Snapshot()); len(e.Conds) == 0 {
			validFound = seed
			return tc
		}
		validSeed = 0
	}
}

// validFound is the seed of the last request validTok made; with validSeed set to it, it makes the same one at once.
var validFound, validSeed uint64

func (o *onceCase) add(q *Req) *TokCase {
	t := &TokCase{W: o.tc.W, Cfg: o.tc.Cfg, Req: q, Asserts: o.tc.Asserts, GT: o.tc.GT, Channel: o.tc.Channel}
	o.reqs = append(o.reqs, t)
	return t
}

func (o *onceCase) describe() []string {
	out := o.tc.W.describe()
	out = append(out, o.tc.describe()...)
	out = append(out, fmt.Sprintf("faults %v", o.faults))
	for i, t := range o.reqs {
		out = append(out, fmt.Sprintf("request %d: %s (model: %s)", i, t.Req, o.expect[i].names()))
	}
	if o.sched != nil {
		out = append(out, fmt.Sprintf("schedule %v", o.sched.Trace))
	}
	for i, r := range o.recs {
		if r != nil {
			out = append(out, fmt.Sprintf("response %d: %s", i, r))
		}
	}
	return append(out, o.tc.W.describeCalls()...)
}

func (o *onceCase) run(choose func([]int) int) {
	w := o.tc.W
	w.Faults = o.faults
	for _, t := range o.reqs {
		o.expect = append(o.expect, t.Expect(w.Snapshot()))
	}
	setJWTClock(w)
	h := o.tc.Cfg.Endpoint(w).Handler(&DI{w})
	fs := []func(){}
	o.recs = make([]*Rec, len(o.reqs))
	o.sentAt = make([]int, len(o.reqs))
	for i := range o.reqs {
		i := i
		rec := NewRec()
		o.recs[i] = rec
		r := o.reqs[i].Req.Build()
		rec.OnSend = func() {
			w.mu.Lock()
			o.sentAt[i] = len(w.Calls)
			w.mu.Unlock()
		}
		fs = append(fs, func() { guard(rec, func() { h(rec, r) }) })
	}
	o.sched = Interleave(w, fs, choose)
}

// carriesTokens tells whether a response hands out a credential.
func carriesTokens(rec *Rec) bool {
	b := rec.Body.String()
	if m, problem := strictObject(rec.Body.Bytes()); problem == "" {
		return m["access_token"] != nil || m["refresh_token"] != nil || m["id_token"] != nil
	}
	return strings.Contains(b, "access_token") || strings.Contains(b, "id_token") || strings.Contains(b, "refresh_token")
}

// judge: method is the call that uses the thing up.
func (o *onceCase) judge(c *Case, prop, method, what string) {
	ok, valid := []int{}, 0
	for i, rec := range o.recs {
		e := o.expect[i]
		if rec.Panic != "" {
			c.Violate("*", "token endpoint panicked: %s", rec.Panic)
			return
		}
		if len(e.Conds) == 0 {
			valid++
		}
		if !carriesTokens(rec) {
			if m, problem := strictObject(rec.Body.Bytes()); problem != "" || m["error"] == nil || rec.Statuses != 1 {
				c.Violate(prop, "request %d got neither tokens nor an error: %s", i, rec)
			}
			continue
		}
		ok = append(ok, i)
		if len(e.Conds) > 0 {
			c.Violate(prop+" "+e.props(), "request %d got tokens although: %s", i, e.names())
		}
		done := 0
		for _, k := range callsTagged(o.tc.W.Calls, i) {
			if k.Method == method && k.Result == "ok" && k.Fault == "" && k.Seq < o.sentAt[i] {
				done++
			}
			if k.Method == method && (k.Result != "ok" || k.Fault != "") {
				c.Violate(prop, "request %d got tokens although %s", i, k)
			}
		}
		want := 1
		if method == "RecordAssertionClaims" {
			want = len(e.Recs)
		}
		if done != want {
			c.Violate(prop, "request %d got tokens after %d successful %s calls, want %d", i, done, method, want)
		}
	}
	if len(ok) > 1 {
		c.Violate(prop+" C29", "%s was honoured %d times, by requests %v", what, len(ok), ok)
	}
	if len(ok) == 0 && valid == len(o.recs) && len(o.faults) == 0 {
		c.Violate(prop+" C02", "%s was honoured for none of %d valid requests", what, valid)
	}
	c.Count(fmt.Sprintf("honoured.%d", len(ok)))
	c.CountN("sched.blocked", o.sched.Blocked)
	c.Count("schedules")
}

func cheapClient(tc *TokCase) bool {
	for _, c := range tc.W.Clients {
		if c.unsignable() {
			return false
		}
	}
	return true
}

// codeOnce makes k presentations of one code.
func codeOnce(rng *Rng, k int, plain bool) *onceCase {
	o := &onceCase{}
	o.tc = validTok(rng, grant.TypeAuthorizationCode, func(tc *TokCase) bool {
		return cheapClient(tc) && (!plain || tc.Channel == "basic")
	})
	for i := 0; i < k; i++ {
		q := o.tc.Req.Clone()
		if !plain && i > 0 && rng.P(35) {
			switch rng.N(4) {
			case 0:
				q.SetBody("redirect_uri", "https://evil.example/")
			case 1:
				q.SetBody("code_challenge", rng.Str(8))
			case 2: // another client has got hold of the code
				for _, cl := range o.tc.W.clientList() {
					if id, _, _ := parseBasic(q.Header1("Authorization")); cl.ID != id {
						q.Header = []KV{{"Authorization", "Basic " + b64(cl.ID+":"+cl.Secret)}}
						break
					}
				}
			default:
				q.SetBody("x", rng.Str(3))
			}
		}
		o.add(q)
	}
	if !plain && rng.P(30) {
		o.faults = faultPlan{}
		kind := rng.Pick([]string{FaultFailed, FaultServer, FaultUnsupported})
		if rng.Bool() {
			o.faults["DisableSession"] = kind
		} else {
			o.faults[fmt.Sprintf("DisableSession#%d", 1+rng.N(k))] = kind
		}
	}
	return o
}

// assertionOnce makes k presentations of one assertion.
func assertionOnce(rng *Rng, k int, plain bool) *onceCase {
	o := &onceCase{}
	gts := []string{grant.TypeJWT, grant.TypeClientCredentials, grant.TypePassword}
	gt := rng.Pick(gts)
	o.tc = validTok(rng, gt, func(tc *TokCase) bool {
		return cheapClient(tc) && (gt == grant.TypeJWT && tc.Channel == "basic" || gt != grant.TypeJWT && tc.Channel == "assertion")
	})
	for i := 0; i < k; i++ {
		q := o.tc.Req.Clone()
		if !plain && i > 0 && rng.P(20) {
			q.SetBody("scope", "admin")
		}
		o.add(q)
	}
	if !plain && rng.P(30) {
		o.faults = faultPlan{}
		kind := rng.Pick([]string{FaultFailed, FaultServer, FaultUnsupported})
		if rng.Bool() {
			o.faults["RecordAssertionClaims"] = kind
		} else {
			o.faults[fmt.Sprintf("RecordAssertionClaims#%d", 1+rng.N(k))] = kind
		}
	}
	return o
}

func runOnce(x *Ctx, prop, method, what string, mk func(rng *Rng, k int, plain bool) *onceCase) {
	// random schedules of 2 to 5 presentations
	x.Run("random", x.Scale(12000, 200000), func(c *Case) {
		k := 2 + c.Rng.N(2)
		if c.Rng.P(15) {
			k = 4 + c.Rng.N(2)
		}
		o := mk(c.Rng, k, false)
		c.DescFn = o.describe
		stay := c.Rng.N(90)
		last := -1
		o.run(func(p []int) int {
			for _, i := range p { // tends to let the same one go on
				if i == last && c.Rng.P(stay) {
					return i
				}
			}
			last = p[c.Rng.N(len(p))]
			return last
		})
		o.judge(c, prop, method, what)
		c.Nontrivial(fmt.Sprintf("%d|%v|%v", k, o.faults, o.sched.Trace))
		c.Sample()
	})
	// all schedules of two
	x.Run("exhaustive", x.Scale(8, 64), func(c *Case) {
		var ex Explorer
		seed := c.Rng.U64()
		mk(NewRng(seed), 2, true)
		validSeed = validFound
		defer func() { validSeed = 0 }()
		for n := 0; ex.Next(); n++ {
			c.Beat()
			o := mk(NewRng(seed), 2, true)
			c.DescFn = o.describe
			o.run(ex.Choose)
			o.judge(c, prop, method, what)
			c.Count("exhaustive.schedules")
			c.Nontrivial("ex|" + traceSig(o.sched.Trace))
			if c.bad {
				return
			}
			if n >= x.Scale(8000, 100000) {
				c.Count("exhaustive.cut")
				return
			}
		}
		c.Count("exhaustive.complete")
		c.Sample()
	})
	// one after the other, with time passing
	x.Run("sequence", x.Scale(6000, 100000), func(c *Case) {
		o := mk(c.Rng, 1, true)
		w := o.tc.W
		h := o.tc.Cfg.Endpoint(w).Handler(&DI{w})
		honoured := 0
		before := w.describe()
		var last *Rec
		c.DescFn = func() []string {
			d := append(append(before, o.tc.describe()...), w.describeCalls()...)
			if last != nil {
				d = append(d, "last response "+last.String())
			}
			return d
		}
		for n := 2 + c.Rng.N(4); n > 0; n-- {
			t := o.reqs[0]
			e := t.Expect(w.Snapshot())
			rec, calls := t.Serve(h)
			last = rec
			if t.JudgeTok(c, e, rec, calls) {
				honoured++
			}
			if c.Rng.P(30) {
				w.Now += int64(c.Rng.N(3))
			}
			if c.Rng.P(20) { // another endpoint of the same service
				h = o.tc.Cfg.Endpoint(w).Handler(&DI{w})
			}
		}
		if honoured > 1 {
			c.Violate(prop+" C29", "%s was honoured %d times in a row", what, honoured)
		}
		c.Count(fmt.Sprintf("sequence.honoured.%d", honoured))
	})
	x.Require("schedules", 12000)
	x.Require("exhaustive.schedules", 500)
	x.Require("honoured.1", 7000)
	x.Require("sequence.honoured.1", 3000)
}

func init() {
	checks["C04"] = func(x *Ctx) {
		x.R.Rule = "one code presented 2-5 times under controlled schedules of all data-interface calls (all schedules of two, random ones beyond), valid and not, with DisableSession failing; nontrivial by (number, failures, schedule)"
		runOnce(x, "C04", "DisableSession", "a code", codeOnce)
		runTok(x, "code", x.Scale(20000, 300000), grant.TypeAuthorizationCode, []string{"code-disabled"}, nil)
	}
	checks["C08"] = func(x *Ctx) {
		x.R.Rule = "one assertion (as grant or client authentication) presented 2-5 times under controlled schedules of all data-interface calls, with the registration failing; nontrivial by (number, failures, schedule)"
		runOnce(x, "C08", "RecordAssertionClaims", "an assertion", assertionOnce)
		runTok(x, "jwt", x.Scale(15000, 200000), grant.TypeJWT, []string{"a-replay", "a-same"}, nil)
		runTok(x, "ca", x.Scale(15000, 200000), "any", []string{"ca-replay"}, func(tc *TokCase, e *TokExpect) bool { return tc.Channel == "assertion" })
		x.Require("cond.assertion_was_presented_before", 500)
	}
}
