package main

// C32: what the default logger writes to standard output, and what the endpoints give to a logger.

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/log"
)

var sgr = regexp.MustCompile("\x1b\\[[0-9;]*m")
var endpointLine = regexp.MustCompile(`(?s)^\[goidc:([a-z_]+):(.*?):([A-Za-z0-9_.\-]*)\] (.*?) ?(\{.*\}|null)$`)
var logLabels = []string{"DEBUG", "INFO", "WARN", "ERROR", "FATAL"}

// stdout gives back what f printed.
func stdout(f func()) string {
	save := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	out := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		r.Close()
		out <- string(b)
	}()
	os.Stdout = w
	defer func() { os.Stdout = save }()
	func() {
		defer w.Close()
		f()
	}()
	return <-out
}

// controls tells what of a text could start a new line or steer a terminal; colours don't count.
func controls(s string) string {
	s = sgr.ReplaceAllString(s, "")
	for i, r := range s {
		if unicode.IsControl(r) || r == '\u2028' || r == '\u2029' {
			return fmt.Sprintf("%U at byte %d of %q", r, i, s)
		}
	}
	for i := 0; i < len(s); i++ { // a C1 control in a terminal that doesn't know UTF-8
		if s[i] >= 0x80 && s[i] < 0xa0 && !validUTF8(s) {
			return fmt.Sprintf("byte %#x in %q, which is not UTF-8", s[i], s)
		}
	}
	return ""
}

func (r *Rng) logText() string {
	t := r.Pick([]string{"\x1b[2J", "\x1b]0;title\x07", "\u009b2J", "\n[FATAL] forged", "\r\n[goidc:token_endpoint:common:access_token_granted] ok {}", "\u2028", "\u0085", "\x00", "\x7f", "\b\b\b", "\x1b[8m", "%s%d%!v(MISSING)", "%n%x%[1]s", "\u202e", "\xff\n", "\x9b2J"})
	switch r.N(4) {
	case 0:
		return t
	case 1:
		return r.Str(r.N(8)) + t + r.Str(r.N(8))
	case 2:
		return t + r.Hostile() + t
	default:
		return r.Hostile()
	}
}

var plainRealm = regexp.MustCompile(`^[A-Za-z0-9/_.\-]+$`)

// judgeLine checks one message of an endpoint.
func judgeLine(c *Case, msg string, realms []string) (event string) {
	if k := controls(msg); k != "" {
		c.Violate("C32", "control character in a log message: %s", k)
		return
	}
	s := sgr.ReplaceAllString(msg, "")
	m := endpointLine.FindStringSubmatch(s)
	if m == nil {
		c.Violate("C32", "log message doesn't name endpoint, realm, event and attributes: %q", s)
		return
	}
	plain := false // the realm itself can't look like the rest of the message
	for _, r := range realms {
		plain = plain || m[2] == r && plainRealm.MatchString(r)
	}
	if m[3] == "" && plain {
		c.Violate("C32", "event without a name: %q", s)
	}
	if realms != nil {
		ok := plain
		for _, r := range realms {
			ok = ok || m[2] == r || !plainRealm.MatchString(r)
		}
		if !ok {
			c.Violate("C32", "realm %q in %q, want one of %q", m[2], s, realms)
		}
	}
	var attrs map[string]interface{}
	if err := json.Unmarshal([]byte(m[5]), &attrs); err != nil && plain {
		c.Violate("C32", "attributes of %q: %s", s, err)
	}
	return m[3]
}

func runLogger(x *Ctx, gen string, n int) {
	x.Run(gen, n, func(c *Case) {
		rng := c.Rng
		threshold := rng.N(5)
		defer log.SetLevelForDefaultLogger(log.LogLevelDebug)
		log.SetLevelForDefaultLogger(log.LogLevel(threshold))
		var l log.Logger = log.NewDefaultLogger()
		type said struct {
			level     int
			formatted bool
			tag, want string
			call      func()
		}
		var all []said
		times := map[string]int{}
		for i := 0; i < 24; i++ {
			if i > 0 && rng.P(15) { // the same once more
				s := all[i-1]
				if rng.P(30) {
					s = all[rng.N(i)]
				}
				all = append(all, s)
				times[s.tag]++
				c.Desc("again: %q", s.want)
				continue
			}
			s := said{level: rng.N(5), formatted: rng.Bool(), tag: fmt.Sprintf("tag%dx%s", i, rng.Str(6))}
			body := rng.Pick([]string{"", " plain", " 日本語", " [ERROR] no", " 100%", " {}"})
			if rng.P(12) {
				body = " " + strings.Repeat(rng.Pick([]string{"x", "ab ", "日", "."}), 1+rng.N(300)*(1+rng.N(12)))
				if rng.P(5) {
					body += strings.Repeat("long ", 14000)
				}
				body += "~" // trailing blanks may go
			}
			args := []interface{}{}
			s.want = s.tag + body
			f := strings.ReplaceAll(s.want, "%", "%%")
			if s.formatted {
				for k := rng.N(3); k > 0; k-- {
					switch rng.N(3) {
					case 0:
						f, s.want, args = f+" %d", s.want+" 42", append(args, 42)
					case 1:
						v := rng.Pick([]string{"v", "100%d", "a b", "%s"})
						f, s.want, args = f+" %s", s.want+" "+v, append(args, v)
					default:
						f, s.want, args = f+" %v", s.want+" true", append(args, true)
					}
				}
			}
			lv := s.level
			if s.formatted {
				s.call = func() {
					[]func(string, ...interface{}){l.Debugf, l.Infof, l.Warnf, l.Errorf, l.Fatalf}[lv](f, args...)
				}
			} else {
				w := s.want
				s.call = func() { []func(...interface{}){l.Debug, l.Info, l.Warn, l.Error, l.Fatal}[lv](w) }
			}
			all = append(all, s)
			times[s.tag]++
			c.Desc("threshold %s: level %s formatted %v says %q", logLabels[threshold], logLabels[s.level], s.formatted, s.want)
		}
		together := rng.P(40)
		out := stdout(func() {
			if !together {
				for _, s := range all {
					s.call()
				}
				return
			}
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for i := g; i < len(all); i += 4 {
						all[i].call()
					}
				}(g)
			}
			wg.Wait()
		})
		if out != "" && !strings.HasSuffix(out, "\n") {
			c.Violate("C32", "the last message doesn't end its line: %q", out)
		}
		lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		if out == "" {
			lines = nil
		}
		seen := map[string]int{}
		pos := 0
		for _, raw := range lines {
			line := sgr.ReplaceAllString(raw, "")
			found := -1
			for i, s := range all {
				if !together && i < pos && times[s.tag] > 1 {
					continue // printed before
				}
				if strings.Contains(line, s.tag) {
					if found >= 0 && all[found].tag == s.tag {
						continue
					}
					if found >= 0 {
						c.Violate("C32", "two messages on one line: %q", line)
					}
					found = i
				}
			}
			if found < 0 {
				c.Violate("C32", "a line nobody logged: %q", line)
				return
			}
			s := all[found]
			seen[s.tag]++
			if s.level < threshold {
				c.Violate("C32", "%s message printed at threshold %s: %q", logLabels[s.level], logLabels[threshold], line)
			}
			before, rest, _ := strings.Cut(line, s.tag)
			if !strings.Contains(before, logLabels[s.level]) {
				c.Violate("C32", "%s message labelled %q", logLabels[s.level], before)
			}
			for i, lb := range logLabels {
				if i != s.level && strings.Contains(before, lb) {
					c.Violate("C32", "%s message labelled %q", logLabels[s.level], before)
				}
			}
			if s.tag+rest != s.want {
				c.Violate("C32", "%q was printed as %q", s.want, s.tag+rest)
			}
			if !together {
				if found < pos {
					c.Violate("C32", "messages out of order: %q", line)
				}
				pos = found + 1
			}
			if c.bad {
				return
			}
		}
		for _, s := range all {
			want := 0
			if s.level >= threshold {
				want = times[s.tag]
			}
			if seen[s.tag] != want {
				c.Violate("C32", "%s message at threshold %s printed %d times: %q", logLabels[s.level], logLabels[threshold], seen[s.tag], s.want)
				return
			}
			c.Count(fmt.Sprintf("logger.%s.%s.%v", logLabels[threshold], logLabels[s.level], s.formatted))
		}
		if together {
			c.Count("logger.concurrent")
		}
		c.Nontrivial(fmt.Sprint(threshold, together, len(lines), c.Index))
		c.Sample()
	})
}

func runMessages(x *Ctx, gen string, n int) {
	names := map[string]log.LogEvent{}
	x.Run(gen+".names", 8, func(c *Case) {
		for ev := log.AuthenticationFailed; ev <= log.LoginRequired; ev++ {
			nm := ev.String()
			if nm == "" || controls(nm) != "" {
				c.Violate("C32", "event %d has the name %q", int(ev), nm)
			}
			if o, ok := names[nm]; ok && o != ev {
				c.Violate("C32", "events %d and %d have the same name %q", int(o), int(ev), nm)
			}
			names[nm] = ev
			c.Count("events")
		}
		names = map[string]log.LogEvent{}
		c.Nontrivial("names")
	})
	x.Run(gen, n, func(c *Case) {
		rng := c.Rng
		ev := log.AuthenticationFailed + log.LogEvent(rng.N(int(log.LoginRequired-log.AuthenticationFailed)+1))
		realm := rng.Pick([]string{"/authorize", "refresh_token", "/a/b.c-d_e", rng.logText(), rng.logText()})
		msg := rng.Pick([]string{"", "'scope' not allowed", "went wrong: x"})
		var params map[string]string
		if rng.P(90) {
			params = map[string]string{}
			for i := rng.N(4); i > 0; i-- {
				params[rng.Pick([]string{"scope", "client_id", "redirect_uri", rng.logText()})] = rng.Pick([]string{rng.logText(), rng.logText(), rng.logText(), "", "plain"})
			}
		}
		name, f := "authorization_endpoint", log.AuthorizationEndpointLog
		switch rng.N(4) {
		case 0:
			name, f = "token_endpoint", log.TokenEndpointLog
		case 1:
			name, f = "protected_resource", log.ProtectedResourceLog
		case 2:
			name, f = "some_endpoint", func(r string, e log.LogEvent, p map[string]string, m string) string {
				return log.EndpointLog("some_endpoint", r, e, p, m)
			}
		}
		c.Desc("%s realm %q event %d attributes %q message %q", name, realm, int(ev), params, msg)
		given := map[string]string{}
		for k, v := range params {
			given[k] = v
		}
		if params == nil {
			given = nil
		}
		var text string
		if p := capture(func() { text = f(realm, ev, given, msg) }); p != "" {
			c.Violate("*", "panic: %s", p)
			return
		}
		got := judgeLine(c, text, []string{realm})
		if c.bad {
			return
		}
		plain := sgr.ReplaceAllString(text, "")
		if plainRealm.MatchString(realm) && got != ev.String() || !strings.Contains(plain, ":"+ev.String()+"]") {
			c.Violate("C32", "event %q named %q in %q", ev.String(), got, plain)
		}
		if !strings.HasPrefix(plain, "[goidc:"+name+":") {
			c.Violate("C32", "endpoint not named in %q", plain)
		}
		if !strings.Contains(plain, msg) {
			c.Violate("C32", "message %q missing in %q", msg, plain)
		}
		// the attributes are there, and can be read
		i := strings.LastIndex(plain, msg+" ") + len(msg) + 1
		if msg == "" {
			i = strings.Index(plain, "] ") + 3
			if !plainRealm.MatchString(realm) {
				i = -1
			}
		}
		valid := true
		for k, v := range params {
			valid = valid && validUTF8(k) && validUTF8(v)
		}
		if i > 0 && i <= len(plain) && valid && msg == "'scope' not allowed" {
			var back map[string]string
			if err := json.Unmarshal([]byte(plain[i:]), &back); err != nil || len(back) != len(params) {
				c.Violate("C32", "attributes %q became %q (%v)", params, plain[i:], err)
			}
			for k, v := range params {
				if back[k] != v {
					c.Violate("C32", "attribute %q=%q became %q", k, v, back[k])
				}
			}
			c.Count("attributes.read")
		}
		c.Count("messages")
		c.Nontrivial(fmt.Sprint(name, ev, realm, len(params)))
		c.Sample()
	})
}

// capture gives back what f panicked with.
func capture(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprint(e)
		}
	}()
	f()
	return
}

// runLogged serves requests full of hostile text and looks at every message logged.
func runLogged(x *Ctx, gen string, n int) {
	x.Run(gen, n, func(c *Case) {
		rng := c.Rng
		spoil := func(q *Req) {
			lists := []*[]KV{&q.Query, &q.Body, &q.Header}
			for i := 0; i < 1+rng.N(3); i++ {
				l := *lists[rng.N(3)]
				if len(l) > 0 && rng.P(80) {
					k := rng.N(len(l))
					if rng.P(70) {
						l[k].V = rng.logText()
					} else {
						l[k].V += rng.logText()
					}
				}
			}
			if rng.P(40) {
				q.Method = rng.Pick([]string{"GET", "PUT", "DELETE", "G\nET", "\x1b[2J"})
			}
		}
		story := false
		var w *World
		var realms []string
		var run func()
		endpoint := ""
		plain := rng.P(30) // nothing spoilt, to see ordinary messages
		path := rng.Pick([]string{"", "", "/x\n[FATAL] forged", "/\x1b[2J", "/\u009b31m", "/\u2028", "/a\r", "/%0a", "/日本"})
		var q *Req
		switch rng.N(3) {
		case 0:
			tc := GenTok(rng, "", nil)
			w, q = tc.W, tc.Req
			endpoint = "token_endpoint"
			if !plain {
				spoil(q)
			}
			th := tc.Cfg.Endpoint(w).Handler(&DI{w})
			run = func() { tc.Serve(th) }
			realms = append([]string{"common", ""}, allGrants...)
			realms = append(realms, q.Get("grant_type"))
		case 1:
			ac := GenAuth(rng, nil)
			w, q = ac.W, ac.Req
			endpoint = "authorization_endpoint"
			if path != "" {
				q.Path = path
			}
			if !plain {
				spoil(q)
			}
			run = func() { ac.Handle(ac.Endpoint()) }
			realms = []string{q.Path, "/consent"}
			if plain && path == "" {
				story = true
				run = func() { ac.story(c) }
			}
		default:
			rc := GenRP(rng, rng.Bool(), nil)
			w, q = rc.W, rc.Req
			endpoint = "protected_resource"
			if path != "" {
				q.Path = path
			}
			if !plain {
				spoil(q)
			}
			run = func() { rc.Serve(rc.Protector()) }
			realms = []string{q.Path}
		}
		if !story && rng.P(20) { // something fails with a message of its own
			for i := 0; i < 2; i++ {
				w.Faults[rng.Pick([]string{"FindClientById", "FindAuthSessionByCode", "FindActiveAuthInfoById", "FindAuthInfoByUserIdAndClientId", "FindOAuthTokenByAccessToken", "FindOAuthTokenByRefreshToken", "CreateOAuthToken", "CreateOrUpdateAuthInfo", "CreateAuthSession", "DisableSession", "FindUserId"})] =
					rng.Pick([]string{FaultUnsupported, FaultServer, FaultFailed})
			}
		}
		c.DescFn = func() []string {
			d := append(w.describe(), q.String())
			for _, l := range w.Logs {
				d = append(d, fmt.Sprintf("log %s %q", l.Level, l.Text))
			}
			return d
		}
		setJWTClock(w)
		run()
		said := map[LogEntry]bool{}
		for _, l := range w.Logs {
			if said[l] && !story {
				c.Violate("C32", "the same message twice: %q", l.Text)
			}
			said[l] = true
			ev := judgeLine(c, l.Text, realms)
			if c.bad {
				return
			}
			if m := endpointLine.FindStringSubmatch(sgr.ReplaceAllString(l.Text, "")); m != nil && m[1] != endpoint {
				c.Violate("C32", "a message of the %s names %q: %q", endpoint, m[1], l.Text)
				return
			}
			c.Count("line." + ev)
			c.Count("line." + strconv.Quote(l.Level))
			c.Count("lines")
			c.Nontrivial(fmt.Sprint(ev, l.Level, path, plain))
		}
		c.Sample()
	})
}

// runStandard serves with the logger the endpoints have when none is set.
func runStandard(x *Ctx, gen string, n int) {
	x.Run(gen, n, func(c *Case) {
		rng := c.Rng
		th := rng.N(5)
		defer log.SetLevelForDefaultLogger(log.LogLevelDebug)
		log.SetLevelForDefaultLogger(log.LogLevel(th))
		rc := GenRP(rng, false, nil)
		rc.Req.Path = rng.Pick([]string{"/plain", "/x\n[FATAL] forged", "/\x1b[2J", "/\u009b31m"})
		rp := goidc.NewResourceProtector(rc.Realm)
		rp.AcceptAccessToken(rc.Accept)
		rp.SetTimeBuilder(rc.W.TimeBuilder())
		// the same with a logger of our own, to know what is to be printed
		rc2 := *rc
		rc2.W = rc.W.Snapshot()
		_, _, _, _ = rc2.Serve(rc2.Protector())
		var want []string
		for _, l := range rc2.W.Logs {
			for i, lb := range logLabels {
				if strings.EqualFold(lb, l.Level) && i >= th {
					want = append(want, "["+lb+"] "+sgr.ReplaceAllString(l.Text, ""))
				}
			}
		}
		out := sgr.ReplaceAllString(stdout(func() { rc.Serve(rp) }), "")
		c.Desc("threshold %s request %s printed %q", logLabels[th], rc.Req, out)
		got := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		if out == "" {
			got = nil
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			c.Violate("C32", "printed %q, want %q", got, want)
		}
		c.CountN("standard.lines", len(got))
		c.Nontrivial(fmt.Sprint(th, got))
		c.Sample()
	})
}

func init() {
	checks["C32"] = func(x *Ctx) {
		x.R.Rule = "messages at all levels and thresholds; all events with hostile realms and attributes; messages logged while serving hostile requests; nontrivial by (threshold, lines), (endpoint, event, realm), (event, level, path)"
		runLogger(x, "logger", x.Scale(4000, 60000))
		runMessages(x, "message", x.Scale(60000, 1500000))
		runLogged(x, "logged", x.Scale(30000, 600000))
		runStandard(x, "standard", x.Scale(2000, 20000))
		for k, n := range map[string]int{"messages": 50000, "attributes.read": 3000, "lines": 20000, "standard.lines": 100, "logger.concurrent": 500, "logger.ERROR.ERROR.false": 500, "logger.ERROR.FATAL.true": 500, "events": 200} {
			x.Require(k, n)
		}
	}
}
