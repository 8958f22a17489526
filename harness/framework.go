package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Violation struct {
	Property string   `json:"property"`
	Gen      string   `json:"generator"`
	Index    int      `json:"index"`
	Message  string   `json:"message"`
	Detail   []string `json:"detail"`
}

type Result struct {
	Evaluations int               `json:"evaluations"`
	Distinct    []uint64          `json:"-"`
	DistinctN   int               `json:"distinct"`
	Samples     []string          `json:"samples"`
	Counters    map[string]int    `json:"counters"`
	Require     map[string]int    `json:"require"`
	Violations  []Violation       `json:"violations"`
	Known       map[string]string `json:"known"` // finding id -> first example
	Rule        string            `json:"rule"`
	Exhaustive  bool              `json:"exhaustive"`
}

type Ctx struct {
	Prop, Tier    string
	Seed          int
	Shard, Shards int
	OnlyGen       string
	OnlyIdx       int
	R             Result
	seen          map[uint64]bool
	stop          bool
	out           string
	beat          int64 // changes when an execution begins; 0 for none
	current       atomic.Value
}

// stuckAfter is how long one execution may take; they take well under a second.
const stuckAfter = 120

// watch ends the process with a violation when a case doesn't come to an end.
func (x *Ctx) watch() {
	last, since := int64(0), 0 // counts its own ticks: a machine that stood still isn't a hang
	for {
		time.Sleep(time.Second)
		if b := atomic.LoadInt64(&x.beat); b == 0 || b != last {
			last, since = b, 0
			continue
		}
		if since++; since < stuckAfter {
			continue
		}
		cur, _ := x.current.Load().(string)
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		if !strings.Contains(string(buf), "lyokato/goidc") {
			fmt.Fprintf(os.Stderr, "HARNESS STUCK in %s\n%s", cur, buf)
			os.Exit(3)
		}
		gen, idx, _ := strings.Cut(cur, "#")
		n, _ := strconv.Atoi(idx)
		r := Result{Evaluations: 1, Counters: map[string]int{}, Require: map[string]int{}, Known: map[string]string{},
			Violations: []Violation{{x.Prop, gen, n, fmt.Sprintf("no answer within %d s", stuckAfter), strings.Split(string(buf), "\n")}}}
		x.write(r, nil)
		os.Exit(0)
	}
}

func (x *Ctx) write(r Result, hashes []string) {
	b, err := json.Marshal(struct {
		Result
		Hashes []string `json:"hashes"`
	}{r, hashes})
	if err != nil {
		panic(err)
	}
	if x.out == "" {
		os.Stdout.Write(b)
	} else if err := os.WriteFile(x.out, b, 0644); err != nil {
		panic(err)
	}
}

type Case struct {
	*Ctx
	Gen    string
	Index  int
	Rng    *Rng
	desc   []string
	DescFn func() []string
	bad    bool
	Any    bool // every deviation belongs to the property under check
}

func (c *Case) describe() []string {
	d := append([]string{}, c.desc...)
	if c.DescFn != nil {
		d = append(d, c.DescFn()...)
	}
	return d
}

func (x *Ctx) Thorough() bool { return x.Tier == "thorough" }

// Scale picks a case count by tier.
func (x *Ctx) Scale(quick, thorough int) int {
	if x.Thorough() {
		return thorough
	}
	return quick
}

func (x *Ctx) Count(name string)          { x.R.Counters[name]++ }
func (x *Ctx) CountN(name string, n int)  { x.R.Counters[name] += n }
func (x *Ctx) Require(name string, n int) { x.R.Require[name] = n }

// Known notes a known finding met, for the properties it belongs to.
func (x *Ctx) Known(props, id, example string) {
	if !hasWord(props, x.Prop) {
		return
	}
	if _, ok := x.R.Known[id]; !ok {
		x.R.Known[id] = example
	}
}

// Nontrivial notes a case that exercised the property, by its signature.
func (x *Ctx) Nontrivial(sig string) {
	h := fnv.New64a()
	h.Write([]byte(sig))
	x.seen[h.Sum64()] = true
}

func (c *Case) Desc(f string, a ...interface{}) {
	c.desc = append(c.desc, fmt.Sprintf(f, a...))
}

func (c *Case) Sample() {
	if len(c.R.Samples) < 3 || (len(c.R.Samples) < 6 && c.Index%97 == 0) {
		s := strings.Join(c.describe(), " | ")
		if len(s) > 900 {
			s = s[:900] + "..."
		}
		c.R.Samples = append(c.R.Samples, fmt.Sprintf("%s#%d: %s", c.Gen, c.Index, s))
	}
}

// Violate reports a violation if the property under check is among props ("*" matches any).
func (c *Case) Violate(props string, f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	if props != "*" && !c.Any && !hasWord(props, c.Prop) {
		c.Count("other." + strings.ReplaceAll(props, " ", "+"))
		return
	}
	if len(c.R.Violations) < 12 {
		d := c.describe()
		c.R.Violations = append(c.R.Violations, Violation{c.Prop, c.Gen, c.Index, msg, d})
	}
	c.Count("violations")
	c.bad = true
	if c.R.Counters["violations"] > 200 {
		c.stop = true
	}
}

// Probe runs f and tells whether it would have reported anything, reporting nothing.
func (c *Case) Probe(f func()) bool {
	v, cnt, bad, stop, any := c.R.Violations, c.R.Counters, c.bad, c.stop, c.Any
	c.R.Counters, c.bad, c.Any = map[string]int{}, false, true
	f()
	found := c.bad
	c.R.Violations, c.R.Counters, c.bad, c.stop, c.Any = v, cnt, bad, stop, any
	return found
}

// Beat tells the watchdog that the work goes on.
func (x *Ctx) Beat() { atomic.AddInt64(&x.beat, 1) }

// Run drives n cases of a generator; the shard takes every Shards-th.
func (x *Ctx) Run(gen string, n int, f func(c *Case)) {
	if x.OnlyGen != "" && x.OnlyGen != gen {
		return
	}
	for i := 0; i < n && !x.stop; i++ {
		if x.OnlyGen != "" {
			if i != x.OnlyIdx {
				continue
			}
		} else if i%x.Shards != x.Shard {
			continue
		}
		c := &Case{Ctx: x, Gen: gen, Index: i, Rng: NewRng(x.Seed, gen, i)}
		x.R.Evaluations++
		x.current.Store(gen + "#" + strconv.Itoa(i))
		x.Beat()
		func() {
			defer func() {
				if e := recover(); e != nil {
					fmt.Fprintf(os.Stderr, "HARNESS PANIC in %s#%d: %v\n%s\n", gen, i, e, debug.Stack())
					os.Exit(3)
				}
			}()
			f(c)
		}()
	}
}

var atStart = map[string]func(){}

var checks = map[string]func(x *Ctx){}

func main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int("seed", 1, "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	out := flag.String("out", "", "")
	onlyGen := flag.String("gen", "", "")
	onlyIdx := flag.Int("idx", 0, "")
	flag.Parse()
	initDict()
	if *prop == "dict" {
		dumpDict()
		return
	}
	initKeys()
	f, ok := checks[*prop]
	if !ok {
		names := []string{}
		for n := range checks {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Fprintln(os.Stderr, "unknown property; have", names)
		os.Exit(4)
	}
	x := &Ctx{Prop: *prop, Tier: *tier, Seed: *seed, Shard: *shard, Shards: *shards, OnlyGen: *onlyGen, OnlyIdx: *onlyIdx,
		R: Result{Counters: map[string]int{}, Require: map[string]int{}, Known: map[string]string{}}, seen: map[uint64]bool{}}
	x.out = *out
	if h := atStart[x.Prop]; h != nil && x.out != "" {
		h()
	}
	go x.watch()
	f(x)
	atomic.StoreInt64(&x.beat, 0)
	x.R.DistinctN = len(x.seen)
	hashes := make([]string, 0, len(x.seen))
	for h := range x.seen {
		hashes = append(hashes, fmt.Sprintf("%016x", h))
	}
	x.write(x.R, hashes)
}
