package main

// A dictionary read from the source under test, as fuzzers use one: words and numbers that the code compares
// with something are worth trying as names, values, lengths, counts and times. The oracles don't know it.

import (
	_ "embed"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

//go:embed dict_base.txt
var dictBase string

// dict holds all literals; fresh those that aren't in dict_base.txt, the literals of the code as it was when
// the harness was written.
var dict, fresh struct {
	words []string
	nums  []int64
}

func readDict(root string) (words []string, nums []int64) {
	ws, ns := map[string]bool{}, map[int64]bool{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); p != root && (n == "vendor" || n == "test_helper" || n == "example" || n == "examples" || strings.HasPrefix(n, ".")) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if f == nil {
			return nil
		}
		skip := map[*ast.BasicLit]bool{}
		for _, i := range f.Imports {
			skip[i.Path] = true
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if fl, ok := n.(*ast.Field); ok && fl.Tag != nil {
				skip[fl.Tag] = true
			}
			l, ok := n.(*ast.BasicLit)
			if !ok || skip[l] {
				return true
			}
			switch l.Kind {
			case token.STRING:
				if s, err := strconv.Unquote(l.Value); err == nil && s != "" && len(s) <= 60 {
					ws[s] = true
				}
			case token.CHAR:
				if s, err := strconv.Unquote(l.Value); err == nil {
					ws[s] = true
				}
			case token.INT, token.FLOAT:
				v, err := strconv.ParseInt(l.Value, 0, 64)
				if err != nil {
					x, err2 := strconv.ParseFloat(l.Value, 64)
					if err2 != nil || x > 1<<50 {
						return true
					}
					v = int64(x)
				}
				ns[v] = true
			}
			return true
		})
		return nil
	})
	for s := range ws {
		words = append(words, s)
	}
	sort.Strings(words)
	for v := range ns {
		nums = append(nums, v)
	}
	for i := range nums {
		for j := i + 1; j < len(nums); j++ {
			if nums[j] < nums[i] {
				nums[i], nums[j] = nums[j], nums[i]
			}
		}
	}
	return
}

func initDict() {
	dict.words, dict.nums = readDict(os.Getenv("VERIF_SRC"))
	known := map[string]bool{}
	for _, l := range strings.Split(dictBase, "\n") {
		known[l] = true
	}
	for _, s := range dict.words {
		if !known["s "+strconv.Quote(s)] {
			fresh.words = append(fresh.words, s)
		}
	}
	for _, v := range dict.nums {
		if !known["n "+strconv.FormatInt(v, 10)] {
			fresh.nums = append(fresh.nums, v)
		}
	}
}

func dumpDict() {
	for _, s := range dict.words {
		os.Stdout.WriteString("s " + strconv.Quote(s) + "\n")
	}
	for _, v := range dict.nums {
		os.Stdout.WriteString("n " + strconv.FormatInt(v, 10) + "\n")
	}
}

// FreshP is P with a chance that grows when the dictionary holds something new.
func (r *Rng) FreshP(pct, freshPct int, isFresh bool) bool {
	if isFresh {
		return r.P(freshPct)
	}
	return r.P(pct)
}

var sideNames = []string{"prn", "user", "uid", "username", "user_id", "sub", "subject", "client", "client_name", "azp", "act", "actor", "email", "scopes", "iss", "aud", "debug", "admin", "trace",
	"test", "mode", "format", "callback", "method", "_method", "force", "skip", "version", "login", "redirect_to", "redirect", "next", "return_to", "continue", "lang", "locale", "approval", "approval_prompt",
	"auto", "token", "expires_in", "lifetime", "ttl", "now", "time", "role", "roles", "tenant", "impersonate", "on_behalf_of", "requested_subject", "audience", "resource", "consent", "granted", "code_verifier",
	"offline", "access_type", "id", "key", "kid", "alg", "auth_time", "amr", "acr", "nonce", "display", "ui_locales", "claims", "request", "request_uri", "hd", "dry_run", "internal", "trusted"}

// Word picks a literal of the code, or a name that services of this kind might look at.
func (r *Rng) Word() string {
	if len(fresh.words) > 0 && r.P(65) {
		return r.Pick(fresh.words)
	}
	if len(dict.words) > 0 && r.P(30) {
		return r.Pick(dict.words)
	}
	return r.Pick(sideNames)
}

// Name is a Word that isn't reserved.
func (r *Rng) Name(reserved map[string]bool) string {
	for i := 0; i < 20; i++ {
		if w := r.Word(); !reserved[w] && !reserved[lower(w)] {
			return w
		}
	}
	return "x"
}

// Num picks a small number around a literal of the code or around where things commonly end; 0 < Num <= max.
func (r *Rng) Num(max int64) int64 {
	for i := 0; i < 20; i++ {
		var n int64
		switch {
		case len(fresh.nums) > 0 && r.P(60):
			n = r.PickI(fresh.nums)
		case len(dict.nums) > 0 && r.P(20):
			n = r.PickI(dict.nums)
		default:
			n = r.PickI([]int64{2, 4, 8, 10, 16, 20, 32, 50, 64, 100, 128, 256, 1000, 1024, 4096})
		}
		if n += int64(r.N(3)) - 1; n > 0 && n <= max {
			return n
		}
	}
	return 1 + int64(r.N(int(max)))
}

// Secs is a length of time worth trying.
func (r *Rng) Secs() int64 {
	n := r.Num(1 << 34)
	switch r.N(4) {
	case 0:
		n *= 60
	case 1:
		n *= 3600
		if r.P(30) {
			n *= 24
		}
	}
	if n > 1<<40 {
		n = 1 << 40
	}
	return n
}
