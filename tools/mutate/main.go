// mutate FILE.go: prints, as JSON lines, small changes to the file: {"op","line","start","end","text"} replaces bytes start..end by text.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File  string `json:"file"`
	Op    string `json:"op"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(op string, n ast.Node, t string) {
			enc.Encode(mut{file, op, fs.Position(n.Pos()).Line, off(n.Pos()), off(n.End()), t})
		}
		isLog := func(n ast.Node) bool {
			s := text(n)
			for _, k := range []string{"te.logger.", "a.logger.", "rp.logger.", "log.", "logger.", "je.logger"} {
				if strings.HasPrefix(s, k) {
					return true
				}
			}
			return false
		}
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CallExpr:
				if isLog(n) {
					return false
				}
			case *ast.IfStmt:
				emit("negate", n.Cond, "!("+text(n.Cond)+")")
				if n.Init == nil {
					emit("never", n.Cond, "("+text(n.Cond)+") && false")
				}
			case *ast.BinaryExpr:
				for _, r := range map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}}[n.Op] {
					if n.Op == token.ADD && (strings.Contains(text(n), "\"")) {
						continue
					}
					emit("op"+r, n, text(n.X)+" "+r+" "+text(n.Y))
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit("left", n, "("+text(n.X)+")")
					emit("right", n, "("+text(n.Y)+")")
				}
			case *ast.ExprStmt:
				if !isLog(n) {
					emit("delete", n, "")
				} else {
					return false
				}
			case *ast.AssignStmt:
				if n.Tok == token.ASSIGN {
					var l, r []string
					for _, x := range n.Lhs {
						l = append(l, "_")
						_ = x
					}
					for _, x := range n.Rhs {
						r = append(r, text(x))
					}
					emit("noassign", n, strings.Join(l, ", ")+" = "+strings.Join(r, ", "))
				}
			case *ast.ReturnStmt:
				for _, x := range n.Results {
					switch text(x) {
					case "true":
						emit("false", x, "false")
					case "false":
						emit("true", x, "true")
					case "nil":
					}
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.STRING:
					if s, err := strconv.Unquote(n.Value); err == nil && !strings.Contains(s, " ") {
						emit("str", n, strconv.Quote(s+"x"))
						if s != "" {
							emit("nostr", n, "\"\"")
						}
					}
				case token.INT:
					emit("int", n, "("+n.Value+" + 1)")
				}
			case *ast.Ident:
				return false
			case *ast.Field:
				return false
			}
			return true
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			ast.Inspect(d, visit)
		}
		// calls swapped for neighbours
		ast.Inspect(f, func(n ast.Node) bool {
			s, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			pairs := map[string]string{"http.StatusBadRequest": "http.StatusUnauthorized", "http.StatusUnauthorized": "http.StatusBadRequest", "http.StatusInternalServerError": "http.StatusBadRequest", "http.StatusForbidden": "http.StatusUnauthorized", "http.StatusMethodNotAllowed": "http.StatusBadRequest"}
			if t, ok := pairs[text(s)]; ok {
				emit("status", s, t)
			}
			if x, ok := s.X.(*ast.Ident); ok && x.Name == "oer" && strings.HasPrefix(s.Sel.Name, "Err") {
				t := "oer.ErrInvalidRequest"
				if s.Sel.Name == "ErrInvalidRequest" {
					t = "oer.ErrAccessDenied"
				}
				emit("err", s, t)
			}
			for _, p := range [][2]string{{"GetClientId", "GetId"}, {"AccessTokenExpiresIn", "RefreshTokenExpiresIn"}, {"GetCreatedAt", "GetLastRefreshedAt"}, {"GetLastRefreshedAt", "GetCreatedAt"}, {"GetAccessTokenExpiresIn", "GetRefreshTokenExpiresIn"}, {"GetRefreshTokenExpiresIn", "GetAccessTokenExpiresIn"}, {"GetAccessToken", "GetRefreshToken"}, {"GetRefreshToken", "GetAccessToken"}} {
				if s.Sel.Name == p[0] {
					emit("swap", s.Sel, p[1])
				}
			}
			return true
		})
	}
	fmt.Fprint(os.Stderr)
}
