#!/bin/bash
# Builds the demonstration against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/m"
cp "$here"/*.go "$tmp/m/"
cp "$here/demo.sum" "$tmp/m/go.sum"
cp -r "$here/jwxstub" "$tmp/"
cat > "$tmp/m/go.mod" <<M
module demo
go 1.23.0
require (
	github.com/golang-jwt/jwt v3.2.2+incompatible
	github.com/lyokato/goidc v0.0.0
	github.com/lestrrat/go-jwx v0.0.0
)
require github.com/google/go-querystring v1.2.0 // indirect
replace github.com/lyokato/goidc => $repo
replace github.com/lestrrat/go-jwx => $tmp/jwxstub
M
cat > "$tmp/repo.mod" <<M
module github.com/lyokato/goidc
go 1.23.0
require (
	github.com/golang-jwt/jwt v3.2.2+incompatible
	github.com/google/go-querystring v1.2.0
	github.com/lestrrat/go-jwx v0.0.0
)
M
printf '{"Replace":{"%s/go.mod":"%s/repo.mod"}}' "$repo" "$tmp" > "$tmp/ov.json"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
[ -n "$HOME" ] || export HOME=$tmp
cd "$tmp/m" && go build @RACE@-overlay "$tmp/ov.json" -o "$tmp/demo" . || exit 3
cd "$tmp" && @ENV@./demo
