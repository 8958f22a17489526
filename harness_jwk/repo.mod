module github.com/lyokato/goidc

go 1.23.0

require (
	github.com/golang-jwt/jwt v3.2.2+incompatible
	github.com/google/go-querystring v1.2.0
	github.com/lestrrat/go-jwx v0.0.0
)
