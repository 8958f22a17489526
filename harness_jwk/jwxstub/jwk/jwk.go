// Package jwk is a minimal stand-in for github.com/lestrrat/go-jwx/jwk, which is not available in
// this sandbox. It offers only what goidc uses: RSA public keys, key ids, sets, parsing and lookup.
package jwk

import (
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
)

const KeyIDKey = "kid"

type Key interface {
	Set(key string, value interface{}) error
	Kid() string
	Materialize() (interface{}, error)
}

type Set struct {
	Keys []Key `json:"keys"`
}

type RSAPublicKey struct {
	E, N string
	KID  string
}

type SymmetricKey struct {
	KID string
	K   string
}

type wire struct {
	E   string `json:"e,omitempty"`
	Kid string `json:"kid,omitempty"`
	Kty string `json:"kty"`
	N   string `json:"n,omitempty"`
	D   string `json:"d,omitempty"`
	K   string `json:"k,omitempty"`
}

var b64 = base64.RawURLEncoding

func New(key interface{}) (Key, error) {
	switch k := key.(type) {
	case *rsa.PublicKey:
		if k == nil || k.N == nil {
			return nil, errors.New("nil key")
		}
		return &RSAPublicKey{E: b64.EncodeToString(big.NewInt(int64(k.E)).Bytes()), N: b64.EncodeToString(k.N.Bytes())}, nil
	default:
		return nil, fmt.Errorf("unsupported key type %T", key)
	}
}

func (k *RSAPublicKey) Set(key string, value interface{}) error {
	if key != KeyIDKey {
		return errors.New("unsupported header")
	}
	s, ok := value.(string)
	if !ok {
		return errors.New("invalid value")
	}
	k.KID = s
	return nil
}
func (k *RSAPublicKey) Kid() string { return k.KID }
func (k *RSAPublicKey) Materialize() (interface{}, error) {
	n, err := b64.DecodeString(k.N)
	if err != nil {
		return (*rsa.PublicKey)(nil), err
	}
	e, err := b64.DecodeString(k.E)
	if err != nil {
		return (*rsa.PublicKey)(nil), err
	}
	return &rsa.PublicKey{N: new(big.Int).SetBytes(n), E: int(new(big.Int).SetBytes(e).Int64())}, nil
}
func (k *RSAPublicKey) MarshalJSON() ([]byte, error) {
	return json.Marshal(&wire{E: k.E, Kid: k.KID, Kty: "RSA", N: k.N})
}

func (k *SymmetricKey) Set(key string, value interface{}) error { return nil }
func (k *SymmetricKey) Kid() string                             { return k.KID }
func (k *SymmetricKey) Materialize() (interface{}, error)       { return []byte(k.K), nil }

func ParseString(s string) (*Set, error) {
	var raw struct {
		Keys []wire `json:"keys"`
	}
	if err := json.Unmarshal([]byte(s), &raw); err != nil {
		return nil, err
	}
	set := &Set{}
	for _, w := range raw.Keys {
		switch w.Kty {
		case "RSA":
			if w.D != "" || w.N == "" || w.E == "" {
				return nil, errors.New("unsupported RSA key")
			}
			set.Keys = append(set.Keys, &RSAPublicKey{E: w.E, N: w.N, KID: w.Kid})
		case "oct":
			set.Keys = append(set.Keys, &SymmetricKey{KID: w.Kid, K: w.K})
		default:
			return nil, errors.New("unknown kty")
		}
	}
	return set, nil
}

func (s *Set) LookupKeyID(kid string) []Key {
	var out []Key
	for _, k := range s.Keys {
		if k.Kid() == kid {
			out = append(out, k)
		}
	}
	return out
}
