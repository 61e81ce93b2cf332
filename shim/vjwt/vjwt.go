// Package vjwt replaces the signing of tokens: a token is a name for what was signed.
package vjwt

import "errors"

type Claims interface{ Valid() error }

type StandardClaims struct {
	Audience  string
	ExpiresAt int64
	Id        string
	IssuedAt  int64
	Issuer    string
	NotBefore int64
	Subject   string
}

func (StandardClaims) Valid() error { return nil }

type MapClaims map[string]interface{}

func (MapClaims) Valid() error { return nil }

type Key struct{ pem string }

type SigningMethod interface{ Alg() string }

type method string

func (m method) Alg() string { return string(m) }

var (
	SigningMethodES256 SigningMethod = method("ES256")
	SigningMethodES384 SigningMethod = method("ES384")
	SigningMethodES512 SigningMethod = method("ES512")
	SigningMethodHS256 SigningMethod = method("HS256")
	SigningMethodHS384 SigningMethod = method("HS384")
	SigningMethodHS512 SigningMethod = method("HS512")
	SigningMethodRS256 SigningMethod = method("RS256")
	SigningMethodNone  SigningMethod = method("none")
)

func ParseECPrivateKeyFromPEM(b []byte) (*Key, error) {
	if len(b) == 0 {
		return nil, errors.New("no key")
	}
	return &Key{string(b)}, nil
}

type Token struct {
	Header map[string]interface{}
	Claims Claims
	Method SigningMethod
}

// Issued are the tokens signed; the n-th is Mark followed by the digit n.
var Issued []*Token

const Mark = "token#"

func Reset() { Issued = nil }

func New(m SigningMethod) *Token { return NewWithClaims(m, MapClaims{}) }

func NewWithClaims(m SigningMethod, c Claims) *Token {
	return &Token{Header: map[string]interface{}{"typ": "JWT", "alg": m.Alg()}, Claims: c, Method: m}
}

func (t *Token) SignedString(key interface{}) (string, error) {
	if _, ok := key.(*Key); !ok || t.Method != SigningMethodES256 {
		return "", errors.New("key is of invalid type")
	}
	Issued = append(Issued, t)
	return Mark + string([]byte{byte('0' + len(Issued) - 1)}), nil
}

// Standard are the claims of a token issued under a name.
func Standard(tok string) (c StandardClaims, ok bool) {
	if len(tok) != len(Mark)+1 || tok[:len(Mark)] != Mark {
		return
	}
	n := int(tok[len(Mark)] - '0')
	if n < 0 || n >= len(Issued) {
		return
	}
	switch x := Issued[n].Claims.(type) {
	case *StandardClaims:
		return *x, true
	case StandardClaims:
		return x, true
	case MapClaims:
		c.Subject, _ = x["sub"].(string)
		c.ExpiresAt = num(x["exp"])
		c.NotBefore = num(x["nbf"])
		return c, true
	}
	return
}

func num(x interface{}) int64 {
	switch y := x.(type) {
	case int64:
		return y
	case int:
		return int64(y)
	case float64:
		return int64(y)
	}
	return 0
}
