package access

import (
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"net/url"
	"time"

	"github.com/golang-jwt/jwt/v4"
)

func secret(kid, jku string) []byte { return []byte("secret/" + kid + "/" + jku) }

// keySource knows the given (key ID, URL) pairs.
func keySource(known map[[2]string]bool, asked *[][2]string) func(string, string) interface{} {
	return func(kid, jku string) interface{} {
		if asked != nil {
			*asked = append(*asked, [2]string{kid, jku})
		}
		if known[[2]string{kid, jku}] {
			return secret(kid, jku)
		}
		return nil
	}
}

func sign(header, claims map[string]interface{}, key []byte) string {
	t := jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims(claims))
	for k, v := range header {
		t.Header[k] = v
	}
	s, err := t.SignedString(key)
	if err != nil {
		panic(err)
	}
	return s
}

func thumb(raw []byte) string {
	s := sha256.Sum256(raw)
	return base64.RawURLEncoding.EncodeToString(s[:])
}

func mkCert(raw, cn string, nb time.Time, uris ...string) *x509.Certificate {
	c := &x509.Certificate{Raw: []byte(raw), Subject: pkix.Name{CommonName: cn}, NotBefore: nb}
	for _, u := range uris {
		p, err := url.Parse(u)
		if err == nil {
			c.URIs = append(c.URIs, p)
		}
	}
	return c
}
