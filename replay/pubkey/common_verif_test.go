package pubkey

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"errors"
	"io"
	"io/ioutil"
	"net/http"
	"strings"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
)

var errScripted = errors.New("scripted failure")

// testKey is one key pair: its public half as served, and a signature that only it verifies.
type testKey struct{ pub, sig string }

const signedText = "text signed by the test keys"

func mkKeys(n int) []testKey {
	var r []testKey
	for i := 0; i < n; i++ {
		k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		pb, _ := x509.MarshalPKIXPublicKey(&k.PublicKey)
		kb, _ := x509.MarshalECPrivateKey(k)
		s, err := authcore.NewSigner(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}))
		if err != nil {
			panic(err)
		}
		sg, _ := s.Sign(signedText)
		y := new(authcore.YBase64)
		r = append(r, testKey{y.EncodeToString(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: pb})), sg})
	}
	return r
}

func whichKey(ks []testKey, v authcore.Verifier) int {
	if v == nil {
		return -1
	}
	for i, k := range ks {
		if v.Verify(signedText, k.sig) == nil {
			return i
		}
	}
	return -2
}

type rtFunc func(*http.Request) (*http.Response, error)

func (f rtFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

type body struct {
	io.Reader
	closed *bool
}

func (b body) Close() error {
	if b.closed != nil {
		*b.closed = true
	}
	return nil
}

func mkResp(status int, text, etag string) *http.Response {
	h := http.Header{}
	if etag != "" {
		h.Set("ETag", etag)
	}
	return &http.Response{StatusCode: status, Header: h, Body: ioutil.NopCloser(strings.NewReader(text)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Status: "x"}
}

func setJSON(ks []testKey, set map[string]int) string {
	c := SysAuthConfig{Name: "sys.auth.x"}
	for id, k := range set {
		c.PublicKeys = append(c.PublicKeys, &PublicKey{ID: id, Key: ks[k].pub})
	}
	b, _ := json.Marshal(c)
	return string(b)
}
