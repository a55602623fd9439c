package jwk

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"io/ioutil"
	"net/http"
	"strings"
)

var errScripted = errors.New("scripted failure")

type rtFunc func(*http.Request) (*http.Response, error)

func (f rtFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func mkResp(status int, text string) *http.Response {
	return &http.Response{StatusCode: status, Header: http.Header{"Content-Type": []string{"application/json"}}, Body: ioutil.NopCloser(strings.NewReader(text)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Status: "x"}
}

// octSet serves symmetric keys: the raw key is the text itself.
func octSet(set map[string]string) string {
	var l []map[string]string
	for id, v := range set {
		l = append(l, map[string]string{"kty": "oct", "kid": id, "k": base64.RawURLEncoding.EncodeToString([]byte(v))})
	}
	if l == nil {
		l = []map[string]string{}
	}
	b, _ := json.Marshal(map[string]interface{}{"keys": l})
	return string(b)
}
