package authorizerd

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/url"
	"testing"
	"time"

	"github.com/kpango/gache"
	"github.com/kpango/glg"
	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

func TestVerifC22(t *testing.T) {
	h := newVH(t)
	glg.Get().SetMode(glg.WRITER).AddWriter(ioutil.Discard)
	glg.Get().SetLevel(glg.DEBG)
	rules, _ := NewMappingRules(map[string][]Rule{"d": {{Method: "get", Path: "/{a}/b?q={c}", Action: "a", Resource: "{a}{c}"}, {Method: "get", Path: "/x", Action: "a", Resource: "r"}, {Method: "get", Path: "", Action: "a", Resource: "r"}}})
	for i := 0; h.more(i, 12000); i++ {
		parts := []string{"", ";s=", ".", "a", "d=", ":", "%", "\xff", "{a}", "/", "é", "\x00", ";", "="}
		tok, act, res, q := h.str(5, parts...), h.pick("get", "GET", "x", ""), h.pick("/x/b", "/x", "/{a}/b", "", "/", "//b", "b"), h.pick("", "q=1", "q=1&q=2", "%", "q", "=", ";", "z=1", "q={a}")
		var c *x509.Certificate
		if h.chance(60) {
			c = &x509.Certificate{}
			c.Subject.CommonName = h.pick("", "d:role.r", ":role.", "x")
			for k := h.Intn(3); k > 0; k-- {
				u, err := url.Parse(h.pick("athenz://role/d/r", "athenz://role/", "", "athenz://role/d", "x:y"))
				if err == nil {
					c.URIs = append(c.URIs, u)
				}
			}
		}
		trans := h.Intn(3)
		m := mode(h.Intn(5))
		prin := h.chance(50)
		in := fmt.Sprintf("mode %d token %q request %q %q %q certificate %v translator %d", m, tok, act, res, q, c != nil, trans)
		h.run(in, func() {
			a := &authority{cache: gache.New(), cacheExp: time.Minute, roleAuthHeader: "R", roleCertURIPrefix: "athenz://role/", enableRoleCert: true, enableRoleToken: true,
				roleProcessor: &fakeRole{f: func(string) (*role.Token, error) {
					if prin {
						return &role.Token{Principal: "p", Domain: "d"}, nil
					}
					return nil, errScripted
				}},
				accessProcessor: &fakeAccess{f: func(string, *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
					if prin {
						return claim("p", "d", "c", nil, 1, 2), nil
					}
					return nil, errScripted
				}},
				policyd: &fakePolicy{f: func(polCall) ([]string, error) {
					if h.chance(50) {
						return nil, errScripted
					}
					return nil, nil
				}}}
			a.accessTokenParam.enable = true
			switch trans {
			case 1:
				a.translator = rules
			case 2:
				a.translator = &MappingRules{}
			}
			a.initAuthorizers()
			if m == roleToken || m == accessToken {
				a.authorize(context.Background(), m, tok, act, res, q, c)
				a.authorize(context.Background(), m, tok, act, res, q, c)
			}
			a.VerifyRoleCert(context.Background(), []*x509.Certificate{{}}, act, res)
			if c != nil {
				a.VerifyRoleCert(context.Background(), []*x509.Certificate{c, c}, act, res)
			}
			a.VerifyRoleCert(context.Background(), nil, act, res)
			r, err := http.NewRequest("GET", "http://h/", nil)
			if err == nil {
				r.URL.RawQuery = q
				r.Header["R"] = []string{tok}
				r.Header["Authorization"] = []string{h.pick("", "Bearer ", "bearer", "Bearer  ") + tok}
				if h.chance(50) {
					r.TLS = &tls.ConnectionState{}
					if c != nil && h.chance(70) {
						r.TLS.PeerCertificates = []*x509.Certificate{c}
					}
				}
				a.Authorize(r, act, res)
				a.Verify(r, act, res)
			}
			maskToken(m, tok)
			maskCacheKey(tok+":x", tok)
			h.seen(in)
		})
	}
	for i := 0; h.more(i, 8000); i++ {
		p := "/" + h.str(5, "{a}", "{", "}", "{}", "/", "?", "q=", "&", "%", "x", ";", "{b}")
		in := fmt.Sprintf("rule path %q", p)
		h.run(in, func() {
			mr, err := NewMappingRules(map[string][]Rule{"d": {{Method: "get", Path: p, Action: "a", Resource: h.str(3, "{a}", "{", "}", "{b}", "x")}}})
			if err != nil {
				return
			}
			mr.Translate("d", "get", h.str(4, "/", "x", "{a}", ""), h.str(4, "q=", "&", "x", "%", "=", ";"))
			mr.Translate("", "", "", "")
		})
	}
	NewMappingRules(nil)
	h.finish("random tokens, certificates, requests and rules through every entry point; any panic is a failure")
}
