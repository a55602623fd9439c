package access

import (
	"crypto/x509"
	"fmt"
	"net/url"
	"testing"
	"time"

	"github.com/golang-jwt/jwt/v4"
)

func TestVerifC22(t *testing.T) {
	h := newVH(t)
	var val func(d int) interface{}
	val = func(d int) interface{} {
		switch h.Intn(9) {
		case 0:
			return nil
		case 1:
			return h.Intn(5)
		case 2:
			return 1.5
		case 3:
			return true
		case 4, 5:
			return h.pick("", "x", "k1", "\x00", "spiffe://a")
		case 6:
			if d > 0 {
				return []interface{}{val(d - 1), val(d - 1)}
			}
			return []interface{}{}
		case 7:
			if d > 0 {
				return map[string]interface{}{"x5t#S256": val(d - 1), "proxy-principals#spiffe": val(d - 1)}
			}
			return map[string]interface{}{}
		}
		return []interface{}{nil, 1, "x", []interface{}{}}
	}
	for i := 0; h.more(i, 25000); i++ {
		hdr := map[string]interface{}{"kid": "k1"}
		if h.chance(30) {
			hdr["kid"] = val(1)
		}
		if h.chance(30) {
			hdr["jku"] = val(1)
		}
		cl := map[string]interface{}{"exp": time.Now().Unix() + 3600, "cnf": map[string]interface{}{"x5t#S256": val(1), "proxy-principals#spiffe": val(2)}}
		for _, k := range []string{"exp", "iat", "nbf", "client_id", "scp", "cnf", "aud", "sub"} {
			if h.chance(8) {
				cl[k] = val(2)
			}
		}
		tok := sign(hdr, cl, secret("k1", ""))
		switch h.Intn(10) {
		case 0:
			tok = h.str(8, ".", "e30", "eyJ", "bnVsbA", "\xff", "a", "=")
		case 1:
			tok = jwt.EncodeSegment([]byte(h.pick("null", "{}", "[]", `{"alg":"HS256"}`, `{"alg":null,"kid":"k1"}`, `{"alg":"none","kid":"k1"}`, `{"alg":5}`))) + "." + jwt.EncodeSegment([]byte(h.pick("null", "{}", "[]", "1"))) + "." + h.pick("", "x")
		}
		prov := h.Intn(5)
		var cert *x509.Certificate
		if h.chance(80) {
			cert = &x509.Certificate{}
			if h.chance(50) {
				cert.URIs = []*url.URL{{Scheme: "spiffe"}, {}}
			}
		}
		cid, bind := h.chance(50), h.chance(70)
		in := fmt.Sprintf("token %q header %v claims %v provider %d certificate %v checks %v %v", tok, hdr, cl, prov, cert != nil, cid, bind)
		h.run(in, func() {
			var src func(string, string) interface{}
			switch prov {
			case 0:
			case 1:
				src = func(string, string) interface{} { return nil }
			case 2:
				src = func(string, string) interface{} { return 5 }
			default:
				src = keySource(map[[2]string]bool{{"k1", ""}: true}, nil)
			}
			p, err := New(WithJWKProvider(src), WithEnableVerifyClientID(cid), WithEnableMTLSCertificateBoundAccessToken(bind), WithClientCertificateOffsetSeconds("1h"))
			if err != nil {
				return
			}
			c, err := p.ParseAndValidateOAuth2AccessToken(tok, cert)
			if err == nil && c == nil {
				h.fail("nil", in, "no claims and no error", "claims or an error")
			}
			h.seen(tok)
		})
	}
	h.finish("tokens with claims and headers of every JSON type, malformed tokens, missing key sources and certificates; any panic is a failure")
}
